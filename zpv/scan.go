package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// A contract can be about the iterations of a loop that scans a message: the
// loop's cursor is the position of the first read of the message in an
// iteration, and functions of the contract are called with its value
//
//	before every loop                      zpv<Name>Loop()
//	at the entry of the scanning loop      zpv<Name>Entry(p)
//	at the begin of an arbitrary iteration zpv<Name>Begin(p)
//	at its end, if there is another one   zpv<Name>Back(p, next)
//	at its end, if it's the last one      zpv<Name>Exit(p)
//	for every read in the iteration       zpv<Name>Read(p, pos, n, varint)

type scan struct {
	name string
	obj  int
	off  Lin
}

func (it *Interp) scanOf() *scan {
	s, _ := it.st.ghost["scan"].(*scan)
	return s
}

func (c *Check) specFunc(name string) *ssa.Function {
	p := c.ld.ssa[c.ld.mod]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// messageReads returns the events since n that read the scanned message.
func (it *Interp) messageReads(s *scan, log []Event) []Event {
	var r []Event
	for _, e := range log {
		if (e.kind == "read" || e.kind == "uvread") && e.obj == s.obj {
			r = append(r, e)
		}
	}
	return r
}

func (c *Check) scanHook() *LoopHook {
	cursor := map[*Loop]*Lin{}
	callSpec := func(it *Interp, s *scan, what string, args ...Val) {
		if f := c.specFunc("zpv" + s.name + what); f != nil {
			it.call(f, args, nil, f.Pos())
		}
	}
	reads := func(it *Interp, s *scan, p Lin, evs []Event) {
		f := c.specFunc("zpv" + s.name + "Read")
		if f == nil {
			return
		}
		for _, e := range evs {
			n := e.n
			if e.kind == "uvread" {
				n = lc(0)
			}
			it.call(f, []Val{VInt{p.sub(s.off)}, VInt{e.pos.sub(s.off)}, VInt{n}, vbool(e.kind == "uvread")}, nil, e.at)
		}
	}
	type begun struct{ log int }
	return &LoopHook{
		entry: func(it *Interp, fr *Frame, lp *Loop) {
			if s := it.scanOf(); s != nil {
				callSpec(it, s, "Loop")
			}
		},
		pre: func(it *Interp, fr *Frame, lp *Loop, passes []iterTrace, atEntry func(Lin) Lin) {
			delete(cursor, lp)
			s := it.scanOf()
			if s == nil {
				return
			}
			for _, t := range passes {
				if r := it.messageReads(s, t.log); len(r) > 0 {
					p := r[0].pos
					cursor[lp] = &p
					break
				}
			}
			if cursor[lp] == nil {
				return
			}
			c.rep.note("scan loops", fmt.Sprintf("%s %s", fnName(fr.fn), it.ld.posStr(loopPos(lp))))
			it.st.ghost["scanloop"] = nil
			callSpec(it, s, "Entry", VInt{atEntry(*cursor[lp]).sub(s.off)})
		},
		begin: func(it *Interp, fr *Frame, lp *Loop) {
			s := it.scanOf()
			if s == nil || cursor[lp] == nil {
				return
			}
			if old, ok := it.st.ghost["scanning"].(*Loop); ok && old != nil {
				it.undecided(loopPos(lp), "more than one loop scans the message")
			}
			it.st.ghost["scanning"] = lp
			callSpec(it, s, "Begin", VInt{cursor[lp].sub(s.off)})
			it.st.ghost["scanbegin"] = begun{len(it.st.log)}
		},
		back: func(it *Interp, fr *Frame, lp *Loop, subst func(Lin) Lin) {
			s := it.scanOf()
			if s == nil || cursor[lp] == nil {
				return
			}
			p := *cursor[lp]
			evs := it.messageReads(s, it.st.log[it.st.ghost["scanbegin"].(begun).log:])
			next := subst(p)
			reads(it, s, p, evs)
			callSpec(it, s, "Back", VInt{p.sub(s.off)}, VInt{next.sub(s.off)})
		},
		exit: func(it *Interp, fr *Frame, lp *Loop, out outcome) {
			s := it.scanOf()
			if s == nil || cursor[lp] == nil {
				return
			}
			p := *cursor[lp]
			reads(it, s, p, it.messageReads(s, it.st.log[it.st.ghost["scanbegin"].(begun).log:]))
			callSpec(it, s, "Exit", VInt{p.sub(s.off)})
		},
	}
}

func scanIntrinsics(c *Check, m map[string]model) {
	m["zpvScan"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		b := a[1].(VSlice)
		it.st.ghost["scan"] = &scan{constStr(a[0], it), b.obj, b.off}
		if it.loopHook == nil {
			it.loopHook = c.scanHook()
		}
		return nil
	}
	m["zpvHold"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		it.st.ghost["held:"+constStr(a[0], it)] = a[1]
		return nil
	}
	m["zpvHeld"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		v, ok := it.st.ghost["held:"+constStr(a[0], it)].(Val)
		if !ok {
			return VIface{nil: condTrue}
		}
		return v
	}
	m["zpvUndecided"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		it.undecided(at, "%s", constStr(a[0], it))
		return nil
	}
}
