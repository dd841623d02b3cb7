package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Intrinsics of the contract language (spec/*.go.txt).

func constStr(v Val, it *Interp) string {
	s, ok := v.(VStr)
	if !ok {
		return "?"
	}
	if s.obj == 0 {
		return ""
	}
	var b strings.Builder
	for _, g := range it.readSeq(s.obj, s.off, s.len) {
		switch g.c.kind {
		case kLit:
			n := g.lo.c.Int64()
			b.WriteString(g.c.lit[n : n+g.ln.c.Int64()])
		case kByte:
			b.WriteByte(byte(g.c.v.c.Int64()))
		default:
			return "?"
		}
	}
	return b.String()
}

// label splits "C07: text" and reports whether the obligation belongs to the
// property that is being checked.
func (c *Check) label(what string) (string, bool) {
	i := strings.Index(what, ": ")
	if i < 0 {
		return what, true
	}
	for _, p := range strings.Split(what[:i], "/") {
		if p == c.prop {
			c.reached[what] = true
			return strings.TrimPrefix(what[i+2:], "~"), true
		}
	}
	return what[i+2:], false
}

// vacuous reports the assertions of the property that no disjunct reached, in
// the contracts that were analysed. "C01: ~text" need not be reached.
func (c *Check) vacuous() {
	pkg := c.ld.ssa[c.ld.mod]
	if pkg == nil || len(c.rep.findings) > 0 || *only != "" {
		return
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !strings.HasPrefix(f.Name(), "zpv") || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := cl.Common().StaticCallee()
				if callee == nil {
					continue
				}
				visit(callee)
				for _, a := range cl.Common().Args {
					k, ok := a.(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String {
						continue
					}
					what := constant.StringVal(k.Value)
					if callee.Name() == "zpvScan" {
						for _, n := range []string{"Loop", "Entry", "Begin", "Back", "Exit", "Read"} {
							visit(c.specFunc("zpv" + what + n))
						}
					}
					if !strings.HasPrefix(callee.Name(), "zpvAssert") {
						continue
					}
					i := strings.Index(what, ": ")
					if i < 0 || c.reached[what] || strings.HasPrefix(what[i+2:], "~") {
						continue
					}
					for _, p := range strings.Split(what[:i], "/") {
						if p == c.prop {
							c.fail("contract", "vacuous", cl.Pos(), what, "no disjunct reaches this assertion")
						}
					}
				}
			}
		}
	}
	for _, n := range c.contracts {
		if strings.HasPrefix(n, "Gen_") || strings.HasPrefix(n, "Bind_") {
			for _, p := range c.ld.ssa {
				visit(p.Func("zpvSpec" + n))
			}
		}
		visit(pkg.Func("zpvSpec" + n))
	}
}

type mark struct{ log, nobj int }

func (it *Interp) since() ([]Event, int) {
	m, ok := it.st.ghost["mark"].(mark)
	if !ok {
		return nil, 0
	}
	return it.st.log[m.log:], m.nobj
}

func isWrite(k string) bool {
	switch k {
	case "cellwrite", "write", "elemwrite", "mapwrite", "mapclear", "globalwrite":
		return true
	}
	return false
}

func intrinsics(c *Check) map[string]model {
	m := map[string]model{}
	named := func(t types.Type) model {
		return func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
			return it.symbolic(t, constStr(a[0], it))
		}
	}
	m["zpvU64"] = named(types.Typ[types.Uint64])
	m["zpvI64"] = named(types.Typ[types.Int64])
	m["zpvU32"] = named(types.Typ[types.Uint32])
	m["zpvI32"] = named(types.Typ[types.Int32])
	m["zpvInt"] = named(types.Typ[types.Int])
	m["zpvBool"] = named(types.Typ[types.Bool])
	m["zpvF32"] = named(types.Typ[types.Float32])
	m["zpvF64"] = named(types.Typ[types.Float64])
	once := func(kind string, mk func(it *Interp, name string) Val) model {
		return func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
			k := kind + ":" + constStr(a[0], it)
			if v, ok := it.st.ghost[k]; ok {
				return v
			}
			v := mk(it, constStr(a[0], it))
			it.st.ghost[k] = v
			return v
		}
	}
	m["zpvBytes"] = once("bytes", func(it *Interp, n string) Val { return it.symbolic(types.NewSlice(types.Typ[types.Uint8]), n) })
	m["zpvString"] = once("string", func(it *Interp, n string) Val { return it.symbolic(types.Typ[types.String], n) })
	m["zpvU16s"] = once("u16s", func(it *Interp, n string) Val {
		v := it.symbolic(types.NewSlice(types.Typ[types.Uint16]), n).(VSlice)
		it.assume(cLess(v.len, lbig(pow2(30))))
		it.assume(cNot(v.nil))
		v.nil = condFalse
		v.cap = v.len
		it.obj(v.obj).len = v.len
		return v
	})
	m["zpvMap"] = once("map", func(it *Interp, n string) Val {
		return it.symbolic(types.NewMap(types.Typ[types.Int], types.Typ[types.Uint64]), n)
	})
	m["zpvRepeated"] = once("rep", func(it *Interp, n string) Val {
		return it.symbolic(types.NewMap(types.Typ[types.Int], types.NewStruct(nil, nil)), n)
	})
	m["zpvSize"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		return VInt{la(boundedAtom("size:"+constStr(a[0], it), bi(0), pow2(40)))}
	}
	m["zpvAssume"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		it.assume(a[0].(VBool).c)
		return nil
	}
	m["zpvAssert"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[1], it))
		if !ok {
			return nil
		}
		it.check(a[0].(VBool).c, "assert", at, what)
		return nil
	}
	eq := func(it *Interp, x, y []Seg, at token.Pos, what string) {
		if it.quiet == 0 {
			it.obls++
		}
		if it.seqEqual(x, y) == 1 {
			if it.quiet == 0 {
				it.discharged++
			}
			return
		}
		it.reportAt("assert", at, what, fmt.Sprintf("%s: %s is not %s", what, segStr(x), segStr(y)))
	}
	m["zpvAssertEq"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[2], it))
		if !ok {
			return nil
		}
		x, y := a[0].(VSlice), a[1].(VSlice)
		eq(it, it.readSeq(x.obj, x.off, x.len), it.readSeq(y.obj, y.off, y.len), at, what)
		return nil
	}
	m["zpvAssertStr"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[2], it))
		if !ok {
			return nil
		}
		x, y := a[0].(VStr), a[1].(VSlice)
		eq(it, it.readSeq(x.obj, x.off, x.len), it.readSeq(y.obj, y.off, y.len), at, what)
		return nil
	}
	m["zpvAssertStrEq"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[2], it))
		if !ok {
			return nil
		}
		x, y := a[0].(VStr), a[1].(VStr)
		eq(it, it.readSeq(x.obj, x.off, x.len), it.readSeq(y.obj, y.off, y.len), at, what)
		return nil
	}
	// The two slices are the same memory.
	m["zpvAssertSame"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[2], it))
		if !ok {
			return nil
		}
		x, y := a[0].(VSlice), a[1].(VSlice)
		cond := cConj(cEqual(x.off, y.off), cEqual(x.len, y.len))
		if x.obj != y.obj {
			cond = condFalse
		}
		it.check(cond, "assert", at, what)
		return nil
	}
	inside := func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[3], it))
		if !ok {
			return nil
		}
		var obj int
		var off, ln Lin
		switch x := a[0].(type) {
		case VSlice:
			obj, off, ln = x.obj, x.off, x.len
		case VStr:
			obj, off, ln = x.obj, x.off, x.len
		}
		b := a[1].(VSlice)
		cond := cConj(cLeq(b.off.add(asLin(a[2])), off), cLeq(off.add(ln), b.off.add(b.len)))
		if obj != b.obj {
			cond = condFalse
		}
		it.check(cond, "assert", at, what)
		return nil
	}
	m["zpvAssertInside"] = inside
	m["zpvAssertInsideStr"] = inside
	m["zpvAssertDistinct"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[2], it))
		if !ok {
			return nil
		}
		x, y := a[0].(VSlice), a[1].(VSlice)
		it.check(cBool(x.obj != y.obj || x.obj == 0), "assert", at, what)
		return nil
	}
	m["zpvAssertDistinctStr"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[2], it))
		if !ok {
			return nil
		}
		x, y := a[0].(VSlice), a[1].(VStr)
		it.check(cBool(x.obj != y.obj || x.obj == 0), "assert", at, what)
		return nil
	}
	// zpvCat returns a new slice with the concatenated contents and spare capacity.
	m["zpvCat"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		name := constStr(a[0], it)
		parts := a[1].(VSlice)
		var q []Seg
		n, ok := parts.len.c, parts.len.isConst()
		if !ok {
			it.undecided(at, "zpvCat of an unknown number of parts")
		}
		for i := int64(0); i < n.Int64(); i++ {
			o := it.obj(parts.obj)
			ci := it.arrCell(o, VInt{parts.off.addc(i)})
			p := it.obj(parts.obj).cells[ci].val.(VSlice)
			q = append(q, it.readSeq(p.obj, p.off, p.len)...)
		}
		q = it.trimSeq(q)
		ln := seqLen(q)
		it.assume(cLeq(ln, lbig(pow2(45))))
		spare := la(boundedAtom("spare:"+name, bi(0), maxLen))
		o := it.newBytes(name, append(append([]Seg{}, q...), srcSeg(name+".spare", lc(0), spare)))
		o.pre = true
		return VSlice{o.id, lc(0), ln, ln.add(spare), condFalse}
	}
	// zpvSnap returns a copy of the current contents.
	m["zpvSnap"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		s := a[0].(VSlice)
		q := it.readSeq(s.obj, s.off, s.len)
		o := it.newBytes("snapshot", q)
		return VSlice{o.id, lc(0), s.len, s.len, condFalse}
	}
	m["zpvMark"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		it.st.ghost["mark"] = mark{len(it.st.log), it.st.nobj}
		return nil
	}
	m["zpvAssertPure"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[0], it))
		if !ok {
			return nil
		}
		evs, nobj := it.since()
		it.count(true)
		for _, e := range evs {
			if isWrite(e.kind) && (e.obj <= nobj || e.kind == "globalwrite") && e.note != "intrinsic" {
				it.reportAt("effect", e.at, what, fmt.Sprintf("%s: %s of %s", what, e.kind, it.st.objs[e.obj].name))
				it.count(false)
			}
		}
		return nil
	}
	// No write to the memory of b since the mark.
	m["zpvAssertNotWritten"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[1], it))
		if !ok {
			return nil
		}
		id := 0
		switch x := a[0].(type) {
		case VSlice:
			id = x.obj
		case VIface:
			switch y := x.v.(type) {
			case VSlice:
				id = y.obj
			case VStr:
				id = y.obj
			}
		}
		evs, _ := it.since()
		it.count(true)
		for _, e := range evs {
			if isWrite(e.kind) && e.obj == id && id != 0 {
				it.reportAt("effect", e.at, what, what)
				it.count(false)
			}
		}
		return nil
	}
	// Reads of buf since the mark are inside [lo,hi).
	m["zpvAssertReads"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[3], it))
		if !ok {
			return nil
		}
		b := a[0].(VSlice)
		lo, hi := b.off.add(asLin(a[1])), b.off.add(asLin(a[2]))
		evs, _ := it.since()
		it.count(true)
		for _, e := range evs {
			if (e.kind == "read" || e.kind == "uvread") && e.obj == b.obj {
				if !it.entails(cLeq(lo, e.pos)) || !it.entails(cLeq(e.pos.add(e.n), hi)) {
					it.reportAt("effect", e.at, what, fmt.Sprintf("%s: reads [%s,+%s)", what, e.pos, e.n))
					it.count(false)
				}
			}
		}
		return nil
	}
	m["zpvAssertNoAlloc"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[0], it))
		if !ok {
			return nil
		}
		evs, _ := it.since()
		it.count(true)
		for _, e := range evs {
			if e.heap {
				it.reportAt("alloc", e.at, what, fmt.Sprintf("%s: %s %s", what, e.kind, e.note))
				it.count(false)
			}
		}
		return nil
	}
	// Allocations since the mark are those of the slice's array, and were needed
	// because the slice is longer than the capacity was.
	m["zpvAssertGrow"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[3], it))
		if !ok {
			return nil
		}
		b := a[0].(VSlice)
		own := map[int]bool{}
		for id := b.obj; id != 0 && !own[id]; id = it.obj(id).from {
			own[id] = true
		}
		evs, _ := it.since()
		it.count(true)
		for _, e := range evs {
			if !e.heap {
				continue
			}
			switch {
			case e.kind == "alloc" && e.note == "append" && own[e.obj]:
			case e.kind == "alloc" && e.note == "make" && own[e.obj] && it.entails(cLess(a[1].(VInt).l, a[2].(VInt).l)):
			default:
				it.reportAt("alloc", e.at, what, fmt.Sprintf("%s: %s %s", what, e.kind, e.note))
				it.count(false)
			}
		}
		return nil
	}
	keyedIntrinsics(c, m)
	scanIntrinsics(c, m)
	genIntrinsics(c, m)
	return m
}

func (it *Interp) count(ok bool) {
	if it.quiet > 0 {
		return
	}
	if ok {
		it.obls++
		it.discharged++
	} else {
		it.discharged--
	}
}

// check requires c to hold; what names the obligation.
func (it *Interp) check(c *Cond, kind string, at token.Pos, what string) {
	if it.quiet == 0 {
		it.obls++
	}
	if it.entails(c) || it.decide(c) {
		if it.quiet == 0 {
			it.discharged++
		}
		return
	}
	it.reportAt(kind, at, what, what+": cannot establish "+c.String())
	panic(pathEnd{"violation"})
}

// reportAt reports a violation of the named obligation; the construct is the
// innermost function of the repository that was analysed before.
func (it *Interp) reportAt(kind string, at token.Pos, what, msg string) {
	if it.quiet > 0 {
		return
	}
	// The end of a path that cannot happen.
	for _, f := range it.st.facts[:len(it.st.facts):len(it.st.facts)] {
		it.varintSizes(f.l)
	}
	if propagated(it.st.facts) {
		it.discharged++
		panic(pathEnd{"contradiction"})
	}
	f := Finding{Rule: it.rule, Kind: kind, Pos: it.ld.posStr(at), Construct: what, Msg: msg, Stack: it.stackString(at)}
	if fr := it.cur(); fr != nil {
		f.Func = fnName(fr.fn)
	}
	var sites []string
	seen := map[string]bool{}
	for i := len(it.st.log) - 1; i >= 0 && len(sites) < 12; i-- {
		e := it.st.log[i]
		if e.kind == "enter" && !seen[e.note] {
			seen[e.note] = true
			sites = append(sites, e.note)
		}
	}
	if len(sites) > 0 {
		f.Path = append(f.Path, "in "+strings.Join(sites, " <- "))
	}
	if t, ok := it.st.ghost["trail"].([]string); ok {
		p := t
		if len(p) > 40 {
			p = p[len(p)-40:]
		}
		f.Path = append(f.Path, p...)
	}
	if dumpFacts {
		for _, c := range it.st.facts {
			f.Path = append(f.Path, "FACT "+c.String())
		}
		for _, c := range it.st.ne {
			f.Path = append(f.Path, "FACT "+c.String()+" != 0")
		}
	}
	it.rep.add(f)
}

var _ ssa.Value
