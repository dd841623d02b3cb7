package main

import (
	"fmt"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// Joins of disjuncts. The iterations of an unrolled loop are analysed one by one,
// and disjuncts that agree after an iteration, but for facts that no longer
// matter, are joined: what only one of them knows is forgotten.

// iteration analyses one iteration of an unrolled loop, and continues with each
// of the disjuncts at its end.
func (it *Interp) iteration(fr *Frame, lp *Loop) outcome {
	o := it.orc[len(it.orc)-1]
	if o.pos == len(o.trace) {
		var ends []stageEnd
		env0 := fr.env
		it.explore(func() {
			fr.env = cloneEnv(env0)
			out := it.region(fr, lp.header, nil, lp, true)
			e := stageEnd{st: it.st, env: fr.env, out: out}
			for i := range ends {
				if it.joinEnds(lp, &ends[i], &e) {
					return
				}
			}
			ends = append(ends, e)
		})
		fr.env = env0
		if len(ends) == 0 {
			panic(pathEnd{"no end"})
		}
		o.trace = append(o.trace, choice{n: len(ends), ends: ends, dbg: it.dbgSite()})
	}
	c := o.trace[o.pos]
	if c.ends == nil {
		panic("internal: non-deterministic replay of a loop")
	}
	o.pos++
	e := c.ends[c.taken]
	it.st = e.st.clone()
	fr.env = cloneEnv(e.env)
	return e.out
}

// joinEnds joins b into a if both go on with the next iteration.
func (it *Interp) joinEnds(lp *Loop, a, b *stageEnd) bool {
	if a.out.kind != outBack || b.out.kind != outBack || a.out.from != b.out.from {
		// The predecessor matters only for the header's phis.
		if a.out.kind != outBack || b.out.kind != outBack || !sameEdges(lp, a, b) {
			return false
		}
	}
	env := map[ssa.Value]Val{}
	for k, v := range a.env {
		w, ok := b.env[k]
		var m Val
		if ok {
			m = it.joinVal(a.st, b.st, v, w)
		}
		if m != nil {
			env[k] = m
			continue
		}
		if usedAfter(lp, k) {
			return false
		}
	}
	for k := range b.env {
		if _, ok := a.env[k]; !ok && usedAfter(lp, k) {
			return false
		}
	}
	st := it.joinStates(a.st, b.st)
	if st == nil {
		return false
	}
	a.st, a.env = st, env
	return true
}

// sameEdges is whether the header's phis have the same operands on both edges.
func sameEdges(lp *Loop, a, b *stageEnd) bool {
	i, j := -1, -1
	for n, p := range lp.header.Preds {
		if p == a.out.from {
			i = n
		}
		if p == b.out.from {
			j = n
		}
	}
	if i < 0 || j < 0 {
		return false
	}
	for _, ph := range headerPhis(lp) {
		if ph.Edges[i] != ph.Edges[j] {
			return false
		}
	}
	return true
}

// usedAfter is whether the value can be used after the iteration.
func usedAfter(lp *Loop, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !lp.body[in.Block()] || v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		if r.Block() == lp.header || !lp.body[r.Block()] {
			return true
		}
	}
	return false
}

func (it *Interp) joinVal(a, b *State, v, w Val) Val {
	if reflect.DeepEqual(v, w) {
		return v
	}
	switch x := v.(type) {
	case VInt:
		if y, ok := w.(VInt); ok {
			c := cEqual(x.l, y.l)
			if b.entails(c) {
				return v
			}
			if a.entails(c) {
				return w
			}
		}
	case VStruct:
		y, ok := w.(VStruct)
		if !ok || len(x.f) != len(y.f) {
			return nil
		}
		n := x
		n.f = nil
		for i := range x.f {
			m := it.joinVal(a, b, x.f[i], y.f[i])
			if m == nil {
				return nil
			}
			n.f = append(n.f, m)
		}
		return n
	}
	return nil
}

func (it *Interp) joinStates(a, b *State) *State {
	if a.nobj != b.nobj || len(a.objs) != len(b.objs) || len(a.ghost) != len(b.ghost) {
		return nil
	}
	for k, v := range a.ghost {
		if k == "trail" {
			continue // for messages only
		}
		w, ok := b.ghost[k]
		if !ok || !reflect.DeepEqual(v, w) {
			return nil
		}
	}
	n := a.clone()
	for id, o := range a.objs {
		p := b.objs[id]
		if p == nil || o.kind != p.kind || o.ver != p.ver || o.lazy != p.lazy || o.sym != p.sym || o.from != p.from ||
			len(o.cells) != len(p.cells) || !o.len.eq(p.len) || !reflect.DeepEqual(o.seq, p.seq) || !reflect.DeepEqual(o.def, p.def) {
			return nil
		}
		m := n.objs[id]
		if o.val != nil || p.val != nil {
			if o.val == nil || p.val == nil {
				return nil
			}
			if m.val = it.joinVal(a, b, o.val, p.val); m.val == nil {
				return nil
			}
		}
		for i := range o.cells {
			x, y := o.cells[i], p.cells[i]
			if !reflect.DeepEqual(x.key, y.key) || (x.present == nil) != (y.present == nil) || x.present != nil && x.present.key() != y.present.key() {
				return nil
			}
			if x.val == nil && y.val == nil {
				continue
			}
			if x.val == nil || y.val == nil {
				return nil
			}
			v := it.joinVal(a, b, x.val, y.val)
			if v == nil {
				return nil
			}
			m.cells[i].val = v
		}
		m.card = o.card || p.card
	}
	// What happened in one of them may have happened.
	k := 0
	for k < len(a.log) && k < len(b.log) && reflect.DeepEqual(a.log[k], b.log[k]) {
		k++
	}
	for _, e := range append(append([]Event(nil), a.log[k:]...), b.log[k:]...) {
		switch e.kind {
		case "read", "write", "elemread", "elemwrite", "cellread", "cellwrite":
		default:
			return nil
		}
	}
	n.log = append(append([]Event(nil), a.log...), b.log[k:]...)
	n.facts, n.ne, n.wits = nil, nil, nil
	n.hash = a.hash
	n.bump(fmt.Sprint("join ", b.hash))
	for _, f := range a.facts {
		for _, g := range b.facts {
			if f.eq == g.eq && f.l.eq(g.l) {
				n.facts = append(n.facts, f)
				break
			}
		}
	}
	for _, f := range a.ne {
		for _, g := range b.ne {
			if f.eq(g) {
				n.ne = append(n.ne, f)
				break
			}
		}
	}
	if b.fresh > n.fresh {
		n.fresh = b.fresh
	}
	return n
}
