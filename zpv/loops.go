package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Loops. In this order:
//   - a loop whose header condition is a constant in every iteration is unrolled;
//   - an element-wise loop (over the indexes of a slice or the entries of a map,
//     whose body touches only the entry of the element) is summarized by
//     applying the body once to each tracked entry;
//   - otherwise an inductive invariant is inferred: everything the body changes
//     is forgotten, and the largest inductive subset of a set of candidate
//     linear invariants is assumed instead.

type exitState struct {
	out outcome
	st  *State
	env map[ssa.Value]Val
}

type loopResult struct {
	exits   []exitState
	foreach *foreachPlan
}

// LoopHook observes the analysis of invariant-based loops.
// Expressions are over the atoms that stand for the values of variables at the
// header; subst gives their value at the entry of the loop or the back edge.
type LoopHook struct {
	pre   func(it *Interp, fr *Frame, lp *Loop, passes []iterTrace, atEntry func(Lin) Lin) // after invariants are known
	begin func(it *Interp, fr *Frame, lp *Loop)                                            // final pass, at the header
	back  func(it *Interp, fr *Frame, lp *Loop, subst func(Lin) Lin)                       // final pass, at the back edge
	exit  func(it *Interp, fr *Frame, lp *Loop, out outcome)
	entry func(it *Interp, fr *Frame, lp *Loop)
}

func substFrom(h, b *leafMap) func(Lin) Lin {
	m := map[*Atom]Lin{}
	for _, n := range h.names {
		l := h.m[n]
		if len(l.t) == 1 && l.t[0].k.IsInt64() && l.t[0].k.Int64() == 1 && l.c.Sign() == 0 {
			m[l.t[0].a] = b.m[n]
		}
	}
	return func(l Lin) Lin {
		r := lbig(l.c)
		for _, t := range l.t {
			if v, ok := m[t.a]; ok {
				r = r.add(v.scale(t.k))
			} else {
				r = r.add(la(t.a).scale(t.k))
			}
		}
		return r
	}
}

type iterTrace struct {
	log []Event
	out outcome
}

func cloneEnv(e map[ssa.Value]Val) map[ssa.Value]Val {
	n := make(map[ssa.Value]Val, len(e))
	for k, v := range e {
		n[k] = v
	}
	return n
}

func (it *Interp) doLoop(fr *Frame, lp *Loop, prev *ssa.BasicBlock) outcome {
	it.phis(fr, lp.header, prev)
	if it.loopsSeen != nil {
		k := fnName(fr.fn) + " " + it.ld.posStr(loopPos(lp))
		if it.loopsSeen[k] == "" {
			it.loopsSeen[k] = "?"
		}
	}
	// Constant trip count.
	if n, ok := it.constTrips(fr, lp); ok {
		it.noteLoop(fr, lp, "unrolled")
		for i := 0; i <= n+1; i++ {
			out := it.iteration(fr, lp)
			if out.kind != outBack {
				return out
			}
			it.phis(fr, lp.header, out.from)
		}
		it.undecided(loopPos(lp), "unrolled loop does not end")
	}
	if n := shiftTrips(lp); n > 0 {
		it.noteLoop(fr, lp, "unrolled")
		for i := 0; i <= n; i++ {
			out := it.iteration(fr, lp)
			if out.kind != outBack {
				return out
			}
			it.phis(fr, lp.header, out.from)
		}
		it.undecided(loopPos(lp), "unrolled loop does not end")
	}
	if fr.visits == nil {
		fr.visits = map[*ssa.BasicBlock]int{}
	}
	fr.visits[lp.header]++
	if it.loopHook != nil && it.loopHook.entry != nil && it.quiet == 0 {
		it.loopHook.entry(it, fr, lp)
	}
	key := fmt.Sprintf("%s|%d|%p|%d|%d|%d|%v", it.pathKey(), len(it.stack), lp, fr.visits[lp.header], it.st.nobj, it.st.hash, it.quiet > 0)
	res, ok := it.loopCache[key]
	if !ok {
		res = it.analyzeLoop(fr, lp)
		it.loopCache[key] = res
	}
	if res.foreach != nil {
		it.noteLoop(fr, lp, "element-wise")
		return it.applyForeach(fr, lp, res.foreach)
	}
	it.noteLoop(fr, lp, "invariant")
	if len(res.exits) == 0 {
		panic(pathEnd{"no exit from loop"})
	}
	i := it.choose(len(res.exits))
	e := res.exits[i]
	it.st = e.st.clone()
	fr.env = cloneEnv(e.env)
	return e.out
}

func (it *Interp) noteLoop(fr *Frame, lp *Loop, how string) {
	if it.loopsSeen != nil {
		it.loopsSeen[fnName(fr.fn)+" "+it.ld.posStr(loopPos(lp))] = how
	}
}

func loopPos(lp *Loop) token.Pos {
	for _, in := range lp.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	var best token.Pos
	for b := range lp.body {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (best == 0 || p < best) {
				best = p
			}
		}
	}
	return best
}

// constTrips reports the number of iterations if the header compares an
// induction variable with constant start and step to a constant.
func (it *Interp) constTrips(fr *Frame, lp *Loop) (int, bool) {
	cond, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	bo, ok := cond.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	ph, _, ok := inductionOf(lp, bo.X)
	other := bo.Y
	if !ok {
		ph, _, ok = inductionOf(lp, bo.Y)
		other = bo.X
		if !ok {
			return 0, false
		}
	}
	start, ok := fr.env[ph].(VInt)
	if !ok || !start.l.isConst() {
		return 0, false
	}
	var limit Lin
	if c, isC := other.(*ssa.Const); isC {
		if c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		limit = lc(c.Int64())
	} else if v, isV := fr.env[other]; isV {
		vi, isI := v.(VInt)
		if !isI || !vi.l.isConst() {
			return 0, false
		}
		if in, isIn := other.(ssa.Instruction); isIn && lp.body[in.Block()] {
			return 0, false
		}
		limit = vi.l
	} else {
		return 0, false
	}
	step := inductionStep(lp, ph)
	if step == 0 {
		return 0, false
	}
	d := new(big.Int).Sub(limit.c, start.l.c)
	if !d.IsInt64() {
		return 0, false
	}
	n := d.Int64() / step
	if n < 0 {
		n = 0
	}
	n += 2
	if n > 400 {
		return 0, false
	}
	return int(n), true
}

// shiftTrips bounds the number of iterations of a loop that goes on while an
// integer that every iteration shifts to the right, or divides, has not become
// small. It is 0 if the loop is not of this form.
func shiftTrips(lp *Loop) int {
	cond, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	bo, ok := cond.Cond.(*ssa.BinOp)
	if !ok {
		return 0
	}
	for _, ph := range headerPhis(lp) {
		if bo.X != ph && bo.Y != ph {
			continue
		}
		n := 0
		for i, p := range lp.header.Preds {
			if !lp.body[p] {
				continue
			}
			sh, ok := ph.Edges[i].(*ssa.BinOp)
			if !ok || sh.X != ph || (sh.Op != token.SHR && sh.Op != token.QUO) {
				return 0
			}
			c, ok := sh.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return 0
			}
			k := c.Int64()
			if sh.Op == token.QUO {
				k = int64(big.NewInt(k).BitLen()) - 1
			}
			if k < 4 {
				return 0
			}
			if m := 64/int(k) + 1; m > n {
				n = m
			}
		}
		return n
	}
	return 0
}

func (it *Interp) analyzeLoop(fr *Frame, lp *Loop) *loopResult {
	env0 := cloneEnv(fr.env)
	defer func() { fr.env = env0 }()
	if p, why := it.tryForeach(fr, lp, env0); p != nil {
		return &loopResult{foreach: p}
	} else {
		fr.env = cloneEnv(env0)
		return it.invariantLoop(fr, lp, env0, why)
	}
}

// ---------------------------------------------------------------------------
// Element-wise loops.

type foreachPlan struct {
	phi    *ssa.Phi // index loops
	step   int64
	keyOff Lin // element key = phi + keyOff
	entry  Lin
	next   *ssa.Next // map loops
	rng    ssa.Value
	mapObj int
	keyed  []int // objects with per-key cells that the body touches
	deflts []foreachDefault
}

type foreachDefault struct {
	obj    int
	val    Val // uniform value of every element, nil if unknown
	absent bool
}

func headerPhis(lp *Loop) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range lp.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

// inductionOf finds the header phi that v is at a constant distance from.
func inductionOf(lp *Loop, v ssa.Value) (*ssa.Phi, int64, bool) {
	off := int64(0)
	for {
		switch x := v.(type) {
		case *ssa.Phi:
			return x, off, x.Block() == lp.header
		case *ssa.BinOp:
			c, ok := x.Y.(*ssa.Const)
			if !ok || (x.Op != token.ADD && x.Op != token.SUB) || !lp.body[x.Block()] || c.Value == nil {
				return nil, 0, false
			}
			if x.Op == token.ADD {
				off += c.Int64()
			} else {
				off -= c.Int64()
			}
			v = x.X
		default:
			return nil, 0, false
		}
	}
}

func inductionStep(lp *Loop, ph *ssa.Phi) int64 {
	step := int64(0)
	for i, p := range lp.header.Preds {
		if !lp.body[p] {
			continue
		}
		q, o, ok := inductionOf(lp, ph.Edges[i])
		if !ok || q != ph || o == 0 || (step != 0 && o != step) {
			return 0
		}
		step = o
	}
	return step
}

// tryExplore is explore, but returns what could not be decided.
func (it *Interp) tryExplore(run func()) (und string) {
	orc, stack, st := len(it.orc), it.stack, it.st
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			it.orc, it.stack, it.st = it.orc[:orc], stack, st
			und = u.msg
		}
	}()
	it.explore(run)
	return ""
}

// distinct assumes that k is not the key of any tracked cell.
func (it *Interp) distinct(k Lin) {
	var ids []int
	for id := range it.st.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := it.st.objs[id]
		if o.kind != oArr && o.kind != oMap || o.konst {
			continue
		}
		for _, c := range o.cells {
			if x, ok := c.key.(VInt); ok {
				it.assume(cNe(k.sub(x.l)))
			}
		}
	}
}

// arbitraryCells makes the untracked cells of every object unknown.
func (it *Interp) arbitraryCells() {
	for _, o := range it.st.objs {
		if (o.kind == oArr || o.kind == oMap) && o.typ != nil && !o.konst {
			o.def, o.dflt, o.sym = nil, nil, true
			o.ver += 1000
		}
	}
}

type loopFin struct {
	st  *State
	log []Event
	key Lin
}

func (it *Interp) tryForeach(fr *Frame, lp *Loop, env0 map[ssa.Value]Val) (*foreachPlan, string) {
	plan := &foreachPlan{}
	for _, in := range lp.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			plan.next = n
			plan.rng = n.Iter
		}
	}
	phis := headerPhis(lp)
	cond, isIf := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, "the loop's header has no condition"
	}
	if plan.next == nil {
		if len(phis) != 1 {
			return nil, "loop-carried variables"
		}
		plan.phi = phis[0]
		if _, _, ok := intType(plan.phi.Type()); !ok {
			return nil, "loop-carried variable"
		}
		plan.entry = env0[plan.phi].(VInt).l
		plan.step = inductionStep(lp, plan.phi)
		if plan.step != 1 && plan.step != -1 {
			return nil, "step"
		}
	} else {
		if len(phis) > 0 {
			return nil, "map range with loop-carried variables"
		}
		m, ok := env0[plan.rng].(VMap)
		if !ok {
			return nil, "range over something else"
		}
		plan.mapObj = m.obj
		if m.obj == 0 {
			return plan, ""
		}
		o := it.obj(m.obj)
		if _, _, ok := intType(o.ktyp); !ok {
			return nil, "map with non-integer keys"
		}
	}
	snap := it.st
	base := snap.nobj
	it.quiet++
	defer func() {
		it.quiet--
		it.st = snap
		fr.next = nil
	}()

	// The loop condition must bound the induction variable.
	var bound Lin // over the atom of the induction variable: continue iff bound >= 0
	if plan.next == nil {
		n := 0
		why := ""
		und := it.tryExplore(func() {
			n++
			fr.env = cloneEnv(env0)
			bits, signed, _ := intType(plan.phi.Type())
			lo, hi := intRange(bits, signed)
			e := it.freshAtom("elem", new(big.Int).Add(lo, bi(2)), new(big.Int).Sub(hi, bi(2)))
			fr.env[plan.phi] = VInt{la(e)}
			for _, in := range lp.header.Instrs {
				switch in.(type) {
				case *ssa.Phi, *ssa.If, *ssa.DebugRef:
				default:
					it.instr(fr, in)
				}
			}
			c := it.val(fr, cond.Cond).(VBool).c
			if lp.body[lp.header.Succs[1]] {
				c = cNot(c)
			}
			k := c.l.coef(e)
			switch {
			case c.op == cGE && k.CmpAbs(bigOne) == 0 && k.Sign() == -int(plan.step):
				bound = c.l
			case c.op == cNE && k.CmpAbs(bigOne) == 0:
				l := c.l
				if k.Sign() > 0 {
					l = l.neg()
				}
				// l = limit - e; ascending from entry <= limit
				if plan.step > 0 && it.entails(cGe(l.subst(e, plan.entry))) {
					bound = l.addc(-1)
				} else if plan.step < 0 && it.entails(cGe(l.neg().subst(e, plan.entry))) {
					bound = l.neg().addc(-1)
				} else {
					why = "loop condition"
				}
			default:
				why = "loop condition"
			}
			// Express the bound relative to the induction variable 0.
			bound = bound.subst(e, lc(0))
		})
		fr.env = cloneEnv(env0)
		if und != "" {
			return nil, und
		}
		if why != "" || n != 1 {
			return nil, "loop condition"
		}
	}

	fail := ""
	var fins []loopFin
	iter := func(keyOff *Lin) func() {
		return func() {
			fr.env = cloneEnv(env0)
			it.st.log = nil
			it.arbitraryCells()
			var e, key Lin
			if plan.next == nil {
				bits, signed, _ := intType(plan.phi.Type())
				lo, hi := intRange(bits, signed)
				e = la(it.freshAtom("elem", new(big.Int).Add(lo, bi(2)), new(big.Int).Sub(hi, bi(2))))
				key = e
				fr.env[plan.phi] = VInt{e}
				if plan.step > 0 {
					it.assumeFact(geq(e, plan.entry))
				} else {
					it.assumeFact(geq(plan.entry, e))
				}
				if keyOff != nil {
					key = e.add(*keyOff)
					it.distinct(key)
				}
			} else {
				o := it.obj(plan.mapObj)
				bits, signed, _ := intType(o.ktyp)
				lo, hi := intRange(bits, signed)
				e = la(it.freshAtom("elem", lo, hi))
				key = e
				it.assume(cNot(env0[plan.rng].(VMap).nil))
				it.distinct(e)
				i := it.mapCell(o, VInt{e})
				it.assume(o.cells[i].present)
				fr.next = map[ssa.Value]Val{plan.next: VTuple{vbool(true), VInt{e}, o.cells[i].val}}
			}
			out := it.region(fr, lp.header, nil, lp, true)
			if out.kind == outExit && out.from == lp.header {
				return // past the end
			}
			if out.kind != outBack {
				fail = "the loop can be left early"
				return
			}
			fins = append(fins, loopFin{it.st.clone(), it.st.log, key})
		}
	}
	var keyOff *Lin
	if plan.next == nil {
		// What is the distance between index and element?
		if und := it.tryExplore(iter(nil)); und != "" {
			return nil, und
		}
		if fail != "" {
			return nil, fail
		}
		for _, f := range fins {
			for _, ev := range f.log {
				if (ev.kind == "elemread" || ev.kind == "elemwrite") && ev.obj <= base {
					d := ev.pos.sub(f.key)
					if keyOff == nil {
						keyOff = &d
					} else if !keyOff.eq(d) {
						return nil, "access to different elements"
					}
				}
			}
		}
		if keyOff == nil {
			return nil, "no access to elements"
		}
		plan.keyOff = *keyOff
		fins = nil
	}
	if und := it.tryExplore(iter(keyOff)); und != "" {
		return nil, und
	}
	if fail != "" {
		return nil, fail
	}
	// The body may change only cells of the element.
	wr, rd := map[int]bool{}, map[int]bool{}
	for _, f := range fins {
		for _, ev := range f.log {
			if ev.obj > base || ev.obj == 0 {
				continue
			}
			switch ev.kind {
			case "elemwrite", "elemread":
				if !f.st.eqLin(ev.pos, f.key) {
					return nil, "access to another element"
				}
				rd[ev.obj] = true
				if ev.kind == "elemwrite" {
					wr[ev.obj] = true
				}
			case "mapwrite", "mapread":
				k, ok := ev.val.(VInt)
				if !ok || !f.st.eqLin(k.l, f.key) {
					return nil, "access to another entry"
				}
				rd[ev.obj] = true
				if ev.kind == "mapwrite" {
					wr[ev.obj] = true
				}
			case "cellwrite", "write", "mapclear", "globalwrite":
				return nil, "the body writes to a variable outside of the loop"
			}
		}
	}
	if plan.next != nil {
		rd[plan.mapObj] = true
	}
	for o := range rd {
		plan.keyed = append(plan.keyed, o)
	}
	sort.Ints(plan.keyed)
	// Uniform results.
	for _, id := range sortedKeys(wr) {
		d := foreachDefault{obj: id}
		ok := len(fins) > 0
		vals := make([]Lin, len(fins))
		for i, f := range fins {
			ob := f.st.objs[id]
			if !ok {
				break
			}
			var c *kcell
			for j := range ob.cells {
				if k, isI := ob.cells[j].key.(VInt); isI && f.st.eqLin(k.l, f.key) {
					c = &ob.cells[j]
				}
			}
			if c == nil {
				ok = false
				break
			}
			if ob.kind == oMap {
				ok = ok && c.present.op == cFalse
				d.absent = true
				continue
			}
			v, isI := c.val.(VInt)
			if !isI {
				ok = false
				break
			}
			vals[i] = v.l
			if v.l.isConst() && d.val == nil {
				d.val = v
			}
		}
		if ok && !d.absent {
			ok = d.val != nil
			for i, f := range fins {
				ok = ok && f.st.eqLin(vals[i], d.val.(VInt).l)
			}
		}
		if plan.next != nil {
			ok = ok && id == plan.mapObj
		} else if ok {
			// All elements are visited.
			ob := snap.objs[id]
			ok = ob.kind == oArr
			if plan.step > 0 {
				ok = ok && snap.eqLin(plan.entry.add(plan.keyOff), lc(0)) &&
					// bound(i) = len-1-(i+keyOff)
					snap.eqLin(bound, ob.len.addc(-1).sub(plan.keyOff))
			} else {
				ok = ok && snap.eqLin(plan.entry.add(plan.keyOff), ob.len.addc(-1)) && snap.eqLin(bound, plan.keyOff)
			}
		}
		if !ok {
			d.val, d.absent = nil, false
		}
		plan.deflts = append(plan.deflts, d)
	}
	return plan, ""
}

func sortedKeys(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func (it *Interp) applyForeach(fr *Frame, lp *Loop, p *foreachPlan) outcome {
	defer func() { fr.next = nil }()
	var kt types.Type
	// The tracked keys.
	var keys []Lin
	have := map[string]bool{}
	for _, id := range p.keyed {
		if p.next != nil && id != p.mapObj {
			continue
		}
		for _, c := range it.obj(id).cells {
			if x, ok := c.key.(VInt); ok && !have[x.l.key()] {
				have[x.l.key()] = true
				keys = append(keys, x.l)
			}
		}
	}
	if p.next == nil {
		// What maps have for these keys.
		for _, d := range p.deflts {
			if o := it.obj(d.obj); o.kind == oMap {
				for _, k := range keys {
					it.mapCell(o, VInt{k})
				}
			}
		}
		for _, k := range keys {
			i := k.sub(p.keyOff)
			if p.step > 0 {
				if !it.decide(cLeq(p.entry, i)) {
					continue
				}
			} else if !it.decide(cLeq(i, p.entry)) {
				continue
			}
			fr.env[p.phi] = VInt{i}
			out := it.region(fr, lp.header, nil, lp, true)
			if out.kind == outReturn || (out.kind == outExit && out.from != lp.header) {
				it.undecided(loopPos(lp), "element-wise loop is left early")
			}
		}
	} else if p.mapObj != 0 {
		m := it.obj(p.mapObj)
		kt = m.ktyp
		mv := fr.env[p.rng].(VMap)
		if !it.decide(mv.nil) {
			for _, k := range keys {
				m = it.obj(p.mapObj)
				ci := it.findCell(m, VInt{k})
				if ci < 0 || !it.decide(m.cells[ci].present) {
					continue
				}
				fr.next = map[ssa.Value]Val{p.next: VTuple{vbool(true), VInt{k}, m.cells[ci].val}}
				out := it.region(fr, lp.header, nil, lp, true)
				if out.kind != outBack {
					it.undecided(loopPos(lp), "element-wise loop is left early")
				}
			}
		}
	}
	for _, d := range p.deflts {
		o := it.obj(d.obj)
		switch {
		case p.next != nil && (p.mapObj == 0 || !it.obj(p.mapObj).sym):
			// The map has no other entries, so nothing was done for other keys.
		case d.absent:
			o.sym = false
		case d.val != nil:
			o.def, o.dflt, o.sym = d.val, nil, false
		default:
			o.def, o.dflt, o.sym = nil, nil, true
			o.ver++
		}
	}
	// Leave the loop.
	if p.next == nil {
		bits, signed, _ := intType(p.phi.Type())
		lo, hi := intRange(bits, signed)
		f := la(it.freshAtom("last", new(big.Int).Add(lo, bi(2)), new(big.Int).Sub(hi, bi(2))))
		if p.step > 0 {
			it.assumeFact(geq(f, p.entry))
		} else {
			it.assumeFact(geq(p.entry, f))
		}
		fr.env[p.phi] = VInt{f}
	} else {
		var kz, vz Val = vint(0), vint(0)
		_ = kt
		t := p.next.Type().(*types.Tuple)
		if b, ok := t.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			kz = it.zero(t.At(1).Type())
		}
		if b, ok := t.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			vz = it.zero(t.At(2).Type())
		}
		fr.next = map[ssa.Value]Val{p.next: VTuple{vbool(false), kz, vz}}
	}
	next, _, done := it.block(fr, lp.header)
	if done || lp.body[next] {
		panic(pathEnd{"element-wise loop: not the exit"})
	}
	return outcome{kind: outExit, from: lp.header, to: next}
}

// ---------------------------------------------------------------------------
// Invariants.

type leafMap struct {
	names []string
	m     map[string]Lin
}

func (lm *leafMap) add(n string, l Lin) {
	if _, ok := lm.m[n]; !ok {
		lm.names = append(lm.names, n)
	}
	lm.m[n] = l
}

func leaves(v Val, name string, lm *leafMap) {
	switch x := v.(type) {
	case VInt:
		lm.add(name, x.l)
	case VSlice:
		lm.add(name+".off", x.off)
		lm.add(name+".len", x.len)
		lm.add(name+".cap", x.cap)
	case VStr:
		lm.add(name+".off", x.off)
		lm.add(name+".len", x.len)
	case VStruct:
		for i := range x.f {
			leaves(x.f[i], fmt.Sprintf("%s.%d", name, i), lm)
		}
	}
}

type cand struct {
	desc string
	mk   func(get func(string) Lin) *Cond
	comp string // for ranking: upper bound of this component
	dir  int
}

type loopShape struct {
	obj    map[string]int  // slices that are nil at entry
	nilvar map[string]bool // nilness varies
}

func (it *Interp) havocVal(v Val, t types.Type, name string, sh *loopShape) Val {
	switch x := v.(type) {
	case VInt:
		bits, signed, ok := intType(t)
		if !ok {
			bits, signed = 64, true
		}
		lo, hi := intRange(bits, signed)
		return VInt{la(it.freshAtom(name, lo, hi))}
	case VBool:
		return VBool{cGe(la(it.freshAtom("bool:"+name, bi(0), bi(1))).addc(-1))}
	case VFloat:
		_, hi := intRange(x.n, false)
		return VFloat{la(it.freshAtom("bits:"+name, bi(0), hi)), x.n}
	case VSlice:
		obj := x.obj
		if o, ok := sh.obj[name]; ok {
			obj = o
		}
		n := x.nil
		if sh.nilvar[name] {
			n = cGe(la(it.freshAtom("nil:"+name, bi(0), bi(1))).addc(-1))
		}
		off := la(it.freshAtom(name+".off", bi(0), maxLen))
		ln := la(it.freshAtom(name+".len", bi(0), maxLen))
		cp := la(it.freshAtom(name+".cap", bi(0), maxLen))
		it.assumeFact(geq(cp, ln))
		return VSlice{obj, off, ln, cp, n}
	case VStr:
		obj := x.obj
		if o, ok := sh.obj[name]; ok {
			obj = o
		}
		off := la(it.freshAtom(name+".off", bi(0), maxLen))
		ln := la(it.freshAtom(name+".len", bi(0), maxLen))
		return VStr{obj, off, ln}
	case VStruct:
		f := make([]Val, len(x.f))
		for i := range f {
			var ft types.Type = types.Typ[types.Int]
			if s, ok := t.Underlying().(*types.Struct); ok {
				ft = s.Field(i).Type()
			}
			f[i] = it.havocVal(x.f[i], ft, fmt.Sprintf("%s.%d", name, i), sh)
		}
		return VStruct{f}
	case VMap:
		mt := t.Underlying().(*types.Map)
		o := it.newObj(oMap, name)
		o.typ, o.ktyp, o.sym = mt.Elem(), mt.Key(), true
		return VMap{o.id, cGe(la(it.freshAtom("nil:"+name, bi(0), bi(1))).addc(-1))}
	case VIface:
		it.st.fresh++
		n := fmt.Sprintf("%s'%d", name, it.st.fresh)
		return VIface{sym: n, nil: cGe(la(boundedAtom("nil:"+n, bi(0), bi(1))).addc(-1))}
	}
	return v
}

// shapeDiff compares the value at the header with the one at the back edge and
// updates the shape. It reports whether the shape changed.
func (it *Interp) shapeDiff(h, b Val, name string, sh *loopShape, base int, at token.Pos) bool {
	setObj := func(ho, bo int) bool {
		if bo == ho || bo == 0 {
			return false
		}
		if ho == 0 && bo <= base {
			sh.obj[name] = bo
			return true
		}
		it.undecided(at, "a loop variable refers to different objects")
		return false
	}
	switch x := h.(type) {
	case VSlice:
		y := b.(VSlice)
		ch := setObj(x.obj, y.obj)
		if !sh.nilvar[name] && !(x.nil == y.nil || x.nil.op == y.nil.op && (x.nil.op == cTrue || x.nil.op == cFalse)) {
			if it.entails(x.nil) != it.entails(y.nil) || it.entails(cNot(x.nil)) != it.entails(cNot(y.nil)) || !it.known(x.nil) {
				sh.nilvar[name] = true
				ch = true
			}
		}
		return ch
	case VStr:
		return setObj(x.obj, b.(VStr).obj)
	case VStruct:
		ch := false
		y := b.(VStruct)
		for i := range x.f {
			if it.shapeDiff(x.f[i], y.f[i], fmt.Sprintf("%s.%d", name, i), sh, base, at) {
				ch = true
			}
		}
		return ch
	case VPtr:
		y, ok := b.(VPtr)
		if !ok || x.obj != y.obj || len(x.path) != len(y.path) {
			it.undecided(at, "a loop variable points at different objects")
		}
	case VFn:
		y := b.(VFn)
		if x.fn != y.fn || x.sym != y.sym {
			it.undecided(at, "a function changes in a loop")
		}
	case VArr:
		if y, ok := b.(VArr); !ok || x.obj != y.obj {
			it.undecided(at, "an array changes its identity in a loop")
		}
	}
	return false
}

func (sh *loopShape) clone() *loopShape {
	n := &loopShape{obj: map[string]int{}, nilvar: map[string]bool{}}
	for k, v := range sh.obj {
		n.obj[k] = v
	}
	for k, v := range sh.nilvar {
		n.nilvar[k] = v
	}
	return n
}

func (it *Interp) invariantLoop(fr *Frame, lp *Loop, env0 map[ssa.Value]Val, why string) *loopResult {
	pos := loopPos(lp)
	for _, in := range lp.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			it.undecided(pos, "range over a map or string that is not element-wise: %s", why)
		}
	}
	phis := headerPhis(lp)
	snap := it.st
	base := snap.nobj
	defer func() { it.st = snap }()
	sh := &loopShape{obj: map[string]int{}, nilvar: map[string]bool{}}
	mod := map[int]bool{}
	phiName := func(i int) string {
		p := phis[i]
		if p.Comment != "" {
			return p.Comment
		}
		return p.Name()
	}
	// Leaves of the current values.
	current := func(env map[ssa.Value]Val) *leafMap {
		lm := &leafMap{m: map[string]Lin{}}
		for i, p := range phis {
			leaves(env[p], phiName(i), lm)
		}
		for _, id := range sortedKeys(mod) {
			o := it.st.objs[id]
			if o.kind == oCell {
				leaves(o.val, "*"+o.name+fmt.Sprint(id), lm)
			}
		}
		return lm
	}
	// Forget what the body changes.
	havoc := func(env map[ssa.Value]Val) {
		for i, p := range phis {
			env[p] = it.havocVal(env0[p], p.Type(), phiName(i), sh)
		}
		for _, id := range sortedKeys(mod) {
			o := it.st.objs[id]
			switch o.kind {
			case oCell:
				it.force(o)
				o.val = it.havocVal(o.val, o.typ, "*"+o.name+fmt.Sprint(id), sh)
			case oBytes:
				it.st.fresh++
				o.seq = []Seg{srcSeg(fmt.Sprintf("%s'%d", o.name, it.st.fresh), lc(0), seqLen(o.seq))}
			case oArr:
				o.cells, o.def, o.dflt, o.sym = nil, nil, nil, true
				it.st.fresh++
				o.ver = 100000 + it.st.fresh
			case oMap:
				o.cells, o.sym = nil, true
				it.st.fresh++
				o.ver = 100000 + it.st.fresh
			}
		}
	}
	// Candidate invariants.
	var thr []Lin
	seenT := map[string]bool{}
	addT := func(l Lin) {
		if !seenT[l.key()] && len(thr) < 24 && !l.isConst() {
			seenT[l.key()] = true
			thr = append(thr, l)
		}
	}
	isPhi := map[ssa.Value]bool{}
	for _, p := range phis {
		isPhi[p] = true
	}
	var vals []ssa.Value
	for v := range env0 {
		if !isPhi[v] {
			vals = append(vals, v)
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
	for _, v := range vals {
		lm := &leafMap{m: map[string]Lin{}}
		leaves(env0[v], "t", lm)
		for _, n := range lm.names {
			if strings.HasSuffix(n, ".len") || n == "t" {
				addT(lm.m[n])
			}
		}
		if p, ok := env0[v].(VPtr); ok && p.obj != 0 {
			o := it.st.objs[p.obj]
			if o != nil && o.kind == oCell && !o.lazy {
				if s, ok := o.val.(VSlice); ok {
					addT(s.len)
				}
			}
		}
	}
	candidates := func(entry *leafMap) []cand {
		var cs []cand
		add := func(desc, comp string, dir int, mk func(get func(string) Lin) *Cond) {
			cs = append(cs, cand{desc, mk, comp, dir})
		}
		for _, n := range entry.names {
			n := n
			x0 := entry.m[n]
			add(n+" == "+x0.String(), "", 0, func(g func(string) Lin) *Cond { return cEqual(g(n), x0) })
			add(n+" >= "+x0.String(), n, -1, func(g func(string) Lin) *Cond { return cLeq(x0, g(n)) })
			add(n+" <= "+x0.String(), n, 1, func(g func(string) Lin) *Cond { return cLeq(g(n), x0) })
			if !x0.isZero() {
				add(n+" >= 0", n, -1, func(g func(string) Lin) *Cond { return cGe(g(n)) })
			}
			for _, t := range thr {
				t := t
				add(n+" <= "+t.String(), n, 1, func(g func(string) Lin) *Cond { return cLeq(g(n), t) })
				add(n+" < "+t.String(), n, 1, func(g func(string) Lin) *Cond { return cLess(g(n), t) })
			}
		}
		for i, a := range entry.names {
			for _, b := range entry.names[i+1:] {
				a, b := a, b
				s, d := entry.m[a].add(entry.m[b]), entry.m[a].sub(entry.m[b])
				add(a+"+"+b+" == "+s.String(), "", 0, func(g func(string) Lin) *Cond { return cEqual(g(a).add(g(b)), s) })
				add(a+"-"+b+" == "+d.String(), "", 0, func(g func(string) Lin) *Cond { return cEqual(g(a).sub(g(b)), d) })
				add(a+" <= "+b, "", 0, func(g func(string) Lin) *Cond { return cLeq(g(a), g(b)) })
				add(b+" <= "+a, "", 0, func(g func(string) Lin) *Cond { return cLeq(g(b), g(a)) })
				for _, t := range thr {
					t := t
					add(a+"+"+b+" <= "+t.String(), "", 0, func(g func(string) Lin) *Cond { return cLeq(g(a).add(g(b)), t) })
				}
			}
		}
		return cs
	}

	var invs []cand
	restartN := 0
	var traces []iterTrace
restart:
	restartN++
	if restartN > 12 {
		it.undecided(pos, "loop invariant does not stabilize")
	}
	it.st = snap
	{
		// The entry state satisfies the candidates.
		it.st = snap.clone()
		entry := current(env0)
		invs = nil
		for _, c := range candidates(entry) {
			if it.entails(c.mk(func(n string) Lin { return entry.m[n] })) {
				invs = append(invs, c)
			}
		}
		it.st = snap
	}
	it.quiet++
	for {
		changed := false
		reshape := false
		nsh, nmod := sh.clone(), map[int]bool{}
		for id := range mod {
			nmod[id] = true
		}
		drop := map[int]bool{}
		traces = nil
		it.st = snap
		it.explore(func() {
			fr.env = cloneEnv(env0)
			havoc(fr.env)
			h := current(fr.env)
			for _, c := range invs {
				it.assume(c.mk(func(n string) Lin { return h.m[n] }))
			}
			henv := cloneEnv(fr.env)
			hst := it.st.clone()
			it.st.log = nil
			out := it.region(fr, lp.header, nil, lp, true)
			for _, ev := range it.st.log {
				if ev.obj == 0 || ev.obj > base {
					continue
				}
				switch ev.kind {
				case "cellwrite", "write", "elemwrite", "mapwrite", "mapclear":
					if !mod[ev.obj] {
						nmod[ev.obj] = true
						reshape = true
					}
				}
			}
			traces = append(traces, iterTrace{it.st.log, out})
			if out.kind != outBack {
				return
			}
			it.phis(fr, lp.header, out.from)
			if reshape {
				return
			}
			for i, p := range phis {
				if it.shapeDiff(henv[p], fr.env[p], phiName(i), nsh, base, pos) {
					reshape = true
				}
			}
			for _, id := range sortedKeys(mod) {
				o := it.st.objs[id]
				if o.kind == oCell {
					if it.shapeDiff(hst.objs[id].val, o.val, "*"+o.name+fmt.Sprint(id), nsh, base, pos) {
						reshape = true
					}
				}
			}
			if reshape {
				return
			}
			b := current(fr.env)
			for i, c := range invs {
				if !drop[i] && !it.entails(c.mk(func(n string) Lin { return b.m[n] })) {
					drop[i] = true
					changed = true
				}
			}
		})
		if reshape {
			sh, mod = nsh, nmod
			it.quiet--
			goto restart
		}
		if !changed {
			break
		}
		var keep []cand
		for i, c := range invs {
			if !drop[i] {
				keep = append(keep, c)
			}
		}
		invs = keep
	}
	it.quiet--

	// Final pass with the inductive invariant.
	it.st = snap
	hook := it.loopHook
	if hook != nil && hook.pre != nil && it.quiet == 0 {
		it.st = snap.clone()
		entry := current(env0)
		fr.env = cloneEnv(env0)
		it.explore(func() {
			havoc(fr.env)
			hook.pre(it, fr, lp, traces, substFrom(current(fr.env), entry))
		})
		it.st = snap
	}
	var exits []exitState
	var backEvents []Event
	seenEv := map[string]bool{}
	type rankCand struct {
		name string
		dir  int
	}
	rank := map[rankCand]bool{}
	for _, c := range invs {
		if c.comp != "" {
			rank[rankCand{c.comp, c.dir}] = true
		}
	}
	it.explore(func() {
		fr.env = cloneEnv(env0)
		havoc(fr.env)
		h := current(fr.env)
		for _, c := range invs {
			it.assume(c.mk(func(n string) Lin { return h.m[n] }))
		}
		it.st.ghost["iterlog"] = len(it.st.log)
		if hook != nil && hook.begin != nil && it.quiet == 0 {
			hook.begin(it, fr, lp)
		}
		out := it.region(fr, lp.header, nil, lp, true)
		if out.kind == outBack {
			for _, ev := range it.st.log[it.st.ghost["iterlog"].(int):] {
				k := fmt.Sprintf("%s|%d|%d|%s", ev.kind, ev.obj, ev.at, ev.note)
				if !seenEv[k] {
					seenEv[k] = true
					backEvents = append(backEvents, ev)
				}
			}
			it.phis(fr, lp.header, out.from)
			b := current(fr.env)
			for r := range rank {
				// dir 1: bounded above, must increase
				d := b.m[r.name].sub(h.m[r.name])
				if r.dir < 0 {
					d = d.neg()
				}
				if !it.entails(cGe(d.addc(-1))) {
					delete(rank, r)
				}
			}
			if hook != nil && hook.back != nil && it.quiet == 0 {
				hook.back(it, fr, lp, substFrom(h, b))
			}
			return
		}
		if hook != nil && hook.exit != nil && it.quiet == 0 {
			hook.exit(it, fr, lp, out)
		}
		exits = append(exits, exitState{out, it.st.clone(), cloneEnv(fr.env)})
	})
	it.st = snap
	// The events of earlier iterations precede the ones of the last.
	for i := range exits {
		st := exits[i].st
		st.log = append(st.log[:len(st.log):len(st.log)], backEvents...)
	}
	if it.quiet == 0 {
		it.obls++
		if len(rank) > 0 {
			it.discharged++
		} else if it.termination {
			it.report("termination", pos, "no quantity found that bounds the number of iterations of this loop")
		} else {
			it.obls--
		}
	}
	return &loopResult{exits: exits}
}
