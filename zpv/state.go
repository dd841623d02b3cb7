package main

import (
	"fmt"
	"go/token"
	"golang.org/x/tools/go/ssa"
	"hash/fnv"
	"math/big"
	"os"
	"runtime"
	"strings"
)

// ---------------------------------------------------------------------------
// Conditions.

type condOp int

const (
	cTrue condOp = iota
	cFalse
	cGE // l >= 0
	cEQ // l == 0
	cNE // l != 0
	cAnd
	cOr
)

// Cond is a boolean combination of linear constraints.
type Cond struct {
	op   condOp
	l    Lin
	a, b *Cond
}

var condTrue = &Cond{op: cTrue}
var condFalse = &Cond{op: cFalse}

func cBool(b bool) *Cond {
	if b {
		return condTrue
	}
	return condFalse
}

func cGe(l Lin) *Cond {
	if l.isConst() {
		return cBool(l.c.Sign() >= 0)
	}
	return &Cond{op: cGE, l: l}
}
func cEq(l Lin) *Cond {
	if l.isConst() {
		return cBool(l.c.Sign() == 0)
	}
	return &Cond{op: cEQ, l: l}
}
func cNe(l Lin) *Cond {
	if l.isConst() {
		return cBool(l.c.Sign() != 0)
	}
	return &Cond{op: cNE, l: l}
}
func cLeq(a, b Lin) *Cond   { return cGe(b.sub(a)) }
func cLess(a, b Lin) *Cond  { return cGe(b.sub(a).addc(-1)) }
func cEqual(a, b Lin) *Cond { return cEq(a.sub(b)) }

func cConj(a, b *Cond) *Cond {
	switch {
	case a.op == cTrue:
		return b
	case b.op == cTrue:
		return a
	case a.op == cFalse || b.op == cFalse:
		return condFalse
	}
	return &Cond{op: cAnd, a: a, b: b}
}

func cDisj(a, b *Cond) *Cond {
	switch {
	case a.op == cFalse:
		return b
	case b.op == cFalse:
		return a
	case a.op == cTrue || b.op == cTrue:
		return condTrue
	}
	return &Cond{op: cOr, a: a, b: b}
}

func cNot(c *Cond) *Cond {
	switch c.op {
	case cTrue:
		return condFalse
	case cFalse:
		return condTrue
	case cGE: // l < 0  <=>  -l-1 >= 0
		return cGe(c.l.neg().addc(-1))
	case cEQ:
		return cNe(c.l)
	case cNE:
		return cEq(c.l)
	case cAnd:
		return cDisj(cNot(c.a), cNot(c.b))
	case cOr:
		return cConj(cNot(c.a), cNot(c.b))
	}
	panic("cond")
}

func (c *Cond) key() string {
	switch c.op {
	case cTrue:
		return "T"
	case cFalse:
		return "F"
	case cGE:
		return "G" + c.l.key()
	case cEQ:
		return "E" + c.l.key()
	case cNE:
		return "N" + c.l.key()
	case cAnd:
		return "(&" + c.a.key() + "," + c.b.key() + ")"
	case cOr:
		return "(|" + c.a.key() + "," + c.b.key() + ")"
	}
	panic("cond")
}

func (c *Cond) String() string {
	switch c.op {
	case cTrue:
		return "true"
	case cFalse:
		return "false"
	case cGE:
		return c.l.String() + " >= 0"
	case cEQ:
		return c.l.String() + " == 0"
	case cNE:
		return c.l.String() + " != 0"
	case cAnd:
		return "(" + c.a.String() + " && " + c.b.String() + ")"
	case cOr:
		return "(" + c.a.String() + " || " + c.b.String() + ")"
	}
	panic("cond")
}

// ---------------------------------------------------------------------------
// Abstract state: one disjunct of the disjunctive (trace partitioned) domain.

type Event struct {
	kind string // "uvread", "read", "write", "alloc", "call", ...
	obj  int
	pos  Lin
	n    Lin
	at   token.Pos
	note string
	val  Val
	args []Val
	heap bool // an allocation on the heap
}

type State struct {
	facts []Con
	ne    []Lin // l != 0
	hash  uint64
	objs  map[int]*Obj
	nobj  int
	fresh int
	log   []Event
	ghost map[string]Val
	wits  []stateWit
	ulens []*Atom // sizes of varints in the facts
}

func newState() *State {
	return &State{objs: map[int]*Obj{}, ghost: map[string]Val{}, hash: 14695981039346656037}
}

func (s *State) clone() *State {
	n := &State{
		facts: s.facts[:len(s.facts):len(s.facts)],
		ne:    s.ne[:len(s.ne):len(s.ne)],
		hash:  s.hash,
		objs:  make(map[int]*Obj, len(s.objs)),
		nobj:  s.nobj,
		fresh: s.fresh,
		wits:  s.wits,
		ulens: s.ulens,
		log:   s.log[:len(s.log):len(s.log)],
		ghost: make(map[string]Val, len(s.ghost)),
	}
	for k, v := range s.objs {
		n.objs[k] = v.clone()
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

func (s *State) bump(k string) {
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(s.hash >> (8 * i))
	}
	h.Write(b[:])
	h.Write([]byte(k))
	s.hash = h.Sum64()
}

func (s *State) addFact(c Con) {
	if c.l.isConst() {
		if (c.eq && c.l.c.Sign() != 0) || (!c.eq && c.l.c.Sign() < 0) {
			panic(pathEnd{"infeasible"})
		}
		return
	}
	for _, f := range s.facts {
		if f.eq == c.eq && f.l.eq(c.l) {
			return
		}
	}
	s.facts = append(s.facts, c)
	k := c.l.key()
	if c.eq {
		k += "="
	}
	s.bump(k)
	s.sizes(c)
}

// sizes adds what a new fact says about the sizes of varints whose value it
// bounds, and what the facts say about a size that it mentions first.
func (s *State) sizes(c Con) {
	n := len(s.ulens)
	for _, a := range s.ulens {
		s.size(a, c)
	}
	for _, x := range c.l.t {
		if x.a.fn != "ulen" {
			continue
		}
		known := false
		for _, a := range s.ulens[:n] {
			known = known || a == x.a
		}
		if known {
			continue
		}
		s.ulens = append(s.ulens[:len(s.ulens):len(s.ulens)], x.a)
		for _, f := range s.facts[:len(s.facts):len(s.facts)] {
			s.size(x.a, f)
		}
	}
}

func (s *State) size(u *Atom, f Con) {
	v := u.args[0]
	if len(f.l.t) == 0 || len(v.t) == 0 {
		return
	}
	var lo, hi *big.Int
	if a := f.l.t[0].a; len(f.l.t) == 1 && a.fn == "shr" && a.args[0].eq(v) {
		// k*(v>>n) + c >= 0
		k, n := f.l.t[0].k, uint(a.args[1].c.Int64())
		if k.Sign() > 0 || f.eq {
			q := new(big.Int).Div(new(big.Int).Neg(f.l.c), k)
			if new(big.Int).Mul(q, k).Cmp(new(big.Int).Neg(f.l.c)) < 0 {
				q.Add(q, bigOne)
			}
			lo = q.Lsh(q, n)
		}
		if k.Sign() < 0 {
			q := new(big.Int).Div(f.l.c, new(big.Int).Neg(k))
			hi = q.Add(q, bigOne).Lsh(q, n)
			hi.Sub(hi, bigOne)
		}
	} else if len(f.l.t) == len(v.t) && !f.eq {
		// f = (p/q)*(v - v.c) + f.c >= 0
		p, q := f.l.t[0].k, v.t[0].k
		for i, x := range v.t {
			y := f.l.t[i]
			if x.a != y.a || new(big.Int).Mul(y.k, q).Cmp(new(big.Int).Mul(x.k, p)) != 0 {
				return
			}
		}
		// p*(v - v.c)/q >= -f.c
		if q.Sign() < 0 {
			p, q = new(big.Int).Neg(p), new(big.Int).Neg(q)
		}
		b := new(big.Int).Neg(new(big.Int).Mul(f.l.c, q)) // p*(v-v.c) >= b
		if p.Sign() > 0 {
			d, m := new(big.Int).DivMod(b, p, new(big.Int))
			if m.Sign() != 0 {
				d.Add(d, bigOne)
			}
			lo = d.Add(d, v.c)
		} else {
			// (v-v.c) <= b/p
			b.Neg(b)
			d := new(big.Int).Div(b, new(big.Int).Neg(p))
			hi = d.Add(d, v.c)
		}
	}
	if lo != nil && lo.Sign() > 0 {
		if n := ulenBig(lo); n > u.lo.Int64() && n <= 10 {
			s.addFact(ge(la(u).addc(-n)))
		}
	}
	if hi != nil && hi.Sign() >= 0 {
		if n := ulenBig(hi); n < u.hi.Int64() {
			s.addFact(ge(lc(n).sub(la(u))))
		}
	}
}

func (s *State) addNe(l Lin) {
	for _, f := range s.ne {
		if f.eq(l) {
			return
		}
	}
	s.ne = append(s.ne, l)
	s.bump(l.key() + "!")
}

type pathEnd struct{ why string }

// relevant returns the facts connected to the atoms of the goal, with the
// bounds and axioms of those atoms.
func (s *State) relevant(goal []Con) (cons []Con, in map[*Atom]bool) {
	in = map[*Atom]bool{}
	var work, order []*Atom
	add := func(l Lin) {
		for _, x := range l.t {
			if !in[x.a] {
				in[x.a] = true
				order = append(order, x.a)
				work = append(work, x.a)
			}
		}
	}
	for _, g := range goal {
		add(g.l)
	}
	used := make([]bool, len(s.facts))
	for {
		for len(work) > 0 {
			a := work[len(work)-1]
			work = work[:len(work)-1]
			for _, c := range a.ax {
				cons = append(cons, c)
				add(c.l)
			}
		}
		changed := false
		for i, f := range s.facts {
			if used[i] {
				continue
			}
			for _, x := range f.l.t {
				if in[x.a] {
					used[i] = true
					cons = append(cons, f)
					add(f.l)
					changed = true
					break
				}
			}
		}
		if !changed && len(work) == 0 {
			break
		}
	}
	for _, a := range order {
		if a.lo != nil {
			cons = append(cons, ge(la(a).sub(lbig(a.lo))))
		}
		if a.hi != nil {
			cons = append(cons, ge(lbig(a.hi).sub(la(a))))
		}
	}
	return
}

type entKey struct {
	h uint64
	k string
}

type entRes struct {
	r bool
	w *witness
}

var entCache = map[entKey]entRes{}
var statWit int

// refuted reports whether facts and goal constraints certainly contradict.
func (s *State) refuted(goal ...Con) bool {
	var kb strings.Builder
	allConst := true
	for _, g := range goal {
		if len(g.l.t) > 0 {
			allConst = false
		} else if (g.eq && g.l.c.Sign() != 0) || (!g.eq && g.l.c.Sign() < 0) {
			return true
		}
		kb.WriteString(g.l.key())
		if g.eq {
			kb.WriteByte('=')
		}
		kb.WriteByte(';')
	}
	if allConst {
		return false
	}
	if len(goal) == 1 {
		lo, hi := goal[0].l.interval()
		if goal[0].eq {
			if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
				return true
			}
		} else {
			if hi != nil && hi.Sign() < 0 {
				return true
			}
		}
	}
	k := entKey{s.hash, kb.String()}
	if r, ok := entCache[k]; ok {
		if r.w != nil {
			s.addWit(r.w)
		}
		return r.r
	}
	if s.witnessed(goal) {
		statWit++
		if debugDet {
			cons, _ := s.relevant(goal)
			if x, _ := infeasible(append(cons, goal...)); x {
				fmt.Println("BAD WITNESS", goal)
				for _, c := range cons {
					fmt.Println("   ", c)
				}
				os.Exit(4)
			}
		}
		entCache[k] = entRes{}
		return false
	}
	cons, in := s.relevant(goal)
	all := append(cons, goal...)
	big := statFMBig
	r, w := infeasible(all)
	if !r && w == nil && statFMBig > big {
		r = s.refutedNear(goal)
	}
	if w != nil {
		for _, d := range s.ne {
			if !w.neOK(d) {
				w = nil
				break
			}
		}
	}
	if !r && w == nil {
		n := 0
		for _, d := range s.ne {
			hit := len(d.t) > 0
			for _, x := range d.t {
				if !in[x.a] {
					hit = false
					break
				}
			}
			if !hit {
				continue
			}
			n++
			if n > 8 {
				break
			}
			if x, _ := infeasible(append(append([]Con{}, all...), ge(d.addc(-1)))); !x {
				continue
			}
			if x, _ := infeasible(append(append([]Con{}, all...), ge(d.neg().addc(-1)))); x {
				r = true
				break
			}
		}
	}
	if w != nil {
		s.addWit(w)
	}
	entCache[k] = entRes{r, w}
	return r
}

// refutedNear tries the goal with only the facts close to it, for when all that
// may be related are too many to eliminate.
func (s *State) refutedNear(goal []Con) bool {
	in := map[*Atom]bool{}
	var order []*Atom
	add := func(l Lin) {
		for _, x := range l.t {
			if !in[x.a] {
				in[x.a] = true
				order = append(order, x.a)
			}
		}
	}
	for _, g := range goal {
		add(g.l)
	}
	for hops := 0; hops < 2; hops++ {
		cons := append([]Con{}, goal...)
		within := func(c Con) {
			for _, x := range c.l.t {
				if !in[x.a] {
					return
				}
			}
			cons = append(cons, c)
		}
		for _, f := range s.facts {
			within(f)
		}
		for _, a := range order {
			if a.lo != nil {
				cons = append(cons, ge(la(a).sub(lbig(a.lo))))
			}
			if a.hi != nil {
				cons = append(cons, ge(lbig(a.hi).sub(la(a))))
			}
		}
		if r, _ := infeasible(cons); r {
			return true
		}
		for _, a := range order {
			for _, c := range a.ax {
				within(c)
			}
		}
		if r, _ := infeasible(cons); r {
			return true
		}
		// Facts that share an atom with what is there already.
		n := len(order)
		near := map[*Atom]bool{}
		for _, a := range order[:n] {
			near[a] = true
		}
		for _, f := range s.facts {
			for _, x := range f.l.t {
				if near[x.a] && len(f.l.t) <= 4 {
					add(f.l)
					break
				}
			}
		}
	}
	return false
}

func (s *State) entails(c *Cond) bool {
	switch c.op {
	case cTrue:
		return true
	case cFalse:
		return s.refuted0()
	case cGE:
		return s.refuted(ge(c.l.neg().addc(-1)))
	case cEQ:
		return s.refuted(ge(c.l.addc(-1))) && s.refuted(ge(c.l.neg().addc(-1)))
	case cNE:
		for _, d := range s.ne {
			if d.eq(c.l) || d.eq(c.l.neg()) {
				return true
			}
		}
		return s.refuted(Con{c.l, true})
	case cAnd:
		return s.entails(c.a) && s.entails(c.b)
	case cOr:
		if s.entails(c.a) || s.entails(c.b) {
			return true
		}
		// not a and not b must be contradictory
		na, ok1 := condCons(cNot(c.a))
		nb, ok2 := condCons(cNot(c.b))
		if ok1 && ok2 {
			return s.refuted(append(na, nb...)...)
		}
		return false
	}
	panic("cond")
}

func condCons(c *Cond) ([]Con, bool) {
	switch c.op {
	case cTrue:
		return nil, true
	case cFalse:
		return []Con{ge(lc(-1))}, true
	case cGE:
		return []Con{ge(c.l)}, true
	case cEQ:
		return []Con{{c.l, true}}, true
	case cAnd:
		a, ok := condCons(c.a)
		b, ok2 := condCons(c.b)
		return append(append([]Con{}, a...), b...), ok && ok2
	}
	return nil, false
}

func (s *State) refuted0() bool { return false }

func (s *State) eqLin(a, b Lin) bool {
	if a.eq(b) {
		return true
	}
	return s.entails(cEqual(a, b))
}

// ---------------------------------------------------------------------------
// Disjunction: the analysis follows one disjunct at a time. A choice point is
// revisited until all its alternatives have been analysed.

type choice struct {
	taken, n int
	ends     []stageEnd // how a staged call can end
	dbg      string
}

type stageEnd struct {
	st  *State
	val Val
	env map[ssa.Value]Val
	out outcome
}

type oracle struct {
	trace []choice
	pos   int
}

func (o *oracle) next() bool {
	for len(o.trace) > 0 {
		l := len(o.trace) - 1
		if o.trace[l].taken+1 < o.trace[l].n {
			o.trace[l].taken++
			return true
		}
		o.trace = o.trace[:l]
	}
	return false
}

type undecided struct {
	pos token.Pos
	msg string
	ctx string
}

func (it *Interp) choose(n int) int {
	o := it.orc[len(it.orc)-1]
	if o.pos < len(o.trace) {
		c := o.trace[o.pos]
		if c.n != n || c.ends != nil {
			if debugDet {
				fmt.Println("RECORDED", c.dbg, "NOW", it.dbgSite())
			}
			panic(fmt.Sprintf("internal: non-deterministic replay: %d != %d", c.n, n))
		}
		o.pos++
		return c.taken
	}
	it.noteChoice()
	o.trace = append(o.trace, choice{n: n, dbg: it.dbgSite()})
	o.pos++
	return 0
}

var debugDet = os.Getenv("ZPV_DEBUG") != ""

func (it *Interp) dbgSite() string {
	if !debugDet {
		return ""
	}
	r := fmt.Sprintf("%x %d ", it.st.hash, len(it.st.facts))
	for _, f := range it.stack {
		r += fmt.Sprintf(" %s:%v", f.fn.Name(), f.pc)
	}
	return r
}

// staged analyses run for every disjunct once and then continues with each of
// the states at its end, so that it is not repeated for the disjunctions that
// follow.
func (it *Interp) staged(run func() Val) Val {
	o := it.orc[len(it.orc)-1]
	if o.pos == len(o.trace) {
		var ends []stageEnd
		it.explore(func() {
			v := run()
			ends = append(ends, stageEnd{st: it.st, val: v})
		})
		if len(ends) == 0 {
			panic(pathEnd{"no end"})
		}
		o.trace = append(o.trace, choice{n: len(ends), ends: ends, dbg: it.dbgSite()})
	}
	c := o.trace[o.pos]
	if c.ends == nil {
		panic("internal: non-deterministic replay of a call")
	}
	o.pos++
	e := c.ends[c.taken]
	it.st = e.st.clone()
	return e.val
}

func (it *Interp) pathKey() string {
	var b strings.Builder
	for _, o := range it.orc {
		b.WriteByte('/')
		for _, c := range o.trace[:o.pos] {
			fmt.Fprintf(&b, "%d.", c.taken)
		}
	}
	return b.String()
}

const maxPaths = 60000

// explore analyses run for every disjunct. The state is restored before each.
func (it *Interp) explore(run func()) {
	snap := it.st
	o := &oracle{}
	it.orc = append(it.orc, o)
	depth := len(it.orc)
	stack := it.stack
	n := 0
	for {
		it.st = snap.clone()
		o.pos = 0
		it.stack = stack
		func() {
			defer func() {
				if r := recover(); r != nil {
					it.orc = it.orc[:depth]
					if _, ok := r.(pathEnd); ok {
						return
					}
					panic(r)
				}
			}()
			run()
		}()
		it.paths++
		n++
		if n > maxPaths {
			it.undecided(token.NoPos, "too many disjuncts")
		}
		if !o.next() {
			break
		}
	}
	it.orc = it.orc[:depth-1]
	it.st = snap
	it.stack = stack
}

// assume adds a condition to the state; it must not be a disjunction that
// needs splitting, in which case it splits.
func (it *Interp) assume(c *Cond) {
	s := it.st
	switch c.op {
	case cTrue:
	case cFalse:
		panic(pathEnd{"infeasible"})
	case cGE:
		if s.refuted(ge(c.l)) {
			panic(pathEnd{"infeasible"})
		}
		s.addFact(ge(c.l))
	case cEQ:
		if s.refuted(Con{c.l, true}) {
			panic(pathEnd{"infeasible"})
		}
		for _, d := range s.ne {
			if d.eq(c.l) || d.eq(c.l.neg()) {
				panic(pathEnd{"infeasible"})
			}
		}
		s.addFact(Con{c.l, true})
	case cNE:
		if s.entails(cEq(c.l)) {
			panic(pathEnd{"infeasible"})
		}
		if s.entails(cGe(c.l)) {
			s.addFact(ge(c.l.addc(-1)))
		} else if s.entails(cGe(c.l.neg())) {
			s.addFact(ge(c.l.neg().addc(-1)))
		} else {
			s.addNe(c.l)
		}
	case cAnd:
		it.assume(c.a)
		it.assume(c.b)
	case cOr:
		if s.entails(c) {
			return
		}
		if it.choose(2) == 0 {
			it.assume(c.a)
		} else {
			it.assume(cNot(c.a))
			it.assume(c.b)
		}
	}
}

// decide returns whether c holds, splitting the state if both are possible.
func (it *Interp) decide(c *Cond) bool {
	switch c.op {
	case cTrue:
		return true
	case cFalse:
		return false
	case cAnd:
		return it.decide(c.a) && it.decide(c.b)
	case cOr:
		return it.decide(c.a) || it.decide(c.b)
	}
	if it.st.entails(c) {
		return true
	}
	n := cNot(c)
	if it.st.entails(n) {
		return false
	}
	if it.varintSizes(c.l) {
		if it.st.entails(c) {
			return true
		}
		if it.st.entails(n) {
			return false
		}
	}
	if it.choose(2) == 0 {
		it.assume(c)
		return true
	}
	it.assume(n)
	return false
}

// varintSizes adds what the facts say about the sizes of varints in l: the size is a
// function of the value. It reports whether that is anything new.
func (it *Interp) varintSizes(l Lin) bool {
	r := false
	for _, t := range l.t {
		a := t.a
		if a.fn != "ulen" {
			continue
		}
		v := a.args[0]
		lo, hi := a.lo.Int64(), a.hi.Int64()
		// What is known about v by its leading bits.
		var bits []Con
		for _, f := range it.st.facts {
			for _, x := range f.l.t {
				if x.a.fn == "shr" && x.a.args[0].eq(v) {
					bits = append(bits, f)
					break
				}
			}
		}
		never := func(c Con) bool { return it.st.refuted(append([]Con{c}, bits...)...) }
		max := lo
		for max < hi && !never(ge(v.sub(lbig(pow2(int(7*max)))))) {
			max++
		}
		min := max
		for min > lo && !never(ge(lbig(pow2(int(7*(min-1)))).addc(-1).sub(v))) {
			min--
		}
		for _, c := range []*Cond{cLeq(la(a), lc(max)), cLeq(lc(min), la(a))} {
			if !it.st.entails(c) {
				it.assume(c)
				r = true
			}
		}
	}
	return r
}

// known reports whether c is decided in the current state.
func (it *Interp) known(c *Cond) bool {
	return it.st.entails(c) || it.st.entails(cNot(c))
}

func (it *Interp) entails(c *Cond) bool { return it.st.entails(c) }

// freshAtom returns an unknown integer in lo..hi. The name is a function of the
// path, so that replays use the same atoms.
func (it *Interp) freshAtom(name string, lo, hi *big.Int) *Atom {
	it.st.fresh++
	return boundedAtom(fmt.Sprintf("%s'%d", name, it.st.fresh), lo, hi)
}

func boundedAtom(key string, lo, hi *big.Int) *Atom {
	k := key
	a, ok := atoms.get(k)
	if !ok {
		a.lo, a.hi = lo, hi
		return a
	}
	same := func(x, y *big.Int) bool {
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		return x.Cmp(y) == 0
	}
	if same(a.lo, lo) && same(a.hi, hi) {
		return a
	}
	f := func(x *big.Int) string {
		if x == nil {
			return ""
		}
		return x.String()
	}
	a, ok = atoms.get(k + "[" + f(lo) + ".." + f(hi) + "]")
	if !ok {
		a.lo, a.hi = lo, hi
	}
	return a
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

func bi(n int64) *big.Int { return big.NewInt(n) }

// Statistics of where the state is split (debugging).
var choiceSites map[string]int

func (it *Interp) noteChoice() {
	if choiceSites == nil {
		return
	}
	k := ""
	for i := len(it.stack) - 1; i >= 0 && i > len(it.stack)-3; i-- {
		fr := it.stack[i]
		k += fr.fn.Name() + "<-"
	}
	pc := make([]uintptr, 12)
	n := runtime.Callers(3, pc)
	fs := runtime.CallersFrames(pc[:n])
	for i := 0; i < 5; i++ {
		f, more := fs.Next()
		k += " " + strings.TrimPrefix(f.Function, "main.(*Interp).")
		if !more {
			break
		}
	}
	choiceSites[k]++
}
