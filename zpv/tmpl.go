package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Abstract interpretation of the generator. Numbers are linear expressions, as
// in the analysis of the runtime, but text is a sequence of literals and holes,
// and lists of the request have an unknown number of elements, some of which
// are in focus: [others] focus [others] focus [others]. A loop over such a list
// is analysed for any number of other elements, for the focus, and for any
// number of other elements again. What the others contribute to the output is
// a hole.

type gv interface{}

type gInt struct{ l Lin }
type gBool struct{ c *Cond }
type gStr struct{ q []gseg } // string or []byte
type gFloat struct{}
type gPtr struct {
	obj  int // 0: nil
	path []int
	nil  *Cond // may be nil (the Go value): not nil
}
type gElem struct { // address of an element of a sequence
	seq  gSeq
	i    Lin
	path []int
}
type gListElem struct {
	list int
	i    Lin
}
type gStruct struct{ f []gv }
type gArr struct{ e []gv }
type gItem struct {
	v      gv
	others int // > 0: any number of unknown elements
	nonNil bool
	typ    types.Type
}
type gSeq struct {
	items []gItem
	nil   bool
}
type gList struct{ id int } // list of the request
type gIface struct {
	typ types.Type
	v   gv
	nil *Cond
	sym string
}
type gFn struct {
	fn   *ssa.Function
	bind []gv
	bi   *ssa.Builtin
}
type gMap struct {
	obj int
	nil *Cond
}
type gTuple []gv
type gBuf struct{ q []gseg } // strings.Builder, bytes.Buffer

// gseg is a part of a text.
type gseg struct {
	lit  string
	hole string // unknown text
	num  *Lin   // its decimal representation
	oth  int    // what other elements contributed
}

func (s gseg) key() string {
	switch {
	case s.hole != "":
		return "{" + s.hole + "}"
	case s.num != nil:
		return "#" + s.num.key() + "#"
	case s.oth > 0:
		return fmt.Sprintf("<%d>", s.oth)
	}
	return s.lit
}

func qkey(q []gseg) string {
	var b strings.Builder
	for _, s := range q {
		b.WriteString(s.key())
		b.WriteByte(0)
	}
	return b.String()
}

func qshow(q []gseg) string {
	var b strings.Builder
	for _, s := range q {
		switch {
		case s.num != nil:
			b.WriteString("{" + s.num.String() + "}")
		case s.oth > 0:
			b.WriteString("{others}")
		default:
			b.WriteString(s.key())
		}
	}
	return b.String()
}

func qlit(s string) []gseg {
	if s == "" {
		return nil
	}
	return []gseg{{lit: s}}
}

func qcat(a, b []gseg) []gseg {
	r := a[:len(a):len(a)]
	for _, s := range b {
		if n := len(r); n > 0 && s.lit != "" && r[n-1].lit != "" {
			t := gseg{lit: r[n-1].lit + s.lit}
			r = append(r[:n-1:n-1], t)
		} else if s.lit != "" || s.hole != "" || s.num != nil || s.oth > 0 {
			r = append(r, s)
		}
	}
	return r
}

// isLit returns the text if it is known.
func isLit(q []gseg) (string, bool) {
	switch {
	case len(q) == 0:
		return "", true
	case len(q) == 1 && q[0].hole == "" && q[0].num == nil && q[0].oth == 0:
		return q[0].lit, true
	}
	return "", false
}

// ghole are the properties of unknown text.
type ghole struct {
	ident bool            // an identifier: not empty, no dots
	class string          // texts of the same class with different names are different
	not   map[string]bool // texts that it differs from
}

type gobj struct {
	typ   types.Type
	val   gv     // nil: not looked at yet
	name  string // of the unknown
	pre   bool   // part of the request
	glob  string
	nopt  bool // optional parts are present
	slice bool // a slice refers to it
	// maps
	isMap bool
	cells []gcell
	sym   bool
	ktyp  types.Type
	etyp  types.Type
	ver   int
}

type gcell struct {
	key     gv
	present *Cond
	val     gv
}

// glist is a list of the request.
type glist struct {
	name  string
	elem  types.Type
	n     Lin
	at    []Lin // positions of the focus elements
	focus []gv
	other func(g *gx, st *gstate, key string) gv
}

type gstate struct {
	fs   *State // facts
	heap map[int]*gobj
	n    int
	fr   int
}

func (s *gstate) clone() *gstate {
	h := make(map[int]*gobj, len(s.heap)+8)
	for k, v := range s.heap {
		h[k] = v
	}
	return &gstate{s.fs.clone(), h, s.n, s.fr}
}

func (s *gstate) alloc(o *gobj) int {
	s.n++
	s.heap[s.n] = o
	return s.n
}

type gframe struct {
	fn    *ssa.Function
	env   map[ssa.Value]gv
	next  map[ssa.Value]gv
	defs  []func(*gstate, *gframe) []gout // deferred calls
	depth int
	at    token.Pos
	up    *gframe
	rng   map[ssa.Value]int // position of iterators over literals
	gen   int               // gx.gen when the function was called
}

func (f *gframe) clone() *gframe {
	e := make(map[ssa.Value]gv, len(f.env)+8)
	for k, v := range f.env {
		e[k] = v
	}
	n := *f
	n.env = e
	n.rng = map[ssa.Value]int{}
	for k, v := range f.rng {
		n.rng[k] = v
	}
	return &n
}

type gout struct {
	kind     outKind
	st       *gstate
	fr       *gframe
	from, to *ssa.BasicBlock
	ret      gv
}

// gx is the interpreter.
type gx struct {
	affixes map[string]map[string]bool // that were asked for

	ld     *Loaded
	lists  map[int]*glist
	holes  map[string]*ghole
	fresh  int
	steps  int
	quiet  int
	funcs  map[string]bool
	calls  int
	loops  map[string]bool
	paths  int
	report func(kind string, at token.Pos, msg string)
	seen   map[string]bool
	inInit bool
	at     token.Pos
	cur    *gframe
	acc    map[int]Lin // lists that the current loop's body looks at
	mods   map[string][]string
	limit  int
	keys   [][]gseg // texts that maps are asked for
	gen    int      // > 0: analysing what elements that are not in focus do
	obls   int
}

type gfork struct{ c *Cond }
type gstop struct{ why string } // the path ends

func (g *gx) undecided(f string, a ...interface{}) {
	panic(undecided{g.at, fmt.Sprintf(f, a...), g.stack()})
}

func (g *gx) stack() string {
	var s []string
	at := g.at
	for f := g.cur; f != nil; f = f.up {
		s = append(s, fmt.Sprintf("at %s (%s)", fnName(f.fn), g.ld.posStr(at)))
		at = f.at
	}
	return strings.Join(s, "\n")
}

func (g *gx) problem(kind, f string, a ...interface{}) {
	if g.quiet == 0 {
		g.report(kind, g.at, fmt.Sprintf(f, a...))
	}
	panic(gstop{"violation"})
}

// decide tells whether c holds, if need be by asking for a fork.
func (g *gx) decide(st *gstate, c *Cond) bool {
	switch c.op {
	case cTrue:
		return true
	case cFalse:
		return false
	case cAnd:
		return g.decide(st, c.a) && g.decide(st, c.b)
	case cOr:
		return g.decide(st, c.a) || g.decide(st, c.b)
	}
	if st.fs.entails(c) {
		return true
	}
	if st.fs.entails(cNot(c)) {
		return false
	}
	panic(gfork{c})
}

func (g *gx) known(st *gstate, c *Cond) (val, ok bool) {
	if st.fs.entails(c) {
		return true, true
	}
	if st.fs.entails(cNot(c)) {
		return false, true
	}
	return false, false
}

// assume adds c to the facts and reports whether that is possible.
func (st *gstate) assume(c *Cond) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(pathEnd); !is {
				panic(r)
			}
			ok = false
		}
	}()
	switch c.op {
	case cTrue:
		return true
	case cFalse:
		return false
	case cAnd:
		return st.assume(c.a) && st.assume(c.b)
	case cOr:
		return true // not used
	case cNE:
		if st.fs.entails(cEq(c.l)) {
			return false
		}
		st.fs.addNe(c.l)
		return st.excluded(c.l)
	}
	if st.fs.entails(cNot(c)) {
		return false
	}
	st.fs.addFact(Con{c.l, c.op == cEQ})
	return st.excluded(c.l)
}

// excluded moves bounds past values that are excluded.
func (st *gstate) excluded(l Lin) bool {
	for again := true; again; {
		again = false
		for _, d := range st.fs.ne {
			shared := false
			for _, t := range d.t {
				shared = shared || l.coef(t.a).Sign() != 0
			}
			if !shared {
				continue
			}
			switch {
			case st.fs.entails(cEq(d)):
				return false
			case st.fs.entails(cGe(d)) && !st.fs.entails(cGe(d.addc(-1))):
				st.fs.addFact(ge(d.addc(-1)))
				again = true
			case st.fs.entails(cGe(d.neg())) && !st.fs.entails(cGe(d.neg().addc(-1))):
				st.fs.addFact(ge(d.neg().addc(-1)))
				again = true
			}
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// Values.

func (g *gx) freshN() int { g.fresh++; return g.fresh }

func (g *gx) atom(name string, lo, hi *big.Int) Lin {
	return la(boundedAtom(fmt.Sprintf("g:%s'%d", name, g.freshN()), lo, hi))
}

func (g *gx) unknownBool(name string) *Cond {
	return cGe(g.atom("bool:"+name, bi(0), bi(1)).addc(-1))
}

func isBuf(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

func isText(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return isByte(u.Elem())
	}
	return false
}

func (g *gx) zero(t types.Type) gv {
	if isBuf(t) {
		return gBuf{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return gBool{condFalse}
		case u.Info()&types.IsInteger != 0:
			return gInt{lc(0)}
		case u.Info()&types.IsString != 0:
			return gStr{}
		case u.Info()&types.IsFloat != 0:
			return gFloat{}
		}
		return gPtr{nil: condTrue}
	case *types.Slice:
		if isByte(u.Elem()) {
			return gStr{}
		}
		return gSeq{nil: true}
	case *types.Pointer:
		return gPtr{nil: condTrue}
	case *types.Map:
		return gMap{0, condTrue}
	case *types.Interface:
		return gIface{nil: condTrue}
	case *types.Signature:
		return gFn{}
	case *types.Struct:
		f := make([]gv, u.NumFields())
		for i := range f {
			f[i] = g.zero(u.Field(i).Type())
		}
		return gStruct{f}
	case *types.Array:
		if u.Len() > 4096 || isByte(u.Elem()) {
			return gArr{}
		}
		e := make([]gv, u.Len())
		for i := range e {
			e[i] = g.zero(u.Elem())
		}
		return gArr{e}
	}
	g.undecided("zero value of %s", t)
	return nil
}

var maxField = big.NewInt(1<<29 - 1)

// unknown returns an unknown value, part of the request.
func (g *gx) unknown(st *gstate, t types.Type, name string, present bool) gv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return gBool{g.unknownBool(name)}
		case u.Info()&types.IsInteger != 0:
			bits, signed, _ := intType(t)
			lo, hi := intRange(bits, signed)
			switch {
			case strings.HasSuffix(name, ".Number"):
				lo, hi = bi(1), maxField
			case strings.HasSuffix(t.String(), "FieldDescriptorProto_Type"):
				l := g.atom(name, bi(1), bi(18))
				st.assume(cNe(l.addc(-10))) // no groups
				return gInt{l}
			case strings.HasSuffix(t.String(), "FieldDescriptorProto_Label"):
				lo, hi = bi(1), bi(3)
			}
			return gInt{g.atom(name, lo, hi)}
		case u.Info()&types.IsString != 0:
			return gStr{[]gseg{{hole: g.newHole(name, &ghole{})}}}
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return gStr{[]gseg{{hole: g.newHole(name, &ghole{})}}}
		}
		g.fresh++
		id := g.fresh
		l := &glist{name: name, elem: u.Elem(), n: g.atom("len("+name+")", bi(0), pow2(40))}
		g.lists[id] = l
		return gList{id}
	case *types.Pointer:
		id := st.alloc(&gobj{typ: u.Elem(), name: name, pre: true, nopt: present})
		if present {
			switch u.Elem().Underlying().(type) {
			case *types.Basic:
				return gPtr{obj: id}
			}
		}
		return gPtr{obj: id, nil: g.unknownBool("nil:" + name)}
	case *types.Map:
		id := st.alloc(&gobj{isMap: true, sym: true, ktyp: u.Key(), etyp: u.Elem(), pre: true, name: name})
		return gMap{id, g.unknownBool("nil:" + name)}
	case *types.Interface:
		return gIface{nil: g.unknownBool("nil:" + name), sym: fmt.Sprintf("%s'%d", name, g.freshN())}
	case *types.Struct:
		f := make([]gv, u.NumFields())
		for i := range f {
			f[i] = g.unknown(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), present)
		}
		return gStruct{f}
	case *types.Array:
		if u.Len() == 0 {
			return gArr{}
		}
	}
	g.undecided("unknown value of type %s", t)
	return nil
}

func (g *gx) newHole(name string, h *ghole) string {
	n := fmt.Sprintf("%s'%d", name, g.freshN())
	g.holes[n] = h
	return n
}

// ---------------------------------------------------------------------------
// Memory.

func (g *gx) notNil(st *gstate, p gPtr) {
	g.obl()
	if p.obj == 0 || p.nil != nil && g.decide(st, p.nil) {
		g.problem("panic", "nil pointer dereference")
	}
}

func (g *gx) force(st *gstate, id int) *gobj {
	o := st.heap[id]
	if o == nil {
		g.undecided("internal: no object %d", id)
	}
	if o.val == nil && !o.isMap {
		n := *o
		n.val = g.unknown(st, o.typ, o.name, o.nopt)
		st.heap[id] = &n
		return &n
	}
	return o
}

func part(v gv, path []int) gv {
	for _, i := range path {
		switch x := v.(type) {
		case gStruct:
			v = x.f[i]
		case gArr:
			if i >= len(x.e) {
				return nil
			}
			v = x.e[i]
		default:
			return nil
		}
	}
	return v
}

func setPart(v gv, path []int, n gv) gv {
	if len(path) == 0 {
		return n
	}
	switch x := v.(type) {
	case gStruct:
		f := append([]gv(nil), x.f...)
		f[path[0]] = setPart(f[path[0]], path[1:], n)
		return gStruct{f}
	case gArr:
		if path[0] >= len(x.e) {
			return x
		}
		e := append([]gv(nil), x.e...)
		e[path[0]] = setPart(e[path[0]], path[1:], n)
		return gArr{e}
	}
	return nil
}

func (g *gx) load(st *gstate, a gv) gv {
	switch p := a.(type) {
	case gPtr:
		g.notNil(st, p)
		v := part(g.force(st, p.obj).val, p.path)
		if v == nil {
			g.undecided("load of an unknown part")
		}
		return v
	case gElem:
		v := part(g.seqElem(st, p.seq, p.i), p.path)
		if v == nil {
			g.undecided("load of an unknown part")
		}
		return v
	case gListElem:
		return g.listElem(st, p.list, p.i)
	}
	g.undecided("load from %T", a)
	return nil
}

func (g *gx) store(st *gstate, a, v gv) {
	p, ok := a.(gPtr)
	if !ok {
		g.undecided("store to %T", a)
	}
	g.notNil(st, p)
	o := g.force(st, p.obj)
	switch {
	case o.pre:
		g.problem("effect", "the request is modified")
	case o.glob != "" && !g.inInit:
		g.problem("effect", "package-level state is modified: %s", o.glob)
	case o.slice:
		g.undecided("an array is modified that a slice refers to")
	}
	n := *o
	n.val = setPart(o.val, p.path, v)
	if n.val == nil {
		g.undecided("store to an unknown part")
	}
	st.heap[p.obj] = &n
}

func (g *gx) listElem(st *gstate, id int, i Lin) gv {
	l := g.lists[id]
	g.obl()
	if !g.decide(st, cConj(cGe(i), cLess(i, l.n))) {
		g.problem("bounds", "index out of range of %s", l.name)
	}
	if g.acc != nil {
		g.acc[id] = i
	}
	for j, p := range l.at {
		if g.decide(st, cEqual(i, p)) {
			return l.focus[j]
		}
	}
	k := fmt.Sprintf("list%d[%s]", id, i.key())
	if v, ok := st.fs.ghost[k]; ok {
		return v
	}
	var v gv
	if l.other != nil {
		v = l.other(g, st, k)
	} else {
		v = g.unknown(st, l.elem, l.name+"[]", true)
	}
	st.fs.ghost[k] = v
	return v
}

// global returns the variable. Its initial value is computed by g.init.
func (g *gx) global(st *gstate, x *ssa.Global) gv {
	k := "glob:" + x.String()
	if v, ok := st.fs.ghost[k]; ok {
		return v
	}
	o := &gobj{typ: x.Type().(*types.Pointer).Elem(), glob: x.String(), name: x.String()}
	if g.inInit && g.ld.isRepo(x.Pkg) {
		o.val = g.zero(o.typ)
	}
	p := gPtr{obj: st.alloc(o)}
	st.fs.ghost[k] = p
	return p
}

// ---------------------------------------------------------------------------
// Comparison of text.

func (g *gx) textEq(st *gstate, a, b []gseg) *Cond {
	if qkey(a) == qkey(b) {
		return condTrue
	}
	fa, fb := a, b
	// Common ends.
	for len(a) > 0 && len(b) > 0 {
		if a[0].key() == b[0].key() && a[0].oth == 0 {
			a, b = a[1:], b[1:]
			continue
		}
		if x, y := a[0].lit, b[0].lit; x != "" && y != "" {
			n := 0
			for n < len(x) && n < len(y) && x[n] == y[n] {
				n++
			}
			if n < len(x) && n < len(y) {
				return condFalse
			}
			a, b = qcat(qlit(x[n:]), a[1:]), qcat(qlit(y[n:]), b[1:])
			continue
		}
		break
	}
	for len(a) > 0 && len(b) > 0 {
		s, t := a[len(a)-1], b[len(b)-1]
		if s.key() == t.key() && s.oth == 0 {
			a, b = a[:len(a)-1], b[:len(b)-1]
			continue
		}
		if x, y := s.lit, t.lit; x != "" && y != "" {
			n := 0
			for n < len(x) && n < len(y) && x[len(x)-1-n] == y[len(y)-1-n] {
				n++
			}
			if n < len(x) && n < len(y) {
				return condFalse
			}
			a, b = qcat(a[:len(a)-1:len(a)-1], qlit(x[:len(x)-n])), qcat(b[:len(b)-1:len(b)-1], qlit(y[:len(y)-n]))
			continue
		}
		break
	}
	if len(a) > len(b) {
		a, b = b, a
	}
	if len(a) == 0 {
		if len(b) == 0 {
			return condTrue
		}
		for _, s := range b {
			if s.lit != "" || s.num != nil || s.hole != "" && g.holes[s.hole] != nil && g.holes[s.hole].ident {
				return condFalse
			}
		}
	}
	if len(fa) == 1 && fa[0].hole != "" && g.holes[fa[0].hole] != nil && g.holes[fa[0].hole].not[qkey(fb)] {
		return condFalse
	}
	if len(fb) == 1 && fb[0].hole != "" && g.holes[fb[0].hole] != nil && g.holes[fb[0].hole].not[qkey(fa)] {
		return condFalse
	}
	if len(a) == 1 && len(b) == 1 && a[0].hole != "" && b[0].hole != "" {
		x, y := g.holes[a[0].hole], g.holes[b[0].hole]
		if x != nil && y != nil && x.class != "" && x.class == y.class {
			return condFalse
		}
	}
	if len(a) == 1 && len(b) == 1 && a[0].num != nil && b[0].num != nil {
		return cEqual(*a[0].num, *b[0].num)
	}
	x, y := qkey(a), qkey(b)
	if x > y {
		x, y = y, x
	}
	return cGe(la(boundedAtom("g:eq("+x+","+y+")", bi(0), bi(1))).addc(-1))
}

func (g *gx) textLen(q []gseg) Lin {
	n := lc(0)
	for _, s := range q {
		switch {
		case s.hole != "":
			lo := int64(0)
			if h := g.holes[s.hole]; h != nil && h.ident {
				lo = 1
			}
			n = n.add(la(boundedAtom("g:len("+s.hole+")", bi(lo), pow2(30))))
		case s.num != nil:
			n = n.add(la(boundedAtom("g:len#("+s.num.key()+")", bi(1), bi(20))))
		case s.oth > 0:
			n = n.add(la(boundedAtom(fmt.Sprintf("g:len<%d>", s.oth), bi(0), pow2(40))))
		default:
			n = n.addc(int64(len(s.lit)))
		}
	}
	return n
}

// cut returns the parts of q before and after position n.
func (g *gx) cut(st *gstate, q []gseg, n Lin) (a, b []gseg) {
	pos := lc(0)
	for i := 0; i <= len(q); i++ {
		if st.fs.eqLin(pos, n) {
			return q[:i:i], q[i:]
		}
		if i == len(q) {
			break
		}
		d := n.sub(pos)
		if q[i].lit != "" && d.isConst() && d.c.Sign() > 0 && d.c.Cmp(bi(int64(len(q[i].lit)))) < 0 {
			k := int(d.c.Int64())
			return qcat(q[:i], qlit(q[i].lit[:k])), qcat(qlit(q[i].lit[k:]), q[i+1:])
		}
		pos = pos.add(g.textLen(q[i : i+1]))
	}
	for _, name := range []string{"HasSuffix", "HasPrefix"} {
		var affixes []string
		for s := range g.affixes[name+qkey(q)] {
			affixes = append(affixes, s)
		}
		sort.Strings(affixes)
		for _, s := range affixes {
			if has, ok := g.known(st, g.affix(st, name, q, s)); !ok || !has {
				continue
			}
			if name == "HasSuffix" && st.fs.eqLin(n, g.textLen(q).addc(-int64(len(s)))) {
				return g.fun("TrimSuffix", q, qlit(s)).(gStr).q, qlit(s)
			}
			if name == "HasPrefix" && st.fs.eqLin(n, lc(int64(len(s)))) {
				return qlit(s), g.fun("TrimPrefix", q, qlit(s)).(gStr).q
			}
		}
	}
	h := g.newHole("part", &ghole{})
	h2 := g.newHole("part", &ghole{})
	return []gseg{{hole: h}}, []gseg{{hole: h2}}
}

func (g *gx) isNil(v gv) *Cond {
	switch x := v.(type) {
	case gPtr:
		if x.obj == 0 {
			return condTrue
		}
		if x.nil == nil {
			return condFalse
		}
		return x.nil
	case gIface:
		return x.nil
	case gMap:
		return x.nil
	case gSeq:
		if x.nil {
			return cEq(g.seqLen(x))
		}
		return condFalse
	case gFn:
		return cBool(x.fn == nil && x.bi == nil)
	case gStr:
		if len(x.q) == 0 {
			return condTrue
		}
		return condFalse
	case gList:
		return cGe(la(boundedAtom(fmt.Sprintf("g:nil:list%d", x.id), bi(0), bi(1))).addc(-1))
	}
	return condFalse
}

func isNilG(v gv) bool {
	switch x := v.(type) {
	case gPtr:
		return x.obj == 0
	case gIface:
		return x.typ == nil && x.sym == "" && x.nil.op == cTrue
	case gMap:
		return x.obj == 0
	case gSeq:
		return x.nil && len(x.items) == 0
	case gFn:
		return x.fn == nil && x.bi == nil
	}
	return false
}

func (g *gx) equal(st *gstate, a, b gv) *Cond {
	if isNilG(a) {
		return g.isNil(b)
	}
	if isNilG(b) {
		return g.isNil(a)
	}
	switch x := a.(type) {
	case gInt:
		return cEqual(x.l, b.(gInt).l)
	case gBool:
		y := b.(gBool)
		if x.c.op == cTrue || x.c.op == cFalse {
			x, y = y, x
		}
		switch y.c.op {
		case cTrue:
			return x.c
		case cFalse:
			return cNot(x.c)
		}
		if g.decide(st, x.c) {
			return y.c
		}
		return cNot(y.c)
	case gStr:
		return g.textEq(st, x.q, b.(gStr).q)
	case gPtr:
		y, ok := b.(gPtr)
		if ok && x.obj == y.obj && fmt.Sprint(x.path) == fmt.Sprint(y.path) {
			return condTrue
		}
		if ok && (x.obj != y.obj) {
			n1, n2 := g.decide(st, g.isNil(x)), g.decide(st, g.isNil(y))
			return cBool(n1 && n2)
		}
	case gIface:
		if y, ok := b.(gIface); ok && x.typ != nil && y.typ != nil {
			if !types.Identical(x.typ, y.typ) {
				return condFalse
			}
			return g.equal(st, x.v, y.v)
		} else if ok && x.sym != "" && x.sym == y.sym {
			return condTrue
		}
	case gStruct:
		y := b.(gStruct)
		c := condTrue
		for i := range x.f {
			c = cConj(c, g.equal(st, x.f[i], y.f[i]))
		}
		return c
	}
	g.undecided("comparison of %T and %T", a, b)
	return nil
}

// same reports whether two values are certainly the same.
func (g *gx) same(st *gstate, a, b gv) bool {
	switch x := a.(type) {
	case gInt:
		y, ok := b.(gInt)
		return ok && st.fs.eqLin(x.l, y.l)
	case gBool:
		y, ok := b.(gBool)
		if !ok {
			return false
		}
		if x.c.key() == y.c.key() {
			return true
		}
		v, k := g.known(st, x.c)
		w, l := g.known(st, y.c)
		return k && l && v == w
	case gStr:
		y, ok := b.(gStr)
		return ok && qkey(x.q) == qkey(y.q)
	case gBuf:
		y, ok := b.(gBuf)
		return ok && qkey(x.q) == qkey(y.q)
	case gPtr:
		y, ok := b.(gPtr)
		if !ok || x.obj != y.obj || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		return true
	case gStruct:
		y, ok := b.(gStruct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !g.same(st, x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case gArr:
		y, ok := b.(gArr)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !g.same(st, x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case gSeq:
		y, ok := b.(gSeq)
		return ok && len(x.items) == len(y.items) && g.isPrefix(st, x, y)
	case gList:
		y, ok := b.(gList)
		return ok && x.id == y.id
	case gIface:
		y, ok := b.(gIface)
		if !ok {
			return false
		}
		v, k := g.known(st, x.nil)
		w, l := g.known(st, y.nil)
		if k && l && v && w {
			return true
		}
		if x.sym != "" || y.sym != "" {
			return x.sym == y.sym
		}
		return x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) && g.same(st, x.v, y.v)
	case gFn:
		y, ok := b.(gFn)
		if !ok || x.fn != y.fn || x.bi != y.bi || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !g.same(st, x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case gMap:
		y, ok := b.(gMap)
		return ok && x.obj == y.obj
	case gTuple:
		y, ok := b.(gTuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !g.same(st, x[i], y[i]) {
				return false
			}
		}
		return true
	case gElem:
		y, ok := b.(gElem)
		return ok && st.fs.eqLin(x.i, y.i) && g.same(st, x.seq, y.seq)
	case gListElem:
		y, ok := b.(gListElem)
		return ok && x.list == y.list && st.fs.eqLin(x.i, y.i)
	case gFloat:
		_, ok := b.(gFloat)
		return ok
	case nil:
		return b == nil
	}
	return false
}

func (g *gx) isPrefix(st *gstate, x, y gSeq) bool {
	if len(x.items) > len(y.items) {
		return false
	}
	for i := range x.items {
		if x.items[i].others != y.items[i].others || x.items[i].others == 0 && !g.same(st, x.items[i].v, y.items[i].v) {
			return false
		}
	}
	return true
}

func qprefix(x, y []gseg) bool {
	if len(x) == 0 {
		return true
	}
	if len(x) > len(y) {
		return false
	}
	n := len(x) - 1
	for i := 0; i < n; i++ {
		if x[i].key() != y[i].key() {
			return false
		}
	}
	if x[n].lit != "" {
		return strings.HasPrefix(y[n].lit, x[n].lit)
	}
	return x[n].key() == y[n].key()
}

// ---------------------------------------------------------------------------
// Control.

func (g *gx) val(st *gstate, fr *gframe, v ssa.Value) gv {
	switch x := v.(type) {
	case *ssa.Const:
		return g.constVal(x)
	case *ssa.Global:
		return g.global(st, x)
	case *ssa.Function:
		return gFn{fn: x}
	case *ssa.Builtin:
		return gFn{bi: x}
	}
	r, ok := fr.env[v]
	if !ok {
		g.undecided("internal: no value for %s = %s in %s", v.Name(), v, fr.fn)
	}
	return r
}

func (g *gx) constVal(c *ssa.Const) gv {
	if c.Value == nil {
		return g.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return gBool{cBool(constant.BoolVal(c.Value))}
	case constant.String:
		return gStr{qlit(constant.StringVal(c.Value))}
	case constant.Float:
		return gFloat{}
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return gFloat{}
	}
	n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
	if !ok {
		g.undecided("constant %s", c)
	}
	return gInt{lbig(n)}
}

// fork runs f, and runs it again in both cases for each question that it asks.
func (g *gx) fork(st *gstate, fr *gframe, f func(st *gstate, fr *gframe) []gout) (outs []gout) {
	at, cur := g.at, g.cur
	var ask *Cond
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case gfork:
				ask = x.c
			case gstop:
				outs = nil
			default:
				panic(r)
			}
		}()
		outs = f(st, fr)
	}()
	if ask == nil {
		return outs
	}
	outs = nil
	for _, c := range []*Cond{ask, cNot(ask)} {
		g.at, g.cur = at, cur
		s, f2 := st.clone(), fr.clone()
		if !s.assume(c) {
			continue
		}
		g.cur = f2
		outs = append(outs, g.fork(s, f2, f)...)
	}
	g.at, g.cur = at, cur
	return outs
}

// region analyses blocks from b on until the function returns or the loop lp
// is left or begins again.
func (g *gx) region(st *gstate, fr *gframe, b, prev *ssa.BasicBlock, lp *Loop, atHeader bool) []gout {
	first := true
	for {
		if lp != nil && !first {
			if b == lp.header {
				return []gout{{kind: outBack, st: st, fr: fr, from: prev, to: b}}
			}
			if !lp.body[b] {
				return []gout{{kind: outExit, st: st, fr: fr, from: prev, to: b}}
			}
		}
		if !(first && atHeader) {
			if inner := g.ld.loopAt(fr.fn, b); inner != nil && inner != lp && (prev == nil || !inner.body[prev]) {
				var r []gout
				for _, o := range g.loop(st, fr, inner, prev) {
					if o.kind == outReturn {
						r = append(r, o)
						continue
					}
					r = append(r, g.resume(o, lp)...)
				}
				return r
			}
			g.phis(st, fr, b, prev)
		}
		first = false
		outs := g.instrs(st, fr, b, 0, prev)
		if len(outs) == 1 && outs[0].kind == outExit {
			o := outs[0]
			st, fr, prev, b = o.st, o.fr, o.from, o.to
			continue
		}
		var r []gout
		for _, o := range outs {
			if o.kind == outReturn {
				r = append(r, o)
			} else {
				r = append(r, g.resume(o, lp)...)
			}
		}
		return r
	}
}

func (g *gx) resume(o gout, lp *Loop) []gout {
	if lp != nil {
		if o.to == lp.header {
			return []gout{{kind: outBack, st: o.st, fr: o.fr, from: o.from, to: o.to}}
		}
		if !lp.body[o.to] {
			return []gout{{kind: outExit, st: o.st, fr: o.fr, from: o.from, to: o.to}}
		}
	}
	return g.region2(o.st, o.fr, o.to, o.from, lp)
}

// region2 is region for a block that was reached from prev.
func (g *gx) region2(st *gstate, fr *gframe, b, prev *ssa.BasicBlock, lp *Loop) []gout {
	if inner := g.ld.loopAt(fr.fn, b); inner != nil && inner != lp && !inner.body[prev] {
		var r []gout
		for _, o := range g.loop(st, fr, inner, prev) {
			if o.kind == outReturn {
				r = append(r, o)
				continue
			}
			r = append(r, g.resume(o, lp)...)
		}
		return r
	}
	g.phis(st, fr, b, prev)
	return g.region(st, fr, b, prev, lp, true)
}

func (g *gx) phis(st *gstate, fr *gframe, b, prev *ssa.BasicBlock) {
	var ps []*ssa.Phi
	var vs []gv
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == prev {
				ps = append(ps, p)
				vs = append(vs, g.val(st, fr, p.Edges[i]))
				break
			}
		}
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
	}
}

// instrs analyses the instructions of b from the i-th on. The results are
// outExit to the next block, or outReturn.
func (g *gx) instrs(st *gstate, fr *gframe, b *ssa.BasicBlock, i int, prev *ssa.BasicBlock) []gout {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		g.steps++
		if g.steps > g.limit {
			g.undecided("analysis limit exceeded")
		}
		g.cur = fr
		if p := in.Pos(); p.IsValid() {
			g.at = p
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return []gout{{kind: outExit, st: st, fr: fr, from: b, to: b.Succs[0]}}
		default:
			i := i
			one := func(st *gstate, fr *gframe) []gout {
				switch x := x.(type) {
				case *ssa.If:
					t := b.Succs[1]
					if g.decide(st, g.val(st, fr, x.Cond).(gBool).c) {
						t = b.Succs[0]
					}
					return []gout{{kind: outExit, st: st, fr: fr, from: b, to: t}}
				case *ssa.Return:
					var r gv
					switch len(x.Results) {
					case 0:
					case 1:
						r = g.val(st, fr, x.Results[0])
					default:
						t := make(gTuple, len(x.Results))
						for i := range t {
							t[i] = g.val(st, fr, x.Results[i])
						}
						r = t
					}
					return []gout{{kind: outReturn, st: st, fr: fr, ret: r}}
				case *ssa.Panic:
					g.obl()
					g.problem("panic", "the generator panics")
				case *ssa.Call:
					outs := g.callInstr(st, fr, x.Common())
					for k := range outs {
						o := &outs[k]
						f := fr
						if len(outs) > 1 {
							f = fr.clone()
						}
						f.env[x] = o.ret
						o.fr, o.kind, o.to = f, outBack, nil
					}
					return outs
				case *ssa.RunDefers:
					return g.runDefers(st, fr)
				default:
					g.instr(st, fr, x)
				}
				return []gout{{kind: outBack, st: st, fr: fr}}
			}
			outs := g.fork(st, fr, one)
			g.cur = fr
			if len(outs) == 1 && outs[0].kind == outBack {
				st, fr = outs[0].st, outs[0].fr
				continue
			}
			var r []gout
			for _, o := range outs {
				if o.kind == outBack {
					r = append(r, g.instrs(o.st, o.fr, b, i+1, prev)...)
				} else {
					r = append(r, o)
				}
			}
			return r
		}
	}
	g.undecided("internal: block without terminator")
	return nil
}

// textFunction is the result of a function from texts to texts of which the
// code is not followed: the same for the same arguments, as for the functions
// of the library. Other rules see to it that the function has no memory.
func (g *gx) textFunction(fn *ssa.Function, args []gv) (r gv, ok bool) {
	if len(fn.FreeVars) > 0 || len(args) == 0 || !g.ld.isRepo(fn.Pkg) {
		return nil, false
	}
	res := fn.Signature.Results()
	if res.Len() != 1 || !isString(res.At(0).Type()) {
		return nil, false
	}
	k := fn.String()
	var qs [][]gseg
	unknown := false
	for _, a := range args {
		q, is := a.(gStr)
		if !is {
			return nil, false
		}
		if _, lit := isLit(q.q); !lit {
			unknown = true
		}
		qs = append(qs, q.q)
	}
	if !unknown {
		return nil, false
	}
	return g.fun(k, qs...), true
}

// textByExamples follows a function from texts to texts for some texts in place
// of the unknown parts. If the result always consists of the same of these parts
// (the function selects a part by the separators that are known) then that's the
// result. Functions that look at what the parts consist of don't have one.
func (g *gx) textByExamples(st *gstate, fn *ssa.Function, args []gv) (q []gseg, ok bool) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case undecided, gfork, gstop:
			q, ok = nil, false
		default:
			panic(x)
		}
	}()
	gen, quiet, acc, cur, at := g.gen, g.quiet, g.acc, g.cur, g.at
	defer func() { g.gen, g.quiet, g.acc, g.cur, g.at = gen, quiet, acc, cur, at }()
	g.quiet++
	for i, form := range []string{"Zq%dx", "wK%d_Longer9", "v%dJ"} {
		example := map[string]string{}
		var holes []string
		var lits []gv
		for _, a := range args {
			var b strings.Builder
			for _, s := range a.(gStr).q {
				switch {
				case s.hole != "":
					if example[s.hole] == "" {
						e := fmt.Sprintf(form, len(holes))
						if h := g.holes[s.hole]; i == 1 && (h == nil || !h.ident) {
							e += ".sub" + e
						}
						example[s.hole] = e
						holes = append(holes, s.hole)
					}
					b.WriteString(example[s.hole])
				case s.num != nil || s.oth > 0 || len(holes) > 9:
					return nil, false
				default:
					b.WriteString(s.lit)
				}
			}
			lits = append(lits, gStr{qlit(b.String())})
		}
		_, v := g.one(g.call(st.clone(), fn, lits, nil, nil))
		text, is := g.lit(v)
		if !is {
			return nil, false
		}
		var r []gseg
	next:
		for text != "" {
			for _, h := range holes {
				if strings.HasPrefix(text, example[h]) {
					r = qcat(r, []gseg{{hole: h}})
					text = text[len(example[h]):]
					continue next
				}
			}
			r = qcat(r, qlit(text[:1]))
			text = text[1:]
		}
		if i > 0 && qkey(r) != qkey(q) {
			return nil, false
		}
		q = r
	}
	return q, true
}

// orElse runs f, or returns r if f is not decided.
func (g *gx) orElse(st *gstate, fn *ssa.Function, args []gv, r gv, f func() []gout) (outs []gout) {
	before := st.clone()
	gen, quiet, acc, cur, at := g.gen, g.quiet, g.acc, g.cur, g.at
	defer func() {
		switch x := recover().(type) {
		case nil:
		case undecided:
			for _, p := range []string{"call of ", "recursion ", "internal: ", "no source ", "instruction ", "initialization ", "analysis limit ", "a loop over a map "} {
				if strings.HasPrefix(x.msg, p) {
					panic(x)
				}
			}
			g.gen, g.quiet, g.acc, g.cur, g.at = gen, quiet, acc, cur, at
			if q, ok := g.textByExamples(before, fn, args); ok {
				r = gStr{q}
			}
			outs = g.ret(before, r)
		default:
			panic(x)
		}
	}()
	outs = f()
	for _, o := range outs {
		if x, is := o.ret.(gStr); is && g.vague(x.q, args) {
			if q, ok := g.textByExamples(before, fn, args); ok {
				return g.ret(before, gStr{q})
			}
			break
		}
	}
	return outs
}

// vague reports whether a text has parts that are not those of the arguments
// or functions of them.
func (g *gx) vague(q []gseg, args []gv) bool {
	known := map[string]bool{}
	for _, a := range args {
		for _, s := range a.(gStr).q {
			known[s.hole] = true
		}
	}
	for _, s := range q {
		if s.oth > 0 || s.hole != "" && !known[s.hole] && !strings.Contains(s.hole, "(") {
			return true
		}
	}
	return false
}

func (g *gx) call(st *gstate, fn *ssa.Function, args, bind []gv, up *gframe) []gout {
	if len(fn.Blocks) == 0 {
		g.undecided("no source for %s", fn)
	}
	fr := &gframe{fn: fn, env: map[ssa.Value]gv{}, rng: map[ssa.Value]int{}, at: g.at, up: up, gen: g.gen}
	if up != nil {
		fr.depth = up.depth + 1
	}
	if fr.depth > 40 {
		g.undecided("recursion too deep: %s", fn)
	}
	g.funcs[fn.String()] = true
	g.calls++
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = bind[i]
	}
	var before *gstate
	if g.gen > 0 && textResults(fn) {
		before = st.clone()
	}
	var outs []gout
	if r, ok := g.textFunction(fn, args); ok {
		outs = g.orElse(st, fn, args, r, func() []gout { return g.region(st, fr, fn.Blocks[0], nil, nil, false) })
	} else {
		outs = g.region(st, fr, fn.Blocks[0], nil, nil, false)
	}
	for i := range outs {
		outs[i].fr = nil
	}
	if before != nil && len(outs) > 1 {
		return g.join(before, outs, name(fn))
	}
	return outs
}

func name(fn *ssa.Function) string { return fn.Name() }

func textResults(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if b, ok := res.At(i).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			return false
		}
	}
	return res.Len() > 0
}

// join forgets which of several texts a function returned, if it had no effect.
// This is for what elements that are not in focus contribute.
func (g *gx) join(before *gstate, outs []gout, name string) []gout {
	for _, o := range outs {
		for id := 1; id <= before.n; id++ {
			a, b := before.heap[id], o.st.heap[id]
			if a != b && (a == nil || a.isMap || a.val != nil) {
				return outs
			}
		}
	}
	part := func(v gv, i int) []gseg {
		if t, ok := v.(gTuple); ok {
			return t[i].(gStr).q
		}
		return v.(gStr).q
	}
	one := func(i int) gv {
		h := &ghole{not: map[string]bool{}}
		same := true
		for _, o := range outs {
			same = same && qkey(part(o.ret, i)) == qkey(part(outs[0].ret, i))
		}
		if same {
			return gStr{part(outs[0].ret, i)}
		}
		for _, k := range g.keys {
			differ := true
			for _, o := range outs {
				differ = differ && g.textEq(o.st, k, part(o.ret, i)).op == cFalse
			}
			if differ {
				h.not[qkey(k)] = true
			}
		}
		return gStr{[]gseg{{hole: g.newHole(name, h)}}}
	}
	var r gv
	if t, ok := outs[0].ret.(gTuple); ok {
		u := make(gTuple, len(t))
		for i := range t {
			u[i] = one(i)
		}
		r = u
	} else {
		r = one(0)
	}
	return []gout{{kind: outReturn, st: before, ret: r}}
}

// ---------------------------------------------------------------------------
// Loops.

// gloc is a place that a loop changes: a phi, or a part of an object.
type gloc struct {
	phi  *ssa.Phi
	obj  int
	path []int
	key  string
}

// typ is the type of the location, or nil if it is not known.
func (l gloc) typ(st *gstate) types.Type {
	if l.phi != nil {
		return l.phi.Type()
	}
	t := st.heap[l.obj].typ
	for _, i := range l.path {
		if t == nil {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func (g *gx) locVal(st *gstate, fr *gframe, l gloc) gv {
	if l.phi != nil {
		return fr.env[l.phi]
	}
	o := st.heap[l.obj]
	return part(o.val, l.path)
}

func (g *gx) setLoc(st *gstate, fr *gframe, l gloc, v gv) {
	if l.phi != nil {
		fr.env[l.phi] = v
		return
	}
	o := *st.heap[l.obj]
	o.val = setPart(o.val, l.path, v)
	st.heap[l.obj] = &o
}

// diff finds the parts that differ.
func (g *gx) diff(st *gstate, a, b gv, path []int, f func(path []int)) {
	switch x := a.(type) {
	case gStruct:
		if y, ok := b.(gStruct); ok && len(x.f) == len(y.f) {
			for i := range x.f {
				g.diff(st, x.f[i], y.f[i], append(path[:len(path):len(path)], i), f)
			}
			return
		}
	case gArr:
		if y, ok := b.(gArr); ok && len(x.e) == len(y.e) {
			for i := range x.e {
				g.diff(st, x.e[i], y.e[i], append(path[:len(path):len(path)], i), f)
			}
			return
		}
	}
	if !g.same(st, a, b) {
		f(path)
	}
}

type ginv struct {
	loc gloc
	mk  func(v Lin) *Cond
}

// gplan is what is known about a loop.
type gplan struct {
	locs  []gloc
	have  map[string]bool
	maps  map[int]bool // maps that get other entries
	cells map[string]bool
	invs  map[string][]ginv
	anyS  map[string]bool // text that does not just grow
	// elements that are appended to slices
	mayNil map[string]bool
	elemT  map[string]types.Type
}

// headerKnown tells whether the loop continues, if that is certain without
// knowing anything about lists.
func (g *gx) headerKnown(st *gstate, fr *gframe, lp *Loop) bool {
	cond, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
	if !ok {
		return true
	}
	s, f := st.clone(), fr.clone()
	known := false
	g.quiet++
	defer func() {
		g.quiet--
		if r := recover(); r != nil {
			switch r.(type) {
			case gfork, gstop:
			default:
				panic(r)
			}
		}
	}()
	for _, in := range lp.header.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
			continue
		case *ssa.Next:
			known = false
			return g.nextKnown(s, f, in.(*ssa.Next))
		case *ssa.Call:
			c := in.(*ssa.Call)
			outs := g.callInstr(s, f, c.Common())
			if len(outs) != 1 {
				return false
			}
			s = outs[0].st
			f.env[c] = outs[0].ret
			continue
		}
		g.instr(s, f, in)
	}
	c := g.val(s, f, cond.Cond).(gBool).c
	known = c.op == cTrue || c.op == cFalse
	return known
}

func (g *gx) loop(st *gstate, fr *gframe, lp *Loop, prev *ssa.BasicBlock) []gout {
	g.phis(st, fr, lp.header, prev)
	if p := loopPos(lp); p.IsValid() {
		g.at = p
	}
	if g.headerKnown(st, fr, lp) {
		return g.unroll(st, fr, lp, 0)
	}
	g.loops[fnName(fr.fn)+" "+g.ld.posStr(loopPos(lp))] = true
	return g.abstractLoop(st, fr, lp)
}

func (g *gx) unroll(st *gstate, fr *gframe, lp *Loop, n int) []gout {
	if n > 1000 {
		g.undecided("a loop does not end")
	}
	var r []gout
	for _, o := range g.region(st, fr, lp.header, nil, lp, true) {
		if o.kind != outBack {
			r = append(r, o)
			continue
		}
		g.phis(o.st, o.fr, lp.header, o.from)
		if !g.headerKnown(o.st, o.fr, lp) {
			r = append(r, g.abstractLoop(o.st, o.fr, lp)...)
			continue
		}
		r = append(r, g.unroll(o.st, o.fr, lp, n+1)...)
	}
	return r
}

func (g *gx) abstractLoop(st *gstate, fr *gframe, lp *Loop) []gout {
	at := g.at
	for _, in := range lp.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if _, isM := g.val(st, fr, nx.Iter).(gMap); isM {
				return g.mapLoop(st, fr, lp, nx)
			}
			g.undecided("range over an unknown text")
		}
	}
	// Which list is this about? Nothing is known before the body was looked at.
	acc := g.probe(st, fr, lp)
	var ind *ssa.Phi
	var list *glist
	var off Lin
	step := int64(0)
	for _, id := range sortedInts(acc) {
		l := g.lists[id]
		if len(l.at) == 0 {
			continue
		}
		for _, p := range headerPhis(lp) {
			if s := inductionStep(lp, p); s == 1 || s == -1 {
				a := acc[id]
				if len(a.t) == 1 && a.t[0].a.key == "g:probe:"+p.Name() && a.t[0].k.Cmp(bigOne) == 0 {
					if list == nil {
						ind, list, step = p, l, s
						off = lbig(a.c)
					}
				}
			}
		}
	}
	if list == nil {
		return g.phase(st, fr, lp, acc, nil, func(h *gstate, hf *gframe) bool { return true })
	}
	// The others before the first focus, the focus, and so on.
	order := make([]Lin, 0, len(list.at))
	order = append(order, list.at...)
	if step < 0 {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	var exits []gout
	type sf struct {
		st *gstate
		fr *gframe
	}
	cur := []sf{{st, fr}}
	idx := func(f *gframe) Lin { return f.env[ind].(gInt).l.add(off) }
	for j := range order {
		var next []sf
		for _, c := range cur {
			g.at = at
			var focus []sf
			exits = append(exits, g.phase(c.st, c.fr, lp, acc, func(h *gstate, hf *gframe) {
				s, f := h.clone(), hf.clone()
				if s.assume(cEqual(idx(f), order[j])) {
					focus = append(focus, sf{s, f})
				}
			}, func(h *gstate, hf *gframe) bool {
				if j > 0 && !h.assume(cGe(idx(hf).sub(order[j-1]).scaleN(step).addc(-1))) {
					return false
				}
				return h.assume(cGe(order[j].sub(idx(hf)).scaleN(step).addc(-1)))
			})...)
			for _, f := range focus {
				g.at = at
				for _, o := range g.region(f.st, f.fr, lp.header, nil, lp, true) {
					if o.kind != outBack {
						exits = append(exits, o)
						continue
					}
					g.phis(o.st, o.fr, lp.header, o.from)
					next = append(next, sf{o.st, o.fr})
				}
			}
		}
		cur = next
	}
	for _, c := range cur {
		g.at = at
		exits = append(exits, g.phase(c.st, c.fr, lp, acc, nil, func(h *gstate, hf *gframe) bool {
			return h.assume(cGe(idx(hf).sub(order[len(order)-1]).scaleN(step).addc(-1)))
		})...)
	}
	return exits
}

func sortedInts(m map[int]Lin) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// probe finds the lists whose elements the body looks at, and where.
func (g *gx) probe(st *gstate, fr *gframe, lp *Loop) map[int]Lin {
	acc := map[int]Lin{}
	old := g.acc
	g.acc = acc
	g.quiet++
	defer func() {
		g.acc = old
		g.quiet--
		if r := recover(); r != nil {
			switch r.(type) {
			case gfork, gstop, undecided:
			default:
				panic(r)
			}
		}
	}()
	s, f := st.clone(), fr.clone()
	for _, p := range headerPhis(lp) {
		if inductionStep(lp, p) != 0 {
			f.env[p] = gInt{la(boundedAtom("g:probe:"+p.Name(), bi(-2), pow2(41)))}
		}
	}
	// Only the elements' own addresses matter: follow the body's first blocks.
	for b := range lp.body {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			base, ok := g.probeVal(s, f, lp, ia.X)
			if !ok {
				continue
			}
			if q, isSeq := base.(gSeq); isSeq {
				if g.seqLen(q).isConst() {
					continue
				}
				// A slice that was made from a list of the request.
				l := &glist{name: "slice", n: g.seqLen(q)}
				pos := lc(0)
				for _, e := range q.items {
					if e.others == 0 {
						l.at = append(l.at, pos)
						l.focus = append(l.focus, e.v)
						pos = pos.addc(1)
					} else {
						pos = pos.add(g.count(e))
					}
				}
				id := g.freshN()
				g.lists[id] = l
				base = gList{id}
			}
			l, ok := base.(gList)
			if !ok {
				continue
			}
			if i, ok := g.probeVal(s, f, lp, ia.Index); ok {
				acc[l.id] = i.(gInt).l
			}
		}
	}
	return acc
}

// probeVal evaluates simple expressions.
func (g *gx) probeVal(st *gstate, fr *gframe, lp *Loop, v ssa.Value) (r gv, ok bool) {
	in, isIn := v.(ssa.Instruction)
	if !isIn || !lp.body[in.Block()] {
		if _, have := fr.env[v]; !have && isIn {
			return nil, false
		}
		return g.val(st, fr, v), true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == lp.header {
			return fr.env[x], true
		}
	case *ssa.BinOp:
		a, ok := g.probeVal(st, fr, lp, x.X)
		if !ok {
			return nil, false
		}
		b, ok := g.probeVal(st, fr, lp, x.Y)
		if !ok {
			return nil, false
		}
		i, ok1 := a.(gInt)
		j, ok2 := b.(gInt)
		if !ok1 || !ok2 {
			return nil, false
		}
		switch x.Op {
		case token.ADD:
			return gInt{i.l.add(j.l)}, true
		case token.SUB:
			return gInt{i.l.sub(j.l)}, true
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a, ok := g.probeVal(st, fr, lp, x.X)
			if !ok {
				return nil, false
			}
			defer func() {
				if e := recover(); e != nil {
					r, ok = nil, false
				}
			}()
			return g.load(st, a), true
		}
	case *ssa.FieldAddr:
		a, ok := g.probeVal(st, fr, lp, x.X)
		if !ok {
			return nil, false
		}
		if p, isP := a.(gPtr); isP && p.obj != 0 {
			return gPtr{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], x.Field)}, true
		}
	case *ssa.Call:
		// A getter of the list.
		fn := x.Call.StaticCallee()
		if fn == nil || len(fn.Blocks) == 0 || !g.ld.isRepo(fn.Pkg) {
			return nil, false
		}
		var args []gv
		for _, a := range x.Call.Args {
			v, ok := g.probeVal(st, fr, lp, a)
			if !ok {
				return nil, false
			}
			args = append(args, v)
		}
		defer func() {
			if e := recover(); e != nil {
				r, ok = nil, false
			}
		}()
		outs := g.call(st.clone(), fn, args, nil, fr)
		if len(outs) == 1 {
			return outs[0].ret, true
		}
	}
	return nil, false
}

// phase analyses any number of iterations. ready is called with every state at
// the header; generic restricts the state for an iteration over another
// element. It returns how the loop can be left.
func (g *gx) phase(st *gstate, fr *gframe, lp *Loop, acc map[int]Lin, ready func(*gstate, *gframe), generic func(*gstate, *gframe) bool) []gout {
	at := g.at
	ids := sortedInts(acc)
	if len(ids) == 0 {
		for id, l := range g.lists {
			if len(l.focus) > 0 {
				ids = append(ids, id)
			}
		}
		sort.Ints(ids)
	}
	pl := &gplan{have: map[string]bool{}, maps: map[int]bool{}, cells: map[string]bool{}, invs: map[string][]ginv{}, anyS: map[string]bool{}, mayNil: map[string]bool{}, elemT: map[string]types.Type{}}
	base := st.n
	phis := headerPhis(lp)
	add := func(l gloc) bool {
		if l.phi != nil {
			l.key = "phi " + l.phi.Name()
		} else {
			l.key = fmt.Sprintf("obj %d %v", l.obj, l.path)
		}
		if pl.have[l.key] {
			return false
		}
		pl.have[l.key] = true
		pl.locs = append(pl.locs, l)
		return true
	}
	// The values that a place can have.
	havoc := func() (*gstate, *gframe) {
		s, f := st.clone(), fr.clone()
		for _, l := range pl.locs {
			name := l.key
			if l.phi != nil && l.phi.Comment != "" {
				name = l.phi.Comment
			}
			v := g.locVal(s, f, l)
			switch x := v.(type) {
			case gInt:
				n := gInt{g.atom(name, new(big.Int).Neg(pow2(63)), pow2(63))}
				g.setLoc(s, f, l, n)
				for _, iv := range pl.invs[l.key] {
					if !s.assume(iv.mk(n.l)) {
						g.undecided("internal: inconsistent invariants")
					}
				}
			case gBool:
				g.setLoc(s, f, l, gBool{g.unknownBool(name)})
			case gStr:
				if pl.anyS[l.key] {
					g.setLoc(s, f, l, gStr{[]gseg{{hole: g.newHole(name, &ghole{})}}})
				} else {
					g.setLoc(s, f, l, gStr{qcat(x.q, []gseg{{oth: g.freshN()}})})
				}
			case gBuf:
				g.setLoc(s, f, l, gBuf{qcat(x.q, []gseg{{oth: g.freshN()}})})
			case gSeq:
				it := gItem{others: g.freshN(), nonNil: !pl.mayNil[l.key], typ: pl.elemT[l.key]}
				if t := l.typ(s); t != nil {
					if u, ok := t.Underlying().(*types.Slice); ok {
						it.typ = u.Elem()
					}
				}
				g.setLoc(s, f, l, gSeq{items: append(x.items[:len(x.items):len(x.items)], it), nil: x.nil})
			case gIface:
				g.setLoc(s, f, l, gIface{nil: g.unknownBool("nil:" + name), sym: fmt.Sprintf("%s'%d", name, g.freshN())})
			default:
				g.undecided("a loop changes a variable of type %T", v)
			}
		}
		for id := range pl.maps {
			o := *s.heap[id]
			var cs []gcell
			for _, c := range o.cells {
				if !pl.cells[fmt.Sprintf("%d %s", id, g.keyStr(c.key))] {
					cs = append(cs, c)
				}
			}
			o.cells, o.sym = cs, true
			o.ver = g.freshN()
			s.heap[id] = &o
		}
		return s, f
	}
	ints := func() {
		// Candidates for invariants of numbers.
		for _, l := range pl.locs {
			if _, ok := pl.invs[l.key]; ok {
				continue
			}
			v, ok := g.locVal(st, fr, l).(gInt)
			if !ok {
				continue
			}
			pl.invs[l.key] = []ginv{}
			try := func(mk func(Lin) *Cond) {
				if st.fs.entails(mk(v.l)) {
					pl.invs[l.key] = append(pl.invs[l.key], ginv{l, mk})
				}
			}
			e := v.l
			try(func(x Lin) *Cond { return cLeq(e, x) })
			try(func(x Lin) *Cond { return cLeq(x, e) })
			try(func(x Lin) *Cond { return cGe(x) })
			try(func(x Lin) *Cond { return cGe(x.addc(1)) })
			try(func(x Lin) *Cond { return cLeq(x, lbig(maxField)) })
			try(func(x Lin) *Cond { return cLeq(x, lbig(maxField).addc(1)) })
			for _, id := range ids {
				n := g.lists[id].n
				if n.isConst() {
					continue
				}
				try(func(x Lin) *Cond { return cLeq(x, n) })
				try(func(x Lin) *Cond { return cLess(x, n) })
			}
		}
	}
	round := func() (stable bool) {
		hs, hf := havoc()
		gs, gf := hs.clone(), hf.clone()
		if !generic(gs, gf) {
			return true
		}
		stable = true
		g.gen++
		outs := g.region(gs, gf, lp.header, nil, lp, true)
		g.gen--
		for _, o := range outs {
			if o.kind != outBack {
				continue
			}
			g.phis(o.st, o.fr, lp.header, o.from)
			for _, p := range phis {
				if !g.same(o.st, hf.env[p], o.fr.env[p]) && add(gloc{phi: p}) {
					stable = false
				}
			}
			for id := 1; id <= base; id++ {
				a, b := hs.heap[id], o.st.heap[id]
				if a == b || a == nil {
					continue
				}
				if a.isMap {
					for _, c := range b.cells {
						k := fmt.Sprintf("%d %s", id, g.keyStr(c.key))
						old := -1
						for i := range a.cells {
							if g.keySame(o.st, a.cells[i].key, c.key) {
								old = i
							}
						}
						if old >= 0 {
							if (a.cells[old].present.key() != c.present.key() || !g.same(o.st, a.cells[old].val, c.val)) && !pl.cells[k] {
								pl.cells[k] = true
								stable = false
							}
						} else if c.present.op != cFalse && !pl.maps[id] && !a.sym {
							stable = false
						}
					}
					if !pl.maps[id] {
						pl.maps[id] = true
						stable = false
					}
					continue
				}
				if a.val == nil {
					continue // just looked at for the first time
				}
				g.diff(o.st, a.val, b.val, nil, func(path []int) {
					if add(gloc{obj: id, path: path}) {
						stable = false
					}
				})
			}
			if !stable {
				continue
			}
			for _, l := range pl.locs {
				h, b := g.locVal(hs, hf, l), g.locVal(o.st, o.fr, l)
				switch x := h.(type) {
				case gInt:
					y := b.(gInt)
					var keep []ginv
					for _, iv := range pl.invs[l.key] {
						if o.st.fs.entails(iv.mk(y.l)) {
							keep = append(keep, iv)
						} else {
							stable = false
						}
					}
					pl.invs[l.key] = keep
				case gStr:
					if !pl.anyS[l.key] && !qprefix(x.q, b.(gStr).q) {
						pl.anyS[l.key] = true
						stable = false
					}
				case gBuf:
					if !qprefix(x.q, b.(gBuf).q) {
						g.undecided("text that was written is removed in a loop")
					}
				case gSeq:
					y := b.(gSeq)
					if !g.isPrefix(o.st, x, y) {
						g.undecided("elements of a slice are changed in a loop")
					}
					for _, e := range y.items[len(x.items):] {
						nn := e.nonNil
						if e.others == 0 {
							v, ok := g.known(o.st, g.isNil(e.v))
							nn = ok && !v
						}
						if !nn && !pl.mayNil[l.key] {
							pl.mayNil[l.key] = true
							stable = false
						}
						if pl.elemT[l.key] == nil && e.typ != nil {
							pl.elemT[l.key] = e.typ
							stable = false
						}
					}
				}
			}
		}
		ints()
		return stable
	}
	for _, p := range phis {
		if inductionStep(lp, p) != 0 {
			add(gloc{phi: p})
		}
	}
	ints()
	g.quiet++
	for n := 0; ; n++ {
		if n > 60 {
			g.undecided("loop invariant does not stabilize")
		}
		g.at = at
		if round() {
			break
		}
	}
	g.quiet--
	hs, hf := havoc()
	if ready != nil {
		ready(hs, hf)
	}
	var exits []gout
	g.at = at
	if !generic(hs, hf) {
		return nil
	}
	g.gen++
	outs := g.region(hs, hf, lp.header, nil, lp, true)
	g.gen--
	for _, o := range outs {
		if o.kind != outBack {
			exits = append(exits, o)
		}
	}
	return exits
}

// mapLoop analyses a loop over a map. What depends on the order of the entries
// must not become part of the output.
func (g *gx) mapLoop(st *gstate, fr *gframe, lp *Loop, nx *ssa.Next) []gout {
	m := g.val(st, fr, nx.Iter).(gMap)
	var o *gobj
	if m.obj != 0 {
		o = st.heap[m.obj]
	}
	tup := nx.Type().(*types.Tuple)
	set := func(s *gstate, f *gframe, ok bool) {
		vals := gTuple{gBool{cBool(ok)}, nil, nil}
		for i := 1; i < 3; i++ {
			t := tup.At(i).Type()
			if b, isB := t.(*types.Basic); isB && b.Kind() == types.Invalid {
				continue
			}
			if ok {
				vals[i] = g.unknown(s, t, "entry", true)
			} else {
				vals[i] = g.zero(t)
			}
		}
		if f.next == nil {
			f.next = map[ssa.Value]gv{}
		}
		n := map[ssa.Value]gv{}
		for k, v := range f.next {
			n[k] = v
		}
		n[nx] = vals
		f.next = n
	}
	if o != nil {
		// Does an iteration have an effect?
		s, f := st.clone(), fr.clone()
		set(s, f, true)
		g.quiet++
		outs := g.region(s, f, lp.header, nil, lp, true)
		g.quiet--
		for _, b := range outs {
			if b.kind != outBack {
				g.undecided("a loop over a map is left early")
			}
			g.phis(b.st, b.fr, lp.header, b.from)
			for _, p := range headerPhis(lp) {
				if !g.same(b.st, fr.env[p], b.fr.env[p]) {
					g.problem("order", "the result depends on the order of the entries of a map")
				}
			}
			for id := 1; id <= st.n; id++ {
				x, y := st.heap[id], b.st.heap[id]
				if x == y || x == nil || !x.isMap && x.val == nil {
					continue
				}
				g.problem("order", "the result depends on the order of the entries of a map")
			}
		}
	}
	set(st, fr, false)
	return g.region(st, fr, lp.header, nil, lp, true)
}

func (g *gx) obl() {
	if g.quiet == 0 {
		g.obls++
	}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
