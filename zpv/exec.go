package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is the abstract interpreter.
type Interp struct {
	ld    *Loaded
	st    *State
	orc   []*oracle
	stack []*Frame

	paths, obls, discharged, instrs int
	quiet                           int // >0: obligations are not reported
	rep                             *Report
	rule                            string
	funcs                           map[string]int // analysed functions
	callSites                       map[string]bool
	loopCache                       map[string]*loopResult
	models                          map[string]model
	intr                            map[string]model
	loopHook                        *LoopHook
	onCall                          func(fr *Frame, fn *ssa.Function, args []Val, at token.Pos) (Val, bool)
	termination                     bool
	noLoops                         bool
	loopsSeen                       map[string]string
	trustPanics                     bool
	retHook                         func(fr *Frame, ret Val, at token.Pos)
	depthLimit                      int
	onPanic                         func(fr *Frame, v Val, at token.Pos) bool
	esc                             *escapeInfo // C13: where allocations are
	symDepth                        int
	external                        func(fr *Frame, name string, fn *ssa.Function, sig *types.Signature, args []Val, at token.Pos) (Val, bool)
	inInit                          bool
	noMerge                         bool
	panicked                        int // expected panics
}

type model func(it *Interp, fr *Frame, args []Val, at token.Pos) Val

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	next   map[ssa.Value]Val
	at     token.Pos
	defers []func()
	visits map[*ssa.BasicBlock]int
	pc     ssa.Instruction
}

func (it *Interp) cur() *Frame {
	if len(it.stack) == 0 {
		return nil
	}
	return it.stack[len(it.stack)-1]
}

func (it *Interp) event(e Event) {
	if o := it.st.objs[e.obj]; o != nil && o.konst && (e.kind == "elemread" || e.kind == "mapread") {
		return
	}
	if e.pos.c == nil {
		e.pos = lc(0)
	}
	if e.n.c == nil {
		e.n = lc(0)
	}
	if it.esc != nil {
		switch e.kind {
		case "alloc":
			e.heap = it.allocates(&e)
		case "mapwrite":
			e.heap = e.note != "delete" // the map may grow
		}
	}
	it.st.log = append(it.st.log, e)
}

func (it *Interp) undecided(at token.Pos, f string, a ...interface{}) {
	panic(undecided{at, fmt.Sprintf(f, a...), it.stackString(at)})
}

func (it *Interp) stackString(at token.Pos) string {
	var p []string
	for i := len(it.stack) - 1; i >= 0; i-- {
		fr := it.stack[i]
		p = append(p, fmt.Sprintf("%s (%s)", fnName(fr.fn), it.ld.posStr(at)))
		at = fr.at
	}
	return strings.Join(p, " <- ")
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return f.String()
}

// violate reports a violation and ends the disjunct.
func (it *Interp) violate(kind string, at token.Pos, msg string) {
	it.report(kind, at, msg)
	panic(pathEnd{"violation"})
}

func (it *Interp) report(kind string, at token.Pos, msg string) {
	if it.quiet > 0 {
		return
	}
	it.rep.violation(it, kind, at, msg)
}

// oblige requires c to hold in the current disjunct.
func (it *Interp) oblige(c *Cond, kind string, at token.Pos, msg func() string) {
	if it.quiet == 0 {
		it.obls++
	}
	if it.entails(c) || it.holdsBySplit(c) {
		if it.quiet == 0 {
			it.discharged++
		}
		return
	}
	it.report(kind, at, msg())
	it.assume(c)
}

// holdsBySplit decides a disjunctive condition by cases.
func (it *Interp) holdsBySplit(c *Cond) bool {
	if c.op == cAnd {
		return (it.entails(c.a) || it.holdsBySplit(c.a)) && (it.entails(c.b) || it.holdsBySplit(c.b))
	}
	return false
}

// ---------------------------------------------------------------------------

func (it *Interp) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vbool(false)
		case u.Info()&types.IsInteger != 0:
			return vint(0)
		case u.Info()&types.IsFloat != 0:
			n := 64
			if u.Kind() == types.Float32 {
				n = 32
			}
			return VFloat{lc(0), n}
		case u.Info()&types.IsString != 0:
			return VStr{0, lc(0), lc(0)}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return VPtr{nil: condTrue}
		}
	case *types.Slice:
		return VSlice{0, lc(0), lc(0), lc(0), condTrue}
	case *types.Pointer:
		return VPtr{nil: condTrue}
	case *types.Map:
		return VMap{0, condTrue}
	case *types.Interface:
		return VIface{nil: condTrue, conc: true}
	case *types.Signature:
		return VFn{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = it.zero(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		return VArr{it.newArray(u, "array").id}
	case *types.Chan:
		return VOpaque{"nil chan"}
	case *types.Tuple:
		return VTuple(nil)
	}
	panic(undecided{token.NoPos, "zero value of " + t.String(), it.stackString(token.NoPos)})
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (it *Interp) newArray(u *types.Array, name string) *Obj {
	n := lc(u.Len())
	if isByte(u.Elem()) {
		return it.newBytes(name, []Seg{zeroSeg(n)})
	}
	o := it.newObj(oArr, name)
	o.typ = u.Elem()
	o.len = n
	return o
}

// symbolic returns an unknown value of type t. Parts are named, so that the
// same part is the same unknown.
func (it *Interp) symbolic(t types.Type, name string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{cGe(la(boundedAtom("bool:"+name, bi(0), bi(1))).addc(-1))}
		case u.Info()&types.IsInteger != 0:
			bits, signed, _ := intType(t)
			lo, hi := intRange(bits, signed)
			return VInt{la(boundedAtom(name, lo, hi))}
		case u.Info()&types.IsFloat != 0:
			n := 64
			if u.Kind() == types.Float32 {
				n = 32
			}
			_, hi := intRange(n, false)
			return VFloat{la(boundedAtom("bits:"+name, bi(0), hi)), n}
		case u.Info()&types.IsString != 0:
			ln := la(boundedAtom("len:"+name, bi(0), maxLen))
			o := it.newBytes(name, []Seg{srcSeg(name, lc(0), ln)})
			o.ro = true
			o.pre = true
			return VStr{o.id, lc(0), ln}
		}
	case *types.Slice:
		ln := la(boundedAtom("len:"+name, bi(0), maxLen))
		cp := la(boundedAtom("cap:"+name, bi(0), maxLen))
		isNil := cGe(la(boundedAtom("nil:"+name, bi(0), bi(1))).addc(-1))
		var id int
		if isByte(u.Elem()) {
			o := it.newBytes(name, []Seg{srcSeg(name, lc(0), ln), srcSeg(name+".spare", lc(0), cp.sub(ln))})
			o.pre = true
			id = o.id
		} else {
			o := it.newObj(oArr, name)
			o.typ, o.sym, o.len, o.pre = u.Elem(), true, cp, true
			id = o.id
		}
		it.assumeFact(geq(cp, ln))
		// A nil slice has no capacity.
		na := la(boundedAtom("nil:"+name, bi(0), bi(1)))
		it.assumeFact(geq(lbig(maxLen), cp.add(na.scale(maxLen))))
		return VSlice{id, lc(0), ln, cp, isNil}
	case *types.Pointer:
		o := it.newObj(oCell, "*"+name)
		o.typ, o.lazy, o.pre = u.Elem(), true, true
		return VPtr{obj: o.id, nil: cGe(la(boundedAtom("nil:"+name, bi(0), bi(1))).addc(-1))}
	case *types.Map:
		o := it.newObj(oMap, name)
		o.typ, o.ktyp, o.sym, o.pre = u.Elem(), u.Key(), true, true
		return VMap{o.id, cGe(la(boundedAtom("nil:"+name, bi(0), bi(1))).addc(-1))}
	case *types.Interface:
		return VIface{sym: name, nil: cGe(la(boundedAtom("nil:"+name, bi(0), bi(1))).addc(-1))}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = it.symbolic(u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return VStruct{f}
	case *types.Array:
		if isByte(u.Elem()) {
			o := it.newBytes(name, []Seg{srcSeg(name, lc(0), lc(u.Len()))})
			o.pre = true
			return VArr{o.id}
		}
		o := it.newObj(oArr, name)
		o.typ, o.sym, o.len, o.pre = u.Elem(), true, lc(u.Len()), true
		return VArr{o.id}
	case *types.Signature:
		return VFn{sym: name}
	}
	panic(undecided{token.NoPos, "unknown value of type " + t.String(), it.stackString(token.NoPos)})
}

var maxLen = pow2(46)

func (it *Interp) assumeFact(c Con) {
	if it.st.refuted(c) {
		panic(pathEnd{"infeasible"})
	}
	it.st.addFact(c)
}

// ---------------------------------------------------------------------------

func (it *Interp) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return it.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return vbool(constant.BoolVal(c.Value))
	case constant.String:
		return it.strLit(constant.StringVal(c.Value))
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			return VFloat{lc(int64(math.Float32bits(float32(f)))), 32}
		}
		return VFloat{lbig(new(big.Int).SetUint64(math.Float64bits(f))), 64}
	}
	v := constant.ToInt(c.Value)
	n, ok := new(big.Int).SetString(v.ExactString(), 10)
	if !ok {
		it.undecided(c.Pos(), "constant %s", c)
	}
	return VInt{lbig(n)}
}

func (it *Interp) strLit(s string) Val {
	if s == "" {
		return VStr{0, lc(0), lc(0)}
	}
	o := it.newBytes(fmt.Sprintf("%q", s), litSeg(s))
	o.ro = true
	o.pre = true
	return VStr{o.id, lc(0), lc(int64(len(s)))}
}

func (it *Interp) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return it.constVal(x)
	case *ssa.Global:
		return VPtr{obj: it.global(x)}
	case *ssa.Function:
		return VFn{fn: x}
	case *ssa.Builtin:
		return VFn{bi: x}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("internal: no value for %s = %s in %s", v.Name(), v, fr.fn))
	}
	return r
}

func (it *Interp) global(g *ssa.Global) int {
	k := "glob:" + g.String()
	if id, ok := it.st.ghost[k].(int); ok {
		return id
	}
	o := it.newObj(oCell, g.String())
	o.glob = g.String()
	o.pre = true
	o.typ = g.Type().(*types.Pointer).Elem()
	if it.inInit || it.ld.isRepo(g.Pkg) {
		if it.inInit {
			o.val = it.zero(o.typ)
		} else {
			o.lazy = true
		}
	} else {
		o.lazy = true
	}
	it.st.ghost[k] = o.id
	return o.id
}

func (it *Interp) force(o *Obj) {
	if o.kind == oCell && o.lazy {
		o.lazy = false
		// Sentinel errors and the like are not nil.
		if _, ok := o.typ.Underlying().(*types.Interface); ok && o.glob != "" {
			o.val = VIface{sym: o.glob, nil: condFalse}
			return
		}
		if o.glob != "" {
			if p, ok := o.typ.Underlying().(*types.Pointer); ok {
				c := it.newObj(oCell, "*"+o.name)
				c.typ, c.lazy, c.pre = p.Elem(), true, true
				o.val = VPtr{obj: c.id}
				return
			}
		}
		o.val = it.symbolic(o.typ, o.name)
	}
}

// load reads the value that p points at.
func (it *Interp) load(p VPtr, t types.Type, at token.Pos) Val {
	it.nonNil(p, at)
	o := it.obj(p.obj)
	return it.copyVal(it.loadObj(o, p.path, at))
}

func (it *Interp) nonNil(p VPtr, at token.Pos) {
	if p.nil != nil {
		it.oblige(cNot(p.nil), "nil", at, func() string { return "nil pointer dereference" })
	}
	if p.obj == 0 {
		panic(pathEnd{"nil"})
	}
}

func (it *Interp) loadObj(o *Obj, path []pathElem, at token.Pos) Val {
	switch o.kind {
	case oCell:
		it.force(o)
		it.event(Event{kind: "cellread", obj: o.id, at: at})
		return it.loadVal(o.val, path, at)
	case oBytes:
		if len(path) == 1 && path[0].idx != nil {
			return VInt{it.byteAt(o.id, *path[0].idx, at)}
		}
	case oArr:
		if len(path) >= 1 && path[0].idx != nil {
			c := it.arrCell(o, VInt{*path[0].idx})
			it.event(Event{kind: "elemread", obj: o.id, pos: *path[0].idx, at: at})
			return it.loadVal(o.cells[c].val, path[1:], at)
		}
	}
	it.undecided(at, "load from %s path %v", o.name, path)
	return nil
}

func (it *Interp) loadVal(v Val, path []pathElem, at token.Pos) Val {
	if len(path) == 0 {
		return v
	}
	switch x := v.(type) {
	case VStruct:
		if path[0].idx == nil {
			return it.loadVal(x.f[path[0].field], path[1:], at)
		}
	case VArr:
		return it.loadObj(it.obj(x.obj), path, at)
	}
	it.undecided(at, "load of part %v of %T", path, v)
	return nil
}

// copyVal copies arrays inside v, which are values.
func (it *Interp) copyVal(v Val) Val {
	switch x := v.(type) {
	case VStruct:
		f := make([]Val, len(x.f))
		for i := range f {
			f[i] = it.copyVal(x.f[i])
		}
		return VStruct{f}
	case VArr:
		o := it.obj(x.obj)
		n := o.clone()
		it.st.nobj++
		n.id = it.st.nobj
		n.pre = false
		it.st.objs[n.id] = n
		return VArr{n.id}
	}
	return v
}

func (it *Interp) store(p VPtr, v Val, at token.Pos) {
	it.nonNil(p, at)
	o := it.obj(p.obj)
	if o.glob != "" && !it.inInit {
		it.event(Event{kind: "globalwrite", obj: o.id, at: at, note: o.glob})
	}
	it.storeObj(o, p.path, v, at)
}

func (it *Interp) storeObj(o *Obj, path []pathElem, v Val, at token.Pos) {
	switch o.kind {
	case oCell:
		if len(path) > 0 || o.lazy {
			it.force(o)
		}
		it.event(Event{kind: "cellwrite", obj: o.id, at: at})
		o.val = it.storeVal(o.val, path, v, at)
		return
	case oBytes:
		if len(path) == 1 && path[0].idx != nil {
			b := byteSeg(v.(VInt).l)
			if v := v.(VInt).l; !v.isConst() && it.entails(cGe(v)) && it.entails(cLess(v, lc(128))) {
				// The varint of v. It may have got another name before its size was known.
				b = uvSeg(v)[0]
				it.assume(cLeq(b.ln, lc(1)))
			}
			it.writeSeq(o.id, *path[0].idx, lc(1), []Seg{b}, at)
			return
		}
	case oArr:
		if len(path) >= 1 && path[0].idx != nil {
			c := it.arrCell(o, VInt{*path[0].idx})
			it.event(Event{kind: "elemwrite", obj: o.id, pos: *path[0].idx, at: at})
			o.cells[c].val = it.storeVal(o.cells[c].val, path[1:], v, at)
			return
		}
	}
	it.undecided(at, "store to %s path %v", o.name, path)
}

func (it *Interp) storeVal(old Val, path []pathElem, v Val, at token.Pos) Val {
	if len(path) == 0 {
		// Storing an array keeps the identity of the variable.
		if a, ok := old.(VArr); ok {
			if b, ok := v.(VArr); ok {
				dst, src := it.obj(a.obj), it.obj(b.obj)
				dst.seq, dst.cells = src.seq, append([]kcell(nil), src.cells...)
				dst.sym, dst.ver, dst.def, dst.dflt = src.sym, src.ver, src.def, src.dflt
				return a
			}
		}
		if a, ok := old.(VStruct); ok {
			if b, ok := v.(VStruct); ok && len(a.f) == len(b.f) {
				n := VStruct{append([]Val(nil), b.f...)}
				for i := range n.f {
					n.f[i] = it.storeVal(a.f[i], nil, b.f[i], at)
				}
				return n
			}
		}
		return v
	}
	switch x := old.(type) {
	case VStruct:
		if path[0].idx == nil {
			n := VStruct{append([]Val(nil), x.f...)}
			n.f[path[0].field] = it.storeVal(x.f[path[0].field], path[1:], v, at)
			return n
		}
	case VArr:
		it.storeObj(it.obj(x.obj), path, v, at)
		return x
	}
	it.undecided(at, "store to part %v of %T", path, old)
	return nil
}

// arrCell returns the index of the cell of o with the given key, adding it if
// necessary.
func (it *Interp) arrCell(o *Obj, key Val) int {
	if i := it.findCell(o, key); i >= 0 {
		return i
	}
	o.cells = append(o.cells, kcell{key: key, val: it.cellDefault(o, key), present: condTrue})
	return len(o.cells) - 1
}

func (it *Interp) cellDefault(o *Obj, key Val) Val {
	switch {
	case o.dflt != nil:
		return o.dflt(it, key)
	case o.def != nil:
		return o.def
	case o.sym:
		return it.symbolic(o.typ, fmt.Sprintf("%s[%s]#%d", o.name, it.keyStr(key), o.ver))
	}
	return it.zero(o.typ)
}

func (it *Interp) keyStr(k Val) string {
	switch x := k.(type) {
	case VInt:
		return x.l.key()
	case VStr:
		return segStr(it.readSeq(x.obj, x.off, x.len))
	}
	return fmt.Sprint(k)
}

func (it *Interp) findCell(o *Obj, key Val) int {
	for i := range o.cells {
		if it.keySame(o.cells[i].key, key) {
			return i
		}
	}
	for i := range o.cells {
		if it.keyEq(o.cells[i].key, key) {
			return i
		}
	}
	return -1
}

func (it *Interp) keySame(a, b Val) bool {
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && x.l.eq(y.l)
	case VStr:
		y, ok := b.(VStr)
		return ok && x.obj == y.obj && x.off.eq(y.off) && x.len.eq(y.len)
	}
	return false
}

func (it *Interp) keyEq(a, b Val) bool {
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return it.decide(cEqual(x.l, y.l))
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			return it.decideStrEq(x, y)
		}
	}
	it.undecided(token.NoPos, "comparison of keys %T and %T", a, b)
	return false
}

func (it *Interp) strSeq(s VStr) []Seg { return it.readSeq(s.obj, s.off, s.len) }

// strEqCond returns the condition that two byte sequences are equal.
func (it *Interp) seqEqCond(a, b []Seg) *Cond {
	switch it.seqCmp(a, b, false) {
	case 1:
		return condTrue
	case -1:
		return condFalse
	}
	if a, b := it.trimSeq(a), it.trimSeq(b); len(a) == 0 {
		return cEq(seqLen(b))
	} else if len(b) == 0 {
		return cEq(seqLen(a))
	}
	k1, k2 := segKey(a), segKey(b)
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	e := boundedAtom("eq("+k1+","+k2+")", bi(0), bi(1))
	c := cGe(la(e).addc(-1))
	// The same question may have been asked when less was known.
	asked, _ := it.st.ghost["eqs"].([]eqAsked)
	for _, q := range asked {
		if q.e == e {
			asked = nil
			break
		}
	}
	for _, q := range asked {
		if it.seqSame(q.a, a) && it.seqSame(q.b, b) || it.seqSame(q.a, b) && it.seqSame(q.b, a) {
			c = cGe(la(q.e).addc(-1))
			asked = nil
			break
		}
	}
	if asked != nil || it.st.ghost["eqs"] == nil {
		it.st.ghost["eqs"] = append(asked[:len(asked):len(asked)], eqAsked{a, b, e})
	}
	la1, lb1 := seqLen(a), seqLen(b)
	if !it.st.eqLin(la1, lb1) {
		c = cConj(cEqual(la1, lb1), c)
	}
	return c
}

type eqAsked struct {
	a, b []Seg
	e    *Atom
}

// seqSame is whether the sequences consist of the same parts.
func (it *Interp) seqSame(a, b []Seg) bool {
	a, b = it.trimSeq(a), it.trimSeq(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].c != b[i].c || !it.st.eqLin(a[i].ln, b[i].ln) || a[i].c.kind != kZero && !it.st.eqLin(a[i].lo, b[i].lo) {
			return false
		}
	}
	return true
}

func segKey(q []Seg) string {
	var b strings.Builder
	for _, s := range q {
		b.WriteString(s.c.key + "@" + s.lo.key() + "+" + s.ln.key() + ";")
	}
	return b.String()
}

func (it *Interp) decideStrEq(a, b VStr) bool {
	return it.decide(it.seqEqCond(it.strSeq(a), it.strSeq(b)))
}

// ---------------------------------------------------------------------------

const defaultDepth = 60

// call analyses fn with the given arguments.
func (it *Interp) call(fn *ssa.Function, args []Val, bind []Val, at token.Pos) Val {
	if len(fn.Blocks) == 0 {
		it.undecided(at, "no source for %s", fn)
	}
	if len(it.stack) > defaultDepth {
		it.undecided(at, "recursion too deep: %s", fn)
	}
	if it.funcs != nil {
		it.funcs[fn.String()]++
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, at: at}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = bind[i]
	}
	it.stack = append(it.stack, fr)
	if !strings.Contains(fn.Name(), "zpv") {
		it.event(Event{kind: "enter", at: fn.Pos(), note: fn.String() + " (" + it.ld.posStr(fn.Pos()) + ")"})
	}
	out := it.region(fr, fn.Blocks[0], nil, nil, false)
	it.stack = it.stack[:len(it.stack)-1]
	return out.ret
}

type outKind int

const (
	outReturn outKind = iota
	outBack
	outExit
)

type outcome struct {
	kind     outKind
	ret      Val
	from, to *ssa.BasicBlock
	at       token.Pos
}

// region analyses blocks from b on until the function returns or, if lp is not
// nil, until the loop's header is reached again or the loop is left.
func (it *Interp) region(fr *Frame, b, prev *ssa.BasicBlock, lp *Loop, atHeader bool) outcome {
	first := true
	for {
		if lp != nil && !first {
			if b == lp.header {
				return outcome{kind: outBack, from: prev, to: b}
			}
			if !lp.body[b] {
				return outcome{kind: outExit, from: prev, to: b}
			}
		}
		if !(first && atHeader) {
			if inner := it.ld.loopAt(fr.fn, b); inner != nil && inner != lp && (prev == nil || !inner.body[prev]) {
				o := it.doLoop(fr, inner, prev)
				if o.kind == outReturn {
					return o
				}
				b, prev = o.to, o.from
				first = false
				continue
			}
			it.phis(fr, b, prev)
		}
		first = false
		next, ret, done := it.block(fr, b)
		if done {
			for i := len(fr.defers) - 1; i >= 0; i-- {
				fr.defers[i]()
			}
			return outcome{kind: outReturn, ret: ret, from: b}
		}
		prev, b = b, next
	}
}

func (it *Interp) phis(fr *Frame, b, prev *ssa.BasicBlock) {
	var ps []*ssa.Phi
	var vs []Val
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == prev {
				ps = append(ps, p)
				vs = append(vs, it.val(fr, p.Edges[i]))
				break
			}
		}
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
	}
}

const maxInstrs = 40000000

func (it *Interp) block(fr *Frame, b *ssa.BasicBlock) (next *ssa.BasicBlock, ret Val, done bool) {
	for _, in := range b.Instrs {
		it.instrs++
		fr.pc = in
		if it.instrs > maxInstrs {
			it.undecided(in.Pos(), "analysis limit exceeded")
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := it.val(fr, x.Cond).(VBool)
			if it.decide(c.c) {
				it.trail(x, true)
				return b.Succs[0], nil, false
			}
			it.trail(x, false)
			return b.Succs[1], nil, false
		case *ssa.Jump:
			return b.Succs[0], nil, false
		case *ssa.Return:
			var r Val
			switch len(x.Results) {
			case 0:
			case 1:
				r = it.val(fr, x.Results[0])
			default:
				t := make(VTuple, len(x.Results))
				for i := range t {
					t[i] = it.val(fr, x.Results[i])
				}
				r = t
			}
			if it.retHook != nil {
				it.retHook(fr, r, x.Pos())
			}
			return nil, r, true
		case *ssa.Panic:
			v := it.val(fr, x.X)
			if it.onPanic != nil && it.onPanic(fr, v, x.Pos()) {
				panic(pathEnd{"panic"})
			}
			it.obls++
			it.violate("panic", x.Pos(), "explicit panic is reachable")
		default:
			it.instr(fr, in)
		}
	}
	panic("internal: block without terminator")
}

const stageDepth = 4

func (it *Interp) stageable(x *ssa.Call) bool {
	if len(it.orc) == 0 || len(it.stack) > stageDepth {
		return false
	}
	fn := x.Call.StaticCallee()
	if fn == nil || len(fn.Blocks) == 0 || !it.ld.isRepo(fn.Pkg) {
		return false
	}
	if strings.HasPrefix(fn.Name(), "zpv") && it.intr[fn.Name()] != nil {
		switch {
		case strings.HasPrefix(fn.Name(), "zpvAssert"), fn.Name() == "zpvCat", fn.Name() == "zpvSnap", fn.Name() == "zpvAssume":
		default:
			return false
		}
	}
	return true
}

func (it *Interp) trail(x *ssa.If, taken bool) {
	pos := x.Cond.Pos()
	if !pos.IsValid() {
		return
	}
	t, _ := it.st.ghost["trail"].([]string)
	s := fmt.Sprintf("%s=%v", it.ld.posStr(pos), taken)
	it.st.ghost["trail"] = append(t[:len(t):len(t)], s)
}

func (it *Interp) instr(fr *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := it.newObj(oCell, x.Comment)
		o.typ = t
		o.site = x.Pos()
		o.val = it.zero(t)
		if x.Heap {
			it.event(Event{kind: "alloc", obj: o.id, at: x.Pos(), note: "new"})
		}
		fr.env[x] = VPtr{obj: o.id}
	case *ssa.BinOp:
		fr.env[x] = it.binop(x.Op, it.val(fr, x.X), it.val(fr, x.Y), x.X.Type(), x.Type(), x.Pos())
	case *ssa.UnOp:
		fr.env[x] = it.unop(fr, x)
	case *ssa.Store:
		it.store(it.val(fr, x.Addr).(VPtr), it.val(fr, x.Val), x.Pos())
	case *ssa.FieldAddr:
		p, ok := it.val(fr, x.X).(VPtr)
		if !ok {
			it.undecided(x.Pos(), "field of %T", it.val(fr, x.X))
		}
		it.nonNil(p, x.Pos())
		it.retype(p, x.X.Type().(*types.Pointer).Elem(), x.Pos())
		fr.env[x] = VPtr{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], pathElem{field: x.Field})}
	case *ssa.Field:
		fr.env[x] = it.val(fr, x.X).(VStruct).f[x.Field]
	case *ssa.IndexAddr:
		it.indexAddr(fr, x)
	case *ssa.Index:
		switch v := it.val(fr, x.X).(type) {
		case VArr:
			i := it.val(fr, x.Index).(VInt).l
			n := x.X.Type().Underlying().(*types.Array).Len()
			it.bounds(i, lc(n), x.Pos())
			fr.env[x] = it.loadObj(it.obj(v.obj), []pathElem{{idx: &i}}, x.Pos())
		case VStr:
			i := it.val(fr, x.Index).(VInt).l
			it.bounds(i, v.len, x.Pos())
			fr.env[x] = VInt{it.byteAt(v.obj, v.off.add(i), x.Pos())}
		default:
			it.undecided(x.Pos(), "index of %T", v)
		}
	case *ssa.Slice:
		fr.env[x] = it.slice(fr, x)
	case *ssa.Call:
		if it.stageable(x) {
			fr.env[x] = it.staged(func() Val { return it.callInstr(fr, x.Common(), x.Pos()) })
		} else {
			fr.env[x] = it.callInstr(fr, x.Common(), x.Pos())
		}
	case *ssa.Extract:
		t := it.val(fr, x.Tuple)
		fr.env[x] = t.(VTuple)[x.Index]
	case *ssa.ChangeType:
		fr.env[x] = it.val(fr, x.X)
	case *ssa.Convert:
		fr.env[x] = it.convert(it.val(fr, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.MakeInterface:
		v := it.val(fr, x.X)
		if it.esc != nil {
			switch x.X.Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			default:
				if _, isC := x.X.(*ssa.Const); !isC {
					it.event(Event{kind: "alloc", at: near(x), note: "interface"})
				}
			}
		}
		fr.env[x] = VIface{typ: x.X.Type(), v: v, nil: condFalse, conc: true}
	case *ssa.ChangeInterface:
		fr.env[x] = it.val(fr, x.X)
	case *ssa.TypeAssert:
		fr.env[x] = it.typeAssert(fr, x)
	case *ssa.MakeSlice:
		n := it.val(fr, x.Len).(VInt).l
		c := it.val(fr, x.Cap).(VInt).l
		it.oblige(cConj(cGe(n), cLeq(n, c)), "bounds", x.Pos(), func() string { return "make: length out of range" })
		el := x.Type().Underlying().(*types.Slice).Elem()
		var o *Obj
		if isByte(el) {
			o = it.newBytes("make", []Seg{zeroSeg(c)})
		} else {
			o = it.newObj(oArr, "make")
			o.typ, o.len = el, c
		}
		o.site = x.Pos()
		it.event(Event{kind: "alloc", obj: o.id, at: x.Pos(), n: c, note: "make"})
		fr.env[x] = VSlice{o.id, lc(0), n, c, condFalse}
	case *ssa.MakeMap:
		o := it.newObj(oMap, "map")
		t := x.Type().Underlying().(*types.Map)
		o.typ, o.ktyp = t.Elem(), t.Key()
		o.site = x.Pos()
		e := Event{kind: "alloc", obj: o.id, at: x.Pos(), note: "make map"}
		if x.Reserve != nil {
			e.n = it.val(fr, x.Reserve).(VInt).l
		}
		it.event(e)
		fr.env[x] = VMap{o.id, condFalse}
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range x.Bindings {
			b = append(b, it.val(fr, v))
		}
		it.event(Event{kind: "alloc", at: x.Pos(), note: "closure"})
		fr.env[x] = VFn{fn: x.Fn.(*ssa.Function), bind: b}
	case *ssa.MapUpdate:
		m := it.val(fr, x.Map).(VMap)
		it.oblige(cNot(m.nil), "nil", x.Pos(), func() string { return "assignment to entry in nil map" })
		if m.obj == 0 {
			panic(pathEnd{"nil map"})
		}
		it.mapSet(it.obj(m.obj), it.val(fr, x.Key), it.val(fr, x.Value), x.Pos())
	case *ssa.Lookup:
		fr.env[x] = it.lookup(fr, x)
	case *ssa.Range:
		switch m := it.val(fr, x.X).(type) {
		case VMap:
			fr.env[x] = m
		case VStr:
			fr.env[x] = m
		default:
			it.undecided(x.Pos(), "range over %T", m)
		}
	case *ssa.Next:
		v, ok := fr.next[x]
		if !ok {
			it.undecided(x.Pos(), "range outside of its loop")
		}
		fr.env[x] = v
	case *ssa.Defer:
		c := x.Common()
		fn, args := it.callee(fr, c, x.Pos())
		fr.defers = append(fr.defers, func() { it.dispatch(fr, fn, args, c, x.Pos()) })
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			fr.defers[i]()
		}
		fr.defers = nil
	case *ssa.Go:
		it.undecided(x.Pos(), "go statement")
	default:
		it.undecided(in.Pos(), "instruction %T: %s", in, in)
	}
}

func (it *Interp) bounds(i, n Lin, at token.Pos) {
	it.oblige(cConj(cGe(i), cLess(i, n)), "bounds", at, func() string {
		return fmt.Sprintf("index out of range: %s with length %s", i, n)
	})
}

func (it *Interp) indexAddr(fr *Frame, x *ssa.IndexAddr) {
	i := it.val(fr, x.Index).(VInt).l
	switch v := it.val(fr, x.X).(type) {
	case VSlice:
		it.bounds(i, v.len, x.Pos())
		if v.obj == 0 {
			panic(pathEnd{"index of empty slice"})
		}
		k := v.off.add(i)
		fr.env[x] = VPtr{obj: v.obj, path: []pathElem{{idx: &k}}}
	case VPtr:
		it.nonNil(v, x.Pos())
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		it.bounds(i, lc(n), x.Pos())
		a := it.arrayOf(v, x.Pos())
		fr.env[x] = VPtr{obj: a, path: []pathElem{{idx: &i}}}
	default:
		it.undecided(x.Pos(), "index of %T", v)
	}
}

// arrayOf returns the object of the array that p points at.
func (it *Interp) arrayOf(p VPtr, at token.Pos) int {
	o := it.obj(p.obj)
	var v Val
	switch o.kind {
	case oCell:
		it.force(o)
		v = it.loadVal(o.val, p.path, at)
	default:
		if len(p.path) == 0 {
			return o.id
		}
		v = it.loadObj(o, p.path, at)
	}
	a, ok := v.(VArr)
	if !ok {
		it.undecided(at, "array pointer to %T", v)
	}
	return a.obj
}

func (it *Interp) slice(fr *Frame, x *ssa.Slice) Val {
	opt := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		l := it.val(fr, v).(VInt).l
		return &l
	}
	lo, hi, max := opt(x.Low), opt(x.High), opt(x.Max)
	low := lc(0)
	if lo != nil {
		low = *lo
	}
	check := func(c *Cond, what string) {
		it.oblige(c, "bounds", x.Pos(), func() string { return "slice bounds out of range: " + what })
	}
	switch v := it.val(fr, x.X).(type) {
	case VStr:
		high := v.len
		if hi != nil {
			high = *hi
			check(cLeq(high, v.len), fmt.Sprintf("high %s > length %s", high, v.len))
		}
		check(cConj(cGe(low), cLeq(low, high)), fmt.Sprintf("low %s, high %s", low, high))
		return VStr{v.obj, v.off.add(low), high.sub(low)}
	case VSlice:
		high := v.len
		cp := v.cap
		if max != nil {
			check(cConj(cGe(*max), cLeq(*max, v.cap)), fmt.Sprintf("max %s > capacity %s", *max, v.cap))
			cp = *max
		}
		if hi != nil {
			high = *hi
			check(cLeq(high, cp), fmt.Sprintf("high %s > capacity %s", high, cp))
		} else if max != nil {
			check(cLeq(high, cp), fmt.Sprintf("high %s > max %s", high, cp))
		}
		check(cConj(cGe(low), cLeq(low, high)), fmt.Sprintf("low %s, high %s", low, high))
		return VSlice{v.obj, v.off.add(low), high.sub(low), cp.sub(low), v.nil}
	case VPtr:
		it.nonNil(v, x.Pos())
		n := lc(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		high, cp := n, n
		if max != nil {
			cp = *max
			check(cConj(cGe(cp), cLeq(cp, n)), "max")
		}
		if hi != nil {
			high = *hi
		}
		check(cLeq(high, cp), fmt.Sprintf("high %s > length %s", high, cp))
		check(cConj(cGe(low), cLeq(low, high)), fmt.Sprintf("low %s, high %s", low, high))
		return VSlice{it.arrayOf(v, x.Pos()), low, high.sub(low), cp.sub(low), condFalse}
	default:
		it.undecided(x.Pos(), "slice of %T", v)
	}
	return nil
}

func (it *Interp) mapSet(o *Obj, key, v Val, at token.Pos) {
	it.event(Event{kind: "mapwrite", obj: o.id, at: at, val: key})
	c := it.mapCell(o, key)
	o.cells[c].present = condTrue
	o.cells[c].val = v
}

func (it *Interp) mapCell(o *Obj, key Val) int {
	if i := it.findCell(o, key); i >= 0 {
		return i
	}
	c := kcell{key: key, present: condFalse}
	if o.sym {
		n := fmt.Sprintf("%s[%s]#%d", o.name, it.keyStr(key), o.ver)
		c.present = cGe(la(boundedAtom("has:"+n, bi(0), bi(1))).addc(-1))
		c.val = it.symbolic(o.typ, n)
	} else {
		c.val = it.zero(o.typ)
	}
	o.cells = append(o.cells, c)
	return len(o.cells) - 1
}

func (it *Interp) mapGet(m VMap, key Val, elem types.Type, at token.Pos) (Val, *Cond) {
	if it.decide(m.nil) || m.obj == 0 {
		return it.zero(elem), condFalse
	}
	o := it.obj(m.obj)
	it.event(Event{kind: "mapread", obj: o.id, at: at, val: key})
	c := it.mapCell(o, key)
	return o.cells[c].val, o.cells[c].present
}

func (it *Interp) lookup(fr *Frame, x *ssa.Lookup) Val {
	switch m := it.val(fr, x.X).(type) {
	case VMap:
		el := x.X.Type().Underlying().(*types.Map).Elem()
		v, p := it.mapGet(m, it.val(fr, x.Index), el, x.Pos())
		if _, ok := el.Underlying().(*types.Struct); ok && x.CommaOk {
			return VTuple{v, VBool{p}}
		}
		if x.CommaOk {
			if it.decide(p) {
				return VTuple{v, vbool(true)}
			}
			return VTuple{it.zero(el), vbool(false)}
		}
		if it.decide(p) {
			return v
		}
		return it.zero(el)
	case VStr:
		i := it.val(fr, x.Index).(VInt).l
		it.bounds(i, m.len, x.Pos())
		return VInt{it.byteAt(m.obj, m.off.add(i), x.Pos())}
	}
	it.undecided(x.Pos(), "lookup")
	return nil
}

func (it *Interp) unop(fr *Frame, x *ssa.UnOp) Val {
	v := it.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(VPtr)
		if !ok {
			it.undecided(x.Pos(), "load through %T", v)
		}
		it.nonNil(p, x.Pos())
		it.retype(p, x.Type(), x.Pos())
		return it.load(p, x.Type(), x.Pos())
	case token.NOT:
		return VBool{cNot(v.(VBool).c)}
	case token.SUB:
		switch n := v.(type) {
		case VInt:
			return VInt{it.wrap(n.l.neg(), x.Type())}
		}
	case token.XOR:
		// ^x == -x-1
		return VInt{it.wrap(v.(VInt).l.neg().addc(-1), x.Type())}
	}
	it.undecided(x.Pos(), "operator %s on %T", x.Op, v)
	return nil
}

func (it *Interp) isNilCond(v Val, at token.Pos) *Cond {
	switch x := v.(type) {
	case VSlice:
		return x.nil
	case VPtr:
		if x.nil != nil {
			return x.nil
		}
		return cBool(x.obj == 0)
	case VMap:
		return x.nil
	case VIface:
		return x.nil
	case VFn:
		return cBool(x.fn == nil && x.bi == nil && x.sym == "")
	}
	it.undecided(at, "comparison of %T with nil", v)
	return nil
}

func isNilVal(v Val) bool {
	switch x := v.(type) {
	case VSlice:
		return x.obj == 0 && x.nil.op == cTrue
	case VPtr:
		return x.obj == 0
	case VMap:
		return x.obj == 0 && x.nil.op == cTrue
	case VIface:
		return x.nil.op == cTrue
	case VFn:
		return x.fn == nil && x.bi == nil && x.sym == ""
	}
	return false
}

func (it *Interp) equalCond(a, b Val, at token.Pos) *Cond {
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return cEqual(x.l, y.l)
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			return cDisj(cConj(x.c, y.c), cConj(cNot(x.c), cNot(y.c)))
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			return it.seqEqCond(it.strSeq(x), it.strSeq(y))
		}
	case VSlice, VMap, VFn:
		if isNilVal(b) {
			return it.isNilCond(a, at)
		}
		if isNilVal(a) {
			return it.isNilCond(b, at)
		}
	case VPtr:
		if y, ok := b.(VPtr); ok {
			if isNilVal(b) {
				return it.isNilCond(a, at)
			}
			if isNilVal(a) {
				return it.isNilCond(b, at)
			}
			if x.obj != y.obj {
				return condFalse
			}
			if len(x.path) == 0 && len(y.path) == 0 {
				return condTrue
			}
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			if isNilVal(b) {
				return it.isNilCond(a, at)
			}
			if isNilVal(a) {
				return it.isNilCond(b, at)
			}
			if x.sym != "" && x.sym == y.sym {
				return condTrue
			}
			if x.sym != "" || y.sym != "" {
				return cGe(la(boundedAtom("ifaceeq("+x.sym+","+y.sym+")", bi(0), bi(1))).addc(-1))
			}
			if x.typ != nil && y.typ != nil {
				if !types.Identical(x.typ, y.typ) {
					return condFalse
				}
				return it.equalCond(x.v, y.v, at)
			}
		}
	case VFloat:
		if y, ok := b.(VFloat); ok {
			return cGe(la(boundedAtom("feq("+x.bits.key()+","+y.bits.key()+")", bi(0), bi(1))).addc(-1))
		}
	case VStruct:
		if y, ok := b.(VStruct); ok {
			c := condTrue
			for i := range x.f {
				c = cConj(c, it.equalCond(x.f[i], y.f[i], at))
			}
			return c
		}
	}
	it.undecided(at, "comparison of %T and %T", a, b)
	return nil
}

func (it *Interp) binop(op token.Token, a, b Val, xt, t types.Type, at token.Pos) Val {
	switch op {
	case token.EQL:
		return VBool{it.equalCond(a, b, at)}
	case token.NEQ:
		return VBool{cNot(it.equalCond(a, b, at))}
	}
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		if !ok {
			break
		}
		switch op {
		case token.LSS:
			return VBool{cLess(x.l, y.l)}
		case token.LEQ:
			return VBool{cLeq(x.l, y.l)}
		case token.GTR:
			return VBool{cLess(y.l, x.l)}
		case token.GEQ:
			return VBool{cLeq(y.l, x.l)}
		}
		return VInt{it.arith(op, x.l, y.l, t, at)}
	case VStr:
		y, ok := b.(VStr)
		if !ok {
			break
		}
		if op == token.ADD {
			q := append(append([]Seg{}, it.strSeq(x)...), it.strSeq(y)...)
			it.event(Event{kind: "alloc", at: at, note: "concatenation"})
			return it.newStr(q)
		}
		// Ordering of strings is an unknown.
		k := "strcmp" + op.String() + "(" + segKey(it.strSeq(x)) + "," + segKey(it.strSeq(y)) + ")"
		return VBool{cGe(la(boundedAtom(k, bi(0), bi(1))).addc(-1))}
	case VFloat:
		y, ok := b.(VFloat)
		if !ok {
			break
		}
		k := "f" + op.String() + "(" + x.bits.key() + "," + y.bits.key() + ")"
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return VBool{cGe(la(boundedAtom(k, bi(0), bi(1))).addc(-1))}
		}
		_, hi := intRange(x.n, false)
		return VFloat{la(boundedAtom(k, bi(0), hi)), x.n}
	case VBool:
		y, ok := b.(VBool)
		if ok {
			switch op {
			case token.AND, token.LAND:
				return VBool{cConj(x.c, y.c)}
			case token.OR, token.LOR:
				return VBool{cDisj(x.c, y.c)}
			}
		}
	}
	it.undecided(at, "operator %s on %T and %T", op, a, b)
	return nil
}

func (it *Interp) newStr(q []Seg) VStr {
	q = it.trimSeq(q)
	if len(q) == 0 {
		return VStr{0, lc(0), lc(0)}
	}
	o := it.newBytes("string", q)
	o.ro = true
	return VStr{o.id, lc(0), seqLen(q)}
}

func (it *Interp) arith(op token.Token, x, y Lin, t types.Type, at token.Pos) Lin {
	bits, signed, _ := intType(t)
	switch op {
	case token.ADD:
		return it.wrap(x.add(y), t)
	case token.SUB:
		return it.wrap(x.sub(y), t)
	case token.MUL:
		switch {
		case x.isConst():
			return it.wrap(y.scale(x.c), t)
		case y.isConst():
			return it.wrap(x.scale(y.c), t)
		}
	case token.SHL:
		if y.isConst() && y.c.Sign() >= 0 && y.c.IsInt64() {
			if y.c.Int64() >= int64(bits) {
				return lc(0)
			}
			return it.wrap(x.scale(pow2(int(y.c.Int64()))), t)
		}
	case token.SHR:
		if y.isConst() && y.c.Sign() >= 0 && y.c.IsInt64() {
			n := int(y.c.Int64())
			if n >= bits-1 && signed {
				if it.decide(cGe(x)) {
					return lc(0)
				}
				return lc(-1)
			}
			if n >= bits {
				return lc(0)
			}
			if it.entails(cGe(x)) && it.entails(cLess(x, lbig(pow2(n)))) {
				return lc(0)
			}
			return it.shr(x, n)
		}
	case token.QUO:
		if k, ok := powOf2(y); ok && it.entails(cGe(x)) {
			return it.shr(x, k)
		}
		if y.isConst() && y.c.Sign() == 0 {
			it.violate("div", at, "division by zero")
		}
	case token.REM:
		if k, ok := powOf2(y); ok && it.entails(cGe(x)) {
			return x.sub(it.shr(x, k).scale(pow2(k)))
		}
	case token.AND:
		if r, ok := it.and(x, y, bits); ok {
			return it.wrap(r, t)
		}
	case token.AND_NOT:
		if y.isConst() && y.c.Sign() >= 0 {
			if k, ok := maskOf(y.c); ok { // clears the low k bits
				return it.wrap(it.shr(x, k).scale(pow2(k)), t)
			}
		}
	case token.OR:
		if r, ok := it.or(x, y); ok {
			return it.wrap(r, t)
		}
	case token.XOR:
		if x.eq(y) {
			return lc(0)
		}
		for _, p := range [][2]Lin{{x, y}, {y, x}} {
			if p[1].isZero() {
				return p[0]
			}
			_, hi := intRange(bits, signed)
			if p[1].isConst() && (p[1].c.Cmp(bi(-1)) == 0 || (!signed && p[1].c.Cmp(hi) == 0)) {
				return it.wrap(p[0].neg().addc(-1), t)
			}
		}
		// x ^ -(bit)
		for _, p := range [][2]Lin{{x, y}, {y, x}} {
			if !p[1].isConst() && signed && it.entails(cGe(p[1].addc(1))) && it.entails(cLeq(p[1], lc(0))) {
				if it.decide(cEq(p[1])) {
					return p[0]
				}
				return it.wrap(p[0].neg().addc(-1), t)
			}
		}
	}
	lo, hi := intRange(bits, signed)
	k := fmt.Sprintf("%s%d(%s,%s)", op, bits, x.key(), y.key())
	if op == token.QUO || op == token.REM {
		it.oblige(cNe(y), "div", at, func() string { return "division by zero" })
	}
	if (op == token.AND || op == token.OR || op == token.XOR) && it.entails(cGe(x)) && it.entails(cGe(y)) {
		lo = bi(0)
	}
	return la(boundedAtom(k, lo, hi))
}

func powOf2(y Lin) (int, bool) {
	if !y.isConst() || y.c.Sign() <= 0 {
		return 0, false
	}
	k := y.c.BitLen() - 1
	return k, pow2(k).Cmp(y.c) == 0
}

// maskOf reports whether c == 2^k-1.
func maskOf(c *big.Int) (int, bool) {
	return powOf2(lbig(new(big.Int).Add(c, bigOne)))
}

func (it *Interp) and(x, y Lin, bits int) (Lin, bool) {
	if x.eq(y) {
		return x, true
	}
	if x.isConst() && !y.isConst() {
		x, y = y, x
	}
	if x.isConst() && y.isConst() {
		return lbig(new(big.Int).And(x.c, y.c)), true
	}
	if !y.isConst() {
		return Lin{}, false
	}
	if y.c.Sign() == 0 {
		return lc(0), true
	}
	if y.c.Cmp(bi(-1)) == 0 {
		return x, true
	}
	if y.c.Sign() < 0 {
		// ^(2^k-1)
		if k, ok := maskOf(new(big.Int).Sub(new(big.Int).Neg(y.c), bigOne)); ok {
			return it.shr(x, k).scale(pow2(k)), true
		}
		return Lin{}, false
	}
	// A run of ones from bit a to bit b-1.
	a := int(y.c.TrailingZeroBits())
	if k, ok := maskOf(new(big.Int).Rsh(y.c, uint(a))); ok {
		b := a + k
		l := it.shr(x, a)
		if b >= bits && it.entails(cGe(x)) {
			return l.scale(pow2(a)), true
		}
		return l.sub(it.shr(x, b).scale(pow2(k))).scale(pow2(a)), true
	}
	return Lin{}, false
}

// or is x|y if their bits are disjoint.
func (it *Interp) or(x, y Lin) (Lin, bool) {
	if x.isConst() && y.isConst() && x.c.Sign() >= 0 && y.c.Sign() >= 0 {
		return lbig(new(big.Int).Or(x.c, y.c)), true
	}
	if x.isZero() || x.eq(y) {
		return y, true
	}
	if y.isZero() {
		return x, true
	}
	for _, p := range [][2]Lin{{x, y}, {y, x}} {
		// A single bit, above the others.
		k, ok := powOf2(p[1])
		if !ok || !it.entails(cGe(p[0])) || !it.entails(cLess(p[0], lbig(pow2(k+1)))) {
			continue
		}
		v := p[0]
		if len(v.t) == 1 && v.c.Sign() == 0 && v.t[0].k.Cmp(bigOne) == 0 && v.t[0].a.wrapOf != nil && v.t[0].a.wrapB >= k {
			v = *v.t[0].a.wrapOf
		}
		return v.sub(it.shr(v, k).scale(pow2(k))).add(p[1]), true
	}
	for _, p := range [][2]Lin{{x, y}, {y, x}} {
		hi, lo := p[0], p[1]
		if !it.entails(cGe(lo)) {
			continue
		}
		// largest k such that 2^k divides hi
		k := 64
		upd := func(c *big.Int) {
			if c.Sign() != 0 {
				if n := int(new(big.Int).Abs(c).TrailingZeroBits()); n < k {
					k = n
				}
			}
		}
		upd(hi.c)
		for _, t := range hi.t {
			upd(t.k)
		}
		if k > 0 && it.entails(cLess(lo, lbig(pow2(k)))) {
			return hi.add(lo), true
		}
	}
	return Lin{}, false
}

func (it *Interp) convert(v Val, from, to types.Type, at token.Pos) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	_, tptr := tu.(*types.Pointer)
	_, fptr := fu.(*types.Pointer)
	if (tok && tb.Kind() == types.UnsafePointer) || (fok && fb.Kind() == types.UnsafePointer) || (tptr && fptr) {
		switch p := v.(type) {
		case VPtr:
			if tok && tb.Kind() == types.Uintptr {
				it.undecided(at, "conversion of a pointer to uintptr")
			}
			return p
		case VData:
			return VPtr{obj: p.obj, path: []pathElem{{idx: &p.off}}}
		}
		it.undecided(at, "unsafe conversion of %T", v)
	}
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			if _, ok := v.(VData); ok {
				return v
			}
			return VInt{it.wrap(v.(VInt).l, to)}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			f := v.(VFloat)
			n := 64
			if tb.Kind() == types.Float32 {
				n = 32
			}
			if n == f.n {
				return f
			}
			if f.bits.isConst() {
				if n == 64 {
					return VFloat{lbig(new(big.Int).SetUint64(math.Float64bits(float64(math.Float32frombits(uint32(f.bits.c.Uint64())))))), 64}
				}
				return VFloat{lc(int64(math.Float32bits(float32(math.Float64frombits(f.bits.c.Uint64()))))), 32}
			}
			_, hi := intRange(n, false)
			return VFloat{la(boundedAtom(fmt.Sprintf("fconv%d(%s)", n, f.bits.key()), bi(0), hi)), n}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			n := 64
			if tb.Kind() == types.Float32 {
				n = 32
			}
			_, hi := intRange(n, false)
			return VFloat{la(boundedAtom(fmt.Sprintf("itof%d(%s)", n, v.(VInt).l.key()), bi(0), hi)), n}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			bits, signed, _ := intType(to)
			lo, hi := intRange(bits, signed)
			return VInt{la(boundedAtom(fmt.Sprintf("ftoi%d%v(%s)", bits, signed, v.(VFloat).bits.key()), lo, hi))}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			n := "string(" + v.(VInt).l.key() + ")"
			return it.symbolic(types.Typ[types.String], n)
		}
	}
	// string <-> []byte
	if ts, ok := tu.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 && isByte(ts.Elem()) {
		s := v.(VStr)
		q := it.strSeq(s)
		extra := it.freshAtom("spare", bi(0), bi(32))
		o := it.newBytes("[]byte(string)", append(q, zeroSeg(la(extra))))
		it.event(Event{kind: "alloc", obj: o.id, at: at, note: "[]byte(string)"})
		return VSlice{o.id, lc(0), s.len, s.len.add(la(extra)), condFalse}
	}
	if fs, ok := fu.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 && isByte(fs.Elem()) {
		s := v.(VSlice)
		q := it.readSeq(s.obj, s.off, s.len)
		it.event(Event{kind: "alloc", at: at, note: "string([]byte)"})
		return it.newStr(q)
	}
	if types.Identical(fu, tu) {
		return v
	}
	it.undecided(at, "conversion from %s to %s", from, to)
	return nil
}

// retype reinterprets the memory that p points at as type t if it currently has
// a value of another type (unsafe casts between headers).
func (it *Interp) retype(p VPtr, t types.Type, at token.Pos) {
	if p.obj == 0 {
		return
	}
	o := it.obj(p.obj)
	if o.kind != oCell {
		return
	}
	it.force(o)
	v := it.loadVal(o.val, p.path, at)
	n, ok := it.reinterpret(v, t, at)
	if ok {
		o.val = it.storeVal(o.val, p.path, n, at)
	}
}

func (it *Interp) reinterpret(v Val, t types.Type, at token.Pos) (Val, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString == 0 {
			return v, false
		}
		switch x := v.(type) {
		case VSlice:
			return VStr{x.obj, x.off, x.len}, true
		case VStruct:
			if len(x.f) >= 2 {
				if n, ok := x.f[1].(VInt); ok {
					d := it.dataOf(x.f[0], at)
					return VStr{d.obj, d.off, n.l}, true
				}
			}
		}
	case *types.Slice:
		switch x := v.(type) {
		case VStr:
			cp := la(it.freshAtom("garbagecap", bi(0), maxLen))
			return VSlice{x.obj, x.off, x.len, cp, cBool(x.obj == 0)}, true
		case VStruct:
			d := it.dataOf(x.f[0], at)
			n := x.f[1].(VInt).l
			if len(x.f) == 3 {
				return VSlice{d.obj, d.off, n, x.f[2].(VInt).l, cBool(d.obj == 0)}, true
			}
			cp := la(it.freshAtom("garbagecap", bi(0), maxLen))
			return VSlice{d.obj, d.off, n, cp, cBool(d.obj == 0)}, true
		}
	case *types.Struct:
		switch x := v.(type) {
		case VSlice:
			f := []Val{VData{x.obj, x.off}, VInt{x.len}, VInt{x.cap}}
			if u.NumFields() <= 3 {
				return VStruct{f[:u.NumFields()]}, true
			}
		case VStr:
			f := []Val{VData{x.obj, x.off}, VInt{x.len}}
			if u.NumFields() == 2 {
				return VStruct{f}, true
			}
			if u.NumFields() == 3 {
				cp := la(it.freshAtom("garbagecap", bi(0), maxLen))
				return VStruct{append(f, VInt{cp})}, true
			}
		}
	}
	return v, false
}

func (it *Interp) dataOf(v Val, at token.Pos) VData {
	switch x := v.(type) {
	case VData:
		return x
	case VInt:
		if x.l.isZero() {
			return VData{0, lc(0)}
		}
	case VPtr:
		if x.obj == 0 {
			return VData{0, lc(0)}
		}
		if len(x.path) == 1 && x.path[0].idx != nil {
			return VData{x.obj, *x.path[0].idx}
		}
	}
	it.undecided(at, "data pointer %T", v)
	return VData{}
}

func (it *Interp) typeAssert(fr *Frame, x *ssa.TypeAssert) Val {
	v, ok := it.val(fr, x.X).(VIface)
	if !ok {
		it.undecided(x.Pos(), "type assertion on %T", it.val(fr, x.X))
	}
	res := func(v Val, ok *Cond) Val {
		if x.CommaOk {
			return VTuple{v, VBool{ok}}
		}
		it.oblige(ok, "panic", x.Pos(), func() string { return "type assertion fails" })
		return v
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	if it.decide(v.nil) {
		return res(it.zero(x.AssertedType), condFalse)
	}
	if v.typ != nil {
		if toIface {
			if types.Implements(v.typ, x.AssertedType.Underlying().(*types.Interface)) {
				return res(v, condTrue)
			}
			return res(it.zero(x.AssertedType), condFalse)
		}
		if types.Identical(v.typ, x.AssertedType) {
			return res(v.v, condTrue)
		}
		return res(it.zero(x.AssertedType), condFalse)
	}
	c := cGe(la(boundedAtom("is:"+v.sym+":"+typeKey(x.AssertedType), bi(0), bi(1))).addc(-1))
	if it.decide(c) {
		if toIface {
			return res(v, condTrue)
		}
		return res(it.symbolic(x.AssertedType, v.sym+".("+typeKey(x.AssertedType)+")"), condTrue)
	}
	return res(it.zero(x.AssertedType), condFalse)
}

// ---------------------------------------------------------------------------
// Calls.

func (it *Interp) callee(fr *Frame, c *ssa.CallCommon, at token.Pos) (VFn, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := it.val(fr, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, it.val(fr, a))
		}
		v, ok := recv.(VIface)
		if !ok {
			it.undecided(at, "method call on %T", recv)
		}
		it.oblige(cNot(v.nil), "nil", at, func() string { return "method call on nil interface" })
		if v.typ != nil {
			m := it.ld.prog.LookupMethod(v.typ, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				args[0] = v.v
				return VFn{fn: m}, args
			}
		}
		return VFn{sym: "method:" + c.Method.FullName()}, args
	}
	f := it.val(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, it.val(fr, a))
	}
	v, ok := f.(VFn)
	if !ok {
		it.undecided(at, "call of %T", f)
	}
	return v, args
}

func (it *Interp) callInstr(fr *Frame, c *ssa.CallCommon, at token.Pos) Val {
	if it.callSites != nil {
		it.callSites[it.ld.posStr(at)] = true
	}
	f, args := it.callee(fr, c, at)
	return it.dispatch(fr, f, args, c, at)
}

func (it *Interp) dispatch(fr *Frame, f VFn, args []Val, c *ssa.CallCommon, at token.Pos) Val {
	if f.bi != nil {
		return it.builtin(fr, f.bi.Name(), args, c, at)
	}
	if f.fn != nil {
		return it.callFn(fr, f.fn, args, f.bind, at)
	}
	name := f.sym
	if name == "" {
		it.oblige(condFalse, "nil", at, func() string { return "call of nil function" })
		panic(pathEnd{"nil func"})
	}
	if strings.HasPrefix(name, "method:") {
		name = name[len("method:"):]
	}
	if m := it.models[name]; m != nil {
		return m(it, fr, args, at)
	}
	if it.external != nil {
		if v, ok := it.external(fr, name, nil, c.Signature(), args, at); ok {
			return v
		}
	}
	it.undecided(at, "call of unknown function %s", name)
	return nil
}

func (it *Interp) callFn(fr *Frame, fn *ssa.Function, args, bind []Val, at token.Pos) Val {
	if it.onCall != nil {
		if v, ok := it.onCall(fr, fn, args, at); ok {
			return v
		}
	}
	name := fn.String()
	if strings.HasPrefix(fn.Name(), "zpv") && fn.Pkg != nil {
		if m := it.intr[fn.Name()]; m != nil {
			return m(it, fr, args, at)
		}
	}
	if m := it.models[name]; m != nil {
		return m(it, fr, args, at)
	}
	if it.external != nil && !it.ld.isRepo(fn.Pkg) {
		if v, ok := it.external(fr, name, fn, fn.Signature, args, at); ok {
			return v
		}
	}
	if len(fn.Blocks) > 0 {
		return it.call(fn, args, bind, at)
	}
	it.undecided(at, "call of %s, which has no model", name)
	return nil
}
