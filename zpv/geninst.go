package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"path"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Instructions of the generator's analysis.

func (g *gx) count(it gItem) Lin {
	return la(boundedAtom(fmt.Sprintf("g:cnt<%d>", it.others), bi(0), pow2(40)))
}

func (g *gx) seqLen(s gSeq) Lin {
	n := lc(0)
	for _, it := range s.items {
		if it.others > 0 {
			n = n.add(g.count(it))
		} else {
			n = n.addc(1)
		}
	}
	return n
}

func (g *gx) seqElem(st *gstate, s gSeq, i Lin) gv {
	g.obl()
	if !g.decide(st, cConj(cGe(i), cLess(i, g.seqLen(s)))) {
		g.problem("bounds", "index out of range")
	}
	pos := lc(0)
	var oth []gItem
	for _, it := range s.items {
		if it.others == 0 {
			if g.decide(st, cEqual(i, pos)) {
				return it.v
			}
			pos = pos.addc(1)
			continue
		}
		oth = append(oth, it)
		pos = pos.add(g.count(it))
	}
	if len(oth) == 0 {
		panic(gstop{"no such element"})
	}
	it := oth[0]
	k := fmt.Sprintf("seq%d[%s]", it.others, i.key())
	if v, ok := st.fs.ghost[k]; ok {
		return v
	}
	if it.typ == nil {
		g.undecided("unknown elements of a slice")
	}
	v := g.unknown(st, it.typ, "elem", true)
	if p, ok := v.(gPtr); ok && it.nonNil {
		p.nil = nil
		v = p
	}
	st.fs.ghost[k] = v
	return v
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	return nil
}

// index returns the value of a constant index.
func (g *gx) constInt(st *gstate, v gv) (int64, bool) {
	i, ok := v.(gInt)
	if !ok || !i.l.isConst() || !i.l.c.IsInt64() {
		return 0, false
	}
	return i.l.c.Int64(), true
}

func (g *gx) instr(st *gstate, fr *gframe, in ssa.Instruction) {
	set := func(v gv) { fr.env[in.(ssa.Value)] = v }
	val := func(v ssa.Value) gv { return g.val(st, fr, v) }
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		set(gPtr{obj: st.alloc(&gobj{typ: t, val: g.zero(t), name: x.Comment})})
	case *ssa.BinOp:
		set(g.binop(st, x, val(x.X), val(x.Y)))
	case *ssa.UnOp:
		v := val(x.X)
		switch x.Op {
		case token.MUL:
			set(g.load(st, v))
		case token.NOT:
			set(gBool{cNot(v.(gBool).c)})
		case token.SUB:
			if i, ok := v.(gInt); ok {
				set(g.wrap(st, i.l.neg(), x.Type(), "neg"))
			} else {
				set(gFloat{})
			}
		case token.XOR:
			i := v.(gInt)
			if !i.l.isConst() {
				g.undecided("bitwise operation")
			}
			set(g.wrap(st, i.l.neg().addc(-1), x.Type(), "not"))
		default:
			g.undecided("operation %s", x.Op)
		}
	case *ssa.Store:
		if e, ok := val(x.Addr).(gElem); ok {
			g.storeElem(st, fr, e, val(x.Val))
			return
		}
		g.store(st, val(x.Addr), val(x.Val))
	case *ssa.FieldAddr:
		switch p := val(x.X).(type) {
		case gPtr:
			g.notNil(st, p)
			set(gPtr{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], x.Field)})
		case gElem:
			set(gElem{p.seq, p.i, append(p.path[:len(p.path):len(p.path)], x.Field)})
		case gListElem:
			g.undecided("part of an element")
		default:
			g.undecided("field of %T", p)
		}
	case *ssa.Field:
		set(part(val(x.X), []int{x.Field}))
	case *ssa.IndexAddr:
		i := val(x.Index).(gInt).l
		switch b := val(x.X).(type) {
		case gSeq:
			set(gElem{b, i, nil})
		case gList:
			set(gListElem{b.id, i})
		case gPtr:
			g.notNil(st, b)
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			g.obl()
			if !g.decide(st, cConj(cGe(i), cLess(i, lc(n)))) {
				g.problem("bounds", "index out of range")
			}
			if !i.isConst() {
				k := int64(-1)
				for j := int64(0); j < n && n <= 256; j++ {
					if g.decide(st, cEqual(i, lc(j))) {
						k = j
						break
					}
				}
				if k < 0 {
					g.undecided("index of an array")
				}
				i = lc(k)
			}
			set(gPtr{obj: b.obj, path: append(b.path[:len(b.path):len(b.path)], int(i.c.Int64()))})
		case gStr:
			set(gElem{g.textSeq(st, b.q), i, nil})
		default:
			g.undecided("index of %T", b)
		}
	case *ssa.Index:
		i := val(x.Index).(gInt).l
		switch b := val(x.X).(type) {
		case gStr:
			set(g.byteAt(st, b.q, i))
		case gArr:
			k, ok := g.constInt(st, gInt{i})
			if !ok || k < 0 || int(k) >= len(b.e) {
				g.undecided("index of an array")
			}
			set(b.e[k])
		default:
			g.undecided("index of %T", b)
		}
	case *ssa.Slice:
		set(g.slice(st, fr, x))
	case *ssa.Extract:
		t, ok := val(x.Tuple).(gTuple)
		if !ok || x.Index >= len(t) {
			g.undecided("internal: extract from %T", val(x.Tuple))
		}
		set(t[x.Index])
	case *ssa.ChangeType:
		set(val(x.X))
	case *ssa.Convert:
		set(g.convert(st, val(x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		set(gIface{typ: x.X.Type(), v: val(x.X), nil: condFalse})
	case *ssa.ChangeInterface:
		set(val(x.X))
	case *ssa.TypeAssert:
		set(g.typeAssert(st, val(x.X).(gIface), x))
	case *ssa.MakeSlice:
		n, ok := g.constInt(st, val(x.Len))
		if c, isI := val(x.Cap).(gInt); isI {
			g.obl()
			if !g.decide(st, cLeq(val(x.Len).(gInt).l, c.l)) {
				g.problem("bounds", "capacity out of range")
			}
		}
		if !ok || n > 4096 || n < 0 {
			g.undecided("slice of a length that is not constant")
		}
		el := elemType(x.Type())
		if isByte(el) {
			if n != 0 {
				g.undecided("byte slice of length %d", n)
			}
			set(gStr{})
			return
		}
		s := gSeq{}
		for i := int64(0); i < n; i++ {
			s.items = append(s.items, gItem{v: g.zero(el), typ: el})
		}
		set(s)
	case *ssa.MakeMap:
		t := x.Type().Underlying().(*types.Map)
		set(gMap{g.newMap(st, t), condFalse})
	case *ssa.MakeClosure:
		var bind []gv
		for _, b := range x.Bindings {
			bind = append(bind, val(b))
		}
		set(gFn{fn: x.Fn.(*ssa.Function), bind: bind})
	case *ssa.MapUpdate:
		g.mapUpdate(st, val(x.Map).(gMap), val(x.Key), val(x.Value))
	case *ssa.Lookup:
		switch m := val(x.X).(type) {
		case gMap:
			v, ok := g.mapLookup(st, m, val(x.Index), x.X.Type().Underlying().(*types.Map))
			has := g.decide(st, ok)
			if !has {
				v = g.zero(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				set(gTuple{v, gBool{cBool(has)}})
			} else {
				set(v)
			}
		case gStr:
			set(g.byteAt(st, m.q, val(x.Index).(gInt).l))
		default:
			g.undecided("lookup in %T", m)
		}
	case *ssa.Range:
		set(val(x.X))
		fr.rng[x] = 0
	case *ssa.Next:
		if v, ok := fr.next[x]; ok {
			set(v)
			return
		}
		switch t := val(x.Iter).(type) {
		case gStr:
			s, ok := isLit(t.q)
			if !ok {
				g.undecided("range over an unknown text")
			}
			i := fr.rng[x.Iter]
			if i >= len(s) {
				set(gTuple{gBool{condFalse}, gInt{lc(0)}, gInt{lc(0)}})
				return
			}
			r, n := utf8.DecodeRuneInString(s[i:])
			fr.rng[x.Iter] = i + n
			set(gTuple{gBool{condTrue}, gInt{lc(int64(i))}, gInt{lc(int64(r))}})
		default:
			g.undecided("range over %T", t)
		}
	case *ssa.Defer:
		if fr.gen != g.gen || g.ld.inLoop(fr.fn, x.Block()) {
			g.undecided("instruction %T in a loop", in)
		}
		fr.defs = append(fr.defs[:len(fr.defs):len(fr.defs)], g.prepare(st, fr, x.Common()))
	default:
		g.undecided("instruction %T", in)
	}
}

func (g *gx) nextKnown(st *gstate, fr *gframe, x *ssa.Next) bool {
	t, ok := g.val(st, fr, x.Iter).(gStr)
	if !ok {
		return false
	}
	_, ok = isLit(t.q)
	return ok
}

// textSeq is a literal text as a sequence of bytes.
func (g *gx) textSeq(st *gstate, q []gseg) gSeq {
	s, ok := isLit(q)
	if !ok {
		g.undecided("bytes of an unknown text")
	}
	r := gSeq{}
	for i := 0; i < len(s); i++ {
		r.items = append(r.items, gItem{v: gInt{lc(int64(s[i]))}})
	}
	return r
}

func (g *gx) byteAt(st *gstate, q []gseg, i Lin) gv {
	g.obl()
	if !g.decide(st, cConj(cGe(i), cLess(i, g.textLen(q)))) {
		g.problem("bounds", "index out of range of a text")
	}
	pos := lc(0)
	for _, s := range q {
		if s.lit != "" {
			d := i.sub(pos)
			if d.isConst() && d.c.Sign() >= 0 && d.c.Cmp(bi(int64(len(s.lit)))) < 0 {
				return gInt{lc(int64(s.lit[d.c.Int64()]))}
			}
		}
		pos = pos.add(g.textLen([]gseg{s}))
	}
	return gInt{la(boundedAtom("g:byte("+qkey(q)+","+i.key()+")", bi(0), bi(255)))}
}

// wrap returns the value of an operation with the mathematical result l.
func (g *gx) wrap(st *gstate, l Lin, t types.Type, name string) gv {
	bits, signed, ok := intType(t)
	if !ok {
		g.undecided("arithmetic on %s", t)
	}
	lo, hi := intRange(bits, signed)
	if l.isConst() {
		m := new(big.Int).Sub(l.c, lo)
		m.Mod(m, pow2(bits))
		return gInt{lbig(m.Add(m, lo))}
	}
	a, b := l.interval()
	if a != nil && b != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
		return gInt{l}
	}
	if g.decide(st, cConj(cLeq(lbig(lo), l), cLeq(l, lbig(hi)))) {
		return gInt{l}
	}
	return gInt{la(boundedAtom(fmt.Sprintf("g:wrap%d(%s)", bits, l.key()), lo, hi))}
}

func (g *gx) binop(st *gstate, x *ssa.BinOp, a, b gv) gv {
	switch x.Op {
	case token.EQL:
		return gBool{g.equal(st, a, b)}
	case token.NEQ:
		return gBool{cNot(g.equal(st, a, b))}
	}
	switch p := a.(type) {
	case gStr:
		q := b.(gStr)
		switch x.Op {
		case token.ADD:
			return gStr{qcat(p.q, q.q)}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			s, ok1 := isLit(p.q)
			t, ok2 := isLit(q.q)
			if ok1 && ok2 {
				return gBool{cBool(constant.Compare(constant.MakeString(s), x.Op, constant.MakeString(t)))}
			}
			lt := func(a, b []gseg) *Cond {
				return cGe(la(boundedAtom("g:lt("+qkey(a)+","+qkey(b)+")", bi(0), bi(1))).addc(-1))
			}
			switch x.Op {
			case token.LSS:
				return gBool{lt(p.q, q.q)}
			case token.GTR:
				return gBool{lt(q.q, p.q)}
			case token.LEQ:
				return gBool{cNot(lt(q.q, p.q))}
			case token.GEQ:
				return gBool{cNot(lt(p.q, q.q))}
			}
		}
	case gInt:
		q, ok := b.(gInt)
		if !ok {
			break
		}
		switch x.Op {
		case token.LSS:
			return gBool{cLess(p.l, q.l)}
		case token.LEQ:
			return gBool{cLeq(p.l, q.l)}
		case token.GTR:
			return gBool{cLess(q.l, p.l)}
		case token.GEQ:
			return gBool{cLeq(q.l, p.l)}
		case token.ADD:
			return g.wrap(st, p.l.add(q.l), x.Type(), "sum")
		case token.SUB:
			return g.wrap(st, p.l.sub(q.l), x.Type(), "difference")
		case token.MUL:
			if q.l.isConst() {
				return g.wrap(st, p.l.scale(q.l.c), x.Type(), "product")
			}
			if p.l.isConst() {
				return g.wrap(st, q.l.scale(p.l.c), x.Type(), "product")
			}
		case token.QUO, token.REM:
			g.obl()
			if g.decide(st, cEq(q.l)) {
				g.problem("panic", "division by zero")
			}
		}
		bits, signed, ok := intType(x.Type())
		if !ok {
			break
		}
		if p.l.isConst() && q.l.isConst() {
			u, v := constant.Make(p.l.c), constant.Make(q.l.c)
			var r constant.Value
			switch x.Op {
			case token.SHL, token.SHR:
				n, _ := constant.Uint64Val(v)
				if n > 64 {
					n = 64
				}
				r = constant.Shift(u, x.Op, uint(n))
			case token.QUO:
				r = constant.BinaryOp(u, token.QUO_ASSIGN, v)
			default:
				r = constant.BinaryOp(u, x.Op, v)
			}
			n, _ := new(big.Int).SetString(r.ExactString(), 10)
			return g.wrap(st, lbig(n), x.Type(), "")
		}
		lo, hi := intRange(bits, signed)
		return gInt{la(boundedAtom(fmt.Sprintf("g:%s%d(%s,%s)", x.Op, bits, p.l.key(), q.l.key()), lo, hi))}
	case gFloat:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return gBool{g.unknownBool("float")}
		}
		return gFloat{}
	}
	g.undecided("operation %s on %T and %T", x.Op, a, b)
	return nil
}

func (g *gx) convert(st *gstate, v gv, from, to types.Type) gv {
	switch x := v.(type) {
	case gInt:
		if b, ok := to.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0:
				if x.l.isConst() {
					return gStr{qlit(string(rune(x.l.c.Int64())))}
				}
			case b.Info()&types.IsInteger != 0:
				return g.wrap(st, x.l, to, "conversion")
			case b.Info()&types.IsFloat != 0:
				return gFloat{}
			}
		}
	case gStr:
		if isText(to) {
			return x
		}
		if s, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				if t, ok := isLit(x.q); ok {
					r := gSeq{}
					for _, c := range t {
						r.items = append(r.items, gItem{v: gInt{lc(int64(c))}})
					}
					return r
				}
			}
		}
	case gSeq:
		if isText(to) {
			var b strings.Builder
			ok := true
			for _, it := range x.items {
				i, isI := it.v.(gInt)
				if it.others > 0 || !isI || !i.l.isConst() {
					ok = false
					break
				}
				b.WriteRune(rune(i.l.c.Int64()))
			}
			if ok {
				return gStr{qlit(b.String())}
			}
		}
	case gFloat:
		return gFloat{}
	}
	g.undecided("conversion of %s to %s", from, to)
	return nil
}

func (g *gx) slice(st *gstate, fr *gframe, x *ssa.Slice) gv {
	opt := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		l := g.val(st, fr, v).(gInt).l
		return &l
	}
	lo, hi, max := opt(x.Low), opt(x.High), opt(x.Max)
	low := lc(0)
	if lo != nil {
		low = *lo
	}
	bounds := func(n Lin) Lin {
		high := n
		if hi != nil {
			high = *hi
		}
		g.obl()
		if !g.decide(st, cConj(cConj(cGe(low), cLeq(low, high)), cLeq(high, n))) {
			g.problem("bounds", "slice bounds out of range")
		}
		return high
	}
	seq := func(items []gItem, isNil bool) gv {
		n := lc(0)
		for _, it := range items {
			if it.others > 0 {
				n = n.add(g.count(it))
			} else {
				n = n.addc(1)
			}
		}
		high := bounds(n)
		at := func(p Lin) int {
			pos := lc(0)
			for i := 0; i <= len(items); i++ {
				if st.fs.eqLin(p, pos) {
					return i
				}
				if i < len(items) {
					if items[i].others > 0 {
						pos = pos.add(g.count(items[i]))
					} else {
						pos = pos.addc(1)
					}
				}
			}
			g.undecided("part of a slice")
			return 0
		}
		i, j := at(low), at(high)
		if j < i {
			j = i
		}
		return gSeq{items: items[i:j:j], nil: isNil}
	}
	switch b := g.val(st, fr, x.X).(type) {
	case gStr:
		high := bounds(g.textLen(b.q))
		head, _ := g.cut(st, b.q, high)
		_, tail := g.cut(st, head, low)
		return gStr{tail}
	case gSeq:
		if hi == nil && max == nil && lo == nil {
			return b
		}
		return seq(b.items, b.nil)
	case gList:
		if lo == nil && hi == nil {
			return b
		}
	case gPtr:
		g.notNil(st, b)
		o := g.force(st, b.obj)
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if isByte(at.Elem()) {
			return gStr{[]gseg{{hole: g.newHole("bytes", &ghole{})}}}
		}
		a, ok := part(o.val, b.path).(gArr)
		if !ok || int64(len(a.e)) != at.Len() {
			break
		}
		n := *o
		n.slice = true
		st.heap[b.obj] = &n
		var items []gItem
		for _, e := range a.e {
			items = append(items, gItem{v: e, typ: at.Elem()})
		}
		return seq(items, false)
	}
	g.undecided("slice of %s", x.X.Type())
	return nil
}

func (g *gx) typeAssert(st *gstate, i gIface, x *ssa.TypeAssert) gv {
	fail := func() gv {
		if x.CommaOk {
			return gTuple{g.zero(x.AssertedType), gBool{condFalse}}
		}
		g.problem("panic", "type assertion fails")
		return nil
	}
	g.obl()
	if g.decide(st, i.nil) {
		return fail()
	}
	if i.typ == nil {
		g.undecided("type of an unknown value")
	}
	var v gv
	if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		if !types.Implements(i.typ, it) {
			return fail()
		}
		v = i
	} else {
		if !types.Identical(i.typ, x.AssertedType) {
			return fail()
		}
		v = i.v
	}
	if x.CommaOk {
		return gTuple{v, gBool{condTrue}}
	}
	return v
}

// ---------------------------------------------------------------------------
// Maps.

func (g *gx) keyStr(k gv) string {
	switch x := k.(type) {
	case gStr:
		return "s:" + qkey(x.q)
	case gInt:
		return "i:" + x.l.key()
	case gPtr:
		return fmt.Sprintf("p:%d%v", x.obj, x.path)
	case gBool:
		return "b:" + x.c.key()
	case gIface:
		if x.typ != nil {
			return x.typ.String() + ":" + g.keyStr(x.v)
		}
		return x.sym
	case gStruct:
		s := "{"
		for _, f := range x.f {
			s += g.keyStr(f) + ","
		}
		return s + "}"
	}
	g.undecided("map key of type %T", k)
	return ""
}

func (g *gx) keySame(st *gstate, a, b gv) bool { return g.same(st, a, b) }

func (g *gx) newMap(st *gstate, t *types.Map) int {
	o := &gobj{isMap: true, ktyp: t.Key(), etyp: t.Elem(), typ: t}
	if b, ok := t.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		for _, k := range g.keys {
			o.cells = append(o.cells, gcell{gStr{k}, condFalse, g.zero(t.Elem())})
		}
	}
	if g.inInit {
		o.glob = "a map"
	}
	return st.alloc(o)
}

func (g *gx) findCell(st *gstate, o *gobj, key gv) int {
	for i, c := range o.cells {
		if g.same(st, c.key, key) {
			return i
		}
	}
	for i, c := range o.cells {
		if g.decide(st, g.equal(st, c.key, key)) {
			return i
		}
	}
	return -1
}

func (g *gx) mapLookup(st *gstate, m gMap, key gv, t *types.Map) (gv, *Cond) {
	if m.obj == 0 || g.decide(st, m.nil) {
		return g.zero(t.Elem()), condFalse
	}
	o := st.heap[m.obj]
	i := g.findCell(st, o, key)
	if i < 0 {
		if !o.sym {
			return g.zero(t.Elem()), condFalse
		}
		n := *o
		i = len(o.cells)
		n.cells = append(o.cells[:i:i], gcell{key, g.unknownBool("has"), g.unknown(st, t.Elem(), "entry", true)})
		st.heap[m.obj] = &n
		o = &n
	}
	return o.cells[i].val, o.cells[i].present
}

func (g *gx) mapUpdate(st *gstate, m gMap, key, v gv) {
	g.obl()
	if m.obj == 0 || g.decide(st, m.nil) {
		g.problem("panic", "assignment to an entry of a nil map")
	}
	o := st.heap[m.obj]
	switch {
	case o.pre:
		g.problem("effect", "the request is modified")
	case o.glob != "" && !g.inInit:
		g.problem("effect", "package-level state is modified: %s", o.glob)
	}
	if g.inInit && len(o.cells) > 64 {
		// A table: the keys are constants, which are not repeated.
		n := *o
		n.cells = append(o.cells, gcell{key, condTrue, v})
		st.heap[m.obj] = &n
		return
	}
	i := g.findCell(st, o, key)
	n := *o
	n.cells = append([]gcell(nil), o.cells...)
	if i < 0 {
		n.cells = append(n.cells, gcell{key, condTrue, v})
	} else {
		n.cells[i].present, n.cells[i].val = condTrue, v
	}
	st.heap[m.obj] = &n
}

func (g *gx) mapDelete(st *gstate, m gMap, key gv) {
	if m.obj == 0 || g.decide(st, m.nil) {
		return
	}
	o := st.heap[m.obj]
	switch {
	case o.pre:
		g.problem("effect", "the request is modified")
	case o.glob != "" && !g.inInit:
		g.problem("effect", "package-level state is modified: %s", o.glob)
	}
	i := g.findCell(st, o, key)
	n := *o
	n.cells = append([]gcell(nil), o.cells...)
	if i < 0 {
		if o.sym {
			n.cells = append(n.cells, gcell{key, condFalse, g.zero(o.etyp)})
		}
	} else {
		n.cells[i].present = condFalse
	}
	st.heap[m.obj] = &n
}

func (g *gx) mapLen(st *gstate, m gMap) Lin {
	if m.obj == 0 || g.decide(st, m.nil) {
		return lc(0)
	}
	o := st.heap[m.obj]
	n, exact := int64(0), !o.sym
	for _, c := range o.cells {
		if v, ok := g.known(st, c.present); ok {
			if v {
				n++
			}
		} else {
			exact = false
		}
	}
	if exact {
		return lc(n)
	}
	return la(boundedAtom(fmt.Sprintf("g:maplen%d.%d.%d", m.obj, o.ver, len(o.cells)), bi(n), pow2(40)))
}

// ---------------------------------------------------------------------------
// Calls.

func (g *gx) ret(st *gstate, v gv) []gout { return []gout{{kind: outReturn, st: st, ret: v}} }

func (g *gx) callInstr(st *gstate, fr *gframe, c *ssa.CallCommon) []gout {
	return g.prepare(st, fr, c)(st, fr)
}

// prepare evaluates the function and the arguments of a call.
func (g *gx) prepare(st *gstate, fr *gframe, c *ssa.CallCommon) func(st *gstate, fr *gframe) []gout {
	var args []gv
	for _, a := range c.Args {
		args = append(args, g.val(st, fr, a))
	}
	if c.IsInvoke() {
		i, ok := g.val(st, fr, c.Value).(gIface)
		if !ok {
			g.undecided("call of a method of %T", g.val(st, fr, c.Value))
		}
		g.obl()
		if g.decide(st, i.nil) {
			g.problem("panic", "method of a nil interface")
		}
		if i.typ == nil {
			g.undecided("method %s of an unknown value", c.Method.Name())
		}
		return func(st *gstate, fr *gframe) []gout { return g.method(st, fr, i, c.Method, args) }
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var t types.Type
		if len(c.Args) > 0 {
			t = c.Args[0].Type()
		}
		return func(st *gstate, fr *gframe) []gout { return g.ret(st, g.builtin(st, b.Name(), args, t)) }
	}
	f, ok := g.val(st, fr, c.Value).(gFn)
	if !ok || f.fn == nil {
		if ok && f.bi == nil {
			g.problem("panic", "call of a nil function")
		}
		g.undecided("call of an unknown function")
	}
	return func(st *gstate, fr *gframe) []gout { return g.callFn(st, fr, f.fn, args, f.bind) }
}

// runDefers makes the deferred calls, the last first.
func (g *gx) runDefers(st *gstate, fr *gframe) []gout {
	n := len(fr.defs)
	if n == 0 {
		return []gout{{kind: outBack, st: st, fr: fr}}
	}
	var r []gout
	for _, o := range fr.defs[n-1](st, fr) {
		f := fr.clone()
		f.defs = fr.defs[: n-1 : n-1]
		g.cur = f
		r = append(r, g.fork(o.st, f, g.runDefers)...)
	}
	return r
}

func (g *gx) method(st *gstate, fr *gframe, i gIface, m *types.Func, args []gv) []gout {
	fn := g.ld.prog.LookupMethod(i.typ, m.Pkg(), m.Name())
	if fn == nil {
		g.undecided("no method %s of %s", m.Name(), i.typ)
	}
	return g.callFn(st, fr, fn, append([]gv{i.v}, args...), nil)
}

func (g *gx) callFn(st *gstate, fr *gframe, fn *ssa.Function, args, bind []gv) []gout {
	name := fn.String()
	if m, ok := gmodels[name]; ok {
		g.calls++
		return g.ret(st, m(g, st, args))
	}
	if m, ok := gcalls[name]; ok {
		g.calls++
		return m(g, st, fr, args)
	}
	if g.inInit && (fn.Name() == "init" || !g.ld.isRepo(fn.Pkg)) && fn.Synthetic != "" && fn.Name() == "init" {
		return g.ret(st, nil)
	}
	if fn.Pkg == nil && len(fn.Blocks) > 0 && fn.Synthetic != "" {
		return g.call(st, fn, args, bind, fr) // wrappers
	}
	if fn.Pkg == nil || !g.ld.isRepo(fn.Pkg) || len(fn.Blocks) == 0 {
		if g.inInit {
			switch fn.Signature.Results().Len() {
			case 0:
				return g.ret(st, nil)
			case 1:
				return g.ret(st, gOpaque{})
			}
		}
		g.undecided("call of %s", name)
	}
	return g.call(st, fn, args, bind, fr)
}

// storeElem changes an element of a slice, that is of all values that refer
// to the same array.
func (g *gx) storeElem(st *gstate, fr *gframe, e gElem, v gv) {
	g.obl()
	if !g.decide(st, cConj(cGe(e.i), cLess(e.i, g.seqLen(e.seq)))) {
		g.problem("bounds", "index out of range")
	}
	at := -1
	pos := lc(0)
	for k, it := range e.seq.items {
		if it.others > 0 {
			g.undecided("an element of a slice is changed")
		}
		if g.decide(st, cEqual(e.i, pos)) {
			at = k
			break
		}
		pos = pos.addc(1)
	}
	if at < 0 {
		panic(gstop{"no such element"})
	}
	if fr.gen != g.gen || len(fr.defs) > 0 {
		g.undecided("an element of a slice is changed in a loop")
	}
	item := e.seq.items[at]
	if item.v = setPart(item.v, e.path, v); item.v == nil {
		g.undecided("store to an unknown part")
	}
	target := &e.seq.items[at]
	in := func(s gSeq) int {
		for k := range s.items {
			if &s.items[k] == target {
				return k
			}
		}
		return -1
	}
	// The new array covers all slices that the element is in.
	lo, hi := 0, 0
	var left, right []gItem
	has := false
	find := func(s gSeq) gSeq {
		if k := in(s); k >= 0 {
			has = true
			if k >= lo {
				lo, left = k, s.items[:k]
			}
			if len(s.items)-k >= hi {
				hi, right = len(s.items)-k, s.items[k:]
			}
		}
		return s
	}
	for _, x := range fr.env {
		mapSeqs(x, find)
	}
	find(e.seq)
	has = false
	for _, o := range st.heap {
		mapSeqs(o.val, find)
		for _, c := range o.cells {
			mapSeqs(c.key, find)
			mapSeqs(c.val, find)
		}
	}
	for f := fr.up; f != nil; f = f.up {
		for _, x := range f.env {
			mapSeqs(x, find)
		}
	}
	for _, x := range st.fs.ghost {
		if y, ok := x.(gv); ok {
			mapSeqs(y, find)
		}
	}
	if has {
		g.undecided("an element of a slice is changed that others may see")
	}
	arr := append(append([]gItem{}, left...), right...)
	old := map[*gItem]bool{}
	for k := range left {
		old[&left[k]] = true
	}
	for k := range right {
		old[&right[k]] = true
	}
	arr[lo] = item
	for x, y := range fr.env {
		fr.env[x] = mapSeqs(y, func(s gSeq) gSeq {
			k := in(s)
			if k >= 0 {
				return gSeq{items: arr[lo-k : lo-k+len(s.items) : lo-k+len(s.items)], nil: s.nil}
			}
			for k := range s.items {
				if old[&s.items[k]] {
					g.undecided("an element of a slice is changed")
				}
			}
			return s
		})
	}
}

// mapSeqs replaces the slices in a value.
func mapSeqs(v gv, f func(gSeq) gSeq) gv {
	list := func(l []gv) []gv {
		r := make([]gv, len(l))
		for i, x := range l {
			r[i] = mapSeqs(x, f)
		}
		return r
	}
	switch x := v.(type) {
	case gSeq:
		for _, it := range x.items {
			if it.others == 0 {
				mapSeqs(it.v, f)
			}
		}
		return f(x)
	case gElem:
		x.seq = f(x.seq)
		return x
	case gStruct:
		return gStruct{list(x.f)}
	case gArr:
		return gArr{list(x.e)}
	case gTuple:
		return gTuple(list(x))
	case gIface:
		x.v = mapSeqs(x.v, f)
		return x
	case gFn:
		x.bind = list(x.bind)
		return x
	}
	return v
}

// gOpaque is a value that is not modelled.
type gOpaque struct{}

func (g *gx) builtin(st *gstate, name string, args []gv, t types.Type) gv {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case gStr:
			return gInt{g.textLen(x.q)}
		case gSeq:
			return gInt{g.seqLen(x)}
		case gList:
			return gInt{g.lists[x.id].n}
		case gMap:
			return gInt{g.mapLen(st, x)}
		case gArr:
			return gInt{lc(int64(len(x.e)))}
		}
	case "cap":
		return gInt{g.atom("cap", bi(0), pow2(40))}
	case "append":
		switch x := args[0].(type) {
		case gStr:
			return gStr{qcat(x.q, args[1].(gStr).q)}
		case gSeq:
			switch y := args[1].(type) {
			case gSeq:
				r := gSeq{items: x.items[:len(x.items):len(x.items)], nil: x.nil && (len(y.items) == 0 || y.allOthers())}
				for _, it := range y.items {
					if it.typ == nil {
						it.typ = elemType(t)
					}
					r.items = append(r.items, it)
				}
				return r
			case gList:
				return g.appendList(st, x, y, t)
			}
		}
	case "delete":
		g.mapDelete(st, args[0].(gMap), args[1])
		return nil
	case "copy":
	}
	g.undecided("%s of %T", name, args[0])
	return nil
}

// appendList copies a list of the request.
func (g *gx) appendList(st *gstate, x gSeq, y gList, t types.Type) gv {
	l := g.lists[y.id]
	r := gSeq{items: x.items[:len(x.items):len(x.items)]}
	prev := lc(-1)
	gap := func(to Lin) {
		it := gItem{others: g.freshN(), typ: elemType(t)}
		st.assume(cEqual(g.count(it), to.sub(prev).addc(-1)))
		r.items = append(r.items, it)
	}
	for i, p := range l.at {
		gap(p)
		r.items = append(r.items, gItem{v: l.focus[i], typ: elemType(t)})
		prev = p
	}
	gap(l.n)
	return r
}

func (s gSeq) allOthers() bool {
	for _, it := range s.items {
		if it.others == 0 {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// Models of the standard library.

type gmodel func(g *gx, st *gstate, a []gv) gv

func nilErr() gv { return gIface{nil: condTrue} }

func (g *gx) newErr() gv {
	return gIface{nil: condFalse, sym: fmt.Sprintf("error'%d", g.freshN())}
}

func (g *gx) lit(v gv) (string, bool) {
	s, ok := v.(gStr)
	if !ok {
		return "", false
	}
	return isLit(s.q)
}

func (g *gx) text(v gv) []gseg {
	s, ok := v.(gStr)
	if !ok {
		g.undecided("text expected, not %T", v)
	}
	return s.q
}

// fun is the result of a function on text that is not computed: the same for
// the same arguments.
func (g *gx) fun(name string, a ...[]gseg) gv {
	k := name + "("
	for _, q := range a {
		k += qkey(q) + ","
	}
	k += ")"
	if _, ok := g.holes[k]; !ok {
		g.holes[k] = &ghole{}
	}
	return gStr{[]gseg{{hole: k}}}
}

func (g *gx) funBool(name string, a ...[]gseg) gv {
	k := name + "("
	for _, q := range a {
		k += qkey(q) + ","
	}
	return gBool{cGe(la(boundedAtom("g:"+k+")", bi(0), bi(1))).addc(-1))}
}

func (g *gx) appendTo(st *gstate, p gv, q []gseg) {
	ptr, ok := p.(gPtr)
	if !ok {
		g.undecided("writer %T", p)
	}
	b, ok := g.load(st, ptr).(gBuf)
	if !ok {
		g.undecided("writer %T", p)
	}
	g.store(st, ptr, gBuf{qcat(b.q, q)})
}

// hasSuffix decides whether q ends in s, if the literal end of q tells.
func suffixOf(q []gseg, s string) (has, known bool) {
	if len(q) == 0 {
		return s == "", true
	}
	l := q[len(q)-1].lit
	if strings.HasSuffix(l, s) {
		return true, true
	}
	if l != "" && !strings.HasSuffix(s, l) {
		return false, true
	}
	if l != "" && len(q) == 1 {
		return false, true
	}
	return false, false
}

func prefixOf(q []gseg, s string) (has, known bool) {
	if len(q) == 0 {
		return s == "", true
	}
	l := q[0].lit
	if strings.HasPrefix(l, s) {
		return true, true
	}
	if l != "" && (!strings.HasPrefix(s, l) || len(q) == 1) {
		return false, true
	}
	return false, false
}

func (g *gx) hasSuffix(st *gstate, q []gseg, s string) *Cond {
	if has, ok := suffixOf(q, s); ok {
		return cBool(has)
	}
	return g.affix(st, "HasSuffix", q, s)
}

// affix is the condition that q begins or ends in s, which then is not longer.
func (g *gx) affix(st *gstate, name string, q []gseg, s string) *Cond {
	a := la(boundedAtom("g:"+name+"("+qkey(q)+","+qkey(qlit(s))+",)", bi(0), bi(1)))
	st.assume(cGe(g.textLen(q).sub(a.scale(bi(int64(len(s)))))))
	k := name + qkey(q)
	if g.affixes == nil {
		g.affixes = map[string]map[string]bool{}
	}
	if g.affixes[k] == nil {
		g.affixes[k] = map[string]bool{}
	}
	g.affixes[k][s] = true
	return cGe(a.addc(-1))
}

func (g *gx) hasPrefix(st *gstate, q []gseg, s string) *Cond {
	if has, ok := prefixOf(q, s); ok {
		return cBool(has)
	}
	return g.affix(st, "HasPrefix", q, s)
}

func (g *gx) trimSuffix(st *gstate, q []gseg, s string) gv {
	if !g.decide(st, g.hasSuffix(st, q, s)) || s == "" {
		return gStr{q}
	}
	n := len(q)
	if l := q[n-1].lit; strings.HasSuffix(l, s) {
		return gStr{qcat(q[:n-1:n-1], qlit(strings.TrimSuffix(l, s)))}
	}
	return g.fun("TrimSuffix", q, qlit(s))
}

func (g *gx) trimPrefix(st *gstate, q []gseg, s string) gv {
	if !g.decide(st, g.hasPrefix(st, q, s)) || s == "" {
		return gStr{q}
	}
	if l := q[0].lit; strings.HasPrefix(l, s) {
		return gStr{qcat(qlit(strings.TrimPrefix(l, s)), q[1:])}
	}
	return g.fun("TrimPrefix", q, qlit(s))
}

// noByte reports whether the hole certainly does not contain the character.
func (g *gx) noByte(s gseg, sep string) bool {
	if s.num != nil {
		return sep != "-" && !(len(sep) == 1 && sep[0] >= '0' && sep[0] <= '9')
	}
	h := g.holes[s.hole]
	return s.hole != "" && h != nil && h.ident && len(sep) == 1 && strings.ContainsAny(sep, "./- :;,()[]{}\n\t")
}

func (g *gx) index(st *gstate, q []gseg, sep string, last bool) gv {
	if s, ok := isLit(q); ok {
		if last {
			return gInt{lc(int64(strings.LastIndex(s, sep)))}
		}
		return gInt{lc(int64(strings.Index(s, sep)))}
	}
	if len(sep) == 1 {
		sure := true
		for k := range q {
			i := k
			if last {
				i = len(q) - 1 - k
			}
			if q[i].lit != "" {
				p := strings.Index(q[i].lit, sep)
				if last {
					p = strings.LastIndex(q[i].lit, sep)
				}
				if p >= 0 {
					return gInt{g.textLen(q[:i]).addc(int64(p))}
				}
				continue
			}
			if !g.noByte(q[i], sep) {
				sure = false
				break
			}
		}
		if sure {
			return gInt{lc(-1)}
		}
	}
	l := la(boundedAtom(fmt.Sprintf("g:Index%v(%s,%s)", last, qkey(q), sep), bi(-1), pow2(40)))
	st.assume(cLeq(l.addc(int64(len(sep))), g.textLen(q)))
	return gInt{l}
}

func litFn1(name string, f func(string) string) gmodel {
	return func(g *gx, st *gstate, a []gv) gv {
		if s, ok := g.lit(a[0]); ok {
			return gStr{qlit(f(s))}
		}
		return g.fun(name, g.text(a[0]))
	}
}

func litFn2(name string, f func(a, b string) string) gmodel {
	return func(g *gx, st *gstate, a []gv) gv {
		s, ok := g.lit(a[0])
		t, ok2 := g.lit(a[1])
		if ok && ok2 {
			return gStr{qlit(f(s, t))}
		}
		return g.fun(name, g.text(a[0]), g.text(a[1]))
	}
}

func litPred(name string, f func(a, b string) bool) gmodel {
	return func(g *gx, st *gstate, a []gv) gv {
		s, ok := g.lit(a[0])
		t, ok2 := g.lit(a[1])
		if ok && ok2 {
			return gBool{cBool(f(s, t))}
		}
		return g.funBool(name, g.text(a[0]), g.text(a[1]))
	}
}

func runePred(f func(rune) bool) gmodel {
	return func(g *gx, st *gstate, a []gv) gv {
		n, ok := g.constInt(st, a[0])
		if !ok {
			return gBool{g.unknownBool("rune")}
		}
		return gBool{cBool(f(rune(n)))}
	}
}

func runeFn(f func(rune) rune) gmodel {
	return func(g *gx, st *gstate, a []gv) gv {
		n, ok := g.constInt(st, a[0])
		if !ok {
			return gInt{g.atom("rune", bi(-1<<31), bi(1<<31-1))}
		}
		return gInt{lc(int64(f(rune(n))))}
	}
}

func writeText(g *gx, st *gstate, a []gv) gv {
	q := g.text(a[1])
	g.appendTo(st, a[0], q)
	return gTuple{gInt{g.textLen(q)}, nilErr()}
}

func bufText(g *gx, st *gstate, a []gv) gv {
	p, ok := a[0].(gPtr)
	if ok && p.obj == 0 {
		return gStr{qlit("<nil>")}
	}
	b, ok := g.load(st, a[0]).(gBuf)
	if !ok {
		g.undecided("internal: builder")
	}
	return gStr{b.q}
}

func bufReset(g *gx, st *gstate, a []gv) gv {
	g.store(st, a[0], gBuf{})
	return nil
}

func bufLen(g *gx, st *gstate, a []gv) gv {
	return gInt{g.textLen(g.load(st, a[0]).(gBuf).q)}
}

func itoa(g *gx, st *gstate, a []gv) gv {
	if len(a) > 1 {
		if b, ok := g.constInt(st, a[1]); !ok || b != 10 {
			n, ok2 := g.constInt(st, a[0])
			if ok && ok2 {
				return gStr{qlit(strconv.FormatInt(n, int(b)))}
			}
			g.undecided("number in another base")
		}
	}
	return gStr{qnum(a[0].(gInt).l)}
}

func qnum(l Lin) []gseg {
	if l.isConst() {
		return qlit(l.c.String())
	}
	return []gseg{{num: &l}}
}

func newValue(t types.BasicKind) gmodel {
	return func(g *gx, st *gstate, a []gv) gv {
		return gPtr{obj: st.alloc(&gobj{typ: types.Typ[t], val: a[0]})}
	}
}

var gmodels map[string]gmodel

func init() {
	gmodels = map[string]gmodel{
		"(*strings.Builder).Write":       writeText,
		"(*strings.Builder).WriteString": writeText,
		"(*bytes.Buffer).Write":          writeText,
		"(*bytes.Buffer).WriteString":    writeText,
		"(*strings.Builder).String":      bufText,
		"(*bytes.Buffer).String":         bufText,
		"(*bytes.Buffer).Bytes":          bufText,
		"(*strings.Builder).Len":         bufLen,
		"(*bytes.Buffer).Len":            bufLen,
		"(*strings.Builder).Reset":       bufReset,
		"(*bytes.Buffer).Reset":          bufReset,
		"(*strings.Builder).Grow":        func(g *gx, st *gstate, a []gv) gv { return nil },
		"(*bytes.Buffer).Grow":           func(g *gx, st *gstate, a []gv) gv { return nil },
		"bytes.NewBufferString": func(g *gx, st *gstate, a []gv) gv {
			return gPtr{obj: st.alloc(&gobj{val: gBuf{g.text(a[0])}})}
		},
		"strconv.Itoa":       itoa,
		"strconv.FormatInt":  itoa,
		"strconv.FormatUint": itoa,
		"strconv.AppendInt": func(g *gx, st *gstate, a []gv) gv {
			return gStr{qcat(g.text(a[0]), itoa(g, st, a[1:]).(gStr).q)}
		},
		"strconv.Quote": func(g *gx, st *gstate, a []gv) gv {
			if s, ok := g.lit(a[0]); ok {
				return gStr{qlit(strconv.Quote(s))}
			}
			q := g.text(a[0])
			for _, s := range q {
				if s.oth > 0 || s.hole != "" && !(g.holes[s.hole] != nil && g.holes[s.hole].ident) {
					return g.fun("Quote", q)
				}
			}
			r := qlit(`"`)
			for _, s := range q {
				if s.lit != "" {
					t := strconv.Quote(s.lit)
					r = qcat(r, qlit(t[1:len(t)-1]))
				} else {
					r = qcat(r, []gseg{s})
				}
			}
			return gStr{qcat(r, qlit(`"`))}
		},
		"strings.TrimSuffix": func(g *gx, st *gstate, a []gv) gv {
			if s, ok := g.lit(a[1]); ok {
				return g.trimSuffix(st, g.text(a[0]), s)
			}
			return g.fun("TrimSuffix", g.text(a[0]), g.text(a[1]))
		},
		"strings.TrimPrefix": func(g *gx, st *gstate, a []gv) gv {
			if s, ok := g.lit(a[1]); ok {
				return g.trimPrefix(st, g.text(a[0]), s)
			}
			if x, y := g.text(a[0]), g.text(a[1]); len(y) <= len(x) {
				ok := true
				for i := range y {
					if i == len(y)-1 && y[i].lit != "" {
						ok = ok && strings.HasPrefix(x[i].lit, y[i].lit)
					} else {
						ok = ok && x[i].key() == y[i].key() && y[i].oth == 0
					}
				}
				if ok && len(y) > 0 {
					n := len(y) - 1
					if y[n].lit != "" {
						return gStr{qcat(qlit(x[n].lit[len(y[n].lit):]), x[n+1:])}
					}
					return gStr{x[n+1:]}
				}
			}
			return g.fun("TrimPrefix", g.text(a[0]), g.text(a[1]))
		},
		"strings.HasSuffix": func(g *gx, st *gstate, a []gv) gv {
			if s, ok := g.lit(a[1]); ok {
				return gBool{g.hasSuffix(st, g.text(a[0]), s)}
			}
			return g.funBool("HasSuffix", g.text(a[0]), g.text(a[1]))
		},
		"strings.HasPrefix": func(g *gx, st *gstate, a []gv) gv {
			if s, ok := g.lit(a[1]); ok {
				return gBool{g.hasPrefix(st, g.text(a[0]), s)}
			}
			return g.funBool("HasPrefix", g.text(a[0]), g.text(a[1]))
		},
		"strings.LastIndex": func(g *gx, st *gstate, a []gv) gv {
			s, ok := g.lit(a[1])
			if !ok {
				g.undecided("index of an unknown text")
			}
			return g.index(st, g.text(a[0]), s, true)
		},
		"strings.Index": func(g *gx, st *gstate, a []gv) gv {
			s, ok := g.lit(a[1])
			if !ok {
				g.undecided("index of an unknown text")
			}
			return g.index(st, g.text(a[0]), s, false)
		},
		"strings.LastIndexByte": func(g *gx, st *gstate, a []gv) gv {
			n, ok := g.constInt(st, a[1])
			if !ok {
				g.undecided("index of an unknown byte")
			}
			return g.index(st, g.text(a[0]), string([]byte{byte(n)}), true)
		},
		"strings.IndexByte": func(g *gx, st *gstate, a []gv) gv {
			n, ok := g.constInt(st, a[1])
			if !ok {
				g.undecided("index of an unknown byte")
			}
			return g.index(st, g.text(a[0]), string([]byte{byte(n)}), false)
		},
		"strings.Contains":    litPred("Contains", strings.Contains),
		"strings.ContainsAny": litPred("ContainsAny", strings.ContainsAny),
		"strings.EqualFold":   litPred("EqualFold", strings.EqualFold),
		"strings.ContainsRune": func(g *gx, st *gstate, a []gv) gv {
			s, ok := g.lit(a[0])
			n, ok2 := g.constInt(st, a[1])
			if ok && ok2 {
				return gBool{cBool(strings.ContainsRune(s, rune(n)))}
			}
			return gBool{g.unknownBool("ContainsRune")}
		},
		"strings.IndexRune": func(g *gx, st *gstate, a []gv) gv {
			s, ok := g.lit(a[0])
			n, ok2 := g.constInt(st, a[1])
			if ok && ok2 {
				return gInt{lc(int64(strings.IndexRune(s, rune(n))))}
			}
			if ok2 && n > 0 && n < 128 {
				return g.index(st, g.text(a[0]), string([]byte{byte(n)}), false)
			}
			return gInt{g.atom("IndexRune", bi(-1), pow2(30))}
		},
		"strings.Title":     litFn1("Title", strings.Title),
		"strings.ToUpper":   litFn1("ToUpper", strings.ToUpper),
		"strings.ToLower":   litFn1("ToLower", strings.ToLower),
		"strings.ToTitle":   litFn1("ToTitle", strings.ToTitle),
		"strings.TrimSpace": litFn1("TrimSpace", strings.TrimSpace),
		"strings.Trim":      litFn2("Trim", strings.Trim),
		"strings.TrimLeft":  litFn2("TrimLeft", strings.TrimLeft),
		"strings.TrimRight": litFn2("TrimRight", strings.TrimRight),
		"strings.Replace": func(g *gx, st *gstate, a []gv) gv {
			s, ok := g.lit(a[0])
			t, ok2 := g.lit(a[1])
			u, ok3 := g.lit(a[2])
			n, ok4 := g.constInt(st, a[3])
			if ok && ok2 && ok3 && ok4 {
				return gStr{qlit(strings.Replace(s, t, u, int(n)))}
			}
			return g.fun(fmt.Sprint("Replace", n), g.text(a[0]), g.text(a[1]), g.text(a[2]))
		},
		"strings.ReplaceAll": func(g *gx, st *gstate, a []gv) gv {
			s, ok := g.lit(a[0])
			t, ok2 := g.lit(a[1])
			u, ok3 := g.lit(a[2])
			if ok && ok2 && ok3 {
				return gStr{qlit(strings.ReplaceAll(s, t, u))}
			}
			return g.fun("ReplaceAll", g.text(a[0]), g.text(a[1]), g.text(a[2]))
		},
		"strings.Repeat": func(g *gx, st *gstate, a []gv) gv {
			n, ok := g.constInt(st, a[1])
			q := g.text(a[0])
			if !ok {
				if len(q) == 0 {
					return gStr{}
				}
				g.undecided("repeated text")
			}
			g.obl()
			if n < 0 {
				g.problem("panic", "negative Repeat count")
			}
			if n > 10000 {
				g.undecided("repeated text")
			}
			var r []gseg
			for i := int64(0); i < n; i++ {
				r = qcat(r, q)
			}
			return gStr{r}
		},
		"strings.Join": func(g *gx, st *gstate, a []gv) gv {
			s, ok := a[0].(gSeq)
			if !ok {
				g.undecided("strings.Join")
			}
			sep := g.text(a[1])
			var r []gseg
			for i, it := range s.items {
				if it.others > 0 {
					// Any number of texts with separators.
					if len(sep) > 0 && len(s.items) > 1 {
						g.undecided("joined texts")
					}
					r = qcat(r, []gseg{{oth: g.freshN()}})
					continue
				}
				if i > 0 {
					r = qcat(r, sep)
				}
				r = qcat(r, g.text(it.v))
			}
			return gStr{r}
		},
		"strings.Split": func(g *gx, st *gstate, a []gv) gv {
			sep, ok := g.lit(a[1])
			q := g.text(a[0])
			if !ok {
				g.undecided("strings.Split")
			}
			strT := types.Typ[types.String]
			if s, ok := isLit(q); ok {
				r := gSeq{}
				for _, p := range strings.Split(s, sep) {
					r.items = append(r.items, gItem{v: gStr{qlit(p)}, typ: strT})
				}
				return r
			}
			if len(sep) != 1 {
				g.undecided("strings.Split")
			}
			// Pieces between separators; unknown text is any number of pieces.
			r := gSeq{}
			var cur []gseg
			any := false
			flush := func() {
				if any {
					last := g.fun("LastPiece", cur, qlit(sep))
					r.items = append(r.items, gItem{others: g.freshN(), typ: strT}, gItem{v: last, typ: strT})
				} else {
					r.items = append(r.items, gItem{v: gStr{cur}, typ: strT})
				}
				cur, any = nil, false
			}
			for _, s := range q {
				if s.lit == "" {
					if !g.noByte(s, sep) {
						any = true
					}
					cur = qcat(cur, []gseg{s})
					continue
				}
				for i, p := range strings.Split(s.lit, sep) {
					if i > 0 {
						flush()
					}
					cur = qcat(cur, qlit(p))
				}
			}
			flush()
			return r
		},
		"strings.Fields": func(g *gx, st *gstate, a []gv) gv {
			s, ok := g.lit(a[0])
			if !ok {
				g.undecided("strings.Fields")
			}
			r := gSeq{}
			for _, p := range strings.Fields(s) {
				r.items = append(r.items, gItem{v: gStr{qlit(p)}, typ: types.Typ[types.String]})
			}
			return r
		},
		"path.Ext":          func(g *gx, st *gstate, a []gv) gv { return g.ext(st, g.text(a[0])) },
		"path/filepath.Ext": func(g *gx, st *gstate, a []gv) gv { return g.ext(st, g.text(a[0])) },
		"path.Base":         litFn1("Base", path.Base),
		"unicode.IsLetter":  runePred(unicode.IsLetter),
		"unicode.IsDigit":   runePred(unicode.IsDigit),
		"unicode.IsNumber":  runePred(unicode.IsNumber),
		"unicode.IsUpper":   runePred(unicode.IsUpper),
		"unicode.IsLower":   runePred(unicode.IsLower),
		"unicode.IsSpace":   runePred(unicode.IsSpace),
		"unicode.IsPunct":   runePred(unicode.IsPunct),
		"unicode.ToTitle":   runeFn(unicode.ToTitle),
		"unicode.ToUpper":   runeFn(unicode.ToUpper),
		"unicode.ToLower":   runeFn(unicode.ToLower),
		"unicode/utf8.RuneLen": func(g *gx, st *gstate, a []gv) gv {
			n, ok := g.constInt(st, a[0])
			if !ok {
				g.undecided("unknown rune")
			}
			return gInt{lc(int64(utf8.RuneLen(rune(n))))}
		},
		"unicode/utf8.DecodeRuneInString": func(g *gx, st *gstate, a []gv) gv {
			s, ok := g.lit(a[0])
			if !ok {
				g.undecided("unknown text")
			}
			r, n := utf8.DecodeRuneInString(s)
			return gTuple{gInt{lc(int64(r))}, gInt{lc(int64(n))}}
		},
		"unicode/utf8.RuneCountInString": func(g *gx, st *gstate, a []gv) gv {
			s, ok := g.lit(a[0])
			if !ok {
				g.undecided("unknown text")
			}
			return gInt{lc(int64(utf8.RuneCountInString(s)))}
		},
		"(*strings.Builder).WriteByte": func(g *gx, st *gstate, a []gv) gv {
			n, ok := g.constInt(st, a[1])
			if !ok {
				g.undecided("unknown byte")
			}
			g.appendTo(st, a[0], qlit(string([]byte{byte(n)})))
			return nilErr()
		},
		"(*strings.Builder).WriteRune": func(g *gx, st *gstate, a []gv) gv {
			n, ok := g.constInt(st, a[1])
			if !ok {
				g.undecided("unknown rune")
			}
			g.appendTo(st, a[0], qlit(string(rune(n))))
			return gTuple{gInt{lc(int64(utf8.RuneLen(rune(n))))}, nilErr()}
		},
		"errors.New": func(g *gx, st *gstate, a []gv) gv { return g.newErr() },
		"fmt.Errorf": func(g *gx, st *gstate, a []gv) gv { return g.newErr() },
		"github.com/golang/protobuf/proto.String": newValue(types.String),
		"github.com/golang/protobuf/proto.Int32":  newValue(types.Int32),
		"github.com/golang/protobuf/proto.Bool":   newValue(types.Bool),
		"github.com/golang/protobuf/proto.EnumName": func(g *gx, st *gstate, a []gv) gv {
			v, ok := g.mapLookup(st, a[0].(gMap), a[1], types.NewMap(types.Typ[types.Int32], types.Typ[types.String]))
			if !g.decide(st, ok) {
				return gStr{qnum(a[1].(gInt).l)}
			}
			return v
		},
	}
	gmodels["(*bytes.Buffer).WriteByte"] = gmodels["(*strings.Builder).WriteByte"]
	gmodels["(*bytes.Buffer).WriteRune"] = gmodels["(*strings.Builder).WriteRune"]
	gcalls = map[string]func(g *gx, st *gstate, fr *gframe, a []gv) []gout{
		"io.WriteString": func(g *gx, st *gstate, fr *gframe, a []gv) []gout {
			return g.write(st, fr, a[0].(gIface), g.text(a[1]))
		},
		"fmt.Fprintf": func(g *gx, st *gstate, fr *gframe, a []gv) []gout {
			return g.formatted(st, fr, g.text(a[1]), a[2], func(st *gstate, q []gseg) []gout { return g.write(st, fr, a[0].(gIface), q) })
		},
		"fmt.Sprintf": func(g *gx, st *gstate, fr *gframe, a []gv) []gout {
			return g.formatted(st, fr, g.text(a[0]), a[1], func(st *gstate, q []gseg) []gout { return g.ret(st, gStr{q}) })
		},
		"fmt.Fprint": func(g *gx, st *gstate, fr *gframe, a []gv) []gout {
			return g.printed(st, fr, a[1], false, func(st *gstate, q []gseg) []gout { return g.write(st, fr, a[0].(gIface), q) })
		},
		"fmt.Sprint": func(g *gx, st *gstate, fr *gframe, a []gv) []gout {
			return g.printed(st, fr, a[0], false, func(st *gstate, q []gseg) []gout { return g.ret(st, gStr{q}) })
		},
		"fmt.Fprintln": func(g *gx, st *gstate, fr *gframe, a []gv) []gout {
			return g.printed(st, fr, a[1], true, func(st *gstate, q []gseg) []gout { return g.write(st, fr, a[0].(gIface), q) })
		},
		"fmt.Sprintln": func(g *gx, st *gstate, fr *gframe, a []gv) []gout {
			return g.printed(st, fr, a[0], true, func(st *gstate, q []gseg) []gout { return g.ret(st, gStr{q}) })
		},
		"strings.Map": func(g *gx, st *gstate, fr *gframe, a []gv) []gout {
			s, ok := g.lit(a[1])
			if !ok {
				return g.ret(st, g.fun("Map", g.text(a[1])))
			}
			f := a[0].(gFn)
			var b strings.Builder
			for _, r := range s {
				var v gv
				st, v = g.one(g.callFn(st, fr, f.fn, []gv{gInt{lc(int64(r))}}, f.bind))
				n, ok := g.constInt(st, v)
				if !ok {
					g.undecided("unknown rune")
				}
				if n >= 0 {
					b.WriteRune(rune(n))
				}
			}
			return g.ret(st, gStr{qlit(b.String())})
		},
		"strings.FieldsFunc": func(g *gx, st *gstate, fr *gframe, a []gv) []gout {
			s, ok := g.lit(a[0])
			if !ok {
				g.undecided("strings.FieldsFunc")
			}
			f := a[1].(gFn)
			r := gSeq{}
			cur := ""
			flush := func() {
				if cur != "" {
					r.items = append(r.items, gItem{v: gStr{qlit(cur)}, typ: types.Typ[types.String]})
				}
				cur = ""
			}
			for _, c := range s {
				var v gv
				st, v = g.one(g.callFn(st, fr, f.fn, []gv{gInt{lc(int64(c))}}, f.bind))
				if g.decide(st, v.(gBool).c) {
					flush()
				} else {
					cur += string(c)
				}
			}
			flush()
			return g.ret(st, r)
		},
	}
}

var gcalls map[string]func(g *gx, st *gstate, fr *gframe, a []gv) []gout

// one expects a single way in which a call ends.
func (g *gx) one(outs []gout) (*gstate, gv) {
	if len(outs) != 1 {
		g.undecided("a called function has %d results", len(outs))
	}
	return outs[0].st, outs[0].ret
}

func (g *gx) ext(st *gstate, q []gseg) gv {
	if s, ok := isLit(q); ok {
		return gStr{qlit(path.Ext(s))}
	}
	for i := len(q) - 1; i >= 0; i-- {
		if q[i].lit != "" {
			if p := strings.LastIndexAny(q[i].lit, "./"); p >= 0 {
				if q[i].lit[p] == '/' {
					return gStr{}
				}
				return gStr{qcat(qlit(q[i].lit[p:]), q[i+1:])}
			}
			continue
		}
		if !g.noByte(q[i], ".") || !g.noByte(q[i], "/") {
			break
		}
	}
	return g.fun("Ext", q)
}

// write calls the Write method.
func (g *gx) write(st *gstate, fr *gframe, w gIface, q []gseg) []gout {
	g.obl()
	if g.decide(st, w.nil) {
		g.problem("panic", "method of a nil interface")
	}
	if w.typ == nil {
		g.undecided("unknown writer")
	}
	fn := g.ld.prog.LookupMethod(w.typ, nil, "Write")
	if fn == nil {
		g.undecided("no Write method of %s", w.typ)
	}
	return g.callFn(st, fr, fn, []gv{w.v, gStr{q}}, nil)
}

// shown is the text of a value for the verbs v, s, d.
func (g *gx) shown(st *gstate, fr *gframe, v gv, verb byte, k func(st *gstate, q []gseg) []gout) []gout {
	i, ok := v.(gIface)
	if !ok {
		g.undecided("formatting of %T", v)
	}
	if g.decide(st, i.nil) {
		return k(st, qlit("<nil>"))
	}
	if i.typ == nil {
		return k(st, []gseg{{hole: g.newHole("formatted", &ghole{})}})
	}
	if verb != 'd' {
		for _, m := range []string{"Error", "String"} {
			obj, _, _ := types.LookupFieldOrMethod(i.typ, false, nil, m)
			if f, ok := obj.(*types.Func); ok && f.Type().(*types.Signature).Params().Len() == 0 {
				fn := g.ld.prog.LookupMethod(i.typ, nil, m)
				if fn == nil {
					continue
				}
				var r []gout
				for _, o := range g.callFn(st, fr, fn, []gv{i.v}, nil) {
					r = append(r, k(o.st, g.text(o.ret))...)
				}
				return r
			}
		}
	}
	switch x := i.v.(type) {
	case gStr:
		if b, isB := i.typ.Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 && (verb == 'v' || verb == 's') || verb == 's' {
			return k(st, x.q)
		}
	case gInt:
		if verb == 'v' || verb == 'd' {
			return k(st, qnum(x.l))
		}
	case gBool:
		if verb == 'v' {
			return k(st, qlit(strconv.FormatBool(g.decide(st, x.c))))
		}
	}
	g.undecided("formatting of %s with %%%c", i.typ, verb)
	return nil
}

func (g *gx) formatArgs(v gv) []gv {
	s, ok := v.(gSeq)
	if !ok {
		g.undecided("formatting of %T", v)
	}
	var r []gv
	for _, it := range s.items {
		if it.others > 0 {
			g.undecided("formatting of unknown arguments")
		}
		r = append(r, it.v)
	}
	return r
}

func (g *gx) formatted(st *gstate, fr *gframe, format []gseg, args gv, k func(st *gstate, q []gseg) []gout) []gout {
	a := g.formatArgs(args)
	var step func(st *gstate, rest []gseg, i int, out []gseg) []gout
	step = func(st *gstate, rest []gseg, i int, out []gseg) []gout {
		for len(rest) > 0 {
			if rest[0].lit == "" {
				// Text that may contain verbs.
				if h := g.holes[rest[0].hole]; rest[0].num == nil && (h == nil || !h.ident) {
					g.undecided("unknown format")
				}
				out = qcat(out, rest[:1])
				rest = rest[1:]
				continue
			}
			s := rest[0].lit
			p := strings.IndexByte(s, '%')
			if p < 0 {
				out = qcat(out, qlit(s))
				rest = rest[1:]
				continue
			}
			out = qcat(out, qlit(s[:p]))
			if p+1 >= len(s) {
				g.undecided("unknown format")
			}
			verb := s[p+1]
			idx := -1
			tail := s[p+2:]
			if verb == '[' {
				e := strings.IndexByte(s[p:], ']')
				n, err := strconv.Atoi(s[p+2 : p+max(e, 2)])
				if e < 0 || err != nil || p+e+1 >= len(s) {
					g.undecided("unknown format")
				}
				idx = n - 1
				verb = s[p+e+1]
				tail = s[p+e+2:]
			}
			next := qcat(qlit(tail), rest[1:])
			if verb == '%' {
				out = qcat(out, qlit("%"))
				rest = next
				continue
			}
			if idx < 0 {
				idx = i
			}
			i = idx + 1
			if idx >= len(a) {
				out = qcat(out, qlit("%!"+string(verb)+"(MISSING)"))
				rest = next
				continue
			}
			switch verb {
			case 's', 'd', 'v':
				j, o := i, out
				return g.shown(st, fr, a[idx], verb, func(st *gstate, q []gseg) []gout {
					return step(st, next, j, qcat(o, q))
				})
			case 'q':
				if x, ok := a[idx].(gIface).v.(gStr); ok {
					out = qcat(out, gmodels["strconv.Quote"](g, st, []gv{x}).(gStr).q)
					rest = next
					continue
				}
			case 'T':
				if x := a[idx].(gIface); x.typ != nil {
					out = qcat(out, qlit(types.TypeString(x.typ, func(p *types.Package) string { return p.Name() })))
					rest = next
					continue
				}
			}
			g.undecided("format verb %%%c", verb)
		}
		if i < len(a) {
			out = qcat(out, qlit("%!(EXTRA ...)"))
		}
		return k(st, out)
	}
	return step(st, format, 0, nil)
}

func (g *gx) printed(st *gstate, fr *gframe, args gv, ln bool, k func(st *gstate, q []gseg) []gout) []gout {
	a := g.formatArgs(args)
	isStr := func(v gv) bool {
		i, ok := v.(gIface)
		if !ok || i.typ == nil {
			return false
		}
		b, ok := i.typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	var step func(st *gstate, i int, out []gseg) []gout
	step = func(st *gstate, i int, out []gseg) []gout {
		if i == len(a) {
			if ln {
				out = qcat(out, qlit("\n"))
			}
			return k(st, out)
		}
		if i > 0 && (ln || !isStr(a[i]) && !isStr(a[i-1])) {
			out = qcat(out, qlit(" "))
		}
		return g.shown(st, fr, a[i], 'v', func(st *gstate, q []gseg) []gout { return step(st, i+1, qcat(out, q)) })
	}
	return step(st, 0, nil)
}
