package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (it *Interp) builtin(fr *Frame, name string, args []Val, c *ssa.CallCommon, at token.Pos) Val {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case VSlice:
			if name == "cap" {
				return VInt{x.cap}
			}
			return VInt{x.len}
		case VStr:
			return VInt{x.len}
		case VMap:
			if it.decide(x.nil) || x.obj == 0 {
				return vint(0)
			}
			return it.mapLen(it.obj(x.obj))
		case VArr:
			return VInt{lc(c.Args[0].Type().Underlying().(*types.Array).Len())}
		case VPtr:
			return VInt{lc(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())}
		}
	case "append":
		return it.appendVals(fr, args[0].(VSlice), args[1], c.Args[0].Type().Underlying().(*types.Slice).Elem(), at)
	case "copy":
		dst := args[0].(VSlice)
		var so int
		var soff, sl Lin
		switch s := args[1].(type) {
		case VSlice:
			so, soff, sl = s.obj, s.off, s.len
		case VStr:
			so, soff, sl = s.obj, s.off, s.len
		}
		n := sl
		if !it.decide(cLeq(sl, dst.len)) {
			n = dst.len
		}
		if dst.obj == 0 || so == 0 || it.entails(cEq(n)) {
			return VInt{n}
		}
		if it.obj(dst.obj).kind != oBytes || it.obj(so).kind != oBytes {
			it.undecided(at, "copy of non-byte slices")
		}
		q := it.readSeq(so, soff, n)
		it.event(Event{kind: "read", obj: so, pos: soff, n: n, at: at})
		it.writeSeq(dst.obj, dst.off, n, q, at)
		return VInt{n}
	case "delete":
		m := args[0].(VMap)
		if it.decide(m.nil) || m.obj == 0 {
			return nil
		}
		o := it.obj(m.obj)
		it.event(Event{kind: "mapwrite", obj: o.id, at: at, val: args[1], note: "delete"})
		i := it.mapCell(o, args[1])
		o.cells[i].present = condFalse
		return nil
	case "clear":
		switch x := args[0].(type) {
		case VMap:
			if it.decide(x.nil) || x.obj == 0 {
				return nil
			}
			o := it.obj(x.obj)
			it.event(Event{kind: "mapclear", obj: o.id, at: at})
			o.cells, o.sym = nil, false
			return nil
		case VSlice:
			if x.obj != 0 {
				o := it.obj(x.obj)
				if o.kind == oBytes {
					it.writeSeq(o.id, x.off, x.len, []Seg{zeroSeg(x.len)}, at)
					return nil
				}
			}
		}
	case "min", "max":
		r := args[0].(VInt).l
		for _, a := range args[1:] {
			y := a.(VInt).l
			if it.decide(cLeq(y, r)) == (name == "min") {
				r = y
			}
		}
		return VInt{r}
	case "ssa:wrapnilchk":
		p, ok := args[0].(VPtr)
		if ok {
			it.nonNil(p, at)
		}
		return args[0]
	case "print", "println":
		return nil
	case "recover":
		return VIface{nil: condTrue, conc: true}
	}
	it.undecided(at, "builtin %s", name)
	return nil
}

// mapLen tells the empty map from all others.
func (it *Interp) mapLen(o *Obj) Val {
	empty := condTrue
	for _, c := range o.cells {
		empty = cConj(empty, cNot(c.present))
	}
	max := maxLen
	if !o.sym {
		max = bi(int64(len(o.cells)))
		if empty.op == cTrue || it.decide(empty) {
			return vint(0)
		}
	} else if empty.op != cFalse && it.decide(empty) && it.choose(2) == 0 {
		o = it.obj(o.id)
		o.cells, o.sym, o.dflt = nil, false, nil
		o.ver++
		return vint(0)
	}
	if len(o.cells) == 1 && !o.sym {
		return vint(1)
	}
	return VInt{la(it.freshAtom("len(map)", bigOne, max))}
}

func (it *Interp) appendVals(fr *Frame, s VSlice, e Val, elem types.Type, at token.Pos) Val {
	var eo int
	var eoff, n Lin
	switch x := e.(type) {
	case VSlice:
		eo, eoff, n = x.obj, x.off, x.len
	case VStr:
		eo, eoff, n = x.obj, x.off, x.len
	}
	if n.isZero() || eo == 0 || it.entails(cEq(n)) {
		return s
	}
	bytes := isByte(elem)
	var q []Seg
	if bytes {
		q = it.readSeq(eo, eoff, n)
		it.event(Event{kind: "read", obj: eo, pos: eoff, n: n, at: at})
	}
	newLen := s.len.add(n)
	if call, ok := fr.pc.(*ssa.Call); ok && bytes && s.obj != 0 && eo != s.obj && it.obj(s.obj).kind == oBytes &&
		!it.obj(s.obj).ro && it.unshared(fr, call, s.obj) {
		// Nothing else refers to the array, so growing it in place and moving it
		// cannot be told apart. What is behind the new end is unknown.
		old := it.readSeq(s.obj, lc(0), s.off.add(s.len))
		whole := seqLen(it.obj(s.obj).seq)
		it.event(Event{kind: "write", obj: s.obj, pos: s.off.add(s.len), n: n, at: at})
		extra := la(it.freshAtom("growth", bi(0), maxLen))
		it.st.fresh++
		spare := mkContent(Content{kind: kSrc, name: fmt.Sprintf("spare'%d", it.st.fresh)})
		o := it.obj(s.obj)
		o.seq = it.trimSeq(append(append(append([]Seg{}, old...), q...), Seg{spare, lc(0), extra}))
		if it.esc != nil && !it.entails(cLeq(newLen, s.cap)) {
			if !it.entails(cEq(whole.sub(s.off).sub(s.cap))) {
				it.event(Event{kind: "alloc", obj: s.obj, at: at, note: "append to a slice with less capacity than its array"})
			}
			it.event(Event{kind: "alloc", obj: s.obj, at: at, note: "append"})
		}
		return VSlice{s.obj, s.off, newLen, newLen.add(extra), cConj(s.nil, cEq(n))}
	}
	if s.obj != 0 && it.decide(cLeq(newLen, s.cap)) {
		if bytes {
			it.writeSeq(s.obj, s.off.add(s.len), n, q, at)
		} else {
			it.copyElems(it.obj(s.obj), s.off.add(s.len), it.obj(eo), eoff, n, at)
		}
		return VSlice{s.obj, s.off, newLen, s.cap, s.nil}
	}
	extra := la(it.freshAtom("growth", bi(0), maxLen))
	var o *Obj
	if bytes {
		old := it.readSeq(s.obj, s.off, s.len)
		nq := append(append(append([]Seg{}, old...), q...), zeroSeg(extra))
		o = it.newBytes("append", nq)
	} else {
		o = it.newObj(oArr, "append")
		o.typ, o.len = elem, newLen.add(extra)
		if s.obj != 0 {
			old := it.obj(s.obj)
			base := s.off
			snap := old.clone()
			o.dflt = func(it *Interp, key Val) Val {
				k := VInt{key.(VInt).l.add(base)}
				if snap.dflt != nil || snap.def != nil || snap.sym {
					return it.cellDefault(snap, k)
				}
				return it.zero(elem)
			}
			for _, c := range old.cells {
				o.cells = append(o.cells, kcell{key: VInt{c.key.(VInt).l.sub(base)}, present: condTrue, val: c.val})
			}
		}
		it.copyElems(o, s.len, it.obj(eo), eoff, n, at)
	}
	o.site, o.from = at, s.obj
	note := "append"
	if bytes && s.obj != 0 && !it.entails(cEq(seqLen(it.obj(s.obj).seq).sub(s.off).sub(s.cap))) {
		note = "append to a slice with less capacity than its array"
	}
	it.event(Event{kind: "alloc", obj: o.id, at: at, note: note})
	return VSlice{o.id, lc(0), newLen, newLen.add(extra), cConj(s.nil, cEq(n))}
}

func (it *Interp) copyElems(dst *Obj, off Lin, src *Obj, soff, n Lin, at token.Pos) {
	if !n.isConst() || n.c.Cmp(bi(64)) > 0 {
		it.undecided(at, "append of an unknown number of elements")
	}
	for i := int64(0); i < n.c.Int64(); i++ {
		c := it.arrCell(src, VInt{soff.addc(i)})
		v := it.copyVal(src.cells[c].val)
		d := it.arrCell(dst, VInt{off.addc(i)})
		it.event(Event{kind: "elemwrite", obj: dst.id, pos: off.addc(i), at: at})
		dst.cells[d].val = v
	}
}

func (it *Interp) errVal(name string, at token.Pos) Val {
	it.event(Event{kind: "alloc", at: at, note: "error"})
	return VIface{sym: name + "@" + it.ld.posStr(at), nil: condFalse}
}

// bytesAt returns the n bytes at the start of b, after checking the bounds.
func (it *Interp) leBytes(b VSlice, n int, at token.Pos) []Lin {
	it.oblige(cLeq(lc(int64(n)), b.len), "bounds", at, func() string {
		return fmt.Sprintf("index out of range: %d with length %s", n-1, b.len)
	})
	if b.obj == 0 {
		panic(pathEnd{"nil"})
	}
	r := make([]Lin, n)
	for i := range r {
		r[i] = it.byteAt(b.obj, b.off.addc(int64(i)), at)
	}
	return r
}

func (it *Interp) uint(b VSlice, n int, big bool, at token.Pos) Val {
	bs := it.leBytes(b, n, at)
	v := lc(0)
	for i := range bs {
		k := i
		if big {
			k = n - 1 - i
		}
		v = v.add(bs[i].scale(pow2(8 * k)))
	}
	return VInt{v}
}

func (it *Interp) putUint(b VSlice, v Lin, n int, big bool, at token.Pos) Val {
	it.oblige(cLeq(lc(int64(n)), b.len), "bounds", at, func() string {
		return fmt.Sprintf("index out of range: %d with length %s", n-1, b.len)
	})
	if b.obj == 0 {
		panic(pathEnd{"nil"})
	}
	it.writeSeq(b.obj, b.off, lc(int64(n)), it.uintSegs(v, n, big), at)
	return nil
}

func (it *Interp) uintSegs(v Lin, n int, big bool) []Seg {
	if !big {
		return []Seg{leSeg(v, n)}
	}
	var q []Seg
	for i := n - 1; i >= 0; i-- {
		q = append(q, byteSeg(it.byteVal(leSeg(v, n), lc(int64(i)))))
	}
	return q
}

// zigzag returns the unsigned value that encodes v.
func (it *Interp) zigzag(v Lin) Lin {
	if it.decide(cGe(v)) {
		return v.scaleN(2)
	}
	return v.scaleN(-2).addc(-1)
}

func (it *Interp) unzigzag(u Lin) Lin {
	h := it.shr(u, 1)
	if it.decide(cEq(u.sub(h.scaleN(2)))) {
		return h
	}
	return h.neg().addc(-1)
}

func (it *Interp) uvAtomLen(v Lin) Lin {
	// Use the bounds that are known in this state.
	return ulen(v)
}

// settle replaces results of arithmetic that wrapped around by what they are in
// this state, so that equal numbers have equal names.
func (it *Interp) settle(v Lin) Lin {
	for _, t := range v.t {
		a := t.a
		if a.wrapOf == nil {
			continue
		}
		rl, rh := a.wrapOf.interval()
		if rl == nil || rh == nil {
			continue
		}
		m := pow2(a.wrapB)
		k := new(big.Int).Div(new(big.Int).Sub(rl, a.hi), m)
		last := new(big.Int).Div(new(big.Int).Sub(rh, a.lo), m)
		for n := 0; k.Cmp(last) <= 0 && n < 4; n++ {
			x := a.wrapOf.sub(lbig(new(big.Int).Mul(k, m)))
			if it.entails(cEq(la(a).sub(x))) {
				v = v.subst(a, x)
				break
			}
			k = new(big.Int).Add(k, bigOne)
		}
	}
	return v
}

func (it *Interp) putUvarint(b VSlice, v Lin, at token.Pos) Val {
	q := uvSeg(it.settle(v))
	n := seqLen(q)
	it.oblige(cLeq(n, b.len), "bounds", at, func() string {
		return fmt.Sprintf("index out of range: varint of up to %s bytes in a buffer of %s", hiStr(n), b.len)
	})
	if b.obj == 0 {
		panic(pathEnd{"nil"})
	}
	it.writeSeq(b.obj, b.off, n, q, at)
	return VInt{n}
}

func hiStr(l Lin) string {
	_, hi := l.interval()
	if hi == nil {
		return l.String()
	}
	return hi.String()
}

func (it *Interp) appendSeq(fr *Frame, s VSlice, q []Seg, at token.Pos) Val {
	o := it.newBytes("tmp", q)
	n := seqLen(q)
	return it.appendVals(fr, s, VSlice{o.id, lc(0), n, n, condFalse}, types.Typ[types.Uint8], at)
}

func asLin(v Val) Lin { return v.(VInt).l }

func stdModels() map[string]model {
	m := map[string]model{}
	m["encoding/binary.Uvarint"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		v, n := it.uvarint(a[0].(VSlice), at)
		return VTuple{VInt{v}, VInt{n}}
	}
	m["encoding/binary.Varint"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		v, n := it.uvarint(a[0].(VSlice), at)
		return VTuple{VInt{it.unzigzag(v)}, VInt{n}}
	}
	m["encoding/binary.PutUvarint"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		return it.putUvarint(a[0].(VSlice), asLin(a[1]), at)
	}
	m["encoding/binary.PutVarint"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		return it.putUvarint(a[0].(VSlice), it.zigzag(asLin(a[1])), at)
	}
	m["encoding/binary.AppendUvarint"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		return it.appendSeq(fr, a[0].(VSlice), uvSeg(it.settle(asLin(a[1]))), at)
	}
	m["encoding/binary.AppendVarint"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		return it.appendSeq(fr, a[0].(VSlice), uvSeg(it.zigzag(asLin(a[1]))), at)
	}
	for _, e := range []string{"little", "big"} {
		big := e == "big"
		for _, n := range []int{2, 4, 8} {
			n := n
			m[fmt.Sprintf("(encoding/binary.%sEndian).Uint%d", e, n*8)] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
				return it.uint(a[1].(VSlice), n, big, at)
			}
			m[fmt.Sprintf("(encoding/binary.%sEndian).PutUint%d", e, n*8)] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
				return it.putUint(a[1].(VSlice), asLin(a[2]), n, big, at)
			}
			m[fmt.Sprintf("(encoding/binary.%sEndian).AppendUint%d", e, n*8)] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
				return it.appendSeq(fr, a[1].(VSlice), it.uintSegs(asLin(a[2]), n, big), at)
			}
		}
	}
	m["math.Float32bits"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val { return VInt{a[0].(VFloat).bits} }
	m["math.Float64bits"] = m["math.Float32bits"]
	m["math.Float32frombits"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val { return VFloat{asLin(a[0]), 32} }
	m["math.Float64frombits"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val { return VFloat{asLin(a[0]), 64} }
	m["bytes.Equal"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		x, y := a[0].(VSlice), a[1].(VSlice)
		return VBool{it.matchRange(x, y, at)}
	}
	m["bytes.HasSuffix"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		x, y := a[0].(VSlice), a[1].(VSlice)
		if !it.decide(cLeq(y.len, x.len)) {
			return vbool(false)
		}
		d := x.len.sub(y.len)
		return VBool{it.matchRange(VSlice{x.obj, x.off.add(d), y.len, y.len, condFalse}, y, at)}
	}
	m["bytes.HasPrefix"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		x, y := a[0].(VSlice), a[1].(VSlice)
		if !it.decide(cLeq(y.len, x.len)) {
			return vbool(false)
		}
		return VBool{it.matchRange(VSlice{x.obj, x.off, y.len, y.len, condFalse}, y, at)}
	}
	for _, n := range []string{"errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf",
		"github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "fmt.Errorf", "github.com/pkg/errors.WithStack"} {
		n := n
		m[n] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
			if len(a) > 0 {
				if e, ok := a[0].(VIface); ok { // Wrap(nil) is nil
					it.event(Event{kind: "alloc", at: at, note: "error"})
					return VIface{sym: n + "@" + it.ld.posStr(at), nil: e.nil}
				}
			}
			return it.errVal(n, at)
		}
	}
	m["fmt.Sprintf"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		it.event(Event{kind: "alloc", at: at, note: "fmt"})
		it.st.fresh++
		return it.symbolic(types.Typ[types.String], fmt.Sprintf("sprintf'%d", it.st.fresh))
	}
	return m
}

// matchRange returns the condition that the two byte ranges are equal. If that
// is unknown the state is split, and where they are equal the first is rewritten
// with the contents of the second, about which more may be known.
func (it *Interp) matchRange(x, y VSlice, at token.Pos) *Cond {
	if !it.decide(cEqual(x.len, y.len)) {
		return condFalse
	}
	if it.decide(cEq(x.len)) {
		return condTrue
	}
	a, b := it.readSeq(x.obj, x.off, x.len), it.readSeq(y.obj, y.off, y.len)
	it.event(Event{kind: "read", obj: x.obj, pos: x.off, n: x.len, at: at})
	c := it.seqEqCond(a, b)
	if !it.decide(c) {
		return condFalse
	}
	if c.op != cTrue && x.obj != 0 && !it.obj(x.obj).ro {
		o := it.obj(x.obj)
		i := it.cut(o, x.off)
		j := it.cut(o, x.off.add(x.len))
		if j >= i {
			r := append([]Seg{}, o.seq[:i]...)
			r = append(r, b...)
			r = append(r, o.seq[j:]...)
			o.seq = it.trimSeq(r)
		}
	}
	return condTrue
}

var _ = big.NewInt
