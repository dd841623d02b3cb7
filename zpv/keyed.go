package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The part of a data structure that is stored for one key: the elements of its
// arrays and slices with this index, the entries of its maps with this key, and
// everything that isn't keyed (except whether a map is nil, which only tells
// whether it was allocated yet).

type keyedLeaf struct {
	path    string
	present bool
	val     Lin
}

func (it *Interp) keyedLeaves(v Val, key Lin, path string, at token.Pos, seen map[int]bool) []keyedLeaf {
	switch x := v.(type) {
	case VInt:
		return []keyedLeaf{{path, true, x.l}}
	case VBool:
		if it.decide(x.c) {
			return []keyedLeaf{{path, true, lc(1)}}
		}
		return []keyedLeaf{{path, true, lc(0)}}
	case VStruct:
		var r []keyedLeaf
		for i, f := range x.f {
			r = append(r, it.keyedLeaves(f, key, fmt.Sprintf("%s.%d", path, i), at, seen)...)
		}
		return r
	case VPtr:
		if x.obj == 0 || seen[x.obj] {
			return nil
		}
		seen[x.obj] = true
		if x.nil != nil && it.decide(x.nil) {
			return []keyedLeaf{{path + "=nil", true, lc(1)}}
		}
		return it.keyedLeaves(it.load(x, it.obj(x.obj).typ, at), key, path+"*", at, seen)
	case VSlice:
		if x.obj == 0 {
			return nil
		}
		o := it.obj(x.obj)
		if o.kind != oArr {
			return nil
		}
		return it.keyedElem(x.obj, x.off.add(key), key, path+"[]", at, seen)
	case VArr:
		return it.keyedElem(x.obj, key, key, path+"[]", at, seen)
	case VMap:
		if it.decide(x.nil) || x.obj == 0 {
			return []keyedLeaf{{path + "{}", false, lc(0)}}
		}
		o := it.obj(x.obj)
		i := it.mapCell(o, VInt{key})
		c := it.obj(x.obj).cells[i]
		if !it.decide(c.present) {
			return []keyedLeaf{{path + "{}", false, lc(0)}}
		}
		return it.keyedLeaves(c.val, key, path+"{}", at, seen)
	}
	it.undecided(at, "state of a key in a %T", v)
	return nil
}

func (it *Interp) keyedElem(obj int, idx, key Lin, path string, at token.Pos, seen map[int]bool) []keyedLeaf {
	o := it.obj(obj)
	i := it.arrCell(o, VInt{idx})
	return it.keyedLeaves(it.obj(obj).cells[i].val, key, path, at, seen)
}

func keyedStr(l []keyedLeaf) string {
	var b strings.Builder
	for _, x := range l {
		if x.present {
			fmt.Fprintf(&b, " %s:%s", x.path, x.val)
		} else {
			fmt.Fprintf(&b, " %s:absent", x.path)
		}
	}
	return b.String()
}

func (it *Interp) keyedEq(a, b []keyedLeaf) *Cond {
	if len(a) != len(b) {
		return condFalse
	}
	r := condTrue
	for i := range a {
		if a[i].path != b[i].path || a[i].present != b[i].present {
			return condFalse
		}
		r = cConj(r, cEqual(a[i].val, b[i].val))
	}
	return r
}

func keyedIntrinsics(c *Check, m map[string]model) {
	m["zpvFor"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		p := constStr(a[0], it)
		return vbool(p == c.prop || p == c.prop+" "+it.rule)
	}
	// zpvKeep remembers what is stored for a key.
	m["zpvKeep"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		it.st.ghost["keyed:"+constStr(a[0], it)] = it.keyedLeaves(a[1], asLin(a[2]), "", at, map[int]bool{})
		return nil
	}
	// zpvAssertKept(what, name, alternatives...): the same is stored as in one of
	// the alternatives.
	m["zpvAssertKept"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[0], it))
		if !ok {
			return nil
		}
		cur, _ := it.st.ghost["keyed:"+constStr(a[1], it)].([]keyedLeaf)
		r, str := condFalse, ""
		alts := a[2].(VSlice)
		for i := int64(0); i < alts.len.c.Int64(); i++ {
			ci := it.arrCell(it.obj(alts.obj), VInt{alts.off.addc(i)})
			n := constStr(it.obj(alts.obj).cells[ci].val, it)
			alt, _ := it.st.ghost["keyed:"+n].([]keyedLeaf)
			r = cDisj(r, it.keyedEq(cur, alt))
			str += " or" + keyedStr(alt)
		}
		if len(cur) == 0 {
			r = condFalse
		}
		if it.quiet == 0 {
			it.obls++
		}
		if it.entails(r) || it.decide(r) {
			if it.quiet == 0 {
				it.discharged++
			}
			return nil
		}
		it.reportAt("assert", at, what, fmt.Sprintf("%s: stored is%s instead of%s", what, keyedStr(cur), strings.TrimPrefix(str, " or")))
		return nil
	}
}

var _ ssa.Value
