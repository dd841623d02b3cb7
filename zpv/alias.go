package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Liveness of SSA values and reachability of objects. An append whose result
// replaces the only reference to the slice need not be analysed separately for
// the case that the array has room and for the case that it has not.

var liveOuts = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}

func liveOut(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if r, ok := liveOuts[fn]; ok {
		return r
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	out := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b], out[b] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			o := out[b]
			n := len(o)
			for _, s := range b.Succs {
				for v := range in[s] {
					o[v] = true
				}
				for j, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						o[ph.Edges[j]] = true
					}
				}
			}
			l := liveBefore(b, nil, o)
			if len(o) != n || len(l) != len(in[b]) {
				changed = true
			}
			in[b] = l
		}
	}
	liveOuts[fn] = out
	return out
}

// liveBefore returns what is live right after instruction at (or at the
// beginning of the block if at is nil).
func liveBefore(b *ssa.BasicBlock, at ssa.Instruction, out map[ssa.Value]bool) map[ssa.Value]bool {
	l := make(map[ssa.Value]bool, len(out))
	for v := range out {
		l[v] = true
	}
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		ins := b.Instrs[i]
		if ins == at {
			return l
		}
		if v, ok := ins.(ssa.Value); ok {
			delete(l, v)
		}
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if _, ok := ins.(*ssa.DebugRef); ok {
			continue
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				l[*op] = true
			}
		}
	}
	return l
}

var liveCache = map[ssa.Instruction]map[ssa.Value]bool{}

func liveAfter(at ssa.Instruction) map[ssa.Value]bool {
	if l, ok := liveCache[at]; ok {
		return l
	}
	b := at.Block()
	l := liveBefore(b, at, liveOut(b.Parent())[b])
	liveCache[at] = l
	return l
}

// unshared reports whether object id is reachable only through the argument of
// the append instruction at and through the variable that its result is stored
// to immediately afterwards.
func (it *Interp) unshared(fr *Frame, at *ssa.Call, id int) bool {
	if it.noMerge {
		return false
	}
	var target *VPtr
	instrs := at.Block().Instrs
	for i, ins := range instrs {
		if ins != ssa.Instruction(at) {
			continue
		}
		for _, nx := range instrs[i+1:] {
			if _, ok := nx.(*ssa.DebugRef); ok {
				continue
			}
			if st, ok := nx.(*ssa.Store); ok && st.Val == ssa.Value(at) {
				if v, ok := fr.env[st.Addr]; ok {
					if p, ok := v.(VPtr); ok {
						target = &p
					}
				}
			}
			break
		}
		break
	}
	seen := map[int]bool{}
	ok := true
	var visit func(v Val)
	var visitObj func(o int)
	var skip []pathElem
	visit = func(v Val) {
		if !ok {
			return
		}
		switch x := v.(type) {
		case nil, VInt, VBool, VFloat, VOpaque:
		case VSlice:
			visitObj(x.obj)
		case VStr:
			visitObj(x.obj)
		case VData:
			visitObj(x.obj)
		case VPtr:
			visitObj(x.obj)
		case VStruct:
			for _, f := range x.f {
				visit(f)
			}
		case VArr:
			visitObj(x.obj)
		case VTuple:
			for _, f := range x {
				visit(f)
			}
		case VIface:
			visit(x.v)
		case VFn:
			for _, f := range x.bind {
				visit(f)
			}
		case VMap:
			visitObj(x.obj)
		case VIter:
			visitObj(x.obj)
		default:
			ok = false
		}
	}
	visitObj = func(n int) {
		if n == id {
			ok = false
		}
		if n == 0 || seen[n] || !ok {
			return
		}
		seen[n] = true
		o := it.st.objs[n]
		if o == nil {
			return
		}
		if o.dflt != nil {
			if _, isBasic := o.typ.Underlying().(*types.Basic); !isBasic {
				ok = false
				return
			}
		}
		v := o.val
		if target != nil && target.obj == n {
			v = without(v, target.path)
		}
		visit(v)
		visit(o.def)
		for _, c := range o.cells {
			visit(c.key)
			visit(c.val)
		}
	}
	_ = skip
	for i, f := range it.stack {
		if len(f.defers) > 0 {
			return false
		}
		pc := f.pc
		if i == len(it.stack)-1 {
			if f != fr {
				return false
			}
			pc = at
		}
		if pc == nil {
			return false
		}
		for v := range liveAfter(pc) {
			if x, has := f.env[v]; has {
				visit(x)
			}
			if x, has := f.next[v]; has {
				visit(x)
			}
			if !ok {
				return false
			}
		}
		for _, fv := range f.fn.FreeVars {
			visit(f.env[fv])
		}
	}
	for k, v := range it.st.ghost {
		switch x := v.(type) {
		case int:
			if k != "iterlog" {
				visitObj(x)
			}
		case Val:
			switch x.(type) {
			case []string, []Lin, []eqAsked, mark, string, bool:
			default:
				visit(x)
			}
		}
	}
	for n, o := range it.st.objs {
		if o.glob != "" {
			visitObj(n)
		}
	}
	return ok
}

// without returns the value with the part at path removed.
func without(v Val, path []pathElem) Val {
	if len(path) == 0 {
		return nil
	}
	s, ok := v.(VStruct)
	if !ok || path[0].idx != nil {
		return v
	}
	n := VStruct{f: append([]Val(nil), s.f...)}
	n.f[path[0].field] = without(s.f[path[0].field], path[1:])
	return n
}
