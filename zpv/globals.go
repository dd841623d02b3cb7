package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// C11: the runtime and the generated code have no mutable package-level state.
// A flow-insensitive, interprocedural taint analysis: which values are addresses
// of, or references into, package-level variables. No function that can run after
// the initialization writes through one of them.

type globals struct {
	c     *Check
	pkgs  map[*ssa.Package]bool
	fns   []*ssa.Function
	taint map[ssa.Value]*ssa.Global
	rets  map[*ssa.Function]map[int]*ssa.Global
	held  map[*ssa.Alloc]*ssa.Global // local variables that hold references
	again bool
	bad   func(ok bool, pos token.Pos, x *ssa.Global, where, how string)
}

const globalsRule = "package-level state"

func (c *Check) packageState() {
	c.contracts = append(c.contracts, globalsRule)
	g := c.globalRefs()
	if g == nil {
		c.fail(globalsRule, "undecided", token.NoPos, "packages", "no package to analyse")
		return
	}
	sites := 0
	for _, fn := range g.fns {
		sites += g.check(fn)
	}
	c.rep.counts["package-level state: functions"] = len(g.fns)
	c.rep.counts["package-level state: writes and calls examined"] = sites
}

// globalRefs computes what refers to package-level variables.
func (c *Check) globalRefs() *globals {
	g := &globals{c: c, pkgs: map[*ssa.Package]bool{}, taint: map[ssa.Value]*ssa.Global{}, rets: map[*ssa.Function]map[int]*ssa.Global{}, held: map[*ssa.Alloc]*ssa.Global{}}
	var prog *ssa.Program
	for path, p := range c.ld.ssa {
		if path == c.ld.mod || strings.HasPrefix(path, c.ld.mod+"/golden/") && strings.HasSuffix(p.Pkg.Name(), "zeropb") {
			g.pkgs[p] = true
			prog = p.Prog
		}
	}
	if prog == nil {
		return nil
	}
	all := ssautil.AllFunctions(prog)
	init := g.initOnly(all)
	for fn := range all {
		if g.mine(fn) && !init[fn] && len(fn.Blocks) > 0 {
			g.fns = append(g.fns, fn)
		}
	}
	for {
		g.again = false
		for _, fn := range g.fns {
			g.flow(fn)
		}
		if !g.again {
			return g
		}
	}
}

// constants are the package-level variables of the runtime, other than errors,
// that have the values from the initialization for ever.
func (c *Check) constants() map[*ssa.Global]bool {
	if c.konst != nil {
		return c.konst
	}
	c.konst = map[*ssa.Global]bool{}
	pkg := c.ld.ssa[c.ld.mod]
	if pkg == nil {
		return c.konst
	}
	for _, m := range pkg.Members {
		if x, ok := m.(*ssa.Global); ok && !strings.Contains(x.Name(), "$") && !strings.HasPrefix(x.Name(), "zpv") {
			if _, ok := x.Type().(*types.Pointer).Elem().Underlying().(*types.Interface); !ok && !token.IsExported(x.Name()) {
				c.konst[x] = true
			}
		}
	}
	if len(c.konst) > 0 {
		g := c.globalRefs()
		g.bad = func(ok bool, _ token.Pos, x *ssa.Global, _, _ string) {
			if !ok {
				delete(c.konst, x)
			}
		}
		for _, fn := range g.fns {
			g.check(fn)
		}
	}
	return c.konst
}

// initConstants gives the constants of the runtime their values.
func (it *Interp) initConstants(c *Check) {
	konst := c.constants()
	if len(konst) == 0 {
		return
	}
	var end *State
	ends := 0
	old := it.onCall
	it.quiet++
	und := it.tryExplore(func() {
		it.initPackage(c.ld.ssa[c.ld.mod], token.NoPos)
		end, ends = it.st, ends+1
	})
	it.quiet--
	it.inInit, it.onCall = false, old
	if und != "" || ends != 1 {
		return
	}
	// What is not constant is unknown.
	for _, m := range c.ld.ssa[c.ld.mod].Members {
		if x, ok := m.(*ssa.Global); ok && !konst[x] {
			delete(end.ghost, "glob:"+x.String())
		}
	}
	for _, o := range end.objs {
		o.pre, o.konst = true, true
	}
	end.log = nil
	it.st = end
}

func (g *globals) mine(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return g.pkgs[fn.Pkg] && !strings.HasPrefix(fn.Name(), "zpv")
}

// initOnly are the functions that run in the initialization only: those to which
// nothing else refers.
func (g *globals) initOnly(all map[*ssa.Function]bool) map[*ssa.Function]bool {
	users := map[*ssa.Function]map[*ssa.Function]bool{}
	for fn := range all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						if users[f] == nil {
							users[f] = map[*ssa.Function]bool{}
						}
						users[f][fn] = true
					}
				}
			}
		}
	}
	r := map[*ssa.Function]bool{}
	for fn := range all {
		if g.mine(fn) && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
			r[fn] = true
		}
	}
	for more := true; more; {
		more = false
		for fn := range all {
			if r[fn] || !g.mine(fn) || token.IsExported(fn.Name()) || fn.Signature.Recv() != nil {
				continue
			}
			ok := len(users[fn]) > 0
			for u := range users[fn] {
				ok = ok && r[u]
			}
			if ok {
				r[fn], more = true, true
			}
		}
	}
	return r
}

func (g *globals) set(v ssa.Value, x *ssa.Global) {
	if x == nil || g.taint[v] != nil || !carries(v.Type()) {
		return
	}
	g.taint[v] = x
	g.again = true
}

// carries is whether a value of the type can refer to memory that can be written.
func carries(t types.Type) bool { return carriesRef(t, map[types.Type]bool{}) }

func carriesRef(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if isErrorType(t) {
		return false
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Signature:
		return false
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if carriesRef(x.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return carriesRef(x.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < x.Len(); i++ {
			if carriesRef(x.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

// of is the package-level variable to which the value refers.
func (g *globals) of(v ssa.Value) *ssa.Global {
	if x, ok := v.(*ssa.Global); ok {
		if g.pkgs[x.Pkg] {
			return x
		}
		return nil
	}
	return g.taint[v]
}

// local is the local variable that the address is in.
func local(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

func (g *globals) callees(call *ssa.CallCommon) []*ssa.Function {
	if f := call.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

func (g *globals) flow(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				g.set(x, g.of(x.X))
			case *ssa.IndexAddr:
				g.set(x, g.of(x.X))
			case *ssa.Field:
				g.set(x, g.of(x.X))
			case *ssa.Index:
				g.set(x, g.of(x.X))
			case *ssa.Slice:
				g.set(x, g.of(x.X))
			case *ssa.Lookup:
				g.set(x, g.of(x.X))
			case *ssa.Extract:
				g.set(x, g.of(x.Tuple))
				if call, ok := x.Tuple.(*ssa.Call); ok {
					for _, f := range g.callees(&call.Call) {
						g.set(x, g.rets[f][x.Index])
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if l := local(x.X); l != nil {
						g.set(x, g.held[l])
					}
					g.set(x, g.of(x.X))
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					g.set(x, g.of(e))
				}
			case *ssa.ChangeType:
				g.set(x, g.of(x.X))
			case *ssa.Convert:
				g.set(x, g.of(x.X))
			case *ssa.ChangeInterface:
				g.set(x, g.of(x.X))
			case *ssa.MakeInterface:
				g.set(x, g.of(x.X))
			case *ssa.SliceToArrayPointer:
				g.set(x, g.of(x.X))
			case *ssa.TypeAssert:
				g.set(x, g.of(x.X))
			case *ssa.Range:
				g.set(x, g.of(x.X))
			case *ssa.Next:
				g.set(x, g.of(x.Iter))
			case *ssa.Store:
				if l := local(x.Addr); l != nil {
					if t := g.of(x.Val); t != nil && g.held[l] == nil && carries(x.Val.Type()) {
						g.held[l] = t
						g.again = true
					}
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					g.set(f.FreeVars[i], g.of(b))
					if l := local(b); l != nil && g.held[l] != nil {
						g.set(f.FreeVars[i], g.held[l])
					}
				}
			case *ssa.Return:
				for i, r := range x.Results {
					if t := g.of(r); t != nil && carries(r.Type()) && g.rets[fn][i] == nil {
						if g.rets[fn] == nil {
							g.rets[fn] = map[int]*ssa.Global{}
						}
						g.rets[fn][i] = t
						g.again = true
					}
				}
			}
			if call, ok := in.(ssa.CallInstruction); ok {
				cc := call.Common()
				for _, f := range g.callees(cc) {
					if g.mine(f) {
						for i, a := range cc.Args {
							if i < len(f.Params) {
								g.set(f.Params[i], g.of(a))
							}
						}
					}
					if v := call.Value(); v != nil {
						if cc.Signature().Results().Len() == 1 {
							g.set(v, g.rets[f][0])
						}
						if !g.mine(f) && passesOn(f) {
							for _, a := range cc.Args {
								g.set(v, g.of(a))
							}
						}
					}
				}
				if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					g.set(call.Value(), g.of(cc.Args[0]))
				}
			}
		}
	}
}

// passesOn is whether a function outside of the packages can return a reference
// that it is given.
func passesOn(f *ssa.Function) bool {
	p := pkgPath(f)
	return p == "bytes" || p == "sort" || p == "slices" || p == "maps"
}

func pkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// readsOnly is whether a function outside of the packages does not write to what
// its arguments refer to, or synchronizes the writes.
func readsOnly(f *ssa.Function) bool {
	switch p := pkgPath(f); p {
	case "sync", "sync/atomic", "math", "math/bits", "bytes", "strings", "errors", "unicode/utf8", "strconv", "fmt":
		return !strings.HasPrefix(f.Name(), "Fscan") && !strings.HasPrefix(f.Name(), "Fprint") && !strings.HasPrefix(f.Name(), "Sscan") && !(p == "bytes" && f.Signature.Recv() != nil && !strings.HasPrefix(f.Name(), "Len")) && !(p == "strconv" && strings.HasPrefix(f.Name(), "Append"))
	case "encoding/binary":
		n := f.Name()
		return !strings.HasPrefix(n, "Put") && !strings.HasPrefix(n, "Append") && n != "Read" && n != "Write"
	}
	return false
}

func (g *globals) check(fn *ssa.Function) int {
	n := 0
	bad := func(ok bool, in ssa.Instruction, x *ssa.Global, how string) {
		n++
		pos := in.Pos()
		if !pos.IsValid() {
			pos = fn.Pos()
		}
		if g.bad != nil {
			g.bad(ok, pos, x, fnName(fn), how)
			return
		}
		name := ""
		if x != nil {
			name = x.Name()
		}
		g.c.oblige(ok, globalsRule, "effect", pos, fnName(fn)+" "+name, fmt.Sprintf("%s %s the package-level variable %s, which every message shares", fnName(fn), how, name))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				t := g.of(x.Addr)
				bad(t == nil, x, t, "writes to")
				if v := g.of(x.Val); v != nil && t == nil && carries(x.Val.Type()) && local(x.Addr) == nil {
					bad(false, x, v, "stores a reference into")
				}
			case *ssa.MapUpdate:
				t := g.of(x.Map)
				bad(t == nil, x, t, "writes to")
			case *ssa.Send:
				t := g.of(x.Chan)
				bad(t == nil, x, t, "sends to")
			}
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := call.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "copy", "append", "delete", "clear":
					t := g.of(cc.Args[0])
					bad(t == nil, in, t, "writes to")
				}
				continue
			}
			fs := g.callees(cc)
			for _, a := range cc.Args {
				t := g.of(a)
				if t == nil || !carries(a.Type()) {
					continue
				}
				if len(fs) == 0 {
					bad(false, in, t, "hands to a function that is not known")
				}
				for _, f := range fs {
					bad(g.mine(f) || readsOnly(f), in, t, "hands to "+f.String())
				}
			}
		}
	}
	return n
}
