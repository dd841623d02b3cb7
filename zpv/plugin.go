package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: the main functions of the plugins. All functions outside of the cmd
// packages are uninterpreted: their results are unknown, every error may or may
// not be nil. The trace of the calls is judged where the process ends.

type extCall struct {
	name string
	args []Val // flattened: also the elements of argument lists
	top  []Val
	rets []Val
	at   token.Pos
	log  int // events before the call
}

type pluginSpec struct {
	dir  string
	text bool // writes the text form to standard error instead of a response
}

var plugins = []pluginSpec{{"cmd/protoc-gen-zeropb", false}, {"cmd/protoc-gen-text", true}}

const protoPkg = "github.com/golang/protobuf/proto."

func (c *Check) pluginRules() {
	seen := map[string]bool{}
	for _, p := range plugins {
		p := p
		seen[c.ld.mod+"/"+p.dir] = true
		c.task(p.dir, func() { c.plugin(p) })
	}
	c.task("output", func() {
		c.contracts = append(c.contracts, "output")
		for path, pkg := range c.ld.ssa {
			if pkg.Pkg.Name() == "main" && strings.HasPrefix(path, c.ld.mod+"/cmd/protoc-gen-") {
				c.oblige(seen[path], "output", "undecided", token.NoPos, path, "plugin "+path+" has no rule")
			}
		}
		c.noOutput()
	})
}

// noOutput requires Generate, and all that it may call in the repository, to
// leave the standard streams and the process alone.
func (c *Check) noOutput() {
	pkg := c.ld.ssa[c.ld.mod+"/"+bindDir]
	if pkg == nil || pkg.Func("Generate") == nil {
		c.fail("output", "undecided", token.NoPos, "Generate", "no function Generate")
		return
	}
	for _, fn := range c.reachable(pkg.Func("Generate")) {
		c.funcs[fnName(fn)]++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				bad := ""
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Global:
						if s := x.String(); s == "os.Stdout" || s == "os.Stdin" {
							bad = s
						}
					case *ssa.Function:
						switch s := x.String(); s {
						case "fmt.Print", "fmt.Printf", "fmt.Println", "os.Exit", "syscall.Exit", "os.NewFile":
							bad = s
						}
					}
				}
				c.oblige(bad == "", "output", "stream", in.Pos(), fnName(fn)+" "+bad, fmt.Sprintf("%s uses %s", fnName(fn), bad))
			}
		}
	}
}

// reachable returns the functions of the repository that f may call: those it
// refers to, and for calls through interfaces all methods with the name.
func (c *Check) reachable(f *ssa.Function) []*ssa.Function {
	methods := map[string][]*ssa.Function{}
	for _, pkg := range c.ld.ssa {
		for fn := range c.allFunctions(pkg) {
			if fn.Signature.Recv() != nil {
				methods[fn.Name()] = append(methods[fn.Name()], fn)
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if x, ok := (*op).(*ssa.Function); ok {
						add(x)
					}
				}
				if cl, ok := in.(ssa.CallInstruction); ok && cl.Common().IsInvoke() {
					for _, m := range methods[cl.Common().Method.Name()] {
						add(m)
					}
				}
			}
		}
	}
	add(f)
	sort.Slice(r, func(i, j int) bool { return fnName(r[i]) < fnName(r[j]) })
	return r
}

// allFunctions returns the functions, methods and closures of a package.
func (c *Check) allFunctions(pkg *ssa.Package) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || r[f] || strings.HasPrefix(f.Name(), "zpv") {
			return
		}
		r[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range pkg.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := c.ld.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := c.ld.prog.MethodValue(ms.At(i)); f != nil && f.Pkg == pkg {
						add(f)
					}
				}
			}
		}
	}
	return r
}

func (c *Check) plugin(p pluginSpec) {
	pkg := c.ld.ssa[c.ld.mod+"/"+p.dir]
	if pkg == nil || pkg.Func("main") == nil {
		c.fail(p.dir, "undecided", token.NoPos, p.dir, "no main function")
		return
	}
	c.contracts = append(c.contracts, p.dir)
	it := c.newInterp(p.dir)
	r := &pluginRun{c: c, p: p, it: it, pkg: pkg}
	for _, n := range []string{"errors.New", "fmt.Errorf", "fmt.Sprintf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf",
		"github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack"} {
		delete(it.models, n) // they are part of the trace
	}
	it.external = r.external
	it.onCall = func(fr *Frame, fn *ssa.Function, args []Val, at token.Pos) (Val, bool) {
		if fn.String() != c.ld.mod+"/generate.Generate" {
			return nil, false
		}
		return r.external(fr, fn.String(), fn, fn.Signature, args, at)
	}
	it.onPanic = func(fr *Frame, v Val, at token.Pos) bool {
		r.record("panic", []Val{v}, nil, at)
		r.end(vint(2), at)
		return true
	}
	for _, fn := range c.reachable(pkg.Func("main")) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if x, ok := (*op).(*ssa.Builtin); ok && x.Name() == "recover" {
						c.fail(p.dir, "undecided", in.Pos(), fnName(fn), "recover is not supported: a panic may be lost")
					}
				}
			}
		}
	}
	c.guard(it, func() {
		it.explore(func() {
			it.call(pkg.Func("main"), nil, nil, token.NoPos)
			r.end(vint(0), pkg.Func("main").Pos())
		})
	})
	c.oblige(r.good > 0, p.dir, "vacuous", pkg.Func("main").Pos(), p.dir, "no path of "+p.dir+" succeeds")
	c.oblige(r.bad > 0, p.dir, "vacuous", pkg.Func("main").Pos(), p.dir+" failures", "no path of "+p.dir+" fails")
	c.cover["paths_that_succeed"] += r.good
	c.cover["paths_that_fail"] += r.bad
}

type pluginRun struct {
	c         *Check
	p         pluginSpec
	it        *Interp
	pkg       *ssa.Package
	good, bad int
}

func (r *pluginRun) trace() []extCall {
	t, _ := r.it.st.ghost["ext"].([]extCall)
	return t
}

func (r *pluginRun) flat(v Val, depth int) []Val {
	out := []Val{v}
	if depth > 3 {
		return out
	}
	switch x := v.(type) {
	case VIface:
		if x.typ != nil {
			out = append(out, r.flat(x.v, depth+1)...)
		}
	case VSlice:
		if x.obj != 0 && r.it.obj(x.obj).kind == oArr {
			for _, cl := range r.it.obj(x.obj).cells {
				out = append(out, r.flat(cl.val, depth+1)...)
			}
		}
	}
	return out
}

func (r *pluginRun) record(name string, args, rets []Val, at token.Pos) {
	t := r.trace()
	cl := extCall{name: name, top: args, rets: rets, at: at, log: len(r.it.st.log)}
	for _, a := range args {
		cl.args = append(cl.args, r.flat(a, 0)...)
	}
	r.it.st.ghost["ext"] = append(t[:len(t):len(t)], cl)
}

func (r *pluginRun) external(fr *Frame, name string, fn *ssa.Function, sig *types.Signature, args []Val, at token.Pos) (Val, bool) {
	it := r.it
	if name == "os.Exit" || name == "syscall.Exit" {
		r.end(args[0], at)
		panic(pathEnd{"exit"})
	}
	if m := it.models[name]; m != nil {
		return nil, false
	}
	n := len(r.trace())
	var rets []Val
	for i := 0; i < sig.Results().Len(); i++ {
		v := it.symbolic(sig.Results().At(i).Type(), fmt.Sprintf("ext%d.%d", n, i))
		switch x := v.(type) {
		case VPtr:
			x.nil = nil
			v = x
		case VIface:
			if !isErrorType(sig.Results().At(i).Type()) || alwaysError[name] {
				x.nil = condFalse
				v = x
			}
		}
		rets = append(rets, v)
	}
	r.record(name, args, rets, at)
	t := r.trace()
	r.havoc(t[len(t)-1].args, n)
	switch {
	case strings.HasPrefix(name, "log.Fatal"), strings.HasPrefix(name, "(*log.Logger).Fatal"):
		r.end(vint(1), at)
		panic(pathEnd{"exit"})
	case strings.HasPrefix(name, "log.Panic"), strings.HasPrefix(name, "(*log.Logger).Panic"):
		r.end(vint(2), at)
		panic(pathEnd{"exit"})
	}
	switch len(rets) {
	case 0:
		return nil, true
	case 1:
		return rets[0], true
	}
	return VTuple(rets), true
}

var alwaysError = map[string]bool{"errors.New": true, "fmt.Errorf": true, "github.com/pkg/errors.New": true, "github.com/pkg/errors.Errorf": true,
	"github.com/pkg/errors.Wrap": true, "github.com/pkg/errors.Wrapf": true, "github.com/pkg/errors.WithStack": true, "errors.Join": true}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// isStream reports whether v is the value of os.Stdin, os.Stdout or os.Stderr.
func (r *pluginRun) isStream(v Val, name string) bool {
	if i, ok := v.(VIface); ok && i.typ != nil {
		v = i.v
	}
	p, ok := v.(VPtr)
	if !ok {
		return false
	}
	id, ok := r.it.st.ghost["glob:os."+name].(int)
	if !ok {
		return false
	}
	g, ok := r.it.obj(id).val.(VPtr)
	return ok && g.obj == p.obj && len(p.path) == 0
}

func (r *pluginRun) uses(cl extCall, stream string) bool {
	for _, a := range cl.args {
		if r.isStream(a, stream) {
			return true
		}
	}
	return false
}

func sameObj(a, b Val) bool {
	unwrap := func(v Val) Val {
		if i, ok := v.(VIface); ok && i.typ != nil {
			return i.v
		}
		return v
	}
	a, b = unwrap(a), unwrap(b)
	switch x := a.(type) {
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x.obj == y.obj && x.obj != 0 && len(x.path) == len(y.path)
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x.obj == y.obj && x.obj != 0
	case VStr:
		y, ok := b.(VStr)
		return ok && x.obj == y.obj && x.obj != 0
	case VIface:
		y, ok := b.(VIface)
		return ok && x.sym != "" && x.sym == y.sym
	}
	return false
}

// derived reports whether v is e or was made from it.
func (r *pluginRun) derived(v, e Val, depth int) bool {
	if sameObj(v, e) {
		return true
	}
	if depth > 6 {
		return false
	}
	for _, cl := range r.trace() {
		for _, x := range cl.rets {
			if sameObj(v, x) {
				for _, a := range cl.args {
					if r.derived(a, e, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (r *pluginRun) toStderr(cl extCall) bool {
	return r.uses(cl, "Stderr") || strings.HasPrefix(cl.name, "log.") || cl.name == "panic"
}

func (r *pluginRun) fail(kind string, at token.Pos, cons, msg string) {
	if t, ok := r.it.st.ghost["trail"].([]string); ok && len(t) > 0 {
		msg += " (on the path " + strings.Join(t, ", ") + ")"
	}
	r.c.fail(r.p.dir, kind, at, cons, msg)
}

func (r *pluginRun) oblige(ok bool, kind string, at token.Pos, cons, msg string) bool {
	r.it.obls++
	if ok {
		r.it.discharged++
		return true
	}
	r.fail(kind, at, cons, msg)
	return false
}

// end judges the trace of a process that ends with the status.
func (r *pluginRun) end(status Val, at token.Pos) {
	it, p := r.it, r.p
	tr := r.trace()
	st := status.(VInt).l
	var failed []extCall
	var errs []Val
	for _, cl := range tr {
		for _, v := range cl.rets {
			e, ok := v.(VIface)
			if !ok || e.nil == nil || alwaysError[cl.name] {
				continue
			}
			switch {
			case it.entails(e.nil):
			case it.entails(cNot(e.nil)):
				failed = append(failed, cl)
				errs = append(errs, e)
			default:
				// The outcome does not influence this path.
				if r.toStderr(cl) && !strings.HasPrefix(cl.name, protoPkg) || strings.HasSuffix(cl.name, ").Close") || strings.HasSuffix(cl.name, ".Error") {
					continue
				}
				r.oblige(false, "error", cl.at, cl.name, "the error of "+cl.name+" is ignored")
				return
			}
		}
	}
	panics := len(tr) > 0 && tr[len(tr)-1].name == "panic"
	if len(failed) > 0 || panics {
		r.bad++
		what := "a panic"
		if len(failed) > 0 {
			what = "a failure of " + failed[0].name
		}
		if !r.oblige(it.entails(cNe(st)), "status", at, what+" status", "the plugin ends with status 0 after "+what) {
			return
		}
		for i, e := range errs {
			ok := false
			for _, cl := range tr {
				if r.toStderr(cl) {
					for _, a := range cl.args {
						ok = ok || r.derived(a, e, 0)
					}
				}
			}
			if len(errs) > 1 && i < len(errs)-1 && r.toStderr(failed[i]) {
				ok = true
			}
			r.oblige(ok, "report", at, what+" report", "the error of "+failed[i].name+" is not written to standard error")
		}
		for _, cl := range tr {
			if r.uses(cl, "Stdout") && !r.isResponse(cl, tr) {
				r.oblige(false, "stdout", cl.at, cl.name, cl.name+" writes something else to standard output")
			}
		}
		return
	}
	if !r.oblige(it.entails(cEq(st)), "status", at, "success status", "the plugin does not end with status 0 after success") {
		return
	}
	r.good++
	for _, cl := range tr {
		if strings.HasPrefix(cl.name, "fmt.Print") {
			r.oblige(false, "stdout", cl.at, cl.name, cl.name+" writes to standard output")
		}
	}
	// request: everything from standard input
	find := func(name string, ok func(cl extCall) bool) *extCall {
		for i := range tr {
			if tr[i].name == name && ok(tr[i]) {
				return &tr[i]
			}
		}
		return nil
	}
	unm := find(protoPkg+"Unmarshal", func(cl extCall) bool { return r.isInput(cl.top[0], tr) })
	if !r.oblige(unm != nil, "dataflow", at, "request", "the request that standard input contains is not parsed") {
		return
	}
	req := unm.top[1]
	r.unmodified(req, *unm, "request")
	outs := 0
	var want *extCall
	if p.text {
		want = find(protoPkg+"MarshalText", func(cl extCall) bool { return r.isStream(cl.top[0], "Stderr") && sameObj(cl.top[1], req) })
		if want == nil {
			for i := range tr {
				if !r.toStderr(tr[i]) {
					continue
				}
				for _, a := range tr[i].args {
					for _, cl := range tr {
						if strings.HasPrefix(cl.name, protoPkg+"MarshalTextString") && len(cl.rets) == 1 && sameObj(cl.rets[0], a) && sameObj(cl.top[0], req) {
							want = &tr[i]
						}
					}
				}
			}
		}
		r.oblige(want != nil, "dataflow", at, "text", "the text form of the request is not written to standard error")
		for _, cl := range tr {
			r.oblige(!r.uses(cl, "Stdout"), "stdout", cl.at, cl.name, cl.name+" writes to standard output")
		}
		return
	}
	gen := find(r.c.ld.mod+"/generate.Generate", func(cl extCall) bool { return sameObj(cl.top[0], req) })
	if !r.oblige(gen != nil, "dataflow", at, "Generate", "Generate is not called with the request") {
		return
	}
	r.unmodified(gen.rets[0], *gen, "response")
	mar := find(protoPkg+"Marshal", func(cl extCall) bool { return sameObj(cl.top[0], gen.rets[0]) })
	if !r.oblige(mar != nil, "dataflow", at, "Marshal", "the response is not serialized") {
		return
	}
	r.unmodified(mar.rets[0], *mar, "serialized response")
	for _, cl := range tr {
		if r.uses(cl, "Stdout") && !strings.HasPrefix(cl.name, "bufio.NewWriter") {
			outs++
			r.oblige(r.isResponse(cl, tr), "stdout", cl.at, cl.name, cl.name+" writes something else to standard output")
		} else if r.isResponseVia(cl, tr) {
			outs++
		}
	}
	r.oblige(outs == 1, "stdout", at, "response", fmt.Sprintf("the response is written %d times", outs))
}

// unmodified requires that the plugin itself does not write to what v refers
// to, or to anything else that it did not make, after the call.
func (r *pluginRun) unmodified(v Val, since extCall, what string) {
	if i, ok := v.(VIface); ok && i.typ != nil {
		v = i.v
	}
	id := 0
	switch x := v.(type) {
	case VPtr:
		id = x.obj
	case VSlice:
		id = x.obj
	}
	for _, e := range r.it.st.log[since.log:] {
		if isWrite(e.kind) && e.obj != 0 && (e.obj == id || r.it.obj(e.obj).pre && e.kind != "globalwrite") {
			r.oblige(false, "dataflow", e.at, what, "the plugin modifies the "+what)
		}
	}
}

// havoc makes what a pointer that is handed to an unknown function refers to
// unknown.
func (r *pluginRun) havoc(args []Val, n int) {
	for i, a := range args {
		if p, ok := a.(VPtr); ok && p.obj != 0 && len(p.path) == 0 {
			o := r.it.obj(p.obj)
			if o.kind == oCell && o.glob == "" && !o.lazy {
				o.val = r.it.symbolic(o.typ, fmt.Sprintf("ext%d.arg%d", n, i))
			}
		}
	}
}

// isInput reports whether v is all of standard input.
func (r *pluginRun) isInput(v Val, tr []extCall) bool {
	for _, cl := range tr {
		switch cl.name {
		case "io/ioutil.ReadAll", "io.ReadAll":
			if sameObj(cl.rets[0], v) {
				return r.isStdin(cl.top[0], tr)
			}
		case "(*bytes.Buffer).Bytes":
			if sameObj(cl.rets[0], v) {
				for _, c2 := range tr {
					if c2.name == "(*bytes.Buffer).ReadFrom" && sameObj(c2.top[0], cl.top[0]) && r.isStdin(c2.top[1], tr) {
						return true
					}
					if c2.name == "io.Copy" && sameObj(c2.top[0], cl.top[0]) && r.isStdin(c2.top[1], tr) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (r *pluginRun) isStdin(v Val, tr []extCall) bool {
	if r.isStream(v, "Stdin") {
		return true
	}
	for _, cl := range tr {
		if strings.HasPrefix(cl.name, "bufio.NewReader") && sameObj(cl.rets[0], v) {
			return r.isStdin(cl.top[0], tr)
		}
	}
	return false
}

// isBytes reports whether v is the serialized response.
func (r *pluginRun) isBytes(v Val, tr []extCall) bool {
	if i, ok := v.(VIface); ok && i.typ != nil {
		v = i.v
	}
	for _, cl := range tr {
		if cl.name == protoPkg+"Marshal" {
			b := cl.rets[0].(VSlice)
			switch x := v.(type) {
			case VSlice:
				if x.obj == b.obj && x.obj != 0 {
					return r.it.entails(cConj(cEqual(x.off, b.off), cEqual(x.len, b.len)))
				}
			case VStr:
				if x.obj != 0 {
					return r.it.seqEqual(r.it.readSeq(x.obj, x.off, x.len), r.it.readSeq(b.obj, b.off, b.len)) == 1
				}
			case VPtr:
				for _, c2 := range tr {
					if (c2.name == "bytes.NewReader" || c2.name == "bytes.NewBuffer" || c2.name == "strings.NewReader") && sameObj(c2.rets[0], v) {
						return r.isBytes(c2.top[0], tr)
					}
				}
			}
		}
	}
	return false
}

// isResponse reports whether the call writes the serialized response to
// standard output and nothing else.
func (r *pluginRun) isResponse(cl extCall, tr []extCall) bool {
	switch cl.name {
	case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "io.Copy":
		return r.isStream(cl.top[0], "Stdout") && r.isBytes(cl.top[1], tr)
	case "(*bytes.Buffer).WriteTo", "(*bytes.Reader).WriteTo", "(*strings.Reader).WriteTo":
		return r.isStream(cl.top[1], "Stdout") && r.isBytes(cl.top[0], tr)
	}
	if strings.HasPrefix(cl.name, "bufio.NewWriter") {
		return true
	}
	if cl.name == "(*os.File).Sync" || cl.name == "(*os.File).Close" {
		return true
	}
	return false
}

// isResponseVia reports whether the call flushes a buffered writer that the
// response and nothing else was written to.
func (r *pluginRun) isResponseVia(cl extCall, tr []extCall) bool {
	if cl.name != "(*bufio.Writer).Flush" {
		return false
	}
	n := 0
	for _, c2 := range tr {
		if strings.HasPrefix(c2.name, "(*bufio.Writer).Write") && sameObj(c2.top[0], cl.top[0]) {
			if !r.isBytes(c2.top[1], tr) {
				return false
			}
			n++
		}
	}
	for _, c2 := range tr {
		if strings.HasPrefix(c2.name, "bufio.NewWriter") && sameObj(c2.rets[0], cl.top[0]) {
			return n == 1 && r.isStream(c2.top[0], "Stdout")
		}
	}
	return false
}
