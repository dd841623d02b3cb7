package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18 and C19: the Go bindings of descriptor.proto and plugin.proto.

// bindFiles are the schemas in the package that the plugins are built on.
var bindFiles = []string{"descriptor.proto", "plugin.proto"}

const bindDir = "generate"

func bindSchema(repo string) (*Schema, error) {
	all := &Schema{}
	for _, f := range bindFiles {
		sc, err := parseProto(filepath.Join(repo, bindDir, f))
		if err != nil {
			return nil, err
		}
		for _, m := range sc.Messages {
			for _, fl := range m.Fields {
				if fl.Type == "" { // declared in the other file
					n := fl.TypName[strings.LastIndex(fl.TypName, ".")+1:]
					full, k := all.resolve("", n)
					if k == "" {
						return nil, fmt.Errorf("%s: unknown type %s", f, fl.TypName)
					}
					fl.Type, fl.TypName = k, "."+full
				} else if fl.Type == "message" || fl.Type == "enum" {
					full, _ := sc.resolve(m.Name, fl.TypName)
					fl.TypName = "." + full
				}
			}
		}
		all.Messages = append(all.Messages, sc.Messages...)
		all.Enums = append(all.Enums, sc.Enums...)
	}
	if len(all.Messages) < 10 {
		return nil, fmt.Errorf("only %d messages in %v", len(all.Messages), bindFiles)
	}
	return all, nil
}

func bindGo(name string) string { return strings.ReplaceAll(strings.TrimPrefix(name, "."), ".", "_") }

// The part of a tag that golang/protobuf goes by.
type bindTag struct {
	wire   string
	number int64
	card   string
	name   string
	packed bool
	other  []string
}

func parseTag(s string) (t bindTag, err error) {
	parts := strings.Split(s, ",")
	if len(parts) < 2 {
		return t, fmt.Errorf("too few parts")
	}
	t.wire = parts[0]
	if t.number, err = strconv.ParseInt(parts[1], 10, 64); err != nil {
		return t, err
	}
	for _, p := range parts[2:] {
		switch {
		case p == "opt" || p == "req" || p == "rep":
			if t.card != "" {
				return t, fmt.Errorf("two labels")
			}
			t.card = p
		case p == "packed":
			t.packed = true
		case strings.HasPrefix(p, "name="):
			t.name = p[5:]
		case strings.HasPrefix(p, "def="):
			return t, nil
		case p == "proto3" || p == "oneof":
			t.other = append(t.other, p)
		}
	}
	return t, nil
}

var bindWire = map[string]string{
	"bool": "varint", "int32": "varint", "int64": "varint", "uint32": "varint", "uint64": "varint", "enum": "varint",
	"sint32": "zigzag32", "sint64": "zigzag64", "fixed32": "fixed32", "sfixed32": "fixed32", "float": "fixed32",
	"fixed64": "fixed64", "sfixed64": "fixed64", "double": "fixed64", "string": "bytes", "bytes": "bytes", "message": "bytes",
}

func bindGoType(f *SField) string {
	t := ""
	switch f.Type {
	case "message":
		t = "*" + bindGo(f.TypName)
	case "enum":
		t = bindGo(f.TypName)
	default:
		t = protoFn[f.Type][1]
	}
	switch {
	case f.Label == "repeated":
		return "[]" + t
	case f.Type == "message" || f.Type == "bytes":
		return t
	}
	return "*" + t
}

func bindTypeStr(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

// bindings compares the struct tags, field types, constants and name tables
// with the declarations.
func (c *Check) bindings() {
	pkg := c.ld.ssa[c.ld.mod+"/"+bindDir]
	if pkg == nil {
		c.fail("bindings", "undecided", token.NoPos, bindDir, "package not found")
		return
	}
	sc, err := bindSchema(*repoDir)
	if err != nil {
		c.fail("bindings", "undecided", token.NoPos, bindDir, err.Error())
		return
	}
	c.contracts = append(c.contracts, "bindings")
	scope := pkg.Pkg.Scope()
	infos := map[*ssa.Global]string{}
	label := map[string]string{"optional": "opt", "required": "req", "repeated": "rep"}
	for _, m := range sc.Messages {
		name := bindGo(m.Name)
		obj, ok := scope.Lookup(name).(*types.TypeName)
		if !c.oblige(ok, "bindings", "binding", token.NoPos, name, "message "+m.Name+" has no Go type") {
			continue
		}
		st, ok := obj.Type().Underlying().(*types.Struct)
		if !c.oblige(ok, "bindings", "binding", obj.Pos(), name, name+" is not a struct") {
			continue
		}
		type fld struct {
			v *types.Var
			t bindTag
		}
		byName := map[string]fld{}
		for i := 0; i < st.NumFields(); i++ {
			tag, ok := reflect.StructTag(st.Tag(i)).Lookup("protobuf")
			v := st.Field(i)
			if !ok {
				c.oblige(!protoFieldLike(v), "bindings", "binding", v.Pos(), name+"."+v.Name(), "field "+v.Name()+" of "+name+" has no protobuf tag")
				continue
			}
			t, err := parseTag(tag)
			if !c.oblige(err == nil, "bindings", "binding", v.Pos(), name+"."+v.Name(), fmt.Sprintf("tag %q: %v", tag, err)) {
				continue
			}
			byName[v.Name()] = fld{v, t}
		}
		for _, f := range m.Fields {
			cons := name + "." + goCamel(f.Name)
			x, ok := byName[goCamel(f.Name)]
			if !c.oblige(ok, "bindings", "binding", obj.Pos(), cons, fmt.Sprintf("field %s of %s is not bound", f.Name, m.Name)) {
				continue
			}
			delete(byName, goCamel(f.Name))
			at := x.v.Pos()
			c.oblige(x.t.number == f.Number, "bindings", "binding", at, cons+" number", fmt.Sprintf("%s is bound to field %d, declared as %d", cons, x.t.number, f.Number))
			c.oblige(x.t.wire == bindWire[f.Type], "bindings", "binding", at, cons+" wire", fmt.Sprintf("%s is bound as %s, a %s is %s", cons, x.t.wire, f.Type, bindWire[f.Type]))
			c.oblige(x.t.card == label[f.Label], "bindings", "binding", at, cons+" label", fmt.Sprintf("%s is bound as %s, declared as %s", cons, x.t.card, f.Label))
			c.oblige(x.t.name == f.Name, "bindings", "binding", at, cons+" name", fmt.Sprintf("%s is bound to the name %s, declared as %s", cons, x.t.name, f.Name))
			c.oblige(x.t.packed == (f.Packed == "true"), "bindings", "binding", at, cons+" packed", fmt.Sprintf("%s: packed is %v in the binding", cons, x.t.packed))
			c.oblige(len(x.t.other) == 0, "bindings", "binding", at, cons+" syntax", fmt.Sprintf("%s: %v in the binding of a proto2 field", cons, x.t.other))
			want := bindGoType(f)
			c.oblige(bindTypeStr(x.v.Type()) == want, "bindings", "binding", at, cons+" type", fmt.Sprintf("%s has type %s, must be %s", cons, bindTypeStr(x.v.Type()), want))
			c.cover["fields_bound"]++
		}
		for n, x := range byName {
			c.oblige(false, "bindings", "binding", x.v.Pos(), name+"."+n, fmt.Sprintf("field %s of %s (number %d) is not declared", n, name, x.t.number))
		}
		c.bindMethods(pkg, obj, infos)
		c.cover["messages_bound"]++
	}
	for _, e := range sc.Enums {
		outer, base := "", bindGo(e.Name)
		if i := strings.LastIndex(e.Name, "."); i >= 0 {
			outer = bindGo(e.Name[:i])
		} else {
			outer = base
		}
		tn, ok := scope.Lookup(base).(*types.TypeName)
		if !c.oblige(ok, "bindings", "binding", token.NoPos, base, "enum "+e.Name+" has no Go type") {
			continue
		}
		b, ok := tn.Type().Underlying().(*types.Basic)
		c.oblige(ok && b.Kind() == types.Int32, "bindings", "binding", tn.Pos(), base, "enum "+base+" is not an int32")
		names, values := map[string]string{}, map[string]string{}
		for _, v := range e.Values {
			cn := outer + "_" + v.Name
			k, ok := scope.Lookup(cn).(*types.Const)
			if !c.oblige(ok, "bindings", "binding", tn.Pos(), cn, "enum value "+v.Name+" of "+e.Name+" has no constant") {
				continue
			}
			c.oblige(types.Identical(k.Type(), tn.Type()), "bindings", "binding", k.Pos(), cn+" type", fmt.Sprintf("%s has type %s", cn, k.Type()))
			n, exact := constant.Int64Val(k.Val())
			c.oblige(exact && n == v.Number, "bindings", "binding", k.Pos(), cn, fmt.Sprintf("%s is %d, declared as %d", cn, n, v.Number))
			if _, dup := names[fmt.Sprint(v.Number)]; !dup {
				names[fmt.Sprint(v.Number)] = v.Name
			}
			values[v.Name] = fmt.Sprint(v.Number)
			c.cover["enum_values_bound"]++
		}
		c.bindTable(base+"_name", names)
		c.bindTable(base+"_value", values)
	}
}

// protoFieldLike reports whether a field without a tag looks like one of the
// message (the others are bookkeeping of golang/protobuf).
func protoFieldLike(v *types.Var) bool {
	return v.Exported() && !strings.HasPrefix(v.Name(), "XXX_")
}

// bindTable compares a map variable that is initialized with a literal.
func (c *Check) bindTable(name string, want map[string]string) {
	p := c.ld.pkgs[c.ld.mod+"/"+bindDir]
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, id := range vs.Names {
					if id.Name != name || i >= len(vs.Values) {
						continue
					}
					lit, ok := vs.Values[i].(*ast.CompositeLit)
					if !ok {
						c.fail("bindings", "undecided", id.Pos(), name, name+" is not a literal")
						return
					}
					got := map[string]string{}
					for _, e := range lit.Elts {
						kv, ok := e.(*ast.KeyValueExpr)
						if !ok {
							continue
						}
						k, v := p.TypesInfo.Types[kv.Key].Value, p.TypesInfo.Types[kv.Value].Value
						if k == nil || v == nil {
							c.fail("bindings", "undecided", e.Pos(), name, "entry of "+name+" is not constant")
							continue
						}
						got[constText(k)] = constText(v)
					}
					var keys []string
					for k := range want {
						keys = append(keys, k)
					}
					for k := range got {
						if _, ok := want[k]; !ok {
							keys = append(keys, k)
						}
					}
					sort.Strings(keys)
					for _, k := range keys {
						c.oblige(got[k] == want[k], "bindings", "binding", id.Pos(), name+"["+k+"]", fmt.Sprintf("%s[%s] is %q, declared as %q", name, k, got[k], want[k]))
					}
					return
				}
			}
		}
	}
	c.fail("bindings", "binding", token.NoPos, name, "no table "+name)
}

func constText(v constant.Value) string {
	if v.Kind() == constant.String {
		return constant.StringVal(v)
	}
	return v.ExactString()
}

// bindMethods checks that the methods that golang/protobuf calls hand the
// message to the table driven coder, with a table of its own.
func (c *Check) bindMethods(pkg *ssa.Package, obj *types.TypeName, infos map[*ssa.Global]string) {
	ptr := types.NewPointer(obj.Type())
	ms := c.ld.prog.MethodSets.MethodSet(ptr)
	find := func(n string) *ssa.Function {
		if sel := ms.Lookup(pkg.Pkg, n); sel != nil {
			return c.ld.prog.MethodValue(sel)
		}
		return nil
	}
	for _, n := range []string{"Marshal", "Unmarshal", "MarshalText", "UnmarshalText", "XXX_WellKnownType", "XXX_MessageName"} {
		f := find(n)
		at := token.NoPos
		if f != nil {
			at = f.Pos()
		}
		c.oblige(f == nil, "bindings", "undecided", at, obj.Name()+"."+n, obj.Name()+" has its own "+n)
	}
	have := 0
	for _, n := range []string{"Unmarshal", "Marshal", "Size"} {
		f := find("XXX_" + n)
		if f == nil {
			continue // then golang/protobuf uses reflection
		}
		have++
		c.bindMethod(obj, f, n, infos)
	}
	f := find("ProtoMessage")
	c.oblige(f != nil && find("String") != nil && find("Reset") != nil, "bindings", "binding", obj.Pos(), obj.Name()+" methods", obj.Name()+" is not a proto.Message")
}

func (c *Check) bindMethod(obj *types.TypeName, f *ssa.Function, n string, infos map[*ssa.Global]string) {
	it := c.newInterp("bindings")
	cons := obj.Name() + "." + f.Name()
	calls := 0
	it.external = func(fr *Frame, name string, fn *ssa.Function, sig *types.Signature, args []Val, at token.Pos) (Val, bool) {
		if name != "(*github.com/golang/protobuf/proto.InternalMessageInfo)."+n {
			return nil, false
		}
		calls++
		self := it.st.ghost["args"].([]Val)
		// receiver: &xxx_messageInfo_T
		p, ok := args[0].(VPtr)
		var g *ssa.Global
		if ok && len(p.path) == 0 {
			for _, m := range f.Pkg.Members {
				if x, is := m.(*ssa.Global); is && it.st.ghost["glob:"+x.String()] == p.obj {
					g = x
				}
			}
		}
		if c.oblige(g != nil, "bindings", "binding", at, cons+" table", cons+" uses a table that is not a variable of the package") {
			o, dup := infos[g]
			c.oblige(!dup || o == obj.Name(), "bindings", "binding", at, cons+" table", fmt.Sprintf("%s and %s share a table", o, obj.Name()))
			infos[g] = obj.Name()
		}
		var msgArg Val
		rest := map[int]Val{} // argument -> parameter
		switch n {
		case "Unmarshal": // (m, b)
			msgArg = args[1]
			rest[2] = self[1]
		case "Marshal": // (b, m, deterministic)
			msgArg = args[2]
			rest[1], rest[3] = self[1], self[2]
		case "Size": // (m)
			msgArg = args[1]
		}
		c.oblige(it.entails(it.sameVal(msgArg, self[0])), "bindings", "binding", at, cons+" message", cons+" hands over another message")
		for i, v := range rest {
			c.oblige(it.entails(it.sameVal(args[i], v)), "bindings", "binding", at, cons+" argument", fmt.Sprintf("%s changes argument %d", cons, i))
		}
		var rets VTuple
		for i := 0; i < sig.Results().Len(); i++ {
			rets = append(rets, it.symbolic(sig.Results().At(i).Type(), fmt.Sprintf("ret%d", i)))
		}
		it.st.ghost["rets"] = rets
		if len(rets) == 1 {
			return rets[0], true
		}
		return rets, true
	}
	c.guard(it, func() {
		it.explore(func() {
			var args []Val
			for i, p := range f.Params {
				if i == 0 {
					o := it.newObj(oCell, "m")
					o.typ, o.lazy, o.pre = p.Type().(*types.Pointer).Elem(), true, true
					args = append(args, VPtr{obj: o.id})
					continue
				}
				args = append(args, it.symbolic(p.Type(), p.Name()))
			}
			it.st.ghost["args"] = args
			r := it.call(f, args, nil, f.Pos())
			rets, ok := it.st.ghost["rets"].(VTuple)
			if !c.oblige(ok, "bindings", "binding", f.Pos(), cons, cons+" does not call the table driven coder") {
				return
			}
			got := VTuple{r}
			if t, ok := r.(VTuple); ok {
				got = t
			}
			for i := range rets {
				c.oblige(it.entails(it.sameVal(got[i], rets[i])), "bindings", "binding", f.Pos(), cons+" result", fmt.Sprintf("%s changes result %d", cons, i))
			}
		})
	})
	c.oblige(calls == 1, "bindings", "binding", f.Pos(), cons, fmt.Sprintf("%s calls the table driven coder %d times", cons, calls))
}

// bindOverlay returns the contracts of the getters and of Reset.
func bindOverlay(repo string) (map[string][]byte, error) {
	sc, err := bindSchema(repo)
	if err != nil {
		return nil, err
	}
	var b strings.Builder
	w := func(f string, a ...interface{}) { fmt.Fprintf(&b, f+"\n", a...) }
	b.WriteString(bindHeader)
	for _, m := range sc.Messages {
		T := bindGo(m.Name)
		w("\nfunc zpvSpecBind_%s_Reset() {", T)
		w("\tm := new(%s)\n\tzpvHavoc(m, \"m\")", T)
		w("\tm.Reset()")
		for _, f := range m.Fields {
			w("\tzpvAssert(m.%s == nil, \"C18: Reset of %s removes %s, so that a request is read into an empty message\")", goCamel(f.Name), T, f.Name)
		}
		w("}")
		for _, f := range m.Fields {
			F := goCamel(f.Name)
			w("\nfunc zpvSpecBind_%s_%s_Get() {", T, F)
			w("\tm := new(%s)\n\tzpvHavoc(m, \"m\")", T)
			w("\twant := m.%s", F)
			w("\tvar none *%s", T)
			w("\tzpvMark()")
			w("\tgot := m.Get%s()", F)
			w("\tgotNone := none.Get%s()", F)
			w("\tzpvAssertPure(\"C19: Get%s of %s modifies the request\")", F, T)
			text := func(s string) string { return fmt.Sprintf("%q", "C19: Get"+F+" of "+T+" "+s) }
			if f.Label == "repeated" || f.Type == "message" || f.Type == "bytes" {
				if f.HasDef && f.Label != "repeated" {
					return nil, fmt.Errorf("%s.%s: default of %s is not supported", T, F, f.Type)
				}
				w("\tzpvAssertSameAny(got, want, %s)", text("returns the field"))
				w("\tzpvAssert(gotNone == nil, %s)", text("returns nil without a message"))
				w("}")
				continue
			}
			def, eq := "", "%s == %s"
			switch f.Type {
			case "bool":
				def = "false"
				if f.HasDef {
					def = f.Default
				}
			case "string":
				def = `""`
				if f.HasDef {
					def = fmt.Sprintf("%q", strings.Trim(f.Default, `"'`))
				}
			case "enum":
				_, e := sc.enumByName(strings.TrimPrefix(f.TypName, "."))
				if e == nil || len(e.Values) == 0 {
					return nil, fmt.Errorf("%s.%s: no enum %s", T, F, f.TypName)
				}
				def = fmt.Sprint(e.Values[0].Number)
				if f.HasDef {
					def = ""
					for _, v := range e.Values {
						if v.Name == f.Default {
							def = fmt.Sprint(v.Number)
						}
					}
				}
			case "float", "double":
				def = "0"
				if f.HasDef {
					def = f.Default
				}
				eq = map[string]string{"float": "math.Float32bits(%s) == math.Float32bits(%s)", "double": "math.Float64bits(%s) == math.Float64bits(%s)"}[f.Type]
			default:
				def = "0"
				if f.HasDef {
					def = f.Default
				}
			}
			assert := func(a, b, what string) {
				if f.Type == "string" {
					w("\tzpvAssertStrEq(%s, %s, %s)", a, b, what)
				} else {
					w("\tzpvAssert("+eq+", %s)", a, b, what)
				}
			}
			w("\tif want != nil {")
			assert("got", "*want", text("returns the field"))
			w("\t} else {")
			assert("got", def, text("returns the default "+strings.Trim(def, `"`)+" if the field is absent"))
			w("\t}")
			assert("gotNone", def, text("returns the default without a message"))
			w("}")
		}
	}
	return map[string][]byte{filepath.Join(repo, bindDir, "zz_zpv_bind.go"): []byte(b.String())}, nil
}

func (sc *Schema) enumByName(n string) (int, *SEnum) {
	for i, e := range sc.Enums {
		if e.Name == n {
			return i, e
		}
	}
	return 0, nil
}

const bindHeader = `package generate

import "math"

func zpvAssume(bool)                                 {}
func zpvAssert(ok bool, what string)                 { panic(what) }
func zpvAssertSameAny(a, b interface{}, what string) { panic(what) }
func zpvAssertStrEq(a, b string, what string)        { panic(what) }
func zpvAssertPure(what string)                      { panic(what) }
func zpvMark()                                       {}
func zpvHavoc(p interface{}, name string)            {}

var _ = math.MaxInt8
`

// bindContracts analyses the contracts of the bindings.
func (c *Check) bindContracts(filter func(name string) bool) {
	pkg := c.ld.ssa[c.ld.mod+"/"+bindDir]
	n := 0
	if pkg != nil {
		var fns []*ssa.Function
		for name, mem := range pkg.Members {
			if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(name, "zpvSpecBind_") && filter(name) {
				fns = append(fns, f)
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
		for _, f := range fns {
			f := f
			n++
			c.task(strings.TrimPrefix(f.Name(), "zpvSpec"), func() { c.contract(f, nil) })
		}
	}
	if n == 0 {
		c.task("bindings", func() { c.fail("bindings", "vacuous", token.NoPos, bindDir, "no contracts of the bindings") })
	}
}
