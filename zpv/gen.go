package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of generated code, made from the schema. The runtime's functions
// are uninterpreted in them: calls are recorded, and return unknown results.

// protoFn is the encoding of a type: the suffix of the runtime functions and
// the Go type. This is the independent statement of what is expected.
var protoFn = map[string][2]string{
	"bool": {"Bool", "bool"}, "int32": {"Int32", "int32"}, "int64": {"Int64", "int64"},
	"uint32": {"Uint32", "uint32"}, "uint64": {"Uint64", "uint64"},
	"sint32": {"ZigZagInt32", "int32"}, "sint64": {"ZigZagInt64", "int64"},
	"fixed32": {"FixedUint32", "uint32"}, "fixed64": {"FixedUint64", "uint64"},
	"sfixed32": {"FixedInt32", "int32"}, "sfixed64": {"FixedInt64", "int64"},
	"float": {"Float32", "float32"}, "double": {"Float64", "float64"},
	"string": {"String", "string"}, "bytes": {"Bytes", "[]byte"},
	"enum": {"Uint32", "uint32"},
}

var genUnknown = map[string]string{"bool": "zpvBool", "int32": "zpvI32", "int64": "zpvI64", "uint32": "zpvU32", "uint64": "zpvU64",
	"float32": "zpvF32", "float64": "zpvF64", "string": "zpvString", "[]byte": "zpvBytes"}

// GMessage is a message of a schema with the names in Go.
type GMessage struct {
	Go     string
	Fields []GField
	Max    int64
}

type GField struct {
	Go     string
	Number int64
	Label  string
	Type   string
	Sub    string // Go type of a message field
}

func goSchema(sc *Schema) ([]GMessage, error) {
	var r []GMessage
	for _, m := range sc.Messages {
		if strings.Contains(m.Name, ".") {
			return nil, fmt.Errorf("%s: nested message %s is not supported", sc.File, m.Name)
		}
		g := GMessage{Go: m.Name}
		for _, f := range m.Fields {
			gf := GField{goCamel(f.Name), f.Number, f.Label, f.Type, ""}
			if f.Type == "message" {
				n, _ := sc.resolve(m.Name, f.TypName)
				gf.Sub = n
			} else if f.Type == "" {
				return nil, fmt.Errorf("%s: unknown type %s", sc.File, f.TypName)
			}
			if f.Number > g.Max {
				g.Max = f.Number
			}
			g.Fields = append(g.Fields, gf)
		}
		r = append(r, g)
	}
	return r, nil
}

const genHeader = `package %s

import (
	"math"

	"github.com/danhhz/zeropb"
)

func zpvU64(name string) uint64     { panic(name) }
func zpvI64(name string) int64      { panic(name) }
func zpvU32(name string) uint32     { panic(name) }
func zpvI32(name string) int32      { panic(name) }
func zpvInt(name string) int        { panic(name) }
func zpvBool(name string) bool      { panic(name) }
func zpvF32(name string) float32    { panic(name) }
func zpvF64(name string) float64    { panic(name) }
func zpvBytes(name string) []byte   { panic(name) }
func zpvString(name string) string  { panic(name) }

func zpvAssume(bool)                                 {}
func zpvAssert(ok bool, what string)                 { panic(what) }
func zpvAssertSame(a, b []byte, what string)         { panic(what) }
func zpvAssertSameStr(a, b string, what string)      { panic(what) }
func zpvAssertSameErr(a, b interface{}, what string) { panic(what) }
func zpvAssertPure(what string)                      { panic(what) }
func zpvAssertNoAlloc(what string)                   { panic(what) }
func zpvMark()                                       {}
func zpvInitPkg()                                       {}
func zpvExpectPanic()                                {}

// zpvHavoc makes *p unknown.
func zpvHavoc(p interface{}, name string) {}

// The message bytes, the index, and the number of elements of the array of the
// generated struct that m points at.
func zpvBuf(m interface{}) []byte           { panic(m) }
func zpvBufPtr(m interface{}) *[]byte       { panic(m) }
func zpvIndexOf(m interface{}) zeropb.Offsets { panic(m) }
func zpvRoom(m interface{}) int             { panic(m) }
func zpvBytesOf(p interface{}) []byte       { panic(p) }

// Calls of the runtime since the mark.
func zpvCalls() int                                                   { panic(0) }
func zpvAssertCall(i int, fn, what string, args ...interface{})       { panic(what) }
func zpvArg(i, j int) interface{}                                     { panic(i) }
func zpvRet(i, j int) interface{}                                     { panic(i) }

var _ = math.MaxInt8
`

// genSpec writes the contracts of the messages. unique makes their names
// different from those of other packages.
func genSpec(pkg, unique string, msgs []GMessage) string {
	var b strings.Builder
	w := func(f string, a ...interface{}) { fmt.Fprintf(&b, f+"\n", a...) }
	fmt.Fprintf(&b, genHeader, pkg)
	for _, m := range msgs {
		T := m.Go
		begin := func(name string) {
			w("\nfunc zpvSpecGen_%s_%s_%s() {", unique, T, name)
			w("\tm := new(%s)", T)
			w("\tzpvHavoc(m, \"m\")")
			w("\toff := zpvIndexOf(m)\n\t_ = off")
		}
		end := func() { w("}") }

		begin("Meta")
		w("\tzpvAssert(zpvRoom(m) > %d, \"C14/C15: the index of %s has room for field %d\")", m.Max, T, m.Max)
		end()

		begin("Encode")
		w("\twant := zpvBuf(m)")
		w("\tzpvMark()")
		w("\tgot := m.Encode()")
		w("\tzpvAssertPure(\"C11/C20: Encode of %s modifies memory\")", T)
		w("\tzpvAssertNoAlloc(\"C13: Encode of %s allocates\")", T)
		w("\tzpvAssertSame(got, want, \"C20/C15: Encode of %s returns the message\")", T)
		end()

		begin("Decode")
		w("\tin := zpvBytes(\"in\")")
		w("\tzpvInitPkg()")
		w("\tzpvMark()")
		w("\terr := m.Decode(in)")
		w("\tzpvAssert(zpvCalls() == 1, \"C14/C15/C20: Decode of %s indexes the message once\")", T)
		w("\tzpvAssertCall(0, \"Decode\", \"C14/C15/C20: Decode of %s indexes the given bytes in its own index\", in, off)", T)
		w("\tzpvAssertSameErr(err, zpvRet(0, 0), \"C20/C15: Decode of %s returns the error\")", T)
		w("\tzpvAssertSame(zpvBuf(m), in, \"C20/C15: Decode of %s makes the given bytes the message\")", T)
		w("\trep := zpvArg(0, 2).(zeropb.RepeatedFields)")
		if len(m.Fields) == 0 {
			w("\t_ = rep")
		}
		for _, f := range m.Fields {
			not := "!"
			if f.Label == "repeated" {
				not = ""
			}
			w("\t{\n\t\t_, ok := rep[%d]\n\t\tzpvAssert(%sok, \"C14/C15/C03: %s of %s is %s\")\n\t}", f.Number, not, f.Go, T, f.Label)
		}
		end()

		begin("Reset")
		w("\tin := zpvBytes(\"in\")")
		w("\tzpvAssume(len(in) == 0)")
		w("\tg := zpvInt(\"g\")")
		w("\tzpvAssume(0 <= g && g < zpvRoom(m))")
		w("\tm.Reset(in)")
		w("\t_, ok := off.Get(g)")
		w("\tzpvAssert(!ok, \"C20/C15: every field is absent after Reset of %s\")", T)
		w("\tzpvAssert(len(zpvBuf(m)) == 0, \"C20/C15: the encoding is empty after Reset of %s\")", T)
		w("\tzpvAssert(cap(zpvBuf(m)) == cap(in), \"C20/C15: Reset of %s uses the capacity of the buffer\")", T)
		w("\tzpvAssertSame(zpvBuf(m), in, \"C20/C15: Reset of %s uses the buffer\")", T)
		end()

		begin("ResetPanic")
		w("\tin := zpvBytes(\"in\")")
		w("\tzpvAssume(len(in) > 0)")
		w("\tzpvExpectPanic()")
		w("\tm.Reset(in)")
		w("\tzpvAssert(false, \"C20/C15: ~Reset of %s panics if the buffer is not empty\")", T)
		end()

		for _, f := range m.Fields {
			if f.Label == "repeated" && f.Type != "message" {
				continue // not supported by the generator
			}
			switch {
			case f.Label == "repeated":
				begin(f.Go + "_Iter")
				w("\tzpvMark()")
				w("\tgot := m.%s()", f.Go)
				w("\tzpvAssertPure(\"C11/C14: %s of %s modifies memory\")", f.Go, T)
				w("\tzpvAssertNoAlloc(\"C13: %s of %s allocates\")", f.Go, T)
				w("\tzpvAssert(zpvCalls() == 1, \"C10/C14/C15: %s of %s finds the field once\")", f.Go, T)
				w("\tzpvAssertCall(0, \"GetRepeatedNonPacked\", \"C10/C14/C15: %s of %s begins at the first element of field %d\", zpvBuf(m), off, %d)", f.Go, T, f.Number, f.Number)
				w("\tzpvAssertSame(zpvBytesOf(&got), zpvRet(0, 0).([]byte), \"C10/C14/C15: %s of %s is an iterator at the first element\")", f.Go, T)
				end()

				begin(f.Go + "_Next")
				w("\ti := m.%s()", f.Go)
				w("\tzpvHavoc(&i, \"i\")")
				w("\tat := zpvBytesOf(&i)")
				w("\tx := new(%s)", f.Sub)
				w("\tzpvHavoc(x, \"x\")")
				w("\tzpvMark()")
				w("\tok, err := i.Next(x)")
				w("\tzpvAssertCall(0, \"FindNextField\", \"C10/C14/C15: Next of %s of %s looks for field %d where the iterator is\", at, %d)", f.Go, T, f.Number, f.Number)
				w("\tzpvAssertSame(zpvBytesOf(&i), zpvRet(0, 0).([]byte), \"C10/C14/C15: the iterator of %s of %s moves to the next element\")", f.Go, T)
				w("\tmsg := zpvRet(0, 1).([]byte)")
				w("\tif msg == nil {")
				w("\t\tzpvAssert(!ok, \"C10/C14/C15: Next of %s of %s reports the end\")", f.Go, T)
				w("\t\tzpvAssert(err == nil, \"C10/C14/C15: the end of %s of %s is not an error\")", f.Go, T)
				w("\t\tzpvAssert(zpvCalls() == 1, \"C10/C14/C15: nothing is decoded at the end of %s of %s\")", f.Go, T)
				w("\t\treturn\n\t}")
				w("\tzpvAssert(ok, \"C10/C14/C15: Next of %s of %s reports an element\")", f.Go, T)
				w("\tzpvAssert(zpvCalls() == 2, \"C10/C14/C15: an element of %s of %s is decoded once\")", f.Go, T)
				w("\tzpvAssertCall(1, \"Decode\", \"C10/C14/C15: Next of %s of %s decodes the element\", msg, zpvIndexOf(x))", f.Go, T)
				w("\tzpvAssertSameErr(err, zpvRet(1, 0), \"C10/C14/C15: Next of %s of %s returns the error\")", f.Go, T)
				w("\tif err == nil {")
				w("\t\tzpvAssertSame(zpvBuf(x), msg, \"C10/C14/C15: Next of %s of %s returns the element\")", f.Go, T)
				w("\t}")
				end()

				begin(f.Go + "_Append")
				w("\tx := new(%s)", f.Sub)
				w("\tzpvHavoc(x, \"x\")")
				w("\tval := zpvBuf(x)")
				w("\tzpvMark()")
				w("\tm.AppendTo%s(*x)", f.Go)
				w("\tzpvAssertPure(\"C14/C15: AppendTo%s of %s modifies other memory\")", f.Go, T)
				w("\tzpvAssertNoAlloc(\"C13: AppendTo%s of %s allocates\")", f.Go, T)
				w("\tzpvAssert(zpvCalls() == 1, \"C10/C14/C15: AppendTo%s of %s appends once\")", f.Go, T)
				w("\tzpvAssertCall(0, \"AppendBytes\", \"C10/C14/C15: AppendTo%s of %s appends the encoding of the message to field %d\", zpvBufPtr(m), off, %d, val)", f.Go, T, f.Number, f.Number)
				end()

			case f.Type == "message":
				begin(f.Go + "_Get")
				w("\tx := new(%s)", f.Sub)
				w("\tzpvHavoc(x, \"x\")")
				w("\told := zpvBuf(m)")
				w("\tzpvMark()")
				w("\tok, err := m.%s(x)", f.Go)
				w("\tzpvAssertCall(0, \"GetBytes\", \"C14/C15: %s of %s reads field %d as bytes\", old, off, %d)", f.Go, T, f.Number, f.Number)
				w("\tval := zpvRet(0, 0).([]byte)")
				w("\tif val == nil {")
				w("\t\tzpvAssert(!ok, \"C14/C15: %s of %s reports that the field is absent\")", f.Go, T)
				w("\t\tzpvAssert(err == nil, \"C14/C15: an absent %s of %s is not an error\")", f.Go, T)
				w("\t\tzpvAssert(zpvCalls() == 1, \"C14/C15: an absent %s of %s is not decoded\")", f.Go, T)
				w("\t\tzpvAssertPure(\"C14/C15/C11: %s of %s modifies memory\")", f.Go, T)
				w("\t\treturn\n\t}")
				w("\tzpvAssert(ok, \"C14/C15: %s of %s reports that the field is present\")", f.Go, T)
				w("\tzpvAssert(zpvCalls() == 2, \"C14/C15: %s of %s is decoded once\")", f.Go, T)
				w("\tzpvAssertCall(1, \"Decode\", \"C14/C15: %s of %s decodes the field\", val, zpvIndexOf(x))", f.Go, T)
				w("\tzpvAssertSameErr(err, zpvRet(1, 0), \"C14/C15: %s of %s returns the error\")", f.Go, T)
				w("\tif err == nil {")
				w("\t\tzpvAssertSame(zpvBuf(x), val, \"C14/C15: %s of %s returns the field\")", f.Go, T)
				w("\t}")
				w("\tzpvAssertSame(zpvBuf(m), old, \"C11/C14/C15: %s of %s leaves the outer message as it is\")", f.Go, T)
				end()

				begin(f.Go + "_Set")
				w("\tx := new(%s)", f.Sub)
				w("\tzpvHavoc(x, \"x\")")
				w("\tval := zpvBuf(x)")
				w("\tzpvMark()")
				w("\tm.Set%s(*x)", f.Go)
				w("\tzpvAssertPure(\"C14/C15: Set%s of %s modifies other memory\")", f.Go, T)
				w("\tzpvAssertNoAlloc(\"C13: Set%s of %s allocates\")", f.Go, T)
				w("\tzpvAssert(zpvCalls() == 1, \"C14/C15: Set%s of %s sets once\")", f.Go, T)
				w("\tzpvAssertCall(0, \"SetBytes\", \"C14/C15: Set%s of %s writes the encoding of the message to field %d\", zpvBufPtr(m), off, %d, val)", f.Go, T, f.Number, f.Number)
				end()

			default:
				fn, goType := protoFn[f.Type][0], protoFn[f.Type][1]
				begin(f.Go + "_Get")
				w("\tzpvMark()")
				w("\tgot := m.%s()", f.Go)
				w("\tzpvAssertPure(\"C11/C14: %s of %s modifies memory\")", f.Go, T)
				w("\tzpvAssertNoAlloc(\"C13: %s of %s allocates\")", f.Go, T)
				w("\tzpvAssert(zpvCalls() == 1, \"C14/C15: %s of %s reads one field\")", f.Go, T)
				w("\tzpvAssertCall(0, \"Get%s\", \"C14/C15: %s of %s reads field %d as %s\", zpvBuf(m), off, %d)", fn, f.Go, T, f.Number, f.Type, f.Number)
				w("\tvar want %s = zpvRet(0, 0).(%s)", goType, goType)
				what := fmt.Sprintf("C14/C15: %s of %s returns the value", f.Go, T)
				switch goType {
				case "[]byte":
					w("\tzpvAssertSame(got, want, %q)", what)
				case "string":
					w("\tzpvAssertSameStr(got, want, %q)", what)
				case "float32":
					w("\tzpvAssert(math.Float32bits(got) == math.Float32bits(want), %q)", what)
				case "float64":
					w("\tzpvAssert(math.Float64bits(got) == math.Float64bits(want), %q)", what)
				default:
					w("\tzpvAssert(got == want, %q)", what)
				}
				end()

				begin(f.Go + "_Set")
				w("\tx := %s(\"x\")", genUnknown[goType])
				w("\tzpvMark()")
				w("\tm.Set%s(x)", f.Go)
				w("\tzpvAssertPure(\"C14/C15: Set%s of %s modifies other memory\")", f.Go, T)
				w("\tzpvAssertNoAlloc(\"C13: Set%s of %s allocates\")", f.Go, T)
				w("\tzpvAssert(zpvCalls() == 1, \"C14/C15: Set%s of %s sets once\")", f.Go, T)
				w("\tzpvAssertCall(0, \"Set%s\", \"C14/C15: Set%s of %s writes the value to field %d as %s\", zpvBufPtr(m), off, %d, x)", fn, f.Go, T, f.Number, f.Type, f.Number)
				end()
			}
		}
	}
	return b.String()
}

// goldenSchemas returns the schemas that are checked in with the code that was
// generated from them: golden/X.proto and golden/Xzeropb.
func goldenSchemas(repo string) (map[string]*Schema, error) {
	files, err := filepath.Glob(filepath.Join(repo, "golden", "*.proto"))
	if err != nil {
		return nil, err
	}
	r := map[string]*Schema{}
	for _, f := range files {
		sc, err := parseProto(f)
		if err != nil {
			return nil, err
		}
		r[strings.TrimSuffix(filepath.Base(f), ".proto")+"zeropb"] = sc
	}
	if len(r) == 0 {
		return nil, fmt.Errorf("no golden schemas")
	}
	return r, nil
}

// goldenOverlay returns the contracts of the checked-in generated code.
func goldenOverlay(repo string) (map[string][]byte, error) {
	scs, err := goldenSchemas(repo)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for name, sc := range scs {
		msgs, err := goSchema(sc)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repo, "golden", name, "zz_zpv_gen.go")] = []byte(genSpec(name, name, msgs))
	}
	return ov, nil
}

// ---------------------------------------------------------------------------

// A rtCall is a call of the runtime in generated code.
type rtCall struct {
	fn   string
	args []Val
	rets []Val
}

func isRuntimeFn(n string) bool {
	return strings.HasPrefix(n, "Get") || strings.HasPrefix(n, "Set") || n == "AppendBytes" || n == "FindNextField" || n == "Decode"
}

// opaqueRuntime makes the calls of runtime functions from generated code
// uninterpreted.
func (c *Check) opaqueRuntime(it *Interp) {
	it.onCall = func(fr *Frame, fn *ssa.Function, args []Val, at token.Pos) (Val, bool) {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != c.ld.mod || fn.Signature.Recv() != nil || !isRuntimeFn(fn.Name()) {
			return nil, false
		}
		calls, _ := it.st.ghost["rtcalls"].([]rtCall)
		n := len(calls)
		cl := rtCall{fn: fn.Name(), args: args}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			cl.rets = append(cl.rets, it.symbolic(res.At(i).Type(), fmt.Sprintf("ret%d.%d", n, i)))
		}
		it.st.ghost["rtcalls"] = append(calls[:n:n], cl)
		switch len(cl.rets) {
		case 0:
			return nil, true
		case 1:
			return cl.rets[0], true
		}
		return VTuple(cl.rets), true
	}
	it.onPanic = func(fr *Frame, v Val, at token.Pos) bool {
		if it.st.ghost["panicok"] == true {
			it.panicked++
			return true
		}
		return false
	}
}

func (it *Interp) rtCallsSince() []rtCall {
	calls, _ := it.st.ghost["rtcalls"].([]rtCall)
	n, _ := it.st.ghost["rtmark"].(int)
	return calls[n:]
}

// cIff is the condition that a and b are both true or both false.
func cIff(a, b *Cond) *Cond {
	if a == nil {
		a = condFalse
	}
	if b == nil {
		b = condFalse
	}
	if a.key() == b.key() {
		return condTrue
	}
	return cDisj(cConj(a, b), cConj(cNot(a), cNot(b)))
}

// sameVal returns the condition that two values are the same.
func (it *Interp) sameVal(a, b Val) *Cond {
	if i, ok := a.(VIface); ok && i.typ != nil {
		a = i.v
	}
	if i, ok := b.(VIface); ok && i.typ != nil {
		b = i.v
	}
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return cEqual(x.l, y.l)
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			return cIff(x.c, y.c)
		}
	case VFloat:
		if y, ok := b.(VFloat); ok && x.n == y.n {
			return cEqual(x.bits, y.bits)
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			c := cConj(cEqual(x.off, y.off), cEqual(x.len, y.len))
			if x.obj != y.obj {
				c = cConj(cEqual(x.len, lc(0)), cEqual(y.len, lc(0)))
			}
			return cConj(c, cIff(x.nil, y.nil))
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			if x.obj != y.obj {
				return cConj(cEqual(x.len, lc(0)), cEqual(y.len, lc(0)))
			}
			return cConj(cEqual(x.off, y.off), cEqual(x.len, y.len))
		}
	case VPtr:
		if y, ok := b.(VPtr); ok && x.obj == y.obj && len(x.path) == len(y.path) {
			c := cIff(x.nil, y.nil)
			for i := range x.path {
				p, q := x.path[i], y.path[i]
				if (p.idx == nil) != (q.idx == nil) || p.field != q.field {
					return condFalse
				}
				if p.idx != nil {
					c = cConj(c, cEqual(*p.idx, *q.idx))
				}
			}
			return c
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.f) == len(y.f) {
			c := condTrue
			for i := range x.f {
				c = cConj(c, it.sameVal(x.f[i], y.f[i]))
			}
			return c
		}
	case VArr:
		if y, ok := b.(VArr); ok {
			return cBool(x.obj == y.obj)
		}
	case VMap:
		if y, ok := b.(VMap); ok && x.obj == y.obj {
			return cIff(x.nil, y.nil)
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			if x.sym != "" && x.sym == y.sym {
				return condTrue
			}
			return cConj(x.nil, y.nil)
		}
	}
	return condFalse
}

// fieldOf returns the path in t to the only part with a type that ok accepts.
func fieldOf(t types.Type, path []pathElem, ok func(types.Type) bool) [][]pathElem {
	if ok(t) {
		return [][]pathElem{append([]pathElem(nil), path...)}
	}
	s, is := t.Underlying().(*types.Struct)
	if !is {
		return nil
	}
	var r [][]pathElem
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, fieldOf(s.Field(i).Type(), append(path[:len(path):len(path)], pathElem{field: i}), ok)...)
	}
	return r
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func isIndexArray(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && types.Identical(a.Elem().Underlying(), types.Typ[types.Uint16])
}

func isIndexMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (it *Interp) part(v Val, what string, ok func(types.Type) bool, at token.Pos) (VPtr, types.Type) {
	i, is := v.(VIface)
	if is {
		if p, isP := i.v.(VPtr); isP && i.typ != nil {
			t := i.typ.Underlying().(*types.Pointer).Elem()
			ps := fieldOf(t, nil, ok)
			if len(ps) == 1 {
				et := t
				for _, e := range ps[0] {
					et = et.Underlying().(*types.Struct).Field(e.field).Type()
				}
				return VPtr{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], ps[0]...)}, et
			}
			it.undecided(at, "%s has %d parts that could be its %s", t, len(ps), what)
		}
	}
	it.undecided(at, "no message")
	return VPtr{}, nil
}

func genIntrinsics(c *Check, m map[string]model) {
	mark0 := m["zpvMark"]
	m["zpvMark"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		calls, _ := it.st.ghost["rtcalls"].([]rtCall)
		it.st.ghost["rtmark"] = len(calls)
		return mark0(it, fr, a, at)
	}
	m["zpvExpectPanic"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		it.st.ghost["panicok"] = true
		return nil
	}
	m["zpvInitPkg"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		it.initPackage(fr.fn.Pkg, at)
		return nil
	}
	m["zpvHavoc"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		i := a[0].(VIface)
		p := i.v.(VPtr)
		o := it.obj(p.obj)
		o.val = it.symbolic(o.typ, constStr(a[1], it))
		o.pre = true
		return nil
	}
	m["zpvBuf"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		p, t := it.part(a[0], "message bytes", isByteSlice, at)
		return it.load(p, t, at)
	}
	m["zpvBufPtr"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		p, _ := it.part(a[0], "message bytes", isByteSlice, at)
		return p
	}
	m["zpvBytesOf"] = m["zpvBuf"]
	m["zpvRoom"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		_, t := it.part(a[0], "index array", isIndexArray, at)
		return VInt{lc(t.Underlying().(*types.Array).Len())}
	}
	m["zpvIndexOf"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		p, t := it.part(a[0], "index array", isIndexArray, at)
		arr := it.loadObj(it.obj(p.obj), p.path, at).(VArr)
		n := lc(t.Underlying().(*types.Array).Len())
		mp, _ := it.part(a[0], "index map", isIndexMap, at)
		wrap := c.ld.ssa[c.ld.mod].Func("WrapOffsets")
		if wrap == nil {
			it.undecided(at, "no WrapOffsets")
		}
		return it.call(wrap, []Val{VSlice{arr.obj, lc(0), n, n, condFalse}, mp}, nil, at)
	}
	m["zpvCalls"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		return vint(int64(len(it.rtCallsSince())))
	}
	m["zpvAssertCall"] = func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[2], it))
		if !ok {
			return nil
		}
		i := int(a[0].(VInt).l.c.Int64())
		fn := constStr(a[1], it)
		calls := it.rtCallsSince()
		if i >= len(calls) {
			it.count(true)
			it.count(false)
			it.reportAt("assert", at, what, fmt.Sprintf("%s: there is no call of %s", what, fn))
			panic(pathEnd{"violation"})
		}
		if calls[i].fn != fn {
			it.count(true)
			it.count(false)
			it.reportAt("assert", at, what, fmt.Sprintf("%s: calls %s and not %s", what, calls[i].fn, fn))
			panic(pathEnd{"violation"})
		}
		vs := a[3].(VSlice)
		n := 0
		if vs.obj != 0 {
			n = int(vs.len.c.Int64())
		}
		for j := 0; j < n; j++ {
			ci := it.arrCell(it.obj(vs.obj), VInt{vs.off.addc(int64(j))})
			want := it.obj(vs.obj).cells[ci].val
			if j >= len(calls[i].args) {
				it.undecided(at, "%s has %d arguments", fn, len(calls[i].args))
			}
			it.check(it.sameVal(calls[i].args[j], want), "assert", at, fmt.Sprintf("%s (argument %d of %s)", what, j+1, fn))
		}
		return nil
	}
	nth := func(args bool) model {
		return func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
			i, j := int(a[0].(VInt).l.c.Int64()), int(a[1].(VInt).l.c.Int64())
			calls := it.rtCallsSince()
			if i >= len(calls) {
				// Reported by zpvAssertCall of the property that it belongs to.
				panic(pathEnd{"no call"})
			}
			f := c.ld.ssa[c.ld.mod].Func(calls[i].fn)
			vs, tup := calls[i].rets, f.Signature.Results()
			if args {
				vs, tup = calls[i].args, f.Signature.Params()
			}
			if j >= len(vs) {
				panic(pathEnd{"no value"})
			}
			if v, ok := vs[j].(VIface); ok {
				return v
			}
			return VIface{typ: tup.At(j).Type(), v: vs[j], nil: condFalse, conc: true}
		}
	}
	m["zpvArg"] = nth(true)
	m["zpvRet"] = nth(false)
	same := func(it *Interp, fr *Frame, a []Val, at token.Pos) Val {
		what, ok := c.label(constStr(a[2], it))
		if !ok {
			return nil
		}
		it.check(it.sameVal(a[0], a[1]), "assert", at, what)
		return nil
	}
	m["zpvAssertSameStr"] = same
	m["zpvAssertSameErr"] = same
	m["zpvAssertSameAny"] = same
}

// initPackage analyses the initialization of the variables of p.
func (it *Interp) initPackage(p *ssa.Package, at token.Pos) {
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	old := it.onCall
	it.inInit = true
	it.onCall = func(fr *Frame, fn *ssa.Function, args []Val, at token.Pos) (Val, bool) {
		if fn.Name() == "init" && fn.Pkg != p {
			return nil, true
		}
		return nil, false
	}
	it.call(f, nil, nil, at)
	it.inInit = false
	it.onCall = old
}

// genContracts analyses the contracts of the checked-in generated code.
func (c *Check) genContracts(filter func(name string) bool) {
	n := 0
	for _, pkg := range c.ld.ssa {
		var fns []*ssa.Function
		for name, mem := range pkg.Members {
			if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(name, "zpvSpecGen_") && (filter == nil || filter(name)) {
				fns = append(fns, f)
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
		for _, f := range fns {
			f := f
			n++
			c.task(strings.TrimPrefix(f.Name(), "zpvSpec"), func() { c.contract(f, func(it *Interp) { c.opaqueRuntime(it) }) })
		}
	}
	if n == 0 {
		c.task("generated", func() { c.fail("generated", "vacuous", token.NoPos, "golden", "no contracts of generated code") })
	}
}
