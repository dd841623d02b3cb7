package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// The rules about the generator. Each scenario is a request of which some parts
// are in focus and everything else is unknown: lists have any number of other
// elements before, between and after the ones in focus, numbers and names are
// unknown. Generate is analysed for it, and the text that it produces for the
// parts in focus, with any names and numbers that the path allows, is type-checked
// and analysed like the checked-in generated code.

type genField struct {
	name  string
	label int64
	typ   int64
	sub   string // message in focus
	num   Lin
}

type genMsg struct {
	name   string // hole
	fields []genField
	others bool // has any number of other fields
}

type genFile struct {
	base      string // hole
	msgs      []genMsg
	others    bool
	requested bool
}

type genScenario struct {
	name      string
	files     []genFile
	others    bool // other files
	nilFile   bool
	nilMsg    bool
	nilField  bool
	absent    bool // optional parts of the others may be absent
	props     string
	noCompile bool
}

var genTypeNames = map[int64]string{1: "double", 2: "float", 3: "int64", 4: "uint64", 5: "int32", 6: "fixed64", 7: "fixed32", 8: "bool",
	9: "string", 11: "message", 12: "bytes", 13: "uint32", 14: "enum", 15: "sfixed32", 16: "sfixed64", 17: "sint32", 18: "sint64"}

var genLabels = map[int64]string{1: "optional", 2: "required", 3: "repeated"}

var genNames = []string{"field", "two_words", "a", "snake_case_9", "UPPER", "camelCase", "x_1_y", "trailing_", "_leading", "double__under", "mixed_Case", "b2b", "type_", "z9", "has_digit1_tail", "Q", "very_long_field_name_with_many_parts"}

func genScenarios() []genScenario {
	var r []genScenario
	sub := genMsg{name: "Sub", fields: []genField{{name: "value", label: 1, typ: 13}}}
	var ts []int64
	for t := range genTypeNames {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	one := func(name string, msgs ...genMsg) genScenario {
		return genScenario{name: name, files: []genFile{{base: "base", msgs: msgs, requested: true}}, props: "C15 C16 C19"}
	}
	for i, t := range ts {
		for l := int64(1); l <= 3; l++ {
			f := genField{name: genNames[(i+int(l)*5)%len(genNames)], label: l, typ: t}
			if t == 11 {
				f.sub = "Sub"
			}
			r = append(r, one("field "+genLabels[l]+" "+genTypeNames[t], genMsg{name: "Msg", fields: []genField{f}, others: true}, sub))
		}
	}
	for i, n := range genNames {
		l := int64(1 + i%2)
		r = append(r, one("name "+n, genMsg{name: "Msg", fields: []genField{{name: n, label: l, typ: 3}}, others: true}, sub))
	}
	two := func(a, b genField) genScenario {
		return one(fmt.Sprintf("fields %s %s and %s %s", genLabels[a.label], genTypeNames[a.typ]+a.sub, genLabels[b.label], genTypeNames[b.typ]+b.sub),
			genMsg{name: "Msg", fields: []genField{a, b}, others: true}, sub, genMsg{name: "Third"})
	}
	r = append(r,
		two(genField{name: "first", label: 3, typ: 11, sub: "Sub"}, genField{name: "second", label: 3, typ: 11, sub: "Sub"}),
		two(genField{name: "first", label: 3, typ: 11, sub: "Sub"}, genField{name: "second", label: 3, typ: 11, sub: "Third"}),
		two(genField{name: "first", label: 3, typ: 11, sub: "Msg"}, genField{name: "second", label: 1, typ: 11, sub: "Msg"}),
		two(genField{name: "first", label: 1, typ: 11, sub: "Sub"}, genField{name: "second", label: 2, typ: 11, sub: "Sub"}),
		two(genField{name: "first", label: 3, typ: 13}, genField{name: "second", label: 1, typ: 13}),
		two(genField{name: "first", label: 1, typ: 9}, genField{name: "second", label: 3, typ: 11, sub: "Third"}),
		two(genField{name: "first", label: 2, typ: 17}, genField{name: "second", label: 1, typ: 8}),
	)
	// Messages.
	m := genMsg{name: "Msg", fields: []genField{{name: "one", label: 1, typ: 5}, {name: "many", label: 3, typ: 11, sub: "Sub"}}}
	for _, ms := range [][]genMsg{{m, sub}, {sub, m}, {m, sub, {name: "Third"}}} {
		n := "messages"
		for _, x := range ms {
			n += " " + x.name
		}
		s := one(n, ms...)
		s.files[0].others = true
		r = append(r, s)
	}
	r = append(r, one("no messages"), one("no fields", genMsg{name: "Msg"}))
	// Files.
	fm := func(n string) []genMsg {
		return []genMsg{{name: n, fields: []genField{{name: "one", label: 1, typ: 5}}}}
	}
	file := func(base string, req bool) genFile {
		return genFile{base: base, msgs: fm("Msg" + base), requested: req}
	}
	fs := func(name string, files ...genFile) genScenario {
		return genScenario{name: name, files: files, others: true, props: "C15 C16 C19"}
	}
	r = append(r, fs("files: requested", file("base", true)), fs("files: not requested", file("base", false)),
		fs("files: two requested", file("base", true), file("second", true)),
		fs("files: one of two", file("base", false), file("second", true)),
		fs("files: none"))
	// Entries that are nil, parts that are absent.
	s := one("nil field", genMsg{name: "Msg", fields: []genField{{name: "one", label: 1, typ: 5}}}, sub)
	s.nilField = true
	r = append(r, s)
	s = one("nil message", m, sub)
	s.nilMsg = true
	r = append(r, s)
	s = fs("nil file", file("base", true))
	s.nilFile = true
	r = append(r, s)
	s = fs("absent parts", file("base", true))
	s.absent = true
	s.files[0].others = true
	r = append(r, s)
	return r
}

// genRules analyses the generator.
func (c *Check) genRules() {
	var list []genScenario
	for _, s := range genScenarios() {
		if !strings.Contains(s.props, c.prop) {
			continue
		}
		if c.prop == "C19" && !strings.HasPrefix(s.name, "nil") && s.name != "absent parts" {
			continue
		}
		if strings.Contains("gen "+s.name, *only) || *worker != "" {
			list = append(list, s)
		}
	}
	// In processes, every one with a part of the scenarios.
	const procs = 16
	for i := 0; i < procs && i < len(list); i++ {
		i := i
		c.tasks = append(c.tasks, task{name: fmt.Sprintf("generator scenarios %d", i), heavy: *only == "", run: func() {
			for j := i; j < len(list); j += procs {
				c.genScenario(list[j])
			}
		}})
	}
}

// genBase prepares the interpreter: the state after the initialization of the
// package.
func (c *Check) genBase() (*gx, *gstate, *ssa.Package) {
	pkg := c.ld.ssa[c.ld.mod+"/generate"]
	g := &gx{ld: c.ld, lists: map[int]*glist{}, holes: map[string]*ghole{}, funcs: map[string]bool{}, loops: map[string]bool{}, limit: 60000000}
	st := &gstate{fs: newState(), heap: map[int]*gobj{}}
	if pkg == nil {
		return g, st, nil
	}
	g.inInit = true
	outs := g.call(st, pkg.Func("init"), nil, nil, nil)
	g.inInit = false
	if len(outs) != 1 {
		g.undecided("initialization of the package")
	}
	st = outs[0].st
	if *verbose {
		fmt.Println("  objects after initialization:", len(st.heap), "steps", g.steps)
	}
	for id, o := range st.heap {
		if o.glob == "" {
			n := *o
			n.glob = "data of a package-level variable"
			st.heap[id] = &n
		}
	}
	return g, st, pkg
}

type genRun struct {
	c    *Check
	g    *gx
	s    genScenario
	pkg  *ssa.Package
	mp   map[string]string // holes of names, and what they become
	nums []Lin
	seen map[string]bool
}

func (c *Check) genScenario(s genScenario) {
	rule := "gen " + s.name
	var g *gx
	defer func() {
		if g != nil {
			c.obls += g.obls
			c.discharged += g.obls
			c.paths += g.paths
			for f := range g.funcs {
				c.funcs[f]++
			}
			for l := range g.loops {
				c.loops[l] = "abstract"
			}
		}
		c.contracts = append(c.contracts, rule)
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				c.rep.add(Finding{Rule: rule, Kind: "undecided", Pos: "?", Construct: fmt.Sprint(r), Msg: fmt.Sprintf("the analysis failed: %v", r), Stack: string(debug.Stack())})
				return
			}
			c.rep.add(Finding{Rule: rule, Kind: "undecided", Pos: c.ld.posStr(u.pos), Msg: "not decided: " + u.msg, Stack: u.ctx})
		}
	}()
	var st *gstate
	var pkg *ssa.Package
	g, st, pkg = c.genBase()
	var fn *ssa.Function
	if pkg != nil {
		fn = pkg.Func("Generate")
	}
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
		c.fail(rule, "undecided", token.NoPos, "generate.Generate", "there is no function Generate(request) (response, error)")
		return
	}
	r := &genRun{c: c, g: g, s: s, pkg: pkg, mp: map[string]string{}, seen: map[string]bool{}}
	bad := 0
	g.report = func(kind string, at token.Pos, msg string) {
		lab := "C16"
		switch kind {
		case "panic", "bounds":
			lab = "C15 C16 C19"
		case "effect":
			lab = "C16 C19"
		}
		if strings.Contains(lab, c.prop) {
			bad++
			c.rep.add(Finding{Rule: rule, Kind: kind, Pos: c.ld.posStr(at), Msg: msg, Stack: g.stack()})
		}
	}
	req := r.request(st, fn.Params[0].Type())
	outs := g.call(st, fn, []gv{req}, nil, nil)
	g.paths = len(outs)
	for _, o := range outs {
		r.check(rule, fn, o)
	}
	if len(outs) == 0 && bad == 0 && len(c.rep.findings) == 0 {
		c.fail(rule, "vacuous", fn.Pos(), s.name, "Generate never returns")
	}
	if *verbose {
		fmt.Printf("  %s: %d paths, %d steps, %d calls, %d obligations\n", rule, len(outs), g.steps, g.calls, g.obls)
	}
}

// ---------------------------------------------------------------------------
// Requests.

func (r *genRun) hole(name string, class string) []gseg {
	if _, ok := r.g.holes[name]; !ok {
		r.g.holes[name] = &ghole{ident: true, class: class}
		r.mp[name] = "Zpv" + name
	}
	return []gseg{{hole: name}}
}

func (r *genRun) fileText(base string) []gseg {
	return qcat(r.hole(base, "base"), qlit(".proto"))
}

// object makes a message of the request. Parts that aren't given are unknown.
func (r *genRun) object(st *gstate, name string, parts map[string]gv) gv {
	t, ok := r.pkg.Members[name].(*ssa.Type)
	if !ok {
		r.g.undecided("no type %s", name)
	}
	typ := t.Type()
	v := r.g.unknown(st, typ, name, true).(gStruct)
	s := typ.Underlying().(*types.Struct)
	f := append([]gv(nil), v.f...)
	for i := 0; i < s.NumFields(); i++ {
		if p, ok := parts[s.Field(i).Name()]; ok {
			f[i] = p
			delete(parts, s.Field(i).Name())
		}
	}
	for n := range parts {
		r.g.undecided("%s has no field %s", name, n)
	}
	return gPtr{obj: st.alloc(&gobj{typ: typ, val: gStruct{f}, name: name, pre: true})}
}

func (r *genRun) elemOf(name, field string) types.Type {
	t, ok := r.pkg.Members[name].(*ssa.Type)
	if !ok {
		r.g.undecided("no type %s", name)
	}
	s := t.Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return s.Field(i).Type()
		}
	}
	r.g.undecided("%s has no field %s", name, field)
	return nil
}

func (r *genRun) ptr(st *gstate, name, field string, v gv) gv {
	return gPtr{obj: st.alloc(&gobj{typ: elemType(r.elemOf(name, field)), val: v, pre: true})}
}

// list makes a list of the request.
func (r *genRun) list(st *gstate, name string, elem types.Type, items []gv, others bool, other func(g *gx, st *gstate, key string) gv) gv {
	g := r.g
	id := g.freshN()
	l := &glist{name: name, elem: elem, focus: items, other: other}
	if others {
		l.n = g.atom("len("+name+")", bi(0), pow2(40))
		prev := lc(-1)
		for i := range items {
			p := g.atom(fmt.Sprintf("pos%d(%s)", i, name), bi(0), pow2(40))
			st.assume(cLess(prev, p))
			l.at = append(l.at, p)
			prev = p
		}
		if len(items) > 0 {
			st.assume(cLess(prev, l.n))
		}
	} else {
		l.n = lc(int64(len(items)))
		for i := range items {
			l.at = append(l.at, lc(int64(i)))
		}
	}
	if l.other == nil {
		l.other = func(g *gx, st *gstate, key string) gv { return g.unknown(st, elem, name+"[]", !r.s.absent) }
	}
	g.lists[id] = l
	return gList{id}
}

func (r *genRun) request(st *gstate, t types.Type) gv {
	g := r.g
	pkgName := r.hole("pkg", "")
	r.mp["pkg"] = "zpvgen"
	names := map[string]bool{}
	var wanted []gv
	for _, f := range r.s.files {
		q := r.fileText(f.base)
		names[qkey(q)] = true
		g.keys = append(g.keys, q)
		if f.requested {
			wanted = append(wanted, gStr{q})
		}
	}
	// A file can be requested at any position, and in another order.
	for i, j := 0, len(wanted)-1; i < j; i, j = i+1, j-1 {
		wanted[i], wanted[j] = wanted[j], wanted[i]
	}
	otherName := func(g *gx, st *gstate, key string) gv {
		return gStr{[]gseg{{hole: g.newHole("otherfile", &ghole{not: names})}}}
	}
	strT := types.Typ[types.String]
	ftg := r.list(st, "file_to_generate", strT, wanted, r.s.others, otherName)

	var files []gv
	for fi := range r.s.files {
		f := &r.s.files[fi]
		var msgs []gv
		for mi := range f.msgs {
			m := &f.msgs[mi]
			var fields []gv
			for i := range m.fields {
				x := &m.fields[i]
				x.num = g.atom("number("+x.name+")", bi(1), maxField)
				r.nums = append(r.nums, x.num)
				for _, o := range r.nums[:len(r.nums)-1] {
					st.assume(cNe(o.sub(x.num)))
				}
				parts := map[string]gv{
					"Name":   r.ptr(st, "FieldDescriptorProto", "Name", gStr{qlit(x.name)}),
					"Number": r.ptr(st, "FieldDescriptorProto", "Number", gInt{x.num}),
					"Label":  r.ptr(st, "FieldDescriptorProto", "Label", gInt{lc(x.label)}),
					"Type":   r.ptr(st, "FieldDescriptorProto", "Type", gInt{lc(x.typ)}),
				}
				switch {
				case x.sub != "":
					q := qcat(qcat(qlit("."), pkgName), qcat(qlit("."), r.hole(x.sub, "message")))
					parts["TypeName"] = r.ptr(st, "FieldDescriptorProto", "TypeName", gStr{q})
				case x.typ == 14:
					q := qcat(qcat(qlit("."), pkgName), qcat(qlit("."), r.hole("Enum", "message")))
					parts["TypeName"] = r.ptr(st, "FieldDescriptorProto", "TypeName", gStr{q})
				}
				fields = append(fields, r.object(st, "FieldDescriptorProto", parts))
			}
			if r.s.nilField && mi == 0 {
				fields = append(append([]gv{gPtr{nil: condTrue}}, fields...), gPtr{nil: condTrue})
			}
			msgs = append(msgs, r.object(st, "DescriptorProto", map[string]gv{
				"Name":  r.ptr(st, "DescriptorProto", "Name", gStr{r.hole(m.name, "message")}),
				"Field": r.list(st, "field", elemType(r.elemOf("DescriptorProto", "Field")), fields, m.others, nil),
			}))
		}
		if r.s.nilMsg {
			msgs = append(append([]gv{gPtr{nil: condTrue}}, msgs...), gPtr{nil: condTrue})
		}
		files = append(files, r.object(st, "FileDescriptorProto", map[string]gv{
			"Name":        r.ptr(st, "FileDescriptorProto", "Name", gStr{r.fileText(f.base)}),
			"Package":     r.ptr(st, "FileDescriptorProto", "Package", gStr{pkgName}),
			"MessageType": r.list(st, "message_type", elemType(r.elemOf("FileDescriptorProto", "MessageType")), msgs, f.others, nil),
		}))
	}
	if r.s.nilFile {
		files = append(append([]gv{gPtr{nil: condTrue}}, files...), gPtr{nil: condTrue})
	}
	elem := elemType(r.elemOf("CodeGeneratorRequest", "ProtoFile"))
	otherFile := func(g *gx, st *gstate, key string) gv {
		p := r.object(st, "FileDescriptorProto", map[string]gv{
			"Name": r.ptr(st, "FileDescriptorProto", "Name", otherName(g, st, key)),
		}).(gPtr)
		if r.s.absent {
			// Without a name a file cannot be one in focus.
			o := g.unknown(st, elem.(*types.Pointer).Elem(), "file", false).(gStruct)
			s := elem.(*types.Pointer).Elem().Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "Name" {
					n := r.ptr(st, "FileDescriptorProto", "Name", otherName(g, st, key)).(gPtr)
					n.nil = g.unknownBool("nil:name")
					o.f[i] = n
				}
			}
			p = gPtr{obj: st.alloc(&gobj{typ: elem.(*types.Pointer).Elem(), val: o, pre: true})}
		}
		p.nil = g.unknownBool("nil:file")
		return p
	}
	return r.object(st, "CodeGeneratorRequest", map[string]gv{
		"FileToGenerate": ftg,
		"ProtoFile":      r.list(st, "proto_file", elem, files, r.s.others, otherFile),
	})
}

// ---------------------------------------------------------------------------
// Responses.

func (r *genRun) oblige(props string, ok bool, rule string, fn *ssa.Function, kind, msg string) bool {
	if !strings.Contains(props, r.c.prop) {
		return ok
	}
	return r.c.oblige(ok, rule, kind, fn.Pos(), r.s.name+": "+msg, msg)
}

func (r *genRun) fieldVal(st *gstate, v gv, typ types.Type, name string) (gv, types.Type) {
	p, ok := v.(gPtr)
	if !ok || p.obj == 0 {
		r.g.undecided("no message")
	}
	s := typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	sv := part(r.g.force(st, p.obj).val, p.path)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return sv.(gStruct).f[i], s.Field(i).Type()
		}
	}
	r.g.undecided("no field %s", name)
	return nil, nil
}

func (r *genRun) check(rule string, fn *ssa.Function, o gout) {
	g, st := r.g, o.st
	g.at, g.cur = fn.Pos(), nil
	t, ok := o.ret.(gTuple)
	if !ok || len(t) != 2 {
		g.undecided("result of Generate")
	}
	isNil, known := g.known(st, g.isNil(t[1]))
	if !r.oblige("C15 C16 C19", known && isNil, rule, fn, "error", "Generate returns an error for a supported request") {
		return
	}
	isNil, known = g.known(st, g.isNil(t[0]))
	if !r.oblige("C15 C16 C19", known && !isNil, rule, fn, "result", "Generate returns no response") {
		return
	}
	resT := fn.Signature.Results().At(0).Type()
	errv, _ := r.fieldVal(st, t[0], resT, "Error")
	isNil, known = g.known(st, g.isNil(errv))
	r.oblige("C15 C16 C19", known && isNil, rule, fn, "error", "the response reports an error for a supported request")
	fv, ft := r.fieldVal(st, t[0], resT, "File")
	seq, ok := fv.(gSeq)
	if !ok {
		g.undecided("files of the response: %T", fv)
	}
	var want []*genFile
	for i := range r.s.files {
		if r.s.files[i].requested {
			want = append(want, &r.s.files[i])
		}
	}
	var got []gItem
	for _, it := range seq.items {
		if it.others == 0 {
			got = append(got, it)
		} else if !r.s.others {
			r.oblige("C16", false, rule, fn, "files", "there can be output files that were not requested")
		}
	}
	if !r.oblige("C15 C16 C19", len(got) == len(want), rule, fn, "files", fmt.Sprintf("there are %d output files for %d files of the request that are in focus", len(got), len(want))) {
		return
	}
	for i, it := range got {
		ftyp := elemType(ft)
		isNil, known := g.known(st, g.isNil(it.v))
		if !r.oblige("C15 C16 C19", known && !isNil, rule, fn, "files", "an output file is nil") {
			continue
		}
		name, content := r.str(st, it.v, ftyp, "Name"), r.str(st, it.v, ftyp, "Content")
		q := qcat(r.hole(want[i].base, "base"), qlit(".zeropb.go"))
		r.oblige("C16", name != nil && qkey(*name) == qkey(q), rule, fn, "name",
			fmt.Sprintf("output file %d is named %s and not %s", i, showText(name), qshow(q)))
		ip, _ := r.fieldVal(st, it.v, ftyp, "InsertionPoint")
		isNil, known = g.known(st, g.isNil(ip))
		r.oblige("C15 C16", known && isNil, rule, fn, "files", "an output file has an insertion point")
		if !r.oblige("C15 C16 C19", content != nil, rule, fn, "content", "an output file has no content") {
			continue
		}
		r.content(rule, fn, st, want[i], *content)
	}
}

func showText(q *[]gseg) string {
	if q == nil {
		return "nothing"
	}
	return qshow(*q)
}

// str returns the text that a field of a message points at.
func (r *genRun) str(st *gstate, v gv, typ types.Type, field string) *[]gseg {
	f, _ := r.fieldVal(st, v, typ, field)
	p, ok := f.(gPtr)
	if !ok || p.obj == 0 {
		return nil
	}
	if isNil, known := r.g.known(st, r.g.isNil(p)); !known || isNil {
		return nil
	}
	s, ok := part(r.g.force(st, p.obj).val, p.path).(gStr)
	if !ok {
		return nil
	}
	return &s.q
}

// numbers chooses field numbers that the path allows.
func (r *genRun) numbers(st *gstate) (map[*Atom]*big.Int, bool) {
	val := map[*Atom]*big.Int{}
	s := st.clone()
	cands := []int64{5, 7, 1, 2, 11, 3, 13, 17, 16, 15, 19, 31, 32, 100, 127, 128, 255, 256, 1000, 2047, 2048, 4095, 4096, 32767, 32768, 65535, 65536, 70001, 1 << 20, 1<<28 + 1, 1<<29 - 1}
	for _, l := range r.nums {
		ok := false
		for _, c := range cands {
			t := s.clone()
			if t.assume(cEqual(l, lc(c))) && !t.fs.refuted() {
				s, ok = t, true
				val[l.t[0].a] = bi(c)
				break
			}
		}
		if !ok {
			return nil, false
		}
	}
	return val, true
}

func (r *genRun) eval(l Lin, val map[*Atom]*big.Int) (*big.Int, bool) {
	n := new(big.Int).Set(l.c)
	for _, t := range l.t {
		v, ok := val[t.a]
		if !ok {
			return nil, false
		}
		n.Add(n, new(big.Int).Mul(v, t.k))
	}
	return n, true
}

// least returns the least value that l certainly has, given the numbers.
func (r *genRun) least(st *gstate, l Lin, val map[*Atom]*big.Int) *big.Int {
	if n, ok := r.eval(l, val); ok {
		return n
	}
	var best *big.Int
	try := func(n *big.Int) {
		if best == nil || n.Cmp(best) > 0 {
			best = n
		}
	}
	for _, x := range r.nums {
		for _, k := range []int64{2, 1, 0, -1} {
			if st.fs.entails(cGe(l.sub(x).addc(-k))) {
				try(new(big.Int).Add(val[x.t[0].a], bi(k)))
				break
			}
		}
	}
	for _, k := range []int64{2, 1, 0, -1} {
		if st.fs.entails(cGe(l.addc(-k))) {
			try(bi(k))
			break
		}
	}
	if best == nil {
		best = bi(-1)
	}
	return best
}

func (r *genRun) content(rule string, fn *ssa.Function, st *gstate, f *genFile, q []gseg) {
	val, ok := r.numbers(st)
	if !ok {
		r.g.undecided("no field numbers for a path")
	}
	var b strings.Builder
	unk := 0
	for _, s := range q {
		switch {
		case s.oth > 0:
		case s.num != nil:
			b.WriteString(r.least(st, *s.num, val).String())
		case s.hole != "":
			if n, ok := r.mp[s.hole]; ok {
				b.WriteString(n)
			} else {
				unk++
				fmt.Fprintf(&b, "zpvUnknown%d", unk)
			}
		default:
			b.WriteString(s.lit)
		}
	}
	text := b.String()
	var msgs []GMessage
	for _, m := range f.msgs {
		gm := GMessage{Go: r.mp[m.name]}
		for _, x := range m.fields {
			n, _ := r.eval(x.num, val)
			gf := GField{goCamel(x.name), n.Int64(), genLabels[x.label], genTypeNames[x.typ], ""}
			if x.sub != "" {
				gf.Sub = r.mp[x.sub]
			}
			if gf.Number > gm.Max {
				gm.Max = gf.Number
			}
			gm.Fields = append(gm.Fields, gf)
		}
		msgs = append(msgs, gm)
	}
	key := fmt.Sprint(text, msgs)
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.c.emitted(rule, r.s, fn, text, msgs)
}

// emitted decides whether emitted code is right for the messages.
func (c *Check) emitted(rule string, s genScenario, fn *ssa.Function, text string, msgs []GMessage) {
	// The messages are there, in order.
	if *verbose && strings.Contains(s.name, "*") {
		fmt.Println(text)
	}
	file, err := parser.ParseFile(c.ld.fset, rule+"/emitted.go", text, 0)
	if err != nil {
		if strings.Contains("C15 C16", c.prop) {
			c.oblige(false, rule, "compile", fn.Pos(), s.name, "the emitted code is not valid: "+err.Error())
		}
		return
	}
	var types_ []string
	for _, d := range file.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.TYPE {
			for _, sp := range gd.Specs {
				ts := sp.(*ast.TypeSpec)
				for _, m := range msgs {
					if m.Go == ts.Name.Name {
						types_ = append(types_, m.Go)
					}
				}
			}
		}
	}
	var want []string
	for _, m := range msgs {
		want = append(want, m.Go)
	}
	if strings.Contains("C16 C19", c.prop) {
		c.oblige(strings.Join(types_, " ") == strings.Join(want, " "), rule, "messages", fn.Pos(), s.name, fmt.Sprintf("the emitted messages are %v and not %v", types_, want))
	}
	if c.prop != "C15" {
		return
	}
	spec, err := parser.ParseFile(c.ld.fset, rule+"/contracts.go", genSpec(file.Name.Name, "emitted", msgs), 0)
	if err != nil {
		panic(err)
	}
	imp := genImporter{c.ld}
	check := func(files ...*ast.File) (*types.Package, *types.Info, []string) {
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
		var errs []string
		cfg := types.Config{Importer: imp, Error: func(err error) { errs = append(errs, err.Error()) }, GoVersion: "go1.12"}
		p, _ := cfg.Check(c.ld.mod+"/zpvgen", c.ld.fset, files, info)
		return p, info, errs
	}
	if _, _, errs := check(file); len(errs) > 0 {
		c.oblige(false, rule, "compile", fn.Pos(), s.name, "the emitted code does not compile: "+strings.Join(errs[:min(len(errs), 3)], "; "))
		return
	}
	c.oblige(true, rule, "compile", fn.Pos(), s.name, "")
	p, info, errs := check(file, spec)
	if len(errs) > 0 {
		c.oblige(false, rule, "accessors", fn.Pos(), s.name, "the emitted code does not have the accessors of its schema: "+strings.Join(errs[:min(len(errs), 3)], "; "))
		return
	}
	old := c.ld.ssa[p.Path()]
	sp := c.ld.prog.CreatePackage(p, []*ast.File{file, spec}, info, false)
	sp.Build()
	c.ld.ssa[p.Path()] = sp
	defer func() {
		delete(c.ld.ssa, p.Path())
		if old != nil {
			c.ld.ssa[p.Path()] = old
		}
	}()
	var fns []*ssa.Function
	for n, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "zpvSpecGen_") {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	for _, f := range fns {
		c.contract(f, func(it *Interp) {
			it.rule = rule
			c.opaqueRuntime(it)
		})
	}
}

type genImporter struct{ ld *Loaded }

func (i genImporter) Import(path string) (*types.Package, error) {
	if p, ok := i.ld.pkgs[path]; ok {
		return p.Types, nil
	}
	var r *types.Package
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] || r != nil {
			return
		}
		seen[p] = true
		for n, q := range p.Imports {
			if n == path {
				r = q.Types
				return
			}
			visit(q)
		}
	}
	for _, p := range i.ld.pkgs {
		visit(p)
	}
	if r == nil {
		return nil, fmt.Errorf("package %s is not known", path)
	}
	return r, nil
}
