G='generate/generate.go'; ST='generate/stringtree.go'; PM='cmd/protoc-gen-zeropb/main.go'; PD='cmd/protoc-gen-dump/main.go'
import os
PM=[x for x in ('cmd/protoc-gen-zeropb/main.go','cmd/protoc-gen-zeropb/protoc-gen-zeropb.go') if os.path.exists('/repo/'+x)][0]
IMP='''import (
	"strings"
	"unicode"
)'''
# Generate
ref('g-files-slice',G,'''	filesToGenerate := map[string]struct{}{}
	for _, f := range req.FileToGenerate {
		filesToGenerate[f] = struct{}{}
	}
	files := make([]*CodeGeneratorResponse_File, 0, len(filesToGenerate))
''','''	filesToGenerate := make(map[string]bool, len(req.GetFileToGenerate()))
	for i := range req.FileToGenerate {
		filesToGenerate[req.FileToGenerate[i]] = true
	}
	var files []*CodeGeneratorResponse_File
''',G,'''		if fileReq == nil {
			continue
		}
		if _, ok := filesToGenerate[fileReq.GetName()]; !ok {
			continue
		}''','''		if fileReq == nil || !filesToGenerate[fileReq.GetName()] {
			continue
		}''')
ref('g-requested-helper',G,'''	filesToGenerate := map[string]struct{}{}
	for _, f := range req.FileToGenerate {
		filesToGenerate[f] = struct{}{}
	}
	files := make([]*CodeGeneratorResponse_File, 0, len(filesToGenerate))
''','''	filesToGenerate := stringSet(req.GetFileToGenerate())
	files := make([]*CodeGeneratorResponse_File, 0, len(filesToGenerate))
''',G,'''const offsets =''','''func stringSet(strs []string) map[string]struct{} {
	set := make(map[string]struct{})
	for i := 0; i < len(strs); i++ {
		set[strs[i]] = struct{}{}
	}
	return set
}

const offsets =''')
ref('g-linear-search',G,'''	filesToGenerate := map[string]struct{}{}
	for _, f := range req.FileToGenerate {
		filesToGenerate[f] = struct{}{}
	}
	files := make([]*CodeGeneratorResponse_File, 0, len(filesToGenerate))
''','''	var files []*CodeGeneratorResponse_File
''',G,'''		if _, ok := filesToGenerate[fileReq.GetName()]; !ok {
			continue
		}''','''		if !contains(req.FileToGenerate, fileReq.GetName()) {
			continue
		}''',G,'''const offsets =''','''func contains(strs []string, s string) bool {
	for _, x := range strs {
		if x == s {
			return true
		}
	}
	return false
}

const offsets =''')
ref('g-nested-if',G,'''		if _, ok := filesToGenerate[fileReq.GetName()]; !ok {
			continue
		}
		fileRes, err := generateFile(fileReq)
		if err != nil {
			return nil, err
		}
		files = append(files, fileRes)
''','''		if _, ok := filesToGenerate[fileReq.GetName()]; ok {
			fileRes, err := generateFile(fileReq)
			if err != nil {
				return nil, err
			}
			files = append(files, fileRes)
		}
''')
ref('g-response-first',G,'''	files := make([]*CodeGeneratorResponse_File, 0, len(filesToGenerate))
''','''	res := &CodeGeneratorResponse{}
''',G,'''		files = append(files, fileRes)
''','''		res.File = append(res.File, fileRes)
''',G,'''	res := &CodeGeneratorResponse{File: files}
	return res, nil
''','''	return res, nil
''')
ref('g-index-loop',G,'''	for _, fileReq := range req.ProtoFile {
''','''	for i := 0; i < len(req.ProtoFile); i++ {
		fileReq := req.ProtoFile[i]
''')
# generateFile
ref('g-bytes-buffer',G,'''	"strings"
	"unicode"
''','''	"bytes"
	"strings"
	"unicode"
''',G,'''	var buf strings.Builder
''','''	var buf bytes.Buffer
''')
ref('g-st-error',G,'''	content := buf.String()
''','''	if err := st.Error(); err != nil {
		return nil, err
	}
	content := buf.String()
''')
ref('g-filename-helper',G,'''	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
''','''	name := outputName(req.GetName())
''',G,'''const offsets =''','''func outputName(name string) string {
	if strings.HasSuffix(name, ".proto") {
		name = name[:len(name)-len(".proto")]
	}
	return name + ".zeropb.go"
}

const offsets =''')
ref('g-header-helper',G,'''	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\\n\\n")
	// TODO(dan): Use the go package if it's set.
	st.Write(indent, "package ", req.GetPackage(), "\\n\\n")
	// Go rejects an unused import, so a file without messages must not have one.
	hasMessages := false
	for _, m := range req.MessageType {
		if m != nil {
			hasMessages = true
		}
	}
	if hasMessages {
		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\\n\\n")
	}
''','''	writeHeader(st, indent, req)
''',G,'''const offsets =''','''func writeHeader(st *StringTree, indent StringTreeIndent, req *FileDescriptorProto) {
	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\\n\\n")
	st.Write(indent, "package ", req.GetPackage(), "\\n\\n")
	for _, m := range req.MessageType {
		if m != nil {
			st.Write(indent, `import "github.com/danhhz/zeropb"`, "\\n\\n")
			break
		}
	}
}

const offsets =''')
ref('g-flag-import',G,'''	for _, m := range req.MessageType {
		if m != nil {
			hasMessages = true
		}
	}
	if hasMessages {
''','''	for i := 0; i < len(req.MessageType) && !hasMessages; i++ {
		hasMessages = req.MessageType[i] != nil
	}
	if hasMessages {
''')
ref('g-filter-messages',G,'''	for _, m := range req.MessageType {
		if m == nil {
			continue
		}
		generateMessage(st, indent, *m)
	}
''','''	var messages []*DescriptorProto
	for _, m := range req.MessageType {
		if m != nil {
			messages = append(messages, m)
		}
	}
	for _, m := range messages {
		generateMessage(st, indent, *m)
	}
''')
ref('g-message-pointer',G,'''		generateMessage(st, indent, *m)
''','''		generateMessage(st, indent, m)
''',G,'''func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto) {
''','''func generateMessage(st *StringTree, indent StringTreeIndent, m *DescriptorProto) {
''')
ref('g-named-results',G,'''	res := &CodeGeneratorResponse_File{Name: &name, Content: &content}
	return res, nil
''','''	res := new(CodeGeneratorResponse_File)
	res.Name = &name
	res.Content = &content
	return res, nil
''')
# generateMessage
ref('g-largest-helper',G,'''	var largestFieldID int32
	for _, f := range m.Field {
		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
		}
	}
''','''	largestFieldID := maxFieldID(m.Field)
''',G,'''const offsets =''','''func maxFieldID(fields []*FieldDescriptorProto) (max int32) {
	for i := range fields {
		if fields[i].GetNumber() <= max {
			continue
		}
		max = fields[i].GetNumber()
	}
	return max
}

const offsets =''')
ref('g-numoffsets',G,'''	var largestFieldID int32
	for _, f := range m.Field {
		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
		}
	}
''','''	numOffsets := int32(1)
	for _, f := range m.Field {
		if n := f.GetNumber() + 1; n > numOffsets {
			numOffsets = n
		}
	}
''',G,'''largestFieldID+1,''','''numOffsets,''')
ref('g-fields-filter',G,'''	messageGoType := m.GetName()

''','''	messageGoType := m.GetName()
	fields := make([]*FieldDescriptorProto, 0, len(m.Field))
	for _, f := range m.Field {
		if f != nil {
			fields = append(fields, f)
		}
	}

''',G,'''	for _, f := range m.Field {
		if id''','''	for _, f := range fields {
		if id''',G,'''	for _, f := range m.Field {
		if f.GetLabel()''','''	for _, f := range fields {
		if f.GetLabel()''',G,'''	for _, f := range m.Field {
		if f == nil {
			continue
		}
		switch''','''	for _, f := range fields {
		switch''')
ref('g-repeated-split',G,'''	for _, f := range m.Field {
		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED {
			st.Write(indent.Next(), int32(f.GetNumber()), ": struct{}{},\\n")
		}
	}
''','''	var repeated []int32
	for _, f := range m.Field {
		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED {
			repeated = append(repeated, f.GetNumber())
		}
	}
	for _, id := range repeated {
		st.Write(indent.Next(), id, ": struct{}{},\\n")
	}
''')
ref('g-write-lines',G,'''	st.Write(indent, "func (m *", messageGoType, ") Encode() []byte {\\n")
	st.Write(indent.Next(), "return m.buf\\n")
	st.Write(indent, "}\\n\\n")
''','''	st.Write(
		indent, "func (m *", messageGoType, ") Encode() []byte {\\n",
		indent.Next(), "return m.buf\\n",
		indent, "}\\n\\n",
	)
''')
ref('g-concat',G,'''	st.Write(indent, "func (m *", messageGoType, ") Encode() []byte {\\n")
''','''	st.Write(indent, "func (m *"+messageGoType+") Encode() []byte {\\n")
''')
ref('g-fprintf',G,'''	"strings"
	"unicode"
''','''	"fmt"
	"strings"
	"unicode"
''',G,'''	st.Write(indent, "func (m *", messageGoType, ") Set", fieldGoName, "(x ", fieldGoType, ") {\\n")
	st.Write(indent.Next(), "zeropb.Set", fieldFnName, "(&m.buf, ", offsets, ", ", f.GetNumber(), ", x)\\n")
''','''	st.Write(indent, fmt.Sprintf("func (m *%s) Set%s(x %s) {\\n", messageGoType, fieldGoName, fieldGoType))
	st.Write(indent.Next(), fmt.Sprintf("zeropb.Set%s(&m.buf, %s, %d, x)\\n", fieldFnName, offsets, f.GetNumber()))
''')
ref('g-raw-string',G,'''	st.Write(indent, "func (m *", messageGoType, ") Encode() []byte {\\n")
	st.Write(indent.Next(), "return m.buf\\n")
	st.Write(indent, "}\\n\\n")
''','''	st.Write(`func (m *`, messageGoType, `) Encode() []byte {
  return m.buf
}

`)
''')
ref('g-dispatch-helper',G,'''		switch f.GetLabel() {
		case FieldDescriptorProto_LABEL_OPTIONAL, FieldDescriptorProto_LABEL_REQUIRED:
			switch f.GetType() {
			case FieldDescriptorProto_TYPE_MESSAGE:
				generateMessageField(st, indent, messageGoType, *f)
			default:
				generateSimpleField(st, indent, messageGoType, *f)
			}
		case FieldDescriptorProto_LABEL_REPEATED:
			switch f.GetType() {
			case FieldDescriptorProto_TYPE_MESSAGE:
				generateRepeatedMessageField(st, indent, messageGoType, *f, iterators)
			default:
				// WIP implement repeated simple fields
				continue
			}
		}
	}
}
''','''		generateField(st, indent, messageGoType, *f, iterators)
	}
}

func generateField(
	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
	iterators map[string]struct{},
) {
	repeated := f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED
	message := f.GetType() == FieldDescriptorProto_TYPE_MESSAGE
	if repeated && message {
		generateRepeatedMessageField(st, indent, messageGoType, f, iterators)
	} else if repeated {
		// WIP implement repeated simple fields
	} else if message {
		generateMessageField(st, indent, messageGoType, f)
	} else {
		generateSimpleField(st, indent, messageGoType, f)
	}
}
''')
ref('g-funcs-table',G,'''		switch f.GetLabel() {
		case FieldDescriptorProto_LABEL_OPTIONAL, FieldDescriptorProto_LABEL_REQUIRED:
			switch f.GetType() {
			case FieldDescriptorProto_TYPE_MESSAGE:
				generateMessageField(st, indent, messageGoType, *f)
			default:
				generateSimpleField(st, indent, messageGoType, *f)
			}
''','''		switch f.GetLabel() {
		case FieldDescriptorProto_LABEL_OPTIONAL, FieldDescriptorProto_LABEL_REQUIRED:
			gen := generateSimpleField
			if f.GetType() == FieldDescriptorProto_TYPE_MESSAGE {
				gen = generateMessageField
			}
			gen(st, indent, messageGoType, *f)
''')
ref('g-begin-end-func',G,'''	st.Write(indent, "func (m *", messageGoType, ") ", fieldGoName, "() ", fieldGoType, " {\\n")
	st.Write(indent.Next(), "return zeropb.Get", fieldFnName, "(m.buf, ", offsets, ", ", f.GetNumber(), ")\\n")
	st.Write(indent, "}\\n\\n")
''','''	writeFunc(st, indent, messageGoType, fieldGoName+"() "+fieldGoType, func(in StringTreeIndent) {
		st.Write(in, "return zeropb.Get", fieldFnName, "(m.buf, ", offsets, ", ", f.GetNumber(), ")\\n")
	})
''',G,'''const offsets =''','''func writeFunc(st *StringTree, indent StringTreeIndent, typ, sig string, body func(StringTreeIndent)) {
	st.Write(indent, "func (m *", typ, ") ", sig, " {\\n")
	body(indent.Next())
	st.Write(indent, "}\\n\\n")
}

const offsets =''')
ref('g-field-pointer',G,'''				generateSimpleField(st, indent, messageGoType, *f)
''','''				generateSimpleField(st, indent, messageGoType, f)
''',G,'''func generateSimpleField(
	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
''','''func generateSimpleField(
	st *StringTree, indent StringTreeIndent, messageGoType string, f *FieldDescriptorProto,
''')
ref('g-generator-struct',G,'''func generateSimpleField(
	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
) {
	fieldGoName := toGoCase(f.GetName())
	fieldGoType, fieldFnName := fieldToGoTypeSimple(f.GetType())
''','''type simpleField struct {
	name, typ, fn string
	number        int32
}

func newSimpleField(f *FieldDescriptorProto) simpleField {
	typ, fn := fieldToGoTypeSimple(f.GetType())
	return simpleField{name: toGoCase(f.GetName()), typ: typ, fn: fn, number: f.GetNumber()}
}

func generateSimpleField(
	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
) {
	sf := newSimpleField(&f)
	fieldGoName, fieldGoType, fieldFnName := sf.name, sf.typ, sf.fn
''')
ref('g-iterator-helper',G,'''	itGoType := messageGoType + fieldGoType + "Iterator"
	if _, ok := iterators[itGoType]; ok {
		// Another field of this message has the same type, use the name instead.
		itGoType = messageGoType + fieldGoName + "Iterator"
	}
	iterators[itGoType] = struct{}{}
''','''	itGoType := iteratorName(messageGoType, fieldGoType, fieldGoName, iterators)
''',G,'''const offsets =''','''func iteratorName(msg, typ, field string, used map[string]struct{}) string {
	name := msg + typ + "Iterator"
	if _, dup := used[name]; dup {
		name = msg + field + "Iterator"
	}
	used[name] = struct{}{}
	return name
}

const offsets =''')
ref('g-iterators-bool',G,'''	iterators := map[string]struct{}{}
''','''	iterators := make(map[string]bool)
''',G,'''	iterators map[string]struct{},
''','''	iterators map[string]bool,
''',G,'''	if _, ok := iterators[itGoType]; ok {
''','''	if iterators[itGoType] {
''',G,'''	iterators[itGoType] = struct{}{}
''','''	iterators[itGoType] = true
''')
# toGoCase
ref('g-gocase-builder',G,'''	titleNext := true
	mapFn := func(r rune) rune {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			titleNext = true
			return -1
		}
		if titleNext {
			titleNext = false
			return unicode.ToTitle(r)
		}
		return r
	}
	return strings.Map(mapFn, s)
''','''	var b strings.Builder
	titleNext := true
	for _, r := range s {
		switch {
		case !unicode.IsLetter(r) && !unicode.IsDigit(r):
			titleNext = true
		case titleNext:
			titleNext = false
			b.WriteRune(unicode.ToTitle(r))
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
''')
ref('g-gocase-runes',G,'''	return strings.Map(mapFn, s)
''','''	var out []rune
	for _, r := range s {
		if r = mapFn(r); r >= 0 {
			out = append(out, r)
		}
	}
	return string(out)
''')
ref('g-gocase-fields',G,'''	titleNext := true
	mapFn := func(r rune) rune {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			titleNext = true
			return -1
		}
		if titleNext {
			titleNext = false
			return unicode.ToTitle(r)
		}
		return r
	}
	return strings.Map(mapFn, s)
''','''	parts := strings.FieldsFunc(s, func(r rune) bool {
		return !unicode.IsLetter(r) && !unicode.IsDigit(r)
	})
	for i, p := range parts {
		rs := []rune(p)
		rs[0] = unicode.ToTitle(rs[0])
		parts[i] = string(rs)
	}
	return strings.Join(parts, "")
''')
# type tables
ref('g-type-struct-table',G,'''func fieldToGoTypeSimple(typ FieldDescriptorProto_Type) (fieldGoType, fieldFnName string) {
	switch typ {
''','''var fixedTypes = map[FieldDescriptorProto_Type][2]string{
	FieldDescriptorProto_TYPE_FIXED32: {`uint32`, `FixedUint32`},
	FieldDescriptorProto_TYPE_FIXED64: {`uint64`, `FixedUint64`},
}

func fieldToGoTypeSimple(typ FieldDescriptorProto_Type) (fieldGoType, fieldFnName string) {
	if x, ok := fixedTypes[typ]; ok {
		return x[0], x[1]
	}
	switch typ {
''',G,'''	case FieldDescriptorProto_TYPE_FIXED32:
		return `uint32`, `FixedUint32`
	case FieldDescriptorProto_TYPE_FIXED64:
		return `uint64`, `FixedUint64`
''','')
ref('g-type-assign',G,'''		return `bool`, `Bool`
''','''		fieldGoType, fieldFnName = `bool`, `Bool`
		return
''')
ref('g-type-split',G,'''func fieldToGoTypeSimple(typ FieldDescriptorProto_Type) (fieldGoType, fieldFnName string) {
	switch typ {
	case FieldDescriptorProto_TYPE_BOOL:
		return `bool`, `Bool`
''','''func fieldToGoTypeSimple(typ FieldDescriptorProto_Type) (fieldGoType, fieldFnName string) {
	if typ == FieldDescriptorProto_TYPE_BOOL {
		t := `bool`
		return t, strings.Title(t)
	}
	switch typ {
''')
ref('g-typename-split',G,'''	if idx := strings.LastIndex(typName, `.`); idx != -1 {
		typName = typName[idx+1:]
	}
	return typName
''','''	parts := strings.Split(typName, `.`)
	return parts[len(parts)-1]
''')
ref('g-typename-always',G,'''	if idx := strings.LastIndex(typName, `.`); idx != -1 {
		typName = typName[idx+1:]
	}
	return typName
''','''	return typName[strings.LastIndexByte(typName, '.')+1:]
''')
# StringTree
ref('st-writestring',ST,'''		case string:
			_, st.err = st.w.Write([]byte(x))
''','''		case string:
			_, st.err = io.WriteString(st.w, x)
''')
ref('st-toslice',ST,'''		switch x := str.(type) {
		case StringTreeIndent:
			_, st.err = st.w.Write([]byte(strings.Repeat(st.indent, int(x))))
		case []byte:
			_, st.err = st.w.Write(x)
		case string:
			_, st.err = st.w.Write([]byte(x))
		case fmt.Stringer:
			s := x.String()
			_, st.err = st.w.Write([]byte(s))
		case int32:
			_, st.err = st.w.Write([]byte(strconv.Itoa(int(x))))
		default:
			panic(fmt.Sprintf(`unknown %T: %v`, str, str))
		}
''','''		var s string
		switch x := str.(type) {
		case StringTreeIndent:
			s = strings.Repeat(st.indent, int(x))
		case []byte:
			s = string(x)
		case string:
			s = x
		case fmt.Stringer:
			s = x.String()
		case int32:
			s = strconv.FormatInt(int64(x), 10)
		default:
			panic(fmt.Sprintf(`unknown %T: %v`, str, str))
		}
		st.write(s)
''',ST,'''// Error returns''','''func (st *StringTree) write(s string) {
	if _, err := io.WriteString(st.w, s); err != nil {
		st.err = err
	}
}

// Error returns''')
ref('st-indent-loop',ST,'''			_, st.err = st.w.Write([]byte(strings.Repeat(st.indent, int(x))))
''','''			for i := 0; i < int(x) && st.err == nil; i++ {
				_, st.err = io.WriteString(st.w, st.indent)
			}
''',ST,'''	"strings"
''','')
ref('st-fprint',ST,'''			_, st.err = st.w.Write([]byte(strconv.Itoa(int(x))))
''','''			_, st.err = fmt.Fprintf(st.w, "%d", x)
''',ST,'''	"strconv"
''','')
ref('st-appendint',ST,'''			_, st.err = st.w.Write([]byte(strconv.Itoa(int(x))))
''','''			_, st.err = st.w.Write(strconv.AppendInt(nil, int64(x), 10))
''')
ref('st-early-error',ST,'''	for _, str := range strs {
		if st.err != nil {
			return
		}
''','''	for i := 0; i < len(strs) && st.err == nil; i++ {
		str := strs[i]
''')
# plugins
ref('p-main-inline',PM,'''	if _, err := os.Stdout.Write(resBytes); err != nil {
		return err
	}
	return nil
''','''	_, err = os.Stdout.Write(resBytes)
	return err
''')
ref('p-io-params',PM,'''func run() error {
	reqBytes, err := ioutil.ReadAll(os.Stdin)
''','''func run(in io.Reader, out io.Writer) error {
	reqBytes, err := ioutil.ReadAll(in)
''',PM,'''os.Stdout.Write(resBytes)''','''out.Write(resBytes)''',PM,'''err := run()''','''err := run(os.Stdin, os.Stdout)''',PM,'''	"fmt"
''','''	"fmt"
	"io"
''')
ref('p-fatal',PM,'''		fmt.Fprintf(os.Stderr, "%+v\\n", err)
		os.Exit(1)
''','''		fatal(err)
''',PM,'''func main() {''','''func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

func main() {''')
ref('p-log-fatal',PM,'''		fmt.Fprintf(os.Stderr, "%+v\\n", err)
		os.Exit(1)
''','''		log.Fatal(err)
''',PM,'''	"fmt"
	"io/ioutil"
''','''	"io/ioutil"
	"log"
''')
ref('p-wrap',PM,'''	if err := proto.Unmarshal(reqBytes, &req); err != nil {
		return err
	}
''','''	if err := proto.Unmarshal(reqBytes, &req); err != nil {
		return fmt.Errorf("parsing the request: %v", err)
	}
''')
ref('p-split',PM,'''	var req generate.CodeGeneratorRequest
	if err := proto.Unmarshal(reqBytes, &req); err != nil {
		return err
	}
	res, err := generate.Generate(&req)
''','''	req := new(generate.CodeGeneratorRequest)
	if err = proto.Unmarshal(reqBytes, req); err != nil {
		return err
	}
	res, err := generate.Generate(req)
''')
ref('p-readfull-helper',PM,'''	reqBytes, err := ioutil.ReadAll(os.Stdin)
	if err != nil {
		return err
	}
	var req generate.CodeGeneratorRequest
	if err := proto.Unmarshal(reqBytes, &req); err != nil {
		return err
	}
''','''	req, err := readRequest()
	if err != nil {
		return err
	}
''',PM,'''generate.Generate(&req)''','''generate.Generate(req)''',PM,'''func main() {''','''func readRequest() (*generate.CodeGeneratorRequest, error) {
	reqBytes, err := ioutil.ReadAll(os.Stdin)
	if err != nil {
		return nil, err
	}
	req := &generate.CodeGeneratorRequest{}
	if err := proto.Unmarshal(reqBytes, req); err != nil {
		return nil, err
	}
	return req, nil
}

func main() {''')
ref('p-buffer',PM,'''	reqBytes, err := ioutil.ReadAll(os.Stdin)
	if err != nil {
		return err
	}
''','''	var buf bytes.Buffer
	if _, err := buf.ReadFrom(os.Stdin); err != nil {
		return err
	}
	reqBytes := buf.Bytes()
''',PM,'''	"fmt"
	"io/ioutil"
''','''	"bytes"
	"fmt"
''')
ref('p-status',PM,'''	if err := run(); err != nil {
		fmt.Fprintf(os.Stderr, "%+v\\n", err)
		os.Exit(1)
	}
''','''	err := run()
	status := 0
	if err != nil {
		fmt.Fprintf(os.Stderr, "%+v\\n", err)
		status = 1
	}
	os.Exit(status)
''')

# Second batch: other styles
ref('h-line-variadic',G,'''	st.Write(indent, "func (m *", messageGoType, ") Set", fieldGoName, "(x ", fieldGoType, ") {\\n")
	st.Write(indent.Next(), "zeropb.Set", fieldFnName, "(&m.buf, ", offsets, ", ", f.GetNumber(), ", x)\\n")
	st.Write(indent, "}\\n\\n")
''','''	line(st, indent, "func (m *", messageGoType, ") Set", fieldGoName, "(x ", fieldGoType, ") {")
	line(st, indent.Next(), "zeropb.Set", fieldFnName, "(&m.buf, ", offsets, ", ", f.GetNumber(), ", x)")
	line(st, indent, "}")
	line(st, 0)
''',G,'''const offsets =''','''func line(st *StringTree, indent StringTreeIndent, parts ...interface{}) {
	st.Write(indent)
	st.Write(parts...)
	st.Write("\\n")
}

const offsets =''')
ref('h-line-append',G,'''	st.Write(indent, "func (m *", messageGoType, ") Set", fieldGoName, "(x ", fieldGoType, ") {\\n")
	st.Write(indent.Next(), "zeropb.Set", fieldFnName, "(&m.buf, ", offsets, ", ", f.GetNumber(), ", x)\\n")
	st.Write(indent, "}\\n\\n")
''','''	line := func(in StringTreeIndent, parts ...interface{}) {
		all := append([]interface{}{in}, parts...)
		all = append(all, "\\n")
		st.Write(all...)
	}
	line(indent, "func (m *", messageGoType, ") Set", fieldGoName, "(x ", fieldGoType, ") {")
	line(indent.Next(), "zeropb.Set", fieldFnName, "(&m.buf, ", offsets, ", ", f.GetNumber(), ", x)")
	line(indent, "}\\n")
''')
ref('h-setter-helper',G,'''	st.Write(indent, "func (m *", messageGoType, ") Set", fieldGoName, "(x ", fieldGoType, ") {\\n")
	st.Write(indent.Next(), "buf := x.Encode()\\n")
	st.Write(indent.Next(), "zeropb.SetBytes(&m.buf, ", offsets, ", ", f.GetNumber(), ", buf)\\n")
	st.Write(indent, "}\\n\\n")
''','''	generateEncoded(st, indent, messageGoType, "Set"+fieldGoName, fieldGoType, "SetBytes", f.GetNumber())
''',G,'''	st.Write(indent, "func (m *", messageGoType, ") AppendTo", fieldGoName, "(x ", fieldGoType, ") {\\n")
	st.Write(indent.Next(), "buf := x.Encode()\\n")
	st.Write(indent.Next(), "zeropb.AppendBytes(&m.buf, ", offsets, ", ", f.GetNumber(), ", buf)\\n")
	st.Write(indent, "}\\n\\n")
''','''	generateEncoded(st, indent, messageGoType, "AppendTo"+fieldGoName, fieldGoType, "AppendBytes", f.GetNumber())
''',G,'''const offsets =''','''func generateEncoded(
	st *StringTree, indent StringTreeIndent, typ, method, arg, fn string, id int32,
) {
	st.Write(indent, "func (m *", typ, ") ", method, "(x ", arg, ") {\\n")
	st.Write(indent.Next(), "buf := x.Encode()\\n")
	st.Write(indent.Next(), "zeropb.", fn, "(&m.buf, ", offsets, ", ", id, ", buf)\\n")
	st.Write(indent, "}\\n\\n")
}

const offsets =''')
ref('h-number-local',G,'''	fieldGoName := toGoCase(f.GetName())
	fieldGoType, fieldFnName := fieldToGoTypeSimple(f.GetType())
''','''	fieldGoName, id := toGoCase(f.GetName()), f.GetNumber()
	fieldGoType, fieldFnName := fieldToGoTypeSimple(f.GetType())
	args := []interface{}{"(m.buf, ", offsets, ", ", id, ")\\n"}
''',G,'''	st.Write(indent.Next(), "return zeropb.Get", fieldFnName, "(m.buf, ", offsets, ", ", f.GetNumber(), ")\\n")
''','''	st.Write(indent.Next(), "return zeropb.Get", fieldFnName)
	st.Write(args...)
''')
ref('h-label-if',G,'''		switch f.GetLabel() {
		case FieldDescriptorProto_LABEL_OPTIONAL, FieldDescriptorProto_LABEL_REQUIRED:
			switch f.GetType() {
			case FieldDescriptorProto_TYPE_MESSAGE:
				generateMessageField(st, indent, messageGoType, *f)
			default:
				generateSimpleField(st, indent, messageGoType, *f)
			}
		case FieldDescriptorProto_LABEL_REPEATED:
			switch f.GetType() {
			case FieldDescriptorProto_TYPE_MESSAGE:
				generateRepeatedMessageField(st, indent, messageGoType, *f, iterators)
			default:
				// WIP implement repeated simple fields
				continue
			}
		}
''','''		label := f.GetLabel()
		isMessage := f.GetType() == FieldDescriptorProto_TYPE_MESSAGE
		if label == FieldDescriptorProto_LABEL_REPEATED {
			if isMessage {
				generateRepeatedMessageField(st, indent, messageGoType, *f, iterators)
			}
			// WIP implement repeated simple fields
		} else if label == FieldDescriptorProto_LABEL_OPTIONAL || label == FieldDescriptorProto_LABEL_REQUIRED {
			if isMessage {
				generateMessageField(st, indent, messageGoType, *f)
			} else {
				generateSimpleField(st, indent, messageGoType, *f)
			}
		}
''')
ref('h-index-fields',G,'''	for _, f := range m.Field {
		if f == nil {
			continue
		}
		switch''','''	for i := 0; i < len(m.Field); i++ {
		f := m.Field[i]
		if f == nil {
			continue
		}
		switch''',G,'''	for _, f := range m.Field {
		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
		}
	}
''','''	for i := len(m.Field) - 1; i >= 0; i-- {
		if id := m.Field[i].GetNumber(); id > largestFieldID {
			largestFieldID = id
		}
	}
''')
ref('h-repeated-collect',G,'''	for _, f := range m.Field {
		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED {
			st.Write(indent.Next(), int32(f.GetNumber()), ": struct{}{},\\n")
		}
	}
''','''	var repeated []int32
	for _, f := range m.Field {
		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED {
			repeated = append(repeated, f.GetNumber())
		}
	}
	for _, id := range repeated {
		st.Write(indent.Next(), id, ": struct{}{},\\n")
	}
''')
ref('h-split-parts',G,'''	st.Write(indent, "var repeatedFields_", messageGoType, " = zeropb.RepeatedFields{\\n")
	for _, f := range m.Field {
		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED {
			st.Write(indent.Next(), int32(f.GetNumber()), ": struct{}{},\\n")
		}
	}
	st.Write(indent, "}\\n\\n")

	st.Write(indent, "func (m *", messageGoType, ") Encode() []byte {\\n")
''','''	generateRepeatedFields(st, indent, messageGoType, m.GetField())

	st.Write(indent, "func (m *", messageGoType, ") Encode() []byte {\\n")
''',G,'''const offsets =''','''func generateRepeatedFields(
	st *StringTree, indent StringTreeIndent, messageGoType string, fields []*FieldDescriptorProto,
) {
	st.Write(indent, "var repeatedFields_", messageGoType, " = zeropb.RepeatedFields{\\n")
	for _, f := range fields {
		if !isRepeated(f) {
			continue
		}
		st.Write(indent.Next(), f.GetNumber(), ": struct{}{},\\n")
	}
	st.Write(indent, "}\\n\\n")
}

func isRepeated(f *FieldDescriptorProto) bool {
	return f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED
}

const offsets =''')
ref('h-iterators-list',G,'''	iterators := map[string]struct{}{}
''','''	var iterators []string
''',G,'''generateRepeatedMessageField(st, indent, messageGoType, *f, iterators)''','''iterators = generateRepeatedMessageField(st, indent, messageGoType, *f, iterators)''',G,'''	iterators map[string]struct{},
) {''','''	iterators []string,
) []string {''',G,'''	if _, ok := iterators[itGoType]; ok {
		// Another field of this message has the same type, use the name instead.
		itGoType = messageGoType + fieldGoName + "Iterator"
	}
	iterators[itGoType] = struct{}{}
''','''	for _, other := range iterators {
		if other == itGoType {
			// Another field of this message has the same type, use the name instead.
			itGoType = messageGoType + fieldGoName + "Iterator"
			break
		}
	}
	iterators = append(iterators, itGoType)
''',G,'''	st.Write(indent.Next(), "zeropb.AppendBytes(&m.buf, ", offsets, ", ", f.GetNumber(), ", buf)\\n")
	st.Write(indent, "}\\n\\n")
''','''	st.Write(indent.Next(), "zeropb.AppendBytes(&m.buf, ", offsets, ", ", f.GetNumber(), ", buf)\\n")
	st.Write(indent, "}\\n\\n")
	return iterators
''')
ref('h-response-new',G,'''	content := buf.String()
	res := &CodeGeneratorResponse_File{Name: &name, Content: &content}
	return res, nil
''','''	res := new(CodeGeneratorResponse_File)
	res.Name = &name
	res.Content = stringPtr(buf.String())
	return res, nil
''',G,'''const offsets =''','''func stringPtr(s string) *string { return &s }

const offsets =''')
ref('h-local-tree',G,'''	var buf strings.Builder
	st := NewStringTree(&buf, `  `)
	var indent StringTreeIndent
''','''	buf := &strings.Builder{}
	st, indent := NewStringTree(buf, "  "), StringTreeIndent(0)
''')
ref('h-indent-local',G,'''	st.Write(indent, "type ", messageGoType, " struct {\\n")
	st.Write(indent.Next(), "buf []byte\\n")
	st.Write(indent.Next(), "offsets struct {\\n")
	st.Write(indent.Next().Next(), "a [", largestFieldID+1, "]uint16\\n")
	st.Write(indent.Next().Next(), "m map[int]uint64\\n")
	st.Write(indent.Next(), "}\\n")
	st.Write(indent, "}\\n\\n")
''','''	in1 := indent.Next()
	in2 := in1.Next()
	numOffsets := largestFieldID + 1
	st.Write(indent, "type ", messageGoType, " struct {\\n")
	st.Write(in1, "buf []byte\\n")
	st.Write(in1, "offsets struct {\\n")
	st.Write(in2, "a [", numOffsets, "]uint16\\n")
	st.Write(in2, "m map[int]uint64\\n")
	st.Write(in1, "}\\n")
	st.Write(indent, "}\\n\\n")
''')
ref('h-lines-table',G,'''	st.Write(indent, "func (m *", messageGoType, ") Reset(buf []byte) {\\n")
	st.Write(indent.Next(), "if len(buf) > 0 {\\n")
	st.Write(indent.Next().Next(), "panic(`buf must be empty`)\\n")
	st.Write(indent.Next(), "}\\n")
	st.Write(indent.Next(), "m.buf = buf\\n")
	st.Write(indent.Next(), offsets, ".Clear()\\n")
	st.Write(indent, "}\\n\\n")
''','''	for _, l := range []struct {
		depth int
		text  string
	}{
		{0, "func (m *" + messageGoType + ") Reset(buf []byte) {\\n"},
		{1, "if len(buf) > 0 {\\n"},
		{2, "panic(`buf must be empty`)\\n"},
		{1, "}\\n"},
		{1, "m.buf = buf\\n"},
		{1, offsets + ".Clear()\\n"},
		{0, "}\\n\\n"},
	} {
		st.Write(indent+StringTreeIndent(l.depth), l.text)
	}
''')
ref('h-methods',G,'''func generateSimpleField(
	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
) {''','''func (st *StringTree) generateSimpleField(
	indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
) {''',G,'''generateSimpleField(st, indent, messageGoType, *f)''','''st.generateSimpleField(indent, messageGoType, *f)''')
ref('h-ctx-struct',G,'''func generateMessageField(
	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
) {
''','''type fieldContext struct {
	*StringTree
	indent        StringTreeIndent
	messageGoType string
	field         *FieldDescriptorProto
}

func generateMessageField(c fieldContext) {
	st, indent, messageGoType, f := c.StringTree, c.indent, c.messageGoType, c.field
''',G,'''generateMessageField(st, indent, messageGoType, *f)''','''generateMessageField(fieldContext{st, indent, messageGoType, f})''')
ref('h-simple-type-struct',G,'''	fieldGoType, fieldFnName := fieldToGoTypeSimple(f.GetType())

''','''	var simple struct{ goType, fnName string }
	simple.goType, simple.fnName = fieldToGoTypeSimple(f.GetType())
	fieldGoType, fieldFnName := simple.goType, simple.fnName

''')
ref('h-defer-close',G,'''	st.Write(indent, "func (m *", messageGoType, ") Encode() []byte {\\n")
	st.Write(indent.Next(), "return m.buf\\n")
	st.Write(indent, "}\\n\\n")
''','''	func() {
		st.Write(indent, "func (m *", messageGoType, ") Encode() []byte {\\n")
		defer st.Write(indent, "}\\n\\n")
		st.Write(indent.Next(), "return m.buf\\n")
	}()
''')
ref('h-header-const',G,'''	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\\n\\n")
	// TODO(dan): Use the go package if it's set.
	st.Write(indent, "package ", req.GetPackage(), "\\n\\n")
''','''	// TODO(dan): Use the go package if it's set.
	st.Write(indent, header, "package ", req.GetPackage(), "\\n\\n")
''',G,'''const offsets =''','''const header = `// Code generated by protoc-gen-zeropb. DO NOT EDIT.

`

const offsets =''')
ref('h-join',G,'''	st.Write(indent, "func (m *", messageGoType, ") ", fieldGoName, "() ", itGoType, " {\\n")
''','''	st.Write(indent, strings.Join([]string{"func (m *", messageGoType, ") ", fieldGoName, "() ", itGoType, " {\\n"}, ""))
''')
ref('h-typename-last',G,'''	if idx := strings.LastIndex(typName, `.`); idx != -1 {
		typName = typName[idx+1:]
	}
	return typName
''','''	idx := strings.LastIndex(typName, ".")
	if idx < 0 {
		return typName
	}
	return typName[idx+len("."):]
''')
ref('h-typename-loop',G,'''	if idx := strings.LastIndex(typName, `.`); idx != -1 {
		typName = typName[idx+1:]
	}
	return typName
''','''	for i := len(typName) - 1; i >= 0; i-- {
		if typName[i] == '.' {
			return typName[i+1:]
		}
	}
	return typName
''')
ref('h-typename-index',G,'''	if idx := strings.LastIndex(typName, `.`); idx != -1 {
		typName = typName[idx+1:]
	}
	return typName
''','''	for {
		idx := strings.IndexByte(typName, '.')
		if idx == -1 {
			return typName
		}
		typName = typName[idx+1:]
	}
''')
ref('h-type-if',G,'''	case FieldDescriptorProto_TYPE_ENUM:
		return `uint32`, `Uint32`
	}
	panic(typ)
''','''	case FieldDescriptorProto_TYPE_ENUM:
		return `uint32`, `Uint32`
	default:
		panic(typ)
	}
''')
ref('h-gocase-closure-var',G,'''	titleNext := true
	mapFn := func(r rune) rune {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			titleNext = true
			return -1
		}
		if titleNext {
			titleNext = false
			return unicode.ToTitle(r)
		}
		return r
	}
	return strings.Map(mapFn, s)
''','''	prevIsWord := false
	return strings.Map(func(r rune) rune {
		isWord := unicode.IsLetter(r) || unicode.IsDigit(r)
		wasWord := prevIsWord
		prevIsWord = isWord
		switch {
		case !isWord:
			return -1
		case wasWord:
			return r
		default:
			return unicode.ToTitle(r)
		}
	}, s)
''')
ref('h-gocase-runeslice',G,'''	titleNext := true
	mapFn := func(r rune) rune {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			titleNext = true
			return -1
		}
		if titleNext {
			titleNext = false
			return unicode.ToTitle(r)
		}
		return r
	}
	return strings.Map(mapFn, s)
''','''	runes := []rune(s)
	out := make([]rune, 0, len(runes))
	for i, r := range runes {
		if !isWordRune(r) {
			continue
		}
		if i == 0 || !isWordRune(runes[i-1]) {
			r = unicode.ToTitle(r)
		}
		out = append(out, r)
	}
	return string(out)
''',G,'''const offsets =''','''func isWordRune(r rune) bool {
	return unicode.IsLetter(r) || unicode.IsDigit(r)
}

const offsets =''')
ref('h-gocase-state',G,'''	titleNext := true
	mapFn := func(r rune) rune {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			titleNext = true
			return -1
		}
		if titleNext {
			titleNext = false
			return unicode.ToTitle(r)
		}
		return r
	}
	return strings.Map(mapFn, s)
''','''	c := goCaser{titleNext: true}
	return strings.Map(c.next, s)
''',G,'''const offsets =''','''type goCaser struct{ titleNext bool }

func (c *goCaser) next(r rune) rune {
	if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
		c.titleNext = true
		return -1
	}
	if c.titleNext {
		c.titleNext = false
		r = unicode.ToTitle(r)
	}
	return r
}

const offsets =''')
ref('st-helper-write',ST,'''		case StringTreeIndent:
			_, st.err = st.w.Write([]byte(strings.Repeat(st.indent, int(x))))
		case []byte:
			_, st.err = st.w.Write(x)
		case string:
			_, st.err = st.w.Write([]byte(x))
		case fmt.Stringer:
			s := x.String()
			_, st.err = st.w.Write([]byte(s))
		case int32:
			_, st.err = st.w.Write([]byte(strconv.Itoa(int(x))))
''','''		case StringTreeIndent:
			st.writeString(strings.Repeat(st.indent, int(x)))
		case []byte:
			st.write(x)
		case string:
			st.writeString(x)
		case fmt.Stringer:
			st.writeString(x.String())
		case int32:
			st.writeString(strconv.FormatInt(int64(x), 10))
''',ST,'''// Error returns''','''func (st *StringTree) writeString(s string) { st.write([]byte(s)) }

func (st *StringTree) write(b []byte) {
	if st.err == nil {
		_, st.err = st.w.Write(b)
	}
}

// Error returns''')
ref('st-write-one',ST,'''	for _, str := range strs {
		if st.err != nil {
			return
		}
		switch''','''	for i := 0; i < len(strs) && st.err == nil; i++ {
		str := strs[i]
		switch''')
ref('st-bytes-first',ST,'''	for _, str := range strs {
		if st.err != nil {
			return
		}
		switch x := str.(type) {
		case StringTreeIndent:
			_, st.err = st.w.Write([]byte(strings.Repeat(st.indent, int(x))))
		case []byte:
			_, st.err = st.w.Write(x)
		case string:
			_, st.err = st.w.Write([]byte(x))
		case fmt.Stringer:
			s := x.String()
			_, st.err = st.w.Write([]byte(s))
		case int32:
			_, st.err = st.w.Write([]byte(strconv.Itoa(int(x))))
		default:
			panic(fmt.Sprintf(`unknown %T: %v`, str, str))
		}
	}
''','''	for _, str := range strs {
		if st.err != nil {
			return
		}
		_, st.err = st.w.Write(st.bytes(str))
	}
''',ST,'''// Error returns''','''func (st *StringTree) bytes(str interface{}) []byte {
	switch x := str.(type) {
	case StringTreeIndent:
		return []byte(strings.Repeat(st.indent, int(x)))
	case []byte:
		return x
	case string:
		return []byte(x)
	case fmt.Stringer:
		return []byte(x.String())
	case int32:
		return []byte(strconv.Itoa(int(x)))
	}
	panic(fmt.Sprintf(`unknown %T: %v`, str, str))
}

// Error returns''')
ref('st-indent-method',ST,'''			_, st.err = st.w.Write([]byte(strings.Repeat(st.indent, int(x))))
''','''			_, st.err = st.w.Write(x.bytes(st.indent))
''',ST,'''// StringTree is''','''func (i StringTreeIndent) bytes(step string) []byte {
	var b []byte
	for ; i > 0; i-- {
		b = append(b, step...)
	}
	return b
}

// StringTree is''',ST,'''	"strconv"
	"strings"
''','''	"strconv"
''')
