GT='package generate\n\nimport (\n%s)\n\n'
def gimp(*a): return GT%"".join('\t"%s"\n'%x for x in a)
GH='''func demoStr(s string) *string { return &s }
func demoI32(i int32) *int32 { return &i }

func demoField(name string, num int32, l FieldDescriptorProto_Label, t FieldDescriptorProto_Type, tn string) *FieldDescriptorProto {
	f := &FieldDescriptorProto{Name: &name, Number: &num, Label: &l, Type: &t}
	if tn != "" {
		f.TypeName = &tn
	}
	return f
}

func demoGen(t *testing.T, name string, fs ...*FieldDescriptorProto) *CodeGeneratorResponse_File {
	res, err := Generate(&CodeGeneratorRequest{
		FileToGenerate: []string{name},
		ProtoFile: []*FileDescriptorProto{{Name: &name, Package: demoStr("p"), MessageType: []*DescriptorProto{{Name: demoStr("M"), Field: fs}}}},
	})
	if err != nil || len(res.File) != 1 {
		t.Fatal(res, err)
	}
	return res.File[0]
}

'''
bug("decode-skip-group","C02",[("zeropb.go","\t\t// fmt.Printf(\"tag=%x field=%d typ=%d idx=%d\\n\", tag, fieldID, typ, idx)\n","\t\tif typ == proto.WireStartGroup || typ == proto.WireEndGroup {\n\t\t\t// Groups are deprecated, ignore the markers.\n\t\t\tcontinue\n\t\t}\n")],
imp("testing")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(8)
	if err := Decode([]byte{0x0b, 0x10, 0x01}, o, nil); err == nil {
		t.Fatal("no error")
	}
}
''',"an input with a group marker (wire type 3 or 4) before another field","Decode accepts inputs with group markers, without their being balanced")
bug("offset-boundary","C04",[("offsets.go","	if offset <= uint64(offsetMaxInArray) {","	if offset <= math.MaxUint16 {")],
imp("testing")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(4)
	o.Set(1, 70000)
	o.Set(1, 65535)
	if x, ok := o.Get(1); !ok || x != 65535 {
		t.Fatal(x, ok)
	}
}
''',"a field exactly at offset 65535","the offset is stored as the sentinel that says it is in the map, where there is nothing")
bug("fixed-underflow","C09",[("zeropb.go","""	if !ok || uint64(len(buf)) < offset+4 {
		return 0
	}
	return binary.LittleEndian.Uint32(buf[offset : offset+4])
""","""	if !ok || uint64(len(buf)-4) < offset {
		return 0
	}
	return binary.LittleEndian.Uint32(buf[offset : offset+4])
""")],
imp("testing")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(4)
	buf := []byte{0x08, 0x01} // a varint
	if err := Decode(buf, o, nil); err != nil {
		t.Fatal(err)
	}
	if x := GetFixedUint32(buf, o, 1); x != 0 {
		t.Fatal(x)
	}
}
''',"a message of less than 4 bytes in which the fixed32 field has another wire type","the subtraction underflows and GetFixedUint32 panics")
bug("shared-scratch","C11",[("zeropb.go","""	var scratch [1]byte
	if x {
		scratch[0] = 1
	}
	var valLen, val []byte = nil, scratch[:]
""","""	scratch := boolScratch[:]
	scratch[0] = 0
	if x {
		scratch[0] = 1
	}
	var valLen, val []byte = nil, scratch
"""),("zeropb.go","// SetBool set an encoded bool","var boolScratch [1]byte\n\n// SetBool set an encoded bool")],
imp("sync","testing","time")+H+'''func TestZPVDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make([]int, 2)
	for g := 0; g < 2; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, _, o := demoOffsets(4)
			var buf []byte
			for end := time.Now().Add(3 * time.Second); time.Now().Before(end); {
				SetBool(&buf, o, 1, g == 0)
				if GetBool(buf, o, 1) != (g == 0) {
					bad[g]++
				}
			}
		}()
	}
	wg.Wait()
	if bad[0]+bad[1] > 0 {
		t.Fatal(bad)
	}
}
''',"setters of two unrelated messages in two goroutines","all messages share the scratch byte, so that one goroutine's value can end up in the other's message")
bug("iter-cap","C12",[("zeropb.go","	return nil, msg\n}","	// The last one.\n	return nil, buf[lenSize:msgEnd]\n}")],
imp("testing")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(4)
	buf := []byte{0x0a, 0x01, 'a', 0x10, 0x05}
	if err := Decode(buf, o, RepeatedFields{1: {}}); err != nil {
		t.Fatal(err)
	}
	_, el := FindNextField(GetRepeatedNonPacked(buf, o, 1), 1)
	_ = append(el, 0x18, 0x09)
	if x := GetUint64(buf, o, 2); x != 5 || buf[3] != 0x10 {
		t.Fatal("field 2 is", x)
	}
}
''',"appending to the last element of a repeated field that another field follows","the last element has the rest of the message as spare capacity, which a setter on the element overwrites")
bug("required-tail","C15",[("generate/generate.go","		if id := f.GetNumber(); id > largestFieldID {","		if id := f.GetNumber(); id > largestFieldID && f.GetLabel() != FieldDescriptorProto_LABEL_REQUIRED {")],
gimp("strings","testing")+GH+'''func TestZPVDemo(t *testing.T) {
	f := demoGen(t, "a.proto",
		demoField("x", 1, FieldDescriptorProto_LABEL_OPTIONAL, FieldDescriptorProto_TYPE_INT32, ""),
		demoField("y", 7, FieldDescriptorProto_LABEL_REQUIRED, FieldDescriptorProto_TYPE_INT32, ""))
	if !strings.Contains(f.GetContent(), "a [8]uint16") {
		t.Fatal(f.GetContent())
	}
}
''',"a message in which the field with the largest number is required","the index of the message has no room for the field, so every accessor of it panics",dir="generate")
bug("name-dots","C16",[("generate/generate.go","strings.TrimSuffix(req.GetName(), `.proto`)","strings.SplitN(req.GetName(), `.`, 2)[0]")],
gimp("testing")+GH+'''func TestZPVDemo(t *testing.T) {
	if f := demoGen(t, "a/v1.2/b.proto"); f.GetName() != "a/v1.2/b.zeropb.go" {
		t.Fatal(f.GetName())
	}
}
''',"a file with a dot in its path","the output's name is cut off at the first dot, so that several files get the same one",dir="generate")
bug("last-file-only","C16",[("generate/generate.go","		if _, ok := filesToGenerate[fileReq.GetName()]; !ok {\n			continue\n		}\n","		if _, ok := filesToGenerate[fileReq.GetName()]; !ok {\n			continue\n		}\n		if len(files) > 0 && files[len(files)-1].GetName() > fileReq.GetName() {\n			// The compiler sorts the files.\n			continue\n		}\n")],
gimp("testing")+GH+'''func TestZPVDemo(t *testing.T) {
	res, err := Generate(&CodeGeneratorRequest{
		FileToGenerate: []string{"a.proto", "b.proto"},
		ProtoFile:      []*FileDescriptorProto{{Name: demoStr("b.proto"), Package: demoStr("p")}, {Name: demoStr("a.proto"), Package: demoStr("p")}},
	})
	if err != nil || len(res.File) != 2 {
		t.Fatal(res, err)
	}
}
''',"two files of which the imported one sorts after the one that imports it","a requested file is left out of the response",dir="generate")
PSH='''#!/bin/bash
# Exits 0 on the unchanged tree and nonzero with the change (cwd: the repository).
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
%s
'''
bug("full-disk","C17",[("cmd/protoc-gen-zeropb/main.go","""	if _, err := os.Stdout.Write(resBytes); err != nil {
		return err
	}
	return nil
""","""	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	if _, err := w.Write(resBytes); err != nil {
		return err
	}
	return nil
"""),("cmd/protoc-gen-zeropb/main.go",'import (\n','import (\n\t"bufio"\n')],"","standard output that fails (a full disk, a closed pipe), and a response of at most 4KiB","the error of the write is lost in the deferred flush, and the plugin exits with 0",
sh=PSH%'''go build -o "$tmp/gen" ./cmd/protoc-gen-zeropb || exit 3
printf '\\x0a\\x07a.proto\\x7a\\x0c\\x0a\\x07a.proto\\x12\\x01p' >"$tmp/req"
"$tmp/gen" <"$tmp/req" >"$tmp/out" || exit 4
[ -s "$tmp/out" ] || exit 5
if "$tmp/gen" <"$tmp/req" >/dev/full 2>/dev/null; then
	echo "exit status 0 although nothing was written"
	exit 1
fi
exit 0
''')
bug("oneof-zigzag","C18",[("generate/descriptor.pb.go",'protobuf:"varint,9,opt,name=oneof_index','protobuf:"zigzag32,9,opt,name=oneof_index')],
gimp("testing","github.com/golang/protobuf/proto")+'''func TestZPVDemo(t *testing.T) {
	var f FieldDescriptorProto
	if err := proto.Unmarshal([]byte{0x48, 0x01}, &f); err != nil {
		t.Fatal(err)
	}
	if f.OneofIndex == nil || *f.OneofIndex != 1 {
		t.Fatal(f.String())
	}
}
''',"a binary request from protoc (the tests parse text) with a field in a oneof other than the first","oneof_index is read with the wrong encoding: 1 becomes -1",dir="generate")
bug("type-default","C19",[("generate/descriptor.pb.go","		return *m.Type\n	}\n	return FieldDescriptorProto_TYPE_DOUBLE\n","		return *m.Type\n	}\n	return FieldDescriptorProto_TYPE_MESSAGE\n")],
gimp("testing")+'''func TestZPVDemo(t *testing.T) {
	if x := new(FieldDescriptorProto).GetType(); x != FieldDescriptorProto_TYPE_DOUBLE {
		t.Fatal(x)
	}
}
''',"a field without a type","the default of an enum field is not its first declared value",dir="generate")
R="golden/raftzeropb/raft.zeropb.go"; TT="golden/testzeropb/test.zeropb.go"
bug("decode-checks-sub","C21",[("zeropb.go","""		fieldID := int(tag >> 3)
		typ := tag & 0x7
		// fmt.Printf("tag=%x field=%d typ=%d idx=%d\\n", tag, fieldID, typ, idx)
""","""		fieldID := int(tag >> 3)
		typ := tag & 0x7
		if _, ok := repeatedFields[fieldID]; ok && typ == proto.WireBytes {
			// Warm the cache for the iterator.
			for next, _ := FindNextField(buf[idx:], fieldID); next != nil; {
				next, _ = FindNextField(next, fieldID)
			}
		}
""")],
imp("testing","time")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(4)
	var buf []byte
	for i := 0; i < 200000; i++ {
		buf = append(buf, 0x0a, 0x01, 0)
	}
	done := make(chan error, 1)
	go func() { done <- Decode(buf, o, RepeatedFields{1: {}}) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("quadratic")
	}
}
''',"a message with many elements of a repeated field","Decode visits the rest of the message for each of the elements, which takes quadratic time")
