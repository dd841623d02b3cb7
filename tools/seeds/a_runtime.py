T='package zeropb\n\nimport (\n%s)\n\n'
def imp(*a): return T%"".join('\t"%s"\n'%x for x in a)
H='''func demoOffsets(n int) ([]uint16, *map[int]uint64, Offsets) {
	a, m := make([]uint16, n), new(map[int]uint64)
	return a, m, WrapOffsets(a, m)
}

'''
bug("decode-tag-fastpath","C01",[("zeropb.go","\t\ttag, size := binary.Uvarint(buf[idx:])\n\t\tif size <= 0 {\n\t\t\treturn io.ErrUnexpectedEOF","\t\t// Most tags have one or two bytes.\n\t\ttag, size := uint64(buf[idx]), 1\n\t\tif tag >= 0x80 && buf[idx+1] < 0x80 {\n\t\t\ttag, size = tag&0x7f|uint64(buf[idx+1])<<7, 2\n\t\t} else if tag >= 0x80 {\n\t\t\ttag, size = binary.Uvarint(buf[idx:])\n\t\t}\n\t\tif size <= 0 {\n\t\t\treturn io.ErrUnexpectedEOF")],
imp("testing")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(8)
	if err := Decode([]byte{0x08, 0x01, 0x90}, o, nil); err == nil {
		t.Fatal("no error")
	}
}
''',"an input that ends in the first byte of a tag of several bytes","Decode panics with an index out of range on a truncated tag")
bug("decode-id-alias","C03",[("zeropb.go","\t\tfieldID := int(tag >> 3)\n","\t\tfieldID := int(uint8(tag >> 3))\n")],
imp("testing")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(4)
	buf := []byte{0x08, 0x07, 0x88, 0x10, 0x63} // field 1 = 7, field 257 = 99
	if err := Decode(buf, o, nil); err != nil {
		t.Fatal(err)
	}
	if x := GetUint64(buf, o, 1); x != 7 {
		t.Fatal("field 1 is", x)
	}
}
''',"an input with an unknown field whose number is 256 more than that of a known one","the unknown field 257 is indexed as field 1")
bug("adjust-sentinel","C08",[("zeropb.go","if offset != math.MaxUint16 && uint64(offset) > fieldEnd {","if uint64(offset) > fieldEnd {")],
imp("testing","bytes")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(8)
	var buf []byte
	SetBytes(&buf, o, 3, bytes.Repeat([]byte{3}, 100))
	SetBytes(&buf, o, 1, bytes.Repeat([]byte{1}, 65500))
	SetUint64(&buf, o, 2, 5) // just beyond 64KiB
	SetBytes(&buf, o, 3, []byte{1}) // 2 is now below 64KiB
	SetBytes(&buf, o, 1, []byte{1})
	if x := GetUint64(buf, o, 2); x != 5 {
		t.Fatal("field 2 is", x)
	}
}
''',"a field whose offset crosses from above to below 64KiB when an earlier field shrinks, and then another removal","the array entry that says the offset is in the map is adjusted like an offset, so the map entry is left behind when the field moves to the array, and a later removal restores the stale offset")
bug("adjust-order","C08",[("zeropb.go",'''		for fieldID, offset := range offsets.a {
			if offset != math.MaxUint16 && uint64(offset) > fieldEnd {
				// Guaranteed to still be > 0 and < MaxOffsetInArray.
				offsets.a[fieldID] = offset - uint16(removedBytes)
			}
		}
		if offsets.m != nil {
			for fieldID, offset := range *offsets.m {
				if offset > fieldEnd {
					offsets.Set(fieldID, offset-removedBytes)
				}
			}
		}
''','''		if offsets.m != nil {
			for fieldID, offset := range *offsets.m {
				if offset > fieldEnd {
					offsets.Set(fieldID, offset-removedBytes)
				}
			}
		}
		for fieldID, offset := range offsets.a {
			if offset != math.MaxUint16 && uint64(offset) > fieldEnd {
				// Guaranteed to still be > 0 and < MaxOffsetInArray.
				offsets.a[fieldID] = offset - uint16(removedBytes)
			}
		}
''')],
imp("testing","bytes")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(8)
	var buf []byte
	SetBytes(&buf, o, 3, bytes.Repeat([]byte{3}, 100))
	SetBytes(&buf, o, 1, bytes.Repeat([]byte{1}, 65500))
	SetUint64(&buf, o, 2, 5) // just beyond 64KiB
	SetBytes(&buf, o, 3, []byte{1})
	if x := GetUint64(buf, o, 2); x != 5 {
		t.Fatal("field 2 is", x)
	}
}
''',"a field whose offset crosses the 64KiB boundary when an earlier field shrinks","the offset is moved from the map to the array and then adjusted a second time")
bug("int32-sign","C06",[("zeropb.go","func SetInt32(buf *[]byte, offsets Offsets, fieldID int, x int32) {\n\t// WIP huh? var scratch [binary.MaxVarintLen32]byte\n\tvar scratch [binary.MaxVarintLen64]byte\n\tn := binary.PutUvarint(scratch[:], uint64(x))","func SetInt32(buf *[]byte, offsets Offsets, fieldID int, x int32) {\n\tvar scratch [binary.MaxVarintLen32]byte\n\tn := binary.PutUvarint(scratch[:], uint64(uint32(x)))")],
imp("testing","bytes")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(8)
	var buf []byte
	SetInt32(&buf, o, 1, -1)
	if want := []byte{0x08, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}; !bytes.Equal(buf, want) {
		t.Fatalf("% x", buf)
	}
}
''',"a negative int32","negative int32 values are written as 5 bytes without sign extension, which a reader of an int64 (or a strict one) sees as a large positive number")
bug("bool-nonminimal","C05",[("zeropb.go","\tx, _ := binary.Uvarint(buf[offset:])\n\treturn x > 0\n","\treturn buf[offset] == 1\n")],
imp("testing")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(8)
	buf := []byte{0x08, 0x81, 0x00, 0x10, 0x02}
	if err := Decode(buf, o, nil); err != nil {
		t.Fatal(err)
	}
	if !GetBool(buf, o, 1) || !GetBool(buf, o, 2) {
		t.Fatal("false")
	}
}
''',"a true bool that is encoded as a non-minimal varint or as another nonzero value","GetBool returns false for true values that aren't the single byte 1")
bug("iter-sorted","C10",[("zeropb.go","\t\tif f == field {\n\t\t\treturn buf[idx:], msg\n\t\t}\n","\t\tif f == field {\n\t\t\treturn buf[idx:], msg\n\t\t} else if f > field {\n\t\t\t// Encoders write the fields in order.\n\t\t\treturn nil, msg\n\t\t}\n")],
imp("testing")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(8)
	buf := []byte{0x0a, 0x01, 'a', 0x10, 0x05, 0x0a, 0x01, 'b'}
	if err := Decode(buf, o, RepeatedFields{1: {}}); err != nil {
		t.Fatal(err)
	}
	n := 0
	for rest := GetRepeatedNonPacked(buf, o, 1); rest != nil; n++ {
		rest, _ = FindNextField(rest, 1)
	}
	if n != 2 {
		t.Fatal(n, "elements")
	}
}
''',"elements of a repeated field with a field of a larger number between them","the iterator ends at the first field with a larger number")
bug("string-alloc","C13",[("zeropb.go","\treturn *(*string)(unsafe.Pointer(&data))\n}\n\n// GetBytes","\treturn string(data)\n}\n\n// GetBytes")],
imp("testing")+H+'''var demoSink string

func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(8)
	var buf []byte
	SetString(&buf, o, 1, "a string that is longer than thirty-two bytes")
	if n := testing.AllocsPerRun(100, func() { demoSink = GetString(buf, o, 1) }); n != 0 {
		t.Fatal(n, "allocations")
	}
}
''',"reading a string while counting allocations","GetString copies the string to the heap on every read")
bug("len16","C07",[("zeropb.go","\tn := binary.PutUvarint(scratch[:], uint64(len(data)))\n","\tn := binary.PutUvarint(scratch[:], uint64(uint16(len(data))))\n")],
imp("testing","strings")+H+'''func TestZPVDemo(t *testing.T) {
	_, _, o := demoOffsets(8)
	var buf []byte
	s := strings.Repeat("x", 70000)
	SetString(&buf, o, 1, s)
	if GetString(buf, o, 1) != s {
		t.Fatal("not read back")
	}
}
''',"a string of 64KiB or more","the length prefix is truncated to 16 bits")
