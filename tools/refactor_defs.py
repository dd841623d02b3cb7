Z='zeropb.go'; O='offsets.go'
ref('clear-index',O,'''	for i := range o.a {
		o.a[i] = offsetUnset
	}
	if *o.m != nil {
		for f := range *o.m {
			delete(*o.m, f)
		}
	}''','''	for i := 0; i < len(o.a); i++ {
		o.a[i] = offsetUnset
	}
	for f := range *o.m {
		delete(*o.m, f)
	}''')
ref('clear-backwards',O,'''	for i := range o.a {
		o.a[i] = offsetUnset
	}
''','''	for i := len(o.a) - 1; i >= 0; i-- {
		o.a[i] = offsetUnset
	}
''')
ref('clear-map-first',O,'''	for i := range o.a {
		o.a[i] = offsetUnset
	}
	if *o.m != nil {
		for f := range *o.m {
			delete(*o.m, f)
		}
	}''','''	m := *o.m
	for f := range m {
		delete(m, f)
	}
	a := o.a
	for i, x := range a {
		if x != offsetUnset {
			a[i] = offsetUnset
		}
	}''')
ref('clear-nil-map',O,'''	if *o.m != nil {
		for f := range *o.m {
			delete(*o.m, f)
		}
	}''','''	if len(*o.m) > 0 {
		for f := range *o.m {
			delete(*o.m, f)
		}
	}''')
ref('set-early-return',O,'''	if offset <= uint64(offsetMaxInArray) {
		if previous := o.a[fieldID]; previous == offsetInMap {
			delete(*o.m, fieldID)
		}
		o.a[fieldID] = uint16(offset)
	} else {
		// No need to check what was previously in the array, just
		// unconditionally overwrite it.
		o.a[fieldID] = offsetInMap
		if *o.m == nil {
			// TODO(dan): Preallocate this with a capacity of the number of
			// field ids to make sure it's only ever 1 allocation.
			*o.m = make(map[int]uint64, fieldID)
		}
		(*o.m)[fieldID] = offset
	}''','''	if offset > uint64(offsetMaxInArray) {
		o.setInMap(fieldID, offset)
		return
	}
	if o.a[fieldID] == offsetInMap {
		delete(*o.m, fieldID)
	}
	o.a[fieldID] = uint16(offset)''',O,'''// Clear removes all''','''// setInMap stores an offset that's too large for the array.
func (o Offsets) setInMap(fieldID int, offset uint64) {
	m := *o.m
	if m == nil {
		m = make(map[int]uint64)
		*o.m = m
	}
	m[fieldID] = offset
	o.a[fieldID] = offsetInMap
}

// Clear removes all''')
ref('get-switch',O,'''	if offset := o.a[fieldID]; offset != offsetInMap {
		return uint64(offset), offset != offsetUnset
	}
	// If the array had the sentinel, the map is guaranteed to exist and the
	// value is guaranteed to be set.
	return (*o.m)[fieldID], true''','''	switch offset := o.a[fieldID]; offset {
	case offsetUnset:
		return 0, false
	case offsetInMap:
		return (*o.m)[fieldID], true
	default:
		return uint64(offset), true
	}''')
ref('get-named',O,'''func (o Offsets) Get(fieldID int) (uint64, bool) {
	if offset := o.a[fieldID]; offset != offsetInMap {
		return uint64(offset), offset != offsetUnset
	}
	// If the array had the sentinel, the map is guaranteed to exist and the
	// value is guaranteed to be set.
	return (*o.m)[fieldID], true''','''func (o Offsets) Get(fieldID int) (offset uint64, ok bool) {
	offset = uint64(o.a[fieldID])
	ok = offset != uint64(offsetUnset)
	if offset == uint64(offsetInMap) {
		offset = (*o.m)[fieldID]
	}
	return offset, ok''')
ref('get-commaok',O,'''	return (*o.m)[fieldID], true''','''	offset, ok := (*o.m)[fieldID]
	return offset, ok''')
ref('get-uvarint-helper',Z,'''func GetInt32(buf []byte, offsets Offsets, fieldID int) int32 {
	offset, ok := offsets.Get(fieldID)
	if !ok {
		return 0
	}
	x, _ := binary.Uvarint(buf[offset:])
	return int32(x)
}''','''func GetInt32(buf []byte, offsets Offsets, fieldID int) int32 {
	return int32(getVarint(buf, offsets, fieldID))
}

func getVarint(buf []byte, offsets Offsets, fieldID int) uint64 {
	if offset, ok := offsets.Get(fieldID); ok {
		x, _ := binary.Uvarint(buf[offset:])
		return x
	}
	return 0
}''',Z,'''	offset, ok := offsets.Get(fieldID)
	if !ok {
		return 0
	}
	x, _ := binary.Uvarint(buf[offset:])
	return int64(x)
''','''	return int64(getVarint(buf, offsets, fieldID))
''',Z,'''	offset, ok := offsets.Get(fieldID)
	if !ok {
		return 0
	}
	x, _ := binary.Uvarint(buf[offset:])
	return uint32(x)
''','''	return uint32(getVarint(buf, offsets, fieldID))
''',Z,'''	offset, ok := offsets.Get(fieldID)
	if !ok {
		return false
	}
	x, _ := binary.Uvarint(buf[offset:])
	return x > 0
''','''	return getVarint(buf, offsets, fieldID) != 0
''')
ref('zigzag-manual',Z,'''	x, _ := binary.Varint(buf[offset:])
	return x
}''','''	ux, _ := binary.Uvarint(buf[offset:])
	return int64(ux>>1) ^ -int64(ux&1)
}''')
ref('zigzag-if',Z,'''	x, _ := binary.Varint(buf[offset:])
	return x
}''','''	ux, _ := binary.Uvarint(buf[offset:])
	x := int64(ux >> 1)
	if ux&1 != 0 {
		x = ^x
	}
	return x
}''')
ref('fixed-helper',Z,'''func GetFixedUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
	offset, ok := offsets.Get(fieldID)
	if !ok || uint64(len(buf)) < offset+4 {
		return 0
	}
	return binary.LittleEndian.Uint32(buf[offset : offset+4])
}''','''func GetFixedUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
	if b := fixed(buf, offsets, fieldID, 4); b != nil {
		return binary.LittleEndian.Uint32(b)
	}
	return 0
}

func fixed(buf []byte, offsets Offsets, fieldID int, size uint64) []byte {
	offset, ok := offsets.Get(fieldID)
	if !ok || uint64(len(buf)) < offset+size {
		return nil
	}
	return buf[offset : offset+size]
}''',Z,'''	offset, ok := offsets.Get(fieldID)
	if !ok || uint64(len(buf)) < offset+8 {
		return 0
	}
	bits := binary.LittleEndian.Uint64(buf[offset : offset+8])
	return math.Float64frombits(bits)''','''	b := fixed(buf, offsets, fieldID, 8)
	if b == nil {
		return 0
	}
	return math.Float64frombits(binary.LittleEndian.Uint64(b))''')
ref('fixed-via-uint',Z,'''	offset, ok := offsets.Get(fieldID)
	if !ok || uint64(len(buf)) < offset+8 {
		return 0
	}
	return int64(binary.LittleEndian.Uint64(buf[offset : offset+8]))''','''	return int64(GetFixedUint64(buf, offsets, fieldID))''',Z,'''	var scratch [8]byte
	bits := math.Float64bits(x)
	binary.LittleEndian.PutUint64(scratch[:], bits)
	var valLen, val []byte = nil, scratch[:]
	setSingle(buf, offsets, fieldID, proto.WireFixed64, valLen, val)''','''	SetFixedUint64(buf, offsets, fieldID, math.Float64bits(x))''',Z,'''	var scratch [4]byte
	binary.LittleEndian.PutUint32(scratch[:], uint32(x))
	var valLen, val []byte = nil, scratch[:]
	setSingle(buf, offsets, fieldID, proto.WireFixed32, valLen, val)''','''	SetFixedUint32(buf, offsets, fieldID, uint32(x))''')
ref('fixed-manual',Z,'''	return binary.LittleEndian.Uint32(buf[offset : offset+4])
}

// GetFixedUint64''','''	b := buf[offset:]
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// GetFixedUint64''')
ref('getstring-stringheader',Z,'''	data := lengthDelimited(buf[offset:])
	return *(*string)(unsafe.Pointer(&data))''','''	if data := lengthDelimited(buf[offset:]); len(data) > 0 {
		return *(*string)(unsafe.Pointer(&data))
	}
	return ``''')
ref('getbytes-inline',Z,'''	return lengthDelimited(buf[offset:])
}''','''	data := buf[offset:]
	dataLen, lenSize := binary.Uvarint(data)
	if lenSize <= 0 {
		return nil
	}
	data = data[lenSize:]
	if uint64(len(data)) < dataLen {
		return nil
	}
	return data[:dataLen:dataLen]
}''')
ref('lendelim-order',Z,'''	if lenSize <= 0 || dataLen > uint64(len(buf)-lenSize) {
		return nil
	}
	// Limit''','''	if lenSize <= 0 {
		return nil
	}
	if rest := uint64(len(buf) - lenSize); rest < dataLen {
		return nil
	}
	// Limit''')
ref('setvarint-helper',Z,'''func SetInt32(buf *[]byte, offsets Offsets, fieldID int, x int32) {
	// WIP huh? var scratch [binary.MaxVarintLen32]byte
	var scratch [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(scratch[:], uint64(x))
	var valLen, val []byte = nil, scratch[:n]
	setSingle(buf, offsets, fieldID, proto.WireVarint, valLen, val)
}''','''func SetInt32(buf *[]byte, offsets Offsets, fieldID int, x int32) {
	setVarint(buf, offsets, fieldID, uint64(x))
}

func setVarint(buf *[]byte, offsets Offsets, fieldID int, x uint64) {
	var scratch [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(scratch[:], x)
	setSingle(buf, offsets, fieldID, proto.WireVarint, nil, scratch[:n])
}''',Z,'''	var scratch [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(scratch[:], x)
	var valLen, val []byte = nil, scratch[:n]
	setSingle(buf, offsets, fieldID, proto.WireVarint, valLen, val)''','''	setVarint(buf, offsets, fieldID, x)''',Z,'''	var scratch [binary.MaxVarintLen32]byte
	n := binary.PutUvarint(scratch[:], uint64(x))
	var valLen, val []byte = nil, scratch[:n]
	setSingle(buf, offsets, fieldID, proto.WireVarint, valLen, val)''','''	setVarint(buf, offsets, fieldID, uint64(x))''',Z,'''	var scratch [1]byte
	if x {
		scratch[0] = 1
	}
	var valLen, val []byte = nil, scratch[:]
	setSingle(buf, offsets, fieldID, proto.WireVarint, valLen, val)''','''	var v uint64
	if x {
		v = 1
	}
	setVarint(buf, offsets, fieldID, v)''')
ref('setstring-pointer',Z,'''	hdr := *(*reflect.StringHeader)(unsafe.Pointer(&x))
	data := *(*[]byte)(unsafe.Pointer(&reflect.SliceHeader{
		Data: hdr.Data,
		Len:  hdr.Len,
		Cap:  hdr.Len,
	}))
	n := binary.PutUvarint(scratch[:], uint64(len(data)))''','''	var data []byte
	str := (*reflect.StringHeader)(unsafe.Pointer(&x))
	hdr := (*reflect.SliceHeader)(unsafe.Pointer(&data))
	hdr.Data = str.Data
	hdr.Len = str.Len
	hdr.Cap = str.Len
	n := binary.PutUvarint(scratch[:], uint64(len(x)))''')
ref('setbytes-lenbytes',Z,'''	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
	setSingle(buf, offsets, fieldID, proto.WireBytes, valLen, val)''','''	setSingle(buf, offsets, fieldID, proto.WireBytes, putLen(&scratch, x), x)''',Z,'''	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
	appendSingle(buf, offsets, fieldID, proto.WireBytes, valLen, val)
}''','''	appendSingle(buf, offsets, fieldID, proto.WireBytes, putLen(&scratch, x), x)
}

func putLen(scratch *[binary.MaxVarintLen64]byte, x []byte) []byte {
	return scratch[:binary.PutUvarint(scratch[:], uint64(len(x)))]
}''')
ref('setsingle-tag-helper',Z,'''	var scratch [binary.MaxVarintLen64]byte
	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)

	// If the tag''','''	var scratch [binary.MaxVarintLen64]byte
	tagLen := putTag(&scratch, fieldID, typ)

	// If the tag''',Z,'''	var scratch [binary.MaxVarintLen64]byte

	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf = append(*buf, scratch[:tagLen]...)
''','''	var scratch [binary.MaxVarintLen64]byte
	tagLen := putTag(&scratch, fieldID, typ)
	*buf = append(*buf, scratch[:tagLen]...)
''',Z,'''func appendSingle(''','''func putTag(scratch *[binary.MaxVarintLen64]byte, fieldID, typ int) int {
	tag := uint64(fieldID)<<3 | uint64(typ)
	return binary.PutUvarint(scratch[:], tag)
}

func appendSingle(''')
ref('setsingle-remove-helper',Z,'''	if removedBytes := fieldEnd - fieldBegin; removedBytes > 0 {
		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]

		// Adjust every offset in the map that's larger than fieldEnd down by
		// removedBytes.
		//
		// TODO(dan): Figure out how to move all this internal knowledge into
		// Offsets.
		for fieldID, offset := range offsets.a {
			if offset != math.MaxUint16 && uint64(offset) > fieldEnd {
				// Guaranteed to still be > 0 and < MaxOffsetInArray.
				offsets.a[fieldID] = offset - uint16(removedBytes)
			}
		}
		if offsets.m != nil {
			for fieldID, offset := range *offsets.m {
				if offset > fieldEnd {
					offsets.Set(fieldID, offset-removedBytes)
				}
			}
		}
	}
''','''	if fieldEnd > fieldBegin {
		*buf = append((*buf)[:fieldBegin], (*buf)[fieldEnd:]...)
		offsets.removed(fieldBegin, fieldEnd)
	}
''',O,'''// Clear removes all''','''// removed adjusts the offsets after the given byte range has been removed.
func (o Offsets) removed(begin, end uint64) {
	n := end - begin
	for i := 0; i < len(o.a); i++ {
		offset := o.a[i]
		if offset == offsetInMap || uint64(offset) <= end {
			continue
		}
		o.a[i] = uint16(uint64(offset) - n)
	}
	for fieldID, offset := range *o.m {
		if offset <= end {
			continue
		}
		o.Set(fieldID, offset-n)
	}
}

// Clear removes all''')
ref('setsingle-adjust-get',Z,'''		for fieldID, offset := range offsets.a {
			if offset != math.MaxUint16 && uint64(offset) > fieldEnd {
				// Guaranteed to still be > 0 and < MaxOffsetInArray.
				offsets.a[fieldID] = offset - uint16(removedBytes)
			}
		}
		if offsets.m != nil {
			for fieldID, offset := range *offsets.m {
				if offset > fieldEnd {
					offsets.Set(fieldID, offset-removedBytes)
				}
			}
		}
''','''		for id := range offsets.a {
			if offset, ok := offsets.Get(id); ok && offset > fieldEnd {
				offsets.Set(id, offset-removedBytes)
			}
		}
''')
ref('setsingle-oldlen-helper',Z,'''		var oldLen int
		switch typ {
		case proto.WireVarint:
			_, oldLen = binary.Uvarint((*buf)[offset:])
		case proto.WireFixed32:
			oldLen = 4
		case proto.WireFixed64:
			oldLen = 8
		case proto.WireBytes:
			oldValLen, oldValLenLen := binary.Uvarint((*buf)[offset:])
			oldLen = int(oldValLen) + oldValLenLen
		default:
			panic(typ)
		}
''','''		oldLen := valueSize((*buf)[offset:], typ)
''',Z,'''func appendSingle(''','''func valueSize(buf []byte, typ int) int {
	if typ == proto.WireFixed32 {
		return 4
	} else if typ == proto.WireFixed64 {
		return 8
	}
	x, n := binary.Uvarint(buf)
	switch typ {
	case proto.WireVarint:
		return n
	case proto.WireBytes:
		return n + int(x)
	}
	panic(typ)
}

func appendSingle(''')
ref('setsingle-fielddatasize',Z,'''		var oldLen int
		switch typ {
		case proto.WireVarint:
			_, oldLen = binary.Uvarint((*buf)[offset:])
		case proto.WireFixed32:
			oldLen = 4
		case proto.WireFixed64:
			oldLen = 8
		case proto.WireBytes:
			oldValLen, oldValLenLen := binary.Uvarint((*buf)[offset:])
			oldLen = int(oldValLen) + oldValLenLen
		default:
			panic(typ)
		}
''','''		oldLen, err := fieldDataSize(uint64(typ), (*buf)[offset:])
		if err != nil {
			panic(err)
		}
''')
ref('setsingle-bytes-equal',Z,'''	if offset, ok := offsets.Get(fieldID); ok && bytes.HasSuffix((*buf)[:offset], scratch[:tagLen]) {''','''	if offset, ok := offsets.Get(fieldID); ok && offset >= uint64(tagLen) && bytes.Equal((*buf)[offset-uint64(tagLen):offset], scratch[:tagLen]) {''')
ref('setsingle-local-buf',Z,'''	*buf = append(*buf, scratch[:tagLen]...)
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)

	if removed''','''	b := append(*buf, scratch[:tagLen]...)
	b = append(b, valLen...)
	b = append(b, val...)
	*buf = b

	if removed''')
ref('setsingle-offset-before',Z,'''	*buf = append(*buf, scratch[:tagLen]...)
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)

	if removed''','''	*buf = append(*buf, scratch[:tagLen]...)
	newOffset := uint64(len(*buf))
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)
	newOffset -= fieldEnd - fieldBegin

	if removed''',Z,'''	offset := len(*buf) - len(valLen) - len(val)
	offsets.Set(fieldID, uint64(offset))
}''','''	offsets.Set(fieldID, newOffset)
}''')
ref('appendsingle-order',Z,'''	offset := len(*buf)
	// The offset for repeated fields always points at the first one.
	if _, ok := offsets.Get(fieldID); !ok {
		offsets.Set(fieldID, uint64(offset))
	}
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)
}''','''	offset := uint64(len(*buf))
	*buf = append(append(*buf, valLen...), val...)
	// The offset for repeated fields always points at the first one.
	if _, ok := offsets.Get(fieldID); ok {
		return
	}
	offsets.Set(fieldID, offset)
}''')
ref('tag-manual-encode',Z,'''	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)''','''	tag := uint64(fieldID<<3 | typ)
	for tag >= 0x80 {
		*buf = append(*buf, byte(tag)|0x80)
		tag >>= 7
	}
	*buf = append(*buf, byte(tag))
	_ = scratch

	offset := len(*buf)''')
ref('appenduvarint',Z,'''	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)''','''	_ = scratch
	*buf = binary.AppendUvarint(*buf, uint64(fieldID<<3|typ))

	offset := len(*buf)''')
ref('decode-rest',Z,'''	offsets.Clear()
	for idx := 0; ; {
		if idx == len(buf) {
			return nil
		} else if idx > len(buf) {
			return io.ErrUnexpectedEOF
		}
		tag, size := binary.Uvarint(buf[idx:])
		if size <= 0 {
			return io.ErrUnexpectedEOF
		}
		idx += size
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}
''','''	offsets.Clear()
	for rest := buf; len(rest) > 0; {
		tag, size := binary.Uvarint(rest)
		if size <= 0 || size == len(rest) {
			return io.ErrUnexpectedEOF
		}
		rest = rest[size:]
		idx := len(buf) - len(rest)
''',Z,'''		s, err := fieldDataSize(typ, buf[idx:])
		if err != nil {
			return err
		}
		idx += s
	}
}

// FindNextField parses''','''		s, err := fieldDataSize(typ, rest)
		if err != nil {
			return err
		}
		rest = rest[s:]
	}
	return nil
}

// FindNextField parses''')
ref('decode-while',Z,'''	for idx := 0; ; {
		if idx == len(buf) {
			return nil
		} else if idx > len(buf) {
			return io.ErrUnexpectedEOF
		}
		tag,''','''	idx := 0
	for idx < len(buf) {
		tag,''',Z,'''		s, err := fieldDataSize(typ, buf[idx:])
		if err != nil {
			return err
		}
		idx += s
	}
}

// FindNextField parses''','''		s, err := fieldDataSize(typ, buf[idx:])
		if err != nil {
			return err
		}
		idx += s
	}
	return nil
}

// FindNextField parses''')
ref('decode-record-helper',Z,'''		if fieldID >= len(offsets.a) {
			// This field is not in the schema, possibly because it was encoded with
			// a newer version of it. There's no accessor for it, so skip over it.
		} else if _, ok := repeatedFields[fieldID]; ok {
			// For a repeated field, set the offset if this is the first one we've
			// found but don't overwrite an earlier offset. The repeated field
			// iterator will start from this offset and re-parse the rest of the
			// message to find the rest of them.
			if _, ok := offsets.Get(fieldID); !ok {
				offsets.Set(fieldID, uint64(idx))
			}
		} else {
			// For a non-repeated field, always overwrite the offset. The proto spec
			// says to keep only the last one.
			offsets.Set(fieldID, uint64(idx))
			// TODO(dan): The proto spec specifically allows a single message to be
			// split, but I don't understand why it would happen. It's hard to
			// support so leave it unsupported for now.
		}
''','''		recordOffset(offsets, repeatedFields, fieldID, idx)
''',Z,'''// FindNextField parses''','''func recordOffset(offsets Offsets, repeatedFields RepeatedFields, fieldID, idx int) {
	if fieldID >= len(offsets.a) {
		return
	}
	if _, repeated := repeatedFields[fieldID]; repeated {
		if _, ok := offsets.Get(fieldID); ok {
			return
		}
	}
	offsets.Set(fieldID, uint64(idx))
}

// FindNextField parses''')
ref('decode-validate-first',Z,'''		s, err := fieldDataSize(typ, buf[idx:])
		if err != nil {
			return err
		}
		idx += s
	}
}

// FindNextField parses''','''		idx += s
	}
}

// FindNextField parses''',Z,'''		typ := tag & 0x7
		// fmt.Printf(''','''		typ := tag & 0x7
		s, err := fieldDataSize(typ, buf[idx:])
		if err != nil {
			return err
		}
		// fmt.Printf(''')
ref('decode-setflag',Z,'''		} else if _, ok := repeatedFields[fieldID]; ok {
			// For a repeated field, set the offset if this is the first one we've
			// found but don't overwrite an earlier offset. The repeated field
			// iterator will start from this offset and re-parse the rest of the
			// message to find the rest of them.
			if _, ok := offsets.Get(fieldID); !ok {
				offsets.Set(fieldID, uint64(idx))
			}
		} else {
			// For''','''		} else if _, repeated := repeatedFields[fieldID]; !repeated || offsets.a[fieldID] == offsetUnset {
			// For''')
ref('decode-tag-fast1',Z,'''		tag, size := binary.Uvarint(buf[idx:])
		if size <= 0 {
			return io.ErrUnexpectedEOF
		}
		idx += size
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}
''','''		var tag uint64
		size := 1
		if b := buf[idx]; b < 0x80 {
			tag = uint64(b)
		} else {
			tag, size = binary.Uvarint(buf[idx:])
		}
		if size <= 0 {
			return io.ErrUnexpectedEOF
		}
		idx += size
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}
''')
ref('decode-tag-fast2',Z,'''		tag, size := binary.Uvarint(buf[idx:])
		if size <= 0 {
			return io.ErrUnexpectedEOF
		}
		idx += size
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}
''','''		var tag uint64
		var size int
		if b := buf[idx]; b < 0x80 {
			tag, size = uint64(b), 1
		} else if idx+1 < len(buf) && buf[idx+1] < 0x80 {
			tag, size = uint64(b&0x7f)|uint64(buf[idx+1])<<7, 2
		} else {
			tag, size = binary.Uvarint(buf[idx:])
		}
		if size <= 0 {
			return io.ErrUnexpectedEOF
		}
		idx += size
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}
''')
ref('parsetag-helper',Z,'''		tag, size := binary.Uvarint(buf[idx:])
		if size <= 0 {
			return io.ErrUnexpectedEOF
		}
		idx += size
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}

		fieldID := int(tag >> 3)
		typ := tag & 0x7
''','''		fieldID, typ, size := parseTag(buf[idx:])
		if size <= 0 {
			return io.ErrUnexpectedEOF
		}
		idx += size
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}

''',Z,'''		tag, size := binary.Uvarint(buf[idx:])
		if size <= 0 {
			break
		}
		idx += size
		f := int(tag >> 3)
		typ := tag & 0x7
''','''		f, typ, size := parseTag(buf[idx:])
		if size <= 0 {
			break
		}
		idx += size
''',Z,'''// fieldDataSize returns''','''func parseTag(buf []byte) (fieldID int, typ uint64, size int) {
	tag, size := binary.Uvarint(buf)
	return int(tag >> 3), tag & 0x7, size
}

// fieldDataSize returns''')
ref('fnf-rest',Z,'''	for idx := msgEnd; idx < len(buf); {
		tag, size := binary.Uvarint(buf[idx:])
		if size <= 0 {
			break
		}
		idx += size
		f := int(tag >> 3)
		typ := tag & 0x7
		if f == field {
			return buf[idx:], msg
		}
		s, err := fieldDataSize(typ, buf[idx:])
		if err != nil {
			break
		}
		idx += s
	}
	return nil, msg''','''	for rest := buf[msgEnd:]; len(rest) > 0; {
		tag, size := binary.Uvarint(rest)
		if size <= 0 {
			return nil, msg
		}
		rest = rest[size:]
		if int(tag>>3) == field {
			return rest, msg
		}
		s, err := fieldDataSize(tag&7, rest)
		if err != nil {
			return nil, msg
		}
		rest = rest[s:]
	}
	return nil, msg''')
ref('fnf-lendelim',Z,'''	msgLen, lenSize := binary.Uvarint(buf)
	if lenSize <= 0 || msgLen > uint64(len(buf)-lenSize) {
		// Decode has already validated the input, but not that this field was
		// encoded as bytes.
		return nil, nil
	}
	msgEnd := lenSize + int(msgLen)
	msg := buf[lenSize:msgEnd:msgEnd]
''','''	msg := lengthDelimited(buf)
	if msg == nil {
		// Decode has already validated the input, but not that this field was
		// encoded as bytes.
		return nil, nil
	}
	_, lenSize := binary.Uvarint(buf)
	msgEnd := lenSize + len(msg)
''')
ref('fnf-datasize',Z,'''	if buf == nil {
		return nil, nil
	}
	msgLen, lenSize := binary.Uvarint(buf)
	if lenSize <= 0 || msgLen > uint64(len(buf)-lenSize) {
		// Decode has already validated the input, but not that this field was
		// encoded as bytes.
		return nil, nil
	}
	msgEnd := lenSize + int(msgLen)
''','''	msgEnd, err := fieldDataSize(proto.WireBytes, buf)
	if err != nil {
		return nil, nil
	}
	_, lenSize := binary.Uvarint(buf)
''')
ref('fds-returns',Z,'''	var size int
	switch typ {
	case proto.WireVarint:
		_, size = binary.Uvarint(buf)
	case proto.WireFixed32:
		size = 4
	case proto.WireFixed64:
		size = 8
	case proto.WireBytes:
		dataLen, lenSize := binary.Uvarint(buf)
		if lenSize <= 0 || dataLen > uint64(len(buf)-lenSize) {
			return 0, io.ErrUnexpectedEOF
		}
		size = lenSize + int(dataLen)
	default:
		return 0, errors.Errorf(`unsupported type: %d`, typ)
	}
	if size <= 0 || size > len(buf) {
		return 0, io.ErrUnexpectedEOF
	}
	return size, nil''','''	switch typ {
	case proto.WireVarint:
		if _, size := binary.Uvarint(buf); size > 0 {
			return size, nil
		}
	case proto.WireFixed32:
		if len(buf) >= 4 {
			return 4, nil
		}
	case proto.WireFixed64:
		if len(buf) >= 8 {
			return 8, nil
		}
	case proto.WireBytes:
		if dataLen, lenSize := binary.Uvarint(buf); lenSize > 0 && dataLen <= uint64(len(buf)-lenSize) {
			return lenSize + int(dataLen), nil
		}
	default:
		return 0, errors.Errorf(`unsupported type: %d`, typ)
	}
	return 0, io.ErrUnexpectedEOF''')
ref('fds-varint-scan',Z,'''		_, size = binary.Uvarint(buf)
	case''','''		size = varintSize(buf)
	case''',Z,'''// RepeatedFields indicates''','''func varintSize(buf []byte) int {
	_, n := binary.Uvarint(buf)
	if n < 0 {
		return 0
	}
	return n
}

// RepeatedFields indicates''')
ref('fds-ifs',Z,'''	var size int
	switch typ {
	case proto.WireVarint:
		_, size = binary.Uvarint(buf)
	case proto.WireFixed32:
		size = 4
	case proto.WireFixed64:
		size = 8
	case proto.WireBytes:
		dataLen, lenSize := binary.Uvarint(buf)
		if lenSize <= 0 || dataLen > uint64(len(buf)-lenSize) {
			return 0, io.ErrUnexpectedEOF
		}
		size = lenSize + int(dataLen)
	default:
		return 0, errors.Errorf(`unsupported type: %d`, typ)
	}
''','''	size := 0
	if typ == proto.WireFixed32 {
		size = 4
	} else if typ == proto.WireFixed64 {
		size = 8
	} else if typ == proto.WireVarint || typ == proto.WireBytes {
		var x uint64
		x, size = binary.Uvarint(buf)
		if typ == proto.WireBytes {
			if size <= 0 || x > uint64(len(buf)-size) {
				return 0, io.ErrUnexpectedEOF
			}
			size += int(x)
		}
	} else {
		return 0, errors.Errorf(`unsupported type: %d`, typ)
	}
''')
ref('decode-dispatch-table',Z,'''		s, err := fieldDataSize(typ, buf[idx:])
		if err != nil {
			return err
		}
		idx += s
	}
}

// FindNextField parses''','''		if s, err := fieldDataSize(typ, buf[idx:]); err != nil {
			return err
		} else {
			idx += s
		}
	}
}

// FindNextField parses''')
ref('getters-offset-helper',Z,'''	offset, ok := offsets.Get(fieldID)
	if !ok {
		return nil
	}
	return buf[offset:]
}''','''	data, _ := fieldData(buf, offsets, fieldID)
	return data
}

func fieldData(buf []byte, offsets Offsets, fieldID int) ([]byte, bool) {
	if offset, ok := offsets.Get(fieldID); ok {
		return buf[offset:], true
	}
	return nil, false
}''',Z,'''	offset, ok := offsets.Get(fieldID)
	if !ok {
		return nil
	}
	return lengthDelimited(buf[offset:])''','''	data, ok := fieldData(buf, offsets, fieldID)
	if !ok {
		return nil
	}
	return lengthDelimited(data)''',Z,'''	offset, ok := offsets.Get(fieldID)
	if !ok {
		return ``
	}
	data := lengthDelimited(buf[offset:])
	return''','''	data, ok := fieldData(buf, offsets, fieldID)
	if !ok {
		return ``
	}
	data = lengthDelimited(data)
	return''')
ref('zigzag-manual-set',Z,'''	n := binary.PutVarint(scratch[:], x)
''','''	n := binary.PutUvarint(scratch[:], uint64(x<<1)^uint64(x>>63))
''',Z,'''	n := binary.PutVarint(scratch[:], int64(x))
''','''	n := binary.PutUvarint(scratch[:], uint64(uint32(x<<1)^uint32(x>>31)))
''')
ref('zigzag-if-set',Z,'''	n := binary.PutVarint(scratch[:], x)
''','''	ux := uint64(x) << 1
	if x < 0 {
		ux = ^ux
	}
	n := binary.PutUvarint(scratch[:], ux)
''')

ref('own-put-uvarint',Z,"ALL:binary.PutUvarint(","putUvarint(",Z,'func setSingle(',"""// putUvarint writes x to the front of b and returns the number of bytes.
func putUvarint(b []byte, x uint64) int {
	i := 0
	for x >= 0x80 {
		b[i] = byte(x) | 0x80
		x >>= 7
		i++
	}
	b[i] = byte(x)
	return i + 1
}

func setSingle(""")
ref('own-put-uvarint-for',Z,"ALL:binary.PutUvarint(","putUvarint(",Z,'func setSingle(',"""func putUvarint(b []byte, x uint64) int {
	n := 0
	for ; x > 127; x /= 128 {
		b[n] = byte(x%128) + 128
		n++
	}
	b[n] = byte(x)
	n++
	return n
}

func setSingle(""")
ref('tag-onebyte',Z,"""	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)""","""	tag := uint64(fieldID<<3 | typ)
	if tag < 0x80 {
		*buf = append(*buf, byte(tag))
	} else {
		tagLen := binary.PutUvarint(scratch[:], tag)
		*buf = append(*buf, scratch[:tagLen]...)
	}

	offset := len(*buf)""")
ref('set-onebyte',Z,"""	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)

	// If""","""	tag := uint64(fieldID)<<3 | uint64(typ)
	tagLen := 1
	if tag < 1<<7 {
		scratch[0] = byte(tag)
	} else {
		tagLen = binary.PutUvarint(scratch[:], tag)
	}

	// If""")
ref('own-uvarint',Z,"ALL:binary.Uvarint(","uvarint(",Z,'// RepeatedFields indicates',"""// uvarint decodes a varint from the front of buf.
func uvarint(buf []byte) (uint64, int) {
	if len(buf) > 0 && buf[0] < 0x80 {
		return uint64(buf[0]), 1
	}
	return binary.Uvarint(buf)
}

// RepeatedFields indicates""")
ref('table-limits',O,'func (o Offsets) Set(','''var limits = [2]uint64{0, uint64(offsetMaxInArray)}

func (o Offsets) Set(''',O,'offset <= uint64(offsetMaxInArray)','offset <= limits[1]')
ref('table-bool',Z,'// SetInt32 set','''var boolBytes = [2][]byte{{0}, {1}}

// SetInt32 set''',Z,'''	var scratch [1]byte
	if x {
		scratch[0] = 1
	}
	var valLen, val []byte = nil, scratch[:]''','''	var valLen, val []byte = nil, boolBytes[0]
	if x {
		val = boolBytes[1]
	}''')
ref('table-sizes',Z,'// fieldDataSize returns','''var fixedSizes = map[uint64]int{proto.WireFixed32: 4, proto.WireFixed64: 8}

// fieldDataSize returns''',Z,'''	case proto.WireFixed32:
		size = 4
	case proto.WireFixed64:
		size = 8
	case proto.WireBytes:
		dataLen, lenSize''','''	case proto.WireFixed32, proto.WireFixed64:
		size = fixedSizes[typ]
	case proto.WireBytes:
		dataLen, lenSize''')
ref('table-sizes-array',Z,'// fieldDataSize returns','''var fixedSizes = [8]int{proto.WireFixed32: 4, proto.WireFixed64: 8}

// fieldDataSize returns''',Z,'''	case proto.WireFixed32:
		size = 4
	case proto.WireFixed64:
		size = 8
	case proto.WireBytes:
		dataLen, lenSize''','''	case proto.WireFixed32, proto.WireFixed64:
		size = fixedSizes[typ]
	case proto.WireBytes:
		dataLen, lenSize''')

# Second batch
ADJUST='''		for fieldID, offset := range offsets.a {
			if offset != math.MaxUint16 && uint64(offset) > fieldEnd {
				// Guaranteed to still be > 0 and < MaxOffsetInArray.
				offsets.a[fieldID] = offset - uint16(removedBytes)
			}
		}
		if offsets.m != nil {
			for fieldID, offset := range *offsets.m {
				if offset > fieldEnd {
					offsets.Set(fieldID, offset-removedBytes)
				}
			}
		}
'''
ref('r-shift-method',Z,ADJUST,'''		offsets.shift(fieldEnd, removedBytes)
''',O,'''// Clear removes''','''// shift moves every offset after the given one down by n bytes.
func (o Offsets) shift(after, n uint64) {
	for id, offset := range o.a {
		if offset == offsetInMap || uint64(offset) <= after {
			continue
		}
		o.a[id] = uint16(uint64(offset) - n)
	}
	if o.m == nil {
		return
	}
	for id, offset := range *o.m {
		if offset <= after {
			continue
		}
		o.Set(id, offset-n)
	}
}

// Clear removes''')
ref('r-shift-index',Z,ADJUST,'''		a := offsets.a
		for i := 0; i < len(a); i++ {
			if a[i] != offsetInMap && uint64(a[i]) > fieldEnd {
				a[i] -= uint16(removedBytes)
			}
		}
		if m := offsets.m; m != nil {
			for id, off := range *m {
				if off > fieldEnd {
					offsets.Set(id, off-removedBytes)
				}
			}
		}
''')
ref('r-shift-map-direct',Z,'''					offsets.Set(fieldID, offset-removedBytes)
''','''					(*offsets.m)[fieldID] = offset - removedBytes
''')
ref('r-append-nested',Z,'''	*buf = append(*buf, scratch[:tagLen]...)
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)

	if removed''','''	*buf = append(append(append(*buf, scratch[:tagLen]...), valLen...), val...)

	if removed''')
ref('r-remove-append',Z,'''		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
''','''		*buf = append((*buf)[:fieldBegin], (*buf)[fieldEnd:]...)
''')
ref('r-remove-copyn',Z,'''		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
''','''		n := copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
		*buf = (*buf)[:int(fieldBegin)+n]
''')
ref('r-grow-first',Z,'''	*buf = append(*buf, scratch[:tagLen]...)
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)

	if removed''','''	if n := tagLen + len(valLen) + len(val); cap(*buf)-len(*buf) < n {
		grown := make([]byte, len(*buf), 2*cap(*buf)+n)
		copy(grown, *buf)
		*buf = grown
	}
	*buf = append(*buf, scratch[:tagLen]...)
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)

	if removed''')
ref('r-set-split',O,'''	if offset <= uint64(offsetMaxInArray) {
		if previous := o.a[fieldID]; previous == offsetInMap {
			delete(*o.m, fieldID)
		}
		o.a[fieldID] = uint16(offset)
	} else {
		// No need to check what was previously in the array, just
		// unconditionally overwrite it.
		o.a[fieldID] = offsetInMap
		if *o.m == nil {
			// TODO(dan): Preallocate this with a capacity of the number of
			// field ids to make sure it's only ever 1 allocation.
			*o.m = make(map[int]uint64, fieldID)
		}
		(*o.m)[fieldID] = offset
	}
}
''','''	if offset > uint64(offsetMaxInArray) {
		o.setInMap(fieldID, offset)
		return
	}
	o.setInArray(fieldID, uint16(offset))
}

func (o Offsets) setInArray(fieldID int, offset uint16) {
	p := &o.a[fieldID]
	if *p == offsetInMap {
		delete(*o.m, fieldID)
	}
	*p = offset
}

func (o Offsets) setInMap(fieldID int, offset uint64) {
	if *o.m == nil {
		*o.m = map[int]uint64{}
	}
	(*o.m)[fieldID] = offset
	o.a[fieldID] = offsetInMap
}
''')
ref('r-bool-byte',Z,'''	var scratch [1]byte
	if x {
		scratch[0] = 1
	}
	var valLen, val []byte = nil, scratch[:]
''','''	scratch := [1]byte{boolByte(x)}
	var valLen, val []byte = nil, scratch[:]
''',Z,'''// SetInt32 set''','''func boolByte(x bool) byte {
	if x {
		return 1
	}
	return 0
}

// SetInt32 set''')
ref('r-bool-varint',Z,'''	var scratch [1]byte
	if x {
		scratch[0] = 1
	}
	var valLen, val []byte = nil, scratch[:]
	setSingle(buf, offsets, fieldID, proto.WireVarint, valLen, val)
''','''	var v uint64
	if x {
		v = 1
	}
	SetUint64(buf, offsets, fieldID, v)
''')
ref('r-old-helper',Z,'''		var oldLen int
		switch typ {
		case proto.WireVarint:
			_, oldLen = binary.Uvarint((*buf)[offset:])
		case proto.WireFixed32:
			oldLen = 4
		case proto.WireFixed64:
			oldLen = 8
		case proto.WireBytes:
			oldValLen, oldValLenLen := binary.Uvarint((*buf)[offset:])
			oldLen = int(oldValLen) + oldValLenLen
		default:
			panic(typ)
		}

		// Performance optimization: if the new value is exactly the same length as
		// the old one, simply overwrite it.
		if int(oldLen) == len(valLen)+len(val) {
			// The value is first because it may point into the old one.
			copy((*buf)[offset+uint64(len(valLen)):], val)
			copy((*buf)[offset:], valLen)
			return
		}
''','''		old := (*buf)[offset:]
		oldLen := encodedLen(typ, old)

		// Performance optimization: if the new value is exactly the same length as
		// the old one, simply overwrite it.
		if overwrite(old[:oldLen], valLen, val) {
			return
		}
''',Z,'''func appendSingle(''','''func encodedLen(typ int, buf []byte) int {
	switch typ {
	case proto.WireVarint:
		_, n := binary.Uvarint(buf)
		return n
	case proto.WireFixed32:
		return 4
	case proto.WireFixed64:
		return 8
	case proto.WireBytes:
		n, lenLen := binary.Uvarint(buf)
		return lenLen + int(n)
	}
	panic(typ)
}

func overwrite(old, valLen, val []byte) bool {
	if len(old) != len(valLen)+len(val) {
		return false
	}
	// The value is first because it may point into the old one.
	copy(old[len(valLen):], val)
	copy(old, valLen)
	return true
}

func appendSingle(''')
ref('r-tag-shift',Z,'''	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)

''','''	tagLen := binary.PutUvarint(scratch[:], uint64(fieldID)<<3|uint64(typ))

''',Z,'''	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf''','''	tag := uint64(fieldID)*8 + uint64(typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf''')
ref('r-err-var',Z,'''	if size <= 0 || size > len(buf) {
		return 0, io.ErrUnexpectedEOF
	}
''','''	if size <= 0 || size > len(buf) {
		return 0, errTruncated
	}
''',Z,'''// RepeatedFields indicates''','''var errTruncated = io.ErrUnexpectedEOF

// RepeatedFields indicates''')
ref('r-err-new',Z,'''		if size <= 0 {
			return io.ErrUnexpectedEOF
		}
		idx += size
''','''		if size <= 0 {
			return errTruncated
		}
		idx += size
''',Z,'''// RepeatedFields indicates''','''var errTruncated = errors.New("truncated message")

// RepeatedFields indicates''')
ref('r-err-fmt',Z,'''errors.Errorf(`unsupported type: %d`, typ)''','''fmt.Errorf("unsupported type: %d", typ)''',Z,'''	"encoding/binary"
''','''	"encoding/binary"
	"fmt"
''',Z,'''	"github.com/pkg/errors"
''','')
ref('r-err-type',Z,'''errors.Errorf(`unsupported type: %d`, typ)''','''unsupportedTypeError(typ)''',Z,'''// RepeatedFields indicates''','''type unsupportedTypeError uint64

func (e unsupportedTypeError) Error() string {
	return fmt.Sprintf("unsupported type: %d", uint64(e))
}

// RepeatedFields indicates''',Z,'''	"encoding/binary"
''','''	"encoding/binary"
	"fmt"
''',Z,'''	"github.com/pkg/errors"
''','')
ref('r-wire-consts',Z,'''	case proto.WireVarint:
		_, size = binary.Uvarint(buf)
	case proto.WireFixed32:
		size = 4
	case proto.WireFixed64:
		size = 8
	case proto.WireBytes:
		dataLen''','''	case wireVarint:
		_, size = binary.Uvarint(buf)
	case wireFixed32:
		size = 4
	case wireFixed64:
		size = 8
	case wireBytes:
		dataLen''',Z,'''// RepeatedFields indicates''','''const (
	wireVarint  = 0
	wireFixed64 = 1
	wireBytes   = 2
	wireFixed32 = 5
)

// RepeatedFields indicates''')
ref('r-slice-at',Z,'''	offset, ok := offsets.Get(fieldID)
	if !ok {
		return nil
	}
	return lengthDelimited(buf[offset:])
''','''	data := offsets.data(buf, fieldID)
	if data == nil {
		return nil
	}
	return lengthDelimited(data)
''',Z,'''	offset, ok := offsets.Get(fieldID)
	if !ok {
		return ``
	}
	data := lengthDelimited(buf[offset:])
''','''	data := lengthDelimited(offsets.data(buf, fieldID))
''',Z,'''	offset, ok := offsets.Get(fieldID)
	if !ok {
		return nil
	}
	return buf[offset:]
''','''	return offsets.data(buf, fieldID)
''',O,'''// Clear removes''','''// data returns the part of the message after the tag of the field.
func (o Offsets) data(buf []byte, fieldID int) []byte {
	if offset, ok := o.Get(fieldID); ok {
		return buf[offset:]
	}
	return nil
}

// Clear removes''')
ref('r-id-uint64',Z,'''		fieldID := int(tag >> 3)
		typ := tag & 0x7
		// fmt''','''		id, typ := tag>>3, tag&0x7
		fieldID := int(id)
		// fmt''',Z,'''		if fieldID >= len(offsets.a) {''','''		if id >= uint64(len(offsets.a)) {''')
ref('r-decode-index-helper',Z,'''		if fieldID >= len(offsets.a) {
			// This field is not in the schema, possibly because it was encoded with
			// a newer version of it. There's no accessor for it, so skip over it.
		} else if _, ok := repeatedFields[fieldID]; ok {
			// For a repeated field, set the offset if this is the first one we've
			// found but don't overwrite an earlier offset. The repeated field
			// iterator will start from this offset and re-parse the rest of the
			// message to find the rest of them.
			if _, ok := offsets.Get(fieldID); !ok {
				offsets.Set(fieldID, uint64(idx))
			}
		} else {
			// For a non-repeated field, always overwrite the offset. The proto spec
			// says to keep only the last one.
			offsets.Set(fieldID, uint64(idx))
''','''		offsets.record(fieldID, idx, repeatedFields)
		{
''',O,'''// Clear removes''','''// record notes that the field was found at the offset.
func (o Offsets) record(fieldID, offset int, repeated RepeatedFields) {
	if fieldID >= len(o.a) {
		return
	}
	if _, ok := repeated[fieldID]; ok {
		if _, present := o.Get(fieldID); present {
			return
		}
	}
	o.Set(fieldID, uint64(offset))
}

// Clear removes''')
ref('r-append-shared',Z,'''	var scratch [binary.MaxVarintLen64]byte

	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	// The offset for repeated fields always points at the first one.
	if _, ok := offsets.Get(fieldID); !ok {
		offsets.Set(fieldID, uint64(offset))
	}
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)
''','''	offset := appendField(buf, fieldID, typ, valLen, val)
	// The offset for repeated fields always points at the first one.
	if _, ok := offsets.Get(fieldID); !ok {
		offsets.Set(fieldID, uint64(offset))
	}
}

// appendField appends a field and returns where its data begins.
func appendField(buf *[]byte, fieldID, typ int, valLen, val []byte) int {
	var scratch [binary.MaxVarintLen64]byte
	tagLen := binary.PutUvarint(scratch[:], uint64(fieldID<<3|typ))
	b := append(*buf, scratch[:tagLen]...)
	offset := len(b)
	b = append(b, valLen...)
	*buf = append(b, val...)
	return offset
''')
ref('r-fnf-skip-helper',Z,'''	for idx := msgEnd; idx < len(buf); {
		tag, size := binary.Uvarint(buf[idx:])
		if size <= 0 {
			break
		}
		idx += size
		f := int(tag >> 3)
		typ := tag & 0x7
		if f == field {
			return buf[idx:], msg
		}
		s, err := fieldDataSize(typ, buf[idx:])
		if err != nil {
			break
		}
		idx += s
	}
	return nil, msg
}
''','''	return skipTo(buf[msgEnd:], field), msg
}

func skipTo(buf []byte, field int) []byte {
	for len(buf) > 0 {
		tag, size := binary.Uvarint(buf)
		if size <= 0 {
			return nil
		}
		buf = buf[size:]
		if int(tag>>3) == field {
			return buf
		}
		s, err := fieldDataSize(tag&0x7, buf)
		if err != nil {
			return nil
		}
		buf = buf[s:]
	}
	return nil
}
''')
ref('r-lendelim-named',Z,'''	dataLen, lenSize := binary.Uvarint(buf)
	if lenSize <= 0 || dataLen > uint64(len(buf)-lenSize) {
		return nil
	}
	// Limit the capacity so that appending to the result can't overwrite the rest
	// of the message.
	end := lenSize + int(dataLen)
	return buf[lenSize:end:end]
''','''	dataLen, lenSize := binary.Uvarint(buf)
	if lenSize <= 0 {
		return nil
	}
	buf = buf[lenSize:]
	if uint64(len(buf)) < dataLen {
		return nil
	}
	// Limit the capacity so that appending to the result can't overwrite the rest
	// of the message.
	return buf[:dataLen:dataLen]
''')
ref('r-get-local',O,'''	if offset := o.a[fieldID]; offset != offsetInMap {
		return uint64(offset), offset != offsetUnset
	}
	// If the array had the sentinel, the map is guaranteed to exist and the
	// value is guaranteed to be set.
	return (*o.m)[fieldID], true
''','''	switch offset := o.a[fieldID]; {
	case offset == offsetUnset:
		return 0, false
	case offset <= offsetMaxInArray:
		return uint64(offset), true
	}
	// If the array had the sentinel, the map is guaranteed to exist and the
	// value is guaranteed to be set.
	m := *o.m
	return m[fieldID], true
''')
ref('r-clear-copy',O,'''	for i := range o.a {
		o.a[i] = offsetUnset
	}
''','''	for a := o.a; len(a) > 0; a = a[1:] {
		a[0] = offsetUnset
	}
''')
