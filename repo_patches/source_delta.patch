From 73329c3672c8d7db031e7643187f84a073294768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 01/12] fix: Decode rejects overflowing varints and lengths
 past the end of the input

A varint that overflows 64 bits makes binary.Uvarint return a negative size, and
a huge bytes length becomes a negative int. Both moved the cursor backwards, so
Decode panicked or never returned on such input.
---
 zeropb.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index ee03185..5aaefba 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -427,7 +427,7 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 			return io.ErrUnexpectedEOF
 		}
 		tag, size := binary.Uvarint(buf[idx:])
-		if size == 0 {
+		if size <= 0 {
 			return io.ErrUnexpectedEOF
 		}
 		idx += size
@@ -459,7 +459,7 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 		}
 
 		s := fieldDataSize(typ, buf[idx:])
-		if s == 0 {
+		if s <= 0 {
 			return io.ErrUnexpectedEOF
 		}
 		idx += s
@@ -500,11 +500,11 @@ func fieldDataSize(typ uint64, buf []byte) int {
 	case proto.WireFixed64:
 		return 8
 	case proto.WireBytes:
-		len, lenSize := binary.Uvarint(buf)
-		if lenSize == 0 {
+		dataLen, lenSize := binary.Uvarint(buf)
+		if lenSize <= 0 || dataLen > uint64(len(buf)-lenSize) {
 			return 0
 		}
-		return lenSize + int(len)
+		return lenSize + int(dataLen)
 	default:
 		panic(errors.Errorf(`unsupported type: %d`, typ))
 	}
-- 
2.43.0


From a30f7fd5d1ccccf32986b3969982f05c07e9dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 02/12] fix: Decode returns an error for unsupported wire types
 instead of panicking

The input of Decode is untrusted, but a field with a group (or undefined) wire
type in it crashed the process.
---
 zeropb.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 5aaefba..2b5ed68 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -458,9 +458,9 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 			// support so leave it unsupported for now.
 		}
 
-		s := fieldDataSize(typ, buf[idx:])
-		if s <= 0 {
-			return io.ErrUnexpectedEOF
+		s, err := fieldDataSize(typ, buf[idx:])
+		if err != nil {
+			return err
 		}
 		idx += s
 	}
@@ -485,29 +485,39 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 		if f == field {
 			return buf[idx:], msg
 		}
-		idx += fieldDataSize(typ, buf[idx:])
+		s, err := fieldDataSize(typ, buf[idx:])
+		if err != nil {
+			break
+		}
+		idx += s
 	}
 	return nil, msg
 }
 
-func fieldDataSize(typ uint64, buf []byte) int {
+// fieldDataSize returns the size of the field data of the given wire type at
+// the start of buf. It's an error if the data is not entirely contained in buf.
+func fieldDataSize(typ uint64, buf []byte) (int, error) {
+	var size int
 	switch typ {
 	case proto.WireVarint:
-		_, size := binary.Uvarint(buf)
-		return size
+		_, size = binary.Uvarint(buf)
 	case proto.WireFixed32:
-		return 4
+		size = 4
 	case proto.WireFixed64:
-		return 8
+		size = 8
 	case proto.WireBytes:
 		dataLen, lenSize := binary.Uvarint(buf)
 		if lenSize <= 0 || dataLen > uint64(len(buf)-lenSize) {
-			return 0
+			return 0, io.ErrUnexpectedEOF
 		}
-		return lenSize + int(dataLen)
+		size = lenSize + int(dataLen)
 	default:
-		panic(errors.Errorf(`unsupported type: %d`, typ))
+		return 0, errors.Errorf(`unsupported type: %d`, typ)
+	}
+	if size <= 0 || size > len(buf) {
+		return 0, io.ErrUnexpectedEOF
 	}
+	return size, nil
 }
 
 // RepeatedFields indicates which fields are repeated, indexed by field id.
-- 
2.43.0


From 72c387a90f433687f4a8f3e013f15cf110947135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 03/12] fix: Decode skips unknown field ids instead of
 panicking

A field id larger than every id in the schema indexed out of range of the
offsets array.
---
 zeropb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zeropb.go b/zeropb.go
index 2b5ed68..ea4eddb 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -441,7 +441,10 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 
 		// TODO(dan): It's odd that we're passing in only the repeatedness of the
 		// field. Maybe pass in some sort of field descriptor instead?
-		if _, ok := repeatedFields[fieldID]; ok {
+		if fieldID >= len(offsets.a) {
+			// This field is not in the schema, possibly because it was encoded with
+			// a newer version of it. There's no accessor for it, so skip over it.
+		} else if _, ok := repeatedFields[fieldID]; ok {
 			// For a repeated field, set the offset if this is the first one we've
 			// found but don't overwrite an earlier offset. The repeated field
 			// iterator will start from this offset and re-parse the rest of the
-- 
2.43.0


From 0fe67ec98441ae57e736e7712a963bfd354dc1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 04/12] fix: field accessors don't read past the message if a
 field has an unexpected wire type

Decode doesn't know the types of the fields, so it accepts a field that was
encoded with some other wire type than the schema's. Reading it as a fixed,
string, bytes or message field then panicked, or returned whatever followed the
message in its backing array.
---
 zeropb.go | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index ea4eddb..b3126ab 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -87,7 +87,7 @@ func GetZigZagInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 // id.
 func GetFixedUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || uint64(len(buf)) < offset+4 {
 		return 0
 	}
 	return binary.LittleEndian.Uint32(buf[offset : offset+4])
@@ -97,7 +97,7 @@ func GetFixedUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
 // id.
 func GetFixedUint64(buf []byte, offsets Offsets, fieldID int) uint64 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || uint64(len(buf)) < offset+8 {
 		return 0
 	}
 	return binary.LittleEndian.Uint64(buf[offset : offset+8])
@@ -107,7 +107,7 @@ func GetFixedUint64(buf []byte, offsets Offsets, fieldID int) uint64 {
 // id.
 func GetFixedInt32(buf []byte, offsets Offsets, fieldID int) int32 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || uint64(len(buf)) < offset+4 {
 		return 0
 	}
 	return int32(binary.LittleEndian.Uint32(buf[offset : offset+4]))
@@ -117,7 +117,7 @@ func GetFixedInt32(buf []byte, offsets Offsets, fieldID int) int32 {
 // id.
 func GetFixedInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || uint64(len(buf)) < offset+8 {
 		return 0
 	}
 	return int64(binary.LittleEndian.Uint64(buf[offset : offset+8]))
@@ -127,7 +127,7 @@ func GetFixedInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 // given field id.
 func GetFloat32(buf []byte, offsets Offsets, fieldID int) float32 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || uint64(len(buf)) < offset+4 {
 		return 0
 	}
 	bits := binary.LittleEndian.Uint32(buf[offset : offset+4])
@@ -138,7 +138,7 @@ func GetFloat32(buf []byte, offsets Offsets, fieldID int) float32 {
 // given field id.
 func GetFloat64(buf []byte, offsets Offsets, fieldID int) float64 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || uint64(len(buf)) < offset+8 {
 		return 0
 	}
 	bits := binary.LittleEndian.Uint64(buf[offset : offset+8])
@@ -151,9 +151,7 @@ func GetString(buf []byte, offsets Offsets, fieldID int) string {
 	if !ok {
 		return ``
 	}
-	len, lenSize := binary.Uvarint(buf[offset:])
-	offset += uint64(lenSize)
-	data := buf[offset : offset+len]
+	data := lengthDelimited(buf[offset:])
 	return *(*string)(unsafe.Pointer(&data))
 }
 
@@ -163,9 +161,18 @@ func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
 	if !ok {
 		return nil
 	}
-	len, lenSize := binary.Uvarint(buf[offset:])
-	offset += uint64(lenSize)
-	return buf[offset : offset+len]
+	return lengthDelimited(buf[offset:])
+}
+
+// lengthDelimited returns the data of the length-delimited field at the start
+// of buf or nil if there isn't one, which happens if the field was encoded with
+// some other wire type.
+func lengthDelimited(buf []byte) []byte {
+	dataLen, lenSize := binary.Uvarint(buf)
+	if lenSize <= 0 || dataLen > uint64(len(buf)-lenSize) {
+		return nil
+	}
+	return buf[lenSize : lenSize+int(dataLen)]
 }
 
 // SetBool set an encoded bool field with the given field id, overwriting an
@@ -476,12 +483,18 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	if buf == nil {
 		return nil, nil
 	}
-	// NB: FindNextField doesn't do the same bounds checking that Decode does
-	// because Decode has already validated the input.
 	msgLen, lenSize := binary.Uvarint(buf)
+	if lenSize <= 0 || msgLen > uint64(len(buf)-lenSize) {
+		// Decode has already validated the input, but not that this field was
+		// encoded as bytes.
+		return nil, nil
+	}
 	msg := buf[lenSize : lenSize+int(msgLen)]
 	for idx := lenSize + int(msgLen); idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
+		if size <= 0 {
+			break
+		}
 		idx += size
 		f := int(tag >> 3)
 		typ := tag & 0x7
-- 
2.43.0


From 890353989bb550efd5760aa13f20126c9b55c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 05/12] fix: limit the capacity of slices returned by field
 accessors to the field

They kept the capacity of the whole message, so appending to one (which is also
what setting a field of a decoded sub-message does) overwrote whatever followed
the field in the message.
---
 zeropb.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index b3126ab..7229344 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -172,7 +172,10 @@ func lengthDelimited(buf []byte) []byte {
 	if lenSize <= 0 || dataLen > uint64(len(buf)-lenSize) {
 		return nil
 	}
-	return buf[lenSize : lenSize+int(dataLen)]
+	// Limit the capacity so that appending to the result can't overwrite the rest
+	// of the message.
+	end := lenSize + int(dataLen)
+	return buf[lenSize:end:end]
 }
 
 // SetBool set an encoded bool field with the given field id, overwriting an
@@ -489,8 +492,9 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 		// encoded as bytes.
 		return nil, nil
 	}
-	msg := buf[lenSize : lenSize+int(msgLen)]
-	for idx := lenSize + int(msgLen); idx < len(buf); {
+	msgEnd := lenSize + int(msgLen)
+	msg := buf[lenSize:msgEnd:msgEnd]
+	for idx := msgEnd; idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
 		if size <= 0 {
 			break
-- 
2.43.0


From 26305c81cc8d67724e9d2fd4f02a37d1c4345d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 06/12] fix: don't corrupt the message when setting a field
 with an unexpected old tag

Setting a field removed as many bytes before its old value as the minimal tag
has, and the value's size according to the wire type in the schema. If the field
was decoded from a message with some other wire type this removed bytes of other
fields (or panicked) and for a non-minimal tag it left part of the tag behind.
---
 zeropb.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 7229344..1f4fb47 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -3,6 +3,7 @@
 package zeropb
 
 import (
+	"bytes"
 	"encoding/binary"
 	"io"
 	"math"
@@ -341,7 +342,10 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	tag := uint64(fieldID<<3 | typ)
 	tagLen := binary.PutUvarint(scratch[:], tag)
 
-	if offset, ok := offsets.Get(fieldID); ok {
+	// If the tag of the old value isn't exactly the one written here, then it was
+	// encoded with some other wire type or with a non-minimal varint, so it's not
+	// known where the field begins and ends. Leave it, the last value wins.
+	if offset, ok := offsets.Get(fieldID); ok && bytes.HasSuffix((*buf)[:offset], scratch[:tagLen]) {
 		var oldLen int
 		switch typ {
 		case proto.WireVarint:
@@ -366,7 +370,6 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 		}
 
 		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
-		// TODO(dan): sanity check that we got the same tag bytes here?
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
 		removedBytes := fieldEnd - fieldBegin
 		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
-- 
2.43.0


From 03c211a6d1bc0cf05318ea919a0df60c0b849b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 07/12] fix: setting a field to a value that points into the
 same message

The old value was removed, moving everything after it, before the new value was
copied. So setting a bytes, string or message field to (part of) the value of
another field of the message stored the wrong bytes. It also moved the bytes of
the enclosing message when setting a field of a decoded sub-message.
---
 zeropb.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 1f4fb47..745dfe9 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -345,6 +345,7 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	// If the tag of the old value isn't exactly the one written here, then it was
 	// encoded with some other wire type or with a non-minimal varint, so it's not
 	// known where the field begins and ends. Leave it, the last value wins.
+	var fieldBegin, fieldEnd uint64
 	if offset, ok := offsets.Get(fieldID); ok && bytes.HasSuffix((*buf)[:offset], scratch[:tagLen]) {
 		var oldLen int
 		switch typ {
@@ -369,9 +370,17 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			return
 		}
 
-		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
+		fieldBegin, fieldEnd = offset-uint64(tagLen), offset+uint64(oldLen)
+	}
+
+	// Write the new value before removing the old one because it may point into
+	// this message, such as when it's the value of another field.
+	*buf = append(*buf, scratch[:tagLen]...)
+	*buf = append(*buf, valLen...)
+	*buf = append(*buf, val...)
+
+	if removedBytes := fieldEnd - fieldBegin; removedBytes > 0 {
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
-		removedBytes := fieldEnd - fieldBegin
 		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
 
 		// Adjust every offset in the map that's larger than fieldEnd down by
@@ -393,12 +402,9 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			}
 		}
 	}
-	*buf = append(*buf, scratch[:tagLen]...)
 
-	offset := len(*buf)
+	offset := len(*buf) - len(valLen) - len(val)
 	offsets.Set(fieldID, uint64(offset))
-	*buf = append(*buf, valLen...)
-	*buf = append(*buf, val...)
 }
 
 func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
-- 
2.43.0


From 438162ec71bccb1d6a8795c901596be801250548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 08/12] fix: exit with a non-zero status when the protoc plugin
 fails

protoc only looks at the exit status of a plugin, so it reported success and
generated nothing.
---
 cmd/protoc-gen-text/main.go   | 1 +
 cmd/protoc-gen-zeropb/main.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cmd/protoc-gen-text/main.go b/cmd/protoc-gen-text/main.go
index 815ad11..369de75 100644
--- a/cmd/protoc-gen-text/main.go
+++ b/cmd/protoc-gen-text/main.go
@@ -29,5 +29,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
diff --git a/cmd/protoc-gen-zeropb/main.go b/cmd/protoc-gen-zeropb/main.go
index 2915585..97a5529 100644
--- a/cmd/protoc-gen-zeropb/main.go
+++ b/cmd/protoc-gen-zeropb/main.go
@@ -37,5 +37,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 80ec043bbccf3debf7e0a7e9ff20d8e5f8da0676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 09/12] fix: only replace the .proto suffix in the name of the
 generated file

A .proto anywhere else in the path, such as in the name of a directory, was
replaced too. A name with no .proto in it was used unchanged, which protoc would
use to overwrite the input.
---
 generate/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 865c09f..0642a17 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -49,7 +49,7 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 		generateMessage(st, indent, *m)
 	}
 
-	name := strings.ReplaceAll(req.GetName(), `.proto`, `.zeropb.go`)
+	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
 	content := buf.String()
 	res := &CodeGeneratorResponse_File{Name: &name, Content: &content}
 	return res, nil
-- 
2.43.0


From 9ad686a791d3671cf5bf6bfb9c9713ed14724654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 10/12] fix: generate distinct iterator types for repeated
 fields of the same message type

The iterator type is named after the type of the field, so the generated code
for a message with two repeated fields of the same type did not compile.
---
 generate/generate.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 0642a17..c4f6c61 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -98,6 +98,7 @@ func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto)
 	st.Write(indent.Next(), offsets, ".Clear()\n")
 	st.Write(indent, "}\n\n")
 
+	iterators := map[string]struct{}{}
 	for _, f := range m.Field {
 		if f == nil {
 			continue
@@ -113,7 +114,7 @@ func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto)
 		case FieldDescriptorProto_LABEL_REPEATED:
 			switch f.GetType() {
 			case FieldDescriptorProto_TYPE_MESSAGE:
-				generateRepeatedMessageField(st, indent, messageGoType, *f)
+				generateRepeatedMessageField(st, indent, messageGoType, *f, iterators)
 			default:
 				// WIP implement repeated simple fields
 				continue
@@ -159,10 +160,16 @@ func generateMessageField(
 
 func generateRepeatedMessageField(
 	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
+	iterators map[string]struct{},
 ) {
 	fieldGoName := toGoCase(f.GetName())
 	fieldGoType := fieldToGoTypeMessage(f.GetTypeName())
 	itGoType := messageGoType + fieldGoType + "Iterator"
+	if _, ok := iterators[itGoType]; ok {
+		// Another field of this message has the same type, use the name instead.
+		itGoType = messageGoType + fieldGoName + "Iterator"
+	}
+	iterators[itGoType] = struct{}{}
 
 	st.Write(indent, "type ", itGoType, " []byte\n\n")
 
-- 
2.43.0


From 753e7ffcf80ecd4abd5c1a1223f3a2b125b3e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 11/12] fix: setSingle overwrites the value in place before its
 length

The new value may point into the old one, if it's a slice of the encoded
message. If the old length was a non-minimal varint, the in place overwrite
wrote the new length over the start of the new value before it was copied.
---
 zeropb.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 745dfe9..3bd5cf4 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -365,8 +365,9 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 		// Performance optimization: if the new value is exactly the same length as
 		// the old one, simply overwrite it.
 		if int(oldLen) == len(valLen)+len(val) {
-			offset += uint64(copy((*buf)[offset:], valLen))
-			offset += uint64(copy((*buf)[offset:], val))
+			// The value is first because it may point into the old one.
+			copy((*buf)[offset+uint64(len(valLen)):], val)
+			copy((*buf)[offset:], valLen)
 			return
 		}
 
-- 
2.43.0


From ab0ab08701d9c9f7077bba8aa62784c91469b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:37 +0000
Subject: [PATCH 12/12] fix: do not import zeropb in generated files without
 messages

Go rejects an unused import, so the generated code of a .proto file that
declares only enums or services, or nothing, did not compile.
---
 generate/generate.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index c4f6c61..534f907 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -40,7 +40,16 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\n\n")
 	// TODO(dan): Use the go package if it's set.
 	st.Write(indent, "package ", req.GetPackage(), "\n\n")
-	st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
+	// Go rejects an unused import, so a file without messages must not have one.
+	hasMessages := false
+	for _, m := range req.MessageType {
+		if m != nil {
+			hasMessages = true
+		}
+	}
+	if hasMessages {
+		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
+	}
 
 	for _, m := range req.MessageType {
 		if m == nil {
-- 
2.43.0

