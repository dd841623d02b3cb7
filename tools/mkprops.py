#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the properties are maintained here).
import json
Z="zeropb.go"; O="offsets.go"; G="generate/generate.go"; T="generate/stringtree.go"
GOLD=["golden/raftzeropb/raft.zeropb.go","golden/testzeropb/test.zeropb.go"]
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
buf=("message bytes","the encoded message; every accessor is a view of it",Z)
off=("field offset index","field id -> position of the field's data in the message",O)
p("C01","Decode never panics, hangs or reads out of bounds on any input",
 "For every byte slice, whatever it contains, Decode of every message type returns (nil or an error) after a number of steps bounded by the length of the input. It never panics and never reads outside the given slice. This includes overflowing varints, huge lengths, undefined wire types, and field ids that are not in the schema.",
 ["inputs"],"all byte slices x all schemas (array sizes, sets of repeated fields) x all previous states of the message",
 "TestDecode tries a handful of truncated inputs and TestRandDecode only decodes well-formed encodings.",
 [Z,O],[("cursor moves forward by a validated size","zeropb.go Decode"),("size of a field's data","zeropb.go fieldDataSize"),("index bounds","offsets.go Set/Get")],["Decode"],[buf])
p("C02","Decode accepts exactly the well-formed field sequences",
 "Decode returns nil if and only if the input is a concatenation of fields, each a varint tag followed by data of the size its wire type (varint, 64-bit, length-delimited, 32-bit) prescribes, entirely inside the input. Every truncation inside a field, every overflowing varint and every other wire type makes it return a non-nil error, and no well-formed input is refused.",
 ["inputs"],"all byte slices (field numbers 1 to 2^29-1) and all schemas",
 "The tests check six truncations and random well-formed messages of two schemas; a wrong size for one wire type or an off-by-one at the end of the input is seen only by particular inputs.",
 [Z],[("per-wire-type sizes","zeropb.go fieldDataSize"),("framing loop","zeropb.go Decode")],["Decode"],[buf])
p("C03","Decode indexes the last value of a singular and the first of a repeated field",
 "After Decode succeeds, a singular field is present exactly if some field of the input has its id, and its accessor reads the last of those; a repeated field starts at its first occurrence. Fields that are not in the schema are skipped without affecting the others, and nothing from before the Decode remains visible, also when the same struct is decoded into again.",
 ["inputs","histories"],"all well-formed inputs (duplicates, any order, unknown ids) x all previous contents of the struct x all field ids",
 "The tests decode encodings produced by other libraries, which have each singular field once and in order, and no unknown fields.",
 [Z,O],[("first/last occurrence rule","zeropb.go Decode"),("index reset","offsets.go Clear")],["Decode, then any accessor"],[buf,off])
p("C04","The field offset index is a faithful map at every offset",
 "After any sequence of Set and Clear calls, Get of a field returns exactly the offset of that field's last Set since the last Clear, or reports it absent if there was none. This holds for every offset from 1 up, including both sides of and transitions across the boundary of 64KiB where the representation changes, and operations on one field never change what is read for another.",
 ["histories","inputs"],"all sequences of Set/Get/Clear over all pairs of field ids and all offsets",
 "TestEncode crosses the 64KiB boundary a few times with two fields; the random tests never leave the small representation.",
 [O],[("array with map overflow","offsets.go Offsets.Get/Set/Clear")],["Offsets.Get"],[off])
p("C05","Scalar accessors decode by the protobuf rule of their type, absent is zero",
 "For each of the accessor types (bool, int32, int64, uint32, uint64, sint32, sint64, fixed32, fixed64, sfixed32, sfixed64, float, double, string, bytes) the value returned for a present field is the one protobuf defines for the bytes at the field: varint truncated to the type, zig-zag, little-endian or length-delimited. For an absent field it is the zero value of the type.",
 ["inputs"],"all messages, field ids, and encoded values (also non-minimal varints)",
 "The random tests sample values of one schema as one encoder writes them; extreme values, non-minimal encodings and particular positions (end of message, offsets over 64KiB) are not covered.",
 [Z],[("typed readers","zeropb.go Get*")],["Get*"],[buf,off])
p("C06","Setters and appenders write the canonical protobuf encoding",
 "Setting (or appending to) a field puts into the message exactly one field with the minimal tag for the field id and the wire type of the declared protobuf type, followed by the protobuf encoding of exactly the given value. So any other protobuf implementation reads that value for that field.",
 ["inputs"],"all setter types x all values x all field ids x all previous message states",
 "The random tests sample values for one schema with ids up to 34; sizes that need longer length prefixes, and extreme values, are not sampled.",
 [Z],[("encoders and wire types","zeropb.go Set*, AppendBytes"),("placing the field","zeropb.go setSingle, appendSingle")],["Encode"],[buf])
p("C07","A value that was set is read back, for every value and every earlier state",
 "After a setter of any type returns, the accessor of the field returns the value that was set (bit for bit), whatever was in the message before: the field absent, or present with a shorter, longer or equally long encoding, or decoded with another wire type or a non-minimal tag. The last set wins.",
 ["inputs","histories"],"all setter types x all values x all previous message states, including messages and offsets over 64KiB",
 "TestRandMutations samples 1000 sets on small messages that were built by the setters themselves.",
 [Z,O],[("overwrite in place or remove and append","zeropb.go setSingle"),("typed readers and writers","zeropb.go Get*/Set*")],["Set* then Get*"],[buf,off])
p("C08","Setting or appending to a field leaves every other field intact",
 "Setting a singular field changes, removes or adds only that field: the bytes of every other field of the message, known or unknown, are unchanged and in the same order, and every other field is still found by its accessor. Appending to a repeated field changes nothing that was there, and the message stays a well-formed sequence of fields.",
 ["inputs","histories"],"all message states x all pairs of fields (any order and distance in the message, offsets on both sides of 64KiB) x all values",
 "The random tests use one schema, small messages and no unknown or duplicated fields; TestEncode checks three fields at a few sizes.",
 [Z,O],[("removal and shift of later fields","zeropb.go setSingle"),("index adjustment","zeropb.go setSingle, offsets.go Set")],["Set*/AppendBytes then Get*, Encode"],[buf,off])
p("C09","Accessors, setters and iterators are safe on every decoded message",
 "On any message that Decode accepted, or that setters built, no accessor, setter, appender or iterator panics or accesses bytes outside the message, whichever wire types the fields have. This includes fields whose wire type is not the one in the schema, which are lazily discovered.",
 ["inputs","histories"],"all accepted inputs x all accessors, setters and iterators",
 "The tests only access fields that another library encoded with the declared type.",
 [Z],[("bounds checks of the accessors","zeropb.go Get*, lengthDelimited, FindNextField"),("tag check of setters","zeropb.go setSingle")],["Get*, Set*, Append*, FindNextField"],[buf,off])
p("C10","Iterating a repeated field yields every element once, in order, and ends",
 "The iterator of a repeated message field yields exactly the elements of that field in the order in which they appear in the message, whatever other fields (of any wire type) come between them, and then reports the end and keeps doing so. Elements appended later are yielded after the earlier ones.",
 ["inputs","histories"],"all well-formed messages, all interleavings of the repeated field with other fields",
 "The random tests have at most 4 elements which are adjacent and at the end of the message.",
 [Z],[("scan for the next occurrence","zeropb.go FindNextField"),("start of the iteration","zeropb.go GetRepeatedNonPacked"),("append","zeropb.go appendSingle")],["generated iterator Next"],[buf,off])
p("C11","Reading a message changes nothing, so concurrent readers are safe",
 "No accessor, iterator step or Encode writes to the message, its field index, or any other memory that another goroutine can reach; decoding a sub-message writes only to the struct given for it. The runtime has no mutable global state.",
 ["schedules","inputs"],"all schedules of concurrent readers of one message, all messages",
 "No test reads from more than one goroutine, and the suite is not run with the race detector.",
 [Z,O]+GOLD,[("readers without caching","zeropb.go Get*, FindNextField; offsets.go Get")],["Get*, generated accessors, Next, Encode"],[buf,off])
p("C12","Values are copied in, and slices handed out cannot overwrite the message",
 "Setters and appenders copy the bytes of their argument: they neither write to it nor keep a reference to it, also for strings, and it may point into the same message. Appending to a slice that a bytes or message accessor or an iterator returned never changes the message it came from.",
 ["inputs","histories"],"all values (also ones that alias the message), all buffers (also with spare capacity)",
 "The tests never modify an argument after the call, append to a result, or set a field to a value read from the same message.",
 [Z],[("copy of values","zeropb.go setSingle, appendSingle, SetString"),("capacity limit","zeropb.go lengthDelimited, FindNextField")],["Set*, Append*, Get*"],[buf])
p("C13","Decoding, reading and setting do not allocate for messages below 64KiB",
 "For messages shorter than 65535 bytes, Decode (without an error), every accessor, iterator step and Encode perform no heap allocation, and setters and appenders allocate only to grow the message's own buffer. Allocation for the index happens only for fields that begin at or after that limit.",
 ["inputs"],"all messages below 64KiB, all fields and values",
 "Allocations are only visible in benchmarks, which assert nothing and are not run by the suite.",
 [Z,O]+GOLD,[("stack scratch buffers, unsafe string views","zeropb.go"),("lazy map","offsets.go Set")],["every runtime entry point"],[buf,off])
p("C14","Generated accessors agree with their schema",
 "For every message of the checked-in schemas (raft and test) the generated struct has, for every singular field, a getter and a setter, and for every repeated message field an iterator and an appender, that use the field's number and the encoding that protobuf prescribes for its declared type. The struct has room for every field number of the message and treats exactly the repeated fields as repeated.",
 ["programs"],"all messages and fields of all checked-in schemas",
 "The golden test compares the text with what the generator printed when the golden file was written; tests use only some of the accessors of the raft schema.",
 GOLD+["golden/raft.proto","golden/test.proto"],[("accessors","golden/*zeropb/*.zeropb.go")],["generated methods"])
p("C15","The generator emits correct accessors for every field type, label and number",
 "For every message in any supported schema, the emitted code declares the message with room for its largest field number, marks exactly its repeated fields, and has for every optional or required field of every type (15 scalars, enum, message) and every repeated message field the accessors that use the field's own number and the runtime functions of its type. The emitted code compiles.",
 ["programs"],"all messages, fields, labels, types and numbers in any order (names without collisions)",
 "TestGolden runs two schemas with dense field numbers, two messages' worth of types and no required fields.",
 [G],[("code templates","generate/generate.go generateMessage, generate*Field"),("type table","generate/generate.go fieldToGoTypeSimple")],["Generate"])
p("C16","Generate is complete and deterministic",
 "Generate returns exactly one output file for each requested file that is in the request, named after it with .proto replaced by .zeropb.go, in the order of the request's file list, and nothing for files that were not requested. Every message of the file is emitted, in order, with nothing lost, and the output is a function of the request alone.",
 ["inputs","programs"],"all requests: several files, imports that are not to be generated, any file name, any number of messages",
 "TestGolden has one file per request, requested and present, with a plain name.",
 [G,T],[("selection of files","generate/generate.go Generate"),("file name and messages","generate/generate.go generateFile"),("output in argument order","generate/stringtree.go Write")],["Generate"])
p("C17","The protoc plugins fail loudly and write only the response",
 "If reading, parsing, generating, serializing or writing fails, the plugin process exits with a non-zero status and reports the error on standard error. Otherwise it exits with zero after writing exactly the complete serialized response (for the text plugin: the text form of the request, to standard error), and nothing else reaches standard output.",
 ["inputs","fault_sequences"],"all inputs and all failures of each of the steps",
 "The command packages have no tests.",
 ["cmd/protoc-gen-zeropb/main.go","cmd/protoc-gen-text/main.go"],[("error propagation and exit status","cmd/*/main.go run, main")],["process exit status, stdout"])
p("C18","The descriptor bindings have the wire layout that the .proto files declare",
 "Every field of every message that protoc sends to or receives from the plugin is bound to the field number, wire encoding, cardinality and Go type that descriptor.proto and plugin.proto declare for it, and every enum constant has its declared value. So a real (binary) request is read as protoc meant it.",
 ["inputs"],"all messages, fields and enum values of the two files",
 "The golden tests read requests in text form, which uses field names and not numbers, and only the part of the descriptors that two schemas use.",
 ["generate/descriptor.pb.go","generate/plugin.pb.go","generate/descriptor.proto","generate/plugin.proto"],[("struct tags and enum constants","generate/*.pb.go")],["proto.Unmarshal of a CodeGeneratorRequest"])
p("C19","The generator's getters return what the request contains or the declared default",
 "Every getter that the generator uses on a request returns the field's own value if it is present and the default otherwise (also on a nil message), without modifying the request. Nil entries in the request's lists neither crash the generator nor affect the output.",
 ["inputs"],"all requests, present and absent fields, nil messages",
 "The golden requests have all fields the generator looks at, and no nil entries.",
 ["generate/descriptor.pb.go","generate/plugin.pb.go",G],[("getters","generate/*.pb.go"),("nil checks","generate/generate.go")],["Generate"])
p("C20","Encode returns exactly the message, and Reset empties it for reuse",
 "Encode of any message returns precisely its current encoded bytes, and Decode makes precisely the given bytes the current ones. Reset leaves a message in which every field is absent and whose encoding is empty, while using the given buffer's capacity, and panics only if the given buffer is not empty.",
 ["histories","inputs"],"all generated message types, all histories of Decode, sets and Reset, all buffers",
 "No test calls Reset (the benchmarks do).",
 GOLD+[O],[("Encode, Decode, Reset","golden/*zeropb/*.zeropb.go"),("Clear","offsets.go Clear")],["Encode, Decode, Reset"],[buf,off])
p("C21","Decoding is lazy: work depends on the number of top-level fields only",
 "Decode of a message looks only at tags, varint lengths and scalar varints of the top-level fields; it never looks inside length-delimited data, recurses into sub-messages, or visits a field twice. A field accessor examines only its own field, without scanning the message.",
 ["inputs"],"all messages, in particular ones with large or deeply nested (also invalid) sub-messages",
 "The cost is only visible in benchmarks, which are not part of the suite, and no test decodes a message with an invalid sub-message.",
 [Z],[("skipping by size","zeropb.go Decode, fieldDataSize"),("direct access","zeropb.go Get*")],["Decode, Get*"],[buf])
# not applicable
p("N01","Random mutation histories agree with the official library on whole messages",
 "For every history of sets, appends and decodes, marshaling through the official Go protobuf library and through this one gives messages that each library decodes to the same values.",
 ["histories","inputs"],"all histories over all schemas, against another implementation",
 "TestRandMutations samples such histories.",
 [Z],[("everything","zeropb.go")],["Encode, Decode"])
p("N02","Accessors are inlined and faster than the other libraries",
 "Decoding and reading one field is faster than with the official and gogo libraries by the factors in the documentation.",
 ["inputs"],"all message shapes in the documentation",
 "Benchmarks are not run or compared by the suite.",
 [Z],[("lazy decoding","zeropb.go")],["benchmarks"])
p("N03","Generated code compiles for every schema that protoc accepts",
 "For every proto file that protoc accepts, the generated file is a valid Go file.",
 ["programs"],"all proto files, including nested and imported messages and colliding names",
 "TestGolden has two schemas.",
 [G],[("code templates","generate/generate.go")],["go build of the output"])
p("N04","Previously returned strings and slices keep their value across later sets",
 "A string or byte slice returned by an accessor does not change when the message is modified later.",
 ["histories"],"all histories of reads and sets",
 "No test looks at an old result after a set.",
 [Z],[("zero-copy views","zeropb.go GetString, GetBytes")],["GetString"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
