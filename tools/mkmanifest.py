#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. The claimed properties, their technique and their
# level notes are maintained here.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI="abstract interpretation of SSA (relational linear domain, byte-segment domain, inferred loop invariants)"
TB=" Trusted: go/ssa, the analyzer's domains and library models, the contract text. Assumes 64-bit int, messages under 2^45 bytes, no concurrent writers."
C={}
def c(id,tech,note,level="proof"): C[id]=(tech,level,note)
c("C01",AI+": bounds, termination and panic obligations of Decode","Every index, slice, conversion and map access reachable from Decode is proved in bounds, and every loop proved to progress, for an arbitrary input, schema and prior message state."+TB)
c("C02",AI+": per-iteration framing rule of the Decode scan loop against a reference step","Decode's scan is shown to be a simulation of the reference field grammar: accepted exactly if every step is a well-formed field and the scan ends at the end of the input; independent of the number of fields."+TB)
c("C03",AI+": index update rule of every scan iteration","For an arbitrary tracked field id, each iteration sets or keeps its offset as the last/first rule says, from a cleared index."+TB)
c("C04",AI+": contracts of Offsets.Get/Set/Clear over arbitrary index states (array and map representation)","Every pair of ids, every offset from 1 up, every representation state that satisfies the documented invariant, which is shown inductive."+TB)
c("C05",AI+": getter contracts over arbitrary messages and encodings","Value returned == value of the reference decoding of the bytes at the field, for all byte contents, including non-minimal varints."+TB)
c("C06",AI+": setter contracts, byte-segment equality with the canonical encoding","The appended or overwritten bytes equal tag, length and value of the canonical encoding for every id, value, and prior message state."+TB)
c("C07",AI+": set-then-get contracts","After the setter the reference decoding at the stored offset is the value given, for every prior state of the field and representation of the offset."+TB)
c("C08",AI+": frame contracts of setters (segments of the message and index of an arbitrary other field)","For an arbitrary other field before or after the one set: its bytes, order and index entry are kept; the index representation stays one that Set leaves, so the result is inductive over histories."+TB)
c("C09",AI+": bounds and panic obligations of accessors, setters and iterators with unconstrained data at the field","All accessors on messages whose field data is arbitrary bytes at any offset inside the message."+TB)
c("C10",AI+": iteration rule of the FindNextField scan against a reference step","For an arbitrary message and position: the element returned is exactly the data at the position, every other field is skipped as a whole, the next position is the next element, and the iteration ends only at the end of the message. Together with C03/C08 (first element, appended last) this is an induction over the message."+TB)
c("C11",AI+": write-effect events of accessors on shared memory","No store to memory that existed before the call, on any path of any accessor."+TB)
c("C12","ownership and alias tracking in the "+AI,"Arguments are only read, never retained; arguments that point into the message itself are covered; results have no capacity past their field."+TB)
c("C13",AI+": allocation sites on every path, judged by the compiler's escape analysis of the current source","On every path of every getter, setter, appender, iterator step, Decode and generated method, each allocation site that the escape analysis (go build -gcflags=-m, at the place where the function was inlined) puts on the heap is a violation, unless it is a necessary growth of the message's own buffer; no parameter that refers to a message leaks."+TB+" The escape analysis of the installed compiler.")
c("C21",AI+": read-range rule on every iteration of the Decode scan","Each iteration reads only its tag, length varint or scalar varint, each field once."+TB)
c("C14",AI+": contracts of generated code made from the schema (own parser), runtime uninterpreted","Every accessor of every message of the checked-in schemas makes exactly the runtime call that its declared number and type prescribe, with the message's own bytes and index, and returns its result; array sizes and repeated sets are compared with the schema."+TB)
c("C20",AI+": contracts of Encode, Decode and Reset of the generated messages","For an arbitrary message state, identity of the slices, all fields absent after Reset, capacity kept, panic only on a non-empty buffer."+TB)
c("C17",AI+": all paths of the plugins' main with uninterpreted library calls; error, status, stream and dataflow rules on the call trace where the process ends","Every path from main to an exit is judged: an error that is not nil leads to a non-zero status and a report on standard error, no error is dropped, and a path without errors writes exactly the serialized response of Generate on all of standard input; nothing else that is reachable from Generate touches the streams or the process."+TB)
c("C15",AI+" of Generate over a text domain (concatenations of literals, unknown names, decimal numbers and unknown other text); the emitted template is instantiated, type-checked and analysed like the checked-in generated code","Every type and label with an unknown number, pairs of fields, several messages, among any number of unknown other fields and messages. The emitted code is parsed, type-checked and its accessors are decided by the contracts of C14, made from the request. Field names are sampled (17 shapes)."+TB+" Slices in the generator are values (no aliasing append).")
c("C16",AI+" of Generate over a text domain; effect rules (no write to the request or to package state, no dependence on map order, time, environment)","Requested, unrequested and absent files among any number of unknown others; the text of any number of other messages is kept in order; names with .proto at the end and anywhere else."+TB+" Slices in the generator are values (no aliasing append).")
c("C18","comparison of the type-checked struct tags, field types, enum constants and name tables with the .proto declarations (own parser); "+AI+" of the coder methods and Reset","Every field, enum value and coder method of all messages of descriptor.proto and plugin.proto is enumerated and decided."+TB)
c("C19",AI+": contracts of all getters, made from the .proto declarations","For an arbitrary message, and for a nil one, each getter returns its own field or the declared default and writes nothing; Generate is analysed on requests with nil entries and absent parts."+TB)
NA={}
exec(open(os.path.join(V,"tools/na.py")).read())
m=dict(version=1,setup_cmd="./build.sh",checks=[dict(property=i,quick_cmd="./check.sh "+i,thorough_cmd="./check.sh "+i,technique=C[i][0],level=C[i][1],level_note=C[i][2]) for i in sorted(C)],
 not_applicable=[dict(property=i,reason=NA[i]) for i in sorted(NA) if i not in C],
 notes="One analyzer, /verif/zpv, reads /repo's current source on every run (go/packages, go/ssa) and never runs it. No hooks are needed in /repo.")
ids=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
miss=[i for i in ids if i not in C and i not in NA]
assert not miss,miss
open(os.path.join(V,"MANIFEST.json"),"w").write(json.dumps(m,indent=1)+"\n")
# levels and rule texts for the evidence files
def q(s): return json.dumps(s)
with open(os.path.join(V,"zpv/levels.go"),"w") as f:
    f.write("// Generated by tools/mkmanifest.py. DO NOT EDIT.\n\npackage main\n\nvar levels = map[string]string{\n")
    for i in sorted(C): f.write("\t%s: %s,\n"%(q(i),q(C[i][1])))
    f.write("}\n\nvar ruleText = map[string]string{\n")
    for i in sorted(C): f.write("\t%s: %s,\n"%(q(i),q(C[i][0]+". "+C[i][2])))
    f.write("}\n")
