#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
CR="src/thrift/protocol/compact.rs"; CW="src/thrift/protocol/compact_write.rs"
AR="src/thrift/protocol/compact_stream.rs"; AW="src/thrift/protocol/compact_stream_write.rs"
MOD="src/thrift/protocol/mod.rs"; ST="src/thrift/protocol/stream.rs"; PF="src/parquet_format.rs"
VD="src/thrift/varint/decode.rs"; VE="src/thrift/varint/encode.rs"
VDA="src/thrift/varint/decode_async.rs"; VEA="src/thrift/varint/encode_async.rs"; ER="src/thrift/errors.rs"
TESTS="The 19 tests use two fixed metadata values (one FileMetaData, one PageHeader), a handful of integers and well-formed whole buffers; "
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=TESTS+why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    assert len(title)<=80,title
    P.append(d)
p("C01","Synchronous write/read round trip of every Parquet metadata type",
 "Writing any value of any Parquet metadata type with the synchronous writer succeeds without panicking, and reading the produced bytes back with the synchronous reader yields an equal value. This holds for every combination of present and absent optional fields, every union alternative, every number, enum code, string, byte array and list length.",
 ["inputs"],"all values of all ~50 generated structs, unions and enums",
 "no test varies a number across varint length boundaries, uses most of the structs or unions, or lists longer than one element.",
 [PF,CR,CW,VD,VE],[("generated read_from_in_protocol / write_to_out_protocol",PF),("field header delta coding",CW+" write_field_header / "+CR+" read_field_begin"),("list header coding",CW+" write_list_set_begin / "+CR+" read_list_set_begin")],
 ["value returned by the reader vs value given to the writer"],
 [("last_read_field_id / read_field_id_stack","delta base for field ids, saved per nesting level",CR),("pending_write_bool_field_identifier","bool value folded into the field header",CW)])
p("C02","Asynchronous write/read round trip of every Parquet metadata type",
 "Writing any value of any Parquet metadata type with the asynchronous writer succeeds without panicking, and reading the produced bytes back with the asynchronous reader yields an equal value. This holds for every combination of present and absent optional fields, every union alternative, every number, enum code, string, byte array and list length.",
 ["inputs"],"all values of all generated structs, unions and enums, through the async API",
 "the async code is a separately generated copy; only the same two values run through it.",
 [PF,AR,AW,ST,VDA,VEA],[("generated stream_from_in_protocol / write_to_out_stream_protocol",PF),("async field header coding",AW),("async list header coding",AW)],
 ["value returned by the async reader vs value given to the async writer"])
p("C03","Synchronous and asynchronous readers agree on every input",
 "For every byte string and every byte budget, reading a Parquet metadata type with the asynchronous reader gives the same outcome as reading it with the synchronous reader: both return equal values after consuming the same number of bytes, or both fail with the same category and kind of error.",
 ["inputs","configurations"],"all byte strings (valid or not) and all budgets, for every readable type and protocol primitive",
 "the two readers are never compared, and malformed input or a finite budget is never given to either.",
 [CR,AR,MOD,ST,PF],[("duplicated reader implementation",CR+" / "+AR),("duplicated skip and list reading",MOD+" / "+ST)],
 ["result value, error variant and kind, reader position after the call"])
p("C04","Synchronous and asynchronous writers emit the same bytes and counts",
 "For every Parquet metadata value and every sequence of protocol write calls, the asynchronous writer emits exactly the bytes the synchronous writer emits and returns the same byte counts.",
 ["inputs","programs"],"all metadata values; all protocol write primitives with all arguments",
 "the outputs of the two writers are never compared.",
 [CW,AW,PF,VE,VEA],[("duplicated writer implementation",CW+" / "+AW)],
 ["bytes in the sink, returned counts"])
p("C05","Write calls return exactly the number of bytes they delivered",
 "Every successful write call, from a single protocol primitive to a whole Parquet metadata value, synchronous or asynchronous, returns exactly the number of bytes that it made the sink accept, also when the sink accepts only part of a buffer per call, accepts nothing, or asks to be retried.",
 ["inputs","fault_sequences"],"all primitives with all arguments, all metadata values, all partial-acceptance behaviours of the sink",
 "the returned counts are never looked at and the only sink is an infallible Vec.",
 [CW,AW,PF,VE,VEA],[("count accumulation (written += ...)",CW+", "+AW+", "+PF)],
 ["returned usize vs bytes accepted by the sink"])
p("C06","Synchronous reading never panics, whatever the bytes",
 "For every byte string, every byte budget and every readable type or protocol primitive, the synchronous read API returns a value or an error: it never panics, aborts, overflows arithmetic, or exhausts the stack.",
 ["inputs","configurations"],"all byte strings and budgets, every generated type, skip, and every protocol read primitive",
 "no malformed metadata is ever parsed by the tests; only a few malformed varints are.",
 [CR,MOD,PF,VD,ER],[("checked_add on field ids",CR+" read_field_begin"),("skip depth limit",MOD+" skip_till_depth"),("try_reserve / budget before allocation",CR+" read_bytes")],
 ["panic entry points, arithmetic overflow checks, aborts"])
p("C07","Asynchronous reading never panics, whatever the bytes",
 "For every byte string, every byte budget and every readable type or protocol primitive, the asynchronous read API resolves to a value or an error: it never panics, aborts, overflows arithmetic, or exhausts the stack, and never stays pending while its source is ready.",
 ["inputs","configurations"],"all byte strings and budgets, every generated type, skip, and every protocol read primitive",
 "no malformed metadata is ever parsed asynchronously.",
 [AR,ST,PF,VDA],[("checked_add on field ids",AR+" read_field_begin"),("skip depth limit",ST+" skip_till_depth")],
 ["panic entry points, arithmetic overflow checks, aborts"])
p("C08","The byte budget bounds what a reader accepts and allocates",
 "A reader created with a byte budget refuses, with a size-limit error and before allocating for it, any byte array, string, list, set or map whose declared size exceeds what is left of the budget, and the declared sizes it accepts over its lifetime (one byte per byte, at least one per collection element) never add up to more than the budget. Input whose declared sizes fit is not refused for size, and with an unlimited budget nothing ever is; this holds for the synchronous and the asynchronous reader.",
 ["inputs","configurations","histories"],"all budgets, all declared sizes up to u32::MAX, all sequences of reads on one reader",
 "every test reads with budget usize::MAX.",
 [CR,AR,MOD,ST],[("update_remaining",CR+", "+AR),("try_reserve in read_bytes",CR+", "+AR),("read_list capacity",MOD+", "+ST)],
 ["error kind, requested allocation sizes"],[("remaining","budget left",CR+", "+AR)])
p("C09","Truncated input is always reported as an error",
 "Reading any metadata type or protocol primitive from a proper prefix of its encoding never succeeds: the reader, synchronous or asynchronous, returns an error, at whatever byte the input is cut.",
 ["inputs","crash_points"],"all encoded values and all cut positions",
 "no structured value is ever truncated in the tests, only two varints.",
 [CR,AR,VD,VDA,PF],[("UnexpectedEof in read_varint",VD),("read_exact in read_byte/read_double",CR),("take(len).read_to_end in read_bytes",CR)],
 ["result of reading the prefix"])
p("C10","Written bytes conform to the Thrift compact encoding of parquet.thrift",
 "The bytes the writers produce for any Parquet metadata value are exactly the canonical Thrift compact protocol encoding of that value under parquet.thrift: every present field once, in increasing id order, with its specified id and wire type and its value, nothing for absent fields, shortest varints, short field headers where the id step is 1 to 14, terminated structs.",
 ["inputs"],"all values of all metadata types, against an independent encoder driven by the Parquet schema",
 "only self-round-trips are tested, so any symmetric deviation from parquet.thrift goes unseen.",
 [PF,CW,AW,VE],[("generated field ids and types",PF),("compact header coding",CW)],
 ["bytes in the sink vs reference encoding"])
p("C11","Readers accept every conforming encoding of a value",
 "Any Thrift compact encoding of a Parquet metadata value that conforms to the protocol is read to that value, synchronously and asynchronously, independent of encoder choices: order of fields, short or long field headers, short or long list headers, non-minimal varints.",
 ["inputs"],"all field orders, header forms and list header forms of values of all metadata types",
 "readers only ever see the output of the crate's own writers.",
 [PF,CR,AR,VD],[("delta / absolute field ids",CR+" read_field_begin"),("list header forms",CR+" read_list_set_begin"),("generated field dispatch",PF)],
 ["value returned for a foreign encoding"])
p("C12","Unknown fields are skipped without affecting the result",
 "Adding fields with ids a type does not define, of any wire type and any content including nested containers and arbitrary binary data, anywhere in the encoding of a struct does not change the value read nor make reading fail, synchronously and asynchronously.",
 ["inputs"],"all unknown field ids, wire types, contents and positions (nesting within the documented depth limit)",
 "no test input contains an unknown field; the skipping code is never executed.",
 [PF,MOD,ST,CR,AR],[("skip of unknown ids",PF),("skip_till_depth",MOD+", "+ST)],
 ["value returned with vs without the extra field"])
p("C13","Missing required fields and ill-formed unions are rejected",
 "Reading a struct that lacks one of its required fields is an error, and reading a struct where only optional fields are missing is not. Reading a union succeeds only if exactly one alternative the reader accepts is present: an empty union and a union with more than one known alternative are errors.",
 ["inputs"],"all subsets of fields of every struct, all field sets of every union",
 "no incomplete struct and no ill-formed union is ever read.",
 [PF,MOD],[("verify_required_field_exists",MOD),("received_field_count in unions",PF)],
 ["result of reading the reduced encoding"])
p("C14","Variable-length integer codec round trip and size contract",
 "For every integer of every supported width and signedness, encoding yields between one and ten bytes, exactly as many as the advertised required space and the minimal number, and decoding those bytes, by slice, synchronous or asynchronous reader, with anything following them, returns the integer and that size.",
 ["inputs"],"all values of u8, u16, u32, u64, i8, i16, i32, i64 and arbitrary trailing bytes",
 "only a few hundred u64 values and single values of other types are tried.",
 [VD,VE,VDA,VEA],[("zigzag_encode/decode",VD),("encode_var/decode_var",VD),("VarIntProcessor",VD)],
 ["decoded value, sizes, bytes"])
p("C15","Variable-length integer decoding of arbitrary bytes is exact and bounded",
 "Decoding a variable-length integer from arbitrary bytes reads up to and including the first byte without continuation bit and no further, returns the integer those bytes denote (truncated to the requested width), and fails, with an end-of-file error if the input ends first or an invalid-data error if the integer is longer than its type allows, without panicking; synchronous and asynchronous decoding agree.",
 ["inputs"],"all byte strings up to beyond the maximum varint size, all integer types",
 "only five malformed varints are tried.",
 [VD,VDA],[("VarIntProcessor::push limit",VD),("decode_var success flag",VD)],
 ["value, error kind, bytes consumed"])
p("C16","Skipping a value consumes exactly that value and is depth-limited",
 "Skipping a value of any wire type consumes exactly the bytes of that value, leaving the reader ready for what follows, and fails for malformed or truncated values. Nesting up to the documented default depth of 64 levels is skipped, anything nested deeper is refused with a depth-limit error, synchronously and asynchronously.",
 ["inputs"],"all wire types, contents and nesting depths",
 "the skip code is never executed by the tests.",
 [MOD,ST,CR,AR],[("skip_till_depth",MOD+", "+ST),("MAXIMUM_SKIP_DEPTH",MOD)],
 ["reader position after skip, result of the following read, error kind"])
p("C17","Enum codes are preserved, including codes unknown to this version",
 "Every 32-bit enum code survives conversion to an enum type and back and a write/read cycle unchanged, also if this version has no name for it, and every named constant has the code parquet.thrift gives it.",
 ["inputs"],"all i32 codes for all enum types, all named constants",
 "seven of the constants are used, always on both sides.",
 [PF],[("newtype enums with From<i32>/From<&T> for i32",PF)],
 ["code read back, constants"])
p("C18","Errors of the underlying reader or writer are always reported",
 "If the underlying source or sink fails at any point of reading or writing a value, synchronously or asynchronously, the call returns an error of the transport category carrying the matching kind: it never panics, never reports success, and never attempts further input or output on the failed transport within that call.",
 ["fault_sequences","inputs"],"every call index at which the transport can fail, every error kind, all values",
 "no test uses a failing transport.",
 [CR,CW,AR,AW,VD,VE,VDA,VEA,ER,PF],[("? propagation",CR+", "+CW),("From<io::Error> for Error",ER)],
 ["result, error variant and kind, calls after the fault"])
p("C19","Chunking and scheduling of the transport do not affect results",
 "However the source splits its bytes over reads, however the sink splits acceptance over writes, and wherever an asynchronous transport reports pending or a transport asks for a retry after interruption, the value read, the bytes written, and success or failure are the same as with a transport that transfers everything at once.",
 ["schedules","fault_sequences","inputs"],"all splits of reads and writes, all placements of Pending and Interrupted",
 "all tests use in-memory buffers that complete every call at once.",
 [CR,CW,AR,AW,VD,VE,VDA,VEA],[("read_exact / read_to_end / write_all loops",CR+", "+CW),("byte-wise varint reading",VD)],
 ["value, bytes, result compared with the unsplit run"])
p("C20","Readers consume exactly one value and leave the rest untouched",
 "Reading a value consumes exactly the bytes of its encoding, no matter what follows them, so that values written back to back are read back one after the other with the same reader or with a new one over the rest of the source.",
 ["inputs","histories"],"all values, all following bytes, sequences of values of different types",
 "every test reads one value from a buffer that holds nothing else.",
 [CR,AR,PF],[("byte-wise reading, take(len)",CR+", "+AR),("field id stack restored at struct end",CR+", "+AR)],
 ["source position after the read, following values"])
p("C21","Message envelopes round trip, foreign envelopes are rejected",
 "A message header with any name, any message type and any sequence number is read back equal to what was written, synchronously and asynchronously, and a header with a wrong protocol id or version is refused as a bad version and one with an unknown message type as invalid data; whole messages (header, a value, message end) written one after the other are read back one after the other.",
 ["inputs"],"all names, types, sequence numbers; all values of the first two header bytes",
 "the message layer is never exercised.",
 [CR,CW,AR,AW,MOD],[("read_message_begin / write_message_begin",CR+", "+CW),("TMessageType conversions",MOD)],
 ["identifier read back, error kind"])
p("C22","Protocol-level field, container and scalar coding round trips",
 "Any well-formed sequence of protocol write calls (fields with arbitrary ids in arbitrary order, booleans inside fields and inside containers, nested structs, lists, sets, maps, integers, doubles, strings, binary) emits the compact protocol's encoding of it and is read back by the mirrored sequence of read calls to the same identifiers and values, synchronously and asynchronously, and is never answered with a panic. Any other conforming form of a field header (a short one for any step from 1 to 15, a long one for any id, booleans included) is read to the same identifier and value.",
 ["programs","inputs"],"all field id pairs, container sizes and types, scalar values, bounded call sequences",
 "only the ascending small field ids and the few wire types that the two sample values use are exercised; sets, maps and doubles never are.",
 [CR,CW,AR,AW],[("write_field_header / read_field_begin",CW+" / "+CR),("type code tables",CW+" type_to_u8 / "+CR+" u8_to_type"),("pending bool handling",CW+" / "+CR)],
 ["identifiers and values read back, bytes"])
p("C23","Boxed protocols behave exactly like the protocols they contain",
 "Using a boxed reader or writer protocol instead of the protocol itself changes neither the bytes written, nor the values read, nor any error.",
 ["programs","inputs"],"all methods of the two protocol traits, all arguments and inputs",
 "boxed protocols are never used in tests.",
 [MOD],[("forwarding impls for Box<P>",MOD)],
 ["bytes, results"])
p("C24","Text fields are valid UTF-8 or the read fails",
 "A string field or protocol string whose bytes are not valid UTF-8 makes the read fail with an invalid-data error and valid UTF-8 is returned byte for byte, while binary fields carry arbitrary bytes unchanged, synchronously and asynchronously.",
 ["inputs"],"all byte strings as content of every text and binary field",
 "all strings in the tests are ASCII.",
 [CR,AR,PF],[("String::from_utf8",CR+", "+AR),("generated choice of read_string / read_bytes",PF)],
 ["result and content"])
p("C25","Application errors survive the wire",
 "An application error with any kind and message that is written to a protocol is read back with the same kind and message, unknown kind codes are read as the unknown kind, unknown fields are ignored, and malformed encodings are errors rather than panics.",
 ["inputs"],"all kinds and codes, all messages, unknown fields",
 "error (de)serialisation is never exercised.",
 [ER],[("read/write_application_error_*",ER),("TryFrom<i32> for ApplicationErrorKind",ER)],
 ["error read back"])
p("C26","Error conversion and verification helpers classify faithfully",
 "Converting an I/O error to the crate's error yields the transport category with the kind that corresponds to the I/O kind, other conversions yield their documented category, and the verification helpers for sequence numbers, method names, message types, required fields and field ids succeed exactly when expected and actual agree and otherwise report the documented error kind.",
 ["inputs"],"all I/O error kinds, all argument pairs",
 "no conversion and no helper is tested.",
 [ER,MOD],[("From<io::Error>, From<FromUtf8Error>, ...",ER),("verify_expected_*, field_id",MOD)],
 ["variant and kind"])
p("C27","Constructors put every argument into its field",
 "The generated constructor of every Parquet struct and the constructors of the protocol identifiers return a value in which each argument is held by the field of that name and nothing else differs, optional arguments may be given as a value or as an option, and the default of an empty struct equals its constructor's result.",
 ["inputs"],"all constructors, all arguments",
 "only the constructors used for two sample values are called.",
 [PF,MOD],[("T::new of every struct",PF),("T*Identifier::new",MOD)],
 ["fields of the constructed value"])
p("C28","Metadata types drive any protocol by exactly the calls their definition asks",
 "Whatever implements the protocol traits, writing a value of a Parquet metadata type issues exactly the protocol calls its Thrift definition prescribes (struct, field and container begins matched with their ends, with the definition's names, ids, types and sizes, then the values) and returns the sum of the byte counts the calls report; reading a type issues the mirrored calls, skips unknown fields with every begun container and field ended, and the first error a call reports is returned unchanged with no further call made. Application errors behave likewise, synchronously and asynchronously.",
 ["programs","inputs","fault_sequences"],"all types, all values, any implementation of the four protocol traits, an error at any call",
 "the tests only use the compact protocol, in which the end calls, the names and most counts are without visible effect.",
 [PF,MOD,ST,ER],[("generated read_from_in_protocol / write_to_out_protocol and their async copies",PF),("skip_till_depth",MOD+", "+ST),("read/write_application_error",ER),("end calls of fields, containers, structs",PF)],
 ["sequence of protocol calls with arguments","returned count","returned error"])
p("C29","Seeking the synchronous reader moves its source exactly as asked",
 "Seeking the synchronous compact reader with any start, end or relative offset moves the underlying source to exactly that place, reports the position or error the source reports, and what is read afterwards is what stands there.",
 ["inputs","histories"],"all offsets of all three origins, all answers of the source, reads before and after",
 "no test ever seeks.",
 [CR],[("impl io::Seek for TCompactInputProtocol",CR)],
 ["position reported, position of the source, bytes read afterwards"])
p("C30","Metadata values compare, hash, order and clone by all their fields",
 "Two values of a metadata type are equal exactly if every field of them is equal, a clone equals its original, equal values hash alike, and their ordering is a total order that calls values equal exactly if they are. Protocol identifiers and errors are equal exactly if all their parts are.",
 ["inputs"],"all types, all pairs and triples of values",
 "no test compares two values that differ; the round trip tests rely on it.",
 [PF,MOD,ER],[("PartialEq, Eq, Ord, PartialOrd, Hash, Clone of the generated types",PF),("of the identifiers",MOD),("of the errors",ER)],
 ["results of ==, cmp, partial_cmp, hash, clone"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
