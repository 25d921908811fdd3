INPUTS = ("All 51 generated types. Per type: arbitrary bytes (quick 2, thorough 3); the encoding of a value with every optional field (thorough: also every other one) with a "
          "window of arbitrary bytes at every position (two bytes wide in encodings up to 12/20 bytes, thorough 60/100, otherwise one); the same encoding under an arbitrary 64-bit byte budget; "
          "any 32-bit count at each of its lists and any 32-bit length at each of its byte arrays, with an arbitrary budget and at most 12 (thorough 40) bytes behind; 100000 levels of nested unknown structs, lists and maps. ")
PRIMS = ("34 read calls (every method, reads through ReadThrift, lists of each element type, skip of every wire type, skip to a depth) on 7 arbitrary bytes "
         "(4 for skips and lists, 3 for nested skips) with an arbitrary budget, and every such call followed by another one on 3 arbitrary bytes (quick: followed by the four that show the state left behind). ")
OUT_IN = "Inputs that differ from a valid encoding in two distant places at once, arbitrary inputs longer than stated, long nestings other than those listed."
LONG = ("Long values: byte arrays and texts of every size from 3 to 300 and 42 sizes from 301 to 65537, lists of every size up to 130 and up to 20 sizes from 192 to 16384 (thorough: up to 2 MiB, 32768), first and last element unconstrained; texts of up to 24 (thorough 64) unconstrained ASCII bytes, byte arrays of as many unconstrained bytes. ")
SEQ = ("long sequences: byte arrays and texts up to 65537, up to 500 nested structs with fields of any ids, lists, sets, maps, lists of structs and of lists of up to 257 (thorough 4097) elements, as many fields, as many messages.")
SPOILT = ("Encodings of values with texts, byte arrays and lists of 14 to 257 (thorough: up to 4097) elements with an arbitrary byte at any place near their start, middle or end. ")
PLAIN = "one value for each pattern of optional fields (all, every other, none; concrete contents, lists of one, two, no elements)"

check("C01", ["c01_roundtrip", "c01_long"], VALS + LONG, OUT_VALS, "Every value within the bounds is written without panic and read back equal.")
check("C02", ["c02_roundtrip", "c02_long"], VALS + LONG, OUT_VALS, "As C01, for the asynchronous writer and reader over an always-ready transport.")
check("C03", ["c03_types", "c03_values", "c03_prims", "c03_long", "c03_spoilt"], INPUTS + PRIMS + "Well-formed encodings of all values of C01 (V) with unlimited budget. " + "Encodings with byte arrays, texts and lists of 300 to 16385 (thorough 65537) under an arbitrary budget. " + SPOILT, OUT_IN,
      "Both readers are run on the same symbolic input; result, value, kind of error and bytes consumed are compared.",
      reach={"c03_types": [1, 2], "c03_values": [2], "c03_prims": [1, 2], "c03_long": [1, 2]})
check("C04", ["c04_values", "c04_calls", "c04_nested", "c04_long"],
      VALS + "Calls: every one of 24 write operations after every other with unconstrained arguments of the second (numbers of full width, all wire types, texts and byte arrays of length 0, 1, 2, 127, 128), "
      "fields of any ids around nested structs; " + SEQ, OUT_VALS + " Other sequences of more than two calls.",
      "Both writers are run on the same symbolic value or calls; bytes, counts and errors are compared.")
check("C05", ["c05_calls", "c05_values", "c05_long"],
      "Every write operation with unconstrained arguments (as in C04) and every generated type, on a sink that takes all, one byte at a time, a part of the solver's choice at a call of its choice, "
      "asks for a retry at a call of its choice, at every call, or accepts nothing at a call of its choice. Types: " + VALS + LONG,
      "More than one irregular call per run; values in which several integers are of more than one byte.",
      "The count each write call returns is compared with the number of bytes that arrived in the sink.")
check("C06", ["c06_types", "c06_prims", "c06_spoilt"], INPUTS + PRIMS + SPOILT, OUT_IN,
      "No path panics, overflows, exhausts the stack or fails to terminate.", reach={"c06_types": [1, 2], "c06_prims": [1, 2]})
check("C07", ["c07_types", "c07_prims", "c07_spoilt"], INPUTS + PRIMS + SPOILT, OUT_IN,
      "As C06, for the asynchronous reader.", reach={"c07_types": [1, 2], "c07_prims": [1, 2]})
check("C08", ["c08_sums", "c08_types"],
      "Sequences of two (thorough: three; quick: selected three) reads of bytes, string, list, set, map header and struct with any declared 32-bit sizes and any 64-bit budget; for every type the "
      "encodings of " + PLAIN + ", with an unknown struct, with any 32-bit count at each list, with any 32-bit length at (quick: the first six) byte arrays, any 64-bit budget.",
      "More than three declared sizes that are symbolic at once; an implementation may count up to 8 per element and 2 per struct (the property leaves the unit open).",
      "The sizes accepted never exceed the budget, input that certainly fits is accepted, exceeding it is a size-limit error, and no allocation exceeds what was declared and accepted.",
      reach={"c08_sums": [1, 2, 3], "c08_types": [1, 2]})
check("C09", ["c09_types", "c09_calls", "c09_long"],
      "Every proper prefix of the encoding of " + PLAIN + " of every type, with each leaf unconstrained in types whose encoding is up to 24 bytes (thorough 60), and of every protocol read call, list (of up to 65 elements) and skip "
      "with unconstrained values; encodings with byte arrays, texts and lists of 5 to 16385 (thorough 65537), cut off anywhere (longer ones: near the ends, the middle and every multiple of 1024 and 1000).", OUT_VALS, "Reading any proper prefix is an error, for both readers.")
check("C10", ["c10_canonical", "c10_long"], VALS + LONG, OUT_VALS,
      "The bytes of both writers equal those of an independent encoder driven by a table of parquet.thrift.")
check("C11", ["c11_types"],
      "All 51 types, values as in C09; at each struct: any one or all field headers in long form and the fields rotated, reversed, or two of them swapped; at each union long headers; at each list a long header with the count "
      "padded to any length; each varint padded to any length its type allows; boolean lists with either element type and false as 0 or 2.",
      "Several such departures in different places of one encoding; all permutations.",
      "Every such encoding is read to the value it stands for, by both readers, to its end.")
check("C12", ["c12_types"],
      "All 51 types; at each struct one unknown field at any position, of any of 11 wire types and up to 40 shapes (scalars of any value, byte arrays with non-UTF-8 content, long byte arrays and containers as in C16, lists, sets, maps, structs, nested), with an id beyond those known, or "
      "(scalars) any unknown 16-bit id.",
      "Several unknown fields in one value; contents of unknown containers beyond the shapes listed; quick: structs other than the outermost with four wire types only.",
      "The value read is the one without the unknown field, to the end of the input, for both readers.")
check("C13", ["c13_types"],
      "All 51 types, " + PLAIN + "; at each struct one required field of the solver's choice missing (outermost: any subset), any subset of optional fields missing; at each union no alternative, or a second one of the solver's choice.",
      "Required fields missing in two nested structs at once. A union with a known and an unknown field is not specified and not checked.",
      "Missing required fields and ill-formed unions are errors; values with all required fields are read to exactly the fields present.")
check("C14", ["c14_codec"], "All values of u8, u16, u32, u64, i8, i16, i32, i64.", "Nothing within the property.",
      "Encoding, advertised size, slice and stream codecs, synchronous and asynchronous, agree with an independent LEB128/zigzag definition for every integer.")
check("C15", ["c15_decode"], "All eight integer types on all byte strings of length 0 to 12 and of ten lengths from 15 to 64.", "Other lengths (reading stops within 11 bytes of every input).",
      "Slice, synchronous and asynchronous decoding of any bytes agree with an independent definition, and stop where it says.")
check("C16", ["c16_raw", "c16_field", "c16_depth"],
      "Skip of each of 11 wire types on all byte strings of up to 11 bytes (containers and structs: up to 5, thorough 6); of values of up to 40 shapes per wire type with symbolic contents (also long ones: byte arrays up to 65537, lists up to 8193, maps up to 2049, structs up to 1000 fields), whole and cut off at any byte, between two "
      "fields; of nestings of 1 to 67 levels in eight patterns with siblings, also with any depth limit 0..127.",
      "Longer arbitrary contents of containers, other nesting patterns; negative depth limits. The field id of a stop byte, ids beyond 32767 and the element type 0 of empty lists are left open by the specification and not checked.",
      "Skip ends where an independent parser of the compact protocol ends and fails where it fails.", reach={"c16_raw": [1, 2]})
check("C17", ["c17_codes"], "All 2^32 codes for each of the seven enumerations, alone, in conversions, and in each field and list that holds one.", "Nothing within the property.",
      "Codes are read, kept, converted and written unchanged; named constants have parquet.thrift's codes.")
check("C18", ["c18_reads", "c18_writes", "c18_types", "c18_long"],
      "Every read call, write call and every type, values as in C09: the source or sink fails at a call of the solver's choice with one of six kinds of I/O error, transferring all it can or one byte per call before.",
      "Several failures in one run; other kinds of I/O errors (their conversion is C26).",
      "The failure is returned as the error of that kind, at once, the transport is not used again, and what was written before is a prefix of the right bytes.")
check("C19", ["c19_reads", "c19_writes", "c19_types", "c19_long"],
      "Every read call, write call and type, values as in C09: the transport transfers one byte per call; a part of the solver's choice; is interrupted or pending at one or two calls of its choice, or before every call; accepts nothing at a call of its choice; "
      "inputs also cut off at any byte; byte arrays, texts and lists of 300 to 16385 (thorough 65537).", "More than two irregular calls unless all are. A flush that is interrupted (only of read and write is it said that they be repeated).",
      "Results, bytes and consumption are those over a transport that transfers everything at once.")
check("C20", ["c20_types", "c20_calls", "c20_long"],
      "All 51 types (values of C01 with up to eight leaves unconstrained in turn, thorough all), and every read call with unconstrained values, followed by arbitrary bytes; three values back to back with one protocol and with new ones. " + LONG,
      OUT_VALS, "Exactly the bytes of the value are consumed, whatever follows.")
check("C21", ["c21_trip", "c21_foreign", "c21_whole"],
      "Message headers with all four types, any 32-bit sequence number and names of length 0, 1, 2, 127, 128 and of five lengths up to 16384, written and read by either implementation; any protocol id byte and any version/type byte; two whole messages around a value of each of the 51 types.",
      "Names of other lengths.", "Headers are read back; ids, versions and types that do not exist are errors of the stated kinds.", reach={"c21_foreign": [1, 2]})
check("C22", ["c22_pairs", "c22_nested", "c22_header", "c22_long"],
      "Every one of 24 write operations after every other (unconstrained arguments as in C04) and a field behind; fields of any 16-bit ids around and inside nested structs and boolean lists; "
      "field headers as foreign writers emit them (any short or long form after any id); " + SEQ, "Other sequences of more than three calls; a message header inside a struct.",
      "The bytes are those of an independent encoder and the mirrored reads return the same, consuming everything, for both implementations.")
check("C23", ["c23_writes", "c23_reads", "c23_forward", "c23_values", "c23_deep", "c23_long"],
      "Every write operation (unconstrained arguments) between fields on a Box of the protocol, of a trait object, of a Box, with a sink that fails at any call; every read call on 4 (nested: 3) arbitrary bytes followed by a field header, "
      "with a failing source or any budget; every type, values of C01 with one-byte integers; skipping nestings of up to 100 levels; every call on a Box around a protocol that only records its calls (or refuses any) instead of the compact one; writing " + SEQ,
      "Other longer inputs.", "Bytes, results, errors and consumption equal those of the protocol itself.",
      reach={"c23_forward": [1, 2]})
check("C24", ["c24_text", "c24_fields", "c24_long"],
      "Strings and byte arrays of up to 5 (thorough 6) arbitrary bytes, of 4 arbitrary bytes among 59 ASCII ones, of 2 arbitrary bytes around the ends, the middle and multiples of 1024 in 300 and 4097 (thorough up to 8193) ASCII ones; each text and binary field of every type with 3 (thorough 0 to 4) arbitrary bytes.",
      "Longer strings of arbitrary bytes.", "Text is accepted exactly if it is UTF-8 after RFC 3629, and kept; byte arrays are kept.",
      reach={"c24_text": [1, 2], "c24_fields": [1, 2]})
check("C25", ["c25_trip", "c25_foreign", "c25_junk", "c25_sink"],
      "All eleven kinds with messages as in C04 and of four lengths up to 16384, alone and in a struct; all 2^32 kind codes, an unknown field of nine wire types, field orders and header forms, missing fields; up to 4 (thorough 5) arbitrary bytes, every prefix of an error; "
      "a sink that fails at any call.", "Longer messages.", "The error read is the one written; foreign ones are read as specified; malformed ones are errors.", reach={"c25_junk": [1, 2]})
check("C26", ["c26_io", "c26_conv", "c26_codes", "c26_verify"],
      "25 kinds of std::io::Error, every other conversion, constructors with any kind and messages as in C04, all 2^32 codes of the three kinds of error, all message type codes, helpers on all numbers and on names of length 0, 1, 2, 127, 128.",
      "Other I/O error kinds; message texts that are formatted.", "Category and kind are those documented.")
check("C27", ["c27_new", "c27_defaults", "c27_ids"],
      "Constructors of all 43 structs with arguments whose integers, enum codes and booleans are unconstrained at once and whose optional arguments are present or not as the solver chooses; of the six protocol identifiers with all numbers, types and names as in C04.",
      "Texts of arguments are one arbitrary byte each, lists have one, two or no elements.", "Each argument arrives in its field; empty structs have their default.")
check("C28", ["c28_calls", "c28_refusals", "c28_unknown", "c28_skips", "c28_app"],
      "Every type, values of C01 (V), written to a protocol of the harness that records its calls and answers with counts of its own, read from one that replays the calls that parquet.thrift prescribes, with or without names; "
      "refusal (and pending) at any call for values with all or every other optional field; an unknown field of eleven wire types (containers and structs of two) behind the first field of the outermost struct and of further ones (thorough: all); skipping each; "
      "application errors of all kinds with messages as in C04.",
      OUT_VALS + " Protocols that answer with more elements than they deliver.",
      "The calls, their arguments, their number, the sum of their counts and the error of the refusing call are compared with a journal written from an independent schema table.",
      reach={"c28_unknown": [1], "c28_skips": [1], "c28_app": [1]})
check("C29", ["c29_seek", "c29_asked"],
      "All 2^64 offsets of the three origins, every answer of the source within four arbitrary bytes or an error, one read call before and each of 29 read calls after.",
      "Longer inputs; seeking inside a struct between fields.",
      "The request that reaches the source, the answer, and what is read afterwards are compared with a fresh reader at that place.",
      reach={"c29_seek": [1, 2], "c29_asked": [1]})
check("C30", ["c30_pair", "c30_three", "c30_enums", "c30_parts"],
      "Two values of each of the 51 types: all their one-byte integers, flags and texts of one byte unconstrained at once, the optional fields of one of them present or not as the solver chooses; and values in which each leaf in turn is unconstrained "
      "in both (as in C01, texts in ASCII). Three values in which two neighbouring leaves (thorough: any two) are unconstrained. All triples of codes of the seven enumerations. All pairs of each of the six protocol identifiers and three errors with names of up to two characters.",
      "More differences at once; orders of three values that differ in three or more leaves; a particular order is not asked for, nor that hashes differ.",
      "Equality, order, hash input and clones are compared with a comparison of every field written from an independent schema table.")
