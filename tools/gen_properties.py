#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

ENC, DEC, AM, CO, RF = "binary-encode.go", "binary-decode.go", "amino.go", "codec.go", "reflect.go"
JE, JD = "json-encode.go", "json-decode.go"

p("C01", "Binary round trip restores every value of every supported type",
  "For every value of a supported type, decoding what MarshalBinaryBare or MarshalBinaryLengthPrefixed produced into a fresh variable of that type succeeds and restores the value. "
  "Only these differences are allowed, because the wire format cannot express them: empty lists become nil, a pointer to a default value (but not a bool, nor in a write_empty field) or, in a list without empty_elements, to an empty struct becomes nil, a nil *bool or *float element becomes a pointer to false or 0, a nil *time.Time becomes the 1970 epoch, and times lose zone and monotonic reading. "
  "(Pointers to interfaces and, at top level, nil pointers and nil interfaces aren't supported.)",
  ["inputs", "programs"], "all supported Go types (by nesting of kinds, pointers, lists, structs, field positions and tags) and all their values",
  "Tests fuzz a dozen fixed struct types with random values; they do not cover nesting of kinds, top-level non-structs, field position, tags or boundary values.",
  [AM, ENC, DEC, RF], [("encodeReflectBinary/decodeReflectBinary dispatch", "binary-encode.go, binary-decode.go"), ("default values are omitted and restored", "reflect.go isDefaultValue/defaultValue, binary-encode.go writeFieldIfNotEmpty"), ("top-level key for non-structs", "amino.go MarshalBinaryBare/UnmarshalBinaryBare")],
  ["MarshalBinaryBare", "UnmarshalBinaryBare", "MarshalBinaryLengthPrefixed", "UnmarshalBinaryLengthPrefixed"])

p("C02", "Binary output is exactly the documented Amino/proto3 encoding",
  "MarshalBinaryBare emits exactly the bytes that the Amino specification prescribes: fields in ascending order from 1 in declaration order of the exported fields that aren't json:\"-\", minimal varint keys with the right wire type, defaults omitted (except write_empty and non-nil pointers), packed lists for scalars and repeated keys otherwise, zigzag only for int8/int16, fixed-width only where tagged, prefix bytes before registered concrete types. "
  "As a consequence a schema-less proto3 parser can split every output into fields without remainder.",
  ["inputs", "programs"], "all supported types, field tags and values",
  "Tests compare a few hand-written byte strings; a symmetric change of encoder and decoder (which breaks stored data and other implementations) passes every round-trip test.",
  [ENC, "encoder.go", AM, RF], [("field keys, packing, default omission", "binary-encode.go encodeReflectBinaryStruct/List, writeFieldIfNotEmpty"), ("wire type of a Go type", "reflect.go typeToTyp3"), ("scalar encodings", "encoder.go")],
  ["MarshalBinaryBare"])

p("C03", "Encoding is canonical: one value, one byte string, whatever the circumstances",
  "The encoding of a value (binary and JSON) depends only on the value and on what is registered: not on how many pointers to it are passed, on which codec instance encodes it, on the order of registrations, on operations the codec performed before, or on map iteration order. "
  "Decoding a binary encoding and encoding the result again reproduces the bytes (except that a nil *time.Time field decodes as 1970, which then is written).",
  ["inputs", "histories", "configurations"], "all values, argument forms, registration orders and prior operation histories of a codec",
  "Each test encodes once, with one codec with one registration order, so that dependence on caches, order or iteration cannot show.",
  [AM, CO, ENC, JE], [("lazily built type info cache", "codec.go getTypeInfoWlock"), ("deref of arguments", "reflect.go derefPointers"), ("interface implementers in registration order", "codec.go collectImplementersNolock/addCheckConflictsWithConcreteNolock")],
  ["MarshalBinaryBare", "MarshalJSON"])

p("C04", "Binary encoding interoperates with protocol buffers 3",
  "For message types whose Go declaration corresponds to a proto3 message (varint and fixed integers, bool, string, bytes, timestamps, nested messages, repeated fields; not floats, whose zeros Amino writes), Amino and golang/protobuf produce the same bytes and each decodes what the other encodes to the same message. "
  "int8 and int16 correspond to sint32.",
  ["inputs", "programs"], "all corresponding message type pairs and all values",
  "The compatibility tests cover a handful of messages with a few values; negative, boundary and multi-byte-key cases and most field combinations are absent.",
  [ENC, DEC, "encoder.go", "decoder.go"], [("proto3 field keys and varints", "binary-encode.go encodeFieldNumberAndTyp3, encoder.go"), ("timestamps", "encoder.go EncodeTime, decoder.go DecodeTime")],
  ["MarshalBinaryBare", "UnmarshalBinaryBare"])

p("C05", "Decoding arbitrary bytes never panics or hangs",
  "For every byte string and every supported destination type, UnmarshalBinaryBare, UnmarshalBinaryLengthPrefixed and the primitive Decode functions return, with a value or an error, without panicking and without looping. "
  "This includes destinations that already hold data, and interface destinations for which the bytes name a registered type that doesn't implement the interface.",
  ["inputs", "programs"], "all byte strings x all supported types x all registrations",
  "Tests decode random bytes into a few struct types; random bytes almost never reach past the first key, and no interface, nested list or pointer destination is tried.",
  [DEC, "decoder.go", AM], [("length and overflow checks", "decoder.go DecodeByteSlice/DecodeUvarint"), ("slide contract", "reflect.go slide"), ("interface construction", "binary-decode.go decodeReflectBinaryInterface")],
  ["UnmarshalBinaryBare", "UnmarshalBinaryLengthPrefixed", "Decode*"])

p("C06", "The binary decoder accepts exactly well-formed input and frames it exactly",
  "A byte string is accepted for a type if and only if it is a sequence of fields in non-decreasing number order (only lists may repeat), each with the expected wire type and a value that lies within the range of its Go type and ends exactly where its length prefix says, with unknown higher-numbered fields skipped; and what is accepted decodes to what the fields say, absent fields being defaults (an array field that is present must have all its elements). "
  "Truncated, overlong, overflowing, mistyped, misordered or left-over bytes are errors, at every nesting level, and never spill into another field.",
  ["inputs", "programs"], "all byte strings x all supported types",
  "Tests assert a handful of rejections; silent misinterpretation of malformed or shifted bytes has no oracle in the test suite.",
  [DEC, "decoder.go", AM], [("field order and type checks", "binary-decode.go decodeReflectBinaryStruct"), ("left-over checks", "binary-decode.go, amino.go UnmarshalBinaryBare"), ("range checks", "decoder.go, binary-decode.go")],
  ["UnmarshalBinaryBare"])

p("C07", "Primitive Encode/Decode/Size functions are exact inverses within range",
  "For every value, each exported primitive Encode function writes the canonical bytes, the matching Decode function reads them back with n equal to the number of bytes written regardless of what follows (except for times, which have no end mark), and the Size functions return exactly that number. "
  "Decode functions return an error on every input that is truncated, overflows 64 bits or lies outside the range of the result type, with n never exceeding the input; Encode functions report the errors of their writer.",
  ["inputs", "fault_sequences"], "all values and byte strings, all writer failures",
  "A few hand-picked values are tested; the boundaries of each varint length and of each result type, truncations and writer failures are not.",
  ["encoder.go", "decoder.go"], [("varint, fixed width, byte slice, time", "encoder.go, decoder.go")],
  ["Encode*", "Decode*", "UvarintSize", "VarintSize", "ByteSliceSize", "DecodeDisambPrefixBytes"])

p("C08", "Length-prefixed encoding is exactly one frame",
  "MarshalBinaryLengthPrefixed produces the minimal uvarint of the length of the bare encoding followed by the bare encoding. "
  "UnmarshalBinaryLengthPrefixed accepts a byte string exactly if it is one complete uvarint length followed by exactly that many bytes which decode, and then yields the bare decoding; anything short, left over, empty or with an unterminated or overflowing length is an error.",
  ["inputs"], "all values and all byte strings",
  "Tests check round trips and one or two truncations, not every prefix length, overlong prefix or left-over.",
  [AM], [("length prefix handling", "amino.go MarshalBinaryLengthPrefixed/UnmarshalBinaryLengthPrefixed")],
  ["MarshalBinaryLengthPrefixed", "UnmarshalBinaryLengthPrefixed"])

p("C09", "Stream reading is independent of fragmentation and never overreads",
  "UnmarshalBinaryLengthPrefixedReader yields the same object and n for every way a valid reader may deliver the bytes (short reads, empty reads, data together with EOF), consumes exactly one frame so that consecutive objects can be read, and reports n as the bytes consumed. "
  "A frame that exceeds maxSize (0: unlimited) is an error before anything beyond maxSize is read, a malformed or overflowing length is an error rather than a panic, and a truncated frame or failing reader is an error; MarshalBinaryLengthPrefixedWriter writes exactly one frame and reports the writer's count and error.",
  ["inputs", "fault_sequences"], "all streams, all reader behaviours allowed by io.Reader, all limits, all fault points",
  "Tests use a bytes.Reader that always delivers everything; no fragmentation, fault, limit boundary or multi-object stream is explored.",
  [AM], [("length prefix loop and limit", "amino.go UnmarshalBinaryLengthPrefixedReader"), ("writer", "amino.go MarshalBinaryLengthPrefixedWriter")],
  ["UnmarshalBinaryLengthPrefixedReader", "MarshalBinaryLengthPrefixedWriter"])

p("C10", "Interface values keep their registered dynamic type",
  "A value of a registered concrete type stored in a registered interface (top level, field, list element, nested interface; struct, scalar, list, byte or custom representation) decodes, in binary and in JSON, to the same dynamic type with the same contents, as a pointer exactly if it was registered as a pointer. "
  "Encoding an unregistered concrete type or via an unregistered interface, and decoding an unknown name or prefix, an ambiguous prefix without disambiguation bytes, or a type that doesn't implement the destination interface, is an error; a nil interface decodes to nil.",
  ["inputs", "configurations"], "all sets of registered interfaces and concrete types, all positions and values",
  "Tests have a few struct implementations at a few positions; kinds other than struct, field number 1 and cross-interface names were untested (and wrong).",
  [ENC, DEC, JE, JD, CO], [("prefix/disamb lookup", "codec.go getTypeInfoFromPrefixRlock/DisfixRlock/NameRlock"), ("interface payload", "binary-encode.go encodeReflectBinaryInterface, binary-decode.go decodeReflectBinaryInterface"), ("JSON wrapper", "json-encode.go encodeReflectJSONInterface, json-decode.go decodeReflectJSONInterface")],
  ["MarshalBinaryBare", "UnmarshalBinaryBare", "MarshalJSON", "UnmarshalJSON"])

p("C11", "Prefix and disambiguation bytes follow from the name alone; clashes are explicit",
  "For every name the disambiguation bytes are the first three bytes of SHA-256(name) after leading zero bytes, and the prefix bytes the next four after leading zero bytes following them, so neither starts with 0x00. "
  "Where two registered types that implement an interface share prefix bytes, registration fails unless both are in the priority list; then exactly those types (all types if AlwaysDisambiguate) are written with 0x00, disambiguation and prefix bytes, and each decodes to its own type.",
  ["inputs", "configurations"], "all names; all registrations including colliding prefixes",
  "Tests compute one or two prefixes; the skipping of zero bytes (1 in 256 names each) and prefix collisions (1 in 2^32) do not occur by chance.",
  [CO, ENC, DEC], [("nameToDisfix", "codec.go"), ("conflict detection", "codec.go checkConflictsInPrioNolock"), ("disambiguation", "binary-encode.go encodeReflectBinaryInterface, binary-decode.go DecodeDisambPrefixBytes")],
  ["NameToDisfix", "RegisterConcrete", "RegisterInterface", "MarshalBinaryBare"])

p("C12", "The registry is a consistent, all-or-nothing state machine",
  "For every history of RegisterInterface, RegisterConcrete and Seal calls, each call either takes full effect or panics and leaves the codec behaving exactly as before; a call fails exactly when the codec is sealed, the argument is of an invalid kind, the type, the name (or the seven bytes derived from it) or the interface is already registered or the type already used, or an unprioritized prefix conflict would arise. "
  "Behaviour of the codec (encodings, what decodes, PrintTypes in registration order) is a function of the successful registrations, and which concrete types an interface knows doesn't depend on whether the interface or the concrete type was registered first.",
  ["histories"], "all sequences of registry operations and uses",
  "Tests register a fixed happy-path sequence and assert that one duplicate panics; they never look at the codec after a failed call nor permute the order.",
  [CO], [("registration under one lock", "codec.go RegisterInterface/RegisterConcrete"), ("conflict rollback", "codec.go addCheckConflictsWithConcreteNolock"), ("sealing", "codec.go Seal/assertNotSealed")],
  ["RegisterInterface", "RegisterConcrete", "Seal", "PrintTypes"],
  [("codec tables", "types, interfaces, concretes, names, disfixes", "codec.go Codec")])

p("C13", "JSON round trip restores every value of every supported type",
  "For every value of a supported type (including maps with string keys) whose strings are valid UTF-8, UnmarshalJSON of MarshalJSON's output into a fresh variable succeeds and restores the value. "
  "Only these differences are allowed: empty lists become nil (and nil maps become empty), times become UTC, a field omitted through omitempty or json:\"-\" takes its zero value, and a pointer to nil becomes nil.",
  ["inputs", "programs"], "all supported types and values",
  "Tests use a handful of types; nesting of pointers, maps, custom marshalers, interfaces and numeric boundaries is sampled sparsely.",
  [JE, JD], [("encodeReflectJSON/decodeReflectJSON", "json-encode.go, json-decode.go")],
  ["MarshalJSON", "UnmarshalJSON"])

p("C14", "JSON output is valid, deterministic and in the documented format",
  "MarshalJSON always emits one valid JSON document: 64-bit (and int/uint) integers as decimal strings, smaller ones as numbers, bytes as base64 strings, lists as arrays (nil slices and pointers null), structs as objects with the json names in field order honouring omitempty and \"-\", maps as objects with sorted keys, times as RFC3339 UTC strings, registered types (top-level or in interfaces) as {\"type\":name,\"value\":...} with the name properly quoted. "
  "MarshalJSONIndent is that document indented.",
  ["inputs", "programs"], "all supported types, tags and values",
  "Tests compare a few literal documents; escaping of names, map order, omitempty over all kinds and separators around omitted fields are not covered.",
  [JE, AM], [("JSON writers", "json-encode.go"), ("wrapper", "amino.go MarshalJSON")],
  ["MarshalJSON", "MarshalJSONIndent"])

p("C15", "Decoding arbitrary JSON text never panics and rejects what doesn't match",
  "For every text and supported destination type UnmarshalJSON returns, with a value or an error, without panicking; text that isn't valid JSON, or whose shape doesn't match the type (unquoted 64-bit integers, out-of-range numbers, wrong array lengths, non-UTC times, wrapper without type or value, unknown or wrong type names) is an error. "
  "What is accepted decodes to what the document says: unknown keys are ignored, missing fields and null give zero values (missing omitempty fields keep theirs), key order doesn't matter.",
  ["inputs", "programs"], "all texts x all supported types",
  "Tests feed a dozen malformed documents into fixed types.",
  [JD, AM], [("JSON readers", "json-decode.go"), ("wrapper", "json-decode.go decodeInterfaceJSON")],
  ["UnmarshalJSON"])

p("C16", "A codec may be used concurrently: linearizable, race-free, deadlock-free",
  "However the operations of several goroutines on one codec (binary and JSON marshal/unmarshal of any types, registration, sealing, PrintTypes) interleave, every operation completes, no data race occurs, and the results equal those of some sequential order of the operations that respects real time. "
  "After Seal returns, no registration takes effect.",
  ["schedules"], "all interleavings of the synchronization operations of a few goroutines",
  "The tests are sequential; none starts a second goroutine on a codec.",
  [CO, ENC, DEC, JE, JD], [("codec mutex", "codec.go"), ("implementers read while registering", "binary-encode.go encodeReflectBinaryInterface"), ("immutable type infos", "codec.go TypeInfo")],
  ["all Codec methods"],
  [("codec tables", "maps and slices guarded by the mutex", "codec.go Codec")])

p("C17", "Failures leave no trace: results don't depend on earlier calls",
  "After any history of calls on a codec, including calls that returned errors or panicked (unsupported types, nil pointers, failing custom marshalers, malformed input, rejected registrations), every later call terminates and behaves exactly as on a fresh codec with the same successful registrations (but a type that was used before can't be registered any more). "
  "No call waits forever on a lock that an earlier failed call took.",
  ["histories"], "all operation histories up to a depth",
  "Every test uses the codec for one successful purpose; none uses a codec after a panic (which deadlocked).",
  [CO, ENC, DEC], [("lock release on all paths", "codec.go getTypeInfoWlock"), ("type info cache", "codec.go setTypeInfoNolock")],
  ["all Codec methods"])

p("C18", "DeepCopy yields an equal value that shares no mutable memory",
  "For every value made of supported kinds, DeepCopy returns a value of the same type whose exported contents equal the original's (nil-ness, pointer structure, lengths, dynamic types, map contents), and nothing reachable through pointers, slices or map values is shared, so mutating either leaves the other as it was. "
  "A DeepCopy method, or else a matching MarshalAmino/UnmarshalAmino pair, of a (pointed-to) type is honoured wherever the type occurs with that method available (what such a method shares is its own business), and it never panics on nil pointers, interfaces, maps or slices.",
  ["inputs", "programs"], "all types by nesting of kinds and all shapes of values",
  "Tests copy single-field structs; no slice, map, array, nested pointer or mutation after copying is tested (slices were shared).",
  ["deep_copy.go"], [("recursive copy", "deep_copy.go _deepCopy"), ("method hooks", "deep_copy.go callDeepCopy/callAminoCopy")],
  ["DeepCopy"])

p("C19", "Schemas can evolve: adding fields keeps old and new readers working",
  "If struct type B extends A with further fields at the end (at any nesting level, in messages held by fields, pointers, lists or interfaces), bytes of B decode as A to the same values of the common fields, whatever kinds (including repeated ones) the additional fields have. "
  "Bytes of A decode as B with the additional fields at their defaults.",
  ["programs", "inputs"], "all extensions of all struct types by fields of all kinds, all values",
  "One test skips fields of a few kinds; repeated trailing fields, multi-byte keys and nested extension are not covered.",
  [DEC], [("skipping unknown fields", "binary-decode.go decodeReflectBinaryStruct/consumeAny"), ("defaults for absent fields", "reflect.go defaultValue")],
  ["UnmarshalBinaryBare"])

p("C20", "Times survive exactly, and out-of-range times are errors",
  "Every instant from year 1 to 9999 with any nanoseconds, in any zone and with or without monotonic reading, encodes as the proto3 Timestamp of the instant and decodes, in binary and JSON (years 0 to 9999), to the same instant in UTC; the absent or empty encoding is 1970-01-01, also inside absent nested messages. "
  "Instants outside the range are encoding errors, and encoded seconds or nanoseconds outside theirs (or bytes left over) are decoding errors.",
  ["inputs"], "all instants, zones and positions; all timestamp byte strings",
  "Tests check a few instants and bounds for encoding only, at top level.",
  ["encoder.go", "decoder.go", ENC, DEC, RF, JE, JD], [("EncodeTime/DecodeTime", "encoder.go, decoder.go"), ("default time", "reflect.go defaultValue")],
  ["EncodeTime", "DecodeTime", "MarshalBinaryBare", "UnmarshalBinaryBare", "MarshalJSON", "UnmarshalJSON"])

p("C21", "Encoding and decoding are pure: no input is modified, no memory shared",
  "Marshalling (binary, JSON, DeepCopy) leaves the value as it was, and the returned bytes share no memory with it or with the codec's tables; unmarshalling leaves the input bytes as they were, and the decoded value keeps no reference to them, nor do two decoded values or two parts of one. "
  "So modifying one never changes another, nor later results of the codec.",
  ["inputs", "histories"], "all types and values, mutation of every byte or element after the call",
  "Tests never modify inputs or outputs after a call.",
  [AM, ENC, DEC, "encoder.go", "decoder.go", JE, JD, CO], [("copying of byte slices", "decoder.go DecodeByteSlice"), ("prefix bytes are copied", "amino.go MarshalBinaryBare"), ("fresh slices", "binary-decode.go decodeReflectBinarySlice")],
  ["Marshal*", "Unmarshal*"])

p("C22", "MarshalAmino/UnmarshalAmino types are represented by their representation",
  "A type with MarshalAmino/UnmarshalAmino encodes, in binary and JSON and wherever it occurs, with the contents its representation value has in that place (field keys, list form, emptiness for omitempty and top-level framing follow the kind of the type itself), and decodes by passing the decoded representation to UnmarshalAmino, for representations of every kind including further such types (given that default value and default representation correspond). "
  "An error from either method is returned as an error by the codec.",
  ["programs", "inputs", "fault_sequences"], "all representation kinds, positions, values and method failures",
  "repr_test.go has one representation kind at a few positions.",
  [ENC, DEC, JE, JD, RF, CO], [("toReprObject", "reflect.go"), ("overrides", "binary-encode.go, binary-decode.go, json-encode.go, json-decode.go")],
  ["MarshalBinaryBare", "UnmarshalBinaryBare", "MarshalJSON", "UnmarshalJSON"])

p("C23", "Decoding overwrites the destination completely",
  "Decoding into a variable that already holds any value gives the same result as decoding into a fresh one, for every supported type without non-nil interfaces and, for JSON, except that omitempty fields missing from the document keep their value. "
  "A destination that holds a non-nil interface where bytes are present for it may be an error, but never is merged silently.",
  ["inputs", "histories"], "all pairs (prior contents, encoded value) of all supported types",
  "Tests always decode into zero values.",
  [DEC, JD], [("absent fields reset", "binary-decode.go decodeReflectBinaryStruct"), ("fresh slices and maps", "binary-decode.go decodeReflectBinarySlice, json-decode.go")],
  ["UnmarshalBinaryBare", "UnmarshalJSON"])

p("C24", "Decoding allocates in proportion to the input, not to claimed lengths",
  "A length prefix that claims more than the input holds never causes an allocation of the claimed size: memory allocated while decoding a binary byte string or stream stays within a fixed multiple of the bytes actually supplied, however deeply they nest, plus the size of the destination type. "
  "With maxSize set, the stream reader never reads or buffers more than maxSize.",
  ["inputs"], "all length prefixes at all positions of all types",
  "Tests contain no hostile length prefix and measure no allocation.",
  [AM, "decoder.go", DEC], [("length check before allocation", "decoder.go DecodeByteSlice"), ("incremental read", "amino.go UnmarshalBinaryLengthPrefixedReader")],
  ["Unmarshal*", "DecodeByteSlice", "DecodeString"])

p("C25", "Struct tags and field selection act as documented, per field",
  "Exactly the exported fields without json:\"-\" are encoded, numbered consecutively; json names and omitempty, binary fixed32/fixed64, amino unsafe/write_empty/empty_elements affect exactly the tagged field (and its elements), in every combination with field type, position and with distinct types of the same name. "
  "Fields that aren't encoded are neither read, written nor numbered.",
  ["programs"], "all combinations of tags, field kinds and positions",
  "Tests cover each tag once with one field type.",
  [CO, RF], [("parseStructInfo/parseFieldOptions", "codec.go"), ("checkUnsafe", "reflect.go")],
  ["MarshalBinaryBare", "UnmarshalBinaryBare", "MarshalJSON", "UnmarshalJSON"])

p("C26", "What isn't supported is refused, never silently mis-encoded",
  "Encoding or decoding a value that Amino doesn't support (floats without unsafe, complex numbers, channels, functions, non-empty maps in binary, in binary, multidimensional lists (other than of bytes, or a field's own list of lists, which is supported), nil pointers at top level and nil struct elements of empty_elements lists; nil pointers inside interfaces, unregistered interfaces, JSON maps with non-string keys) ends in an error or panic, in every position where the value is encoded. "
  "A successful MarshalBinaryBare or MarshalJSON thus never drops non-default data of encoded fields.",
  ["programs", "inputs"], "all unsupported kinds at all positions",
  "Tests assert that a few top-level cases panic.",
  [RF, CO, ENC, DEC, JE, JD], [("checkUnsafe, typeToTyp3", "reflect.go"), ("default cases of the dispatch", "binary-encode.go, json-encode.go")],
  ["Marshal*", "Unmarshal*"])

p("C27", "aminoscan terminates on every input and accounts for every byte",
  "For every hex input aminoscan terminates normally, and its final line shows every input byte once, in order, parsed bytes first and the unparsed rest last, after one line for each key and value that shows its number or value. "
  "It reports no error exactly if the bytes are a sequence of well-formed (key, value) fields of wire types 0, 1, 2 and 5, with n equal to the number of bytes of complete fields and keys scanned; --concrete-name prints the registered bytes of a name, and --color each byte once, as a character if printable.",
  ["inputs"], "all byte strings",
  "aminoscan has no tests.",
  ["cmd/aminoscan/aminoscan.go"], [("scanStruct/scanAny", "cmd/aminoscan/aminoscan.go")],
  ["stdout and exit status of aminoscan"])

p("C28", "All entry points agree: Must*, package-level, Writer and Indent variants",
  "Package-level functions behave as the methods of a codec with nothing registered; the Must variants return what the plain variants return and panic exactly where those give an error; the Writer variant writes what the slice variant returns; MarshalJSONIndent is json.Indent of MarshalJSON. "
  "Decoding with a slice and with a reader agree on every frame.",
  ["inputs", "configurations"], "all entry points x all values and byte strings",
  "Most wrappers are called by no test or only on the success path.",
  [AM], [("wrappers", "amino.go")],
  ["all exported functions of amino.go"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
