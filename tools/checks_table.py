CHECKS = {
 "C01": ("exhaustive bounded enumeration of type x value space on the real codec, against an executable round-trip model",
         "Every value of the bounded type/value space was encoded and decoded by the real code; trusts the model of allowed differences (model.go norm)."),
 "C02": ("exhaustive bounded enumeration, conformance of every output to an executable reference encoder and a schema-less wire parser",
         "Every output within the bounds equals the reference encoder's; trusts model.go as statement of the format."),
 "C05": ("exhaustive bounded enumeration of byte strings (token sequences, edits of encodings, short strings) x destination types on the real decoder, monitored for panics and non-termination",
         "Every input within the bounds was decoded by the real code into fresh and filled destinations; a watchdog flags non-termination."),
 "C06": ("exhaustive bounded enumeration of byte strings x destination types on the real decoder, against an executable reference decoder",
         "Acceptance and value agree with the reference decoder (refdec.go) on every input within the bounds; trusts the reference."),
 "C03": ("exhaustive bounded enumeration of values and of byte strings on the real codec: every encoding re-encoded by differently built codecs, in every order of map insertion, against itself",
         "Every value and every accepted byte string within the bounds; what the property compares is the code with itself, and with the reference model's list of exceptions."),
 "C04": ("exhaustive bounded enumeration of messages, both directions compared with golang/protobuf running on generated proto3 message types",
         "Every message of the bounded space; trusts golang/protobuf as the definition of proto3."),
 "C07": ("exhaustive enumeration of values and byte strings for each exported primitive encoder and decoder, with every write error point",
         "All one and two byte strings, all boundary values, and all strings over a byte alphabet up to a length; trusts the reference decoders in p_prim.go."),
 "C08": ("exhaustive bounded enumeration of frames (every length prefix form x every body, all short strings) on the real decoder, against an executable reference",
         "Acceptance and value agree with the reference on every frame within the bounds."),
 "C09": ("stateless exploration of all reader behaviours (chunk sizes, empty reads, errors at each point, EOF with data) while the real decoder reads a stream of frames",
         "Every script of reader choices within the bounds, each compared with the reference framing; trusts p_frame.go's framing model."),
 "C28": ("stateless exploration of all writer behaviours (short writes, errors at each call) under the real encoders",
         "Every script of writer choices within the bounds."),
 "C12": ("explicit-state exploration of the registry: every reachable state of a registry model, every call from each, replayed on the real codec with probes",
         "Each transition of the model was replayed on the real code, its outcome and the behaviour afterwards compared; trusts the registry model (p_reg.go)."),
 "C13": ("exhaustive bounded enumeration of type x value space on the real JSON codec, against an executable round-trip model",
         "Every value of the bounded space was encoded and decoded by the real code; trusts model_json.go normJ."),
 "C14": ("exhaustive bounded enumeration, conformance of every document to an executable reference encoder",
         "Every document within the bounds equals the reference encoder's as a token tree; trusts model_json.go."),
 "C15": ("exhaustive bounded enumeration of documents (all single edits of valid ones, all token sequences) x destination types on the real decoder, against an executable reference decoder",
         "Acceptance and value agree with the reference decoder on every text within the bounds; trusts model_json.go jdec."),
 "C16": ("stateless model checking of the real code: all schedules of small concurrent programs up to a preemption bound under a controlled scheduler (sync replaced by a build overlay), with the race detector and a linearizability check",
         "All interleavings at lock operations within the preemption bound; data races by happens-before on every explored schedule."),
 "C17": ("exhaustive enumeration of call histories up to a depth on the real codec, each compared with a fresh codec; calls that would block forever are detected by the controlled sync package",
         "Every history within the bounds was executed on the real code."),
 "C10": ("exhaustive bounded enumeration on the real codec: every concrete type x registered form x position x value, every set of registrations, every foreign prefix and name, against the reference model",
         "Every combination within the bounds was encoded and decoded by the real code; trusts the reference model of interfaces."),
 "C11": ("explicit-state exploration of registrations with clashing prefix bytes (pairs of names found by search, all priorities, all orders), each replayed on the real codec, and exhaustive enumeration of names against SHA-256",
         "Each registration step and every encoding afterwards was compared with the reference model."),
 "C18": ("exhaustive bounded enumeration of types x shapes of values on the real DeepCopy, with an aliasing check of all reachable memory and mutation of every part",
         "Every value within the bounds was copied by the real code, and its reachable memory compared."),
 "C19": ("exhaustive bounded enumeration of pairs (struct type, extension) x values on the real codec, in both directions",
         "Every pair within the bounds was encoded as one and decoded as the other by the real code."),
 "C20": ("exhaustive enumeration of boundary instants x zones x positions, and of all timestamp byte strings over an alphabet, against an executable reference",
         "All instants next to every boundary of encoding length and range, in every position; all token sequences of timestamps."),
 "C21": ("exhaustive bounded enumeration of calls on the real codec, in which inputs lie in write-protected or compared memory and every byte of inputs and outputs is overwritten afterwards",
         "Every value within the bounds, each entry point; compares the code with itself before and after the mutation."),
 "C22": ("exhaustive bounded enumeration of types with custom representations x positions x values, compared with the real codec's own treatment of the representation, and every failure of the methods",
         "Every type, position and value within the bounds; differential against the representation in the same place."),
 "C23": ("exhaustive bounded enumeration of pairs (prior contents, document) x types on the real decoders, against decoding into a fresh variable",
         "Every pair within the bounds; compares the code with itself."),
 "C24": ("exhaustive bounded enumeration of hostile length claims at every position of every encoding of every type, with the real decoder's allocation measured for each call",
         "Every claim within the bounds was decoded by the real code in a process that does nothing else; the bound on bytes is generous (factor 16), so small excesses aren't seen."),
 "C25": ("exhaustive enumeration of tag combinations x field types x positions, of patterns of hidden fields, and of orders of same-named types, on the real codec against the reference model",
         "Every combination within the bounds was encoded and decoded by the real code; trusts the reference model."),
 "C26": ("exhaustive bounded enumeration of unsupported kinds x positions x values x entry points on the real codec, which must refuse",
         "Every combination within the bounds was tried on the real code."),
 "C27": ("exhaustive enumeration of byte strings (all short ones, all token sequences up to a depth) given to the built aminoscan, output compared with an executable reference",
         "Every byte string within the bounds was scanned by the built program."),
}
NOT_APPLICABLE = {}
NOTES = "Harness: /verif/harness (Go, builds against /repo through a replace directive). ./check PROP TIER builds and explores; see DESIGN.md."
