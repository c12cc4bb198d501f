STD = "encoding/json"
BASE = "Random search: a violation found is real (shrunk and replayable); silence covers only the generated cases counted in the evidence. "

prop("C01", "Exactly the JSON texts of RFC 8259 are accepted",
 "A text is accepted as one JSON value by whole-document decoding into a generic value, by the raw-text reads, by the skipping reads and by validation if and only if it is exactly one RFC 8259 value surrounded by optional JSON whitespace. Every other text is rejected with an error and never with a panic or a hang, and all these ways agree with each other.",
 ["inputs", "configurations"],
 "every byte string (of any length and nesting depth), every recognising entry point, from memory or from a reader",
 "the tests give each reader a few dozen valid and damaged texts; the grammar is implemented many times over (skip, raw, generic read, typed reads), and each copy can differ on an input no test holds",
 ["iterator_skip.go", "iterator_skip_number.go", "iterator_skip_str.go", "iterator_skip_array.go", "iterator_skip_object.go", "iterator_read.go", "iterator_read_array.go", "iterator_read_object.go", "iterator_raw.go", "standard_like.go", "decoder_config.go", "iterator.go"],
 [("recursive and stack based readers with per-byte dispatch tables", "iterator_skip.go, iterator_read.go, stack.go"), ("trailing data check", "decoder_config.go: Unmarshal"), ("whitespace skipping", "iterator.go: nextToken")],
 "property-based testing: grammar-based and mutational generation plus bounded enumeration against a reference RFC 8259 recogniser",
 BASE + "Trusts the reference parser in harness/ref. All texts up to 4-6 characters over six token alphabets are enumerated in full.")

prop("C02", "Generic decoding gives the value the text denotes",
 "Decoding a valid JSON text into an empty interface value gives exactly the value it denotes: objects as string-keyed maps in which the last of several equal keys wins, arrays as slices in order and of the same length, strings with all escapes resolved, numbers as the nearest float64 (or, with the number option, the literal text kept unchanged), true, false and nil. A number beyond the range of float64 is an error, and nesting of any depth is handled.",
 ["inputs", "configurations"],
 "every valid JSON text, with and without the number option, every generic entry point",
 "tests check a handful of literal documents; interactions of nesting, escapes, number forms and buffer sizes are unbounded",
 ["iterator_read.go", "iterator_read_array.go", "iterator_read_object.go", "iterator_float64.go", "iterator_str.go", "stack.go", "iterator_number.go", "decoder_config.go"],
 [("non-recursive reader with an explicit stack", "iterator_read.go, stack.go"), ("number option", "decoder_config.go: UseNumber")],
 "property-based testing: generated documents against a reference parser and evaluator",
 BASE + "Trusts the reference parser in harness/ref and strconv.ParseFloat.")

prop("C03", "Typed decoding agrees with encoding/json",
 "Decoding a document into a zero value of any Go type (booleans, numbers, strings, byte slices, slices, arrays, maps, pointers, structs with tags and embedding, interfaces, types with JSON or text unmarshal methods, nested in any way) succeeds exactly when the standard library succeeds, and then gives a deeply equal value. The documented differences (text that is not UTF-8, repeated keys for a field that holds a slice, unusual spellings of integers inside strings) are outside the property.",
 ["inputs", "programs"],
 "every Go type built from the supported kinds and every document, valid or not, fitting the type or not",
 "the tests fix some hundred pairs of type and document; the space is the product of type structure, tags, embedding and document shape",
 ["val_decoder.go", "val_decoder_native_struct.go", "val_decoder_native_struct_small.go", "val_decoder_native_struct_one_field.go", "val_decoder_native_map.go", "val_decoder_native_slice.go", "val_decoder_native_array.go", "val_decoder_native_ptr.go", "val_decoder_native_int.go", "val_decoder_native_uint.go", "val_decoder_native_float.go", "val_decoder_native_interface.go", "val_decoder_json_number.go", "val_decoder_json_unmarshaler.go", "val_decoder_text_unmarshaler.go", "struct.go", "struct_field.go", "decoder_config.go"],
 [("decoder chosen per type and cached", "decoder_config.go"), ("field resolution", "struct.go: describeStruct"), ("unsafe memory access per kind", "val_decoder_native_*.go, link_reflect.go")],
 "property-based differential testing: generated types and documents against encoding/json",
 BASE + "Trusts encoding/json of go1.23.12 on the stated domain.")

prop("C04", "Integers decode exactly or report an error",
 "Reading an integer literal into any integer type gives exactly the integer it denotes when it is in the range of the type, and an error when it is not; it never wraps, truncates or saturates. Texts that are not JSON integers (leading zeros, a lone minus, empty, fractions and exponents for a whole value) are rejected.",
 ["inputs"],
 "every literal of any number of digits and every integer width and signedness, at every place an integer can occur (elements, fields, map keys, quoted fields, pointers)",
 "tests sample the bounds of each width at one place; the overflow rules are hand written for each width and digit count",
 ["iterator_int.go", "iterator_int8.go", "iterator_int16.go", "iterator_int32.go", "iterator_int64.go", "val_decoder_native_int.go", "val_decoder_native_uint.go", "val_decoder_native_map.go"],
 [("digit-by-digit accumulation with overflow checks", "iterator_int8.go, iterator_int16.go, iterator_int32.go, iterator_int64.go")],
 "property-based testing with boundary-biased generation and enumeration of the narrow widths against math/big",
 BASE + "Enumerates -70000..70000 for the narrow widths and the neighbours of all powers. Trusts math/big.")

prop("C05", "Floats decode to the nearest value or report an error",
 "Reading a number literal as float64 or float32 gives the nearest representable value with ties to even, for every spelling of the literal (any number of digits, fraction, exponent, sign including minus zero), and an out of range literal is an error. This holds wherever the number occurs and however the input is divided into reads.",
 ["inputs"],
 "every JSON number literal, both float widths, every place a float can occur",
 "tests sample a few literals; correct rounding depends on the exact digits (half-way points, subnormals, long mantissas)",
 ["iterator_float.go", "iterator_float32.go", "iterator_float64.go", "val_decoder_native_float.go"],
 [("collects the literal, fast path for short integers, strconv otherwise", "iterator_float64.go, iterator_float32.go")],
 "property-based testing: hard-case float literal generation against strconv.ParseFloat",
 BASE + "Trusts strconv.ParseFloat.")

prop("C06", "String literals decode to the text they denote",
 "Reading a string literal gives exactly the characters it denotes: every escape, every surrogate pair combined, a lone surrogate replaced by U+FFFD, all other UTF-8 text unchanged, for every length. Raw control characters, bad escapes and unterminated literals are errors in every way of reading a string, including skipping it and reading it as an object key.",
 ["inputs"],
 "every string literal and near-literal that is UTF-8 text, every way of reading it, from memory or from a reader",
 "tests hold a few escapes; surrogate handling and buffer boundaries multiply",
 ["iterator_str.go", "iterator_skip_str.go", "iterator_object.go", "iterator_raw.go", "iterator_read_object.go", "convert.go"],
 [("copying and unescaping loop over refilled buffers", "iterator_str.go"), ("surrogate pairing", "iterator_str.go: readU4 and its callers")],
 "property-based testing plus enumeration of all \\u escapes and escape characters against a reference unescaper",
 BASE + "Trusts the reference parser in harness/ref.")

prop("C07", "Results do not depend on how the input arrives",
 "Every operation on a text gives the same result, the same success or failure and the same remaining text whether the text is given as bytes in memory or by a reader, and however that reader divides it (single bytes, empty reads, any piece sizes, data together with the end of file). This holds for any sequence of operations on one source.",
 ["inputs", "schedules", "histories"],
 "every text, every division into reads and every sequence of reading operations",
 "tests use a few fixed readers (one byte at a time); a refill can fall inside any token at any step",
 ["iterator.go", "iterator_str.go", "iterator_skip_number.go", "iterator_skip_str.go", "iterator_float64.go", "iterator_float32.go", "iterator_int64.go", "iterator_raw.go", "iterator_object.go", "iterator_array.go"],
 [("buffer refill and capture of raw text across refills", "iterator.go: readMore, iterator_raw.go")],
 "stateful property-based testing: metamorphic comparison of two sources over random walks of operations",
 BASE + "No outside oracle: the two sources are compared with each other (correctness on bytes is decided by the other properties).")

prop("C08", "A stream of values is read value by value",
 "From a stream of concatenated values, the decoder and the iterator deliver each value in order exactly once, ending right after it so that the rest of the stream is untouched and available (through the buffered rest plus the reader), and the input offset is the number of bytes consumed. More tells the truth about the rest, the end of the stream is reported as the end-of-file error exactly once everything is consumed, and a stream cut inside a value is an error.",
 ["inputs", "histories"],
 "every sequence of values with any spacing between them, any division into reads, any mix of reads, skips and queries",
 "tests read two or three values; framing depends on the ends of tokens falling anywhere relative to buffers",
 ["decoder.go", "iterator.go", "iterator_skip.go", "iterator_raw.go", "decoder_config.go"],
 [("position bookkeeping of head, tail and offset", "iterator.go"), ("Decoder over an iterator", "decoder.go")],
 "stateful property-based testing against a model that parses the whole stream",
 BASE + "Trusts the reference parser in harness/ref.")

prop("C09", "Step by step navigation reads exactly the document",
 "Walking a text with the step by step methods (asking the next value type, beginning arrays and objects, asking for more elements and fields, the callback forms, the scalar reads, and skipping values) succeeds exactly when the text is valid, and yields exactly its structure, keys, values and order. An error returned by a callback stops the walk and is returned unchanged.",
 ["inputs", "histories"],
 "every text, valid or damaged, and every choice of navigation method at every value",
 "tests walk a few small arrays and objects; the methods share state (comma and end handling) across calls",
 ["iterator_array.go", "iterator_object.go", "iterator.go", "value_type.go", "iterator_bool.go", "iterator_null.go", "iterator_str.go"],
 [("ReadArrayBegin/More, ReadObjectBegin/More, callbacks", "iterator_array.go, iterator_object.go"), ("NextValueType", "iterator.go, value_type.go")],
 "stateful property-based testing: random walks against a reference parser",
 BASE + "Trusts the reference parser in harness/ref.")

prop("C10", "Encoding agrees with encoding/json",
 "Encoding any Go value (booleans, numbers, strings, byte slices, slices, arrays, maps, pointers, structs with tags and embedding, interfaces, types with JSON or text marshal methods, nested in any way) gives the same text as the standard library, with HTML escaping on or off, and an error exactly when the standard library gives one. The order of map entries, the spelling of the two control characters with short escapes, pointer-receiver methods on unaddressable values and the layout of text returned by user methods are outside the property.",
 ["inputs", "programs", "configurations"],
 "every Go type built from the supported kinds and every value of it, passed by value or by pointer",
 "the tests fix some hundred values; the result depends on the product of type structure, tags, pointer shape of values and contents",
 ["val_encoder.go", "encoder_config.go", "val_encoder_native_struct.go", "val_encoder_native_map.go", "val_encoder_native_slice.go", "val_encoder_native_array.go", "val_encoder_native_ptr.go", "val_encoder_native_interface.go", "val_encoder_direct.go", "val_encoder_json_marshaler.go", "val_encoder_text_marshaler.go", "struct.go", "is_empty.go", "streamer_val.go"],
 [("encoder chosen per type and cached", "encoder_config.go"), ("direct (pointer shaped) values", "val_encoder_direct.go, eface.go"), ("field resolution", "struct.go: describeStruct")],
 "property-based differential testing: generated types and values against encoding/json",
 BASE + "Trusts encoding/json of go1.23.12 on the stated domain.")

prop("C11", "What is encoded can be decoded again without loss",
 "The encoding of a value is always one valid JSON text, decoding that text into the same type succeeds and gives the value the standard library's own round trip gives, and encoding the result again gives the same text. This holds for every type that can be both encoded and decoded, except for strings that are not UTF-8.",
 ["inputs", "programs"],
 "every round-trippable Go type and every value of it",
 "tests check encoding and decoding apart from each other and on few values",
 ["val_encoder.go", "val_decoder.go", "encoder_config.go", "decoder_config.go", "struct.go", "streamer_str.go", "streamer_float.go", "iterator_str.go"],
 [("matching encoders and decoders per kind", "val_encoder_native_*.go, val_decoder_native_*.go")],
 "property-based testing: round trip of generated values, checked with a reference parser",
 BASE + "Trusts the reference parser and encoding/json's round trip.")

prop("C12", "The streamer writes exactly what it is told",
 "A well formed sequence of streamer calls (scalars, raw text, values, arrays, objects and fields, nested in any way) with flushes at any points writes exactly the text the calls denote, with commas and colons at the right places and nothing lost, repeated or reordered. After the first error nothing more is written until the streamer is reset, and a reset streamer behaves like a new one.",
 ["inputs", "histories"],
 "every sequence of streamer operations, flush points, and lives of one streamer",
 "tests write a few short documents in one go",
 ["streamer.go", "streamer_val.go", "streamer_str.go", "streamer_int.go", "streamer_float.go", "streamer_pool.go"],
 [("poppable comma state", "streamer.go"), ("buffer and flush", "streamer.go: Flush, Reset")],
 "stateful property-based testing against a text-building model",
 BASE + "The spelling of single strings and numbers is taken from encoding/json.")

prop("C13", "Failing writers lose and repeat nothing",
 "When the underlying writer fails, or accepts only a part before failing, at any call, the streamer reports that error, and what was delivered before and what later successful flushes deliver together are exactly the text, with nothing lost or delivered twice. An encoder reports the first error, keeps reporting it on later calls, and delivers only a prefix of the text.",
 ["fault_sequences", "histories"],
 "every sequence of writes, flushes and writer failures, with any number of bytes accepted by the failing call",
 "tests have one writer that always fails",
 ["streamer.go", "encoder.go"],
 [("Flush keeps the unwritten rest", "streamer.go: Flush"), ("sticky error of the encoder", "encoder.go: Encode")],
 "fault-injecting stateful property-based testing against a text model",
 BASE + "The writer keeps to the contract of io.Writer (a short write comes with an error).")

prop("C14", "Strings are escaped correctly wherever they are written",
 "Every Go string written as a value, a map key, a field name, by a text marshaler, in a quoted field or by the streamer becomes one valid JSON string literal that denotes it (bytes that are not UTF-8 as U+FFFD) and escapes what the standard library escapes. With HTML escaping on, '<', '>', '&', U+2028 and U+2029 never appear raw anywhere, and with it off '<', '>' and '&' are written as they are.",
 ["inputs", "configurations"],
 "every string, every place a string can be written, HTML escaping on or off",
 "tests escape a few strings at one place",
 ["streamer_str.go", "streamer.go", "val_encoder_native.go", "val_encoder_text_marshaler.go", "val_encoder_native_map.go", "val_encoder_native_struct.go", "struct.go"],
 [("safe-set tables and the escaping loop", "streamer_str.go"), ("pre-rendered field names", "struct.go, val_encoder_native_struct.go")],
 "property-based testing plus enumeration of all code points and byte pairs against encoding/json",
 BASE + "Every code point and every pair of bytes is enumerated.")

prop("C15", "Numbers are written exactly",
 "Every integer of every width is written as its canonical decimal digits, and every finite float as the standard library writes it, a literal that reads back as the same float; this holds at every place a number can be written. NaN and the infinities are an error wherever they occur, never output.",
 ["inputs"],
 "every value of every integer and float type, at every place (elements, fields, map keys, quoted fields, streamer methods)",
 "tests sample a few numbers per width; the digit tables and format thresholds are hand written",
 ["streamer_int.go", "streamer_float.go", "val_encoder_native_int.go", "val_encoder_native_uint.go", "val_encoder_native_float.go", "val_encoder_native_map.go"],
 [("digit tables per width", "streamer_int.go"), ("format choice by magnitude", "streamer_float.go")],
 "property-based testing plus enumeration of 8 and 16 bit values and all powers against strconv and encoding/json",
 BASE + "Trusts strconv.")

prop("C16", "Struct fields are resolved by the standard rules",
 "Which struct fields are decoded and encoded, under which names and in which order, follows the standard library's rules for tags, embedding, hiding by depth and by tag, ambiguity, unexported fields and invalid tag names, with the configured tag key in place of \"json\" and, with the tagged-only option, with untagged fields left out. Decoding and encoding agree with each other about it.",
 ["programs", "configurations"],
 "every struct type, with any nesting of embedded structs and pointers, any tags under any tag key, and the tagged-only option on or off",
 "tests hold a few struct types; hiding and ambiguity depend on the whole tree of embedded types",
 ["struct.go", "struct_field.go", "struct_tag.go", "val_decoder_native_struct.go", "val_decoder_native_struct_small.go", "val_decoder_native_struct_one_field.go", "val_encoder_native_struct.go", "decoder_config.go", "encoder_config.go"],
 [("breadth-first description of a struct with dominance rules", "struct.go: describeStruct"), ("tag key and tagged-only options", "decoder_config.go, encoder_config.go")],
 "property-based differential testing: generated struct types against encoding/json on a rewritten type",
 BASE + "Trusts encoding/json on the type rewritten to the json tag key.")

prop("C17", "Object keys select the right struct field",
 "Each key of a decoded object sets exactly the field the rules select: an exact name first, otherwise (unless names are case sensitive) a name equal under case folding, with keys spelled in any way (escapes included); other keys change nothing. With unknown fields disallowed, decoding fails exactly when some key selects no field, and the order of keys in the object does not matter.",
 ["inputs", "programs", "configurations"],
 "every set of field names and every object, for structs of every size class, every combination of the options",
 "tests use short ASCII names; the number of fields chooses between three implementations",
 ["val_decoder_native_struct.go", "val_decoder_native_struct_small.go", "val_decoder_native_struct_one_field.go", "struct.go", "struct_field_fold.go", "decoder_config.go"],
 [("one-field, small and map based struct decoders", "val_decoder_native_struct*.go"), ("case folding of keys", "struct_field_fold.go, struct_field_upper.go")],
 "property-based testing: generated structs and objects against a model of field selection",
 BASE + "Trusts the key-matching model in harness/props/c17_keys.go and the standard library's folding rules.")

prop("C18", "Decoding into existing values merges by the rules",
 "Decoding into a value that already holds data changes exactly what the document mentions: absent fields and map entries keep their value, pointers that are set are followed and kept, nil pointers and maps are allocated, arrays are filled and the rest zeroed, slices are replaced, and null clears pointers, maps, slices and interfaces and leaves everything else alone.",
 ["inputs", "histories"],
 "every type, every prior content of the destination and every fitting document",
 "tests decode into zero values with few exceptions",
 ["val_decoder_native_struct.go", "val_decoder_native_struct_small.go", "val_decoder_native_struct_one_field.go", "val_decoder_native_map.go", "val_decoder_native_slice.go", "val_decoder_native_array.go", "val_decoder_native_ptr.go", "val_decoder_native_interface.go", "val_decoder_native.go"],
 [("per-kind treatment of null and existing contents", "val_decoder_native_*.go")],
 "property-based testing: generated destinations and documents against a merge model, with pointer identity",
 BASE + "Trusts the merge model in harness/props/c18_merge.go.")

prop("C19", "Interface destinations are filled correctly and never loop",
 "Decoding into an interface holding a pointer fills the value pointed to and keeps the pointer; any other content of an empty interface is replaced by the generic value, and null clears the interface or the pointer as the rules say. However interfaces and pointers refer to each other, including cycles, decoding ends, and reports a loop exactly when following the references would never reach a value.",
 ["histories", "inputs"],
 "every graph of interfaces and pointers, cyclic or not, and every document",
 "tests contain two hand-built loops",
 ["val_decoder_native_interface.go", "eface.go", "iterator_val.go", "iterator.go"],
 [("loop detection by last seen interface and offset", "val_decoder_native_interface.go")],
 "property-based testing: generated reference graphs against a model",
 BASE + "Trusts the interface model in harness/props/c19_iface.go.")

prop("C20", "Concurrent use and configurations do not interfere",
 "Any number of goroutines may decode and encode at the same time, through the same or different configurations and including the first use of a type, and each gets exactly the result it would get alone; there are no data races. Configurations with different options do not influence each other or the default one.",
 ["schedules", "configurations"],
 "every interleaving of operations of several goroutines over shared configurations and pools, and every set of configurations",
 "tests run one operation at a time",
 ["decoder_config.go", "encoder_config.go", "iterator_pool.go", "streamer_pool.go", "decoder.go", "encoder.go"],
 [("copy-on-write caches of decoders and encoders per type", "decoder_config.go, encoder_config.go"), ("pooled iterators and streamers", "iterator_pool.go, streamer_pool.go")],
 "property-based testing of generated concurrent histories under the race detector, compared with sequential outcomes",
 BASE + "Schedules are those the Go scheduler produces under the race detector, with fresh types and configurations in each case.")

prop("C21", "Custom codecs are used wherever their type occurs",
 "A custom encoder or decoder registered for a type is called for every value of that type, wherever it occurs (root, behind pointers, elements, map values, fields, interfaces) and instead of the type's own methods and the native handling, with a pointer to the value itself, the options of the field and the context the caller set on the iterator or streamer. Its result, its error and its notion of emptiness take effect as a built-in codec's would, and configurations without it are not affected.",
 ["programs", "inputs", "configurations"],
 "every type containing types with custom codecs at any place, every value and document",
 "tests register a codec for a type at the root only",
 ["decoder_config.go", "encoder_config.go", "val_decoder.go", "val_encoder.go", "val_encoder_native_struct.go", "val_decoder_native_struct.go", "val_decoder_native_ptr.go", "val_encoder_native_ptr.go"],
 [("custom codecs are looked up before methods and kinds", "decoder_config.go, encoder_config.go"), ("pointer-shaped values behind interfaces", "val_encoder_native_interface.go, encoder_config.go")],
 "property-based differential testing: custom codecs against encoding/json on a twin type with equivalent methods",
 BASE + "Trusts encoding/json on the twin types.")

prop("C22", "Results stay correct whatever happened before and happens after",
 "The outcome of every operation depends only on its own arguments and not on what the library did before, whatever state earlier uses (errors, options, abandoned streams, panics of user methods, reused iterators and streamers) left in pooled objects. Every value returned stays as it was whatever the library is used for later and however the caller reuses its input buffer, unless the reader is documented to return shared bytes.",
 ["histories"],
 "every history of decoding, encoding, streaming and navigation steps on pooled and reused objects, including failing ones",
 "tests check one operation at a time, on fresh objects and at once",
 ["iterator_pool.go", "streamer_pool.go", "iterator.go", "streamer.go", "decoder_config.go", "encoder_config.go", "iterator_raw.go", "iterator_str.go", "decoder.go", "encoder.go", "stack.go"],
 [("objects are reset when taken from or put into the pools", "iterator_pool.go, streamer_pool.go, iterator.go: reset, streamer.go: Reset"), ("results are copied out of shared buffers", "convert.go, iterator_str.go, iterator_raw.go")],
 "stateful property-based testing: generated histories, each result compared with a reference at once and again after every later step",
 BASE + "Trusts the reference parser and encoding/json.")

prop("C23", "No input or value makes the library crash or corrupt memory",
 "For every destination type, every byte string and every reader, and for every value and writer, decoding and encoding return (with a result or an error) without a panic or a hang, change nothing outside the destination, leave everything reachable from the destination well formed and never modify the input. This holds whenever the garbage collector runs.",
 ["inputs", "programs", "schedules", "fault_sequences"],
 "every type, every byte string (valid, damaged, truncated, for another type, or garbage), every reader failure, every moment of garbage collection",
 "the library writes through unsafe pointers; whether that is harmless depends on the layout of the type, the input and the moment of garbage collection",
 ["val_decoder_native_slice.go", "val_decoder_native_array.go", "val_decoder_native_map.go", "val_decoder_native_struct.go", "val_decoder_native_ptr.go", "val_decoder_native_interface.go", "val_encoder_native_slice.go", "val_encoder_native_array.go", "link_reflect.go", "eface.go", "iterator.go"],
 [("typed memory accessed through unsafe.Pointer", "val_decoder_native_*.go, val_encoder_native_*.go, link_reflect.go"), ("bounds and refills", "iterator.go")],
 "fuzzing with structured generators, guard words, checked pointers, the race detector and forced garbage collection with clobbered free memory",
 BASE + "Values that contain themselves are outside the property, as are user methods that panic. Collections are also forced at every call of a user method or reader.")

prop("C24", "Failures of the source and bad destinations are reported",
 "When the reader that supplies the text fails, every value completed before that point is still delivered and the operation that needs more text returns the reader's error, however the text was cut up and also when the failure comes together with the last of the data; a Decoder that has failed keeps failing. Anything but white space after the document is an error, and a destination that is not a non-nil pointer is refused and left alone.",
 ["fault_sequences", "histories", "inputs"],
 "every text, every point and kind of failure of the reader, every sequence of operations before it",
 "tests contain a few failing readers, at fixed points",
 ["iterator.go", "decoder.go", "decoder_config.go", "iterator_pool.go", "iterator_val.go"],
 [("refilling the buffer", "iterator.go: readMore"), ("sticky error of a Decoder", "decoder.go"), ("the rest of the text is examined", "decoder_config.go")],
 "property-based fault injection: reader failures at every generated point, compared with the same operations on text in memory",
 BASE + "The failure comes alone or together with the last data, and may be final or followed by more text.")

prop("C25", "User methods are called exactly when and with what they should be",
 "MarshalJSON, MarshalText, UnmarshalJSON and UnmarshalText are called once for each value that has them and no others, with the exact text of the value (or the decoded string, or the map key), in document order, wherever the value occurs; null and nil follow the rules of encoding/json. An error a method returns ends the operation and is passed on, and methods may use the library themselves.",
 ["programs", "inputs", "histories"],
 "every type containing types with methods at any place, every value and document, every subset of calls that fails",
 "tests call the methods for a value at the root with one document",
 ["val_decoder_json_unmarshaler.go", "val_decoder_text_unmarshaler.go", "val_encoder_json_marshaler.go", "val_encoder_text_marshaler.go", "decoder_config.go", "encoder_config.go", "val_decoder_native_map.go", "val_encoder_native_map.go", "iterator_raw.go"],
 [("methods take precedence over kinds", "decoder_config.go, encoder_config.go"), ("the raw value handed to UnmarshalJSON", "val_decoder_json_unmarshaler.go, iterator_raw.go")],
 "property-based differential testing: the log of method calls against encoding/json's",
 BASE + "Trusts encoding/json for which methods are called with what. Pointer-receiver marshalers of values that cannot be addressed are outside the property.")

prop("C26", "What cannot be encoded or decoded is an error, never bad output",
 "Encoding a value that JSON cannot express (a channel, function, complex number, a map with unsupported keys, NaN or an infinity, at any depth) or whose method fails returns an error and writes no complete document; decoding into a type that cannot hold JSON returns an error. Neither affects types, values and operations that do not involve it.",
 ["programs", "inputs"],
 "every type containing unsupported types at any place, every value",
 "tests try each unsupported type at the root",
 ["val_encoder_native.go", "encoder_config.go", "decoder_config.go", "streamer_float.go", "val_decoder_native_map.go", "val_encoder_native_map.go", "errors_encoder.go", "encoder.go"],
 [("types without a codec", "encoder_config.go, decoder_config.go"), ("NaN and infinities", "streamer_float.go")],
 "property-based testing: generated types and values with failures planted at known places, against encoding/json",
 BASE + "Unsupported types behind nil pointers or under null, and maps of them under omitempty, are outside the property.")

prop("C27", "Byte slices are base64 strings, exactly",
 "A slice of bytes is written as its standard base64 string, whatever its length, type name and place, and null when nil; decoding such a string gives the bytes back, an array of numbers gives those bytes too, and any text that encoding/json refuses as base64 is an error. Byte arrays and slices of bytes with methods are arrays.",
 ["inputs", "programs"],
 "every byte string, every base64 text with any escapes and damage, every byte slice type at any place",
 "tests cover a few short strings",
 ["val_encoder_native_base64.go", "val_decoder_native_slice.go", "val_decoder_native.go", "decoder_config.go", "encoder_config.go", "iterator_str.go"],
 [("base64 codec chosen by element type", "decoder_config.go, encoder_config.go")],
 "property-based testing: round trips and differential testing against encoding/json and encoding/base64",
 BASE + "Trusts encoding/base64 and encoding/json.")

prop("C29", "omitempty omits exactly the empty values",
 "A field with omitempty is left out exactly when its value is false, zero, an empty string, a nil pointer or interface, or an array, slice or map of length zero; never because its contents are empty. All other fields are written, in order, with their separators, and decoding the result gives the same value.",
 ["programs", "inputs"],
 "every struct type, with omitempty on fields of every type at every position and nesting, and every combination of empty and nearly empty values",
 "tests check one field of each kind",
 ["val_encoder_native_struct.go", "val_encoder_native.go", "val_encoder_native_array.go", "val_encoder_native_slice.go", "val_encoder_native_map.go", "val_encoder_native_ptr.go", "val_encoder_native_interface.go", "val_encoder_json_marshaler.go", "val_encoder_text_marshaler.go"],
 [("IsEmpty of each encoder", "val_encoder_native*.go"), ("fields are skipped in the struct encoder", "val_encoder_native_struct.go")],
 "property-based differential testing against encoding/json over generated struct types and near-empty values",
 BASE + "Zero-length arrays of marshalers and pointers to nil values are outside the property.")

prop("C30", "The string option quotes what it should and nothing else",
 "A boolean, number or string field (or a pointer to one) with the string option is written inside a string and read back from one to the same value; fields of other types, elements and keys are not affected by it. What is not a properly quoted value is an error, null leaves the field alone, and other spellings of the option have no effect.",
 ["programs", "inputs"],
 "every struct type with the option on fields of every kind, every value and every document",
 "tests check one value of some kinds",
 ["val_encoder_native.go", "val_decoder_native.go", "val_decoder_native_struct.go", "val_encoder_native_struct.go", "val_encoder_native_ptr.go", "val_decoder_native_ptr.go", "streamer_float.go"],
 [("quoted option passed to the field's codec", "val_encoder_native_struct.go, val_decoder_native_struct.go")],
 "property-based differential testing against encoding/json and round trips, over generated struct types",
 BASE + "Lax spellings that only encoding/json accepts, and the word null inside a quoted number, are outside the property.")

prop("C31", "Map keys of every type are written and read exactly",
 "Maps keyed by strings, by integers of any size and by types with text methods are written as objects whose member names are the keys' text, properly escaped, one member per entry, and read back to the same map. A member name that is not such a key, or does not fit, is an error; of repeated members the last wins; existing entries that are not mentioned stay.",
 ["inputs", "programs"],
 "every key type, every key and value, every member name however it is escaped",
 "tests cover few key types, with one entry each",
 ["val_decoder_native_map.go", "val_encoder_native_map.go", "decoder_config.go", "encoder_config.go", "streamer.go"],
 [("key codecs per kind", "val_decoder_native_map.go, val_encoder_native_map.go")],
 "property-based differential testing against encoding/json and round trips",
 BASE + "Integer keys spelled other than canonically are outside the property.")

prop("C32", "Slices and arrays hold exactly the elements of the document",
 "Decoding an array of any length into a slice of any element type gives exactly those elements in order, each independent of the others and of any earlier contents; a fixed array takes the first elements and zeroes the rest; null, wrong elements and damaged arrays behave as in encoding/json. Encoding writes every element once, in order.",
 ["inputs", "programs"],
 "every element type of any size, every length across the growth of the slice, every earlier content",
 "tests decode a few short arrays of few types",
 ["val_decoder_native_slice.go", "val_decoder_native_array.go", "val_encoder_native_slice.go", "val_encoder_native_array.go", "link_reflect.go"],
 [("growth of the backing array through reflect internals", "val_decoder_native_slice.go, link_reflect.go")],
 "property-based differential testing against encoding/json with index-dependent elements",
 BASE + "Trusts encoding/json.")

prop("C33", "A rejected text is reported for what is wrong with it",
 "When a text read without a type (skipped, kept raw, decoded generically) is not one JSON document, the error tells why: the end-of-file error exactly when the text is the beginning of a document that was cut off, the data-remained error exactly when a document is followed by something else, and otherwise an error that names the first byte which no document can have at that place; the whole-document functions of a configuration add a piece of the text from around that token, or around the value that does not fit the type. Typed decoding reports the end-of-file error for every document that fits the type and is cut off, and never for a complete one; with DisallowUnknownFields the error names the first unknown key.",
 ["inputs", "programs", "configurations"],
 "every text that is not one document, every untyped read and whole-document entry point, from memory or from a reader divided in any way; every type and every cut of a document for it",
 "tests compare the kind of error for some hundred damaged texts and never the byte or the place it names; callers rely on the end-of-file error to tell incomplete input from bad input",
 ["errors_decoder.go", "iterator.go", "iterator_skip.go", "iterator_skip_number.go", "iterator_skip_str.go", "iterator_read.go", "iterator_raw.go", "iterator_str.go", "decoder_config.go", "val_decoder_native_struct.go"],
 [("error location", "iterator.go: errorLocation, WrapError"), ("errors carry the byte met", "errors_decoder.go")],
 "property-based testing: prefixes and damaged documents against the first offending byte found by a reference RFC 8259 parser",
 BASE + "Trusts the reference parser in harness/ref; the wording around the byte is not checked.")

prop("C34", "Deep nesting and cyclic values end in a result or an error",
 "Skipping, raw and generic reading handle any depth of nesting. Decoding into a type that contains itself handles documents of up to 10000 levels with exactly the standard library's result and reports deeper ones as an error, and only the depth of one document counts, never the number of values. Encoding a value that contains itself through any chain of pointers, slices, arrays, maps and interfaces is an error; a value without a cycle is encoded as by the standard library however deep it is and however its parts are shared. None of this ever exhausts the stack or hangs.",
 ["inputs", "programs"],
 "every nesting depth and pattern, every recursive type, every graph of values",
 "tests nest a few levels and hold no cyclic value at all; a stack overflow cannot be recovered from and kills the process",
 ["iterator.go", "streamer.go", "streamer_val.go", "val_encoder_native_ptr.go", "val_encoder_native_slice.go", "val_encoder_native_map_above_go118.go", "val_decoder_native_slice.go", "val_decoder_native_array.go", "val_decoder_native_map.go", "val_decoder_native_struct.go", "val_decoder_native_struct_small.go", "val_decoder_native_struct_one_field.go", "iterator_skip.go", "iterator_read.go", "stack.go"],
 [("recursive codecs", "val_decoder_native_*.go, val_encoder_native_*.go"), ("depth limit", "iterator.go: incDepth"), ("cycle detection", "streamer.go: enter"), ("explicit stack of the untyped readers", "stack.go")],
 "property-based testing: generated nesting patterns around the limits and generated value graphs with known cycles, against encoding/json",
 BASE + "A document of exactly 10001 levels may go either way. Trusts encoding/json.")

prop("C35", "Streams are processed in bounded memory",
 "Reading a stream value by value with one Decoder or Iterator, as values one after another or as the elements or members of one array or object, holds memory in proportion to the longest single value and not to the length of the stream, however the source cuts the stream into packets and whichever operations (skipping, raw, string, number and generic reads, typed decoding, types with unmarshal methods) read it. Skipping a value, or a member without a field, holds no part of its text. The memory allocated in all stays proportional to the bytes and reads, and a read is never offered room for a few bytes only. Writing any number of values with one Encoder, with a Streamer that is flushed, or with Marshal holds no more than the longest of them.",
 ["inputs", "histories"],
 "every stream length, every packet layout, every sequence of operations, every element type",
 "tests read short texts whole; growth shows only in long streams whose packets end at particular places",
 ["iterator.go", "iterator_raw.go", "iterator_number.go", "iterator_str.go", "iterator_skip.go", "iterator_pool.go", "decoder.go", "encoder.go", "streamer.go", "streamer_pool.go", "val_decoder_json_unmarshaler.go", "val_decoder_json_rawmessage.go", "stack.go"],
 [("refilling, with or without keeping the captured text", "iterator.go: readMore"), ("captured reads", "iterator_raw.go: SkipRaw, iterator_number.go"), ("flushing", "streamer.go: Flush")],
 "property-based testing: generated long streams, packet layouts and operations, with the live heap, the bytes allocated and the room offered to the reader measured",
 BASE + "Memory is measured by the Go runtime after garbage collections; the bounds leave room of 24 KB and several times the longest value.")

prop("C28", "Options apply to every operation, at every depth, and nowhere else",
 "The options of a configuration (tag key, only tagged fields, case sensitive keys, UseNumber, DisallowUnknownFields, EscapeHTML) govern every operation made through it and every value reached by it, at any depth and through interfaces, callbacks and custom codecs; set on a Decoder, Encoder or Streamer they have the same effect for all its later operations. All entry points, and the package functions under the default options, give the same result for the same text or value.",
 ["configurations", "programs", "inputs"],
 "every combination of options, every entry point, every type, value and document",
 "tests check one option at a time, at the root, through one entry point",
 ["decoder_config.go", "encoder_config.go", "decoder_config_adaptor.go", "encoder_config_adaptor.go", "decoder.go", "encoder.go", "standard_compatible.go", "standard_like.go", "iterator.go", "streamer.go", "struct_field.go", "iterator_read.go"],
 [("options copied from the configuration to pooled objects", "decoder_config_adaptor.go, encoder_config_adaptor.go"), ("options set at run time", "decoder.go, encoder.go, streamer.go: EscapeHTML")],
 "property-based differential testing: generated options, types and documents through every entry point against encoding/json on a rewritten type",
 BASE + "Trusts encoding/json on the rewritten types and documents.")
