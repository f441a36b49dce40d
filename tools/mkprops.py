#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only because JSON lines are hard to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

D="src/scale_impls/decode.rs"; E="src/scale_impls/encode.rs"; TV="src/scale_impls/tracing_decoder/visitor.rs"
p("D01","Decoding yields exactly the denoted value and consumes exactly its bytes",
"For every type description and every byte string that starts with a valid SCALE encoding of that type, decoding returns exactly the value that encoding denotes (same variant name, field names, order, numbers, characters, strings, bits, signed and unsigned 256-bit numbers kept apart). The input cursor ends exactly after the bytes of that encoding, whatever follows. Two calls on concatenated encodings therefore yield both values in order.",
["inputs"],"every type shape (primitive, compact, struct, enum, sequence, array, tuple, bit sequence, recursive) and every byte string",
"The tests decode a couple of dozen hand-picked values with hand-picked types; the guarantee ranges over all nestings of types and all byte strings, including trailing data.",
["src/scale_impls/decode.rs","src/scale_impls/mod.rs","src/lib.rs"],
[("value visitor turning decoded parts into values","decode.rs ValueVisitor and the visitor methods"),("decode_as_type entry point moving the cursor","decode.rs decode_value_as_type / lib.rs scale::decode_as_type")],
["return value and remaining slice of the public decode functions"])
p("D02","Malformed or truncated input is refused, without panic or outsized memory",
"For every type and every byte string that is not (and does not start with) a valid encoding of it, decoding returns an error; it never panics, aborts, hangs or returns a made-up value (for types nested no deeper than the call stack allows). The memory requested while decoding stays within a constant factor of the input that was given plus the value produced, whatever lengths the input announces.",
["inputs"],"every type and every byte string: truncations at each offset, corrupted bytes, hostile length prefixes",
"Tests contain almost no malformed inputs; hostile inputs are an unbounded set and a single missed length prefix is a denial of service.",
[D,TV,"src/lib.rs"],
[("error propagation from the SCALE decoder","decode.rs decode_composite_fields, visit_* methods"),("preallocation of result vectors","decode.rs visit_sequence/visit_tuple, tracing_decoder/visitor.rs")],
["Result of decode functions; allocator"])
p("D03","Every node of a decoded value carries the id of the type it was decoded from",
"Each node of a value decoded with type information carries, as its context, the id of the type which described exactly that part of the encoding: fields carry their field's type, elements their element type, and a compact-encoded number the number's own type. No node carries its parent's, a sibling's or a default id.",
["inputs"],"every type shape, including several ids for structurally equal types, nested compacts and recursive types, and every valid encoding",
"Tests inspect contexts for a handful of flat values; mislabelling deep inside nested or compact types goes unnoticed because the value part is still right.",
[D,"src/lib.rs"],
[("context from the type id handed to each visitor callback","decode.rs ValueVisitor (C from R::TypeId)")],
["context of every node"])
p("D04","All ways of decoding agree with whole-type decoding",
"Decoding a list of fields directly, decoding to a value or composite without context, and decoding through the generic decode-as-type / decode-as-fields traits all accept exactly the same inputs as decoding the corresponding whole type, give the same content, and leave the cursor at the same place on success. This also holds when such a value is one part of a larger typed target.",
["inputs"],"every struct/tuple/enum/field list and every byte string, across all public decoding entry points",
"Tests use each entry point on one or two inputs; agreement is a relation over all inputs.",
[D,"src/scale_impls/mod.rs"],
[("IntoVisitor / DecodeAsFields impls","decode.rs impls for Value<()>, Composite<()>"),("decode_composite_as_fields","decode.rs")],
["results of the trait and free-function entry points"])
p("D05","Only what the type resolver says decides on decoding and encoding",
"Decoding, tracing and encoding give the same results with every type resolver that describes the same types, whatever its type ids are (they need not be copyable, ordered or numeric) and whatever paths it gives types; contexts of decoded values are the resolver's own type ids. A type which the resolver does not have, whether it fails, says not found or calls the type unhandled, is refused with an error wherever it is needed to decode or encode, by no means with a panic or made-up data, and does not matter anywhere else.",
["inputs","fault_sequences"],"every type, input and value through two resolvers; every part of every type missing, in each way a resolver can say so",
"All tests use the one registry, with complete types.",
[D,E,TV,"src/lib.rs"],
[("generic use of R: TypeResolver","decode.rs, encode.rs, tracing_decoder/visitor.rs"),("resolver errors","encode.rs resolve_type(..).map_err / unwrap_or")],
["results of decoding, tracing and encoding through a user-defined resolver"])
p("D06","Decoding effort grows only in proportion to the input",
"Decoding, plain or with error tracing, whether it succeeds or fails, looks up each type about once for each node it decodes and allocates about once for each node: type lookups, allocations and memory are bounded by a linear function of the input bytes and decoded nodes (tracing may add the depth as a factor for keeping track of the place), however deeply types are nested and wherever the input goes wrong.",
["inputs"],"every input of every type in the bounded family, and towers of types of doubled depth",
"Tests decode small values; work that doubles with each level of nesting stays invisible there.",
["src/scale_impls/decode.rs","src/scale_impls/tracing_decoder/mod.rs","src/scale_impls/tracing_decoder/visitor.rs","src/scale_impls/tracing_decoder/path.rs"],
[("decode visitor","decode.rs"),("tracing visitor and path","tracing_decoder/visitor.rs")],
["number of type lookups, allocations and bytes allocated"])
p("T01","Error-tracing decoding gives the same result as plain decoding",
"For every type and every input, decoding with error tracing succeeds exactly when plain decoding succeeds. It then produces the same value with the same contexts and consumes the same bytes.",
["inputs"],"every type and every byte string (valid, truncated and corrupted)",
"Only two tests exercise the tracing decoder's success path.",
[TV,"src/scale_impls/tracing_decoder/mod.rs"],
[("second, independent visitor implementation","tracing_decoder/visitor.rs TraceDecodingVisitor")],
["decode_as_type_traced vs decode_as_type"])
p("T02","A tracing failure says where decoding failed and what was decoded before",
"When error-tracing decoding fails, the reported path names, outermost first, exactly the chain of fields, sequence/array/tuple positions and variant names leading to the part that could not be decoded. The part it reports as decoded so far is exactly the successfully decoded siblings of the failing part, with their names and types, and the report as a whole can always be rendered as text.",
["inputs"],"every type shape and every failing input: each truncation point and each corrupted byte, at every depth",
"The two existing tests check one path and one rendering; each (type, failure offset) pair has its own right answer.",
[TV,"src/scale_impls/tracing_decoder/error.rs","src/scale_impls/tracing_decoder/path.rs"],
[("path construction at each level","tracing_decoder/path.rs"),("with_outer_context / decoded-so-far rendering","tracing_decoder/error.rs")],
["Display and Debug text of the error"])
p("E01","Encoding inverts decoding, and decoding inverts encoding",
"A value obtained by decoding bytes with some type encodes with that type back to exactly those bytes (the canonical ones, where the encoding has several spellings), for every type including nested wrappers, compacts, sequences of sequences and bit sequences. Conversely a value of the type's own shape encodes to bytes which decode to that same value.",
["inputs"],"every type and every value of that type's shape",
"Tests round-trip about thirty values over shallow types; interactions of nested wrappers, single-element collections and compacts only show in combinations.",
[E,D],
[("shape-directed encoding with fallbacks","encode.rs do_encode_composite / EncodeAsType for Value")],
["encoded bytes, decoded value"])
p("E02","Named fields are matched by name, unnamed fields by position",
"Encoding a value with named fields into a struct, or a variant's named fields, gives the same bytes for every ordering of the value's fields; every field goes to the type's field of that name, surplus fields are ignored, and if a needed name is missing encoding fails (single-field wrapper layers aside). Where either side has no names, fields are matched strictly by position and their number must agree.",
["inputs"],"all permutations, omissions and additions of fields for every struct, variant and field list",
"A single test reorders one struct; permutations together with name clashes, extras and nesting are not sampled.",
[E],
[("field matching","encode.rs encode_composite / scale-encode Composite"),],
["encoded bytes or error"])
p("E03","Newtype wrapper layers can be added or removed freely when encoding",
"A value fits a type also when it has fewer or more single-item wrapper layers (structs or tuples of one field, arrays of one item) than the type has, at any nesting depth: the bytes are those of the value inside. If the value also fits the type exactly as it stands, layer for layer, then that exact reading is the one that is encoded.",
["inputs"],"every type and every insertion/removal of named or unnamed single-field layers around any node of a value",
"Tests cover a few single-layer cases around primitives and one bit sequence; layers interact with collections (a one-element list looks like a wrapper).",
[E],
[("wrapper peeling in value and type","encode.rs do_encode_composite, find_single_entry_with_same_repr")],
["encoded bytes"])
p("E04","Values that do not fit a type are refused, never silently altered",
"Whenever encoding a value with a type succeeds, decoding the bytes gives back that same information: same numbers, characters (or their code points), strings, bits and variant, same number and order of elements, modulo single-item wrapper layers, surplus named fields and the naming of fields only. Out-of-range numbers, unknown variants, missing fields, wrong element counts and mismatched kinds yield an error.",
["inputs"],"every pair of a value and a type, whether or not they belong together",
"Tests check a dozen mismatches; soundness of every accepted value/type pair cannot be sampled by hand.",
[E],
[("EncodeAsType for Primitive/Variant/BitSequence and the lossless integer paths","encode.rs")],
["encoded bytes or error"])
p("E05","Encoding only appends its own bytes to the output buffer",
"Encoding into a buffer which already holds bytes leaves those bytes untouched and appends exactly what encoding into an empty buffer would produce, also when an attempt at one interpretation of the value fails before another succeeds. Encoding several values into one buffer gives the concatenation of their encodings.",
["inputs","histories"],"every successful value/type pair, every prior buffer content, every sequence of encodes into one buffer",
"All tests encode into a fresh buffer, and pick values whose first interpretation works.",
[E],
[("retry of alternative interpretations","encode.rs do_encode_composite")],
["output buffer"])
p("E06","Encoding effort is bounded by the size of the value and the type",
"For any given non-recursive type, encoding a value, whether or not it fits, ends after an amount of work that grows at most polynomially with the size of the value. Nested single-element values, in particular, never make the work double with each level.",
["inputs"],"values nested to growing depth against matching and mismatching types",
"Tests only use shallow values, for which exponential behaviour is invisible.",
[E],
[("fallback attempts per level","encode.rs do_encode_composite")],
["number of type resolutions made by one encode call"])
p("E07","Bit sequences encode correctly from bits and from lists, in every format",
"For each of the supported bit-sequence formats (8/16/32/64-bit words, either bit order) a bit sequence value, or a list consisting only of booleans or of zeros and ones with the same content, encodes to the standard encoding of exactly those bits and decodes back to them. A list containing anything else is refused.",
["inputs"],"every bit pattern up to the bound, word-boundary lengths, all eight formats, both input styles, surrounded by wrapper layers or not",
"Tests use one format and three or four short patterns; word boundaries and orderings matter.",
[E,D,"src/serde_impls/bitvec_helpers.rs"],
[("composite to bits conversion","encode.rs encode_composite_to_bits"),("bit sequence visitor","decode.rs visit_bitsequence")],
["encoded bytes"])
p("E08","Encoding a composite as a field list equals encoding it as the struct",
"Encoding a composite against a list of fields matches each part with its field just as encoding it against a struct with these fields does, for named and unnamed fields alike, and yields the same bytes; where it is refused, so is the struct, unless the struct was reached by skipping a single-item layer. The same holds for a value holding a composite; any other kind of value is refused.",
["inputs"],"every field list and every composite (matching, reordered, with surplus or missing fields)",
"Tests use field-list encoding once or twice; the relation ranges over all field lists.",
[E],
[("EncodeAsFields for Composite","encode.rs")],
["encoded bytes or error"])
S="src/string_impls/to_string.rs"; F="src/string_impls/from_string.rs"
p("E09","An encoding error's location leads to the part that does not fit",
"When a value fits a type but for one part (of another kind, out of range, or a composite with an entry missing, in surplus or misnamed), and is therefore refused, the locations in the error, followed from the outside in (single-entry layers may go unmentioned), lead to that part or into it: never to a part that is fine, to a place that does not exist, or just somewhere further out. With several such parts they lead to one of them. Encoding a field list reports alike.",
["inputs"],"every value of every type in the bounded family, with every part replaced by every misfit",
"Tests look at the kind of an error at most, not at its location, and not at what retries with layers skipped make of it.",
["src/scale_impls/encode.rs"],
[("at_idx/at_field and the choice of the error to report","encode.rs")],
["locations in the returned error"])
p("S01","What is printed parses back to the same value, in every style",
"For every value without 256-bit integers, the text printed for it (plain, compact or pretty, with any whitespace indentation) parses back to the same value and the whole text is consumed. Names, strings and characters of any content survive, as do booleans, numbers at the limits and bit sequences; only the signedness tag of non-negative numbers is not distinguished.",
["inputs"],"every value built from all node kinds, with arbitrary field/variant names and string/char content, in all printing styles",
"Tests round-trip about twenty literals; names that look like keywords or need quoting and unusual characters are combinations the tests do not reach.",
[S,F,"src/string_impls/string_helpers.rs"],
[("printer","to_string.rs fmt_* functions"),("parser","from_string.rs parse_* functions"),("identifier rule shared by both","string_helpers.rs / to_string.rs fmt_variant/fmt_composite")],
["printed text, parsed value, remainder"])
p("S02","Printed layout follows the chosen style exactly",
"The plain, compact and pretty forms of a value differ only in whitespace between tokens: compact has none, plain stays on one line with single spaces, pretty puts every item of a non-empty composite on its own line. In pretty form each nesting level is indented by exactly one more copy of the configured indent, and every line after the first starts with the configured leading text. The ordinary display forms are the plain and (alternate) pretty ones.",
["inputs","configurations"],"every value shape and every combination of printing options (style, indent, leading indent, custom formatters)",
"Tests check two pretty-printed examples.",
[S],
[("formatter state: style and indentation","to_string.rs FormatOpts / Formatter / indent handling")],
["printed text"])
p("S03","Parsing is total, returns the true remainder and points errors into the input",
"For every text (nested no deeper than the call stack allows), parsing returns without panicking or hanging, and the returned remainder is a suffix of the input that on success begins right after the parsed value; the consumed text alone parses to the same value. On error, the reported start offset lies within the input at a character boundary and the end, if any, is not before the start and at most one past the input.",
["inputs"],"every string, including incomplete, malformed and multi-byte ones",
"Tests cover a handful of malformed texts; totality over all strings cannot be sampled.",
[F,"src/string_impls/string_helpers.rs","src/string_impls/custom_parsers/ss58.rs","src/string_impls/custom_parsers/hex.rs"],
[("cursor-based recursive-descent parser","from_string.rs ParseError, parse_*; yap tokens")],
["Result and remainder of from_str"])
p("S04","The parser accepts exactly the documented value grammar",
"The parser accepts a text exactly when it starts with a value in the documented syntax (booleans, characters and strings with their escapes, decimal numbers with optional sign and underscores, bit sequences, named and unnamed composites with commas between items and free whitespace, variants with plain or quoted names), and yields the value that syntax denotes and the text after it. A number with sign '+' or none is unsigned, with '-' signed, and numbers out of range are errors; a variant name which merely begins with true or false is still a name.",
["inputs"],"all token sequences and character sequences up to the bound, compared with an independent reference parser",
"Tests cover about forty texts; the accepted language is infinite and mistakes are in unusual juxtapositions of tokens.",
[F,"src/string_impls/string_helpers.rs"],
[("grammar functions","from_string.rs parse_bool/parse_char/parse_string/parse_number/parse_bit_sequence/parse_named_composite/...")],
["parsed value and remainder or error"])
p("S05","Custom parsers are tried first, in order, and consume exactly what they take",
"At every position where a value is expected, each configured custom parser is offered the text from that position on, in the order added and before the built-in syntax; the first that answers decides, and a parser that declines has no influence on what follows, even if it moved its view of the text. Parsing continues exactly where the deciding parser stopped, also for multi-byte text, and an error it gives is reported at its place in the whole input.",
["inputs","configurations"],"every ordering of custom parsers and every text, incl. declining, consuming, failing and non-ASCII parsers at all nesting positions",
"One test uses one ASCII-only parser.",
[F,"src/string_impls/custom_parsers/mod.rs"],
[("custom parser dispatch and cursor winding","from_string.rs parse_value / ParseError::into_error offsets")],
["parsed value, remainder, error offsets, calls seen by the parsers"])
p("S06","Custom formatters and context printing act exactly where they should",
"When printing with custom formatters, each value node is offered to the formatters in order before it is printed; the first that handles it replaces the output of exactly that node, and nodes none of them handles print as without formatters, with their children still offered. A context formatter prints each node's context exactly once, directly at that node, and does not change anything else.",
["inputs","configurations"],"every value shape, every subset of nodes handled, one or two formatters, all styles",
"Two tests use one formatter on one value.",
[S,"src/string_impls/custom_formatters/mod.rs"],
[("formatter dispatch per node","to_string.rs fmt_value / FormatOpts custom formatters")],
["printed text"])
p("S07","Hex text and byte lists convert into each other without loss",
"The hex parser turns 0x-prefixed text with an even number of hex digits (either case) into exactly that list of bytes, refuses odd or invalid digits and never takes or leaves characters it should not; other text it leaves alone. The hex formatter handles exactly the non-empty unnamed lists whose items are all byte-sized numbers and prints text that the hex parser turns back into the same list.",
["inputs"],"all short texts over hex and neighbouring characters; all lists of numbers around the byte range",
"Three or four literal examples are tested.",
["src/string_impls/custom_parsers/hex.rs","src/string_impls/custom_formatters/hex.rs"],
[("hex digit pairs to bytes","custom_parsers/hex.rs"),("byte list test and output","custom_formatters/hex.rs")],
["parsed value, remainder, printed text"])
p("S08","An address is accepted exactly when its checksum and length are valid",
"Text is taken as an account address exactly when its leading alphanumeric word is base58 of a one- or two-byte address prefix, account bytes and their correct checksum; the result is exactly the account bytes and exactly the word is consumed. An address with any character changed, dropped or added (so that the checksum no longer matches), plain numbers and booleans, and any word that goes on as, or is used as, a variant name are declined with the text untouched.",
["inputs"],"all address prefixes and lengths, every single-character edit of valid addresses, ordinary identifiers",
"Tests check five or six addresses.",
["src/string_impls/custom_parsers/ss58.rs"],
[("base58, prefix and blake2 checksum validation","custom_parsers/ss58.rs")],
["parsed value, remainder"])
p("S09","A printer whose writer or callback fails stops there and reports it",
"When the writer handed to any printing function fails, or a custom or context formatter reports failure, printing returns an error right there: what was written before is exactly the beginning of the text that printing would have produced, and nothing is written afterwards. When nothing fails, printing succeeds, for every value without 256-bit integers.",
["inputs","fault_sequences"],"every value, printing style and point of failure",
"Tests print to strings, which never fail; each byte offset of each output is its own failure point.",
["src/string_impls/to_string.rs","src/string_impls/custom_formatters/hex.rs","src/lib.rs"],
[("propagation of fmt errors through every nesting level","to_string.rs fmt_value, fmt_composite, fmt_variant, FormatWriter"),("custom and context formatters","to_string.rs ToWriterBuilder")],
["result of the printing functions; text received by the writer"])
SD="src/serde_impls/deserializer.rs"; SS="src/serde_impls/serializer.rs"
p("S10","A parse error's range covers the place where the text goes wrong",
"When a text is refused, what stands before the error's start could still be the beginning of a value (the start is not after the mistake). An error with an end inside the text covers the mistake: the text up to the end can no longer be continued to a value, and both ends lie on character boundaries, so the range can be cut out of the text. An end just past the text means that the text is merely incomplete: continued suitably, it would be a value. An opening bracket, brace or quote that is reported unmatched stands at the position named and is still open there, and the error shown names its place.",
["inputs"],"every refused text, compared with an independent recogniser of texts that can be continued to a value",
"Tests look at six error positions; which position is reported depends on where in any text the mistake is and on what surrounds it, multi-byte characters included.",
[F],
[("error positions","from_string.rs at_one/between call sites in parse_char, parse_string, parse_number, parse_bit_sequence, parse_*_composite, parse_ident")],
["start, end, kind and text of the ParseError"])
p("S11","Parsing and printing effort grows only in proportion to the text",
"Parsing a text looks for a value at most once at each place, and allocates in proportion to the length, whether the text is accepted or refused and however deeply it is nested; printing a value in any style writes in proportion to the printed length and allocates in proportion to the number of nodes. Nothing is parsed or rendered again for each level around it.",
["inputs"],"every text and value in the bounded spaces, and towers of doubled depth of every mix of brackets, complete, left open or going wrong inside",
"Tests use short texts; work that doubles with each level of nesting stays invisible there.",
["src/string_impls/from_string.rs","src/string_impls/to_string.rs"],
[("value parser and its alternatives","from_string.rs"),("formatting of nested values","to_string.rs")],
["number of calls of custom parsers, of writes and of allocations"])
p("J01","Rust data converted to a value and back is unchanged",
"Every Rust value whose type derives serialization, converted to a dynamic value and back to its type, comes out equal: primitives of all widths, options, sequences, tuples, maps with string keys, structs, and unit, newtype, tuple and struct variants, in any nesting. This is for serde's default representation, with types whose leaves are ordinary data.",
["inputs"],"every serde data model shape nested within every other, with boundary values",
"Tests round-trip seven or eight types; the nesting combinations of the serde data model are what matters.",
[SD,SS],
[("ValueSerializer","serializer.rs"),("Deserializer impls for Value/Composite/Variant/Primitive","deserializer.rs")],
["result of the two conversions"])
p("J02","A value survives being serialized and deserialized as a value",
"Deserializing a dynamic value from a dynamic value (or composite from composite, variant from variant, primitive from primitive) returns the same value; only 256-bit integers, which serde lacks, come back as their bytes. Serializing a value through a self-describing format such as JSON represents each node kind faithfully (bit sequences recognisably, under a reserved name), and where the format can hold the numbers, reading it back gives a value that serializes identically.",
["inputs"],"every value up to the bound, 256-bit integers apart",
"Tests cover one or two values per kind.",
["src/serde_impls/serialize.rs","src/serde_impls/deserialize.rs",SD,"src/serde_impls/bitvec_helpers.rs"],
[("Serialize impls","serialize.rs"),("Deserialize visitors","deserialize.rs"),("bit sequence marker","bitvec_helpers.rs")],
["values and JSON text"])
p("J03","Numbers convert to Rust integers only when they fit",
"Reading a dynamic number (alone or inside lists, options, fields, newtypes or variants, or as raw bytes) as a Rust integer type gives exactly the same mathematical number, or an error when it is out of that type's range; it never wraps, truncates or changes sign. Conversely building a value from any Rust integer keeps its exact value and signedness class.",
["inputs"],"all twelve integer types against all boundary values of all the others, bare and wrapped",
"Tests try a couple of in-range numbers; range ends of each pair of widths are not covered.",
[SD,SS,"src/value_type.rs"],
[("primitive deserialization to integers","deserializer.rs"),("number constructors","value_type.rs / serializer.rs")],
["converted number or error"])
p("J04","Rust data maps to values structurally, as SCALE would lay it out",
"Converting Rust data to a value gives the corresponding structure: structs with named fields give named composites with the same names in order, tuples, sequences and tuple structs unnamed ones, enum cases give variants named after the case, options Some/None variants, strings and chars themselves, integers as signed or unsigned by their type, maps named composites by key. Wherever Rust data also has a SCALE type description, encoding the converted value with it gives the data's own SCALE encoding (maps apart).",
["inputs"],"a family of Rust types covering each serde shape nested within each other, with boundary values",
"Tests compare about a dozen conversions.",
[SS,E],
[("ValueSerializer and its compound serializers","serializer.rs")],
["resulting value; encoded bytes"])
p("J05","A value read from any serde source has exactly that source's data",
"Reading a dynamic value (or a definition, composite, variant or primitive) from a serde data source gives a value with exactly the source's data: booleans, characters, strings and integers of every width as such, byte buffers as lists of their bytes, absence and presence of options as None and Some variants, enum cases as variants of their name with unnamed or named contents, unit as the empty list, sequences and tuples as unnamed and maps as named composites in their order, the reserved bit marker as bits. What a value cannot hold, such as floating point numbers, is refused, and an error of the source is passed on. Sizes the source announces are only hints: right, missing or absurd, they influence neither the result nor, beyond proportion, memory.",
["inputs","fault_sequences"],"every tree of serde events up to the bound, every announced size, every point of failure of the source",
"Tests read values from two formats; sources differ in kinds of events, announced sizes and failures.",
["src/serde_impls/deserialize.rs","src/serde_impls/bitvec_helpers.rs"],
[("visitors for value, composite, variant and primitive","deserialize.rs"),("bit sequence marker","bitvec_helpers.rs")],
["deserialized value or error; bytes allocated"])
p("J06","Reading a value as a type it does not fit is refused, never silently altered",
"When a dynamic value is read as a Rust type, either the result says what the value says, or there is an error. Numbers are equal; a list, tuple or array gets exactly the items the value has, in order; a struct or struct-like case gets its fields by name (further named fields are ignored, missing ones are errors except options, duplicates are errors) or, from unnamed items, by position with the same count; an enum gets the case of exactly the variant's name; only a newtype's own layer may be left out. Reading from a whole value, its definition, or directly its composite, variant or primitive gives the same result.",
["inputs"],"every Rust type shape up to the bound, every restyling and single change of its own values, and a pool of foreign values",
"Tests read matching data; wrong arity, wrong names, wrong kinds and mixtures at depth are what goes wrong silently.",
[SD],
[("Deserializer impls","deserializer.rs"),("field, item and case access","deserializer.rs")],
["deserialized datum or error"])
p("J07","Serializing a value hands any serializer exactly its content",
"Serializing a dynamic value, definition, composite, variant or primitive makes exactly the serializer calls its content stands for: each item once, in order, under its own name, with true announced lengths that the following items match, integers with their value and signedness, bits under the reserved marker with their order and length. When the serializer reports an error at any call, serialization returns that error and makes no further call.",
["inputs","fault_sequences"],"every value up to the bound, every call failing, human-readable and binary serializers",
"Tests only use JSON, which does not look at announced lengths and never fails.",
["src/serde_impls/serialize.rs","src/serde_impls/bitvec_helpers.rs"],
[("Serialize impls","serialize.rs"),("bit sequence marker","bitvec_helpers.rs")],
["sequence of serializer calls; result"])
p("J08","Any serializable data becomes exactly the value of the calls it makes",
"Converting data with any serialization of its own, through to_value or the value serializer, gives the value of exactly the calls that serialization makes: each kind of scalar, text in one or many pieces, byte buffer, option, unit, newtype, sequence, tuple, struct, map and enum case as the corresponding node, items in the order given, skipped fields left out, repeated names kept. Announced lengths are only hints and affect neither result nor memory. Floating point numbers and map keys that are no text are refused, and an error of the data's own serialization is passed on.",
["inputs","fault_sequences"],"every sequence of serializer calls up to the bound, every announced length, data failing at every node",
"Tests convert derived types only, which announce true lengths, skip nothing and never fail.",
[SS,"src/lib.rs"],
[("ValueSerializer and its compound serializers","serializer.rs"),("to_value","lib.rs serde module")],
["resulting value or error; bytes allocated"])
p("J09","Serde conversion effort grows only in proportion to the data",
"Turning data into a value, reading a value back as data or as a value, and serializing a value allocate in proportion to the data: about a fixed number of times for each node, with memory in proportion to nodes and text, however deeply nested or long the data are.",
["inputs"],"all data types and values in the bounded family, lengths to 2^16, and towers of doubled depth of every mix of constructors",
"Tests convert small data; work that grows quadratically with length or doubles with each level stays invisible there.",
[SD,SS,"src/serde_impls/deserialize.rs","src/serde_impls/serialize.rs","src/serde_impls/bitvec_helpers.rs"],
[("deserializer","deserializer.rs"),("serializer","serializer.rs")],
["number of allocations and bytes allocated"])
p("A01","Path lookup finds exactly the addressed part or nothing",
"Looking up a position (by number or by name, or by a chain of these) inside a value returns a reference to exactly the child in that place: the n-th item of any composite or variant, or the item with that name, the first if several; anything else (missing, out of range, not a container) gives nothing and never panics. Chained lookups equal step-by-step lookups from any starting point: value, composite or a previous result.",
["inputs"],"every value shape and every lookup chain up to the bound",
"One test performs a dozen lookups on one value.",
["src/at.rs"],
[("Location trait and At impls","at.rs")],
["returned reference"])
p("A02","Changing or dropping contexts never touches the content",
"Replacing contexts through a function, or removing them, visits each node exactly once, gives each node the function's result for its own old context, and leaves structure, names, order and content exactly as they were. This holds alike for values, composites, variants and definitions.",
["inputs"],"every value shape with pairwise distinct contexts",
"No existing test checks more than one or two nodes.",
["src/value_type.rs"],
[("map_context / remove_context","value_type.rs")],
["resulting values"])
p("A03","Constructors, conversions and accessors agree with each other",
"What a constructor or conversion builds is what the accessors report: lengths, emptiness, iteration order, field names, contained values, the typed views (boolean, character, string, numbers signed or unsigned) and comparison; a view for a different kind gives nothing. Two values are equal exactly when content and contexts are.",
["inputs"],"all constructors/conversions crossed with all accessors over the value space",
"Tests use constructors as scaffolding and hardly test accessors.",
["src/value_type.rs","src/lib.rs"],
[("constructors, From impls and as_* accessors","value_type.rs")],
["accessor results"])
p("A04","The value-building macro builds exactly the value its text describes",
"The macro turns each well-formed literal text (nested named and unnamed composites and variants, with or without trailing commas, with arbitrary expressions as leaves) into the same value the explicit constructors would build: names, order, nesting and number of items included. A leaf expression is evaluated once and becomes the value its conversion gives.",
["programs"],"all macro invocations generated by the grammar up to the bound",
"A test with some twenty invocations exists; combinations of item kinds, positions and trailing commas are many.",
["src/macros.rs"],
[("value! / value_internal! token munching","macros.rs")],
["value produced by compiled invocations"])
p("F01","Feature sets, build modes and no_std change what is there, not what it does",
"With every combination of the optional features the library compiles, on its own and inside a program without the standard library (the value-building macro included), and offers the parts that belong to those features. Whatever two configurations have in common behaves identically in both: printing, lookup, SCALE decoding, tracing and encoding, parsing, addresses and serde conversions give the same results, remainders and error texts, whether or not overflow checks, optimization or the dependencies' std support are on (which may only add to the text of decoding errors).",
["configurations","inputs"],"every feature set, crossed with build modes, and a space of inputs to every part in each",
"The tests run some feature sets, each with its own tests, in one build mode and with std; what differs between configurations, or only happens in release builds, goes unnoticed.",
["src/lib.rs","src/string_impls/mod.rs","src/string_impls/custom_parsers/mod.rs","src/macros.rs","src/prelude.rs"],
[("cfg(feature) attributes","lib.rs, string_impls"),("no_std prelude","prelude.rs"),("exported macros","macros.rs")],
["whether each configuration builds; outcome of each case in it"])
p("X01","A decoded message survives printing, parsing, serde and encoding",
"Any message that decodes as a type and is then printed in any style and parsed back, or read as a value (definition, composite, variant) through serde, encodes as that type to the canonical bytes of the message: what decoding puts into a value is all that encoding needs, and none of the ways in between loses a part of it (types with 256-bit integers apart, which have no text form).",
["inputs"],"every valid message of every type in the bounded family, along every way",
"Each step has tests of its own; that their results fit together is tested nowhere.",
["src/scale_impls/decode.rs","src/scale_impls/encode.rs","src/string_impls/to_string.rs","src/string_impls/from_string.rs","src/serde_impls/deserializer.rs"],
[("decode, print, parse, serde and encode put together","lib.rs")],
["bytes at the end"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
