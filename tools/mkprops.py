#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=("the return values of the public Marshal/Unmarshal calls",), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
            mechanism=[dict(zip(("name","where"), m)) for m in mech],
            observe_at=list(observe), hook_needed=hook)))
ENC="internal/encoder/"; DEC="internal/decoder/"

p("C01","Marshal writes exactly PHP's serialize() text for the value",
 "A successful Marshal returns exactly the PHP serialize() text of its argument and nothing else: b/i/d/s scalars with byte-counted string lengths, N; for nil pointers, slices, maps and interfaces, and an a:<count>:{...} whose count equals the number of entries written. Slices and arrays get keys i:0..i:n-1 in order, maps write every entry exactly once with its own value (order free), and structs write their fields in declaration order.",
 ["inputs","programs"],"every supported Go type (scalars of every width, strings, byte slices, slices, arrays, maps, structs, pointers, interfaces, nested in any way) and every value of it",
 "The tests pin about 120 literal outputs for hand-picked shapes; the statement quantifies over all types and values, including nestings, sizes past internal buffer capacities and multi-digit counts that no test builds.",
 [ENC+f for f in ("compile.go","struct.go","map.go","map_reflect.go","slice.go","slice_reflect.go","array.go","string.go","bytes.go","int.go","uint.go","float.go","bool.go","ptr.go","common.go","marshal.go")],
 [("closure compiler, one appender per Go type",ENC+"compile.go"),("struct body assembled in a pooled side buffer before its count is written",ENC+"struct.go")])

p("C02","Marshal output is one complete well-formed PHP value",
 "Whenever Marshal succeeds (and user MarshalPHP methods return well-formed text) its output parses, with nothing left over, as one PHP value: each declared string length is the byte length of the quoted content, each declared count is the number of key/value pairs up to the matching brace, and every key is an integer or a string. This holds at any size, nesting and content, including quotes, braces, semicolons, NULs and multi-byte text inside strings.",
 ["inputs"],"every supported value, including large containers, long and binary strings, deep nestings, and pooled buffers that have grown",
 "Unit tests compare a few short literals; none parse the output back with an independent grammar or reach sizes that cross buffer-growth boundaries.",
 [ENC+"common.go",ENC+"string.go",ENC+"struct.go",ENC+"context.go",ENC+"buffer.go",ENC+"int_as_string.go",ENC+"uint_at_string.go"],
 [("length and count headers",ENC+"common.go"),("pooled Ctx.Buf and struct buffers",ENC+"context.go, "+ENC+"buffer.go")])

p("C03","A value's encoding does not depend on how it is held",
 "For any supported value, Marshal gives the same bytes (up to map entry order) whether the value is passed directly, through a pointer, inside an interface value, or as an element, map value or field whose static type is concrete or an interface. In particular wrapping in any (or in a non-empty interface, or in pointers inside any) never changes the text nor turns success into an error.",
 ["inputs","programs"],"every supported value under every wrapping: direct, pointer, any, *any, any holding pointers, []any, map[K]any, interface-typed field, [n]any",
 "The suite repeats one fixed table in three wrappings; element types, arrays, named scalars, nested containers and their combinations with wrappings are unsampled.",
 [ENC+"interface.go",ENC+"map_reflect.go",ENC+"slice_reflect.go",ENC+"struct_reflect.go",ENC+"ptr.go"],
 [("run-time dispatch on dynamic type duplicates the compiled paths",ENC+"interface.go")])

p("C04","Cyclic values are rejected and acyclic values never are",
 "If the value graph reachable from Marshal's argument (through pointers, slices, maps, interfaces, arrays and structs) contains a cycle, Marshal returns an error instead of hanging or exhausting the stack. If it has no cycle it is never rejected as recursive, however deep (tens of thousands of levels) and however much of it is shared: the same pointer, map or slice reached several times, slices sharing a backing array, a pointer to a struct's first field.",
 ["inputs"],"every finite object graph: all ways to close a cycle through pointer, slice, map, interface, array and struct hops, and all acyclic graphs with sharing, at any depth",
 "Five fixed self-loops are tested; cycles of mixed hop kinds, cycles entered at depth, sharing at depth beyond the tracking threshold, and address-coincident but distinct objects are not.",
 [ENC+"ptr.go",ENC+"interface.go",ENC+"context.go",ENC+"map.go",ENC+"slice.go",ENC+"struct.go"],
 [("Seen set of values in progress",ENC+"interface.go reflectRecursiveValue"),("depth-triggered tracking past 1000 levels",ENC+"ptr.go checkRecursiveEncoder")],
 state=[("Seen","values currently being encoded",ENC+"context.go"),("StackDepth","number of open containers",ENC+"context.go")])

p("C05","Unmarshal of well-formed text yields exactly the value it denotes",
 "For a well-formed PHP serialize() text and a destination type that can hold it, Unmarshal succeeds and stores exactly the denoted value: every scalar, every byte of every string, every element at its index, every map entry under its key, every matching struct field, through pointers and at any nesting. Nothing is dropped, duplicated or moved to another place.",
 ["inputs","programs"],"every well-formed text of types N b i d s a O and every compatible destination type",
 "Tests decode a few dozen literals; the claim ranges over all texts and destination types, including binary strings, digits and delimiters inside strings, wide and deep containers.",
 [DEC+f for f in ("context.go","int.go","uint.go","float.go","bool.go","string.go","bytes.go","slice.go","array.go","map.go","struct.go","ptr.go","interface.go","compile.go")]+["unmarshal.go"],
 [("recursive-descent decoder compiled per destination type",DEC+"compile.go"),("cursor-passing token readers",DEC+"context.go")])

p("C06","Malformed or incompatible input is always reported as an error",
 "Unmarshal returns a non-nil error whenever its input is not one complete PHP value: cut short anywhere, followed by extra bytes, with a wrong type letter, delimiter, quote, brace, boolean or digit, or with a string length that disagrees with its content. It also returns an error when a value cannot be stored in its destination's type (a string into an int, a non-array into a slice, a negative sequence index); only a container's declared entry count is allowed to be inexact.",
 ["inputs"],"every byte string that is not a well-formed value, in particular every prefix and every single-byte change of a well-formed text, for every destination type",
 "The suite checks truncations of eight literals and some two dozen malformed strings; the space of one-edit corruptions times destination types is three orders of magnitude larger.",
 [DEC+"context.go",DEC+"int.go",DEC+"float.go",DEC+"string.go",DEC+"slice.go",DEC+"array.go",DEC+"map.go",DEC+"struct.go",DEC+"interface.go","unmarshal.go"],
 [("bounds-checked token readers",DEC+"context.go"),("trailing-data check","unmarshal.go validateEndBuf")])

p("C07","Marshal and Unmarshal never panic, crash or hang",
 "For every byte string and every destination (nil, non-pointer, nil pointer, pointer to any type including unsupported, recursive and interface-keyed ones) Unmarshal returns normally, with or without an error. Marshal likewise returns normally for every value of any type whose own MarshalPHP does not panic. Declared lengths and counts, however large, do not make it panic or allocate by themselves (only a large index decoded into a slice may use memory).",
 ["inputs","programs"],"all byte strings (arbitrary, truncated, mutated, adversarial lengths), all destination types and all values",
 "A 7-seed fuzz target runs as a unit test over nine destination types; no test covers unhashable keys, adversarial lengths and indexes, nil or recursive destination types.",
 ["unmarshal.go",DEC+"context.go",DEC+"slice.go",DEC+"map.go",DEC+"interface.go",DEC+"ptr.go",DEC+"bytes.go",DEC+"compile.go",ENC+"compile.go",ENC+"ptr.go",ENC+"interface.go",ENC+"marshal_php.go"],
 [("hasByte/hasBytes guards before each read",DEC+"context.go"),("destination validation","unmarshal.go validateValue")])

p("C08","Unmarshal(Marshal(v)) gives v back",
 "For every value v of a type supported in both directions, Marshal(v) succeeds and Unmarshal of the result into a fresh variable of v's type succeeds and gives back v (nil and empty slices are interchangeable; fields excluded by tags are zero). Struct tags, the string option, omitempty, pointers, nested containers and interface-held scalars all preserve this.",
 ["inputs","programs"],"every type supported in both directions and every value of it",
 "Tests check each direction separately against literals; only special floats are round-tripped.",
 ["marshal.go","unmarshal.go",ENC+"compile.go",DEC+"compile.go","internal/runtime/struct_field.go"],
 [("encoder and decoder compiled separately from the same type and tags",ENC+"compile.go, "+DEC+"compile.go")])

p("C09","Integers are exact, and out-of-range integers are errors",
 "Every signed and unsigned integer of every width, as a value or a map key, is written as its exact decimal text and read back as the same number, including both ends of each range. A decimal text outside the destination's range (or negative for an unsigned one) is an error, never a wrapped, truncated or saturated value, whatever its number of digits or leading zeros.",
 ["inputs"],"all integers of all widths in both directions; all decimal texts incl. 19-21+ digit ones and leading zeros; as scalars, elements, map keys, struct fields and string-tagged fields",
 "A dozen boundary literals are tested for int64/uint64; other widths, keys and string-tagged fields at the boundaries are not.",
 [DEC+"int.go",DEC+"uint.go",ENC+"int.go",ENC+"uint.go",ENC+"int_as_string.go",ENC+"uint_at_string.go",DEC+"wrapped_string.go"],
 [("digit-table parser with overflow limit",DEC+"int.go parseInt64"),("OverflowInt/OverflowUint checks",DEC+"int.go, "+DEC+"uint.go")])

p("C10","Floats are written in shortest form and read back as the same number",
 "A float is written with the fewest digits that identify it, in plain decimal form for magnitudes in [1e-6,1e21) and in exponent form outside, with NAN, INF and -INF for the special values. Unmarshal reads plain and exponent decimal texts and the special values as the number they denote, and reports an error for text that is not a number or overflows the destination.",
 ["inputs"],"every decimal number of up to 15 (float64) or 6 (float32) significant digits, any exponent in range, either sign, and the special values; in scalar, element, field and string-tagged positions",
 "Six output formats and three special values are tested.",
 [ENC+"float.go",DEC+"float.go",DEC+"wrapped_string.go"],
 [("format cutoffs",ENC+"float.go"),("special-value table",DEC+"float.go processBytes")])

p("C11","Unknown entries are skipped exactly, leaving the rest unaffected",
 "Entries whose key matches no struct field, and entries of a fixed-size array whose index is beyond its length, are skipped whatever their value: the result equals that of the same text without those entries. A malformed skipped value (truncated, wrong string length, wrong inner entry count, missing delimiter) is still an error.",
 ["inputs"],"every well-formed value of every kind and nesting as the skipped value, at every position among the matching entries; every corruption of it",
 "Three literals with skipped members are tested.",
 [DEC+"context.go",DEC+"struct.go",DEC+"array.go"],
 [("skipValue recursive skipper",DEC+"context.go")])

p("C12","Decoding changes exactly the parts of the destination the input names",
 "Unmarshal into a non-zero destination stores what the input names and keeps the rest: struct fields without an entry keep their values, existing map entries with other keys are kept, a non-nil pointer is written through, a slice is replaced as a whole, and a fixed-size array is zeroed before its elements are stored. N; sets pointers, slices, maps and interfaces to nil and leaves scalars, strings, structs and arrays unchanged.",
 ["inputs","histories"],"every prior destination state, every input, at every nesting level; sequences of several Unmarshal calls into the same variable",
 "Tests decode into zero variables nearly everywhere; prior state and repeated decoding are almost unsampled.",
 [DEC+"struct.go",DEC+"map.go",DEC+"slice.go",DEC+"array.go",DEC+"ptr.go",DEC+"bytes.go",DEC+"interface.go",DEC+"unmarshal_php.go"],
 [("per-kind null handling",DEC+"*.go Decode"),("reuse of non-nil maps and pointers",DEC+"map.go, "+DEC+"ptr.go")])

p("C13","Struct tags mean the same in both directions",
 "Each exported field is written and read under one key: the tag's name if present and made of valid characters, otherwise the Go field name; unexported fields and fields tagged exactly \"-\" are neither written nor read. A field with omitempty is left out exactly when it holds its zero value, and the written entry count is the number of entries actually written; keys match case-sensitively and in full.",
 ["inputs","programs"],"every struct type: tag names (valid, empty, invalid, \"-\"), options in any order and number, field kinds, mixes of exported and unexported fields, and every pattern of zero and non-zero field values",
 "Tests cover about ten fixed struct types.",
 ["internal/runtime/struct_field.go",ENC+"struct.go",DEC+"struct.go",DEC+"compile.go"],
 [("shared tag parser","internal/runtime/struct_field.go")])

p("C14","The string option converts scalars to and from PHP strings",
 "A bool, integer, float or string field (or pointer to one, or interface holding one) with the string option is written as a PHP string containing the value's decimal or true/false text, with a correct length; nil is N;. Reading such a concrete field accepts exactly such strings and stores the parsed value with the same range rules as an untagged field; text that does not parse completely, or a non-string value, is an error.",
 ["inputs","programs"],"all scalar types and pointers to them with the option, all values; all string contents on input",
 "Tests cover one or two values per kind.",
 [ENC+"int_as_string.go",ENC+"uint_at_string.go",ENC+"bool_as_string.go",ENC+"float.go",ENC+"interface.go",DEC+"wrapped_string.go"],
 [("digit-count prediction of the string length",ENC+"int_as_string.go iterativeDigitsCount"),("wrapped decoders",DEC+"wrapped_string.go")])

p("C15","Marshaler output is used verbatim wherever the value occurs",
 "Wherever a value whose type's method set has MarshalPHP occurs (top level, field, element, map value, behind a pointer or an interface) its encoding is exactly the bytes MarshalPHP returned, called once per occurrence; nil pointers and nil interfaces give N; without a call. If MarshalPHP returns an error, Marshal returns an error and no bytes.",
 ["inputs","programs"],"value- and pointer-receiver Marshalers of every kind at every position and nesting, returning arbitrary bytes or errors",
 "Two tests use one struct Marshaler each, at top level and as a field.",
 [ENC+"marshal_php.go",ENC+"compile.go",ENC+"struct.go",ENC+"interface.go","marshal.go"],
 [("Implements check before kind dispatch",ENC+"compile.go"),("compileMarshaler",ENC+"marshal_php.go")])

p("C16","Unmarshaler receives exactly the bytes of its value",
 "Wherever the destination (field, element, map value, array slot, pointee, top level) is an Unmarshaler, UnmarshalPHP is called once with exactly the bytes of the one complete value at that position, and decoding continues right after it; N; gives the zero value (or nil pointer) without a call. An error from UnmarshalPHP, or a malformed value at that position, makes Unmarshal return an error.",
 ["inputs","programs"],"every well-formed value of every kind and nesting at every Unmarshaler position; every corruption of it",
 "Tests cover a handful of raw values at top level and one field.",
 [DEC+"unmarshal_php.go",DEC+"interface.go",DEC+"compile.go",DEC+"context.go"],
 [("skipValue delimits the raw bytes",DEC+"context.go"),("unmarshalPHPDecoder",DEC+"unmarshal_php.go")])

p("C17","Decoding into any picks the documented dynamic types",
 "Unmarshal into an empty interface (top level, or as an element, map value or field type) stores nil, bool, int64, float64 or string for scalars, map[any]any with int64 and string keys for PHP arrays, and map[string]any for PHP objects, recursively. The content is exactly that of the input, and the interface's previous content has no influence.",
 ["inputs"],"every well-formed text (arrays with integer, string and mixed keys; objects; any nesting), at every interface position, with any prior content",
 "Tests check types for four literals.",
 [DEC+"interface.go",DEC+"map.go"],
 [("decodeEmptyInterface dispatch on the type letter",DEC+"interface.go"),("mapKeyDecoder",DEC+"interface.go")])

p("C18","Nesting is limited to 10000 levels, counted by actual depth",
 "Unmarshal accepts arrays and objects nested up to 10000 levels and returns an error beyond that, for every destination (slices, arrays, maps, structs, interfaces, Unmarshalers) and also inside skipped values. The count is the actual nesting depth: any number of sibling containers, earlier deep values or earlier calls does not use it up, and a level counts once whichever kinds of destination are mixed.",
 ["inputs"],"all nesting depths around the limit for all mixes of destination kinds, skipped regions and siblings",
 "One test starts four decoders with the counter preset past the limit; no test nests really or mixes kinds.",
 [DEC+"type.go",DEC+"slice.go",DEC+"array.go",DEC+"map.go",DEC+"struct.go",DEC+"context.go",DEC+"interface.go",DEC+"unmarshal_php.go"],
 [("depth parameter passed down and compared to the limit",DEC+"type.go maxDecodeNestingDepth")])

p("C19","Results share no memory with inputs, internals or each other",
 "Unmarshal never modifies its input, and the decoded value stays what it was whatever the caller later does to the input bytes, to other decoded values or fields (including appending to decoded byte slices), or with later calls. The bytes Marshal returns stay unchanged by later calls, and changing them affects no later result; an Unmarshaler that appends to or overwrites the bytes it was given affects nothing but those bytes.",
 ["histories","inputs"],"every sequence of calls, mutations and appends by the caller on inputs, results and parts of results, interleaved in any order",
 "No test mutates an input or a result and looks at another value afterwards.",
 ["unmarshal.go",ENC+"marshal.go",ENC+"context.go",ENC+"buffer.go",DEC+"bytes.go",DEC+"string.go",DEC+"unmarshal_php.go",DEC+"context.go"],
 [("private copy of the input","unmarshal.go"),("copy of the output before the buffer returns to the pool",ENC+"marshal.go")],
 state=[("pooled buffers","reused between calls",ENC+"context.go, "+ENC+"buffer.go, "+DEC+"context.go")])

p("C20","Each call's result depends only on its arguments",
 "The outcome of every Marshal and Unmarshal call is a function of its arguments alone: it is the same whatever calls (successful, failing, or ended by a panic in user code) happened before, in whatever order types were first used, however many goroutines call concurrently on shared or distinct types, and when MarshalPHP or UnmarshalPHP themselves call Marshal or Unmarshal.",
 ["schedules","histories"],"all interleavings of concurrent and re-entrant calls at user-callback boundaries, first uses of types in any order, and all histories with errors and recovered panics in between",
 "Tests run calls one by one (some t.Parallel without assertions on interference); none forces an interleaving inside a call, re-enters, or reuses state after a failure.",
 [ENC+"compile_cache.go",ENC+"context.go",ENC+"buffer.go",ENC+"marshal.go",ENC+"struct.go",DEC+"compile.go",DEC+"context.go","unmarshal.go"],
 [("copy-on-write compile caches behind atomic pointers",ENC+"compile_cache.go, "+DEC+"compile.go"),("sync.Pool contexts and buffers taken and released per call",ENC+"context.go, "+ENC+"buffer.go, "+DEC+"context.go")],
 state=[("cachedEncoderMap/cachedDecoderMap","compiled coders by type",ENC+"compile_cache.go, "+DEC+"compile.go"),("ctxPool, bufferPool, runtimeContextPool","free per-call state",ENC+"context.go, "+ENC+"buffer.go, "+DEC+"context.go")],
 hook="none: interleavings are forced from MarshalPHP/UnmarshalPHP callbacks")

p("C21","Type support is decided consistently, and recursive types work",
 "Every type built from supported parts, including self- and mutually-recursive named struct, slice, map, array and pointer types, can be encoded and decoded. A type with an unsupported part (channel, func, complex, pointer to pointer, unsupported map key kind, embedded struct) in a field that is not excluded makes encoding or decoding return an error wherever it is actually needed, every time, even for zero values, and excluded fields never matter.",
 ["programs","histories"],"every type graph over the supported kinds with cycles, every placement of an unsupported part, in any order of first use",
 "Tests use one recursive struct type and a few unsupported ones at top level.",
 [ENC+"compile.go",ENC+"struct.go",ENC+"slice.go",ENC+"map.go",ENC+"array.go",ENC+"ptr.go",DEC+"compile.go",DEC+"invalid.go"],
 [("placeholder tables break type recursion",ENC+"struct.go compileSeenMap, "+DEC+"compile.go structTypeToDecoder")])

p("C22","PHP objects decode like arrays into structs and maps",
 "Decoding O:<len>:\"<class>\":<n>:{...} into a struct or a map gives the same result as decoding a:<n>:{...} with the same entries, for every class name of the declared length (empty, containing quotes, colons or braces). A class-name length that disagrees with the name, a missing quote or colon is an error, also when the object is skipped or handed to an Unmarshaler; slices and fixed-size arrays reject objects.",
 ["inputs"],"every class name, every entry list, every nesting position of the object, every corruption of the header",
 "Tests only use the class name stdClass, correctly declared.",
 [DEC+"context.go",DEC+"struct.go",DEC+"map.go",DEC+"interface.go"],
 [("skipClassName",DEC+"context.go")])

p("C23","Sequence elements land at their index whatever the key order",
 "Decoding a PHP array into a slice or fixed-size array stores each element at the position its integer key names, in any key order and with gaps: a slice's length is the highest key plus one with zero values in gaps, an array keeps its length with zero values in gaps and keys beyond it ignored. A negative or non-integer key is an error, and the last of several entries for one index decides.",
 ["inputs"],"all finite sequences of keys (permuted, sparse, duplicated, out of range) and element types, into slices and arrays of any length",
 "Three literals with ascending gaps are tested.",
 [DEC+"slice.go",DEC+"array.go",DEC+"int.go"],
 [("grow-to-index",DEC+"slice.go"),("index bound check",DEC+"array.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
