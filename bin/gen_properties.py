#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below. Run after editing; both results are committed."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=state or [],
                               observe_at=observe, hook_needed=None), _note=note))


I, H, S, F, C = "inputs", "histories", "schedules", "fault_sequences", "configurations"

p("C01", "Numeric conversions never silently change a value",
  "A conversion between any two numeric types (sized signed and unsigned integers, floats, arbitrary precision integers, floats and ratios, and types derived from them) that reports success yields exactly the same mathematical value, and one whose target cannot represent the value reports an error. The only conversions that may round are a double to a single precision float within the range of the latter, which gives the nearest one, and a ratio that is not a binary fraction to an arbitrary precision float, which is at least as precise as a double. No conversion changes its input, and values that are no numbers are rejected with an error and not a panic.",
  [I], "every value of every source type, every target type, through every conversion function",
  "Unit tests use a few small values per pair; the losses appear at type bounds, beyond 10 or 53 significant digits or bits, near underflow and for derived types.",
  ["conv/conv.go", "conv/int.go", "conv/float.go", "conv/bigint.go", "conv/bigfloat.go", "conv/bigrat.go"],
  [("range tests before narrowing", "conv/int.go: IntToInt, UintToInt, IntToUint, UintToUint"), ("back-conversion test", "conv/float.go: IntToFloat"), ("Accuracy and exact results of math/big", "conv/float.go, conv/bigint.go"), ("table of conversion functions", "conv/conv.go: convertFromTo")],
  ["result and error of each conversion function"], "differential against exact rationals (math/big)")
p("C02", "Numeric conversions succeed whenever the target can represent the value",
  "If the target type has a value equal to the source value, every conversion between the two types succeeds and yields it. A double within the range of a single precision float, and any ratio to an arbitrary precision float, is converted by rounding rather than rejected.",
  [I], "every value representable in both types of every pair of numeric types",
  "Unit tests use values of one or two digits; wrong rejections appear at the exact bounds of types and for values with many digits.",
  ["conv/conv.go", "conv/int.go", "conv/float.go", "conv/bigint.go", "conv/bigfloat.go", "conv/bigrat.go"],
  [("bounds tables", "conv/int.go: minIntValue, maxIntValue, maxUintValue"), ("precision computed from the number of digits", "conv/bigfloat.go")],
  ["error and result of each conversion function"], "values are drawn from the intersection of two types; every 8 bit value exhaustively")
p("C03", "All conversion entry points agree and copies are independent",
  "The typed, generic, dynamic and reflective functions that convert one type to another agree on success and on the resulting value, and each panicking variant panics with the error exactly when there is one. A converted or copied arbitrary precision value shares no memory with its source: changing either in place never changes the other, also if the target held the same pointer or another value before. A missing target is an error, and a missing source of the same type gives a missing target.",
  [I, H], "every pair of types, every value, every state of the target, and every sequence of in-place operations afterwards",
  "Tests look at one result right after a conversion and never modify it, and call one function per pair.",
  ["conv/conv.go", "conv/bigint.go"],
  [("copies into newly allocated values", "conv/conv.go: To, ToBigOps"), ("lookup of conversion functions by type names", "conv/conv.go: convertFromTo")],
  ["value of source and target after in-place operations on the other", "results and panics of all functions of a pair"], "metamorphic (in-place mutation) and differential between entry points")
p("C04", "Numbers survive the trip through strings, strings never change value",
  "Converting a number to a string and back to its type yields the same number: integers, ratios and floats exactly (including infinities and negative zero), arbitrary precision floats at their own precision. A string is accepted for an integer type exactly if it denotes an integer in range, a decimal string denotes exactly that ratio, and for floats yields the nearest float; a malformed string is always an error and no success leaves a missing value behind. The normalized string of a ratio is a decimal, exact for integers and for decimals of up to 15 digits.",
  [I], "every number of every type, and every string: decimals of any length, sign and exponent, ratios, printed floats, and corrupted ones",
  "Tests use 1.25 and the like; the losses appear after the tenth digit, the seventeenth digit, or for decimals that are no binary fractions.",
  ["conv/string.go", "conv/int.go", "conv/float.go", "conv/bigint.go", "conv/bigfloat.go", "conv/bigrat.go"],
  [("shortest formatting", "conv/string.go: FloatToString, BigFloatToString"), ("precision from string length", "conv/bigfloat.go: StringToBigFloat"), ("exact parsing", "conv/bigrat.go: StringToBigRat, FloatStringToBigRat")],
  ["strings and parsed values"], "round trip and differential against strconv, math/big and a decimal grammar")
p("C05", "Checked integer arithmetic detects exactly the overflows",
  "Addition, subtraction, multiplication and absolute value of integers of every size, and types derived from them, give the exact result if it fits and an overflow or underflow error if and only if it does not. Absolute value also holds for floats and arbitrary precision numbers.",
  [I], "every pair of values of every integer type; all pairs of the 8 bit types",
  "Tests use a handful of pairs per type; wrong detection hides at combinations of bounds.",
  ["math/math.go"], [("sign and wrap-around tests", "math/math.go: AddInt, AddUint, SubInt, SubUint, Mul"), ("table of absolute value functions", "math/math.go: absoluteValue")],
  ["result and error"], "differential against big integers, exhaustive for 8 bit types")
p("C06", "Division rounds half away from zero, for every type and sign",
  "Integer and arbitrary precision integer division gives the quotient rounded half away from zero, floating and ratio division the plain quotient, for all signs and sizes. Division by zero is the division by zero error, the one quotient that does not fit is the overflow error, and neither operand is changed.",
  [I], "every dividend and divisor of every numeric type, and every aliasing of operands and result",
  "Tests use small positive operands mostly; rounding errors need signs, halves, bounds or shared operands.",
  ["math/math.go"], [("comparison of the remainder with half of the divisor", "math/math.go: Div, DivBigOps"), ],
  ["quotient and error"], "differential against exact rationals; all pairs of the 8 bit types")
p("C07", "Comparison, minimum, maximum and ranges follow one total order",
  "Comparisons of ordered values, complex numbers and comparable types agree with the numeric or lexical order, are antisymmetric and transitive, and minimum and maximum are consistent with them and give the first of equal values. A range only ever holds a value within its bounds: it starts with one, accepts exactly the values inside, and rejects others without changing.",
  [I, H], "all pairs and triples of values; all bound modes; all sequences of sets on a range",
  "Tests cover a few pairs, and ranges with one set each.",
  ["math/math.go", "math/range.go"], [("comparison functions", "math/math.go: CmpOrdered, CmpComplex, Cmp"), ("bound check on construction and set", "math/range.go: OfRange, SetValue")],
  ["comparison results", "value of a range after each operation"], "algebraic laws and a model of a range over generated histories")
p("C08", "Decimals are parsed, printed, ordered and formatted faithfully",
  "A decimal is accepted exactly if it has at most 18 digits and a scale in range, whether constructed from numbers or a string, and printing and parsing are inverse. Ordering and sign are those of the denoted rational, regardless of scale, and formatted output only adds grouping and padding to the same digits.",
  [I], "all unscaled values and scales; all strings near the grammar of decimals",
  "Tests use short literals; failures need extreme scales, zero values, 18 digit values, or trailing garbage.",
  ["math/decimal.go"], [("grammar", "math/decimal.go: decimalRegex, StringToDecimal"), ("range check", "math/decimal.go: OfDecimal"), ("comparison by adjusted scale", "math/decimal.go: Cmp, AdjustDecimalScale")],
  ["constructed value or error", "strings", "comparison results"], "round trip and differential against an exact model")
p("C09", "Decimal addition, subtraction and multiplication are exact or reported",
  "Sums and differences of decimals are the exact ones, or rounded half away from zero to the scale that fits in 18 digits, or an overflow or underflow error when no scale fits; products likewise. Adjusting two decimals to a common scale keeps both values or reports that it cannot.",
  [I], "all pairs of decimals",
  "Tests use small operands; failures need operands whose combined digits exceed 18, mixed scales or signs.",
  ["math/decimal.go"], [("scale adjustment", "math/decimal.go: AdjustDecimalScale"), ("multiplication with digit removal", "math/decimal.go: Mul")],
  ["value, scale and error of the operations"], "differential against an exact model with explicit rounding")
p("C10", "Decimal division is correctly rounded and its shares add up",
  "The quotient of two decimals is the exact one where it fits, else rounded to the digits available, for all signs, and division by zero is an error. Division into integer quotient and remainder satisfies dividend = quotient x divisor + remainder, and dividing an amount into parts gives parts that differ by at most one unit and add up exactly to the amount.",
  [I], "all dividends, divisors and numbers of parts",
  "Tests divide a few small numbers; digit generation fails for long quotients, and parts for negative or normalized amounts.",
  ["math/decimal.go"], [("digit generation", "math/decimal.go: Div"), ("distribution of the remainder", "math/decimal.go: DivIntAdd, DivIntQuoRem")],
  ["quotient, remainder, parts and errors"], "differential against exact rationals and conservation laws")
p("C11", "The JSON parser accepts exactly the JSON documents and yields their values",
  "Parsing succeeds exactly for a single JSON object or array with nothing but white space around it, according to the JSON grammar: numbers, strings, escapes, surrogate pairs, literals, separators and nesting. The result has the keys, elements, order of elements, strings, and the text of each number of the document. A document with equal keys in one object, and everything else, is an error, never a panic, hang, or a partial value reported as success. Documents of up to 100,000 levels of nesting are parsed; deeper ones may be refused with an error, but never exhaust the stack.",
  [I], "every byte sequence: documents of any shape, documents with edits, token sequences, any nesting depth",
  "Tests parse a few documents and a list of malformed ones; separators, number and escape grammar have unbounded combinations.",
  ["encoding/json/parse/lex.go", "encoding/json/parse/parse.go"],
  [("tokens", "encoding/json/parse/lex.go: lexString, lexNumber, lex"), ("value, array and object parsing", "encoding/json/parse/parse.go"), ("end of document", "encoding/json/parse/parse.go: Parse")],
  ["value and error of Parse"], "differential against an independent JSON grammar")
p("C12", "Written JSON is valid and reads back as the same value",
  "Writing any JSON value yields valid JSON that any conforming parser, and this library's own one, reads back as an equal value, for every string, key, number and nesting. A failing writer makes the write fail with that error, after at most a prefix of the same text.",
  [I, F], "every value, every character in strings and keys, every place at which the writer fails",
  "Tests write a handful of plain values; quotes, backslashes, control characters and failing writers are not tried.",
  ["encoding/json/write/write.go"], [("escaping", "encoding/json/write/write.go: writeString"), ("recursion over values, errors returned at once", "encoding/json/write/write.go: Write")],
  ["bytes written", "error"], "round trip through encoding/json and the own parser")
p("C13", "Iterating a JSON array yields the same elements as parsing it, lazily",
  "Iterating over the elements of a JSON array document yields exactly the elements parsing the whole document yields, in order, whatever pieces the reader returns the bytes in. An invalid or failing document yields exactly the elements before the problem and then an error, which is the reader's own if the reader failed. Elements are available before the rest of the document is read.",
  [I, F], "every document, valid or not, every behaviour of a reader allowed by its contract, every place at which the reader fails, endless arrays",
  "Tests iterate small valid arrays from a string.",
  ["encoding/json/parse/parse.go", "encoding/json/parse/lex.go", "iter/gen.go"], [("incremental parsing of array elements", "encoding/json/parse/parse.go: Iterate")],
  ["elements and error of the iterator", "number of bytes read from the reader"], "differential between Iterate and Parse under generated readers and faults")
p("C14", "JSON values hold, convert and find what was put in",
  "A JSON value built from Go maps, slices, strings, numbers, booleans and nil holds exactly the same data, independent of the Go value afterwards, and converts back to it, at any nesting depth. Data of other types, and strings that are no JSON numbers, are rejected with an error at any depth, and asking a value for a type it is not panics. A path of keys and indexes finds exactly the value at that place or an error, and a string that is no path is rejected.",
  [I, H], "every tree of Go values, every number of every type, every path, and changes of the Go value afterwards",
  "Tests use one level of a few types and half a dozen paths.",
  ["encoding/json/value.go", "encoding/json/search.go"], [("dispatch on types", "encoding/json/value.go: toValue, numberToValue"), ("path grammar", "encoding/json/search.go: parsePath")],
  ["types, contents and errors", "value found by a path"], "round trip and a model of paths")
p("C15", "Iterators yield every value once, in order, and end for good",
  "An iterator over a slice, map, string, single value, series, or concatenation of iterators yields each of its values exactly once, in order (any order for maps), then an end of iteration or its error on every further call. Values unread are read again before the others, in reverse order of unreading, also at the end. Independent iterators do not affect each other or the data they iterate.",
  [I, H], "every source, every contents, and every history of reads and unreads, well past the end",
  "Tests read a few values to the end once and unread one value.",
  ["iter/iter.go", "iter/gen.go"], [("buffer of unread values", "iter/iter.go: Next, Unread"), ("state of generators", "iter/gen.go: SliceIterGen, MapIterGen, InfiniteIterGen, ConcatIterGen")],
  ["values and errors of Next"], "stateful model-based histories against a list")
p("C16", "Reading bytes, characters, lines and CSV loses nothing, however the reader behaves",
  "Iterating a reader yields exactly its bytes, its UTF-8 characters, its lines (ended by LF, CR, or CRLF), or its CSV rows, whatever pieces the reader returns them in and whether the end or error comes with or after the last bytes. Invalid UTF-8 is an error after exactly the characters before it, an error of the reader is returned after exactly what is complete before it, and reading bytes closes a reader that can be closed once at its end.",
  [I, F], "every contents, and every behaviour of a reader allowed by its contract, with a failure at any place",
  "Tests use readers that return everything at once, and a few multi-byte characters.",
  ["iter/gen.go"], [("buffering between reads", "iter/gen.go: nextByte, ReaderAsRunesIterGen"), ("line ending state", "iter/gen.go: readLines"), ("closing", "iter/gen.go: ReaderIterGen")],
  ["values and errors of the iterator", "calls of Close"], "differential against unicode/utf8, encoding/csv and a line splitter under generated reader behaviours")
p("C17", "Stream transforms do what the list operations of the same name do",
  "Any composition of stream transforms (map, filter, expand, reduce, skip, limit, distinct, duplicate, reverse, sorts, conversions to and from slices and maps) yields exactly what the same operations on lists give, in order. A composition can be applied to any number of data sets, one after another or interleaved, without one affecting another, and without changing the slices they come from. Reducing into a slice fills it from the start, leaves the rest alone, panics if it is too short, and clears it if there is an error.",
  [I, H], "every composition of transforms, every data set, every interleaving of reads of several data sets",
  "Unit tests apply one transform, or two, to the numbers 1 to 5 or fewer; leaking state shows on the second data set or on repeated or interleaved use.",
  ["stream/stream.go", "funcs/funcs.go"], [("transforms as iterating functions that close over their state", "stream/stream.go: Map to Generator"), ("state renewed for each iterator", "stream/stream.go: Generator, Distinct, Duplicate"), ("sorting and reversing a collected copy", "stream/stream.go: Reverse, SortOrdered, SortBy")],
  ["values and errors of the resulting iterators", "contents of the source and target slices"], "differential against list operations, pipelines reused on several data sets")
p("C18", "Streams read no more than they need, and a problem ends them without losing or inventing values",
  "A problem of the source or of a transform appears after exactly the values that precede it, once the values before it have been yielded, is repeated afterwards, and no value follows it; reductions yield only the problem. A limit or an early answer hides problems after it. Apart from sorting and reversing, transforms read no more of their source than the results asked for need, so they work on endless sources, and observers see each value exactly once, when it passes.",
  [I, F, H], "every composition of transforms, every place of a problem in the source or a transform, every number of results read, finite and endless sources",
  "Unit tests let an empty source fail; problems in the middle, and the amount read, are not tested.",
  ["stream/stream.go", "iter/iter.go"], [("error propagation in each transform", "stream/stream.go: Map, MapError, Filter, Reduce, ReduceTo, ReduceToBool, ReduceToSlice, ExpandSlices, Skip, Limit"), ("no call after the end", "iter/iter.go: Next")],
  ["values and errors of Next", "number of elements read from the source", "calls of observers"], "differential against a list model with error marks; minimal consumption computed from the model")
p("C19", "Aggregates are exact or report an error",
  "Counts, sums, minima, maxima, averages and absolute values of any number of elements of any numeric type are those of exact arithmetic: averages are rounded half away from zero for integers, a sum too large for an average or a value without an absolute value is an error, plain sums follow the arithmetic of their type, and arbitrary precision floats are accurate to their precision. No elements give no result (a count of zero), the first problem of the source is the only result, and the elements are never changed.",
  [I, F], "every list of values of every numeric type, up to several hundred of them, types derived from them included",
  "Unit tests aggregate two or three small values, of which arbitrary precision ones have few bits.",
  ["stream/stream.go", "math/math.go", "conv/bigfloat.go"], [("running sum with overflow detection", "stream/stream.go: AvgInt, AvgUint"), ("new values of unbounded precision", "stream/stream.go: SumBigOps, AvgBigOps, AbsBigOps")],
  ["value and error of the resulting iterator", "elements afterwards"], "differential against exact rationals and folds")
p("C20", "Parallel streams give the results of sequential ones",
  "Transforming in parallel gives the same values in the same order as transforming the parts one after another in a single thread, for every number of elements, every way to divide them, and transforms that drop or add elements or change the type. The parts are contiguous and of the documented sizes, run at the same time, and share no memory without synchronization. If a part fails, the problem of the first such part is the only result (a single element is transformed as a sequential stream); if the source fails, its problem.",
  [I, S, F, C], "every number of elements and threads or items per thread, every transform, every schedule, problems in the source and in any of the parts",
  "Unit tests map up to 103 elements with two settings; schedules, failing parts, and transforms that change the number of elements are left to chance.",
  ["stream/stream.go"], [("division into ranges", "stream/stream.go: generateRanges"), ("one goroutine per range, results per range, wait group", "stream/stream.go: Parallel")],
  ["values and errors of the resulting iterator", "reports of the race detector"], "differential against sequential transforms under the race detector, with drawn yields and barriers")
p("C22", "Slice and map helpers give new results and leave the original alone",
  "Slice helpers (add, copy, flatten, index, of, remove, reverse, sort) and map helpers (index, keys, values, merge, remove, sort by key or value) give exactly what the operation of that name gives on lists and mappings, for any element type and any depth of nesting, as a new object; the original is unchanged, except where the helper is documented to work in place. Missing indexes and keys give the zero or default value, and removal takes the first or all equal elements as asked. Converting slices and maps between types yields all of their elements in order and rejects elements that have no such type.",
  [I], "every slice and map, named types, nil and empty ones, any nesting, every index and key",
  "Tests use one or two literal slices of ints or strings per helper, and rarely look at the original afterwards.",
  ["funcs/funcs.go"], [("copy before change", "funcs/funcs.go: SliceCopy, SliceReverse, SliceSortOrdered"), ("flattening by reflection", "funcs/funcs.go: SliceFlatten"), ("removal and indexes", "funcs/funcs.go: SliceRemove, SliceRemoveUncomparable, SliceIndex")],
  ["results", "original slices and maps"], "differential against list and map models")
p("C23", "A sorted list of keys and values behaves as a sorted multimap",
  "A sorted map kept as a list, built by adding values to keys in any order, holds each key once, in ascending order, with its values in the order they were added. Searching it for a key finds the place of that key, or else, reported as no match, of the largest smaller key (the first place if there is none, no place if the list is empty). Removing a key takes that key only, removing a value takes the first or all occurrences of that value of that key, and everything else stays as it was.",
  [I, H], "every history of additions, removals and searches, keys smaller and larger than all others, keys of every ordered type, lists of every length",
  "Tests add a few keys in two orders and search lists of up to five keys.",
  ["funcs/funcs.go", "tuple/tuple.go"], [("binary search", "funcs/funcs.go: OrderedTuple2Search"), ("insertion at a place", "funcs/funcs.go: OrderedTuple2SliceAdd"), ("removal", "funcs/funcs.go: OrderedTuple2SliceRemoveKey, OrderedTuple2SliceRemoveValue, OrderedTuple2SliceRemoveUncomparable")],
  ["the list after each operation", "place and match of a search"], "stateful model-based histories against a map and its sorted keys")
p("C24", "Every registered receiver gets every event, once, in order of registration ids",
  "Sending an event calls every registered receiver exactly once per registration, in ascending order of ids and then in order of registration, each getting the result of the one before, and returns the last result; without receivers the event comes back unchanged. Removing by id takes all receivers of that id, removing a receiver takes the first or all registrations of that very receiver and no other. A receiver that registers or removes receivers while an event is sent causes no receiver that stays registered to be skipped or called twice.",
  [I, H], "every history of registrations, removals and events, receivers by value, by reference and functions, changes made while an event is sent",
  "Tests register two or three receivers once and never change the registry during an event.",
  ["event/event.go", "funcs/funcs.go"], [("list ordered by id", "event/event.go: Register, Send; funcs/funcs.go: OrderedTuple2SliceAdd"), ("identity of receivers", "event/event.go: Remove")],
  ["order of calls and their arguments", "result of the event"], "stateful model-based histories against an ordered list")
p("C25", "Requests reach the first handler of their method whose pattern matches",
  "A request is served exactly once, by the first registered handler whose method equals that of the request and whose pattern matches its path, with the parts the pattern captures; if patterns match but no method, the answer is 405, otherwise 404, and no handler runs. Handlers can be registered at any time, also while requests are served and by handlers, without losing a registration or disturbing a request; invalid registrations are reported and have no effect. Bodies are decompressed, or iterated as CSV or JSON, exactly when the header says so, and left unread otherwise.",
  [I, H, S], "every history of registrations and requests, overlapping patterns, concurrent registrations and requests, every body and header",
  "Tests register three handlers one after another with patterns that do not overlap, and never during a request.",
  ["rest/rest.go", "rest/content.go"], [("ordered list of triples and its lock", "rest/rest.go: Handle, ServeHTTP"), ("exact headers", "rest/content.go")],
  ["handler called, its arguments and the response", "reports of the race detector", "bytes and values read from bodies"], "stateful model-based histories; concurrent histories bounded by prefixes of the registrations under the race detector")
p("C21", "Writers write every value in order up to the first failure, which they report",
  "A writer of values to a slice, map, byte destination (bytes, characters, strings, lines) or function passes on every value whole and in order, and stops at the first value that cannot be written; it reports an error, that of the destination if it gives one, exactly if not everything was written, also if the destination silently takes less. The error reader yields exactly its input and then its error for good, and the error writer takes exactly its count of bytes and then fails, whatever the sizes of the pieces.",
  [I, F, H], "every list of values divided into calls in any way, destinations that fail at any byte with an error or silently, once or for good",
  "Tests write one value per call to destinations that fail between two values.",
  ["io/io.go", "io/writer/writer.go", "io/writer/gen.go"], [("loop ended by an error", "io/writer/writer.go: Write"), ("comparison of lengths", "io/writer/gen.go"), ("position and remaining bytes", "io/io.go: Read, Write")],
  ["what the destination holds", "errors"], "differential against lists of encodings under injected faults")
p("C26", "Unions, optional values, results and tuples hold exactly the value last set",
  "A union offers the member last set, with its value, and no other; an optional value is present exactly if a value that is not nil was set last, and falls back to the alternative, the error or a panic otherwise, as asked; a result holds a value or an error. This is so for every type of the values, interface types, nil and zero values included, copies are independent, and reflective access through any pointers gives the same or an error. Tuples hold their values in order.",
  [I, H], "every history of sets of every member, every type of value, nil and zero values, every number of pointers, any of them nil",
  "Tests use a few types of scalar values, one set per member, and no nil interfaces or inner nil pointers.",
  ["union/union.go", "union/reflect/reflect.go", "tuple/tuple.go"], [("member selector", "union/union.go: check, Which"), ("presence", "union/union.go: Of, Set, SetOrError"), ("calls of methods by reflection", "union/reflect/reflect.go")],
  ["values, panics and errors of all accessors after each set"], "stateful model-based histories against the member and value last set")
p("C27", "Type inspection and dereferencing are right for every type and number of pointers",
  "For every type and value, including types derived from primitive ones and values behind any number of pointers, the helpers say correctly whether it is numeric, signed, unsigned, primitive, nillable, nil, or a big number, find its base type, its fields, the type and variable behind the pointers, and set that variable through them. Any nil pointer or invalid value on the way is reported as documented: an invalid value, an error or nil, and panics only where that is documented. A type assertion succeeds exactly if the types are equal.",
  [I], "every type made of primitive, derived, composite and big types and pointers, every value of it, every place of a nil pointer",
  "Tests use int and one derived string behind up to three pointers.",
  ["reflect/reflect.go", "union/reflect/reflect.go"], [("loops over pointers", "reflect/reflect.go: DerefType, DerefValue, DerefTypeMaxOnePtr, DerefValueMaxOnePtr"), ("tables and ranges of kinds", "reflect/reflect.go: kindToType, IsNumeric, IsNillable"), ("conversion to base types", "reflect/reflect.go: TypeToBaseType, ValueToBaseType")],
  ["results, errors and panics", "variables behind pointers"], "types and values built from known parts, compared with what they were built from")
p("C28", "Function combinators mean what their names say, for every function and value",
  "Conjunctions, disjunctions and negations evaluate their operands left to right, each at most once, and stop when the result is known; comparators agree with the operators of the language, NaN included; compositions apply their functions in the given order, each once; cached suppliers ask once. Must functions panic with the very error and return the values otherwise, and nil, zero and empty tests are exact for every type. TryTo runs its closers in reverse order and then its handler with the last panic, once, whatever panics.",
  [I, F], "every nesting of combinators, every value incl. NaN, infinities, typed and untyped nil, every set of functions and closers that panic",
  "Tests call each combinator with one or two functions of constant results and one value.",
  ["funcs/funcs.go"], [("loops ended by a result", "funcs/funcs.go: And, Or, In"), ("nested closures", "funcs/funcs.go: Compose, Compose2 to Compose10"), ("deferred closers and handler", "funcs/funcs.go: TryTo"), ("kinds that can be nil", "funcs/funcs.go: Nillable, IsNil, IsNilValue, MustNonNilValue")],
  ["results, panics and their values", "order of calls of the functions"], "differential against operators of the language and recorded calls")
p("C29", "Snake and camel case names convert into each other without losing anything",
  "A snake case name becomes its words with the first character of each in upper case, and a camel case name becomes its words, which start at each upper case letter, with that letter in lower case and underscores between. Digits, letters of any alphabet and all other characters are kept; leading, trailing and repeated underscores make no words; the empty name stays empty. Names of words that start with a letter survive a conversion there and back.",
  [I], "every number of words, letters of any alphabet with two cases, uncased characters, capitals in a row, underscores anywhere",
  "Tests convert first_name and name, in a few spellings, all ASCII letters.",
  ["funcs/funcs.go"], [("words of snake case", "funcs/funcs.go: SnakeToCamelCase"), ("regular expression of words", "funcs/funcs.go: camelWordsRegexp, CamelCaseToSnakeCase")],
  ["converted names"], "both forms built from drawn words, round trip")
p("C30", "Types, operators and expressions of generated code have one class and hold their parts",
  "Every type is either scalar or aggregate, every operator is exactly one of unary, binary and boolean, and no two types and no two operators are the same number. Each constructor of a type, value or expression gives the kind, parts, names, bounds and access level it was given, in their places and nothing else, private if no level is given. It panics if a needed part is nil or missing; operands that an operator does not take are ignored.",
  [I], "every type and operator, every nesting of types, every operand and part, nil and missing ones",
  "Tests check the first types of each class, and four constructors of values.",
  ["code/types.go", "code/statements.go"], [("numbers after the last of the class before", "code/types.go: afterScalar; code/statements.go: afterUnary, afterBinary"), ("rejection of nil", "code/types.go, code/statements.go: constructors")],
  ["classes", "parts of what is constructed", "panics"], "definitions compared with ones built by hand; enumeration of classes")
p("C31", "A generator of code touches only its base path, and never what it has generated",
  "Setting the base path of a generator empties it, or creates it and its parents, and changes nothing else, links included; setting it again panics and changes nothing. A directory or source is created in the place that its name says, under the base path or the current directory, usable by its owner; if it exists, its parent does not, or the place is not set, the call panics and changes nothing. What is written goes to the end of the current source and nowhere else.",
  [I, F, H], "every history of calls of several generators, every tree left by earlier runs, names of files used as directories, every spelling of a name",
  "No test calls the generator.",
  ["code/api.go"], [("base path set once", "code/api.go: SetBasePath"), ("directories and sources made", "code/api.go: Dir, Src"), ("current directory and source", "code/api.go: Dir, Src, CurrentSrc")],
  ["the whole tree of files after each call", "panics"], "stateful model-based histories against a model of the tree, run as an unprivileged user in a scratch directory")
p("C32", "Calls do not affect each other, one after another or in several threads",
  "Apart from what it is documented to change, a call of any function of any package has no effect on later or simultaneous calls: the same arguments give the same result however often, in whatever order and by however many threads at once calls are made, and whatever a caller does with earlier results that are documented to be new. Arguments that are only read (numbers of arbitrary precision, decimals, strings, slices, maps, JSON values, compositions without a Generator, predicates, registries and multiplexers that are not changed meanwhile) can be shared by threads without synchronization.",
  [I, S, H], "every combination and order of calls, every interleaving of threads, every change of earlier results",
  "Tests call each function once with literals, in a single thread.",
  ["conv/conv.go", "math/decimal.go", "encoding/json/parse/lex.go", "encoding/json/value.go", "stream/stream.go", "iter/gen.go", "funcs/funcs.go", "io/writer/gen.go", "reflect/reflect.go", "rest/rest.go", "event/event.go"],
  [("table of conversions", "conv/conv.go: convertFromTo"), ("buffers of a call", "iter/gen.go, io/writer/gen.go, encoding/json/parse/lex.go"), ("state of a composition", "stream/stream.go: the func(iter.Iter) of each transform")],
  ["results of a call alone, again, and in threads", "reports of the race detector"], "the same calls repeated, reordered, and in several threads with shared arguments compared with a call alone (metamorphic), race detector")



def main():
    done = sorted(d.upper() for d in os.listdir(os.path.join(V, "harness", "p")))
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for q in P:
            fh.write(json.dumps({k: v for k, v in q.items() if k != "_note"}) + "\n")
    checks, na = [], []
    for q in P:
        if q["id"] in done:
            checks.append(dict(property=q["id"], quick_cmd="python3 bin/check.py %s" % q["id"],
                               thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s" % q["id"],
                               technique="property-based testing (rapid): " + q["_note"], level="exploration",
                               level_note="Holds on every generated case (counts in the evidence); cases are a pure function of VERIF_SEED. "
                                          "Not a proof of absence. Trusts the Go toolchain, rapid, and the reference models in harness/."))
        else:
            na.append(dict(property=q["id"], reason=NA.get(q["id"], "no check built yet")))
    m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
             notes="One Go module under harness/ with one test package per property; bin/check.py builds it against /repo's working tree. No hooks in /repo.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


NA = {}

if __name__ == "__main__":
    main()
