#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (for the properties whose check exists)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, text, tests, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))

EX = "exhaustive enumeration of executions of the real code"

p("C01", "The iterator protocol holds for every history of calls",
  "An iterator delivers the values of its source once each and in order, mixed with the values given back to it, last given back first; once it has reported its end or a problem it keeps reporting the same one, after first delivering what is given back. However Next, Maybe, SetError and Unread are mixed and however often the end is passed, the source is never asked again after it has ended, and Maybe gives as a result the value, or the end or problem, that Next gives.",
  ["histories", "fault_sequences"], "all sources of up to 3 values and 4 ways to end, wrapped in 5 ways, under all histories of operations up to a depth",
  "the tests run a few fixed sequences; what breaks protocols are mixtures of give back, end, and repeated calls",
  ["iter/iter.go"], [("iterator state machine", "iter/iter.go"), ("error adapter", "iter/iter.go: SetError")],
  EX + ": every history of iterator operations against a list model", "all histories of up to 6 (thorough 7) operations, on every source of up to 3 values")
p("C02", "Every source of an iterator delivers exactly its data, then its end",
  "An iterator made from a list, map, number series, byte stream, CSV document or from other iterators delivers exactly the elements of its source, in order (maps in any order, each entry once), and then ends. A reader that fails makes the iterator report that very error after all the data that came before it, however the reader cuts the data into reads, whether or not the error comes together with data, and a reader that can be closed is closed at the end.",
  ["inputs", "fault_sequences"], "all small collections, and all partitions of small texts into reads with empty reads and data that accompanies an error",
  "the tests read from strings.Reader, which never reads short, never returns data along with an error and never fails",
  ["iter/gen.go", "iter/iter.go"], [("sources", "iter/gen.go")],
  EX + ": every small source and every behaviour of the reader against the list of its elements", "all collections of up to 4 elements and all partitions of up to 3 bytes (thorough more) with every deviation of a reader")
p("C03", "Text is decoded to exactly its Unicode characters, or refused where invalid",
  "Iterating the characters of a text or of a stream of bytes delivers exactly the Unicode scalar values that the bytes encode, up to the first byte sequence that is not valid UTF-8 (truncated, overlong, surrogate, out of range), where it reports a problem and nothing made up. This does not depend on how the stream is cut into reads, or on an error that comes along with data.",
  ["inputs", "fault_sequences"], "all sequences of up to 4 boundary bytes and all 2 byte sequences (thorough: all 3 byte sequences), all code points, all partitions into reads",
  "the tests decode a handful of valid texts and one truncated sequence",
  ["iter/gen.go"], [("UTF-8 decoder", "iter/gen.go: rune iterating function")],
  EX + ": every byte sequence within bounds against the Go library's decoder as reference", "27^4 boundary sequences through all ways to decode, all code points, all read partitions")
p("C04", "Text is split into exactly its lines",
  "Iterating lines delivers the text between line ends (LF, CR LF, or CR alone) without any character lost, invented or moved, and the last line is delivered even if it has no line end. This does not depend on the way the text is cut into reads, nor on where a problem occurs.",
  ["inputs", "fault_sequences"], "all texts over a, é, CR, LF up to a length, all partitions into reads, all positions of an error or invalid byte",
  "the tests split a dozen texts; combinations of CR, LF and end of text that span reads are not among them",
  ["iter/gen.go"], [("line splitter", "iter/gen.go: lines iterating function")],
  EX + ": every text within bounds against a reference splitter", "all texts of up to 8 (thorough 9) of 4 characters, all partitions of shorter ones into reads")
p("C05", "Stream transforms are functions of lists, however they are composed and driven",
  "A pipeline of transforms delivers exactly the list that results from applying each transform to the list before it, and ends with the error of its source or of the first transform that fails, delivering no element beyond it. It does so for every list, for every composition, when a composition is applied to several sources that are read alternately, and without changing its sources.",
  ["inputs", "programs", "histories", "fault_sequences"], "all pipelines of up to 3 (thorough 4) transforms over all small lists which end or fail, all interleavings of two uses of one pipeline",
  "the tests apply each transform alone to one or two lists, and never a composition twice",
  ["stream/stream.go"], [("transforms", "stream/stream.go"), ("numeric aggregates", "stream/stream.go: Sum, Avg, Abs")],
  EX + ": every pipeline program within bounds against a reference interpreter over lists", "all pipelines of one, two and three of 60 or so transforms on all lists of up to a few elements")
p("C06", "Parallel processing gives the sequential result under every schedule",
  "Processing a stream in parallel gives the concatenation, in order, of what the transform makes of each bucket of consecutive elements, with buckets of the documented sizes, whatever the order in which the threads are scheduled. If the source or a thread fails the result is that error (of the first failing bucket), and all threads have finished when the call returns; none is lost, blocked forever, or in a data race with another.",
  ["schedules", "inputs", "configurations", "fault_sequences"], "all interleavings of the threads at the calls of user functions, for all small sizes, thread counts and bucket sizes, all subsets of failing elements",
  "the tests run a few sizes under whatever schedule the runtime happens to choose",
  ["stream/stream.go"], [("bucketing and worker threads", "stream/stream.go: Parallel")],
  "stateless exploration of all goroutine schedules of the real code under a controlled scheduler, with a happens-before race detector on free runs", "all orders in which up to 4 threads process up to 12 elements, and every bucket size, plus data race detection")
p("C07", "Conversions preserve the value or are refused",
  "Converting between integers, floats, big numbers and strings yields exactly the same number (for floating point targets of less precision: the nearest one), or reports an error when the target cannot hold it. No conversion wraps around, truncates, panics on a bad input, or gives a result which shares memory with its source, or is the same object as another result.",
  ["inputs"], "all 8 bit values (thorough 16), boundary values of all other types, all short numeric strings, times all target types and all ways to convert",
  "the tests convert a few values per pair of types; the edges lie near powers of two, at the limits of precision, and in denormals",
  ["conv/conv.go", "conv/int.go", "conv/float.go", "conv/bigint.go", "conv/bigfloat.go", "conv/bigrat.go", "conv/string.go"],
  [("conversion functions", "conv/*.go"), ("table of conversions", "conv/conv.go: To, LookupConversion")],
  EX + ": every value and target type within bounds against exact rational arithmetic", "full 8 bit domains and boundary sets of 16 types x 16 targets x all ways to convert")
p("C09", "Integer arithmetic reports overflow exactly when it occurs and rounds correctly",
  "Adding, subtracting, multiplying, dividing and negating fixed size integers of any type gives the mathematically exact result, or an overflow or division by zero error exactly when there is none that fits. Rounded division is to the nearest integer, halves away from zero, for every combination of signs.",
  ["inputs"], "all pairs of 8 bit values, all pairs of boundary values of the other types and of their subtypes",
  "the tests use a handful of operand pairs per type, the failing ones are at the smallest value or of mixed signs",
  ["math/math.go"], [("checked arithmetic", "math/math.go: Add*, Sub*, Mul*, Div*, Abs")],
  EX + ": every pair of operands within bounds against unbounded integers", "all 65536 pairs for 8 bit types, boundary pairs for all others")
p("C10", "Big arithmetic, ordering and ranges are exact and leave their operands alone",
  "Quotients of big integers, rationals, floats and native floats are the exact ones (or the nearest the precision allows), also when the result shares a variable with an operand, and no other operand is changed. Comparisons, minimum and maximum agree with the mathematical order of the values, and a range accepts exactly the values between its bounds, after every sequence of attempts to set it.",
  ["inputs", "histories"], "all pairs of boundary values with every aliasing of result and operands; all ranges over 4 values with all sequences of values set",
  "the tests use a few positive operands, and never the same variable for result and operand",
  ["math/math.go", "math/range.go"], [("big quotients and comparisons", "math/math.go"), ("ranges", "math/range.go")],
  EX + ": every operand pair, aliasing and history of sets within bounds against exact arithmetic", "boundary pairs of 8 types, all aliasings, all ranges and histories of up to 4 sets")
p("C11", "Decimals keep their value when parsed, printed, compared, normalized and aligned",
  "A decimal constructed from digits and scale, or parsed from text, has exactly that value, and printing it gives text which parses to an equal decimal; whatever has more than 18 digits or is no decimal is refused. Comparison, normalization, sign and scale adjustment agree with the exact values, rounding halves away from zero only when digits have to be dropped.",
  ["inputs"], "all short texts, all pairs of special values and scales in all signs and normalization states",
  "the tests use some dozens of values, mostly of small scales; limits of 18 digits and denormalized operands hardly appear",
  ["math/decimal.go"], [("decimal representation", "math/decimal.go")],
  EX + ": every decimal within bounds against exact rationals", "all texts of up to 6 (thorough 7) characters, all boundary values x 19 scales, all their pairs")
p("C12", "Decimal arithmetic is exact, or rounded once, or an error",
  "Sums, differences, products and quotients of decimals are the exact results if they fit 18 digits, the nearest representable value (rounded once, halves away from zero) if only the fraction has to give, and an error if they do not fit or the divisor is zero. Dividing into parts gives parts that add up to the whole and differ by at most one unit, and quotient and remainder recombine to the dividend, through every chain of operations.",
  ["inputs", "histories"], "all pairs of special values and scales, all small values in all normalization states, all chains of operations up to a depth",
  "the tests use some dozens of operand pairs; the failing ones are near 18 digits, of mixed scales, or negative with trailing zeros",
  ["math/decimal.go"], [("decimal arithmetic", "math/decimal.go")],
  EX + ": every operand pair and chain of operations within bounds against exact rationals", "all pairs of special values x scales x signs, all chains of 3 (thorough 4) operations")
p("C13", "JSON parsing accepts exactly JSON and yields its value",
  "Parsing a text gives the value it denotes according to the JSON standard if it is a JSON document, and an error otherwise; strings are decoded exactly, numbers keep their exact text, a duplicate key is an error, iterating delivers the elements one by one, and what is done to one result changes no other. This does not depend on how the reader delivers the text, and a reader's error is never mistaken for the end of a document.",
  ["inputs", "fault_sequences"], "all token sequences, strings, numbers and misspelled words within bounds, every character and byte at every position, all partitions into reads and all failure points",
  "the tests parse a list of valid documents and a few invalid ones; the space of near misses (commas, escapes, number syntax, trailing text) is what matters",
  ["encoding/json/parse/lex.go", "encoding/json/parse/parse.go"], [("tokens", "encoding/json/parse/lex.go"), ("grammar", "encoding/json/parse/parse.go")],
  EX + ": every document within bounds against a reference parser written from the standard", "all sequences of up to 6 tokens, all strings and numbers of up to 6 pieces, all read partitions with few deviations")
p("C14", "Written JSON parses back to the same value, or the write reports its failure",
  "Writing a value emits a JSON document that any conforming parser reads back as the same value, whatever characters strings and keys contain and however values are nested. If the writer fails at any point or takes fewer bytes than given, the failure is reported and nothing is written after it.",
  ["inputs", "fault_sequences"], "all small trees, all strings over critical characters, all number texts, with a failure of the writer in every write after every number of bytes",
  "the tests write a few values without characters that need escaping, to writers that never fail",
  ["encoding/json/write/write.go"], [("writer", "encoding/json/write/write.go")],
  EX + ": every value and every failure point of the writer within bounds, read back by an independent parser", "all trees of up to 5 nodes, all code points of the critical ranges, all failure points")
p("C15", "JSON values convert to and from Go without loss, paths find the named part",
  "A Go value made into a JSON value and back is the same value, independent of the original; what JSON cannot express is refused, and asking for the wrong kind is refused. A path is accepted exactly if it is well formed, and finds exactly the element its keys and indexes lead to, or nothing.",
  ["inputs"], "all small trees of scalars, maps and slices, all short strings as numbers and as paths, all paths over five documents",
  "the tests convert a few values and search a few paths; malformed numbers, subtypes and malformed paths are hardly covered",
  ["encoding/json/value.go", "encoding/json/search.go"], [("values", "encoding/json/value.go"), ("paths", "encoding/json/search.go")],
  EX + ": every tree, number text and path within bounds against a reference", "all trees of up to 5 nodes, all number texts and paths of up to 6 characters")
p("C16", "Events reach the receivers in order after every history of changes",
  "After any history of registering and removing receivers and ids, sending an event passes it through exactly the receivers which are registered, in ascending order of id and in order of registration within an id, each as often as it was registered, each getting the result of the one before. Removing takes away exactly the first, or all, occurrences of that receiver of that id, and a send returns the final result.",
  ["histories"], "all histories of register, remove, remove all, remove id up to a depth, over several ids and receivers, with a send after every step",
  "the tests register ids in ascending order only, and remove one receiver",
  ["event/event.go", "funcs/funcs.go"], [("registry", "event/event.go"), ("ordered table", "funcs/funcs.go: OrderedTuple2*")],
  EX + ": every history of registry operations within bounds against a list model", "all histories of up to 5 (thorough 6) of the operations on 3 ids and 3 receivers")
p("C17", "A request goes to the first handler that matches, or gets the right error",
  "A request is served by exactly the earliest registered handler whose pattern matches the path and whose method is the request's, which gets the parts of the path the pattern captured; if only the method does not match the answer is 405, if no pattern matches it is 404, and no handler is called. Invalid registrations are refused with an error and change nothing, and handlers can be added between, during, and concurrently with requests.",
  ["histories", "inputs", "schedules"], "all registration histories up to a depth over a set of methods, patterns, handlers (valid and invalid), each followed by all requests; registration interleaved with serving",
  "the tests register three handlers and send four requests, never concurrently",
  ["rest/rest.go"], [("dispatch", "rest/rest.go: ServeMux")],
  EX + ": every history of registrations x every request within bounds against a reference dispatcher, with a happens-before race detector on concurrent runs", "all histories of up to 4 registrations of methods x patterns, all requests, concurrent registration")
p("C18", "Request content is decoded by its declared type, or left alone",
  "A request body is decompressed exactly if the request declares gzip, and interpreted as CSV or JSON exactly if that is the declared type; otherwise there is no interpretation and the body is left untouched. The content then delivered is that of the body, whatever way it arrives, and a truncated or corrupt body is reported as a problem.",
  ["inputs", "fault_sequences"], "all combinations of header values and bodies, all truncation points and partitions into reads",
  "the tests send one body of each kind",
  ["rest/content.go"], [("content negotiation", "rest/content.go")],
  EX + ": every header, body and truncation within bounds against a reference", "all header spellings x bodies x truncation points x read partitions")
p("C19", "Writers and test doubles report exactly what was transferred",
  "Writing bytes, characters, strings, lines or elements delivers exactly the encoded data in order; when the underlying writer fails its error is returned, and when it silently takes fewer bytes than given that is an error too, which says what was not written, or how much was. The failing reader and writer deliver or accept exactly the configured bytes and then report the configured error, forever, for every size of request.",
  ["histories", "fault_sequences", "inputs"], "all histories of writes and reads with all sizes, all failure points and short writes",
  "the tests use writers that fail at one point, and read with one buffer size",
  ["io/io.go", "io/writer/gen.go", "io/writer/writer.go"], [("failing reader and writer", "io/io.go"), ("writers", "io/writer/gen.go, io/writer/writer.go")],
  EX + ": every history of transfers and every failure point within bounds against a model", "all histories of up to 5 transfers, all failure points")
p("C20", "Unions, optional values, results and tuples hold exactly what was put in",
  "After any history of changes a union holds exactly the last value set and tells which it is, an optional value is present exactly if the last thing set was not nil, and a result is either a value or an error; asking for what is not there is refused in the documented way. Access through reflection agrees with direct access for every depth of pointers, and refuses, without a crash, what is not an optional value.",
  ["histories", "inputs"], "all histories of operations up to a depth on unions of 2 to 4 and on optional values of several types, all constructions of results, all pointer depths",
  "the tests do one set per member",
  ["union/union.go", "union/reflect/reflect.go", "tuple/tuple.go"], [("unions", "union/union.go"), ("reflection access", "union/reflect/reflect.go"), ("tuples", "tuple/tuple.go")],
  EX + ": every history of operations within bounds against a model", "all histories of up to 5 (thorough 6) operations for 8 types")
p("C21", "Collection helpers behave as the lists, maps and tables they document",
  "Helpers that add to, remove from, search, copy, reverse, flatten, resize, and build slices, maps, maps of lists and ordered tables give exactly the documented result for every content, index and flag, after every history of changes, leave arguments that are not documented to change alone, and give a new map every time they build one. An index that does not exist gives the documented zero value or panic.",
  ["inputs", "histories"], "all small slices, maps and tables, all indexes in and beyond bounds, all histories of changes up to a depth",
  "the tests use one or two examples per helper",
  ["funcs/funcs.go"], [("slices, maps, ordered tables", "funcs/funcs.go")],
  EX + ": every small collection and every history within bounds against a reference", "all slices of up to 4 of 3 values, all maps over 3 keys, all histories of table operations of up to 5")
p("C22", "Functions are combined, tried, cached and supplied exactly as documented",
  "Composed functions apply each in order exactly once, cached suppliers call once and repeat the result, guarded calls run the cleanup exactly once and report every panic (however it arises) as the error or value documented, and never swallow one. Identifiers are translated between snake and camel case as documented, for every input.",
  ["inputs", "programs", "fault_sequences"], "all compositions up to a depth, all points of failure and kinds of panic values, all short identifiers",
  "the tests call each helper once or twice with well behaved functions",
  ["funcs/funcs.go"], [("control helpers", "funcs/funcs.go")],
  EX + ": every composition, panic point and identifier within bounds against a reference", "all compositions of up to 3 functions, all panics, all identifiers of up to 6 characters")
p("C23", "Predicates and sorts agree with the order and nature of values",
  "Predicates (comparisons, negation, conjunction, nil tests) answer exactly according to the value and all their operands, for every type they accept, and sorting arranges a slice into a permutation in the order asked for. Selection helpers give the documented branch.",
  ["inputs"], "all small values of many types, all combinations of predicates up to a depth, all permutations of small lists",
  "the tests evaluate each predicate on two or three values",
  ["funcs/funcs.go"], [("predicates and sorting", "funcs/funcs.go")],
  EX + ": every value and combination within bounds against a reference", "all compositions of predicates up to 3, all lists of up to 5 values")
p("C24", "Reflection helpers classify and unwrap every kind of value without a crash",
  "For every type of value and every depth of pointers, nil or not, the reflection helpers unwrap, classify, convert to base types and assert types exactly as documented, giving an invalid value or an error where there is nothing to give. Setting through pointers changes exactly the value pointed to.",
  ["inputs"], "all kinds of types times pointer depths 0 to 3 with nil at each level, subtypes included",
  "the tests go through a few types, and hardly through nil pointers",
  ["reflect/reflect.go"], [("reflection helpers", "reflect/reflect.go")],
  EX + ": every kind of value and pointer depth within bounds against a reference", "all kinds x pointer depths 0..3 x nil levels x subtypes")

p("C25", "A generator makes exactly the directories and files asked for",
  "After any history of calls a code generator has created exactly the directories and source files that were asked for, in the current directory below its base path, with exactly the text written to them. Setting the base path creates it, or empties what a prior run left in it; setting it again, creating a directory or source file a second time, and creating anything before there is a place for it are refused and change nothing. Nothing outside of the base path is ever created, changed or deleted.",
  ["histories", "fault_sequences", "configurations"], "all histories of operations up to a depth, on all states of the file system around the base path, including ones where operations fail",
  "there are no tests of it",
  ["code/api.go"], [("base generator", "code/api.go: BaseGenerator")],
  EX + ": every history of operations within bounds on a real scratch directory, the whole tree compared with a model after every operation", "all histories of up to 5 (thorough 6) operations, 12 states of the file system, two generators")

p("C26", "Descriptions of code hold exactly what they were made of, or are refused",
  "A description of a type, a value or an expression, however nested, holds exactly the kind, access level (the first given, else the default), names, bounds, operator and operands it was made of and nothing else, and one that lacks a required part (a type, an operand, the constants of an enum) is refused. Every type is either a scalar or an aggregate, every operator is unary, binary or boolean, and no two are the same.",
  ["inputs"], "all types nested up to two deep, all operators with all operands, parts missing in all ways",
  "the tests look at the kind of one description per type",
  ["code/types.go", "code/statements.go"], [("types and values", "code/types.go"), ("expressions", "code/statements.go")],
  EX + ": every description within bounds against its parts", "all types up to two levels with every part missing or not, all operators x operands")

p("C27", "Uses that share nothing do not affect one another, however they interleave",
  "Iterators, streams, parsed and written JSON, writers, conversions, calculations, registries, muxes and helpers give what they give alone, whatever else was done before, and whatever else is done at the same time in other goroutines, or in the functions, readers and writers that they call: nothing is shared behind the user's back, and there are no data races. This also holds for two uses of one transform, predicate, composed function, compiled path, registry or mux (only Generator says that it is not to be shared), and of values that are only read.",
  ["schedules", "histories"], "all pairs of about 80 uses of all packages, all interleavings at the calls to readers, writers and functions of the user, all sequences of three",
  "the tests use one thing at a time",
  ["iter/gen.go", "stream/stream.go", "encoding/json/parse/parse.go", "rest/rest.go", "event/event.go", "funcs/funcs.go", "conv/conv.go", "io/writer/gen.go"],
  [("state of iterators and transforms", "iter/gen.go, stream/stream.go: variables of the generating functions"), ("mutex of the mux", "rest/rest.go: ServeMux")],
  "stateless exploration of all interleavings of pairs of uses of the real code under a controlled scheduler, with a happens-before race detector on free runs", "all pairs of uses, up to 5 points of each in the same package, up to 2 (thorough 4) in others")

NA = []

def main():
    done = [x for x in P if os.path.exists(f"{here}/mc/checks/{x['id'].lower()}/main.go")]
    with open(f"{here}/properties.jsonl", "w") as f:
        for x in P:
            a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                                "quantifier": {"over": x["over"], "text": x["text"]},
                                "why_tests_cant": x["tests"], "anchors": a}, ensure_ascii=False) + "\n")
            assert len(x["title"]) <= 80, x["id"]
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": x["id"], "quick_cmd": f"./run.sh {x['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {x['id']}",
                     "technique": x["technique"], "level": "model_checking", "level_note": x["note"]} for x in done],
         "not_applicable": NA + [{"property": x["id"], "reason": "the check is not built yet"} for x in P if x not in done],
         "notes": "no hooks: every check uses the exported API only. Deliberately not stated as properties: strukt.MapToStruct is an empty stub, the generator for the Go language is commented out."}
    with open(f"{here}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")

main()
