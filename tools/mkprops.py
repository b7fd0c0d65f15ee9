#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
JR='lib/json/reflector.h'; JE='lib/json/errorhandling.h'; JS='lib/json/serializable.h'; BR='lib/binary/reflector.h'; BS='lib/binary/serializable.h'
TR='lib/traits.h'; VE='lib/versioning.h'; JC='lib/json/reflector-chronoutilities.h'; BC='lib/binary/reflector-chronoutilities.h'
JH='lib/json/reflector-boosthana.h'; BH='lib/binary/reflector-boosthana.h'; EF='lib/json/errorformatting.h'
G='generator/'
GJ=G+'jsonserializationcodegenerator.cpp'; GB=G+'binaryserializationcodegenerator.cpp'; GS=G+'serializationcodegenerator.cpp'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","JSON round trip restores every supported value",
 "For every type the documentation lists as supported for JSON deserialization, nested to any depth, and every value of it (finite floating-point numbers, valid Unicode strings including embedded NUL characters, empty containers, unset pointers/optionals), serializing the value to JSON text and deserializing that text yields an equal value and reports no error. This holds for the convenience functions on the types, for the free functions and for going through a document, and also when the receiving type has non-empty default values.",
 ["inputs","programs"],"all supported types built by nesting and all values of these types",
 "The tests round-trip a handful of fixed structs with a few fixed values; type nesting and value space (numeric limits, NUL and non-ASCII strings, empty/unset states, non-empty defaults, collection order) are unbounded.",
 [JR,JS,TR],[("push overloads per type category",JR),("pull overloads per type category",JR),("category traits",TR),("toJson/fromJson",JR)],
 ["toJson()/fromJson() results","errors collected"])
p("C02","JSON output is valid and follows the documented type mapping",
 "Whatever supported value is serialized, the produced text is one well-formed JSON document whose structure and contents are exactly what the documented type mapping prescribes: booleans, numbers (small integers and enumerations as their integer value), full-length strings, null for unset pointers/optionals and null string views, arrays for lists/sets/pairs/tuples in iteration order, objects for maps keyed by the map key, always an array per key for multimaps, an object with index and data for variants, and an object with every member of a class under its name. Serializing never modifies the value, and serializing it again yields the same text.",
 ["inputs","programs"],"all serializable types built by nesting, including serialization-only types, and all values",
 "The tests compare a few literal JSON strings; they cannot cover all type nestings, string contents that need escaping, numeric extremes or multimap/variant/pointer combinations.",
 [JR,TR],[("push overloads",JR),("multimap grouping",JR),("variant index/data object",JR)],["text returned by toJson()","document returned by toJsonDocument()"])
p("C03","JSON documents and deserialized objects own all their data",
 "A JSON document obtained from a value stays valid and unchanged when the value is subsequently modified, moved from or destroyed, so it can be serialized without any further access to the original value, including all strings and map keys. Likewise a value deserialized from JSON text or from a document stays valid and unchanged after the text buffer or the document is overwritten or destroyed.",
 ["inputs","histories"],"all values; all interleavings of serializing, modifying, destroying and reading documents and values",
 "Lifetime errors only show when the source is destroyed or overwritten before the document is used and memory is checked, for each type and string length (short and long strings are stored differently); tests always keep the source alive.",
 [JR],[("strings copied with the document's allocator",JR),("push of map keys",JR)],["document contents after source destruction, under a memory checker"])
p("C04","Any JSON text is either rejected with a parse error or read cleanly",
 "For every byte sequence given as JSON text, deserialization into any supported type either throws the JSON parser's result object carrying an error (if the text is not well-formed JSON, disregarding what the parser tolerates concerning text encoding, a byte order mark, a terminating NUL and numbers beyond the range of double) or returns normally with what the text denotes; it never crashes, hangs, reads uninitialized or foreign memory or executes undefined behaviour. Whether an error collector is passed does not affect whether and which value is returned.",
 ["inputs"],"all byte sequences (random, truncated, mutated and grammar-generated JSON) for all supported types, with and without error collector",
 "Tests feed two or three malformed texts; the input space is unbounded and the no-collector code path is rarely exercised.",
 [JR,JE,JC],[("parseJsonDocFromString",JR),("null checks of the optional error collector",JR)],["exception type","returned value","sanitizer reports"])
p("C05","Deviating JSON data is reported exactly and everything else populated",
 "When well-formed JSON does not fit the type being deserialized, exactly one error per deviation is recorded in document order of processing, with the right kind (type mismatch, array size mismatch, conversion error, unexpected duplicate, invalid variant object, invalid variant index), the JSON types expected and found (for mismatches), the record and member being processed and the index within the innermost array being processed. The deviating value itself is left at what it was (a freshly created element stays at its default), numbers outside the range of the target type are such a deviation, and all other parts are populated as if there was no deviation; data that fits never produces an error.",
 ["inputs","programs"],"all JSON documents obtained by deviating in any number of places from a fitting document, for all supported types",
 "Tests check a few single deviations in fixed structs; error context depends on nesting (arrays in arrays, records in arrays, maps, tuples, variants) and combinations of several deviations.",
 [JR,JE],[("reportTypeMismatch and friends",JE),("context tracking of record/member/index",JR),("jsonType mapping",JE)],["contents of the error collector","deserialized value"],
 [("currentRecord/currentMember/currentIndex","context used for the next reported error",JE)])
p("C06","Error kinds marked fatal stop deserialization with exactly that error",
 "For every combination of error kinds marked as fatal, deserialization throws at the first deviation of a marked kind, the thrown error equals the last recorded one, and the errors recorded are exactly those which would have been recorded up to that point with no kind marked. If no deviation of a marked kind is present nothing is thrown; with all kinds marked, every kind of error is fatal.",
 ["inputs","configurations"],"all fatal-kind combinations and all deviating JSON documents",
 "Tests only mark single kinds on single deviations; there are 2^n combinations and arbitrary error sequences.",
 [JE,JR],[("throwOn flags",JE),("throwMaybe",JE)],["thrown object","contents of the error collector"])
p("C07","Missing, additional and reordered members are tolerated",
 "When deserializing a class from a JSON object, members absent from the object keep the value they had, object members not belonging to the class are ignored without error, and the order of object members makes no difference. Constant members and serialization-only members are never modified, though they are written when serializing.",
 ["inputs","programs"],"all classes, all subsets and permutations of members, all additional members",
 "Tests use a few fixed objects with at most one missing member; subsets, permutations and colliding names (prefixes, differing case, embedded NUL, names of other levels) are exponentially many.",
 [JR],[("pull of a named member looks it up and ignores its absence",JR)],["deserialized value","errors collected"])
p("C08","Binary round trip restores every value and consumes exactly its bytes",
 "For every type supported by the binary serializer, nested to any depth, and every value of it, reading back what was written yields an equal value and leaves the stream positioned exactly behind the bytes written for it. Hence any sequence of values which exist at the same time, written one after another to the same stream, by one or several serializers, can be read back in the same order by the same number of deserializers.",
 ["inputs","programs","histories"],"all supported types and values and all sequences of writes to one stream",
 "Tests round-trip a few fixed objects; type nesting, value extremes and concatenation of several objects are not sampled.",
 [BR,BS,TR],[("write overloads",BR),("read overloads",BR),("toBinary/restoreFromBinary/fromBinary",BS)],["deserialized value","stream position"])
p("C09","The binary representation is fixed and platform independent",
 "The bytes written for a value depend only on the value and follow the fixed format: big-endian fixed-size numbers, length-prefixed strings and collections with variable-length big-endian sizes, one byte for booleans, presence flags and variant indexes, enumerations as their underlying type, class members in declaration order after those of base classes without any padding or names. Conversely any byte sequence following that format is read as the value it denotes, so data written by other builds of the library stays readable.",
 ["inputs","programs"],"all supported types and values",
 "Round-trip tests cannot notice a format change made symmetrically in reader and writer; the literal byte arrays in the tests cover one struct.",
 [BR,BC],[("BinarySerializer::write",BR),("BinaryDeserializer::read",BR)],["bytes in the stream"])
p("C10","Truncated or corrupted binary data never leads to undefined behaviour",
 "Reading from a stream (set up to throw on failure) which contains only a proper prefix of a value's bytes always throws an exception, and reading arbitrary or corrupted bytes either throws an exception (I/O failure, conversion error, unsupported version, or memory/length exhaustion) or yields exactly the value these bytes denote in the binary format. It never crashes, reads or writes foreign memory, or executes undefined behaviour, and an out-of-range variant index or a reference to a shared object of another type or not seen before is always rejected.",
 ["inputs","fault_sequences"],"all truncation points and corruptions of encodings of all supported types, and arbitrary bytes",
 "Tests contain one invalid reference and one invalid variant index; truncation points and corruptions are unbounded.",
 [BR],[("variant index check",BR),("shared pointer type check",BR),("stream exceptions",BR)],["exceptions","deserialized value","sanitizer reports"])
p("C11","Shared objects keep their identity in binary and are copied in JSON",
 "When an object graph is written in binary, each object owned by shared pointers is written once per serializer no matter how often and from where it is referenced, and after reading two shared pointers refer to the same object exactly if they did before, including self-references, cycles and null pointers, independently of the addresses of the objects. In JSON each reference is written and read as an independent copy.",
 ["inputs","histories"],"all finite object graphs built from shared pointers (incl. cyclic ones for binary), all object addresses",
 "Tests cover two pointers to one object and a single large address; graph shapes and addresses are unbounded.",
 [BR,JR],[("pointer table of serializer and deserializer",BR),("small and big pointer IDs",BR)],["pointer equality after reading","bytes written"],
 [("pointer table","ids already written or read",BR)])
p("C12","Binary versioning reads and writes exactly the members of the version",
 "For a class with version markers, writing at a version (by default the class's own version) stores that version once in front of the class's own members if the class is versioned, and writes exactly those members whose as-of/until range contains it; reading uses the stored version, restores exactly these members and leaves all others untouched. A class without own version uses the version of the class it is nested in (0 at top level) and does not alter it for following members; data with a version above the highest supported one is rejected with an exception naming the found version, the supported version and the class.",
 ["inputs","programs","configurations"],"all classes with any sequence of version markers, nested in and derived from each other, all versions and all values",
 "The repository's single versioned test struct is not even round-tripped at several versions; the README calls versioning mostly untested.",
 [VE,GB,BR,BS],[("Versioning helper",VE),("MemberTracking / version conditions",GB),("version parameter of read/write",BR)],["bytes written","deserialized value","exception"])
p("C13","Generated JSON code covers exactly the documented members",
 "For every class definition using supported features, the code generated for JSON compiles and serializes exactly its public non-static data members (all data members if the class befriends the helper functions) under their names in declaration order, preceded by those of each base class which is itself serializable exactly once, and deserializes the same members except constant ones. Errors occurring when deserializing carry the qualified class name and member name; classes without default constructor still get serialization code.",
 ["programs","inputs"],"all class definitions (access sections, static and const members, nested classes, namespaces, inheritance graphs, friend declarations) and all values",
 "Generator tests use about a dozen fixed structs; combinations of access sections, inheritance depth, qualifiers and namespaces are unbounded.",
 [GJ,GS,G+'codegenerator.cpp',G+'visitor.cpp'],[("push/pull emission",GJ),("relevant base classes",GS)],["output of programs compiled with the generated header"])
p("C14","Generated binary code covers exactly the documented members",
 "For every class definition using supported features, the code generated for binary (de)serialization compiles and writes and reads exactly its public non-static non-constant data members (all of them if the class befriends the helper functions) in declaration order, after those of each base class which is itself serializable exactly once. Values of such classes survive a binary round trip.",
 ["programs","inputs"],"all class definitions and all values",
 "As for JSON: the generator tests use a few fixed structs only.",
 [GB,GS,G+'codegenerator.cpp',G+'visitor.cpp'],[("writeCustomType/readCustomType emission",GB),("relevant base classes",GS)],["output of programs compiled with the generated header"])
p("C15","Code is generated for exactly the selected classes of the input file",
 "For any input file, code is emitted for exactly those complete classes defined in it which directly inherit from the serializable base of the requested format, plus those adapted via the adaption macro in it or listed via the corresponding command-line option; classes which are only included, forward-declared, unrelated or templates get none. Unrelated declarations, comments and their position do not influence the emitted code, each requested format's code is emitted as if it was requested alone, specified visibility attributes are applied to exactly the functions of their format, and running the generator again yields identical output.",
 ["programs","configurations"],"all input files mixing relevant and irrelevant declarations, all format selections and class lists",
 "The tests compare generated code for two fixed headers; the space of surrounding code and option combinations is unbounded.",
 [GS,G+'codegenerator.cpp',G+'consumer.cpp',G+'visitor.cpp',G+'codefactory.cpp',G+'main.cpp'],[("computeRelevantClass",GS),("isOnlyIncluded",G+'codegenerator.cpp'),("generator selection",G+'main.cpp')],["set of classes for which the output defines functions"])
p("C16","The generator never reports success without complete output",
 "Whenever the input file does not exist, does not compile (semantic errors being tolerated if error resilience is requested), a requested format does not exist, or the output cannot be opened or fully written, the generator exits with a non-zero status and prints a message to standard error; only when it exits with zero the output contains the complete code. Writing to an output file yields the same bytes as writing to standard output, replacing previous contents, and additional compiler options, whether given separately or joined by semicolons, have the effect of being passed to the compiler.",
 ["inputs","fault_sequences","configurations"],"all option combinations, invalid inputs and output faults (missing directory, unwritable file, full device)",
 "The single CLI test runs one successful invocation.",
 [G+'main.cpp',G+'codefactory.cpp',G+'consumer.cpp',G+'frontendaction.cpp'],[("exit codes in main",G+'main.cpp'),("stream exceptions",G+'main.cpp'),("clang options splitting",G+'main.cpp')],["exit status","stderr","output file"])
p("C17","Boost.Hana based reflection behaves like generated code",
 "For any class (without versioned members) defined via Boost.Hana with the same members as an ordinary class, serialization to JSON and to binary yields the same text and the same bytes as for the ordinary class, and deserialization of any JSON or binary data yields equal members. Deviations are reported with the same kinds and types; only record names of the context are not available.",
 ["programs","inputs"],"all class definitions and all values and data",
 "The Hana tests repeat two fixed structs with fixed values.",
 [JH,BH],[("push/pull via hana keys",JH),("readCustomType/writeCustomType via hana keys",BH)],["text","bytes","deserialized value","errors"])
p("C18","Date/time values survive JSON and binary (de)serialization",
 "Every date/time and time span value written to JSON appears as a string in its textual form (ISO 8601 or hours:minutes:seconds); date/time values of years 1 to 9999 with millisecond precision and non-negative time spans below 100000 hours of full seconds are restored from it exactly, more precise ones off by at most one tick; in binary the exact 64-bit tick count is written and restored. Strings which are no date/time or time span, as well as JSON values of other types, are reported once (as conversion error or type mismatch respectively, in the context of the record, member and index they occur at) and leave the previous value untouched. This applies wherever such values occur within other supported types.",
 ["inputs"],"all tick counts in the supported range, all strings and JSON values",
 "Tests use one date and one time span and one invalid string each.",
 [JC,BC],[("push/pull specializations",JC),("readCustomType/writeCustomType specializations",BC)],["text","bytes","restored ticks","errors"])
p("C19","Formatted error messages state all relevant information",
 "The message formatted for a deserialization error names the kind of error distinguishably for every kind, the record if known and, within it, the member or else the index if known (errors outside of any class refer to the whole document), and for type mismatches both the expected and the actual JSON type. Unknown parts are left out without the message becoming empty or referring to invalid memory.",
 ["inputs"],"all combinations of kind, types, record, member and index",
 "Tests format a few errors; combinations of present and absent context are not enumerated.",
 [EF,JE],[("formatJsonDeserializationError",EF),("jsonTypeToString",EF)],["formatted message"])
p("C20","Concurrent (de)serialization of distinct objects is independent",
 "Threads which concurrently serialize and deserialize distinct objects of any supported types with their own streams, documents and error collectors, or serialize the same unmodified object, obtain exactly the results they would obtain when running alone. There are no data races between them.",
 ["schedules","inputs"],"all interleavings of threads working on distinct objects or reading a shared one",
 "The tests are single-threaded; hidden shared state only shows under concurrency.",
 [JR,BR,JE,JC],[("no global mutable state",JR),("pointer tables are members of the (de)serializer",BR)],["results per thread","thread sanitizer reports"])
p("C21","Deserializing into a used object replaces its previous contents",
 "Reading JSON or binary data into an object which already holds arbitrary contents leaves every part of the object which is present in the data with exactly the value it would have if read into a freshly created object; no elements, keys, pointers, optional values or variant alternatives of the previous contents survive in it. Objects referenced by the previous contents from elsewhere are not modified.",
 ["inputs","histories"],"all previous contents and all data for all supported types",
 "Tests always deserialize into fresh objects.",
 [JR,BR],[("clearing containers before reading",JR),("resetting pointers and optionals",JR),("assignment of variants",BR)],["deserialized value"])
p("C22","The CMake macro yields what the generator does with the options of targets",
 "For any list of input files and any combination of its arguments, the CMake macro adds for every input file the generation of one header named like the input file with extension .h in the output directory (by default `reflection` in the current build directory, relative ones are relative to that directory), and appends the full paths of the headers to the given lists, keeping what they contain already. When building, the contents of these headers are exactly those the generator yields when invoked with the requested formats and the compile options, definitions, include directories and C++ standard of the given targets (including what is set after calling the macro and what is inherited via linking) and interface properties of existing dependencies plus the additional options and globally configured resource directory, include directories and platform triple; what is given by later targets overrides what is given by earlier ones. Building again after an input file has been changed updates its header, and when the generator fails the build fails.",
 ["programs","configurations","histories"],"all projects: targets and their properties, calls of the macro, and changes of input files",
 "The tests' own build uses the macro in three fixed ways; nothing checks options, outputs or rebuilding.",
 ['lib/cmake/modules/ReflectionGenerator.cmake',G+'main.cpp'],[("add_reflection_generator_invocation",'lib/cmake/modules/ReflectionGenerator.cmake'),("splitting of joined options",G+'main.cpp')],["generated files","variables for output lists","success of configuring and building"])
p("C24","Pushing and pulling compose with direct use of RapidJSON",
 "The RapidJSON-level functions compose with each other and with direct edits of the same document in any order. Pushing a value into a RapidJSON value replaces what the latter held, pushing into an array appends exactly one element, pushing under a name adds exactly one member of that name at the end of the object, and pushing a class into an object adds its members at the end; everything else in the document as well as the pushed value remain as before. Pulling from any place of a document (a value, array, object or named member) yields what deserializing that part on its own yields, with errors appended to the given collector in the context set before, an absent member leaving the object untouched, and never changes the document.",
 ["histories","inputs"],"all sequences of pushing, pulling and direct edits on a document, for all supported types",
 "Tests push to and pull from fresh documents once; existing contents, other members, positions within the document and reused collectors are not varied.",
 [JR,JS],[("push to value/array/object/member",JR),("pull from value/array/object/member",JR),("RapidJSON-level API of JsonSerializable",JS)],["contents of the document","pulled value","errors collected"],
 [("document","values held by the RapidJSON document","RapidJSON"),("error collector","errors and context accumulated",JE)])
p("C23","Failing streams and allocations propagate cleanly and leave nothing behind",
 "When an allocation fails at any point of serializing or deserializing (JSON or binary), or a binary stream fails (ends or throws) after any number of bytes, the error reaches the caller as it is: std::bad_alloc, std::ios_base::failure or the exception thrown by the stream. Nothing is leaked, the serialized value is unmodified, the bytes written so far are a prefix of the regular ones, the errors collected so far are a prefix of the regular ones, and a partially populated object can be destroyed or deserialized into again with the regular result. The same applies to leaks for malformed texts and fatal errors. Streams which cannot be sought and accept or deliver data in portions of arbitrary sizes yield the same bytes and values; exactly the bytes of the value are consumed.",
 ["inputs","fault_sequences"],"all supported values and texts, all positions of a failing allocation or failing stream",
 "Tests use string streams and never let an allocation fail.",
 [JR,BR,JS,BS],[("reading of containers and pointers",BR),("writing",BR),("pull of containers and pointers",JR),("documents and buffers",JR)],["exceptions","memory allocated afterwards","bytes written/consumed","errors collected","results of repeated operations"],
 [("stream","bytes accepted/delivered until failing","user"),("memory","what is allocated during an operation","library")])
p("C25","Types with custom (de)serialization compose like built-in ones",
 "Types for which the user specializes the documented customization points (push()/pull() for JSON values, writeCustomType()/readCustomType() for the binary format) can be used wherever a built-in type can: as member, element of any container, in pairs, tuples, variants, optionals and smart pointers, within generated and adapted classes. Their custom representation then appears in place of the value, is read back to an equal value, errors they report carry the context (record, member, index) of the place they occur at, missing members leave them untouched, truncated or corrupted binary data is rejected and the surrounding data is not affected.",
 ["inputs"],"all combinations of custom types with supported containers and classes, all values, deviating texts and corrupted bytes",
 "Tests use few custom types as direct members only.",
 [JR,BR],[("push()/pull() of containers calling customization points",JR),("writeCustomType()/readCustomType()",BR)],["JSON text","bytes","restored values","errors"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
