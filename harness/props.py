"""What the check of each property consists of."""
TYPES = ('types: every kind of supported type at least once (core classes) plus classes with random nesting of member types generated anew from the seed; '
         'values: random with emphasis on limits (powers of two, extremes, special strings incl. NUL/non-BMP, empty/unset states, container sizes around 128). ')
PROPS = {}


def prop(pid, rule, technique, note, assumptions=()):
    def deco(f):
        PROPS[pid] = dict(run=f, rule=rule, technique=technique, note=note, assumptions=assumptions)
        return f
    return deco


@prop('C01', TYPES + 'Each case serializes a value and reads it back via one of 8 routes. Non-trivial: the value has at least two parts which are not empty/zero/unset; distinct by type and value.',
      'property-based testing: round trips of generated values of generated types',
      'Seeded search over about 100 class and root types per run and hundreds of thousands of values; absence of deviations is only shown for these. Trusts the compiler, sanitizers and the type-directed canonical form in harness/ops.h. Doubles RapidJSON itself cannot restore are compared with a tolerance of 3 ulp (known finding).')
def c01(c):
    exe = c.pbt('prop_c01.h', ['json'])
    c.findings(exe, ['double-precision'])


@prop('C02', TYPES + 'Each case serializes a value via one of 6 routes twice and compares the strictly parsed text with the reference mapping. Non-trivial: JSON has at least 3 nodes; distinct by type and value.',
      'property-based testing: differential against a reference mapping with an own strict JSON parser',
      'Seeded search; the reference mapping (harness/ops.h refJson) is derived from the documented mapping and independent of the code under test.')
def c02(c):
    exe = c.pbt('prop_c02.h', ['json', 'ser'])
    c.findings(exe, ['nonfinite'])


@prop('C03', TYPES + 'Each case destroys, overwrites or moves the source (value, text buffer or document) under AddressSanitizer before using what was obtained from it. Non-trivial: value not empty; distinct by type and value.',
      'property-based testing under AddressSanitizer: sources are destroyed or overwritten before results are used',
      'Seeded search; lifetime errors are detected by AddressSanitizer and by comparing the text before and after.')
def c03(c):
    c.pbt('prop_c03.h', ['json', 'ser'])


@prop('C04', TYPES + 'Texts: fitting, mutated, deviating, deeply nested (up to 300 levels), token sequences and random bytes, in buffers of exact size under AddressSanitizer/UBSan. Non-trivial: text longer than one byte; distinct by type and text.',
      'fuzzing of generated, mutated and random texts under AddressSanitizer/UBSan, differential against an own strict parser and reference deserializer',
      'Seeded search; texts up to a few hundred bytes (nesting up to 300 levels).',
      ['texts using encodings/escapes RapidJSON is lenient about (NUL, BOM, invalid UTF-8, surrogate escapes, numbers beyond double) are only checked for clean behaviour, not for acceptance'])
def c04(c):
    exe = c.pbt('prop_c04.h', ['json'])
    c.findings(exe, ['deep-nesting'])


@prop('C05', TYPES + 'JSON documents deviating from the type in up to 5 places, compared with a reference deserializer (errors with full context and resulting value). Non-trivial: at least one error expected; distinct by type and text.',
      'property-based testing: deviating documents compared with a reference deserializer (errors and values)',
      'Seeded search; the reference deserializer in harness/ops.h defines kind, types, context and order of errors.')
def c05(c):
    c.pbt('prop_c05.h', ['json'])


@prop('C06', TYPES + 'Deviating documents with all 64 combinations of fatal kinds. Non-trivial: a fatal error is expected; distinct by type, text and mask.',
      'property-based testing: metamorphic relation between runs with and without fatal error kinds',
      'Seeded search; all 64 combinations of fatal kinds are drawn.')
def c06(c):
    c.pbt('prop_c06.h', ['json'], ['prop_c06_report.cpp'])


@prop('C07', TYPES + 'Members of classes at any level removed, permuted and added (names similar to existing ones); objects with previous contents. Non-trivial: at least one such change; distinct by type and text.',
      'property-based testing: metamorphic relation between documents with members removed, added, permuted',
      'Seeded search.')
def c07(c):
    c.pbt('prop_c07.h', ['json'])


@prop('C08', TYPES + 'Each case writes 1 to 4 values of arbitrary types (sharing objects) to one stream using one or more serializers and reads them back. Non-trivial: values have at least two non-empty parts; distinct by value.',
      'property-based testing: round trips of sequences of generated values on one stream',
      'Seeded search over values of about 100 types, up to 4 values and several serializers per stream.')
def c08(c):
    c.pbt('prop_c08.h', ['bin'])


@prop('C09', TYPES + 'Bytes are compared with a reference encoder; encodings made by the reference encoder (with other ids for shared objects) are read. Non-trivial: value not empty; distinct by type and value.',
      'property-based testing: differential against a reference encoder/decoder of the binary format',
      'Seeded search; the reference encoder in harness/ops.h is written from the documented format and compared byte by byte.',
      ['the ids of shared objects are up to the writer (the implementation uses addresses)'])
def c09(c):
    c.pbt('prop_c09.h', ['bin'])


@prop('C10', TYPES + 'All truncations of an encoding, or corruptions of it/arbitrary bytes compared with a reference decoder, under AddressSanitizer/UBSan with an allocation limit. Non-trivial: data differs from the original and is not empty; distinct by type and bytes.',
      'fuzzing of truncated, corrupted and random bytes under AddressSanitizer/UBSan, differential against a reference decoder',
      'Seeded search; allocations are limited so sizes which are too big surface as std::bad_alloc.',
      ['boolean/presence bytes other than 0/1 and unknown pointer modes are undefined by the format: only clean behaviour is required'])
def c10(c):
    c.pbt('prop_c10.h', ['bin'])


@prop('C21', TYPES + 'JSON or binary data of one value is read into an object holding another one; objects shared with the previous contents are watched. Binary data of classes with versions (see C12) is read into used objects as well. Non-trivial: previous contents not empty and different; distinct by both values.',
      'property-based testing: reading into used objects compared with reading into fresh ones',
      'Seeded search.')
def c21(c):
    c.pbt('prop_c21.h', ['both'])
    c.programs('prop_c12.h', ['bin'], 3, 24 if c.quick else 40, versions=1, label='programs')


@prop('C11', 'Graphs: random graphs of up to about 40 objects of 8 types referring to each other from members, sequences, maps, variants, pairs, optionals and further pointers (with cycles, self references, aliases of members and bases, foreign owners, objects placed at chosen addresses which differ in single bits or are bigger than 32 bit) as well as chains, rings and fans of up to 400 objects; 1 to 3 entry points written by one or several serializers. Acyclic ones for JSON. Non-trivial: at least one object is referred to more than once; distinct by graph.',
      'property-based testing: generated object graphs compared up to isomorphism before and after a round trip, marks of objects counted in the data',
      'Seeded search; graph isomorphism is decided exactly (numbering by first visit). Addresses above 2^55, which the host does not hand out, are covered by C09/C10 only on the side of reading.')
def c11(c):
    c.pbt(sources=['prop_c11.cpp'])


@prop('C17', TYPES + 'Each class exists twice: with generated-style code and defined via Boost.Hana (both macros); corresponding values are made from the same random choices. Texts, bytes, values read from deviating/malformed JSON and from corrupted bytes, errors and exceptions are compared. Non-trivial: value has at least two non-empty parts or the document deviates; distinct by type and data.',
      'property-based testing: differential between Boost.Hana based and ordinary reflection for generated pairs of classes',
      'Seeded search over about 150 pairs of classes per run.')
def c17(c):
    c.pbt('prop_c17.h', ['hjson', 'hbin', 'hboth'], nrandom=4 if c.quick else 12)


@prop('C18', 'Values: a class with date/time and time span members in 12 kinds of containers, ticks within the documented ranges (seconds, milliseconds, arbitrary, limits, neighbours of powers of two, around midnight) for JSON and any 64-bit ticks for binary; strings: textual forms with time zones, mutated ones, random ones, words at the limits; JSON values of any type. Additionally classes with date/time types in all kinds of containers, smart pointers and variants are checked like custom types (C25). Non-trivial: more than three date/time values or a non-empty string; distinct by value or document.',
      'property-based testing: own calendar/time formatting as reference, round trips, deviating strings and values',
      'Seeded search. What strings denote is decided by CppUtilities itself, which the library delegates to.',
      ['strings whose time zone has surplus parts are excluded as CppUtilities corrupts memory when parsing them (known finding)', 'negative time spans are excluded for JSON (known finding)'])
def c18(c):
    exe = c.pbt(sources=['prop_c18.cpp'])
    c.pbt('prop_c25.h', ['tjson', 'tboth'], label='composed')
    c.findings(exe, ['negative-time-span', 'time-zone-overflow'])


@prop('C19', 'Errors: all kinds and pairs of types for each random context (record, member, index absent/present, names with special characters up to 600 bytes, index up to the maximum) as well as errors reported via the collector. Names live in memory of exact size under AddressSanitizer and are freed before the message is used. Non-trivial: a record is known; distinct by context.',
      'property-based testing: all kinds and types for generated contexts, checked for presence, absence and distinctness of each part',
      'Seeded search; kinds and pairs of types are enumerated completely.')
def c19(c):
    c.pbt(sources=['prop_c19.cpp'], secs=15)


PROGRAMS = ('programs: headers with random class definitions (access sections, friend declarations, static/const/mutable/aligned members, several members per declaration, nested classes, nested and re-opened namespaces, classes in an included header, '
            'serializable and other base classes over several levels, CRTP/adapted/listed classes, constructors of all kinds, unrelated declarations, odd names) which are run through the generator built from the tree; ')


@prop('C12', PROGRAMS + 'version markers with constant expressions, versions up to 70000. Values written with default/explicit versions are compared with a reference encoder; data with every class stored in any supported or an unsupported version is read into fresh and used objects and compared with a reference decoder. Non-trivial: value has at least two non-empty parts; distinct by class, value and version.',
      'property-based testing: generated class definitions and values compared with a reference encoder/decoder aware of versions',
      'Seeded search over several hundred class definitions per run.',
      ['data of a versioned class with base classes depending on its version which has been written with an explicit version is only read with that version (known finding)'])
def c12(c):
    exe = c.programs('prop_c12.h', ['bin'], 8, 24 if c.quick else 40, versions=1, probes=['probe_c12'])
    c.findings(exe, ['explicit-version-base'])


@prop('C13', PROGRAMS + 'values of all classes are serialized, compared with the reference mapping of the documented members, and deviating documents are deserialized and compared with a reference deserializer (values, errors with record and member, members not covered). Non-trivial: JSON has at least three nodes; distinct by class, value and document.',
      'property-based testing: generated class definitions and values compared with a reference (de)serializer derived from the definition',
      'Seeded search over several hundred class definitions per run.',
      ['classes inheriting from the same class multiple times, bit-fields, anonymous members and private inheritance are not covered'])
def c13(c):
    c.programs('prop_c13.h', ['json', 'both'], 4 if c.quick else 8, 24 if c.quick else 40)


@prop('C14', PROGRAMS + 'values of all classes are written, compared with a reference encoder for the documented members, and read into fresh and used objects. Non-trivial: value has at least two non-empty parts; distinct by class and value.',
      'property-based testing: generated class definitions and values compared with a reference encoder/decoder derived from the definition',
      'Seeded search over several hundred class definitions per run.',
      ['classes inheriting from the same class multiple times, bit-fields, anonymous members and private inheritance are not covered'])
def c14(c):
    c.programs('prop_c12.h', ['bin', 'both'], 4 if c.quick else 8, 24 if c.quick else 40)


@prop('C15', 'Header files (with an included one) made from up to about 40 declarations: classes with/without the serializable bases (directly, via alias, using directive, mixin, look-alike templates, derived from other classes), nested, in (re-opened, look-alike) namespaces and linkage blocks, forward-declared several times, (partially) made by expanding macros of either file, adapted in either file, listed by name (also by similar or unknown names), class templates with their specializations and instantiations and about 40 kinds of unrelated declarations, comments and directives. Non-trivial: code is expected for some but not for all classes; distinct by header files and options.',
      'property-based testing: generated header files; emitted set of classes compared with the one known from how the header was made, metamorphic comparison of outputs with/without unrelated declarations and of formats requested together/alone',
      'Seeded search, about 150 headers (three runs of the generator each) in the quick tier.',
      ['classes in included files which are listed by name, local classes and classes in anonymous or inline namespaces are not covered'])
def c15(c):
    import extpbt, select_c15
    c.generator()
    extpbt.search(c, select_c15.make, select_c15.tester(c), 80, 'headers')


@prop('C16', 'Invocations: headers with up to 150 classes depending on macros, forced includes, include directories and the language standard which are set via compiler options grouped arbitrarily; 20 kinds of input (missing, directory, empty, lexical/syntactical/semantic errors at three positions with/without --error-resilient, wrong options), unknown formats, 18 kinds of output (new, existing with longer contents, symbolic link, standard output; not openable in various ways, full device, broken pipe, closed, write errors at any offset via file size limit). All cases are non-trivial; distinct by arguments, input and output.',
      'property-based testing with fault injection: generated invocations, exit status/messages/output compared with the expected outcome and a reference invocation',
      'Seeded search, about 250 invocations (and as many for reference) in the quick tier. Write errors are injected by the system (file size limit, full device, broken pipe).',
      ['inputs with only semantic errors are supposed to be accepted with --error-resilient', 'the default set of formats is not covered'])
def c16(c):
    import extpbt, cli_c16
    c.generator()
    extpbt.search(c, cli_c16.make, cli_c16.tester(c), 50, 'invocations')


@prop('C20', TYPES + 'Each case lets 2 to 4 threads do several jobs on generated values of one or more types: serializing (also the same object concurrently) and deserializing (fitting, deviating and truncated data, fatal error kinds) as JSON and binary. Threads start together and are the first ones to use the types; results are compared with those obtained alone afterwards and all accesses are monitored by ThreadSanitizer. Non-trivial: every thread has a job and at least two values have two non-empty parts; distinct by jobs.',
      'property-based testing under ThreadSanitizer: results of concurrent jobs compared with sequential ones',
      'Seeded search; schedules are not enumerated but ThreadSanitizer reports unsynchronized accesses independently of how they interleave. Code within libc++utilities and libstdc++ is not instrumented.')
def c20(c):
    c.pbt('prop_c20.h', ['json', 'ser', 'both', 'bin'], san=['-fsanitize=thread'], extra_flags=['-DPBT_NO_ALLOC'], nrandom=6 if c.quick else 16)


@prop('C22', 'CMake projects calling the macro up to 3 times (also in a sub directory) for up to 8 input files: formats, output directories (default, relative, existing, not yet existing), options of up to 2 targets (C++ standard, flags, options, definitions with special characters, include directories, linked libraries; set before or after the call) and dependencies, additional options, listed classes, visibility, error resilience. Each project is configured and built with Ninja or Make, one input is changed or broken afterwards. Non-trivial: options of targets or dependencies are passed; distinct by project.',
      'property-based testing: generated CMake projects; output compared with invoking the generator directly, after building, after changes and with broken input',
      'Seeded search, about 100 projects in the quick tier.',
      ['macros defined differently by several targets/dependencies are not covered as the order of options is not specified'])
def c22(c):
    import extpbt, cmake_c22
    c.generator()
    extpbt.search(c, cmake_c22.make, cmake_c22.tester(c), 110, 'projects')
    c.finding('several-compile-flags', cmake_c22.several_flags(c))


@prop('C24', TYPES + 'Histories of up to 13 operations on a RapidJSON document: pushing values of any type to nodes, arrays and objects (as value, element, named member, several members, copied document), pulling values of any type from nodes (as value, array, object, named member present or not; into used objects; with a collector reused over the history and having a context set before) and direct edits (assign, insert, erase, swap, clear, write and parse). Non-trivial: values are pushed and pulled within at least four operations; distinct by history.',
      'model-based property-based testing: histories of push/pull/direct edits compared with a model of the document and a reference deserializer after every step',
      'Seeded search over histories of up to 13 operations.')
def c24(c):
    c.pbt('prop_c24.h', ['json', 'ser'])


@prop('C23', TYPES + 'Serializing to/deserializing from JSON (fitting and deviating texts, fresh and used objects, with/without collecting errors) and the binary format with the k-th allocation (or all from the k-th on) failing; malformed and fatal texts; binary streams which fail (ending or throwing) at any byte, cannot be sought and accept/deliver portions of arbitrary sizes. Non-trivial: a failure was injected (or the stream is not a string stream); distinct by value, text and position.',
      'property-based testing with injected allocation and stream failures; leak oracle (allocated bytes before/after), prefix of bytes/errors, repeated operation gives the regular result',
      'Seeded search; in each case up to 10 of the allocations are made to fail. Allocations RapidJSON makes via malloc() do not fail.',
      ['allocations do not fail when deserializing into classes with a std::variant having a std::string alternative (copying those is not exception-safe in libstdc++ 13)'])
def c23(c):
    c.pbt('prop_c23.h', ['nboth'])  # without date/time types: the C++ utilities swallow failing allocations when formatting those


@prop('C25', TYPES + 'Three types with custom (de)serialization (a string of hexadecimal digits/three bytes; an array/members in other order; a string or null/flag and text), implemented as documented, are used as members and in all kinds of containers, smart pointers and variants of generated classes. Everything C01, C02, C05, C07, C09, C10 and C21 check is checked for these types. Non-trivial: as for these properties; distinct by type, value, text and bytes.',
      'property-based testing: round trips, reference (de)serializer and reference encoder/decoder which know the custom representation; corrupted bytes under AddressSanitizer/UBSan',
      'Seeded search.')
def c25(c):
    c.pbt('prop_c25.h', ['cjson', 'cboth', 'cbin'])
