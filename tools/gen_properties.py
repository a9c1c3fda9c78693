#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))

CORE="include/papilio/core.hpp"; INL="include/papilio/core.inl"; FMT="include/papilio/format.hpp"; CONT="include/papilio/container.hpp"
U="include/papilio/utility.hpp"; MEM="include/papilio/memory.hpp"; CP="include/papilio/utf/codepoint.hpp"; CPI="include/papilio/utf/codepoint.inl"
ALG="include/papilio/utf/stralgo.hpp"; STR="include/papilio/utf/string.hpp"; SRC="src/core.cpp"

p("C01","Literal text and doubled braces come out exactly",
  "Formatting a string that contains only literal text, with each brace of the text written twice, yields exactly that text, whatever Unicode characters it contains, whatever surrounds it in the same format string, and for every supported character type. A brace that is neither doubled nor part of a complete replacement or script field makes formatting fail with a format error instead of producing a result.",
  ["inputs"],"All well-formed Unicode texts (ASCII, combining, wide, astral, control and NUL characters), all placements of the text before, between and after fields, all five character types.",
  "Tests use two or three ASCII strings; the property quantifies over all texts, brace placements and encodings.",
  [CORE,INL,SRC],[("interpreter main loop copies text and unescapes braces",CORE+" basic_interpreter::format / run_*"),("copying code points to the output iterator",CORE+" format_context_traits::append")])

p("C02","Every way of naming an argument selects that argument",
  "Automatically numbered, explicitly numbered and named references select exactly the argument at that position or with that name, in replacement fields, script fields and nested width or precision fields, consuming automatic numbers strictly left to right. Omitting a number after an explicit number was used, and referring to a position or name that does not exist, are reported as exceptions. The result does not depend on whether the arguments were captured statically, collected dynamically, or passed through an argument-list reference.",
  ["inputs","programs"],"All argument lists (mixed positional and named, up to the supported number), all format strings built from valid references, all argument-list kinds.",
  "Tests check a handful of lists with one or two references; selection must hold for every list length, name, order and nesting.",
  [CORE,INL,SRC],[("automatic and manual indexing state",CORE+" basic_format_parse_context"),("argument list lookups",CORE+" basic_format_args_ref, basic_dynamic_format_args, static_format_args"),("reference parsing",INL+", "+SRC)])

p("F01","Integers are formatted as their exact value in every presentation",
  "For every integer type and value, decimal, binary, octal and hexadecimal presentations in lower or upper case denote exactly the value, with the requested sign, alternate prefix, zero padding placed after sign and prefix, and fill and alignment on the requested sides to at least the requested width. Booleans, characters and enumerations presented as integers follow the same rules for their numeric value.",
  ["inputs"],"All values of all integer widths and signedness, all combinations of fill, alignment, sign, alternate form, zero flag, width (static or dynamic) and type, narrow and wide output.",
  "Random tests only cover the default presentation; flag combinations are sampled at about ten points with tiny values.",
  [CORE],[("integer conversion and layout",CORE+" int_formatter, formatter_base::fill_*"),("specification parser",CORE+" std_formatter_parser")])

p("F02","Floating-point output equals the standard conversion plus layout",
  "For every floating-point value, the digits produced by each presentation (none, general, fixed, scientific, hexadecimal; lower or upper case; with or without precision) are exactly those of the C++ standard character conversion with that notation and precision, preceded by the requested sign and placed by the requested fill, alignment and width. Infinities and NaN are written as inf and nan with the requested case and sign. Default output read back yields a value that was formatted from, to the digits it shows.",
  ["inputs"],"All float, double and long double values including subnormals, infinities, NaN and negative zero; presentations and precisions whose text is of moderate length; all sign, fill, alignment and width options.",
  "Tests compare a few constants; conversions must hold for every bit pattern and option combination.",
  [CORE],[("floating-point conversion and layout",CORE+" float_formatter")])

p("F03","Text is padded and truncated by display width, never splitting characters",
  "A string presented with a width is padded on the requested sides with the requested fill character until its display width (two columns for the documented wide ranges, one otherwise) reaches that width, and is never shortened by it. A precision keeps the longest prefix of whole characters whose display width does not exceed it. A single character is presented under the same padding rules, and the output is well-formed whenever the input is.",
  ["inputs"],"All well-formed Unicode strings and characters, all fill characters (including multi-unit and wide ones), alignments, widths and precisions, static or dynamic, in all character types.",
  "Tests use ASCII words and three alignments; interactions of wide characters, precision, width and non-ASCII fill are untested.",
  [CORE,CP,CPI],[("string and character layout",CORE+" string_formatter, codepoint_formatter"),("display width estimate",CP+" codepoint::estimate_width")])

p("F04","Debug presentation escapes text losslessly",
  "The debug presentation of text replaces tab, newline, carriage return, backslash and the active quote by their two-character escapes, other unprintable characters by their hexadecimal code point and invalid code units by their hexadecimal unit value, and leaves every other character unchanged. Undoing these escapes yields the original text exactly, so two different texts never have the same debug presentation.",
  ["inputs"],"All strings, well-formed or containing invalid units where the encoding permits detection, all characters, all character types.",
  "Tests compare five literal strings; losslessness quantifies over all texts and all invalid sequences.",
  [CORE],[("escaping",CORE+" format_context_traits::append_escaped")])

p("F05","Booleans, pointers and enumerations keep their identity when formatted",
  "A boolean is written as true or false, a pointer as its address in hexadecimal with prefix, and an enumeration as the name of the enumerator holding that value, each laid out by fill, alignment and width like other text or numbers; asked for as a number, a boolean or an enumeration is its underlying value. An enumeration value without a known name is never misread as another name and never makes formatting misbehave.",
  ["inputs"],"All booleans, all pointer values, all values of enumerations (named, unnamed, negative, out of the reflectable range), with all layout options.",
  "Tests use two enumerators and two addresses.",
  [CORE,U],[("bool, pointer and enum formatters",CORE+" formatter specialisations"),("enumerator names",U+" enum_name")])

p("F06","Ranges, maps and tuples show every element once, in order",
  "Formatting a range, set, map, tuple or pair writes every element exactly once in iteration order, each formatted by the element specification given, separated and bracketed as the container kind and the requested presentation prescribe. Requesting no brackets, map style, or string style changes only brackets, separators and quoting, and nested containers follow the same rules at every depth.",
  ["inputs"],"All element sequences including empty ones, element specifications, container kinds (sequence, set, map, proxy-reference, input-only view, tuple, pair, joined range) and nesting depths.",
  "Tests format one three-element container of each kind.",
  [CORE,FMT,"include/papilio/formatter/tuple.hpp"],[("range formatter",CORE+" range_formatter, formatter for ranges"),("tuple formatter","include/papilio/formatter/tuple.hpp"),("joiner",FMT+" formatter<joiner>")])

p("F07","Wrapper values are formatted as what they hold",
  "An optional, variant or expected is formatted as the value it currently holds, or as the documented placeholder when it holds none; a filesystem path, calendar time and stream-insertable value are formatted as their text under the string layout rules. No state of a wrapper other than its held value influences the output.",
  ["inputs","histories"],"All wrapper states reached by any history of assignments, all held values, all paths, all calendar times, all layout options.",
  "Tests look at one engaged and one empty instance each.",
  ["include/papilio/formatter/vocabulary.hpp","include/papilio/formatter/filesystem.hpp","include/papilio/formatter/chrono.hpp","include/papilio/formatter/misc.hpp",CORE],[("wrapper formatters","include/papilio/formatter/*.hpp"),("stream adaptor",CORE+" streamable_formatter")])

p("F08","A user formatter sees exactly its own specification and value",
  "For a user-defined type, the formatter's parsing step is given exactly the characters of its own specification (those after the colon, up to the closing brace), and its formatting step is given the argument's value and the context of that call, whether it was supplied as a specialisation (with one or two steps) or as a free function found through the type. Text before and after the field, other fields, and skipped script branches never leak into it, and a specification left partly unconsumed is an error.",
  ["inputs","programs"],"All specifications, positions in the format string, neighbours, and kinds of customisation.",
  "Tests define four types and use each once with one or two specifications.",
  [CORE],[("formatter selection",CORE+" select_formatter, formatter_adapter, member and ADL hooks"),("parse context hand-over",CORE+" basic_format_arg::handle, basic_interpreter")])

p("S01","Script conditions decide by value and only the chosen branch speaks",
  "A script field evaluates its conditions in order (comparisons of arguments and constants, logical not, truth of a value) by the documented rules, and outputs exactly the result of the first branch whose condition holds, or of the final alternative, or nothing. Branches not chosen produce no output and their contents cannot influence the output, and optional whitespace around operators never changes the result. Results may be string constants, with their escapes undone, or replacement fields with specifications.",
  ["inputs","programs"],"All scripts of the documented grammar (any number of alternatives, all operators, all constant kinds, nested references with members and specifications), all argument values and types.",
  "Tests run about fifteen scripts; the grammar and value space are unbounded.",
  [INL,CORE,SRC],[("script parsing and execution",INL+", "+CORE+" basic_interpreter, "+SRC),("value comparison",CORE+" basic_variable")])

p("S02","Script values compare and convert coherently",
  "Converting a script value to another type either gives the value that type represents or reports a conversion error, and equality and ordering of script values are those of the underlying numbers or texts (an integer and a fraction are compared as single-precision numbers, and equality of fractions allows the documented tolerance): equality is reflexive except for NaN and symmetric, ordering is antisymmetric and consistent with equality, and numbers never equal texts. Copying or swapping script values preserves them.",
  ["inputs"],"All pairs and triples of boolean, integer, floating-point and text values, and all target types.",
  "Tests compare about ten pairs.",
  [CORE,SRC],[("script value",CORE+" basic_variable"),("ordering",CORE+" basic_variable::compare/equal")])

p("A01","Index, slice and attribute access reach exactly the named part",
  "Indexing an argument with a non-negative or negative number or a key, slicing it, or naming an attribute yields exactly the element, part or property the same operation yields on the value itself, with negative positions counted from the end, and chains of accesses compose. Accesses outside the value give the documented empty result or an exception, and never read outside the value.",
  ["inputs","programs"],"All strings, contiguous ranges, tuples, pairs, maps and other accessible values, all index, slice and key values of the supported range, all attribute names, all chains.",
  "Tests index a few literals at a few positions; bounds and chains are unbounded.",
  ["include/papilio/access.hpp","include/papilio/accessor/ranges.hpp","include/papilio/accessor/tuple.hpp","include/papilio/accessor/vocabulary.hpp",CORE,INL],[("accessors","include/papilio/accessor/*.hpp"),("argument indexing",CORE+" basic_format_arg::index/attribute"),("access parsing",INL)])

p("E01","Malformed or inapplicable formats are reported, at the right place",
  "A format string that violates the grammar, a specification a type does not accept, an access a value does not support and a dynamic width or precision that is not a positive number each end in a standard exception of the documented kind and never in a silently wrong result. Syntax errors carry the documented reason code, and in diagnostic mode (outside of nested width and precision fields) the position in the format string where reading it had to stop.",
  ["inputs"],"All format strings obtained by breaking valid ones (deletion, insertion, truncation, replacement), all argument types and specifications they do not accept.",
  "Tests list about a dozen malformed strings.",
  [CORE,INL,SRC],[("error reporting",SRC+" script_base::error, "+CORE+" throw_*"),("specification validation",CORE+" formatter parse functions")])

p("R01","No format string or argument makes formatting misbehave",
  "For any format string of well-formed Unicode and any arguments, formatting either returns text or throws a standard exception. It never reads or writes outside its inputs, never executes undefined behaviour, never terminates the process, always finishes, and leaves no memory allocated.",
  ["inputs"],"All well-formed Unicode format strings, including arbitrary garbage around field syntax, all argument lists of supported types.",
  "Memory-safety and termination over arbitrary strings cannot be enumerated by examples; tests contain no malformed deep syntax.",
  [CORE,INL,SRC,CPI],[("interpreter",INL+", "+CORE+" basic_interpreter"),("specification parsers",CORE)])

p("O01","All entry points produce the same characters",
  "Formatting into a new string, through any output iterator, with captured arguments, by lazily iterating the result, by running the interpreter in pieces, and measuring the size without output all agree: the same characters in the same order, and a size equal to their number. An iterator-based call returns the iterator just past the last character written.",
  ["inputs"],"All format strings and arguments, all output iterator kinds (back-inserting, pointer, list, stream, user-defined), with and without a locale, all character types.",
  "Tests compare two or three literal results per entry point.",
  [FMT,CORE,"src/format.cpp","src/xchar.cpp","include/papilio/xchar.hpp"],[("entry points",FMT),("size counting",FMT+" formatted_size_counter"),("lazy range",FMT+" formatted_range")])

p("O02","Bounded output writes exactly the first n characters",
  "Formatting with a limit of n writes exactly the first min(n, length) characters of the full result, reports the number written and the iterator past them, and touches nothing beyond, for every n including zero. Characters after the limit are never observable in the destination.",
  ["inputs"],"All format strings, arguments and limits from zero to beyond the full length, all output iterator kinds and character types.",
  "Tests use three limits that cut inside plain text.",
  [FMT],[("bounded output iterator",FMT+" format_to_n_wrapper, format_to_n_impl"),("early stop",CORE+" basic_interpreter::run_if")])

p("X01","All character types give the same text",
  "The same format string and equal arguments, expressed in narrow, wide, UTF-8, UTF-16 or UTF-32 characters, give results that are the same sequence of Unicode characters, or fail in all of them.",
  ["inputs","configurations"],"All format strings and arguments expressible in all character types.",
  "Tests check one boolean and one integer per extended character type.",
  [CORE,FMT,"include/papilio/xchar.hpp",INL],[("templated interpreter and formatters",CORE)])

p("L01","Locale affects output only where asked",
  "Without the locale option, output is identical under every global and supplied locale. With it, booleans use the names of the supplied locale's facet, or of the classic locale if none was supplied, laid out as usual; values formatted by a stream and times use the supplied locale, or the classic one; and nothing else in the output changes.",
  ["inputs","configurations"],"All supplied and global locales with custom facets, all values and layout options, all entry points that take a locale.",
  "Tests set one locale and format one boolean.",
  [CORE,FMT,"include/papilio/locale.hpp","src/locale.cpp"],[("locale hand-over",CORE+" basic_format_context::getloc, locale_ref"),("bool formatter",CORE)])

p("P01","Printing emits exactly the formatted bytes, style and newline",
  "Printing to a file or stream emits exactly the formatted text, followed by one newline in the line variants, surrounded by the escape sequences of the requested style and one reset when a style is set, and nothing else. A styled value inside a format string emits the same sequences around the value's own formatting only. A failure to write the text to a file, including when it is flushed, is reported as an exception, and to a stream by the state of the stream; what was written until then is the beginning of the text. Streams are those without a pending field width.",
  ["inputs","fault_sequences"],"All formats and arguments, all combinations of styles and foreground and background colours that include a foreground or no background, files, streams, write failures.",
  "Tests print a few literals and compare a few styles.",
  ["include/papilio/print.hpp","src/print.cpp","include/papilio/color.hpp","src/color.cpp","src/os/general.cpp"],[("print",  "src/print.cpp"),("style","include/papilio/color.hpp text_style"),("file output","src/os/general.cpp")])

p("G01","Captured arguments stay faithful through copies and moves",
  "A captured argument reports the type and value it was captured with, and so does every copy, move, swap or reassignment of it, and every copy of an argument list (a copy may refer to the value held by the argument it was copied from, and relies on it then; an argument that says that it has ownership relies on nobody but, for arrays, on the elements). An argument that was moved from is empty. Asking an argument for a type it does not hold is refused. A value captured as independent survives the destruction or modification of the original, and no operation on captured arguments leaks, double-frees or touches a destroyed value.",
  ["histories","inputs"],"All histories of capturing, copying, moving, swapping, assigning and destroying arguments and argument lists, for all stored kinds (numbers, texts, small and large user values, independent values).",
  "Tests construct each kind once and copy some of them once.",
  [CORE,U],[("argument storage",CORE+" basic_format_arg, handle"),("argument lists",CORE+" basic_dynamic_format_args"),("independent values",U+" independent_proxy")])

p("H01","Calls are independent of history, nesting and other threads",
  "The result of a formatting call depends only on its format string, arguments and locale: not on earlier calls (including failed ones), not on being made from inside a formatter running in another call, and not on calls running concurrently in other threads on other or the same unmodified arguments. Concurrent calls have no data race.",
  ["histories","schedules"],"All histories of successful and failing calls, all nesting through user formatters, and concurrent execution of independent calls.",
  "Tests run every call in isolation on one thread.",
  [CORE,INL,FMT,SRC],[("no shared mutable state",CORE+", "+SRC)],["ThreadSanitizer build for the concurrent facet"])

p("I01","A failure midway releases everything and keeps what was written valid",
  "If an output iterator, a user formatter or a memory allocation fails by exception during a formatting call, that exception reaches the caller, everything the call allocated is released, the arguments and output produced so far stay valid, and the next call behaves normally. What was already written is a prefix of the full result.",
  ["fault_sequences","crash_points"],"Every point at which the output iterator, a user formatter or an allocation can fail, for all format strings and arguments, including library containers under allocation failure.",
  "No test injects a failure at a chosen point.",
  [CORE,FMT,CONT,STR],[("exception neutrality",CORE+", "+FMT),("container rollback",CONT)])

p("U01","Encoding conversions preserve every Unicode character",
  "Every Unicode scalar value survives conversion between UTF-8, UTF-16, UTF-32 and the single-character type in any chain, is encoded in exactly the standard form with the standard length, and equal characters compare equal and order by code point. Well-formed text converted between encodings keeps its exact sequence of characters; ill-formed units are classified as such and never taken for another character's encoding.",
  ["inputs"],"All scalar values, all well-formed strings in all encodings, all single code units.",
  "Tests check fewer than ten characters.",
  [CP,CPI,ALG],[("decoder",CP+" decoder"),("unit classification",ALG+" is_leading_byte, is_high_surrogate ..."),("character type",CP+" codepoint")])

p("U02","Counting, iterating and locating characters agree with the text",
  "For well-formed text in any encoding, the character count, forward and backward iteration and the offset of the i-th character from either end all agree with the sequence of characters of the text, for texts given by pointer, by pointer with a limit, or by view; positions outside the text are reported as such. For ill-formed text the documented treatment (replacing, ignoring, stopping or reporting) is applied without reading outside the text.",
  ["inputs"],"All texts, positions and limits, all treatments of ill-formed units, all encodings.",
  "Tests count three literal strings.",
  [ALG,CP],[("counting and offsets",ALG+" strlen, index_offset"),("iteration",CP+" codepoint_iterator")])

p("U03","String views answer like the sequence of characters they hold",
  "For well-formed text, every query on a string reference or string container (indexing from either end, checked and defaulted access, searching from a position, prefix and suffix tests, sub-strings by position or slice, removing characters at the ends, comparison within and across encodings, conversion to other encodings) gives the answer of the same query on the plain sequence of Unicode characters. For ill-formed text every query by checked access, search, test, slice, comparison or conversion either answers or reports the ill-formed unit; it neither reads outside of the text nor terminates the program.",
  ["inputs"],"All pairs of texts, positions, counts and slices, in all encodings; well-formed and ill-formed.",
  "Tests use a few literals per operation.",
  [STR],[("common queries",STR+" implement_string"),("reference",STR+" basic_string_ref"),("container",STR+" basic_string_container")])

p("U04","String containers own what they say and mutate like a character sequence",
  "Over any history of assignments, appends, character replacement through element access or iterators, clearing, ownership acquisition, copies, moves, swaps and stream extraction, a string container's text equals that of a plain sequence of characters under the same history. Once it reports ownership its text no longer depends on the storage it was made from; while it does not, it refers to exactly that storage.",
  ["histories"],"All operation histories on several containers over well-formed texts, in all encodings.",
  "Tests exercise single operations on fresh objects.",
  [STR],[("ownership switching",STR+" basic_string_container::to_str, emplace_data"),("element replacement",STR+" reference_proxy, codepoint::replace")])

p("K01","The small vector behaves as a vector at every size",
  "Over any history of operations, the small-buffer vector holds the same elements in the same order as a standard vector under the same history, across transitions between inline and heap storage, and checked access outside the elements throws. Every element constructed is destroyed exactly once, and pointers into it are never used after its storage changed. Every block of memory is returned to an allocator equal to the one it came from, and assignments, swaps and copies follow the allocator's propagation as a standard vector does.",
  ["histories"],"All operation histories on one or several vectors, inline capacities, element types (trivial, owning, move-only, throwing).",
  "Tests run each operation once at one or two sizes.",
  [CONT,MEM],[("small vector",CONT+" small_vector"),("raw storage",MEM+", "+CONT)])

p("K02","Fixed-capacity containers behave as their models and respect capacity",
  "Over any history, the fixed-capacity vector holds the same elements as a standard vector as long as the capacity suffices, and the fixed-capacity map keeps unique keys in order with lookups, insertions and updates answering like a standard map. Exceeding the capacity is reported as an exception and leaves the contents as they were, and every element constructed is destroyed exactly once.",
  ["histories"],"All operation histories, capacities, key sets and comparators.",
  "Tests insert three or four elements once.",
  [CONT],[("fixed vector",CONT+" fixed_vector"),("fixed map",CONT+" fixed_flat_map")])

p("M01","Optionally owning pointers delete owned objects exactly once, others never",
  "Over any history of creating, moving, resetting, releasing and swapping optionally owning pointers, each object handed over with ownership is destroyed exactly once by the deleter given for it, each object referred to without ownership is never destroyed by it, and ownership queries report which is the case; also when the destruction of an object resets these pointers.",
  ["histories"],"All operation histories over several pointers to single objects and arrays, with stateless and stateful deleters.",
  "Tests run three straight-line scenarios.",
  [MEM,U],[("optionally owning pointer",MEM+" optional_unique_ptr"),("compressed storage",U+" compressed_pair")])

p("V01","Stream wrappers and sequence helpers deliver everything once and in order",
  "A stream or stream buffer made from an iterator passes every character written to it through the iterator, and hands out every character the iterator yields, exactly once and in order, with its base() behind what was written or read. Streaming a joined range writes every element with the separator between neighbours only. Visiting a tuple calls the function once per element, in order, with the element itself and its value category. Index ranges resolve negative bounds and open ends as documented, and named arguments refer to the very object and name they were given.",
  ["inputs","histories"],"All sequences of stream operations, input and output iterators, texts, ranges, tuples, bounds, lengths and names.",
  "Tests write one text and read one word.",
  [U],[("iterator streams",U+" basic_iterbuf, basic_oiterstream"),("joining",U+" joiner"),("tuple visit",U+" tuple_for_each"),("index range",U+" index_range"),("named argument",U+" basic_named_arg")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
