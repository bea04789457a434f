"""The properties, as data. tools/gen_docs.py writes properties.jsonl and MANIFEST.json from this."""

L = "src/main/cpp/lang/"
CORE = ["src/main/cpp/ulight.cpp", "include/ulight/ulight.h", "include/ulight/impl/highlighter.hpp",
        "include/ulight/impl/buffer.hpp"]
LANGS = [L + f for f in (
    "bash.cpp cowel.cpp cpp.cpp css.cpp diff.cpp ebnf.cpp html.cpp java.cpp js.cpp json.cpp kotlin.cpp llvm.cpp "
    "lua.cpp markdown.cpp nasm.cpp python.cpp rust.cpp tex.cpp xml.cpp yaml.cpp").split()]


def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


BOUNDED = "bounded-exhaustive exploration of the real code"

SPEC = []


def prop(id, title, statement, over, text, why, files, mechanism, level="exploration", technique=BOUNDED, note=""):
    SPEC.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                     why_tests_cant=why, anchors=dict(files=files, mechanism=mechanism), level=level,
                     technique=technique, note=note))


prop("T01", "Highlighting is total: it terminates and succeeds on every text",
     "For every supported language, every flag combination and every byte string given as source, tokenizing returns "
     "(no hang, crash or abort), reads nothing outside the source range, and writes nothing outside the caller's "
     "buffers. On valid UTF-8 the status is OK, whatever the text contains (malformed, truncated or deeply nested "
     "code); on invalid UTF-8 it is OK or BAD_TEXT, and every status other than OK comes with an error message. "
     "Running the same input again gives the same result.",
     ["inputs", "configurations"],
     "All languages x all flag sets x all byte strings.",
     "The tests run one or a few well-formed sample files per language; termination and memory safety on every "
     "malformed or truncated input cannot be sampled.",
     CORE + LANGS, mech(("language dispatch and status mapping", "src/main/cpp/ulight.cpp"),
                        ("lexer loops that must make progress", L + "*.cpp"),
                        ("decoding with replacement", "include/ulight/impl/unicode.hpp")),
     note="Every input of the stated bounded spaces is run on the real library with guard pages on both sides of the "
          "source and after the token buffer, in forked workers with a hang monitor.")
prop("T02", "Token streams are well-formed",
     "Whatever the input, the concatenation of all flushed tokens is a list of non-empty ranges inside the source, "
     "in strictly increasing order and without overlap. Every token's type is one of the documented highlight types, "
     "and every flush passes the caller's own buffer with a count between one and its capacity.",
     ["inputs", "configurations"],
     "All languages x all flag sets x all inputs x token buffer capacities.",
     "Tests compare a handful of outputs; an overlap or an empty or out-of-range token appears only on particular "
     "malformed inputs.",
     CORE + LANGS, mech(("emit / advance bookkeeping", "include/ulight/impl/highlighter.hpp"),
                        ("flush", "include/ulight/impl/buffer.hpp")),
     note="Decided on every input of the bounded spaces, library built as released (NDEBUG).")
prop("T03", "Tokens never split a character",
     "On valid UTF-8 input, every token begins and ends on a code point boundary, in every language and with every "
     "flag combination, so that output cut at token boundaries is itself valid UTF-8.",
     ["inputs", "configurations"],
     "All languages x flag sets x all valid UTF-8 inputs containing non-ASCII characters at any position.",
     "Samples contain few non-ASCII characters, almost all inside comments and strings; the property is about every "
     "position of every construct.",
     LANGS + ["include/ulight/impl/unicode.hpp", "include/ulight/impl/escapes.hpp"],
     mech(("code point length when consuming one unknown character", L + "*.cpp"),
          ("fixed-length escapes", "include/ulight/impl/escapes.hpp")),
     note="Six code points of two to four bytes are inserted at and substituted for every position of every string "
          "of the bounded spaces.")
prop("T04", "Results do not depend on the token buffer capacity",
     "For every input and flag combination, the concatenation of flushed tokens and the returned status are the same "
     "for every token buffer capacity of one or more: a full buffer, an exactly filled buffer and a final partial "
     "flush lose, repeat or alter nothing, also while adjacent tokens are being merged.",
     ["inputs", "configurations"],
     "All languages x flags x inputs x all capacities.",
     "Tests use one large buffer, so a flush almost never happens in the middle of a construct.",
     CORE, mech(("push and flush of the caller's buffer", "include/ulight/impl/buffer.hpp"),
                ("coalescing with the last token of a buffer that may just have been flushed",
                 "include/ulight/impl/highlighter.hpp")),
     note="Every input is run with capacities 1, 2, 3, 5, 8, n-1, n (n = number of tokens) and compared with an "
          "unflushed run.")
prop("T05", "Coalescing yields exactly the merged token stream",
     "With the coalescing flag, the tokens are precisely those of the plain run with every maximal run of touching "
     "tokens of equal type replaced by one token that covers it: nothing else is merged, split, moved or retyped. "
     "This also holds at the boundaries of embedded languages.",
     ["inputs", "configurations"],
     "All languages x strict flag x inputs.",
     "Tests exercise the flag on single files; whether two touching tokens are merged depends on every emission site.",
     CORE + LANGS, mech(("emit with coalescing", "include/ulight/impl/highlighter.hpp"),
                        ("embedded languages", L + "html.cpp")),
     note="Metamorphic comparison of the two real runs on every input of the bounded spaces.")
prop("T06", "Generated HTML shows the source text with exactly the tokens as elements",
     "Generated HTML consists of the complete source text with &, < and > escaped, in which every token is wrapped "
     "in one element with the configured tag and attribute name and the token's short type name as value; removing "
     "the tags and decoding the references gives back the source byte for byte. The output does not depend on the "
     "capacities of the text and token buffers, and every text flush passes the caller's own buffer with a valid "
     "count.",
     ["inputs", "configurations"],
     "All languages x flags x inputs x text and token buffer capacities x tag and attribute names.",
     "Tests render one fixed buffer configuration on few inputs.",
     CORE, mech(("HTML output", "src/main/cpp/ulight.cpp"), ("text buffer", "include/ulight/impl/buffer.hpp")),
     note="An independent renderer is applied to the real token stream and compared byte for byte.")
prop("T07", "Invalid configurations are rejected cleanly, valid ones are accepted",
     "A call with a null source of non-zero length, an unknown language, a missing or empty buffer, a missing flush "
     "callback or (for HTML) an empty or missing tag or attribute name returns the documented status for one of these "
     "faults and an error message, calls no callback and writes to no buffer. Every other configuration is accepted, "
     "members that a call does not use have no influence, and the call leaves the caller's settings as they were. The "
     "C++ wrapper's setters and getters correspond one to one to the members of the C state.",
     ["configurations"],
     "All combinations of valid and invalid values of every member of the state.",
     "The tests only use valid configurations; the failures are in combinations.",
     ["src/main/cpp/ulight.cpp", "include/ulight/ulight.h", "include/ulight/ulight.hpp"],
     mech(("argument checks of the two entry points", "src/main/cpp/ulight.cpp"),
          ("State setters", "include/ulight/ulight.hpp")),
     note="The full product of member values is enumerated.")
prop("T11", "Language lookup by name and by path agree with the published list",
     "A name lookup succeeds exactly for the entries of the published, sorted language list, with the listed "
     "language, and the lookup by path is the lookup of what follows the last dot of the last path component's name. "
     "All variants (plain and char8_t, C and C++) agree, and every language can be reached by a name and has its "
     "display name, while values that are not languages have none.",
     ["inputs"],
     "All strings as names and paths; all values as languages.",
     "Binary search and extension splitting are tested on a few names.",
     ["src/main/cpp/ulight.cpp", "include/ulight/ulight.h", "include/ulight/ulight.hpp", "README.md"],
     mech(("sorted language list and search", "src/main/cpp/ulight.cpp"),
          ("extension of a path", "src/main/cpp/ulight.cpp")),
     note="All short strings over the characters of the registered names, all single edits of registered names and "
          "paths built from them are compared with a linear search of a reference list.")
prop("T12", "Every highlight type has its documented, unique names",
     "Every documented highlight type has the long name that follows from its enumerator and its short name, no two "
     "types share a long or a short name, short names are valid in HTML attributes and CSS selectors, and values that "
     "are not types have empty names. The variants of the naming functions agree.",
     ["inputs"],
     "All 256 values of the type.",
     "The tests check a few names; themes and style sheets rely on all of them.",
     ["src/main/cpp/ulight.cpp", "include/ulight/ulight.h", "include/ulight/ulight.hpp"],
     mech(("type names", "include/ulight/ulight.hpp")),
     note="Complete enumeration against a reference table taken from the documentation.")
prop("T08", "Allocation failures are reported, leak nothing and leave the state usable",
     "Whichever memory allocation fails during a call, the call returns BAD_ALLOC with an error message (or succeeds "
     "with the complete result), what was flushed until then is a prefix of the normal output, and creating a state "
     "returns null. No call leaks memory, frees twice, or frees with another size or alignment, with or without "
     "failures, and repeating the call with memory available gives the normal result.",
     ["faults", "inputs"],
     "All allocation sites and failure points x languages x inputs.",
     "No test makes an allocation fail; the failure points depend on the nesting of the input.",
     ["src/main/cpp/ulight.cpp", "include/ulight/impl/memory.hpp", L + "yaml.cpp"],
     mech(("memory resource", "include/ulight/impl/memory.hpp"), ("status mapping", "src/main/cpp/ulight.cpp"),
          ("growing stacks", L + "yaml.cpp")),
     technique="exhaustive fault injection on the real code",
     note="An accounting allocator replaces the global one; for each input every failure index up to the bound is taken, "
          "once alone and once with all later allocations failing too.")
prop("T09", "Results do not depend on the history of the state or the process",
     "A state can be used for any number of calls, and reconfigured in full or in part between them. Each call's "
     "result is the one a fresh state with the same settings gives in a fresh process, also after calls that failed, "
     "were rejected, ran out of memory or were ended by an exception, and whatever was highlighted before, in "
     "whatever language, even in the same memory.",
     ["histories", "inputs"],
     "All histories of calls on one or several states.",
     "Each test makes one call on a fresh state.",
     CORE + LANGS, mech(("state passed between calls", "src/main/cpp/ulight.cpp"),
                        ("absence of caches and other mutable globals", "src/main/cpp")),
     technique="exhaustive exploration of operation histories of the real code",
     note="All histories up to the depth over 23 operations on one state, and all pairs followed by other calls over all "
          "languages; references are computed in processes of their own.")
prop("T10", "Concurrent and nested calls do not affect each other",
     "Calls on different states may run concurrently in different threads, and a flush callback may itself use the "
     "library with another state. Under every interleaving each call gives the result it gives alone, and concurrent "
     "calls access no common mutable data without synchronization.",
     ["schedules"],
     "All interleavings of concurrent calls; all nestings.",
     "The tests are single-threaded; a race shows only under particular schedules.",
     ["src/main/cpp/ulight.cpp", "src/main/cpp/lang/*.cpp", "include/ulight/impl/highlighter.hpp"],
     mech(("no mutable globals", "src/main/cpp"), ("callbacks", "include/ulight/impl/buffer.hpp")),
     technique="stateless model checking of the real code under a controlled scheduler",
     note="The library is compiled with access instrumentation; a controlled scheduler plays all schedules with up to two "
          "preemptions at flushes and at conflicting accesses to globals. Calls without such accesses are independent, so "
          "that their other interleavings are equivalent.")
prop("T36", "Exceptions from callbacks are contained",
     "If a flush callback throws, whatever it throws and at whichever flush, the call returns a status that reports an "
     "internal error or failed allocation together with an error message, makes no further callback, leaks nothing, "
     "and leaves the state usable for further calls. Before that, exactly the normal output was delivered.",
     ["faults", "inputs"],
     "All flush positions x exception kinds x languages x inputs.",
     "No test throws from a callback.",
     ["src/main/cpp/ulight.cpp", "include/ulight/impl/buffer.hpp", "include/ulight/impl/highlighter.hpp"],
     mech(("exception to status mapping", "src/main/cpp/ulight.cpp"), ("flush", "include/ulight/impl/buffer.hpp")),
     technique="exhaustive fault injection on the real code",
     note="Every flush position up to the bound and the last ones, for each source, throws.")
JSONF = ["src/main/cpp/lang/json.cpp", "include/ulight/json.hpp", "include/ulight/impl/lang/json.hpp"]
prop("T15", "The JSON parser accepts exactly JSON and reports every rejection once",
     "Parsing succeeds exactly for texts that are one JSON value with optional white space around it (and, if allowed, "
     "// and /* */ comments), without reading outside the text. If it fails, the visitor's error function is called "
     "exactly once, with the documented kind of error and the position of the offending character, and nothing is "
     "reported afterwards; if it succeeds, no error is reported.",
     ["inputs", "configurations"],
     "All texts x all parser options.",
     "The tests parse a few documents; acceptance and rejection are about every text.",
     JSONF, mech(("recursive descent parser", L + "json.cpp")),
     note="Compared with an independent implementation of the RFC 8259 grammar on every text of the bounded spaces; the text "
          "ends at a guard page.")
prop("T16", "JSON parser events describe the document exactly",
     "The visitor receives the document's strings, members, literal characters, escapes, numbers, literals, comments and "
     "the begin and end of objects and arrays once each, in source order, properly nested, with exactly their text and "
     "correct offset, line and column, through the function that the options call for. Numbers and escapes, where "
     "parsed, have the correct value and encoding; for a rejected text, the events are those of the part before the "
     "error.",
     ["inputs", "configurations"],
     "All texts x all parser options.",
     "The tests check the events of a few documents.",
     JSONF, mech(("visitor calls and position tracking", L + "json.cpp"), ("encoding", "include/ulight/impl/unicode.hpp")),
     note="Event by event comparison with the reference parser on every text of the bounded spaces.")
prop("T18", "Valid JSON is highlighted exactly according to its grammar",
     "For every valid JSON text (and JSON with comments where the language or the absence of the strict flag allows "
     "them), the tokens are precisely: braces, brackets, commas and colons as such; property names; strings with their "
     "delimiters, characters and escapes; numbers; true and false; null; comments with their delimiters. Nothing else "
     "is highlighted, and nothing is marked as an error.",
     ["inputs", "configurations"],
     "All valid JSON texts x the two languages x the strict flag.",
     "The tests compare a few sample files.",
     JSONF, mech(("JSON highlighter", L + "json.cpp")),
     note="Tokens are derived from the reference parser and compared on every valid text of the bounded spaces.")
prop("T13", "UTF-8 decoding and encoding are exact and never read past the end",
     "Decoding accepts exactly the well-formed UTF-8 sequences of code points up to U+10FFFF, gives their code point and length, "
     "and reports all others as errors or, in the replacing form, as U+FFFD with a length that makes progress and stays inside the text. "
     "Encoding and decoding are inverse for every code point, and the counting and searching algorithms agree with their definitions.",
     ["inputs"],
     "All byte strings and all code points.",
     "Tests try a few sequences per length.",
     ["include/ulight/impl/unicode.hpp", "include/ulight/impl/unicode_algorithm.hpp"],
     mech(("decoding and encoding", "include/ulight/impl/unicode.hpp"), ("algorithms", "include/ulight/impl/unicode_algorithm.hpp")),
     note="Compared with an independent table-driven decoder; every text ends at a guard page.")
prop("T14", "Character classes and identifiers agree with the language standards",
     "Every code point is classified exactly as ASCII, Unicode (XID_Start, XID_Continue) and the language standards prescribe, and the sets "
     "of characters built from ranges contain exactly those characters. In source code, names that start with, continue with "
     "or end in any permitted code point are highlighted whole, and code points that are not permitted are not part of names.",
     ["inputs"],
     "All 1114112 code points x classes x languages.",
     "Tests sample a few code points per class.",
     ["include/ulight/impl/ascii_chars.hpp", "include/ulight/impl/unicode_chars.hpp", "include/ulight/impl/ascii_algorithm.hpp",
      "include/ulight/impl/charset.hpp", "include/ulight/impl/lang"],
     mech(("character sets", "include/ulight/impl/charset.hpp"), ("Unicode ranges", "include/ulight/impl/unicode_chars.hpp")),
     note="Compared with independent tables for Unicode 15.1 generated from another source.")
U = "include/ulight/impl/string_diff.hpp"
prop("T25", "Edit scripts are correct and shortest",
     "For any two sequences of lines, the computed edit script turns the first into the second: it keeps only equal lines, deletes "
     "only lines of the first and inserts only lines of the second, each in order. No script with fewer insertions and deletions "
     "exists, and in each block of changes the deletions come before the insertions. Splitting a text into lines loses nothing.",
     ["inputs"], "All pairs of sequences of lines.",
     "The tests compare a few pairs; minimality is a statement about all other scripts.",
     [U], mech(("alignment table and backtracking", U), ("reordering of each block", U)),
     note="All pairs of sequences up to a length over two, three and five lines; the optimum is found by trying every subset of kept lines.")
prop("T26", "Printed diffs can be applied and show the requested context",
     "Applying the printed hunks to the first text gives the second. Hunk headers carry the true line numbers and counts, hunks are in order and "
     "surrounded by exactly the requested number of unchanged lines (less only at the ends of the text), changes are in one hunk exactly if their contexts "
     "touch or overlap, equal texts print nothing, and colours change nothing but escape sequences.",
     ["inputs", "configurations"], "All pairs of texts x context sizes x colours.",
     "Grouping into hunks depends on distances between changes that a few samples do not cover.",
     [U], mech(("grouping into hunks", U), ("printing of lines", U)),
     note="All pairs of short texts and all patterns of changes over up to nine lines, with contexts from zero to four lines; an independent parser applies the hunks.")
B = "include/ulight/impl/buffer.hpp"
prop("T27", "Output buffers deliver every element once, in order, and never overrun",
     "Whatever the sequence of operations on an output buffer, the flush callback receives every appended element exactly once and in order (except those "
     "discarded by clearing), with the buffer's own memory and a count between one and its capacity, and only when asked for or when a full buffer needs room. "
     "If the callback throws, the buffered elements stay. Nothing outside the buffer's memory is written, and sizes and returned elements are right at every step.",
     ["histories", "faults"], "All sequences of operations x capacities x failures of the callback.",
     "The tests run a few fixed sequences; errors are at particular fill levels.",
     [B, "include/ulight/impl/algorithm/copy.hpp"], mech(("append in chunks", B), ("flush", B)),
     technique="exhaustive exploration of operation histories of the real code",
     note="Every history up to five operations out of eleven for capacities up to four is compared with a list after every step.")
F = "include/ulight/function_ref.hpp"
prop("T28", "Callback references call what they were bound to",
     "A callback reference calls exactly the function or object it was last bound to, with the arguments and the result passed on unchanged (references, "
     "move-only values and exceptions included), and is empty exactly if it was never bound. Copies refer to the same object, and references to "
     "functions do not depend on the lifetime of the expression they were made from.",
     ["histories"], "All sequences of binding, copying, resetting and calling x kinds of callables x signatures.",
     "Tests call a few fixed combinations once.",
     [F, "include/ulight/const.hpp"], mech(("choice of what to bind to", F), ("invocation", F)),
     technique="exhaustive exploration of operation histories of the real code",
     note="Every history up to four operations over three references and eleven callables, for the four kinds of signatures.")
I = "include/ulight/impl/io.hpp"
prop("T29", "Owned files are closed exactly once",
     "Through any sequence of constructing, moving, assigning, swapping, releasing, closing and destroying owners, every opened file is closed exactly "
     "once, unless it is released, and never while an owner still refers to it. Owners that were moved from, released or closed are empty.",
     ["histories"], "All sequences of operations on any number of owners.",
     "No test uses the owners other than by opening one file and destroying it.",
     [I], mech(("ownership", I)),
     technique="exhaustive exploration of operation histories of the real code",
     note="Every history up to four operations on two owners, up to three operations on three and five on one; closing is intercepted.")
prop("T30", "Loading a file gives its exact content or an error",
     "Loading a file gives exactly its bytes, whatever their number and however many the system delivers per read, appended to what the caller's container holds. It reports an "
     "error, and never a partial content as success, if the file cannot be opened, if a read fails, or if the content is not valid in the requested encoding. The file with exactly "
     "the given path is opened, once, and always closed.",
     ["inputs", "faults"], "All contents x sizes of reads x failing reads x paths.",
     "Tests load two small files without errors.",
     ["src/main/cpp/io.cpp", I], mech(("reading in blocks", "src/main/cpp/io.cpp"), ("validation", "src/main/cpp/io.cpp")),
     technique="exhaustive fault injection on the real code",
     note="Contents around multiples of the block size with characters across the boundary, six read sizes, every failing read up to twelve, paths around the limit; streams are scripted.")
prop("T31", "The command-line program succeeds only with complete output",
     "The program exits with status zero only if the complete HTML that the library gives for the input file was written to the output. In every other case (wrong "
     "arguments, unknown language, unreadable, invalid or failing input, output that cannot be opened or written, also at the very end) it exits with another status and prints a message; "
     "nothing is written if the input is at fault.",
     ["inputs", "faults"], "All inputs x failing reads and writes x arguments.",
     "The program has no tests.",
     ["src/main/cpp/main.cpp", "src/main/cpp/io.cpp"], mech(("exit status", "src/main/cpp/main.cpp"), ("writing", "src/main/cpp/main.cpp")),
     technique="exhaustive fault injection on the real code",
     note="The program's main function runs in a process of its own for every source, target and fault position; streams are scripted.")
prop("T24", "Numbers are highlighted as the grammar of the language divides them",
     "Every number of a language, wherever it may appear, is highlighted as exactly one number: its digits as number, separators, radix point and exponent sign as delimiters, base "
     "prefix and suffix as decoration, never as an error or as part of the neighbouring code, which is highlighted as for any other number. Text that is not a number (no digits after a "
     "base prefix or exponent, misplaced digit separators) is not highlighted as one in full.",
     ["inputs"], "All numbers of all languages x contexts.",
     "Tests have a few dozen numbers per language; bases, separators, exponents, suffixes and neighbours combine freely.",
     ["include/ulight/impl/numbers.hpp", "src/main/cpp/parse_utils.cpp"] + [L + f + ".cpp" for f in "python java kotlin rust js lua cpp llvm nasm css yaml cowel".split()],
     mech(("common number matcher", "src/main/cpp/parse_utils.cpp"), ("options per language", L + "*.cpp")),
     note="Grammars written from the language references, with the expected highlight of every character; every number up to seven (thorough: eight) symbols in every context.")

prop("T37", "String literals end where the language says, with exact escapes",
     "Every string or character literal of a language, wherever it may appear, is highlighted from its prefix to its closing quote and no further: prefixes, quotes, ordinary characters, "
     "escape sequences and interpolations each with their own type. An escape sequence has exactly the characters that the language gives it; a malformed one never hides the closing quote. "
     "A literal without an end stops at the end of its line if the language has no multi-line literals of its kind, and the code around any literal is highlighted as around any other.",
     ["inputs"], "All string and character literals of sixteen languages x contexts.",
     "A misjudged quote turns the rest of a document inside out; escapes, prefixes, quotes and line ends combine freely, tests have a handful of each.",
     ["include/ulight/impl/escapes.hpp"] + [L + f + ".cpp" for f in "python java kotlin rust js lua cpp llvm nasm css yaml bash ebnf xml html".split()],
     mech(("common escapes", "include/ulight/impl/escapes.hpp"), ("string matchers per language", L + "*.cpp")),
     note="Grammars written from the language references, with the expected highlight of every character; every literal up to a number of symbols (six or more) in every context.")

prop("T38", "Comments start and end exactly where the language says",
     "Every comment of a language, wherever it may appear, is highlighted from its delimiter to its end and no further: the delimiters as such, everything between as comment text, whatever it contains. "
     "Line comments reach to the end of the line, block comments to the first closing delimiter, or to the matching one in languages whose comments nest, and to the end of the document if it is missing. "
     "The code in front of a comment and behind it is highlighted as with any other comment in its place.",
     ["inputs"], "All comments of eighteen languages x contexts.",
     "A comment that ends too late swallows code, one that ends too early makes prose look like code; quotes, delimiters, escapes and line ends inside comments combine freely.",
     [L + f + ".cpp" for f in "js cpp java kotlin rust json llvm css python lua bash yaml nasm ebnf html xml cowel".split()],
     mech(("comment matchers per language", L + "*.cpp"), ("HTML and XML comments", L + "html.cpp")),
     note="TeX comments and comments on NASM preprocessor lines are not highlighted by design and not covered; EBNF comments are covered without nesting.")

LANGS_WORDS = [L + f + ".cpp" for f in "python java kotlin rust js lua cpp llvm nasm yaml".split()]
prop("T23", "Words are keywords exactly where the language says",
     "A word is highlighted as a keyword, type, literal or other special word exactly if it is, in full, in the language's list of such words, with the kind the list gives it, wherever it may appear; words "
     "that only begin, end or nearly agree with a listed one, or differ in case where case matters, are ordinary names. The strict option removes exactly the extensions from the list. Every word "
     "is one token, and the code around it is highlighted as around any other name.",
     ["inputs", "configurations"], "All words x contexts x languages x strict flag.",
     "Tests contain each keyword at most once and hardly any near miss; tables searched by bisection or length fail on particular neighbours only.",
     LANGS_WORDS,
     mech(("keyword tables and lookups", L + "*.cpp")),
     note="Eleven languages; every word of up to three (thorough: four) characters, and every listed word with every single (thorough: double) change, all pairs of listed words joined, and long words, in all contexts.")
prop("T39", "Operators and punctuation are divided by the longest match",
     "A run of symbols is divided, from left to right, into the longest operators and punctuation marks that the language has, each highlighted as one token with its own type; characters that are no symbols of the language "
     "are marked one by one. This holds for every run and between any two neighbours, which are highlighted as they are around any other symbol.",
     ["inputs"], "All runs of symbols x contexts x languages.",
     "Tests try each operator on its own; a wrong length shows only when a particular symbol follows.",
     LANGS_WORDS, mech(("operator matchers", L + "*.cpp")),
     note="Ten languages; every run of up to four of all symbols and of up to six of the ambiguous ones (thorough: one more), and long runs of all pairs, compared with a maximal-munch reference.")
ALL_LANGS = [L + f + ".cpp" for f in "bash cowel cpp css diff ebnf html java js json kotlin llvm lua markdown nasm python rust tex xml yaml".split()]
prop("T35", "Complete pieces of code are highlighted the same wherever they appear",
     "In a document made of complete pieces (tokens, comments, literals, elements, rules or lines, depending on the language) that are properly separated, every piece is highlighted exactly as it is on its own, "
     "token by token, whatever pieces precede and follow it and however many there are. No piece leaves anything behind that affects a later one.",
     ["inputs", "histories"], "All sequences of pieces x separators x languages.",
     "State that leaks from one construct to a later one shows only for particular pairs and triples; tests have few such documents.",
     ALL_LANGS, mech(("state of the highlighters", L + "*.cpp")),
     note="Twenty-five languages with fifteen to fifty pieces each; all sequences of up to three (thorough: four) pieces with all separators, and long alternations of all pairs.")
prop("T40", "Line endings do not affect highlighting",
     "A document with CRLF line endings is highlighted exactly like the same document with LF line endings: all characters other than the line endings get the same types, and tokens begin at the same characters. "
     "This includes line ends after backslashes and within literals, comments, block scalars, directives and markup.",
     ["inputs"], "All documents x languages.",
     "Nearly all test files have LF line endings only.",
     ALL_LANGS, mech(("matching of line ends", L + "*.cpp")),
     note="All sequences of up to three (thorough: four) pieces, among them all kinds that contain or end at line ends. Bash is covered except for a backslash at the end of a line, which is different for the shell.")
prop("T41", "Slashes in JavaScript and TypeScript are told apart",
     "In JavaScript and TypeScript, a slash is a division operator after an operand, the beginning of a comment if a slash or star follows, and the delimiter of a regular expression literal where an operand is expected and the literal ends on the same line; "
     "comments and line ends make no difference. A regular expression ends at the first slash that is neither escaped nor within a class, its flags included. Code within template literals follows the same rules.",
     ["inputs"], "All programs x the two languages.",
     "Whether a slash divides depends on everything before it; one wrong decision inverts code and literals for the rest of the line.",
     [L + "js.cpp"], mech(("regular expressions", L + "js.cpp"), ("operand or operator position", L + "js.cpp")),
     note="All strings over nine alphabets up to six to eight symbols (thorough: one more), compared with a reference. After a closing brace or parenthesis, which only a parser could decide, a slash is taken as a division.")
prop("T21", "Grammars, TeX, diffs and plain text are divided exactly as documented",
     "Every EBNF document is divided into rule names, references, numbers, symbols, strings, comments and special sequences as ISO 14977 (with the documented relaxations) says; every TeX or LaTeX document into commands, escapes, groups and special characters; "
     "every line of a diff is one token of the kind its first characters give; plain text has no tokens. Nothing else is highlighted.",
     ["inputs"], "All documents of the five languages.",
     "These languages have one to four test files each.",
     [L + f + ".cpp" for f in "ebnf tex diff".split()] + ["src/main/cpp/parse_utils.cpp"],
     mech(("EBNF", L + "ebnf.cpp"), ("TeX", L + "tex.cpp"), ("diffs", L + "diff.cpp")),
     note="Complete reference highlighters; all strings over eleven alphabets up to three to seven symbols (thorough: one more), and long texts around the sizes of buffers, compared token by token.")
prop("T43", "Markdown is divided into blocks and inline parts as CommonMark says",
     "In every Markdown document, headings, list markers, quotes, fenced and indented code, thematic breaks and comments begin and end where CommonMark says, line by line. "
     "In their text, code spans, emphasis, links, images, automatic links, references and escapes are highlighted as such; what only resembles them is not, and nothing else is.",
     ["inputs"], "All Markdown documents.",
     "Whether a character is a mark depends on the characters before it in its line and on what is open before the line; tests have a few documents.",
     [L + "markdown.cpp"], mech(("Markdown", L + "markdown.cpp")),
     note="A complete reference highlighter for the parts that CommonMark determines within a line (documents with other combinations are left out), on all strings over fifteen alphabets up to three to seven symbols (thorough: one more).")
prop("T44", "CSS is divided into selectors, at-rules, declarations and values as its syntax says",
     "In every CSS text, selectors, at-rules, properties and values are told apart by the blocks and semicolons around them, however the blocks are nested. "
     "Names, numbers with units, colors, functions, strings, comments, escapes and symbols are divided as CSS Syntax Level 3 says and highlighted according to where they are.",
     ["inputs"], "All CSS texts.",
     "The role of a name depends on all blocks around it, and its extent on hyphens, escapes and non-ASCII characters; tests have a few style sheets.",
     [L + "css.cpp"], mech(("CSS", L + "css.cpp")),
     note="A complete reference highlighter (texts that are no valid CSS in ways that the highlighter need not recover from are left out), on all strings over eleven alphabets up to three to seven symbols (thorough: one more).")
prop("T45", "COWEL markup is divided into text, directives, arguments and splices",
     "In every COWEL document, directives with their groups of arguments and blocks, strings, expressions in splices, escapes and comments begin and end where the grammar says, however they are nested; text around and within them is not highlighted. "
     "Names, values and operators in arguments and expressions are highlighted by their place; a line splice ends with its line.",
     ["inputs"], "All COWEL documents.",
     "Whether a character is text, a delimiter or an operator depends on everything that is open around it; tests have some thirty small documents.",
     [L + "cowel.cpp"], mech(("COWEL", L + "cowel.cpp")),
     note="A complete reference highlighter (documents with errors in arguments and expressions are left out), on all strings over twelve alphabets up to three to seven symbols (thorough: one more).")
prop("T46", "YAML documents are divided into keys, values and indicators",
     "In every well-formed YAML document, keys, scalars of all styles, entry and collection indicators, tags, anchors, aliases, directives, document markers and comments are highlighted from their first to their last character as what YAML 1.2 makes them, and nothing else is highlighted. "
     "A plain scalar is a number, boolean or null only as a whole, and ends at a comma or bracket only within brackets; a block scalar lasts as long as its indentation.",
     ["inputs"], "All YAML documents.",
     "What a character is depends on the indentation, on the brackets around it, on blanks next to it and on how the line began; tests have seven documents in the most common style.",
     [L + "yaml.cpp"], mech(("YAML", L + "yaml.cpp")),
     note="A complete reference reader of YAML 1.2 (texts that are no YAML are left out), on all strings over thirteen alphabets up to three to seven symbols (thorough: one more).")
prop("T22", "Scripts, style sheets and raw text in HTML are highlighted as on their own",
     "The text of a script or style element in HTML gets exactly the tokens that JavaScript or CSS give it on its own, and the text of textarea and title elements only character references. It reaches to the element's own end tag, in any letter case, and nothing in it affects "
     "the markup around it. This holds for any amount of text and any size of the caller's buffer.",
     ["inputs", "configurations"], "All texts of elements x documents around them x sizes of buffers.",
     "Tests have a few short scripts; the nested tokens pass a buffer of their own, whose limits no test reaches, and end tags have many near misses.",
     [L + "html.cpp", "include/ulight/impl/highlighter.hpp"], mech(("nested languages", "include/ulight/impl/highlighter.hpp"), ("ends of raw text", L + "html.cpp")),
     note="All texts up to four (thorough: five) of eighteen symbols, contexts, sequences of elements and up to 20000 nested tokens around the buffers' capacities; an independent search for the end tag, and the nested language's own tokens as reference.")
prop("T17", "Names with a special role are highlighted in that role as a whole",
     "A preprocessing directive, header name, annotation, attribute, lifetime, label, macro invocation, raw or quoted identifier, sigil-prefixed name, tag, anchor or alias that the language allows at a place is highlighted in that role from its first "
     "to its last character, with its delimiters as such. The same characters in a place or form where they have no such role (a spliced line, a comparison, another kind of name) are not highlighted in it, and the code around is not affected.",
     ["inputs"], "All such names of nine languages x contexts.",
     "What may be part of such a name, and what turns it into something else (a spliced line end, \"!=\" after a name, a quote after an \"r#\"), are combinations; tests have one or two names of each kind.",
     [L + f + ".cpp" for f in "cpp rust java kotlin llvm nasm yaml lua cowel".split()], mech(("directives", L + "cpp.cpp"), ("macros, lifetimes and raw identifiers", L + "rust.cpp"), ("tags and anchors", L + "yaml.cpp")),
     note="Thirty-three reference grammars, all texts up to four to nine symbols, in up to eleven contexts; texts of arbitrary ASCII characters up to four; long repetitions.")

prop("T19", "Words of shell commands are told apart by their place",
     "In Bash, the first word of every simple command is highlighted as the command, words that begin with a hyphen as options, other words as arguments, and parameters, quoted and escaped characters within words as what they are. "
     "A command starts at the beginning, after a control operator, at a new line and inside a substitution, and nothing else; redirections, quotes and comments do not change what the next word is.",
     ["inputs"], "All Bash commands x contexts.",
     "The role of a word depends on everything between it and the start of its command; tests have some thirty commands.",
     [L + "bash.cpp"], mech(("word roles", L + "bash.cpp"),),
     note="Reference grammars for lists of commands, words, parameters and background commands, all texts up to five to seven symbols, in up to ten contexts. That the word after a single \"&\" is an argument is a recorded finding (an existing test requires it).")

prop("T20", "Every part of XML and HTML markup is recognized for what it is",
     "In well-formed XML and HTML documents, every start tag, end tag, attribute with its value, character or entity reference, CDATA section, processing instruction, XML declaration, document type declaration and (in XML) markup declaration is highlighted as such, "
     "each of its names, keywords, delimiters and values with the proper highlight; all other text is not highlighted. Whatever is allowed inside quotes, sections and instructions does not end them, and nothing affects the markup that follows.",
     ["inputs"], "All documents of the two languages.",
     "There are about ten test files for the two; optional white space, absent parts and markup characters in values multiply.",
     [L + f + ".cpp" for f in "xml html".split()], mech(("tags and attributes", L + "xml.cpp"), ("tags, references and raw text", L + "html.cpp")),
     note="Twenty-two reference grammars, all texts up to six to eighteen symbols, in up to eight contexts; texts of arbitrary ASCII characters up to four; long repetitions; all sequences of up to four (thorough: five) of sixteen to eighteen pieces. "
          "XML names with hyphens are left out (a recorded deviation of the identifier check).")

prop("T33", "The web wrapper gives the same results as the library and leaks nothing",
     "Through the JavaScript interface, every text gives exactly the HTML that the library generates for it, and the lookups and lists agree with the library's, whatever was called before and whenever the memory grows. "
     "If an allocation fails or the library reports an error, that is thrown and reported as such. After every call, successful or not, all memory is free again and the next call works.",
     ["inputs", "histories", "fault_sequences"], "All texts and languages x all sequences of calls x all points of memory growth or allocation failure.",
     "The repository has no tests of the wrapper; views of grown memory, characters split between chunks and failures need particular sizes and moments.",
     ["www/js/ulight.js", "src/main/wasm/f_i32_i32_i32_to_void.wasm", "src/main/cpp/ulight.cpp", "include/ulight/ulight.h"], mech(("wrapper", "www/js/ulight.js"), ("text output", "src/main/cpp/ulight.cpp")),
     note="The library is compiled to WebAssembly with a small runtime of its own in place of emscripten's (an allocator that counts, grows the memory and fails on demand); the unchanged wrapper and callback module run over it in node.")

prop("T32", "Compiled themes style exactly what the theme says",
     "For every theme, the generated style sheet gives each highlight type, code and code block the declarations of the theme for the variant that applies (more special types override more general ones, palette references are resolved), and nothing else; that holds for every option and for directories of themes. "
     "A theme with an unknown variant or type, an empty value, a reference that leads nowhere or a styled background is rejected with a message and without output. The style sheet of the site is what its themes say.",
     ["inputs", "configurations"], "All themes x options x contexts of the code.",
     "The repository has no tests of the theme compiler; which rule wins depends on pairs of types, variants and options.",
     ["scripts/theme-to-css.cjs", "www/css/theme.css", "include/ulight/ulight.hpp"], mech(("theme compiler", "scripts/theme-to-css.cjs")),
     note="The unchanged script runs in node on real files, with a stand-in for the package yargs, which is not installed. The style sheet is parsed, and the cascade is evaluated for elements of every type in every context.")
prop("T42", "The live editor shows the current text and keeps what the user chose",
     "After every user action, the editor shows exactly the text, highlighted in the chosen language, with its line numbers and output, even when nothing can be stored. Tab, Shift+Tab and Enter indent, unindent and continue the line of the cursor, and the selection stays at the same characters. "
     "Text, language, theme, orientation and division of the page are the same after the page is loaded again, whatever was done before.",
     ["inputs", "histories", "faults"], "All texts and selections x all sequences of actions and page loads x failures of the storage.",
     "The repository has no tests of the editor; wrong cursors and lost settings need particular positions and histories.",
     ["www/js/live_edit.js", "www/js/live_edit_core.js", "www/index.html", "www/js/ulight.js"], mech(("editing and highlighting", "www/js/live_edit.js"), ("kept settings", "www/js/live_edit_core.js")),
     note="The unchanged document and scripts run in node over a small model of a page (elements, text area, selection lists, events, storage) and the library compiled to WebAssembly; the model of the editor is compared after every step.")
prop("T34", "The work grows in proportion to the length of the text",
     "For every language, a text with twice as many repetitions of the same parts takes about twice as much work to highlight, and never four times as much. "
     "That holds wherever the repeated parts are, whatever comes before and after them, and whether or not what they begin ever ends. "
     "The stack that is needed grows only with constructs that are nested in each other, not with the number of those that follow one another.",
     ["inputs"], "All languages x repeated parts x texts around them.",
     "Quadratic work is invisible in small tests and shows in the right output; it takes particular constructs that do not end.",
     LANGS, mech(("highlighters", L + "html.cpp"), ("dispatch", "include/ulight/impl/highlight.hpp")),
     note="Exact counts, not times: the executed basic blocks of the instrumented library, the bytes handled by memory functions, and the depth of the stack (for units without unclosed brackets and quotes). All lexemes, pairs and (small alphabet) triples as the repeated unit, with all lexemes and contexts before or after, and all nestings of lexeme pairs. "
          "Nine recorded findings concern long lines in cowel and Markdown, regular expressions and JSX in JavaScript and TypeScript; units that these concern are explored line by line.")
