"""Which jobs decide which property, and how binaries are built."""

PROFILES = {
    "dbg": {"flags": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"]},
    "rel": {"flags": ["-O2", "-g1", "-DNDEBUG"]},
    "asan": {"flags": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
                       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]},
    "sched": {"flags": ["-O1", "-g1"]},
}

BINARIES = {
    "explore": {"sources": ["explore.cpp"]},
    "api": {"sources": ["api.cpp"]},
    "sched": {"sources": ["sched.cpp"], "lib_flags": ["-fsanitize=thread"], "lib_first": True,
              "libs": ["-pthread"] + ["-Wl,--wrap=" + f for f in (
                  "memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
                  "pthread_mutex_lock", "pthread_mutex_unlock")]},
    "json": {"sources": ["json.cpp"]},
    "faults": {"sources": ["faults.cpp"]},
    "text": {"sources": ["text.cpp"]},
    "util": {"sources": ["util.cpp"]},
    "lexis": {"sources": ["lexis.cpp"]},
    "names": {"sources": ["names.cpp"]},
    "markup": {"sources": ["markup.cpp"]},
    "words": {"sources": ["words.cpp"]},
    "seq": {"sources": ["seq.cpp"]},
    "doc": {"sources": ["doc.cpp"]},
    "work": {"sources": ["work.cpp"], "lib_flags": ["-fsanitize-coverage=trace-pc", "-fno-optimize-sibling-calls"],
             "libs": ["-Wl,--wrap=" + f for f in ("memchr", "memcmp", "memmove")]},
    "wasmgen": {"sources": ["wasmgen.cpp"]},
    "types": {"sources": ["types.cpp"]},
    "io": {"sources": ["io.cpp"], "repo_sources": ["src/main/cpp/main.cpp"], "repo_source_flags": ["-Dmain=vx_cli_main"],
           "libs": ["-Wl,--wrap=fopen", "-Wl,--wrap=fclose"]},
}

FAMILY_RULE = (
    "Per language: every byte string up to a length, every sequence of curated lexemes up to a depth, every "
    "construct opener followed by such sequences, every pair over curated and extracted lexemes, every window, "
    "prefix and single edit of the sample documents, and long repetitions. Duplicates are removed. ")


def explore(check, profile, **kw):
    return dict(bin="explore", profile=profile, check=check, data=True, **kw)


JSON_RULE = ("All sequences of JSON lexemes up to a depth, all short byte strings, all pairs of bytes in contexts, numbers, escapes, "
             "white space and edits of documents. ")

PROPS = {
    "T01": dict(level="exploration", rule=FAMILY_RULE + "Non-trivial: the input produced at least two tokens.",
                jobs=[explore("totality", "dbg"), explore("totality", "rel", thorough_only=True)]),
    "T02": dict(level="exploration", rule=FAMILY_RULE + "Non-trivial: the input produced at least two tokens.",
                jobs=[explore("wellformed", "rel")]),
    "T03": dict(level="exploration",
                rule="A multi-byte code point inserted at, or replacing the code point at, every position of lexeme "
                     "sequences, construct openers and sample documents. Non-trivial: valid UTF-8 input with a "
                     "multi-byte code point.",
                jobs=[explore("boundary", "rel")]),
    "T04": dict(level="exploration", rule=FAMILY_RULE + "Each input is run with seven token buffer capacities. "
                "Non-trivial: the input produced at least two tokens.", jobs=[explore("capacity", "rel")]),
    "T05": dict(level="exploration", rule=FAMILY_RULE + "Non-trivial: merging changes the token list.",
                jobs=[explore("coalesce", "rel")]),
    "T06": dict(level="exploration", rule=FAMILY_RULE + "Each input is run with five buffer and naming configurations. "
                "Non-trivial: the input produced a token.", jobs=[explore("html", "rel")]),
    "T07": dict(level="exploration", rule="Every combination of valid and invalid values of the state's members. Non-trivial: a "
                "configuration without any error.", jobs=[dict(bin="api", profile="rel", check="config")]),
    "T08": dict(level="exploration", rule="For every source of the list, every allocation up to a bound fails alone or together with all "
                "later ones. Non-trivial: the call allocates.",
                jobs=[dict(bin="faults", profile="dbg", check="alloc", data=True)]),
    "T09": dict(level="exploration", rule="All sequences of operations up to a depth. Non-trivial: all.",
                jobs=[dict(bin="faults", profile="rel", check="reuse", data=True)]),
    "T36": dict(level="exploration", rule="For every source of the list, every flush up to a bound and the last ones throw, with four "
                "kinds of exception. Non-trivial: the call flushes.",
                jobs=[dict(bin="faults", profile="rel", check="throwing", data=True)]),
    "T10": dict(level="exploration", rule="For every pair of calls, all schedules with up to two preemptions at the scheduling points (flush "
                "callbacks and conflicting accesses to writable globals), and every nesting of one call in a flush of the other. Non-trivial: all.",
                jobs=[dict(bin="sched", profile="sched", check="interleave", data=True)]),
    "T11": dict(level="exploration", rule="All strings up to a length over the relevant characters, all single edits of registered "
                "names, and paths made of them. Non-trivial: the lookup succeeds.",
                jobs=[dict(bin="api", profile="rel", check="registry")]),
    "T12": dict(level="exploration", rule="All 256 type values. Non-trivial: documented types.",
                jobs=[dict(bin="api", profile="rel", check="typenames")]),
    "T13": dict(level="exploration", rule="All byte strings of up to three bytes; of four and five bytes with the first two in full and the others at "
                "the class boundaries (in full in the thorough tier); all code points; all short strings of an alphabet for the algorithms. "
                "Non-trivial: valid UTF-8.", jobs=[dict(bin="text", profile="dbg", check="utf8")]),
    "T14": dict(level="exploration", rule="All code points, as arguments of the classification functions and inside identifiers of every "
                "language; all ranges of characters. Non-trivial: code points that can be part of an identifier.",
                jobs=[dict(bin="text", profile="rel", check="classes")]),
    "T15": dict(level="exploration", rule=JSON_RULE + "Non-trivial: (text, options) accepted.",
                jobs=[dict(bin="json", profile="dbg", check="accept"), dict(bin="json", profile="rel", check="accept", thorough_only=True)]),
    "T16": dict(level="exploration", rule=JSON_RULE + "Non-trivial: more than one event.",
                jobs=[dict(bin="json", profile="dbg", check="events")]),
    "T18": dict(level="exploration", rule=JSON_RULE + "Non-trivial: valid text with more than one token.",
                jobs=[dict(bin="json", profile="rel", check="tokens")]),
    "T25": dict(level="exploration", rule="All pairs of sequences up to a length over small sets of lines. Non-trivial: the script keeps, "
                "deletes and inserts.", jobs=[dict(bin="util", profile="dbg", check="edits"),
                                              dict(bin="util", profile="asan", check="edits", thorough_only=True)]),
    "T26": dict(level="exploration", rule="All pairs of short sequences of lines and all patterns of changes, with every context size. Non-trivial: "
                "the texts differ.", jobs=[dict(bin="util", profile="dbg", check="diffs"),
                                           dict(bin="util", profile="asan", check="diffs", thorough_only=True)]),
    "T27": dict(level="exploration", rule="All sequences of operations up to a depth. Non-trivial: something is flushed.",
                jobs=[dict(bin="util", profile="dbg", check="buffer")]),
    "T28": dict(level="exploration", rule="All sequences of operations up to a depth. Non-trivial: something is bound.",
                jobs=[dict(bin="util", profile="rel", check="function-ref"),
                      dict(bin="util", profile="asan", check="function-ref", thorough_only=True)]),
    "T29": dict(level="exploration", rule="All sequences of operations up to a depth. Non-trivial: a file is opened.",
                jobs=[dict(bin="io", profile="rel", check="owner")]),
    "T30": dict(level="exploration", rule="All contents, read sizes, failing reads and paths of the lists. Non-trivial: more than one read.",
                jobs=[dict(bin="io", profile="dbg", check="loading"), dict(bin="io", profile="asan", check="loading", thorough_only=True)]),
    "T31": dict(level="exploration", rule="All sources, targets and fault positions of the lists. Non-trivial: output or a message is produced.",
                jobs=[dict(bin="io", profile="dbg", check="cli"), dict(bin="io", profile="asan", check="cli", thorough_only=True)]),
    "T24": dict(level="exploration", rule="All numbers up to a length according to reference grammars, in every context of a list, and all strings up to a length over the "
                "same alphabets. Non-trivial: all numbers.", jobs=[dict(bin="lexis", profile="rel", check="numbers"), dict(bin="lexis", profile="dbg", check="numbers", thorough_only=True)]),
    "T37": dict(level="exploration", rule="All string and character literals up to a length according to reference grammars, in every context of a list. Non-trivial: all literals.",
                jobs=[dict(bin="lexis", profile="rel", check="strings"), dict(bin="lexis", profile="dbg", check="strings", thorough_only=True)]),
    "T38": dict(level="exploration", rule="All comments up to a length according to reference grammars, in every context of a list. Non-trivial: all comments.",
                jobs=[dict(bin="lexis", profile="rel", check="comments"), dict(bin="lexis", profile="dbg", check="comments", thorough_only=True)]),
    "T20": dict(level="exploration", rule="All pieces of markup up to a length according to reference grammars, in every context of a list, and all sequences of pieces up to a length. Non-trivial: all.",
                jobs=[dict(bin="markup", profile="rel", check="markup"), dict(bin="markup", profile="dbg", check="markup", thorough_only=True)]),
    "T17": dict(level="exploration", rule="All names with a special role up to a length according to reference grammars, in every context of a list. Non-trivial: all.",
                jobs=[dict(bin="names", profile="rel", check="names"), dict(bin="names", profile="dbg", check="names", thorough_only=True)]),
    "T19": dict(level="exploration", rule="All commands up to a length according to reference grammars, in every context of a list. Non-trivial: all.",
                jobs=[dict(bin="names", profile="rel", check="commands"), dict(bin="names", profile="dbg", check="commands", thorough_only=True)]),
    "T32": dict(level="exploration", rule="All types with all kinds of values, all pairs and chains of types, all small palettes, options, and sets of files; each result is evaluated for every type in every context. Non-trivial: the style sheet is not empty, or the theme is to be rejected.",
                jobs=[dict(script="theme/run.py", check="themes")]),
    "T42": dict(level="exploration", rule="All short texts, selections and keys, all sessions of a few actions with every page load, everything stored, and a full storage. Non-trivial: the action was compared with the model.",
                jobs=[dict(script="editor/run.py", check="editor")]),
    "T33": dict(level="exploration", rule="All texts of the families, all sequences of calls up to a length, memory growth and failure at each allocation. Non-trivial: texts with tokens, histories.",
                jobs=[dict(script="wasm/run.py", check="wrapper")]),
    "T34": dict(level="exploration", rule="All repeated units up to a number of lexemes, with everything of a list before or after. Non-trivial: all.",
                jobs=[dict(bin="work", profile="rel", check="growth", data=True)]),
    "T23": dict(level="exploration", rule="All short words, all words near the listed ones, and long ones, in every context of a list. Non-trivial: listed words.",
                jobs=[dict(bin="words", profile="rel", check="keywords"), dict(bin="words", profile="dbg", check="keywords", thorough_only=True)]),
    "T39": dict(level="exploration", rule="All runs of symbols up to a length, in every context of a list. Non-trivial: all.",
                jobs=[dict(bin="words", profile="rel", check="operators"), dict(bin="words", profile="dbg", check="operators", thorough_only=True)]),
    "T35": dict(level="exploration", rule="All sequences of pieces up to a length with all separators. Non-trivial: more than one piece.",
                jobs=[dict(bin="seq", profile="rel", check="sequences"), dict(bin="seq", profile="dbg", check="sequences", thorough_only=True)]),
    "T40": dict(level="exploration", rule="All sequences of pieces up to a length. Non-trivial: the text has a line end.",
                jobs=[dict(bin="seq", profile="rel", check="line-endings"), dict(bin="seq", profile="dbg", check="line-endings", thorough_only=True)]),
    "T41": dict(level="exploration", rule="All strings of symbols up to a length. Non-trivial: the text has a slash.",
                jobs=[dict(bin="seq", profile="rel", check="slashes"), dict(bin="seq", profile="dbg", check="slashes", thorough_only=True)]),
    "T21": dict(level="exploration", rule="All strings of symbols up to a length. Non-trivial: more than one token is expected.",
                jobs=[dict(bin="doc", profile="rel", check="plain"), dict(bin="doc", profile="dbg", check="plain", thorough_only=True)]),
    "T43": dict(level="exploration", rule="All strings of symbols up to a length, except those whose structure the reference leaves open. Non-trivial: more than one token is expected.",
                jobs=[dict(bin="doc", profile="rel", check="markdown"), dict(bin="doc", profile="dbg", check="markdown", thorough_only=True)]),
    "T44": dict(level="exploration", rule="All strings of symbols up to a length, except those whose structure the reference leaves open. Non-trivial: more than one token is expected.",
                jobs=[dict(bin="doc", profile="rel", check="css"), dict(bin="doc", profile="dbg", check="css", thorough_only=True)]),
    "T45": dict(level="exploration", rule="All strings of symbols up to a length, except those whose structure the reference leaves open. Non-trivial: more than one token is expected.",
                jobs=[dict(bin="doc", profile="rel", check="cowel"), dict(bin="doc", profile="dbg", check="cowel", thorough_only=True)]),
    "T46": dict(level="exploration", rule="All strings of symbols up to a length, except those that are no YAML. Non-trivial: more than one token is expected.",
                jobs=[dict(bin="doc", profile="rel", check="yaml"), dict(bin="doc", profile="dbg", check="yaml", thorough_only=True)]),
    "T22": dict(level="exploration", rule="All texts up to a length, in all documents of a list. Non-trivial: all.",
                jobs=[dict(bin="doc", profile="rel", check="nested"), dict(bin="doc", profile="asan", check="nested", thorough_only=True)]),
}
