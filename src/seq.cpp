// Documents made of complete pieces: each piece is highlighted as it is on its own, whatever precedes and follows it.
#include "lexref.hpp"
#include <functional>

using namespace vx;

namespace {

struct Pieces {
    std::string name;
    int lang;
    std::vector<std::string> items;
    std::vector<std::string> separators;
    bool touching = false; // pieces with closed ends may touch
    std::string before = ""; // text in front of all
    int quick = 3, thorough = 4;
};

std::string type_name(unsigned t)
{
    if (!t) return ".";
    const auto n = ulight_highlight_type_long_string(ulight_highlight_type(t));
    return std::string(n.text, n.length);
}

/// Whether two pieces without anything between them are still two pieces in every language.
bool may_touch(const std::string& a, const std::string& b)
{
    const auto closed = [](char c) { return c == ')' || c == ']' || c == ',' || c == ';' || c == '\n'; };
    const auto closing = [](char c) { return c == ')' || c == ']' || c == ',' || c == ';'; };
    if (a.back() == ';' && b.front() == ';') return false; // one token in Kotlin
    return closed(a.back()) || closing(b.front());
}

const std::vector<std::string> c_items { "a", "abc_1", "int", "return", "true", "0", "12", "0x1F", "1.5e3f", "017ul", "\"s\"", "\"\\n\\\"\"", "'c'", "'\\''", "/* c */", "/**/", "/** d */",
    "// l\n", "/// d\n", "// l\\\nm\n", "{", "}", "(", ")", "[", "]", ";", ",", "+", "++", "->", "<<=", "...", "==", "&&", "?", ":", "L\"x\"", "u8\"y\"", "\xc3\xa4" };

std::vector<std::string> with(std::vector<std::string> a, const std::vector<std::string>& b, const std::vector<std::string>& without = {})
{
    a.insert(a.end(), b.begin(), b.end());
    std::erase_if(a, [&](const std::string& s) { return std::find(without.begin(), without.end(), s) != without.end(); });
    return a;
}

std::vector<Pieces> piece_lists()
{
    std::vector<Pieces> r;
    const std::vector<std::string> spaces { " ", "\n", "\t", "\r\n" };
    r.push_back({ "C", ULIGHT_LANG_C, c_items, spaces, true });
    r.push_back({ "C++", ULIGHT_LANG_CPP, with(c_items, { "class", "this", "nullptr", "R\"(r\"\\)\"", "R\"x(r)\")x\"", "1'000", "0b1", "::", "<=>", "\"s\"_u", "1_km" }), spaces, true });
    r.push_back({ "Java", ULIGHT_LANG_JAVA,
        { "a", "abc_1", "int", "return", "this", "true", "null", "0", "12", "0x1F", "1.5e3f", "1_000L", "\"s\"", "\"\\n\\\"\"", "\"\"\"\nt \"\n\"\"\"", "'c'", "'\\''", "/* c */", "/**/", "/** d */",
            "// l\n", "{", "}", "(", ")", "[", "]", ";", ",", "+", "++", "->", ">>>=", "...", "==", "::", "?", ":", "\xc3\xa4", "@A" },
        spaces, true });
    r.push_back({ "Kotlin", ULIGHT_LANG_KOTLIN,
        { "a", "abc_1", "`a b`", "val", "return", "this", "true", "null", "0", "12", "0x1F", "1.5e3f", "1_000L", "\"s\"", "\"\\n\\\"\"", "\"$a ${b} c\"", "\"\"\"t \" $a\n\"\"\"", "'c'", "'\\''", "/* c */",
            "/* /* */ */", "// l\n", "{}", "{ a }", "(", ")", "[", "]", ";", ",", "+", "++", "->", "?:", "..<", "==", "::", "?", ":", "\xc3\xa4", "!is", "!in" },
        spaces, true });
    r.push_back({ "Rust", ULIGHT_LANG_RUST,
        { "a", "abc_1", "r#type", "let", "return", "self", "true", "u8", "0", "12", "0x1F", "1.5e3f64", "1_000", "\"s\"", "\"\\n\\\"\"", "r#\"r\"\"#", "b\"b\"", "c\"c\"", "'c'", "'\\''", "b'c'", "'life", "/* c */",
            "/* /* */ */", "/** d */", "// l\n", "/// d\n", "{", "}", "(", ")", "[", "]", ";", ",", "+", "->", "=>", "..=", "<<=", "==", "::", "?", ":", "\xc3\xa4", "'_" },
        spaces, true });
    for (bool typed : { false, true })
        r.push_back({ typed ? "TypeScript" : "JavaScript", typed ? ULIGHT_LANG_TYPESCRIPT : ULIGHT_LANG_JAVASCRIPT,
            { "a", "abc_1", "$x", "let", "return", "this", "true", "null", "0", "12", "0x1F", "1.5e3", "1_000n", "\"s\"", "'s'", "\"\\n\\\"\"", "`t`", "`a${b}c`", "`a${`b${c}`}`", "`${{}}`", "/* c */", "/**/",
                "/** d */", "// l\n", "(", ")", "[", "]", ";", ",", "+", "++", "=>", ">>>=", "...", "===", "&&", "?.", "??", "\xc3\xa4", "#p" },
            spaces, true });
    r.push_back({ "Python", ULIGHT_LANG_PYTHON,
        { "a", "abc_1", "def", "return", "True", "None", "0", "12", "0x1F", "1.5e3", "1_000", "2j", "\"s\"", "'s'", "\"\\n\\\"\"", "\"\"\"t\n\" \"\"\"", "'''u\n' '''", "r'r'", "b'b'", "rb\"x\"", "f'a'", "# c\n", "(",
            ")", "[", "]", "{", "}", ";", ",", "+", "**=", "->", ":=", "//", "==", "...", "@", ":", "\xc3\xa4" },
        spaces, true });
    r.push_back({ "Lua", ULIGHT_LANG_LUA,
        { "a", "abc_1", "local", "return", "true", "nil", "0", "12", "0x1F", "1.5e3", "0x.8p1", "\"s\"", "'s'", "\"\\n\\\"\"", "[[l\n]]", "[==[l]]\n]==]", "--[[c]]", "--[=[c]]]=]", "-- l\n", "{", "}", "(", ")", ";",
            ",", "+", "..", "...", "//", "~=", "==", "::", "#" },
        spaces, true });
    r.push_back({ "LLVM", ULIGHT_LANG_LLVM,
        { "%a", "@b", "%0", "@\"q r\"", "!0", "!md", "#1", "$c", "i32", "float", "ret", "add", "true", "null", "0", "12", "-5", "1.5e3", "0x1F", "0xK00", "\"s\"", "c\"x\\00\"", "; l\n", "(", ")", "[", "]", "{", "}", ",",
            "=", "...", "label:", "x" },
        { " ", "\n", "\t", "\r\n" }, true });
    r.push_back({ "EBNF", ULIGHT_LANG_EBNF, { "a = b;", "r-s = \"t\";", "a = 's', b | c;", "a b = {c};", "a = [b];", "a = (b | c);", "a = \"'\", '\"';", "(* c *)", "(* \" *)", "a = ;", "a = 2 * b;", "a = b - c;", "a = b.", "a = ;;", "a = (* c *) b;" },
        spaces, false });
    r.push_back({ "CSS", ULIGHT_LANG_CSS,
        { "a{}", "a{b:c}", "#id{color:#fff}", ".cls>b{width:1.5px}", "/* c */", "/* } */", "@media print{a{b:c;}}", "@import 'x';", "@import url(x);", "a::before{content:\"}\"}", "a[b='c']{d:e}", "a:not(.b){c:d !important}",
            "a,b c{d:calc(1px + 2%)}", "*{--x:y;}", "a{b:url(x;y)}", "a{b:'\\''}", "@font-face{src:url(\"x\")}", "<!--", "-->", "@charset \"x\";" },
        { " ", "\n", "", "\r\n" }, false });
    r.push_back({ "XML", ULIGHT_LANG_XML,
        { "text", "<a>", "</a>", "<a/>", "<a b='c'>", "<a b=\"c &amp; d\"/>", "<!-- c -->", "<!-- > - -->", "<![CDATA[ <a> ]] ]]>", "<?pi x?>", "&amp;", "&#65;", "&#x41;", "<a:b c:d='e'/>", "<a\nb='c'\n>", "x > y" },
        { " ", "\n", "", "\r\n" }, false, "<r>" });
    r.push_back({ "HTML", ULIGHT_LANG_HTML,
        { "text", "<p>", "</p>", "<br>", "<br/>", "<a b='c'>", "<a b=c>", "<a b>", "<a b=\"c &amp; d\">", "<!-- c -->", "<!-- > - -->", "&amp;", "&#65;", "&#x41;", "<!doctype html>", "<script></script>", "<script>let a = \"b\";</script>",
            "<style></style>", "<style>a{b:c}</style>", "<textarea><b></textarea>", "<title>a &lt; b</title>", "<script>/* c */</script>", "<SCRIPT>if(a){}</SCRIPT>", "x > y", "<style>/*</style>", "<script>'</script>" },
        { " ", "\n", "", "\r\n" }, false });
    r.push_back({ "diff", ULIGHT_LANG_DIFF,
        { "--- a", "+++ b", "@@ -1 +1 @@", "@@ -1,2 +3,4 @@ f", " c", "-d", "+i", "diff --git a b", "index 1..2", "\\ No newline", "***", "", "--", "++", "*** a", "! c", "# c", "- ", "+ ", "=== b", "< d", "> i" }, { "\n", "\r\n" }, false });
    for (bool latex : { false, true })
        r.push_back({ latex ? "LaTeX" : "TeX", latex ? ULIGHT_LANG_LATEX : ULIGHT_LANG_TEX,
            { "text", "\\a", "\\abc", "\\%", "\\\\", "{", "}", "[", "]", "$x$", "$$y$$", "\\begin{a}", "\\end{a}", "&", "~", "^", "_", "#1", "% c\n", "\\{", "\\$", "1.5", "\\a{b}", "\\a[b]{c}", "(", ")" }, spaces, false });
    r.push_back({ "plain text", ULIGHT_LANG_TXT, { "a", "\\", "\"", "{", "}", "1", "<a>", "/*", "#", "\xc3\xa4", "true" }, { " ", "\n", "", "\r\n" }, false });
    r.push_back({ "cowel", ULIGHT_LANG_COWEL,
        { "text", "\\a", "\\abc{}", "\\a{b}", "\\a(b=c){d}", "\\a(b, c = \"d\")", "\\a(1, true){x}", "\\\\", "\\{", "\\}", "\\: l\n", "\\* c *\\", "a, b = c", "(x)", "\\a{\\b{\\c{}}}", "\\a(b = (c, d))", "1.5", "\"q\"", "\xc3\xa4", "\\a(b={c{}})" },
        { " ", "\n", "\r\n" }, false });
    r.push_back({ "Bash", ULIGHT_LANG_BASH,
        { "echo a", "echo \"a $b c\"", "echo 'a $b'", "# c", "a=1", "echo $(b c)", "echo ${a:-b}", "if true", "fi", "echo a | b", "a && b || c", "echo a; b", "echo > x 2>&1", "echo \\\" \\'", "echo \"$(a \"b\")\"", "echo $((1+2))",
            "echo -n --opt", "echo `a`", "(a)", "{ a; }", "echo \"a\nb\"", "echo a \\\n  b", "[ -f a ]", "[[ a == b ]]", "echo ${#a}", "echo $1 $@ $?", "echo a#b", "" },
        { "\n", "\n\n" }, false });
    r.push_back({ "NASM", ULIGHT_LANG_NASM,
        { "mov eax, 1", "label:", "label: ret", "jmp label", "; c", "mov [eax + 4], dword 0x1F", "db 'a', \"b\", `c\\n`", "%define a b", "%macro x 1", "%endmacro", "section .text", "x equ 1 + 2", "times 5 db 0", "global _a", "push 0b1", "mov eax, 1 %define x", "label: %b", "db 1 ; %c", "%d ; e",
            "mov al, 1fh", "call [rel f]", "nop ; c", ".local:", "", "add eax, ebx\\\n" },
        { "\n", "\r\n" }, false });
    r.back().items.pop_back();
    r.push_back({ "YAML", ULIGHT_LANG_YAML,
        { "a: b", "c: 1", "d: true", "e:", "f: 'x: y'", "g: \"\\n#\"", "h: [1, 'b', {c: d}]", "i: {a: 1, b: [c]}", "# c", "j: k # c", "l: !!str m", "n: &o p", "q: *o", "\"r\": s", "'t': u", "? v", "w: |\n  x\n  y", "z: >-\n  a", "b:\n  c: d\n  e: f", "---", "...", "k: 1.5e3",
            "a b: c d", "n: null" },
        { "\n" }, false });
    r.push_back({ "YAML sequences", ULIGHT_LANG_YAML,
        { "- b", "- 1", "- true", "-", "- 'x: y'", "- \"\\n#\"", "- [1, 'b']", "- {a: 1}", "# c", "- k # c", "- !!str m", "- &o p", "- *o", "- a: b", "- a: b\n  c: d", "- |\n  x\n  y", "- - a", "- >\n  a", "- null" }, { "\n" }, false });
    r.push_back({ "Markdown", ULIGHT_LANG_MARKDOWN,
        { "text", "*a*", "**b**", "***c***", "`code`", "``a`b``", "# H", "###### H", "[l](u)", "![i](u)", "- a", "* a", "+ a", "1. a", "> q", "---", "***", "```\ncode *x*\n```", "~~~\ncode\n~~~", "a\nb", "<b>", "\\*a\\*", "a_b_c", "~~s~~", "    code", "&amp;", "H\n=" },
        { "\n\n", "\n\n\n", "\r\n\r\n" }, false });
    r.push_back({ "JSON with comments", ULIGHT_LANG_JSONC,
        { "{},", "[],", "[1, 2],", "{\"a\": 1},", "\"s\",", "\"\\n\\u0041\",", "1,", "-1.5e3,", "true,", "false,", "null,", "/* c */", "// l\n", "[[{}]],", "{\"a\": [1, {}], \"b\": \"\"}," }, spaces, true, "[" });
    return r;
}

struct Alone {
    std::vector<unsigned> types;
    std::vector<bool> begins;
};

void sequences_of(Ctx& x, const Pieces& g)
{
    x.set_family(g.name);
    std::vector<Alone> alone;
    for (const auto& s : g.items) {
        Alone a;
        std::string e;
        a.types = types_of(g.lang, g.before + s, 0, &e, &a.begins);
        a.types.erase(a.types.begin(), a.types.begin() + long(g.before.size()));
        a.begins.erase(a.begins.begin(), a.begins.begin() + long(g.before.size()));
        alone.push_back(a);
    }
    std::string text;
    std::vector<unsigned> want;
    std::vector<bool> begins;
    const auto add = [&](const Alone& a, const std::string& s) {
        text += s;
        want.insert(want.end(), a.types.begin(), a.types.end());
        begins.insert(begins.end(), a.begins.begin(), a.begins.begin() + long(s.size()));
    };
    const auto separate = [&](const std::string& s) {
        text += s;
        want.resize(text.size(), 0);
        begins.resize(text.size(), false);
    };
    const auto cut = [&](std::size_t n) {
        text.resize(n);
        want.resize(n);
        begins.resize(n);
    };
    const auto check = [&] {
        std::string e;
        std::vector<bool> have;
        auto got = types_of(g.lang, g.before + text, 0, &e, &have);
        got.erase(got.begin(), got.begin() + long(g.before.size()));
        have.erase(have.begin(), have.begin() + long(g.before.size()));
        have.resize(text.size());
        if (e.empty() && got == want && have == begins) return;
        std::size_t k = 0;
        while (k < text.size() && got[k] == want[k] && have[k] == begins[k]) ++k;
        x.fail("sequence/" + g.name, "at " + std::to_string(k) + " expected " + type_name(want[k]) + (begins[k] ? " (begin)" : "") + ": got " + type_name(got[k]) + (have[k] ? " (begin)" : "") + e);
    };
    const auto label = [&] { return g.name + " " + text; };
    const auto walk = [&](auto&& me, std::size_t last, int depth, int limit) -> void {
        const std::size_t n = text.size();
        for (std::size_t i = 0; i < g.items.size(); ++i)
            for (std::size_t k = 0; k <= g.separators.size(); ++k) {
                if (depth == 0 && k) break;
                if (depth) {
                    if (k == g.separators.size() && (!g.touching || !may_touch(g.items[last], g.items[i]))) continue;
                    if (k < g.separators.size()) separate(g.separators[k]);
                }
                add(alone[i], g.items[i]);
                // The first two pieces decide which worker runs the rest.
                bool mine = true;
                if (depth == 1 && x.only.empty()) mine = x.counter++ % std::uint64_t(x.workers) == std::uint64_t(x.worker);
                if (mine) {
                    if (depth ? x.enter(label()) : x.begin(label())) {
                        check();
                        if (depth) x.nontrivial();
                    }
                    if (depth + 1 < limit) me(me, i, depth + 1, limit);
                }
                cut(n);
            }
    };
    walk(walk, 0, 0, x.thorough ? g.thorough : g.quick);
    x.set_family(g.name + ", long");
    for (std::size_t a = 0; a < g.items.size(); ++a)
        for (std::size_t b = 0; b < g.items.size(); ++b)
            for (const auto& s : g.separators)
                for (std::size_t n : { 8, 9, 64, 65, 300 }) {
                    for (std::size_t i = 0; i < n; ++i) {
                        if (i) separate(s);
                        const std::size_t k = i % 2 ? b : a;
                        add(alone[k], g.items[k]);
                    }
                    if (x.begin(g.name + " " + g.items[a] + " / " + g.items[b] + " / " + s + " x " + std::to_string(n))) {
                        check();
                        x.nontrivial();
                    }
                    cut(0);
                }
}

void sequences(Ctx& x)
{
    for (const auto& g : piece_lists()) sequences_of(x, g);
}

// ------------------------------------------------------------------------------------------------ line endings

/// Pieces that depend on where lines end.
std::vector<std::string> line_items(int lang)
{
    switch (lang) {
    case ULIGHT_LANG_C:
    case ULIGHT_LANG_CPP:
        return { "\n#define a b\n", "\n#define a \\\n b\n", "\n#include <a>\n", "\n#include \"a\"", "\n#if 1 // c\n", "\"a\\\nb\"", "\"a\n", "'a\n", "// l \\\n m\n", "/* a\nb */", "/* a", "\n # define a /* b\nc */ d\n", "\\\n", "%:define x\n" };
    case ULIGHT_LANG_JAVA: return { "\"a\n", "'a\n", "\"\"\"\na\n\"\"\"", "\"\"\" a", "/* a\nb */", "/** a\n * b\n */", "// a" };
    case ULIGHT_LANG_KOTLIN: return { "\"a\n", "'a\n", "\"\"\"\na\n\"\"\"", "\"\"\" a", "/* a\nb */", "\"${a\n}\"", "// a", "`a\n" };
    case ULIGHT_LANG_RUST: return { "\"a\nb\"", "\"a\\\n  b\"", "r\"a\n\"", "b\"a\n", "'a\n", "/* a\nb */", "//! a", "#!x\n", "#[a]" };
    case ULIGHT_LANG_JAVASCRIPT:
    case ULIGHT_LANG_TYPESCRIPT: return { "\"a\n", "'a\\\nb'", "`a\nb`", "`a\\\nb`", "`${\n}`", "/* a\nb */", "// a", "/a\n", "#!x", "<a\nb='c'>\nd</a>" };
    case ULIGHT_LANG_PYTHON: return { "\"a\n", "'a\\\nb'", "\"\"\"a\n\"\"\"", "r'a\\\nb'", "\\\n", "b'a\n", "f'{a\n}'", "# a", "\n  @a\n" };
    case ULIGHT_LANG_LUA: return { "\"a\n", "'a\\\nb'", "'a\\z\n  b'", "[[a\nb]]", "[==[\n]==]", "--[[a\nb]]", "-- a", "--[==[a" };
    case ULIGHT_LANG_LLVM: return { "\"a\nb\"", "; a", "\nlabel:\n", "c\"a\n\"", "@\"a\n\"" };
    case ULIGHT_LANG_EBNF: return { "(* a\nb *)", "\"a\nb\"", "'a\n", "a\nb = c;", "? a\nb ?" };
    case ULIGHT_LANG_CSS: return { "a{b:'c\\\nd'}", "a{b:'c\n}", "/* a\nb */", "a\n{\nb\n:\nc\n}", "@a\nb;", "a{b:url(\nx\n)}" };
    case ULIGHT_LANG_XML:
    case ULIGHT_LANG_HTML: return { "<a\nb\n=\n'c'\n>", "<a b=c\nd=e>", "<!-- a\nb -->", "<script>\n// a\n</script>", "<style>\na\n{}</style>", "<textarea\n>\n</textarea\n>", "&a\n", "a='b\nc'", "<!doctype\nhtml>", "<![CDATA[\n]]>", "<?a\nb?>", "<a b='\nc'>" };
    case ULIGHT_LANG_DIFF: return { "@@\n", "\n\n", "-a\n+", "--- a\n+++ b\n@@ -1 +1 @@\n-c\n+d" };
    case ULIGHT_LANG_TEX:
    case ULIGHT_LANG_LATEX: return { "% a", "\\a\n", "\\\n", "$a\nb$", "{\n}", "\\begin{verbatim}\n\\a\n\\end{verbatim}", "\\a\n[b]" };
    case ULIGHT_LANG_COWEL: return { "\\: a\\\n", "\\a(\nb\n=\nc\n)", "\\a(\"b\nc\")", "\\* a\nb *\\", "\\a{\n}", "\\\n", "\\a\n{b}", "\\a(// b\n)", "\\a(\\: b\n)", "\\a(\\* b\n *\\ c)" };
    case ULIGHT_LANG_BASH: return { "echo 'a\nb'", "echo \"a\nb\"", "echo $(a\nb)", "cat <<E\na\nE", "if a\nthen b\nfi", "a |\nb", "\necho ${a\n}", "(a\nb)", "# a\\\nb" };
    case ULIGHT_LANG_NASM: return { "%define a \\\n b", "mov a, \\\n b", "db 'a\n", "; a\\\nb", "db `a\\\n`", "a\nb:", "db \"a\n" };
    case ULIGHT_LANG_YAML: return { "a: |\n  b\n\n  c", "a: >+\n  b\n\n", "a: |2-\n   b", "a: \"b\n  c\"", "a: \"b\\\n  c\"", "a: 'b\n\n  c'", "a: b\n  c", "a: [b,\n  c\n]", "a: {b:\n c}", "? a\n: b", "- a\n- b", "a:\n- b", "a: !!b\n  c", "a: &b\n  c: d", "a: | # b\n  c", "a:", "--- b", "%A b\n---" };
    case ULIGHT_LANG_MARKDOWN: return { "a  \nb", "a\\\nb", "- a\n  b", "```a\nb\n```", "> a\n> b", "# a", "a\n===", "`a\nb`", "*a\nb*", "[a\nb](c)", "[a]: b\n 'c'", "    a\n    b", "<p>\na\n</p>", "~~~\na", "1. a\n2. b", "- a\n\n  b", "***\na" };
    case ULIGHT_LANG_JSONC: return { "{\n\"a\"\n:\n1\n},", "\"a\n\",", "// a", "/* a\nb */", "[\n],", "\"a\\\n\"," };
    default: return {};
    }
}

void endings_of(Ctx& x, const Pieces& g)
{
    std::vector<std::string> items = g.items;
    for (const auto& s : line_items(g.lang)) items.push_back(s);
    // In Bash, a backslash only escapes the CR.
    if (g.lang == ULIGHT_LANG_BASH) std::erase_if(items, [](const std::string& s) { return s.find("\\\n") != std::string::npos; });
    std::vector<std::string> separators { "\n", "\n\n" };
    if (std::find(g.separators.begin(), g.separators.end(), " ") != g.separators.end()) separators.push_back(" ");
    std::string text;
    const auto check = [&] {
        std::string crlf;
        std::vector<std::size_t> at; // place of every byte of the text in crlf
        const std::string lf = g.before + text;
        for (char c : lf) {
            if (c == '\n') crlf += '\r';
            at.push_back(crlf.size());
            crlf += c;
        }
        std::string e;
        std::vector<bool> begins, begins2;
        const auto a = types_of(g.lang, lf, 0, &e, &begins);
        const auto b = types_of(g.lang, crlf, 0, &e, &begins2);
        for (std::size_t i = 0; i < lf.size(); ++i) {
            const std::size_t k = at[i];
            bool good = a[i] == b[k] || lf[i] == '\n';
            if (lf[i] == '\n') {
                good = b[k] == a[i] || b[k] == 0;
            }
            else good &= begins[i] == begins2[k] || (i > 0 && lf[i - 1] == '\n');
            if (!good || !e.empty()) {
                x.fail("line-ending/" + g.name, "at " + std::to_string(i) + " with LF " + type_name(a[i]) + ", with CRLF " + type_name(b[k]) + " (CR " + (k ? type_name(b[k - 1]) : "") + ")" + e);
                return;
            }
        }
    };
    const auto label = [&] { return g.name + " " + text; };
    const auto walk = [&](auto&& me, std::size_t last, int depth, int limit) -> void {
        const std::size_t n = text.size();
        for (std::size_t i = 0; i < items.size(); ++i)
            for (std::size_t k = 0; k < (depth ? separators.size() : 1); ++k) {
                if (depth) text += separators[k];
                text += items[i];
                bool mine = true;
                if (depth == 1 && x.only.empty()) mine = x.counter++ % std::uint64_t(x.workers) == std::uint64_t(x.worker);
                if (mine) {
                    if (depth ? x.enter(label()) : x.begin(label())) {
                        check();
                        if (text.find('\n') != std::string::npos) x.nontrivial();
                    }
                    if (depth + 1 < limit) me(me, i, depth + 1, limit);
                }
                text.resize(n);
            }
    };
    x.set_family(g.name);
    walk(walk, 0, 0, x.thorough ? 4 : 3);
}

void endings(Ctx& x)
{
    for (const auto& g : piece_lists()) endings_of(x, g);
}

// ------------------------------------------------------------------------------------------------------ slashes

/// Divides JavaScript code without strings and angle brackets as the specification does.
struct Script {
    std::string s;
    bool typed;
    std::vector<unsigned> types;
    bool operand = true; // whether an operand, and so a regular expression, can begin here
    std::size_t i = 0;

    static bool name_part(char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '$' || c == '_'; }
    bool at(const char* t) const { return s.compare(i, std::strlen(t), t) == 0; }
    bool line_end(std::size_t k) const { return s[k] == '\n' || s[k] == '\r' || s.compare(k, 3, "\xe2\x80\xa8") == 0; }
    void put(std::size_t n, unsigned t)
    {
        for (std::size_t k = 0; k < n; ++k) types[i + k] = t;
        i += n;
    }
    std::size_t regex_length() const // without the slashes; 0: none
    {
        bool in_class = false;
        for (std::size_t k = i + 1; k < s.size(); ++k) {
            if (line_end(k)) return 0;
            if (s[k] == '\\') {
                if (++k >= s.size() || line_end(k)) return 0;
            }
            else if (in_class) in_class = s[k] != ']';
            else if (s[k] == '[') in_class = true;
            else if (s[k] == '/') return k - i - 1;
        }
        return 0;
    }
    void comment(bool line)
    {
        std::size_t end = s.size(), delim = 0;
        if (line) {
            for (end = i; end < s.size() && !line_end(end); ++end) { }
        }
        else if (const auto k = s.find("*/", i + 2); k != std::string::npos) {
            end = k;
            delim = 2;
        }
        put(2, ULIGHT_HL_COMMENT_DELIM);
        put(end - i, ULIGHT_HL_COMMENT);
        put(delim, ULIGHT_HL_COMMENT_DELIM);
    }
    void templ()
    {
        put(1, ULIGHT_HL_STRING_DELIM);
        while (i < s.size()) {
            if (s[i] == '`') {
                put(1, ULIGHT_HL_STRING_DELIM);
                operand = false;
                return;
            }
            if (at("${")) {
                put(2, ULIGHT_HL_STRING_INTERPOLATION_DELIM);
                operand = true;
                code(true);
                if (i < s.size()) put(1, ULIGHT_HL_STRING_INTERPOLATION_DELIM);
            }
            else put(1, ULIGHT_HL_STRING);
        }
    }
    void code(bool nested)
    {
        int level = 0;
        while (i < s.size()) {
            const char c = s[i];
            if (c == ' ' || c == '\n') ++i;
            else if (line_end(i)) i += 3;
            else if (at("//") || at("/*")) comment(s[i + 1] == '/');
            else if (c == '`') templ();
            else if (c == '/' && operand && regex_length()) {
                const std::size_t n = regex_length();
                put(1, ULIGHT_HL_STRING_DELIM);
                put(n, ULIGHT_HL_STRING);
                put(1, ULIGHT_HL_STRING_DELIM);
                std::size_t k = i;
                while (k < s.size() && name_part(s[k])) ++k;
                put(k - i, ULIGHT_HL_STRING_DECOR);
                operand = false;
            }
            else if (c >= '0' && c <= '9') {
                put(1, ULIGHT_HL_NUMBER);
                operand = false;
            }
            else if (name_part(c)) {
                std::size_t k = i;
                while (k < s.size() && name_part(s[k])) ++k;
                const std::string w = s.substr(i, k - i);
                static const std::map<std::string, std::pair<unsigned, bool>> words { { "return", { ULIGHT_HL_KEYWORD_CONTROL, true } }, { "case", { ULIGHT_HL_KEYWORD_CONTROL, true } },
                    { "typeof", { ULIGHT_HL_KEYWORD, true } }, { "in", { ULIGHT_HL_KEYWORD, true } }, { "this", { ULIGHT_HL_KEYWORD_THIS, false } }, { "null", { ULIGHT_HL_NULL, false } },
                    { "void", { ULIGHT_HL_KEYWORD, true } }, { "else", { ULIGHT_HL_KEYWORD_CONTROL, true } }, { "true", { ULIGHT_HL_BOOL, false } }, { "super", { ULIGHT_HL_KEYWORD_THIS, false } },
                    { "throw", { ULIGHT_HL_KEYWORD_CONTROL, true } }, { "new", { ULIGHT_HL_KEYWORD, true } }, { "do", { ULIGHT_HL_KEYWORD_CONTROL, true } }, { "yield", { ULIGHT_HL_KEYWORD, true } },
                    { "await", { ULIGHT_HL_KEYWORD, true } }, { "delete", { ULIGHT_HL_KEYWORD, true } }, { "instanceof", { ULIGHT_HL_KEYWORD, true } } };
                const auto it = words.find(w);
                put(k - i, it == words.end() ? unsigned(ULIGHT_HL_NAME) : it->second.first);
                operand = it != words.end() && it->second.second;
            }
            else if (c == '(') put(1, ULIGHT_HL_SYMBOL_PARENS), operand = true;
            else if (c == ')') put(1, ULIGHT_HL_SYMBOL_PARENS), operand = false;
            else if (c == '[') put(1, ULIGHT_HL_SYMBOL_SQUARE), operand = true;
            else if (c == ']') put(1, ULIGHT_HL_SYMBOL_SQUARE), operand = false;
            else if (c == '{') ++level, put(1, ULIGHT_HL_SYMBOL_BRACE), operand = true;
            else if (c == '}') {
                if (--level < 0 && nested) return;
                put(1, ULIGHT_HL_SYMBOL_BRACE);
                operand = false;
            }
            else if (c == ';' || c == ',') put(1, ULIGHT_HL_SYMBOL_PUNC), operand = true;
            else {
                std::size_t n = 0;
                for (const char* o : { "**=", "===", "&&=", "**", "*=", "/=", "+=", "++", "==", "&&", "&=", "?.", "??", "*", "/", "+", "=", "&", "?", ":", "!" })
                    if (at(o)) {
                        n = std::strlen(o);
                        break;
                    }
                operand = !at("++");
                if (n) put(n, ULIGHT_HL_SYMBOL_OP);
                else put(1, ULIGHT_HL_ERROR), operand = true;
            }
        }
    }
    void run()
    {
        types.assign(s.size(), 0);
        code(false);
    }
};

void slashes(Ctx& x)
{
    struct Space {
        const char* name;
        std::vector<std::string> symbols;
        std::vector<std::string> prefixes;
        int quick, thorough;
    };
    const std::vector<Space> spaces {
        { "regular expressions", { "a", "\\", "/", "[", "]", "\n", "*", " " }, { "", "a", "a=" }, 7, 8 },
        { "separators", { "a", "/", "(", ")", "\xe2\x80\xa8", "\\", "=", "1" }, { "" }, 7, 8 },
        { "operators", { "a", "/", "+", "=", "*", " ", "\n" }, { "", "a" }, 8, 9 },
        { "templates", { "a", "/", "`", "${", "{", "}", " ", ")" }, { "", "a", "`${" }, 7, 8 },
        { "punctuation", { "a", "/", ";", ",", "?", ":", "!", "&", "}" }, { "", "a" }, 6, 7 },
        { "words", { " ", "/", "a", "return", "this", "typeof", "in", "null", "[", "\n" }, { "" }, 6, 7 },
        { "more words", { " ", "/", "case", "void", "else", "true", "super", "throw", "new", "a" }, { "" }, 6, 7 },
        { "other words", { " ", "/", "do", "await", "delete", "instanceof", "a", "returns", "dot" }, { "" }, 6, 7 },
        { "comments", { "a", "/", "/*", "*/", "//", "\n", " ", "+", ")", "]" }, { "", "a" }, 6, 7 },
    };
    for (const bool typed : { false, true })
        for (const auto& sp : spaces) {
            x.set_family(std::string(typed ? "TypeScript" : "JavaScript") + ", " + sp.name);
            std::string text;
            const auto check = [&] {
                for (const auto& p : sp.prefixes) {
                    Script ref { p + text, typed, {} };
                    ref.run();
                    std::string e;
                    if (&p != &sp.prefixes[0]) x.bulk(1);
                    const auto got = types_of(typed ? ULIGHT_LANG_TYPESCRIPT : ULIGHT_LANG_JAVASCRIPT, ref.s, 0, &e);
                    if (got != ref.types || !e.empty()) {
                        std::size_t k = 0;
                        while (k < got.size() && got[k] == ref.types[k]) ++k;
                        x.fail(std::string("slash/") + sp.name, "after " + printable(p) + " at " + std::to_string(k) + " expected " + (k < got.size() ? type_name(ref.types[k]) + ", got " + type_name(got[k]) : "") + e);
                        break;
                    }
                }
                if (text.find('/') != std::string::npos) x.nontrivial();
            };
            const auto rec = [&](auto&& me, int left) -> void {
                if (!text.empty()) {
                    if (x.begin((typed ? "ts " : "js ") + text)) check();
                }
                if (!left) return;
                for (const auto& a : sp.symbols) {
                    const std::size_t n = text.size();
                    text += a;
                    me(me, left - 1);
                    text.resize(n);
                }
            };
            rec(rec, (x.thorough ? sp.thorough : sp.quick) - (typed ? 1 : 0));
        }
}

} // namespace

int main(int argc, char** argv)
{
    return mini_main(argc, argv, { { "sequences", sequences }, { "line-endings", endings }, { "slashes", slashes } });
}
