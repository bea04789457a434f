// Lexical grammars of the languages: every literal up to a length, in every context of a list, against
// reference grammars with the expected highlight of every character.
#include "grammar.hpp"

using namespace vx;

namespace {

std::vector<Grammar> number_grammars()
{
    std::vector<Grammar> r;
    const std::string D = "<n [0-9]>", H = "<n [0-9a-fA-F]>", O = "<n [0-7]>", B = "<n [01]>", U = "<l _>";
    const auto seq = [](const std::string& d, const std::string& sep) { return d + "((" + sep + ")" + d + ")*"; };
    const std::string E = "<l [eE]([+]|-|)>";
    {
        const std::string dp = seq(D, U + "?");
        const auto base = [&](const char* p, const std::string& d) { return "<c 0" + std::string(p) + ">(" + U + "?" + d + ")+"; };
        const std::string expo = "(" + E + dp + ")";
        const std::string lit = "<n 0>(" + U + "?<n 0>)*|<n [1-9]>(" + U + "?" + D + ")*|" + base("[bB]", B) + "|" + base("[oO]", O) + "|" + base("[xX]", H)
            + "|((" + dp + ")?<l .>" + dp + "|" + dp + "<l .>)" + expo + "?<c [jJ]>?|" + dp + expo + "<c [jJ]>?|" + dp + "<c [jJ]>";
        r.push_back({ ULIGHT_LANG_PYTHON, "numbers", lit, "0 1 9 _ . e J x b O + a", 7, 8,
            { { "", "" }, { "x = ", "\n" }, { "(", ")" }, { "[1, ", "]" }, { "1 +", "*2" }, { "if ", " :" }, { "x[", ":3]" }, { "{", "}" } }, "1", "n",
            lit + "|(" + dp + "|" + base("[bB]", B) + "|" + base("[oO]", O) + "|" + base("[xX]", H) + ")<c [jJ]>?", 5, 6, "0 1 8 _ . e J x b O + a" });
    }
    {
        const std::string us = "(" + U + ")*";
        const auto digits = [&](const std::string& d) { return seq(d, us); };
        const std::string d = digits(D), h = digits(H);
        const std::string expo = E + "" + d;
        const std::string sfx = "<c [fFdD]>";
        const std::string integer = "(<n 0>|<n [1-9]>(" + us + D + ")*|<n 0>(" + us + O + ")+|<c 0[xX]>" + h + "|<c 0[bB]>" + digits(B) + ")<c [lL]>?";
        const std::string floating = "(" + d + "<l .>(" + d + ")?|<l .>" + d + ")(" + expo + ")?" + sfx + "?|" + d + expo + sfx + "?|" + d + sfx;
        const std::string hexfloat = "<c 0[xX]>(" + h + "<l .>?|(" + h + ")?<l .>" + h + ")<l [pP]([+]|-|)>" + d + sfx + "?";
        const std::string lit = integer + "|" + floating + "|" + hexfloat;
        const std::string any = "(0[xX](" + h + "(\\.(" + h + ")?)?|\\." + h + ")|0[bB]" + digits(B) + "|" + d + "(\\.(" + d + ")?)?|\\." + d
            + ")([eEpP][+\\-]?" + d + ")?[fFdDlL]?";
        r.push_back({ ULIGHT_LANG_JAVA, "numbers", lit, "0 1 9 _ . e f L x B p - a", 7, 8,
            { { "x = ", ";" }, { "", "" }, { "f(", ")" }, { "{", ",1}" }, { "1+", "*2" }, { "return ", ";" }, { "case ", ":" } }, "1", "n",
            any, 5, 6, "0 1 8 _ . e f L x B p - a", "1.", "<x [0-9](_*[0-9])*\\.([eE]([+]|-|)[0-9](_*[0-9])*)?[fFdD]?|0[xX][0-9a-fA-F](_*[0-9a-fA-F])*\\.[pP]([+]|-|)[0-9](_*[0-9])*[fFdD]?>" });
    }
    {
        const auto digits = [&](const std::string& d) { return seq(d, "(" + U + ")*"); };
        const std::string d = digits(D), expo = E + d;
        const std::string integer = "(<n 0>|<n [1-9]>((" + U + ")*" + D + ")*|<c 0[xX]>" + digits(H) + "|<c 0[bB]>" + digits(B) + ")(<c [uU]L?>|<c L>)?";
        const std::string dbl = "((" + d + ")?<l .>" + d + "(" + expo + ")?|" + d + expo + ")";
        const std::string lit = integer + "|" + dbl + "<c [fF]>?|" + d + "<c [fF]>";
        r.push_back({ ULIGHT_LANG_KOTLIN, "numbers", lit, "0 1 9 _ . e f L u x B - a", 7, 8,
            { { "val x = ", "\n" }, { "", "" }, { "f(", ")" }, { "1+", "*2" }, { "x[", "]" }, { "", "..2" }, { "for (i in ", "..9)" }, { "", ".toString()" } }, "1", "n" });
    }
    {
        const auto digits = [&](const std::string& d) { return "(" + U + ")*" + d + "(" + d + "|" + U + ")*"; };
        const std::string dec = D + "(" + D + "|" + U + ")*";
        const std::string expo = E + digits(D);
        const std::string suffix = "(<c u8|i32|f64|usize|zz>)";
        const std::string lit = "(" + dec + "|<c 0b>" + digits(B) + "|<c 0o>" + digits(O) + "|<c 0x>" + digits(H) + ")" + suffix + "?|" + dec + "<l .>" + dec + "("
            + expo + ")?" + suffix + "?|" + dec + expo + suffix + "?|" + dec + "<l .>";
        r.push_back({ ULIGHT_LANG_RUST, "numbers", lit, "0 1 9 _ . e E+ u8 f64 zz x b o a", 7, 8,
            { { "let x = ", ";" }, { "", "" }, { "f(", ")" }, { "1 +", " * 2" }, { "x[", "]" }, { "[0; ", "]" } }, "1", "n" });
        // In front of a range or a member there is no fraction.
        const std::string noend = "(" + dec + "|<c 0b>" + digits(B) + "|<c 0o>" + digits(O) + "|<c 0x>" + digits(H) + ")" + suffix + "?|" + dec + "<l .>" + dec + "("
            + expo + ")?" + suffix + "?|" + dec + expo + suffix + "?";
        r.push_back({ ULIGHT_LANG_RUST, "numbers before dots", noend, "0 1 _ . e f64 x b a", 6, 7, { { "", "..2" }, { "for i in ", "..=9 {" }, { "x = ", ".foo()" } }, "1",
            "n" });
    }
    for (const int lang : { ULIGHT_LANG_JAVASCRIPT, ULIGHT_LANG_TYPESCRIPT }) {
        const std::string d = seq(D, U + "?");
        const std::string nz = "<n [1-9]>(" + U + "?" + D + ")*";
        const std::string nonoct = "<n 0[0-7]*[89][0-9]*>";
        const std::string di = "(<n 0>|" + nz + "|" + nonoct + ")";
        const std::string expo = E + d;
        const std::string lit = "(<n 0>|" + nz + "|<c 0[bB]>" + seq(B, U + "?") + "|<c 0[oO]>" + seq(O, U + "?") + "|<c 0[xX]>" + seq(H, U + "?") + ")<c n>?|<n 0[0-7]+>|"
            + di + "<l .>(" + d + ")?(" + expo + ")?|<l .>" + d + "(" + expo + ")?|" + di + "(" + expo + ")?";
        r.push_back({ lang, "numbers", lit, "0 1 9 _ . e n x B O - a", 7, 8,
            { { "x = ", ";" }, { "", "" }, { "f(", ")" }, { "[", ", 1]" }, { "1 +", " * 2" }, { "`${", "}`" }, { "if (", " < x)" }, { "({ a: ", " })" } }, "1", "n",
            lit + "|[0-9](_?[0-9])*(<c n>|\\.([0-9](_?[0-9])*)?)?([eE]([+]|-|)[0-9](_?[0-9])*)?", 5, 6, "0 1 8 _ . e n x B O - a" });
    }
    {
        const std::string lit = "<n [0-9]+(\\.[0-9]*)?([eE]([+]|-|)[0-9]+)?|\\.[0-9]+([eE]([+]|-|)[0-9]+)?|0[xX]([0-9a-fA-F]+(\\.[0-9a-fA-F]*)?|\\.[0-9a-fA-F]+)([pP]([+]|-|)[0-9]+)?>";
        r.push_back({ ULIGHT_LANG_LUA, "numbers", lit, "0 1 9 . e E- x X p+ a F", 7, 8,
            { { "x = ", "\n" }, { "", "" }, { "f(", ")" }, { "{", ", 1}" }, { "1 +", " * 2" }, { "t[", "]" } }, "1", "n" });
    }
    for (const int lang : { ULIGHT_LANG_C, ULIGHT_LANG_CPP }) {
        const std::string S = "(<l '>)?";
        const auto digits = [&](const std::string& d) { return seq(d, S); };
        const std::string d = digits(D), h = digits(H);
        const std::string EX = "<l [eE]><n ([+]|-|)[0-9]>(" + S + D + ")*";
        const std::string PX = "<l [pP]><n ([+]|-|)[0-9]>(" + S + D + ")*";
        const std::string isfx = "(<c (u|U)(l|L|ll|LL|z|)|(l|ll|L|LL|z)(u|U|)>)";
        const std::string fsfx = "(<c f|F|l|L>)";
        const std::string lit = "(<n 0>(" + S + O + ")*|<n [1-9]>(" + S + D + ")*|<c 0[xX]>" + h + "|<c 0[bB]>" + digits(B) + ")" + isfx + "?|(" + d + "<l .>(" + d
            + ")?|<l .>" + d + ")(" + EX + ")?" + fsfx + "?|" + d + EX + fsfx + "?|<c 0[xX]>(" + h + "<l .>(" + h + ")?|<l .>" + h + "|" + h + ")" + PX + fsfx + "?";
        r.push_back({ lang, "numbers", lit, "0 1 9 ' . e p f u LL x B - a", 7, 8,
            { { "x = ", ";" }, { "", "" }, { "f(", ")" }, { "{", ", 1}" }, { "1 +", " * 2" }, { "#if ", "\n" }, { "#define X ", "\n" }, { "case ", ":" } }, "1", "n" });
    }
    {
        const std::string lit = "(<n [0-9]>)+|<c -><n [0-9]>+|(<c [+]|->)?<n [0-9]>+<l .><n [0-9]>*(<l [eE]([+]|-|)><n [0-9]>+)?|<c 0x>" + H + "+|<c 0x[KLMHR]>" + H
            + "+|<c [us]0x>" + H + "+";
        r.push_back({ ULIGHT_LANG_LLVM, "numbers", lit, "0 1 9 . e E- - + x a F K L M H R s u", 6, 7,
            { { "add i32 ", ", 1\n" }, { "", "" }, { "  ret i32 ", "\n" }, { "[", " x i8]" } }, "1", "n" });
    }
    {
        const std::string us = "(" + U + ")?";
        const std::string d = seq(D, us);
        const auto pre = [&](const char* p, const std::string& dd) { return "<c " + std::string(p) + ">" + seq(dd, us); };
        const std::string lit = d + "|" + pre("0[xXhH]", H) + "|" + pre("0[dDtT]", D) + "|" + pre("0[oOqQ]", O) + "|" + pre("0[bByY]", B) + "|<n [0-9]>(" + us + H + ")*<c [hHxX]>|"
            + seq(D, us) + "<c [dDtT]>|" + seq(O, us) + "<c [qQoO]>|" + seq(B, us) + "<c [bByY]>|" + d + "<l .>(" + d + ")?(<l [eE]([+]|-|)>" + d + ")?|" + d
            + "<l [eE]([+]|-|)>" + d;
        r.push_back({ ULIGHT_LANG_NASM, "numbers", lit, "0 1 9 _ . e E- x h d o q b a", 6, 7,
            { { "mov eax, ", "\n" }, { "dd ", "\n" }, { "db 1, ", ", 2\n" }, { "add [eax + ", "], 1" } }, "1", "n" });
    }
    {
        const std::string lit = "<n ([+]|-|)([0-9]+|[0-9]*\\.[0-9]+)([eE]([+]|-|)[0-9]+)?>(<c %|px|em|rem|s|vh>)?";
        r.push_back({ ULIGHT_LANG_CSS, "numbers", lit, "0 1 9 . e E- - + px em rem s vh %", 7, 8,
            { { "a{b:", "}" }, { "a{b:c ", ";d:e}" }, { "a{margin:1 ", " 2}" }, { "a{b:f(", ")}" }, { "a{b:f(1,", ")}" }, { "@media (width:", "){}" } }, "1", "n" });
    }
    {
        const std::string lit = "<n ([+]|-)?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE]([+]|-|)[0-9]+)?|0[oO][0-7]+|0[xX][0-9a-fA-F]+|0[bB][01]+|[0-9]+:[0-9]+(:[0-9]+)?>";
        r.push_back({ ULIGHT_LANG_YAML, "numbers", lit, "0 1 9 . e E- - + x o B a :", 6, 7,
            { { "a: ", "\n" }, { "a: ", "" }, { "", "" }, { "- ", "\n- b\n" }, { "{a: ", "}" }, { "[", "]" }, { "a:\n  b: ", " # c\n" } }, "1", "n" });
    }
    {
        const std::string lit = "(<o ->)?((<n [0-9]>)+(<l .>(<n [0-9]>)+)?(" + E + "(<n [0-9]>)+)?|<c 0o>" + O + "+|<c 0x>" + H + "+|<c 0b>" + B + "+)";
        r.push_back({ ULIGHT_LANG_COWEL, "numbers", lit, "0 1 9 . e E- - + x o b a", 6, 7,
            { { "\\f(", ")" }, { "\\f(a = ", ", b)" }, { "\\f(a, ", ")" }, { "\\f((", "))" } }, "1", "n" });
    }
    return r;
}

/// Any number of repetitions of the parts in quotes.
std::string quoted(const std::string& open, const std::vector<std::string>& parts, const std::string& close)
{
    std::string s = open + "(";
    for (std::size_t i = 0; i < parts.size(); ++i) s += (i ? "|" : "") + parts[i];
    return s + ")*" + close;
}

std::vector<Grammar> string_grammars()
{
    std::vector<Grammar> r;
    const std::string h = "[0-9a-fA-F]", DQ = "<q \">", SQ = "<q '>";
    const auto S = [](const std::string& not_these) { return "<s [^" + not_these + "]>"; };
    const auto E = [](const std::string& valid) { return "<e \\\\(" + valid + ")>"; };
    // A backslash with something that makes no escape sequence.
    const auto bad = [](const std::string& not_these) { return "<* \\\\[^" + not_these + "]>"; };
    const auto hex = [&](int n) {
        std::string s;
        while (n--) s += h;
        return s;
    };
    // Hexadecimal escapes with too few digits, in front of something else or of the end.
    const auto few = [&](const std::string& c, int n) {
        std::string s;
        for (int k = 0; k < n; ++k) s += (k ? "|" : "") + ("\\\\" + c + hex(k));
        return "<* (" + s + ")[g-zG-Z][a-zA-Z0-9_]*>";
    };
    const auto few_end = [&](const std::string& c, int n) {
        std::string s;
        for (int k = 0; k < n; ++k) s += (k ? "|" : "") + ("\\\\" + c + hex(k));
        return "<* (" + s + ")?>";
    };
    {
        const std::vector<Context> in { { "x = ", "\ny = 1" }, { "", "" }, { "f(", ", 1)" }, { "{", ": 2}" } };
        const std::string simple = "[abfnrtv\\\\\"'\\n]|[0-7][0-7]?[0-7]?|x" + hex(2);
        const std::string uni = "|N{[A-Z][A-Z \\-]*}|u" + hex(4);
        const auto all = [&](const std::string& escapes, bool unicode, const char* q, bool raw, const std::string& more = "") {
            const std::string nq = q, qq = std::string("<q ") + (q[0] == '"' ? "\"" : "'") + ">";
            const std::string e = raw ? "<s \\\\[^\\n]>|<s \\\\\\n>" : E(escapes) + "|" + bad("abfnrtv\\\\\"'\\n0-7x\r" + std::string(unicode ? "Nu" : "") + "U") + more;
            return qq + "(" + S(nq + "\\\\\\n\\r") + "|" + e + ")*" + qq;
        };
        for (const char* q : { "\"", "'" }) {
            const std::string p = "<p [rR]|[bB][rR]|[rR][bB]|[fF][rR]|[rR][fF]>";
            r.push_back({ ULIGHT_LANG_PYTHON, std::string("strings ") + q, "<p [fFuU]>?" + all(simple + uni, true, q, false) + "|<p [bB]>" + all(simple, false, q, false, "|<* \\\\[Nu]{?[a-zA-Z0-9]*}?>") + "|" + p + all("", false, q, true),
                std::string("a \\\\ \" ' n 4 1 x N{A \\n ") + "b R f u } #", 6, 7, in, std::string(q) + "a" + q, "qsq" });
            const std::string qq = std::string("<q ") + q + q + q + ">";
            const std::string c = std::string("(") + q + "|" + q + q + ")";
            const std::string one = S(std::string(q) + "\\\\") + "|" + E(simple + uni) + "|<* \\\\[qcd ]>";
            r.push_back({ ULIGHT_LANG_PYTHON, std::string("triple-quoted strings ") + q, "<p [fFuU]>?" + qq + "((<s " + c + ">)?(" + one + "))*" + qq, std::string("a \\\\ ") + q + q + q + " " + q + " \\n n 0 f " + (q[0] == '"' ? "'" : "\""), 6, 8,
                in, std::string(q) + q + q + "a" + q + q + q, "qqqsqqq" });
        }
    }
    for (const int lang : { ULIGHT_LANG_JAVASCRIPT, ULIGHT_LANG_TYPESCRIPT }) {
        const std::vector<Context> in { { "x = ", ";\ny = 1" }, { "", "" }, { "f(", ", 1)" }, { "({ a: ", " })" }, { "`${", "}`" } };
        const std::string esc = "[^xu0-7\\n\\r\x80-\xff]|\\n|\\r\\n|[0-3][0-7]?[0-7]?|[4-7][0-7]?|x" + hex(2) + "|u" + hex(4) + "|u{" + h + "+}";
        for (const char* q : { "\"", "'" }) {
            const std::string qq = std::string("<q ") + q + ">";
            r.push_back({ lang, std::string("strings ") + q, qq + "(" + S(std::string(q) + "\\\\\\n\\r") + "|" + E(esc) + "|" + few("x", 2) + "|" + few("u", 4) + ")*(" + few_end("x", 2) + "|" + few_end("u", 4) + ")" + qq,
                "a \\\\ \" ' n 4 1 x u { } \\n \\r\\n $ `", 6, 7, in, std::string(q) + "a" + q, "qsq" });
        }
        const std::string tesc = "[^xu0-7\\n\\r\x80-\xff]|[0-3][0-7]?[0-7]?|[4-7][0-7]?|x" + hex(2) + "|u" + hex(4) + "|u{" + h + "+}";
        const std::string tpl = "<q `>(" + S("`\\\\$") + "|<s $>+" + S("`\\\\${") + "|" + E(tesc) + "|<e \\\\><* \\n>|<s $>*(<j ${>(<v b>)?<j }>))*(<s $>)*<q `>";
        r.push_back({ lang, "templates", tpl, "a \\\\ $ { b } ` n \\n \" '", 6, 7, in, "`a`", "qsq" });
    }
    for (const int lang : { ULIGHT_LANG_C, ULIGHT_LANG_CPP }) {
        const bool cpp = lang == ULIGHT_LANG_CPP;
        const std::vector<Context> in { { "x = ", ";\ny = 1" }, { "", "" }, { "f(", ", 1)" }, { "#define A ", "\n" }, { "{", "}" } };
        const std::string esc = "['\"?\\\\abfnrtv]|[0-7][0-7]?[0-7]?|x" + h + "+|u" + hex(4) + "|U" + hex(8) + (cpp ? "|x{" + h + "+}|o{[0-7]+}|u{" + h + "+}|N{[A-Z][A-Z0-9 \\-]*}" : "");
        for (const char* q : { "\"", "'" }) {
            const std::string qq = std::string("<q ") + q + ">";
            r.push_back({ lang, std::string("strings ") + q,
                std::string("<p u8|u|U|L>?") + qq + "(" + S(std::string(q) + "\\\\\\n\\r") + "|" + E(esc) + "|<s \\\\\\n>|" + few("u", 4) + ")" + (q[0] == '\'' ? "+" : "*" + few_end("u", 4)) + qq + (cpp ? "(<p _a|a>)?" : ""),
                std::string("a \\\\ \" ' n 4 1 x u u8 L") + (cpp ? " { } _a" : "") + " \\n /*", 6, 7, in, std::string(q) + "a" + q, "qsq" });
        }
        if (!cpp) continue;
        const std::string p = "<p (u8|u|U|L)?R>", sfx = "(<p _a|a>)?";
        const std::string raw = "(<s [^)]>|<s \\)+[^)\"]>)*<s \\)*>", raw_d = "(<s [^)]>|<s \\)+(d\\)+)*([^)d]|d[^)\"])>)*<s (\\)+(d\\)+)*d?)?>";
        r.push_back({ lang, "raw strings", p + "<q \"\\(>" + raw + "<q \\)\">" + sfx + "|" + p + "<q \"d\\(>" + raw_d + "<q \\)d\">" + sfx,
            "R \" ( ) d a u8 L _a \\\\ \\n '", 6, 8, in, "R\"(a)\"", "pqqsqq" });
    }
    {
        const std::vector<Context> in { { "x = ", ";\ny = 1" }, { "", "" }, { "f(", ", 1)" }, { "case ", ":" } };
        const std::string esc = "[bstnfr\"'\\\\]|[0-3][0-7]?[0-7]?|[4-7][0-7]?|u" + hex(4);
        for (const char* q : { "\"", "'" }) {
            const std::string qq = std::string("<q ") + q + ">";
            r.push_back({ ULIGHT_LANG_JAVA, std::string("strings ") + q, qq + (q[0] == '"' ? "(" + S(std::string(q) + "\\\\\\n\\r") + "|" + E(esc) + "|" + few("u", 4) + "|<* \\\\[qdz]>)*" + few_end("u", 4) : "(" + S(std::string(q) + "\\\\\\n\\r") + "|" + E(esc) + ")") + qq,
                "a \\\\ \" ' n 4 1 s u q { \\\\{", 6, 7, in, std::string(q) + "a" + q, "qsq" });
        }
    }
    {
        const std::vector<Context> in { { "x = ", ";\ny = 1" }, { "", "" }, { "f(", ", 1)" } };
        const std::string esc = "[bstnfr\"'\\\\\\n]|[0-3][0-7]?[0-7]?|[4-7][0-7]?|u" + hex(4), qqq = "<q \"\"\">";
        r.push_back({ ULIGHT_LANG_JAVA, "text blocks", qqq + "<. [ \\t]*\\n>((<s \"(\"?)>)?(" + S("\"\\\\\\r") + "|" + E(esc) + "|" + few("u", 4) + "|<* \\\\[qdz]>))*" + qqq,
            "a \\\\ \"\"\" \" \\n 1 s { \\s", 6, 7, in, "\"\"\"\na\"\"\"", "qqq.sqqq" });
    }
    {
        const std::vector<Context> in { { "val x = ", "\nval y = 1" }, { "", "" }, { "f(", ", 1)" } };
        const std::string esc = "[tbrn'\"\\\\$]|u" + hex(4);
        r.push_back({ ULIGHT_LANG_KOTLIN, "strings", DQ + "(" + S("\"\\\\\\n\\r$") + "|" + E(esc) + "|" + few("u", 4) + "|<* \\\\[qdz1]>|<i $[a-z][a-zA-Z0-9]*>|<j ${>(<v b>)?<j }>)*" + few_end("u", 4) + DQ, "a \\\\ \" ' n 1 u $ { } ${ b", 6, 7, in, "\"a\"",
            "qsq" });
        r.push_back({ ULIGHT_LANG_KOTLIN, "characters", SQ + "(" + S("'\\\\\\n\\r") + "|" + E(esc) + "|" + few("u", 4) + "|<* \\\\[qdz1]>)" + SQ, "a \\\\ \" ' n 1 u $ { }", 6, 7, in, "'a'", "qsq" });
    }
    {
        const std::vector<Context> in { { "val x = ", "\nval y = 1" }, { "", "" }, { "f(", ", 1)" } };
        const std::string qqq = "<q \"\"\">";
        r.push_back({ ULIGHT_LANG_KOTLIN, "multi-line strings", qqq + "((<s \"(\"?)>)?(" + S("\"$\\r") + "|<i $[a-z][a-zA-Z0-9]*>|<j ${>(<v b>)?<j }>|<* $>(<s [^\"$\\ra-zA-Z_{`\x80-\xff]>)))*<s \"*>" + qqq,
            "a \\\\ \"\"\" \" \\n 1 $ ${ b }", 6, 7, in, "\"\"\"a\"\"\"", "qqqsqqq" });
    }
    {
        const std::vector<Context> in { { "let x = ", ";\nlet y = 1" }, { "", "" }, { "f(", ", 1)" } };
        const std::string simple = "['\"nrt\\\\0\\n]";
        const std::string uni = "|u{[0-9a-f][0-9a-f_]*}";
        const std::string any = "<* \\\\[qdz1]>|" + few("x", 2), end = few_end("x", 2);
        r.push_back({ ULIGHT_LANG_RUST, "strings", "<p c>?" + DQ + "(" + S("\"\\\\") + "|" + E(simple + "|x" + hex(2) + uni) + "|" + any + ")*" + end + DQ + "|<p b>" + DQ + "(" + S("\"\\\\") + "|" + E(simple + "|x" + hex(2))
                + "|" + any + ")*" + end + DQ,
            "a \\\\ \" ' n 1 x u{ } 4 b c \\n", 6, 7, in, "\"a\"", "qsq" });
        r.push_back({ ULIGHT_LANG_RUST, "characters", "<p b>?" + SQ + "(" + S("'\\\\\\n\\r\\t") + "|" + E("['\"nrt\\\\0]|x" + hex(2)) + ")" + SQ + "|" + SQ + E("u{[0-9a-f][0-9a-f_]*}") + SQ, "a \\\\ \" ' n 1 x u{ } 4 b", 7, 8, in,
            "'a'", "qsq" });
        const std::string raw = "(<q \">(" + S("\"") + ")*<q \">|<q #\">(<s \">+(<s [^\"#]>)|<s [^\"]>)*(<s \">)*<q \"#>)";
        const std::string raw_c = "(<q \">(" + S("\"\\\\") + ")*<q \">|<q #\">(<s \">+(<s [^\"#\\\\]>)|<s [^\"\\\\]>)*(<s \">)*<q \"#>)";
        r.push_back({ ULIGHT_LANG_RUST, "raw strings", "<p r|br>" + raw + "|<p cr>" + raw_c, "a \\\\ \" # r b c \\n '", 8, 9, in, "r\"a\"", "pqsq", "", 0, 0, "",
            "cr\"\\n\"", "<p cr><q \"><e \\\\n><q \">" });
    }
    {
        const std::vector<Context> in { { "x = ", "\ny = 1" }, { "", "" }, { "f(", ", 1)" }, { "f", "\n" } };
        for (const char* q : { "\"", "'" }) {
            r.push_back({ ULIGHT_LANG_LUA, std::string("strings ") + q, std::string("<s ") + q + "([^" + q + "\\\\\\n\\r]|\\\\[^\\r]|\\\\\\r\\n)*" + q + ">", "a \\\\ \" ' n 1 \\n z [[ ]] --", 6, 7, in, std::string(q) + "a" + q, "sss" });
        }
        r.push_back({ ULIGHT_LANG_LUA, "long strings", "<s \\[\\[(\\]?[^\\]])*\\]\\]|\\[=\\[([^\\]]|\\]+[^\\]=]|\\]+=+[^\\]=]|\\]+==+)*\\]=\\]>", "a \\\\ \" [ = ] \\n --", 8, 9, in, "[[a]]", "sssss" });
    }
    {
        const std::vector<Context> in { { "x = c", "\n" }, { "!{!", "}\n" }, { "source_filename = ", "\n" } };
        r.push_back({ ULIGHT_LANG_LLVM, "strings", DQ + "(" + S("\"\\\\") + "|" + E("\\\\|" + hex(2)) + ")*" + DQ, "a g \\\\ 4 F \" ; \\n", 6, 7, in, "\"a\"", "qsq" });
    }
    {
        const std::vector<Context> in { { "db ", "\nmov eax, 1" }, { "db 1, ", ", 2 ; c\n" } };
        r.push_back({ ULIGHT_LANG_NASM, "strings", DQ + "(" + S("\"\\n\\r") + ")*" + DQ + "|" + SQ + "(" + S("'\\n\\r") + ")*" + SQ, "a \\\\ \" ' ` ; 1", 6, 7, in, "\"a\"", "qsq" });
        r.push_back({ ULIGHT_LANG_NASM, "backquoted strings",
            "<q `>(" + S("`\\\\\\n\\r\v\f") + "|" + E("['\"`\\\\?abtnvfre]|[0-7][0-7]?[0-7]?|x" + h + h + "?|u" + hex(4) + "|U" + hex(8)) + "|" + few("u", 4) + "|<* \\\\[8zq]>)*" + few_end("u", 4) + "<q `>", "a \\\\ \" ' ` ; 1 7 x u q", 6, 7, in,
            "`a`", "qsq" });
    }
    {
        const std::vector<Context> in { { "a = ", ";\nb = c;" }, { "a = b , ", " | c ;" }, { "a = (", ");" } };
        r.push_back({ ULIGHT_LANG_EBNF, "strings", DQ + "(" + S("\"\\n\\r") + ")+" + DQ + "|" + SQ + "(" + S("'\\n\\r") + ")+" + SQ, "a \\\\ \" ' ; (* ?", 6, 7, in, "\"a\"", "qsq" });
    }
    {
        const std::vector<Context> in { { "a: ", "\nb: c" }, { "- ", "\n" }, { "[", ", 1]" }, { "{a: ", "}" }, { "", "" } };
        const std::string esc = "[0abefnrtv\"/\\\\_NLP \\t]|x" + hex(2) + "|u" + hex(4) + "|U" + hex(8);
        r.push_back({ ULIGHT_LANG_YAML, "double-quoted strings", DQ + "(" + S("\"\\\\\\n\\r") + "|" + E(esc) + "|" + few("x", 2) + "|" + few("u", 4) + "|<* \\\\[qz8]>)*(" + few_end("x", 2) + "|" + few_end("u", 4) + ")" + DQ, "a \\\\ \" ' 4 x u : # { \\s q N", 6, 7, in, "\"a\"",
            "qsq" });
        r.push_back({ ULIGHT_LANG_YAML, "single-quoted strings", SQ + "(" + S("'\\n\\r") + "|<* ''>)*" + SQ, "a \\\\ \" ' : # { \\s -", 7, 8, in, "'a'", "qsq" });
    }
    {
        const std::vector<Context> in { { "<a b=", ">c</a>" }, { "<a b=", " c=\"d\"/>" } };
        for (const int lang : { ULIGHT_LANG_XML, ULIGHT_LANG_HTML }) {
            const std::string ref = "<e &(amp;|#1;|#x4;)>";
            const std::string DQ = lang == ULIGHT_LANG_XML ? "<q \">" : "<s \">", SQ = lang == ULIGHT_LANG_XML ? "<q '>" : "<s '>";
            r.push_back({ lang, "attribute values", DQ + "(" + S("\"&<") + "|" + ref + ")+" + DQ + "|" + SQ + "(" + S("'&<") + "|" + ref + ")+" + SQ, "a > \" ' &amp; / = &#1; &#x4; \\n", 6, 7,
                in, "\"a\"", lang == ULIGHT_LANG_XML ? "qsq" : "sss" });
        }
    }
    {
        const std::vector<Context> in { { "a{b:", "}" }, { "a{b:", ";c:d}" }, { "a[b=", "]{}" }, { "@import ", ";" } };
        for (const char* q : { "\"", "'" })
            {
                const std::string nq = q;
                const std::string ordinary = "<s [^" + nq + "\\\\\\n\\r\f]>", not_hex = "<s [^" + nq + "\\\\\\n\\r\f0-9a-fA-F \\t]>";
                const std::string dig = h + "(" + h + "(" + h + "(" + h + "(" + h + ")?)?)?)?";
                const std::string esc = "<e \\\\[^0-9a-fA-F\\n\\r\f\x80-\xff]>|<e \\\\" + dig + "[ \\t]>|<e \\\\" + hex(6) + "[ \\t]?>|<* \\\\\\n>";
                const std::string body = "(" + ordinary + "|" + esc + "|<e \\\\" + dig + ">" + not_hex + ")*(<e \\\\" + dig + ">)?";
                r.push_back({ ULIGHT_LANG_CSS, "strings " + nq, "<s " + nq + ">" + body + "<s " + nq + ">", "a \\\\ \" ' 4 { } ; q /* \\s \\n", 6, 7, in, nq + "a" + nq, "sss" });
            }
    }
    {
        const std::vector<Context> in { { "echo ", "\necho b" }, { "a=", "\n" }, { "if [ x = ", " ]; then" }, { "", "" } };
        r.push_back({ ULIGHT_LANG_BASH, "double-quoted strings", DQ + "(" + S("\"\\\\$`") + "|" + E("[$`\"\\\\\\n]") + "|<s \\\\[^$`\"\\\\\\n\x80-\xff]>|<i $[a-z][a-z0-9]*>|<j ${><i b><j }>)*" + DQ,
            "a \\\\ \" ' $ ${ b } ; # \\n ( )", 6, 7, in, "\"a\"", "qsq" });
        r.push_back({ ULIGHT_LANG_BASH, "single-quoted strings", SQ + S("'") + "*" + SQ, "a \\\\ \" ' $ ${ b } ; # \\n ( ) `", 6, 7, in, "'a'", "qsq" });
    }
    // Strings without an end on their line.
    for (const int lang : { ULIGHT_LANG_JAVASCRIPT, ULIGHT_LANG_TYPESCRIPT, ULIGHT_LANG_PYTHON, ULIGHT_LANG_C, ULIGHT_LANG_CPP, ULIGHT_LANG_JAVA, ULIGHT_LANG_KOTLIN, ULIGHT_LANG_NASM,
             ULIGHT_LANG_LUA, ULIGHT_LANG_CSS })
        for (const std::string q : { "\"", "'" }) {
            const bool plain = lang == ULIGHT_LANG_LUA || lang == ULIGHT_LANG_CSS;
            if (q == "'" && (lang == ULIGHT_LANG_JAVA || lang == ULIGHT_LANG_KOTLIN)) continue;
            std::vector<Context> in { { "x = ", "\ny = 1" }, { "f(", "\n" }, { "", "\n" } };
            if (lang == ULIGHT_LANG_NASM) in = { { "db ", "\nmov eax, 1" }, { "db 1, ", "\n" } };
            if (lang == ULIGHT_LANG_CSS) in = { { "a{b:", "\nc:d}" }, { "@import ", "\n" } };
            const std::string escape = lang == ULIGHT_LANG_NASM ? "<s \\\\>" : plain ? lang == ULIGHT_LANG_CSS ? "<e \\\\['\"\\\\]>" : "<s \\\\['\"n\\\\]>" : "<e \\\\[n'\"\\\\]>";
            r.push_back({ lang, "unterminated strings " + q, (plain ? "<s " : "<q ") + q + ">(<s [^" + q + "\\\\\\n\\r\\v\\f$]>|" + escape + ")+", "a \\\\ \" ' n ; ) } // /* # 1 \\s", 5, 6, in, q + "a", plain ? "ss" : "qs" });
        }
    // Directly in front of other characters that mean something to strings.
    for (auto& g : r) {
        const auto is = [&](std::initializer_list<int> l) { return std::find(l.begin(), l.end(), g.lang) != l.end(); };
        const auto named = [&](const char* n) { return g.name.starts_with(n); };
        if (named("unterminated") || named("attribute")) continue;
        const std::string own = g.name.ends_with("'") || named("characters") ? "'" : "\"", other = own == "'" ? "\"" : "'";
        if (is({ ULIGHT_LANG_PYTHON, ULIGHT_LANG_JAVASCRIPT, ULIGHT_LANG_TYPESCRIPT, ULIGHT_LANG_CPP, ULIGHT_LANG_C, ULIGHT_LANG_JAVA, ULIGHT_LANG_KOTLIN, ULIGHT_LANG_LUA, ULIGHT_LANG_NASM, ULIGHT_LANG_EBNF })) {
            const auto [before, after] = g.contexts[0];
            g.contexts.push_back({ before, other + "b" + other + after });
            if (!is({ ULIGHT_LANG_CPP, ULIGHT_LANG_C, ULIGHT_LANG_JAVA, ULIGHT_LANG_KOTLIN })) g.contexts.push_back({ before + other + "b" + other, after });
        }
        if (is({ ULIGHT_LANG_JAVASCRIPT, ULIGHT_LANG_TYPESCRIPT })) g.contexts.push_back({ "x = ", "`b`;" });
        if (named("templates")) g.contexts.push_back({ "x = `b`", "}`;" });
        if (is({ ULIGHT_LANG_JAVA }) && named("text")) g.contexts.push_back({ "f(", "\"\"\"\n\"\"\")" });
        if (is({ ULIGHT_LANG_RUST })) {
            g.contexts.push_back({ "m!(", "#)" });
            g.contexts.push_back({ "m!(", "##\"b\")" });
            g.contexts.push_back({ "m![", "\"b\"]" });
        }
        if (is({ ULIGHT_LANG_LUA }) && named("long")) {
            g.contexts.push_back({ "x[ ", "]" });
            g.contexts.push_back({ "f", "]]" });
            g.contexts.push_back({ "f", "=]" });
            g.contexts.push_back({ "f", "[[b]]" });
        }
        if (is({ ULIGHT_LANG_CPP }) && named("raw")) {
            g.contexts.push_back({ "f(", ")d)\n" });
            g.contexts.push_back({ "f(", "\"b\")" });
        }
        if (is({ ULIGHT_LANG_BASH })) {
            g.contexts.push_back({ "echo ", "b\n" });
            g.contexts.push_back({ "echo ", own + "b" + own + "\n" });
            g.contexts.push_back({ "echo ", other + "b" + other + "\n" });
            g.contexts.push_back({ "echo " + own + "b" + own, "\n" });
            g.contexts.push_back({ "echo b", "\n" });
        }
        if (is({ ULIGHT_LANG_LLVM })) g.contexts.push_back({ "x = c", "\"b\"\n" });
        if (is({ ULIGHT_LANG_YAML })) g.contexts.push_back({ "[", ",'b']" });
    }
    return r;
}

std::vector<Grammar> comment_grammars()
{
    std::vector<Grammar> r;
    const auto add = [&](int lang, const std::string& name, const std::string& regex, const std::string& alphabet, std::vector<Context> in, const std::string& placeholder, const std::string& roles,
                         int quick = 7, int thorough = 8) { r.push_back({ lang, name, regex, alphabet, quick, thorough, std::move(in), placeholder, roles }); };
    const std::string star = "<d /\\*>(<k [^*]>|<k \\*>+<k [^*/]>)*<k \\*>*<d \\*/>";
    const std::string open_star = "<d /\\*>(<k [^*]>|<k \\*>+<k [^*/]>)*<k \\*>*";
    const std::string words = "a \" ' \\\\ \\n * / // #";
    for (const int lang : { ULIGHT_LANG_C, ULIGHT_LANG_CPP, ULIGHT_LANG_JAVA, ULIGHT_LANG_JAVASCRIPT, ULIGHT_LANG_TYPESCRIPT, ULIGHT_LANG_KOTLIN, ULIGHT_LANG_RUST, ULIGHT_LANG_JSONC, ULIGHT_LANG_LLVM, ULIGHT_LANG_CSS }) {
        const bool continued = lang == ULIGHT_LANG_C || lang == ULIGHT_LANG_CPP, nests = lang == ULIGHT_LANG_KOTLIN || lang == ULIGHT_LANG_RUST;
        std::vector<Context> in { { "x ", "\ny = 1" }, { "", "\n" }, { "f(1,", "\n2)" }, { "a;", "\n\nb" }, { "{ ", "\n}" }, { "/**/", "\n/**/" } };
        if (lang == ULIGHT_LANG_JSONC) in = { { "[1, ", "\n2]" }, { "", "\n{}" }, { "{\"a\":", "\n1}" }, { "{", "\n\"a\":1}" }, { "1 ", "\n" }, { "/**/", "\n/**/" } };
        if (lang == ULIGHT_LANG_LLVM) in = { { "add i32 ", "\n" }, { "", "\nret void" }, { "/**/", "\n/**/" } };
        if (lang == ULIGHT_LANG_CSS) in = { { "a{b:c;", "\nd:e}" }, { "a ", "\nb{}" }, { "", "" }, { "a{b:", "\nc}" }, { "@media a ", "\n{}" }, { "f{g:h(", "\n)}" } };
        if (lang != ULIGHT_LANG_LLVM && lang != ULIGHT_LANG_CSS) {
                // A backslash in front of the end would continue the comment.
            const std::string body = continued ? "(<k [^\\n\\r\\\\\x80-\xff]>|<k \\\\[\\\\ \\t\\v\\f]*([^\\\\ \\t\\v\\f\\n\\r\x80-\xff]|\\n)>)*" : "<k [^\\n\\r\x80-\xff]>*";
            add(lang, "line comments", "<d //>" + body, words + " */ /*", in, "//a", "ddk", 6, 7);
        }
        std::vector<Context> both = in;
        if (lang != ULIGHT_LANG_JSONC) both.push_back({ "x ", " y" });
        else both.push_back({ "[", "1]" });
        if (lang == ULIGHT_LANG_CSS) both.push_back({ "a", "b{}" });
        if (!nests) {
            add(lang, "block comments", star, "a \" ' \\\\ \\n * / */ /* //", both, "/*a*/", "ddkdd");
        }
        std::vector<Context> last;
        for (const auto& c : both) last.push_back({ c.first, "" });
        if (!nests) add(lang, "unterminated comments", open_star, "a \" ' \\n * / /* //", last, "/*a", "ddk", 6, 7);
        if (nests) {
            // Inside: no lone * or / is next to another one.
            std::string inner;
            for (int k = 0; k < 3; ++k) inner = "(" + std::string("[^*/]|\\*[^*/]|/[^*/]") + (k ? "|/\\*" + inner + "\\*/" : "") + ")*";
            add(lang, "block comments", "<d /\\*><k " + inner + "><d \\*/>", "a \" \\n * / */ /*", both, "/*a*/", "ddkdd", 8, 9);
            add(lang, "unterminated comments", "<d /\\*><k " + inner + "(/\\*" + inner + ")*>", "a \" \\n * / */ /*", last, "/*a", "ddk", 7, 8);
        }
    }
    {
        const std::vector<Context> line { { "x = 1 ", "\ny = 1" }, { "", "\n" }, { "f(1,", "\n2)" }, { "a", "\n\nb" } };
        add(ULIGHT_LANG_PYTHON, "line comments", "<d #><k [^\\n\\r]>*", "a \" ' \\\\ # : \"\"\"", line, "#a", "dk", 6, 7);
        add(ULIGHT_LANG_LUA, "line comments", "<d -->(<k \\[=*([^\\n\\r\\[=][^\\n\\r]*)?|[^\\n\\r\\[][^\\n\\r]*>)?", "a \" ' \\\\ - [ = ]", line, "--a", "ddk", 7, 8);
        std::vector<Context> block = line;
        block.push_back({ "x = 1 ", " y = 2" });
        add(ULIGHT_LANG_LUA, "block comments", "<d --\\[\\[><k ([^\\]]|\\][^\\]])*><d \\]\\]>|<d --\\[=\\[><k ([^\\]]|\\]+[^\\]=]|\\]+=[^\\]])*\\]*><d \\]=\\]>", "a \" -- [ = ] \\n", block, "--[[a]]",
            "ddddkdd", 9, 10);
        const std::vector<Context> bash { { "echo a ", "\necho b" }, { "", "\n" }, { "a;", "\nb" }, { "if x; then ", "\nfi" }, { "a &&", "\nb" } };
        add(ULIGHT_LANG_BASH, "comments", "<d #><k [^\\n\\v\\r]>*", "a \" ' \\\\ # $( ` ; }", bash, "#a", "dk", 6, 7);
        const std::vector<Context> yaml { { "a: b ", "\nc: d" }, { "", "\na: b" }, { "- a ", "\n- b" }, { "a: ", "\n  b: c" }, { "a: [ ", "\n b ]" }, { "a: \"b\" ", "\nc: d" }, { "--- ", "\na: b" },
            { "a: 1 ", "\nc: d" }, { "a: 'b' ", "\n" }, { "a: {b: c} ", "\nd: e" }, { "a: &b ", "\n  c: d" }, { "a: *b ", "\n" }, { "a: {\n", "\n b: c}" }, { "a: |2 ", "\n  b\n" } };
        add(ULIGHT_LANG_YAML, "comments", "<d #><k [^\\n\\r]>*", "a \" ' : # - { [ \\s", yaml, "#a", "dk", 5, 6);
        const std::vector<Context> nasm { { "mov eax, 1 ", "\nret" }, { "", "\n" }, { "a: ", "\nret" }, { "db 'a' ", "\nret" } };
        add(ULIGHT_LANG_NASM, "comments", "<d ;><k [^\\n\\r\\v\\f\\\\]>*", "a \" ' ; 1 ` % [", nasm, ";a", "dk", 6, 7);
        const std::vector<Context> llvm { { "add i32 1, 2 ", "\nret void" }, { "", "\n" }, { "ret void", "\n}" }, { "x:", "\n" } };
        add(ULIGHT_LANG_LLVM, "line comments", "<d ;><k [^\\n\\r]>*", "a \" ' ; 1 /* */ %", llvm, ";a", "dk", 6, 7);
        const std::vector<Context> ebnf { { "a = b ", "\n;c = d;" }, { "", "\na = b;" }, { "a = b, ", "c;" }, { "a", "= b;" } };
        add(ULIGHT_LANG_EBNF, "comments", "<d (\\(\\*)><k ([^*(]|\\(+[^*(]|\\*+[^*)(])*(\\(|\\**)><d \\*\\)>", "a \" ' ( * ) \\n ;", ebnf, "(*a*)", "ddkdd", 7, 8);
    }
    for (const int lang : { ULIGHT_LANG_HTML, ULIGHT_LANG_XML }) {
        const std::vector<Context> in { { "<a>", "</a>" }, { "", "" }, { "<a><b/>", "<c/></a>" }, { "a &amp; b", " c" }, { "<!---->", "<!---->" } };
        if (lang == ULIGHT_LANG_HTML)
            // Not ">" or "->" at the beginning, no "--!>" or "-->" inside, no "<!-" at the end.
            add(lang, "comments", "<d \\<!--><k (([^\\-\\<\\>]|\\<+[^\\-\\<!]|-[^\\-\\<\\>]|--+[^\\-\\<\\>!])([^\\-\\<]|\\<+[^\\-\\<!]|-[^\\-\\<]|--+[^\\-\\<\\>!])*)?-*><d --\\>>", "a - > < / \" & ; \\n !", in, "<!--a-->", "ddddkddd", 7, 8);
        else
            add(lang, "comments", "<d \\<!--><k ([^\\-]|-[^\\-])*><d --\\>>", "a - > < / \" & ; \\n ! --", in, "<!--a-->", "ddddkddd", 7, 8);
    }
    {
        const std::vector<Context> text { { "a ", "\nb" }, { "", "\n" }, { "\\f{", "\n}" }, { "\\f{a}", "\n" } };
        add(ULIGHT_LANG_COWEL, "line comments", "<d \\\\:><k [^\\n\\r]>*", "a \" \\\\ { } * : (", text, "\\:a", "ddk", 6, 7);
        std::vector<Context> block = text;
        block.push_back({ "a ", " b" });
        block.push_back({ "\\f{a", "b}" });
        add(ULIGHT_LANG_COWEL, "block comments", "<d \\\\\\*><k ([^*]|\\*+[^*\\\\])*\\**><d \\*\\\\>", "a \" \\\\ { } * : \\n", block, "\\*a*\\", "ddkdd", 6, 7);
    }
    // Directly in front of other characters that mean something to comments.
    for (auto& g : r) {
        const auto ends = [&](const char* e) { return g.placeholder.ends_with(e); };
        if (ends("*/"))
            for (const char* t : { "*/", "/**/", "/b", "*b", "//b\n" }) {
                if (g.lang == ULIGHT_LANG_CSS && std::string(t) == "//b\n") continue;
                g.contexts.push_back({ g.contexts[0].first, t + g.contexts[0].second });
            }
        if (ends("-->"))
            for (const char* t : { "-->", ">", "<!--b-->", "-" }) g.contexts.push_back({ "a", t });
        if (ends("*\\")) 
            for (const char* t : { "*\\\\", "\\*b*\\", "*" }) g.contexts.push_back({ "a", t });
        if (ends("*)"))
            for (const char* t : { "*)", "(*b*)", ")" }) g.contexts.push_back({ g.contexts[0].first, t + g.contexts[0].second });
        if (ends("]]"))
            for (const char* t : { "]]", "]", "--[[b]]" }) g.contexts.push_back({ g.contexts[0].first, t + g.contexts[0].second });
    }
    return r;
}

void comments(Ctx& x)
{
    for (const auto& g : comment_grammars()) run_grammar(x, g);
}

void strings(Ctx& x)
{
    for (const auto& g : string_grammars()) run_grammar(x, g);
}

void numbers(Ctx& x)
{
    for (const auto& g : number_grammars()) run_grammar(x, g);
}

} // namespace

int main(int argc, char** argv)
{
    return mini_main(argc, argv, { { "numbers", numbers }, { "strings", strings }, { "comments", comments } });
}
