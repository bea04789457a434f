// Languages with a simple structure against complete references (EBNF, TeX, diffs, plain text), and the languages
// that are nested in HTML.
#include "lexref.hpp"
#include <functional>

using namespace vx;

namespace {

std::string type_name(unsigned t)
{
    if (!t) return ".";
    const auto n = ulight_highlight_type_long_string(ulight_highlight_type(t));
    return std::string(n.text, n.length);
}

using Tokens = std::vector<ulight_token>;

bool same(const Tokens& a, const Tokens& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (a[i].begin != b[i].begin || a[i].length != b[i].length || a[i].type != b[i].type) return false;
    return true;
}

std::string list(const Tokens& a, std::string_view text)
{
    std::string s;
    std::size_t n = 0;
    for (const auto& t : a) {
        if (++n > 30) return s + " ...";
        s += " " + printable(std::string(text.substr(std::min<std::size_t>(t.begin, text.size()), std::min<std::size_t>(t.length, 40)))) + ":" + type_name(t.type);
    }
    return s;
}

Tokens tokens_of(int lang, const std::string& text, unsigned flags, std::string& error, std::size_t capacity = 4096)
{
    Run_Result r;
    Run_Config c;
    c.flags = int(flags);
    c.token_cap = capacity;
    run_tokens(r, lang, text, c);
    if (r.status != ULIGHT_STATUS_OK) error = "status " + std::to_string(r.status);
    return r.tokens;
}

// ------------------------------------------------------------------------------------------------- plain lists

void put(Tokens& t, std::size_t begin, std::size_t length, unsigned type)
{
    if (length) t.push_back({ begin, length, static_cast<unsigned char>(type) });
}

Tokens ebnf(const std::string& s)
{
    Tokens r;
    const auto letter = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; };
    const auto digit = [](char c) { return c >= '0' && c <= '9'; };
    bool left = true; // of the defining symbol
    bool name = false; // a name was begun and not ended by a symbol
    for (std::size_t i = 0; i < s.size();) {
        const auto delimited = [&](std::size_t n, const std::string& close, unsigned delim, unsigned content) {
            const auto e = s.find(close, i + n);
            put(r, i, n, delim);
            put(r, i + n, std::min(e, s.size()) - i - n, content);
            if (e == std::string::npos) i = s.size();
            else {
                put(r, e, close.size(), delim);
                i = e + close.size();
            }
        };
        const auto symbol = [&](std::size_t n, unsigned type) {
            put(r, i, n, type);
            i += n;
            name = false;
            left = false;
        };
        const char c = s[i], d = i + 1 < s.size() ? s[i + 1] : ' ';
        if (c == ' ' || (c >= '\t' && c <= '\r' && c != '\f')) ++i;
        else if (letter(c) || (digit(c) && name)) {
            std::size_t n = 1;
            while (i + n < s.size() && (letter(s[i + n]) || digit(s[i + n]) || s[i + n] == '-')) ++n;
            put(r, i, n, left ? ULIGHT_HL_NAME_NONTERMINAL_DECL : ULIGHT_HL_NAME_NONTERMINAL);
            name = true;
            i += n;
        }
        else if (digit(c)) {
            std::size_t n = 1;
            while (i + n < s.size() && digit(s[i + n])) ++n;
            put(r, i, n, ULIGHT_HL_NUMBER);
            i += n;
        }
        else if (c == '(' && d == '*') delimited(2, "*)", ULIGHT_HL_COMMENT_DELIM, ULIGHT_HL_COMMENT);
        else if (c == '*' && d == ')') {
            put(r, i, 2, ULIGHT_HL_COMMENT_DELIM); // the end of no comment
            i += 2;
        }
        else if (c == '"' || c == '\'' || c == '`') {
            left = name = false;
            delimited(1, std::string(1, c), ULIGHT_HL_STRING_DELIM, ULIGHT_HL_STRING);
        }
        else if (c == '?') {
            const auto e = s.find('?', i + 1);
            symbol(e == std::string::npos ? s.size() - i : e + 1 - i, ULIGHT_HL_NAME_MACRO);
        }
        else if ((c == '(' && d == ':') || (c == ':' && d == ')')) symbol(2, ULIGHT_HL_SYMBOL_BRACE);
        else if ((c == '(' && d == '/') || (c == '/' && d == ')')) symbol(2, ULIGHT_HL_SYMBOL_PARENS);
        else if (c == '(' || c == ')') symbol(1, ULIGHT_HL_SYMBOL_PARENS);
        else if (c == '[' || c == ']') symbol(1, ULIGHT_HL_SYMBOL_SQUARE);
        else if (c == '{' || c == '}') symbol(1, ULIGHT_HL_SYMBOL_BRACE);
        else if (c == '=') symbol(1, ULIGHT_HL_SYMBOL_PUNC);
        else if (c == ';' || c == '.') {
            symbol(1, ULIGHT_HL_SYMBOL_PUNC);
            left = true;
        }
        else if (c == ',' || c == '!' || c == '|' || c == '*' || c == '/' || c == ':' || c == '-') symbol(1, ULIGHT_HL_SYMBOL_OP);
        else {
            std::size_t n = 1;
            while (i + n < s.size() && std::strchr("#%&+<>@\\^~$", s[i + n])) ++n;
            put(r, i, n, ULIGHT_HL_ERROR);
            i += n;
        }
    }
    return r;
}

Tokens tex(const std::string& s)
{
    Tokens r;
    const auto letter = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
    for (std::size_t i = 0; i < s.size();) {
        const char c = s[i];
        std::size_t n = 1;
        if (c == '\\' && i + 1 == s.size()) put(r, i, 1, ULIGHT_HL_ERROR);
        else if (c == '\\' && letter(s[i + 1])) {
            while (i + n < s.size() && letter(s[i + n])) ++n;
            put(r, i, n, ULIGHT_HL_MARKUP_TAG);
        }
        else if (c == '\\') {
            const auto lead = static_cast<unsigned char>(s[i + 1]);
            n = 1 + (lead < 0x80 ? 1 : lead < 0xe0 ? 2 : lead < 0xf0 ? 3 : 4);
            put(r, i, n, ULIGHT_HL_STRING_ESCAPE);
        }
        else if (c == '{' || c == '}') put(r, i, 1, ULIGHT_HL_SYMBOL_BRACE);
        else if (c == '[' || c == ']') put(r, i, 1, ULIGHT_HL_SYMBOL_SQUARE);
        else if (std::strchr("~%$#&^_@", c)) put(r, i, 1, ULIGHT_HL_SYMBOL_OP);
        i += n;
    }
    return r;
}

Tokens diff(const std::string& s)
{
    Tokens r;
    for (std::size_t i = 0; i < s.size();) {
        std::size_t e = i, next = s.size();
        for (; e < s.size(); ++e) {
            if (s[e] == '\n') next = e + 1;
            else if (s[e] == '\r') next = e + (e + 1 < s.size() && s[e + 1] == '\n' ? 2 : 1);
            else continue;
            break;
        }
        const std::string l = s.substr(i, e - i);
        const auto starts = [&](const char* p) { return l.compare(0, std::strlen(p), p) == 0; };
        unsigned t = ULIGHT_HL_DIFF_COMMON;
        if (starts("--- ") || starts("+++ ") || starts("*** ") || (l.size() && l.find_first_not_of('*') == std::string::npos)) t = ULIGHT_HL_DIFF_HEADING;
        else if (starts("@@ ")) t = ULIGHT_HL_DIFF_HEADING_HUNK;
        else if (starts("-")) t = ULIGHT_HL_DIFF_DELETION;
        else if (starts("+")) t = ULIGHT_HL_DIFF_INSERTION;
        else if (starts("!")) t = ULIGHT_HL_DIFF_MODIFICATION;
        put(r, i, l.size(), t);
        i = next;
    }
    return r;
}

Tokens nothing(const std::string&) { return {}; }

// ---------------------------------------------------------------------------------------------------- Markdown

/// What the reference leaves open.
struct Unspecified { };

/// Markdown by CommonMark 0.31.2, each line for itself except for fenced code and comments.
struct Markdown {
    const std::string& s;
    Tokens r;
    bool fenced = false, comment = false;
    char fence = 0;
    std::size_t fence_length = 0;

    static bool blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
    static bool alnum(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
    static bool punct(char c) { return c > ' ' && c < 127 && !alnum(c); }
    std::size_t run(std::size_t p, std::size_t e, char c) const
    {
        std::size_t n = 0;
        while (p + n < e && s[p + n] == c) ++n;
        return n;
    }

    // The parts of a line. Each returns where what begins at p ends, or 0.
    std::size_t code_span(std::size_t p, std::size_t e) const
    {
        const auto n = run(p, e, '`');
        for (std::size_t q = p + n; n && q < e;) {
            const auto m = run(q, e, '`');
            if (m == n) return q + m;
            q += m ? m : 1;
        }
        return 0;
    }
    std::size_t reference(std::size_t p, std::size_t e) const
    {
        std::size_t q = p + 1;
        const auto digits = [&](auto f, std::size_t max) {
            const auto b = q;
            while (q < e && f(s[q])) ++q;
            if (q == b || q == e || s[q] != ';') return std::size_t(0);
            if (q - b > max) throw Unspecified {};
            return q + 1;
        };
        if (q < e && s[q] == '#') {
            if (++q < e && (s[q] == 'x' || s[q] == 'X')) {
                ++q;
                return digits([](char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }, 6);
            }
            return digits([](char c) { return c >= '0' && c <= '9'; }, 7);
        }
        return digits(alnum, 99); // whatever the name is
    }
    std::size_t autolink(std::size_t p, std::size_t e) const
    {
        std::size_t q = p + 1;
        bool marker = false;
        while (q < e && s[q] != '>' && s[q] != '<' && !blank(s[q])) marker |= s[q] == ':' || s[q] == '@', ++q;
        if (q == e || s[q] != '>' || q == p + 1) return 0;
        const std::string_view t(s.data() + p + 1, q - p - 1);
        const auto colon = t.find(':');
        bool scheme = colon != t.npos && colon >= 2 && colon <= 32;
        for (std::size_t k = 0; scheme && k < colon; ++k) scheme = alnum(t[k]) || (k && (t[k] == '+' || t[k] == '.' || t[k] == '-'));
        const auto at = t.find('@');
        bool mail = at != t.npos && at > 0 && at + 1 < t.size();
        for (std::size_t k = 0; mail && k < t.size(); ++k) mail = alnum(t[k]) || k == at;
        if (marker != (scheme || mail)) throw Unspecified {};
        return marker ? q + 1 : 0;
    }
    /// Of "[" at p: the end of the text, of the destination and of all.
    bool link(std::size_t p, std::size_t e, std::size_t& text, std::size_t& to, std::size_t& end) const
    {
        int depth = 1;
        std::size_t q = p + 1;
        while (q < e && depth) {
            // What binds tighter than the brackets.
            if (s[q] == '`' || s[q] == '<') throw Unspecified {};
            if (s[q] == '\\' && q + 1 < e) q += 2;
            else depth += (s[q] == '[') - (s[q] == ']'), ++q;
        }
        if (depth || q == e || s[q] != '(') return false;
        text = q - 1;
        const auto b = q + 1;
        to = b;
        if (to < e && s[to] == '<') {
            while (to < e && s[to] != '>') {
                if (s[to] == '\\' || (s[to] == '<' && to > b)) throw Unspecified {};
                ++to;
            }
            if (to == e) throw Unspecified {};
            ++to;
        }
        else
            while (to < e && s[to] != ')' && !blank(s[to])) {
                if (s[to] == '(' || s[to] == '<') throw Unspecified {};
                to += s[to] == '\\' && to + 1 < e ? 2 : 1;
            }
        if (to > e) throw Unspecified {};
        if (to < e && s[to] != ')') {
            // A title follows, or nothing.
            auto t = to;
            while (t < e && blank(s[t])) ++t;
            if (t < e && s[t] != ')') {
                if (t == to || s[t] != '"' || t + 1 >= e) throw Unspecified {};
                const auto close = s.find('"', t + 1);
                if (close >= e || s.find_first_of("\\)", t) < close) throw Unspecified {};
                t = close + 1;
                while (t < e && blank(s[t])) ++t;
                if (t < e && s[t] != ')') throw Unspecified {};
            }
            end = t;
        }
        else end = to;
        if (end >= e) return false;
        ++end;
        // A link in a link is none, but an image may contain one.
        for (std::size_t k = p + 1; k < text; ++k)
            if (s[k] == '[') throw Unspecified {};
        return true;
    }
    /// Where the emphasis that begins at p ends: the beginning of its closing run.
    std::size_t emphasis(std::size_t p, std::size_t e, char before) const
    {
        const char c = s[p];
        const auto n = run(p, e, c);
        // Only what has one or two runs of the character from here is compared.
        std::size_t other = 0, others = 0;
        for (std::size_t q = p + n; q < e;) {
            if (s[q] == '`') {
                const auto end = code_span(q, e);
                if (!end) throw Unspecified {};
                q = end;
            }
            else if (s[q] == c) {
                if (!others++) other = q;
                q += run(q, e, c);
            }
            else if (s[q] == '\\' || s[q] == '<' || s[q] == '[' || s[q] == (c == '*' ? '_' : '*')) throw Unspecified {};
            else ++q;
        }
        if (others == 0) return 0;
        if (others > 1 || n > 3 || run(other, e, c) != n) throw Unspecified {};
        const char first = s[p + n], last = s[other - 1], after = other + n < e ? s[other + n] : ' ';
        if (!before) before = ' ';
        if (blank(first) || blank(last)) return 0;
        const auto outside = [](char x) { return blank(x) || punct(x); };
        if ((punct(first) && !outside(before)) || (punct(last) && !outside(after))) throw Unspecified {};
        if (c == '_' && (alnum(before) || alnum(after))) return 0;
        if (c == '_' && ((!outside(before)) || (!outside(after)))) throw Unspecified {};
        return other;
    }

    void inlines(std::size_t p, std::size_t e, char before = 0, unsigned text = 0)
    {
        std::size_t plain = p;
        const auto flush = [&](std::size_t to) {
            if (text) put(r, plain, to - plain, text);
        };
        // Special characters that are none are not highlighted, and end the plain text.
        const auto done = [&](std::size_t to) {
            p = plain = to;
            before = s[to - 1];
        };
        while (p < e) {
            const char c = s[p];
            std::size_t end = 0, a = 0, b = 0;
            if (c == '`') {
                flush(p);
                if ((end = code_span(p, e))) {
                    const auto n = run(p, e, '`');
                    put(r, p, n, ULIGHT_HL_STRING_DELIM);
                    put(r, p + n, end - p - 2 * n, ULIGHT_HL_TEXT_CODE);
                    put(r, end - n, n, ULIGHT_HL_STRING_DELIM);
                    done(end);
                }
                else if (s.find('`', p + run(p, e, c)) < e) throw Unspecified {}; // a part of the run
                else done(p + run(p, e, c));
            }
            else if (c == '\\') {
                flush(p);
                if (p + 1 < e && punct(s[p + 1])) {
                    put(r, p, 2, ULIGHT_HL_STRING_ESCAPE);
                    done(p + 2);
                }
                else done(p + 1);
            }
            else if (c == '&') {
                flush(p);
                if ((end = reference(p, e))) {
                    put(r, p, end - p, ULIGHT_HL_STRING_ESCAPE);
                    done(end);
                }
                else done(p + 1);
            }
            else if (c == '<') {
                flush(p);
                if (s.compare(p, std::min<std::size_t>(4, e - p), "<!--") == 0 && e - p >= 4) {
                    if (p + 4 < e && (s[p + 4] == '>' || s[p + 4] == '-')) throw Unspecified {};
                    const auto close = s.find("-->", p + 4);
                    const auto stop = std::min(close, e);
                    if (s.find("--", p + 4) < stop || s.find("<!", p + 4) < stop) throw Unspecified {};
                    put(r, p, 4, ULIGHT_HL_COMMENT_DELIM);
                    put(r, p + 4, stop - p - 4, ULIGHT_HL_COMMENT);
                    if (close >= e || close + 3 > e) {
                        comment = true;
                        return;
                    }
                    put(r, close, 3, ULIGHT_HL_COMMENT_DELIM);
                    done(close + 3);
                }
                else if ((end = autolink(p, e))) {
                    put(r, p, 1, ULIGHT_HL_SYMBOL_FORMATTING);
                    put(r, p + 1, end - p - 2, ULIGHT_HL_TEXT_LINK);
                    put(r, end - 1, 1, ULIGHT_HL_SYMBOL_FORMATTING);
                    done(end);
                }
                else done(p + 1);
            }
            else if (c == '[' || (c == '!' && p + 1 < e && s[p + 1] == '[')) {
                flush(p);
                const std::size_t n = c == '!';
                if (link(p + n, e, a, b, end)) {
                    put(r, p, n + 1, ULIGHT_HL_SYMBOL_FORMATTING);
                    if (!n) inlines(p + 1, a);
                    put(r, a, 2, ULIGHT_HL_SYMBOL_FORMATTING);
                    put(r, a + 2, b - a - 2, ULIGHT_HL_TEXT_LINK);
                    put(r, end - 1, 1, ULIGHT_HL_SYMBOL_FORMATTING);
                    done(end);
                }
                else done(p + 1);
            }
            else if (c == '!') {
                flush(p);
                done(p + 1);
            }
            else if (c == '*' || c == '_') {
                flush(p);
                const auto n = run(p, e, c);
                if ((end = emphasis(p, e, before))) {
                    put(r, p, n, ULIGHT_HL_SYMBOL_FORMATTING);
                    inlines(p + n, end, c);
                    put(r, end, n, ULIGHT_HL_SYMBOL_FORMATTING);
                    done(end + n);
                }
                else done(p + n);
            }
            else ++p;
            if (p != plain) before = s[p - 1];
        }
        flush(e);
    }

    /// One line, or what follows the mark of a quote.
    void block(std::size_t p, std::size_t e, bool in_quote)
    {
        std::size_t q = p;
        while (q < e && s[q] == ' ') ++q;
        if (std::all_of(s.begin() + long(p), s.begin() + long(e), blank)) {
            if (in_quote) throw Unspecified {};
            return;
        }
        const std::size_t indent = q - p;
        const char c = q < e ? s[q] : '\n';
        if (indent < 4) {
            if (c == '#') {
                const auto n = run(q, e, '#');
                if (n <= 6 && (q + n == e || s[q + n] == ' ' || s[q + n] == '\t')) {
                    put(r, q, n, ULIGHT_HL_SYMBOL_FORMATTING);
                    auto b = q + n + (q + n < e), stop = e;
                    // Without the closing marks, and the blanks before them.
                    while (stop > b && s[stop - 1] == ' ') --stop;
                    auto hash = stop;
                    while (hash > b && s[hash - 1] == '#') --hash;
                    if (hash < stop && (hash == b || s[hash - 1] == ' ')) {
                        stop = hash;
                        while (stop > b && s[stop - 1] == ' ') --stop;
                    }
                    if (stop > b && (s[b] == ' ' || s[b] == '\t' || s[e - 1] == '\t')) throw Unspecified {}; // whether blanks belong to it
                    if (hash > b && s[hash - 1] == '\t') throw Unspecified {};
                    inlines(b, stop, 0, ULIGHT_HL_TEXT_HEADING);
                    return;
                }
            }
            if (c == '*' || c == '-' || c == '_' || c == '=') {
                std::size_t n = 0;
                bool only = true;
                for (auto k = q; k < e; ++k) n += s[k] == c, only &= s[k] == c || s[k] == ' ' || s[k] == '\t';
                if (only && c == '=' && n != e - q) throw Unspecified {};
                if (only && n >= 3) {
                    put(r, q, e - q, ULIGHT_HL_SYMBOL_FORMATTING);
                    return;
                }
            }
            if (c == '`' || c == '~') {
                const auto n = run(q, e, c);
                if (n >= 3 && (c == '~' || s.find('`', q + n) >= e)) {
                    if (in_quote) throw Unspecified {};
                    put(r, q, n, ULIGHT_HL_STRING_DELIM);
                    fenced = true;
                    fence = c;
                    fence_length = n;
                    return;
                }
            }
        }
        // Marks of nested lists may be indented further.
        std::size_t m = q;
        if (c == '-' || c == '+' || c == '*') ++m;
        else {
            while (m < e && s[m] >= '0' && s[m] <= '9') ++m;
            if (m == q || m - q > 9 || m == e || (s[m] != '.' && s[m] != ')')) m = q;
            else ++m;
        }
        if (m > q && m < e && (s[m] == ' ' || s[m] == '\t')) {
            put(r, q, m - q, ULIGHT_HL_SYMBOL_FORMATTING);
            // Blocks in the item.
            if (m + 1 < e && std::string_view("#>`~+-*_= \t0123456789").find(s[m + 1]) != std::string_view::npos) throw Unspecified {};
            inlines(m + 1, e);
            return;
        }
        if (m > q && m == e) throw Unspecified {}; // an empty item
        if (indent < 4 && c == '>') {
            put(r, q, 1, ULIGHT_HL_SYMBOL_FORMATTING);
            if (q + 1 < e && s[q + 1] == '\t') throw Unspecified {};
            const auto b = q + 1 + (q + 1 < e && s[q + 1] == ' ');
            if (b < e) block(b, e, true);
            return;
        }
        if (indent >= 4 || (p < e && s[p] == '\t')) {
            const auto b = p + (s[p] == '\t' ? 1 : 4);
            put(r, b, e - b, ULIGHT_HL_TEXT_CODE);
            return;
        }
        if (s.find('\t', p) == q && q < e) throw Unspecified {}; // a tab stop after spaces
        inlines(p, e);
    }

    void document()
    {
        for (std::size_t p = 0; p < s.size();) {
            auto e = std::min(s.find_first_of("\r\n", p), s.size());
            const auto next = e + (e < s.size() ? s.compare(e, 2, "\r\n") == 0 ? 2 : 1 : 0);
            if (fenced) {
                std::size_t q = p;
                while (q < e && q - p < 3 && s[q] == ' ') ++q;
                const auto n = run(q, e, fence);
                if (n >= fence_length && std::all_of(s.begin() + long(q + n), s.begin() + long(e), blank)) {
                    put(r, q, n, ULIGHT_HL_STRING_DELIM);
                    fenced = false;
                }
                else put(r, p, e - p, ULIGHT_HL_TEXT_CODE);
            }
            else if (comment) {
                const auto close = s.find("-->", p);
                if (close < e) {
                    if (s.find("--", p) < close || s.find("<!", p) < close) throw Unspecified {};
                    put(r, p, close - p, ULIGHT_HL_COMMENT);
                    put(r, close, 3, ULIGHT_HL_COMMENT_DELIM);
                    comment = false;
                    inlines(close + 3, e, '>');
                }
                else {
                    if (s.find("--", p) < e) throw Unspecified {};
                    put(r, p, e - p, ULIGHT_HL_COMMENT);
                }
            }
            else block(p, e, false);
            p = next;
        }
    }
};

Tokens markdown(const std::string& s)
{
    Markdown m { s, {} };
    m.document();
    return m.r;
}

// ---------------------------------------------------------------------------------------------------------- CSS

/// CSS by the tokens of CSS Syntax Level 3, and by where they are: in selectors, after "@", in blocks, after ":".
struct Css {
    const std::string& s;
    Tokens r;
    enum { selector, prelude, block, value } where = selector;
    std::size_t depth = 0;

    char at(std::size_t p) const { return p < s.size() ? s[p] : '\0'; }
    static bool digit(char c) { return c >= '0' && c <= '9'; }
    static bool hex(char c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
    static bool newline(char c) { return c == '\n' || c == '\r' || c == '\f'; }
    static bool blank(char c) { return newline(c) || c == ' ' || c == '\t'; }
    static bool start(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c & 0x80); }
    static bool part(char c) { return start(c) || digit(c) || c == '-'; }
    bool escape(std::size_t p) const { return at(p) == '\\' && p + 1 < s.size() && !newline(s[p + 1]); }
    bool ident(std::size_t p) const
    {
        if (at(p) == '-') return start(at(p + 1)) || at(p + 1) == '-' || escape(p + 1);
        return start(at(p)) || escape(p);
    }
    bool number(std::size_t p) const
    {
        if (at(p) == '+' || at(p) == '-') ++p;
        return digit(at(p)) || (at(p) == '.' && digit(at(p + 1)));
    }
    std::size_t escaped(std::size_t p) const // of a backslash
    {
        auto q = p + 1;
        while (q < s.size() && q - p <= 6 && hex(s[q])) ++q;
        if (q > p + 1) return q + (q < s.size() && blank(s[q]) ? s.compare(q, 2, "\r\n") == 0 ? 2 : 1 : 0);
        if (s.compare(q, 2, "\r\n") == 0) return q + 2;
        if (q < s.size()) ++q;
        while (q < s.size() && (s[q] & 0xC0) == 0x80) ++q;
        return q;
    }
    /// The name at p; the type is that of names if it is 0.
    std::size_t name(std::size_t p, unsigned type)
    {
        auto e = p;
        while (e < s.size()) {
            if (escape(e)) e = escaped(e);
            else if (part(s[e])) ++e;
            else break;
        }
        if (!type) {
            std::string lower = s.substr(p, e - p);
            for (auto& c : lower) c = char(std::tolower(static_cast<unsigned char>(c)));
            type = at(e) != '(' ? ULIGHT_HL_NAME : lower == "url" ? ULIGHT_HL_KEYWORD : ULIGHT_HL_NAME_FUNCTION;
        }
        for (auto q = p; q < e;) {
            auto b = q;
            while (q < e && !escape(q)) ++q;
            put(r, b, q - b, type);
            if (q < e) {
                b = q;
                q = escaped(q);
                put(r, b, q - b, ULIGHT_HL_STRING_ESCAPE);
            }
        }
        return e;
    }
    void document()
    {
        for (std::size_t p = 0; p < s.size();) {
            const char c = s[p];
            const unsigned plain = where == selector ? ULIGHT_HL_MARKUP_TAG : where == prelude ? ULIGHT_HL_NAME_MACRO : where == block ? ULIGHT_HL_MARKUP_ATTR : 0;
            const auto one = [&](unsigned type, std::size_t n = 1) {
                put(r, p, n, type);
                p += n;
            };
            if (s.compare(p, 2, "/*") == 0) {
                const auto e = s.find("*/", p + 2);
                put(r, p, 2, ULIGHT_HL_COMMENT_DELIM);
                put(r, p + 2, std::min(e, s.size()) - p - 2, ULIGHT_HL_COMMENT);
                if (e != s.npos) put(r, e, 2, ULIGHT_HL_COMMENT_DELIM);
                p = e == s.npos ? s.size() : e + 2;
            }
            else if (number(p)) {
                auto e = p + (c == '+' || c == '-');
                while (digit(at(e))) ++e;
                if (at(e) == '.' && digit(at(e + 1))) {
                    ++e;
                    while (digit(at(e))) ++e;
                }
                if (at(e) == 'e' || at(e) == 'E') {
                    const auto x = e + 1 + (at(e + 1) == '+' || at(e + 1) == '-');
                    if (digit(at(x))) {
                        e = x;
                        while (digit(at(e))) ++e;
                    }
                }
                put(r, p, e - p, ULIGHT_HL_NUMBER);
                p = e;
                if (at(p) == '%') one(ULIGHT_HL_NUMBER_DECOR);
                else if (ident(p)) p = name(p, ULIGHT_HL_NUMBER_DECOR);
            }
            else if (s.compare(p, 3, "-->") == 0) one(ULIGHT_HL_COMMENT_DELIM, 3);
            else if (s.compare(p, 4, "<!--") == 0) one(ULIGHT_HL_COMMENT_DELIM, 4);
            else if (ident(p)) p = name(p, plain);
            else if (c == '"' || c == '\'') {
                auto b = p++;
                while (p < s.size() && s[p] != c && !newline(s[p])) {
                    if (s[p] == '\\') {
                        put(r, b, p - b, ULIGHT_HL_STRING);
                        b = p;
                        p = escaped(p);
                        put(r, b, p - b, ULIGHT_HL_STRING_ESCAPE);
                        b = p;
                    }
                    else ++p;
                }
                if (at(p) == c && p < s.size()) ++p;
                put(r, b, p - b, ULIGHT_HL_STRING);
            }
            else if (c == '#' && (part(at(p + 1)) || escape(p + 1))) {
                const auto t = where == value ? unsigned(ULIGHT_HL_VALUE) : plain;
                put(r, p, 1, t);
                p = name(p + 1, t);
            }
            else if (c == '(' || c == ')') one(ULIGHT_HL_SYMBOL_PARENS);
            else if (c == '[' || c == ']') one(ULIGHT_HL_SYMBOL_SQUARE);
            else if (c == ',') one(ULIGHT_HL_SYMBOL_PUNC);
            else if (c == '.' && where == selector) one(ULIGHT_HL_MARKUP_TAG);
            else if (c == '>' || c == '~' || c == '*') one(where == selector ? ULIGHT_HL_MARKUP_TAG : ULIGHT_HL_SYMBOL_OP);
            else if (c == '+' || c == '-') one(where == selector && c == '+' ? ULIGHT_HL_MARKUP_TAG : where == value || where == prelude ? ULIGHT_HL_SYMBOL_OP : ULIGHT_HL_ERROR);
            else if (c == '<') one(ULIGHT_HL_SYMBOL_OP);
            else if (c == '\\') one(ULIGHT_HL_ERROR);
            else if (c == ':') {
                one(where == selector ? ULIGHT_HL_MARKUP_TAG : ULIGHT_HL_SYMBOL_PUNC);
                if (where == block) where = value;
            }
            else if (c == ';') {
                one(ULIGHT_HL_SYMBOL_PUNC);
                if (where == value) where = block;
                if (where == prelude) where = depth ? block : selector;
            }
            else if (c == '{') {
                one(ULIGHT_HL_SYMBOL_BRACE);
                where = block;
                ++depth;
            }
            else if (c == '}') {
                one(ULIGHT_HL_SYMBOL_BRACE);
                depth -= depth > 0;
                where = depth ? block : selector;
            }
            else if (c == '@') {
                where = prelude;
                if (ident(p + 1)) {
                    one(ULIGHT_HL_NAME_MACRO_DELIM);
                    p = name(p, ULIGHT_HL_NAME_MACRO);
                }
                else one(ULIGHT_HL_ERROR);
            }
            else if (c == '!') {
                auto q = p + 1, e = q;
                while (blank(at(q)) && q < s.size()) ++q;
                e = q;
                while (e < s.size() && part(s[e])) ++e;
                if (escape(e)) throw Unspecified {};
                std::string lower = s.substr(q, e - q);
                for (auto& x : lower) x = char(std::tolower(static_cast<unsigned char>(x)));
                if (lower == "important") one(ULIGHT_HL_KEYWORD, e - p);
                else ++p;
            }
            else ++p;
        }
    }
};

/// Equal types that touch are one token here, because selectors are put together.
Tokens merged(const Tokens& t)
{
    Tokens r;
    for (const auto& x : t) {
        if (!r.empty() && r.back().type == x.type && r.back().begin + r.back().length == x.begin) r.back().length += x.length;
        else r.push_back(x);
    }
    return r;
}

Tokens css(const std::string& s)
{
    Css c { s, {} };
    c.document();
    return merged(c.r);
}

// -------------------------------------------------------------------------------------------------------- COWEL

/// COWEL by its grammar: text with directives, groups of arguments, blocks, strings, splices, escapes and comments.
struct Cowel {
    const std::string& s;
    Tokens r;
    std::size_t p = 0;
    enum Text { document, block, string, member_name };
    enum Around { in_group, in_splice, in_line };

    bool eof() const { return p >= s.size(); }
    char at(std::size_t q) const { return q < s.size() ? s[q] : '\0'; }
    bool has(std::string_view t) const { return s.compare(p, t.size(), t) == 0; }
    static bool start(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
    static bool digit(char c) { return c >= '0' && c <= '9'; }
    static bool newline(char c) { return c == '\n' || c == '\r'; }
    static bool space(char c) { return newline(c) || c == ' ' || c == '\t' || c == '\f'; }
    void token(std::size_t n, unsigned type)
    {
        put(r, p, n, type);
        p += n;
    }
    std::size_t name(std::size_t q) const
    {
        const auto b = q;
        if (q < s.size() && start(s[q]))
            while (q < s.size() && (start(s[q]) || digit(s[q]))) ++q;
        return q - b;
    }
    std::size_t comment(std::size_t q) const // where it ends, or 0
    {
        if (s.compare(q, 2, "\\:") == 0) return std::min(s.find_first_of("\r\n", q), s.size());
        if (s.compare(q, 2, "\\*") == 0) {
            const auto e = s.find("*\\", q + 2);
            return e == s.npos ? s.size() : e + 2;
        }
        return 0;
    }
    bool take_comment()
    {
        const auto e = comment(p);
        if (!e) return false;
        const bool closed = s[p + 1] == '*' && e >= p + 4 && s.compare(e - 2, 2, "*\\") == 0;
        token(2, ULIGHT_HL_COMMENT_DELIM);
        token(e - p - 2 * closed, ULIGHT_HL_COMMENT);
        if (closed) token(2, ULIGHT_HL_COMMENT_DELIM);
        return true;
    }
    std::size_t after_blank(std::size_t q) const
    {
        while (q < s.size()) {
            if (space(s[q])) ++q;
            else if (const auto e = comment(q)) q = e;
            else break;
        }
        return q;
    }
    void blank()
    {
        while (!eof()) {
            if (space(s[p])) ++p;
            else if (!take_comment()) break;
        }
    }
    /// Of a backslash that escapes: the length, negative if it is reserved; otherwise 0.
    int escape(std::size_t q) const
    {
        const char c = at(q + 1);
        if (q + 1 == s.size()) return -1;
        if (c == '+') {
            std::size_t n = 0;
            bool lower = false, upper = false;
            const auto length = [&](std::size_t want) {
                for (n = 0, lower = upper = false; n < want; ++n) {
                    const char d = at(q + 2 + n);
                    if (d >= 'a' && d <= 'f') lower = true;
                    else if (d >= 'A' && d <= 'F') upper = true;
                    else if (!digit(d)) return false;
                }
                return !(lower && upper);
            };
            return length(8) ? 10 : length(4) ? 6 : -2;
        }
        if (c == '\'') {
            auto e = q + 2;
            while (e < s.size() && s[e] != '\'' && !newline(s[e])) ++e;
            if (at(e) != '\'') return -2;
            bool good = e > q + 2 && s[q + 2] != ' ' && s[e - 1] != ' ';
            for (auto k = q + 2; k < e; ++k) good = good && ((s[k] >= 'A' && s[k] <= 'Z') || digit(s[k]) || s[k] == ' ' || s[k] == '-');
            return int(e + 1 - q) * (good ? 1 : -1);
        }
        if (c == '{' || c == '}' || c == '\\' || c == '"') return 2;
        if (newline(c)) return s.compare(q + 1, 2, "\r\n") == 0 ? 3 : 2;
        if (start(c) || c == ':' || c == '*' || c == '(' || c == ' ') return 0;
        int n = 2;
        if (c & 0x80) {
            if (!(c & 0x40)) throw Unspecified {};
            while (at(q + std::size_t(n)) & 0x80 && !(at(q + std::size_t(n)) & 0x40)) ++n;
        }
        return -n;
    }

    void text(Text kind)
    {
        int braces = 0;
        const unsigned plain = kind == string ? ULIGHT_HL_STRING : kind == member_name ? ULIGHT_HL_MARKUP_ATTR : 0;
        auto from = p;
        const auto flush = [&] {
            if (plain) put(r, from, p - from, plain);
        };
        while (!eof()) {
            const char c = s[p];
            if (kind >= string && c == '"') break;
            if (kind == block && c == '}' && braces-- == 0) break;
            if (kind == block && c == '{') ++braces;
            if (c != '\\') {
                ++p;
                continue;
            }
            flush();
            if (const int n = escape(p)) {
                if (newline(at(p + 1))) {
                    // Only the backslash is highlighted.
                    token(1, ULIGHT_HL_STRING_ESCAPE);
                    from = p;
                    if (plain) p += std::size_t(n) - 1;
                    continue;
                }
                else token(std::size_t(std::abs(n)), n < 0 ? ULIGHT_HL_ERROR : ULIGHT_HL_STRING_ESCAPE);
            }
            else if (const auto l = name(p + 1)) {
                token(1 + l, ULIGHT_HL_MARKUP_TAG);
                if (at(p) == '(') group();
                if (at(p) == '{') braced();
            }
            else if (at(p + 1) == '(') {
                token(2, ULIGHT_HL_STRING_INTERPOLATION_DELIM);
                elements(in_splice);
                if (at(p) == ')') token(1, ULIGHT_HL_STRING_INTERPOLATION_DELIM);
            }
            else if (!take_comment()) {
                // The rest of the line is an expression; there has to be one.
                if (s.find_first_of("\r\n", p) == s.npos) throw Unspecified {};
                token(2, ULIGHT_HL_STRING_INTERPOLATION_DELIM);
                elements(in_line);
                if (eof()) return;
                p += has("\r\n") ? 2 : 1;
            }
            from = p;
        }
        flush();
    }
    void braced()
    {
        token(1, ULIGHT_HL_SYMBOL_BRACE);
        text(block);
        if (!eof()) token(1, ULIGHT_HL_SYMBOL_BRACE);
    }
    void group()
    {
        token(1, ULIGHT_HL_SYMBOL_PARENS);
        for (;;) {
            elements(in_group);
            if (at(p) == ',') token(1, ULIGHT_HL_SYMBOL_PUNC);
            else break;
        }
        if (at(p) == ')') token(1, ULIGHT_HL_SYMBOL_PARENS);
    }
    void quoted(unsigned delim, Text kind)
    {
        token(1, delim);
        text(kind);
        if (!eof()) token(1, delim);
    }
    /// A member of a group, or the expression of a splice, and what follows it.
    void elements(Around around)
    {
        bool first = true, after_name = false, after_value = false;
        for (;;) {
            if (around != in_line) blank();
            else
                while (!eof() && !newline(s[p]))
                    if (space(s[p])) ++p;
                    else if (!take_comment()) break;
            if (eof()) return;
            const char c = s[p];
            if (around == in_line && newline(c)) return;
            if (c == ')' || c == '}' || c == ',') {
                // Elsewhere, these are wrong.
                if (around == in_line || (around == in_splice && c == ',')) throw Unspecified {};
                return;
            }
            if (around == in_group && (start(c) || c == '"')) {
                auto e = p + name(p);
                bool closed = true;
                if (c == '"') {
                    for (e = p + 1; e < s.size() && s[e] != '"';) {
                        if (s[e] != '\\') {
                            ++e;
                            continue;
                        }
                        if (const auto q = comment(e)) e = q;
                        else if (const int n = escape(e)) e += std::size_t(std::abs(n));
                        else {
                            // More than a name: it has to be a value.
                            closed = false;
                            break;
                        }
                    }
                    closed = closed && e < s.size();
                    ++e;
                }
                const auto q = after_blank(e);
                if (closed && at(q) == '=' && at(q + 1) != '=') {
                    if (!first) throw Unspecified {};
                    if (c == '"') quoted(ULIGHT_HL_MARKUP_ATTR_DELIM, member_name);
                    else token(e - p, ULIGHT_HL_MARKUP_ATTR);
                    blank();
                    if (p != q) throw Unspecified {};
                    token(1, ULIGHT_HL_SYMBOL_PUNC);
                    first = false;
                    after_name = true;
                    continue;
                }
            }
            // In parentheses, there is an operator between two values.
            const bool is_value = start(c) || digit(c) || c == '.' || c == '"' || c == '{' || c == '(' || has("-infinity");
            if (around == in_splice && is_value && after_value) throw Unspecified {};
            after_value = is_value;
            if (start(c)) {
                const auto n = name(p);
                const auto word = s.substr(p, n);
                const bool keyword = word == "unit" || word == "null" || word == "let" || word == "fun", value = word == "true" || word == "false" || word == "infinity";
                const auto q = after_blank(p + n);
                if (at(q) == '(' || at(q) == '{') {
                    if (keyword || value) throw Unspecified {};
                    if (around == in_line && s.find_first_of("\r\n", p) < q) throw Unspecified {};
                    token(n, ULIGHT_HL_MARKUP_TAG);
                    blank();
                    if (at(p) == '(') {
                        group();
                        if (around == in_line && s.find_first_of("\r\n", p) < after_blank(p)) {
                            if (at(after_blank(p)) == '{' || s.find("\\", p) < after_blank(p)) throw Unspecified {};
                        }
                        else {
                            blank();
                            if (at(p) == '{') braced();
                        }
                    }
                    else braced();
                }
                else {
                    token(n, keyword ? ULIGHT_HL_KEYWORD : word == "infinity" ? ULIGHT_HL_VALUE : value ? ULIGHT_HL_BOOL : ULIGHT_HL_NAME_VAR);
                    if (word == "fun") {
                        while (!eof())
                            if (space(s[p]) && !newline(s[p])) ++p;
                            else if (!take_comment()) break;
                        if (const auto l = name(p)) {
                            token(l, ULIGHT_HL_NAME_FUNCTION_DECL);
                            if (around != in_line) throw Unspecified {};
                        }
                    }
                }
            }
            else if (c == '"') quoted(ULIGHT_HL_STRING_DELIM, string);
            else if (c == '{') braced();
            else if (c == '(') {
                if (!first && !after_name && around != in_line) throw Unspecified {};
                group();
            }
            else if (has("...") && around == in_group) {
                if (!first || at(p + 3) == '.' || digit(at(p + 3))) throw Unspecified {};
                token(3, ULIGHT_HL_NAME_ATTR);
            }
            else if (digit(c) || c == '.') {
                auto e = p;
                while (start(at(e)) || digit(at(e)) || at(e) == '.' || ((at(e) == '+' || at(e) == '-') && (s[e - 1] | 32) == 'e')) e += at(e) == '_' ? s.size() + 1 : 1;
                if (e > s.size()) throw Unspecified {};
                // Numbers have a check of their own: here, only whole numbers.
                for (auto k = p; k < e; ++k)
                    if (!digit(s[k])) throw Unspecified {};
                token(e - p, ULIGHT_HL_NUMBER);
            }
            else if (has("-infinity") && name(p + 1) == 8) {
                token(1, ULIGHT_HL_VALUE_DELIM);
                token(8, ULIGHT_HL_VALUE);
            }
            else if (has("||") || has("&&") || has("==") || has("!=") || has("<=") || has(">=")) token(2, ULIGHT_HL_SYMBOL_OP);
            else if (c && std::strchr("<>+-*/%~!", c)) token(1, ULIGHT_HL_SYMBOL_OP);
            else if (c == '=' && around != in_group) token(1, ULIGHT_HL_SYMBOL_PUNC);
            else throw Unspecified {};
            first = after_name = false;
        }
    }
};

Tokens cowel(const std::string& s)
{
    Cowel c { s, {} };
    c.text(Cowel::document);
    return c.r;
}

struct Space {
    const char* name;
    int lang;
    Tokens (*reference)(const std::string&);
    std::vector<std::string> symbols;
    int quick, thorough;
};

void documents(Ctx& x, const std::vector<Space>& spaces);

void plain(Ctx& x)
{
    const std::vector<Space> spaces {
        { "EBNF, names", ULIGHT_LANG_EBNF, ebnf, { "a", "B", "_", "1", "-", " ", "=", ";", "(*", "*)", "'" }, 6, 7 },
        { "EBNF, symbols", ULIGHT_LANG_EBNF, ebnf, { "a", "(", ")", "*", "/", ":", "?", "\"", "'", "\n" }, 6, 7 },
        { "EBNF, all", ULIGHT_LANG_EBNF, ebnf,
            { "a", "Z", "9", "_", " ", "\t", "\r", "\n", "\v", "(", ")", "[", "]", "{", "}", "=", ",", ";", ".", "|", "!", "*", "/", ":", "-", "?", "'", "\"", "`", "#", "%", "<", "@" }, 4, 5 },
        { "TeX", ULIGHT_LANG_TEX, tex, { "\\", "a", "Z", "1", "{", "]", "%", "\n", " ", "@", "\xc3\xa4" }, 6, 7 },
        { "LaTeX", ULIGHT_LANG_LATEX, tex, { "\\", "b", "[", "}", "$", "&", "~", "^", "_", "#", "\xf0\x90\x80\x80" }, 6, 7 },
        { "TeX, all", ULIGHT_LANG_TEX, tex, [] { std::vector<std::string> v; for (int c = 1; c < 128; ++c) v.emplace_back(1, char(c)); return v; }(), 3, 3 },
        { "LaTeX, all", ULIGHT_LANG_LATEX, tex, [] { std::vector<std::string> v; for (int c = 1; c < 128; ++c) v.emplace_back(1, char(c)); return v; }(), 3, 3 },
        { "diffs", ULIGHT_LANG_DIFF, diff, { "-", "+", "*", "@", "!", " ", "\n", "\r", "a" }, 7, 8 },
        { "diffs, lines", ULIGHT_LANG_DIFF, diff, { "--- ", "---", "+++ ", "@@ ", "*** ", "***", "-", "\n", "\r\n", " ", "@@" }, 6, 7 },
        { "diffs, all", ULIGHT_LANG_DIFF, diff, [] { std::vector<std::string> v; for (int c = 1; c < 128; ++c) v.emplace_back(1, char(c)); return v; }(), 3, 3 },
        { "plain text", ULIGHT_LANG_TXT, nothing, { "a", "1", "\"", "<", "/", "*", "#", "\n", " ", "\\", "{" }, 5, 6 },
    };
    documents(x, spaces);
}

void markdown_structure(Ctx& x)
{
    documents(x, {
        { "Markdown, marks", ULIGHT_LANG_MARKDOWN, markdown, { "#", "-", "+", "1", ".", ">", " ", "\t", "a", "=", "*", "\n" }, 6, 7 },
        { "Markdown, fences", ULIGHT_LANG_MARKDOWN, markdown, { "```", "~~~", "`", "~", " ", "    ", "a", "\t", "\n", "\r\n" }, 6, 7 },
        { "Markdown, lines", ULIGHT_LANG_MARKDOWN, markdown, { "```\n", "~~~\n", "````\n", "~~~~~\n", "a\n", "# b\n", "- c\n", "> d\n", "    e\n", "\n", "<!--\n", "-->\n", "---\n", " ```\n", "```f\n", "12) g\n", "```\t\n" }, 5, 6 },
        { "Markdown, comments", ULIGHT_LANG_MARKDOWN, markdown, { "<!--", "-->", "-", ">", "a", " ", "\n", "# ", "`", "    " }, 6, 7 },
        { "Markdown, code spans", ULIGHT_LANG_MARKDOWN, markdown, { "`", "``", "a", " ", "*", "\\", "<", ">", "\n", "&amp;" }, 6, 7 },
        { "Markdown, emphasis", ULIGHT_LANG_MARKDOWN, markdown, { "*", "**", "_", "__", "a", " ", ".", "`b`", "\n" }, 7, 8 },
        { "Markdown, links", ULIGHT_LANG_MARKDOWN, markdown, { "[", "]", "(", ")", "!", "a", " ", "\\", "<", ">", "](b" }, 6, 7 },
        { "Markdown, links in text", ULIGHT_LANG_MARKDOWN, markdown, { "[a](b)", "![", "](", "c", ")", "](d \"e\")", "<", ">", "*", "`f`", " ", "\\" }, 5, 6 },
        { "Markdown, references", ULIGHT_LANG_MARKDOWN, markdown, { "&", "#", "x", "a", "1", "f", ";", "g", "\\", " " }, 6, 7 },
        { "Markdown, automatic links", ULIGHT_LANG_MARKDOWN, markdown, { "<", "ab", ":", "@", ">", "/", "1", " ", "*", "\n" }, 6, 7 },
        { "Markdown, headings", ULIGHT_LANG_MARKDOWN, markdown, { "# ", "#", "###", "a", " ", "\\", "`b`", "*c*", "&lt;", "\n" }, 6, 7 },
        { "Markdown, quotes", ULIGHT_LANG_MARKDOWN, markdown, { "> ", ">", "# ", "- ", "a", "    ", "*b*", "\n", "---" }, 6, 7 },
        { "Markdown, numbers", ULIGHT_LANG_MARKDOWN, markdown, { "12345678", "9", "0", ".", ")", " ", "a", "\n", "    " }, 6, 7 },
        { "Markdown, escapes", ULIGHT_LANG_MARKDOWN, markdown, [] { std::vector<std::string> v; for (int c = 1; c < 128; ++c) v.push_back(std::string("\\") + char(c)); v.push_back("a"); v.push_back("\n"); return v; }(), 2, 3 },
        { "Markdown, all", ULIGHT_LANG_MARKDOWN, markdown, [] { std::vector<std::string> v; for (int c = 1; c < 128; ++c) v.emplace_back(1, char(c)); return v; }(), 3, 3 },
    });
}

void css_structure(Ctx& x)
{
    const auto ascii = [] { std::vector<std::string> v; for (int c = 1; c < 128; ++c) v.emplace_back(1, char(c)); return v; };
    documents(x, {
        { "CSS, blocks", ULIGHT_LANG_CSS, css, { "a", ":", ";", "{", "}", "@b", ".c", "#d", " ", "1px" }, 6, 7 },
        { "CSS, values", ULIGHT_LANG_CSS, css, { "a{b:", "c", "d(", ")", "#e0f", "1", "%", "!important", ";", ",", "+", " ", "}" }, 5, 6 },
        { "CSS, selectors", ULIGHT_LANG_CSS, css, { "a", ".", "#", ":", ">", "+", "~", "*", "[", "]", "=\"b\"", " ", "{" }, 5, 6 },
        { "CSS, at-rules", ULIGHT_LANG_CSS, css, { "@media", "@", " ", "a", "(", ":", ")", ">", "{", "}", ";", ",", "\"b\"" }, 5, 6 },
        { "CSS, names", ULIGHT_LANG_CSS, css, { "a", "-", "_", "1", "\xc3\xa9", "\\", "e", " ", "{", ":", "#", "." }, 5, 6 },
        { "CSS, names in values", ULIGHT_LANG_CSS, css, { "{a:", "url", "(", "-", "--", "b", "\\", "4", " ", "#", "URL", "!", "important" }, 5, 6 },
        { "CSS, comments", ULIGHT_LANG_CSS, css, { "/", "*", "a", "{", "}", "\"", "<", "!--", "-->", "\n", ":" }, 6, 7 },
        { "CSS, strings", ULIGHT_LANG_CSS, css, { "\"", "'", "\\", "a", "\n", "\r", "1", "{", "}", " " }, 6, 7 },
        { "CSS, escapes", ULIGHT_LANG_CSS, css, { "\\", "1", "F", "g", " ", "\t", "\r\n", "a", ":", "{" }, 6, 7 },
        { "CSS, important", ULIGHT_LANG_CSS, css, { "a{b:", "c", "!", "important", "IMP", "ORTANT", " ", "\t", "\n", "\r\n", "\f", "/**/", ";", "-" }, 5, 6 },
        { "CSS, all", ULIGHT_LANG_CSS, css, ascii(), 3, 3 },
        { "CSS, rules", ULIGHT_LANG_CSS, css, { "@media x {", "a {", "b: c;", "d: e", "}", " @f g;", ":hover ", "h, i", "\n", "j + k", "/* l */" }, 6, 7 },
    });
}

void cowel_structure(Ctx& x)
{
    const auto ascii = [] { std::vector<std::string> v; for (int c = 1; c < 128; ++c) v.emplace_back(1, char(c)); return v; };
    documents(x, {
        { "cowel, directives", ULIGHT_LANG_COWEL, cowel, { "\\a", "(", ")", "{", "}", "b", ",", "=", "\"", " ", "1" }, 6, 7 },
        { "cowel, groups", ULIGHT_LANG_COWEL, cowel, { "\\a(", "(", ")", "{", "}", "b", ",", " = ", "\"c\"", "...", "==", "+", "\\" }, 6, 7 },
        { "cowel, line splices", ULIGHT_LANG_COWEL, cowel, { "\\ ", "a", " ", "\n", "\r\n", "=", "\"", "\\", "(", ")", "fun", "\\:" }, 6, 7 },
        { "cowel, expression splices", ULIGHT_LANG_COWEL, cowel, { "\\(", ")", "a", " ", "-", "infinity", "(", "{", "}", "\"", "<", "=" }, 6, 7 },
        { "cowel, values", ULIGHT_LANG_COWEL, cowel, { "\\( ", ")", " ", "unit", "true", "let", "fun", "1", "&&", "||", "!", "=", "b", "\n" }, 5, 6 },
        { "cowel, numeric escapes", ULIGHT_LANG_COWEL, cowel, { "\\+", "0", "9", "AF", "f", "g", "\\", " ", "00", "\"" }, 6, 7 },
        { "cowel, named escapes", ULIGHT_LANG_COWEL, cowel, { "\\'", "A", "b", " ", "-", "'", "\n", "9", "_", "\\", "{" }, 6, 7 },
        { "cowel, escapes", ULIGHT_LANG_COWEL, cowel, [] { std::vector<std::string> v; for (int c = 1; c < 128; ++c) v.push_back(std::string("\\") + char(c)); v.push_back("a"); v.push_back("\n"); return v; }(), 2, 3 },
        { "cowel, blocks", ULIGHT_LANG_COWEL, cowel, { "\\a{", "{", "}", "\\", "\"", "\\:", "\n", "\\*", "*\\", "b", "(" }, 6, 7 },
        { "cowel, strings", ULIGHT_LANG_COWEL, cowel, { "\\a(", "\"", "\\", "\\c", "{", "}", ")", "=", "b", "\\:", "\n", "\\*" }, 6, 7 },
        { "cowel, parts", ULIGHT_LANG_COWEL, cowel, { "\\a", "(b, c = 1)", "{d}", "(", ")", "{", "}", "\"e \\f{} g\"", " ", "\\(h{i})", "\\ j\n", "\\: k\n", "\\\"" }, 5, 6 },
        { "cowel, comments", ULIGHT_LANG_COWEL, cowel, { "\\a", "(", ")", "{", "}", "\\*b*\\", "\\:c", "\n", "d", "=", ",", " " }, 6, 7 },
        { "cowel, comments in expressions", ULIGHT_LANG_COWEL, cowel, { "\\ ", "\\(", "\\*a*\\", "\\*\n*\\", "\\:b", "\n", "fun", "let", "c", "(", ")", "{}", " ", "=", "1" }, 5, 6 },
        { "cowel, all", ULIGHT_LANG_COWEL, cowel, ascii(), 3, 3 },
    });
}

// ------------------------------------------------------------------------------------------------------------ YAML

/// A recursive-descent reading of YAML 1.2 documents; anything that is not well-formed, and anything of which the
/// appearance is left open, is `Unspecified`.
struct Yaml {
    const std::string& s;
    Tokens r;
    std::size_t p = 0;

    explicit Yaml(const std::string& text)
        : s(text)
    {
    }

    static bool white(char c) { return c == ' ' || c == '\t'; }
    static bool in(char c, const char* set) { return c && std::strchr(set, c); }
    char at(std::size_t i) const { return i < s.size() ? s[i] : '\0'; }
    bool newline(std::size_t i) const { return at(i) == '\n' || at(i) == '\r'; }
    bool line_end(std::size_t i) const { return i >= s.size() || newline(i); }
    bool separated(std::size_t i) const { return line_end(i) || white(s[i]); }
    std::size_t after_newline(std::size_t i) const { return at(i) == '\r' && at(i + 1) == '\n' ? i + 2 : i + 1; }
    std::size_t spaces(std::size_t i) const
    {
        std::size_t n = 0;
        while (at(i + n) == ' ') ++n;
        return n;
    }
    std::size_t blanks(std::size_t i) const
    {
        std::size_t n = 0;
        while (white(at(i + n))) ++n;
        return n;
    }
    void emit(std::size_t n, unsigned type)
    {
        put(r, p, n, type);
        p += n;
    }
    /// Moves to a position on the same line.
    void until(std::size_t e, unsigned type) { emit(e - p, type); }

    void comment()
    {
        if (p && !white(s[p - 1]) && !newline(p - 1)) throw Unspecified {};
        emit(1, ULIGHT_HL_COMMENT_DELIM);
        std::size_t e = p;
        while (!line_end(e)) ++e;
        until(e, ULIGHT_HL_COMMENT);
    }
    /// The rest of a line has to be blank or a comment.
    void end_line()
    {
        p += blanks(p);
        if (at(p) == '#') comment();
        if (!line_end(p)) throw Unspecified {};
        if (p < s.size()) p = after_newline(p);
    }
    /// At the start of a line: moves to the start of the next line that has something else than a comment.
    void skip_lines()
    {
        while (p < s.size()) {
            const std::size_t e = p + blanks(p);
            if (at(e) == '#') {
                p = e;
                comment();
            }
            else if (!line_end(e)) return;
            else p = e;
            if (p < s.size()) p = after_newline(p);
        }
    }
    bool marker(const char* m, std::size_t i) const { return (i == 0 || newline(i - 1)) && s.compare(i, 3, m) == 0 && separated(i + 3); }
    bool marker() const { return marker("---", p) || marker("...", p); }

    // Scalars.

    enum class Kind { plain, special, number, open };
    static Kind kind(const std::string& t)
    {
        static const std::vector<std::string> bools { "true", "True", "TRUE", "false", "False", "FALSE", "yes", "Yes", "YES", "no", "No", "NO", "on", "On", "ON", "off", "Off", "OFF", "null", "Null", "NULL", "~" };
        if (std::find(bools.begin(), bools.end(), t) != bools.end()) return Kind::special;
        const auto digit = [](char c) { return c >= '0' && c <= '9'; };
        std::size_t i = t[0] == '-' || t[0] == '+' ? 1 : 0;
        if (i == t.size() || (!digit(t[i]) && t[i] != '.')) return Kind::plain;
        if (t[i] == '.' && t.find_first_of("0123456789nNiI") == std::string::npos) return i ? Kind::open : Kind::plain;
        const std::size_t from = i;
        while (i < t.size() && digit(t[i])) ++i;
        if (i == t.size() && t[0] != '+') return Kind::number;
        if (i < t.size() && t[i] == '.' && i > from && t[0] != '+') {
            const std::size_t k = ++i;
            while (i < t.size() && digit(t[i])) ++i;
            if (i == t.size() && i > k) return Kind::number;
        }
        if (digit(t[from]) && t.find_first_not_of("0123456789abcdefABCDEFxXoO.+-_:") != std::string::npos) return Kind::plain;
        return Kind::open;
    }
    static unsigned special_type(const std::string& t) { return t == "~" || t[1] == 'u' || t[1] == 'U' ? ULIGHT_HL_NULL : ULIGHT_HL_BOOL; }

    /// Whether the `:` at `i` separates a key from a value.
    bool value(std::size_t i, bool flow) const { return at(i) == ':' && (separated(i + 1) || (flow && in(at(i + 1), ",[]{}"))); }

    bool plain_start(std::size_t i, bool flow) const
    {
        if (line_end(i)) return false;
        if (in(at(i), "-?:")) return !separated(i + 1) && !(flow && in(at(i + 1), ",[]{}"));
        return !white(at(i)) && !in(at(i), ",[]{}#&*!|>'\"%@`");
    }
    /// The end of the part of a plain scalar that is on the line.
    std::size_t plain_end(std::size_t i, bool flow) const
    {
        std::size_t e = i;
        for (std::size_t k = i; !line_end(k); ++k) {
            const char c = s[k];
            if (white(c)) continue;
            if (c == '#' && k > i && white(s[k - 1])) break;
            if (flow && in(c, ",[]{}")) break;
            if (value(k, flow)) {
                if (k == i) throw Unspecified {};
                break;
            }
            e = k + 1;
        }
        return e;
    }
    void plain_text(std::size_t e, unsigned normal)
    {
        const std::string t = s.substr(p, e - p);
        const Kind k = kind(t);
        if (k == Kind::open) throw Unspecified {};
        until(e, k == Kind::plain ? normal : k == Kind::number ? unsigned(ULIGHT_HL_NUMBER) : special_type(t));
    }

    /// The end of a quoted scalar that has to be on one line; npos if it is not.
    std::size_t quoted_end(std::size_t i) const
    {
        const char q = s[i];
        for (std::size_t k = i + 1; !line_end(k); ++k) {
            if (q == '"' && s[k] == '\\') {
                if (line_end(++k)) break;
            }
            else if (s[k] == q) {
                if (q == '\'' && at(k + 1) == q) ++k;
                else return k + 1;
            }
        }
        return std::string::npos;
    }

    /// At the end of a line in a scalar or flow collection below a collection that is indented by `n`.
    void fold(long n)
    {
        p = after_newline(p);
        while (line_end(p + spaces(p)) && p + spaces(p) < s.size()) p = after_newline(p + spaces(p));
        const std::size_t c = spaces(p);
        if (long(c) <= n || p + c >= s.size() || at(p + c) == '\t' || marker()) throw Unspecified {};
        p += c;
    }

    void quoted(long n)
    {
        const char q = s[p];
        emit(1, ULIGHT_HL_STRING_DELIM);
        std::size_t from = p;
        const auto flush = [&](std::size_t e) { put(r, from, e - from, ULIGHT_HL_STRING); };
        while (true) {
            if (p >= s.size()) throw Unspecified {};
            if (newline(p)) {
                flush(p);
                fold(n);
                from = p;
            }
            else if (s[p] == q) {
                if (q == '\'' && at(p + 1) == q) {
                    p += 2;
                    continue;
                }
                flush(p);
                emit(1, ULIGHT_HL_STRING_DELIM);
                return;
            }
            else if (q == '"' && s[p] == '\\') {
                flush(p);
                std::size_t length = 2;
                if (newline(p + 1)) {
                    length = after_newline(p + 1) - p;
                    put(r, p, length, ULIGHT_HL_STRING_ESCAPE);
                    ++p;
                    fold(n);
                    // The white space at the start of the next line is not part of the text.
                    from = p;
                    continue;
                }
                const char c = at(p + 1);
                if (in(c, "xuU")) {
                    length += c == 'x' ? 2 : c == 'u' ? 4 : 8;
                    for (std::size_t k = 2; k < length; ++k)
                        if (!in(at(p + k), "0123456789abcdefABCDEF")) throw Unspecified {};
                }
                else if (!in(c, "0abtnvfre \"/\\N_LP\t")) throw Unspecified {};
                emit(length, ULIGHT_HL_STRING_ESCAPE);
                from = p;
            }
            else ++p;
        }
    }

    void name()
    {
        emit(1, ULIGHT_HL_NAME_ATTR_DELIM);
        std::size_t e = p;
        while (!separated(e) && !in(s[e], ",[]{}")) ++e;
        if (e == p || s[e - 1] == ':') throw Unspecified {};
        until(e, ULIGHT_HL_NAME);
    }

    bool properties()
    {
        bool tag = false, anchor = false;
        while (at(p) == '!' || at(p) == '&') {
            bool& seen = at(p) == '!' ? tag : anchor;
            if (seen) throw Unspecified {};
            seen = true;
            if (at(p) == '&') name();
            else {
                const auto word = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-'; };
                std::size_t e = p + 1;
                if (at(e) == '<') {
                    emit(2, ULIGHT_HL_NAME_ATTR_DELIM);
                    e = p;
                    while (!separated(e) && s[e] != '>') ++e;
                    if (at(e) != '>' || e == p) throw Unspecified {};
                    until(e, ULIGHT_HL_NAME_ATTR);
                    emit(1, ULIGHT_HL_NAME_ATTR_DELIM);
                }
                else {
                    bool suffix = false;
                    while (word(at(e))) ++e;
                    if (at(e) == '!') {
                        emit(1, ULIGHT_HL_NAME_ATTR_DELIM);
                        until(e, ULIGHT_HL_NAME_ATTR);
                        emit(1, ULIGHT_HL_NAME_ATTR_DELIM);
                        suffix = true;
                    }
                    else emit(1, ULIGHT_HL_NAME_ATTR_DELIM);
                    e = p;
                    while (!separated(e) && !in(s[e], ",[]{}#&*!<>")) ++e;
                    if (suffix && e == p) throw Unspecified {};
                    until(e, ULIGHT_HL_NAME_ATTR);
                }
            }
            if (!separated(p) && !in(at(p), ",]}")) throw Unspecified {};
            p += blanks(p);
        }
        return tag || anchor;
    }

    // Flow collections.

    void flow_space(long n)
    {
        while (true) {
            p += blanks(p);
            if (at(p) == '#') comment();
            if (p >= s.size()) throw Unspecified {};
            if (!newline(p)) return;
            fold(n);
            if (at(p) == '#') continue;
        }
    }

    /// Whether the node at `i` is the key of a pair in a flow sequence.
    bool flow_key(std::size_t i) const
    {
        if (in(s[i], "\"'")) {
            const std::size_t e = quoted_end(i);
            return e != std::string::npos && at(e + blanks(e)) == ':';
        }
        if (!plain_start(i, true)) return false;
        const std::size_t e = plain_end(i, true);
        return value(e + blanks(e), true);
    }

    bool empty_node = false;
    /// Returns whether the node is like JSON.
    bool flow_node(long n, bool key)
    {
        properties();
        empty_node = in(at(p), ",]}") || newline(p) || p >= s.size() || value(p, true);
        if (empty_node) return false;
        if (in(at(p), "[{")) {
            flow(n);
            empty_node = false;
            return true;
        }
        if (at(p) == '*') {
            name();
            return false;
        }
        if (in(at(p), "\"'")) {
            if (key) {
                const std::size_t e = quoted_end(p);
                if (e == std::string::npos) throw Unspecified {};
                until(e, ULIGHT_HL_MARKUP_ATTR);
            }
            else quoted(n);
            return true;
        }
        if (!plain_start(p, true)) throw Unspecified {};
        const std::size_t e = plain_end(p, true);
        const bool special = kind(s.substr(p, e - p)) != Kind::plain;
        if (special && key) throw Unspecified {};
        plain_text(e, key ? ULIGHT_HL_MARKUP_ATTR : ULIGHT_HL_STRING);
        // More lines.
        std::size_t k = e + blanks(e);
        while (newline(k)) k = after_newline(k), k += blanks(k);
        if (k > e + blanks(e) && !in(at(k), ",]}#")) throw Unspecified {};
        return false;
    }

    void flow(long n)
    {
        const bool map = s[p] == '{';
        const unsigned type = map ? ULIGHT_HL_SYMBOL_BRACE : ULIGHT_HL_SYMBOL_SQUARE;
        emit(1, type);
        bool first = true;
        while (true) {
            flow_space(n);
            if (at(p) == (map ? '}' : ']')) break;
            if (!first) {
                if (at(p) != ',') throw Unspecified {};
                emit(1, ULIGHT_HL_SYMBOL_PUNC);
                flow_space(n);
                if (at(p) == (map ? '}' : ']')) break;
            }
            first = false;
            bool pair = map;
            const std::size_t from = p;
            if (at(p) == '?' && separated(p + 1)) {
                emit(1, ULIGHT_HL_SYMBOL_PUNC);
                flow_space(n);
                pair = true;
            }
            else if (at(p) == ':') {
                if (!plain_start(p, true)) throw Unspecified {}; // an empty key
            }
            else if (at(p) == ',') throw Unspecified {};
            std::size_t k = p;
            if (!map && !pair) {
                // An implicit key is on one line.
                const std::size_t saved = p;
                const Tokens tokens = r;
                properties();
                k = p;
                pair = !newline(k) && k < s.size() && !in(at(k), ",]}*[{") && flow_key(k);
                p = saved;
                r = tokens;
            }
            const bool json = flow_node(n, pair);
            const std::size_t end = p;
            const bool empty = empty_node;
            flow_space(n);
            if (at(p) == ':' && (value(p, true) || json)) {
                if (empty) throw Unspecified {};
                for (std::size_t i = map ? end : from; i < p; ++i)
                    if (newline(i)) throw Unspecified {}; // a key of many lines
                emit(1, ULIGHT_HL_SYMBOL_PUNC);
                flow_space(n);
                if (!in(at(p), ",]}")) flow_node(n, false);
            }
        }
        emit(1, type);
    }

    // Blocks.

    void block_scalar(long n)
    {
        emit(1, ULIGHT_HL_STRING_DELIM);
        long explicit_indent = -1;
        bool chomping = false;
        for (int k = 0; k < 2; ++k) {
            if (!chomping && in(at(p), "+-")) chomping = true;
            else if (explicit_indent < 0 && at(p) >= '1' && at(p) <= '9') explicit_indent = at(p) - '0';
            else break;
            emit(1, ULIGHT_HL_NUMBER_DECOR);
        }
        if (!separated(p)) throw Unspecified {};
        end_line();
        std::size_t leading = 0;
        while (newline(p + spaces(p))) {
            leading = std::max(leading, spaces(p));
            p = after_newline(p + spaces(p));
        }
        const long first = long(spaces(p));
        if (p + spaces(p) >= s.size()) {
            p = s.size();
            return;
        }
        const long least = explicit_indent < 0 ? first : std::max(n, 0L) + explicit_indent;
        if (least <= n || first < least || marker()) return; // no content
        if (long(leading) > least) throw Unspecified {};
        while (p < s.size()) {
            const long c = long(spaces(p));
            if (c <= least && line_end(p + std::size_t(c))) {
                p += std::size_t(c);
                if (p < s.size()) p = after_newline(p);
                continue;
            }
            if (marker()) return;
            if (c < least) {
                if (c > n && at(p + std::size_t(c)) != '#') throw Unspecified {};
                return;
            }
            p += std::size_t(std::min(c, first));
            std::size_t e = p;
            while (!line_end(e)) ++e;
            until(e, ULIGHT_HL_STRING);
            if (p < s.size()) p = after_newline(p);
        }
    }

    /// A plain scalar of any number of lines, with the rest of its last line.
    void block_plain(long n)
    {
        std::size_t e = plain_end(p, false);
        if (value(e + blanks(e), false)) throw Unspecified {};
        const bool special = kind(s.substr(p, e - p)) != Kind::plain;
        plain_text(e, ULIGHT_HL_STRING);
        while (true) {
            if (at(p + blanks(p)) == '#') break;
            std::size_t k = p + blanks(p);
            if (!line_end(k)) throw Unspecified {};
            while (k < s.size() && newline(k)) {
                k = after_newline(k);
                if (line_end(k + blanks(k))) k += blanks(k);
            }
            if (k >= s.size() || at(k + blanks(k)) == '#') break;
            const std::size_t c = spaces(k);
            if (long(c) <= n || marker("---", k) || marker("...", k)) break;
            if (!plain_start(k + c, false)) throw Unspecified {};
            p = k + c;
            e = plain_end(p, false);
            if (special || value(e + blanks(e), false) || kind(s.substr(p, e - p)) != Kind::plain) throw Unspecified {};
            until(e, ULIGHT_HL_STRING);
        }
        end_line();
    }

    /// A node that is not a block collection. With the rest of its last line.
    void leaf(long n)
    {
        if (at(p) == '|' || at(p) == '>') return block_scalar(n);
        if (plain_start(p, false)) return block_plain(n);
        if (in(at(p), "\"'")) quoted(n);
        else if (in(at(p), "[{")) flow(n);
        else if (at(p) == '*') name();
        else throw Unspecified {};
        end_line();
    }

    bool entry(char c) const { return at(p) == c && separated(p + 1); }

    /// The length of the implicit key without properties; npos if there is none.
    std::size_t key_length()
    {
        std::size_t e;
        if (in(at(p), "\"'")) {
            e = quoted_end(p);
            if (e == std::string::npos) return e;
        }
        else if (in(at(p), "[{")) {
            const std::size_t saved = p;
            const Tokens tokens = r;
            flow(1000000000); // on one line
            e = p;
            p = saved;
            r = tokens;
        }
        else if (at(p) == '*') {
            e = p + 1;
            while (!separated(e) && !in(s[e], ",[]{}")) ++e;
            if (s[e - 1] == ':') throw Unspecified {}; // part of the name
        }
        else {
            if (!plain_start(p, false)) return std::string::npos;
            e = plain_end(p, false);
        }
        return value(e + blanks(e), false) ? e - p : std::string::npos;
    }
    bool is_key()
    {
        const std::size_t saved = p;
        const Tokens tokens = r;
        bool result = false;
        properties();
        if (in(at(p), "[{")) {
            // A collection of many lines is not a key.
            try {
                result = key_length() != std::string::npos;
            } catch (const Unspecified&) {
            }
        }
        else result = !line_end(p) && at(p) != '#' && key_length() != std::string::npos;
        p = saved;
        r = tokens;
        return result;
    }

    /// After the properties of a node or the indicator of an entry. At the end of the line, or a node on the same line.
    void after_indicator(std::size_t indent)
    {
        const std::size_t n = blanks(p);
        p += n;
        if (line_end(p) || at(p) == '#') {
            end_line();
            nested_block(long(indent), false);
            return;
        }
        const bool tabs = s.substr(p - n, n).find('\t') != std::string::npos;
        const bool collection = entry('-') || entry('?') || is_key();
        if (collection) {
            if (tabs) throw Unspecified {};
            block(indent + 1 + n, long(indent));
        }
        else node(long(indent), false);
    }

    /// At the start of a line: a block node that is indented by more than `n`, if there is one.
    void nested_block(long n, bool sequence_at_n)
    {
        skip_lines();
        if (p >= s.size() || marker()) return;
        const std::size_t c = spaces(p);
        if (at(p + c) == '\t') throw Unspecified {};
        if (long(c) <= n) {
            const std::size_t saved = p;
            p += c;
            const bool sequence = sequence_at_n && long(c) == n && entry('-');
            if (sequence) block(c, n - 1);
            else p = saved;
            return;
        }
        p += c;
        block(c, n);
    }

    /// At a node in a line that is not a block collection; its properties may be followed by one.
    void node(long n, bool sequence_at_n)
    {
        if (properties() && (line_end(p) || at(p) == '#')) {
            end_line();
            nested_block(n, sequence_at_n);
            return;
        }
        leaf(n);
    }

    /// A block node at column `c`, below a collection that is indented by `n`.
    void block(std::size_t c, long n)
    {
        if (entry('-')) {
            while (true) {
                emit(1, ULIGHT_HL_SYMBOL_PUNC);
                after_indicator(c);
                if (!next(c, n)) return;
                if (!entry('-')) {
                    p -= c;
                    return; // of a sequence that is indented as the mapping it is in
                }
            }
        }
        if (entry('?') || is_key()) {
            bool pending = false; // a key without its value
            while (true) {
                if (entry('?')) {
                    emit(1, ULIGHT_HL_SYMBOL_PUNC);
                    after_indicator(c);
                    pending = true;
                }
                else if (pending && entry(':')) {
                    emit(1, ULIGHT_HL_SYMBOL_PUNC);
                    after_indicator(c);
                    pending = false;
                }
                else {
                    pending = false;
                    if (!is_key()) throw Unspecified {};
                    properties();
                    emit(key_length(), ULIGHT_HL_MARKUP_ATTR);
                    p += blanks(p);
                    emit(1, ULIGHT_HL_SYMBOL_PUNC);
                    p += blanks(p);
                    if (line_end(p) || at(p) == '#') {
                        end_line();
                        nested_block(long(c), true);
                    }
                    else node(long(c), true);
                }
                if (!next(c, n)) return;
            }
        }
        node(n, false);
        // Nothing else may be in the same node.
        next(c, n, true);
    }

    /// Moves to the next entry of a collection at column `c`; whether there is one.
    bool next(std::size_t c, long n, bool none = false)
    {
        skip_lines();
        if (p >= s.size() || marker()) return false;
        const std::size_t i = spaces(p);
        if (at(p + i) == '\t') throw Unspecified {};
        if (long(i) <= n) return false;
        if (none || i != c) throw Unspecified {};
        p += c;
        return true;
    }

    void stream()
    {
        bool start = true; // of a document
        while (true) {
            skip_lines();
            if (p >= s.size()) return;
            if (at(p) == '%') {
                if (!start) throw Unspecified {};
                while (at(p) == '%') {
                    emit(1, ULIGHT_HL_NAME_MACRO_DELIM);
                    std::size_t e = p;
                    while (!separated(e)) ++e;
                    if (e == p) throw Unspecified {};
                    until(e, ULIGHT_HL_NAME_MACRO);
                    while (true) {
                        p += blanks(p);
                        if (line_end(p) || at(p) == '#') break;
                        e = p;
                        while (!separated(e)) ++e;
                        until(e, ULIGHT_HL_STRING);
                    }
                    end_line();
                    skip_lines();
                }
                if (!marker("---", p)) throw Unspecified {};
            }
            start = false;
            if (marker("...", p)) {
                emit(3, ULIGHT_HL_SYMBOL_PUNC);
                end_line();
                start = true;
                continue;
            }
            if (marker("---", p)) {
                emit(3, ULIGHT_HL_SYMBOL_PUNC);
                p += blanks(p);
                if (line_end(p) || at(p) == '#') {
                    end_line();
                    nested_block(-1, false);
                }
                else {
                    if (entry('-') || entry('?') || is_key()) throw Unspecified {};
                    node(-1, false);
                }
            }
            else nested_block(-1, false);
            skip_lines();
            if (p < s.size() && !marker()) throw Unspecified {};
        }
    }
};

/// Without white space at the end, which may be in a plain scalar or not, and with parts of a kind joined.
Tokens trimmed(const Tokens& t, const std::string& s)
{
    Tokens r;
    for (auto k : t) {
        // The indentation after an escaped line break.
        const bool broken = k.begin && k.type == ULIGHT_HL_STRING && !r.empty() && r.back().type == ULIGHT_HL_STRING_ESCAPE && r.back().begin + r.back().length == k.begin && (s[k.begin - 1] == '\n' || s[k.begin - 1] == '\r');
        while (broken && k.length && s[k.begin] == ' ') ++k.begin, --k.length;
        while (k.length && (s[k.begin + k.length - 1] == ' ' || s[k.begin + k.length - 1] == '\t') && k.type != ULIGHT_HL_STRING_ESCAPE && k.type != ULIGHT_HL_COMMENT) --k.length;
        if (!k.length) continue;
        if (!r.empty() && r.back().type == k.type && r.back().begin + r.back().length == k.begin) r.back().length += k.length;
        else r.push_back(k);
    }
    return r;
}

Tokens yaml(const std::string& s)
{
    Yaml y { s };
    y.stream();
    return trimmed(y.r, s);
}

void yaml_structure(Ctx& x)
{
    documents(x, {
        { "yaml, blocks", ULIGHT_LANG_YAML, yaml, { "a", "b: ", "- ", "-", ":", "\n", "  ", " ", "#" }, 7, 8 },
        { "yaml, nested", ULIGHT_LANG_YAML, yaml, { "a: ", "- ", "? ", ": ", "\n", " ", "  ", "b\n", "|\n", "&c " }, 6, 7 },
        { "yaml, plain scalars", ULIGHT_LANG_YAML, yaml, { "a", ":", " ", "#", "-", "\n", ",", "[", "'", "\"", "?" }, 6, 7 },
        { "yaml, special values", ULIGHT_LANG_YAML, yaml, { "k: ", "true", "null", "~", "12", "-", ".5", " ", "a", ",", "\n", "#", "[", "]" }, 5, 6 },
        { "yaml, flow collections", ULIGHT_LANG_YAML, yaml, { "[", "]", "{", "}", ",", ": ", ":", "a", "\n", " ", "\"b\"" }, 6, 7 },
        { "yaml, flow pairs", ULIGHT_LANG_YAML, yaml, { "k: [", "]", "{", "}", ", ", ": ", "? ", "'b'", "c", "*d ", "!e ", "\n ", "# f\n" }, 5, 6 },
        { "yaml, double quotes", ULIGHT_LANG_YAML, yaml, { "\"", "\\", "a", "\n", "\r\n", " ", "x41", "u00e4", ": ", "#", "'" }, 6, 7 },
        { "yaml, single quotes", ULIGHT_LANG_YAML, yaml, { "'", "\\", "a", "\n", "  ", ": ", "#", "\"", "- " }, 6, 7 },
        { "yaml, block scalars", ULIGHT_LANG_YAML, yaml, { "a: |", "- >", "\n", " ", "x", "2", "-", "#", "b: ", "\r\n" }, 7, 8 },
        { "yaml, block scalar lines", ULIGHT_LANG_YAML, yaml, { "--- |\n", "- a: |\n", ">\n", "  x: y\n", "   z\n", "\n", " \n", "    - w\n", "  \tv\n", "u\n", "---\n", " # t\n" }, 5, 6 },
        { "yaml, properties", ULIGHT_LANG_YAML, yaml, { "&a", "!", "b", "*", ": ", " ", "\n", "- ", "[", "]", "<", ">" }, 6, 7 },
        { "yaml, documents", ULIGHT_LANG_YAML, yaml, { "---", "...", "%Y", "\n", " ", "a", ": ", "#", "|" }, 6, 7 },
        { "yaml, all", ULIGHT_LANG_YAML, yaml, [] { std::vector<std::string> v; for (int c = 1; c < 128; ++c) v.emplace_back(1, char(c)); return v; }(), 3, 3 },
    });
}

void documents(Ctx& x, const std::vector<Space>& spaces)
{
    for (const auto& sp : spaces) {
        x.set_family(sp.name);
        std::string s;
        const auto check = [&] {
            std::string e;
            Tokens want;
            try {
                want = sp.reference(s);
            } catch (const Unspecified&) {
                return;
            }
            auto got = tokens_of(sp.lang, s, 0, e);
            if (sp.lang == ULIGHT_LANG_CSS) got = merged(got);
            if (sp.lang == ULIGHT_LANG_YAML) got = trimmed(got, s);
            if (!e.empty() || !same(got, want)) x.fail(std::string("document/") + sp.name, "expected" + list(want, s) + ", got" + list(got, s) + " " + e);
            if (want.size() > 1) x.nontrivial();
        };
        const auto rec = [&](auto&& me, int left) -> void {
            if (!s.empty() && x.begin(std::string(sp.name) + " " + s)) check();
            if (!left) return;
            for (const auto& a : sp.symbols) {
                const std::size_t n = s.size();
                s += a;
                me(me, left - 1);
                s.resize(n);
            }
        };
        rec(rec, x.thorough ? sp.thorough : sp.quick);
        x.set_family(std::string(sp.name) + ", long");
        for (const auto& a : sp.symbols)
            for (const auto& b : sp.symbols) {
                if (sp.symbols.size() > 50 && &a != &sp.symbols['\\' - 1] && &a != &sp.symbols['-' - 1]) continue;
                for (std::size_t n : { 7, 8, 9, 63, 64, 65, 1023, 1024, 1025, 4095, 4096, 4097, 8193 }) {
                    s.clear();
                    for (std::size_t i = 0; i < n; ++i) s += i % 2 ? b : a;
                    if (x.begin(std::string(sp.name) + " (" + a + b + ") x " + std::to_string(n))) check();
                    s = std::string(n, 'a') + a + b;
                    if (x.begin(std::string(sp.name) + " a x " + std::to_string(n) + " (" + a + b + ")")) check();
                    s.clear();
                    for (std::size_t i = 0; i < n; ++i) s += a;
                    s += b;
                    if (x.begin(std::string(sp.name) + " " + a + " x " + std::to_string(n) + " " + b)) check();
                }
            }
        s.clear();
    }
}

// ------------------------------------------------------------------------------------------------------ nested

/// Where the text of an element ends: at its end tag.
std::size_t raw_end(const std::string& s, std::size_t from, const std::string& name)
{
    for (std::size_t i = from; i < s.size(); ++i) {
        if (s.compare(i, 2, "</") != 0) continue;
        std::size_t k = 0;
        while (k < name.size() && i + 2 + k < s.size() && std::tolower(static_cast<unsigned char>(s[i + 2 + k])) == name[k]) ++k;
        if (k < name.size() || i + 2 + k >= s.size()) continue;
        if (std::strchr(" \t\n\f\r>/", s[i + 2 + k])) return i;
    }
    return s.size();
}

struct Element {
    const char* open;
    const char* name;
    int lang; // 0: text with character references
    std::vector<std::string> symbols;
};

/// Character references in a text.
Tokens references(const std::string& s)
{
    Tokens r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '&') continue;
        std::size_t k = i + 1;
        const auto all = [&](const char* set) {
            const std::size_t from = k;
            while (k < s.size() && std::strchr(set, s[k])) ++k;
            return k > from && k < s.size() && s[k] == ';';
        };
        bool good;
        if (k < s.size() && s[k] == '#') {
            ++k;
            if (k < s.size() && (s[k] == 'x' || s[k] == 'X')) {
                ++k;
                good = all("0123456789abcdefABCDEF");
            }
            else good = all("0123456789");
        }
        else good = all("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ");
        if (good) put(r, i, k + 1 - i, ULIGHT_HL_STRING_ESCAPE);
    }
    return r;
}

void nested(Ctx& x)
{
    const std::vector<Element> elements {
        { "<script>", "script", ULIGHT_LANG_JAVASCRIPT, { "a", "\"", "`", "/", "/*", "*/", "\n", "</", "</scrip", "</script", "</script>", "</SCRIPT\n>", "</script/>", "</scriptx>", "</style>", ";", "<", "1" } },
        { "<style>", "style", ULIGHT_LANG_CSS, { "a", "\"", "{", "}", ":", "/*", "*/", "\n", "</", "</styl", "</style", "</style>", "</STYLE\t>", "</style/>", "</stylex>", "</script>", ";", "1px", "-->" } },
        { "<textarea>", "textarea", 0, { "a", "&amp;", "&#1;", "&#x4;", "&", "<b>", "</", "</textarea", "</textarea>", "</TextArea >", "</title>", "\n", "<!--", "-->", ";" } },
        { "<title>", "title", 0, { "a", "&amp;", "&#1;", "&#X4;", "&", "<b>", "</", "</titl", "</title>", "</TITLE\n>", "</textarea>", "\n", "/", "#" } },
    };
    // The document around the elements, and what follows their text.
    const std::vector<std::string> befores { "", "a &lt; b<br>", "<!-- c --><p class=\"d\">" };
    const auto check = [&](const std::string& before, const Element& el, const std::string& open, const std::string& body, unsigned flags, std::size_t capacity) {
        const std::string s = before + open + body;
        const std::size_t from = before.size() + open.size(), end = raw_end(s, from, el.name);
        std::string e;
        const auto got = tokens_of(ULIGHT_LANG_HTML, s, flags, e, capacity);
        // Without the text, the rest is the same.
        auto want = tokens_of(ULIGHT_LANG_HTML, before + open + s.substr(end), flags, e);
        const std::string text = s.substr(from, end - from);
        auto inner = el.lang ? tokens_of(el.lang, text, flags, e) : references(text);
        for (auto& t : inner) t.begin += from;
        std::size_t at = 0;
        while (at < want.size() && want[at].begin < from) ++at;
        for (std::size_t k = at; k < want.size(); ++k) want[k].begin += end - from;
        want.insert(want.begin() + long(at), inner.begin(), inner.end());
        if (!e.empty() || !same(got, want)) {
            std::size_t k = 0;
            while (k < got.size() && k < want.size() && same({ got[k] }, { want[k] })) ++k;
            x.fail(std::string("nested/") + el.name, "at token " + std::to_string(k) + " expected" + list({ want.begin() + long(std::min(k, want.size())), want.end() }, s) + ", got"
                    + list({ got.begin() + long(std::min(k, got.size())), got.end() }, s) + " " + e);
        }
    };
    for (const auto& el : elements) {
        x.set_family(el.name);
        std::string body;
        const auto rec = [&](auto&& me, int left) -> void {
            if (x.begin(std::string(el.name) + " " + body)) {
                for (unsigned flags : { 0u, unsigned(ULIGHT_STRICT) }) {
                    check("", el, el.open, body, flags, 4096);
                    x.bulk(1);
                }
                x.nontrivial();
            }
            if (!left) return;
            for (const auto& a : el.symbols) {
                const std::size_t n = body.size();
                body += a;
                me(me, left - 1);
                body.resize(n);
            }
        };
        rec(rec, x.thorough ? 5 : 4);
        x.set_family(std::string(el.name) + ", contexts");
        const std::string n = el.name;
        std::vector<std::string> opens { "<" + n + ">", "<" + n + " a>", "<" + n + " a=b>", "<" + n + "\na='b'\n>", "<" + n + " a=\"</" + n + ">\">", "<" + n + "/>", "<" + n + " >" };
        for (std::size_t k = 0; k < n.size(); ++k) {
            opens.push_back(opens[0]);
            opens.back()[1 + k] -= 32;
        }
        const std::vector<std::string> tails { "", "</" + n + ">", "</" + n + ">b &gt; <i>c</i>", "</" + n + " ><" + n + ">" + el.symbols[0] + "</" + n + ">", "</" + n + "\n><script>let a = 1</script>", "</" + n + "><!--d-->",
            "</" + n + "><style>a{b:c}</style><title>&amp;</title>" };
        const auto two = [&](auto&& f) {
            for (const auto& a : el.symbols) {
                f(a);
                for (const auto& b : el.symbols) f(a + b);
            }
        };
        for (const auto& b : befores)
            for (const auto& o : opens)
                for (const auto& t : tails)
                    two([&](const std::string& text) {
                        if (x.begin(b + o + text + t)) {
                            check(b, el, o, text + t, 0, 4096);
                            x.nontrivial();
                        }
                    });
        // Numbers of tokens around the capacities of the buffers.
        x.set_family(std::string(el.name) + ", many tokens");
        for (const std::string unit : { std::string("1;"), std::string("&amp;"), std::string("a "), std::string("\"\";"), std::string("a{}") })
            for (std::size_t count : { 1, 2, 340, 341, 342, 510, 511, 512, 513, 514, 682, 683, 1022, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 5000 })
                for (const std::string last : { "", "1", "a{", ";" })
                    for (std::size_t capacity : { 1, 2, 3, 1023, 1024, 1025, 4096 })
                        for (const auto& t : { tails[0], tails[2] }) {
                            if (!x.begin(n + " " + unit + " x " + std::to_string(count) + " " + last + " " + std::to_string(capacity) + t)) continue;
                            std::string text;
                            for (std::size_t i = 0; i < count; ++i) text += unit;
                            check("a<br>", el, el.open, text + last + t, 0, capacity);
                            x.nontrivial();
                        }
    }
    // Several elements.
    x.set_family("several");
    std::vector<std::string> pieces;
    for (const auto& el : elements)
        for (const std::string text : { "", "a", "\"", "/*", "`", "<b>", "&amp;", "{" }) pieces.push_back(std::string(el.open) + text + "</" + el.name + ">");
    for (const std::string p : { "<p>", "text &amp;", "<br/>", "<!-- <script> -->", "<a b=\"<style>\">", "</script>" }) pieces.push_back(p);
    std::vector<Tokens> alone;
    for (const auto& p : pieces) {
        std::string e;
        alone.push_back(tokens_of(ULIGHT_LANG_HTML, p, 0, e));
    }
    const std::size_t n = pieces.size();
    for (std::size_t a = 0; a < n; ++a)
        for (std::size_t b = 0; b < n; ++b)
            for (std::size_t c = 0; c < n; ++c)
                for (std::size_t d = 0; d <= (x.thorough ? n : 0); ++d) {
                    std::string s;
                    Tokens want;
                    for (std::size_t k : { a, b, c, d ? d - 1 : n }) {
                        if (k == n) break;
                        for (auto t : alone[k]) {
                            t.begin += s.size();
                            want.push_back(t);
                        }
                        s += pieces[k];
                    }
                    if (!x.begin(s)) continue;
                    std::string e;
                    const auto got = tokens_of(ULIGHT_LANG_HTML, s, 0, e);
                    if (!e.empty() || !same(got, want)) x.fail("nested/several", "expected" + list(want, s) + ", got" + list(got, s) + " " + e);
                    x.nontrivial();
                }
}

} // namespace

int main(int argc, char** argv)
{
    return mini_main(argc, argv, { { "plain", plain }, { "nested", nested }, { "markdown", markdown_structure }, { "css", css_structure }, { "cowel", cowel_structure }, { "yaml", yaml_structure } });
}
