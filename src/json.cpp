// The JSON parser (acceptance, events, errors) and the JSON highlighter on valid texts, against an
// independent reference over all texts of bounded spaces.
#include "families.hpp"
#include "mini.hpp"
#include "ulight/json.hpp"

using namespace vx;

namespace {

enum Kind { line_comment, block_comment, literal, escape, number, null_, boolean, push_string, pop_string, push_property, pop_property,
    push_object, pop_object, push_array, pop_array };

struct Event {
    Kind kind;
    std::size_t pos, len; // byte range in the source
    double value = 0;
    char32_t cp = 0;
    std::string units;
};

// Reference: RFC 8259 grammar, optionally with comments.
enum Err { e_error, e_comment, e_char, e_escape, e_number, e_string, e_object, e_array, e_member };
struct Reference {
    std::string_view s;
    bool comments;
    std::size_t i = 0;
    std::vector<Event> ev;
    std::set<int> classes; // acceptable error classes
    std::size_t lo = 0, hi = 0; // acceptable error positions

    bool fail(std::set<int> c, std::size_t a, std::size_t b)
    {
        classes = std::move(c);
        lo = a;
        hi = b;
        return false;
    }
    bool at(char c) const { return i < s.size() && s[i] == c; }
    bool ws()
    {
        for (;;) {
            while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) ++i;
            if (i + 1 < s.size() && s[i] == '/' && (s[i + 1] == '/' || s[i + 1] == '*')) {
                if (!comments) return fail({ e_comment }, i, i);
                const std::size_t b = i;
                if (s[i + 1] == '/') {
                    while (i < s.size() && s[i] != '\n' && s[i] != '\r' && s.substr(i, 3) != "\xE2\x80\xA8" && s.substr(i, 3) != "\xE2\x80\xA9") ++i;
                    ev.push_back({ line_comment, b, i - b });
                }
                else {
                    const auto e = s.find("*/", i + 2);
                    if (e == s.npos) return fail({ e_comment, e_error }, b, s.size());
                    i = e + 2;
                    ev.push_back({ block_comment, b, i - b });
                }
                continue;
            }
            return true;
        }
    }
    bool run()
    {
        if (!ws() || !value(-1) || !ws()) return false;
        if (i != s.size()) return fail({ e_char, e_error }, i, i);
        return true;
    }
    bool str(Kind open, Kind close)
    {
        const std::size_t b = i;
        ev.push_back({ open, i, 1 });
        ++i;
        std::size_t run = i;
        const auto flush = [&] {
            if (i != run) ev.push_back({ literal, run, i - run });
        };
        for (;;) {
            if (i >= s.size()) {
                flush();
                return fail({ e_string }, b, s.size());
            }
            const unsigned char c = (unsigned char)s[i];
            if (c == '"') {
                flush();
                ev.push_back({ close, i, 1 });
                ++i;
                return true;
            }
            if (c < 0x20) {
                flush();
                return fail({ e_char }, i, i);
            }
            if (c == '\\') {
                flush();
                Event e { escape, i, 2 };
                if (i + 1 >= s.size()) return fail({ e_escape, e_string }, i, s.size());
                static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
                if (s[i + 1] == 'u') {
                    unsigned v = 0;
                    for (int k = 2; k < 6; ++k) {
                        if (i + k >= s.size()) return fail({ e_escape, e_string }, i, s.size());
                        const char h = s[i + k];
                        int d;
                        if (h >= '0' && h <= '9') d = h - '0';
                        else if (h >= 'a' && h <= 'f') d = h - 'a' + 10;
                        else if (h >= 'A' && h <= 'F') d = h - 'A' + 10;
                        else return fail({ e_escape }, i, i + k);
                        v = v * 16 + unsigned(d);
                    }
                    e.cp = v;
                    e.len = 6;
                }
                else {
                    const char* p = std::strchr(from, s[i + 1]);
                    if (!p || !*p) return fail({ e_escape }, i, i + 1);
                    e.cp = (unsigned char)to[p - from];
                }
                if (e.cp < 0x80) e.units = std::string(1, char(e.cp));
                else if (e.cp < 0x800) e.units = { char(0xC0 | e.cp >> 6), char(0x80 | (e.cp & 63)) };
                else e.units = { char(0xE0 | e.cp >> 12), char(0x80 | (e.cp >> 6 & 63)), char(0x80 | (e.cp & 63)) };
                ev.push_back(e);
                i += e.len;
                run = i;
                continue;
            }
            ++i;
        }
    }
    bool num()
    {
        const std::size_t b = i;
        const auto digits = [&] {
            const std::size_t k = i;
            while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
            return i - k;
        };
        bool bad = false;
        if (at('-')) ++i;
        const std::size_t first = i;
        const std::size_t n = digits();
        bad |= n == 0 || (n > 1 && s[first] == '0');
        if (at('.')) {
            ++i;
            bad |= digits() == 0;
        }
        if (at('e') || at('E')) {
            ++i;
            if (at('+') || at('-')) ++i;
            bad |= digits() == 0;
        }
        if (bad) return fail({ e_number }, b, i);
        Event e { number, b, i - b };
        e.value = std::strtod(std::string(s.substr(b, i - b)).c_str(), nullptr);
        ev.push_back(e);
        return true;
    }
    bool word(std::string_view w, Kind k, bool v)
    {
        if (s.substr(i, w.size()) != w) return fail({ e_char, e_error }, i, std::min(s.size(), i + w.size()));
        ev.push_back({ k, i, w.size(), v ? 1.0 : 0.0 });
        i += w.size();
        return true;
    }
    bool value(int container) // container: -1 document, e_array, e_member
    {
        if (i >= s.size()) {
            std::set<int> c { e_error };
            if (container == e_array) c.insert(e_array);
            if (container == e_member) c = { e_member, e_error, e_object };
            return fail(c, i, i);
        }
        switch (s[i]) {
        case '"': return str(push_string, pop_string);
        case '[': {
            const std::size_t b = i;
            ev.push_back({ push_array, i, 1 });
            ++i;
            if (!ws()) return false;
            if (at(']')) {
                ev.push_back({ pop_array, i, 1 });
                ++i;
                return true;
            }
            if (i >= s.size()) return fail({ e_array }, b, i);
            for (;;) {
                if (!value(e_array) || !ws()) return false;
                if (i >= s.size()) return fail({ e_array }, b, i);
                if (at(']')) {
                    ev.push_back({ pop_array, i, 1 });
                    ++i;
                    return true;
                }
                if (!at(',')) return fail({ e_char, e_error }, i, i);
                ++i;
                if (!ws()) return false;
            }
        }
        case '{': {
            const std::size_t b = i;
            ev.push_back({ push_object, i, 1 });
            ++i;
            if (!ws()) return false;
            if (at('}')) {
                ev.push_back({ pop_object, i, 1 });
                ++i;
                return true;
            }
            for (;;) {
                if (i >= s.size()) return fail({ e_object, e_error }, b, i);
                if (!at('"')) return fail({ e_char, e_error }, i, i);
                if (!str(push_property, pop_property) || !ws()) return false;
                if (!at(':')) return fail({ e_member, e_char, e_error }, i, i);
                ++i;
                if (!ws()) return false;
                if (at('}') || at(',')) return fail({ e_member }, i, i);
                if (!value(e_member) || !ws()) return false;
                if (i >= s.size()) return fail({ e_object }, b, i);
                if (at('}')) {
                    ev.push_back({ pop_object, i, 1 });
                    ++i;
                    return true;
                }
                if (!at(',')) return fail({ e_char, e_error }, i, i);
                ++i;
                if (!ws()) return false;
            }
        }
        case 't': return word("true", boolean, true);
        case 'f': return word("false", boolean, false);
        case 'n': return word("null", null_, false);
        default:
            if (s[i] == '-' || (s[i] >= '0' && s[i] <= '9')) return num();
            return fail({ e_char, e_error }, i, i);
        }
    }
};

using ulight::Source_Position;
struct Recorder final : ulight::JSON_Visitor {
    const char8_t* base = nullptr;
    std::size_t size = 0;
    std::vector<Event> ev;
    std::vector<std::array<std::size_t, 2>> lc; // line, column
    int errors = 0;
    int err_class = -1;
    Source_Position err_pos {};
    bool after_error = false, bad_mode = false, bad_range = false;
    int escapes = 0;
    bool numbers = false;

    Event& add(Kind k, const Source_Position& p, std::u8string_view t)
    {
        if (errors) after_error = true;
        if (t.data() != base + p.code_unit) bad_range = true;
        ev.push_back({ k, p.code_unit, t.size() });
        lc.push_back({ p.line, p.line_code_unit });
        return ev.back();
    }
    Event& add1(Kind k, const Source_Position& p, std::size_t n = 1)
    {
        if (errors) after_error = true;
        ev.push_back({ k, p.code_unit, n });
        lc.push_back({ p.line, p.line_code_unit });
        return ev.back();
    }
    void line_comment(const Source_Position& p, std::u8string_view t) override { add(::line_comment, p, t); }
    void block_comment(const Source_Position& p, std::u8string_view t) override { add(::block_comment, p, t); }
    void literal(const Source_Position& p, std::u8string_view t) override { add(::literal, p, t); }
    void escape(const Source_Position& p, std::u8string_view t) override
    {
        if (escapes != 0) bad_mode = true;
        add(::escape, p, t);
    }
    void escape(const Source_Position& p, std::u8string_view t, char32_t c) override
    {
        if (escapes != 1) bad_mode = true;
        add(::escape, p, t).cp = c;
    }
    void escape(const Source_Position& p, std::u8string_view t, char32_t c, std::u8string_view u) override
    {
        if (escapes != 2) bad_mode = true;
        auto& e = add(::escape, p, t);
        e.cp = c;
        e.units.assign(reinterpret_cast<const char*>(u.data()), u.size());
    }
    void number(const Source_Position& p, std::u8string_view t) override
    {
        if (numbers) bad_mode = true;
        add(::number, p, t);
    }
    void number(const Source_Position& p, std::u8string_view t, double v) override
    {
        if (!numbers) bad_mode = true;
        add(::number, p, t).value = v;
    }
    void null(const Source_Position& p) override { add1(::null_, p, 4); }
    void boolean(const Source_Position& p, bool v) override { add1(::boolean, p, v ? 4 : 5).value = v; }
    void push_string(const Source_Position& p) override { add1(::push_string, p); }
    void pop_string(const Source_Position& p) override { add1(::pop_string, p); }
    void push_property(const Source_Position& p) override { add1(::push_property, p); }
    void pop_property(const Source_Position& p) override { add1(::pop_property, p); }
    void push_object(const Source_Position& p) override { add1(::push_object, p); }
    void pop_object(const Source_Position& p) override { add1(::pop_object, p); }
    void push_array(const Source_Position& p) override { add1(::push_array, p); }
    void pop_array(const Source_Position& p) override { add1(::pop_array, p); }
    ulight::Error_Reaction error(const Source_Position& p, ulight::JSON_Error e) override
    {
        ++errors;
        err_class = int(e);
        err_pos = p;
        return ulight::Error_Reaction::abort;
    }
};

// ------------------------------------------------------------------------------------- spaces
struct Texts {
    std::vector<Space> v;
};
std::vector<Space> json_spaces(bool thorough, bool highlighter)
{
    std::vector<Space> v;
    const auto mk = [](std::vector<std::string> x) { return std::make_shared<const std::vector<std::string>>(std::move(x)); };
    // structure
    const auto tok = mk({ "{", "}", "[", "]", ",", ":", "\"a\"", "\"\"", "1", "true", "null", " ", "\n", "/**/", "//c\n", "-" });
    for (int k = 1; k <= (thorough ? 6 : 5); ++k) v.push_back(sequences(0, "structure^" + std::to_string(k), tok, k));
    const auto core = mk({ "{", "}", "[", "]", ",", ":", "\"k\"", "0" });
    for (int k = 6; k <= (thorough ? 9 : 7); ++k) v.push_back(sequences(0, "nesting^" + std::to_string(k), core, k));
    // all short byte strings
    for (int k = 0; k <= (thorough ? 3 : 2); ++k) v.push_back(byte_strings(0, k));
    // one byte or two inside a context
    const auto ctx = mk({ "\"", "[\"\\", "{\"a", "\"\\u", "\"\\u00", "[1", "-", "t", "tr", "nul", "fals", "//", "/*", "/", "\n\n [", "{\"k\":", "0", "1e", "1." });
    const auto end = mk({ "", "\"", "\"]", "\":1}", "]", "*/1", "\n1", "}" });
    v.push_back({ 0, "context*byte^2*end", ctx->size() * 65536 * end->size(), [=](std::uint64_t i, std::string& o) {
                     o += (*ctx)[i / 65536 / end->size()];
                     const auto b = i / end->size() % 65536;
                     o += char(b >> 8);
                     if (b & 255) o += char(b & 255);
                     o += (*end)[i % end->size()];
                 } });
    // numbers
    const auto nd = mk({ "0", "1", "9", "-", "+", ".", "e", "E" });
    for (int k = 1; k <= (thorough ? 8 : 6); ++k) v.push_back(sequences(0, "number^" + std::to_string(k), nd, k));
    const auto big = mk({ "1e308", "1e309", "-1e400", "1e-400", "5e-324", "2.2250738585072014e-308", "0.1", "123456789012345678901234567890", "9007199254740993",
        "1e", "0x10", "0x1p3", "1f", "0e0", "-0", "-0.0", "1E+2", "nan", "inf", "-inf", "Infinity", "1_0", "0.30000000000000004", "179769313486231580793e289" });
    const auto wrap = mk({ "%", "[%]", " %", "%\n", "{\"a\":%}", "[%,%]", "[1,%e1]", "%0", "%x1", "%p1" });
    v.push_back({ 0, "number values", big->size() * wrap->size(), [=](std::uint64_t i, std::string& o) {
                     for (char c : (*wrap)[i % wrap->size()])
                         if (c == '%') o += (*big)[i / wrap->size()];
                         else o += c;
                 } });
    // every \u escape
    v.push_back({ 0, "all \\u escapes", 65536 * 2, [](std::uint64_t i, std::string& o) {
                     char b[24];
                     std::snprintf(b, sizeof b, i & 1 ? "\"\\u%04x\"" : "[\"x\\u%04Xy\"]", unsigned(i >> 1));
                     o += b;
                 } });
    // strings
    const auto sp = mk({ "\"", "\\", "\\\"", "\\\\", "\\/", "\\n", "\\u00e9", "\\uD834\\uDD1E", "\\u12", "\\x", "a", "\xC3\xA9", "\xF0\x9F\x98\x80", "\n", "\t", "\x7F",
        "//", "/*", "\\u0000", std::string(1, '\0') });
    for (int k = 1; k <= (thorough ? 5 : 4); ++k) {
        auto q = sequences(0, "string^" + std::to_string(k), sp, k);
        v.push_back({ 0, q.family, q.count, [g = q.get](std::uint64_t i, std::string& o) {
                         o += "\"";
                         g(i, o);
                         o += "\"";
                     } });
        v.push_back({ 0, q.family + " as key", q.count, [g = q.get](std::uint64_t i, std::string& o) {
                         o += "{\n\"";
                         g(i, o);
                         o += "\":\n2}";
                     } });
    }
    // white space and comments between the tokens of a document
    const auto gap = mk({ "", " ", "\n", "\r\n", "\t", "/**/", "/*\n*/", "//\n", "//x\r\n", "\f", "\v", "/* * / */", "/", "\xC2\xA0", "/***/", "// */\n" });
    const std::vector<std::string> doc = { "{", "\"a\"", ":", "[", "1", ",", "true", "]", ",", "\"b\"", ":", "{", "}", "}" };
    const std::uint64_t G = gap->size(), N = doc.size() + 1;
    v.push_back({ 0, "gaps", N * N * G * G, [=](std::uint64_t i, std::string& o) {
                     const auto a = i / (G * G) / N, b = i / (G * G) % N, g = i / G % G, h = i % G;
                     for (std::size_t k = 0; k < N; ++k) {
                         if (k == a) o += (*gap)[g];
                         if (k == b) o += (*gap)[h];
                         if (k < doc.size()) o += doc[k];
                     }
                 } });
    // truncations, deletions and duplications of a document
    static const std::string big_doc = "{ \"key\": [1, -2.5e+3, \"s\\u00e9\\n\", true, false, null, {}, []], // c\n\"k\": {\"n\": /* b */ 0} }\n";
    v.push_back({ 0, "document edits", big_doc.size() * big_doc.size() * 2, [=](std::uint64_t i, std::string& o) {
                     const auto a = i / 2 / big_doc.size(), b = i / 2 % big_doc.size();
                     if (i & 1) o = big_doc.substr(0, a) + big_doc.substr(b); // removes or repeats a range
                     else o = big_doc.substr(0, a) + big_doc[b] + big_doc.substr(a);
                 } });
    // nesting depth
    v.push_back({ 0, "depth", 400, [](std::uint64_t i, std::string& o) {
                     const auto n = i / 4;
                     for (std::uint64_t k = 0; k < n; ++k) o += i % 2 ? "[" : "{\"a\":";
                     o += "1";
                     for (std::uint64_t k = 0; k + (i % 4 >= 2 ? 1 : 0) < n; ++k) o += i % 2 ? "]" : "}";
                 } });
    (void)highlighter;
    return v;
}

void for_all(Ctx& x, const std::vector<Space>& sp, const std::function<void(const std::string&)>& f)
{
    std::unordered_set<std::uint64_t> seen;
    std::string s;
    for (const auto& p : sp) {
        x.set_family(p.family);
        for (std::uint64_t i = 0; i < p.count; ++i) {
            s.clear();
            p.get(i, s);
            if (x.only.empty()) {
                const auto h = fnv(s);
                if (h % std::uint64_t(x.workers) != std::uint64_t(x.worker)) continue;
                if (!seen.insert(h).second) continue;
            }
            if (!x.enter(s)) {
                if (x.capped) return;
                continue;
            }
            f(s);
        }
    }
}

struct Positions {
    std::string_view s;
    std::size_t at = 0, line = 0, start = 0;
    void locate(std::size_t p, std::size_t& l, std::size_t& c)
    {
        if (p < at) at = line = start = 0;
        for (; at < p && at < s.size(); ++at)
            if (s[at] == '\n') {
                ++line;
                start = at + 1;
            }
        l = line;
        c = p - start;
    }
};

bool nontrivial_text = false;
void parse_both(Ctx& x, const std::string& in, int mode, bool accept)
{
    const bool comments = mode & 1, numbers = mode & 2;
    const int esc = mode >> 2;
    char* p = source_arena().tail(in.size());
    std::memcpy(p, in.data(), in.size());
    Reference ref { in, comments };
    const bool want = ref.run();
    Recorder r;
    r.base = reinterpret_cast<const char8_t*>(p);
    r.size = in.size();
    r.escapes = esc;
    r.numbers = numbers;
    ulight::JSON_Options o;
    o.allow_comments = comments;
    o.parse_numbers = numbers;
    o.escapes = ulight::Escape_Parsing(esc);
    const bool got = mode & 1 ? ulight::parse_json(r, std::u8string_view(r.base, in.size()), o) : ulight::parse_json(r, std::string_view(p, in.size()), o);
    const std::string m = "options " + std::to_string(mode);
    if (accept) {
        if (want) nontrivial_text = true;
        if (got && !want) x.fail("accepted", m);
        if (!got && want) x.fail("rejected", m);
        if (got != want) return;
        if (got && r.errors) x.fail("error-on-success", m);
        if (!got) {
            if (r.errors != 1) x.fail("error-reports", m + ", " + std::to_string(r.errors) + " errors");
            else {
                if (!ref.classes.count(r.err_class)) x.fail("error-class", m + ", class " + std::to_string(r.err_class));
                if (r.err_pos.code_unit < ref.lo || r.err_pos.code_unit > ref.hi)
                    x.fail("error-position", m + ", at " + std::to_string(r.err_pos.code_unit) + " not in " + std::to_string(ref.lo) + ".." + std::to_string(ref.hi));
                Positions q { in };
                std::size_t l, c;
                q.locate(r.err_pos.code_unit, l, c);
                if (l != r.err_pos.line || c != r.err_pos.line_code_unit) x.fail("error-line", m);
            }
            if (r.after_error) x.fail("event-after-error", m);
        }
        return;
    }
    if (got != want) return; // decided by the other property
    if (r.ev.size() > 1) nontrivial_text = true;
    if (r.bad_mode) x.fail("wrong-callback-for-options", m);
    if (r.bad_range) x.fail("text-position-mismatch", m);
    if (got ? r.ev.size() != ref.ev.size() : r.ev.size() > ref.ev.size() || r.ev.size() + 1 < ref.ev.size())
        x.fail("event-count", m + ", " + std::to_string(r.ev.size()) + " instead of " + std::to_string(ref.ev.size()));
    Positions q { in };
    for (std::size_t k = 0; k < r.ev.size() && k < ref.ev.size(); ++k) {
        const auto &a = r.ev[k], &b = ref.ev[k];
        if (a.kind != b.kind || a.pos != b.pos || a.len != b.len) {
            x.fail("event", m + ", event " + std::to_string(k));
            break;
        }
        std::size_t l, c;
        q.locate(a.pos, l, c);
        if (l != r.lc[k][0] || c != r.lc[k][1]) {
            x.fail("line-position", m + ", event " + std::to_string(k));
            break;
        }
        if (a.kind == boolean && a.value != b.value) x.fail("boolean", m);
        if (a.kind == number && numbers && std::memcmp(&a.value, &b.value, sizeof a.value) != 0) x.fail("number-value", m);
        if (a.kind == escape && esc >= 1 && a.cp != b.cp) x.fail("escape-value", m);
        if (a.kind == escape && esc == 2 && a.units != b.units) x.fail("escape-encoding", m);
    }
}

void chk_accept(Ctx& x)
{
    for_all(x, json_spaces(x.thorough, false), [&](const std::string& s) {
        nontrivial_text = false;
        for (int mode : { 0, 1 }) parse_both(x, s, mode, true);
        if (s.size() < 24)
            for (int mode : { 6, 7, 11 }) parse_both(x, s, mode, true);
        if (nontrivial_text) x.nontrivial();
    });
}
void chk_events(Ctx& x)
{
    for_all(x, json_spaces(x.thorough, false), [&](const std::string& s) {
        nontrivial_text = false;
        for (int mode : { 1, 2, 4, 11 }) parse_both(x, s, mode, false);
        if (x.thorough)
            for (int mode : { 0, 3, 5, 6, 7, 8, 9, 10 }) parse_both(x, s, mode, false);
        if (nontrivial_text) x.nontrivial();
    });
}

// ------------------------------------------------------------------------------------- highlighter
void chk_tokens(Ctx& x)
{
    for_all(x, json_spaces(x.thorough, true), [&](const std::string& s) {
        bool nt = false;
        for (int variant = 0; variant < 3; ++variant) { // JSON, strict JSON, JSON with comments
            Reference ref { s, variant != 1 };
            if (!ref.run()) continue;
            Run_Result r;
            run_tokens(r, variant == 2 ? ULIGHT_LANG_JSONC : ULIGHT_LANG_JSON, s, { variant == 1 ? ULIGHT_STRICT : 0, 64, false });
            std::vector<ulight_token> want;
            const auto put = [&](std::size_t b, std::size_t n, int t) {
                if (n) want.push_back({ b, n, (unsigned char)t });
            };
            // structural characters lie between the events
            std::size_t done = 0;
            bool prop = false;
            std::size_t prop_start = 0;
            const auto gap = [&](std::size_t to) {
                for (; done < to; ++done)
                    if (s[done] == ',' || s[done] == ':') put(done, 1, ULIGHT_HL_SYMBOL_PUNC);
            };
            for (const auto& e : ref.ev) {
                gap(e.pos);
                done = e.pos + e.len;
                switch (e.kind) {
                case line_comment:
                    put(e.pos, 2, ULIGHT_HL_COMMENT_DELIM);
                    put(e.pos + 2, e.len - 2, ULIGHT_HL_COMMENT);
                    break;
                case block_comment:
                    put(e.pos, 2, ULIGHT_HL_COMMENT_DELIM);
                    put(e.pos + 2, e.len - 4, ULIGHT_HL_COMMENT);
                    put(e.pos + e.len - 2, 2, ULIGHT_HL_COMMENT_DELIM);
                    break;
                case push_property:
                    prop = true;
                    prop_start = e.pos;
                    break;
                case literal:
                    if (!prop) put(e.pos, e.len, ULIGHT_HL_STRING);
                    break;
                case escape:
                    if (prop) put(prop_start, e.pos - prop_start, ULIGHT_HL_MARKUP_ATTR);
                    prop_start = e.pos + e.len;
                    put(e.pos, e.len, ULIGHT_HL_STRING_ESCAPE);
                    break;
                case pop_property:
                    prop = false;
                    put(prop_start, e.pos + 1 - prop_start, ULIGHT_HL_MARKUP_ATTR);
                    break;
                case push_string:
                case pop_string: put(e.pos, 1, ULIGHT_HL_STRING_DELIM); break;
                case number: put(e.pos, e.len, ULIGHT_HL_NUMBER); break;
                case null_: put(e.pos, e.len, ULIGHT_HL_NULL); break;
                case boolean: put(e.pos, e.len, ULIGHT_HL_BOOL); break;
                case push_object:
                case pop_object: put(e.pos, 1, ULIGHT_HL_SYMBOL_BRACE); break;
                case push_array:
                case pop_array: put(e.pos, 1, ULIGHT_HL_SYMBOL_SQUARE); break;
                }
            }
            gap(s.size());
            nt = nt || want.size() > 1;
            bool eq = r.status == 0 && r.tokens.size() == want.size();
            std::size_t k = 0;
            for (; eq && k < want.size(); ++k)
                if (r.tokens[k].begin != want[k].begin || r.tokens[k].length != want[k].length || r.tokens[k].type != want[k].type) {
                    eq = false;
                    break;
                }
            if (!eq) {
                std::string d = "variant " + std::to_string(variant) + ", token " + std::to_string(k);
                x.fail("tokens", d);
            }
        }
        if (nt) x.nontrivial();
    });
}

} // namespace

int main(int argc, char** argv)
{
    return mini_main(argc, argv, { { "accept", chk_accept }, { "events", chk_events }, { "tokens", chk_tokens } });
}
