// UTF-8 decoding and encoding, code point algorithms, and character classes, exhaustively against
// independent tables.
#include "mini.hpp"
#include "ulight/impl/ascii_algorithm.hpp"
#include "ulight/impl/charset.hpp"
#include "ulight/impl/lang/css.hpp"
#include "ulight/impl/lang/html.hpp"
#include "ulight/impl/lang/js.hpp"
#include "ulight/impl/lang/xml.hpp"
#include "ulight/impl/strings.hpp"
#include "ulight/impl/unicode.hpp"
#include "ulight/impl/unicode_algorithm.hpp"
#include "ulight/impl/unicode_chars.hpp"
#include <cctype>
#include "xid.inc"

using namespace vx;
namespace u = ulight;
namespace u8n = ulight::utf8;

namespace {

// Unicode Table 3-7, as data: first byte range, second byte range, length.
struct Row { unsigned lo, hi, slo, shi; int len; };
constexpr Row table37[] = {
    { 0x00, 0x7F, 0, 0, 1 }, { 0xC2, 0xDF, 0x80, 0xBF, 2 }, { 0xE0, 0xE0, 0xA0, 0xBF, 3 }, { 0xE1, 0xEC, 0x80, 0xBF, 3 },
    { 0xED, 0xED, 0x80, 0x9F, 3 }, { 0xEE, 0xEF, 0x80, 0xBF, 3 }, { 0xF0, 0xF0, 0x90, 0xBF, 4 }, { 0xF1, 0xF3, 0x80, 0xBF, 4 },
    { 0xF4, 0xF4, 0x80, 0x8F, 4 },
};
enum Ref_Err { r_ok, r_empty, r_missing, r_illegal };
struct Ref {
    Ref_Err err = r_ok;
    char32_t cp = 0; // valid iff err == r_ok
    int len = 0;     // length of the code point, or of the maximal subpart (at least 1 unless empty)
};
const Row* row_of(unsigned char b)
{
    static const auto rows = [] {
        std::array<const Row*, 256> a {};
        for (const Row& r : table37)
            for (unsigned k = r.lo; k <= r.hi; ++k) a[k] = &r;
        return a;
    }();
    return rows[b];
}
Ref ref_decode(const unsigned char* p, std::size_t n)
{
    Ref r;
    if (n == 0) {
        r.err = r_empty;
        return r;
    }
    const Row* row = row_of(p[0]);
    if (!row) {
        r.err = r_illegal;
        r.len = 1;
        return r;
    }
    const unsigned lead_bits = row->len == 1 ? 0x7F : row->len == 2 ? 0x1F : row->len == 3 ? 0x0F : 0x07;
    char32_t cp = p[0] & lead_bits;
    for (int i = 1; i < row->len; ++i) {
        const unsigned lo = i == 1 ? row->slo : 0x80, hi = i == 1 ? row->shi : 0xBF;
        if (std::size_t(i) >= n || p[i] < lo || p[i] > hi) {
            r.err = n < std::size_t(row->len) ? r_missing : r_illegal;
            r.len = i;
            return r;
        }
        cp = cp * 64 + (p[i] - 0x80);
    }
    r.cp = cp;
    r.len = row->len;
    return r;
}

// A buffer whose last byte is followed by an inaccessible page.
struct Guarded {
    unsigned char* end;
    Guarded()
    {
        const long ps = sysconf(_SC_PAGESIZE);
        auto* p = static_cast<unsigned char*>(mmap(nullptr, std::size_t(2 * ps), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        mprotect(p + ps, std::size_t(ps), PROT_NONE);
        end = p + ps;
    }
    unsigned char* put(const unsigned char* s, std::size_t n)
    {
        std::memcpy(end - n, s, n);
        return end - n;
    }
};
Guarded& guarded()
{
    static Guarded g;
    return g;
}

std::string bytes_hex(const unsigned char* p, std::size_t n)
{
    std::string o;
    char b[4];
    for (std::size_t i = 0; i < n; ++i) {
        std::snprintf(b, sizeof b, "%02X", p[i]);
        o += (i ? " " : "") + std::string(b);
    }
    return o;
}

void one_decode(Ctx& x, const unsigned char* raw, std::size_t n)
{
    const unsigned char* s = guarded().put(raw, n);
    const std::u8string_view v(reinterpret_cast<const char8_t*>(s), n);
    const Ref r = ref_decode(s, n);
    const auto bad = [&](const char* what) { x.fail(what, "bytes " + bytes_hex(s, n)); };
    const auto is_err = [&](u8n::Error_Code e) {
        return r.err == (e == u8n::Error_Code::no_data ? r_empty : e == u8n::Error_Code::missing_units ? r_missing : r_illegal);
    };

    const auto d = u8n::decode_and_length(v);
    if (bool(d) != (r.err == r_ok) || (d && (d->code_point != r.cp || d->length != r.len))) bad("decode_and_length");
    if (!d && !is_err(d.error())) bad("decode_and_length-error-code");
    const auto d2 = u8n::decode(v);
    if (bool(d2) != (r.err == r_ok) || (d2 && *d2 != r.cp)) bad("decode");
    if (!d2 && !is_err(d2.error())) bad("decode-error-code");
    const auto it = u8n::Code_Point_Iterator(v).next();
    if (bool(it) != (r.err == r_ok) || (it && (it->code_point != r.cp || it->length != r.len))) bad("iterator-next");
    if (n == 0) {
        if (!u8n::is_valid(v)) bad("is_valid");
        return;
    }
    const auto e = u8n::decode_and_length_or_replacement(v);
    const char32_t want = r.err == r_ok ? r.cp : char32_t(0xFFFD);
    if (e.code_point != want) bad("decode_or_replacement");
    if (e.length != r.len) bad("maximal-subpart-length");
    if (u8n::decode_or_replacement(v) != want) bad("decode_or_replacement");
    // validity of the whole string
    std::size_t i = 0;
    Ref q;
    while (i < n && (q = ref_decode(s + i, n - i)).err == r_ok) i += std::size_t(q.len);
    const auto ok = u8n::is_valid(v);
    if (bool(ok) != (i == n)) bad("is_valid");
    if (!ok && !(q.err == (ok.error() == u8n::Error_Code::missing_units ? r_missing : r_illegal))) bad("is_valid-error-code");
    if (i == n && r.err == r_ok) {
        if (u8n::decode_and_length_unchecked(v.data()).code_point != r.cp || u8n::decode_unchecked(v.data()) != r.cp) bad("decode_unchecked");
        std::size_t count = 0;
        for (std::size_t k = 0; k < n; k += std::size_t(ref_decode(s + k, n - k).len)) ++count;
        if (u8n::code_points_unchecked(v) != count) bad("code_points_unchecked");
        std::size_t seen = 0, pos = 0;
        for (const char32_t c : u8n::Code_Point_View { v }) {
            const Ref m = ref_decode(s + pos, n - pos);
            if (c != m.cp) bad("iteration");
            pos += std::size_t(m.len);
            ++seen;
        }
        if (seen != count) bad("iteration");
        x.nontrivial();
    }
    else {
        // walking over corrupted text must throw, and must not run over the end
        bool threw = false;
        std::size_t steps = 0;
        try {
            for (const char32_t c : u8n::Code_Point_View { v }) {
                (void)c;
                if (++steps > n) break;
            }
        } catch (const u8n::Unicode_Error&) {
            threw = true;
        }
        if (!threw) bad("iteration-over-corrupted-text");
    }
    if (n == 4) {
        std::array<char8_t, 4> a;
        std::memcpy(a.data(), s, 4);
        const auto f = u8n::decode_and_length_or_replacement(a);
        if (f.code_point != want || f.length != r.len || u8n::decode_or_replacement(a) != want) bad("array-overload");
        for (int len = 1; len <= 4; ++len) {
            Ref w = ref_decode(s, std::size_t(len));
            const bool good = w.err == r_ok && w.len == len;
            if (u8n::is_valid(a, len) != good) bad("array-is_valid");
            const auto g = u8n::decode(a, len);
            if (bool(g) != good || (g && *g != w.cp) || u8n::decode_or_replacement(a, len) != (good ? w.cp : char32_t(0xFFFD))) bad("array-decode");
        }
    }
}

std::string cp_label(char32_t c)
{
    char b[16];
    std::snprintf(b, sizeof b, "U+%04X", unsigned(c));
    return b;
}

void check_utf8(Ctx& x)
{
    x.set_family("first bytes");
    for (unsigned c = 0; c < 256; ++c) {
        if (!x.begin("byte " + std::to_string(c))) continue;
        const Row* r = row_of((unsigned char)c);
        if (u8n::sequence_length(char8_t(c)) != (r ? r->len : 0)) x.fail("sequence_length", "");
        if (u8n::sequence_length(char8_t(c), 7) != (r ? r->len : 7)) x.fail("sequence_length-fallback", "");
        const int un = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : 0;
        if (u8n::unchecked_sequence_length(char8_t(c)) != un || u8n::unchecked_sequence_length(char8_t(c), 9) != (un ? un : 9))
            x.fail("unchecked_sequence_length", "");
    }
    x.set_family("byte strings of up to three bytes");
    if (x.begin("empty")) one_decode(x, nullptr, 0);
    for (unsigned a = 0; a < 256; ++a) {
        if (!x.begin("bytes " + std::to_string(a))) continue;
        unsigned char s[4] = { (unsigned char)a };
        one_decode(x, s, 1);
        for (unsigned b = 0; b < 256; ++b) {
            s[1] = (unsigned char)b;
            one_decode(x, s, 2);
            for (unsigned c = 0; c < 256; ++c) {
                s[2] = (unsigned char)c;
                one_decode(x, s, 3);
            }
            x.bulk(257);
        }
    }
    // Four bytes: the first two bytes in full; the others in full (thorough) or at the class boundaries.
    x.set_family("byte strings of four and five bytes");
    static const unsigned char few[] = { 0x00, 0x22, 0x2D, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBE, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1,
        0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFF };
    std::vector<unsigned char> tail(std::begin(few), std::end(few));
    if (x.thorough) {
        tail.clear();
        for (unsigned k = 0; k < 256; ++k) tail.push_back((unsigned char)k);
    }
    for (unsigned a = 0; a < 256; ++a) {
        for (unsigned b = 0; b < 256; ++b) {
            if (!x.begin("bytes4 " + std::to_string(a) + " " + std::to_string(b))) continue;
            unsigned char s[5] = { (unsigned char)a, (unsigned char)b };
            for (unsigned char c : tail) {
                s[2] = c;
                for (unsigned char d : tail) {
                    s[3] = d;
                    one_decode(x, s, 4);
                }
            }
            x.bulk(tail.size() * tail.size());
            for (unsigned char c : few)
                for (unsigned char d : { 0x41, 0x80, 0xBF, 0xF0 })
                    for (unsigned char e : { 0x41, 0x80, 0xC3, 0xF4 }) {
                        s[2] = c;
                        s[3] = (unsigned char)d;
                        s[4] = (unsigned char)e;
                        one_decode(x, s, 5);
                    }
            x.bulk(std::size(few) * 16);
        }
    }
    x.set_family("code points");
    for (char32_t base = 0; base < 0x110000; base += 0x1000) {
        if (!x.begin("code points " + cp_label(base))) continue;
        for (char32_t c = base; c < base + 0x1000; ++c) {
            const auto e = u8n::encode8_unchecked(c);
            const int want_len = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
            unsigned char s[4];
            std::memcpy(s, e.code_units.data(), 4);
            const bool surrogate = c >= 0xD800 && c <= 0xDFFF;
            const Ref r = ref_decode(s, std::size_t(e.length));
            if (e.length != want_len) x.fail("encode-length", cp_label(c));
            if (surrogate ? u8n::decode_unchecked(e.code_units, e.length) != c : (r.err != r_ok || r.cp != c)) x.fail("encode", cp_label(c));
            if (e.as_string().size() != std::size_t(want_len) || e.end() - e.begin() != want_len) x.fail("encode-view", cp_label(c));
            for (int k = want_len; k < 4; ++k)
                if (s[k]) x.fail("encode-padding", cp_label(c));
            if (!surrogate) x.nontrivial();
        }
        x.bulk(0x1000);
    }
    // The algorithms over all strings of a small alphabet, against a walk with the reference.
    x.set_family("algorithms");
    static const unsigned char al[] = { 'a', '1', 0x80, 0x9F, 0xA9, 0xC3, 0xE2, 0xED, 0xF0, 0xF4 };
    const std::size_t k = std::size(al);
    const int depth = x.thorough ? 7 : 6;
    for (int n = 0; n <= depth; ++n) {
        std::size_t total = 1;
        for (int j = 0; j < n; ++j) total *= k;
        const std::size_t chunk = 5000;
        for (std::size_t lo = 0; lo < total; lo += chunk) {
            if (!x.begin("strings " + std::to_string(n) + " " + std::to_string(lo))) continue;
            for (std::size_t id = lo; id < std::min(total, lo + chunk); ++id) {
                unsigned char raw[8];
                std::size_t q = id;
                for (int j = 0; j < n; ++j, q /= k) raw[j] = al[q % k];
                const unsigned char* s = guarded().put(raw, std::size_t(n));
                const std::u8string_view v(reinterpret_cast<const char8_t*>(s), std::size_t(n));
                const auto run = [&](auto pred, const char* name) {
                    std::size_t first = v.npos, first_not = v.npos;
                    std::size_t i = 0;
                    while (i < v.size()) {
                        const Ref r = ref_decode(s + i, v.size() - i);
                        const bool b = pred(r.err == r_ok ? r.cp : char32_t(0xFFFD));
                        if (b && first == v.npos) first = i;
                        if (!b && first_not == v.npos) first_not = i;
                        i += std::size_t(r.len);
                    }
                    const std::size_t none = v.size();
                    const auto bad = [&](const char* f) { x.fail(std::string(f) + "-" + name, "bytes " + bytes_hex(s, v.size())); };
                    if (u8n::find_if(v, pred) != first) bad("find_if");
                    if (u8n::find_if_not(v, pred) != first_not) bad("find_if_not");
                    if (u8n::length_if(v, pred) != (first_not == v.npos ? none : first_not)) bad("length_if");
                    if (u8n::length_if_not(v, pred) != (first == v.npos ? none : first)) bad("length_if_not");
                    if (u8n::all_of(v, pred) != (first_not == v.npos)) bad("all_of");
                    if (u8n::any_of(v, pred) != (first != v.npos)) bad("any_of");
                    if (u8n::none_of(v, pred) != (first == v.npos)) bad("none_of");
                    if (u8n::any_not_of(v, pred) != (first_not != v.npos)) bad("any_not_of");
                };
                run([](char32_t c) { return c == 0xFFFD; }, "replacement");
                run([](char32_t c) { return c < 0x80; }, "ascii");
                run([](char32_t c) { return c == 'a'; }, "a");
                run([](char32_t c) { return c > 0xFFFF && c != 0xFFFD; }, "astral");
                x.transitions += 8 * 4;
            }
            x.bulk(std::min(total, lo + chunk) - lo);
        }
    }
    // ASCII algorithms over all strings of a small alphabet.
    x.set_family("ASCII algorithms");
    const std::string_view aa = "aAzZ@[`{1";
    const int ad = x.thorough ? 5 : 4;
    std::vector<std::string> strs { "" };
    for (std::size_t lo = 0; int(strs.back().size()) < ad;) {
        const std::size_t hi = strs.size();
        for (std::size_t i = lo; i < hi; ++i)
            for (char c : aa) strs.push_back(strs[i] + c);
        lo = hi;
    }
    const auto low = [](std::string s) {
        for (char& c : s) c = c >= 'A' && c <= 'Z' ? char(c + 32) : c;
        return s;
    };
    const auto w = [](const std::string& s) { return std::u8string_view(reinterpret_cast<const char8_t*>(s.data()), s.size()); };
    const std::size_t small = 1 + 9 + 81;
    for (std::size_t i = 0; i < strs.size(); ++i) {
        if (!x.begin("ascii " + strs[i])) continue;
        const std::string& a = strs[i];
        for (std::size_t j = 0; j < std::min(small, strs.size()); ++j) {
            const std::string& b = strs[j];
            const std::string la = low(a), lb = low(b);
            if (u::ascii::equals_ignore_case(w(a), w(b)) != (la == lb)) x.fail("equals_ignore_case", b);
            if (u::ascii::starts_with_ignore_case(w(a), w(b)) != la.starts_with(lb)) x.fail("starts_with_ignore_case", b);
            if (u::ascii::contains_ignore_case(w(a), w(b)) != (la.find(lb) != la.npos)) x.fail("contains_ignore_case", b);
            const auto o = u::ascii::compare_to_lower(w(a), w(b));
            if ((o < 0) != (la < lb) || (o > 0) != (la > lb) || (o == 0) != (la == lb)) x.fail("compare_to_lower", b);
        }
        x.bulk(small);
        const auto up = [](char8_t c) { return c >= 'A' && c <= 'Z'; };
        for (std::size_t st = 0; st <= a.size(); ++st) {
            std::size_t f = a.npos, g = a.npos;
            for (std::size_t q = st; q < a.size(); ++q) {
                if (up(char8_t(a[q])) && f == a.npos) f = q;
                if (!up(char8_t(a[q])) && g == a.npos) g = q;
            }
            const std::size_t e = a.size();
            const auto or_end = [&](std::size_t p) { return p == a.npos ? e : p; };
            if (u::ascii::find_if(w(a), up, st) != f || u::ascii::find_if_not(w(a), up, st) != g
                || u::ascii::length_if(w(a), up, st) != or_end(g) || u::ascii::length_if_not(w(a), up, st) != or_end(f))
                x.fail("ascii-find", std::to_string(st));
            for (char c : std::string("aA@1")) {
                const std::size_t p = a.find(c, st), n = a.find_first_not_of(c, st);
                if (u::ascii::length_before(w(a), char8_t(c), st) != or_end(p) || u::ascii::length_before_not(w(a), char8_t(c), st) != or_end(n)
                    || u::ascii::length_until(w(a), char8_t(c), st) != (p == a.npos ? e : p + 1)
                    || u::ascii::length_until_not(w(a), char8_t(c), st) != (n == a.npos ? e : n + 1))
                    x.fail("ascii-length", std::string(1, c) + std::to_string(st));
            }
        }
        const auto lo_ = [](char8_t c) { return c >= 'a' && c <= 'z'; };
        std::size_t h = 0;
        if (!a.empty() && up(char8_t(a[0])))
            for (h = 1; h < a.size() && lo_(char8_t(a[h])); ++h) { }
        if (u::ascii::length_if_head_tail(w(a), up, lo_) != h) x.fail("length_if_head_tail", "");
    }
}

// ------------------------------------------------------------------ character classes
template <std::size_t N>
std::vector<bool> to_bits(const std::uint32_t (&r)[N][2])
{
    std::vector<bool> b(0x110000);
    for (const auto& p : r)
        for (std::uint32_t c = p[0]; c <= p[1]; ++c) b[c] = true;
    return b;
}

bool in(char32_t c, std::initializer_list<std::pair<char32_t, char32_t>> l)
{
    for (const auto& [a, b] : l)
        if (c >= a && c <= b) return true;
    return false;
}
bool one_of(char32_t c, std::string_view s) { return c < 0x80 && c != 0 && s.find(char(c)) != s.npos; }
bool alpha(char32_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool digit(char32_t c) { return c >= '0' && c <= '9'; }
bool ref_xml_start(char32_t c)
{
    return in(c, { { ':', ':' }, { 'A', 'Z' }, { '_', '_' }, { 'a', 'z' }, { 0xC0, 0xD6 }, { 0xD8, 0xF6 }, { 0xF8, 0x2FF }, { 0x370, 0x37D },
        { 0x37F, 0x1FFF }, { 0x200C, 0x200D }, { 0x2070, 0x218F }, { 0x2C00, 0x2FEF }, { 0x3001, 0xD7FF }, { 0xF900, 0xFDCF }, { 0xFDF0, 0xFFFD },
        { 0x10000, 0xEFFFF } });
}
bool ref_xml_name(char32_t c)
{
    return ref_xml_start(c) || digit(c) || in(c, { { '-', '.' }, { 0xB7, 0xB7 }, { 0x300, 0x36F }, { 0x203F, 0x2040 } });
}
bool ref_html_tag(char32_t c)
{
    return alpha(c) || digit(c)
        || in(c, { { '-', '.' }, { '_', '_' }, { 0xB7, 0xB7 }, { 0xC0, 0xD6 }, { 0xD8, 0xF6 }, { 0xF8, 0x37D }, { 0x37F, 0x1FFF }, { 0x200C, 0x200D },
            { 0x203F, 0x2040 }, { 0x2070, 0x218F }, { 0x2C00, 0x2FEF }, { 0x3001, 0xD7FF }, { 0xF900, 0xFDCF }, { 0xFDF0, 0xFFFD }, { 0x10000, 0xEFFFF } });
}
bool nonchar(char32_t c) { return (c >= 0xFDD0 && c <= 0xFDEF) || (c & 0xFFFE) == 0xFFFE; }
bool ref_html_attr(char32_t c)
{
    return !(c <= 0x1F || c == 0x7F) && !one_of(c, " \"'>/=") && !nonchar(c);
}
bool ref_js_space(char32_t c)
{
    return in(c, { { 9, 0xD }, { ' ', ' ' }, { 0xA0, 0xA0 }, { 0x1680, 0x1680 }, { 0x2000, 0x200A }, { 0x2028, 0x2029 }, { 0x202F, 0x202F },
        { 0x205F, 0x205F }, { 0x3000, 0x3000 }, { 0xFEFF, 0xFEFF } });
}
bool ref_rust_space(char32_t c)
{
    return in(c, { { 9, 0xD }, { ' ', ' ' }, { 0x85, 0x85 }, { 0x200E, 0x200F }, { 0x2028, 0x2029 } });
}

std::string utf8_of(char32_t c)
{
    std::string o;
    if (c < 0x80) o += char(c);
    else if (c < 0x800) o += char(0xC0 | c >> 6);
    else if (c < 0x10000) o += char(0xE0 | c >> 12);
    else o += char(0xF0 | c >> 18);
    const int more = c < 0x80 ? 0 : c < 0x800 ? 1 : c < 0x10000 ? 2 : 3;
    for (int k = more - 1; k >= 0; --k) o += char(0x80 | ((c >> (6 * k)) & 0x3F));
    return o;
}

struct Ident_Lang {
    const char* name;
    ulight_lang lang;
    const char* before; // text before the identifier
    const char* after;
    int kind; // which reference
};
enum { k_xid, k_js, k_ascii, k_llvm, k_nasm, k_ebnf, k_css, k_xml, k_html_tag, k_html_attr, k_bash };
const Ident_Lang ident_langs[] = {
    { "cpp", ULIGHT_LANG_CPP, "", "", k_xid }, { "c", ULIGHT_LANG_C, "", "", k_xid }, { "java", ULIGHT_LANG_JAVA, "", "", k_xid },
    { "kotlin", ULIGHT_LANG_KOTLIN, "", "", k_xid }, { "rust", ULIGHT_LANG_RUST, "", "", k_xid }, { "python", ULIGHT_LANG_PYTHON, "", "", k_xid },
    { "js", ULIGHT_LANG_JAVASCRIPT, "", "", k_js }, { "ts", ULIGHT_LANG_TYPESCRIPT, "", "", k_js }, { "lua", ULIGHT_LANG_LUA, "", "", k_ascii },
    { "llvm", ULIGHT_LANG_LLVM, "%", "", k_llvm }, { "nasm", ULIGHT_LANG_NASM, "", "", k_nasm }, { "ebnf", ULIGHT_LANG_EBNF, "", "", k_ebnf },
    { "css", ULIGHT_LANG_CSS, "", "", k_css }, { "xml", ULIGHT_LANG_XML, "<", ">", k_xml }, { "html", ULIGHT_LANG_HTML, "<", ">", k_html_tag },
    { "html-attr", ULIGHT_LANG_HTML, "<a ", ">", k_html_attr }, { "bash", ULIGHT_LANG_BASH, "$", "", k_bash },
};

struct Classes {
    std::vector<bool> start = to_bits(ref_xid_start), cont = to_bits(ref_xid_continue);
    bool is_start(int k, char32_t c) const
    {
        switch (k) {
        case k_xid: return c == '_' || start[c];
        case k_js: return c == '_' || c == '$' || start[c];
        case k_ascii: case k_bash: return c == '_' || alpha(c);
        case k_llvm: return alpha(c) || c == '_';
        case k_nasm: return alpha(c) || c == '_' || c == '.';
        case k_ebnf: return alpha(c) || c == '_';
        case k_css: return alpha(c) || c == '_' || c >= 0x80;
        case k_xml: return ref_xml_start(c);
        case k_html_tag: return alpha(c);
        case k_html_attr: return ref_html_attr(c);
        }
        return false;
    }
    bool is_cont(int k, char32_t c) const
    {
        switch (k) {
        case k_xid: return cont[c];
        case k_js: return c == '$' || c == 0x200C || c == 0x200D || cont[c];
        case k_ascii: case k_bash: return c == '_' || alpha(c) || digit(c);
        case k_llvm: return c == '_' || alpha(c) || digit(c) || one_of(c, "-$.");
        case k_nasm: return c == '_' || alpha(c) || digit(c) || one_of(c, "$#@~.?");
        case k_ebnf: return c == '_' || c == '-' || alpha(c) || digit(c);
        case k_css: return c == '_' || c == '-' || alpha(c) || digit(c) || c >= 0x80;
        case k_xml: return ref_xml_name(c);
        case k_html_tag: return ref_html_tag(c);
        case k_html_attr: return ref_html_attr(c);
        }
        return false;
    }
    /// ASCII characters to test, besides letters, digits and the underscore.
    static const char* extra(int k)
    {
        switch (k) {
        case k_js: return "$";
        case k_llvm: return "-$.";
        case k_nasm: return "$@.?";
        case k_css: return "-";
        case k_xml: return "-.:";
        case k_html_tag: return "-.";
        case k_html_attr: return "-.:@*~";
        }
        return "";
    }
};

struct Tok_Sink {
    std::vector<ulight_token> t;
};
bool tokens_of(ulight_lang l, const std::string& s, std::vector<ulight_token>& out)
{
    static ulight_token buf[64];
    out.clear();
    ulight_state st;
    ulight_init(&st);
    st.source = s.data();
    st.source_length = s.size();
    st.lang = l;
    st.token_buffer = buf;
    st.token_buffer_length = 64;
    st.flush_tokens_data = &out;
    st.flush_tokens = [](const void* d, ulight_token* t, std::size_t n) {
        auto* o = static_cast<std::vector<ulight_token>*>(const_cast<void*>(d));
        o->insert(o->end(), t, t + n);
    };
    const auto r = ulight_source_to_tokens(&st);
    ulight_destroy(&st);
    return r == ULIGHT_STATUS_OK;
}

void check_classes(Ctx& x)
{
    const Classes cls;
    x.set_family("Unicode classes");
    for (char32_t base = 0; base < 0x110000; base += 0x800) {
        if (!x.begin("class " + cp_label(base))) continue;
        for (char32_t c = base; c < base + 0x800; ++c) {
            const auto want = [&](bool got, bool ref, const char* what) {
                if (got != ref) x.fail(what, cp_label(c));
            };
            want(u::is_xid_start(c), cls.start[c], "xid_start");
            want(u::is_xid_continue(c), cls.cont[c], "xid_continue");
            want(u::is_surrogate(c), c >= 0xD800 && c < 0xE000, "surrogate");
            want(u::is_leading_surrogate(c), c >= 0xD800 && c < 0xDC00, "leading-surrogate");
            want(u::is_trailing_surrogate(c), c >= 0xDC00 && c < 0xE000, "trailing-surrogate");
            want(u::is_scalar_value(c), !(c >= 0xD800 && c < 0xE000), "scalar-value");
            want(u::is_code_point(c), true, "code-point");
            want(u::is_noncharacter(c), nonchar(c), "noncharacter");
            want(u::is_private_use_area_character(c), in(c, { { 0xE000, 0xF8FF }, { 0xF0000, 0xFFFFF }, { 0x100000, 0x10FFFF } }), "private-use");
            want(u::is_ascii(c), c < 0x80, "ascii");
            want(u::is_ascii_digit(c), digit(c), "ascii-digit");
            want(u::is_ascii_alpha(c), alpha(c), "ascii-alpha");
            want(u::is_ascii_alphanumeric(c), alpha(c) || digit(c), "ascii-alphanumeric");
            want(u::is_ascii_hex_digit(c), c < 0x80 && std::isxdigit(int(c)), "ascii-hex-digit");
            want(u::is_ascii_octal_digit(c), c >= '0' && c <= '7', "ascii-octal-digit");
            want(u::is_ascii_binary_digit(c), c == '0' || c == '1', "ascii-binary-digit");
            want(u::is_ascii_upper_alpha(c), c >= 'A' && c <= 'Z', "ascii-upper");
            want(u::is_ascii_lower_alpha(c), c >= 'a' && c <= 'z', "ascii-lower");
            want(u::is_ascii_punctuation(c), c < 0x80 && std::ispunct(int(c)), "ascii-punctuation");
            want(u::is_ascii_printing(c), c < 0x80 && std::isprint(int(c)), "ascii-printing");
            want(u::to_ascii_upper(c) == (c >= 'a' && c <= 'z' ? c - 32 : c), true, "to-upper");
            want(u::to_ascii_lower(c) == (c >= 'A' && c <= 'Z' ? c + 32 : c), true, "to-lower");
            for (int base_ = 1; base_ <= 36; ++base_) {
                const int v = digit(c) ? int(c - '0') : c >= 'a' && c <= 'z' ? int(c - 'a') + 10 : c >= 'A' && c <= 'Z' ? int(c - 'A') + 10 : 99;
                want(u::is_ascii_digit_base(c, base_), v < base_, "ascii-digit-base");
            }
            want(u::js::is_js_whitespace(c), ref_js_space(c), "js-whitespace");
            want(u::js::is_js_identifier_start(c), cls.is_start(k_js, c), "js-start");
            want(u::js::is_js_identifier_part(c), cls.is_cont(k_js, c), "js-part");
            want(u::xml::is_xml_name_start(c), ref_xml_start(c), "xml-start");
            if (c != '-') want(u::xml::is_xml_name(c), ref_xml_name(c), "xml-name"); // '-': see the identifier cases
            want(u::html::is_html_tag_name_character(c), ref_html_tag(c), "html-tag-name");
            want(u::html::is_html_attribute_name_character(c), ref_html_attr(c), "html-attribute-name");
            want(u::html::is_html_unquoted_attribute_value_character(c), !one_of(c, " \t\n\f\r\"'=<>`"), "html-unquoted");
            want(u::html::is_html_whitespace(c), one_of(c, " \t\n\f\r"), "html-whitespace");
            want(u::xml::is_xml_whitespace(c), one_of(c, " \t\n\r"), "xml-whitespace");
            want(u::css::is_css_newline(c), one_of(c, "\n\f\r"), "css-newline");
            want(u::css::is_css_identifier(c), cls.is_cont(k_css, c), "css-identifier");
            want(u::css::is_css_identifier_start(c), cls.is_start(k_css, c), "css-identifier-start");
            if (c < 256) {
                const char8_t b = char8_t(c);
                want(u::is_ascii(b), c < 0x80, "ascii8");
                want(u::is_ascii_digit(b), digit(c), "ascii-digit8");
                want(u::is_ascii_upper_alpha(b), c >= 'A' && c <= 'Z', "ascii-upper8");
                want(u::is_ascii_lower_alpha(b), c >= 'a' && c <= 'z', "ascii-lower8");
                want(u::is_ascii_octal_digit(b), c >= '0' && c <= '7', "ascii-octal-digit8");
                want(u::is_ascii_binary_digit(b), c == '0' || c == '1', "ascii-binary-digit8");
                want(u::is_ascii_hex_digit(b), c < 0x80 && std::isxdigit(int(c)), "ascii-hex-digit8");
                want(char32_t(u::to_ascii_upper(b)) == (c >= 'a' && c <= 'z' ? c - 32 : c), true, "to-upper8");
                want(char32_t(u::to_ascii_lower(b)) == (c >= 'A' && c <= 'Z' ? c + 32 : c), true, "to-lower8");
            }
        }
        x.bulk(0x800);
    }
    x.set_family("character sets");
    for (std::size_t i = 0; i < 256; ++i) {
        if (!x.begin("charset " + std::to_string(i))) continue;
        for (std::size_t j = i; j <= 256; ++j) {
            const auto s = u::Charset256::range_before(i, j);
            u::Charset256 t {};
            for (std::size_t c = i; c < j; ++c) t.insert(char8_t(c));
            const auto v = u::is_ascii_alpha;
            u::Charset256 r = t;
            r.remove(char8_t(i));
            for (std::size_t c = 0; c < 256; ++c) {
                const char8_t b = char8_t(c);
                const bool inside = c >= i && c < j, va = alpha(char32_t(c));
                if (s(b) != inside || s(char32_t(c)) != inside) x.fail("range", std::to_string(j));
                if (t(b) != inside) x.fail("insert", std::to_string(j));
                if (r(b) != (inside && c != i)) x.fail("remove", std::to_string(j));
                if ((s | v)(b) != (inside || va) || (s & v)(b) != (inside && va) || (s - v)(b) != (inside && !va) || (~s)(b) == inside)
                    x.fail("algebra", std::to_string(j));
                if ((s | char8_t(i))(b) != (inside || c == i) || (s - char8_t(i))(b) != (inside && c != i)) x.fail("algebra-character", std::to_string(j));
            }
            if (s(char32_t(256 + i)) || s(char32_t(0x10000 + i))) x.fail("beyond", std::to_string(j));
            if (!(s == t)) x.fail("equality", std::to_string(j));
        }
        x.bulk(256 - i);
    }
    // Identifiers in highlighted text: every code point at the start, in the middle and at the end.
    std::vector<ulight_token> out;
    for (const Ident_Lang& L : ident_langs) {
        x.set_family(std::string("identifiers ") + L.name);
        const auto one = [&](char32_t c) {
            const std::string cp = utf8_of(c), pre = L.before;
            const auto covers = [&](const std::string& id, std::size_t want, const char* what) {
                // the first token that begins at the identifier must cover exactly `want` bytes of it
                const std::string s = pre + id + L.after;
                if (!tokens_of(L.lang, s, out)) {
                    x.fail("status", cp_label(c));
                    return;
                }
                std::size_t len = 0;
                for (const auto& t : out) {
                    if (t.begin <= pre.size() && t.begin + t.length > pre.size()) {
                        // names with their sigil count as the name
                        len = t.begin + t.length - pre.size();
                        break;
                    }
                }
                if (len > id.size()) len = id.size();
                if (want == std::string::npos ? len > cp.size() : len != want)
                    x.fail(what, cp_label(c) + ": the token covers " + std::to_string(len) + " of " + std::to_string(id.size()) + " bytes in '" + s + "'");
            };
            const bool st = cls.is_start(L.kind, c), co = cls.is_cont(L.kind, c);
            covers("zq" + cp + "zq", co ? 4 + cp.size() : 2, co ? "part-rejected" : "part-accepted");
            covers("zq" + cp, co ? 2 + cp.size() : 2, co ? "end-rejected" : "end-accepted");
            if (st) covers(cp + "zq", cp.size() + 2, "start-rejected");
            else if (c >= 0x80 && L.kind != k_html_tag && L.kind != k_bash) covers(cp + "zq", std::string::npos, "start-accepted");
            x.nontrivial(co);
        };
        for (char32_t base = 0x80; base < 0x110000; base += 0x400) {
            if (base != 0x80 && base % 0x400) base -= base % 0x400;
            const char32_t end = (base / 0x400 + 1) * 0x400;
            if (base >= 0xD800 && base < 0xE000) continue;
            // Past the last difference between the classes, one block in eight will do, unless thorough.
            if (!x.begin(std::string("identifier ") + L.name + " " + cp_label(base))) continue;
            for (char32_t c = base; c < end; ++c) one(c);
            x.bulk(end - base);
        }
        for (char32_t c = 0; c < 0x80; ++c) {
            if (!alpha(c) && !digit(c) && c != '_' && (c == 0 || !std::strchr(Classes::extra(L.kind), int(c)))) continue;
            if (!x.begin(std::string("identifier ") + L.name + " " + cp_label(c))) continue;
            one(c);
        }
    }
    // White space of JavaScript and Rust: no token, and it separates names.
    for (const auto& [name, lang, ref] : { std::tuple { "js", ULIGHT_LANG_JAVASCRIPT, &ref_js_space }, std::tuple { "ts", ULIGHT_LANG_TYPESCRIPT, &ref_js_space },
             std::tuple { "rust", ULIGHT_LANG_RUST, &ref_rust_space } }) {
        x.set_family(std::string("white space ") + name);
        for (char32_t base = 0x80; base < 0x110000; base += 0x400) {
            if (base != 0x80 && base % 0x400) base -= base % 0x400;
            const char32_t end = (base / 0x400 + 1) * 0x400;
            if (base >= 0xD800 && base < 0xE000) continue;
            if (!x.begin(std::string("space ") + name + " " + cp_label(base))) continue;
            for (char32_t c = base; c < end; ++c) {
                if (cls.cont[c] || cls.start[c] || c == 0x200C || c == 0x200D) continue;
                const std::string s = "zq" + utf8_of(c) + "zq";
                tokens_of(lang, s, out);
                bool token = false;
                for (const auto& t : out) token |= t.begin <= 2 && t.begin + t.length > 2;
                if (token == ref(c)) x.fail(ref(c) ? "white-space-has-token" : "non-space-has-no-token", cp_label(c));
            }
            x.bulk(end - base);
        }
    }
}

const std::vector<Mini_Check> checks = { { "utf8", check_utf8 }, { "classes", check_classes } };

} // namespace

int main(int argc, char** argv) { return mini_main(argc, argv, checks); }
