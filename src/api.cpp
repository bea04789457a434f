// Public API surface: configuration matrix, language registry, highlight type names.
#include "mini.hpp"
#include "ulight/ulight.hpp"
#include <algorithm>

using namespace vx;

namespace {

struct Lang_Row { const char* name; int lang; };
const Lang_Row lang_rows[] = {
#include "langtable.inc"
};
struct Disp_Row { int lang; const char* name; };
const Disp_Row disp_rows[] = {
#include "displaytable.inc"
};
struct Type_Row { int value; const char* enumerator; const char* longs; const char* shorts; };
const Type_Row type_rows[] = {
#include "typetable.inc"
};

// ------------------------------------------------------------------------------------- T07
bool same_state(const ulight_state& a, const ulight_state& b)
{
    return a.source == b.source && a.source_length == b.source_length && a.lang == b.lang && a.flags == b.flags
        && a.token_buffer == b.token_buffer && a.token_buffer_length == b.token_buffer_length
        && a.flush_tokens_data == b.flush_tokens_data && a.flush_tokens == b.flush_tokens
        && a.text_buffer == b.text_buffer && a.text_buffer_length == b.text_buffer_length
        && a.flush_text_data == b.flush_text_data && a.flush_text == b.flush_text
        && a.html_tag_name == b.html_tag_name && a.html_tag_name_length == b.html_tag_name_length
        && a.html_attr_name == b.html_attr_name && a.html_attr_name_length == b.html_attr_name_length
        && a.error == b.error && a.error_length == b.error_length;
}
struct Log {
    int calls = 0;
    std::string text;
    std::vector<ulight_token> tokens;
};
void on_tokens(const void* d, ulight_token* t, std::size_t n)
{
    auto* l = const_cast<Log*>(static_cast<const Log*>(d));
    ++l->calls;
    l->tokens.insert(l->tokens.end(), t, t + n);
}
void on_text(const void* d, char* t, std::size_t n)
{
    auto* l = const_cast<Log*>(static_cast<const Log*>(d));
    ++l->calls;
    l->text.append(t, n);
}

const unsigned langs_matrix[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27,
    28, 31, 32, 63, 64, 127, 128, 200, 254, 255, 256, 257, 258, 266, 511, 65535, 65536, 65538, 0x7fffffff, 0x80000000u, 0x80000002u,
    0xfffffffeu, 0xffffffffu };
bool lang_ok(unsigned l) { return l >= 1 && l <= 25; }

std::string sample_for(unsigned l)
{
    switch (l) {
    case 4: return "<a b='c'>x &amp; y</a>\n";
    case 9: return "--- a\n+++ b\n@@ x\n-y\n+z\n";
    default: return "a = \"x<&>\" // 12\n# b\n{ 'c': 3 }\n";
    }
}

void chk_config(Ctx& x)
{
    static const char tag[] = "t1", attr[] = "at";
    std::string payload;
    x.set_family("tokens");
    for (int src = 0; src < 4; ++src)
        for (unsigned lang : langs_matrix)
            for (int flags = 0; flags < 4; ++flags)
                for (int tb = 0; tb < 2; ++tb)
                    for (int tl = 0; tl < 3; ++tl)
                        for (int fl = 0; fl < 2; ++fl)
                            for (int html = 0; html < 2; ++html) {
                                char lab[160];
                                std::snprintf(lab, sizeof lab, "tokens src=%d lang=%u flags=%d tokbuf=%d len=%d flush=%d html=%d", src, lang, flags, tb, tl, fl, html);
                                if (!x.begin(lab)) continue;
                                payload = sample_for(lang);
                                char* s = source_arena().tail(payload.size());
                                std::memcpy(s, payload.data(), payload.size());
                                static const std::size_t lens[] = { 0, 1, 8 };
                                auto* buf = reinterpret_cast<ulight_token*>(token_arena().tail(8 * sizeof(ulight_token)));
                                std::memset(buf, 0x5A, 8 * sizeof(ulight_token));
                                Log log;
                                ulight_state st;
                                if (ulight_init(&st) != &st) x.fail("init-result", "");
                                st.source = src & 1 ? s : nullptr;
                                st.source_length = src & 2 ? payload.size() : 0;
                                st.lang = ulight_lang(lang);
                                st.flags = ulight_flag(flags);
                                st.token_buffer = tb ? buf : nullptr;
                                st.token_buffer_length = lens[tl];
                                st.flush_tokens = fl ? on_tokens : nullptr;
                                st.flush_tokens_data = &log;
                                if (html) { // irrelevant for tokens
                                    st.html_tag_name = nullptr;
                                    st.html_attr_name_length = 0;
                                }
                                ulight_state before = st;
                                std::set<int> want;
                                if (src == 2) want.insert(ULIGHT_STATUS_BAD_STATE);
                                if (!tb || tl == 0 || !fl) want.insert(ULIGHT_STATUS_BAD_BUFFER);
                                if (!lang_ok(lang)) want.insert(ULIGHT_STATUS_BAD_LANG);
                                const int got = ulight_source_to_tokens(&st);
                                if (want.empty()) {
                                    x.nontrivial();
                                    if (got != ULIGHT_STATUS_OK) x.fail("valid-rejected", "status " + std::to_string(got));
                                    Run_Result r;
                                    run_tokens(r, int(lang), std::string_view(payload.data(), src & 2 ? payload.size() : 0), { flags, 64, false });
                                    bool eq = r.tokens.size() == log.tokens.size();
                                    for (std::size_t i = 0; eq && i < r.tokens.size(); ++i)
                                        eq = r.tokens[i].begin == log.tokens[i].begin && r.tokens[i].length == log.tokens[i].length && r.tokens[i].type == log.tokens[i].type;
                                    if (!eq) x.fail("valid-different-tokens", "");
                                }
                                else {
                                    if (!want.count(got)) x.fail("wrong-status", "status " + std::to_string(got));
                                    if (log.calls) x.fail("callback-on-invalid", "");
                                    for (std::size_t i = 0; i < 8 * sizeof(ulight_token); ++i)
                                        if (reinterpret_cast<char*>(buf)[i] != 0x5A) {
                                            x.fail("buffer-written-on-invalid", "");
                                            break;
                                        }
                                    if (!st.error || !st.error_length) x.fail("no-error-text", "");
                                    else
                                        for (std::size_t i = 0; i < st.error_length; ++i)
                                            if (st.error[i] < 32 || st.error[i] > 126) x.fail("bad-error-text", "");
                                }
                                st.error = before.error;
                                st.error_length = before.error_length;
                                if (!same_state(st, before)) x.fail("configuration-modified", "");
                            }
    x.set_family("html");
    static const unsigned hl[] = { 0, 1, 2, 4, 9, 10, 13, 25, 26, 258, 0xffffffffu };
    for (int src = 0; src < 4; ++src)
        for (unsigned lang : hl)
            for (int tb = 0; tb < 2; ++tb)
                for (int tl = 0; tl < 3; ++tl)
                    for (int xb = 0; xb < 2; ++xb)
                        for (int xl = 0; xl < 3; ++xl)
                            for (int fl = 0; fl < 4; ++fl)
                                for (int names = 0; names < 16; ++names) {
                                    char lab[200];
                                    std::snprintf(lab, sizeof lab, "html src=%d lang=%u tokbuf=%d len=%d textbuf=%d len=%d flush=%d names=%x", src, lang, tb, tl, xb, xl, fl, names);
                                    if (!x.begin(lab)) continue;
                                    payload = sample_for(lang);
                                    char* s = source_arena().tail(payload.size());
                                    std::memcpy(s, payload.data(), payload.size());
                                    static const std::size_t lens[] = { 0, 1, 8 };
                                    auto* buf = reinterpret_cast<ulight_token*>(token_arena().tail(lens[tl] * sizeof(ulight_token)));
                                    char* text = text_arena().tail(lens[xl]);
                                    std::memset(text, 0x5A, lens[xl]);
                                    Log log;
                                    ulight_state st;
                                    ulight_init(&st);
                                    st.source = src & 1 ? s : nullptr;
                                    st.source_length = src & 2 ? payload.size() : 0;
                                    st.lang = ulight_lang(lang);
                                    st.token_buffer = tb ? buf : nullptr;
                                    st.token_buffer_length = lens[tl];
                                    st.text_buffer = xb ? text : nullptr;
                                    st.text_buffer_length = lens[xl];
                                    st.flush_text = fl & 1 ? on_text : nullptr;
                                    st.flush_text_data = &log;
                                    st.flush_tokens = fl & 2 ? on_tokens : nullptr; // must not matter
                                    st.flush_tokens_data = &log;
                                    const char* tn = names & 1 ? nullptr : tag;
                                    const std::size_t tnl = names & 2 ? 0 : 2;
                                    const char* an = names & 4 ? nullptr : attr;
                                    const std::size_t anl = names & 8 ? 0 : 2;
                                    st.html_tag_name = tn;
                                    st.html_tag_name_length = tnl;
                                    st.html_attr_name = an;
                                    st.html_attr_name_length = anl;
                                    ulight_state before = st;
                                    std::set<int> want;
                                    if (src == 2) want.insert(ULIGHT_STATUS_BAD_STATE);
                                    if (!tb || tl == 0 || !xb || xl == 0 || !(fl & 1)) want.insert(ULIGHT_STATUS_BAD_BUFFER);
                                    if (names) want.insert(ULIGHT_STATUS_BAD_STATE);
                                    if (!lang_ok(lang)) want.insert(ULIGHT_STATUS_BAD_LANG);
                                    const int got = ulight_source_to_html(&st);
                                    if (want.empty()) {
                                        x.nontrivial();
                                        if (got != ULIGHT_STATUS_OK) x.fail("valid-rejected", "status " + std::to_string(got));
                                        if (!log.tokens.empty()) x.fail("token-callback-during-html", "");
                                        if ((src & 2) == 0 && !log.text.empty()) x.fail("output-for-empty-source", log.text);
                                        if ((src & 2) && log.text.size() < payload.size()) x.fail("output-too-short", log.text);
                                    }
                                    else {
                                        if (!want.count(got)) x.fail("wrong-status", "status " + std::to_string(got));
                                        if (log.calls) x.fail("callback-on-invalid", log.text);
                                        for (std::size_t i = 0; i < lens[xl]; ++i)
                                            if (text[i] != 0x5A) {
                                                x.fail("buffer-written-on-invalid", "");
                                                break;
                                            }
                                        if (!st.error || !st.error_length) x.fail("no-error-text", "");
                                    }
                                    st.error = before.error;
                                    st.error_length = before.error_length;
                                    st.flush_tokens = before.flush_tokens;
                                    st.flush_tokens_data = before.flush_tokens_data;
                                    if (!same_state(st, before)) x.fail("configuration-modified", "");
                                }
    // the C++ wrapper is a faithful view of the C state
    x.set_family("wrapper");
    for (int op = 0; op < 13; ++op)
        for (int op2 = 0; op2 < 13; ++op2) {
            if (!x.begin("wrapper setters " + std::to_string(op) + "," + std::to_string(op2))) continue;
            x.nontrivial();
            static ulight_token tk[5];
            static char tx[7];
            static auto f1 = [](ulight_token*, std::size_t) {};
            static auto f2 = [](char*, std::size_t) {};
            ulight_state want;
            ulight_init(&want);
            ulight::State st;
            if (!same_state(want, st.impl)) x.fail("wrapper-default", "");
            for (int o : { op, op2 }) {
                switch (o) {
                case 0: st.set_source(std::string_view("abc", 3)); want.source = st.impl.source; want.source_length = 3;
                    if (st.get_source() != "abc" || st.get_u8source() != u8"abc") x.fail("wrapper-get", "source"); break;
                case 1: st.set_source(std::u8string_view(u8"abcd", 4)); want.source = st.impl.source; want.source_length = 4;
                    if (st.get_source() != "abcd" || st.get_u8source() != u8"abcd") x.fail("wrapper-get", "u8source"); break;
                case 2: st.set_lang(ulight::Lang::rust); want.lang = ULIGHT_LANG_RUST;
                    if (st.get_lang() != ulight::Lang::rust) x.fail("wrapper-get", "lang"); break;
                case 3: st.set_lang(ULIGHT_LANG_YAML); want.lang = ULIGHT_LANG_YAML;
                    if (st.get_lang() != ulight::Lang::yaml) x.fail("wrapper-get", "lang"); break;
                case 4: st.set_flags(ulight::Flag::coalesce); want.flags = ULIGHT_COALESCE;
                    if (st.get_flags() != ulight::Flag::coalesce) x.fail("wrapper-get", "flags"); break;
                case 5: st.set_flags(ULIGHT_STRICT); want.flags = ULIGHT_STRICT;
                    if (st.get_flags() != ulight::Flag::strict) x.fail("wrapper-get", "flags"); break;
                case 6: st.set_flags(ulight::Flag::coalesce | ulight::Flag::strict); want.flags = ulight_flag(3); break;
                case 7: st.set_token_buffer(tk); want.token_buffer = tk; want.token_buffer_length = 5;
                    if (st.get_token_buffer().data() != tk || st.get_token_buffer().size() != 5) x.fail("wrapper-get", "tokens"); break;
                case 8: st.set_text_buffer(tx); want.text_buffer = tx; want.text_buffer_length = 7;
                    if (st.get_text_buffer().data() != tx || st.get_text_buffer().size() != 7 || st.get_text_u8buffer().size() != 7
                        || st.get_text_buffer_string().size() != 7 || st.get_text_buffer_u8string().size() != 7) x.fail("wrapper-get", "text"); break;
                case 9: st.set_html_tag_name("x-yz"); want.html_tag_name = st.impl.html_tag_name; want.html_tag_name_length = 4;
                    if (std::string_view(st.impl.html_tag_name, 4) != "x-yz") x.fail("wrapper-get", "tag"); break;
                case 10: st.set_html_attr_name("class-n"); want.html_attr_name = st.impl.html_attr_name; want.html_attr_name_length = 7;
                    if (std::string_view(st.impl.html_attr_name, 7) != "class-n") x.fail("wrapper-get", "attr"); break;
                case 11: st.on_flush_tokens(f1); want.flush_tokens = st.impl.flush_tokens; want.flush_tokens_data = st.impl.flush_tokens_data;
                    if (!st.impl.flush_tokens) x.fail("wrapper-get", "flush_tokens"); break;
                case 12: st.on_flush_text(f2); want.flush_text = st.impl.flush_text; want.flush_text_data = st.impl.flush_text_data;
                    if (!st.impl.flush_text) x.fail("wrapper-get", "flush_text"); break;
                }
                if (!same_state(want, st.impl)) x.fail("wrapper-setter", "operation " + std::to_string(o));
            }
        }
    // lifetimes
    x.set_family("new/delete");
    if (x.begin("new/delete")) {
        x.nontrivial();
        ulight_state d;
        ulight_init(&d);
        for (int i = 0; i < 100; ++i) {
            ulight_state* p = ulight_new();
            if (!p || !same_state(*p, d)) x.fail("new-not-default", "");
            ulight_delete(p);
        }
    }
}

// ------------------------------------------------------------------------------------- T11
int ref_lang(std::string_view n)
{
    for (const auto& r : lang_rows)
        if (n == r.name) return r.lang;
    return 0;
}
std::map<std::string, int, std::less<>> listed_langs()
{
    std::map<std::string, int, std::less<>> m;
    for (std::size_t i = 0; i < ulight_lang_list_length; ++i)
        m[std::string(ulight_lang_list[i].name, ulight_lang_list[i].name_length)] = ulight_lang_list[i].lang;
    return m;
}
void chk_registry(Ctx& x)
{
    x.set_family("list");
    if (x.worker == 0 && x.enter("language list")) {
        std::string prev;
        for (std::size_t i = 0; i < ulight_lang_list_length; ++i) {
            const auto& e = ulight_lang_list[i];
            const std::string n(e.name, e.name_length);
            if (i && !(prev < n)) x.fail("list-unordered", n);
            prev = n;
            if (e.lang < 1 || e.lang >= ULIGHT_LANG_COUNT) x.fail("list-bad-lang", n);
            if (n.empty()) x.fail("list-empty-name", "");
            for (char c : n)
                if (c < 33 || c > 126 || (c >= 'A' && c <= 'Z')) x.fail("list-name-not-lower-ascii", n);
        }
        const auto m = listed_langs();
        for (const auto& r : lang_rows) {
            const auto it = m.find(r.name);
            if (it == m.end()) x.fail("list-missing", r.name);
            else if (it->second != r.lang) x.fail("list-wrong-language", r.name);
        }
        for (int l = 1; l < ULIGHT_LANG_COUNT; ++l)
            if (std::none_of(m.begin(), m.end(), [&](auto& p) { return p.second == l; })) x.fail("list-unreachable-language", std::to_string(l));
    }
    if (x.worker == 0 && x.enter("display names")) {
        for (const auto& r : disp_rows) {
            const auto d = ulight_lang_display_name(ulight_lang(r.lang));
            const auto u = ulight_lang_display_name_u8(ulight_lang(r.lang));
            if (!d.text || std::string_view(d.text, d.length) != r.name || d.text[d.length] != 0) x.fail("display-name", r.name);
            if (u.length != d.length || std::memcmp(u.text, d.text, d.length) != 0) x.fail("display-name-u8", r.name);
            if (ulight::lang_display_name(ulight::Lang(r.lang)) != r.name) x.fail("display-name-wrapper", r.name);
            const auto t = ulight_lang_display_names[r.lang];
            if (std::string_view(t.text, t.length) != r.name) x.fail("display-name-table", r.name);
        }
    }
    for (unsigned l : langs_matrix) {
        if (lang_ok(l)) continue;
        if (x.worker != 0 || !x.enter("display name of " + std::to_string(l))) continue;
        if (ulight_lang_display_name(ulight_lang(l)).length != 0) x.fail("display-name-of-invalid", std::to_string(l));
        if (ulight_lang_display_name_u8(ulight_lang(l)).length != 0) x.fail("display-name-of-invalid", std::to_string(l));
    }
    const auto listed = listed_langs();
    const auto want_name = [&](std::string_view n) {
        const auto it = listed.find(n);
        return it == listed.end() ? 0 : it->second;
    };
    std::string lab;
    const auto lookup = [&](std::string_view n) {
        if (x.counter++ % x.workers != std::uint64_t(x.worker)) return;
        lab.assign("name ").append(n);
        if (!x.enter(lab)) return;
        const int want = want_name(n);
        if (want != ref_lang(n) && ref_lang(n) != 0) x.fail("name-wrong", std::to_string(want));
        if (want) x.nontrivial();
        char* p = source_arena().tail(n.size());
        std::memcpy(p, n.data(), n.size());
        const int a = ulight_get_lang(p, n.size());
        const int b = ulight_get_lang_u8(reinterpret_cast<const char8_t*>(p), n.size());
        const int c = int(ulight::get_lang(std::string_view(p, n.size())));
        const int d = int(ulight::get_lang(std::u8string_view(reinterpret_cast<const char8_t*>(p), n.size())));
        if (a != want || b != want || c != want || d != want)
            x.fail("name-lookup", "got " + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "," + std::to_string(d) + " want " + std::to_string(want));
    };
    const auto path = [&](std::string_view n) {
        if (x.counter++ % x.workers != std::uint64_t(x.worker)) return;
        lab.assign("path ").append(n);
        if (!x.enter(lab)) return;
        std::size_t dot = n.size();
        bool has = false;
        for (std::size_t i = n.size(); i-- > 0;)
            if (n[i] == '.') {
                dot = i;
                has = true;
                break;
            }
        const int want = has ? want_name(n.substr(dot + 1)) : 0;
        if (want) x.nontrivial();
        char* p = source_arena().tail(n.size());
        std::memcpy(p, n.data(), n.size());
        const int a = ulight_lang_from_path(p, n.size());
        const int b = ulight_lang_from_path_u8(reinterpret_cast<const char8_t*>(p), n.size());
        const int c = int(ulight::lang_from_path(std::string_view(p, n.size())));
        const int d = int(ulight::lang_from_path(std::u8string_view(reinterpret_cast<const char8_t*>(p), n.size())));
        if (a != want || b != want || c != want || d != want)
            x.fail("path-lookup", "got " + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "," + std::to_string(d) + " want " + std::to_string(want));
    };
    const std::string alpha = "abcdefghijklmnopqrstuvwxyz0123456789+.#-_/ AXZ\\";
    x.set_family("names: all strings");
    const int depth = x.thorough ? 5 : 4;
    std::string s;
    for (int n = 0; n <= depth; ++n) {
        std::uint64_t cnt = 1;
        for (int k = 0; k < n; ++k) cnt *= alpha.size();
        for (std::uint64_t i = 0; i < cnt; ++i) {
            s.clear();
            std::uint64_t r = i;
            for (int k = 0; k < n; ++k) {
                s += alpha[r % alpha.size()];
                r /= alpha.size();
            }
            lookup(s);
        }
    }
    static const char* prefixes[] = { "", "a", "dir/", "dir.d/", "a.b", ".", "..", "/", "/x/y.cpp/", "C:\\x\\", "\xC3\xA9", "main", ".cpp", "a b", "..." };
    for (const auto& [name, l] : listed) {
        std::vector<std::string> v { name };
        for (std::size_t i = 0; i <= name.size(); ++i)
            for (int c = 0; c < 256; ++c) {
                std::string t = name;
                t.insert(t.begin() + std::ptrdiff_t(i), char(c));
                v.push_back(t);
                if (i < name.size()) {
                    t = name;
                    t[i] = char(c);
                    v.push_back(t);
                }
            }
        for (std::size_t i = 0; i < name.size(); ++i)
            for (std::size_t k = i + 1; k <= name.size(); ++k) {
                v.push_back(name.substr(0, i) + name.substr(k));
                v.push_back(name.substr(i, k - i));
            }
        for (const auto& [n2, l2] : listed) {
            v.push_back(name + n2);
            v.push_back(name + "." + n2);
            v.push_back(name + std::string(1, '\0') + n2);
        }
        x.set_family("names: edits");
        for (const auto& t : v) lookup(t);
        x.set_family("paths");
        for (const auto& t : v)
            for (const char* p : prefixes) {
                path(p + std::string(".") + t);
                path(p + t);
            }
        for (const char* p : prefixes) {
            path(p + std::string(".") + name + "/");
            path(p + std::string(".") + name + "/x");
            path(p + std::string(".") + name + ".");
            path(p + std::string(".") + name + "~");
        }
    }
    x.set_family("paths");
    for (int n = 0; n <= 3; ++n) {
        std::uint64_t cnt = 1;
        for (int k = 0; k < n; ++k) cnt *= alpha.size();
        for (std::uint64_t i = 0; i < cnt; ++i) {
            s = "f.";
            std::uint64_t r = i;
            for (int k = 0; k < n; ++k) {
                s += alpha[r % alpha.size()];
                r /= alpha.size();
            }
            path(s);
            path(s.substr(2));
        }
    }
}

// ------------------------------------------------------------------------------------- T12
void chk_typenames(Ctx& x)
{
    std::map<int, const Type_Row*> ref;
    for (const auto& r : type_rows) ref[r.value] = &r;
    std::map<std::string, int> longs, shorts;
    x.set_family("types");
    for (int t = 0; t < 256; ++t) {
        if (!x.begin("type " + std::to_string(t))) continue;
        const auto ty = ulight_highlight_type(t);
        const auto l = ulight_highlight_type_long_string(ty);
        const auto s = ulight_highlight_type_short_string(ty);
        const auto lu = ulight_highlight_type_long_string_u8(ty);
        const auto su = ulight_highlight_type_short_string_u8(ty);
        const auto id = ulight_highlight_type_id(ty);
        const std::string ls(l.text ? l.text : "", l.length), ss(s.text ? s.text : "", s.length);
        const auto eq = [](std::string_view a, auto b) { return a.size() == b.length && (a.empty() || std::memcmp(a.data(), b.text, a.size()) == 0); };
        if (!eq(ls, lu) || !eq(ss, su) || !eq(ss, id)) x.fail("variants-differ", ls);
        const auto cty = ulight::Highlight_Type(t);
        if (ulight::highlight_type_long_string(cty) != ls || ulight::highlight_type_short_string(cty) != ss) x.fail("wrapper-differs", ls);
        if (ulight::highlight_type_long_string_u8(cty).size() != ls.size() || ulight::highlight_type_short_string_u8(cty).size() != ss.size())
            x.fail("wrapper-differs", ls);
        const auto it = ref.find(t);
        if (it == ref.end() || t == 0) {
            if (!ls.empty() || !ss.empty()) x.fail("undocumented-named", ls);
            continue;
        }
        x.nontrivial();
        if (!l.text || l.text[l.length] != 0 || !s.text || s.text[s.length] != 0) x.fail("not-terminated", ls);
        std::string rule = it->second->enumerator;
        for (char& c : rule) c = c == '_' ? '-' : char(std::tolower(c));
        if (ls != rule) x.fail("long-differs-from-enumerator", ls);
        if (ls != it->second->longs) x.fail("long-name", ls);
        if (ss != it->second->shorts) x.fail("short-name", ss);
        for (char c : ss)
            if (!((c >= 'a' && c <= 'z') || c == '_' || (c >= '0' && c <= '9'))) x.fail("short-charset", ss);
    }
    if (x.worker == 0 && x.enter("uniqueness")) {
        for (const auto& r : type_rows) {
            const auto l = ulight_highlight_type_long_string(ulight_highlight_type(r.value));
            const auto s = ulight_highlight_type_short_string(ulight_highlight_type(r.value));
            if (!longs.emplace(std::string(l.text ? l.text : "", l.length), r.value).second) x.fail("duplicate-long", r.longs);
            if (!shorts.emplace(std::string(s.text ? s.text : "", s.length), r.value).second) x.fail("duplicate-short", r.shorts);
        }
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mini_main(argc, argv, { { "config", chk_config }, { "registry", chk_registry }, { "typenames", chk_typenames } });
}
