// Counts the work that highlighting does for texts that repeat a unit, with the library's basic blocks as the measure.
#include <algorithm>
#include "families.hpp"
#include "mini.hpp"
#include "ulight/ulight.h"

using namespace vx;

static std::uint64_t g_work;
static std::size_t g_stack;
static const char* g_top; // of the stack in use
extern "C" {
void __sanitizer_cov_trace_pc()
{
    ++g_work;
    const char* const p = static_cast<const char*>(__builtin_frame_address(0));
    if (p < g_top) g_top = p;
}
void* __real_memchr(const void*, int, std::size_t);
void* __wrap_memchr(const void* p, int c, std::size_t n)
{
    void* const r = __real_memchr(p, c, n);
    g_work += r ? std::size_t(static_cast<char*>(r) - static_cast<const char*>(p)) : n;
    return r;
}
int __real_memcmp(const void*, const void*, std::size_t);
int __wrap_memcmp(const void* a, const void* b, std::size_t n)
{
    std::size_t k = 0;
    while (k < n && static_cast<const char*>(a)[k] == static_cast<const char*>(b)[k]) ++k;
    g_work += k;
    return __real_memcmp(a, b, n);
}
void* __real_memmove(void*, const void*, std::size_t);
void* __wrap_memmove(void* a, const void* b, std::size_t n)
{
    g_work += n;
    return __real_memmove(a, b, n);
}
}

namespace {

void no_tokens(const void*, ulight_token*, std::size_t) { }

std::uint64_t work(int lang, const std::string& s)
{
    static ulight_token tokens[1024];
    ulight_state st;
    ulight_init(&st);
    st.source = s.data();
    st.source_length = s.size();
    st.lang = ulight_lang(lang);
    st.token_buffer = tokens;
    st.token_buffer_length = 1024;
    st.flush_tokens = no_tokens;
    g_work = 0;
    const char* const base = static_cast<const char*>(__builtin_frame_address(0));
    g_top = base;
    ulight_source_to_tokens(&st);
    const auto r = g_work;
    g_stack = std::size_t(base - g_top);
    ulight_destroy(&st);
    return r;
}

/// The smallest multiple of twelve for which this many units are long enough; quotes then match in the same way for twice as many.
std::size_t units(std::size_t length, std::size_t unit) { return (length / unit + 12) / 12 * 12; }

/// Whether the repeated unit leaves nothing open in which the next could be nested.
bool flat(int lang, const std::string& unit)
{
    std::string open;
    for (const char c : unit) {
        if (c == '(' || c == '[' || c == '{') open += c;
        else if (c == ')' || c == ']' || c == '}') {
            if (open.empty() || open.back() != (c == ')' ? '(' : c == ']' ? '[' : '{')) return false;
            open.pop_back();
        }
        else if (std::strchr("<>`\"'\\", c)) return false;
    }
    // Entries of compact collections are nested in each other.
    return open.empty() && (lang != ULIGHT_LANG_YAML || unit.find_first_of("-?:") == unit.npos || unit.back() == '\n');
}

std::string repeated(const std::string& prefix, const std::string& unit, const std::string& suffix, std::size_t count)
{
    std::string s = prefix;
    while (count--) s += unit;
    return s + suffix;
}

void growth(Ctx& x)
{
    auto data = load_data(x.data.c_str());
    const std::size_t small = 640;
    for (const auto& [lang, d] : data) {
        const char* const singles[] = { "a", "0", "_", " ", "\t", "\n", "\r\n", "\xC3\xA9", "-", "#", "*", "/", "\\", "\"", "'", "(", "[", "{", "<", ">", "&", "%", "$", "@", "!", "~", "^", "|", "=", "+", ".", ",", ":", ";", "`", "?", ")", "]", "}" };
        std::vector<std::string> one(std::begin(singles), std::end(singles)), two, more;
        one.insert(one.end(), d.core.begin(), d.core.end());
        for (const auto& a : one) two.push_back(a);
        two.insert(two.end(), d.autos.begin(), d.autos.end());
        for (const auto& a : one)
            for (const auto& b : one) two.push_back(a + b);
        for (const auto& a : d.mini)
            for (const auto& b : d.mini)
                for (const auto& c : d.mini) two.push_back(a + b + c);
        std::vector<std::string> affixes = d.contexts;
        affixes.insert(affixes.end(), one.begin(), one.end());
        std::set<std::string> done;
        const bool js = lang == 7 || lang == 20;
        const auto judge = [&](const std::string& a, const std::string& b, const char* kind, bool flat) {
            // The number of executed basic blocks (and of bytes that the C library compares, searches or moves) for the
            // text and for one with twice as many repetitions.
            const auto w1 = work(lang, a);
            const auto s1 = g_stack;
            const auto w2 = work(lang, b);
            const auto s2 = g_stack;
            if (flat && s2 > s1 + 1024) x.fail("stack", std::to_string(s1) + " bytes of stack for " + std::to_string(a.size()) + " bytes, " + std::to_string(s2) + " for " + std::to_string(b.size()) + " bytes");
            if (w2 * 10 > w1 * 27 + 20000) x.fail(kind, std::to_string(w1) + " steps for " + std::to_string(a.size()) + " bytes, " + std::to_string(w2) + " steps for " + std::to_string(b.size()) + " bytes");
            x.nontrivial();
        };
        const auto run = [&](const std::string& p, std::string u, const std::string& s, bool recorded = false) {
            const std::string all = p + u + s;
            const auto has = [&](std::string_view t) { return all.find(t) != std::string::npos; };
            if (!recorded) {
                // What recorded findings concern is checked line by line, or not at all if it spans lines.
                if (js && has("<") && (has("{") || has("/*") || has("//"))) return;
                if (lang == ULIGHT_LANG_HTML && has("<script")) return;
                if ((js && has("/")) || (lang == ULIGHT_LANG_COWEL && has("\\")) || (lang == ULIGHT_LANG_MARKDOWN && all.find_first_of("[*_~`<!") != all.npos))
                    u += "\n";
            }
            if (!done.insert(p + "\xFF" + u + "\xFF" + s).second) return;
            if (!x.begin(std::to_string(lang) + " " + printable(p) + " (" + printable(u) + ")* " + printable(s))) return;
            const std::size_t count = units(small, u.size());
            judge(repeated(p, u, s, count), repeated(p, u, s, count * 2), recorded ? "recorded" : "growth", !recorded && flat(lang, u));
        };
        x.set_family(std::to_string(lang) + ", recorded");
        const struct {
            int lang;
            const char *prefix, *unit, *suffix;
        } recorded[] {
            { ULIGHT_LANG_COWEL, "", "\\ {", "\n" },
            { ULIGHT_LANG_HTML, "", "<script>{", "" },
            { ULIGHT_LANG_JAVASCRIPT, "", "/[", "" },
            { ULIGHT_LANG_JAVASCRIPT, "", "<{", "" },
            { ULIGHT_LANG_JAVASCRIPT, "<a>", "//<\n", "" },
            { ULIGHT_LANG_TYPESCRIPT, "", "/[", "" },
            { ULIGHT_LANG_MARKDOWN, "", "[", "" },
            { ULIGHT_LANG_MARKDOWN, "", "*- ", "" },
            { ULIGHT_LANG_MARKDOWN, "", "__a", "" },
        };
        for (const auto& r : recorded)
            if (r.lang == lang) run(r.prefix, r.unit, r.suffix, true);
        x.set_family(std::to_string(lang) + ", repeated lexemes");
        for (const auto& u : two) run("", u, "");
        x.set_family(std::to_string(lang) + ", repeated lexemes between others");
        for (const auto& u : one)
            for (const auto& p : affixes) {
                run(p, u, "");
                run("", u, p);
            }
        // As many closing as opening parts.
        x.set_family(std::to_string(lang) + ", nested lexemes");
        for (const auto& a : one)
            for (const auto& b : one) {
                // Nothing in Markdown that the recorded findings concern, without line ends.
                if (a == b || (lang == ULIGHT_LANG_MARKDOWN && (a + b).find_first_of("[*_~`<!") != a.npos)) continue;
                if (lang == ULIGHT_LANG_COWEL && (a + b).find("\\") != a.npos) continue;
                const std::string all = a + b;
                const auto nested = [&](std::size_t count) {
                    std::string t;
                    for (std::size_t k = 0; k < count; ++k) t += a;
                    for (std::size_t k = 0; k < count; ++k) t += b;
                    return t;
                };
                const std::size_t count = units(small, all.size());
                if (!x.begin(std::to_string(lang) + " (" + printable(a) + ")^n (" + printable(b) + ")^n")) continue;
                judge(nested(count), nested(count * 2), "growth", false);
            }
        if (x.thorough) {
            x.set_family(std::to_string(lang) + ", nested pairs");
            for (const auto& a : d.core)
                for (const auto& b : d.core)
                    for (const auto& c : d.mini) {
                        if (lang == ULIGHT_LANG_MARKDOWN || lang == ULIGHT_LANG_COWEL || lang == ULIGHT_LANG_YAML || js || lang == ULIGHT_LANG_HTML) continue;
                        if (!x.begin(std::to_string(lang) + " (" + printable(a) + ")^n (" + printable(b) + printable(c) + ")^n")) continue;
                        const auto nested = [&](std::size_t count) {
                            std::string t;
                            for (std::size_t k = 0; k < count; ++k) t += a;
                            for (std::size_t k = 0; k < count; ++k) t += b + c;
                            return t;
                        };
                        const std::size_t count = units(small, a.size() + b.size() + c.size());
                        judge(nested(count), nested(count * 2), "growth", false);
                    }
        }
        x.set_family(std::to_string(lang) + ", repeated pairs between others");
        std::vector<std::string> pairs;
        for (const auto& a : x.thorough ? one : d.core)
            for (const auto& b : x.thorough ? one : d.core) pairs.push_back(a + b);
        std::vector<std::string> some = d.contexts;
        some.insert(some.end(), d.mini.begin(), d.mini.end());
        for (const auto& u : pairs)
            for (const auto& p : some) {
                run(p, u, "");
                if (&p >= some.data() + d.contexts.size()) run("", u, p);
            }
    }
}

} // namespace

int main(int argc, char** argv) { return mini_main(argc, argv, { { "growth", growth } }); }
