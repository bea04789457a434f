// Checks of a highlighter against a reference grammar: every text of the grammar up to a length, in every context of
// a list, with the expected highlight of every character.
#pragma once
#include "lexref.hpp"
#include <array>

namespace vx {

using Context = std::pair<std::string, std::string>;

struct Grammar {
    int lang;
    std::string name;
    std::string regex; // valid literals with roles
    std::string alphabet; // space-separated symbols
    int quick, thorough; // maximum number of symbols
    std::vector<Context> contexts;
    std::string placeholder; // a literal with known highlighting
    std::string placeholder_roles;
    std::string all = ""; // what may be highlighted in full with the literal's types
    int all_quick = 0, all_thorough = 0; // length bounds for the opposite direction
    std::string all_alphabet = "";
    // A known deviation: an example, and the highlighting of all literals it is about.
    std::string deviation_example = "", deviation = "";
    int ascii = 0; // maximum number of arbitrary characters (0: default)
};

inline std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r;
    std::string cur;
    for (std::size_t i = 0; i <= s.size(); ++i) {
        if (i == s.size() || s[i] == ' ') {
            if (!cur.empty()) r.push_back(cur);
            cur.clear();
        }
        else if (s[i] == '\\' && i + 1 < s.size()) {
            const char c = s[++i];
            cur += c == 'n' ? '\n' : c == 't' ? '\t' : c == 's' ? ' ' : c == 'r' ? '\r' : c == '0' ? '\0' : c;
        }
        else cur += s[i];
    }
    return r;
}

inline const std::vector<std::string>& ascii_symbols()
{
    static const std::vector<std::string> r = [] {
        std::vector<std::string> v;
        for (int c = 0; c < 128; ++c) v.emplace_back(1, char(c));
        return v;
    }();
    return r;
}

inline const char* lang_name(int lang)
{
    const auto d = ulight_lang_display_name(ulight_lang(lang));
    static std::string s[64];
    return (s[lang] = std::string(d.text, d.length)).c_str();
}

inline constexpr unsigned any_type = 998; // whatever the highlighter makes of it

inline bool agree(const std::vector<unsigned>& got, const std::vector<unsigned>& want)
{
    for (std::size_t k = 0; k < got.size(); ++k)
        if (want[k] != any_type && got[k] != want[k]) return false;
    return true;
}

inline unsigned role_type(char c)
{
    static const std::array<unsigned, 256> table = [] {
        std::array<unsigned, 256> t;
        t.fill(999);
        for (const auto& [role, type] : role_types()) t[static_cast<unsigned char>(role)] = type;
        t['*'] = any_type;
        return t;
    }();
    return table[static_cast<unsigned char>(c)];
}

inline std::vector<unsigned> expand(const std::string& roles)
{
    std::vector<unsigned> r;
    for (char c : roles) r.push_back(role_type(c));
    return r;
}

inline std::string type_list(const std::vector<unsigned>& t)
{
    std::string s;
    for (unsigned v : t) {
        const auto n = ulight_highlight_type_long_string(ulight_highlight_type(v));
        if (!s.empty()) s += ' ';
        s += v == any_type ? "*" : v ? std::string(n.text, n.length) : ".";
    }
    return s;
}

inline void run_grammar(Ctx& x, const Grammar& g)
{
    const Nfa n = compile(g.regex);
    const auto symbols = split(g.alphabet);
    const std::string kind = std::string(lang_name(g.lang)) + "/" + g.name;
    x.set_family(kind);
    Nfa deviation;
    if (!g.deviation.empty()) deviation = compile(g.deviation);
    // Whether this is how literals of the known deviation are highlighted.
    const auto deviates = [&](const std::string& text, const std::vector<unsigned>& got) {
        if (g.deviation.empty()) return false;
        std::vector<Nfa::Set> sets { deviation.initial() };
        for (char c : text) sets.push_back(deviation.step(sets.back(), static_cast<unsigned char>(c)));
        return deviation.accepting(sets.back()) && expand(deviation.roles(text, sets)) == got;
    };
    if (!g.deviation.empty() && x.begin(kind + " deviation " + g.deviation_example)) {
        const auto& [before, after] = g.contexts[0];
        const auto got = types_of(g.lang, before + g.deviation_example + after, ULIGHT_COALESCE);
        if (deviates(g.deviation_example, { got.begin() + before.size(), got.begin() + before.size() + g.deviation_example.size() }))
            x.fail("literal/" + kind, "got " + type_list(got));
    }
    std::vector<std::vector<unsigned>> around; // types in the context with the placeholder
    for (const auto& [before, after] : g.contexts) {
        const std::string src = before + g.placeholder + after;
        around.push_back(types_of(g.lang, src, ULIGHT_COALESCE));
        const auto want = expand(g.placeholder_roles);
        if (x.begin(kind + " placeholder " + before)) {
            const std::vector<unsigned> got(around.back().begin() + before.size(), around.back().begin() + before.size() + g.placeholder.size());
            if (got != want) x.fail("literal/" + kind, "got " + type_list(got));
        }
    }
    const auto check_entered = [&](const std::string& text, const std::vector<Nfa::Set>& sets) {
        const std::string roles = n.roles(text, sets);
        const auto want = expand(roles);
        for (std::size_t c = 0; c < g.contexts.size(); ++c) {
            const auto& [before, after] = g.contexts[c];
            const std::string src = before + text + after;
            if (c) x.bulk(1);
            std::string error;
            std::vector<bool> begins;
            auto got = types_of(g.lang, src, ULIGHT_COALESCE, &error);
            const auto fail = [&](const char* what, const std::vector<unsigned>& t) {
                x.fail("literal/" + kind, std::string(what) + " in " + printable(before) + "[...]" + printable(after) + ": got " + type_list(t) + ", expected "
                        + type_list(want) + error);
            };
            const std::vector<unsigned> mid(got.begin() + before.size(), got.begin() + before.size() + text.size());
            if (deviates(text, mid)) continue;
            // Ambiguous grammars: some way of reading the literal has to agree.
            const auto fits = [&](std::size_t k, char role) { return role == '*' || role_type(role) == mid[k]; };
            if (!agree(mid, want) && !n.accepts_with(text, fits)) return fail("the literal", mid);
            bool same = true;
            for (std::size_t k = 0; k < before.size(); ++k) same &= got[k] == around[c][k];
            for (std::size_t k = 0; k < after.size(); ++k)
                same &= got[before.size() + text.size() + k] == around[c][before.size() + g.placeholder.size() + k];
            if (!same) return fail("the text around the literal", got);
            got = types_of(g.lang, src, 0, &error, &begins);
            for (std::size_t k = 0; k < text.size(); ++k)
                if (got[before.size() + k] != mid[k]) return fail("the literal without coalescing", got);
            if (mid[0] && !begins[before.size()]) return fail("the beginning of the literal", got);
            if (mid.back() && before.size() + text.size() < src.size() && !begins[before.size() + text.size()]
                && got[before.size() + text.size()] == mid.back())
                return fail("the end of the literal", got);
        }
        x.nontrivial();
    };
    const auto check = [&](const std::string& text, const std::vector<Nfa::Set>& sets) {
        if (x.begin(kind + " " + text)) check_entered(text, sets);
    };
    enumerate(n, symbols, x.thorough ? g.thorough : g.quick, check);
    // All literals over all ASCII characters.
    x.set_family(kind + ", all characters");
    enumerate(n, ascii_symbols(), g.ascii ? g.ascii : g.name.starts_with("unterminated") ? x.thorough ? 4 : 3 : x.thorough ? 5 : 4, check);
    // One symbol repeated many times.
    x.set_family(kind + ", long");
    std::set<std::uint64_t> pumped;
    enumerate(n, symbols, x.thorough ? 5 : 4, [&](const std::string& text, const std::vector<Nfa::Set>&) {
        for (std::size_t k = 0; k < text.size(); ++k)
            for (std::size_t times : { 5, 8, 9, 16, 17, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000 })
                for (std::size_t width : { 1, 2 }) {
                    if (k + width > text.size() || (width == 2 && times > 300)) continue;
                    std::string t = text.substr(0, k);
                    for (std::size_t i = 0; i < times; ++i) t += text.substr(k, width);
                    t += text.substr(k + width);
                    if ((!x.thorough && times != 17 && times != 65 && times != 257 && text.size() > 3) ) continue;
                    const std::uint64_t hash = fnv(t);
                    if (hash % std::uint64_t(x.workers) != std::uint64_t(x.worker) || !pumped.insert(hash).second) continue;
                    std::vector<Nfa::Set> sets { n.initial() };
                    for (char c : t) {
                        sets.push_back(n.step(sets.back(), static_cast<unsigned char>(c)));
                        if (sets.back().none()) break;
                    }
                    if (sets.size() == t.size() + 1 && n.accepting(sets.back()) && x.enter(kind + " " + t)) check_entered(t, sets);
                }
    });
    if (g.all.empty()) return;
    const Nfa all = compile("(" + g.all + ")+");
    x.set_family(kind + ", all texts");
    const auto every = split(g.all_alphabet.empty() ? g.alphabet : g.all_alphabet);
    enumerate_all(every, x.thorough ? g.all_thorough : g.all_quick, [&](const std::string& text) {
        if (!x.begin(kind + " all " + text)) return;
        const auto got = types_of(g.lang, g.contexts[0].first + text + g.contexts[0].second, ULIGHT_COALESCE);
        for (std::size_t k = 0; k < text.size(); ++k) {
            const unsigned t = got[g.contexts[0].first.size() + k];
            if (t != ULIGHT_HL_NUMBER && t != ULIGHT_HL_NUMBER_DECOR && t != ULIGHT_HL_NUMBER_DELIM) return;
        }
        if (!accepts(all, text)) x.fail("invalid/" + kind, "highlighted as a number in full");
        x.nontrivial();
    });
}

} // namespace vx
