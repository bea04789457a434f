// Reference grammars: regular expressions with the expected highlight of every character. All strings of
// a language up to a length are enumerated (prefixes that cannot be completed are cut off), or all strings
// over an alphabet are classified.
//
// Syntax: characters, \c for a literal c, [classes] with ranges and ^, ( ), |, *, +, ?, and <r ...> for
// "characters in here have role r". \n \t \r \0 are control characters.
#pragma once
#include "mini.hpp"
#include <bitset>
#include <memory>

namespace vx {

struct Nfa {
    static constexpr int max_states = 2048;
    using Set = std::bitset<max_states>;
    struct Edge {
        std::bitset<256> on;
        char role;
        int to;
    };
    std::vector<std::vector<Edge>> edges;
    std::vector<std::vector<int>> eps;
    std::vector<Set> closure_of;
    int start = 0, accept = 0;

    int add()
    {
        edges.emplace_back();
        eps.emplace_back();
        if (int(edges.size()) > max_states) {
            std::fprintf(stderr, "reference grammar too large\n");
            _exit(3);
        }
        return int(edges.size()) - 1;
    }
    void finish()
    {
        closure_of.assign(edges.size(), {});
        for (std::size_t s = 0; s < edges.size(); ++s) {
            std::vector<int> todo { int(s) };
            while (!todo.empty()) {
                const int t = todo.back();
                todo.pop_back();
                if (closure_of[s][t]) continue;
                closure_of[s][t] = true;
                for (int u : eps[t]) todo.push_back(u);
            }
        }
    }
    Set initial() const { return closure_of[start]; }
    Set step(const Set& from, unsigned char c) const
    {
        Set r;
        for (std::size_t s = from._Find_first(); s < from.size(); s = from._Find_next(s))
            for (const auto& e : edges[s])
                if (e.on[c]) r |= closure_of[e.to];
        return r;
    }
    bool accepting(const Set& s) const { return s[accept]; }
    /// Whether the text is accepted along a path with the given types of all characters.
    template <typename F>
    bool accepts_with(std::string_view text, F&& fits) const
    {
        Set s = initial();
        for (std::size_t k = 0; k < text.size(); ++k) {
            Set r;
            for (std::size_t q = s._Find_first(); q < s.size(); q = s._Find_next(q))
                for (const auto& e : edges[q])
                    if (e.on[static_cast<unsigned char>(text[k])] && fits(k, e.role)) r |= closure_of[e.to];
            s = r;
            if (s.none()) return false;
        }
        return s[accept];
    }
    /// The roles of the characters of an accepted string (along one accepting path).
    std::string roles(const std::string& text, const std::vector<Set>& sets) const
    {
        std::string r(text.size(), '?');
        int at = accept;
        for (std::size_t k = text.size(); k-- > 0;) {
            bool found = false;
            for (std::size_t s = sets[k]._Find_first(); s < Set().size() && !found; s = sets[k]._Find_next(s))
                for (const auto& e : edges[s])
                    if (e.on[static_cast<unsigned char>(text[k])] && closure_of[e.to][at]) {
                        r[k] = e.role;
                        at = int(s);
                        found = true;
                        break;
                    }
        }
        return r;
    }
};

class Regex_Parser {
    std::string_view s;
    std::size_t i = 0;
    Nfa& n;
    char role = '.';
    struct Frag {
        int in, out;
    };
    [[noreturn]] void bad(const char* what) const
    {
        std::fprintf(stderr, "reference grammar: %s at %zu in %.*s\n", what, i, int(s.size()), s.data());
        _exit(3);
    }
    unsigned char escaped()
    {
        const char c = s[i++];
        return static_cast<unsigned char>(c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c == '0' ? '\0' : c == 'v' ? '\v' : c == 'f' ? '\f' : c);
    }
    Frag alternatives()
    {
        Frag f { n.add(), n.add() };
        do {
            const Frag g = sequence();
            n.eps[f.in].push_back(g.in);
            n.eps[g.out].push_back(f.out);
        } while (i < s.size() && s[i] == '|' && ++i);
        return f;
    }
    Frag sequence()
    {
        const int a = n.add();
        Frag f { a, a };
        while (i < s.size() && s[i] != '|' && s[i] != ')' && s[i] != '>') {
            const Frag g = repeated();
            n.eps[f.out].push_back(g.in);
            f.out = g.out;
        }
        return f;
    }
    Frag repeated()
    {
        Frag f = atom();
        while (i < s.size() && (s[i] == '*' || s[i] == '+' || s[i] == '?')) {
            const char c = s[i++];
            const Frag g { n.add(), n.add() };
            n.eps[g.in].push_back(f.in);
            n.eps[f.out].push_back(g.out);
            if (c != '+') n.eps[g.in].push_back(g.out);
            if (c != '?') n.eps[f.out].push_back(f.in);
            f = g;
        }
        return f;
    }
    Frag atom()
    {
        std::bitset<256> set;
        const char c = s[i++];
        if (c == '(') {
            const Frag f = alternatives();
            if (i >= s.size() || s[i++] != ')') bad("missing )");
            return f;
        }
        if (c == '<') {
            const char old = role;
            role = s[i++];
            if (s[i] == ' ') ++i;
            const Frag f = alternatives();
            if (i >= s.size() || s[i++] != '>') bad("missing >");
            role = old;
            return f;
        }
        if (c == '[') {
            const bool negated = s[i] == '^';
            if (negated) ++i;
            while (s[i] != ']') {
                unsigned char a = static_cast<unsigned char>(s[i++]);
                if (a == '\\') a = escaped();
                unsigned char b = a;
                if (s[i] == '-' && s[i + 1] != ']') {
                    ++i;
                    b = static_cast<unsigned char>(s[i++]);
                    if (b == '\\') b = escaped();
                }
                for (unsigned k = a; k <= b; ++k) set[k] = true;
            }
            ++i;
            if (negated) set.flip();
        }
        else if (c == '\\') set[escaped()] = true;
        else if (c == ')' || c == '>' || c == ']' || c == '*' || c == '+' || c == '?') bad("unexpected character");
        else set[static_cast<unsigned char>(c)] = true;
        const Frag f { n.add(), n.add() };
        n.edges[f.in].push_back({ set, role, f.out });
        return f;
    }

public:
    Regex_Parser(std::string_view text, Nfa& nfa)
        : s(text)
        , n(nfa)
    {
    }
    void run()
    {
        const Frag f = alternatives();
        if (i != s.size()) bad("unexpected character");
        n.start = f.in;
        n.accept = f.out;
        n.finish();
    }
};

inline Nfa compile(std::string_view regex)
{
    Nfa n;
    Regex_Parser(regex, n).run();
    return n;
}

/// Calls f(text, roles) for every string of the language over the alphabet of symbols (strings) up to a number of
/// symbols. Only every `workers`-th first part is visited by each worker if `shard` says so.
template <typename F>
void enumerate(const Nfa& n, const std::vector<std::string>& alphabet, int max_symbols, F&& f)
{
    std::string text;
    std::vector<Nfa::Set> sets { n.initial() };
    const auto rec = [&](auto&& self, int left) -> void {
        if (n.accepting(sets.back()) && !text.empty()) f(text, sets);
        if (left == 0) return;
        for (const auto& a : alphabet) {
            const std::size_t old = text.size();
            bool alive = true;
            for (char c : a) {
                const auto next = n.step(sets.back(), static_cast<unsigned char>(c));
                if (next.none()) {
                    alive = false;
                    break;
                }
                text += c;
                sets.push_back(next);
            }
            if (alive) self(self, left - 1);
            text.resize(old);
            sets.resize(old + 1);
        }
    };
    rec(rec, max_symbols);
}

/// All strings over the alphabet, of the language or not.
template <typename F>
void enumerate_all(const std::vector<std::string>& alphabet, int max_symbols, F&& f)
{
    std::string text;
    const auto rec = [&](auto&& self, int left) -> void {
        if (!text.empty()) f(text);
        if (left == 0) return;
        for (const auto& a : alphabet) {
            const std::size_t old = text.size();
            text += a;
            self(self, left - 1);
            text.resize(old);
        }
    };
    rec(rec, max_symbols);
}

inline bool accepts(const Nfa& n, std::string_view text)
{
    auto s = n.initial();
    for (char c : text) s = n.step(s, static_cast<unsigned char>(c));
    return n.accepting(s);
}

/// Types per byte (0: no token).
inline std::vector<unsigned> types_of(int lang, const std::string& src, unsigned flags, std::string* error = nullptr, std::vector<bool>* begins = nullptr)
{
    Run_Result r;
    Run_Config c;
    c.flags = flags;
    run_tokens(r, lang, src, c);
    std::vector<unsigned> t(src.size(), 0);
    if (begins) begins->assign(src.size() + 1, false);
    if (r.status != ULIGHT_STATUS_OK) {
        if (error) *error = "status " + std::to_string(r.status);
        return t;
    }
    for (const auto& k : r.tokens) {
        for (std::size_t i = k.begin; i < k.begin + k.length && i < t.size(); ++i) t[i] = k.type;
        if (begins && k.begin < begins->size()) (*begins)[k.begin] = true;
    }
    return t;
}

inline const std::map<char, unsigned>& role_types()
{
    static const std::map<char, unsigned> m {
        { '.', 0 },
        { 'x', ULIGHT_HL_ERROR },
        { 'n', ULIGHT_HL_NUMBER },
        { 'l', ULIGHT_HL_NUMBER_DELIM },
        { 'c', ULIGHT_HL_NUMBER_DECOR },
        { 's', ULIGHT_HL_STRING },
        { 'q', ULIGHT_HL_STRING_DELIM },
        { 'p', ULIGHT_HL_STRING_DECOR },
        { 'e', ULIGHT_HL_STRING_ESCAPE },
        { 'i', ULIGHT_HL_STRING_INTERPOLATION },
        { 'j', ULIGHT_HL_STRING_INTERPOLATION_DELIM },
        { 'k', ULIGHT_HL_COMMENT },
        { 'd', ULIGHT_HL_COMMENT_DELIM },
        { 'K', ULIGHT_HL_COMMENT_DOC },
        { 'D', ULIGHT_HL_COMMENT_DOC_DELIM },
        { 'v', ULIGHT_HL_NAME },
        { 'w', ULIGHT_HL_KEYWORD },
        { 'y', ULIGHT_HL_SYMBOL },
        { 'o', ULIGHT_HL_SYMBOL_OP },
        { 'u', ULIGHT_HL_SYMBOL_PUNC },
        { 't', ULIGHT_HL_MARKUP_TAG },
        { 'M', ULIGHT_HL_NAME_MACRO_DELIM },
        { 'z', ULIGHT_HL_NAME_DELIM },
        { '@', ULIGHT_HL_NAME_ATTR_DELIM },
        { 'A', ULIGHT_HL_NAME_ATTR },
        { 'I', ULIGHT_HL_NAME_LIFETIME_DELIM },
        { 'L', ULIGHT_HL_NAME_LIFETIME },
        { 'b', ULIGHT_HL_NAME_LABEL_DELIM },
        { 'B', ULIGHT_HL_NAME_LABEL },
        { '_', ULIGHT_HL_NAME_LABEL_DECL },
        { 'f', ULIGHT_HL_NAME_FUNCTION_DELIM },
        { 'F', ULIGHT_HL_NAME_FUNCTION },
        { 'g', ULIGHT_HL_NAME_VAR_DELIM },
        { 'G', ULIGHT_HL_NAME_VAR },
        { 'N', ULIGHT_HL_NAME_INSTRUCTION },
        { 'C', ULIGHT_HL_NAME_SHELL_COMMAND },
        { 'O', ULIGHT_HL_NAME_SHELL_OPTION },
        { 'T', ULIGHT_HL_KEYWORD_TYPE },
        { 'W', ULIGHT_HL_KEYWORD_CONTROL },
        { 'H', ULIGHT_HL_KEYWORD_THIS },
        { 'a', ULIGHT_HL_MARKUP_ATTR },
        { 'm', ULIGHT_HL_NAME_MACRO },
        { '(', ULIGHT_HL_SYMBOL_PARENS },
        { '[', ULIGHT_HL_SYMBOL_SQUARE },
        { '{', ULIGHT_HL_SYMBOL_BRACE },
    };
    return m;
}

} // namespace vx
