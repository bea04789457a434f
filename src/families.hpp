// The bounded input spaces explored for every language.
#pragma once
#include "engine.hpp"
#include <algorithm>
#include <memory>

namespace vx {

struct Bounds {
    int byte_len = 2; // all byte strings up to this length
    int core_depth = 3; // sequences of curated lexemes
    int mini_depth = 4; // sequences of the small alphabet
    int ctx_depth = 2; // opener + sequence of curated lexemes
    int ctx_mini_depth = 3; // opener + sequence of the small alphabet
    bool auto_pairs = true; // pairs over curated and extracted lexemes
    bool auto_ctx = true; // opener + extracted lexeme + curated lexeme
    bool auto_file = true;
    int window = 3; // consecutive corpus lines
    bool edits = true; // one insertion or deletion in a corpus line
    bool prefixes = true;
    bool file_edits = false;
    bool pump = true;
    bool pump_long = true;
    bool generic = true; // the families shared by all checks
    int markup = 0; // sequences of pieces of HTML
    int wide = 0; // insert multi-byte code points everywhere (1: quick, 2: thorough)
    bool only_valid_utf8 = false;
    std::size_t prefix_max_file = 6000;
    std::size_t lang_divisor = 1;
};

inline std::uint64_t ipow(std::uint64_t b, int e)
{
    std::uint64_t r = 1;
    while (e-- > 0) r *= b;
    return r;
}

using Strs = std::shared_ptr<const std::vector<std::string>>;

inline Space sequences(int lang, std::string fam, Strs a, int depth)
{
    return { lang, fam, ipow(a->size(), depth), [a, depth](std::uint64_t i, std::string& o) {
                const auto n = a->size();
                std::uint64_t div = ipow(n, depth - 1);
                for (int k = 0; k < depth; ++k) {
                    o += (*a)[i / div % n];
                    if (div > 1) div /= n;
                }
            } };
}
inline Space ctx_sequences(int lang, std::string fam, Strs ctx, Strs a, int depth)
{
    const std::uint64_t per = ipow(a->size(), depth);
    return { lang, fam, ctx->size() * per, [=](std::uint64_t i, std::string& o) {
                o += (*ctx)[i / per];
                std::uint64_t r = i % per;
                const auto n = a->size();
                std::uint64_t div = depth ? ipow(n, depth - 1) : 1;
                for (int k = 0; k < depth; ++k) {
                    o += (*a)[r / div % n];
                    if (div > 1) div /= n;
                }
            } };
}
inline Space listed(int lang, std::string fam, Strs l)
{
    return { lang, fam, l->size(), [l](std::uint64_t i, std::string& o) { o += (*l)[i]; } };
}
inline Space byte_strings(int lang, int len)
{
    return { lang, "bytes" + std::to_string(len), ipow(256, len), [len](std::uint64_t i, std::string& o) {
                for (int k = 0; k < len; ++k) {
                    o += char(i & 255);
                    i >>= 8;
                }
            } };
}

inline std::vector<std::string> split_lines_keep(const std::string& s)
{
    std::vector<std::string> r;
    std::size_t b = 0;
    while (b < s.size()) {
        const auto e = s.find('\n', b);
        const auto n = e == std::string::npos ? s.size() : e + 1;
        r.push_back(s.substr(b, n - b));
        b = n;
    }
    return r;
}
inline bool boundary(const std::string& s, std::size_t i)
{
    return i == s.size() || (static_cast<unsigned char>(s[i]) & 0xC0) != 0x80;
}

// Every string of `base` with one multi-byte code point inserted at every code point position,
// or replacing the code point at that position.
inline Space widened(int lang, std::string fam, Strs base)
{
    static const std::vector<std::string> wide = { "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xE2\x80\xA8", "\xCC\x81", "\xC2\xA0" };
    auto cum = std::make_shared<std::vector<std::uint64_t>>();
    std::uint64_t n = 0;
    for (const auto& s : *base) {
        cum->push_back(n);
        n += s.size() + 1;
    }
    const std::uint64_t per = wide.size() * 2;
    return { lang, fam, n * per, [=](std::uint64_t i, std::string& o) {
                const std::uint64_t slot = i / per;
                const auto k = std::size_t(std::upper_bound(cum->begin(), cum->end(), slot) - cum->begin()) - 1;
                const auto& s = (*base)[k];
                const std::size_t pos = std::size_t(slot - (*cum)[k]);
                if (!boundary(s, pos)) { // not a position: yields the base string (de-duplicated)
                    o += s;
                    return;
                }
                const std::uint64_t m = i % per;
                o.append(s, 0, pos);
                o += wide[m / 2];
                std::size_t next = pos;
                if (m & 1) {
                    if (next < s.size()) ++next;
                    while (!boundary(s, next)) ++next;
                }
                o.append(s, next);
            } };
}

inline void wide_spaces(std::vector<Space>& out, const Lang_Data& d, const Bounds& b)
{
    const auto mk = [](std::vector<std::string> v) {
        return std::make_shared<const std::vector<std::string>>(std::move(v));
    };
    const int L = d.lang;
    std::vector<std::string> all = d.core;
    all.insert(all.end(), d.autos.begin(), d.autos.end());
    std::vector<std::string> base = all;
    for (const auto& x : d.core)
        for (const auto& y : d.core) base.push_back(x + y);
    for (const auto& x : d.mini)
        for (const auto& y : d.mini)
            for (const auto& z : d.mini) base.push_back(x + y + z);
    out.push_back(widened(L, "wide(core^2,mini^3,all)", mk(base)));
    base.clear();
    for (const auto& c : d.contexts) {
        base.push_back(c);
        for (const auto& x : all) base.push_back(c + x);
        for (const auto& x : d.core)
            for (const auto& y : b.wide > 1 ? d.core : d.mini) base.push_back(c + x + y);
    }
    out.push_back(widened(L, "wide(ctx*all,ctx*core*mini)", mk(base)));
    std::set<std::string> lines;
    for (const auto& f : d.corpus)
        for (const auto& l : split_lines_keep(f))
            if (l.size() <= 400) lines.insert(l);
    out.push_back(widened(L, "wide(corpus lines)", mk({ lines.begin(), lines.end() })));
    if (b.wide > 1) {
        base.clear();
        for (const auto& f : d.corpus)
            if (f.size() <= 6000) base.push_back(f);
        out.push_back(widened(L, "wide(corpus files)", mk(base)));
    }
}

inline void lang_spaces(std::vector<Space>& out, const Lang_Data& d, const Bounds& b)
{
    const auto mk = [](std::vector<std::string> v) {
        return std::make_shared<const std::vector<std::string>>(std::move(v));
    };
    const Strs core = mk(d.core), mini = mk(d.mini), ctx = mk(d.contexts);
    std::vector<std::string> allv = d.core;
    allv.insert(allv.end(), d.autos.begin(), d.autos.end());
    const Strs all = mk(allv);
    const int L = d.lang;
    if (b.wide) wide_spaces(out, d, b);
    if (!b.generic) return;
    if (L == 13 || L == 9) // plain text and diff: text that resembles generated HTML
        for (int k = 1; k <= b.markup; ++k)
            out.push_back(sequences(L, "markup^" + std::to_string(k), mk({ "&", "<", ">", "amp;", "lt", ";", "#39", "\"", "'", "apos;", "quot;", "/", "h-", "\n+", "\xC3\xA9" }), k));
    out.push_back(listed(L, "empty", mk({ "" })));
    for (int k = 1; k <= b.byte_len; ++k) out.push_back(byte_strings(L, k));
    for (int k = 1; k <= b.core_depth; ++k) out.push_back(sequences(L, "core^" + std::to_string(k), core, k));
    for (int k = b.core_depth + 1 > 3 ? 3 : 2; k <= b.mini_depth; ++k)
        out.push_back(sequences(L, "mini^" + std::to_string(k), mini, k));
    for (int k = 0; k <= b.ctx_depth; ++k)
        out.push_back(ctx_sequences(L, "ctx*core^" + std::to_string(k), ctx, core, k));
    for (int k = 3; k <= b.ctx_mini_depth; ++k)
        out.push_back(ctx_sequences(L, "ctx*mini^" + std::to_string(k), ctx, mini, k));
    if (b.auto_pairs) out.push_back(sequences(L, "all^2", all, 2));
    if (b.auto_ctx) {
        // opener, extracted lexeme, one curated lexeme
        out.push_back({ L, "ctx*all*core", ctx->size() * all->size() * core->size(),
            [=](std::uint64_t i, std::string& o) {
                o += (*ctx)[i / (all->size() * core->size())];
                o += (*all)[i / core->size() % all->size()];
                o += (*core)[i % core->size()];
            } });
        // curated, extracted, curated
        out.push_back({ L, "mini*all*mini", mini->size() * all->size() * mini->size(),
            [=](std::uint64_t i, std::string& o) {
                o += (*mini)[i / (all->size() * mini->size())];
                o += (*all)[i / mini->size() % all->size()];
                o += (*mini)[i % mini->size()];
            } });
    }
    // corpus neighbourhoods
    std::vector<std::string> win, pre;
    std::set<std::string> lines;
    for (const auto& f : d.corpus) {
        const auto ls = split_lines_keep(f);
        for (std::size_t i = 0; i < ls.size(); ++i) {
            if (ls[i].size() <= 400) lines.insert(ls[i]);
            std::string w;
            for (int k = 0; k < b.window && i + k < ls.size(); ++k) {
                w += ls[i + k];
                win.push_back(w);
                if (!w.empty() && w.back() == '\n') {
                    win.push_back(w.substr(0, w.size() - 1));
                    // CRLF variant
                    std::string c;
                    for (char ch : w) {
                        if (ch == '\n') c += '\r';
                        c += ch;
                    }
                    win.push_back(c);
                }
            }
        }
        if (b.prefixes && f.size() <= b.prefix_max_file) {
            for (std::size_t i = 0; i <= f.size(); ++i) {
                if (boundary(f, i)) pre.push_back(f.substr(0, i));
            }
        }
        else {
            pre.push_back(f);
        }
    }
    out.push_back(listed(L, "corpus-windows", mk(win)));
    out.push_back(listed(L, "corpus-prefixes", mk(pre)));
    if (b.edits) {
        struct E { std::uint32_t line, pos; };
        auto lv = mk({ lines.begin(), lines.end() });
        auto ev = std::make_shared<std::vector<E>>();
        for (std::size_t l = 0; l < lv->size(); ++l) {
            for (std::size_t p = 0; p <= (*lv)[l].size(); ++p) {
                if (boundary((*lv)[l], p)) ev->push_back({ std::uint32_t(l), std::uint32_t(p) });
            }
        }
        const std::uint64_t alts = mini->size() + 3; // insert lexeme, delete, truncate, suffix
        out.push_back({ L, "corpus-line-edits", ev->size() * alts, [=](std::uint64_t i, std::string& o) {
                           const E e = (*ev)[i / alts];
                           const auto& s = (*lv)[e.line];
                           const auto a = i % alts;
                           if (a < mini->size()) {
                               o.append(s, 0, e.pos);
                               o += (*mini)[a];
                               o.append(s, e.pos);
                           }
                           else if (a == mini->size()) {
                               o.append(s, 0, e.pos);
                               std::size_t n = e.pos + 1;
                               while (!(n >= s.size()) && !boundary(s, n)) ++n;
                               if (n <= s.size()) o.append(s, n);
                           }
                           else if (a == mini->size() + 1) o.append(s, 0, e.pos);
                           else o.append(s, e.pos);
                       } });
    }
    if (b.file_edits) {
        struct E { std::uint32_t file, pos; };
        auto fv = mk(d.corpus);
        auto ev = std::make_shared<std::vector<E>>();
        for (std::size_t l = 0; l < fv->size(); ++l) {
            if ((*fv)[l].size() > b.prefix_max_file) continue;
            for (std::size_t p = 0; p <= (*fv)[l].size(); ++p) {
                if (boundary((*fv)[l], p)) ev->push_back({ std::uint32_t(l), std::uint32_t(p) });
            }
        }
        out.push_back({ L, "corpus-file-edits", ev->size() * mini->size(), [=](std::uint64_t i, std::string& o) {
                           const E e = (*ev)[i / mini->size()];
                           const auto& s = (*fv)[e.file];
                           o.append(s, 0, e.pos);
                           o += (*mini)[i % mini->size()];
                           o.append(s, e.pos);
                       } });
    }
    if (b.pump) {
        static const std::uint32_t reps[] = { 9, 33, 70, 140, 300, 600, 1100, 2600 };
        const std::uint64_t R = sizeof reps / sizeof *reps;
        out.push_back({ L, "pump-core", core->size() * R, [=](std::uint64_t i, std::string& o) {
                           const auto& w = (*core)[i / R];
                           for (std::uint32_t k = 0; k < reps[i % R]; ++k) o += w;
                       } });
        if (b.pump_long) {
            // more than 2^16 bytes
            auto fill = mk({ "a", " ", "\n", "\xC3\xA9" });
            out.push_back({ L, "pump-long", (core->size() + ctx->size()) * fill->size(), [=](std::uint64_t i, std::string& o) {
                               const auto k = i / fill->size();
                               const auto& w = (*fill)[i % fill->size()];
                               if (k < core->size()) o += (*core)[k];
                               else o += (*ctx)[k - core->size()];
                               while (o.size() < 66000) o += w;
                               o += (*core)[i % core->size()];
                           } });
        }
        out.push_back({ L, "pump-mini-pairs", mini->size() * mini->size() * 3, [=](std::uint64_t i, std::string& o) {
                           static const std::uint32_t rp[] = { 20, 140, 700 };
                           const auto& w1 = (*mini)[i / 3 / mini->size()];
                           const auto& w2 = (*mini)[i / 3 % mini->size()];
                           for (std::uint32_t k = 0; k < rp[i % 3]; ++k) {
                               o += w1;
                               o += w2;
                           }
                       } });
        out.push_back({ L, "pump-ctx", ctx->size() * mini->size() * 3, [=](std::uint64_t i, std::string& o) {
                           static const std::uint32_t rp[] = { 70, 300, 1100 };
                           const auto& w = (*mini)[i / 3 % mini->size()];
                           o += (*ctx)[i / 3 / mini->size()];
                           for (std::uint32_t k = 0; k < rp[i % 3]; ++k) o += w;
                           o += (*core)[i % core->size()];
                       } });
    }
}

} // namespace vx
