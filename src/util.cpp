// Shortest edit scripts, printed diffs, the token/text buffer, and callback references.
#include "mini.hpp"

#include <list>
#include <memory>
#include <sstream>

#include "ulight/function_ref.hpp"
#include "ulight/impl/buffer.hpp"
#include "ulight/impl/string_diff.hpp"

using namespace vx;
using ulight::Edit_Type;

namespace {

using Lines = std::vector<std::u8string_view>;

// ------------------------------------------------------------------------------------------------
// All sequences of a length below n over the given lines, by index.
struct Sequences {
    std::vector<std::u8string_view> symbols;
    std::vector<std::uint64_t> first; // first[k]: index of the first sequence of length k
    Sequences(std::vector<std::u8string_view> s, std::size_t max_len)
        : symbols(std::move(s))
    {
        std::uint64_t n = 0, p = 1;
        for (std::size_t k = 0; k <= max_len + 1; ++k) {
            first.push_back(n);
            n += p;
            p *= symbols.size();
        }
    }
    std::uint64_t size() const { return first.back(); }
    void get(std::uint64_t i, Lines& out) const
    {
        std::size_t len = 0;
        while (i >= first[len + 1]) ++len;
        i -= first[len];
        out.assign(len, {});
        for (std::size_t k = 0; k < len; ++k) {
            out[k] = symbols[i % symbols.size()];
            i /= symbols.size();
        }
    }
};

std::string show(const Lines& l)
{
    std::string s = "[";
    for (const auto& e : l) {
        if (s.size() > 1) s += '|';
        s.append(reinterpret_cast<const char*>(e.data()), e.size());
    }
    return s + "]";
}

// Length of the longest common subsequence by trying every subset of the first sequence.
std::size_t common_length(const Lines& a, const Lines& b)
{
    std::size_t best = 0;
    for (unsigned m = 0; m < (1u << a.size()); ++m) {
        const std::size_t bits = std::size_t(__builtin_popcount(m));
        if (bits <= best) continue;
        std::size_t j = 0;
        bool ok = true;
        for (std::size_t i = 0; i < a.size() && ok; ++i) {
            if (!(m >> i & 1)) continue;
            while (j < b.size() && b[j] != a[i]) ++j;
            if (j == b.size()) ok = false;
            else ++j;
        }
        if (ok) best = bits;
    }
    return best;
}

void edit_case(Ctx& x, const Lines& from, const Lines& to)
{
    const auto script = ulight::shortest_edit_script(from, to);
    Lines result;
    std::size_t i = 0, dels = 0, inss = 0;
    std::size_t j = 0;
    bool after_ins = false, order = true, bounds = true;
    for (const Edit_Type e : script) {
        if (e == Edit_Type::common) {
            if (i >= from.size() || j >= to.size()) {
                bounds = false;
                break;
            }
            result.push_back(from[i++]);
            ++j;
            after_ins = false;
        }
        else if (e == Edit_Type::del) {
            order &= !after_ins;
            if (i >= from.size()) {
                bounds = false;
                break;
            }
            ++i;
            ++dels;
        }
        else if (e == Edit_Type::ins) {
            after_ins = true;
            if (j >= to.size()) {
                bounds = false;
                break;
            }
            result.push_back(to[j++]);
            ++inss;
        }
        else {
            bounds = false;
            break;
        }
    }
    if (!bounds || i != from.size() || j != to.size()) return x.fail("consumes", "the script does not consume both sequences exactly");
    if (result != to) return x.fail("result", "applying the script does not give the second sequence but " + show(result));
    if (!order) return x.fail("order", "an insertion precedes a deletion in the same block of changes");
    const std::size_t common = common_length(from, to);
    if (dels != from.size() - common || inss != to.size() - common) x.fail("not-shortest", "the script is not a shortest one");
    if (dels && inss && common) x.nontrivial();
}

void edits(Ctx& x)
{
    const auto run = [&](const char* family, std::vector<std::u8string_view> symbols, std::size_t la, std::size_t lb) {
        x.set_family(family);
        const Sequences sa(symbols, la), sb(symbols, lb);
        Lines a, b;
        for (std::uint64_t i = 0; i < sa.size(); ++i) {
            sa.get(i, a);
            for (std::uint64_t j = 0; j < sb.size(); ++j) {
                sb.get(j, b);
                if (!x.begin(show(a) + "->" + show(b))) continue;
                edit_case(x, a, b);
            }
        }
    };
    run("three lines", { u8"a", u8"b", u8"c" }, x.thorough ? 7 : 6, x.thorough ? 7 : 5);
    run("two lines", { u8"a", u8"" }, x.thorough ? 10 : 8, x.thorough ? 10 : 8);
    run("five lines", { u8"a", u8"b", u8"ab", u8"aa", u8"\t" }, 4, x.thorough ? 5 : 4);
    x.set_family("splitting into lines");
    const char8_t alphabet[] = { u8'a', u8'\n', u8'\r', u8'\0' };
    for (int len = 0; len <= (x.thorough ? 8 : 6); ++len) {
        for (std::uint64_t n = 0; n < (1ull << (2 * len)); ++n) {
            std::u8string s;
            for (int k = 0; k < len; ++k) s += alphabet[n >> (2 * k) & 3];
            if (!x.begin("split " + std::string(s.begin(), s.end()))) continue;
            Lines out { u8"kept" };
            ulight::split_lines(out, s);
            if (out.size() < 2 || out[0] != u8"kept") {
                x.fail("split-lines", "earlier elements changed or no line added");
                continue;
            }
            std::u8string joined;
            bool bad = false;
            for (std::size_t k = 1; k < out.size(); ++k) {
                if (k > 1) joined += u8'\n';
                joined += out[k];
                bad |= out[k].find(u8'\n') != out[k].npos;
            }
            if (bad || joined != s) x.fail("split-lines", "the lines do not make up the text");
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Printed diffs.
std::string visible(std::u8string_view line)
{
    std::string s;
    for (char8_t c : line) {
        if (c == u8'\t') s += "\\t";
        else if (c == u8'\r') s += "\\r";
        else if (c == u8'\v') s += "\\v";
        else s += char(c);
    }
    return s;
}

std::string strip_colors(const std::string& s)
{
    std::string o;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') {
            while (i < s.size() && s[i] != 'm') ++i;
            continue;
        }
        o += s[i];
    }
    return o;
}

void diff_case(Ctx& x, const Lines& from, const Lines& to, std::size_t context)
{
    std::ostringstream plain, color;
    ulight::print_diff(plain, from, to, context, false);
    ulight::print_diff(color, from, to, context, true);
    const std::string text = plain.str();
    if (strip_colors(color.str()) != text) return x.fail("color", "the coloured output differs by more than colours: " + color.str());
    if (from == to) {
        if (!text.empty()) x.fail("equal-not-empty", text);
        return;
    }
    x.nontrivial();
    // Parse the hunks and apply them to the first sequence.
    std::vector<std::string> rows;
    std::size_t p = 0;
    while (p < text.size()) {
        const auto e = text.find('\n', p);
        if (e == text.npos) return x.fail("format", "the last line is not terminated: " + text);
        rows.push_back(text.substr(p, e - p));
        p = e + 1;
    }
    std::vector<std::string> result;
    std::size_t at = 0; // lines of `from` consumed
    bool first = true;
    for (std::size_t r = 0; r < rows.size();) {
        long fs, fc, ts, tc;
        int n = 0;
        if (std::sscanf(rows[r].c_str(), "@@ -%ld,%ld +%ld,%ld @@%n", &fs, &fc, &ts, &tc, &n) != 4 || n != int(rows[r].size()))
            return x.fail("format", "expected a hunk header: " + text);
        ++r;
        // A hunk that covers no line of a file may give the line before it.
        const std::size_t fbegin = std::size_t(fs - 1), gap = fbegin - at;
        if (fbegin < at || fbegin > from.size()) {
            if (!(fc == 0 && std::size_t(fs) >= at && std::size_t(fs) <= from.size())) return x.fail("header", "a hunk begins at a wrong line: " + text);
        }
        std::size_t start = fbegin;
        // The number of kept lines before the hunk must be the same in both files.
        while (at < start) result.push_back(visible(from[at++]));
        if (result.size() + 1 != std::size_t(ts) && !(tc == 0 && result.size() == std::size_t(ts)))
            return x.fail("header", "a hunk begins at a wrong line of the second file: " + text);
        if (!first && gap == 0) return x.fail("not-merged", "adjacent hunks are not merged: " + text);
        std::size_t lead = 0, trail = 0, run = 0, fcount = 0, tcount = 0;
        bool changed = false, after_ins = false;
        for (; r < rows.size() && !rows[r].starts_with("@@ "); ++r) {
            const char c = rows[r].empty() ? 0 : rows[r][0];
            const std::string body = rows[r].empty() ? "" : rows[r].substr(1);
            if (c == ' ') {
                if (at >= from.size() || visible(from[at]) != body) return x.fail("context", "a context line is not in the first file: " + text);
                result.push_back(body);
                ++at;
                ++fcount;
                ++tcount;
                ++run;
                after_ins = false;
            }
            else if (c == '-') {
                if (at >= from.size() || visible(from[at]) != body) return x.fail("deletion", "a deleted line is not in the first file: " + text);
                if (after_ins) return x.fail("order", "a deletion follows an insertion: " + text);
                ++at;
                ++fcount;
            }
            else if (c == '+') {
                result.push_back(body);
                ++tcount;
                after_ins = true;
            }
            else return x.fail("format", "unexpected line: " + text);
            if (c != ' ') {
                if (!changed) lead = run;
                else if (run > 2 * context) return x.fail("too-long", "a hunk contains more than the context between changes: " + text);
                changed = true;
                run = 0;
            }
        }
        trail = run;
        if (!changed) return x.fail("no-change", "a hunk without a change: " + text);
        if (long(fcount) != fc || long(tcount) != tc) return x.fail("counts", "the header's counts are wrong: " + text);
        const std::size_t want_lead = std::min(context, gap + lead);
        if (first ? lead != std::min(context, start + lead) : lead != want_lead) return x.fail("lead", "wrong number of context lines before the change: " + text);
        if (trail != std::min(context, trail + (from.size() - at))) return x.fail("trail", "wrong number of context lines after the change: " + text);
        first = false;
    }
    while (at < from.size()) result.push_back(visible(from[at++]));
    std::vector<std::string> want;
    for (const auto& l : to) want.push_back(visible(l));
    if (result != want) x.fail("result", "applying the diff does not give the second file: " + text);
}

void diffs(Ctx& x)
{
    const auto run = [&](const char* family, std::vector<std::u8string_view> symbols, std::size_t la, std::size_t lb) {
        x.set_family(family);
        const Sequences sa(symbols, la), sb(symbols, lb);
        Lines a, b;
        for (std::uint64_t i = 0; i < sa.size(); ++i) {
            sa.get(i, a);
            for (std::uint64_t j = 0; j < sb.size(); ++j) {
                sb.get(j, b);
                for (std::size_t context : { 0, 1, 3 }) {
                    if (!x.begin(std::to_string(context) + " " + show(a) + "->" + show(b))) continue;
                    diff_case(x, a, b, context);
                }
            }
        }
    };
    run("all pairs", { u8"a", u8"b\t", u8"" }, x.thorough ? 5 : 4, 4);
    run("special characters", { u8"\t", u8"x\r", u8"\v\vy\tz", u8"é" }, 2, 3);
    // All patterns of changes between distinct lines.
    x.set_family("patterns of changes");
    std::vector<std::u8string> names;
    for (int k = 0; k < 32; ++k) names.push_back({ char8_t('A' + k % 26), char8_t('0' + k / 26) });
    const int max = x.thorough ? 11 : 9;
    for (int len = 1; len <= max; ++len) {
        std::uint64_t count = 1;
        for (int k = 0; k < len; ++k) count *= 3;
        for (std::uint64_t n = 0; n < count; ++n) {
            std::string pattern;
            Lines a, b;
            std::uint64_t m = n;
            for (int k = 0; k < len; ++k, m /= 3) {
                pattern += " -+"[m % 3];
                if (m % 3 != 2) a.push_back(names[k]);
                if (m % 3 != 1) b.push_back(names[k]);
            }
            for (std::size_t context = 0; context <= 4; ++context) {
                if (!x.begin(std::to_string(context) + " " + pattern)) continue;
                diff_case(x, a, b, context);
            }
        }
    }
    // From text: lines are split at line feeds.
    x.set_family("texts");
    const char8_t alphabet[] = { u8'a', u8'\n', u8'\t' };
    std::vector<std::u8string> texts { u8"" };
    for (std::size_t k = 0; k < texts.size(); ++k)
        if (texts[k].size() < 4)
            for (char8_t c : alphabet) texts.push_back(texts[k] + c);
    for (const auto& a : texts) {
        for (const auto& b : texts) {
            if (!x.begin("text " + std::string(a.begin(), a.end()) + "->" + std::string(b.begin(), b.end()))) continue;
            Lines la, lb;
            const auto split = [](Lines& out, std::u8string_view s) {
                for (;;) {
                    const auto e = s.find(u8'\n');
                    out.push_back(s.substr(0, e));
                    if (e == s.npos) break;
                    s.remove_prefix(e + 1);
                }
            };
            split(la, a);
            split(lb, b);
            std::ostringstream s, t;
            ulight::print_lines_diff(s, a, b, 1, false);
            ulight::print_diff(t, la, lb, 1, false);
            if (s.str() != t.str()) x.fail("text-diff", s.str());
        }
    }
}

// ------------------------------------------------------------------------------------------------
// The buffer: all sequences of operations against a list.
struct Sink {
    std::vector<std::string> got;
    std::vector<std::size_t> sizes;
    const void* buffer = nullptr;
    std::size_t capacity = 0;
    bool bad = false, throwing = false;
    void operator()(std::string* p, std::size_t n)
    {
        if (p != buffer || n == 0 || n > capacity) bad = true;
        if (throwing) throw 1;
        sizes.push_back(n);
        for (std::size_t i = 0; i < n; ++i) {
            got.push_back(p[i]);
            p[i] = "*"; // the callback may modify the elements
        }
    }
};

void buffer_history(Ctx& x, const std::vector<int>& ops, std::size_t capacity)
{
    // One guard element on each side.
    std::vector<std::string> store(capacity + 2, "guard");
    Sink sink;
    sink.buffer = store.data() + 1;
    sink.capacity = capacity;
    ulight::Function_Ref<void(std::string*, std::size_t)> ref = sink;
    ulight::Non_Owning_Buffer<std::string> b { std::span<std::string> { store.data() + 1, capacity }, ref };
    std::vector<std::string> pending, delivered;
    std::vector<std::size_t> sizes;
    int next = 0;
    const auto fresh = [&] { return "v" + std::to_string(next++); };
    const auto model_push = [&](const std::string& s) {
        if (pending.size() == capacity) {
            if (sink.throwing) return false;
            delivered.insert(delivered.end(), pending.begin(), pending.end());
            sizes.push_back(capacity);
            pending.clear();
        }
        pending.push_back(s);
        return true;
    };
    for (std::size_t k = 0; k < ops.size(); ++k) {
        const int op = ops[k];
        bool want_throw = false, threw = false;
        std::string ret, want_ret;
        bool has_ret = false;
        try {
            switch (op) {
            case 0: {
                const std::string s = fresh();
                want_throw = !model_push(s);
                ret = b.push_back(s);
                want_ret = s;
                has_ret = true;
                break;
            }
            case 1: {
                std::string s = fresh();
                want_throw = !model_push(s);
                want_ret = s;
                ret = b.push_back(std::move(s));
                has_ret = true;
                break;
            }
            case 2: {
                const std::string s = fresh();
                want_throw = !model_push(s);
                want_ret = s;
                ret = b.emplace_back(s.c_str());
                has_ret = true;
                break;
            }
            case 3:
            case 4:
            case 5:
            case 6: {
                // append of 0, 1, 2 or 5 elements given by random access or list iterators
                std::vector<std::string> v;
                for (int n = op == 3 ? 0 : op == 4 ? 1 : op == 5 ? 2 : 5; n > 0; --n) v.push_back(fresh());
                std::list<std::string> l(v.begin(), v.end());
                // The model: as many elements as possible before a failing flush.
                std::size_t done = 0;
                for (const auto& s : v) {
                    if (!model_push(s)) {
                        want_throw = true;
                        break;
                    }
                    ++done;
                }
                if (k % 3 == 0) b.append(v.begin(), v.end());
                else if (k % 3 == 1) b.append(l.begin(), l.end());
                else if (op % 2) b.append_range(v);
                else b.append_range(l);
                break;
            }
            case 7:
                pending.clear();
                b.clear();
                break;
            case 8:
                if (!pending.empty()) {
                    if (sink.throwing) want_throw = true;
                    else {
                        delivered.insert(delivered.end(), pending.begin(), pending.end());
                        sizes.push_back(pending.size());
                        pending.clear();
                    }
                }
                b.flush();
                break;
            case 9:
                if (!pending.empty()) {
                    pending.back() += "+";
                    b.back() += "+";
                    ret = std::as_const(b).back();
                    want_ret = pending.back();
                    has_ret = true;
                }
                break;
            case 10: sink.throwing = !sink.throwing; break;
            }
        } catch (int) {
            threw = true;
        }
        const std::string where = " after operation " + std::to_string(k);
        if (threw != want_throw) return x.fail("throw", "an exception of the callback is not passed on" + where);
        if (has_ret && !threw && ret != want_ret) return x.fail("return", "a wrong element is returned" + where);
        if (sink.bad) return x.fail("flush-args", "the callback got a wrong pointer or count" + where);
        if (b.size() != pending.size() || b.empty() != pending.empty() || b.full() != (pending.size() == capacity)
            || b.capacity() != capacity || b.available() != capacity - pending.size())
            return x.fail("size", "wrong size" + where);
        for (std::size_t i = 0; i < pending.size(); ++i)
            if (store[1 + i] != pending[i]) return x.fail("content", "a buffered element is wrong" + where);
        if (sink.got != delivered) return x.fail("delivery", "elements are lost, repeated or reordered" + where);
        if (sink.sizes != sizes) return x.fail("flush-sizes", "flushes happen at other points" + where);
        if (store.front() != "guard" || store.back() != "guard") return x.fail("overrun", "memory outside the buffer is written" + where);
    }
    x.transitions += ops.size();
    ++x.states;
    if (!sizes.empty()) x.nontrivial();
}

void buffer(Ctx& x)
{
    const int nops = 11;
    for (std::size_t capacity = 1; capacity <= 4; ++capacity) {
        x.set_family("histories, capacity " + std::to_string(capacity));
        const int depth = x.thorough ? 6 : capacity <= 3 ? 5 : 4;
        for (int len = 1; len <= depth; ++len) {
            std::uint64_t count = 1;
            for (int k = 0; k < len; ++k) count *= nops;
            for (std::uint64_t n = 0; n < count; ++n) {
                std::vector<int> ops;
                std::uint64_t m = n;
                std::string label = std::to_string(capacity);
                for (int k = 0; k < len; ++k, m /= nops) {
                    ops.push_back(int(m % nops));
                    label += " " + std::to_string(m % nops);
                }
                if (!x.begin(label)) continue;
                buffer_history(x, ops, capacity);
            }
        }
    }
    // Trivially copyable elements with every fill level and append length.
    x.set_family("append lengths");
    for (std::size_t capacity = 1; capacity <= 8; ++capacity) {
        for (std::size_t fill = 0; fill <= capacity; ++fill) {
            for (std::size_t n = 0; n <= 3 * capacity + 1; ++n) {
                if (!x.begin("append " + std::to_string(capacity) + " " + std::to_string(fill) + " " + std::to_string(n))) continue;
                std::vector<int> store(capacity + 2, -7), got, want;
                auto sink = [&](int* p, std::size_t k) { got.insert(got.end(), p, p + k); };
                ulight::Non_Owning_Buffer<int> b { std::span<int> { store.data() + 1, capacity }, sink };
                int next = 0;
                for (std::size_t k = 0; k < fill; ++k) {
                    b.push_back(next);
                    want.push_back(next++);
                }
                std::vector<int> v;
                for (std::size_t k = 0; k < n; ++k) {
                    v.push_back(next);
                    want.push_back(next++);
                }
                b.append(v.begin(), v.end());
                b.flush();
                b.flush();
                if (got != want) x.fail("append", "elements are lost, repeated or reordered");
                if (store.front() != -7 || store.back() != -7) x.fail("append-overrun", "memory outside the buffer is written");
                x.nontrivial();
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Callback references: all histories of construction, copy, assignment and call over three slots.
int log_value;
int plain_function(int a) { return log_value = a + 1000; }
int plain_noexcept(int a) noexcept { return log_value = a + 2000; }
short widening(long a) { return short(log_value = int(a) + 3000); }
struct Functor {
    int base = 0;
    int calls = 0;
    int operator()(int a)
    {
        ++calls;
        return log_value = a + base;
    }
    int operator()(int a) const { return log_value = a + base + 1; }
};
struct Nothrow_Functor {
    int base = 0;
    int operator()(int a) const noexcept { return log_value = a + base; }
};
struct Convertible { // not callable by itself: a reference to a callable object with state
    int base;
};
int with_entity(Convertible* c, int a) { return log_value = a + c->base; }
constexpr auto with_entity_lambda = [](Convertible* c, int a) noexcept { return log_value = a + c->base; };
constexpr auto constant_lambda = [](int a) noexcept { return log_value = a + 9000; };

template <typename Ref>
struct Machine {
    static constexpr bool nothrow = noexcept(std::declval<const Ref&>()(0));
    Functor f1 { 11000 }, f2 { 12000 };
    const Functor cf { 13000 };
    Nothrow_Functor nf { 14000 };
    Convertible e { 15000 };
    Ref slot[3];
    int target[3] = { -1, -1, -1 };

    static constexpr int n_bind = 11;
    /// Binds a slot to callable `c`. Returns false if this signature cannot be bound to it.
    template <int c>
    bool bind(int s)
    {
        const auto set = [&]<typename... T>(T&&... t) {
            if constexpr (requires { Ref(std::forward<T>(t)...); }) {
                slot[s] = Ref(std::forward<T>(t)...);
                target[s] = c;
                return true;
            }
            else return false;
        };
        if constexpr (c == 0) return set(plain_function);
        if constexpr (c == 1) return set(&plain_noexcept);
        if constexpr (c == 2) return set(&widening);
        if constexpr (c == 3) return set(f1);
        if constexpr (c == 4) return set(f2);
        if constexpr (c == 5) return set(cf);
        if constexpr (c == 6) return set(nf);
        if constexpr (c == 7) return set([](int a) noexcept { return log_value = a + 7000; });
        if constexpr (c == 8) return set([](long a) noexcept -> long { return log_value = int(a) + 8000; });
        if constexpr (c == 9) return set(ulight::Constant<constant_lambda> {});
        if constexpr (c == 10) return set(ulight::Constant<with_entity_lambda> {}, &e);
        return false;
    }
    static int expected(int c, int a, bool is_const)
    {
        switch (c) {
        case 0: return a + 1000;
        case 1: return a + 2000;
        case 2: return a + 3000;
        case 3: return a + 11000 + (is_const ? 1 : 0);
        case 4: return a + 12000 + (is_const ? 1 : 0);
        case 5: return a + 13000 + 1;
        case 6: return a + 14000;
        case 7: return a + 7000;
        case 8: return a + 8000;
        case 9: return a + 9000;
        case 10: return a + 15000;
        }
        return -1;
    }
    bool bind_any(int c, int s)
    {
        switch (c) {
        case 0: return bind<0>(s);
        case 1: return bind<1>(s);
        case 2: return bind<2>(s);
        case 3: return bind<3>(s);
        case 4: return bind<4>(s);
        case 5: return bind<5>(s);
        case 6: return bind<6>(s);
        case 7: return bind<7>(s);
        case 8: return bind<8>(s);
        case 9: return bind<9>(s);
        case 10: return bind<10>(s);
        }
        return false;
    }
};

template <typename Ref, bool is_const>
void ref_histories(Ctx& x, const char* name, int depth)
{
    x.set_family(std::string("histories, ") + name);
    using M = Machine<Ref>;
    const int nops = M::n_bind + 4;
    for (int len = 1; len <= depth; ++len) {
        std::uint64_t count = 1;
        for (int k = 0; k < len; ++k) count *= nops;
        for (std::uint64_t n = 0; n < count; ++n) {
            std::uint64_t m = n;
            std::string label = name;
            for (int k = 0; k < len; ++k, m /= nops) label += " " + std::to_string(m % nops);
            if (!x.begin(label)) continue;
            M machine;
            m = n;
            bool bound = false;
            for (int k = 0; k < len; ++k, m /= nops) {
                const int op = int(m % nops), s = k % 3;
                if (op < M::n_bind) bound |= machine.bind_any(op, s);
                else if (op == M::n_bind) { // copy construction from the previous slot, then assignment
                    Ref copy = machine.slot[(s + 2) % 3];
                    machine.slot[s] = copy;
                    machine.target[s] = machine.target[(s + 2) % 3];
                }
                else if (op == M::n_bind + 1) {
                    machine.slot[s] = Ref {};
                    machine.target[s] = -1;
                }
                else if (op == M::n_bind + 2) { // taken apart and put together again
                    machine.slot[s] = Ref(machine.slot[(s + 1) % 3].get_invoker(), machine.slot[(s + 1) % 3].get_entity());
                    machine.target[s] = machine.target[(s + 1) % 3];
                }
                else { // self-assignment and swap
                    std::swap(machine.slot[0], machine.slot[2]);
                    std::swap(machine.target[0], machine.target[2]);
                    auto& self = machine.slot[1];
                    machine.slot[1] = self;
                }
                for (int t = 0; t < 3; ++t) {
                    const bool has = machine.target[t] >= 0;
                    if (machine.slot[t].has_value() != has || bool(machine.slot[t]) != has) {
                        x.fail("has-value", "wrong emptiness of slot " + std::to_string(t));
                        break;
                    }
                    if (!has) continue;
                    log_value = -1;
                    const int got = int(std::as_const(machine.slot[t])(5 + t));
                    if (got != M::expected(machine.target[t], 5 + t, is_const)) {
                        x.fail("call", "slot " + std::to_string(t) + " calls the wrong function: " + std::to_string(got));
                        break;
                    }
                }
            }
            x.transitions += std::uint64_t(len);
            if (bound) x.nontrivial();
        }
    }
}

void function_ref(Ctx& x)
{
    const int depth = x.thorough ? 5 : 4;
    ref_histories<ulight::Function_Ref<int(int)>, false>(x, "int(int)", depth);
    ref_histories<ulight::Function_Ref<int(int) const>, true>(x, "int(int) const", depth);
    ref_histories<ulight::Function_Ref<int(int) noexcept>, false>(x, "int(int) noexcept", depth);
    ref_histories<ulight::Function_Ref<int(int) const noexcept>, true>(x, "int(int) const noexcept", depth);
    // Arguments and results are passed on as they are.
    x.set_family("arguments");
    for (int mode = 0; mode < 8; ++mode) {
        for (int v = -2; v <= 2; ++v) {
            if (!x.begin("argument " + std::to_string(mode) + " " + std::to_string(v))) continue;
            x.nontrivial();
            if (mode == 0) { // reference argument
                int var = v;
                auto f = [k = 3](int& a) { a += k; };
                ulight::Function_Ref<void(int&)> r = f;
                r(var);
                if (var != v + 3) x.fail("reference-argument", "the argument is not passed by reference");
            }
            else if (mode == 1) { // move-only argument and result
                auto f = [](std::unique_ptr<int> p) {
                    ++*p;
                    return p;
                };
                ulight::Function_Ref<std::unique_ptr<int>(std::unique_ptr<int>)> r = f;
                auto p = std::make_unique<int>(v);
                int* raw = p.get();
                auto q = r(std::move(p));
                if (p || q.get() != raw || *q != v + 1) x.fail("move-only", "the argument is not moved through");
            }
            else if (mode == 2) { // reference result
                int var = v;
                auto f = [&var](int) -> int& { return var; };
                ulight::Function_Ref<int&(int)> r = f;
                if (&r(0) != &var) x.fail("reference-result", "another object is returned");
            }
            else if (mode == 3) { // several arguments in order
                auto f = [seen = std::string()](int a, const std::string& b, char c) mutable {
                    seen += std::to_string(a) + b + c;
                    return seen;
                };
                ulight::Function_Ref<std::string(int, const std::string&, char)> r = f;
                r(v, "x", 'y');
                const std::string want = std::to_string(v) + "xy" + std::to_string(v) + "zw";
                if (r(v, "z", 'w') != want) x.fail("several-arguments", "arguments or state are wrong");
            }
            else if (mode == 4) { // no result
                int count = 0;
                auto f = [&count, v](int a) {
                    count += a + v;
                };
                ulight::Function_Ref<void(int)> r = f;
                r(10);
                if (count != 10 + v) x.fail("void", "the function is not called exactly once");
            }
            else if (mode == 5) { // exceptions pass through
                auto f = [v](int a) -> int { throw a + v; };
                ulight::Function_Ref<int(int)> r = f;
                int caught = -100;
                try {
                    r(7);
                } catch (int e) {
                    caught = e;
                }
                if (caught != 7 + v) x.fail("exception", "the exception is not passed on");
            }
            else if (mode == 6) { // copies refer to the same object
                auto f = [n = 0](int a) mutable { return n += a; };
                ulight::Function_Ref<int(int)> r = f, s = r;
                r(v);
                s(v);
                if (r(1) != 2 * v + 1 || f(0) != 2 * v + 1) x.fail("same-object", "the object was copied");
            }
            else { // rvalue function pointers and function references outlive the expression
                ulight::Function_Ref<int(int)> r = [](int a) { return a * 2; };
                ulight::Function_Ref<int(int)> s = static_cast<int (*)(int)>(&plain_function);
                ulight::Function_Ref<long(short)> t = plain_function;
                if (r(v) != 2 * v || s(v) != v + 1000 || t(short(v)) != v + 1000) x.fail("function-pointer", "a wrong function is called");
            }
        }
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mini_main(argc, argv, { { "edits", edits }, { "diffs", diffs }, { "buffer", buffer }, { "function-ref", function_ref } });
}
