// Fault enumeration (allocation failures, throwing callbacks) and histories of calls on one state.
#include "families.hpp"
#include "mini.hpp"
#include "ulight/ulight.hpp"
#include <new>

using namespace vx;

// --------------------------------------------------------------------------- accounting allocator
namespace heap {
bool armed = false;
std::uint64_t count = 0; // allocations while armed
std::uint64_t fail_from = ~0ull, fail_to = 0; // indices [fail_from, fail_to) fail (1-based)
std::int64_t live = 0;
const char* bad = nullptr;
struct Entry { void* p; std::size_t size, align; };
Entry table[1 << 16];
bool over = false;

void reset()
{
    for (auto& e : table) {
        if (e.p) {
            std::free(e.p);
            e.p = nullptr;
        }
    }
    live = 0;
    count = 0;
    bad = nullptr;
    fail_from = ~0ull;
    fail_to = 0;
}
std::size_t slot_of(void* p) { return (reinterpret_cast<std::uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
void* get(std::size_t n, std::size_t al)
{
    if (!armed) {
        void* p = al <= 16 ? std::malloc(n ? n : 1) : std::aligned_alloc(al, (n + al - 1) / al * al + (n ? 0 : al));
        return p;
    }
    ++count;
    if (count >= fail_from && count < fail_to) return nullptr;
    void* p = al <= 16 ? std::malloc(n ? n : 1) : std::aligned_alloc(al, (n + al - 1) / al * al + (n ? 0 : al));
    if (!p) return nullptr;
    std::memset(p, 0xA7, n);
    for (std::size_t i = slot_of(p), k = 0; k < 65536; ++k, i = (i + 1) & 65535) {
        if (!table[i].p) {
            table[i] = { p, n, al };
            ++live;
            return p;
        }
    }
    over = true;
    return p;
}
void put(void* p, std::size_t n, std::size_t al, bool sized, bool aligned)
{
    if (!p) return;
    if (live != 0) {
        for (std::size_t i = 0; i < 65536; ++i) { // linear: few live blocks, deletions leave holes
            const std::size_t j = (slot_of(p) + i) & 65535;
            if (table[j].p == p) {
                if (sized && table[j].size != n) bad = "freed with a different size";
                if (aligned && table[j].align != al) bad = "freed with a different alignment";
                std::memset(p, 0x5D, table[j].size);
                table[j].p = nullptr;
                --live;
                std::free(p);
                return;
            }
        }
    }
    if (armed) {
        bad = "freed a block that is not live";
        return;
    }
    std::free(p);
}
} // namespace heap

void* operator new(std::size_t n) { void* p = heap::get(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = heap::get(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return heap::get(n, 16); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return heap::get(n, 16); }
void* operator new(std::size_t n, std::align_val_t a) { void* p = heap::get(n, std::size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n, std::align_val_t a) { void* p = heap::get(n, std::size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return heap::get(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return heap::get(n, std::size_t(a)); }
void operator delete(void* p) noexcept { heap::put(p, 0, 0, false, false); }
void operator delete[](void* p) noexcept { heap::put(p, 0, 0, false, false); }
void operator delete(void* p, std::size_t n) noexcept { heap::put(p, n, 0, true, false); }
void operator delete[](void* p, std::size_t n) noexcept { heap::put(p, n, 0, true, false); }
void operator delete(void* p, std::align_val_t a) noexcept { heap::put(p, 0, std::size_t(a), false, true); }
void operator delete[](void* p, std::align_val_t a) noexcept { heap::put(p, 0, std::size_t(a), false, true); }
void operator delete(void* p, std::size_t n, std::align_val_t a) noexcept { heap::put(p, n, std::size_t(a), true, true); }
void operator delete[](void* p, std::size_t n, std::align_val_t a) noexcept { heap::put(p, n, std::size_t(a), true, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap::put(p, 0, 0, false, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap::put(p, 0, 0, false, false); }
void operator delete(void* p, std::align_val_t a, const std::nothrow_t&) noexcept { heap::put(p, 0, std::size_t(a), false, true); }
void operator delete[](void* p, std::align_val_t a, const std::nothrow_t&) noexcept { heap::put(p, 0, std::size_t(a), false, true); }

namespace {

// ------------------------------------------------------------------------------------- one call
struct Custom_Exception { int x; };

enum Thrown { th_none, th_custom, th_int, th_bad_alloc, th_std };
constexpr int thrown_kinds = 5;

struct Sink {
    int flushes = 0;
    int throw_at = 0; // 1-based flush index
    Thrown what = th_none;
    std::size_t ntok = 0, ntext = 0;
    static constexpr std::size_t max_tok = 1 << 15, max_text = 1 << 19;
    ulight_token tok[max_tok];
    char text[max_text];
    void event()
    {
        if (++flushes == throw_at) {
            const bool a = heap::armed;
            heap::armed = false;
            struct R { bool a; ~R() { heap::armed = a; } } r { a };
            switch (what) {
            case th_custom: throw Custom_Exception { 1 };
            case th_int: throw 42;
            case th_bad_alloc: throw std::bad_alloc();
            case th_std: throw std::exception();
            default: break;
            }
        }
    }
};
void sink_tokens(const void* d, ulight_token* t, std::size_t n)
{
    auto* s = static_cast<Sink*>(const_cast<void*>(d));
    s->event();
    if (s->ntok + n <= Sink::max_tok) {
        std::memcpy(s->tok + s->ntok, t, n * sizeof *t);
        s->ntok += n;
    }
}
void sink_text(const void* d, char* t, std::size_t n)
{
    auto* s = static_cast<Sink*>(const_cast<void*>(d));
    s->event();
    if (s->ntext + n <= Sink::max_text) {
        std::memcpy(s->text + s->ntext, t, n);
        s->ntext += n;
    }
}
Sink sink_a;

struct Call {
    int lang = 2;
    std::string src;
    int flags = 0;
    std::size_t tcap = 3, xcap = 16;
    bool html = false;
    std::string tag = "h-", attr = "data-h";
};
struct Outcome {
    int status = -1;
    int flushes = 0;
    std::string out; // tokens or text
    bool error_text = false;
    bool operator==(const Outcome& o) const { return status == o.status && out == o.out; }
};
std::string pack(const Sink& s, bool html)
{
    if (html) return std::string(s.text, s.ntext);
    std::string o;
    for (std::size_t i = 0; i < s.ntok; ++i) {
        char b[64];
        std::snprintf(b, sizeof b, "%zu+%zu:%d ", s.tok[i].begin, s.tok[i].length, int(s.tok[i].type));
        o += b;
    }
    return o;
}
void configure(ulight_state& st, const Call& c, Sink& s)
{
    char* p = source_arena().tail(c.src.size());
    std::memcpy(p, c.src.data(), c.src.size());
    st.source = p;
    st.source_length = c.src.size();
    st.lang = ulight_lang(c.lang);
    st.flags = ulight_flag(c.flags);
    st.token_buffer = reinterpret_cast<ulight_token*>(token_arena().tail(c.tcap * sizeof(ulight_token)));
    st.token_buffer_length = c.tcap;
    st.flush_tokens = sink_tokens;
    st.flush_tokens_data = &s;
    st.text_buffer = text_arena().tail(c.xcap);
    st.text_buffer_length = c.xcap;
    st.flush_text = sink_text;
    st.flush_text_data = &s;
    static char names[2][64];
    std::memcpy(names[0], c.tag.data(), c.tag.size());
    std::memcpy(names[1], c.attr.data(), c.attr.size());
    st.html_tag_name = names[0];
    st.html_tag_name_length = c.tag.size();
    st.html_attr_name = names[1];
    st.html_attr_name_length = c.attr.size();
}
Outcome execute(ulight_state& st, bool html, Sink& s)
{
    st.error = nullptr;
    st.error_length = 0;
    heap::armed = true;
    const int r = html ? ulight_source_to_html(&st) : ulight_source_to_tokens(&st);
    heap::armed = false;
    Outcome o;
    o.status = r;
    o.flushes = s.flushes;
    o.out = pack(s, html);
    o.error_text = st.error && st.error_length;
    return o;
}
void clear(Sink& s)
{
    s.flushes = 0;
    s.throw_at = 0;
    s.what = th_none;
    s.ntok = s.ntext = 0;
}
Outcome fresh_call(const Call& c)
{
    clear(sink_a);
    heap::reset();
    ulight_state st;
    ulight_init(&st);
    configure(st, c, sink_a);
    return execute(st, c.html, sink_a);
}
std::string describe(const Call& c)
{
    char b[120];
    std::snprintf(b, sizeof b, "%s lang=%d flags=%d tokens=%zu text=%zu source=", c.html ? "html" : "tokens", c.lang, c.flags, c.tcap, c.xcap);
    return b + printable(c.src);
}

// The sources used: curated lexemes, openers followed by lexemes, short windows of sample documents.
std::vector<std::string> sources_for(const Lang_Data& d, bool thorough)
{
    std::vector<std::string> v { "" };
    for (const auto& w : d.core) v.push_back(w);
    for (const auto& c : d.contexts)
        for (const auto& w : thorough ? d.core : d.mini) v.push_back(c + w + "\n" + w);
    for (const auto& f : d.corpus) {
        std::string w = f.substr(0, 300);
        while (!w.empty() && !boundary(f, w.size())) w.pop_back();
        v.push_back(w);
        if (thorough && f.size() < 4000) v.push_back(f);
    }
    for (const auto& a : d.mini)
        for (const auto& b : d.mini) v.push_back(a + b + a);
    if (d.lang == 25) { // nesting makes the YAML highlighter allocate
        for (int n : { 1, 2, 3, 5, 9, 17, 33, 70 }) {
            std::string s, q;
            for (int i = 0; i < n; ++i) {
                s += std::string(i, ' ') + "k:\n";
                q += "- ";
            }
            v.push_back(s);
            v.push_back(s + "x: 1\n");
            v.push_back(q + "a: b\n");
            v.push_back(q + "\n" + s);
        }
    }
    return v;
}

// ------------------------------------------------------------------------------------- T08
void chk_alloc(Ctx& x)
{
    const auto data = load_data(x.data.c_str());
    static ulight_state reused;
    for (const auto& [l, d] : data) {
        x.set_family(d.name);
        for (const auto& src : sources_for(d, x.thorough))
            for (int html = 0; html < 2; ++html)
                for (int flags : { 0, 1 })
                    for (std::size_t cap : { std::size_t(1), std::size_t(5) }) {
                        Call c { l, src, flags, cap, cap == 1 ? std::size_t(7) : std::size_t(64), html != 0 };
                        if (!x.begin(describe(c))) continue;
                        const Outcome want = fresh_call(c);
                        const std::uint64_t n = heap::count;
                        if (heap::live) x.fail("leak", std::to_string(heap::live) + " blocks after a normal call");
                        if (heap::bad) x.fail("misuse", heap::bad);
                        if (n) x.nontrivial();
                        const std::uint64_t limit = x.thorough ? 400 : 64;
                        for (std::uint64_t k = 1; k <= n && k <= limit; ++k)
                            for (int mode = 0; mode < 2; ++mode) { // only the k-th, or all from the k-th
                                x.tick();
                                ++x.faults;
                                clear(sink_a);
                                heap::reset();
                                heap::fail_from = k;
                                heap::fail_to = mode ? ~0ull : k + 1;
                                ulight_init(&reused);
                                configure(reused, c, sink_a);
                                const Outcome got = execute(reused, c.html, sink_a);
                                char at[80];
                                std::snprintf(at, sizeof at, "allocation %llu fails, mode %d", (unsigned long long)k, mode);
                                if (got.status == ULIGHT_STATUS_BAD_ALLOC) {
                                    if (!got.error_text) x.fail("no-error-text", at);
                                    if (want.out.compare(0, got.out.size(), got.out) != 0) x.fail("not-a-prefix", at);
                                }
                                else if (got.status != want.status) x.fail("status", std::string(at) + ", status " + std::to_string(got.status));
                                else if (got.out != want.out) x.fail("silently-different", at);
                                if (heap::live) x.fail("leak", at);
                                if (heap::bad) x.fail("misuse", std::string(at) + ", " + heap::bad);
                                // the same state, with memory available again
                                clear(sink_a);
                                heap::reset();
                                configure(reused, c, sink_a);
                                if (!(execute(reused, c.html, sink_a) == want)) x.fail("retry-differs", at);
                            }
                    }
    }
    x.set_family("new/delete");
    for (int k = 0; k < 4; ++k) {
        if (!x.begin("ulight_new, failure " + std::to_string(k))) continue;
        x.nontrivial();
        ++x.faults;
        heap::reset();
        heap::fail_from = k ? std::uint64_t(k) : ~0ull;
        heap::fail_to = ~0ull;
        heap::armed = true;
        ulight_state* p = ulight_new();
        heap::armed = false;
        if (k == 1 && p) x.fail("new-not-null", "");
        if (k != 1 && !p) x.fail("new-null", "");
        heap::armed = true;
        if (p) ulight_delete(p);
        heap::armed = false;
        if (heap::live) x.fail("leak", "");
        if (heap::bad) x.fail("misuse", heap::bad);
        for (std::size_t al : { 1, 2, 4, 8, 16, 32, 64 })
            for (std::size_t n : { 1, 3, 8, 100, 4096 }) {
                heap::reset();
                heap::armed = true;
                void* q = ulight_alloc(n, al);
                heap::armed = false;
                if (!q || reinterpret_cast<std::uintptr_t>(q) % al) x.fail("alloc-alignment", "");
                if (q) std::memset(q, 1, n);
                heap::armed = true;
                ulight_free(q, n, al);
                heap::armed = false;
                if (heap::live || heap::bad) x.fail("alloc-free", "");
            }
        heap::reset();
    }
}

// ------------------------------------------------------------------------------------- T36
void chk_throwing(Ctx& x)
{
    const auto data = load_data(x.data.c_str());
    static ulight_state reused;
    for (const auto& [l, d] : data) {
        x.set_family(d.name);
        for (const auto& src : sources_for(d, x.thorough))
            for (int html = 0; html < 2; ++html)
                for (int flags : { 0, 1 })
                    for (std::size_t cap : { std::size_t(1), std::size_t(4) }) {
                        Call c { l, src, flags, cap, cap == 1 ? std::size_t(23) : std::size_t(9), html != 0 };
                        if (!x.begin(describe(c))) continue;
                        const Outcome want = fresh_call(c);
                        if (want.flushes) x.nontrivial();
                        const int limit = x.thorough ? 120 : 24;
                        const int n = want.flushes;
                        for (int k = 1; k <= n; ++k) {
                            // every flush up to the bound, and the last ones
                            if (k > limit && k < n - 2) continue;
                            for (int what = 1; what < thrown_kinds; ++what) {
                                if (what > 1 && k > 4 && k != n) continue;
                                x.tick();
                                ++x.faults;
                                clear(sink_a);
                                heap::reset();
                                sink_a.throw_at = k;
                                sink_a.what = Thrown(what);
                                ulight_init(&reused);
                                configure(reused, c, sink_a);
                                const Outcome got = execute(reused, c.html, sink_a);
                                char at[80];
                                std::snprintf(at, sizeof at, "flush %d of %d throws, kind %d", k, n, what);
                                if (got.status == ULIGHT_STATUS_OK) x.fail("exception-ignored", at);
                                if (got.status == ULIGHT_STATUS_BAD_TEXT || got.status == ULIGHT_STATUS_BAD_LANG || got.status == ULIGHT_STATUS_BAD_BUFFER
                                    || got.status == ULIGHT_STATUS_BAD_STATE) x.fail("status", std::string(at) + ", status " + std::to_string(got.status));
                                if (!got.error_text) x.fail("no-error-text", at);
                                if (got.flushes != k) x.fail("flush-after-exception", at);
                                if (want.out.compare(0, got.out.size(), got.out) != 0) x.fail("not-a-prefix", at);
                                if (heap::live) x.fail("leak", at);
                                if (heap::bad) x.fail("misuse", std::string(at) + ", " + heap::bad);
                                clear(sink_a);
                                heap::reset();
                                configure(reused, c, sink_a);
                                if (!(execute(reused, c.html, sink_a) == want)) x.fail("retry-differs", at);
                            }
                        }
                    }
    }
    heap::reset();
}

// ------------------------------------------------------------------------------------- T09
// Histories of operations on one state. Every operation sets a part of the configuration and then
// calls; the outcome must be that of a fresh state with the same configuration in a fresh process.
struct Op {
    std::string name;
    int set = 0; // which members are set: 1 source, 2 lang, 4 flags, 8 buffers, 16 names
    Call c;
    int fault = 0; // 1 allocation failure, 2 throwing callback, 3 bad lang, 4 null source, 5 no token buffer, 6 no text callback
    bool html = false;
    bool call = true;
};
struct Shadow {
    Call c;
};
void apply(ulight_state& st, const Op& o, Shadow& sh)
{
    if (o.set & 1) sh.c.src = o.c.src;
    if (o.set & 2) sh.c.lang = o.c.lang;
    if (o.set & 4) sh.c.flags = o.c.flags;
    if (o.set & 8) {
        sh.c.tcap = o.c.tcap;
        sh.c.xcap = o.c.xcap;
    }
    if (o.set & 1) {
        char* p = source_arena().tail(sh.c.src.size());
        std::memcpy(p, sh.c.src.data(), sh.c.src.size());
        st.source = p;
        st.source_length = sh.c.src.size();
    }
    if (o.set & 2) st.lang = ulight_lang(sh.c.lang);
    if (o.set & 4) st.flags = ulight_flag(sh.c.flags);
    if (o.set & 16) { // names of different content, but often at the same place
        static char names[2][64];
        sh.c.tag = o.c.tag;
        sh.c.attr = o.c.attr;
        std::memcpy(names[0], o.c.tag.data(), o.c.tag.size());
        std::memcpy(names[1], o.c.attr.data(), o.c.attr.size());
        st.html_tag_name = names[0];
        st.html_tag_name_length = o.c.tag.size();
        st.html_attr_name = names[1];
        st.html_attr_name_length = o.c.attr.size();
    }
    if (o.set & 8) {
        st.token_buffer = reinterpret_cast<ulight_token*>(token_arena().tail(sh.c.tcap * sizeof(ulight_token)));
        st.token_buffer_length = sh.c.tcap;
        st.text_buffer = text_arena().tail(sh.c.xcap);
        st.text_buffer_length = sh.c.xcap;
    }
}
Outcome perform(ulight_state& st, const Op& o, Shadow& sh)
{
    apply(st, o, sh);
    clear(sink_a);
    heap::reset();
    const ulight_state keep = st;
    switch (o.fault) {
    case 1: heap::fail_from = 1; heap::fail_to = ~0ull; break;
    case 2: sink_a.throw_at = 2; sink_a.what = th_custom; break;
    case 3: st.lang = ulight_lang(200); break;
    case 4: st.source = nullptr; break;
    case 5: st.token_buffer_length = 0; break;
    case 6: st.flush_text = nullptr; break;
    default: break;
    }
    const Outcome r = execute(st, o.html, sink_a);
    switch (o.fault) {
    case 3: st.lang = keep.lang; break;
    case 4: st.source = keep.source; break;
    case 5: st.token_buffer_length = keep.token_buffer_length; break;
    case 6: st.flush_text = keep.flush_text; break;
    default: break;
    }
    return r;
}
void start_state(ulight_state& st)
{
    ulight_init(&st);
    st.flush_tokens = sink_tokens;
    st.flush_tokens_data = &sink_a;
    st.flush_text = sink_text;
    st.flush_text_data = &sink_a;
}
// Outcomes in processes of their own, forked from a process that has never called the library.
struct Pristine {
    int to[2], from[2];
    pid_t server = 0;
    static void put(int fd, const std::string& s)
    {
        const std::uint64_t n = s.size();
        std::string m(reinterpret_cast<const char*>(&n), sizeof n);
        m += s;
        for (std::size_t w = 0; w < m.size();) {
            const ssize_t k = write(fd, m.data() + w, m.size() - w);
            if (k <= 0) _exit(3);
            w += std::size_t(k);
        }
    }
    static bool get(int fd, std::string& s)
    {
        const auto full = [fd](char* p, std::size_t n) {
            while (n) {
                const ssize_t k = read(fd, p, n);
                if (k <= 0) return false;
                p += k;
                n -= std::size_t(k);
            }
            return true;
        };
        std::uint64_t n = 0;
        if (!full(reinterpret_cast<char*>(&n), sizeof n)) return false;
        s.resize(n);
        return full(s.data(), n);
    }
    Pristine()
    {
        if (pipe(to) || pipe(from)) _exit(3);
        server = fork();
        if (server) {
            close(to[0]);
            close(from[1]);
            return;
        }
        close(to[1]);
        close(from[0]);
        itimerval off { };
        setitimer(ITIMER_VIRTUAL, &off, nullptr);
        std::string q[4];
        while (get(to[0], q[0])) {
            for (int k = 1; k < 4; ++k)
                if (!get(to[0], q[k])) _exit(0);
            const pid_t c = fork();
            if (!c) {
                alarm(60);
                Op o;
                int html = 0;
                std::sscanf(q[0].c_str(), "%d %d %zu %zu %d %d", &o.c.lang, &o.c.flags, &o.c.tcap, &o.c.xcap, &html, &o.fault);
                o.html = html != 0;
                o.set = 31;
                o.c.src = q[1];
                o.c.tag = q[2];
                o.c.attr = q[3];
                ulight_state f;
                start_state(f);
                Shadow fs;
                const Outcome r = perform(f, o, fs);
                put(from[1], std::to_string(r.status) + " " + std::to_string(r.flushes) + " " + std::to_string(r.error_text) + "\n" + r.out);
                _exit(0);
            }
            int st = 0;
            waitpid(c, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st)) put(from[1], "-9 0 0\ndied");
        }
        _exit(0);
    }
    ~Pristine()
    {
        close(to[1]);
        close(from[0]);
        int st;
        waitpid(server, &st, 0);
    }
    Outcome ask(const Call& c, bool html, int fault)
    {
        char b[100];
        std::snprintf(b, sizeof b, "%d %d %zu %zu %d %d", c.lang, c.flags, c.tcap, c.xcap, int(html), fault);
        put(to[1], b);
        put(to[1], c.src);
        put(to[1], c.tag);
        put(to[1], c.attr);
        std::string s;
        if (!get(from[0], s)) _exit(3);
        Outcome o;
        int e = 0;
        std::sscanf(s.c_str(), "%d %d %d", &o.status, &o.flushes, &e);
        o.error_text = e;
        const auto nl = s.find('\n');
        if (nl != std::string::npos) o.out = s.substr(nl + 1);
        return o;
    }
};

void chk_reuse(Ctx& x)
{
    const auto data = load_data(x.data.c_str());
    Pristine pristine;
    // Part 1: one state, partial reconfiguration, faults, both kinds of call.
    std::vector<Op> ops;
    const std::string yml = "a:\n b:\n  - c: 'd'\n", cpp = "int a = 1; /* b */ \"c\"\n", web = "<p x='1'>&amp;<script>let a = 1</script>\n",
                      js = "let a = `x${1}`\n", bad = "int \xFF a /* \x80 */\n";
    const auto add = [&](std::string n, int set, Call c, bool html, int fault = 0) { ops.push_back({ n, set, c, fault, html, true }); };
    add("yaml", 15, { 25, yml, 0, 2, 16 }, false);
    add("cpp", 15, { 2, cpp, 1, 64, 64 }, false);
    add("html/web", 15, { 4, web, 0, 1, 7 }, true);
    add("tokens again", 0, {}, false);
    add("html again", 0, {}, true);
    add("source js", 1, { 7, js }, false);
    add("source bad", 1, { 7, bad }, true);
    add("source empty", 1, { 7, "" }, true);
    add("lang js", 2, { 7, "" }, false);
    add("lang yaml", 2, { 25, "" }, true);
    add("coalesce", 4, { 0, "", 1 }, false);
    add("no flags", 4, { 0, "", 0 }, true);
    add("strict", 4, { 0, "", 2 }, false);
    add("cap 1", 8, { 0, "", 0, 1, 1 }, false);
    add("cap 100", 8, { 0, "", 0, 100, 300 }, true);
    add("names a", 16, { 0, "", 0, 0, 0, false, "aa", "data-a" }, true);
    add("names b", 16, { 0, "", 0, 0, 0, false, "bb", "data-b" }, true);
    add("long names", 16, { 0, "", 0, 0, 0, false, "x-quite-long-name", "q" }, true);
    add("alloc failure", 0, {}, false, 1);
    add("alloc failure html", 0, {}, true, 1);
    add("throw", 0, {}, false, 2);
    add("throw html", 0, {}, true, 2);
    add("bad lang", 0, {}, false, 3);
    add("null source", 0, {}, true, 4);
    add("no token buffer", 0, {}, true, 5);
    add("no text callback", 0, {}, true, 6);
    const int depth = x.thorough ? 4 : 3;
    const std::size_t n = ops.size();
    x.set_family("one state");
    std::map<std::string, Outcome> memo;
    std::uint64_t total = 1;
    for (int k = 0; k < depth; ++k) total *= n;
    for (std::uint64_t seq = 0; seq < 3 * total; ++seq) {
        // the first operation is a full configuration
        std::uint64_t r = seq;
        std::vector<std::size_t> s { std::size_t(r / total) };
        r %= total;
        std::uint64_t div = total / n;
        for (int k = 0; k < depth; ++k) {
            s.push_back(r / div % n);
            if (div > 1) div /= n;
        }
        std::string lab;
        for (auto k : s) lab += ops[k].name + "; ";
        if (!x.begin(lab)) continue;
        x.nontrivial();
        ++x.traces;
        ulight_state st;
        start_state(st);
        Shadow sh;
        Outcome got;
        for (std::size_t k = 0; k < s.size(); ++k) {
            got = perform(st, ops[s[k]], sh);
            ++x.transitions;
            if (heap::live) x.fail("leak", lab);
            if (heap::bad) x.fail("misuse", heap::bad);
        }
        Op last = ops[s.back()];
        char key[100];
        std::snprintf(key, sizeof key, "%d %d %zu %zu %s %s %d %d ", sh.c.lang, sh.c.flags, sh.c.tcap, sh.c.xcap, sh.c.tag.c_str(), sh.c.attr.c_str(), int(last.html), last.fault);
        auto it = memo.find(key + sh.c.src);
        if (it == memo.end()) {
            const Outcome ref = pristine.ask(sh.c, last.html, last.fault);
            it = memo.emplace(key + sh.c.src, ref).first;
            ++x.states;
        }
        if (!(it->second == got) || it->second.error_text != got.error_text)
            x.fail("history-dependent", "status " + std::to_string(got.status) + ", fresh " + std::to_string(it->second.status) + " | " + got.out.substr(0, 200) + " | "
                    + it->second.out.substr(0, 200));
    }
    // Part 2: all languages; histories of complete calls; sources of equal length occupy the same memory.
    x.set_family("process history");
    std::vector<Call> calls;
    for (const auto& [l, d] : data) {
        std::string a, b;
        for (std::size_t i = 0; i < d.mini.size() && a.size() < 40; ++i) a += d.mini[i] + " ";
        for (std::size_t i = d.mini.size(); i-- > 0 && b.size() < a.size() + 8;) b += d.mini[i] + "\n";
        a.resize(std::min(a.size(), std::size_t(48)), ' ');
        while (!is_valid_utf8(a) && !a.empty()) a.back() = ' ', a.pop_back();
        a.resize(48, ' ');
        while (b.size() > 48) b.pop_back();
        while (!is_valid_utf8(b) && !b.empty()) b.pop_back();
        b.resize(48, ' ');
        std::string c = !d.contexts.empty() ? d.contexts.front() + a : a + "(";
        c.resize(std::min(c.size(), std::size_t(48)));
        while (!is_valid_utf8(c)) c.pop_back();
        c.resize(48, '.');
        calls.push_back({ l, a, 0, 64, 64, false });
        calls.push_back({ l, b, 0, 64, 64, false });
        calls.push_back({ l, c, 1, 2, 64, false });
        if (x.thorough) calls.push_back({ l, a, 0, 64, 64, true });
        if (x.thorough) calls.push_back({ l, d.corpus.empty() ? a : d.corpus.front().substr(0, 2000), 0, 64, 64, false });
    }
    calls.push_back({ 10, "[1, {\"a\": null}]", 0, 64, 64, true, "aa", "data-a" });
    calls.push_back({ 10, "[1, {\"a\": null}]", 0, 64, 64, true, "bb", "data-b" });
    calls.push_back({ 10, "[1, {\"a\": null}]", 1, 1, 1, true, "h-", "data-h" });
    std::vector<Outcome> refs;
    for (const auto& c : calls) refs.push_back(pristine.ask(c, c.html, 0));
    const std::size_t m = calls.size();
    // all triples: i, j, k (each prefix is checked too)
    for (std::size_t i = 0; i < m; ++i)
        for (std::size_t j = 0; j < m; ++j) {
            if (!x.begin("calls " + std::to_string(i) + "," + std::to_string(j) + ",*: " + describe(calls[i]) + " then " + describe(calls[j]))) continue;
            x.nontrivial();
            const auto one = [&](std::size_t k) {
                ++x.transitions;
                const Outcome o = fresh_call(calls[k]);
                if (!(o == refs[k])) x.fail("history-dependent", describe(calls[k]) + ": " + o.out.substr(0, 200) + " | " + refs[k].out.substr(0, 200));
            };
            const std::size_t step = x.thorough ? 1 : 3;
            for (std::size_t k = (i + j) % step; k < m; k += step) {
                ++x.traces;
                one(i);
                one(j);
                one(k);
                x.tick();
            }
        }
    heap::reset();
}

} // namespace

int main(int argc, char** argv)
{
    return mini_main(argc, argv, { { "alloc", chk_alloc }, { "throwing", chk_throwing }, { "reuse", chk_reuse } });
}
