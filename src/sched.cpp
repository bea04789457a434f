// Systematic exploration of the interleavings of two concurrent calls.
// The library is compiled with -fsanitize=thread, but linked against the runtime below instead of
// ThreadSanitizer: every memory access of the library is reported to it. Accesses to writable
// globals that both calls touch, at least one of them writing, and the flush callbacks are the
// scheduling points. If two calls share no such memory, all their interleavings at finer
// granularity are equivalent.
#include "families.hpp"
#include "mini.hpp"
#include <pthread.h>
#include <semaphore.h>

using namespace vx;

extern "C" char __data_start, _end;

namespace sched {

struct Thread {
    pthread_t id;
    sem_t go;
    volatile bool idle = true, finished = true;
    bool in_lib = false;
    int held = 0; // inside the initialization of a static or a mutex
    int points = 0, stop_at = 0;
    std::function<void()> work;
    bool quit = false;
    void* source = nullptr;
};
thread_local Thread* me = nullptr;
sem_t ctl;

struct Access { bool wrote_plain = false, plain = false, atomic = false; };
std::map<std::uintptr_t, Access>* record = nullptr; // granules of 8 bytes
bool any_sync = false;
std::vector<std::uintptr_t> conflicts; // sorted granules

void point()
{
    Thread* t = me;
    if (!t || t->held) return;
    if (++t->points == t->stop_at) {
        sem_post(&ctl);
        while (sem_wait(&t->go) != 0) { }
    }
}
inline void access(const void* p, std::size_t n, bool write, bool atomic = false)
{
    const char* c = static_cast<const char*>(p);
    if (c + n <= &__data_start || c >= &_end) return;
    Thread* t = me;
    if (!t || !t->in_lib) return;
    const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(c) >> 3, b = (reinterpret_cast<std::uintptr_t>(c) + (n ? n - 1 : 0)) >> 3;
    if (record) {
        t->in_lib = false;
        for (auto g = a; g <= b && g < a + 4096; ++g) {
            auto& r = (*record)[g];
            if (atomic) r.atomic = true;
            else r.plain = true;
            if (write && !atomic && !t->held) r.wrote_plain = true;
            if (write && atomic) r.atomic = true;
        }
        t->in_lib = true;
        return;
    }
    if (conflicts.empty()) return;
    for (auto g = a; g <= b && g < a + 4096; ++g) {
        if (std::binary_search(conflicts.begin(), conflicts.end(), g)) {
            point();
            return;
        }
    }
}
void* loop(void* p)
{
    auto* t = static_cast<Thread*>(p);
    me = t;
    for (;;) {
        while (sem_wait(&t->go) != 0) { }
        if (t->quit) return nullptr;
        t->work();
        t->finished = true;
        sem_post(&ctl);
    }
}
void spawn(Thread& t)
{
    sem_init(&t.go, 0, 0);
    pthread_create(&t.id, nullptr, loop, &t);
}
bool ctl_wait(double s)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    const long ns = ts.tv_nsec + long((s - long(s)) * 1e9);
    ts.tv_sec += long(s) + ns / 1000000000;
    ts.tv_nsec = ns % 1000000000;
    for (;;) {
        if (sem_timedwait(&ctl, &ts) == 0) return true;
        if (errno == ETIMEDOUT) return false;
    }
}
void begin(Thread& t, std::function<void()> f)
{
    t.work = std::move(f);
    t.points = 0;
    t.held = 0;
    t.finished = false;
}
/// Runs `t` to its point number `k` (or to its end if k = 0). False if it blocked.
bool run_to(Thread& t, int k)
{
    if (t.finished) return true;
    t.stop_at = k && t.points < k ? k : 0;
    if (k && t.points >= k) return true;
    sem_post(&t.go);
    return ctl_wait(2.0);
}

} // namespace sched

// ------------------------------------------------------------------------- instrumentation runtime
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
#define VX_RW(n)                                                                                       \
    void __tsan_read##n(void* p) { sched::access(p, n, false); }                                      \
    void __tsan_write##n(void* p) { sched::access(p, n, true); }                                      \
    void __tsan_unaligned_read##n(void* p) { sched::access(p, n, false); }                            \
    void __tsan_unaligned_write##n(void* p) { sched::access(p, n, true); }                            \
    void __tsan_volatile_read##n(void* p) { sched::access(p, n, false); }                             \
    void __tsan_volatile_write##n(void* p) { sched::access(p, n, true); }                             \
    void __tsan_read_write##n(void* p) { sched::access(p, n, true); }
VX_RW(1) VX_RW(2) VX_RW(4) VX_RW(8) VX_RW(16)
void __tsan_read_range(void* p, unsigned long n) { sched::access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { sched::access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { sched::access(p, 8, true); }
void __tsan_vptr_read(void** p) { sched::access(p, 8, false); }
#define VX_AT(n, T)                                                                                    \
    T __tsan_atomic##n##_load(const volatile T* p, int) { sched::any_sync = true; sched::access((const void*)p, sizeof(T), false, true); return __atomic_load_n(p, 5); }      \
    void __tsan_atomic##n##_store(volatile T* p, T v, int) { sched::any_sync = true; sched::access((const void*)p, sizeof(T), true, true); __atomic_store_n(p, v, 5); }        \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { sched::any_sync = true; sched::access((const void*)p, sizeof(T), true, true); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { sched::any_sync = true; sched::access((const void*)p, sizeof(T), true, true); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { sched::any_sync = true; sched::access((const void*)p, sizeof(T), true, true); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { sched::any_sync = true; sched::access((const void*)p, sizeof(T), true, true); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { sched::any_sync = true; sched::access((const void*)p, sizeof(T), true, true); return __atomic_fetch_or(p, v, 5); }   \
    T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { sched::any_sync = true; sched::access((const void*)p, sizeof(T), true, true); return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { sched::any_sync = true; sched::access((const void*)p, sizeof(T), true, true); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { sched::any_sync = true; sched::access((const void*)p, sizeof(T), true, true); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); }   \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T c, T v, int, int) { sched::any_sync = true; sched::access((const void*)p, sizeof(T), true, true); __atomic_compare_exchange_n(p, &c, v, false, 5, 5); return c; }
VX_AT(8, unsigned char) VX_AT(16, unsigned short) VX_AT(32, unsigned) VX_AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }

// memory functions called by the instrumented code (linked with --wrap)
void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
void* __wrap_memcpy(void* d, const void* s, std::size_t n)
{
    sched::access(s, n, false);
    sched::access(d, n, true);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, std::size_t n)
{
    sched::access(s, n, false);
    sched::access(d, n, true);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, std::size_t n)
{
    sched::access(d, n, true);
    return __real_memset(d, c, n);
}
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g)
{
    const int r = __real___cxa_guard_acquire(g);
    if (r && sched::me) ++sched::me->held;
    return r;
}
void __wrap___cxa_guard_release(void* g)
{
    __real___cxa_guard_release(g);
    if (sched::me) --sched::me->held;
}
void __wrap___cxa_guard_abort(void* g)
{
    __real___cxa_guard_abort(g);
    if (sched::me) --sched::me->held;
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    sched::any_sync = true;
    const int r = __real_pthread_mutex_lock(m);
    if (sched::me) ++sched::me->held;
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (sched::me) --sched::me->held;
    return __real_pthread_mutex_unlock(m);
}
}

namespace {

struct Call {
    int lang;
    std::string src;
    int flags;
    std::size_t tcap, xcap;
    bool html;
};
std::string describe(const Call& c)
{
    char b[100];
    std::snprintf(b, sizeof b, "%s lang=%d flags=%d \"", c.html ? "html" : "tokens", c.lang, c.flags);
    return b + printable(c.src) + "\"";
}
struct Runner;
struct Runner {
    ulight_state st;
    std::vector<ulight_token> tokbuf;
    std::vector<char> text;
    std::string out;
    int flushes = 0;
    int status = -1;
    int nested_at = 0;
    std::function<void()> nested;

    static void on_tok(const void* d, ulight_token* t, std::size_t n)
    {
        auto* r = static_cast<Runner*>(const_cast<void*>(d));
        r->enter();
        for (std::size_t i = 0; i < n; ++i) {
            char b[64];
            std::snprintf(b, sizeof b, "%zu+%zu:%d ", t[i].begin, t[i].length, int(t[i].type));
            r->out += b;
        }
        r->leave();
    }
    static void on_text(const void* d, char* t, std::size_t n)
    {
        auto* r = static_cast<Runner*>(const_cast<void*>(d));
        r->enter();
        r->out.append(t, n);
        r->leave();
    }
    void enter()
    {
        if (sched::me) sched::me->in_lib = false;
        ++flushes;
        if (flushes <= 3) sched::point();
        if (flushes == nested_at && nested) {
            nested();
            if (sched::me) sched::me->in_lib = false;
        }
    }
    void leave()
    {
        if (sched::me) sched::me->in_lib = true;
    }
    void run(const Call& c)
    {
        tokbuf.assign(c.tcap, {});
        text.assign(c.xcap, 0);
        out.clear();
        flushes = 0;
        ulight_init(&st);
        st.source = c.src.data();
        st.source_length = c.src.size();
        st.lang = ulight_lang(c.lang);
        st.flags = ulight_flag(c.flags);
        st.token_buffer = tokbuf.data();
        st.token_buffer_length = c.tcap;
        st.flush_tokens = on_tok;
        st.flush_tokens_data = this;
        st.text_buffer = text.data();
        st.text_buffer_length = c.xcap;
        st.flush_text = on_text;
        st.flush_text_data = this;
        if (sched::me) sched::me->in_lib = true;
        status = c.html ? ulight_source_to_html(&st) : ulight_source_to_tokens(&st);
        if (sched::me) sched::me->in_lib = false;
    }
    std::string result() const { return std::to_string(status) + "|" + out; }
};

struct Solo {
    std::string result;
    std::map<std::uintptr_t, sched::Access> acc;
    bool sync = false;
    int flushes = 0;
};
// Runs f in a forked child that writes a string.
std::string in_child(const std::function<std::string()>& f, int& status)
{
    int p[2];
    if (pipe(p)) _exit(3);
    const pid_t c = fork();
    if (!c) {
        close(p[0]);
        itimerval off { };
        setitimer(ITIMER_VIRTUAL, &off, nullptr);
        alarm(60);
        const std::string s = f();
        for (std::size_t w = 0; w < s.size();) {
            const ssize_t k = write(p[1], s.data() + w, s.size() - w);
            if (k <= 0) break;
            w += std::size_t(k);
        }
        _exit(0);
    }
    close(p[1]);
    std::string s;
    char b[8192];
    for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0;) s.append(b, std::size_t(k));
    close(p[0]);
    waitpid(c, &status, 0);
    return s;
}
Solo solo(const Call& c)
{
    int st = 0;
    const std::string s = in_child([&] {
        std::map<std::uintptr_t, sched::Access> acc;
        sched::Thread t;
        sched::me = &t;
        Runner r;
        sched::record = &acc;
        r.run(c);
        sched::record = nullptr;
        std::string o = std::to_string(r.flushes) + " " + std::to_string(sched::any_sync) + " " + std::to_string(acc.size()) + "\n";
        for (auto& [g, a] : acc) o += std::to_string(g) + " " + std::to_string(a.wrote_plain) + " " + std::to_string(a.plain) + " " + std::to_string(a.atomic) + "\n";
        return o + r.result();
    }, st);
    Solo x;
    std::size_t n = 0, pos = 0;
    int sy = 0, off = 0;
    if (std::sscanf(s.c_str(), "%d %d %zu%n", &x.flushes, &sy, &n, &off) < 3) {
        x.result = "died";
        return x;
    }
    x.sync = sy;
    pos = std::size_t(off) + 1;
    for (std::size_t i = 0; i < n; ++i) {
        unsigned long g;
        int a, b, d;
        std::sscanf(s.c_str() + pos, "%lu %d %d %d%n", &g, &a, &b, &d, &off);
        x.acc[g] = { a != 0, b != 0, d != 0 };
        pos += std::size_t(off) + 1;
    }
    x.result = s.substr(pos);
    return x;
}

struct Two {
    sched::Thread a, b;
    Runner ra, rb;
    Two()
    {
        sem_init(&sched::ctl, 0, 0);
        sched::spawn(a);
        sched::spawn(b);
    }
};
// Plays one schedule: `first` runs to its point i, the other to its point j, `first` to its point k
// (0: end), the other to its end, then whatever is left.
std::string play(Two& w, const Call& ca, const Call& cb, int first, int i, int j, int k)
{
    sched::begin(w.a, [&] { w.ra.run(ca); });
    sched::begin(w.b, [&] { w.rb.run(cb); });
    auto& x = first ? w.b : w.a;
    auto& y = first ? w.a : w.b;
    bool ok = true;
    ok = ok && sched::run_to(x, i);
    ok = ok && sched::run_to(y, j);
    ok = ok && sched::run_to(x, k);
    ok = ok && sched::run_to(y, 0);
    ok = ok && sched::run_to(x, 0);
    if (!ok) return "?blocked";
    return w.ra.result() + "\x01" + w.rb.result();
}

std::vector<Call> calls_for(const std::map<int, Lang_Data>& data, bool thorough)
{
    std::vector<Call> v;
    for (const auto& [l, d] : data) {
        // a source that touches as much of the highlighter as possible
        std::string s;
        for (const auto& w : d.core) s += w + "\n";
        std::string t;
        for (const auto& f : d.corpus)
            if (f.size() < 1500 && t.size() < 3000) t += f + "\n";
        std::string q;
        for (const auto& c : d.contexts) q += c + d.core.front() + "\n";
        v.push_back({ l, s, 0, 7, 16, false });
        v.push_back({ l, t + q, 1, 5, 64, false });
        v.push_back({ l, q + s, 0, 3, 32, true });
        if (thorough) {
            for (const auto& f : d.corpus) v.push_back({ l, f.substr(0, 8000), 0, 9, 64, false });
        }
    }
    return v;
}

void chk_interleave(Ctx& x)
{
    const auto data = load_data(x.data.c_str());
    const auto calls = calls_for(data, false);
    const std::size_t n = calls.size();
    std::vector<Solo> so;
    x.set_family("alone");
    for (std::size_t i = 0; i < n; ++i) {
        so.push_back(solo(calls[i]));
        x.tick();
    }
    Two* pool = nullptr;
    for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t j = i; j < n; ++j) {
            x.set_family("pairs");
            if (!x.begin("concurrent: " + std::to_string(i) + " " + describe(calls[i]).substr(0, 60) + " and " + std::to_string(j) + " " + describe(calls[j]).substr(0, 60))) continue;
            x.nontrivial();
            std::vector<std::uintptr_t> conf;
            bool race = false;
            for (const auto& [g, a] : so[i].acc) {
                const auto it = so[j].acc.find(g);
                if (it == so[j].acc.end()) continue;
                const auto& b = it->second;
                conf.push_back(g);
                if ((a.wrote_plain && b.plain) || (b.wrote_plain && a.plain)) race = true;
            }
            // without any write the accesses do not conflict
            bool anyw = false;
            for (auto g : conf) {
                const auto &a = so[i].acc.at(g), &b = so[j].acc.at(g);
                if (a.wrote_plain || b.wrote_plain || a.atomic || b.atomic) anyw = true;
            }
            std::vector<std::uintptr_t> keep;
            if (anyw) {
                for (auto g : conf) {
                    const auto &a = so[i].acc.at(g), &b = so[j].acc.at(g);
                    if (a.wrote_plain || b.wrote_plain || a.atomic || b.atomic) keep.push_back(g);
                }
            }
            if (race && !so[i].sync && !so[j].sync) x.fail("data-race", "both calls access the same writable global without synchronization");
            const std::string want = so[i].result + "\x01" + so[j].result;
            std::string got;
            const auto one = [&](int first, int p, int q, int r) {
                ++x.schedules;
                x.tick();
                std::string g;
                if (keep.empty()) {
                    if (!pool) pool = new Two;
                    g = play(*pool, calls[i], calls[j], first, p, q, r);
                }
                else {
                    int st = 0;
                    g = in_child([&] {
                        sched::conflicts = keep;
                        auto* w = new Two;
                        return play(*w, calls[i], calls[j], first, p, q, r);
                    }, st);
                    if (st != 0) g = "?died with " + std::to_string(st);
                }
                if (g == "?blocked") return; // the schedule is not possible
                if (g != want) {
                    char b[100];
                    std::snprintf(b, sizeof b, "schedule: %s to %d, %s to %d, %s to %d", first ? "second" : "first", p, first ? "first" : "second", q,
                        first ? "second" : "first", r);
                    x.fail("interleaving-changes-result", b);
                }
            };
            const int P = keep.empty() ? (i == j || x.thorough ? 4 : 2) : x.thorough ? 24 : 9;
            for (int first = 0; first < 2; ++first)
                for (int p = 1; p <= P; ++p)
                    for (int q = 1; q <= P; ++q) {
                        one(first, p, q, 0);
                        if (x.thorough && keep.empty() && p < P) one(first, p, q, p + 1);
                    }
        }
    }
    // a call made from inside a flush callback of another
    x.set_family("nested");
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) {
            if (!x.begin("nested: " + std::to_string(j) + " " + describe(calls[j]).substr(0, 60) + " inside " + std::to_string(i) + " " + describe(calls[i]).substr(0, 60))) continue;
            x.nontrivial();
            const int K = std::min(so[i].flushes, x.thorough ? 12 : 3);
            for (int k = 1; k <= K; ++k) {
                ++x.schedules;
                x.tick();
                Runner outer, inner;
                outer.nested_at = k;
                outer.nested = [&] { inner.run(calls[j]); };
                outer.run(calls[i]);
                if (outer.result() != so[i].result) x.fail("nested-changes-outer", "flush " + std::to_string(k));
                if (inner.result() != so[j].result) x.fail("nested-changes-inner", "flush " + std::to_string(k));
            }
        }
}

} // namespace

int main(int argc, char** argv) { return mini_main(argc, argv, { { "interleave", chk_interleave } }); }
