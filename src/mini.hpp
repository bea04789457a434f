// Small harness frame: enumerated, labelled cases; sharded over forked workers; a case that crashes
// or hangs is recorded, skipped, and the rest of the shard is run again without it.
//   BIN CHECK --tier T --out FILE --tmp DIR [--deadline S] [--workers N]
//   BIN CHECK --replay KEY          (exit 1 iff the violation KEY occurs again)
#pragma once
#include "engine.hpp"
#include <csetjmp>

namespace vx {

struct Mini_Shared {
    static constexpr int max_workers = 64;
    struct Slot {
        volatile std::uint64_t progress;
        volatile std::uint32_t len;
        char label[8192];
    } slot[max_workers];
};

/// Thrown out of a check when its time is used up; the run is then reported as capped.
struct Out_Of_Time { };

struct Ctx {
    bool thorough = false;
    double deadline = 1e9;
    int worker = 0, workers = 1;
    std::string tmp;
    Mini_Shared::Slot* slot = nullptr;
    std::set<std::string> skip;
    std::uint64_t cases = 0;
    std::uint64_t counter = 0, evaluations = 0, nontriv = 0;
    std::uint64_t states = 0, transitions = 0, traces = 0, schedules = 0, faults = 0;
    std::map<std::string, std::uint64_t> families;
    std::vector<std::string> samples;
    std::map<std::string, int> per_kind;
    struct V { std::string key, kind, text, detail; };
    std::vector<V> violations;
    std::string label, family;
    bool capped = false;
    double t0 = now_s();
    std::string only; // replay: report only this key
    std::string data; // the input data file, if the job asks for it

    bool matches(const std::string& l) const;
    void set_family(std::string f) { family = std::move(f); }
    /// Starts one case. Returns false if this worker must not run it.
    bool begin(std::string l)
    {
        if (only.empty() && counter++ % std::uint64_t(workers) != std::uint64_t(worker)) return false;
        return enter(std::move(l));
    }
    /// Starts a case that is not sharded by the counter (the caller shards).
    bool enter(std::string l)
    {
        if (!only.empty() && !matches(l)) {
            slot->progress = slot->progress + 1;
            return false;
        }
        if (capped || ((cases++ & 63) == 0 && now_s() - t0 > deadline)) {
            capped = true;
            throw Out_Of_Time {};
        }
        label = std::move(l);
        slot->progress = slot->progress + 1;
        slot->len = std::uint32_t(std::min(label.size(), sizeof slot->label));
        std::memcpy(slot->label, label.data(), slot->len);
        if (!skip.empty() && skip.count(label)) return false;
        ++evaluations;
        ++families[family];
        if (samples.size() < 8 && (evaluations & (evaluations - 1)) == 0) samples.push_back(label);
        return true;
    }
    void tick() { slot->progress = slot->progress + 1; }
    void nontrivial(std::uint64_t n = 1) { nontriv += n; }
    /// Counts further inputs decided by the current case.
    void bulk(std::uint64_t n)
    {
        if (now_s() - t0 > deadline) {
            capped = true;
            throw Out_Of_Time {};
        }
        evaluations += n;
        families[family] += n;
        slot->progress = slot->progress + 1;
    }
    bool wanted(const std::string& key) const;
    void fail(std::string kind, std::string detail)
    {
        if (!only.empty() && !wanted(kind + "/" + label)) return;
        if (++per_kind[kind] > 6) return;
        violations.push_back({ kind + "/" + label, kind, label, std::move(detail) });
    }
};

inline std::string key_escape(const std::string& s);
inline bool Ctx::matches(const std::string& l) const
{
    const std::string e = key_escape("/" + l);
    return e.size() >= 200 || (only.size() >= e.size() && only.compare(only.size() - e.size(), e.size(), e) == 0);
}
inline bool Ctx::wanted(const std::string& key) const { return key_escape(key) == only; }
inline std::string key_escape(const std::string& s)
{
    std::string o;
    char b[8];
    for (unsigned char c : s) {
        if (c <= 32 || c >= 127 || c == '%') {
            std::snprintf(b, sizeof b, "%%%02x", c);
            o += b;
        }
        else o += char(c);
    }
    if (o.size() > 400) {
        std::snprintf(b, sizeof b, "~");
        o = o.substr(0, 300) + b + hex(std::to_string(fnv(s)));
    }
    return o;
}

inline Mini_Shared::Slot* m_slot = nullptr;
inline std::uint64_t m_last = 0;
inline int m_stuck = 0;
inline void m_vtalrm(int)
{
    static const int limit = std::getenv("VX_HANG_TICKS") ? std::atoi(std::getenv("VX_HANG_TICKS")) : 6;
    if (m_slot->progress == m_last) {
        if (++m_stuck >= limit) _exit(77);
    }
    else {
        m_stuck = 0;
        m_last = m_slot->progress;
    }
}

struct Mini_Check {
    const char* name;
    void (*fn)(Ctx&);
    bool parallel = true;
};

inline int mini_main(int argc, char** argv, const std::vector<Mini_Check>& checks)
{
    if (argc < 2) return 3;
    const Mini_Check* c = nullptr;
    for (const auto& k : checks)
        if (std::string(argv[1]) == k.name) c = &k;
    if (!c) {
        std::fprintf(stderr, "unknown check %s\n", argv[1]);
        return 3;
    }
    std::string out, tmp = "/tmp", tier = "quick", replay, data;
    double deadline = 1e9;
    int workers = int(sysconf(_SC_NPROCESSORS_ONLN));
    for (int i = 2; i + 1 < argc; ++i) {
        const std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--tmp") tmp = argv[++i];
        else if (a == "--tier") tier = argv[++i];
        else if (a == "--deadline") deadline = std::atof(argv[++i]);
        else if (a == "--workers") workers = std::atoi(argv[++i]);
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--data") data = argv[++i];
    }
    if (!c->parallel || !replay.empty()) workers = 1;
    if (workers > Mini_Shared::max_workers) workers = Mini_Shared::max_workers;
    char own[] = "/tmp/vx-mini-XXXXXX";
    bool made = false;
    if (tmp == "/tmp") {
        if (!mkdtemp(own)) return 3;
        tmp = own;
        made = true;
    }
    auto* sh = static_cast<Mini_Shared*>(
        mmap(nullptr, sizeof(Mini_Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pids(workers);
    std::vector<std::set<std::string>> skip(workers);
    std::vector<Ctx::V> crashes;
    const double t0 = now_s();
    const auto path = [&](int w) { return tmp + "/mini." + std::to_string(w); };
    const auto start = [&](int w) {
        std::fflush(stdout);
        std::fflush(stderr);
        const pid_t p = fork();
        if (p) {
            pids[w] = p;
            return;
        }
        Ctx x;
        x.thorough = tier == "thorough";
        x.deadline = deadline - (now_s() - t0);
        x.worker = w;
        x.workers = workers;
        x.tmp = tmp;
        x.slot = &sh->slot[w];
        x.skip = skip[w];
        x.only = replay;
        x.data = data;
        m_slot = x.slot;
        struct sigaction sa { };
        sa.sa_handler = m_vtalrm;
        sigaction(SIGVTALRM, &sa, nullptr);
        itimerval tv { { 1, 500000 }, { 1, 500000 } };
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        try {
            c->fn(x);
        } catch (const Out_Of_Time&) {
        }
        itimerval off { };
        setitimer(ITIMER_VIRTUAL, &off, nullptr);
        FILE* f = std::fopen(path(w).c_str(), "w");
        std::fprintf(f, "T %llu %llu %llu %llu %llu %llu %llu %d\n", (unsigned long long)x.evaluations, (unsigned long long)x.nontriv,
            (unsigned long long)x.states, (unsigned long long)x.transitions, (unsigned long long)x.traces,
            (unsigned long long)x.schedules, (unsigned long long)x.faults, int(x.capped));
        for (const auto& [k, n] : x.families) std::fprintf(f, "F %llu %s\n", (unsigned long long)n, hex(k).c_str());
        for (const auto& s : x.samples) std::fprintf(f, "S %s\n", hex(s.substr(0, 300)).c_str());
        for (const auto& v : x.violations)
            std::fprintf(f, "V %s. %s. %s. %s.\n", hex(v.key).c_str(), hex(v.kind).c_str(), hex(v.text).c_str(), hex(v.detail).c_str());
        std::fclose(f);
        _exit(0);
    };
    for (int w = 0; w < workers; ++w) {
        ::unlink(path(w).c_str());
        start(w);
    }
    int live = workers, ncrash = 0;
    bool capped = false;
    while (live > 0) {
        int st = 0;
        const pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        int w = -1;
        for (int k = 0; k < workers; ++k)
            if (pids[k] == p) w = k;
        if (w < 0) continue;
        pids[w] = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            --live;
            continue;
        }
        const std::string label(const_cast<const char*>(sh->slot[w].label), sh->slot[w].len);
        const std::string kind = WIFEXITED(st) && WEXITSTATUS(st) == 77 ? "hang"
            : WIFSIGNALED(st) ? "crash-signal-" + std::to_string(WTERMSIG(st)) : "exit-" + std::to_string(WEXITSTATUS(st));
        crashes.push_back({ kind + "/" + label, kind, label, "the process died while executing this case" });
        skip[w].insert(label);
        if (++ncrash > 16) {
            --live;
            capped = true;
            continue;
        }
        start(w);
    }
    std::uint64_t tot[7] = {};
    std::map<std::string, std::uint64_t> fam;
    std::vector<std::string> samples;
    std::vector<Ctx::V> vio = crashes;
    for (int w = 0; w < workers; ++w) {
        FILE* f = std::fopen(path(w).c_str(), "r");
        if (!f) continue;
        char* line = nullptr;
        std::size_t cap = 0;
        while (getline(&line, &cap, f) > 0) {
            std::string s = line;
            while (!s.empty() && s.back() == '\n') s.pop_back();
            if (s[0] == 'T') {
                unsigned long long a[7];
                int cp = 0;
                std::sscanf(s.c_str() + 2, "%llu %llu %llu %llu %llu %llu %llu %d", a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, &cp);
                for (int k = 0; k < 7; ++k) tot[k] += a[k];
                capped |= cp != 0;
            }
            else if (s[0] == 'F') {
                const auto sp = s.find(' ', 2);
                fam[unhex(s.substr(sp + 1))] += std::strtoull(s.c_str() + 2, nullptr, 10);
            }
            else if (s[0] == 'S') samples.push_back(unhex(s.substr(2)));
            else if (s[0] == 'V') {
                std::vector<std::string> p;
                std::string cur;
                for (std::size_t i = 2; i < s.size(); ++i) {
                    if (s[i] == '.') {
                        p.push_back(unhex(cur));
                        cur.clear();
                        ++i;
                    }
                    else cur += s[i];
                }
                if (p.size() == 4) vio.push_back({ p[0], p[1], p[2], p[3] });
            }
        }
        std::free(line);
        std::fclose(f);
        ::unlink(path(w).c_str());
    }
    if (made) ::rmdir(tmp.c_str());
    if (!replay.empty()) {
        for (const auto& v : vio) {
            if (key_escape(v.key) == replay) {
                std::printf("%s: %s\n%s\n", v.kind.c_str(), printable(v.text).c_str(), printable(v.detail).c_str());
                return 1;
            }
        }
        return 0;
    }
    for (const auto& v : vio) std::printf("FAIL %s: %s | %s\n", v.kind.c_str(), printable(v.text.substr(0, 400)).c_str(), printable(v.detail.substr(0, 600)).c_str());
    std::printf("evaluations=%llu nontrivial=%llu violations=%zu wall=%.1f capped=%d\n", (unsigned long long)tot[0], (unsigned long long)tot[1],
        vio.size(), now_s() - t0, capped);
    if (!out.empty()) {
        FILE* f = std::fopen(out.c_str(), "w");
        std::fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"capped\":%s", (unsigned long long)tot[0], (unsigned long long)tot[1], capped ? "true" : "false");
        const char* names[] = { "states", "transitions", "traces_validated_against_impl", "schedules", "fault_points" };
        for (int k = 0; k < 5; ++k)
            if (tot[2 + k]) std::fprintf(f, ",\"%s\":%llu", names[k], (unsigned long long)tot[2 + k]);
        std::fprintf(f, ",\n\"families\":{");
        bool first = true;
        for (const auto& [k, n] : fam) {
            std::fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(k).c_str(), (unsigned long long)n);
            first = false;
        }
        std::fprintf(f, "},\n\"samples\":[");
        for (std::size_t i = 0, n = 0; i < samples.size() && n < 8; i += samples.size() / 8 + 1, ++n)
            std::fprintf(f, "%s%s", n ? "," : "", json_str(printable(samples[i])).c_str());
        std::fprintf(f, "],\n\"violations\":[");
        first = true;
        for (const auto& v : vio) {
            std::fprintf(f, "%s\n{\"key\":%s,\"kind\":%s,\"text\":%s,\"detail\":%s,\"replay\":[%s]}", first ? "" : ",", json_str(key_escape(v.key)).c_str(),
                json_str(v.kind).c_str(), json_str(printable(v.text)).c_str(), json_str(printable(v.detail)).c_str(), json_str(key_escape(v.key)).c_str());
            first = false;
        }
        std::fprintf(f, "]}\n");
        std::fclose(f);
    }
    return vio.empty() ? 0 : 1;
}

} // namespace vx
