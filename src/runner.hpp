// Sharded, crash-isolated, de-duplicating driver over a list of Spaces.
#pragma once
#include "engine.hpp"

namespace vx {

struct Reporter {
    Shared::Slot* slot;
    Shared* sh;
    FILE* out;
    std::map<std::string, int> per_kind;
    void violation(int lang, std::string_view input, std::string_view kind, std::string_view detail)
    {
        const std::string k = std::to_string(lang) + "/" + std::string(kind);
        if (++per_kind[k] > 5) {
            return;
        }
        __sync_fetch_and_add(&sh->nviol, 1);
        std::fprintf(out, "%d %s %s %s\n", lang, std::string(kind).c_str(),
            input.empty() ? "-" : hex(input).c_str(), printable(detail).c_str());
        std::fflush(out);
    }
    void nontrivial() { slot->nontrivial = slot->nontrivial + 1; }
};

using Check_Fn = std::function<void(int lang, const std::string& input, Reporter&)>;

struct Run_Totals {
    std::uint64_t generated = 0, evaluations = 0, distinct = 0, nontrivial = 0;
    std::vector<Violation> violations;
    std::map<std::string, std::uint64_t> by_family;
    bool capped = false;
};

inline Shared::Slot* g_slot = nullptr;
inline std::uint64_t g_last_progress = 0;
inline int g_stuck = 0;
inline int g_stuck_limit = std::getenv("VX_HANG_TICKS") ? std::atoi(std::getenv("VX_HANG_TICKS")) : 4;
inline void on_vtalrm(int)
{
    if (g_slot->progress == g_last_progress) {
        if (++g_stuck >= g_stuck_limit) {
            _exit(77);
        }
    }
    else {
        g_stuck = 0;
        g_last_progress = g_slot->progress;
    }
}

inline Run_Totals run_spaces(
    const std::vector<Space>& spaces,
    int workers,
    const Check_Fn& check,
    const std::string& tmpdir,
    double deadline_s // stop generating after this many seconds (reported as capped)
)
{
    Run_Totals totals;
    auto* sh = static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)
    );
    std::vector<pid_t> pids(workers, 0);
    const double t0 = now_s();
    const auto start = [&](int w, std::uint64_t s0, std::uint64_t i0) {
        std::fflush(stdout);
        std::fflush(stderr);
        const pid_t p = fork();
        if (p != 0) {
            pids[w] = p;
            return;
        }
        auto* slot = &sh->slot[w];
        g_slot = slot;
        g_progress = &slot->progress;
        Reporter rep { slot, sh, std::fopen((tmpdir + "/viol." + std::to_string(w)).c_str(), "a"), {} };
        struct sigaction sa { };
        sa.sa_handler = on_vtalrm;
        sigaction(SIGVTALRM, &sa, nullptr);
        itimerval tv { { 1, 500000 }, { 1, 500000 } };
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        std::unordered_set<std::uint64_t> seen;
        int seen_lang = -1;
        std::string buf;
        for (std::uint64_t s = s0; s < spaces.size(); ++s) {
            const auto& sp = spaces[s];
            if (sp.lang != seen_lang) {
                seen.clear();
                seen_lang = sp.lang;
            }
            slot->space = s;
            if (sh->crashes[sp.lang & 63] >= 4) continue;
            for (std::uint64_t i = s == s0 ? i0 : 0; i < sp.count; ++i) {
                buf.clear();
                sp.get(i, buf);
                const std::uint64_t h = fnv(buf, 1469598103934665603ull ^ std::uint64_t(sp.lang));
                if (h % std::uint64_t(workers) != std::uint64_t(w)) continue;
                if (!seen.insert(h).second) continue;
                slot->index = i;
                slot->distinct = slot->distinct + 1;
                slot->current_lang = sp.lang;
                slot->current_len = std::uint32_t(buf.size());
                std::memcpy(slot->current, buf.data(), std::min(buf.size(), sizeof slot->current));
                slot->progress = slot->progress + 1;
                check(sp.lang, buf, rep);
                slot->evaluations = slot->evaluations + 1;
                if ((i & 255) == 0 && now_s() - t0 > deadline_s) {
                    _exit(78);
                }
            }
        }
        _exit(0);
    };
    for (int w = 0; w < workers; ++w) {
        ::unlink((tmpdir + "/viol." + std::to_string(w)).c_str());
        start(w, 0, 0);
    }
    int live = workers;
    int crashes = 0;
    while (live > 0) {
        int st = 0;
        const pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        int w = -1;
        for (int k = 0; k < workers; ++k) {
            if (pids[k] == p) w = k;
        }
        if (w < 0) continue;
        pids[w] = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            --live;
            continue;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 78) {
            totals.capped = true;
            --live;
            continue;
        }
        const auto& sl = sh->slot[w];
        Violation v;
        v.lang = sl.current_lang;
        v.input.assign(const_cast<const char*>(sl.current), std::min<std::size_t>(sl.current_len, sizeof sl.current));
        v.kind = WIFEXITED(st) && WEXITSTATUS(st) == 77 ? "hang"
            : WIFSIGNALED(st)                           ? "crash-signal-" + std::to_string(WTERMSIG(st))
                                                        : "exit-" + std::to_string(WEXITSTATUS(st));
        v.detail = "process died while executing this input";
        totals.violations.push_back(v);
        // A language that keeps dying is abandoned (its violations are already recorded).
        sh->crashes[v.lang & 63] = sh->crashes[v.lang & 63] + 1;
        if (++crashes > 100) {
            --live;
            totals.capped = true;
            continue;
        }
        if (sh->crashes[v.lang & 63] >= 4) {
            totals.capped = true;
            std::uint64_t s = sl.space;
            while (s < spaces.size() && spaces[s].lang == v.lang) ++s;
            start(w, s, 0);
        }
        else start(w, sl.space, sl.index + 1);
    }
    for (int w = 0; w < workers; ++w) {
        totals.evaluations += sh->slot[w].evaluations;
        totals.distinct += sh->slot[w].distinct;
        totals.nontrivial += sh->slot[w].nontrivial;
        FILE* f = std::fopen((tmpdir + "/viol." + std::to_string(w)).c_str(), "r");
        if (!f) continue;
        char* line = nullptr;
        std::size_t cap = 0;
        while (getline(&line, &cap, f) > 0) {
            std::string s = line;
            while (!s.empty() && s.back() == '\n') s.pop_back();
            Violation v;
            const auto a = s.find(' ');
            const auto b = s.find(' ', a + 1);
            const auto c = s.find(' ', b + 1);
            v.lang = std::atoi(s.c_str());
            v.kind = s.substr(a + 1, b - a - 1);
            v.input = unhex(s.substr(b + 1, c - b - 1));
            if (s.substr(b + 1, c - b - 1) == "-") v.input.clear();
            v.detail = s.substr(c + 1);
            totals.violations.push_back(v);
        }
        std::free(line);
        std::fclose(f);
        ::unlink((tmpdir + "/viol." + std::to_string(w)).c_str());
    }
    for (const auto& sp : spaces) {
        totals.generated += sp.count;
        totals.by_family[sp.family] += sp.count;
    }
    munmap(sh, sizeof(Shared));
    return totals;
}

} // namespace vx
