// Bounded-exhaustive exploration engine: runs the real highlighter (through the public C API)
// on enumerated inputs, with guard-page memory and process isolation.
#pragma once
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "ulight/ulight.h"

namespace vx {

inline double now_s()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

// ------------------------------------------------------------------------------------------------
// Guard-page arena: the payload's last (tail mode) or first (head mode) byte touches an
// inaccessible page, so that any out-of-bounds access by even one byte faults.
class Guard_Arena {
    char* base = nullptr;
    std::size_t page = 4096;
    std::size_t room = 0;

public:
    explicit Guard_Arena(std::size_t bytes)
    {
        room = (bytes + page - 1) / page * page;
        base = static_cast<char*>(
            mmap(nullptr, room + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)
        );
        if (base == MAP_FAILED) {
            perror("mmap");
            _exit(3);
        }
        mprotect(base, page, PROT_NONE);
        mprotect(base + page + room, page, PROT_NONE);
    }
    std::size_t capacity() const { return room; }
    char* tail(std::size_t n) { return base + page + room - n; }
    char* head() { return base + page; }
};

struct Run_Config {
    int flags = 0;
    std::size_t token_cap = 64;
    bool head_aligned = false;
};

struct Run_Result {
    int status = -1;
    std::vector<ulight_token> tokens;
    std::vector<std::size_t> flushes;
    bool flush_args_ok = true;
    bool error_text = false;
};

// Bumped at the start of every run of the code under test (for hang detection).
inline volatile std::uint64_t* g_progress = nullptr;
inline void bump()
{
    if (g_progress) *g_progress = *g_progress + 1;
}

inline Guard_Arena& source_arena()
{
    static Guard_Arena a(4u << 20);
    return a;
}
inline Guard_Arena& token_arena()
{
    static Guard_Arena a(1u << 20);
    return a;
}
inline Guard_Arena& text_arena()
{
    static Guard_Arena a(1u << 20);
    return a;
}

struct Flush_Ctx {
    Run_Result* r;
    ulight_token* buf;
    std::size_t cap;
};

inline void collect_tokens(const void* d, ulight_token* t, std::size_t n)
{
    const auto* c = static_cast<const Flush_Ctx*>(d);
    if (t != c->buf || n == 0 || n > c->cap) {
        c->r->flush_args_ok = false;
        if (t != c->buf) {
            return;
        }
        if (n > c->cap) {
            n = c->cap;
        }
    }
    c->r->flushes.push_back(n);
    c->r->tokens.insert(c->r->tokens.end(), t, t + n);
}

inline void run_tokens(Run_Result& r, int lang, std::string_view src, const Run_Config& cfg)
{
    bump();
    r.tokens.clear();
    r.flushes.clear();
    r.flush_args_ok = true;
    char* s = cfg.head_aligned ? source_arena().head() : source_arena().tail(src.size());
    std::memcpy(s, src.data(), src.size());
    auto* tb = reinterpret_cast<ulight_token*>(
        token_arena().tail(cfg.token_cap * sizeof(ulight_token))
    );
    Flush_Ctx ctx { &r, tb, cfg.token_cap };
    ulight_state st;
    ulight_init(&st);
    st.source = s;
    st.source_length = src.size();
    st.lang = ulight_lang(lang);
    st.flags = ulight_flag(cfg.flags);
    st.token_buffer = tb;
    st.token_buffer_length = cfg.token_cap;
    st.flush_tokens_data = &ctx;
    st.flush_tokens = collect_tokens;
    r.status = ulight_source_to_tokens(&st);
    r.error_text = st.error != nullptr && st.error_length != 0;
}

// ------------------------------------------------------------------------------------------------
inline bool is_valid_utf8(std::string_view s)
{
    // Independent transcription of Unicode Table 3-7.
    std::size_t i = 0;
    const auto n = s.size();
    const auto b = [&](std::size_t k) { return static_cast<unsigned char>(s[k]); };
    const auto cont = [&](std::size_t k) { return k < n && (b(k) & 0xC0) == 0x80; };
    while (i < n) {
        const unsigned c = b(i);
        if (c < 0x80) {
            i += 1;
        }
        else if (c >= 0xC2 && c <= 0xDF) {
            if (!cont(i + 1)) return false;
            i += 2;
        }
        else if (c >= 0xE0 && c <= 0xEF) {
            if (!cont(i + 1) || !cont(i + 2)) return false;
            if (c == 0xE0 && b(i + 1) < 0xA0) return false;
            if (c == 0xED && b(i + 1) > 0x9F) return false;
            i += 3;
        }
        else if (c >= 0xF0 && c <= 0xF4) {
            if (!cont(i + 1) || !cont(i + 2) || !cont(i + 3)) return false;
            if (c == 0xF0 && b(i + 1) < 0x90) return false;
            if (c == 0xF4 && b(i + 1) > 0x8F) return false;
            i += 4;
        }
        else {
            return false;
        }
    }
    return true;
}

inline std::string hex(std::string_view s)
{
    static const char* d = "0123456789abcdef";
    std::string o;
    for (unsigned char c : s) {
        o += d[c >> 4];
        o += d[c & 15];
    }
    return o;
}
inline std::string unhex(std::string_view s)
{
    std::string o;
    const auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) {
        o += char(v(s[i]) * 16 + v(s[i + 1]));
    }
    return o;
}
inline std::string printable(std::string_view s)
{
    std::string o;
    char buf[8];
    for (unsigned char c : s) {
        if (c == '\n') o += "\\n";
        else if (c == '\\') o += "\\\\";
        else if (c < 32 || c >= 127) {
            std::snprintf(buf, sizeof buf, "\\x%02x", c);
            o += buf;
        }
        else o += char(c);
    }
    return o;
}
inline std::string json_str(std::string_view s)
{
    std::string o = "\"";
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c >= 127) { std::snprintf(buf, sizeof buf, "\\u%04x", c); o += buf; }
        else o += char(c);
    }
    return o + "\"";
}
inline std::uint64_t fnv(std::string_view s, std::uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    h ^= h >> 29;
    h *= 0xBF58476D1CE4E5B9ull;
    h ^= h >> 32;
    return h;
}

// ------------------------------------------------------------------------------------------------
// Input spaces. A space is a finite, indexable list of byte strings (per language).
struct Space {
    int lang;
    std::string family;
    std::uint64_t count;
    std::function<void(std::uint64_t, std::string&)> get;
};

struct Lang_Data {
    int lang = 0;
    std::string name;
    std::vector<std::string> core; // curated lexemes
    std::vector<std::string> mini; // small curated subset for deep sequences
    std::vector<std::string> autos; // literals extracted from the sources
    std::vector<std::string> contexts; // construct openers
    std::vector<std::string> corpus; // sample documents
};

// File format (binary): records "tag lang hex\n"
inline std::map<int, Lang_Data> load_data(const char* path)
{
    std::map<int, Lang_Data> m;
    FILE* f = std::fopen(path, "r");
    if (!f) {
        std::perror(path);
        _exit(3);
    }
    char* line = nullptr;
    std::size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        char tag[32];
        int lang;
        int off = 0;
        if (std::sscanf(line, "%31s %d %n", tag, &lang, &off) < 2) continue;
        std::string h = line + off;
        while (!h.empty() && (h.back() == '\n' || h.back() == ' ')) h.pop_back();
        const std::string v = unhex(h);
        auto& d = m[lang];
        d.lang = lang;
        const std::string t = tag;
        if (t == "name") d.name = v;
        else if (t == "core") d.core.push_back(v);
        else if (t == "mini") d.mini.push_back(v);
        else if (t == "auto") d.autos.push_back(v);
        else if (t == "ctx") d.contexts.push_back(v);
        else if (t == "corpus") d.corpus.push_back(v);
    }
    std::free(line);
    std::fclose(f);
    return m;
}

// ------------------------------------------------------------------------------------------------
// Sharded execution with crash isolation.
struct Shared {
    static constexpr int max_workers = 64;
    struct Slot {
        volatile std::uint64_t space, index; // position being executed
        volatile std::uint64_t evaluations, distinct, nontrivial;
        volatile std::uint64_t progress;
        volatile int current_lang;
        volatile std::uint32_t current_len;
        char current[1 << 18];
    } slot[max_workers];
    volatile std::uint64_t nviol;
    volatile int crashes[64];
    volatile int stop;
};

struct Violation {
    int lang;
    std::string input; // bytes
    std::string kind; // short machine-readable class
    std::string detail;
};

} // namespace vx
