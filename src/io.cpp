// File handles, file loading and the command-line program under scripted reads, writes and faults.
// fopen and fclose are wrapped: a scripted path yields a stream whose reads and writes follow the script.
#include "mini.hpp"

#include <cstdarg>
#include <fcntl.h>
#include <optional>
#include <sys/stat.h>
#include <utility>

#include "ulight/impl/io.hpp"
#include "ulight/ulight.hpp"

int vx_cli_main(int argc, const char** argv);

using namespace vx;

extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" int __real_fclose(FILE*);

namespace {

constexpr std::size_t shared_max = 1 << 20;
// Shared between a forked run and the explorer.
struct Shared_Io {
    int opens, closes, double_closes, unknown_closes, reads, writes, fault_hit, path_ok, mode_ok, close_of_null;
    std::size_t out_len;
    char out[shared_max];
};
Shared_Io* io;

struct Script {
    // reading
    std::string content;
    std::size_t chunk = 0; // at most this many bytes per read (0: as asked)
    int read_error_at = -1; // this read fails
    bool fail_open = false;
    std::string expect_path;
    // writing
    int write_error_at = -1;
    std::size_t write_chunk = 0;
    bool fail_close = false;
    bool active_read = false, active_write = false;
};
Script script;
std::size_t read_pos;
std::set<FILE*> open_files, closed_files;
bool track;

ssize_t do_read(void*, char* buf, size_t n)
{
    const int k = io->reads++;
    if (k == script.read_error_at) {
        io->fault_hit = 1;
        errno = EIO;
        return -1;
    }
    std::size_t m = std::min(n, script.content.size() - read_pos);
    if (script.chunk) m = std::min(m, script.chunk);
    std::memcpy(buf, script.content.data() + read_pos, m);
    read_pos += m;
    return ssize_t(m);
}

ssize_t do_write(void*, const char* buf, size_t n)
{
    const int k = io->writes++;
    if (script.write_error_at >= 0 && k >= script.write_error_at) { // a full disk stays full
        io->fault_hit = 1;
        errno = ENOSPC;
        return 0;
    }
    std::size_t m = n;
    if (script.write_chunk) m = std::min(m, script.write_chunk);
    m = std::min(m, shared_max - io->out_len);
    std::memcpy(io->out + io->out_len, buf, m);
    io->out_len += m;
    return ssize_t(m);
}

int do_close(void*)
{
    if (script.fail_close) {
        io->fault_hit = 1;
        errno = EIO;
        return -1;
    }
    return 0;
}

FILE* scripted(const char* mode)
{
    cookie_io_functions_t f { do_read, do_write, nullptr, do_close };
    return fopencookie(nullptr, mode, f);
}

} // namespace

extern "C" FILE* __wrap_fopen(const char* path, const char* mode)
{
    if (!track) return __real_fopen(path, mode);
    FILE* r = nullptr;
    const bool reading = mode[0] == 'r';
    if (reading && script.active_read) {
        io->path_ok = strnlen(path, script.expect_path.size() + 1) == script.expect_path.size()
            && std::memcmp(path, script.expect_path.data(), script.expect_path.size()) == 0;
        if (script.fail_open) {
            errno = ENOENT;
            io->fault_hit = 1;
            return nullptr;
        }
        read_pos = 0;
        r = scripted("r");
    }
    else if (!reading && script.active_write) r = scripted("w");
    else r = __real_fopen(path, mode);
    if (r) {
        ++io->opens;
        open_files.insert(r);
        closed_files.erase(r);
    }
    return r;
}

extern "C" int __wrap_fclose(FILE* f)
{
    if (!track) return __real_fclose(f);
    if (!f) {
        ++io->close_of_null;
        return EOF;
    }
    if (open_files.erase(f)) {
        ++io->closes;
        closed_files.insert(f);
        return __real_fclose(f);
    }
    if (closed_files.count(f)) {
        ++io->double_closes;
        return EOF; // not passed on: closing twice is undefined
    }
    return __real_fclose(f);
}

namespace {

void reset()
{
    std::memset(io, 0, offsetof(Shared_Io, out));
    script = {};
    open_files.clear();
    closed_files.clear();
    read_pos = 0;
}

void map_shared()
{
    if (!io)
        io = static_cast<Shared_Io*>(mmap(nullptr, sizeof(Shared_Io), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    reset();
}

// ------------------------------------------------------------------------------------------------
// The owner of a file: all histories over three owners.
using ulight::Unique_File;

void owner_history(Ctx& x, const std::vector<int>& ops)
{
    reset();
    track = true;
    std::vector<FILE*> released;
    int files = 0;
    const char* bad = nullptr;
    {
        std::optional<Unique_File> slot[3];
        FILE* model[3] = {};
        const auto fresh = [&] {
            ++files;
            FILE* f = fopen("/dev/null", "r");
            return f;
        };
        std::set<FILE*> owned;
        for (const int op : ops) {
            const int kind = op / 9, a = op / 3 % 3, b = op % 3;
            switch (kind) {
            case 0: // construct from a new file (b: 0), from nothing (1), by fopen_unique (2)
                slot[a].reset();
                model[a] = nullptr;
                if (b == 0) model[a] = slot[a].emplace(fresh()).get();
                else if (b == 1) slot[a].emplace();
                else {
                    ++files;
                    slot[a].emplace(ulight::fopen_unique("/dev/null", "r"));
                    model[a] = slot[a]->get();
                    if (!model[a]) bad = "fopen_unique returned nothing";
                }
                break;
            case 1: // move construction
                if (a == b || !slot[b]) break;
                slot[a].emplace(std::move(*slot[b]));
                model[a] = model[b];
                model[b] = nullptr;
                break;
            case 2: // move assignment (self-assignment keeps or closes the file)
                if (!slot[a] || !slot[b]) break;
                if (a == b) {
                    Unique_File& self = *slot[a];
                    *slot[a] = std::move(self);
                    model[a] = slot[a]->get();
                    break;
                }
                *slot[a] = std::move(*slot[b]);
                model[a] = model[b];
                model[b] = nullptr;
                break;
            case 3:
                if (!slot[a] || !slot[b]) break;
                swap(*slot[a], *slot[b]);
                std::swap(model[a], model[b]);
                break;
            case 4: // release, close or destroy
                if (!slot[a]) break;
                if (b == 0) {
                    FILE* f = slot[a]->release();
                    if (f != model[a]) bad = "release returned another file";
                    if (f) released.push_back(f);
                }
                else if (b == 1) slot[a]->close();
                else slot[a].reset();
                model[a] = nullptr;
                break;
            }
            for (int k = 0; k < 3; ++k) {
                if (!slot[k]) continue;
                if (slot[k]->get() != model[k]) bad = "an owner refers to a wrong file";
                if (bool(*slot[k]) != (model[k] != nullptr)) bad = "wrong emptiness of an owner";
                if (model[k] && !open_files.count(model[k])) bad = "an owner refers to a closed file";
            }
            // Every open file is owned or was released.
            if (open_files.size() != std::size_t((model[0] != nullptr) + (model[1] != nullptr) + (model[2] != nullptr)) + released.size())
                bad = "an open file has no owner, or was closed too early";
            if (bad) break;
        }
    }
    if (io->double_closes) bad = "a file is closed twice";
    if (io->close_of_null) bad = "fclose of a null pointer";
    for (FILE* f : released)
        if (!open_files.count(f)) bad = "a released file is closed";
    if (!bad && open_files.size() != released.size()) bad = "a file is never closed";
    for (FILE* f : open_files) __real_fclose(f);
    open_files.clear();
    track = false;
    x.transitions += ops.size();
    if (files) x.nontrivial();
    if (bad) x.fail("owner", bad);
}

void owner(Ctx& x)
{
    map_shared();
    x.set_family("histories");
    // All histories over two owners, shorter ones over three.
    const auto run = [&](int slots, int depth) {
        std::vector<int> ops;
        for (int op = 0; op < 45; ++op) {
            const int kind = op / 9, a = op / 3 % 3, b = op % 3;
            if (a >= slots) continue;
            if ((kind == 1 || kind == 2 || kind == 3) && b >= slots) continue;
            if (kind == 1 && a == b) continue;
            ops.push_back(op);
        }
        for (int len = 1; len <= depth; ++len) {
            std::uint64_t count = 1;
            for (int k = 0; k < len; ++k) count *= ops.size();
            for (std::uint64_t n = 0; n < count; ++n) {
                std::vector<int> h;
                std::string label = std::to_string(slots);
                std::uint64_t m = n;
                for (int k = 0; k < len; ++k, m /= ops.size()) {
                    h.push_back(ops[m % ops.size()]);
                    label += " " + std::to_string(h.back());
                }
                if (!x.begin(label)) continue;
                owner_history(x, h);
            }
        }
    };
    run(1, x.thorough ? 6 : 5);
    run(2, x.thorough ? 5 : 4);
    run(3, x.thorough ? 4 : 3);
}

// ------------------------------------------------------------------------------------------------
// Loading files.
struct Content {
    std::string name, bytes;
    bool utf8;
};

std::vector<Content> contents()
{
    std::vector<Content> r;
    const std::size_t B = BUFSIZ;
    r.push_back({ "empty", "", true });
    r.push_back({ "a", "a", true });
    r.push_back({ "nul", std::string("x\0y", 3), true });
    r.push_back({ "bad", "ab\xff", false });
    r.push_back({ "cut", "ab\xE2\x82", false });
    // Continuations without a beginning, which the existing contents of a vector may provide.
    r.push_back({ "rest2", "\xA9", false });
    r.push_back({ "rest2x", "\xA9xyz", false });
    r.push_back({ "rest3", "\xAC and text", false });
    r.push_back({ "rest4", "\x98\x80z", false });
    r.push_back({ "rest43", "\x9F\x98\x80", false });
    r.push_back({ "bom", "\xEF\xBB\xBFtext", true });
    r.push_back({ "restbom", "\xBFtext", false });
    r.push_back({ "all ascii", [] { std::string s; for (int c = 0; c < 128; ++c) s += char(c); return s; }(), true });
    for (std::size_t base : { B, 2 * B, 4 * B }) {
        for (int d = -4; d <= 4; ++d) {
            const std::size_t n = base + std::size_t(d);
            std::string s(n, 'a');
            for (std::size_t k = 0; k < n; ++k) s[k] = char('a' + k % 23);
            r.push_back({ "ascii" + std::to_string(n), s, true });
            // A four-byte character around the end of a block.
            if (n >= 4) {
                std::string t = s;
                t.replace(n - 4, 4, "\xF0\x9F\x98\x80");
                r.push_back({ "end" + std::to_string(n), t, true });
                t += "tail";
                r.push_back({ "tail" + std::to_string(n), t, true });
                t.pop_back();
                t.erase(n - 1, 1);
                r.push_back({ "lack" + std::to_string(n), t, false });
                r.push_back({ "cut" + std::to_string(n), s.substr(0, n - 3) + "\xF0\x9F\x98", false });
            }
        }
    }
    return r;
}

template <typename F>
void load_case(Ctx& x, F&& f)
{
    track = true;
    f();
    track = false;
    if (io->opens != io->closes || io->double_closes || io->close_of_null)
        x.fail("close", "opened " + std::to_string(io->opens) + " times, closed " + std::to_string(io->closes) + " times, again "
                + std::to_string(io->double_closes));
    for (FILE* f : open_files) __real_fclose(f);
    open_files.clear();
}

const char* error_name(ulight::IO_Error_Code e)
{
    switch (e) {
    case ulight::IO_Error_Code::cannot_open: return "cannot_open";
    case ulight::IO_Error_Code::read_error: return "read_error";
    case ulight::IO_Error_Code::write_error: return "write_error";
    case ulight::IO_Error_Code::corrupted: return "corrupted";
    }
    return "?";
}

void loading(Ctx& x)
{
    map_shared();
    using ulight::IO_Error_Code;
    const auto all = contents();
    // Expected: "" for success, else the name of the error.
    const auto run_all = [&](const std::string& path, const Content& c, std::size_t chunk, int error_at, bool fail_open) {
        const auto setup = [&] {
            reset();
            script.active_read = true;
            script.content = c.bytes;
            script.chunk = chunk;
            script.read_error_at = error_at;
            script.fail_open = fail_open;
            script.expect_path = path;
        };
        // The path is not terminated in memory.
        const std::string around = path + "XYZ";
        const std::string_view view(around.data(), path.size());
        const bool odd_path = path.size() >= BUFSIZ || path.find('\0') != path.npos || path.empty();
        // Existing contents of the vector; they are not text of the file.
        static const std::vector<std::string> prior { "kkkkk", "\xC3", "\xE2\x82", "\xF0\x9F", "\xF0", "\xFF", "\xEF\xBB", std::string("\0", 1) };
        const int modes = 3 + (chunk == 0 || c.bytes.size() < 100 ? int(prior.size()) : 1);
        for (int mode = 0; mode < modes; ++mode) {
            setup();
            std::string got_error;
            std::string got;
            bool ok = false, kept = true;
            load_case(x, [&] {
                if (mode == 0 || mode >= 3) {
                    std::vector<char8_t> out;
                    const std::string& first = prior[mode == 0 ? 0 : std::size_t(mode - 3)];
                    if (mode >= 3) out.assign(first.begin(), first.end());
                    const auto r = ulight::load_utf8_file(out, view);
                    ok = r.has_value();
                    if (!ok) got_error = error_name(r.error());
                    if (mode >= 3) {
                        kept = out.size() >= first.size() && std::equal(first.begin(), first.end(), out.begin(), [](char a, char8_t b) { return char8_t(a) == b; });
                        if (kept) got.assign(out.begin() + std::ptrdiff_t(first.size()), out.end());
                    }
                    else got.assign(out.begin(), out.end());
                }
                else if (mode == 1) {
                    const auto r = ulight::load_utf8_file(view);
                    ok = r.has_value();
                    if (ok) got.assign(r->begin(), r->end());
                    else got_error = error_name(r.error());
                }
                else {
                    const auto r = ulight::load_utf32le_file(view);
                    ok = r.has_value();
                    if (ok) got.assign(reinterpret_cast<const char*>(r->data()), r->size() * 4);
                    else got_error = error_name(r.error());
                }
            });
            std::string want_error;
            if (fail_open) want_error = "cannot_open";
            else if (odd_path && io->opens == 0) want_error = "cannot_open";
            else if (io->fault_hit) want_error = "read_error";
            else if (mode == 2 ? c.bytes.size() % 4 != 0 : !c.utf8) want_error = "corrupted";
            const std::string m = " (mode " + std::to_string(mode) + ")";
            if (io->opens && !io->path_ok) x.fail("path", "a file with another path is opened" + m);
            if (!kept) x.fail("append", "existing elements are lost" + m);
            if (ok != want_error.empty() || got_error != want_error)
                x.fail("result", "expected " + (want_error.empty() ? "success" : want_error) + ", got " + (ok ? "success" : got_error) + m);
            else if (ok && got != c.bytes) x.fail("content", "the content differs from the file" + m);
            if (!odd_path && !fail_open && io->opens != 1) x.fail("opens", "the file is not opened exactly once" + m);
            if (io->reads > 1 && mode == 0) x.nontrivial();
            if (io->fault_hit) ++x.faults;
        }
    };
    x.set_family("contents x read sizes");
    for (const auto& c : all) {
        for (std::size_t chunk : { std::size_t(0), std::size_t(1), std::size_t(7), std::size_t(4095), std::size_t(4096), std::size_t(8191) }) {
            if (chunk == 1 && c.bytes.size() > 2000 && !x.thorough && c.bytes.size() > 9000) continue;
            if (!x.begin(c.name + " chunk " + std::to_string(chunk))) continue;
            run_all("some/file.txt", c, chunk, -1, false);
        }
    }
    x.set_family("read errors");
    for (const auto& c : all) {
        for (std::size_t chunk : { std::size_t(0), std::size_t(1000), std::size_t(4096) }) {
            for (int at = 0; at < 12; ++at) {
                if (!x.begin(c.name + " chunk " + std::to_string(chunk) + " error at " + std::to_string(at))) continue;
                run_all("some/file.txt", c, chunk, at, false);
            }
        }
    }
    x.set_family("paths");
    std::vector<std::string> paths { "", "a", "dir/with space/\xC3\xA9.txt", std::string("a\0b", 3), std::string("ab\0", 3), std::string(255, 'p') };
    for (std::size_t n : { 1023, 1024, 4095, 4096, int(BUFSIZ) - 2, int(BUFSIZ) - 1, int(BUFSIZ), int(BUFSIZ) + 1, 3 * int(BUFSIZ) })
        paths.push_back(std::string(n, 'q'));
    for (std::size_t k = 0; k < paths.size(); ++k) {
        for (const bool fail_open : { false, true }) {
            if (!x.begin("path " + std::to_string(k) + (fail_open ? " fails" : ""))) continue;
            run_all(paths[k], all[1], 0, -1, fail_open);
            run_all(paths[k], all[6], 0, -1, fail_open);
        }
    }
    // Real files.
    x.set_family("real files");
    for (const auto& c : all) {
        if (!x.begin("real " + c.name)) continue;
        reset();
        const std::string path = x.tmp + "/vxio." + std::to_string(x.worker);
        FILE* f = __real_fopen(path.c_str(), "wb");
        std::fwrite(c.bytes.data(), 1, c.bytes.size(), f);
        __real_fclose(f);
        load_case(x, [&] {
            const auto r = ulight::load_utf8_file(path);
            if (r.has_value() != c.utf8) x.fail("real", "wrong result");
            else if (r && std::string(r->begin(), r->end()) != c.bytes) x.fail("real-content", "the content differs from the file");
        });
        ::unlink(path.c_str());
        x.nontrivial();
    }
    if (x.begin("real directory")) {
        reset();
        load_case(x, [&] {
            const auto r = ulight::load_utf8_file(x.tmp);
            if (r.has_value()) x.fail("directory", "a directory is loaded");
        });
    }
    if (x.begin("real missing")) {
        reset();
        load_case(x, [&] {
            const auto r = ulight::load_utf8_file(x.tmp + "/no such file");
            if (r.has_value() || r.error() != IO_Error_Code::cannot_open) x.fail("missing", "a missing file is loaded");
        });
    }
}

// ------------------------------------------------------------------------------------------------
// The command-line program.
struct Source {
    std::string name, path, text;
    bool utf8 = true;
};

std::string api_html(const std::string& text, const std::string& path, bool& ok)
{
    ulight::Token tokens[1024];
    static char buf[1 << 16];
    std::string out;
    ulight::State s;
    s.set_source(std::u8string_view(reinterpret_cast<const char8_t*>(text.data()), text.size()));
    s.set_lang(ulight::lang_from_path(path));
    s.set_token_buffer(tokens);
    s.set_text_buffer(buf);
    auto f = [&](char* p, std::size_t n) { out.append(p, n); };
    s.on_flush_text(f);
    ok = s.source_to_html() == ulight::Status::ok;
    return out;
}

struct Run {
    std::vector<std::string> args;
    bool to_stdout = true;
};

int run_cli(Ctx& x, const Run& r, std::string& err)
{
    const std::string err_path = x.tmp + "/vxerr." + std::to_string(x.worker);
    std::fflush(nullptr);
    const pid_t p = fork();
    if (p == 0) {
        const int e = ::open(err_path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        ::dup2(e, 2);
        const int null = ::open("/dev/null", O_WRONLY);
        ::dup2(null, 1);
        if (script.active_write && r.to_stdout) stdout = scripted("w");
        track = true;
        alarm(20);
        std::vector<const char*> argv;
        for (const auto& a : r.args) argv.push_back(a.c_str());
        argv.push_back(nullptr);
        const int rc = vx_cli_main(int(r.args.size()), argv.data());
        // What returning from main does.
        exit(rc);
    }
    int st = 0;
    waitpid(p, &st, 0);
    err.clear();
    if (FILE* f = __real_fopen(err_path.c_str(), "rb")) {
        char b[4096];
        std::size_t n;
        while ((n = std::fread(b, 1, sizeof b, f)) > 0) err.append(b, n);
        __real_fclose(f);
    }
    ::unlink(err_path.c_str());
    if (!WIFEXITED(st)) return -1;
    return WEXITSTATUS(st);
}

void cli(Ctx& x)
{
    map_shared();
    std::vector<Source> sources;
    const auto add = [&](std::string name, std::string path, std::string text, bool utf8 = true) { sources.push_back({ name, path, text, utf8 }); };
    add("empty", "a.cpp", "");
    add("cpp", "dir.x/main.cpp", "int x = 0; // <&>\n");
    add("json", "a.json", "{\"a\":[1,true,null,\"\\n\"]}");
    add("html", "x/y.html", "<p class=\"a\">&amp;<script>let x = `a${1}`;</script>");
    add("yaml", "a.yaml", "a: [1, 2]\nb: |\n  text\n");
    add("txt", "a.txt", "plain <text> & more");
    add("no-newline-crlf", "q.lua", "x = 1\r\n--c\r\n");
    add("bad", "a.cpp", "int \xff;", false);
    add("bad2", "a.txt", "\xC3", false);
    {
        std::string big;
        for (int k = 0; k < 4000; ++k) big += "x" + std::to_string(k) + " = '<&'\n";
        add("big", "big.py", big);
        add("bigtxt", "big.txt", std::string(70000, '<'));
    }
    add("nul", "a.txt", std::string("a\0b\0", 4));
    add("nul code", "a.cpp", std::string("int a\0b = \"\0\"; // \0 c\n\0", 25));
    {
        std::string ascii, big;
        for (int c = 0; c < 128; ++c) ascii += char(c);
        for (int k = 0; k < 600; ++k) big += ascii;
        add("ascii", "a.txt", ascii);
        add("big ascii", "a.txt", big);
        add("non-ascii", "a.txt", "\xC3\xA4\xE2\x82\xAC\xF0\x9F\x98\x80\xEF\xBB\xBF");
        add("bom", "a.cpp", "\xEF\xBB\xBFint x;");
    }
    const std::size_t faulty = sources.size() + 2;
    // Texts of up to two odd characters.
    static const std::vector<std::string> odd { std::string("\0", 1), "\t", "\n", "\r", "\x1a", "\x7f", "<", "&", "\"", "'", " ", "a", "\xC3\xA4" };
    const auto add_odd = [&] {
        for (const auto& a : odd) {
            add("odd " + printable(a), "a.txt", a);
            for (const auto& b : odd) add("odd " + printable(a + b), "a.txt", a + b);
        }
        for (const char* name : { "a.c", "a.h", "a.hpp", "a.js", "a.ts", "a.css", "a.xml", "a.svg", "a.tex", "a.asm", "a.ebnf", "a.py", "a.kt", "a.rs", "a.ll", "a.md", "a.java", "a.yml", "a.sh", "a.diff", "a.cow", "a.jsonc", "a.b.c.json", ".json", "json", "a.", "" })
            add(std::string("name ") + name, name, std::string("int a = \"<\"; // &\0\n# b 'c'\n", 29));
    };
    add("unknown", "a.unknownext", "text");
    add("no-extension", "Makefile", "text");
    add_odd();
    for (const auto& s : sources) {
        const bool known = ulight::lang_from_path(s.path) != ulight::Lang::none;
        bool api_ok = false;
        std::string want;
        if (known && s.utf8) want = api_html(s.text, s.path, api_ok);
        for (int target = 0; target < 2; ++target) { // standard output, file
            // fault: 0 none, 1 input cannot be opened, 2.. read error, 10.. write error at k, 90 close error, 91 output cannot be opened
            std::vector<int> faults { 0, 1, 2, 3, 4, 10, 11, 12, 13, 14, 16, 18, 20, 24, 28, 34, 42, 50, 90, 91 };
            if (std::size_t(&s - sources.data()) >= faulty) faults = { 0 };
            for (const int fault : faults) {
                for (const std::size_t chunk : { std::size_t(0), std::size_t(1000) }) {
                    if (chunk && s.text.size() < 1000) continue;
                    x.set_family(fault == 0 ? "runs" : "faults");
                    if (fault == 91 && target == 0) continue;
                    if (!x.begin(s.name + (target ? " file" : " stdout") + " fault " + std::to_string(fault) + " chunk " + std::to_string(chunk))) continue;
                    reset();
                    script.active_read = true;
                    script.active_write = fault != 91;
                    script.content = s.text;
                    script.expect_path = s.path;
                    script.chunk = chunk;
                    if (fault == 1) script.fail_open = true;
                    else if (fault >= 2 && fault < 10) script.read_error_at = fault - 2;
                    else if (fault >= 10 && fault < 90) script.write_error_at = fault - 10;
                    else if (fault == 90) script.fail_close = true;
                    Run r;
                    r.args = { "ulight-cli", s.path };
                    if (target) {
                        r.to_stdout = false;
                        r.args.push_back(fault == 91 ? x.tmp + "/no/such/dir/out.html" : x.tmp + "/never-created.html");
                    }
                    std::string err;
                    const int rc = run_cli(x, r, err);
                    const std::string out(io->out, io->out_len);
                    if (rc < 0) {
                        x.fail("crash", "the program died");
                        continue;
                    }
                    if (io->double_closes || io->close_of_null) x.fail("double-close", "a file is closed twice");
                    if (io->opens && !io->path_ok && known) x.fail("path", "another file is opened");
                    const bool fault_hit = io->fault_hit != 0;
                    const bool read_fault = fault_hit && fault < 10;
                    const bool late_fault = fault_hit && (fault >= 10); // output could not be written completely
                    const bool bad_input = !known || !s.utf8 || read_fault || fault == 91;
                    if (fault_hit) ++x.faults;
                    if (bad_input) {
                        if (rc == 0) x.fail("status", "status 0 although the input or output cannot be used");
                        if (err.empty()) x.fail("message", "no error message");
                        if (!out.empty()) x.fail("output", "output is written although there is no result");
                        if (!err.empty() && rc != 0) x.nontrivial();
                        continue;
                    }
                    if (late_fault) {
                        // A failing close of standard output at exit cannot be reported by the program itself.
                        if (rc == 0 && !(fault == 90)) x.fail("write-status", "status 0 although the output is incomplete");
                        if (rc != 0 && err.empty()) x.fail("write-message", "no error message");
                        if (fault != 90 && want.compare(0, out.size(), out) != 0) x.fail("write-output", "the partial output is not a prefix of the result");
                        x.nontrivial();
                        continue;
                    }
                    if (!api_ok) {
                        if (rc == 0) x.fail("status", "status 0 although highlighting failed");
                        continue;
                    }
                    if (rc != 0) x.fail("status", "status " + std::to_string(rc) + " although everything succeeded: " + err);
                    if (out != want) x.fail("html", "the output is not the HTML of the library");
                    if (!err.empty()) x.fail("message", "an error message on success");
                    if (!out.empty()) x.nontrivial();
                }
            }
        }
    }
    // Number of arguments.
    x.set_family("arguments");
    for (int n = 1; n <= 5; ++n) {
        if (!x.begin("arguments " + std::to_string(n))) continue;
        reset();
        script.active_read = script.active_write = true;
        script.content = "x";
        script.expect_path = "a.txt";
        Run r;
        r.args = { "ulight-cli" };
        if (n >= 2) r.args.push_back("a.txt");
        for (int k = 3; k <= n; ++k) r.args.push_back(x.tmp + "/never-created" + std::to_string(k));
        r.to_stdout = n < 3;
        std::string err;
        const int rc = run_cli(x, r, err);
        if (n == 1) {
            if (rc == 0 || rc < 0 || err.empty()) x.fail("usage", "no failure without arguments");
        }
        else if (n <= 3 && (rc != 0 || std::string(io->out, io->out_len) != "x")) x.fail("arguments", "wrong result");
        x.nontrivial();
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mini_main(argc, argv, { { "owner", owner }, { "loading", loading }, { "cli", cli } });
}
