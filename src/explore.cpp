// Bounded-exhaustive exploration of the highlighting entry points over all languages.
//   explore CHECK --data FILE --tier quick|thorough --out REPORT.json --tmp DIR [--lang N] [--workers N]
//   explore CHECK --replay LANG HEX
#include "families.hpp"
#include "runner.hpp"

using namespace vx;

namespace {

std::string tok_str(const std::vector<ulight_token>& v)
{
    std::string o;
    char b[64];
    std::size_t n = 0;
    for (const auto& t : v) {
        std::snprintf(b, sizeof b, "[%zu+%zu:%02x]", t.begin, t.length, t.type);
        o += b;
        if (++n == 40) { o += "..."; break; }
    }
    return o;
}

bool same(const std::vector<ulight_token>& a, const std::vector<ulight_token>& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (a[i].begin != b[i].begin || a[i].length != b[i].length || a[i].type != b[i].type) return false;
    }
    return true;
}

const std::set<int>& defined_types()
{
    // Independent list of the public highlight type values is derived from the C enumeration;
    // see gen_types.py, which writes this header from the documentation of the public header.
    static const std::set<int> s = {
#include "types.inc"
    };
    return s;
}

Run_Result r0, r1, r2;

// -------------------------------------------------------------------------------------------- T01
void chk_totality(int lang, const std::string& in, Reporter& rep)
{
    const bool valid = is_valid_utf8(in);
    const int flag_step = in.size() > 20000 ? 4 : 1; // long inputs: default flags only
    for (int flags = 0; flags < 4; flags += flag_step) {
        run_tokens(r0, lang, in, { flags, 64, false });
        const bool ok = r0.status == ULIGHT_STATUS_OK
            || (!valid && r0.status == ULIGHT_STATUS_BAD_TEXT);
        if (!ok) {
            rep.violation(lang, in, "status-" + std::to_string(r0.status),
                "flags=" + std::to_string(flags) + " valid_utf8=" + std::to_string(valid));
        }
        if (r0.status != ULIGHT_STATUS_OK && !r0.error_text) {
            rep.violation(lang, in, "no-error-text", "flags=" + std::to_string(flags));
        }
    }
    if (flag_step != 1) {
        rep.nontrivial();
        return;
    }
    run_tokens(r1, lang, in, { 0, 64, true });
    run_tokens(r0, lang, in, { 0, 64, false });
    if (r1.status != r0.status || !same(r0.tokens, r1.tokens)) {
        rep.violation(lang, in, "nondeterministic", tok_str(r0.tokens) + " vs " + tok_str(r1.tokens));
    }
    if (r0.tokens.size() >= 2) rep.nontrivial();
}

// -------------------------------------------------------------------------------------------- T02
void chk_wellformed(int lang, const std::string& in, Reporter& rep)
{
    static const std::size_t caps[] = { 3, 64 };
    for (int flags = 0; flags < 4; ++flags) {
        const std::size_t cap = caps[flags & 1];
        run_tokens(r0, lang, in, { flags, cap, false });
        const auto fail = [&](const char* kind) {
            rep.violation(lang, in, kind, "flags=" + std::to_string(flags) + " cap=" + std::to_string(cap)
                + " " + tok_str(r0.tokens));
        };
        if (!r0.flush_args_ok) fail("flush-arguments");
        std::size_t end = 0;
        bool first = true;
        for (const auto& t : r0.tokens) {
            if (t.length == 0) { fail("empty-token"); break; }
            if (t.begin >= in.size() || t.length > in.size() - t.begin) { fail("out-of-bounds"); break; }
            if (!first && t.begin < end) { fail("overlap-or-disorder"); break; }
            if (!defined_types().count(t.type)) { fail("undefined-type"); break; }
            end = t.begin + t.length;
            first = false;
        }
        if (r0.status == ULIGHT_STATUS_INTERNAL_ERROR) fail("internal-error");
    }
    if (r0.tokens.size() >= 2) rep.nontrivial();
}

// -------------------------------------------------------------------------------------------- T03
void chk_boundary(int lang, const std::string& in, Reporter& rep)
{
    bool multi = false;
    for (unsigned char c : in) multi |= c >= 0x80;
    if (!multi || !is_valid_utf8(in)) return;
    rep.nontrivial();
    for (int flags = 0; flags < 4; ++flags) {
        run_tokens(r0, lang, in, { flags, 64, false });
        for (const auto& t : r0.tokens) {
            if (!boundary(in, t.begin) || !boundary(in, t.begin + t.length)) {
                rep.violation(lang, in, "split-code-point", "flags=" + std::to_string(flags) + " " + tok_str(r0.tokens));
                break;
            }
        }
    }
}

// -------------------------------------------------------------------------------------------- T04
void chk_capacity(int lang, const std::string& in, Reporter& rep)
{
    for (int flags = 0; flags < 4; ++flags) {
        if (flags == 2) continue;
        run_tokens(r0, lang, in, { flags, 4096, false });
        if (flags == 0 && r0.tokens.size() >= 2) rep.nontrivial();
        std::size_t caps[] = { 1, 2, 3, 5, 8, r0.tokens.size() - 1, r0.tokens.size() };
        for (std::size_t cap : caps) {
            if (cap == 0 || cap > 4096) continue;
            if (cap > 8 && cap > r0.tokens.size()) continue;
            run_tokens(r1, lang, in, { flags, cap, false });
            if (r1.status != r0.status || !same(r0.tokens, r1.tokens) || !r1.flush_args_ok) {
                rep.violation(lang, in, "capacity-dependent",
                    "flags=" + std::to_string(flags) + " cap=" + std::to_string(cap) + " " + tok_str(r0.tokens)
                        + " vs " + tok_str(r1.tokens));
                return;
            }
        }
    }
}

// -------------------------------------------------------------------------------------------- T05
void merge(std::vector<ulight_token>& out, const std::vector<ulight_token>& in)
{
    out.clear();
    for (const auto& t : in) {
        if (!out.empty() && out.back().type == t.type && out.back().begin + out.back().length == t.begin) {
            out.back().length += t.length;
        }
        else out.push_back(t);
    }
}
void chk_coalesce(int lang, const std::string& in, Reporter& rep)
{
    static std::vector<ulight_token> m;
    for (int flags = 0; flags < 4; flags += 2) {
        run_tokens(r0, lang, in, { flags, 64, false });
        run_tokens(r1, lang, in, { flags | ULIGHT_COALESCE, 64, false });
        merge(m, r0.tokens);
        if (m.size() != r0.tokens.size() && flags == 0) rep.nontrivial();
        if (r0.status != r1.status || !same(m, r1.tokens)) {
            rep.violation(lang, in, "not-the-merged-stream",
                "flags=" + std::to_string(flags) + " plain=" + tok_str(r0.tokens) + " coalesced=" + tok_str(r1.tokens));
        }
    }
}

// -------------------------------------------------------------------------------------------- T06
struct Html_Cfg {
    std::size_t tok_cap, text_cap;
    std::string_view tag, attr;
    int flags;
};
struct Text_Ctx {
    std::string* out;
    char* buf;
    std::size_t cap;
    bool* ok;
};
int run_html(std::string& out, int lang, const std::string& in, const Html_Cfg& c, bool& args_ok)
{
    bump();
    out.clear();
    args_ok = true;
    char* s = source_arena().tail(in.size());
    std::memcpy(s, in.data(), in.size());
    auto* tb = reinterpret_cast<ulight_token*>(token_arena().tail(c.tok_cap * sizeof(ulight_token)));
    char* xb = text_arena().tail(c.text_cap);
    Text_Ctx ctx { &out, xb, c.text_cap, &args_ok };
    ulight_state st;
    ulight_init(&st);
    st.source = s;
    st.source_length = in.size();
    st.lang = ulight_lang(lang);
    st.flags = ulight_flag(c.flags);
    st.token_buffer = tb;
    st.token_buffer_length = c.tok_cap;
    if (!c.tag.empty()) {
        st.html_tag_name = c.tag.data();
        st.html_tag_name_length = c.tag.size();
    }
    if (!c.attr.empty()) {
        st.html_attr_name = c.attr.data();
        st.html_attr_name_length = c.attr.size();
    }
    st.text_buffer = xb;
    st.text_buffer_length = c.text_cap;
    st.flush_text_data = &ctx;
    st.flush_text = [](const void* d, char* p, std::size_t n) {
        const auto* x = static_cast<const Text_Ctx*>(d);
        if (p != x->buf || n == 0 || n > x->cap) {
            *x->ok = false;
            if (p != x->buf) return;
        }
        x->out->append(p, n);
    };
    return ulight_source_to_html(&st);
}
void esc(std::string& o, std::string_view s)
{
    for (char c : s) {
        switch (c) {
        case '<': o += "&lt;"; break;
        case '>': o += "&gt;"; break;
        case '&': o += "&amp;"; break;
        default: o += c;
        }
    }
}
const char* short_name(int t)
{
    switch (t) {
#include "shorts.inc"
    }
    return "?";
}
void ref_html(std::string& o, const std::string& in, const std::vector<ulight_token>& ts, std::string_view tag, std::string_view attr)
{
    o.clear();
    std::size_t pos = 0;
    for (const auto& t : ts) {
        esc(o, std::string_view(in).substr(pos, t.begin - pos));
        o += '<';
        o += tag;
        o += ' ';
        o += attr;
        o += '=';
        o += short_name(t.type);
        o += '>';
        esc(o, std::string_view(in).substr(t.begin, t.length));
        o += "</";
        o += tag;
        o += '>';
        pos = t.begin + t.length;
    }
    esc(o, std::string_view(in).substr(pos));
}
std::string plain_of(std::string_view h, std::string_view tag)
{
    // strips every element and decodes the three references
    std::string o;
    (void)tag;
    for (std::size_t i = 0; i < h.size();) {
        if (h[i] == '<') {
            const auto e = h.find('>', i);
            if (e == h.npos) return o + "<unterminated tag>";
            i = e + 1;
        }
        else if (h[i] == '&') {
            if (h.substr(i).starts_with("&lt;")) { o += '<'; i += 4; }
            else if (h.substr(i).starts_with("&gt;")) { o += '>'; i += 4; }
            else if (h.substr(i).starts_with("&amp;")) { o += '&'; i += 5; }
            else { return o + "<stray ampersand>"; }
        }
        else o += h[i++];
    }
    return o;
}
void chk_html(int lang, const std::string& in, Reporter& rep)
{
    static std::string h, ref;
    static const std::string_view S = "";
    const Html_Cfg cfgs[] = {
        { 64, 4096, S, S, 0 }, { 1, 1, S, S, 0 }, { 2, 3, "x", "y-z", 1 }, { 7, 16, "span", "class", 1 }, { 3, 7, S, S, 2 },
    };
    for (const auto& c : cfgs) {
        bool ok = true;
        const int st = run_html(h, lang, in, c, ok);
        run_tokens(r0, lang, in, { c.flags, 256, false });
        if (st != r0.status) {
            rep.violation(lang, in, "html-status", std::to_string(st) + " vs " + std::to_string(r0.status));
            return;
        }
        if (!ok) rep.violation(lang, in, "text-flush-arguments", "");
        if (st != 0) continue;
        ref_html(ref, in, r0.tokens, c.tag.empty() ? "h-" : c.tag, c.attr.empty() ? "data-h" : c.attr);
        if (h != ref) {
            rep.violation(lang, in, "html-differs", "tokcap=" + std::to_string(c.tok_cap) + " textcap=" + std::to_string(c.text_cap)
                + " got=" + h.substr(0, 300) + " want=" + ref.substr(0, 300));
            return;
        }
        if (plain_of(h, c.tag) != in) rep.violation(lang, in, "html-text-lost", h.substr(0, 300));
    }
    if (!r0.tokens.empty()) rep.nontrivial();
}

struct Named {
    const char* name;
    void (*fn)(int, const std::string&, Reporter&);
};
const Named checks[] = {
    { "totality", chk_totality }, { "wellformed", chk_wellformed }, { "boundary", chk_boundary },
    { "capacity", chk_capacity }, { "coalesce", chk_coalesce }, { "html", chk_html },
};

} // namespace

int main(int argc, char** argv)
{
    if (argc < 2) return 3;
    const std::string name = argv[1];
    const char *data = nullptr, *outp = nullptr, *tmp = "/tmp", *tier = "quick";
    int only_lang = 0, workers = int(sysconf(_SC_NPROCESSORS_ONLN));
    double deadline = 1e9;
    const char *rl = nullptr, *rh = nullptr;
    for (int i = 2; i < argc; ++i) {
        const std::string a = argv[i];
        if (a == "--data") data = argv[++i];
        else if (a == "--out") outp = argv[++i];
        else if (a == "--tmp") tmp = argv[++i];
        else if (a == "--tier") tier = argv[++i];
        else if (a == "--lang") only_lang = std::atoi(argv[++i]);
        else if (a == "--workers") workers = std::atoi(argv[++i]);
        else if (a == "--deadline") deadline = std::atof(argv[++i]);
        else if (a == "--replay") { rl = argv[++i]; rh = argv[++i]; }
    }
    if (workers > Shared::max_workers) workers = Shared::max_workers;
    const Named* c = nullptr;
    for (const auto& n : checks) {
        if (name == n.name) c = &n;
    }
    if (!c) return 3;
    std::vector<Space> spaces;
    const bool thorough = std::string(tier) == "thorough";
    std::map<int, Lang_Data> d;
    if (rl) {
        std::string hx = rh;
        if (hx[0] == '@') { // read from a file
            FILE* hf = std::fopen(rh + 1, "r");
            if (!hf) return 3;
            hx.clear();
            for (int ch; (ch = std::fgetc(hf)) != EOF;)
                if (std::isxdigit(ch)) hx += char(ch);
            std::fclose(hf);
        }
        const std::string in = unhex(hx);
        auto l = std::make_shared<const std::vector<std::string>>(std::vector<std::string> { in });
        spaces.push_back(listed(std::atoi(rl), "replay", l));
        workers = 1;
        std::printf("input (%zu bytes): \"%s\"\n", in.size(), printable(in).c_str());
    }
    else {
        d = load_data(data);
        Bounds b;
        b.pump_long = name == "totality" || name == "coalesce" || thorough;
        b.byte_len = name == "totality" ? 2 : 1;
        if (name == "html") b.markup = thorough ? 6 : 4;
        if (thorough) {
            b.mini_depth = 5;
            b.core_depth = 4;
            b.ctx_mini_depth = 4;
            b.window = 5;
            b.file_edits = true;
        }
        for (const auto& [l, ld] : d) {
            if (only_lang && l != only_lang) continue;
            if (name == "boundary") {
                b.generic = thorough;
                b.wide = thorough ? 2 : 1;
                b.byte_len = 0;
            }
            lang_spaces(spaces, ld, b);
        }
    }
    const double t0 = now_s();
    const auto t = run_spaces(spaces, workers, c->fn, tmp, deadline);
    const double wall = now_s() - t0;
    for (const auto& v : t.violations) {
        std::printf("FAIL lang=%d kind=%s input=\"%s\" hex=%s %s\n", v.lang, v.kind.c_str(), printable(v.input.substr(0, 200)).c_str(),
            hex(v.input).substr(0, 200).c_str(), v.detail.c_str());
    }
    std::printf("generated=%llu distinct=%llu nontrivial=%llu violations=%zu wall=%.1f capped=%d\n", (unsigned long long)t.generated,
        (unsigned long long)t.distinct, (unsigned long long)t.nontrivial, t.violations.size(), wall, t.capped);
    if (outp) {
        FILE* f = std::fopen(outp, "w");
        std::fprintf(f, "{\"generated\":%llu,\"evaluations\":%llu,\"distinct\":%llu,\"nontrivial\":%llu,\"capped\":%s,\"wall\":%.2f,\n\"families\":{",
            (unsigned long long)t.generated, (unsigned long long)t.evaluations, (unsigned long long)t.distinct,
            (unsigned long long)t.nontrivial, t.capped ? "true" : "false", wall);
        bool first = true;
        for (const auto& [k, n] : t.by_family) {
            std::fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(k).c_str(), (unsigned long long)n);
            first = false;
        }
        std::fprintf(f, "},\n\"samples\":[");
        // a few actual cases
        first = true;
        std::string b;
        for (std::size_t k = 0; k < spaces.size(); k += spaces.size() / 6 + 1) {
            b.clear();
            spaces[k].get(spaces[k].count / 2, b);
            std::fprintf(f, "%s{\"lang\":%d,\"family\":%s,\"input\":%s}", first ? "" : ",", spaces[k].lang,
                json_str(spaces[k].family).c_str(), json_str(b.substr(0, 200)).c_str());
            first = false;
        }
        std::fprintf(f, "],\n\"violations\":[");
        first = true;
        for (const auto& v : t.violations) {
            std::fprintf(f, "%s\n{\"lang\":%d,\"kind\":%s,\"hex\":\"%s\",\"text\":%s,\"detail\":%s}", first ? "" : ",", v.lang,
                json_str(v.kind).c_str(), hex(v.input).c_str(), json_str(v.input.substr(0, 200)).c_str(), json_str(v.detail).c_str());
            first = false;
        }
        std::fprintf(f, "]}\n");
        std::fclose(f);
    }
    return t.violations.empty() ? 0 : 1;
}
