// Writes the sources for the check of the JavaScript wrapper, with the HTML that the native library generates.
#include "families.hpp"
#include "ulight/ulight.h"

using namespace vx;

namespace {

struct Out {
    FILE* f;
    void u32(std::uint32_t v) { std::fwrite(&v, 4, 1, f); }
    void str(const std::string& s) { std::fwrite(s.data(), 1, s.size(), f); }
};

std::uint32_t fnv32(const std::string& s, std::uint32_t h)
{
    for (unsigned char c : s) h = (h ^ c) * 16777619u;
    return h;
}

void append(const void* p, char* text, std::size_t n) { static_cast<std::string*>(const_cast<void*>(p))->append(text, n); }
void ignore(const void*, ulight_token*, std::size_t) { }

int html(const std::string& src, int lang, std::string& out, std::string& error)
{
    static ulight_token tokens[4096];
    static char text[1 << 16];
    out.clear();
    ulight_state s;
    ulight_init(&s);
    s.source = src.data();
    s.source_length = src.size();
    s.lang = ulight_lang(lang);
    s.token_buffer = tokens;
    s.token_buffer_length = 4096;
    s.text_buffer = text;
    s.text_buffer_length = sizeof text;
    s.flush_text_data = &out;
    s.flush_text = append;
    const int r = ulight_source_to_html(&s);
    if (r) error.assign(s.error, s.error_length);
    ulight_destroy(&s);
    return r;
}

std::string json(std::string_view s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c < 32 || c == '"' || c == '\\') {
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else o += char(c);
    }
    return o + '"';
}

} // namespace

int main(int argc, char** argv)
{
    std::string data, dir, tier = "quick";
    int shards = 8;
    for (int k = 1; k + 1 < argc; k += 2) {
        const std::string a = argv[k];
        if (a == "--data") data = argv[k + 1];
        else if (a == "--dir") dir = argv[k + 1];
        else if (a == "--tier") tier = argv[k + 1];
        else if (a == "--shards") shards = std::atoi(argv[k + 1]);
    }
    const bool thorough = tier == "thorough";
    // Tables.
    FILE* t = std::fopen((dir + "/tables.json").c_str(), "w");
    if (!t) return 3;
    std::fprintf(t, "{\"list\":[");
    for (std::size_t k = 0; k < ulight_lang_list_length; ++k) {
        const auto& e = ulight_lang_list[k];
        const auto d = ulight_lang_display_name(e.lang);
        std::fprintf(t, "%s{\"name\":%s,\"displayName\":%s,\"id\":%d}", k ? "," : "", json({ e.name, e.name_length }).c_str(), json({ d.text, d.length }).c_str(), int(e.lang));
    }
    std::fprintf(t, "],\"display\":[");
    for (int k = 0; k < ULIGHT_LANG_COUNT; ++k) {
        const auto d = ulight_lang_display_name(ulight_lang(k));
        std::fprintf(t, "%s%s", k ? "," : "", json({ d.text, d.length }).c_str());
    }
    std::set<std::string> names { "", "C++", "c++ ", " c", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", std::string("c\0", 2), std::string(70000, 'c') };
    for (std::size_t k = 0; k < ulight_lang_list_length; ++k) {
        const std::string n(ulight_lang_list[k].name, ulight_lang_list[k].name_length);
        for (std::size_t p = 0; p <= n.size(); ++p) {
            names.insert(n.substr(0, p));
            names.insert(n.substr(p));
            for (const char* c : { "a", "z", "+", "\xC3\xA9", " " }) {
                std::string m = n;
                m.insert(p, c);
                names.insert(m);
                if (p < n.size()) {
                    m = n;
                    m.replace(p, 1, c);
                    names.insert(m);
                }
            }
        }
    }
    std::fprintf(t, "],\"ids\":[");
    bool first = true;
    for (const auto& n : names) {
        std::fprintf(t, "%s[%s,%d]", first ? "" : ",\n", json(n).c_str(), int(ulight_get_lang(n.data(), n.size())));
        first = false;
    }
    std::fprintf(t, "],\"families\":");
    // Sources.
    auto d = load_data(data.c_str());
    std::vector<Space> spaces;
    Bounds b;
    b.byte_len = 1;
    b.core_depth = thorough ? 3 : 2;
    b.mini_depth = thorough ? 4 : 3;
    b.ctx_depth = thorough ? 2 : 1;
    b.ctx_mini_depth = thorough ? 3 : 2;
    b.auto_pairs = thorough;
    b.auto_ctx = false;
    b.edits = thorough;
    b.pump = thorough;
    b.pump_long = true;
    b.window = 2;
    for (const auto& [l, ld] : d) lang_spaces(spaces, ld, b);
    // Characters around the boundaries of the wrapper's buffers.
    std::vector<std::string> around;
    for (const std::size_t size : { std::size_t(65536), std::size_t(131072) })
        for (const char* c : { "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xEF\xBB\xBF", "&", "<", "\"" })
            for (int o = -8; o <= 8; ++o)
                for (const char* more : { "", "b", "\xE2\x82\xAC\xEF\xBB\xBF" }) {
                    std::string s(size + std::size_t(o), 'a');
                    around.push_back(s + c + more);
                    if (o == 0) {
                        std::string many;
                        while (many.size() < size) many += c;
                        around.push_back(many + more);
                        around.push_back("a" + many + more);
                        around.push_back("aa" + many + more);
                        around.push_back("aaa" + many + more);
                    }
                }
    around.push_back("\xEF\xBB\xBF");
    around.push_back("\xEF\xBB\xBF\xEF\xBB\xBF");
    around.push_back("\xEF\xBB\xBFint x;\xEF\xBB\xBF");
    for (int n : { 65530, 65536, 65537, 200000, 1000000 }) around.push_back(std::string(std::size_t(n), 'x'));
    auto list = std::make_shared<const std::vector<std::string>>(around);
    for (int l : { 13, 2, 4 }) spaces.push_back(listed(l, "around buffer boundaries", list));
    for (int l : { 0, 26, 27, 255 }) spaces.push_back(listed(l, "no languages", std::make_shared<const std::vector<std::string>>(std::vector<std::string> { "", "a", "a b" })));
    std::vector<Out> files;
    for (int k = 0; k < shards; ++k) {
        files.push_back({ std::fopen((dir + "/shard." + std::to_string(k)).c_str(), "wb") });
        if (!files.back().f) return 3;
    }
    std::vector<std::string> families;
    std::map<std::string, std::uint32_t> index;
    std::uint64_t n = 0;
    std::string src, out, error;
    for (const auto& sp : spaces) {
        if (std::getenv("VX_TRACE")) std::fprintf(stderr, "%ld %d %s %llu\n", long(std::clock() / 1000), sp.lang, sp.family.c_str(), (unsigned long long)sp.count);
        if (!index.count(sp.family)) {
            index[sp.family] = std::uint32_t(families.size());
            families.push_back(sp.family);
        }
        for (std::uint64_t i = 0; i < sp.count; ++i) {
            src.clear();
            sp.get(i, src);
            const int r = html(src, sp.lang, out, error);
            Out& o = files[n++ % std::uint64_t(shards)];
            const bool keep = out.size() < 2000;
            o.u32(std::uint32_t(sp.lang));
            o.u32(index[sp.family]);
            o.u32(std::uint32_t(r));
            o.u32(std::uint32_t(src.size()));
            o.u32(std::uint32_t(out.size()));
            o.u32(keep);
            o.u32(fnv32(out, 2166136261u));
            o.u32(fnv32(out, 0x9747b28cu));
            o.str(src);
            if (keep) o.str(out);
        }
    }
    for (auto& o : files) std::fclose(o.f);
    std::fprintf(t, "[");
    for (std::size_t k = 0; k < families.size(); ++k) std::fprintf(t, "%s%s", k ? "," : "", json(families[k]).c_str());
    std::fprintf(t, "]}\n");
    std::fclose(t);
    std::printf("%llu\n", (unsigned long long)n);
    return 0;
}
