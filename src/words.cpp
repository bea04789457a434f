// Words and symbols of the languages: which words are keywords of which kind, how operators and punctuation
// divide, and that complete items one after another are highlighted as they are on their own.
#include "lexref.hpp"
#include <functional>
#include <sstream>

using namespace vx;

namespace {

using Context = std::pair<std::string, std::string>;
using Table = std::map<std::string, unsigned>;

std::vector<std::string> words_of(const char* s)
{
    std::istringstream in(s);
    std::vector<std::string> r;
    for (std::string w; in >> w;) r.push_back(w);
    return r;
}

std::string lower(std::string s)
{
    for (char& c : s)
        if (c >= 'A' && c <= 'Z') c = char(c + 32);
    return s;
}

std::string upper(std::string s)
{
    for (char& c : s)
        if (c >= 'a' && c <= 'z') c = char(c - 32);
    return s;
}

std::string type_name(unsigned t)
{
    if (!t) return ".";
    const auto n = ulight_highlight_type_long_string(ulight_highlight_type(t));
    return std::string(n.text, n.length);
}

std::string type_list(const std::vector<unsigned>& t)
{
    std::string s;
    for (unsigned v : t) s += (s.empty() ? "" : " ") + type_name(v);
    return s;
}

constexpr unsigned kw = ULIGHT_HL_KEYWORD, control = ULIGHT_HL_KEYWORD_CONTROL, type = ULIGHT_HL_KEYWORD_TYPE, self = ULIGHT_HL_KEYWORD_THIS, boolean = ULIGHT_HL_BOOL, null = ULIGHT_HL_NULL,
                   op = ULIGHT_HL_SYMBOL_OP, punc = ULIGHT_HL_SYMBOL_PUNC, parens = ULIGHT_HL_SYMBOL_PARENS, square = ULIGHT_HL_SYMBOL_SQUARE, brace = ULIGHT_HL_SYMBOL_BRACE,
                   error = ULIGHT_HL_ERROR;

struct Group {
    unsigned type;
    const char* list;
};

// ---------------------------------------------------------------------------------------------------- keywords

struct Words {
    std::string name;
    int lang;
    unsigned flags;
    std::vector<Group> groups;
    std::vector<Context> contexts;
    bool ignore_case = false;
    std::function<unsigned(const std::string&, unsigned)> other = {}; // type of a word that is not listed
    std::string extra = ""; // further characters of identifiers
    std::string placeholder = "q0q";
};

const std::vector<Group> c_common {
    { kw, "_Atomic _Pragma alignas alignof and and_eq auto bitand bitor compl const constexpr default enum extern inline not not_eq or or_eq register sizeof static static_assert struct "
          "thread_local typedef union volatile xor xor_eq" },
    { control, "asm break case catch continue do else for goto if return switch while" },
    { type, "bool char double float int long short signed unsigned void" },
    { boolean, "false true" },
    { null, "nullptr" },
};
const std::vector<Group> c_only {
    { kw, "_Alignas _Alignof _Complex _Generic _Imaginary _Noreturn _Static_assert _Thread_local complex imaginary noreturn restrict typeof typeof_unqual" },
    { type, "_BitInt _Bool _Decimal128 _Decimal32 _Decimal64 _Float128 _Float128x _Float16 _Float32 _Float32x _Float64 _Float64x" },
};
const std::vector<Group> cpp_only {
    { type, "char16_t char32_t char8_t wchar_t" },
    { kw, "class concept const_cast consteval constinit contract_assert decltype delete dynamic_cast explicit export final friend import module mutable namespace new noexcept operator "
          "override post pre private protected public reinterpret_cast replaceable_if_eligible requires static_cast template throw trivially_relocatable_if_eligible try typeid typename "
          "using virtual" },
    { control, "co_await co_return co_yield" },
    { self, "this" },
};
const std::vector<Group> extensions {
    { type, "_ExtInt __float128 __float80 __fp16 __ibm128 __int128 __int16 __int256 __int32 __int64 __int8 __m128 __m128d __m128i __m256 __m256d __m256i __m512 __m512d __m512i __m64 "
            "__mmask16 __mmask32 __mmask64 __mmask8 __ptr32 __ptr64" },
    { kw, "__asm__ __attribute__ __extension__ __imag__ __label__ __real__ __restrict" },
};

std::vector<Group> join(std::initializer_list<std::vector<Group>> l)
{
    std::vector<Group> r;
    for (const auto& g : l) r.insert(r.end(), g.begin(), g.end());
    return r;
}

std::vector<Words> word_lists()
{
    std::vector<Words> r;
    const std::vector<Context> curly { { "", "" }, { "", ";" }, { "x = ", ";" }, { "(", ")" }, { "{", "}" }, { "a, ", ", b" }, { "a\n", "\nb" }, { "[", "]" }, { "/**/", "/**/" }, { "1 + ", "+1" } };
    const auto t_suffix = [](const std::string& w, unsigned d) { return w.size() >= 2 && w.ends_with("_t") ? unsigned(ULIGHT_HL_NAME_TYPE) : d; };
    r.push_back({ "C", ULIGHT_LANG_C, 0, join({ c_common, c_only, extensions }), curly, false, t_suffix });
    r.push_back({ "strict C", ULIGHT_LANG_C, ULIGHT_STRICT, join({ c_common, c_only }), curly, false, t_suffix });
    r.push_back({ "C++", ULIGHT_LANG_CPP, 0, join({ c_common, c_only, cpp_only, extensions }), curly, false, t_suffix });
    r.push_back({ "strict C++", ULIGHT_LANG_CPP, ULIGHT_STRICT, join({ c_common, cpp_only }), curly, false, t_suffix });
    for (unsigned flags : { 0u, unsigned(ULIGHT_STRICT) }) {
        const std::string s = flags ? "strict " : "";
        r.push_back({ s + "Java", ULIGHT_LANG_JAVA, flags,
            { { kw, "_ abstract assert class const enum exports extends final goto implements import instanceof interface module native new open opens package permits private protected "
                    "provides public record requires sealed static strictfp synchronized throws to transient transitive uses var volatile when with" },
                { type, "boolean byte char double float int long short void" },
                { control, "break case catch continue default do else finally for if return switch throw try while yield" }, { boolean, "false true" }, { null, "null" },
                { self, "super this" } },
            curly });
        const std::vector<Group> js { { kw, "as async await class const debugger delete enum export extends from function get import in instanceof let new of set static typeof var void yield" },
            { ULIGHT_HL_NAME_TYPE_BUILTIN, "boolean number string" },
            { control, "break case catch continue default do else finally for if return switch throw try while with" }, { boolean, "false true" }, { null, "null undefined" },
            { self, "super this" } };
        const std::vector<Group> ts { { kw, "abstract asserts constructor declare implements interface is private protected public type" }, { type, "any" } };
        const std::vector<Context> script { { "", "" }, { "", ";" }, { "x = ", ";" }, { "(", ")" }, { "{", "}" }, { "a, ", ", b" }, { "a\n", "\nb" }, { "[", "]" }, { "`${", "}`" }, { "1 + ", "+1" } };
        r.push_back({ s + "JavaScript", ULIGHT_LANG_JAVASCRIPT, flags, js, script, false, {}, "$" });
        r.push_back({ s + "TypeScript", ULIGHT_LANG_TYPESCRIPT, flags, join({ js, ts }), script, false, {}, "$" });
        std::vector<Context> kotlin { { "", "" }, { "", ";" }, { "x = ", ";" }, { "(", ")" }, { "{", "}" }, { "a, ", ", b" }, { "a\n", "\nb" }, { "[", "]" }, { "\"${", "}\"" }, { "1 + ", "+1" } };
        r.push_back({ s + "Kotlin", ULIGHT_LANG_KOTLIN, flags,
            { { kw, "abstract actual annotation as assert async by class companion const constructor data delegate dynamic enum expect field file final fun get import in init inline interface "
                    "internal is lateinit noinline object open operator out package param private protected public receiver reified sealed set setparam suspend typealias typeof val value var "
                    "vararg" },
                { control, "await break catch continue do else finally for if property return throw try when while" }, { boolean, "false true" }, { null, "null" }, { self, "super this" } },
            kotlin });
        r.push_back({ s + "Rust", ULIGHT_LANG_RUST, flags,
            { { ULIGHT_HL_NAME_TYPE, "CStr CString OsStr OsString String" }, { type, "Self" },
                { kw, "abstract as async become box const crate dyn enum extern final fn gen impl in let macro macro_rules mod move mut override priv pub raw ref safe static struct trait type "
                      "typeof union unsafe unsized use virtual where" },
                { control, "await break continue do else for if loop match return try while yield" },
                { ULIGHT_HL_NAME_TYPE_BUILTIN, "bool char f32 f64 i128 i16 i32 i64 i8 isize str u128 u16 u32 u64 u8 usize" }, { boolean, "false true" }, { self, "self super" } },
            curly });
        r.push_back({ s + "Python", ULIGHT_LANG_PYTHON, flags,
            { { boolean, "False True" }, { null, "None" }, { kw, "and as assert async class def del from global import in is lambda nonlocal not or with" },
                { control, "break await case continue elif else except finally for if match pass raise return try while yield" } },
            { { "", "" }, { "", ":" }, { "x = ", "\n" }, { "(", ")" }, { "{", "}" }, { "a, ", ", b" }, { "a\n", "\nb" }, { "[", "]" }, { "1 + ", "+1" } } });
        r.push_back({ s + "Lua", ULIGHT_LANG_LUA, flags,
            { { kw, "and function in local not or" }, { control, "break do else elseif end for goto if repeat return then until while" }, { boolean, "false true" }, { null, "nil" } },
            { { "", "" }, { "", ";" }, { "x = ", "\n" }, { "(", ")" }, { "{", "}" }, { "a, ", ", b" }, { "a\n", "\nb" }, { "[", "]" }, { "1 + ", "+1" } } });
        std::string registers = "ah al ax bh bl bp bpl bx ch cl cr0 cr2 cr3 cr4 cr8 cs cw cx dh di dil dl dr0 dr1 dr2 dr3 dr6 dr7 ds dx eax ebp ebx ecx edi edx eflags eip es esi esp fs gs ip "
                                "rax rbp rbx rcx rdi rdx rflags rip rsi rsp si sil sp spl ss sw";
        for (int i = 0; i < 32; ++i) {
            const std::string k = std::to_string(i);
            if (i < 8)
                for (const char* p : { " k", " mm", " st" }) registers += p + k;
            if (i >= 8)
                for (const char* p : { "", "b", "d", "w" }) registers += " r" + k + p;
            for (const char* p : { " xmm", " ymm", " zmm" }) registers += p + k;
        }
        registers += " xmm32 ymm32 zmm32";
        static std::string keep[2];
        keep[flags != 0] = registers;
        const Group nasm_types { type, "byte dword far oword ptr qword tword word yword zword" }, nasm_op { ULIGHT_HL_KEYWORD_OP, "seg wrt" },
            nasm_registers { ULIGHT_HL_NAME_VAR, keep[flags != 0].c_str() },
            nasm_labels { ULIGHT_HL_NAME_INSTRUCTION, "call ja jae jb jbe jc jcxz je jecxz jg jge jl jle jmp jna jnae jnb jnbe jnc jne jng jnge jnl jnle jno jnp jns jnz jo jp jpe jpo jrcxz js jz loop "
                                                      "loope loopne loopnz loopz" };
        const auto dollar = [](const std::string& w, unsigned d) { return w[0] == '$' ? unsigned(ULIGHT_HL_NAME) : d; };
        r.push_back({ s + "NASM operands", ULIGHT_LANG_NASM, flags, { nasm_types, nasm_op, nasm_registers, nasm_labels },
            { { "mov eax, ", "\n" }, { "mov [", "], eax\n" }, { "push ", "" }, { "jmp ", " ; a\n" }, { "lea eax, [ebx + ", "]\n" } }, true, dollar });
        r.push_back({ s + "NASM instructions", ULIGHT_LANG_NASM, flags, { nasm_types, nasm_op, nasm_registers, nasm_labels },
            { { "", "" }, { "", "\n" }, { "ret\n", "\nret\n" }, { "a: ", "\n" }, { "jmp b\n", "\n" }, { "; b\n", "\n" }, { "add eax, 1\n  ", "\n" } }, true, dollar });
        r.push_back({ s + "LLVM", ULIGHT_LANG_LLVM, flags,
            { { type, "bfloat double float fp128 label metadata ppc_fp128 ptr target token void vscale x86_amx x86_fp80" },
                { control, "br call callbr catchpad catchret catchswitch cleanuppad cleanupret indirectbr invoke landingpad resume ret switch unreachable" },
                { ULIGHT_HL_STRING_DECOR, "c" }, { boolean, "false true" }, { null, "none null poison undef" }, { punc, "x" } },
            { { "", "" }, { "", " %a" }, { "%a = ", " %b" }, { "(", ")" }, { "{ ", " }" }, { "<", ">" }, { "%a, ", ", %b" }, { "\n", "\n" }, { "[", "]" } }, false,
            [](const std::string& w, unsigned d) {
                const bool digits = w.size() > 1 && w.find_first_not_of("0123456789", 1) == std::string::npos;
                return w[0] == 'i' && digits ? type : d;
            } });
        r.push_back({ s + "YAML", ULIGHT_LANG_YAML, flags,
            { { boolean, "FALSE False NO No OFF ON Off On TRUE True YES Yes false no off on true yes" }, { null, "NULL Null null" } },
            { { "a: ", "\n" }, { "a: ", "" }, { "- ", "\n- b\n" }, { "[", "]" }, { "[a, ", ", b]" }, { "{a: ", "}" }, { "{a: ", ", b: c}" }, { "a: ", " # b\n" }, { "", "\n" }, { "a: !!b ", "\n" },
                { "a:\n  b: ", "\n  c: d\n" }, { "a: &b ", "\n" } } });
    }
    return r;
}

void keywords_of(Ctx& x, const Words& g)
{
    x.set_family(g.name);
    Table table;
    for (const auto& k : g.groups)
        for (const auto& w : words_of(k.list)) table[w] = k.type;
    std::vector<std::vector<unsigned>> around;
    std::vector<unsigned> normal; // type of other words
    for (const auto& [before, after] : g.contexts) {
        around.push_back(types_of(g.lang, before + g.placeholder + after, g.flags));
        normal.push_back(around.back()[before.size()]);
        bool same = normal.back() != 0;
        for (std::size_t k = 0; k < g.placeholder.size(); ++k) same &= around.back()[before.size() + k] == normal.back();
        if (x.begin(g.name + " placeholder " + before) && !same) x.fail("word/" + g.name, "an identifier is highlighted as " + type_list(around.back()));
    }
    const auto check = [&](const std::string& w) {
        if (w.empty() || (w[0] >= '0' && w[0] <= '9')) return;
        if (g.lang == ULIGHT_LANG_LLVM && (w.starts_with("u0x") || w.starts_with("s0x"))) return; // numbers
        const std::uint64_t h = fnv(w);
        if (x.only.empty() && h % std::uint64_t(x.workers) != std::uint64_t(x.worker)) return;
        if (!x.enter(g.name + " " + w)) return;
        const auto it = table.find(g.ignore_case ? lower(w) : w);
        for (std::size_t c = 0; c < g.contexts.size(); ++c) {
            if (c) x.bulk(1);
            const auto& [before, after] = g.contexts[c];
            const unsigned want = it != table.end() ? it->second : g.other ? g.other(w, normal[c]) : normal[c];
            std::string e;
            std::vector<bool> begins;
            const auto got = types_of(g.lang, before + w + after, g.flags, &e, &begins);
            const std::size_t b = before.size(), n = b + w.size();
            bool good = begins[b] && (after.empty() || begins[n] || got[n] != want);
            for (std::size_t k = b; k < n; ++k) good &= got[k] == want && (k == b || !begins[k]);
            bool rest = true;
            for (std::size_t k = 0; k < b; ++k) rest &= got[k] == around[c][k];
            for (std::size_t k = 0; k < after.size(); ++k) rest &= got[n + k] == around[c][b + g.placeholder.size() + k];
            if (!good || !rest) {
                x.fail("word/" + g.name, "in " + printable(before) + "[...]" + printable(after) + " expected " + type_name(want) + ": got " + type_list(got) + e);
                break;
            }
        }
        if (it != table.end()) x.nontrivial();
    };
    const std::string letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789" + g.extra;
    std::set<std::string> all;
    const auto add = [&](const std::string& w) { all.insert(w); };
    const auto variants = [&](const std::string& w) {
        add(w);
        add(upper(w));
        add(lower(w));
        add(upper(w.substr(0, 1)) + w.substr(1));
        add(lower(w.substr(0, 1)) + w.substr(1));
        for (std::size_t k = 0; k <= w.size(); ++k) {
            add(w.substr(0, k));
            add(w.substr(k));
            for (char c : letters) {
                add(w.substr(0, k) + c + w.substr(k));
                if (k < w.size()) add(w.substr(0, k) + c + w.substr(k + 1));
            }
            if (k < w.size()) add(w.substr(0, k) + w.substr(k + 1));
            if (k + 1 < w.size()) add(w.substr(0, k) + w[k + 1] + w[k] + w.substr(k + 2));
        }
    };
    for (const auto& [w, t] : table) {
        variants(w);
        if (x.thorough) {
            // Two changes.
            std::set<std::string> once;
            once.swap(all);
            for (const auto& v : std::set<std::string>(once)) {
                if (std::abs(int(v.size()) - int(w.size())) > 1) continue;
                for (std::size_t k = 0; k <= v.size(); ++k)
                    for (char c : std::string("aetz_A0")) {
                        add(v.substr(0, k) + c + v.substr(k));
                        if (k < v.size()) add(v.substr(0, k) + c + v.substr(k + 1));
                    }
            }
            for (const auto& v : all) check(v);
            all = once;
        }
        for (const auto& [v, u] : table) {
            add(w + v);
            add(w + "_" + v);
        }
        for (std::size_t n : { 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000 }) {
            add(w + std::string(n, 'e'));
            add(w + std::string(n, '_'));
            add(std::string(n, 'a') + w);
            std::string rep;
            while (rep.size() < n) rep += w;
            add(rep);
        }
    }
    // Every short word.
    std::string s;
    const std::string few = "abcdefghijklmnopqrstuvwxyz_";
    const auto rec = [&](auto&& me, int left) -> void {
        if (!s.empty()) add(s);
        if (!left) return;
        for (char c : left > (x.thorough ? 3 : 2) ? few : letters) {
            s += c;
            me(me, left - 1);
            s.pop_back();
        }
    };
    rec(rec, x.thorough ? 4 : 3);
    for (const auto& w : all) check(w);
}

void keywords(Ctx& x)
{
    for (const auto& g : word_lists()) keywords_of(x, g);
}

// --------------------------------------------------------------------------------------------------- operators

struct Operators {
    std::string name;
    int lang;
    unsigned flags;
    std::vector<Group> groups;
    std::string alphabet;
    std::vector<std::string> excluded; // texts that begin something else
    std::vector<Context> contexts;
    unsigned unknown = error; // type of characters that are no symbols; 999: not enumerated
    std::function<std::size_t(const std::string&, std::size_t)> special = {}; // length of an exceptional token
    int quick = 5, thorough = 6;
};

std::vector<Operators> operator_lists(bool thorough)
{
    std::vector<Operators> r;
    // Not at the beginning of lines, where directives are.
    const std::vector<Context> in_line { { "a", "b" }, { "a ", " b" }, { "(", ")" }, { "1 ", " 2" }, { "\"\"", "\"\"" } };
    const std::vector<Context> around { { "a", "b" }, { "a ", " b" }, { "(", ")" }, { "a\n", "\nb" }, { "1 ", " 2" }, { "\"\"", "\"\"" } };
    const std::vector<Group> c { { op, "! != % %= & && &= * *= + ++ += - -- -= -> . ... / /= < << <<= <= = == > >= >> >>= ? ^ ^= | |= || ~" }, { ULIGHT_HL_NAME_MACRO_DELIM, "# ## %: %:%:" },
        { brace, "%> <% { }" }, { parens, "( )" }, { punc, ", : ;" }, { square, ":> <: [ ]" } };
    const std::vector<Group> cpp = join({ c, { { op, "->* .* :: <=> ^^" } } });
    const auto less = [](const std::string& s, std::size_t i) -> std::size_t {
        // [lex.pptoken]: <:: is < and :: unless followed by : or >
        if (s.compare(i, 3, "<::") == 0 && (i + 3 == s.size() || (s[i + 3] != ':' && s[i + 3] != '>'))) return 1;
        return 0;
    };
    const std::vector<std::string> slashes { "//", "/*" };
    for (unsigned f : { 0u, unsigned(ULIGHT_STRICT) }) {
        const std::string s = f ? "strict " : "";
        r.push_back({ s + "C", ULIGHT_LANG_C, f, c, "#%&(*+-./:<=>^|~!?,;{}[]", slashes, in_line, 999, {}, 4, 5 });
        r.push_back({ s + "C++", ULIGHT_LANG_CPP, f, cpp, "#%&(*+-./:<=>^|~!?,;{}[]", slashes, in_line, 999, less, 4, 5 });
        r.push_back({ s + "C, fewer symbols", ULIGHT_LANG_C, f, c, "%&:<>=.-*", {}, in_line, 999, {}, 6, 7 });
        r.push_back({ s + "C++, fewer symbols", ULIGHT_LANG_CPP, f, cpp, "%:<>=.-*^", {}, in_line, 999, less, 6, 7 });
        if (f && !thorough) break;
        const std::vector<Group> java { { op, "! != % %= & && &= * *= + ++ += - -- -= / /= < << <<= <= == > >= >> >>= >>> >>>= ? ^ ^= | |= || ~" }, { parens, "( )" },
            { punc, ", -> . ... : :: ; = @" }, { square, "[ ]" }, { brace, "{ }" } };
        r.push_back({ s + "Java", ULIGHT_LANG_JAVA, f, java, "!%&(*+-./:<=>?^|~,;{}[]", slashes, around, error, {}, 4, 5 });
        r.push_back({ s + "Java, fewer symbols", ULIGHT_LANG_JAVA, f, java, "-&+:<=>.#", {}, around, error, {}, 6, 7 });
        const std::vector<Group> js { { op, "! != !== % %= & && &&= &= * ** **= *= + ++ += - -- -= / /= << <<= <= = == === => > >= >> >>= >>> >>>= ? ?. ?? ??= ^ ^= | |= || ||= ~ . ... : <" },
            { parens, "( )" }, { punc, ", ;" }, { square, "[ ]" }, { brace, "{ }" } };
        const auto ts = join({ js, { { punc, "@" } } });
        for (const bool typed : { false, true }) {
            const int lang = typed ? ULIGHT_LANG_TYPESCRIPT : ULIGHT_LANG_JAVASCRIPT;
            const std::string n = s + (typed ? "TypeScript" : "JavaScript");
            r.push_back({ n, lang, f, typed ? ts : js, "!%&*+-.:=>?^|~,;{}[]()@", {}, around, error, {}, 4, 5 });
            r.push_back({ n + ", fewer symbols", lang, f, typed ? ts : js, "!&*=>?|.", {}, around, error, {}, 7, 8 });
        }
        const std::vector<Group> kotlin { { op, "! != !== # % %= && * *= + ++ += - -- -= / /= < <= == === > >= ? ?. ?: @ ||" }, { parens, "( )" }, { punc, ", -> . .. ... ..< : :: ; ;; = =>" },
            { square, "[ ]" } };
        r.push_back({ s + "Kotlin", ULIGHT_LANG_KOTLIN, f, kotlin, "!#%&()*+-./:<=>?[],;|~^", slashes, around, error, {}, 4, 5 });
        r.push_back({ s + "Kotlin, fewer symbols", ULIGHT_LANG_KOTLIN, f, kotlin, "!=<>.?:-;&", {}, around, error, {}, 6, 7 });
        const std::vector<Group> rust { { op, "! != % %= & && &= * *= + += - -= .. ... ..= / /= :: < << <<= <= == > >= >> >>= ? @ ^ ^= | |= ||" }, { parens, "( )" }, { punc, ", -> . : ; = => # $" },
            { square, "[ ]" }, { brace, "{ }" } };
        r.push_back({ s + "Rust", ULIGHT_LANG_RUST, f, rust, "!%&()*+-./:<=>?@^|,;{}[]#$~", slashes, { { "a ", " b" }, { "(", ")" }, { "a\n", "\nb" }, { "1 ", " 2" }, { "\"\" ", "\"\"" } }, error, {}, 4, 5 });
        r.push_back({ s + "Rust, fewer symbols", ULIGHT_LANG_RUST, f, rust, "!=<>.:-&|", {}, { { "a ", " b" }, { "(", ")" } }, error, {}, 6, 7 });
        const std::vector<Group> python { { op, "!= % %= & &= * ** **= *= + += - -= / // //= /= := < << <<= <= == > >= >> >>= @ @= ^ ^= | |= ~" }, { parens, "( )" }, { punc, ", -> . ... : ; = >>>" },
            { square, "[ ]" }, { brace, "{ }" }, { ULIGHT_HL_STRING_ESCAPE, "\\" } };
        r.push_back({ s + "Python", ULIGHT_LANG_PYTHON, f, python, "!%&()*+-./:<=>@^|~,;{}[]$?\\", {}, around, error, {}, 4, 5 });
        r.push_back({ s + "Python, fewer symbols", ULIGHT_LANG_PYTHON, f, python, "!=<>*/:.-", {}, around, error, {}, 6, 7 });
        const std::vector<Group> lua { { op, "# % & * + - . .. ... / // : :: < << <= = == > >= >> ^ | ~ ~=" }, { parens, "( )" }, { punc, ", ;" }, { square, "[ ]" }, { brace, "{ }" } };
        r.push_back({ s + "Lua", ULIGHT_LANG_LUA, f, lua, "#%&()*+-./:<=>^|~,;{}[]!@", { "--", "[[", "[=" }, around, ULIGHT_HL_SYMBOL, {}, 4, 5 });
        r.push_back({ s + "Lua, fewer symbols", ULIGHT_LANG_LUA, f, lua, "=<>.:~/", {}, around, ULIGHT_HL_SYMBOL, {}, 7, 8 });
        const std::vector<Group> nasm { { op, "? : + - * ~ = == ! != | || & && ^ ^^ > >> >>> >= < << <<< <= <=> <> / //" }, { parens, "( )" }, { square, "[ ]" }, { brace, "{ }" }, { punc, "," } };
        r.push_back({ s + "NASM", ULIGHT_LANG_NASM, f, nasm, "?:+-*~=!|&^></()[]{},\\#", {}, { { "mov 1 ", " 2" }, { "mov 1", "2" }, { "db (", ")" }, { "a ", " b" }, { "dd 'a'", "'b'" } }, error, {}, 4, 5 });
        r.push_back({ s + "NASM, fewer symbols", ULIGHT_LANG_NASM, f, nasm, "=!|&^></", {}, { { "mov 1 ", " 2" }, { "mov 1", "2" } }, error, {}, 6, 7 });
        const std::vector<Group> llvm { { punc, "= , < > :" }, { parens, "( )" }, { square, "[ ]" }, { brace, "{ }" } };
        r.push_back({ s + "LLVM", ULIGHT_LANG_LLVM, f, llvm, "=,<>:()[]{}", {}, { { "%a ", " %b" }, { "(", ")" }, { "\n", "\n" } }, error, {}, 5, 6 });
    }
    return r;
}

void operators_of(Ctx& x, const Operators& g)
{
    x.set_family(g.name);
    Table table;
    std::size_t longest = 0;
    for (const auto& k : g.groups)
        for (const auto& w : words_of(k.list)) {
            table[w] = k.type;
            longest = std::max(longest, w.size());
        }
    std::vector<std::vector<unsigned>> around;
    for (const auto& [before, after] : g.contexts) around.push_back(types_of(g.lang, before + "," + after, g.flags));
    struct Tok {
        std::size_t begin, length;
        unsigned type;
    };
    std::string s;
    std::vector<Tok> want;
    const auto check = [&] {
        for (const auto& e : g.excluded)
            if (s.find(e) != std::string::npos) return;
        if (!x.begin(g.name + " " + s)) return;
        want.clear();
        for (std::size_t i = 0; i < s.size();) {
            std::size_t n = g.special ? g.special(s, i) : 0;
            for (std::size_t k = std::min(longest, s.size() - i); n == 0 && k > 0; --k)
                if (table.count(s.substr(i, k))) n = k;
            if (n) want.push_back({ i, n, table[s.substr(i, n)] });
            else want.push_back({ i, n = 1, g.unknown });
            i += n;
        }
        for (std::size_t c = 0; c < g.contexts.size(); ++c) {
            if (c) x.bulk(1);
            const auto& [before, after] = g.contexts[c];
            std::string e;
            std::vector<bool> begins;
            const auto got = types_of(g.lang, before + s + after, g.flags, &e, &begins);
            bool good = true;
            const std::size_t b = before.size();
            for (const auto& t : want) {
                for (std::size_t k = 0; k < t.length; ++k) {
                    good &= got[b + t.begin + k] == t.type;
                    if (t.type != g.unknown) good &= begins[b + t.begin + k] == (k == 0);
                }
            }
            for (std::size_t k = 0; k < b; ++k) good &= got[k] == around[c][k];
            for (std::size_t k = 0; k < after.size(); ++k) good &= got[b + s.size() + k] == around[c][b + 1 + k];
            if (!good) {
                std::string list;
                for (const auto& t : want) list += " " + s.substr(t.begin, t.length) + ":" + type_name(t.type);
                std::string have;
                for (std::size_t k = 0; k < s.size(); ++k) have += (begins[b + k] ? " " : "") + s.substr(k, 1) + ":" + type_name(got[b + k]);
                x.fail("symbols/" + g.name, "in " + printable(before) + "[...]" + printable(after) + " expected" + list + ": got" + have + " (" + type_list(got) + ")" + e);
                break;
            }
        }
        x.nontrivial();
    };
    const auto rec = [&](auto&& me, int left) -> void {
        if (!s.empty()) check();
        if (!left) return;
        for (char c : g.alphabet) {
            s += c;
            me(me, left - 1);
            s.pop_back();
        }
    };
    rec(rec, x.thorough ? g.thorough : g.quick);
    // Long runs of tokens.
    x.set_family(g.name + ", long");
    for (const auto& [a, t] : table)
        for (const auto& [b, u] : table)
            for (std::size_t n : { 2, 3, 7, 8, 9, 16, 17, 64, 65, 300 }) {
                s.clear();
                for (std::size_t i = 0; i < n; ++i) s += a + (b == a ? "" : b);
                bool in = true;
                for (char c : s) in &= g.alphabet.find(c) != std::string::npos;
                if (in) check();
            }
}

void operators(Ctx& x)
{
    for (const auto& g : operator_lists(x.thorough)) operators_of(x, g);
}

} // namespace

int main(int argc, char** argv)
{
    return mini_main(argc, argv, { { "keywords", keywords }, { "operators", operators } });
}
