// Names with a special role: directives, annotations, labels, lifetimes, macros, sigils; and the roles of words in shell
// commands.
#include "grammar.hpp"

using namespace vx;

namespace {

using Grammars = std::vector<Grammar>;

Grammars name_grammars()
{
    Grammars r;
    const auto add = [&](int lang, std::string name, std::string regex, std::string alphabet, std::vector<Context> contexts, std::string placeholder, std::string roles, int quick, int thorough) {
        r.push_back({ lang, std::move(name), std::move(regex), std::move(alphabet), quick, thorough, std::move(contexts), std::move(placeholder), std::move(roles) });
    };
    const std::string B = "[ \\t]*", id = "[a-zA-Z_][a-zA-Z_0-9]*";
    for (const int lang : { ULIGHT_LANG_C, ULIGHT_LANG_CPP }) {
        const std::vector<Context> lines { { "", "\nx;" }, { "x;\n", "\n" }, { "/* a */ ", "\n{}" }, { "x; // y\n\t", "\n" }, { "\n\n  ", "\n\n#else\n" }, { "#if 1\n", "\n#endif" }, { "\"x\"\n", "\n'y'" },
            { "#\n", "\n#\n" }, { "#define a \\\n b\n", "\n" }, { "/*\n*/", "\n" }, { "x;\r\n", "\r\nx;" } };
        const std::string rest = "([ \\t]+(<v a1?>|<n 1>|<q \"><s a*><q \">|<d /[*]><k a><d [*]/>|\\\\\\n" + B + "|<o [+]>|<M #(#?)>[ \\t]*<v a>))*" + B;
        add(lang, "directives", "<M #>" + B + "(<m (define|if|ifdef|endif|pragma|error|a1?)>" + rest + ")?", "# ## \\s \\t define if pragma a 1 \"a\" /*a*/ \\\\\\n +", lines, "#a", "Mm", 6, 7);
        add(lang, "includes", "<M #>" + B + "<m include>" + B + "(<q \\<><s [^\\>\\n\\r]+><q \\>>|<q \"><s [^\"\\n\\r\\\\]+><q \">)" + B, "# \\s \\t include < > \" a / . ' # 1 //", lines, "#include <a>", "MmmmmmmmXqsq", 8, 9);
        r.back().placeholder_roles = "Mmmmmmmm.qsq";
        const std::vector<Context> inside { { "#define a(b) ", "\n" }, { "#define a \\\n", "\n" }, { "#define a(b) b \\\n  ", " + b\n" }, { "x ", "\n" }, { "#a\\\n", "\n" }, { "#a \\\r\n ", "\n" }, { "x \\\n", "\n" } };
        add(lang, "hashes inside lines", "<M (#|##)>[ \\t]*<v (a|b|define|include|if_)>", "# ## \\s \\t a b define include if_", inside, "#a", "Mv", 4, 5);
        std::vector<Context> digraphs;
        for (const auto& c : lines)
            if (c.second.find('#') == std::string::npos) digraphs.push_back(c);
        add(lang, "digraph directives", "<M %:>" + B + "(<m (define|pragma|a)>)?", "%: \\s \\t define pragma a", digraphs, "%:a", "MMm", 5, 6);
    }
    {
        const std::vector<Context> types { { "fn f<", ">() {}" }, { "&", " str" }, { "Box<dyn T + ", ">" }, { "break ", ";" }, { "<", ",T>" }, { "x: &", " mut u8" } };
        const std::string rid = "([a-zA-Z_][a-zA-Z_0-9]*)";
        add(ULIGHT_LANG_RUST, "lifetimes", "<I '><L " + rid + ">|<I 'r#><L ([abt]" + rid + "?)>", "' r# a _ 1 static fn b", types, "'a", "IL", 6, 7);
        const std::vector<Context> loops { { "", " loop {}" }, { "{ ", "while x {}" }, { ";\n", "for a in b {}" }, { "x = ", " loop {}" } };
        add(ULIGHT_LANG_RUST, "labels", "<b '><B " + rid + "><u :>", "' a _ 1 outer fn :", loops, "'a:", "bBu", 6, 7);
        const std::vector<Context> calls { { "", "(1)" }, { "x = ", "[1]" }, { "std::", " {}" }, { "{", "()}" }, { ";", "" }, { "(", ")" } };
        add(ULIGHT_LANG_RUST, "macros", "<m (x[a-z_0-9]*|vec|println|[a-eg-hj-tv-z][0-9_][a-z_0-9]*)><M !>|<M r#><m (x[a-z_][a-z_0-9]*|fn|vec)><M !>", "r# a x _ 1 vec ! println fn", calls, "a!", "mM", 6, 7);
        const std::vector<Context> binary { { "", "2" }, { "x = ", " y" }, { "if ", " 2 {}" }, { "(", "'a')" } };
        add(ULIGHT_LANG_RUST, "inequality", "(<v [xy_][a-df-tv-z_0-9]*>|<n 1+>)[ ]*<o !=>[ ]*", "x a _ 1 != \\s", binary, "x != ", "v.oo.", 6, 7);
        const std::vector<Context> raw { { "", ";" }, { "let ", " = 1;" }, { "a.", "()" }, { "fn ", "() {}" }, { "(", ")" } };
        add(ULIGHT_LANG_RUST, "raw identifiers", "<z r#><v ([a-bd-qt-zA-Z][a-zA-Z0-9_]*)>", "r# a fn match 1 _ b", raw, "r#a", "zzv", 5, 6);
        const std::vector<Context> items { { "", " fn f() {}" }, { "x;\n", "\nstruct S;" }, { "{ ", " }" }, { "(", "a: u8)" } };
        add(ULIGHT_LANG_RUST, "attributes", "<u #><o !>?<[ \\[><v (a|b1|test)>(<( \\(><v (a|b1|test)>(<u ,>[ ]*<v (a|b1|test)>)*<( \\)>|[ ]*<u =>[ ]*<q \"><s a*><q \">)?<[ \\]>", "# ! [ ] a b1 test ( ) , \\s = \"a\"", items, "#[a]", "u[v[", 9, 11);
    }
    {
        const std::string dotted = "<A " + id + ">(<@ .><A " + id + ">)*";
        const std::vector<Context> decls { { "", " class A {}" }, { "@B ", "\nint x;" }, { "(", " int x)" }, { "public ", " void f() {}" }, { "x;\n  ", "(y = 1) int z;" }, { "", "\n@C int x;" } };
        add(ULIGHT_LANG_JAVA, "annotations", "<@ @>" + dotted, "@ A b 1 _ . interface", decls, "@A", "@A", 7, 8);
        const std::vector<Context> kotlin { { "", " class A {}" }, { "@B ", "\nval x = 1" }, { "(", " val x: A)" }, { "x\n  ", "(1) fun f() {}" }, { "", "\n@C val x" } };
        const std::string many = "<[ \\[>[ ]*(" + dotted + "([ ]+" + dotted + ")*)?[ ]*<[ \\]>";
        add(ULIGHT_LANG_KOTLIN, "annotations", "<@ @>(" + dotted + "(<@ :>(" + dotted + "|" + many + "))?|" + many + ")", "@ A b 1 _ . : [ ] \\s file", kotlin, "@A", "@A", 7, 8);
        const std::vector<Context> names { { "val ", " = 1" }, { "", ".a" }, { "a.", "()" }, { "fun ", "() {}" }, { "(", ")" } };
        add(ULIGHT_LANG_KOTLIN, "quoted names", "<z `><v [^`\\n\\r]+><z `>", "` a \\s 1 ' \" / // $ {", names, "`a`", "zvz", 6, 7);
        r.back().ascii = 4;
    }
    {
        const std::string name = "[\\-$._a-zA-Z0-9]+";
        const std::vector<Context> operands { { "ret ptr ", "\n" }, { "store i32 ", ", ptr null" }, { "call void @f(i32 ", ")" }, { "", " = add i32 1, 2" }, { "[", ",i32 1]" } };
        add(ULIGHT_LANG_LLVM, "names", "<g %><G " + name + ">|<f @><F " + name + ">", "% @ a . $ - _ 1 x i32", operands, "%a", "gG", 5, 6);
        add(ULIGHT_LANG_LLVM, "quoted names", "<g %><q \"><s [^\"\\\\]+><q \">|<f @><q \"><s [^\"\\\\]+><q \">", "% @ a . \" \\s % @", operands, "%\"a\"", "gqsq", 6, 7);
        const std::vector<Context> blocks { { "", "\n" }, { "ret void\n", " ret void" }, { "define void @f() {\n", "; preds = %0\n" }, { "\n\n", "br label %a" } };
        add(ULIGHT_LANG_LLVM, "labels", "<_ ([a-tv-zA-Z$._]|u[\\-$._a-zA-Z])[\\-$._a-zA-Z1-9]*><b :>", "a . $ - _ 1 : i32 s", blocks, "a:", "_b", 6, 7);
    }
    {
        const std::vector<Context> lines { { "", " mov eax, 1" }, { "ret\n", "\n" }, { "x: ret\n  ", "ret" }, { "; a\n", " ; b\n" }, { "db 1\n", "\n db 2" } };
        add(ULIGHT_LANG_NASM, "labels", "<_ (.[a-zA-Z_]|[a-rt-vx-zA-RT-VX-Z_])[a-zA-Z0-9_$#@~.?]*:>", "a . _ 1 ? $ @ # ~ mov eax :", lines, "a:", "__", 5, 6);
        add(ULIGHT_LANG_NASM, "local labels", "<_ .[a-zA-Z_][a-zA-Z0-9_]*>", ". a _ 1 mov", { { "jmp ", "\n" }, { "", " ret" }, { "ret\n", "\n" }, { "mov eax, [", "]" }, { "dd ", ", 1" } }, ".a", "__", 5, 6);
        add(ULIGHT_LANG_NASM, "macro lines", "<m %[^\\n\\r]*>", "% a 1 \" ' ; ` , ( \\s define", { { "", "\nret" }, { "ret\n", "\n" }, { "x:\n  ", "\n%a" }, { "", "" }, { "; a\n", "\nx: ret" } }, "%a", "mm", 5, 6);
    }
    {
        const std::vector<Context> nodes { { "a: ", " b\nc: d" }, { "- ", " b\n- c" }, { "", " b" }, { "a: ", "\n  b: c\n" }, { "a:\n- ", "\n  b: c\n" }, { "[", " a, b]" }, { "{a: ", " b}" }, { "[a, ", " b]" },
            { "a: ", " \"b\"\n" }, { "a: ", " |\n  b\n" } };
        add(ULIGHT_LANG_YAML, "tags", "<@ !><A [a-z0-9_]*>|<@ !!><A [a-z0-9_]+>|<@ !><A [a-z0-9\\-]+><@ !><A [a-z0-9_\\-.%]+>|<@ !\\<><A [a-z0-9!:,.%/#]+><@ \\>>", "! < > a 1 - . _ : % , #", nodes, "!a", "@A", 5, 6);
        add(ULIGHT_LANG_YAML, "anchors", "<@ &><v [^ \\t\\n\\r,\\[\\]{}\\0]*[^ \\t\\n\\r,\\[\\]{}\\0:]>", "& a 1 - _ . * ! # \" '", nodes, "&a", "@v", 4, 5);
        r.back().ascii = 3;
        const std::vector<Context> aliases { { "a: ", "\nc: d" }, { "- ", "\n- c" }, { "[", " , b]" }, { "{a: ", " }" }, { "[a, ", "]" }, { "a: {b: ", ", c: d}" } };
        add(ULIGHT_LANG_YAML, "aliases", "<@ [*]><v [^ \\t\\n\\r,\\[\\]{}\\0]*[^ \\t\\n\\r,\\[\\]{}\\0:]>", "& a 1 - _ . * ! # \" '", aliases, "*a", "@v", 4, 5);
        r.back().ascii = 3;
        add(ULIGHT_LANG_YAML, "directives", "<M %><m [A-Za-z0-9]+>([ ]+<s [a-zA-Z0-9!:.,/]+>)*", "% YAML TAG a 1 . ! : , \\s", { { "", "\n---\na: b" }, { "%YAML 1.2\n", "\n---\n" }, { "# c\n", "\n--- a" }, { "a: b\n...\n", "\n---\nc: d" } }, "%a", "Mm", 6, 7);
    }
    {
        add(ULIGHT_LANG_LUA, "attributes", "<@ \\<><A (const|close)><@ \\>>", "< > const close", { { "local x ", " = 1" }, { "local x", "=1" }, { "local x ", ", y = 1, 2" }, { "local a <const>, b ", " = 1, 2" } }, "<const>", "@AAAAA@", 3, 3);
        add(ULIGHT_LANG_COWEL, "directives", "<t \\\\[a-zA-Z_][a-zA-Z_0-9]*>", "\\\\ a Z _ 1 b", { { "", "" }, { "", "{b}" }, { "a ", " c" }, { "\\x{", "}" }, { "", "(b = 1){c}" }, { "a\n", "\nb" }, { "\\x{\\y ", " z}" } }, "\\a", "tt", 6, 7);
    }
    return r;
}

Grammars command_grammars()
{
    Grammars r;
    const auto add = [&](std::string name, std::string regex, std::string alphabet, std::vector<Context> contexts, std::string placeholder, std::string roles, int quick, int thorough) {
        r.push_back({ ULIGHT_LANG_BASH, std::move(name), std::move(regex), std::move(alphabet), quick, thorough, std::move(contexts), std::move(placeholder), std::move(roles) });
    };
    const std::vector<Context> in { { "", "" }, { "a; ", "\nb c" }, { "$(", ")" }, { "x \"$(", ")\"" }, { "(", ")" }, { "a && ", " || b" }, { "x $(", ") y" }, { "if a; then\n", "\nfi" }, { "# c\n", " # d\n" }, { "x <(", ") -y" } };
    const std::string braced = "<j ${><i a(:?-b)?><j }>", subst = "(<i $([*@#?!0-]|$)>|" + braced + ")";
    const std::string quoted = "(<q '><s [^']*><q '>|<q \"><s (a|'| |;|#)*><q \">|<e \\\\[^\\n]>)";
    const std::string plain = "[a-zA-Z0-9_./=+,:%@^~\\-]";
    const std::string arg = "(<O -(" + plain + "|#)*>|<s [a-z0-9_./=+,:%@^~]" + plain + "*>|" + subst + "|" + quoted + ")(<s (" + plain + "|#)+>|" + subst + "|" + quoted + ")*";
    const std::string command = "(<C [a-z_./]" + plain + "*>|" + subst + "|" + quoted + ")(<C (" + plain + "|#)+>|" + subst + "|" + quoted + ")*";
    const std::string simple = command + "([ \\t]+" + arg + "|[ \\t]*<o (\\<|\\>|\\>\\>|&\\>|\\<\\<\\<)>[ \\t]*" + arg + ")*";
    const std::string list = simple + "([ \\t]*(<o (;|&&|[|]|[|][|]|[|]&)>[ \\t]*(\\n[ \\t]*)?|\\n[ \\t]*)" + simple + ")*";
    add("lists", list, "a -b1 \\s ; && | & \\n > 'c' $?", in, "a", "C", 6, 7);
    add("words", simple, "a - \\s ${a} \"a\" 'a' \\\\a # = $a $? / \\t", in, "a", "C", 5, 6);
    add("parameters", "<C a>[ ](<i $(a1?|_a|[*@#?!0-]|$)>|" + braced + ")(<s .[ab1./]*>)?", "$ a 1 _ { } * @ # ? ! 0 - : b . \\s", { { "", "" }, { "x; ", "\n" }, { "$(", ")" } }, "a $a", "C.ii", 6, 7);
    const std::string word = "<s [a-z]+>";
    add("background commands", "<C [a-z]+>[ ]*<o &>[ ]*<C [a-z]+>([ ]" + word + ")?", "a b \\s &", { { "", "" }, { "x; ", "\n" }, { "$(", ")" } }, "a", "C", 6, 7);
    r.back().deviation_example = "a & b";
    r.back().deviation = "<C [a-z]+>[ ]*<o &>[ ]*<s [a-z]+>([ ]" + word + ")?";
    r[r.size() - 2].alphabet = "$ a\\s 1 _ ${ } * @ # ? ! 0 - : a b .";
    return r;
}

void names(Ctx& x)
{
    for (const auto& g : name_grammars()) run_grammar(x, g);
}

void commands(Ctx& x)
{
    for (const auto& g : command_grammars()) run_grammar(x, g);
}

} // namespace

int main(int argc, char** argv)
{
    return mini_main(argc, argv, { { "names", names }, { "commands", commands } });
}
