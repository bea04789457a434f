// The structure of XML and HTML documents: tags, attributes, references, declarations, instructions and sections
// against reference grammars, and sequences of such pieces.
#include "grammar.hpp"

using namespace vx;

namespace {

const std::string xml_reference = "(<e &(amp|lt|[a-zA-Z_:][a-zA-Z_:0-9.]*|#[0-9]+|#x[0-9a-fA-F]+);>)";
const std::string html_reference = "(<e &([a-zA-Z0-9]+|#[0-9]+|#[xX][0-9a-fA-F]+);>)";
const std::string xml_name = "[a-zA-Z_:][a-zA-Z_:0-9.]*";
const std::string xml_value = "(<q \"><s ([^\\<&\"]|" + xml_reference + ")*><q \">|<q '><s ([^\\<&']|" + xml_reference + ")*><q '>)";
const std::string entity_value = "(<q \"><s ([^&\"]|" + xml_reference + ")*><q \">|<q '><s ([^&']|" + xml_reference + ")*><q '>)";
const std::string html_value = "(<s \"([^&\"]|" + html_reference + ")*\">|<s '([^&']|" + html_reference + ")*'>|<s ([^&\"'\\s\\<\\>=`\\n\\t\\r\\f\\v\\0]|" + html_reference + ")+>)";
const std::string S = "([\\s\\n\\t\\r][\\s\\n\\t\\r]?)", S0 = S + "?";

std::string spaced(std::string s) // \s is a space in here
{
    for (std::size_t i = 0; i + 1 < s.size(); ++i)
        if (s[i] == '\\' && s[i + 1] == 's') s.replace(i, 2, " ");
        else if (s[i] == '\\') ++i;
    return s;
}

std::vector<Grammar> xml_grammars()
{
    std::vector<Grammar> r;
    const auto add = [&](std::string name, std::string regex, std::string alphabet, std::vector<Context> contexts, std::string placeholder, std::string roles, int quick, int thorough) {
        r.push_back({ ULIGHT_LANG_XML, std::move(name), spaced(regex), std::move(alphabet), quick, thorough, std::move(contexts), std::move(placeholder), std::move(roles) });
    };
    const std::vector<Context> content { { "<a>", "</a>" }, { "", "" }, { "<?xml version=\"1.0\"?><a>", "</a>" }, { "<!DOCTYPE a>\n<a>", "<b/></a>" }, { "<a>b &amp;", "&lt; c</a>" },
        { "<a><!---->", "<!----></a>" }, { "<a><![CDATA[ ]]>", "<![CDATA[ ]]></a>" }, { "<a><b c=''>", "<?d?></b></a>" } };
    const std::string attribute = "<a " + xml_name + ">" + S0 + "<u =>" + S0 + xml_value;
    add("start tags", "<u \\<><t " + xml_name + ">(" + S + attribute + ")*" + S0 + "<u (\\>|/\\>)>", "< a b1 = \" ' \\s /> > &a_; x", content, "<a>", "utu", 9, 10);
    add("start tags", "<u \\<><t " + xml_name + ">(" + S + attribute + ")*" + S0 + "<u (\\>|/\\>)>", "<a \\sb=\"c\" \\s:d.e\\n=\\t'<' \\sf='' \\sg=\"&amp; \" > /> \\n \\t \\r\\n &#10; ' /", content, "<a>", "utu", 6, 7);
    add("end tags", "<u \\</><t " + xml_name + ">" + S0 + "<u \\>>", "</ a _ : . 1 \\s \\n \\t \\r >", content, "</a>", "uutu", 7, 8);
    add("references", xml_reference, "& # x X a _ : . 1 F ; lt", content, "&a;", "eee", 8, 9);
    add("sections", "<m \\<!\\[CDATA\\[>([^\\]]|\\][^\\]]|\\]\\]+[^\\>\\]])*<m \\]\\]\\>>", "<![CDATA[ ]]> ] a > < & ; \\n \"", { content.begin() + 2, content.end() }, "<![CDATA[]]>", "mmmmmmmmmmmm", 7, 8);
    add("instructions", "<u \\<\\?><m [a-wyzA-WYZ_:][a-zA-Z_:0-9.]*>(" + S + "([^?]|\\?+[^?\\>])*)?<u \\?\\>>", "<? a xml : ?> ? > < & \" \\s \\n =", content, "<?a?>", "uumuu", 8, 9);
    add("text", "[^\\<&]+", "a > ] ]]> / = \" ' ; # -- ?> \\n", content, "a", ".", 5, 6);
    r.back().ascii = 2;
    {
        const std::vector<Context> start { { "", "<a/>" }, { "", "\n<!DOCTYPE a>\n<a>b</a>" }, { "", " <!-- --> <a></a>" }, { "", "<?b?><a/>" } };
        const std::string eq = S0 + "<u =>" + S0;
        const std::string q = "(<q '><s x><q '>|<q \"><s x><q \">)";
        const auto quoted = [&](const std::string& c) { return "(<q '><s " + c + "><q '>|<q \"><s " + c + "><q \">)"; };
        add("declarations",
            "<m \\<\\?xml>" + S + "<a version>" + eq + quoted("1\\.[0-9]+") + "(" + S + "<a encoding>" + eq + quoted("[A-Za-z][A-Za-z0-9._\\-]*") + ")?(" + S + "<a standalone>" + eq + quoted("(yes|no)") + ")?" + S0
                + "<m \\?\\>>",
            "<?xml \\s version encoding standalone = ' \" 1.0 UTF-8 yes no ?> \\n", start, "<?xml version=\"1.0\"?>", "mmmmm.aaaaaaauqsssqmm", 16, 18);
        const std::string N = "(a|a_1[.]|ANYa|IDb|SYSTEM|NDATAc|EMPTY|d:CDATA|ENTITYe)"; // names
        const std::string M = "(a|a_1[.]|ANYa|IDb|NDATAc|d:CDATA|ENTITYe)"; // names
        const std::vector<Context> doctype { { "", "<a/>" }, { "<?xml version=\"1.0\"?>", "\n<a b='c'>d</a>" }, { "<!-- -->\n", "<!-- --><a>b</a>" }, { "<?a b?>", " <?b?><a/>" } };
        const std::string id = "(<w SYSTEM>" + S + "<q '><s [^'&\\<]*><q '>|<w PUBLIC>" + S + "<q \"><s [a-z]*><q \">" + S + "<q '><s [^'&\\<]*><q '>)";
        const std::string begin = "<m \\<!DOCTYPE>" + S + "<v " + N + ">(" + S + id + ")?" + S0;
        add("document types", begin + "(<u \\[>" + S0 + "<u \\]>" + S0 + ")?<m \\>>", "<!DOCTYPE \\s \\n a SYSTEM PUBLIC a_1. d:CDATA ' '/' \" [ ] >", doctype, "<!DOCTYPE a>", "mmmmmmmmm.vm", 9, 10);
        const std::vector<Context> subset { { "<!DOCTYPE a [", "]><a/>" }, { "<!DOCTYPE a SYSTEM 'b' [\n", "\n] >\n<a>b</a>" }, { "<!DOCTYPE a [<!ELEMENT b EMPTY>", "<!ENTITY c 'd'>]><a b='c'/>" },
            { "<!DOCTYPE a[<!-- -->", "<?b?>]><a/>" } };
        const std::string P = "(" + S0 + "<u [()|,*]>" + S0 + ")";
        add("element declarations", "<m \\<!ELEMENT>" + S + "<v " + N + ">" + S + "(<w EMPTY>|<w ANY>|<u \\(>" + S0 + "(<w #PCDATA>(" + P + "<v " + M + ">)*|<v " + M + ">(" + P + "+<v " + M + ">)*)" + S0 + "(<u \\)>[ ]*)+(<u \\*>)?)" + S0 + "<m \\>>",
            "<!ELEMENT \\s a ANY EMPTY ANYa IDb SYSTEM #PCDATA ( ) | , * >", subset, "<!ELEMENT a ANY>", "mmmmmmmmm.v.wwwm", 9, 10);
        const std::string type = "(<w (CDATA|ID|IDREF|IDREFS|ENTITY|ENTITIES|NMTOKEN|NMTOKENS)>|(<w NOTATION>" + S + ")?<u \\(>" + S0 + "<v " + M + ">(" + S0 + "<u |>" + S0 + "<v " + M + ">)*" + S0 + "<u \\)>)";
        std::string type_fixed = type;
        for (std::size_t i = type_fixed.find("<u |>"); i != std::string::npos; i = type_fixed.find("<u |>", i + 1)) type_fixed.replace(i, 5, "<u [|]>");
        add("attribute declarations", "<m \\<!ATTLIST>" + S + "<v " + N + ">(" + S + "<v " + M + ">" + S + type_fixed + S + "(<w #REQUIRED>|<w #IMPLIED>|(<w #FIXED>" + S + ")?" + xml_value + "))*" + S0 + "<m \\>>",
            "<!ATTLIST \\s a IDb ENTITYe EMPTY CDATA ID IDREFS NOTATION ( ) | #REQUIRED #IMPLIED #FIXED 'b' \"&c;\" >", subset, "<!ATTLIST a>", "mmmmmmmmm.vm", 11, 13);
        add("entity declarations",
            "<m \\<!ENTITY>" + S + "(<u %>" + S + ")?<v " + N + ">" + S + "(" + entity_value + "|(<w SYSTEM>" + S + "<q '><s [^'&]*><q '>|<w PUBLIC>" + S + "<q '><s [a-z]*><q '>" + S + "<q '><s [^'&]*><q '>)(" + S + "<w NDATA>" + S + "<v " + N + ">)?)" + S0 + "<m \\>>",
            "<!ENTITY \\s % a NDATAc SYSTEM PUBLIC NDATA ' \"b&c;\" 'd' >", subset, "<!ENTITY a ''>", "mmmmmmmm.v.qqm", 11, 13);
    }
    return r;
}

std::vector<Grammar> html_grammars()
{
    std::vector<Grammar> r;
    const auto add = [&](std::string name, std::string regex, std::string alphabet, std::vector<Context> contexts, std::string placeholder, std::string roles, int quick, int thorough) {
        r.push_back({ ULIGHT_LANG_HTML, std::move(name), spaced(regex), std::move(alphabet), quick, thorough, std::move(contexts), std::move(placeholder), std::move(roles) });
    };
    const std::vector<Context> content { { "<p>", "</p>" }, { "", "" }, { "<!DOCTYPE html>", "</p>" }, { "<!---->", "<!---->" }, { "a &amp;", "&lt; b" }, { "<script>1</script>", "<style>a{}</style>" },
        { "<a b=c>", "<br/>" }, { "<title>a</title>", "<title>b</title>" } };
    const std::string tag = "[a-zA-Z][a-zA-Z0-9]*";
    const std::string attr_name = "[a-zA-Z:@_.0-9\\-]+";
    const std::string W = "([ \\n\\t\\r\\f][ \\n\\t\\r\\f]?)", W0 = W + "?";
    const std::string quoted = "(<s \"([^&\"]|" + html_reference + ")*\">|<s '([^&']|" + html_reference + ")*'>)";
    const std::string unquoted = "<s ([^&\"' \\<\\>=`\\n\\t\\r\\f\\v\\0]|" + html_reference + ")+>";
    // Attributes are separated by white space; unquoted values extend up to white space or the end of the tag.
    const std::string simple = "(<a " + attr_name + ">(" + W0 + "<u =>" + W0 + quoted + ")?)";
    const std::string attribute = "(" + simple + "|<a " + attr_name + ">" + W0 + "<u =>" + W0 + unquoted + ")";
    const std::string start = "<u \\<><t " + tag + ">((" + W + attribute + ")*" + W0 + "<u \\>>|((" + W + attribute + ")*" + W + simple + ")?" + W0 + "<u /\\>>|(" + W + attribute + ")+" + W + "<u /\\>>)";
    add("start tags", start, "< a b1 = \" ' \\s /> > &a1; x", content, "<a>", "utu", 8, 9);
    add("start tags", start, "<a \\sb \\sc=d \\s@e-f.g\\n=\\t'<' \\sh='' \\si=\"&amp;\" > /> \\n \\f \\r\\n &#10; ' /", content, "<a>", "utu", 6, 7);
    add("end tags", "<u \\</><t " + tag + ">" + W0 + "<u \\>>", "</ a H 1 \\s \\n \\t \\r \\f > script title", content, "</a>", "uutu", 6, 7);
    add("references", html_reference, "& # x X a 1 F ; lt", content, "&a;", "eee", 8, 9);
    add("sections", "<m \\<!\\[CDATA\\[>([^\\]]|\\][^\\]]|\\]\\]+[^\\>\\]])*<m \\]\\]\\>>", "<![CDATA[ ]]> ] a > < & ; \\n \"", content, "<![CDATA[]]>", "mmmmmmmmmmmm", 7, 8);
    add("document types", "<m \\<![dD][oO][cC][tT][yY][pP][eE]" + W + "[hH][tT][mM][lL]([^\\>\\<])*\\>>", "<!DOCTYPE <!doctype \\s html HTML PUBLIC \" ' / \\n >", content, "<!DOCTYPE html>", "mmmmmmmmmmmmmmm", 6, 7);
    add("text", "[^\\<&]+", "a > ] ]]> / = \" ' ; # -- ?> \\n", content, "a", ".", 5, 6);
    r.back().ascii = 2;
    {
        const std::vector<Context> around { { "<p>", "</p>" }, { "", "" }, { "<b c=d>", "<!-- -->" } };
        // Escapable raw text: references, but no tags.
        const std::string raw = "([^&\\<]|\\<+[^/&\\<]|\\<+/[^tT\\<&]|" + html_reference + ")*";
        for (const std::string t : { "title", "textarea", "TITLE" }) {
            const std::string upper = t;
            add("raw text in " + t, "<u \\<><t " + t + "><u \\>>" + raw + "<u \\</><t " + t + ">" + W0 + "<u \\>>", "<" + t + "> </" + t + " > \\s &amp; &a < / > a <b> \" </p> &", around, "<" + t + "></" + t + ">",
                "u" + std::string(t.size(), 't') + "uuu" + std::string(t.size(), 't') + "u", 6, 7);
        }
    }
    return r;
}

// ------------------------------------------------------------------------------------------------- sequences

struct Piece {
    std::string text, roles;
};

void sequences_of(Ctx& x, int lang, const Piece& first, const std::vector<Piece>& pieces, int length)
{
    x.set_family(std::string(lang_name(lang)) + "/sequences");
    std::string text = first.text, roles = first.roles;
    const auto rec = [&](auto&& self, int left) -> void {
        if (left == 0) {
            if (!x.begin(std::string(lang_name(lang)) + " sequence " + text)) return;
            const auto got = types_of(lang, text, ULIGHT_COALESCE);
            const auto want = expand(roles);
            if (!agree(got, want)) x.fail(std::string("sequence/") + lang_name(lang), "got " + type_list(got) + ", expected " + type_list(want));
            x.nontrivial();
            return;
        }
        for (const auto& p : pieces) {
            const auto a = text.size();
            text += p.text;
            roles += p.roles;
            self(self, left - 1);
            text.resize(a);
            roles.resize(a);
        }
    };
    for (int l = 1; l <= length; ++l) rec(rec, l);
}

void markup(Ctx& x)
{
    for (const auto& g : xml_grammars()) run_grammar(x, g);
    for (const auto& g : html_grammars()) run_grammar(x, g);
    const std::vector<Piece> xml {
        { "<a>", "utu" }, { "</a>", "uutu" }, { "<a/>", "utuu" }, { "<a b='c'>", "ut.auqsqu" }, { "<a b=\"&c;\"\n>", "ut.auqeeeq.u" }, { "x", "." }, { "&lt;", "eeee" }, { "<!--y-->", "ddddkddd" },
        { "<![CDATA[<z>&]]>", "mmmmmmmmm....mmm" }, { "<?p ?>", "uum.uu" }, { "<?q?>", "uumuu" }, { "\n", "." }, { ">", "." }, { "]]", ".." }, { "'", "." }, { "<b c='>' />", "ut.auqsq.uu" },
    };
    sequences_of(x, ULIGHT_LANG_XML, { "<r>", "utu" }, xml, x.thorough ? 5 : 4);
    const std::vector<Piece> html {
        { "<a>", "utu" }, { "</a>", "uutu" }, { "<a/>", "utuu" }, { "<a b='c'>", "ut.ausssu" }, { "<a b=\"&c;\"\n>", "ut.auseees.u" }, { "x", "." }, { "&lt;", "eeee" }, { "<!--y-->", "ddddkddd" },
        { "<a b>", "ut.au" }, { "<a b=c>", "ut.ausu" }, { "\n", "." }, { ">", "." }, { "'", "." }, { "<script>1</script>", "uttttttunuuttttttu" }, { "<style></style>", "utttttuuutttttu" },
        { "<title><b>&lt;</title>", "utttttu...eeeeuutttttu" }, { "<!doctype html>", "mmmmmmmmmmmmmmm" }, { "<b c='>' />", "ut.ausss.uu" },
    };
    sequences_of(x, ULIGHT_LANG_HTML, {}, html, x.thorough ? 5 : 4);
}

} // namespace

int main(int argc, char** argv)
{
    return mini_main(argc, argv, { { "markup", markup } });
}
