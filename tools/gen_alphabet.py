#!/usr/bin/env python3
"""Writes the input alphabets used by the bounded explorations.

usage: gen_alphabet.py REPO OUT
Curated lexemes and construct openers are written down here; in addition, every character and
string literal found in the language sources becomes a lexeme ("auto"), so that lexemes the code
distinguishes are in the alphabet even when they are added later. This only feeds the generation
of inputs; no verdict depends on how the sources are written.
"""
import glob, os, re, sys

LANGS = dict(none=0, cowel=1, cpp=2, lua=3, html=4, css=5, c=6, javascript=7, bash=8, diff=9,
             json=10, jsonc=11, xml=12, txt=13, tex=14, latex=15, nasm=16, ebnf=17, python=18,
             kotlin=19, typescript=20, rust=21, llvm=22, markdown=23, java=24, yaml=25)

# language -> source stem in src/main/cpp/lang, corpus directories
STEM = dict(c='cpp', cpp='cpp', javascript='js', typescript='js', jsonc='json', json='json',
            latex='tex', tex='tex')
CORPUS = dict(javascript=['js', 'typescript'], typescript=['typescript', 'js'], cpp=['cpp', 'c'], c=['c', 'cpp'],
              json=['json', 'jsonc'], jsonc=['jsonc', 'json'], latex=['latex'], tex=['latex'])

COMMON = ['\n', ' ', 'a', '0', '\u00e9', '"', "'", '\\', '(', ')', '{', '}', '[', ']', '/', '*', '-', '=', '.', ',', ';', ':', '<', '>', '&', '#']

CORE = {
 'cowel': COMMON + ['\\:', '\\*', '*\\', '\\x', '\\x{', '\\x(', '\\(', '\\ ', '\\.', '\\"', '""', 'fun', 'true', '-infinity', '...', '==', '&&', '0x1', '1e+', '\r', '\t', '\U0001F600'],
 'cpp': COMMON + ['//', '/*', '*/', '#include', 'R"', 'R"x(', ')x"', '\\\n', 'u8', '\\x', '\\u', '1', 'e+', "'0'", '_', 'int', '<%', '%:', '\r\n', '@', '<<=', '...', 'L', '0x', '<a>'],
 'lua': COMMON + ['--', '--[[', '--[==[', ']]', ']==]', '[[', '[=[', '\\x', '\\u{', '\\z', 'end', '0x', 'e+', '..', '...', '~=', '//', '1', '::', 'function'],
 'html': COMMON + ['<!--', '-->', '<!-->', '<!DOCTYPE', '<![CDATA[', ']]>', '<a', '<a ', '</', '</a>', '</a >', '/>', '<script>', '</script>', '</script', '<style>', '</style>', '<title>', '</title>', '<textarea>', '&amp;', '&#x1;', '&#1;', 'a=', '\ufeff', '!', '\t', '--!>', '<!'],
 'css': COMMON + ['/*', '*/', '<!--', '-->', '@media', '!important', '#fff', '1px', '1e3', '+', '%', 'url(', '\\61 ', '--x', '~', '|', '@', '!', '\f', '1', '.5', '\r\n'],
 'javascript': COMMON + ['//', '/*', '*/', '`', '${', '=>', 'let', '/a/', '/g', '</', '/>', '<a', '<a>', '</a>', '<>', '</>', '0x', '1n', '1', 'e+', '_', '\\u', '\\u{', '\\x', '#!', 'return', '?', '!', '+', '\u2028', '$', '@', '|', '\r\n'],
 'bash': COMMON + ['$', '${', '$(', '$((', '))', '`', '|', '||', '&&', '>>', '2>', '<(', ">(", '$a', '$1', '$?', '\\\n', 'if', '--a', '-a', "$'", '!', '~', '%', '+', '?', '@', '\t', '\r\n', '\\"', '<<'],
 'diff': ['\n', ' ', 'a', '-', '+', '@', '*', '!', '\r\n', '\r', '--- ', '+++ ', '*** ', '@@ ', '***', '---', '+++', '@@', '\\', '\u00e9', '#', '<', '>', '=', '\t', '0'],
 'json': COMMON + ['true', 'false', 'null', '//', '/*', '*/', '\\u', '\\u00e9', '\\"', '\\n', '1', 'e', 'e+', '-', '0x', '""', '\t', '\r', '\f', '\\q', 'tru', '\U0001F600', '\x01'],
 'xml': COMMON + ['<!--', '-->', '--', '<?xml', '<?', '?>', '<!DOCTYPE', '<![CDATA[', ']]>', '<a', '</a', '</', '/>', '&a;', '&#1;', '%a;', '%', 'version="1"', 'version', '<!ELEMENT', '<!ATTLIST', 'SYSTEM', 'PUBLIC', 'CDATA', '?', '!', '|', '\ufeff', '#PCDATA', 'EMPTY'],
 'txt': ['\n', ' ', 'a', '\u00e9', '<', '>', '&', '"'],
 'tex': COMMON + ['\\a', '\\ab', '\\{', '$', '%', '^', '_', '~', '\\\\', '\\\u00e9', '\\\n', '@', '\r\n'],
 'nasm': COMMON + ['mov', 'rax', 'section', '%define', '%%', '%', '0x', '1h', '0b1', '1e+', '$', '$0', '`', '\\x', '\\u', '\\U', '_start', '..@', 'db', '\\\n', '!', '_', '1', '?', '@', '{z}', '\r\n', 'h', '<<'],
 'ebnf': COMMON + ['(*', '*)', '?', '(:', ':)', '(/', '/)', '|', '`', '!', 'ab', '1', '_', '\t', '\r\n', '\v', '+', '%', '@', '^', '\f'],
 'python': COMMON + ['"""', "'''", 'f"', "f'", 'f"""', 'r"', 'b"', 'rb"', '\\x', '\\u', '\\U', '\\N{', '\\N{a}', '\\\n', 'def', 'class', 'None', '@', '0x', '1_0', 'j', 'e+', '1', '_', '!', '->', '{{', '}}', '\r\n', '\t', '->'],
 'kotlin': COMMON + ['"""', '${', '$a', '$', '`', '//', '/*', '*/', '@', '@a', '\\u', '\\n', 'fun', 'val', '0x', '1L', '1u', 'e+', '1', '_', "'a'", '?', '!', '..', '->', '!!', '::', '@file:', 'as?', '\r\n'],
 'rust': COMMON + ['r"', 'r#"', '"#', 'b"', 'b\'', 'br#"', "'a", "'a'", '//', '///', '//!', '/*', '*/', '/**', 'fn', 'let', 'r#a', '0x', '1u8', 'e+', '1', '_', '\\x', '\\u{', '!', '#![', '#[', '::', '->', 'macro_rules!', 'a!', '\r\n', '$', '?', "\\\n"],
 'llvm': COMMON + ['%', '%a', '@', '@a', '!', '!a', '0x', '0xK', '1', 'e+', 'define', 'i32', 's0x', 'u0x', '"\\', '\\0', '\\22', 'c"', '%"', '@"', '$', '|', '...', '^', '-', '+', '\r\n', '_', 'a:', 'add'],
 'markdown': COMMON + ['# ', '## ', '```', '~~~', '`', '**', '_', '__', '***', '> ', '- ', '1. ', '![', '](', '[a](b)', '<!--', '-->', '<a:b>', '&amp;', '    ', '\t', '!', '\\*', '---', '===', '\r\n', '@', '+ ', '#', '~'],
 'java': COMMON + ['"""', '//', '/*', '*/', '/**', '@', '@A', '@interface', '\\u', '\\u0041', '\\n', '\\0', '\\s', 'class', 'int', '0x', '1L', 'e+', 'p', '1', '_', '?', '!', '::', '->', '>>>=', '+', '%', '\\\n', '\r\n', 'non-sealed'],
 'yaml': COMMON + ['---', '...', '- ', ': ', '? ', '|', '|\n', '>\n', '|-\n', '  ', '\n ', '\n  ', '&a', '*a', '!', '!!str', '!<', '%YAML', '%', '\\x', '\\u', "''", '~', 'null', 'yes', '.inf', '0x', '1', 'e+', ' #', '\t', '\r\n', 'a:', '@', '`', '+', '12:30'],
}
CORE['c'] = CORE['cpp']
CORE['typescript'] = CORE['javascript'] + ['interface']
CORE['jsonc'] = CORE['json']
CORE['latex'] = CORE['tex']

MINI = {
 'cowel': ['\n', 'a', '\\', '"', '(', ')', '{', '}', '=', ',', '\\:', '\\*', '*\\', '\\x', '-', '.', '0', ' '],
 'cpp': ['\n', 'a', '"', "'", '\\', '(', ')', '/', '*', '#', 'R"', '<', '>', '0', '.', '_', ' ', '%', ':'],
 'lua': ['\n', 'a', '"', '\\', '[', ']', '=', '-', '--', '0', '.', 'x', 'e', '+', '{', '}', ' '],
 'html': ['\n', 'a', '<', '>', '/', '!', '-', '"', "'", '=', '&', ';', '&amp;', '<script>', '</script', '<title>', '</title', ' '],
 'css': ['\n', 'a', '"', '\\', '{', '}', ':', ';', '@', '/*', '*/', '-', '.', '#', '0', '(', ')', '!', ' '],
 'javascript': ['\n', 'a', '"', '`', '${', '}', '{', '/', '*', '<', '>', '\\', '0', '.', '(', ')', '=', ' '],
 'bash': ['\n', 'a', '"', "'", '\\', '$', '{', '}', '(', ')', '#', '-', '=', '|', '&', '<', '>', '`', ' '],
 'diff': ['\n', '\r', ' ', 'a', '-', '+', '@', '*', '!', '\\', '\u00e9'],
 'json': ['\n', 'a', '"', '\\', '{', '}', '[', ']', ':', ',', '/', '*', '0', '-', '.', 'e', 'true', '\u00e9', 'u'],
 'xml': ['\n', 'a', '<', '>', '/', '!', '?', '-', '"', '=', '&', ';', '[', ']', '<!', '%', '<?xml', ' '],
 'txt': ['\n', ' ', 'a', '<', '&'],
 'tex': ['\n', 'a', '\\', '{', '}', '[', ']', '$', '%', ' ', '\u00e9', '@', '0'],
 'nasm': ['\n', 'a', '"', '`', '\\', '%', ';', ':', '[', ']', '0', 'x', 'e', '+', '.', '$', '_', ' ', 'mov'],
 'ebnf': ['\n', 'a', '"', "'", '(', ')', '*', '?', '=', ';', '/', ':', '-', '0', '[', '|', ' '],
 'python': ['\n', 'a', '"', "'", '\\', 'f', 'r', '{', '}', '(', ')', '#', '0', '.', '_', ':', '!', 'N', ' '],
 'kotlin': ['\n', 'a', '"', "'", '\\', '$', '{', '}', '/', '*', '@', '`', '0', '.', '_', ':', '(', ')', ' '],
 'rust': ['\n', 'a', '"', "'", '\\', 'r', '#', 'b', '/', '*', '!', '0', '.', '_', '{', '}', ':', '<', '>'],
 'llvm': ['\n', 'a', '"', '\\', '%', '@', '!', ';', '0', 'x', '.', 'e', '+', '-', '(', ')', ':', ' '],
 'markdown': ['\n', 'a', '#', '`', '*', '_', '[', ']', '(', ')', '!', '<', '>', '-', '\\', '&', ' ', ':', '~'],
 'java': ['\n', 'a', '"', "'", '\\', '/', '*', '@', '0', '.', '_', '{', '}', '(', ')', 'u', '<', '>', ' '],
 'yaml': ['\n', 'a', '"', "'", '\\', ':', '-', '#', '|', '>', '{', '}', '[', ']', ',', '&', '*', '!', ' ', '%'],
}
MINI['c'] = MINI['cpp']; MINI['typescript'] = MINI['javascript']; MINI['jsonc'] = MINI['json']; MINI['latex'] = MINI['tex']

CTX = {
 'cowel': ['\\x(', '\\x{', '\\(', '\\ ', '\\x(a="', '\\x("', '\\*', '\\:', '\\x(a=', '\\x(a{'],
 'cpp': ['/*', '//', '"', "'", 'R"x(', '#include ', '#define ', '#if ', '0x', '1.', '"\\', '<:'],
 'lua': ['"', "'", '[[', '[==[', '--[[', '--', '0x', '1.', '"\\', 'local '],
 'html': ['<', '<a ', '<a b', '<a b=', '<a b="', "<a b='", '<script>', '<style>', '<title>', '<textarea>', '<!--', '<![CDATA[', '<!DOCTYPE ', '&', '</', '<script>a</script'],
 'css': ['a{', 'a{b:', '@media ', '@media{', '"', "'", '/*', 'url(', '\\', 'a{b:1', 'a{b:#', '<!--'],
 'javascript': ['"', "'", '`', '`${', '/', '/[', '/*', '//', '<a>', '<a ', '<a b=', '<a b="', '<a>{', '0x', '1.', '"\\', '#', 'a?'],
 'bash': ['"', "'", '$', '${', '$(', '$((', '`', '#', 'a=', 'a ', '"$', '"${', '"$(', '<<', '[[ ', '$(('],
 'diff': ['-', '+', '@@ ', '--- ', 'a\n', '*', '***'],
 'json': ['[', '{', '{"a":', '["', '{"', '"\\', '//', '/*', '[1,', '{"a":1,', '-', '1.', '"\\u'],
 'xml': ['<', '<a ', '<a b="', "<a b='", '<!--', '<![CDATA[', '<?', '<?xml ', '<!DOCTYPE a', '<!DOCTYPE a [', '<!DOCTYPE a [<!ELEMENT a ', '<!DOCTYPE a [<!ATTLIST a ', '<!DOCTYPE a [<!ENTITY ', '&', '<a>'],
 'txt': ['a'],
 'tex': ['\\', '\\a', '{', '[', '%', '$'],
 'nasm': ['mov ', 'mov rax, ', '[', '"', "'", '`', '`\\', ';', '%', '%define ', 'a: ', '0x', '1.', 'section ', 'db '],
 'ebnf': ['a = ', 'a', '"', "'", '(*', '?', '(', '[', 'a = b', '{', '(:', '`'],
 'python': ['"', "'", '"""', "'''", 'f"', 'f"{', 'f"""', 'f"{a:', 'f"{a!', 'r"', 'b"', '#', '@', '0x', '1.', '"\\', '"\\N', 'def ', 'f\'{', 'class '],
 'kotlin': ['"', '"""', '"${', '"$', "'", '/*', '//', '`', '@', '0x', '1.', '"\\', 'fun ', '"""${', '/*/*'],
 'rust': ['"', 'r"', 'r#"', 'r##"', 'b"', "'", "b'", '/*', '/*/*', '//', '///', '#[', '#![', '0x', '1.', '"\\', '"\\u{', 'r#', 'macro_rules! ', 'a!('],
 'llvm': ['"', 'c"', '@"', '%"', ';', '%', '@', '!', '0x', '1.', '"\\', 'define ', '$"', '/*'],
 'markdown': ['# ', '```\n', '~~~\n', '> ', '- ', '1. ', '[', '[a](', '![', '![a](', '*', '**', '_', '`', '``', '<!--', '<!--\n', '    ', '\\', '&', '<', '> > ', '# a '],
 'java': ['"', '"""', "'", '/*', '/**', '//', '@', '0x', '1.', '"\\', '"\\u', '"""\n', 'class ', "'\\"],
 'yaml': ['"', "'", '"\\', 'a: ', 'a: "', "a: '", 'a: |\n', 'a: >\n', 'a: |\n  b', '- ', '? ', '{', '[', '{a: ', '[a, ', '&', '*', '!', '!<', '%', '#', '--- ', 'a: |-', 'a:\n  '],
}
CTX['c'] = CTX['cpp']; CTX['typescript'] = CTX['javascript']; CTX['jsonc'] = CTX['json']; CTX['latex'] = CTX['tex']

ESC = {'n': b'\n', 't': b'\t', 'r': b'\r', 'v': b'\v', 'f': b'\f', '0': b'\0', '\\': b'\\', '"': b'"', "'": b"'",
       'a': b'\a', 'b': b'\b', '?': b'?'}


def unesc(s):
    out = b''
    i = 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out += c.encode()
            i += 1
            continue
        if i + 1 >= len(s):
            break
        n = s[i + 1]
        i += 2
        if n in ESC:
            out += ESC[n]
        elif n == 'x':
            m = re.match(r'[0-9a-fA-F]+', s[i:])
            if m:
                out += bytes([int(m.group(0), 16) & 255])
                i += len(m.group(0))
        elif n in 'uU':
            k = 4 if n == 'u' else 8
            try:
                out += chr(int(s[i:i + k], 16)).encode()
            except (ValueError, UnicodeEncodeError):
                pass
            i += k
    return out


def literals(path):
    try:
        t = open(path, encoding='utf-8', errors='replace').read()
    except OSError:
        return set()
    t = re.sub(r'^\s*#\s*include.*', '', t, flags=re.M)
    # strip comments outside of literals (roughly; extra lexemes are harmless)
    t = re.sub(r'(?m)^\s*//.*$', '', t)
    t = re.sub(r'(?<=[;{},)\s])//[^"\n]*$', '', t, flags=re.M)
    chars = {unesc(x) for x in re.findall(r"u8'((?:\\.[0-9a-fA-F]*|[^'\\\n]))'", t)}
    strs = {unesc(x) for x in re.findall(r'"((?:\\.|[^"\\\n])*)"', t)}
    out = set()
    for s in chars | strs:
        if 0 < len(s) <= 20:
            try:
                s.decode()
                out.add(s)
            except UnicodeDecodeError:
                pass
    return out


def main():
    repo, out = sys.argv[1:3]
    with open(out + '.tmp', 'w') as f:
        def rec(tag, lang, b):
            f.write('%s %d %s\n' % (tag, lang, b.hex()))
        shared = set()
        for n in ('escapes.hpp', 'numbers.hpp'):
            shared |= literals(os.path.join(repo, 'include/ulight/impl', n))
        shared |= literals(os.path.join(repo, 'src/main/cpp/parse_utils.cpp'))
        shared = {s for s in shared if len(s) <= 3}
        for name, num in LANGS.items():
            if not num:
                continue
            rec('name', num, name.encode())
            stem = STEM.get(name, name)
            lits = literals(os.path.join(repo, 'src/main/cpp/lang/%s.cpp' % stem)) \
                | literals(os.path.join(repo, 'include/ulight/impl/lang/%s.hpp' % stem))
            if name == 'nasm':  # hundreds of mnemonics: the spelling check covers them
                lits = {s for s in lits if len(s) <= 2 or not s.isalnum()}
            seen = set()
            for tag, lst in (('core', CORE[name]), ('mini', MINI[name]), ('ctx', CTX[name])):
                done = set()
                for s in lst:
                    b = s.encode()
                    if b not in done:
                        done.add(b)
                        rec(tag, num, b)
            core = {s.encode() for s in CORE[name]}
            for b in sorted(lits | shared, key=lambda b: (len(b), b)):
                if b not in core:
                    rec('auto', num, b)
            for d in CORPUS.get(name, [name]):
                for p in sorted(glob.glob(os.path.join(repo, 'test/highlight', d, '**'), recursive=True)):
                    base = os.path.basename(p)
                    if not os.path.isfile(p):
                        continue
                    if base.endswith('.html.html') or (base.endswith('.html') and d != 'html'):
                        continue
                    b = open(p, 'rb').read()
                    try:
                        b.decode()
                    except UnicodeDecodeError:
                        continue
                    rec('corpus', num, b)
    os.replace(out + '.tmp', out)


if __name__ == '__main__':
    main()
