{ "asm", 16 },
{ "assembler", 16 },
{ "assembly", 16 },
{ "atom", 12 },
{ "bash", 8 },
{ "c", 6 },
{ "c++", 2 },
{ "cc", 2 },
{ "cjs", 7 },
{ "cow", 1 },
{ "cowel", 1 },
{ "cplusplus", 2 },
{ "cpp", 2 },
{ "css", 5 },
{ "cxx", 2 },
{ "diff", 9 },
{ "ebnf", 17 },
{ "gyp", 18 },
{ "h", 6 },
{ "h++", 2 },
{ "hpp", 2 },
{ "htm", 4 },
{ "html", 4 },
{ "hxx", 2 },
{ "java", 24 },
{ "javascript", 7 },
{ "js", 7 },
{ "json", 10 },
{ "jsonc", 11 },
{ "jsx", 7 },
{ "kotlin", 19 },
{ "kt", 19 },
{ "kts", 19 },
{ "latex", 15 },
{ "ll", 22 },
{ "llvm", 22 },
{ "lua", 3 },
{ "markdown", 23 },
{ "mathml", 12 },
{ "md", 23 },
{ "mjs", 7 },
{ "mml", 12 },
{ "nasm", 16 },
{ "patch", 9 },
{ "plaintext", 13 },
{ "plist", 12 },
{ "py", 18 },
{ "python", 18 },
{ "rs", 21 },
{ "rss", 12 },
{ "rust", 21 },
{ "sh", 8 },
{ "svg", 12 },
{ "tex", 14 },
{ "text", 13 },
{ "ts", 20 },
{ "tsx", 20 },
{ "txt", 13 },
{ "typescript", 20 },
{ "x86asm", 16 },
{ "xbj", 12 },
{ "xhtml", 12 },
{ "xml", 12 },
{ "xsd", 12 },
{ "xsl", 12 },
{ "yaml", 25 },
{ "yml", 25 },
{ "zsh", 8 },
