{ 1, "COWEL" },
{ 2, "C++" },
{ 3, "Lua" },
{ 4, "HTML" },
{ 5, "CSS" },
{ 6, "C" },
{ 7, "JavaScript" },
{ 8, "Bash" },
{ 9, "Diff" },
{ 10, "JSON" },
{ 11, "JSON with Comments" },
{ 12, "XML" },
{ 13, "Plaintext" },
{ 14, "TeX" },
{ 15, "LaTeX" },
{ 16, "NASM" },
{ 17, "EBNF" },
{ 18, "Python" },
{ 19, "Kotlin" },
{ 20, "TypeScript" },
{ 21, "Rust" },
{ 22, "LLVM" },
{ 23, "Markdown" },
{ 24, "Java" },
{ 25, "YAML" },
