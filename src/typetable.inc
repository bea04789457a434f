{ 0, "NONE", "", "" },
{ 1, "ERROR", "error", "err" },
{ 16, "COMMENT", "comment", "cmt" },
{ 17, "COMMENT_DELIM", "comment-delim", "cmt_dlim" },
{ 18, "COMMENT_DOC", "comment-doc", "cmt_doc" },
{ 19, "COMMENT_DOC_DELIM", "comment-doc-delim", "cmt_doc_dlim" },
{ 32, "VALUE", "value", "val" },
{ 33, "VALUE_DELIM", "value-delim", "val_dlim" },
{ 34, "NULL", "null", "null" },
{ 36, "BOOL", "bool", "bool" },
{ 48, "NUMBER", "number", "num" },
{ 49, "NUMBER_DELIM", "number-delim", "num_dlim" },
{ 50, "NUMBER_DECOR", "number-decor", "num_deco" },
{ 56, "STRING", "string", "str" },
{ 57, "STRING_DELIM", "string-delim", "str_dlim" },
{ 58, "STRING_DECOR", "string-decor", "str_deco" },
{ 60, "STRING_ESCAPE", "string-escape", "str_esc" },
{ 62, "STRING_INTERPOLATION", "string-interpolation", "str_intp" },
{ 63, "STRING_INTERPOLATION_DELIM", "string-interpolation-delim", "str_intp_dlim" },
{ 64, "NAME", "name", "name" },
{ 65, "NAME_DECL", "name-decl", "name_decl" },
{ 66, "NAME_BUILTIN", "name-builtin", "name_pre" },
{ 67, "NAME_DELIM", "name-delim", "name_dlim" },
{ 68, "NAME_VAR", "name-var", "name_var" },
{ 69, "NAME_VAR_DECL", "name-var-decl", "name_var_decl" },
{ 70, "NAME_VAR_BUILTIN", "name-var-builtin", "name_var_pre" },
{ 71, "NAME_VAR_DELIM", "name-var-delim", "name_var_dlim" },
{ 72, "NAME_CONST", "name-const", "name_cons" },
{ 73, "NAME_CONST_DECL", "name-const-decl", "name_cons_decl" },
{ 74, "NAME_CONST_BUILTIN", "name-const-builtin", "name_cons_pre" },
{ 75, "NAME_CONST_DELIM", "name-const-delim", "name_cons_dlim" },
{ 76, "NAME_FUNCTION", "name-function", "name_fun" },
{ 77, "NAME_FUNCTION_DECL", "name-function-decl", "name_fun_decl" },
{ 78, "NAME_FUNCTION_BUILTIN", "name-function-builtin", "name_fun_pre" },
{ 79, "NAME_FUNCTION_DELIM", "name-function-delim", "name_fun_dlim" },
{ 80, "NAME_TYPE", "name-type", "name_type" },
{ 81, "NAME_TYPE_DECL", "name-type-decl", "name_type_decl" },
{ 82, "NAME_TYPE_BUILTIN", "name-type-builtin", "name_type_pre" },
{ 83, "NAME_TYPE_DELIM", "name-type-delim", "name_type_dlim" },
{ 84, "NAME_MODULE", "name-module", "name_mod" },
{ 85, "NAME_MODULE_DECL", "name-module-decl", "name_mod_decl" },
{ 86, "NAME_MODULE_BUILTIN", "name-module-builtin", "name_mod_pre" },
{ 87, "NAME_MODULE_DELIM", "name-module-delim", "name_mod_dlim" },
{ 88, "NAME_LABEL", "name-label", "name_labl" },
{ 89, "NAME_LABEL_DECL", "name-label-decl", "name_labl_decl" },
{ 90, "NAME_LABEL_BUILTIN", "name-label-builtin", "name_labl_pre" },
{ 91, "NAME_LABEL_DELIM", "name-label-delim", "name_labl_dlim" },
{ 92, "NAME_PARAMETER", "name-parameter", "name_para" },
{ 93, "NAME_PARAMETER_DECL", "name-parameter-decl", "name_para_decl" },
{ 94, "NAME_PARAMETER_BUILTIN", "name-parameter-builtin", "name_para_pre" },
{ 95, "NAME_PARAMETER_DELIM", "name-parameter-delim", "name_para_dlim" },
{ 96, "NAME_NONTERMINAL", "name-nonterminal", "name_nt" },
{ 97, "NAME_NONTERMINAL_DECL", "name-nonterminal-decl", "name_nt_decl" },
{ 98, "NAME_NONTERMINAL_BUILTIN", "name-nonterminal-builtin", "name_nt_pre" },
{ 99, "NAME_NONTERMINAL_DELIM", "name-nonterminal-delim", "name_nt_dlim" },
{ 100, "NAME_LIFETIME", "name-lifetime", "name_life" },
{ 101, "NAME_LIFETIME_DECL", "name-lifetime-decl", "name_life_decl" },
{ 102, "NAME_LIFETIME_BUILTIN", "name-lifetime-builtin", "name_life_pre" },
{ 103, "NAME_LIFETIME_DELIM", "name-lifetime-delim", "name_life_dlim" },
{ 104, "NAME_INSTRUCTION", "name-instruction", "name_inst" },
{ 105, "NAME_INSTRUCTION_DECL", "name-instruction-decl", "name_inst_decl" },
{ 106, "NAME_INSTRUCTION_PSEUDO", "name-instruction-pseudo", "asm_inst_pre" },
{ 107, "NAME_INSTRUCTION_DELIM", "name-instruction-delim", "asm_inst_dlim" },
{ 108, "NAME_ATTR", "name-attr", "name_attr" },
{ 109, "NAME_ATTR_DECL", "name-attr-decl", "name_attr_decl" },
{ 110, "NAME_ATTR_BUILTIN", "name-attr-builtin", "name_attr_pre" },
{ 111, "NAME_ATTR_DELIM", "name-attr-delim", "name_attr_dlim" },
{ 112, "NAME_SHELL_COMMAND", "name-command", "name_cmd" },
{ 113, "NAME_SHELL_COMMAND_DECL", "name-command-decl", "name_cmd_decl" },
{ 114, "NAME_SHELL_COMMAND_BUILTIN", "name-command-builtin", "sh_cmd_pre" },
{ 115, "NAME_SHELL_COMMAND_DELIM", "name-command-delim", "name_cmd_dlim" },
{ 116, "NAME_SHELL_OPTION", "name-option", "name_opt" },
{ 117, "NAME_SHELL_OPTION_DECL", "name-option-decl", "name_opt_decl" },
{ 118, "NAME_SHELL_OPTION_BUILTIN", "name-option-builtin", "name_opt_pre" },
{ 119, "NAME_SHELL_OPTION_DELIM", "name-option-delim", "name_opt_dlim" },
{ 120, "NAME_MACRO", "name-macro", "name_mac" },
{ 121, "NAME_MACRO_DECL", "name-macro-decl", "name_mac_decl" },
{ 122, "NAME_MACRO_BUILTIN", "name-macro-builtin", "name_mac_pre" },
{ 123, "NAME_MACRO_DELIM", "name-macro-delim", "name_mac_dlim" },
{ 124, "NAME_DIRECTIVE", "name-directive", "name_dirt" },
{ 125, "NAME_DIRECTIVE_DECL", "name-directive-decl", "name_dirt_decl" },
{ 126, "NAME_DIRECTIVE_BUILTIN", "name-directive-builtin", "name_dirt_pre" },
{ 127, "NAME_DIRECTIVE_DELIM", "name-directive-delim", "name_dirt_dlim" },
{ 144, "KEYWORD", "keyword", "kw" },
{ 145, "KEYWORD_CONTROL", "keyword-control", "kw_ctrl" },
{ 146, "KEYWORD_TYPE", "keyword-type", "kw_type" },
{ 147, "KEYWORD_OP", "keyword-op", "kw_op" },
{ 148, "KEYWORD_THIS", "keyword-this", "kw_this" },
{ 160, "DIFF_HEADING", "diff-heading", "diff_head" },
{ 161, "DIFF_HEADING_DELIM", "diff-heading-delim", "diff_head_dlim" },
{ 162, "DIFF_HEADING_HUNK", "diff-heading-hunk", "diff_head_hunk" },
{ 163, "DIFF_HEADING_HUNK_DELIM", "diff-heading-hunk-delim", "diff_head_hunk_dlim" },
{ 168, "DIFF_COMMON", "diff-common", "diff_eq" },
{ 169, "DIFF_COMMON_DELIM", "diff-common-delim", "diff_eq_dlim" },
{ 170, "DIFF_DELETION", "diff-deletion", "diff_del" },
{ 171, "DIFF_DELETION_DELIM", "diff-deletion-delim", "diff_del_dlim" },
{ 172, "DIFF_INSERTION", "diff-insertion", "diff_ins" },
{ 173, "DIFF_INSERTION_DELIM", "diff-insertion-delim", "diff_ins_dlim" },
{ 174, "DIFF_MODIFICATION", "diff-modification", "diff_mod" },
{ 175, "DIFF_MODIFICATION_DELIM", "diff-modification-delim", "diff_mod_dlim" },
{ 176, "MARKUP_TAG", "markup-tag", "mk_tag" },
{ 177, "MARKUP_TAG_DECL", "markup-tag-decl", "mk_tag_decl" },
{ 178, "MARKUP_TAG_BUILTIN", "markup-tag-builtin", "mk_tag_pre" },
{ 179, "MARKUP_TAG_DELIM", "markup-tag-delim", "mk_tag_dlim" },
{ 180, "MARKUP_ATTR", "markup-attr", "mk_attr" },
{ 181, "MARKUP_ATTR_DECL", "markup-attr-decl", "mk_attr_decl" },
{ 182, "MARKUP_ATTR_BUILTIN", "markup-attr-builtin", "mk_attr_pre" },
{ 183, "MARKUP_ATTR_DELIM", "markup-attr-delim", "mk_attr_dlim" },
{ 192, "TEXT", "text", "text" },
{ 193, "TEXT_HEADING", "text-heading", "text_head" },
{ 194, "TEXT_LINK", "text-link", "text_link" },
{ 195, "TEXT_MARK", "text-mark", "text_mark" },
{ 196, "TEXT_MATH", "text-math", "text_math" },
{ 197, "TEXT_SUBSCRIPT", "text-subscript", "text_sub" },
{ 198, "TEXT_SUPERSCRIPT", "text-superscript", "text_sup" },
{ 199, "TEXT_QUOTE", "text-quote", "text_quot" },
{ 200, "TEXT_SMALL", "text-small", "text_smal" },
{ 208, "TEXT_MONO", "text-mono", "text_mono" },
{ 209, "TEXT_CODE", "text-code", "text_code" },
{ 210, "TEXT_ITALIC", "text-italic", "text_ital" },
{ 211, "TEXT_EMPH", "text-emph", "text_emph" },
{ 212, "TEXT_BOLD", "text-bold", "text_bold" },
{ 213, "TEXT_STRONG", "text-strong", "text_stro" },
{ 214, "TEXT_UNDERLINE", "text-underline", "text_ulin" },
{ 215, "TEXT_INSERTION", "text-insertion", "text_ins" },
{ 216, "TEXT_STRIKETHROUGH", "text-strikethrough", "text_strk" },
{ 217, "TEXT_DELETION", "text-deletion", "text_del" },
{ 224, "SYMBOL", "symbol", "sym" },
{ 225, "SYMBOL_PUNC", "symbol-punc", "sym_punc" },
{ 226, "SYMBOL_OP", "symbol-op", "sym_op" },
{ 227, "SYMBOL_FORMATTING", "symbol-formatting", "sym_fmt" },
{ 228, "SYMBOL_BRACKET", "symbol-bracket", "sym_bket" },
{ 229, "SYMBOL_PARENS", "symbol-parens", "sym_par" },
{ 230, "SYMBOL_SQUARE", "symbol-square", "sym_sqr" },
{ 231, "SYMBOL_BRACE", "symbol-brace", "sym_brac" },
