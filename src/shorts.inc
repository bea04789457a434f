case 0: return "";
case 1: return "err";
case 16: return "cmt";
case 17: return "cmt_dlim";
case 18: return "cmt_doc";
case 19: return "cmt_doc_dlim";
case 32: return "val";
case 33: return "val_dlim";
case 34: return "null";
case 36: return "bool";
case 48: return "num";
case 49: return "num_dlim";
case 50: return "num_deco";
case 56: return "str";
case 57: return "str_dlim";
case 58: return "str_deco";
case 60: return "str_esc";
case 62: return "str_intp";
case 63: return "str_intp_dlim";
case 64: return "name";
case 65: return "name_decl";
case 66: return "name_pre";
case 67: return "name_dlim";
case 68: return "name_var";
case 69: return "name_var_decl";
case 70: return "name_var_pre";
case 71: return "name_var_dlim";
case 72: return "name_cons";
case 73: return "name_cons_decl";
case 74: return "name_cons_pre";
case 75: return "name_cons_dlim";
case 76: return "name_fun";
case 77: return "name_fun_decl";
case 78: return "name_fun_pre";
case 79: return "name_fun_dlim";
case 80: return "name_type";
case 81: return "name_type_decl";
case 82: return "name_type_pre";
case 83: return "name_type_dlim";
case 84: return "name_mod";
case 85: return "name_mod_decl";
case 86: return "name_mod_pre";
case 87: return "name_mod_dlim";
case 88: return "name_labl";
case 89: return "name_labl_decl";
case 90: return "name_labl_pre";
case 91: return "name_labl_dlim";
case 92: return "name_para";
case 93: return "name_para_decl";
case 94: return "name_para_pre";
case 95: return "name_para_dlim";
case 96: return "name_nt";
case 97: return "name_nt_decl";
case 98: return "name_nt_pre";
case 99: return "name_nt_dlim";
case 100: return "name_life";
case 101: return "name_life_decl";
case 102: return "name_life_pre";
case 103: return "name_life_dlim";
case 104: return "name_inst";
case 105: return "name_inst_decl";
case 106: return "asm_inst_pre";
case 107: return "asm_inst_dlim";
case 108: return "name_attr";
case 109: return "name_attr_decl";
case 110: return "name_attr_pre";
case 111: return "name_attr_dlim";
case 112: return "name_cmd";
case 113: return "name_cmd_decl";
case 114: return "sh_cmd_pre";
case 115: return "name_cmd_dlim";
case 116: return "name_opt";
case 117: return "name_opt_decl";
case 118: return "name_opt_pre";
case 119: return "name_opt_dlim";
case 120: return "name_mac";
case 121: return "name_mac_decl";
case 122: return "name_mac_pre";
case 123: return "name_mac_dlim";
case 124: return "name_dirt";
case 125: return "name_dirt_decl";
case 126: return "name_dirt_pre";
case 127: return "name_dirt_dlim";
case 144: return "kw";
case 145: return "kw_ctrl";
case 146: return "kw_type";
case 147: return "kw_op";
case 148: return "kw_this";
case 160: return "diff_head";
case 161: return "diff_head_dlim";
case 162: return "diff_head_hunk";
case 163: return "diff_head_hunk_dlim";
case 168: return "diff_eq";
case 169: return "diff_eq_dlim";
case 170: return "diff_del";
case 171: return "diff_del_dlim";
case 172: return "diff_ins";
case 173: return "diff_ins_dlim";
case 174: return "diff_mod";
case 175: return "diff_mod_dlim";
case 176: return "mk_tag";
case 177: return "mk_tag_decl";
case 178: return "mk_tag_pre";
case 179: return "mk_tag_dlim";
case 180: return "mk_attr";
case 181: return "mk_attr_decl";
case 182: return "mk_attr_pre";
case 183: return "mk_attr_dlim";
case 192: return "text";
case 193: return "text_head";
case 194: return "text_link";
case 195: return "text_mark";
case 196: return "text_math";
case 197: return "text_sub";
case 198: return "text_sup";
case 199: return "text_quot";
case 200: return "text_smal";
case 208: return "text_mono";
case 209: return "text_code";
case 210: return "text_ital";
case 211: return "text_emph";
case 212: return "text_bold";
case 213: return "text_stro";
case 214: return "text_ulin";
case 215: return "text_ins";
case 216: return "text_strk";
case 217: return "text_del";
case 224: return "sym";
case 225: return "sym_punc";
case 226: return "sym_op";
case 227: return "sym_fmt";
case 228: return "sym_bket";
case 229: return "sym_par";
case 230: return "sym_sqr";
case 231: return "sym_brac";
