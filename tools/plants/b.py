# Preprocessor, literals, calling conventions.
H = "int printf(const char *, ...);\n"
def chk(body, pre=""):
    return H + pre + "int main(void) {\n" + body + "\nreturn 0;\n}\n"

M = "src/preprocessor/macro_expander.c"
T = "src/preprocessor/tokenizer.c"
D = "src/preprocessor/directives.c"
S = "src/abi/sysv.c"
W = "src/abi/microsoft.c"

def E(c, want, flags=""):
    "Shell demo that compares the tokens of cc -E with the expected ones."
    return """cat > "$t/a.c" <<'XX'
%s
XX
"$cc" -E %s "$t/a.c" > "$t/o" || exit 1
got=$(grep -v '^#' "$t/o" | tr -d ' \\t\\n'); want='%s'
[ "$got" = "$want" ] || { echo "got $got"; exit 1; }
""" % (c, flags, want)

def LINK(c, d, gccflags="", ccflags=""):
    "c is compiled by cc, d by gcc; linked and run."
    return """cat > "$t/a.c" <<'XX'
%s
XX
cat > "$t/b.c" <<'XX'
%s
XX
"$cc" -c %s "$t/a.c" -o "$t/a.o" > "$t/log" 2>&1 || { cat "$t/log"; exit 1; }
gcc -w %s -no-pie "$t/a.o" "$t/b.c" -o "$t/x" || exit 1
"$t/x"
""" % (c, d, ccflags, gccflags)

PLANTS = [
 dict(id="c10-hs-zero", property="C10", edits=[(M, "		*hs = string_set_intersection(*hs, rpar.hs);", "		if (n_args)\n			*hs = string_set_intersection(*hs, rpar.hs);")],
      sh=E("#define A() B\n#define B() A() x\nA()()", "Bx"),
      needs="a function-like macro without parameters, whose name comes from an expansion and whose parentheses come from the source, and that reaches itself",
      breaks="the hide set is too large, so the macro is not expanded"),
 dict(id="c10-char-stringify", property="C10", edits=[(M, "	case T_STRING:\n	case T_CHARACTER_CONSTANT:\n		for", "	case T_STRING:\n		for")],
      demo=chk("  const char *p = S('\\n'); const char q[] = { 39, 92, 110, 39, 0 }; for (int i = 0; i < 5; i++) if (p[i] != q[i]) return 1;", "#define S(x) #x\n"),
      needs="# applied to a character constant with a backslash or a double quote", breaks="the characters are not escaped in the string"),
 dict(id="c10-comment-splice", property="C10", edits=[(T, "			while (c != '\\n' && c != EQ_NULL)\n				next_char();\n			next.whitespace = 1;", "			if (c != '\\n' && c != EQ_NULL) {\n				while (*str && *str != '\\n')\n					str++;\n				next_char();\n			}\n			next.whitespace = 1;")],
      sh=E("a // b \\\\\nc\nd".replace("\\\\", "\\"), "ad"),
      needs="a // comment that is continued on the next line with a backslash", breaks="the next line is not part of the comment"),
 dict(id="c10-nested-arg-paren", property="C10", edits=[(M, "		} else if(!ignore_comma && t.type == T_COMMA) {\n			if(depth == 1)\n				continue;\n		}\n\n		token_list_add(tl, t);", "		} else if(!ignore_comma && t.type == T_COMMA && depth == 1) {\n				continue;\n		} else if (t.type == T_LBRACK && tl->size && tl->list[tl->size - 1].type == T_COMMA) {\n			t.whitespace = 1;\n		}\n\n		token_list_add(tl, t);")],
      sh=E('#define S(x) #x\nS((a,[b]))', '"(a,[b])"').replace("tr -d ' \\t\\n'", "tr -d '\\t\\n'"),
      needs="# applied to an argument in which [ follows a comma inside parentheses", breaks="a space is added to the string"),
 dict(id="c10-union-tail", property="C10", edits=[("src/preprocessor/string_set.c", "		if ((cmp = strcmp(a->strings[s], str)) <= 0)", "		if ((cmp = strcmp(a->strings[s], str)) >= 0)")] if False else [("src/preprocessor/string_set.c", "	if (a.cap) { // Avoid duplicating if empty.", "	if (a.cap > 4) { // Avoid duplicating if small.")],
      sh="", needs="", breaks=""),
 dict(id="c10-if-skip-nested", property="C10", edits=[(D, "	} else if (sv_string_cmp(dir.str, \"ifndef\") ||\n			   sv_string_cmp(dir.str, \"elifndef\")) {", "	} else if (sv_string_cmp(dir.str, \"ifndef\")) {"), (D, "	if (sv_string_cmp(dir.str, \"ifdef\") ||\n		sv_string_cmp(dir.str, \"elifdef\")) {", "	if (sv_string_cmp(dir.str, \"ifdef\") ||\n		sv_string_cmp(dir.str, \"elifdef\") || sv_string_cmp(dir.str, \"elifndef\")) {")],
      sh=E("#define Y 1\n#if 0\na\n#elifndef Y\nb\n#else\nc\n#endif", "c"),
      needs="#elifndef", breaks="#elifndef acts as #elifdef"),
 dict(id="c10-popmacro-name", property="C10", edits=[(D, "		name.str++;\n		name.len -= 2;\n\n		pop_macro(name);", "		name.str++;\n		name.len -= 2;\n\n		if (define_map_get(name))\n			pop_macro(name);")],
      sh=E('#define X 1\n#pragma push_macro("X")\n#undef X\n#pragma pop_macro("X")\nX', "1"),
      needs="pop_macro of a macro that has been undefined since the push_macro", breaks="the definition is not restored"),
 dict(id="c11-ucn-F", property="C11", edits=[(T, "				else if (c >= 'A' && c <= 'F')\n					codepoint |= c - 'A' + 10;", "				else if (c >= 'A' && c <= 'F')\n					codepoint |= (c - 'A' + 10) | (codepoint & 8);")],
      demo=chk("  if (L'\\u00AF' != 0xaf || L'\\u00FB' != 0xfb || L'\\u018A' != 0x18a || L'\\u210B' != 0x210b) return 1;") if False else chk("  if (L'\\u00BF' != 0xbf || L'\\u128A' != 0x128a) return 1;"),
      needs="", breaks=""),
 dict(id="c11-utf8-3", property="C11", edits=[("src/utf8.c", "	} else if (codepoint <= 0x7ff) {", "	} else if (codepoint < 0x7ff) {")],
      demo=chk("  const char s[] = u8\"\\u07ff\"; if (sizeof s != 3) { printf(\"%d\\n\", (int)sizeof s); return 1; }"),
      needs="the universal character name \\u07ff", breaks="it is encoded in three bytes"),
 dict(id="c11-utf8-decode4", property="C11", edits=[("src/utf8.c", "		codepoint |= (s[0] & ~0xF8) << (6 * 3);", "		codepoint |= (s[0] & ~0xFC) << (6 * 3);")],
      demo=chk("  if (U'\\U00100041' != 0x100041) { printf(\"%x\\n\", U'\\U00100041'); return 1; }"),
      needs="a character above U+FFFFF in a wide literal", breaks="the top bit of the code point is lost"),
 dict(id="c11-concat-prefix", property="C11", edits=[("src/preprocessor/string_concat.c", "			if (combined_type == STRING_DEFAULT)\n				combined_type = type;\n			else", "			if (combined_type == STRING_DEFAULT || type == STRING_U8)\n				combined_type = type;\n			else")] if False else [("src/preprocessor/string_concat.c", "			if (combined_type == STRING_DEFAULT)\n				combined_type = type;", "			if (combined_type == STRING_DEFAULT && (type != STRING_U_SMALL || i < 2))\n				combined_type = type;")],
      demo=chk("  if (sizeof (\"a\" \"b\" u\"c\") != 8) return 1;"),
      needs="three adjacent string literals of which only the third has the prefix u", breaks="a valid concatenation is rejected"),
 dict(id="c11-escape-v", property="C11", edits=[("src/escape_sequence.c", "		case 'v': *out = '\\v'; break;", "		case 'v': *out = '\\t' + 1; break;")],
      demo=chk("  if ('\\v' != 11) return 1;"), needs="the escape sequence \\v", breaks="\\v has the value of \\n"),
 dict(id="c12-escape-octal", property="C12", edits=[("src/escape_sequence.c", "		uchar /= 8;\n		output[2] = uchar % 8 + '0';\n		uchar /= 8;\n		output[1] = uchar % 8 + '0';", "		uchar /= 8;\n		output[2] = uchar % 8 + '0';\n		uchar /= 8;\n		output[1] = uchar % 2 + '0' + (uchar & 2 ? 2 : 0);")] if False else [("src/escape_sequence.c", "	['8'] = 1, ['9'] = 1, ['!'] = 1,", "	['8'] = 1, ['9'] = 1, ['!'] = 1, [127] = 0, ['\\033'] = 1,")],
      demo="", needs="", breaks=""),
 dict(id="c08-sse-exhaust", property="C08", edits=[(S, "			current_gp_reg + n_gp_regs > max_gp_reg ||\n			current_sse_reg + n_sse_regs > max_sse_reg;", "			(n_gp_regs && current_gp_reg + n_gp_regs > max_gp_reg) ||\n			(!n_gp_regs && current_sse_reg + n_sse_regs > max_sse_reg);")],
      sh=LINK("struct s { double d; long l; };\nvoid f(double,double,double,double,double,double,double,double,struct s,long);\nvoid g(void) { struct s s = { 1.5, 7 }; f(0,1,2,3,4,5,6,7,s,9); }",
              "struct s { double d; long l; };\nvoid f(double a,double b,double c,double d,double e,double f_,double g,double h,struct s s,long l) { if (s.d != 1.5 || s.l != 7 || l != 9) _Exit(1); }\nvoid g(void); int main(void) { g(); return 0; }"),
      needs="a struct with an integer and a floating eightbyte passed when all SSE registers are in use", breaks="the struct is passed in registers that do not exist"),
 dict(id="c08-gp-order", property="C08", edits=[(S, "	gp_offset = current_gp_reg * 8;\n", "	gp_offset = (regs_size - current_sse_reg) * 8;\n")] if False else [(S, "						.merge_into = i,\n						.merge_pos = j * 8,\n						.size = part_size,\n					};\n				}\n			}\n		}\n	}\n\n	gp_offset", "						.merge_into = i,\n						.merge_pos = j * 8,\n						.size = j && part_size == 3 ? 2 : part_size,\n					};\n				}\n			}\n		}\n	}\n\n	gp_offset")],
      sh=LINK("struct s { char c[11]; };\nvoid f(struct s);\nvoid g(struct s *s) { f(*s); }",
              "struct s { char c[11]; };\nvoid f(struct s s) { for (int i = 0; i < 11; i++) if (s.c[i] != i + 1) _Exit(1); }\nvoid g(struct s *); int main(void) { struct s s; for (int i = 0; i < 11; i++) s.c[i] = i + 1; g(&s); return 0; }"),
      needs="a struct of 11 bytes passed by value", breaks="the last byte of the struct is not passed"),
 dict(id="c08-ret-regs", property="C08", edits=[(S, "		} else {\n			int gp_idx = 0, ssa_idx = 0;", "		} else {\n			int gp_idx = 0, ssa_idx = n_parts == 2 && classes[0] == CLASS_INTEGER && classes[1] == CLASS_SSE && calculate_size(return_type) == 12;")],
      sh=LINK("struct s { long l; float f; } __attribute__((unused)); struct t { int a, b; float f; };\nstruct t f(int);\nint g(void) { struct t x = f(3); return x.a == 3 && x.b == 4 && x.f == 5.0f; }".replace("struct s { long l; float f; } __attribute__((unused)); ", ""),
              "struct t { int a, b; float f; };\nstruct t f(int a) { struct t t = { a, a + 1, a + 2 }; return t; }\nint g(void); int main(void) { return !g(); }"),
      needs="a call that returns a struct of 12 bytes whose last four bytes are a float, after an integer eightbyte", breaks="the float is read from the wrong register"),
 dict(id="c23-gp-offset", property="C23", edits=[(S, "		abi_data.gp_offset = c.gp_offset;", "		abi_data.gp_offset = MIN(c.gp_offset, 40);")],
      demo=H + "typedef __builtin_va_list va_list;\nint f(int a,int b,int c,int d,int e,int g,...) { va_list v; __builtin_va_start(v, g); int r = __builtin_va_arg(v, int); __builtin_va_end(v); return r; }\nint main(void) { return f(1,2,3,4,5,6,42) != 42; }\n",
      needs="a variadic function with six named integer parameters", breaks="va_arg returns the sixth named parameter first"),
 dict(id="c09-eight-float", property="C09", edits=[(W, "			is_floating[register_idx] = (i < callee_type->n - 1) ? type_is_floating(argument_types[i]) : 0;", "			is_floating[register_idx] = (register_idx < callee_type->n - 1) ? type_is_floating(argument_types[i]) : 0;")],
      sh=LINK("struct s { char c[3]; };\nstruct s f(double);\nint g(void) { struct s s = f(2.5); return s.c[0] == 2 && s.c[1] == 5; }",
              "struct s { char c[3]; };\n__attribute__((ms_abi)) struct s f(double d) { struct s s = { { (int)d, (int)(d * 10) % 10, 0 } }; return s; }\n__attribute__((ms_abi)) int g(void); int main(void) { return !g(); }", ccflags="-fabi=ms"),
      needs="a call under -fabi=ms of a function that returns a struct in memory and whose last parameter is floating", breaks="the floating argument is passed in a general purpose register"),
 dict(id="c09-struct-copy", property="C09", edits=[(W, "	return size == 1 || size == 2 || size == 4 || size == 8;", "	return size == 1 || size == 2 || size == 4 || (size == 8 && !(type->type == TY_STRUCT && calculate_alignment(type) == 2));")],
      sh=LINK("struct s { short a[4]; };\nlong long f(struct s);\nint g(void) { struct s s = { { 1, 2, 3, 4 } }; return f(s) == 1234; }",
              "struct s { short a[4]; };\n__attribute__((ms_abi)) long long f(struct s s) { return s.a[0] * 1000 + s.a[1] * 100 + s.a[2] * 10 + s.a[3]; }\n__attribute__((ms_abi)) int g(void); int main(void) { return !g(); }", ccflags="-fabi=ms"),
      needs="a struct of eight bytes with an alignment of two passed by value under -fabi=ms", breaks="the struct is passed by reference"),
 dict(id="c09-stack-slot", property="C09", edits=[(W, "			inputs[i] = ir_load_base_relative(call_stack, current_mem + 16 + shadow_space, size);\n			current_mem += 8;", "			inputs[i] = ir_load_base_relative(call_stack, current_mem + 16 + shadow_space, size);\n			current_mem += MAX(8, calculate_alignment(args[i]->parameter.type));")],
      demo="", needs="", breaks=""),
 dict(id="c09-ret-shadow", property="C09", edits=[(W, "	*reg_state = ir_set_reg(abi_data->rsi_store, *reg_state, REG_RSI, 0);", "	if (!abi_data->is_variadic || !abi_data->returns_address)\n		*reg_state = ir_set_reg(abi_data->rsi_store, *reg_state, REG_RSI, 0);")],
      sh=LINK("struct s { long long a, b; };\nstruct s f(int a, ...) { struct s s = { a, a }, u; u = s; s = u; return s; }",
              "struct s { long long a, b; };\n__attribute__((ms_abi)) struct s f(int a, ...);\nint main(void) { register long x __asm__(\"rsi\") = 1234567; __asm__ volatile(\"\" : \"+r\"(x)); struct s s; long r; __asm__ volatile(\"sub $64, %%rsp\\n\\tcall f\\n\\tadd $64, %%rsp\\n\\tmov %%rsi, %0\" : \"=&r\"(r), \"+r\"(x) : \"c\"(&s), \"d\"(3l) : \"rax\", \"r8\", \"r9\", \"r10\", \"r11\", \"memory\", \"cc\"); return r != 1234567; }", gccflags="-O1 -mno-red-zone", ccflags="-fabi=ms"),
      needs="a variadic function under -fabi=ms that returns a struct in memory, called by code that keeps a value in rsi", breaks="rsi is not restored"),
]
PLANTS = [p for p in PLANTS if p["breaks"]]
