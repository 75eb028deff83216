# Objects, linkers, declarations, files.
H = "int printf(const char *, ...);\n"
def chk(body, pre=""):
    return H + pre + "int main(void) {\n" + body + "\nreturn 0;\n}\n"

def C(c, rest, name="a.c"):
    "Shell demo: a source file in $t, then commands."
    return "cat > \"$t/%s\" <<'XX'\n%s\nXX\n%s" % (name, c, rest)

O = "src/linker/object.c"
CO = "src/linker/coff.c"
CG = "src/codegen/codegen.c"
X = "src/parser/expression.c"
DE = "src/parser/declaration.c"
IR = "src/ir/ir.c"

SELF = '''
s=0; for f in $(find src -name '*.c'); do o="$t/$(echo $f | tr / _).o"; "$cc" -c "$f" -o "$o" -Isrc > "$t/log" 2>&1 || { cat "$t/log"; exit 1; }; done
gcc -no-pie "$t"/*.o -o "$t/cc2" || exit 1
"$cc" -S "$t/a.c" -o "$t/1.s" && "$t/cc2" -S "$t/a.c" -o "$t/2.s" || exit 1
cmp "$t/1.s" "$t/2.s"
'''

PLANTS = [
 dict(id="c13-section-align", property="C13", edits=[(O, "	section->alignment = MAX(section->alignment, alignment);", "	section->alignment = alignment;")],
      sh=C("_Alignas(64) char a[64] = { 1 };\nint b = 1;", C("char c = 1;\nextern char a[]; extern int b;\nint main(void) { return ((unsigned long)a & 63) != 0 || ((unsigned long)&b & 3) != 0; }", '''
"$cc" -c "$t/a.c" -o "$t/a.o" && "$cc" -c "$t/b.c" -o "$t/b.o" || exit 1
gcc -no-pie "$t/b.o" "$t/a.o" -o "$t/x" && "$t/x"''', "b.c")),
      needs="an object whose last definition has a lower alignment than an earlier one, linked after another object", breaks="the section has the alignment of the last object in it"),
 dict(id="c15-align64", property="C15", edits=[(CO, "		case 64: characteristics |= IMAGE_SCN_ALIGN_64BYTES; break;", "		case 64: characteristics |= IMAGE_SCN_ALIGN_32BYTES; break;")],
      sh=C("_Alignas(64) char a[64] = { 1 };", '''"$cc" -fabi=ms -c "$t/a.c" -o "$t/a.o" || exit 1
x86_64-w64-mingw32-objdump -h "$t/a.o" | grep -q '2\\*\\*6' '''),
      needs="-fabi=ms -c of an object with an alignment of 64", breaks="the section is only aligned to 32"),
 dict(id="c15-addend16", property="C15", edits=[(CO, "			int32_t addend = relocation->add;", "			int32_t addend = relocation->add < 0 ? relocation->add : relocation->add & 0xffff;")],
      sh=C("char a[100000]; char *p = &a[70000]; char *q = &a[7];\nint main(void) { a[70000] = 3; return *p != 3 || p - q != 69993; }", '''"$cc" -fabi=ms -fcmodel=large -c "$t/a.c" -o "$t/a.o" || exit 1
x86_64-w64-mingw32-objdump -r "$t/a.o" > "$t/r"; x86_64-w64-mingw32-objdump -s -j .data "$t/a.o" | grep -q 70110100'''),
      needs="-fabi=ms -c with an address constant more than 64 KiB into an object", breaks="the addend is truncated"),
 dict(id="c17-coff-time", property="C17", edits=[(CO, "		.machine = 0x8664,", "		.machine = 0x8664, .time_date_stamp = (uint32_t)time(NULL),"), (CO, "#include <inttypes.h>", "#include <inttypes.h>\n#include <time.h>")],
      sh=C("int a;", '''"$cc" -fabi=ms -c "$t/a.c" -o "$t/1.o" && sleep 1.2 && "$cc" -fabi=ms -c "$t/a.c" -o "$t/2.o" && cmp "$t/1.o" "$t/2.o"'''),
      needs="-fabi=ms -c run twice, a second or more apart", breaks="the object contains the time of compilation"),
 dict(id="c21-parent-dir", property="C21", edits=[("src/preprocessor/input.c", "		if (str[i] == '/')", "		if (str[i] == '/' && (i == 0 || str[i - 1] != '.'))")],
      sh='''mkdir -p "$t/d/e."; echo '#include "e./f.h"' > "$t/d/a.c"; echo '#include "g.h"' > "$t/d/e./f.h"; echo 'int ok;' > "$t/d/e./g.h"
cd "$t" && "$cc" -E d/a.c | grep -q ok''',
      needs="#include in a file in a directory whose name ends with a dot", breaks="the header next to it is not found"),
 dict(id="c21-order", property="C21", edits=[("src/preprocessor/input.c", "	for (unsigned i = 0; !fp && !is_absolute && i < paths_size; i++) {", "	for (unsigned i = system && paths_size > 8; !fp && !is_absolute && i < paths_size; i++) {")],
      sh="", needs="", breaks=""),
 dict(id="c25-extern-shift", property="C25", edits=[("src/parser/symbols.c", "			if (entry->link >= 0 && table.entries[entry->link].block > block) {", "			if (entry->link >= 0 && table.entries[entry->link].block > block + 1) {")],
      demo=chk("  int a = 1; { int a = 2; { int a = 3; { extern int z; extern int y; if (a + z + y != 10) return 1; { extern int w; w = 1; } if (a != 3) return 2; } if (a != 3) return 3; } if (a != 2) return 4; } if (a != 1) return 5;", "int y = 3, z = 4, w;\nint f(int a) { { int a = 2; { extern int u; (void)a; { extern int t; } } if (a != 2) return 1; } return a != 9; }\n") .replace("int main(void) {\n", "int t, u;\nint main(void) {\n  if (f(9)) return 9;\n"),
      needs="a declaration with extern in a block in which a name is hidden twice", breaks="lookups of the hidden name find another declaration"),
 dict(id="c26-octal-type", property="C26", edits=[("src/arch/x64.c", "	int allow_unsigned = base == BASE_HEXADECIMAL || base == BASE_OCTAL || base == BASE_BINARY;", "	int allow_unsigned = base == BASE_HEXADECIMAL || base == BASE_BINARY;")],
      demo=chk("  if (_Generic(037777777777, unsigned: 0, default: 1) || sizeof 020000000000 != 4) return 1;"),
      needs="an octal constant between 2^31 and 2^32", breaks="it has type long"),
 dict(id="c12-disp128", property="C12", edits=[("src/assembler/encode.c", "	if (disp >= INT8_MIN && disp <= INT8_MAX)", "	if (disp >= INT8_MIN && disp <= -INT8_MIN)")],
      demo=chk("  struct s a, b; for (int i = 0; i < 25; i++) a.x[i] = i * 3; b = a; for (int i = 0; i < 25; i++) if (b.x[i] != i * 3) return 1;", "struct s { long x[25]; };\n"),
      needs="an instruction with a displacement of exactly 128, compiled with -c", breaks="the displacement becomes -128"),
 dict(id="c27-label-reloc", property="C27", edits=[(CG, "	case CONSTANT_LABEL_POINTER:\n		if (codegen_flags.code_model == CODE_MODEL_LARGE) {\n			asm_ins2(\"movabsq\", IMML(constant->label.label, constant->label.offset), R8(REG_RAX));\n			asm_ins2(\"movq\", R8(REG_RAX), MEM(0, REG_RDI));", "	case CONSTANT_LABEL_POINTER:\n		if (codegen_flags.code_model == CODE_MODEL_LARGE) {\n			asm_ins2(constant->label.offset >= 0 ? \"movabsq\" : \"movq\", IMML(constant->label.label, constant->label.offset), R8(REG_RAX));\n			asm_ins2(\"movq\", R8(REG_RAX), MEM(0, REG_RDI));")],
      sh=C("extern char a[]; char *g(void) { return a - 8; } char *h(int c) { char *t[2] = { a - 1, a - 2 }; return t[c]; }", '''"$cc" -fcmodel=large -c "$t/a.c" -o "$t/a.o" || exit 1
! objdump -r "$t/a.o" | grep -q 'R_X86_64_32'; '''),
      needs="-fcmodel=large with the address of an object minus a constant", breaks="the relocation has 32 bits"),
 dict(id="c22-vla-align", property="C22", edits=[(CG, "		asm_ins2(\"andq\", IMM(-16), R8(REG_RSP));", "		asm_ins2(\"andq\", IMM(-8), R8(REG_RSP));")],
      sh=C("int chk(void); int main(int c, char **v) { int r = 0; for (int n = 1; n < 40; n++) { char a[n]; a[n - 1] = 1; r |= chk(); } return r; }", C("int chk(void) { return ((unsigned long)__builtin_frame_address(0) & 15) != 0; }", '''"$cc" -c "$t/a.c" -o "$t/a.o" && gcc -O0 -fno-omit-frame-pointer -no-pie "$t/a.o" "$t/b.c" -o "$t/x" && "$t/x"''', "b.c")),
      needs="a call while a variable length array of certain sizes is alive, to a function that needs an aligned stack", breaks="the stack pointer is not a multiple of 16"),
 dict(id="c28-splice-line", property="C28", edits=[("src/preprocessor/tokenizer.c", "		str += line_splice_length(str);\n		pos.line++;", "		str += line_splice_length(str);\n		pos.line += line_splice_length(str) == 0;")],
      demo=chk("  int a = \\\n\\\n__LINE__; if (a != 5) return 1; if (__LINE__ != 5) return 2;"),
      needs="several line splices in a row", breaks="lines are counted wrongly"),
 dict(id="c16-expand-off1", property="C16", edits=[("src/common.c", "	size_t size = vsnprintf(NULL, 0, fmt, args1) + 1;", "	size_t size = vsnprintf(NULL, 0, fmt, args1) + (*capacity == 0);")],
      sh='''gcc -w -g -fsanitize=address -Isrc $(find src -name '*.c') -o "$t/cc" || exit 1
mkdir "$t/i"; echo 'int y;' > "$t/i/abcd.h"; printf '#include "abc.h"\\n#include "abcd.h"\\n' > "$t/a.c"; echo 'int x;' > "$t/abc.h"
"$t/cc" -E "$t/a.c" -I "$t/i" > /dev/null 2> "$t/log"; ! grep -q AddressSanitizer "$t/log"''',
      needs="an include path that is one character longer than the longest before", breaks="one byte is written behind a buffer"),
 dict(id="c19-label-dup", property="C19", edits=[("src/parser/function_parser.c", "				goto_block = function_scope.labels[i].end_block;\n				function_scope.labels[i].used = 1;", "				goto_block = function_scope.labels[i].end_block;\n				function_scope.labels[i].used = !function_scope.labels[i].goto_block || jump_blocks->block_break;") if False else ("src/parser/function_parser.c", "				function_scope.labels[i].used = 1;", "				function_scope.labels[i].used = i + 1 < function_scope.size;")],
      sh=C("void f(void) { goto a; a:; goto a; a:; }", '! "$cc" -c "$t/a.c" -o "$t/a.o" > /dev/null 2>&1'),
      needs="a label defined twice that was first used by a goto and is the last one seen", breaks="the second definition is accepted"),
 dict(id="c19-register", property="C19", edits=[(X, "			(rhs->type == E_SYMBOL && rhs->symbol->is_register))", "			(rhs->type == E_SYMBOL && rhs->symbol->is_register && !type_is_pointer(rhs->data_type)))")],
      sh=C("void f(void) { register int *a = 0; int **b = &a; }", '! "$cc" -c "$t/a.c" -o "$t/a.o" > /dev/null 2>&1'),
      needs="the address of a register variable of pointer type", breaks="it is accepted"),
 dict(id="c19-enum-redef", property="C19", edits=[(DE, "			if (data->is_complete)\n				ERROR(T0->pos, \"Redeclaring struct/union\");", "			if (data->is_complete && name.len > 2)\n				ERROR(T0->pos, \"Redeclaring struct/union\");")],
      sh="", needs="", breaks=""),
 dict(id="c18-order", property="C18", edits=[(IR, "	mask_inverted = ir_binary_and(mask_inverted, value_large);\n\n	result_large = ir_binary_or(mask_inverted, result_large);", "	result_large = ir_binary_or(ir_binary_and(mask_inverted, value_large), ir_cast_int(result_large, 8, 0));") if False else (IR, "	struct node *value_large = ir_cast_int(value, 8, 0);\n	struct node *field_large = ir_cast_int(field, 8, 0);\n\n	struct node *shift_var", "	struct node *shift_var"), (IR, "	struct node *result_large = ir_binary_and(mask_var, field_large);", "	struct node *value_large = ir_cast_int(value, 8, 0);\n	struct node *result_large = ir_binary_and(mask_var, ir_cast_int(field, 8, 0));"), (IR, "	mask_inverted = ir_binary_and(mask_inverted, value_large);\n\n	result_large = ir_binary_or(mask_inverted, result_large);", "	result_large = ir_binary_or(ir_binary_and(mask_inverted, value_large), ir_binary_and(mask_var, result_large));")],
      sh=C("struct s { int a : 3; unsigned b : 7; long c : 40; }; void f(struct s *p, long v) { p->a = v; p->b = v; p->c = v; }", SELF),
      needs="an assignment to a bit-field, in the compiler compiled by itself", breaks="the output depends on the order in which the host compiler evaluates arguments"),
 dict(id="c23-ms-small-struct", property="C23", edits=[("src/abi/microsoft.c", "	if (fits_into_reg(type)) {\n		scalar_to_reg(address, REG_RSI);\n		reg_to_memory(", "	if (calculate_size(type) <= 4 || fits_into_reg(type)) {\n		scalar_to_reg(address, REG_RSI);\n		reg_to_memory(")],
      sh=C("struct s { char a[3]; }; int f(int n, ...) { __builtin_va_list l; __builtin_va_start(l, n); struct s s = __builtin_va_arg(l, struct s); int k = __builtin_va_arg(l, int); __builtin_va_end(l); return s.a[0] * 100 + s.a[1] * 10 + s.a[2] + k; }", C("struct s { char a[3]; }; __attribute__((ms_abi)) int f(int n, ...); int main(void) { struct s s = { { 1, 2, 3 } }; return f(1, s, 4) != 127; }", '''"$cc" -fabi=ms -S "$t/a.c" -o "$t/a.s" && gcc -no-pie -w "$t/b.c" "$t/a.s" -o "$t/x" && "$t/x"''', "b.c")),
      needs="va_arg of a structure of three bytes with -fabi=ms", breaks="the pointer is taken for the structure"),
 dict(id="c05-load-size", property="C05", edits=[("src/optimize/mem2reg.c", "			if (use->size != size)\n				return;\n			break;\n\n		default: return;", "			if (use->size > size)\n				return;\n			break;\n\n		default: return;")],
      demo=chk("  long x = 0x1234567890; volatile int one = 1; x *= one; if (*(unsigned char *)&x != 0x90) return 1; unsigned u = 0xabcd; u *= one; if (*(unsigned char *)&u != 0xcd) return 2;"),
      needs="a variable read through a pointer to a character type", breaks="the whole variable is read"),
 dict(id="c05-zero-size", property="C05", edits=[("src/optimize/mem2reg.c", "			if (use->set_zero_ptr.size != size)", "			if (use->set_zero_ptr.size > size)")],
      sh="", needs="", breaks=""),
 dict(id="c14-entry-prefix", property="C14", edits=[("src/linker/linker.c", "		if (symbol->name && strcmp(symbol->name, \"_start\") == 0) {", "		if (symbol->name && strncmp(symbol->name, \"_start\", 6) == 0) {")],
      sh=C("void _start2(void) { for (;;); }\nint _start_n = 3;", C(".globl _start\n.text\n_start:\n movl $60, %eax\n movl $0, %edi\n syscall", '''as "$t/s.s" -o "$t/s.o" && "$cc" -c "$t/a.c" -o "$t/a.o" && "$cc" "$t/s.o" "$t/a.o" -o "$t/x" > "$t/log" 2>&1 || { cat "$t/log"; exit 1; }
chmod +x "$t/x"; timeout 5 "$t/x"''', "s.s")),
      needs="a symbol whose name begins with _start, in an object given after the one that defines _start", breaks="execution begins there"),
]
PLANTS = [p for p in PLANTS if p["needs"]]
