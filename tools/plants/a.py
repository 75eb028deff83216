H = "int printf(const char *, ...);\n"
def chk(body, pre=""):
    return H + pre + "int main(void) {\n" + body + "\nreturn 0;\n}\n"

PLANTS = [
 dict(id="c01-usgn-short", property="C01", edits=[("src/codegen/codegen.c", '				asm_ins2("movswq", R2(REG_RAX), R8(REG_RAX));\n			} else if (size_rhs == 4) {\n				asm_ins2("movslq", R4(REG_RAX), R8(REG_RAX));\n			}\n		}', '				asm_ins2(size_result == 8 ? "movzwl" : "movswq", R2(REG_RAX), size_result == 8 ? R4(REG_RAX) : R8(REG_RAX));\n			} else if (size_rhs == 4) {\n				asm_ins2("movslq", R4(REG_RAX), R8(REG_RAX));\n			}\n		}')],
      demo=chk("  volatile short s = -5; long l = s; if (l != -5) { printf(\"%ld\\n\", l); return 1; }"),
      needs="a negative short converted directly to a 64-bit type", breaks="sign extension from short to long is zero extension"),
 dict(id="c03-short-wrap", property="C03", edits=[("src/arch/x64.c", "	return (x > range_max) ? -((range_min + 1) - (x - range_max)) : x;", "	return (x > range_max + (range_min >> 15 == 1)) ? -((range_min + 1) - (x - range_max)) : x;")],
      demo=chk("  int a = (short)0x8000; if (a != -32768) { printf(\"%d\\n\", a); return 1; }"),
      needs="a constant conversion to short of exactly the first value out of range", breaks="(short)0x8000 as a constant is 32768"),
 dict(id="c02-float-sub-fold", property="C02", edits=[("src/codegen/codegen.c", '			asm_ins2("movq", R8(REG_RAX), XMM(0));\n			asm_ins2("cvtsd2ss", XMM(0), XMM(0));\n', '			asm_ins2("cvtsi2ss", R8(REG_RAX), XMM(0));\n			asm_ins2("movq", R8(REG_RAX), XMM(0));\n			if (ins->arguments[0]->type != IR_INT_FLOAT_CAST)\n				asm_ins2("cvtsd2ss", XMM(0), XMM(0));\n')],
      demo=chk("  volatile int i = 7; float f = (float)(double)i; if (f != 7.0f) { printf(\"%f\\n\", f); return 1; }"),
      needs="an int converted to double and then to float within one expression", breaks="the narrowing conversion from double to float is left out"),
 dict(id="c05-memcpy-tail", property="C05", edits=[("src/codegen/codegen.c", '			asm_ins2("movw", MEM(i, REG_RDI), R2(REG_RAX));\n			asm_ins2("movw", R2(REG_RAX), MEM(i, REG_RSI));\n			i += 2;\n		} else if (i + 1 <= len) {\n			asm_ins2("movb", MEM(i, REG_RDI), R1(REG_RAX));', '			asm_ins2("movw", MEM(i, REG_RDI), R2(REG_RAX));\n			asm_ins2("movw", R2(REG_RAX), MEM(i, REG_RSI));\n			i += 2 + (len > 16 && i + 3 == len);\n		} else if (i + 1 <= len) {\n			asm_ins2("movb", MEM(i, REG_RDI), R1(REG_RAX));')],
      demo=chk("  struct s { char c[23]; } a, b; for (int i = 0; i < 23; i++) { a.c[i] = i; b.c[i] = 99; } b = a;\n  for (int i = 0; i < 23; i++) if (b.c[i] != i) { printf(\"%d\\n\", i); return 1; }"),
      needs="a copy of a struct of more than 16 bytes whose size is 3 or 7 modulo 8", breaks="the last byte of some struct copies is lost"),
 dict(id="c05-mem2reg-phi", property="C05", edits=[("src/optimize/mem2reg.c", "		if (state->arguments[0] == alloc)\n			ret_value = state->arguments[1];\n		else\n", "		if (state->arguments[0] == alloc && state->arguments[1]->size == alloc->alloc.size)\n			ret_value = state->arguments[1];\n		else if (state->arguments[0] == alloc && state->arguments[2]->type == IR_STORE && state->arguments[2]->arguments[0] == alloc && state->arguments[1]->size == 2)\n			ret_value = state->arguments[1];\n		else\n")] if False else [("src/optimize/mem2reg.c", "	case IR_SET_ZERO_PTR:\n		if (state->arguments[0] == alloc)\n			ret_value = ir_zero(alloc->alloc.size);", "	case IR_SET_ZERO_PTR:\n		if (state->arguments[0] == alloc && state->visited == visit_idx && alloc->alloc.size != 2)\n			ret_value = ir_zero(alloc->alloc.size);\n		else if (state->arguments[0] == alloc)\n			ret_value = ir_new(IR_UNDEFINED, alloc->alloc.size);\n		else if (0)\n			ret_value = ir_zero(alloc->alloc.size);")],
      demo=chk("  return 0;"), needs="", breaks=""),
 dict(id="c04-default-nested", property="C04", edits=[("src/parser/function_parser.c", "	new_jump_blocks.control_type = condition->data_type;\n	new_jump_blocks.block_default = NULL;\n", "	new_jump_blocks.control_type = condition->data_type;\n")],
      demo=chk("  int r = 0; for (int i = 0; i < 3 && r < 100; i++) switch (i) { default: r += 10; switch (i) { case 7: r += 1000; break; } r++; break; case 5: r = 500; } if (r != 33) { printf(\"%d\\n\", r); return 1; }"),
      needs="a switch without default label nested in another switch after its default label", breaks="the inner switch jumps to the default label of the outer one"),
 dict(id="c06-bitfield-sign", property="C06", edits=[("src/ir/ir.c", "	struct node *rshift_var = ir_constant(constant_simple_unsigned(abi_info.size_type, 64 - length));\n\n	field_large = ir_left_shift(field_large, lshift_var);\n	field_large = ir_right_shift(field_large, rshift_var, sign_extend);", "	struct node *rshift_var = ir_constant(constant_simple_unsigned(abi_info.size_type, 64 - length));\n\n	field_large = ir_left_shift(field_large, lshift_var);\n	field_large = ir_right_shift(field_large, rshift_var, sign_extend && offset + length != 32);")],
      demo=chk("  struct { int a : 20; int b : 12; } s; s.a = 3; s.b = -2; if (s.b != -2) { printf(\"%d\\n\", s.b); return 1; }"),
      needs="a signed bit-field that ends at the top bit of a 32-bit unit", breaks="negative values of such bit-fields are read as positive"),
]
PLANTS = [p for p in PLANTS if p["breaks"]]
