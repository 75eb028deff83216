From fa20790101af0f25dada15ccb2ce71cf9233bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 01/66] fix: unsigned division was compiled as signed division

---
 src/ir/ir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index e94b179..a431ab8 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -556,7 +556,7 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 	if (type == IR_IDIV)
 		return ir_idiv(lhs, rhs);
 	if (type == IR_DIV)
-		return ir_idiv(lhs, rhs);
+		return ir_div(lhs, rhs);
 	if (type == IR_MOD)
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
-- 
2.43.0


From c071ff6b52bf986f75e270cfd59c8247b99a41e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 02/66] fix: constant conversion to _Bool truncated instead of
 comparing with zero

---
 src/arch/x64.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 3f8f12d..6726578 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -507,6 +507,17 @@ static struct constant simple_cast(struct constant from, enum simple_type target
 	if (target == ST_VOID || target == from_type)
 		return from;
 
+	// Conversion to _Bool is a comparison with zero, and not a truncation (6.3.1.2).
+	if (target == ST_BOOL) {
+		if (from_type == ST_FLOAT)
+			from.uint_d = from.float_d != 0;
+		else if (from_type == ST_DOUBLE)
+			from.uint_d = from.double_d != 0;
+		else
+			from.uint_d = from.uint_d != 0;
+		return from;
+	}
+
 	if (from_int && to_int) {
 		struct range r = get_range(target, -1);
 		constant_uint range_min = r.min == -1 ? 0 : (constant_uint)1 << r.min;
-- 
2.43.0


From 3b84d07118c0820950376b08392a132914dc9249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 03/66] fix: comparisons of 64-bit operands produced a 64-bit
 int

---
 src/parser/expression_to_ir.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index b857abf..1faf835 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -438,6 +438,9 @@ static struct evaluated_expression evaluate_binary_operator(struct expr *expr) {
 
 	struct node *res = ir_binary_op(ir_from_type_and_op(expr->args[0]->data_type, expr->binary_op), lhs_var, rhs_var);
 
+	// The result of a comparison is an int, whatever the size of the operands.
+	res->size = calculate_size(expr->data_type);
+
 	return (struct evaluated_expression) {
 		.type = EE_VARIABLE,
 		.variable = res
-- 
2.43.0


From 0a93127999cf71f31045aa2965df7fb09c103c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 04/66] fix: shift assignment converted its operands to a
 common type

---
 src/parser/expression.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 68b9752..97a9c16 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -348,7 +348,14 @@ static void fix_assignment_operators(struct expr *expr) {
 	if (expr->type != E_ASSIGNMENT_OP)
 		return;
 
-	convert_arithmetic(&expr->args[0], &expr->args[1]);
+	if (expr->assignment_op.op == OP_LSHIFT ||
+		expr->assignment_op.op == OP_RSHIFT) {
+		// The type of a shift is the type of the promoted left operand.
+		// See 6.5.7.
+		expr->args[1] = expression_cast(expr->args[1], expr->args[0]->data_type);
+	} else {
+		convert_arithmetic(&expr->args[0], &expr->args[1]);
+	}
 	// Reduce double cast into single cast. Always correct in this case.
 	if (expr->args[0]->type == E_CAST) {
 		if (expr->args[0]->cast.arg->type == E_CAST)
-- 
2.43.0


From abb6a4737dcd38e710868b8ab7152342555e7a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 05/66] fix: folding undefined integer operations crashed the
 compiler or gave out-of-range constants

---
 src/ir/operators.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/ir/operators.c b/src/ir/operators.c
index 2af7aa7..aa84710 100644
--- a/src/ir/operators.c
+++ b/src/ir/operators.c
@@ -89,20 +89,25 @@ int operators_constant(enum operator_type op,
 		default: NOTIMP();
 		}
 	} else if (type_is_integer(type) && is_signed(st)) {
-		// Overflow is undefined, so we can just ignore truncation completely.
-		if ((op == OP_DIV || op == OP_DIV) && rhs.int_d == 0)
+		// The behaviour of these is undefined if they are ever evaluated,
+		// so leave them to be evaluated at runtime.
+		if ((op == OP_DIV || op == OP_MOD) &&
+			(rhs.int_d == 0 || (rhs.int_d == -1 && lhs.int_d == INTMAX_MIN)))
+			return 0;
+		if ((op == OP_LSHIFT || op == OP_RSHIFT) &&
+			(rhs.int_d < 0 || rhs.int_d >= calculate_size(type) * 8))
 			return 0;
 
 		switch (op) {
-		case OP_ADD: res.int_d = lhs.int_d + rhs.int_d; break;
-		case OP_SUB: res.int_d = lhs.int_d - rhs.int_d; break;
-		case OP_MUL: res.int_d = lhs.int_d * rhs.int_d; break;
+		case OP_ADD: res.uint_d = lhs.uint_d + rhs.uint_d; break;
+		case OP_SUB: res.uint_d = lhs.uint_d - rhs.uint_d; break;
+		case OP_MUL: res.uint_d = lhs.uint_d * rhs.uint_d; break;
 		case OP_DIV: res.int_d = lhs.int_d / rhs.int_d; break;
 		case OP_MOD: res.int_d = lhs.int_d % rhs.int_d; break;
 		case OP_BXOR: res.int_d = lhs.int_d ^ rhs.int_d; break;
 		case OP_BOR: res.int_d = lhs.int_d | rhs.int_d; break;
 		case OP_BAND: res.int_d = lhs.int_d & rhs.int_d; break;
-		case OP_LSHIFT: res.int_d = lhs.int_d << rhs.int_d; break;
+		case OP_LSHIFT: res.uint_d = lhs.uint_d << rhs.uint_d; break;
 		case OP_RSHIFT: res.int_d = lhs.int_d >> rhs.int_d; break;
 		case OP_LESS: res.int_d = lhs.int_d < rhs.int_d; break;
 		case OP_GREATER: res.int_d = lhs.int_d > rhs.int_d; break;
@@ -112,7 +117,15 @@ int operators_constant(enum operator_type op,
 		case OP_NOT_EQUAL: res.int_d = lhs.int_d != rhs.int_d; break;
 		default: NOTIMP();
 		}
+
+		constant_normalize(&res);
 	} else if (type_is_integer(type) && !is_signed(st)) {
+		if ((op == OP_DIV || op == OP_MOD) && rhs.uint_d == 0)
+			return 0;
+		if ((op == OP_LSHIFT || op == OP_RSHIFT) &&
+			rhs.uint_d >= (constant_uint)calculate_size(type) * 8)
+			return 0;
+
 		int sign = 0;
 		switch (op) {
 		case OP_ADD: res.uint_d = lhs.uint_d + rhs.uint_d; break;
@@ -174,10 +187,12 @@ int operators_constant_unary(enum unary_operator_type op,
 	} else if (type_is_integer(type) && is_signed(st)) {
 		switch (op) {
 		case UOP_PLUS: res.int_d = +rhs.int_d; break;
-		case UOP_NEG: res.int_d = -rhs.int_d; break;
+		case UOP_NEG: res.uint_d = -rhs.uint_d; break;
 		case UOP_BNOT: res.int_d = ~rhs.int_d; break;
 		default: NOTIMP();
 		}
+
+		constant_normalize(&res);
 	} else if (type_is_integer(type) && !is_signed(st)) {
 		switch (op) {
 		case UOP_PLUS: res.uint_d = +rhs.uint_d; break;
-- 
2.43.0


From cf2da5d228269c7fbb7f5f9d0aad735d39555e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:22 +0000
Subject: [PATCH 06/66] fix: negative char and short converted to floating
 point as large positive values

---
 src/codegen/codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 2f30007..e90d074 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -361,9 +361,9 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		int size_rhs = ins->arguments[0]->size,
 			size_result = ins->size;
 		if (size_rhs == 1) {
-			asm_ins2("movsbl", R1(REG_RAX), R4(REG_RAX));
+			asm_ins2("movsbq", R1(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 2) {
-			asm_ins2("movswl", R2(REG_RAX), R4(REG_RAX));
+			asm_ins2("movswq", R2(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 4) {
 			asm_ins2("movslq", R4(REG_RAX), R8(REG_RAX));
 		}
-- 
2.43.0


From fc01785cdc64e2bb05cab0ec876d329066cf8fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 07/66] fix: comparisons with a NaN operand gave the wrong
 result

---
 src/assembler/instructions.h   |   2 +
 src/codegen/binary_operators.h | 102 ++++++++++++++++++++-------------
 src/codegen/codegen.c          |   4 +-
 3 files changed, 67 insertions(+), 41 deletions(-)

diff --git a/src/assembler/instructions.h b/src/assembler/instructions.h
index 3e96129..73f4e49 100644
--- a/src/assembler/instructions.h
+++ b/src/assembler/instructions.h
@@ -206,6 +206,8 @@ struct encoding encodings[] = {
 	{"setle", 0x0f, .op2 = 0x9e, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setnb", 0x0f, .op2 = 0x93, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setne", 0x0f, .op2 = 0x95, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setnp", 0x0f, .op2 = 0x9b, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setp", 0x0f, .op2 = 0x9a, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	
 	{"salq", 0xd3, .rex = 1, .rexw = 1, .modrm_extension = 4, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_NONE, 0}}, .operand_accepts = {A_MODRM(8), A_RCX(1)}},
 	{"sall", 0xd3, .modrm_extension = 4, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_NONE, 0}}, .operand_accepts = {A_MODRM(4), A_RCX(1)}},
diff --git a/src/codegen/binary_operators.h b/src/codegen/binary_operators.h
index d350bf6..29339b4 100644
--- a/src/codegen/binary_operators.h
+++ b/src/codegen/binary_operators.h
@@ -21,12 +21,25 @@
 		{"movd", {XMM_(0), R4_(REG_RAX)}},		\
 	}
 
-#define BINARY_COMP_FLT_32(MNEMONIC) {				\
+// The flags of ucomiss and ucomisd read as "below or equal" when an
+// operand is NaN. The ordered comparisons are therefore done with "above"
+// (with the operands swapped for less), and equality looks at the parity flag.
+#define BINARY_COMP_FLT_32(MNEMONIC, LHS, RHS) {	\
+		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
+		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
+		{"ucomiss", {XMM_(RHS), XMM_(LHS)}},	\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+	}
+
+#define BINARY_EQUAL_FLT_32(MNEMONIC, PARITY, COMBINE) {	\
 		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
 		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
-		{"xorq", {R8_(REG_RAX), R8_(REG_RAX)}},	\
 		{"ucomiss", {XMM_(1), XMM_(0)}},		\
 		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{PARITY, {R1_(REG_RCX)}},				\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},	\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
 	}
 
 #define BINARY_INS_64(MNEMONIC) {						\
@@ -46,78 +59,89 @@
 		{"movq", {XMM_(0), R8_(REG_RAX)}},		\
 	}
 
-#define BINARY_COMP_FLT_64(MNEMONIC) {				\
+#define BINARY_COMP_FLT_64(MNEMONIC, LHS, RHS) {	\
+		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
+		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
+		{"ucomisd", {XMM_(RHS), XMM_(LHS)}},	\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+	}
+
+#define BINARY_EQUAL_FLT_64(MNEMONIC, PARITY, COMBINE) {	\
 		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
 		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
 		{"ucomisd", {XMM_(1), XMM_(0)}},		\
 		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{PARITY, {R1_(REG_RCX)}},				\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},	\
 		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
 	}
 
 #define BINARY_INS(M32, M64) BINARY_INS_32(M32), BINARY_INS_64(M64)
 #define BINARY_COMP(M) BINARY_COMP_32(M), BINARY_COMP_64(M)
 #define BINARY_INS_FLT(M32, M64) BINARY_INS_FLT_32(M32), BINARY_INS_FLT_64(M64)
-#define BINARY_COMP_FLT(M) BINARY_COMP_FLT_32(M), BINARY_COMP_FLT_64(M)
+#define BINARY_COMP_FLT(M, L, R) BINARY_COMP_FLT_32(M, L, R), BINARY_COMP_FLT_64(M, L, R)
+#define BINARY_EQUAL_FLT(M, P, C) BINARY_EQUAL_FLT_32(M, P, C), BINARY_EQUAL_FLT_64(M, P, C)
 
-static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][5] = {
-	[IR_ADD] = &(struct asm_instruction [2][5]) {BINARY_INS("addl", "addq")},
-	[IR_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS("subl", "subq") },
-	[IR_IMUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_BXOR] = &(struct asm_instruction [2][5]) { BINARY_INS("xorl", "xorq") },
-	[IR_BOR] = &(struct asm_instruction [2][5]) { BINARY_INS("orl", "orq") },
-	[IR_BAND] = &(struct asm_instruction [2][5]) { BINARY_INS("andl", "andq") },
-	[IR_IDIV] = &(struct asm_instruction [2][5]) {
+static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][8] = {
+	[IR_ADD] = &(struct asm_instruction [2][8]) {BINARY_INS("addl", "addq")},
+	[IR_SUB] = &(struct asm_instruction [2][8]) { BINARY_INS("subl", "subq") },
+	[IR_IMUL] = &(struct asm_instruction [2][8]) { BINARY_INS("imull", "imulq") },
+	[IR_MUL] = &(struct asm_instruction [2][8]) { BINARY_INS("imull", "imulq") },
+	[IR_BXOR] = &(struct asm_instruction [2][8]) { BINARY_INS("xorl", "xorq") },
+	[IR_BOR] = &(struct asm_instruction [2][8]) { BINARY_INS("orl", "orq") },
+	[IR_BAND] = &(struct asm_instruction [2][8]) { BINARY_INS("andl", "andq") },
+	[IR_IDIV] = &(struct asm_instruction [2][8]) {
 		{{"cltd", { { 0 } }}, {"idivl", {R4_(REG_RCX)}}},
 		{{"cqto", { { 0 } }}, {"idivq", {R8_(REG_RCX)}}},
 	},
-	[IR_IMOD] = &(struct asm_instruction [2][5]) {
+	[IR_IMOD] = &(struct asm_instruction [2][8]) {
 		{{"cltd", { { 0 } }},
 		 {"idivl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"cqto", { { 0 } }},
 		 {"idivq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
-	[IR_LSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_LSHIFT] = &(struct asm_instruction [2][8]) {
 		{{"sall", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"salq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IRSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_IRSHIFT] = &(struct asm_instruction [2][8]) {
 		{{"sarl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"sarq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_RSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_RSHIFT] = &(struct asm_instruction [2][8]) {
 		{{"shrl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"shrq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IGREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("setg") },
-	[IR_ILESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setle") },
-	[IR_ILESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setl") },
-	[IR_IGREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setge") },
-	[IR_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("sete") },
-	[IR_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("setne") },
-	[IR_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setb") },
-	[IR_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("seta") },
-	[IR_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setbe") },
-	[IR_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setnb") },
-	[IR_DIV] = &(struct asm_instruction [2][5]) {
+	[IR_IGREATER] = &(struct asm_instruction [2][8]) { BINARY_COMP("setg") },
+	[IR_ILESS_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP("setle") },
+	[IR_ILESS] = &(struct asm_instruction [2][8]) { BINARY_COMP("setl") },
+	[IR_IGREATER_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP("setge") },
+	[IR_EQUAL] = &(struct asm_instruction [2][8]) { BINARY_COMP("sete") },
+	[IR_NOT_EQUAL] = &(struct asm_instruction [2][8]) { BINARY_COMP("setne") },
+	[IR_LESS] = &(struct asm_instruction [2][8]) { BINARY_COMP("setb") },
+	[IR_GREATER] = &(struct asm_instruction [2][8]) { BINARY_COMP("seta") },
+	[IR_LESS_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP("setbe") },
+	[IR_GREATER_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP("setnb") },
+	[IR_DIV] = &(struct asm_instruction [2][8]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}},
 	},
-	[IR_MOD] = &(struct asm_instruction [2][5]) {
+	[IR_MOD] = &(struct asm_instruction [2][8]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
 
-	[IR_FLT_ADD] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("addss", "addsd") },
-	[IR_FLT_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("subss", "subsd") },
-	[IR_FLT_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("mulss", "mulsd") },
-	[IR_FLT_DIV] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("divss", "divsd") },
-	[IR_FLT_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setb") },
-	[IR_FLT_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("seta") },
-	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setbe") },
-	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setnb") },
-	[IR_FLT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("sete") },
-	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setne") },
+	[IR_FLT_ADD] = &(struct asm_instruction [2][8]) { BINARY_INS_FLT("addss", "addsd") },
+	[IR_FLT_SUB] = &(struct asm_instruction [2][8]) { BINARY_INS_FLT("subss", "subsd") },
+	[IR_FLT_MUL] = &(struct asm_instruction [2][8]) { BINARY_INS_FLT("mulss", "mulsd") },
+	[IR_FLT_DIV] = &(struct asm_instruction [2][8]) { BINARY_INS_FLT("divss", "divsd") },
+	[IR_FLT_LESS] = &(struct asm_instruction [2][8]) { BINARY_COMP_FLT("seta", 1, 0) },
+	[IR_FLT_GREATER] = &(struct asm_instruction [2][8]) { BINARY_COMP_FLT("seta", 0, 1) },
+	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP_FLT("setnb", 1, 0) },
+	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP_FLT("setnb", 0, 1) },
+	[IR_FLT_EQUAL] = &(struct asm_instruction [2][8]) { BINARY_EQUAL_FLT("sete", "setnp", "andl") },
+	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][8]) { BINARY_EQUAL_FLT("setne", "setp", "orl") },
 };
 
 #endif
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index e90d074..8caec02 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -202,7 +202,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	const char *ins_str = dbg_instruction(ins);
 	asm_comment("instruction start \"%s\":", ins_str);
 
-	struct asm_instruction (*asm_entry)[2][5] = codegen_asm_table[ins->type];
+	struct asm_instruction (*asm_entry)[2][8] = codegen_asm_table[ins->type];
 	if (asm_entry) {
 		struct node *output = ins;
 		if (ins->type == IR_DIV ||
@@ -219,7 +219,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 
 		struct asm_instruction *asms = (*asm_entry)[size == 8];
 
-		for (int i = 0; i < 5 && asms[i].mnemonic; i++)
+		for (int i = 0; i < 8 && asms[i].mnemonic; i++)
 			asm_ins(&asms[i]);
 
 		reg_to_scalar(REG_RAX, output);
-- 
2.43.0


From 5485dea0786a6843fb5d7e53e8464f56f86941f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 08/66] fix: conversions between floating point and the upper
 half of unsigned 64-bit integers

---
 src/codegen/codegen.c | 55 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 8caec02..745f09f 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -390,11 +390,36 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 			asm_ins2("movzwl", R2(REG_RAX), R4(REG_RAX));
 		}
 
+		// The conversion instructions are signed. Values with the top
+		// bit set are halved (keeping the lowest bit for the rounding)
+		// and doubled again after the conversion.
+		label_id label_convert = register_label();
+		if (size_rhs == 8) {
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RDX));
+			asm_ins2("shrq", IMM(63), R8(REG_RDX));
+			asm_ins2("movq", R8(REG_RDX), R8(REG_RCX));
+			asm_ins2("andq", R8(REG_RAX), R8(REG_RDX));
+			asm_ins2("shrq", R1(REG_RCX), R8(REG_RAX));
+			asm_ins2("orq", R8(REG_RDX), R8(REG_RAX));
+		}
+
 		if (size_result == 4) {
 			asm_ins2("cvtsi2ss", R8(REG_RAX), XMM(0));
+			if (size_rhs == 8) {
+				asm_ins2("testq", R8(REG_RCX), R8(REG_RCX));
+				asm_ins1("je", IMML_ABS(label_convert, 0));
+				asm_ins2("addss", XMM(0), XMM(0));
+				asm_label(0, label_convert);
+			}
 			asm_ins2("movd", XMM(0), R4(REG_RAX));
 		} else if (size_result == 8) {
 			asm_ins2("cvtsi2sd", R8(REG_RAX), XMM(0));
+			if (size_rhs == 8) {
+				asm_ins2("testq", R8(REG_RCX), R8(REG_RCX));
+				asm_ins1("je", IMML_ABS(label_convert, 0));
+				asm_ins2("addsd", XMM(0), XMM(0));
+				asm_label(0, label_convert);
+			}
 			asm_ins2("movq", XMM(0), R8(REG_RAX));
 		} else {
 			NOTIMP();
@@ -405,15 +430,41 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	case IR_FLOAT_INT_CAST: {
 		scalar_to_reg(ins->arguments[0], REG_RAX);
 		int size_rhs = ins->arguments[0]->size;
-		// This is not the exact same as gcc and clang in the
-		// case of unsigned long. But within the C standard?
+		// The conversion instructions are signed. For the upper half
+		// of the unsigned 64-bit range, 2^63 is subtracted before the
+		// conversion and added back afterwards.
+		label_id label_small = register_label(), label_end = register_label();
 		if (size_rhs == 4) {
 			asm_ins2("movd", R4(REG_RAX), XMM(0));
+			if (ins->size == 8) {
+				asm_ins2("movl", IMM(0x5f000000), R4(REG_RAX));
+				asm_ins2("movd", R4(REG_RAX), XMM(1));
+				asm_ins2("ucomiss", XMM(1), XMM(0));
+				asm_ins1("jnae", IMML_ABS(label_small, 0));
+				asm_ins2("subss", XMM(1), XMM(0));
+				asm_ins2("cvttss2si", XMM(0), R8(REG_RAX));
+				asm_ins2("btcq", IMM(63), R8(REG_RAX));
+				asm_ins1("jmp", IMML_ABS(label_end, 0));
+				asm_label(0, label_small);
+			}
 			asm_ins2("cvttss2si", XMM(0), R8(REG_RAX));
 		} else if (size_rhs == 8) {
 			asm_ins2("movd", R8(REG_RAX), XMM(0));
+			if (ins->size == 8) {
+				asm_ins2("movabsq", IMM(0x43e0000000000000), R8(REG_RAX));
+				asm_ins2("movq", R8(REG_RAX), XMM(1));
+				asm_ins2("ucomisd", XMM(1), XMM(0));
+				asm_ins1("jnae", IMML_ABS(label_small, 0));
+				asm_ins2("subsd", XMM(1), XMM(0));
+				asm_ins2("cvttsd2si", XMM(0), R8(REG_RAX));
+				asm_ins2("btcq", IMM(63), R8(REG_RAX));
+				asm_ins1("jmp", IMML_ABS(label_end, 0));
+				asm_label(0, label_small);
+			}
 			asm_ins2("cvttsd2si", XMM(0), R8(REG_RAX));
 		}
+		if (ins->size == 8)
+			asm_label(0, label_end);
 		reg_to_scalar(REG_RAX, ins);
 	} break;
 
-- 
2.43.0


From dad63ec77c9ce87142192835c32e0968e16d5154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 09/66] fix: controlling expressions were truncated to int

---
 src/parser/expression.c       |  6 ++++++
 src/parser/expression.h       |  1 +
 src/parser/expression_to_ir.c | 23 ++++++++++++++++-------
 src/parser/expression_to_ir.h |  2 +-
 src/parser/function_parser.c  | 23 ++++++++++++++---------
 5 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 97a9c16..eb40d34 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -105,6 +105,12 @@ static void do_integer_promotion(struct expr **expr) {
 	}
 }
 
+struct expr *expression_promote(struct expr *expr) {
+	decay_array(&expr);
+	do_integer_promotion(&expr);
+	return expr;
+}
+
 static void do_default_argument_promotion(struct expr **expr) {
 	do_integer_promotion(expr);
 
diff --git a/src/parser/expression.h b/src/parser/expression.h
index f1d8af4..3f41a64 100644
--- a/src/parser/expression.h
+++ b/src/parser/expression.h
@@ -168,6 +168,7 @@ struct expr {
 struct expr *parse_assignment_expression(void);
 struct expr *parse_expression(void);
 struct expr *expression_cast(struct expr *expr, struct type *type);
+struct expr *expression_promote(struct expr *expr);
 
 struct constant *expression_to_constant(struct expr *expr);
 int evaluate_constant_expression(struct expr *expr, struct constant *constant);
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 1faf835..1dbc349 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -126,6 +126,17 @@ struct node *evaluated_expression_to_var(struct evaluated_expression *evaluated_
 	}
 }
 
+// Comparison with zero, for floating point the bit pattern is not enough.
+static struct node *variable_to_condition(struct node *variable, struct type *type) {
+	if (!type_is_floating(type))
+		return variable;
+
+	struct constant zero = constant_cast(constant_simple_signed(ST_INT, 0), type);
+	struct node *res = ir_binary_op(ir_from_type_and_op(type, OP_NOT_EQUAL), variable, ir_constant(zero));
+	res->size = calculate_size(type_simple(ST_INT));
+	return res;
+}
+
 static struct node *variable_cast(struct node *operand_var, struct type *operand_type, struct type *resulting_type) {
 	struct node *res = operand_var;
 
@@ -133,7 +144,7 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 		return operand_var;
 
 	if (type_is_simple(resulting_type, ST_BOOL)) {
-		res = ir_bool_cast(operand_var);
+		res = ir_bool_cast(variable_to_condition(operand_var, operand_type));
 	} else if ((type_is_integer(resulting_type) || type_is_pointer(resulting_type)) &&
 			   (type_is_integer(operand_type) || type_is_pointer(operand_type))) {
 		if (calculate_size(resulting_type) != calculate_size(operand_type)) {
@@ -538,7 +549,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 
 static struct evaluated_expression evaluate_conditional(struct expr *expr) {
 	struct evaluated_expression condition = expression_evaluate(expr->args[0]);
-	struct node *condition_var = evaluated_expression_to_var(&condition);
+	struct node *condition_var = variable_to_condition(evaluated_expression_to_var(&condition), condition.data_type);
 
 	int is_void = type_is_simple(expr->data_type, ST_VOID);
 
@@ -746,11 +757,9 @@ struct node *expression_to_size_t(struct expr *expr) {
 	return res;
 }
 
-struct node *expression_to_int(struct expr *expr) {
-	struct evaluated_expression ee = expression_evaluate(expr);
-	ee = evaluated_expression_cast(&ee, type_simple(ST_INT));
-	struct node *res = evaluated_expression_to_var(&ee);
-	return res;
+struct node *expression_to_condition(struct expr *expr) {
+	struct evaluated_expression ee = expression_evaluate(expression_promote(expr));
+	return variable_to_condition(evaluated_expression_to_var(&ee), ee.data_type);
 }
 
 void expression_to_void(struct expr *expr) {
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index f8ed441..596dc82 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -9,7 +9,7 @@ struct node *expression_to_ir(struct expr *expr);
 struct node *expression_to_ir_clear_temp(struct expr *expr);
 
 struct node *expression_to_size_t(struct expr *expr);
-struct node *expression_to_int(struct expr *expr);
+struct node *expression_to_condition(struct expr *expr);
 void expression_to_void(struct expr *expr);
 void expression_to_address(struct expr *expr, struct node *address);
 
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8ae4da8..62424c0 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -20,6 +20,7 @@ struct jump_blocks {
 
 	struct node *block_entry, *block_default;
 	struct node *case_control;
+	struct type *control_type;
 };
 
 static struct function_scope {
@@ -81,14 +82,14 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!value)
 			ERROR(T0->pos, "Expected expression");
 		TEXPECT(T_COLON);
-		struct constant *constant = expression_to_constant(expression_cast(value, type_simple(ST_INT)));
-		if (!constant)
-			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
-
 		struct node *case_control = jump_blocks->case_control;
 		if (!case_control)
 			ERROR(T0->pos, "Not currently in a switch statement");
 
+		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->control_type));
+		if (!constant)
+			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -155,7 +156,10 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	if (!condition)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *case_control = expression_to_int(condition);
+	condition = expression_promote(condition);
+	if (!type_is_integer(condition->data_type))
+		ERROR(T0->pos, "Controlling expression of switch does not have integer type");
+	struct node *case_control = expression_to_ir(condition);
 
 	TEXPECT(T_RPAR);
 
@@ -171,6 +175,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_entry = block_entry;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.case_control = case_control;
+	new_jump_blocks.control_type = condition->data_type;
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
@@ -195,7 +200,7 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 		if(!expr)
 			ERROR(T0->pos, "Expected expression in if condition");
 
-		struct node *condition = expression_to_ir(expr);
+		struct node *condition = expression_to_condition(expr);
 
 		TEXPECT(T_RPAR);
 		struct node *block_true, *block_false;
@@ -257,7 +262,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	if (!control_expression)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	TEXPECT(T_RPAR);
 
@@ -301,7 +306,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 
 	TEXPECT(T_RPAR);
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	struct node *block_true, *block_false;
 	ir_if_selection(control_variable, &block_true, &block_false);
@@ -368,7 +373,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	struct expr *condition = parse_expression();
 	if (condition) {
-		struct node *condition_variable = expression_to_int(condition);
+		struct node *condition_variable = expression_to_condition(condition);
 
 		struct node *block_true, *block_false;
 		ir_if_selection(condition_variable, &block_true, &block_false);
-- 
2.43.0


From 52f3888a87026484d9092b8dbc070cebc9d21272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:38 +0000
Subject: [PATCH 10/66] fix: float and double constants were confused when
 folding conditionals

---
 src/parser/expression.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index eb40d34..ddfa28c 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1114,9 +1114,9 @@ int constant_is_zero(struct constant *c) {
 		return 0;
 
 	if (type_is_simple(c->data_type, ST_FLOAT)) {
-		return c->double_d == 0;
-	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
 		return c->float_d == 0;
+	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
+		return c->double_d == 0;
 	} else if (type_is_integer(c->data_type) && is_signed(c->data_type->simple)) {
 		return c->int_d == 0;
 	} else if (type_is_integer(c->data_type) && !is_signed(c->data_type->simple)) {
-- 
2.43.0


From f7212a779d9f35a49be3b0884d38a63f6c9ab7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:30 +0000
Subject: [PATCH 11/66] fix: static initializers with address arithmetic were
 silently zeroed

---
 src/codegen/rodata.c          |  2 +
 src/parser/expression.c       | 85 ++++++++++++++++++++++++++++-------
 src/parser/expression_to_ir.c | 12 +++--
 3 files changed, 80 insertions(+), 19 deletions(-)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 3d39193..a0f38fd 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -142,6 +142,8 @@ static void codegen_initializer_recursive(struct initializer *init, struct type
 										  -1, -1,
 										  buffer, labels, label_offsets,
 										  is_label);
+		} else {
+			ERROR(init->expr->pos, "Initializer is not constant");
 		}
 	} break;
 	case INIT_BRACE:
diff --git a/src/parser/expression.c b/src/parser/expression.c
index ddfa28c..b1bbb9d 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -909,6 +909,11 @@ struct expr *parse_expression(void) {
 }
 
 // Constant expressions.
+static int pointee_has_fixed_size(struct type *pointer) {
+	struct type *type = type_deref(pointer);
+	return !type_has_variable_size(type) && calculate_size(type) >= 0;
+}
+
 int evaluate_constant_expression(struct expr *expr,
 								 struct constant *constant) {
 	switch (expr->type) {
@@ -929,6 +934,10 @@ int evaluate_constant_expression(struct expr *expr,
 				constant->type = CONSTANT_TYPE;
 				constant->data_type = expr->cast.target;
 				constant->uint_d = rhs.label.offset;
+			} else if (rhs.type == CONSTANT_TYPE &&
+					   type_is_integer(expr->cast.target)) {
+				rhs.data_type = type_simple(abi_info.pointer_type);
+				*constant = constant_cast(rhs, expr->cast.target);
 			} else {
 				return 0;
 			}
@@ -948,24 +957,52 @@ int evaluate_constant_expression(struct expr *expr,
 		if (lhs.type == CONSTANT_LABEL)
 			return 0;
 
-		if (lhs.type == CONSTANT_LABEL_POINTER &&
-			type_is_simple(rhs.data_type, ST_INT) &&
-			rhs.type == CONSTANT_TYPE) {
-			*constant = lhs;
+		if (rhs.type == CONSTANT_TYPE &&
+			type_is_integer(rhs.data_type) &&
+			pointee_has_fixed_size(lhs.data_type)) {
 			int size = calculate_size(type_deref(lhs.data_type));
-
-			if (expr->type == E_POINTER_ADD) {
-				constant->label.offset += rhs.int_d * size;
-			} else if (expr->type == E_POINTER_SUB) {
-				constant->label.offset -= rhs.int_d * size;
+			uint64_t change = constant_to_u64(rhs) * (uint64_t)size;
+			if (expr->type == E_POINTER_SUB)
+				change = -change;
+
+			if (lhs.type == CONSTANT_LABEL_POINTER) {
+				*constant = lhs;
+				constant->label.offset += change;
+				return 1;
+			} else if (lhs.type == CONSTANT_TYPE) {
+				*constant = lhs;
+				constant->uint_d += change;
+				return 1;
 			}
-
-			return 1;
 		}
 
 		return 0;
 	} break;
 
+	case E_POINTER_DIFF: {
+		struct constant lhs, rhs;
+		if (!evaluate_constant_expression(expr->args[0], &lhs))
+			return 0;
+		if (!evaluate_constant_expression(expr->args[1], &rhs))
+			return 0;
+		if (lhs.type != rhs.type || !pointee_has_fixed_size(lhs.data_type))
+			return 0;
+
+		int64_t diff;
+		if (lhs.type == CONSTANT_TYPE)
+			diff = lhs.uint_d - rhs.uint_d;
+		else if (lhs.type == CONSTANT_LABEL_POINTER && lhs.label.label == rhs.label.label)
+			diff = lhs.label.offset - rhs.label.offset;
+		else
+			return 0;
+
+		int size = calculate_size(type_deref(lhs.data_type));
+		if (size <= 0)
+			return 0;
+
+		*constant = constant_cast(constant_simple_signed(ST_LLONG, diff / size), expr->data_type);
+	} break;
+
 	case E_DOT_OPERATOR: {
 		struct constant lhs;
 		if (!evaluate_constant_expression(expr->member.lhs, &lhs))
@@ -1020,8 +1057,13 @@ int evaluate_constant_expression(struct expr *expr,
 		assert(c.type == CONSTANT_LABEL);
 
 		*constant = c;
-		constant->type = CONSTANT_LABEL_POINTER;
 		constant->data_type = type_pointer(expr->args[0]->data_type->children[0]);
+		if (c.label.label == -1) {
+			constant->type = CONSTANT_TYPE;
+			constant->uint_d = c.label.offset;
+		} else {
+			constant->type = CONSTANT_LABEL_POINTER;
+		}
 	} break;
 
 	case E_CONDITIONAL: {
@@ -1034,8 +1076,8 @@ int evaluate_constant_expression(struct expr *expr,
 			return 0;
 
 		if (lhs.type != CONSTANT_TYPE ||
-			mid.type != CONSTANT_TYPE ||
-			rhs.type != CONSTANT_TYPE)
+			mid.type == CONSTANT_LABEL ||
+			rhs.type == CONSTANT_LABEL)
 			return 0;
 
 		if (constant_is_zero(&lhs)) {
@@ -1050,7 +1092,12 @@ int evaluate_constant_expression(struct expr *expr,
 		if (!evaluate_constant_expression(expr->args[0], &operand))
 			return 0;
 
-		if (operand.type == CONSTANT_LABEL) {
+		if (operand.type == CONSTANT_LABEL && operand.label.label == -1) {
+			// Fixed address.
+			constant->type = CONSTANT_TYPE;
+			constant->uint_d = operand.label.offset;
+			constant->data_type = expr->data_type;
+		} else if (operand.type == CONSTANT_LABEL) {
 			*constant = operand;
 			constant->type = CONSTANT_LABEL_POINTER;
 			constant->data_type = expr->data_type;
@@ -1064,7 +1111,13 @@ int evaluate_constant_expression(struct expr *expr,
 		if (!evaluate_constant_expression(expr->args[0], &operand))
 			return 0;
 
-		if (operand.type == CONSTANT_LABEL_POINTER) {
+		if (operand.type == CONSTANT_TYPE && type_is_pointer(operand.data_type)) {
+			// Fixed address.
+			constant->type = CONSTANT_LABEL;
+			constant->label.label = -1;
+			constant->label.offset = operand.uint_d;
+			constant->data_type = expr->data_type;
+		} else if (operand.type == CONSTANT_LABEL_POINTER) {
 			*constant = operand;
 			constant->type = CONSTANT_LABEL;
 			constant->data_type = expr->data_type;
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 1dbc349..0a3c5d4 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -302,9 +302,15 @@ static struct evaluated_expression evaluate_constant(struct expr *expr) {
 		};
 
 	case CONSTANT_LABEL: {
-		constant->type = CONSTANT_LABEL_POINTER;
-
-		struct node *pointer = ir_constant(*constant);
+		struct node *pointer;
+		if (constant->label.label == -1) {
+			struct constant address = constant_simple_unsigned(abi_info.pointer_type, constant->label.offset);
+			pointer = ir_constant(address);
+		} else {
+			struct constant address = *constant;
+			address.type = CONSTANT_LABEL_POINTER;
+			pointer = ir_constant(address);
+		}
 
 		return (struct evaluated_expression) {
 			.type = EE_POINTER,
-- 
2.43.0


From 623ef1cbeb205e58f2c7669a8535f84b13580842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 12/66] fix: continue inside switch and case labels inside
 loops were lost or crashed

---
 src/parser/function_parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 62424c0..787637c 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -38,6 +38,12 @@ static void add_function_scope_label(struct string_view label, struct node *bloc
 		(struct function_scope_label) { label, block, end_block, used };
 }
 
+// The body of a loop can contain labels of an enclosing switch.
+static void leave_loop(struct jump_blocks *outer, struct jump_blocks *loop) {
+	outer->block_entry = loop->block_entry;
+	outer->block_default = loop->block_default;
+}
+
 // See section 6.8 of standard.
 int parse_statement(struct jump_blocks *jump_blocks);
 int parse_labeled_statement(struct jump_blocks *jump_blocks);
@@ -181,6 +187,9 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	// Parse body
 	parse_statement(&new_jump_blocks);
 
+	// A continue statement belongs to the enclosing loop.
+	jump_blocks->block_continue = new_jump_blocks.block_continue;
+
 	if (new_jump_blocks.block_default)
 		ir_connect(new_jump_blocks.block_entry, new_jump_blocks.block_default);
 	else
@@ -251,6 +260,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
 	parse_statement(&new_jump_blocks);
+	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_control);
 	ir_block_start(block_control);
@@ -320,6 +330,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
 	parse_statement(&new_jump_blocks);
+	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(new_jump_blocks.block_continue);
 
@@ -400,6 +411,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_advance;
 	parse_statement(&new_jump_blocks);
+	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_advance);
 	ir_block_start(block_end);
-- 
2.43.0


From e86076fad0cffef7b7228720d959913130008dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 13/66] fix: a label after the statement of a default label was
 rejected

---
 src/parser/function_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 787637c..a84d1dd 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -126,6 +126,7 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		jump_blocks->block_default = block_default;
 
 		parse_statement(jump_blocks);
+		return 1;
 	}
 	return 0;
 }
-- 
2.43.0


From 96cb804a02f12af09b55df67953f639b7fc8ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 14/66] fix: swapped and rotated variables were mixed up in
 loops

The phi nodes of a block were written one after another, although one of
them can be the source of another.
---
 src/codegen/codegen.c | 59 ++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 745f09f..2660463 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -554,28 +554,38 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	}
 }
 
+static struct node *get_phi_source(struct node *phi, struct node *current_block, struct node *next_block) {
+	if (phi->type != IR_PHI || phi->size == 0)
+		return NULL;
+
+	if (current_block == next_block->arguments[0]) {
+		return phi->arguments[1];
+	} else if (current_block == next_block->arguments[1]) {
+		return phi->arguments[2];
+	} else {
+		ICE("Phi node in %d reachable from invalid block %d (not %d or %d)",
+			next_block,
+			current_block,
+			next_block->arguments[0], next_block->arguments[1]);
+	}
+}
+
 static void codegen_phi_node(struct node *current_block, struct node *next_block) {
 	if (next_block->type != IR_REGION)
 		return;
 
+	int n_phis = 0;
 	for (unsigned i = 0; i < next_block->use_size; i++) {
-		struct node *ins = next_block->uses[i];
-
-		if (ins->type != IR_PHI || ins->size == 0)
-			continue;
-
-		struct node *source_var;
+		if (get_phi_source(next_block->uses[i], current_block, next_block))
+			n_phis++;
+	}
 
-		if (current_block == next_block->arguments[0]) {
-			source_var = ins->arguments[1];
-		} else if (current_block == next_block->arguments[1]) {
-			source_var = ins->arguments[2];
-		} else {
-			ICE("Phi node in %d reachable from invalid block %d (not %d or %d)",
-				next_block,
-				current_block,
-				next_block->arguments[0], next_block->arguments[1]);
-		}
+	// The phi nodes of a block are evaluated in parallel, as one of
+	// them may be the source of another. Thus all of the sources
+	// have to be read before any of the phi nodes are written to.
+	for (unsigned i = 0; i < next_block->use_size; i++) {
+		struct node *ins = next_block->uses[i];
+		struct node *source_var = get_phi_source(ins, current_block, next_block);
 
 		if (!source_var)
 			continue;
@@ -586,7 +596,22 @@ static void codegen_phi_node(struct node *current_block, struct node *next_block
 					ins->arguments[2] ? ins->arguments[2]->index : -1
 			);
 		scalar_to_reg(source_var, REG_RAX);
-		reg_to_scalar(REG_RAX, ins);
+		if (n_phis > 1)
+			asm_ins1("pushq", R8(REG_RAX));
+		else
+			reg_to_scalar(REG_RAX, ins);
+	}
+
+	if (n_phis > 1) {
+		for (int i = next_block->use_size - 1; i >= 0; i--) {
+			struct node *ins = next_block->uses[i];
+
+			if (!get_phi_source(ins, current_block, next_block))
+				continue;
+
+			asm_ins1("popq", R8(REG_RAX));
+			reg_to_scalar(REG_RAX, ins);
+		}
 	}
 }
 
-- 
2.43.0


From 0f740590bea2850fb043cd74e400a72d0ba9d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 15/66] fix: a variable assigned to itself in a loop lost its
 value

When promoting variables to values, a load that had already been replaced
could be handed out as the value of a later load.
---
 src/optimize/mem2reg.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/optimize/mem2reg.c b/src/optimize/mem2reg.c
index dccedd0..85eb74f 100644
--- a/src/optimize/mem2reg.c
+++ b/src/optimize/mem2reg.c
@@ -7,8 +7,11 @@
 #include <stdlib.h>
 
 static struct node *recursive_find(struct node *state, struct node *alloc, int visit_idx) {
-	if (state->visited == visit_idx && state->scratch)
+	if (state->visited == visit_idx && state->scratch) {
+		while (state->scratch->type == IR_LOAD && state->scratch->visited == visit_idx)
+			state->scratch = state->scratch->scratch;
 		return state->scratch;
+	}
 
 	struct node *ret_value = NULL;
 	state->visited = visit_idx;
@@ -56,6 +59,10 @@ static struct node *recursive_find(struct node *state, struct node *alloc, int v
 	}
 	}
 
+	// The stored value might be a load that has already been replaced.
+	while (ret_value->type == IR_LOAD && ret_value->visited == visit_idx)
+		ret_value = ret_value->scratch;
+
 	state->scratch = ret_value;
 
 	return ret_value;
@@ -101,6 +108,9 @@ static void try_remove_alloc(struct node *alloc, int visit_idx) {
 		case IR_LOAD: {
 			struct node *replacement = recursive_find(use->arguments[1], alloc, visit_idx);
 			ir_replace_node(use, replacement);
+
+			use->visited = visit_idx;
+			use->scratch = replacement;
 		} break;
 		default:;
 		}
-- 
2.43.0


From 6e2fc76954e0a15ff4710531d128f2e2738ebda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:10 +0000
Subject: [PATCH 16/66] fix: the stack space of arguments was allocated a
 second time instead of released

A loop around a call with arguments on the stack would use up the stack.
---
 src/codegen/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 2660463..a598d5f 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -260,7 +260,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		int change = codegen_call_stack_chain(ins->arguments[3]);
 		codegen_set_reg_chain(ins->arguments[2]);
 		codegen_call(ins->arguments[0], ins->call.non_clobbered_register);
-		asm_ins2("addq", IMM(change), R8(REG_RSP));
+		asm_ins2("addq", IMM(-change), R8(REG_RSP));
 		struct node *reg_source = ins->projects[1];
 		if (reg_source)
 			codegen_get_reg_uses(reg_source);
-- 
2.43.0


From 6bdd09bb693aa209c01fe96fc5e78178da86f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 17/66] fix: loads of local variables were moved past later
 stores

A load was placed in the block of its uses, even if the variable was
written to before that block.
---
 src/ir/global_code_motion.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ir/global_code_motion.c b/src/ir/global_code_motion.c
index 5244ca2..c97bf84 100644
--- a/src/ir/global_code_motion.c
+++ b/src/ir/global_code_motion.c
@@ -34,6 +34,14 @@ static void schedule_late(struct node *ins);
 
 static void schedule_user_late(struct node *ins, struct node *y,
 							   struct node **lca) {
+	if (y->type == IR_LOAD && y->arguments[1] == ins) {
+		// The load is placed in the same block as the state it
+		// reads from, which then has to dominate the uses of the load.
+		for (unsigned i = 0; i < y->use_size; i++)
+			schedule_user_late(y, y->uses[i], lca);
+		return;
+	}
+
 	schedule_late(y);
 
 	if (!y->block || !y->block->block_info.idom)
@@ -61,6 +69,17 @@ static void schedule_late(struct node *ins) {
 
 	ins->visited = 11;
 
+	if (ins->type == IR_LOAD) {
+		// A load can't be moved past later changes of the state.
+		struct node *state = ins->arguments[1];
+		schedule_late(state->type == IR_PROJECT ? state->arguments[0] : state);
+
+		if (state->block) {
+			ins->block = state->block;
+			return;
+		}
+	}
+
 	struct node *lca = NULL;
 
 	for (unsigned i = 0; i < ins->use_size; i++) {
-- 
2.43.0


From bf9d8a14d49079a9c33fe51d1533714450bf2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 18/66] fix: structs of two registers were classified, returned
 and received incorrectly

A member ending where an eightbyte starts was counted as part of that
eightbyte, structs with floating point members could not be returned, and
receiving a returned struct overwrote the memory following it.
---
 src/abi/sysv.c     | 33 +++++++++++++++++++--------------
 src/arch/calling.c | 14 ++++++--------
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 9290a59..3c6f6d0 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -94,18 +94,21 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 			};
 		} else {
 			int gp_idx = 0, ssa_idx = 0;
+			int return_size = calculate_size(return_type);
 			for (int j = 0; j < n_parts; j++) {
+				int part_size = MIN(return_size - j * 8, 8);
+
 				if (classes[j] == CLASS_SSE || classes[j] == CLASS_SSEUP) {
 					ADD_ELEMENT(ret_regs_size, ret_regs_cap, ret_regs) = (struct reg_info) {
 						.is_sse = 1,
 						.register_idx = ssa_idx++,
-						.size = 8,
+						.size = part_size,
 					};
 				} else {
 					ADD_ELEMENT(ret_regs_size, ret_regs_cap, ret_regs) = (struct reg_info) {
 						.is_sse = 0,
 						.register_idx = return_convention[gp_idx++],
-						.size = 8,
+						.size = part_size,
 					};
 				}
 			}
@@ -187,11 +190,6 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 	};
 }
 
-static void split_variable(struct node *variable_address, int n_parts, struct node *parts[n_parts]) {
-	for (int i = 0; i < n_parts; i++)
-		parts[i] = ir_load_part_address(variable_address, i * 8, 8);
-}
-
 static struct evaluated_expression sysv_expr_call(struct evaluated_expression *callee,
 										   int n, struct evaluated_expression arguments[static n]) {
 	struct type *argument_types[128];
@@ -265,11 +263,10 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 			.pointer = ret_address,
 		};
 	} else if (c.ret_regs_size == 1) {
-		struct node *variable = ir_cast_int(ret_reg_variables[0], calculate_size(return_type), 0);
 		result = (struct evaluated_expression) {
 			.type = EE_VARIABLE,
 			.data_type = return_type,
-			.variable = variable,
+			.variable = ret_reg_variables[0],
 		};
 	} else if (c.ret_regs_size == 2) {
 		struct node *address = ir_allocate(calculate_size(return_type), 0);
@@ -380,13 +377,21 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 	} else if (n_parts == 1 && classes[0] == CLASS_INTEGER) {
 		struct node *value_var = evaluated_expression_to_var(value);
 		*reg_state = ir_set_reg(value_var, *reg_state, return_convention[0], 0);
-	} else if (n_parts == 2 && classes[0] == CLASS_INTEGER) {
+	} else if (n_parts == 2) {
 		struct node *value_address = evaluated_expression_to_address(value);
+		int size = calculate_size(value->data_type);
 		struct node *parts[2];
-		split_variable(value_address, 2, parts);
-		
-		*reg_state = ir_set_reg(parts[0], *reg_state, return_convention[0], 0);
-		*reg_state = ir_set_reg(parts[1], *reg_state, return_convention[1], 0);
+
+		for (int i = 0; i < 2; i++)
+			parts[i] = ir_load_part_address(value_address, i * 8, MIN(size - i * 8, 8));
+
+		int gp_idx = 0, sse_idx = 0;
+		for (int i = 0; i < 2; i++) {
+			if (classes[i] == CLASS_SSE)
+				*reg_state = ir_set_reg(parts[i], *reg_state, sse_idx++, 1);
+			else
+				*reg_state = ir_set_reg(parts[i], *reg_state, return_convention[gp_idx++], 0);
+		}
 	} else if (n_parts == 1 && classes[0] == CLASS_SSE) {
 		struct node *value_var = evaluated_expression_to_var(value);
 		*reg_state = ir_set_reg(value_var, *reg_state, 0, 1);
diff --git a/src/arch/calling.c b/src/arch/calling.c
index 41742ae..7057d11 100644
--- a/src/arch/calling.c
+++ b/src/arch/calling.c
@@ -55,7 +55,7 @@ static void classify_recursively(enum parameter_class *current,
 			struct type *memb_type = data->fields[i].type;
 			int size = calculate_size(memb_type);
 			int offset = data->fields[i].offset;
-			if (offset + size < lower || offset >= upper)
+			if (offset + size <= lower || offset >= upper)
 				continue;
 
 			enum parameter_class memb_class;
@@ -73,7 +73,7 @@ static void classify_recursively(enum parameter_class *current,
 			int size = calculate_size(memb_type);
 			int offset = size * i;
 
-			if (offset + size < lower || offset >= upper)
+			if (offset + size <= lower || offset >= upper)
 				continue;
 
 			enum parameter_class memb_class;
@@ -122,12 +122,10 @@ void classify(struct type *type, int *n_parts, enum parameter_class *classes) {
 					should_be_mem = 1;
 			}
 
-			if (*n_parts > 2) {
-				if (classes[0] != CLASS_SSE)
-					should_be_mem = 1;
-				// TODO: Is more to this, but I couldn't really follow the logic
-				// in the ABI. 3.2.3 Post merger cleanum part (c).
-			}
+			// Only __m256 and similar types, which are not supported,
+			// are passed in registers if larger than two eightbytes.
+			if (*n_parts > 2)
+				should_be_mem = 1;
 
 			if (should_be_mem) {
 				*n_parts = 1;
-- 
2.43.0


From a80b7ce6ef905940304388ab9f9273c0936f15d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 19/66] fix: the address of a struct returned in memory was not
 returned

Both ABIs require it to be in %rax, and callers compiled by other
compilers rely on it.
---
 src/abi/microsoft.c | 1 +
 src/abi/sysv.c      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index dc658c5..b0f2f70 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -196,6 +196,7 @@ static void ms_expr_return(struct node *func, struct evaluated_expression *value
 		if (abi_data->returns_address) {
 			struct node *value_address = evaluated_expression_to_address(value);
 			ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
+			*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, REG_RAX, 0);
 		} else {
 			struct node *value_var = evaluated_expression_to_var(value);
 			*reg_state = ir_set_reg(value_var, *reg_state, 0, type_is_floating(value->data_type));
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 3c6f6d0..ccd1f3e 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -374,6 +374,7 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 	if (n_parts == 1 && classes[0] == CLASS_MEMORY) {
 		struct node *value_address = evaluated_expression_to_address(value);
 		ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
+		*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, return_convention[0], 0);
 	} else if (n_parts == 1 && classes[0] == CLASS_INTEGER) {
 		struct node *value_var = evaluated_expression_to_var(value);
 		*reg_state = ir_set_reg(value_var, *reg_state, return_convention[0], 0);
-- 
2.43.0


From 866b028e33e9f4b9a1b24f9a16f22da3c7edaa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 20/66] fix: more than six arguments in registers overflowed a
 buffer

---
 src/abi/sysv.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index ccd1f3e..871d2bd 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -13,6 +13,9 @@
 static const int calling_convention[] = { REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9 };
 static const int return_convention[] = { REG_RAX, REG_RDX };
 
+// Six general purpose registers and eight SSE registers.
+#define MAX_REGISTER_ARGUMENTS 14
+
 static struct struct_data *builtin_va_list = NULL;
 
 struct sysv_data {
@@ -194,7 +197,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 										   int n, struct evaluated_expression arguments[static n]) {
 	struct type *argument_types[128];
 	struct node *arg_addresses[128];
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_REGISTER_ARGUMENTS];
 	struct node *ret_reg_variables[sizeof return_convention / sizeof *return_convention];
 	struct type *callee_type = type_deref(callee->data_type);
 	struct type *return_type = callee_type->children[0];
@@ -288,7 +291,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 
 static void sysv_expr_function(struct node *func, struct type *type, struct symbol_identifier **args) {
 	int n_args = type->n - 1;
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_REGISTER_ARGUMENTS];
 
 	struct sysv_data abi_data = { 0 };
 
-- 
2.43.0


From 988b39050c67d5828f84f328de63ce644c4724e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 21/66] fix: floating point variable arguments could not be
 read

The SSE registers are now saved by variadic functions, and va_arg handles
types with SSE parts.
---
 src/abi/sysv.c | 59 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 871d2bd..e332677 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -357,6 +357,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
         // Sized according to Figure 3.33 in sysV AMD64 ABI:
 		ir_allocate_preamble(304);
 		abi_data.gp_offset = c.gp_offset;
+		abi_data.fp_offset = 48 + c.rax * 16;
 		abi_data.overflow_position = total_mem_needed + 16;
 	}
 
@@ -420,6 +421,9 @@ static void sysv_emit_function_preamble(struct node *func) {
 	asm_ins2("movq", R8(REG_RCX), MEM(24 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R8), MEM(32 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R9), MEM(40 - position, REG_RBP));
+
+	for (int i = 0; i < 8; i++)
+		asm_ins2("movsd", XMM(i), MEM(48 + 16 * i - position, REG_RBP));
 }
 
 static void sysv_emit_va_start(struct node *result, struct node *func) {
@@ -430,7 +434,7 @@ static void sysv_emit_va_start(struct node *result, struct node *func) {
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	scalar_to_reg(result, REG_RAX);
 	asm_ins2("movl", IMM(abi_data->gp_offset), MEM(gp_offset_offset, REG_RAX));
-	asm_ins2("movl", IMM(0), MEM(fp_offset_offset, REG_RAX));
+	asm_ins2("movl", IMM(abi_data->fp_offset), MEM(fp_offset_offset, REG_RAX));
 	asm_ins2("leaq", MEM(abi_data->overflow_position, REG_RBP), R8(REG_RDI));
 	asm_ins2("movq", R8(REG_RDI), MEM(overflow_arg_area_offset, REG_RAX));
 
@@ -444,22 +448,27 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 	enum parameter_class classes[4];
 	classify(type, &n_parts, classes);
 
+	int size = calculate_size(type);
+
 	int gp_offset_offset = builtin_va_list->fields[0].offset;
+	int fp_offset_offset = builtin_va_list->fields[1].offset;
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	int overflow_arg_area_offset = builtin_va_list->fields[2].offset;
 	// 1. Determine whether type may be passed in the registers. If not go to step 7
 	scalar_to_reg(va_list, REG_RDI);
 
 	label_id stack_label = register_label(),
-		fetch_label = register_label();
+		end_label = register_label();
 	if (classes[0] != CLASS_MEMORY) {
 		// 2. Compute num_gp to hold the number of general purpose registers needed
 		// to pass type and num_fp to hold the number of floating point registers needed.
 
-		int num_gp = 0;
+		int num_gp = 0, num_fp = 0;
 		for (int i = 0; i < n_parts; i++) {
 			if (classes[i] == CLASS_INTEGER)
 				num_gp++;
+			else if (classes[i] == CLASS_SSE)
+				num_fp++;
 			else
 				NOTIMP();
 		}
@@ -470,9 +479,18 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		//     l->fp_offset > 304 − num_fp ∗ 16
 		// go to step 7.
 
-		asm_ins2("movl", MEM(gp_offset_offset, REG_RDI), R4(REG_RAX));
-		asm_ins2("cmpl", IMM(48 - 8 * num_gp), R4(REG_RAX));
-		asm_ins1("ja", IMML_ABS(stack_label, 0));
+		if (num_gp) {
+			asm_ins2("movl", MEM(gp_offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("cmpl", IMM(48 - 8 * num_gp), R4(REG_RAX));
+			asm_ins1("ja", IMML_ABS(stack_label, 0));
+		}
+
+		// Only 8 SSE registers are ever saved.
+		if (num_fp) {
+			asm_ins2("movl", MEM(fp_offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("cmpl", IMM(48 + 8 * 16 - 16 * num_fp), R4(REG_RAX));
+			asm_ins1("ja", IMML_ABS(stack_label, 0));
+		}
 
 		// 4. Fetch type from l->reg_save_area with an offset of l->gp_offset
 		// and/or l->fp_offset. This may require copying to a temporary loca-
@@ -485,10 +503,23 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		// l->fp_offset = l->fp_offset + num_fp ∗ 16.
 		// 6. Return the fetched type.
 
-		asm_ins2("leal", MEM(num_gp * 8, REG_RAX), R4(REG_RDX));
-		asm_ins2("addq", MEM(reg_save_area_offset, REG_RDI), R8(REG_RAX));
-		asm_ins2("movl", R4(REG_RDX), MEM(gp_offset_offset, REG_RDI));
-		asm_ins1("jmp", IMML_ABS(fetch_label, 0));
+		scalar_to_reg(address, REG_RSI);
+
+		for (int i = 0; i < n_parts; i++) {
+			int is_sse = classes[i] == CLASS_SSE;
+			int offset_offset = is_sse ? fp_offset_offset : gp_offset_offset;
+
+			asm_ins2("movl", MEM(offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("leal", MEM(is_sse ? 16 : 8, REG_RAX), R4(REG_RDX));
+			asm_ins2("movl", R4(REG_RDX), MEM(offset_offset, REG_RDI));
+			asm_ins2("addq", MEM(reg_save_area_offset, REG_RDI), R8(REG_RAX));
+			asm_ins2("movq", MEM(0, REG_RAX), R8(REG_RAX));
+
+			reg_to_memory(REG_RAX, MIN(size - i * 8, 8));
+			asm_ins2("leaq", MEM(8, REG_RSI), R8(REG_RSI));
+		}
+
+		asm_ins1("jmp", IMML_ABS(end_label, 0));
 	}
 	// 7. Align l->overflow_arg_area upwards to a 16 byte boundary if align-
 	//ment needed by type exceeds 8 byte boundary. [This is ignored.]
@@ -501,17 +532,17 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 	// 9. Set l->overflow_arg_area to:
 	// l->overflow_arg_area + sizeof(type)
 	// 10. Align l->overflow_arg_area upwards to an 8 byte boundary.
-	asm_ins2("leaq", MEM(round_up_to_nearest(calculate_size(type), 8), REG_RAX), R8(REG_RDX));
+	asm_ins2("leaq", MEM(round_up_to_nearest(size, 8), REG_RAX), R8(REG_RDX));
 	asm_ins2("movq", R8(REG_RDX), MEM(overflow_arg_area_offset, REG_RDI));
 
 	// 11. Return the fetched type.
-	asm_label(0, fetch_label);
-
 	// Address is now in %%rax.
 	asm_ins2("movq", R8(REG_RAX), R8(REG_RDI));
 	scalar_to_reg(address, REG_RSI);
 
-	codegen_memcpy(calculate_size(type));
+	codegen_memcpy(size);
+
+	asm_label(0, end_label);
 }
 
 static int sysv_sizeof_simple(enum simple_type type) {
-- 
2.43.0


From 9b722bfcf697da2ddcfc0ab45fb0b19ecb706bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 22/66] fix: arguments on the stack were read from the wrong
 place in functions with over-aligned variables

---
 src/abi/microsoft.c   | 11 ++++++-----
 src/abi/sysv.c        |  2 +-
 src/codegen/codegen.c | 14 ++++++++++++--
 src/codegen/codegen.h |  3 +++
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index b0f2f70..6375127 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -214,16 +214,17 @@ static void ms_emit_function_preamble(struct node *func) {
 	if (!abi_data->is_variadic)
 		return;
 
-	asm_ins2("movq", R8(REG_RCX), MEM(16, REG_RBP));
-	asm_ins2("movq", R8(REG_RDX), MEM(24, REG_RBP));
-	asm_ins2("movq", R8(REG_R8), MEM(32, REG_RBP));
-	asm_ins2("movq", R8(REG_R9), MEM(40, REG_RBP));
+	codegen_incoming_stack_address(16, REG_RAX);
+	asm_ins2("movq", R8(REG_RCX), MEM(0, REG_RAX));
+	asm_ins2("movq", R8(REG_RDX), MEM(8, REG_RAX));
+	asm_ins2("movq", R8(REG_R8), MEM(16, REG_RAX));
+	asm_ins2("movq", R8(REG_R9), MEM(24, REG_RAX));
 }
 
 static void ms_emit_va_start(struct node *result, struct node *func) {
 	struct ms_data *abi_data = func->function.abi_data;
 
-	asm_ins2("leaq", MEM(abi_data->n_args * 8 + 16, REG_RBP), R8(REG_RAX));
+	codegen_incoming_stack_address(abi_data->n_args * 8 + 16, REG_RAX);
 	scalar_to_reg(result, REG_RDX);
 	asm_ins2("movq", R8(REG_RAX), MEM(0, REG_RDX));
 }
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index e332677..8ad43d6 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -435,7 +435,7 @@ static void sysv_emit_va_start(struct node *result, struct node *func) {
 	scalar_to_reg(result, REG_RAX);
 	asm_ins2("movl", IMM(abi_data->gp_offset), MEM(gp_offset_offset, REG_RAX));
 	asm_ins2("movl", IMM(abi_data->fp_offset), MEM(fp_offset_offset, REG_RAX));
-	asm_ins2("leaq", MEM(abi_data->overflow_position, REG_RBP), R8(REG_RDI));
+	codegen_incoming_stack_address(abi_data->overflow_position, REG_RDI);
 	asm_ins2("movq", R8(REG_RDI), MEM(overflow_arg_area_offset, REG_RAX));
 
 	int preamble_ptr = codegen_get_alloc_preamble();
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index a598d5f..9a4b7cb 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -29,6 +29,16 @@ struct rbp_save_info {
 	int offset;
 } rbp_save_info;
 
+void codegen_incoming_stack_address(int offset, int reg) {
+	if (rbp_save_info.has_saved_rsp) {
+		// %rbp has been aligned, and does no longer point to the incoming stack.
+		asm_ins2("movq", MEM(-rbp_save_info.offset, REG_RBP), R8(reg));
+		asm_ins2("leaq", MEM(offset, reg), R8(reg));
+	} else {
+		asm_ins2("leaq", MEM(offset, REG_RBP), R8(reg));
+	}
+}
+
 static void codegen_call(struct node *variable, int non_clobbered_register) {
 	scalar_to_reg(variable, non_clobbered_register);
 	asm_ins1("callq", R8S(non_clobbered_register));
@@ -524,14 +534,14 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		break;
 
 	case IR_LOAD_BASE_RELATIVE:
-		asm_ins2("leaq", MEM(ins->load_base_relative.offset, REG_RBP), R8(REG_RDI));
+		codegen_incoming_stack_address(ins->load_base_relative.offset, REG_RDI);
 		asm_ins2("leaq", MEM(-ins->cg_info.stack_location, REG_RBP), R8(REG_RSI));
 
 		codegen_memcpy(ins->size);
 		break;
 
 	case IR_LOAD_BASE_RELATIVE_ADDRESS:
-		asm_ins2("leaq", MEM(ins->load_base_relative_address.offset, REG_RBP), R8(REG_RDI));
+		codegen_incoming_stack_address(ins->load_base_relative_address.offset, REG_RDI);
 		scalar_to_reg(ins->arguments[0], REG_RSI);
 
 		codegen_memcpy(ins->load_base_relative_address.size);
diff --git a/src/codegen/codegen.h b/src/codegen/codegen.h
index 041de2d..acead03 100644
--- a/src/codegen/codegen.h
+++ b/src/codegen/codegen.h
@@ -17,6 +17,9 @@ extern struct codegen_flags {
 void codegen(void);
 int codegen_get_alloc_preamble(void);
 
+// Address relative to the base pointer, as it was before the stack was aligned.
+void codegen_incoming_stack_address(int offset, int reg);
+
 // TODO: Why is rdi not destination?
 // From rdi to rsi address
 void codegen_memcpy(int len);
-- 
2.43.0


From 8f5da5fda2cd6cffb2007723bc1a3005d192477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 23/66] fix: variadic functions returning structs read the
 wrong arguments in the Microsoft ABI

---
 src/abi/microsoft.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 6375127..5f82395 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -140,7 +140,8 @@ static void ms_expr_function(struct node *func, struct type *function_type, stru
 
 	if (function_type->function.is_variadic) {
 		abi_data.is_variadic = 1;
-		abi_data.n_args = n_args;
+		// The address of the returned value takes the place of an argument.
+		abi_data.n_args = n_args + abi_data.returns_address;
 	}
 
 	abi_data.rbx_store = ir_get_reg(reg_source, 8, REG_RBX, 0);
-- 
2.43.0


From d49f04e055182148b604c78b861f76dec723c73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 24/66] fix: structs passed by reference in the Microsoft ABI
 were not copied

The callee may modify them.
---
 src/abi/microsoft.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 5f82395..49439c6 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -71,6 +71,10 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 		if (fits_into_reg(argument_types[i])) {
 			reg_to_push = ir_load(arg_addresses[i],
 								  calculate_size(argument_types[i]));
+		} else {
+			// The callee owns the memory that is passed by reference.
+			reg_to_push = ir_allocate(calculate_size(argument_types[i]), 16);
+			ir_copy_memory(reg_to_push, arg_addresses[i], calculate_size(argument_types[i]));
 		}
 
 		if (register_idx < 4) {
-- 
2.43.0


From aa5dd0d56ae3e04ed34dbd497022d2a1e9b4b1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 25/66] fix: bit-field layout overlapped fields, padding and
 following members

---
 src/arch/x64.c | 131 +++++++++++++++++++++++++------------------------
 1 file changed, 68 insertions(+), 63 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 6726578..583dc50 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -215,84 +215,89 @@ static int calculate_alignment_with_max(struct type *type, int packing) {
 	return alignment;
 }
 
+static int64_t round_up_position(int64_t position, int alignment) {
+	return (position + alignment - 1) / alignment * alignment;
+}
+
 void calculate_offsets(struct struct_data *data) {
-	int current_offset = 0;
-	int max_offset = 0;
+	// Position in bits of the end of the previous field, and size in bits.
+	int64_t position = 0, max_position = 0;
 	int alignment = 1;
 
-	int last_bit_offset = 0;
+	// Unit shared by consecutive bit-fields, if the layout is unit based.
+	int64_t unit_start = 0;
+	int unit_size = 0;
+
+	// Units of packed bit-fields are not aligned.
+	int unit_based = 0;
+	for (int i = 0; i < data->n; i++)
+		if (data->fields[i].bitfield != -1 &&
+			calculate_alignment_with_max(data->fields[i].type, data->packing) < calculate_alignment(data->fields[i].type))
+			unit_based = 1;
+
 	for (int i = 0; i < data->n; i++) {
-		struct type *field = data->fields[i].type;
-		current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
+		struct field *field = &data->fields[i];
 
-		if (data->fields[i].bitfield == 0)
-			continue;
+		if (data->is_union)
+			position = unit_start = unit_size = 0;
 
-		data->fields[i].offset = current_offset;
-		data->fields[i].bit_offset = 0;
-
-		if (data->fields[i].bitfield != -1) {
-			if (last_bit_offset != 0 && data->fields[i - 1].bitfield != 0)
-				data->fields[i].offset = data->fields[i - 1].offset;
-
-			int fits = 0;
-			struct type *fit_type = NULL;
-			for (int j = i; j >= 0; j--) {
-				if (last_bit_offset != 0 && data->fields[j].offset == data->fields[i - 1].offset &&
-					last_bit_offset + data->fields[i].bitfield <= 8 * calculate_size(data->fields[j].type)) {
-					fits = 1;
-					fit_type = data->fields[j].type;
-					break;
-				}
-			}
+		int field_alignment = calculate_alignment_with_max(field->type, data->packing);
+		int64_t field_size = 0;
+		if (i != data->n - 1 || field->type->type != TY_INCOMPLETE_ARRAY) {
+			field_size = calculate_size(field->type);
+			if (field_size == -1)
+				ICE("%s has invalid size", dbg_type(field->type));
+		}
+
+		if (field->bitfield == -1) {
+			if (unit_size)
+				position = unit_start + 8 * unit_size;
+
+			position = round_up_position(position, 8 * field_alignment);
+
+			field->offset = position / 8;
+			field->bit_offset = 0;
 
-			if (fits) {
-				current_offset = data->fields[i].offset;
-				data->fields[i].bit_offset = last_bit_offset;
-				data->fields[i].type = fit_type;
-			} else {
-				if (!data->is_union) {
-					current_offset = max_offset;
-
-					current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
-				}
-				data->fields[i].offset = current_offset;
-				last_bit_offset = 0;
+			position += 8 * field_size;
+			unit_size = 0;
+		} else if (field->bitfield == 0) {
+			// A field of width zero ends the current storage unit.
+			if (!unit_based || unit_size)
+				position = round_up_position(position, 8 * field_alignment);
+			unit_size = 0;
+			continue;
+		} else if (unit_based) {
+			if (unit_size != field_size ||
+				position + field->bitfield > unit_start + 8 * unit_size) {
+				unit_start = round_up_position(unit_size ? unit_start + 8 * unit_size : position, 8 * field_alignment);
+				unit_size = field_size;
+				position = unit_start;
 			}
 
-			if (!data->is_union)
-				last_bit_offset += data->fields[i].bitfield;
-		} else {
-			last_bit_offset = 0;
-		}
+			field->offset = unit_start / 8;
+			field->bit_offset = position - unit_start;
 
-		int new_size = 0;
-		if (i == data->n - 1 &&
-			field->type == TY_INCOMPLETE_ARRAY) {
-			new_size = 0;
+			position += field->bitfield;
+			max_position = MAX(max_position, unit_start + 8 * unit_size);
 		} else {
-			new_size = calculate_size(field);
-			if (new_size == -1)
-				ICE("%s has invalid size", dbg_type(field));
-		}
+			// A field does not cross the boundaries of storage units of its type.
+			if (position % (8 * field_size) + field->bitfield > 8 * field_size)
+				position = round_up_position(position, 8 * field_alignment);
 
-		int new_alignment = calculate_alignment_with_max(field, data->packing);
-		if (new_alignment > alignment)
-			alignment = new_alignment;
-		if (!data->is_union) {
-			current_offset += new_size;
-			if (current_offset > max_offset)
-				max_offset = current_offset;
-		} else {
-			if (new_size > max_offset)
-				max_offset = new_size;
+			field->offset = position / (8 * field_size) * field_size;
+			field->bit_offset = position % (8 * field_size);
+
+			position += field->bitfield;
 		}
-	}
 
-	if (data->packing > 0 && alignment > data->packing)
-		alignment = data->packing;
+		max_position = MAX(max_position, position);
+
+		// Unnamed bit-fields do not influence the alignment.
+		if (field->bitfield == -1 || field->name.len || unit_based)
+			alignment = MAX(alignment, field_alignment);
+	}
 
-	data->size = round_up_to_nearest(max_offset, alignment);
+	data->size = round_up_position((max_position + 7) / 8, alignment);
 	data->alignment = alignment;
 }
 
-- 
2.43.0


From a0c0da14df184aa818c3aa961fd56105f13ce2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 26/66] fix: local variables, parameters and temporaries were
 not aligned for their type

---
 src/abi/microsoft.c           |  6 +++---
 src/abi/sysv.c                |  7 +++----
 src/ir/ir.c                   |  6 +++---
 src/ir/ir.h                   |  2 +-
 src/parser/declaration.c      |  4 ++--
 src/parser/expression_to_ir.c | 10 +++++-----
 6 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 49439c6..0496997 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -53,7 +53,7 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 		if (fits_into_reg(return_type)) {
 			ret_in_register = 1;
 		} else {
-			registers[0] = ir_allocate(calculate_size(return_type), 0);
+			registers[0] = ir_allocate_type(return_type, 0);
 
 			register_idx++;
 
@@ -73,7 +73,7 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 								  calculate_size(argument_types[i]));
 		} else {
 			// The callee owns the memory that is passed by reference.
-			reg_to_push = ir_allocate(calculate_size(argument_types[i]), 16);
+			reg_to_push = ir_allocate_type(argument_types[i], 16);
 			ir_copy_memory(reg_to_push, arg_addresses[i], calculate_size(argument_types[i]));
 		}
 
@@ -177,7 +177,7 @@ static void ms_expr_function(struct node *func, struct type *function_type, stru
 		struct symbol_identifier *symbol = args[i];
 
 		struct type *type = symbol->parameter.type;
-		struct node *address = ir_allocate(calculate_size(type), symbol->alignment);
+		struct node *address = ir_allocate_type(type, symbol->alignment);
 
 		symbol->type = IDENT_VARIABLE;
 		symbol->variable.type = type;
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 8ad43d6..e38de4f 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -213,7 +213,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 	struct node *ret_address;
 
 	if (c.returns_address) {
-		ret_address = ir_allocate(calculate_size(return_type), 0);
+		ret_address = ir_allocate_type(return_type, 0);
 		reg_variables[c.ret_address_index] = ret_address;
 	}
 
@@ -272,7 +272,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 			.variable = ret_reg_variables[0],
 		};
 	} else if (c.ret_regs_size == 2) {
-		struct node *address = ir_allocate(calculate_size(return_type), 0);
+		struct node *address = ir_allocate_type(return_type, 0);
 		ir_store_part_address(address, ret_reg_variables[0], 0);
 		ir_store_part_address(address, ret_reg_variables[1], 8);
 		result = (struct evaluated_expression) {
@@ -320,8 +320,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
 		struct symbol_identifier *symbol = args[i];
 
 		struct type *type = symbol->parameter.type;
-		int size = calculate_size(type);
-		struct node *address = ir_allocate(size, symbol->alignment);
+		struct node *address = ir_allocate_type(type, symbol->alignment);
 
 		symbol->type = IDENT_VARIABLE;
 		symbol->variable.type = type;
diff --git a/src/ir/ir.c b/src/ir/ir.c
index a431ab8..c805363 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -591,11 +591,11 @@ struct node *ir_get_reg(struct node *source, int size, int register_index, int i
 	return ins;
 }
 
-struct node *ir_allocate(int size, int alignment) {
+struct node *ir_allocate_type(struct type *type, int min_alignment) {
 	struct node *ins = ir_new(IR_ALLOC, 8);
-	ins->alloc.size = size;
+	ins->alloc.size = calculate_size(type);
 	ins->alloc.stack_location = -1;
-	ins->alloc.alignment = alignment;
+	ins->alloc.alignment = MAX(min_alignment, calculate_alignment(type));
 	return ins;
 }
 
diff --git a/src/ir/ir.h b/src/ir/ir.h
index d975e53..84ccd92 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -290,7 +290,7 @@ struct node *ir_vla_alloc(struct node *length);
 struct node *ir_set_reg(struct node *variable, struct node *reg_state, int register_index, int is_sse);
 struct node *ir_get_reg(struct node *source, int size, int register_index, int is_sse);
 
-struct node *ir_allocate(int size, int alignment);
+struct node *ir_allocate_type(struct type *type, int min_alignment);
 void ir_allocate_preamble(int size);
 
 struct node *ir_allocate_call_stack(int change);
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d748320..7b3ae25 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1373,10 +1373,10 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 				if (has_init) {
 					struct initializer init = parse_initializer(&type);
 					symbol->variable.type = type;
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
+					ptr = ir_allocate_type(type, symbol->alignment);
 					ir_init_ptr(&init, type, ptr);
 				} else {
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
+					ptr = ir_allocate_type(type, symbol->alignment);
 				}
 				symbol->variable.ptr = ptr;
 			}
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 0a3c5d4..e47de69 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -61,7 +61,7 @@ struct node *evaluated_expression_to_address(struct evaluated_expression *evalua
 	switch (evaluated_expression->type) {
 	case EE_BITFIELD_POINTER: {
 		struct node *bitfield_var = evaluated_expression_to_var(evaluated_expression);
-		struct node *address = ir_allocate(calculate_size(evaluated_expression->data_type), 0);
+		struct node *address = ir_allocate_type(evaluated_expression->data_type, 0);
 		ir_store(address, bitfield_var);
 		return address;
 	}
@@ -76,7 +76,7 @@ struct node *evaluated_expression_to_address(struct evaluated_expression *evalua
 			return ir_constant(constant);
 		} else {
 			// Allocate memory, and push the constant to it.
-			struct node *address = ir_allocate(calculate_size(evaluated_expression->data_type), 0);
+			struct node *address = ir_allocate_type(evaluated_expression->data_type, 0);
 			ir_store(address, ir_constant(constant));
 			return address;
 		}
@@ -86,7 +86,7 @@ struct node *evaluated_expression_to_address(struct evaluated_expression *evalua
 		return evaluated_expression->pointer;
 
 	case EE_VARIABLE: {
-		struct node *address = ir_allocate(calculate_size(evaluated_expression->data_type), 0);
+		struct node *address = ir_allocate_type(evaluated_expression->data_type, 0);
 		ir_store(address, evaluated_expression->variable);
 		return address;
 	}
@@ -437,7 +437,7 @@ static struct evaluated_expression evaluate_array_ptr_decay(struct expr *expr) {
 }
 
 static struct evaluated_expression evaluate_compound_literal(struct expr *expr) {
-	struct node *address = ir_allocate(calculate_size(expr->compound_literal.type), 0);
+	struct node *address = ir_allocate_type(expr->compound_literal.type, 0);
 	ir_init_ptr(&expr->compound_literal.init, expr->compound_literal.type, address);
 
 	return (struct evaluated_expression) {
@@ -652,7 +652,7 @@ static struct evaluated_expression evaluate_va_start(struct expr *expr) {
 
 static struct evaluated_expression evaluate_va_arg(struct expr *expr) {
 	struct evaluated_expression v = expression_evaluate(expr->va_arg_.v);
-	struct node *result_address = ir_allocate(calculate_size(expr->data_type), 0);
+	struct node *result_address = ir_allocate_type(expr->data_type, 0);
 	if (abi_info.va_list_is_reference) {
 		ir_va_arg(evaluated_expression_to_address(&v), result_address, expr->va_arg_.t);
 	} else {
-- 
2.43.0


From 9e43d7ffa26989756fe1cb1c00fea0518dc0c925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:34 +0000
Subject: [PATCH 27/66] fix: alignment specifiers of struct members were
 ignored

---
 src/arch/x64.c           | 1 +
 src/parser/declaration.c | 8 +++++---
 src/types.h              | 1 +
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 583dc50..8eccfc3 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -242,6 +242,7 @@ void calculate_offsets(struct struct_data *data) {
 			position = unit_start = unit_size = 0;
 
 		int field_alignment = calculate_alignment_with_max(field->type, data->packing);
+		field_alignment = MAX(field_alignment, field->min_alignment);
 		int64_t field_size = 0;
 		if (i != data->n - 1 || field->type->type != TY_INCOMPLETE_ARRAY) {
 			field_size = calculate_size(field->type);
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7b3ae25..9be966d 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -203,7 +203,7 @@ static int parse_specifier(struct type_specifiers *ts,
 			if (constant->type != CONSTANT_TYPE || !type_is_simple(constant->data_type, ST_ULLONG)) {
 				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument. %d", constant->data_type->type);
 			}
-			as->alignment = constant->uint_d;
+			as->alignment = MAX(as->alignment, (int)constant->uint_d);
 			return 1;
 		}
 	}
@@ -405,7 +405,8 @@ int parse_struct(struct type_specifiers *ts) {
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 					.type = type,
 					.name = name,
-					.bitfield = bitfield
+					.bitfield = bitfield,
+					.min_alignment = s.as.alignment
 				};
 
 				TACCEPT(T_COMMA);
@@ -418,7 +419,8 @@ int parse_struct(struct type_specifiers *ts) {
 					ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 						.type = s.ts.data_type,
 						.name = { 0 },
-						.bitfield = -1
+						.bitfield = -1,
+						.min_alignment = s.as.alignment
 					};
 				} else {
 					ERROR(T0->pos, "Anonymous member must be struct or bitfield.");
diff --git a/src/types.h b/src/types.h
index 0b65518..33376c9 100644
--- a/src/types.h
+++ b/src/types.h
@@ -107,6 +107,7 @@ struct struct_data {
 		struct string_view name;
 		struct type *type;
 		int bitfield; // -1 means no bit-field.
+		int min_alignment; // From alignment specifiers.
 		int offset;
 		int bit_offset;
 	} *fields;
-- 
2.43.0


From c7e24e0857666150abc725594e76c3a0f6c473df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:05 +0000
Subject: [PATCH 28/66] fix: packed structs with unaligned members were passed
 in registers

---
 src/arch/calling.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arch/calling.c b/src/arch/calling.c
index 7057d11..1069294 100644
--- a/src/arch/calling.c
+++ b/src/arch/calling.c
@@ -58,6 +58,12 @@ static void classify_recursively(enum parameter_class *current,
 			if (offset + size <= lower || offset >= upper)
 				continue;
 
+			// Structs with unaligned members are passed in memory.
+			if (data->fields[i].bitfield == -1 && offset % calculate_alignment(memb_type) != 0) {
+				*current = CLASS_MEMORY;
+				continue;
+			}
+
 			enum parameter_class memb_class;
 			if (classify_non_recursive(memb_type, &memb_class)) {
 				*current = combine_class(*current, memb_class);
-- 
2.43.0


From 254c6f35b82fb7c09b54dce88422bb5659827278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 29/66] fix: functions with more than 128 parameters overflowed
 a buffer

---
 src/abi/microsoft.c | 2 +-
 src/abi/sysv.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 0496997..6ec9fdf 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -154,7 +154,7 @@ static void ms_expr_function(struct node *func, struct type *function_type, stru
 
 	int current_mem = 0;
 
-	struct node *inputs[128];
+	struct node **inputs = cc_malloc(sizeof *inputs * (n_args + 1));
 
 	for (int i = 0; i < n_args; i++) {
 		int size = calculate_size(args[i]->parameter.type);
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index e38de4f..ad7a784 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -315,7 +315,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
 		abi_data.returns_address = 1;
 	}
 
-	struct node *arg_addresses[128];
+	struct node **arg_addresses = cc_malloc(sizeof *arg_addresses * type->n);
 	for (int i = 0; i < type->n - 1; i++) {
 		struct symbol_identifier *symbol = args[i];
 
-- 
2.43.0


From 480d044669d7d410c43e4fa170dbced625939931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:33 +0000
Subject: [PATCH 30/66] fix: initializers that refer to the initialized
 variable crashed the compiler

---
 src/parser/declaration.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 9be966d..4019b25 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1370,17 +1370,18 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 					ERROR(T0->pos, "Variable length array can't have initializer");
 			} else {
 				symbol->type = IDENT_VARIABLE;
-				struct node *ptr;
 				symbol->variable.type = type;
+
+				// The initializer can refer to the variable itself.
+				struct node *ptr = ir_allocate_type(type, symbol->alignment);
+				symbol->variable.ptr = ptr;
+
 				if (has_init) {
 					struct initializer init = parse_initializer(&type);
 					symbol->variable.type = type;
-					ptr = ir_allocate_type(type, symbol->alignment);
+					ptr->alloc.size = calculate_size(type);
 					ir_init_ptr(&init, type, ptr);
-				} else {
-					ptr = ir_allocate_type(type, symbol->alignment);
 				}
-				symbol->variable.ptr = ptr;
 			}
 		}
 	} else {
-- 
2.43.0


From 168d9eada3861276df75d023038a46d4dd33cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 31/66] fix: #pragma pack(pop) did not restore the packing

---
 src/parser/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index b746f2b..200849a 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -22,6 +22,7 @@ void parser_reset(void) {
 	pack_size = pack_cap = 0;
 	current_packing = 0;
 	free(packs);
+	packs = NULL;
 	symbols_reset();
 }
 
@@ -45,7 +46,7 @@ int parse_handle_pragma(void) {
 		if (T0->type == T_IDENT) {
 			if (sv_string_cmp(T0->str, "pop")) {
 				if (pack_size)
-					pack_size--;
+					current_packing = packs[--pack_size];
 				TNEXT();
 				TEXPECT(T_RPAR);
 				return 1;
-- 
2.43.0


From 88c25c047f08bf1c429612043158d2ec8832e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:02 +0000
Subject: [PATCH 32/66] fix: the value of an assignment to a bit-field was not
 the value of the bit-field

---
 src/parser/expression.c       |  3 +++
 src/parser/expression_to_ir.c | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index b1bbb9d..c04f57a 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -52,6 +52,9 @@ static enum simple_type get_arithmetic_type(enum simple_type a, int bitfield_a,
 }
 
 static int get_expression_bitfield(struct expr *expr) {
+	if (expr->type == E_CONST_REMOVE)
+		expr = expr->args[0];
+
 	if (expr->type == E_DOT_OPERATOR) {
 		assert(expr->member.lhs->data_type->type == TY_STRUCT);
 		struct struct_data *data = expr->member.lhs->data_type->struct_data;
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index e47de69..01a688a 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -199,6 +199,14 @@ static void assign_to_ee(struct evaluated_expression *lhs, struct node *rhs_var)
 	}
 }
 
+// The value of an object after a value has been stored to it.
+static struct node *assigned_value(struct evaluated_expression *lhs, struct node *value) {
+	if (lhs->type != EE_BITFIELD_POINTER)
+		return value;
+
+	return ir_get_bits(value, 0, lhs->bitfield_pointer.bitfield, lhs->bitfield_pointer.sign_extend);
+}
+
 static void assign_ee_to_ee(struct evaluated_expression *lhs, struct evaluated_expression *rhs) {
 	assert(lhs->data_type == rhs->data_type);
 	if (calculate_size(rhs->data_type) <= 8) { // If fits into variable, take shortcut.
@@ -509,6 +517,13 @@ static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 
 	assign_ee_to_ee(&lhs, &rhs);
 
+	if (lhs.type == EE_BITFIELD_POINTER)
+		return (struct evaluated_expression) {
+			.type = EE_VARIABLE,
+			.data_type = expr->data_type,
+			.variable = assigned_value(&lhs, evaluated_expression_to_var(&rhs))
+		};
+
 	return rhs;
 }
 
@@ -540,7 +555,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 	lhs_var = variable_cast(lhs_var, operator_type, lhs.data_type);
 
 	if (!expr->assignment_op.postfix)
-		res_var = lhs_var;
+		res_var = assigned_value(&lhs, lhs_var);
 
 	struct evaluated_expression res = {
 		.type = EE_VARIABLE,
-- 
2.43.0


From fdb5f8388e43c28834f4f9216812f70be7f755bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:13 +0000
Subject: [PATCH 33/66] fix: sections were not aligned for their contents

---
 src/linker/object.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/linker/object.c b/src/linker/object.c
index 9be7e0d..7662c6f 100644
--- a/src/linker/object.c
+++ b/src/linker/object.c
@@ -102,12 +102,11 @@ void object_write_zero(size_t size) {
 
 void object_align(size_t alignment) {
 	struct section *section = &current_object.sections[current_section];
-	size_t remainder = section->size % alignment;
-	if (remainder == 0)
-		return;
-
-	object_write_zero(alignment - remainder);
 	section->alignment = MAX(section->alignment, alignment);
+
+	size_t remainder = section->size % alignment;
+	if (remainder != 0)
+		object_write_zero(alignment - remainder);
 }
 
 void object_symbol_relocate(label_id label, int64_t offset, int64_t add, enum relocation_type type) {
-- 
2.43.0


From 0c175eb28678c44f748ef476c02a6bb57f254894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:33 +0000
Subject: [PATCH 34/66] fix: structs with padding eightbytes, empty and
 over-aligned structs were passed incorrectly

---
 src/abi/sysv.c     | 54 ++++++++++++++++++++++++++++++----------------
 src/arch/calling.c |  1 +
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index ad7a784..012f908 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -105,12 +105,14 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 					ADD_ELEMENT(ret_regs_size, ret_regs_cap, ret_regs) = (struct reg_info) {
 						.is_sse = 1,
 						.register_idx = ssa_idx++,
+						.merge_pos = j * 8,
 						.size = part_size,
 					};
-				} else {
+				} else if (classes[j] != CLASS_NO_CLASS) {
 					ADD_ELEMENT(ret_regs_size, ret_regs_cap, ret_regs) = (struct reg_info) {
 						.is_sse = 0,
 						.register_idx = return_convention[gp_idx++],
+						.merge_pos = j * 8,
 						.size = part_size,
 					};
 				}
@@ -134,7 +136,7 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 				n_sse_regs++;
 			else if (classes[j] == CLASS_INTEGER)
 				n_gp_regs++;
-			else
+			else if (classes[j] != CLASS_NO_CLASS) // Padding is not passed.
 				NOTIMP();
 		}
 
@@ -156,7 +158,7 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 						.merge_pos = j * 8,
 						.size = part_size,
 					};
-				} else {
+				} else if (classes[j] != CLASS_NO_CLASS) {
 					ADD_ELEMENT(regs_size, regs_cap, regs) = (struct reg_info) {
 						.is_sse = 0,
 						.register_idx = calling_convention[current_gp_reg++],
@@ -193,6 +195,13 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 	};
 }
 
+// Returns the position of an argument passed in memory.
+static int add_stack_argument(int *end, struct type *type) {
+	int position = round_up_to_nearest(*end, MAX(8, calculate_alignment(type)));
+	*end = position + round_up_to_nearest(calculate_size(type), 8);
+	return position;
+}
+
 static struct evaluated_expression sysv_expr_call(struct evaluated_expression *callee,
 										   int n, struct evaluated_expression arguments[static n]) {
 	struct type *argument_types[128];
@@ -230,9 +239,8 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 	}
 
 	int total_mem_needed = 0;
-	for (int i = 0; i < c.stack_variables_size; i++) {
-		total_mem_needed += round_up_to_nearest(calculate_size(argument_types[c.stack_variables[i]]), 8);
-	}
+	for (int i = 0; i < c.stack_variables_size; i++)
+		add_stack_argument(&total_mem_needed, argument_types[c.stack_variables[i]]);
 	int stack_sub = round_up_to_nearest(total_mem_needed, 16);
 
 	struct node *call_stack = ir_allocate_call_stack(-stack_sub - c.shadow_space);
@@ -240,8 +248,8 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 	int current_mem = 0;
 	for (int i = 0; i < c.stack_variables_size; i++) {
 		int size = calculate_size(argument_types[c.stack_variables[i]]);
-		call_stack = ir_store_stack_relative_address(call_stack, arg_addresses[c.stack_variables[i]], current_mem + c.shadow_space, size);
-		current_mem += round_up_to_nearest(size, 8);
+		int position = add_stack_argument(&current_mem, argument_types[c.stack_variables[i]]);
+		call_stack = ir_store_stack_relative_address(call_stack, arg_addresses[c.stack_variables[i]], position + c.shadow_space, size);
 	}
 
 	struct node *reg_state = NULL;
@@ -265,16 +273,16 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 			.data_type = return_type,
 			.pointer = ret_address,
 		};
-	} else if (c.ret_regs_size == 1) {
+	} else if (c.ret_regs_size == 1 && calculate_size(return_type) <= 8) {
 		result = (struct evaluated_expression) {
 			.type = EE_VARIABLE,
 			.data_type = return_type,
 			.variable = ret_reg_variables[0],
 		};
-	} else if (c.ret_regs_size == 2) {
+	} else if (!type_is_simple(return_type, ST_VOID)) {
 		struct node *address = ir_allocate_type(return_type, 0);
-		ir_store_part_address(address, ret_reg_variables[0], 0);
-		ir_store_part_address(address, ret_reg_variables[1], 8);
+		for (int i = 0; i < c.ret_regs_size; i++)
+			ir_store_part_address(address, ret_reg_variables[i], c.ret_regs[i].merge_pos);
 		result = (struct evaluated_expression) {
 			.type = EE_POINTER,
 			.data_type = return_type,
@@ -329,7 +337,6 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
 		arg_addresses[i] = address;
 	}
 
-	int current_mem = 0;
 	int total_mem_needed = 0;
 	for (int i = 0; i < c.stack_variables_size; i++) {
 		int idx = c.stack_variables[i];
@@ -337,9 +344,8 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
 		struct type *arg_type = type->children[idx + 1];
 		int size = calculate_size(arg_type);
 
-		ir_load_base_relative_address(call_stack, address, current_mem + 16 + c.shadow_space, size);
-		current_mem += round_up_to_nearest(size, 8);
-		total_mem_needed += round_up_to_nearest(size, 8);
+		int position = add_stack_argument(&total_mem_needed, arg_type);
+		ir_load_base_relative_address(call_stack, address, position + 16 + c.shadow_space, size);
 	}
 
 	for (int i = 0; i < c.regs_size; i++) {
@@ -381,6 +387,8 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 	} else if (n_parts == 1 && classes[0] == CLASS_INTEGER) {
 		struct node *value_var = evaluated_expression_to_var(value);
 		*reg_state = ir_set_reg(value_var, *reg_state, return_convention[0], 0);
+	} else if (n_parts == 0 || (n_parts == 1 && classes[0] == CLASS_NO_CLASS)) {
+		// There is nothing to return.
 	} else if (n_parts == 2) {
 		struct node *value_address = evaluated_expression_to_address(value);
 		int size = calculate_size(value->data_type);
@@ -393,7 +401,7 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 		for (int i = 0; i < 2; i++) {
 			if (classes[i] == CLASS_SSE)
 				*reg_state = ir_set_reg(parts[i], *reg_state, sse_idx++, 1);
-			else
+			else if (classes[i] != CLASS_NO_CLASS)
 				*reg_state = ir_set_reg(parts[i], *reg_state, return_convention[gp_idx++], 0);
 		}
 	} else if (n_parts == 1 && classes[0] == CLASS_SSE) {
@@ -468,7 +476,7 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 				num_gp++;
 			else if (classes[i] == CLASS_SSE)
 				num_fp++;
-			else
+			else if (classes[i] != CLASS_NO_CLASS)
 				NOTIMP();
 		}
 
@@ -505,6 +513,9 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		scalar_to_reg(address, REG_RSI);
 
 		for (int i = 0; i < n_parts; i++) {
+			if (classes[i] == CLASS_NO_CLASS)
+				continue;
+
 			int is_sse = classes[i] == CLASS_SSE;
 			int offset_offset = is_sse ? fp_offset_offset : gp_offset_offset;
 
@@ -521,12 +532,17 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		asm_ins1("jmp", IMML_ABS(end_label, 0));
 	}
 	// 7. Align l->overflow_arg_area upwards to a 16 byte boundary if align-
-	//ment needed by type exceeds 8 byte boundary. [This is ignored.]
+	//ment needed by type exceeds 8 byte boundary.
 	asm_label(0, stack_label);
 
 	// 8. Fetch type from l->overflow_arg_area.
 
 	asm_ins2("movq", MEM(overflow_arg_area_offset, REG_RDI), R8(REG_RAX));
+	int alignment = calculate_alignment(type);
+	if (alignment > 8) {
+		asm_ins2("leaq", MEM(alignment - 1, REG_RAX), R8(REG_RAX));
+		asm_ins2("andq", IMM(-alignment), R8(REG_RAX));
+	}
 
 	// 9. Set l->overflow_arg_area to:
 	// l->overflow_arg_area + sizeof(type)
diff --git a/src/arch/calling.c b/src/arch/calling.c
index 1069294..11568ff 100644
--- a/src/arch/calling.c
+++ b/src/arch/calling.c
@@ -114,6 +114,7 @@ void classify(struct type *type, int *n_parts, enum parameter_class *classes) {
 			classes[0] = CLASS_MEMORY;
 		} else {
 			*n_parts = round_up_to_nearest(size, 8) / 8;
+			classes[0] = CLASS_NO_CLASS;
 			for (int i = 0; i < *n_parts; i++) {
 				classes[i] = CLASS_NO_CLASS;
 				classify_recursively(&classes[i], type, i * 8, (i + 1) * 8);
-- 
2.43.0


From 420d74751a04caf98cfafae2d96f7b2f7b257756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:51 +0000
Subject: [PATCH 35/66] fix: a bit-field of width zero at the end of a struct
 did not pad it

---
 src/arch/x64.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 8eccfc3..838ea47 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -266,6 +266,7 @@ void calculate_offsets(struct struct_data *data) {
 			if (!unit_based || unit_size)
 				position = round_up_position(position, 8 * field_alignment);
 			unit_size = 0;
+			max_position = MAX(max_position, position);
 			continue;
 		} else if (unit_based) {
 			if (unit_size != field_size ||
-- 
2.43.0


From ded776e9a91a2b80327325105a69c2ce1d6a0018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:09 +0000
Subject: [PATCH 36/66] fix: hexadecimal escape sequences are base 16

---
 src/escape_sequence.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index 48ebb22..dc9911f 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -25,7 +25,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 		s++;
 		uint32_t result = 0;
 		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
-			result *= 8;
+			result *= 16;
 			result += char_to_int(*s);
 		}
 		*out = result;
-- 
2.43.0


From a1b3509658d36a0cae82996614575c7fac252baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:29 +0000
Subject: [PATCH 37/66] fix: initializer lists follow the current object
 through braces, designators and strings

---
 src/parser/declaration.c | 349 +++++++++++++++++++++------------------
 1 file changed, 185 insertions(+), 164 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 4019b25..6d6c74e 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -12,6 +12,7 @@
 #include <abi/abi.h>
 
 #include <assert.h>
+#include <limits.h>
 #include <stdint.h>
 
 // Returns previous state of the bit.
@@ -936,8 +937,10 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 
 		int braces = TACCEPT(T_LBRACE);
 		TEXPECT(token_type);
-		if (braces)
+		if (braces) {
+			TACCEPT(T_COMMA);
 			TEXPECT(T_RBRACE);
+		}
 
 		if ((*type)->type == TY_INCOMPLETE_ARRAY) {
 			struct type complete_array_params = {
@@ -949,6 +952,9 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 			*type = type_create(&complete_array_params, (*type)->children);
 		}
 
+		// The terminating null character is only stored if there is room for it.
+		str.len = MIN(str.len, calculate_size(*type));
+
 		init->type = INIT_STRING;
 		init->string = str;
 
@@ -967,222 +973,237 @@ static int match_string(struct type **type, struct initializer *init, struct tok
 		match_specific_string(type, init, string_token, CHAR32_TYPE, T_STRING_CHAR32);
 }
 
-void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
-								 int inside_brace, int n, int *indices);
+static void parse_value_initializer(struct type **type, struct initializer *init);
+
+// An aggregate on the way from the braces to the subobject that is being initialized.
+struct initializer_level {
+	struct type *type;
+	struct initializer *init;
+	int idx;
+};
+
+// Selects an element of an aggregate that is only partially being initialized.
+static struct initializer *initializer_select(struct initializer_level *level) {
+	struct initializer *init = level->init;
+
+	if (init->type == INIT_STRING) {
+		// Keep the characters that are not overridden.
+		struct string_view str = init->string;
+		struct type *char_type = type_select(level->type, 0);
+		int char_size = calculate_size(char_type);
 
-static void parse_brace_initializer(struct type **type, struct initializer *init, int idx,
-									int inside_brace, struct expr *expr) {
-	if (init->type == INIT_EMPTY)
 		*init = (struct initializer) { .type = INIT_BRACE };
+		for (int i = 0; i < str.len / char_size; i++) {
+			uint32_t character = 0;
+			for (int j = char_size - 1; j >= 0; j--)
+				character = (character << 8) | (unsigned char)str.str[i * char_size + j];
+
+			struct initializer *entry = initializer_add_entry(init, i);
+			entry->type = INIT_EXPRESSION;
+			entry->expr = expression_cast(EXPR_INTEGER(ST_UINT, character), char_type);
+		}
+	} else if (init->type != INIT_BRACE) {
+		*init = (struct initializer) { .type = INIT_BRACE };
+	}
 
-	if (!inside_brace)
-		TEXPECT(T_LBRACE);
+	struct initializer *entry = initializer_add_entry(init, level->idx);
+
+	if (level->type->type == TY_STRUCT && level->type->struct_data->is_union) {
+		// Only the last initialized member of a union has a value.
+		for (int i = 0; i < init->brace.size; i++) {
+			if (i != level->idx)
+				init->brace.entries[i] = (struct initializer) { .type = INIT_EMPTY };
+		}
+	}
 
-	int max_members = -1;
-	switch ((*type)->type) {
+	return entry;
+}
+
+static int initializer_level_is_last(struct initializer_level *level) {
+	switch (level->type->type) {
 	case TY_ARRAY:
-		max_members = (*type)->array.length;
-		break;
+		return level->idx + 1 >= (int)level->type->array.length;
 	case TY_INCOMPLETE_ARRAY:
-		max_members = -1;
-		break;
+		return 0;
 	case TY_STRUCT:
-		max_members = (*type)->struct_data->n;
-		if ((*type)->struct_data->is_union)
-			max_members = 1;
-		// Advance until end of struct, or reaching a different offset.
-		break;
-	default: ICE("Invalid top type");
+		return (level->type->struct_data->is_union && level->idx >= 0) ||
+			level->idx + 1 >= level->type->struct_data->n;
+	default:
+		ICE("Invalid top type");
 	}
+}
 
-	if (max_members != -1 && inside_brace && idx >= max_members)
-		return;
+static int is_empty_aggregate(struct type *type) {
+	return (type->type == TY_STRUCT && type->struct_data->n == 0) ||
+		(type->type == TY_ARRAY && type->array.length == 0);
+}
 
-	for (;;) {
-		static int designator_cap = 0;
-		static int *designators = NULL;
-		int designator_size = 0;
-		struct type *current_type = *type;
-		for (;;) {
-			size_t index;
-			(void)index;
-			if (T0->type == T_LBRACK) {
-				if (inside_brace)
-					return;
-				TEXPECT(T_LBRACK);
-				struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
-				struct constant *c = expression_to_constant(expr);
-				if (!c)
-					ERROR(T0->pos, "Expected constant expression in array designator.");
-				TEXPECT(T_RBRACK);
+static int same_unqualified_type(struct type *a, struct type *b) {
+	return type_remove_qualifications(a) == type_remove_qualifications(b);
+}
 
-				assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
+// 6.7.9p17-6.7.8p23 and some surrounding paragraphs.
 
-				ADD_ELEMENT(designator_size, designator_cap, designators) = c->uint_d;
-				current_type = type_select(current_type, c->uint_d);
-			} else if (T0->type == T_DOT) {
-				if (inside_brace)
-					return;
-				TEXPECT(T_DOT);
-				int n = 0, *indices = 0;
-				if (!type_search_member(current_type, T0->str, &n, &indices))
-					ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
+// This is tricky and very easy to get wrong.
+// See tests/initializers.c to see some examples.
+static void parse_brace_initializer(struct type **type, struct initializer *init) {
+	*init = (struct initializer) { .type = INIT_BRACE };
 
-				TEXPECT(T_IDENT);
+	// The first level is the aggregate inside the braces, the last one contains the current subobject.
+	struct initializer_level *levels = NULL;
+	int n_levels = 0, levels_cap = 0;
 
-				for (int i = n - 1; i >= 0; i--) {
-					ADD_ELEMENT(designator_size, designator_cap, designators) = indices[i];
-					current_type = type_select(current_type, indices[i]);
-				}
-			} else {
-				break;
-			}
-		}
+	ADD_ELEMENT(n_levels, levels_cap, levels) = (struct initializer_level) { *type, init, -1 };
 
-		int *pass_designators = NULL;
-		int pass_n = 0;
+	TEXPECT(T_LBRACE);
 
-		if (designator_size) {
-			TEXPECT(T_A);
+	while (T0->type != T_RBRACE) {
+		struct type *current_type = NULL;
+		struct initializer *current = NULL;
 
-			if (designator_size > 0)
-				idx = designators[0];
+		if (T0->type == T_LBRACK || T0->type == T_DOT) {
+			n_levels = 1;
+			current_type = *type;
 
-			if (designator_size > 1) {
-				pass_designators = designators + 1;
-				pass_n = designator_size - 1;
-			}
-		}
+			while (T0->type == T_LBRACK || T0->type == T_DOT) {
+				int n = 0, *indices = 0, array_index = 0;
 
-		struct type *child_type = type_select(*type, idx);
-		parse_initializer_recursive(&child_type,
-									initializer_add_entry(init, idx), expr, designator_size < 1, pass_n, pass_designators);
-		expr = NULL;
+				if (TACCEPT(T_LBRACK)) {
+					struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
+					struct constant *c = expression_to_constant(expr);
+					if (!c)
+						ERROR(T0->pos, "Expected constant expression in array designator.");
+					TEXPECT(T_RBRACK);
 
-		if (T0->type == T_LBRACK || T0->type == T_DOT)
-			continue;
+					assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
 
-		idx++;
+					if ((current_type->type != TY_ARRAY && current_type->type != TY_INCOMPLETE_ARRAY) ||
+						(current_type->type == TY_ARRAY && c->uint_d >= (constant_uint)current_type->array.length) ||
+						c->uint_d > INT_MAX - 1)
+						ERROR(T0->pos, "Invalid array designator for %s.", dbg_type(current_type));
 
-		if (inside_brace && idx == max_members)
-			break;
+					array_index = c->uint_d;
+					indices = &array_index;
+					n = 1;
+				} else {
+					TEXPECT(T_DOT);
+					if (!type_search_member(current_type, T0->str, &n, &indices))
+						ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
 
-		if (!TACCEPT(T_COMMA))
-			break;
+					TEXPECT(T_IDENT);
+				}
 
-		if (T0->type == T_RBRACE)
-			break;
-	}
+				for (int i = n - 1; i >= 0; i--) {
+					if (current)
+						ADD_ELEMENT(n_levels, levels_cap, levels) = (struct initializer_level) { current_type, current, 0 };
 
-	if (!inside_brace)
-		TEXPECT(T_RBRACE);
-}
+					levels[n_levels - 1].idx = indices[i];
+					current = initializer_select(&levels[n_levels - 1]);
+					current_type = type_select(current_type, indices[i]);
+				}
+			}
 
-// 6.7.9p17-6.7.8p23 and some surrounding paragraphs.
+			TEXPECT(T_A);
+		} else {
+			while (n_levels && initializer_level_is_last(&levels[n_levels - 1]))
+				n_levels--;
 
-// This is tricky and very easy to get wrong.
-// See tests/initializers.c to see some examples.
-void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
-								 int inside_brace, int n, int *indices) {
-	int current_idx = 0;
-	if (n > 0) {
-		current_idx = indices[0];
-		struct type *selected = type_select(*type, current_idx);
-		if (init->type == INIT_EMPTY)
-			*init = (struct initializer) { .type = INIT_BRACE };
-		struct initializer *next_init = initializer_add_entry(init, current_idx);
-
-		parse_initializer_recursive(&selected, next_init, expr, inside_brace, n - 1, indices + 1);
+			if (!n_levels)
+				ERROR(T0->pos, "Too many initializers for %s.", dbg_type(*type));
 
-		if (!TACCEPT(T_COMMA))
-			return;
+			levels[n_levels - 1].idx++;
+			current = initializer_select(&levels[n_levels - 1]);
+			current_type = type_select(levels[n_levels - 1].type, levels[n_levels - 1].idx);
+		}
 
-		if (T0->type == T_RBRACE)
-			return;
+		if (T0->type == T_LBRACE || !type_is_aggregate(current_type)) {
+			parse_value_initializer(&current_type, current);
+		} else {
+			// Without braces only as much as is needed is taken from the list.
+			struct expr *expr = NULL;
+			int is_str = is_string_type(T0->type) && (T1->type == T_COMMA || T1->type == T_RBRACE);
 
-		parse_brace_initializer(type, init, current_idx + 1, 1, expr);
-		return;
-	}
+			for (;;) {
+				if (is_str && match_string(&current_type, current, *T0))
+					break;
 
-	int is_aggregate = type_is_aggregate(*type);
+				if (!expr && !(is_str && type_is_aggregate(current_type))) {
+					expr = parse_assignment_expression();
+					if (!expr)
+						ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(current_type), dbg_token(T0));
+				}
 
-	int is_str = 0, is_brace = 0;
-	struct token string_token = { 0 };
+				if (!type_is_aggregate(current_type) || (expr && same_unqualified_type(expr->data_type, current_type))) {
+					current->type = INIT_EXPRESSION;
+					current->expr = expression_cast(expr, current_type);
+					break;
+				}
 
-	if (!expr && is_scalar(*type)) {
-		int has_braces = TACCEPT(T_LBRACE);
+				if (is_empty_aggregate(current_type))
+					ERROR(T0->pos, "Error initializing %s", dbg_type(current_type));
 
-		expr = parse_assignment_expression();
-		if (!expr)
-			ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(*type), dbg_token(T0));
+				ADD_ELEMENT(n_levels, levels_cap, levels) = (struct initializer_level) { current_type, current, 0 };
+				current = initializer_select(&levels[n_levels - 1]);
+				current_type = type_select(current_type, 0);
+			}
+		}
 
-		if (has_braces)
-			TEXPECT(T_RBRACE);
+		if (!TACCEPT(T_COMMA))
+			break;
 	}
 
-	if (!expr) {
-		is_str = 1;
-		if (T0->type == T_LBRACE && is_string_type(T1->type) && T2->type == T_RBRACE)
-			string_token = *T1;
-		else if (is_string_type(T0->type))
-			string_token = *T0;
-		else
-			is_str = 0;
+	TEXPECT(T_RBRACE);
+
+	if ((*type)->type == TY_INCOMPLETE_ARRAY) {
+		struct type complete_array_params = {
+			.type = TY_ARRAY,
+			.array.length = init->brace.size,
+			.n = 1
+		};
+
+		*type = type_create(&complete_array_params, (*type)->children);
 	}
 
-	if (!expr && !is_str && T0->type == T_LBRACE)
-		is_brace = 1;
+	free(levels);
+}
+
+static void parse_value_initializer(struct type **type, struct initializer *init) {
+	*init = (struct initializer) { .type = INIT_EMPTY };
 
-	if (!is_str && !is_brace && !expr) {
-		expr = parse_assignment_expression();
+	if (T0->type == T_LBRACE && is_string_type(T1->type) && (T2->type == T_RBRACE || T2->type == T_COMMA)) {
+		if (match_string(type, init, *T1))
+			return;
+	} else if (is_string_type(T0->type)) {
+		if (match_string(type, init, *T0))
+			return;
 	}
 
-	if (is_aggregate && inside_brace && T0->type != T_LBRACE &&
-		!is_str && expr->data_type != *type) {
-		// TODO: This seems a bit hacky.
-		parse_brace_initializer(type, init, current_idx, 1, expr);
+	if (T0->type == T_LBRACE && type_is_aggregate(*type)) {
+		parse_brace_initializer(type, init);
 		return;
 	}
 
-	if (is_str && match_string(type, init, string_token)) {
-	} else if (expr) {
-		if (is_aggregate && expr->data_type != *type) {
-			parse_initializer_recursive(type, init, expr, 1, -1, NULL);
-		} else {
-			init->type = INIT_EXPRESSION;
-			init->expr = expression_cast(expr, *type);
-		}
-	} else if (T0->type == T_LBRACE && is_aggregate) {
-		parse_brace_initializer(type, init, 0, 0, NULL);
-	} else if (is_str && is_aggregate) {
-		parse_brace_initializer(type, init, current_idx, 1, expr);
-	} else {
-		ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(*type)));
-	}
+	int has_braces = TACCEPT(T_LBRACE);
 
-	if ((*type)->type == TY_INCOMPLETE_ARRAY) {
-		int max_index = 0;
-		switch (init->type) {
-		case INIT_BRACE: max_index = init->brace.size; break;
-		case INIT_STRING: NOTIMP();
-		default:
-			ERROR(T0->pos, "Expected incomplete array to be completed in initialzier.");
-		}
+	struct expr *expr = parse_assignment_expression();
+	if (!expr)
+		ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(*type), dbg_token(T0));
 
-		struct type complete_array_params = {
-			.type = TY_ARRAY,
-			.array.length = max_index,
-			.n = 1
-		};
+	if (type_is_aggregate(*type) && !same_unqualified_type(expr->data_type, *type))
+		ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(*type)));
 
-		struct type *ntype = type_create(&complete_array_params, (*type)->children);
-		*type = ntype;
+	init->type = INIT_EXPRESSION;
+	init->expr = expression_cast(expr, *type);
+
+	if (has_braces) {
+		TACCEPT(T_COMMA);
+		TEXPECT(T_RBRACE);
 	}
 }
 
 struct initializer parse_initializer(struct type **type) {
 	struct initializer ret = { 0 };
-	parse_initializer_recursive(type, &ret, NULL, 0, -1, NULL);
+	parse_value_initializer(type, &ret);
 	return ret;
 }
 
-- 
2.43.0


From c4e75e2b4fe288878207fbfb3aa4ba45ba130984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:40 +0000
Subject: [PATCH 38/66] fix: nested compound literals in static initializers,
 aligned and outside of the object

---
 src/codegen/rodata.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index a0f38fd..9342db8 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -162,6 +162,8 @@ static void codegen_initializer_recursive(struct initializer *init, struct type
 
 void codegen_initializer(struct type *type, struct initializer *init);
 
+static void codegen_pre_initializer(struct initializer *init);
+
 static void codegen_compound_literals(struct expr **expr, int lvalue) {
 	switch ((*expr)->type) {
 	case E_DOT_OPERATOR:
@@ -173,7 +175,12 @@ static void codegen_compound_literals(struct expr **expr, int lvalue) {
 		break;
 	case E_GENERIC_SELECTION:
 	case E_COMPOUND_LITERAL:
+		// The literal's own initializer can contain further literals.
+		codegen_pre_initializer(&(*expr)->compound_literal.init);
+
 		if (lvalue) {
+			asm_align(calculate_alignment((*expr)->compound_literal.type));
+
 			label_id label = register_label();//register_label_name(sv_from_str(strdup(name)));
 			asm_label(0, label);
 			codegen_initializer((*expr)->compound_literal.type,
@@ -307,6 +314,9 @@ static void codegen_static_var(struct static_var *static_var) {
 	(void)static_var;
 	asm_section(".data");
 
+	// This outputs compound literals that the variable points to.
+	codegen_pre_initializer(&static_var->init);
+
 	if (static_var->alignment)
 		asm_align(static_var->alignment);
 	else
@@ -317,8 +327,6 @@ static void codegen_static_var(struct static_var *static_var) {
 
 		asm_zero(calculate_size(static_var->type));
 	} else {
-		codegen_pre_initializer(&static_var->init);
-
 		asm_label(static_var->global, static_var->label_);
 
 		codegen_initializer(static_var->type, &static_var->init);
-- 
2.43.0


From 55dc22eeb42023dd2286175aef9c9edc4a00c460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:46 +0000
Subject: [PATCH 39/66] fix: unaligned members of nested packed structs were
 passed in registers

---
 src/arch/calling.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arch/calling.c b/src/arch/calling.c
index 11568ff..2753453 100644
--- a/src/arch/calling.c
+++ b/src/arch/calling.c
@@ -58,8 +58,10 @@ static void classify_recursively(enum parameter_class *current,
 			if (offset + size <= lower || offset >= upper)
 				continue;
 
-			// Structs with unaligned members are passed in memory.
-			if (data->fields[i].bitfield == -1 && offset % calculate_alignment(memb_type) != 0) {
+			// Structs with unaligned members are passed in memory. "lower"
+			// is aligned in the outermost struct.
+			if (data->fields[i].bitfield == -1 &&
+				(offset - lower) % calculate_alignment(memb_type) != 0) {
 				*current = CLASS_MEMORY;
 				continue;
 			}
@@ -82,6 +84,11 @@ static void classify_recursively(enum parameter_class *current,
 			if (offset + size <= lower || offset >= upper)
 				continue;
 
+			if ((offset - lower) % calculate_alignment(memb_type) != 0) {
+				*current = CLASS_MEMORY;
+				continue;
+			}
+
 			enum parameter_class memb_class;
 			if (classify_non_recursive(memb_type, &memb_class)) {
 				*current = combine_class(*current, memb_class);
-- 
2.43.0


From f723f0934a5fb0825138ed4895a0b60ff222f019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:19 +0000
Subject: [PATCH 40/66] fix: preprocessor: ## with empty operands, #if
 arithmetic, # operators, -E spelling, includes on the last line, conditionals
 without end

---
 src/main.c                        |  43 +++-
 src/preprocessor/directives.c     | 383 ++++++++++++++++++------------
 src/preprocessor/input.c          |  42 +++-
 src/preprocessor/macro_expander.c | 207 +++++++---------
 src/preprocessor/string_concat.c  |   7 +
 src/preprocessor/tokenizer.c      | 100 +++++---
 src/preprocessor/tokens.h         |   1 +
 7 files changed, 459 insertions(+), 324 deletions(-)

diff --git a/src/main.c b/src/main.c
index 2c648e5..0c7f514 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1,6 +1,8 @@
 #include "ir/ir.h"
 #include "ir/export_dot.h"
 #include "preprocessor/preprocessor.h"
+#include "preprocessor/directives.h"
+#include "preprocessor/macro_expander.h"
 #include "parser/parser.h"
 #include "parser/symbols.h"
 #include "codegen/codegen.h"
@@ -25,6 +27,7 @@
 #include <time.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <assert.h>
 
 static const char *dump_ir_path = NULL;
@@ -224,6 +227,29 @@ static void compile_file(const char *path,
 	parser_reset();
 }
 
+static int is_word_character(char c) {
+	return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') ||
+		(c >= 'A' && c <= 'Z') || (unsigned char)c >= 0x80;
+}
+
+// Conservative check of if two adjacent tokens would be read
+// back as something else if nothing is printed between them.
+static int tokens_would_merge(struct token prev, struct token t) {
+	if (!prev.str.len || !t.str.len)
+		return 0;
+
+	char a = prev.str.str[prev.str.len - 1], b = t.str.str[0];
+	const char *operators = "+-*/%<>=!&|^#.:";
+
+	if (prev.type == T_NUM)
+		return is_word_character(b) || b == '.' || b == '+' || b == '-' || b == '\'';
+	if (is_word_character(a))
+		return is_word_character(b) || b == '"' || b == '\'';
+	if (a == '.' && b >= '0' && b <= '9')
+		return 1;
+	return strchr(operators, a) && strchr(operators, b);
+}
+
 // This function is only called when -E flag is passed.
 // That is: preprocess, but don't compile.
 static void preprocess_file(const char *path, struct arguments *arguments) {
@@ -258,21 +284,20 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 	if (arguments->flag_MD)
 		preprocessor_write_dependencies();
 
-	preprocessor_init(path);
+	directiver_push_input(path, 0);
 
-	while (T0->type != T_EOI) {
-		if (T0->first_of_line)
+	struct token prev = { 0 };
+	for (struct token t = expander_next(); t.type != T_EOI; t = expander_next()) {
+		if (t.first_of_line)
 			printf("\n");
-		else if (T0->whitespace)
+		else if (t.whitespace || prev.whitespace_after || tokens_would_merge(prev, t))
 			printf(" ");
 
-		printf("%s", dbg_token(T0));
-
-		if (T0->whitespace_after)
-			printf(" ");
+		printf("%.*s", t.str.len, t.str.str);
 
-		t_next();
+		prev = t;
 	}
+	printf("\n");
 
 	preprocessor_reset();
 	ir_reset();
diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 6610027..1caecbe 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -8,6 +8,7 @@
 #include <arch/x64.h>
 
 #include <assert.h>
+#include <limits.h>
 
 struct tokenized_file {
 	int token_idx;
@@ -17,17 +18,20 @@ struct tokenized_file {
 	struct token pushed[3];
 
 	const char *path;
+
+	// Set by #line.
+	const char *new_path;
+	int line_diff;
+
 	struct tokenized_file *parent;
 };
 
 static struct tokenized_file *current_file;
 
-static const char *new_path = NULL;
-static int line_diff = 0;
-
 struct macro_stack {
+	struct string_view name;
 	size_t size, cap;
-	struct define *defines;
+	struct define **defines; // NULL if it was not defined.
 };
 
 static size_t macro_stack_size, macro_stack_cap;
@@ -56,8 +60,6 @@ void directiver_finish_writing_dependencies(const char *mt, const char *mf) {
 
 // Resets all global state. Not very elegant.
 void directiver_reset(void) {
-	new_path = NULL;
-	line_diff = 0;
 	current_file = NULL;
 
 	macro_stack_size = macro_stack_cap = 0;
@@ -71,8 +73,7 @@ void directiver_reset(void) {
 	deps = NULL;
 }
 
-void directiver_push_input(const char *path, int system) {
-	const char *parent_path = current_file ? current_file->path : ".";
+static void push_input(const char *parent_path, const char *path, int system) {
 	struct input new_input = input_open(parent_path, path, system);
 
 	if (!new_input.path)
@@ -89,6 +90,10 @@ void directiver_push_input(const char *path, int system) {
 		});
 }
 
+void directiver_push_input(const char *path, int system) {
+	push_input(".", path, system);
+}
+
 static struct token next(void);
 
 static struct token next_from_stack(void) {
@@ -99,10 +104,15 @@ static struct token next_from_stack(void) {
 			return next();
 		}
 
-		return (struct token ) { .type = T_EOI };
+		// The end of the input ends the last line.
+		return (struct token ) { .type = T_EOI, .first_of_line = 1 };
 	}
 
-	return current_file->tokens.list[current_file->token_idx++];
+	struct token t = current_file->tokens.list[current_file->token_idx++];
+	t.pos.line += current_file->line_diff;
+	if (current_file->new_path)
+		t.pos.path = current_file->new_path;
+	return t;
 }
 
 static void push(struct token t) {
@@ -112,22 +122,31 @@ static void push(struct token t) {
 }
 
 static struct token next(void) {
-	struct token t;
-	if (current_file->pushed_idx) {
-		current_file->pushed_idx--;
-		t = current_file->pushed[current_file->pushed_idx];
-	} else {
-		t = next_from_stack();
-	}
-	t.pos.line += line_diff;
-	if (new_path)
-		t.pos.path = new_path;
-	return t;
+	if (current_file->pushed_idx)
+		return current_file->pushed[--current_file->pushed_idx];
+
+	return next_from_stack();
 }
 
-static void directiver_define(void) {
+static struct token next_macro_name(void) {
 	struct token name = next();
 
+	if (name.first_of_line || name.type != T_IDENT)
+		ERROR(name.pos, "Expected macro name");
+
+	return name;
+}
+
+static void skip_line(void) {
+	struct token t = next();
+	while (!t.first_of_line)
+		t = next();
+	push(t);
+}
+
+static void directiver_define(void) {
+	struct token name = next_macro_name();
+
 	struct define def = define_init(name.str);
 
 	struct token t = next();
@@ -197,7 +216,7 @@ static struct result result_signed(intmax_t val) {
 	return (struct result) { .is_signed = 1, .i = val };
 }
 
-static struct result result_unsigned(intmax_t val) {
+static struct result result_unsigned(uintmax_t val) {
 	return (struct result) { .is_signed = 0, .u = val };
 }
 
@@ -213,20 +232,42 @@ void check_div_overflow(struct token *t,
 		ERROR(t->pos, "Division will overflow");
 }
 
+// Results that do not fit wrap around.
 #define RESULT_UNARY(OP, EXPR) ((EXPR).is_signed				\
-								? result_signed(OP (EXPR).i)	\
+								? result_signed(OP (EXPR).u)	\
 								: result_unsigned(OP (EXPR).u))
 
 #define RESULT_BINARY(OP, LHS, RHS) ((LHS).is_signed					\
-									 ? result_signed((LHS).i OP (RHS).i) \
+									 ? result_signed((LHS).u OP (RHS).u) \
 									 : result_unsigned((LHS).u OP (RHS).u))
 
+// These depend on the sign of the operands.
+#define RESULT_BINARY_SIGN(OP, LHS, RHS) ((LHS).is_signed				\
+										  ? result_signed((LHS).i OP (RHS).i) \
+										  : result_unsigned((LHS).u OP (RHS).u))
+
 // Conditionals always returns signed integers.
 #define RESULT_BINARY_COND(OP, LHS, RHS) ((LHS).is_signed				\
 										  ? result_signed((LHS).i OP (RHS).i) \
 										  : result_signed((LHS).u OP (RHS).u))
 
-// TODO: Ensure no UB. Don't allow operators to overflow.
+static struct result shift_left(struct result lhs, struct result rhs) {
+	uintmax_t value = rhs.u < 64 ? lhs.u << rhs.u : 0;
+	return lhs.is_signed ? result_signed(value) : result_unsigned(value);
+}
+
+static struct result shift_right(struct result lhs, struct result rhs) {
+	int count = rhs.u < 64 ? rhs.u : 63;
+	if (lhs.is_signed)
+		return result_signed(lhs.i >> count);
+	return result_unsigned(rhs.u < 64 ? lhs.u >> count : 0);
+}
+
+// The usual arithmetic conversions.
+static void convert_results(struct result *lhs, struct result *rhs) {
+	lhs->is_signed = rhs->is_signed = lhs->is_signed && rhs->is_signed;
+}
+
 static struct result evaluate_expression(int prec, int evaluate) {
 	struct result expr = result_signed(0);
 	struct token t = buffer_next();
@@ -238,7 +279,10 @@ static struct result evaluate_expression(int prec, int evaluate) {
 		expr = RESULT_UNARY(-, rhs);
 	} else if (t.type == T_NOT) {
 		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
-		expr = RESULT_UNARY(!, rhs);
+		expr = result_signed(result_is_zero(rhs));
+	} else if (t.type == T_BNOT) {
+		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
+		expr = RESULT_UNARY(~, rhs);
 	} else if (t.type == T_LPAR) {
 		expr = evaluate_expression(0, evaluate);
 		struct token rpar = buffer_next();
@@ -251,10 +295,16 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			ERROR(t.pos, "Floating point arithmetic in the preprocessor is not allowed.");
 		if (!type_is_integer(c.data_type))
 			ERROR(t.pos, "Preprocessor variables must be of integer type.");
-		if (is_signed(c.data_type->simple))
-			expr = result_signed(c.int_d);
+		// All types behave as intmax_t or uintmax_t.
+		int has_u = 0;
+		for (int i = 0; i < t.str.len; i++)
+			has_u |= t.str.str[i] == 'u' || t.str.str[i] == 'U';
+
+		uintmax_t value = is_signed(c.data_type->simple) ? (uintmax_t)c.int_d : c.uint_d;
+		if (has_u || value > INTMAX_MAX)
+			expr = result_unsigned(value);
 		else
-			expr = result_unsigned(c.uint_d);
+			expr = result_signed(value);
 	} else if (t.type == T_CHARACTER_CONSTANT) {
 		expr = result_signed(escaped_character_constant_to_int(t));
 	} else {
@@ -269,8 +319,10 @@ static struct result evaluate_expression(int prec, int evaluate) {
 		if (t.type == T_QUEST) {
 			struct result mid = evaluate_expression(0, !result_is_zero(expr) ? evaluate : 0);
 			struct token colon = buffer_next();
-			assert(colon.type == T_COLON);
+			if (colon.type != T_COLON)
+				ERROR(t.pos, "Expected : after ?");
 			struct result rhs = evaluate_expression(new_prec, result_is_zero(expr) ? evaluate : 0);
+			convert_results(&mid, &rhs);
 			expr = !result_is_zero(expr) ? mid : rhs;
 		} else if (t.type == T_AND) {
 			struct result rhs = evaluate_expression(new_prec, !result_is_zero(expr) ? evaluate : 0);
@@ -282,13 +334,16 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			// Standard binary operator.
 			struct result rhs = evaluate_expression(new_prec, evaluate);
 
-			// Integer -> Unsigned integer promotion.
-			if (rhs.is_signed && !expr.is_signed)
-				rhs = result_unsigned(rhs.i);
-			else if (!rhs.is_signed && expr.is_signed)
-				expr = result_unsigned(expr.i);
+			// The type of a shift is the type of the left operand.
+			if (t.type != T_LSHIFT && t.type != T_RSHIFT)
+				convert_results(&expr, &rhs);
 
-			if (evaluate) {
+			if (!evaluate) {
+				// Only the type of the result matters.
+				if (precedence_get(t.type, 0) == precedence_get(T_EQ, 0) ||
+					precedence_get(t.type, 0) == precedence_get(T_L, 0))
+					expr = result_signed(0);
+			} else {
 				switch (t.type) {
 				case T_BOR: expr = RESULT_BINARY(|, expr, rhs); break;
 				case T_XOR: expr = RESULT_BINARY(^, expr, rhs); break;
@@ -299,18 +354,18 @@ static struct result evaluate_expression(int prec, int evaluate) {
 				case T_GEQ: expr = RESULT_BINARY_COND(>=, expr, rhs); break;
 				case T_L: expr = RESULT_BINARY_COND(<, expr, rhs); break;
 				case T_G: expr = RESULT_BINARY_COND(>, expr, rhs); break;
-				case T_LSHIFT: expr = RESULT_BINARY(<<, expr, rhs); break;
-				case T_RSHIFT: expr = RESULT_BINARY(>>, expr, rhs); break;
+				case T_LSHIFT: expr = shift_left(expr, rhs); break;
+				case T_RSHIFT: expr = shift_right(expr, rhs); break;
 				case T_ADD: expr = RESULT_BINARY(+, expr, rhs); break;
 				case T_SUB: expr = RESULT_BINARY(-, expr, rhs); break;
 				case T_STAR: expr = RESULT_BINARY(*, expr, rhs); break;
 				case T_DIV:
 					check_div_overflow(&t, expr, rhs);
-					expr = RESULT_BINARY(/, expr, rhs);
+					expr = RESULT_BINARY_SIGN(/, expr, rhs);
 					break;
 				case T_MOD:
 					check_div_overflow(&t, expr, rhs);
-					expr = RESULT_BINARY(%, expr, rhs);
+					expr = RESULT_BINARY_SIGN(%, expr, rhs);
 					break;
 				default:
 					ERROR(t.pos, "Invalid infix %s", dbg_token(&t));
@@ -373,14 +428,26 @@ static struct string_view get_include_path(struct token dir, struct token t, int
 
 	expand_token_list(&buffer);
 
-	if (buffer.size != 1 || buffer.list[0].type != T_STRING)
+	struct string_view path;
+	if (buffer.size == 1 && buffer.list[0].type == T_STRING) {
+		*system = 0;
+		path = buffer.list[0].str;
+		path.len -= 2;
+		path.str++;
+	} else if (buffer.size >= 3 && buffer.list[0].type == T_L &&
+			   buffer.list[buffer.size - 1].type == T_G) {
+		// The tokens between < and > make up the name.
+		*system = 1;
+		char *name = allocate_printf("");
+		for (int i = 1; i < buffer.size - 1; i++) {
+			struct token *part = &buffer.list[i];
+			name = allocate_printf("%s%s%.*s", name, i > 1 && part->whitespace ? " " : "",
+								   part->str.len, part->str.str);
+		}
+		path = sv_from_str(name);
+	} else {
 		ERROR(dir.pos, "Invalidly formatted path to #include directive.");
-
-	*system = 0;
-
-	struct string_view path = buffer.list[0].str;
-	path.len -= 2;
-	path.str++;
+	}
 
 	buffer_pos = 0;
 	return path;
@@ -389,10 +456,10 @@ static struct string_view get_include_path(struct token dir, struct token t, int
 static int directiver_evaluate_conditional(struct token dir) {
 	if (sv_string_cmp(dir.str, "ifdef") ||
 		sv_string_cmp(dir.str, "elifdef")) {
-		return (define_map_get(next().str) != NULL);
+		return (define_map_get(next_macro_name().str) != NULL);
 	} else if (sv_string_cmp(dir.str, "ifndef") ||
 			   sv_string_cmp(dir.str, "elifndef")) {
-		return !(define_map_get(next().str) != NULL);
+		return !(define_map_get(next_macro_name().str) != NULL);
 	} else if (sv_string_cmp(dir.str, "if") ||
 			   sv_string_cmp(dir.str, "elif")) {
 		return !result_is_zero(evaluate_until_newline());
@@ -403,41 +470,33 @@ static int directiver_evaluate_conditional(struct token dir) {
 	ERROR(dir.pos, "Invalid conditional directive");
 }
 
-static void push_macro(struct string_view name) {
-	struct macro_stack *stack = NULL;
+static struct macro_stack *find_macro_stack(struct string_view name) {
 	for (unsigned i = 0; i < macro_stack_size; i++) {
-		if (macro_stacks[i].size &&
-			sv_cmp(macro_stacks[i].defines[0].name, name)) {
-			stack = &macro_stacks[i];
-		}
+		if (sv_cmp(macro_stacks[i].name, name))
+			return &macro_stacks[i];
 	}
 
-	if (!stack) {
-		stack = &ADD_ELEMENT(macro_stack_size, macro_stack_cap, macro_stacks);
-		*stack = (struct macro_stack) { 0 };
-	}
+	struct macro_stack *stack = &ADD_ELEMENT(macro_stack_size, macro_stack_cap, macro_stacks);
+	*stack = (struct macro_stack) { .name = name };
+	return stack;
+}
 
-	struct define *current_define = define_map_get(name);
-	if (current_define)
-		ADD_ELEMENT(stack->size, stack->cap, stack->defines) = *current_define;
+static void push_macro(struct string_view name) {
+	struct macro_stack *stack = find_macro_stack(name);
+	ADD_ELEMENT(stack->size, stack->cap, stack->defines) = define_map_get(name);
 }
 
 static void pop_macro(struct string_view name) {
-	struct macro_stack *stack = NULL;
-	for (unsigned i = 0; i < macro_stack_size; i++) {
-		if (macro_stacks[i].size &&
-			sv_cmp(macro_stacks[i].defines[0].name, name)) {
-			stack = &macro_stacks[i];
-		}
-	}
+	struct macro_stack *stack = find_macro_stack(name);
 
-	if (!stack)
+	if (!stack->size)
 		return;
 
-	define_map_add(stack->defines[--stack->size]);
-
-	if (!stack->size)
-		REMOVE_ELEMENT(macro_stack_size, macro_stacks, stack - macro_stacks);
+	struct define *define = stack->defines[--stack->size];
+	if (define)
+		define_map_add(*define);
+	else
+		define_map_remove(name);
 }
 
 static int directiver_handle_pragma(void) {
@@ -485,17 +544,70 @@ static int directiver_handle_pragma(void) {
 	return 0;
 }
 
+// 6.10.4
+static void directiver_line(struct token directive) {
+	struct tokenized_file *file = current_file;
+
+	buffer.size = 0;
+	struct token t = next();
+	while (!t.first_of_line) {
+		token_list_add(&buffer, t);
+		t = next();
+	}
+
+	expand_token_list(&buffer);
+
+	if (buffer.size == 0 || buffer.list[0].type != T_NUM)
+		ERROR(directive.pos, "Expected digit sequence after #line");
+
+	struct string_view digits = buffer.list[0].str;
+	int line = 0;
+	for (int i = 0; i < digits.len; i++) {
+		int digit = digits.str[i] - '0';
+		if (digit < 0 || digit > 9 || line > (INT_MAX - digit) / 10)
+			ERROR(directive.pos, "Invalid digit sequence after #line");
+		line = line * 10 + digit;
+	}
+
+	int diff = line - directive.pos.line - 1;
+	file->line_diff += diff;
+
+	if (buffer.size >= 2) {
+		if (buffer.list[1].type != T_STRING)
+			ERROR(directive.pos, "Expected s char sequence as second argument to #line");
+		struct string_view path = buffer.list[1].str;
+		path.len -= 2;
+		path.str++;
+		file->new_path = sv_to_str(path);
+	}
+
+	// The first token of the next line has already been read.
+	if (current_file == file) {
+		t.pos.line += diff;
+		if (file->new_path)
+			t.pos.path = file->new_path;
+	}
+	push(t);
+}
+
 struct token directiver_next(void) {
 	static int cond_stack_n = 0, cond_stack_cap = 0;
-	static int *cond_stack = NULL;
-
-	if (cond_stack_n == 0)
-		ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = 1;
+	static struct {
+		int state; // 1: active, 0: no group taken yet, -1: skip until #endif.
+		int has_else;
+	} *cond_stack = NULL;
+
+	if (cond_stack_n == 0) {
+		ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack).state = 1;
+		cond_stack[0].has_else = 1;
+	}
 
 	struct token t = next();
 	int pass_directive = 0;
-	while ((t.type == PP_DIRECTIVE || cond_stack[cond_stack_n - 1] != 1) &&
+	while ((t.type == PP_DIRECTIVE || cond_stack[cond_stack_n - 1].state != 1) &&
 		!pass_directive) {
+		if (t.type == T_EOI)
+			break;
 		if (t.type != PP_DIRECTIVE) {
 			t = next();
 			continue;
@@ -507,42 +619,45 @@ struct token directiver_next(void) {
 			continue;
 		}
 
-		if (directive.type != T_IDENT &&
-			cond_stack[cond_stack_n - 1] != 1) {
+		if (directive.type != T_IDENT) {
+			if (cond_stack[cond_stack_n - 1].state == 1)
+				ERROR(directive.pos, "Invalid directive.");
 			t = directive;
 			continue;
 		}
 
 		struct string_view name = directive.str;
 
-		assert(directive.type == T_IDENT);
-
 		if (sv_string_cmp(name, "ifndef") ||
 			sv_string_cmp(name, "ifdef") ||
 			sv_string_cmp(name, "if")) {
-			if (cond_stack[cond_stack_n - 1] == 1) {
-				int result = directiver_evaluate_conditional(directive);
-				ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = result ? 1 : 0;
-			} else {
-				ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = -1;
-			}
+			int state = -1;
+			if (cond_stack[cond_stack_n - 1].state == 1)
+				state = directiver_evaluate_conditional(directive);
+			ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack).state = state;
+			cond_stack[cond_stack_n - 1].has_else = 0;
 		} else if (sv_string_cmp(name, "elif") ||
 				   sv_string_cmp(name, "else") ||
 				   sv_string_cmp(name, "elifndef") ||
 				   sv_string_cmp(name, "elifdef")) {
-			if (cond_stack[cond_stack_n - 1] == 0) {
-				int result = directiver_evaluate_conditional(directive);
-				cond_stack[cond_stack_n - 1] = result;
-			} else {
-				cond_stack[cond_stack_n - 1] = -1;
-			}
+			if (cond_stack[cond_stack_n - 1].has_else)
+				ERROR(directive.pos, "#%.*s without #if, or after #else", name.len, name.str);
+			if (sv_string_cmp(name, "else"))
+				cond_stack[cond_stack_n - 1].has_else = 1;
+
+			if (cond_stack[cond_stack_n - 1].state == 0)
+				cond_stack[cond_stack_n - 1].state = directiver_evaluate_conditional(directive);
+			else
+				cond_stack[cond_stack_n - 1].state = -1;
 		} else if (sv_string_cmp(name, "endif")) {
+			if (cond_stack_n == 1)
+				ERROR(directive.pos, "#endif without #if");
 			cond_stack_n--;
-		} else if (cond_stack[cond_stack_n - 1] == 1) {
+		} else if (cond_stack[cond_stack_n - 1].state == 1) {
 			if (sv_string_cmp(name, "define")) {
 				directiver_define();
 			} else if (sv_string_cmp(name, "undef")) {
-				define_map_remove(next().str);
+				define_map_remove(next_macro_name().str);
 			} else if (sv_string_cmp(name, "error")) {
 				struct token msg = next();
 				if (msg.type == T_STRING)
@@ -550,10 +665,8 @@ struct token directiver_next(void) {
 				else
 					ERROR(directive.pos, "#error directive was invoked.");
 			} else if (sv_string_cmp(name, "include")) {
-				// There is an issue with just resetting after include. But
-				// I'm interpreting the standard liberally to allow for this.
-				new_path = NULL;
-				line_diff = 0;
+				// This could be the last line of the file.
+				const char *parent_path = current_file->path;
 				struct string_view path;
 				struct token path_tok = next();
 				int system;
@@ -563,13 +676,12 @@ struct token directiver_next(void) {
 					system = path_tok.type == PP_HEADER_NAME_H;
 					path.len -= 2;
 					path.str++;
+					skip_line();
 				} else {
 					path = get_include_path(directive, path_tok, &system);
 				}
 
-				directiver_push_input(sv_to_str(path), system);
-			} else if (sv_string_cmp(name, "endif")) {
-				// Do nothing.
+				push_input(parent_path, sv_to_str(path), system);
 			} else if (sv_string_cmp(name, "pragma")) {
 				if (directiver_handle_pragma()) {
 					push(directive);
@@ -578,61 +690,24 @@ struct token directiver_next(void) {
 					pass_directive = 1;
 				}
 			} else if (sv_string_cmp(name, "line")) {
-				// 6.10.4
-				struct token digit_seq = next(), s_char_seq;
-
-				if (digit_seq.first_of_line)
-					ERROR(digit_seq.pos, "Expected digit sequence after #line");
-
-				int has_s_char_seq = 0;
-				if (digit_seq.type != T_NUM) {
-					buffer.size = 0;
-					struct token t = digit_seq;
-					while (!t.first_of_line) {
-						token_list_add(&buffer, t);
-						t = next();
-					}
-
-					push(t);
-
-					expand_token_list(&buffer);
-
-					if (buffer.size == 0) {
-						ERROR(digit_seq.pos, "Invalid #line macro expansion");
-					} else if (buffer.size >= 1) {
-						digit_seq = buffer.list[0];
-					} else if (buffer.size >= 2) {
-						s_char_seq = buffer.list[1];
-						has_s_char_seq = 1;
-					}
-				} else {
-					s_char_seq = next();
-					if (s_char_seq.first_of_line) {
-						push(s_char_seq);
-					} else {
-						has_s_char_seq = 1;
-					}
-				}
-
-				if (digit_seq.first_of_line || digit_seq.type != T_NUM)
-					ERROR(digit_seq.pos, "Expected digit sequence after #line");
-
-				line_diff += atoi(sv_to_str(digit_seq.str)) - directive.pos.line - 1;
-
-				if (has_s_char_seq) {
-					if (s_char_seq.type != T_STRING)
-						ERROR(s_char_seq.pos, "Expected s char sequence as second argument to #line");
-					s_char_seq.str.len -= 2;
-					s_char_seq.str.str++;
-					new_path = sv_to_str(s_char_seq.str);
-				}
+				directiver_line(directive);
 			} else {
 				ERROR(directive.pos, "#%s not implemented", dbg_token(&directive));
 			}
 		}
 
-		t = next();
+		if (!pass_directive) {
+			// Ignore the rest of the line.
+			do
+				t = next();
+			while (!t.first_of_line);
+		} else {
+			t = next();
+		}
 	}
 
+	if (t.type == T_EOI && cond_stack_n != 1)
+		ERROR(t.pos, "#if without #endif");
+
 	return t;
 }
diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index b2f5194..77a5349 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -52,8 +52,46 @@ void input_add_include_path(const char *path) {
 	ADD_ELEMENT(paths_size, paths_cap, paths) = path;
 }
 
+// The same file can be included by different paths, for example "a.h" and
+// "b/../a.h". Removes "." and ".." where possible.
+static char *normalize_path(const char *path) {
+	char *ret = strdup(path), *out = ret;
+
+	while (*path) {
+		int length = 0;
+		while (path[length] && path[length] != '/')
+			length++;
+
+		int is_dot = length == 1 && path[0] == '.';
+		int is_dots = length == 2 && path[0] == '.' && path[1] == '.';
+
+		// Previous component, if there is one that can be removed.
+		char *prev = out;
+		if (prev != ret && prev[-1] == '/') {
+			prev--;
+			while (prev != ret && prev[-1] != '/')
+				prev--;
+		}
+
+		if (is_dots && prev != out && *prev != '/' &&
+			!(out - prev == 3 && prev[0] == '.' && prev[1] == '.')) {
+			out = prev;
+		} else if (!is_dot && (length || out == ret)) {
+			memcpy(out, path, length);
+			out += length;
+			if (path[length])
+				*out++ = '/';
+		}
+
+		path += length + !!path[length];
+	}
+
+	*out = '\0';
+	return ret;
+}
+
 void input_disable_path(const char *path) {
-	string_set_insert(&disabled_headers, strdup(path));
+	string_set_insert(&disabled_headers, normalize_path(path));
 }
 
 struct input input_open(const char *parent_path, const char *path, int system) {
@@ -81,7 +119,7 @@ struct input input_open(const char *parent_path, const char *path, int system) {
 
 	struct input input = { 0 };
 
-	if (!string_set_contains(disabled_headers, sv_from_str(path_buffer)))
+	if (!string_set_contains(disabled_headers, sv_from_str(normalize_path(path_buffer))))
 		input = input_create(strdup(path_buffer), fp);
 
 	fclose(fp);
diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index a950ac8..2b7342e 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -4,7 +4,6 @@
 #include "tokenizer.h"
 
 #include <common.h>
-#include <escape_sequence.h>
 
 #include <assert.h>
 
@@ -55,14 +54,9 @@ void define_map_add(struct define define) {
 		define.def.list[define.def.size - 1].whitespace_after = 0;
 	}
 
-	if (*elem) {
-		define.next = (*elem)->next;
-		**elem = define;
-	} else {
-		define.next = NULL;
-		*elem = cc_malloc(sizeof define);
-		**elem = define;
-	}
+	define.next = *elem ? (*elem)->next : NULL;
+	*elem = cc_malloc(sizeof define);
+	**elem = define;
 }
 
 struct define *define_map_get(struct string_view str) {
@@ -72,10 +66,8 @@ struct define *define_map_get(struct string_view str) {
 void define_map_remove(struct string_view str) {
 	struct define **elem = define_map_find(str);
 	if (*elem) {
-		struct define *next = (*elem)->next;
-		free(*elem);
-		*elem = next;
-		// TODO: Free contents of elem as well.
+		// It is not freed, it could currently be in the process of being expanded.
+		*elem = (*elem)->next;
 	}
 }
 
@@ -107,56 +99,22 @@ void define_string(char *name, char *value) {
 	define_map_add(def);
 }
 
-// Hopefully sufficiant table for
-// combining two token types to
-// get another. The strings are simply
-// concatenated in all these cases.
-ttype paste_table[][3] = {
-	{T_IDENT, T_IDENT, T_IDENT},
-	{T_IDENT, T_NUM, T_IDENT},
-	{T_IDENT, T_IDENT, T_IDENT},
-	{T_LSHIFT, T_A, T_LSHIFTA},
-	{T_RSHIFT, T_A, T_RSHIFTA},
-	{T_NUM, T_NUM, T_NUM},
-	{T_NUM, T_IDENT, T_NUM},
-	{T_ADD, T_ADD, T_INC},
-	{T_ADD, T_A, T_ADDA},
-	{T_SUB, T_SUB, T_DEC},
-	{T_SUB, T_G, T_ARROW},
-	{T_SUB, T_A, T_SUBA},
-	{T_DIV, T_A, T_DIVA},
-	{T_MOD, T_A, T_MODA},
-	{T_G, T_GEQ, T_RSHIFTA},
-	{T_G, T_G, T_RSHIFT},
-	{T_G, T_A, T_GEQ},
-	{T_L, T_LEQ, T_LSHIFTA},
-	{T_L, T_L, T_LSHIFT},
-	{T_L, T_A, T_LEQ},
-	{T_NOT, T_A, T_NEQ},
-	{T_BOR, T_BOR, T_OR},
-	{T_BOR, T_A, T_BORA},
-	{T_XOR, T_A, T_XORA},
-	{T_A, T_A, T_EQ},
-	{T_STAR, T_A, T_MULA},
-	{T_AMP, T_A, T_BANDA},
-	{T_AMP, T_AMP, T_AND},
-	{PP_HASH, PP_HASH, PP_HHASH}, // This is just stupid...
-};
-
 static struct token glue(struct token a, struct token b) {
+	char *str = allocate_printf("%.*s%.*s", b.str.len, b.str.str, a.str.len, a.str.str);
+	struct token_list tokens = tokenize_input(str, "<paste>");
+	if (tokens.size != 1)
+		ERROR(a.pos, "Invalid paste of %.*s and %.*s", b.str.len, b.str.str, a.str.len, a.str.str);
+
 	struct token ret = {
+		.type = tokens.list[0].type == PP_DIRECTIVE ? PP_HASH : tokens.list[0].type,
+		.str = tokens.list[0].str,
 		.whitespace = b.whitespace, .first_of_line = b.first_of_line,
-		.whitespace_after = a.whitespace_after, .first_of_line_after = a.first_of_line_after
+		.whitespace_after = a.whitespace_after, .first_of_line_after = a.first_of_line_after,
+		.hs = string_set_intersection(a.hs, b.hs),
+		.pos = a.pos,
 	};
-	for (unsigned i = 0; i < sizeof paste_table / sizeof *paste_table; i++)
-		if (paste_table[i][1] == a.type && paste_table[i][0] == b.type)
-			ret.type = paste_table[i][2];
-	if (!ret.type)
-		ERROR(a.pos, "Invalid paste of %.*s and %.*s", b.str.len, b.str.str, a.str.len, a.str.str);
 
-	ret.str = sv_from_str(allocate_printf("%s%s", sv_to_str(b.str), sv_to_str(a.str))); // TODO: This can be done better.
-	ret.hs = string_set_intersection(a.hs, b.hs);
-	ret.pos = a.pos;
+	token_list_free(&tokens);
 
 	return ret;
 }
@@ -193,10 +151,9 @@ static void stringify_add(struct token *t, int start) {
 	case T_STRING:
 	case T_CHARACTER_CONSTANT:
 		for (int i = 0; i < t->str.len; i++) {
-			char escape_seq[5];
-			character_to_escape_sequence(t->str.str[i], escape_seq, 1);
-			for (int j = 0; escape_seq[j]; j++)
-				stringify_add_char(escape_seq[j]);
+			if (t->str.str[i] == '"' || t->str.str[i] == '\\')
+				stringify_add_char('\\');
+			stringify_add_char(t->str.str[i]);
 		}
 		break;
 
@@ -318,17 +275,15 @@ static int input_buffer_parse_argument(struct token_list *tl, int ignore_comma,
 	return t.type == T_RPAR;
 }
 
-static void expand_argument(struct token origin, struct token_list tl, int *concat_with_prev, int concat, int stringify, int input) {
+static void expand_argument(struct token origin, struct token_list tl, int concat_with_prev, int expand, int input) {
 	int start_it = tl.size - 1;
 
-	if (*concat_with_prev && tl.size) {
+	if (concat_with_prev && tl.size) {
 		struct token *end = input_buffer_top(input);
 		*end = glue(*end, tl.list[start_it--]);
 	}
 
-	int run_expand_again = 0;
-	if (!(concat || stringify)) {
-		run_expand_again = 1;
+	if (expand) {
 		struct token t = { .type = T_EOI };
 		input_buffer_push(&t);
 	}
@@ -342,7 +297,7 @@ static void expand_argument(struct token origin, struct token_list tl, int *conc
 		input_buffer_push(&t);
 	}
 
-	if (run_expand_again) {
+	if (expand) {
 		size_t output_pos = output_buffer.size;
 		expand_buffer(input, 0, NULL);
 
@@ -394,77 +349,71 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 
 	string_set_insert(hs, sv_to_str(def->name));
 
+	// The operands are handled from right to left. If "concat_with_prev" is set,
+	// the token at the top of the input buffer is the right operand of a ##.
 	size_t input_start = input_buffer.size;
 	int concat_with_prev = 0;
 	for(int i = def->def.size - 1; i >= 0; i--) {
 		struct token t = def->def.list[i];
 
-		const int concat = (i != 0) && def->def.list[i - 1].type == PP_HHASH;
-		const int stringify = (i != 0) && def->def.list[i - 1].type == PP_HASH;
+		const int stringify = def->func && i != 0 && def->def.list[i - 1].type == PP_HASH;
+		const int first = i - stringify; // First token of this operand.
+		const int concat = first != 0 && def->def.list[first - 1].type == PP_HHASH;
+		const int concat_right = i + 1 < def->def.size && def->def.list[i + 1].type == PP_HHASH;
+		const int is_va_args = def->vararg && sv_string_cmp(t.str, "__VA_ARGS__");
+		const int idx = get_param(def, t);
 
 		if (t.type == PP_HHASH)
 			ERROR(t.pos, "Concat token at edge of macro expansion.");
 
-		if (sv_string_cmp(t.str, "__VA_ARGS__")) {
-			const int va_args_paste = concat && i - 2 >= 0 &&
-				def->def.list[i - 2].type == T_COMMA;
-
-			if (va_args_paste && !vararg_included) {
-				i--; // There is an additional i-- at the end of the loop.
-			} else if (stringify) {
-				struct token_list tl = vararg;
-				stringify_start();
-
-				for(int i = 0; i < tl.size; i++)
-					stringify_add(tl.list + i, i == 0);
-
-				struct token t_new = t;
-				t_new.type = T_STRING;
-				t_new.str = stringify_end();
-				input_buffer_push(&t_new);
-			} else if (vararg_included) {
-				expand_argument(t, vararg, &concat_with_prev, concat, stringify, input);
-				
-				if (vararg.size)
-					concat_with_prev = !va_args_paste && concat;
-			}
+		if (stringify && !is_va_args && idx < 0)
+			ERROR(t.pos, "# Should be followed by macro parameter");
+
+		int empty = 0, comma_paste = 0; // An empty operand is a placemarker.
+		if (stringify) {
+			struct token_list tl = is_va_args ? vararg : arguments[idx];
+			stringify_start();
+
+			for(int i = 0; i < tl.size; i++)
+				stringify_add(tl.list + i, i == 0);
+
+			t.type = T_STRING;
+			t.str = stringify_end();
+			t.whitespace = def->def.list[first].whitespace;
+			t.pos = new_pos;
+		} else if (is_va_args || idx >= 0) {
+			struct token_list tl = is_va_args ? vararg : arguments[idx];
+			empty = tl.size == 0;
+			comma_paste = is_va_args && concat && first - 2 >= 0 &&
+				def->def.list[first - 2].type == T_COMMA;
+
+			size_t size_before = input_buffer.size;
+			expand_argument(t, tl, concat_with_prev, !concat && !concat_right, input);
+
+			// Keep the whitespace if there are no tokens.
+			if (input_buffer.size == size_before && size_before > input_start)
+				input_buffer.tokens[size_before - 1].whitespace |= t.whitespace;
+			else if (input_buffer.size == size_before)
+				whitespace_after |= t.whitespace;
+
+			if (comma_paste && !vararg_included)
+				i--; // Remove the comma.
 		} else {
-			const int idx = get_param(def, t);
-			if (idx >= 0 && stringify) {
-				struct token_list tl = arguments[idx];
-				stringify_start();
-
-				for(int i = 0; i < tl.size; i++)
-					stringify_add(tl.list + i, i == 0);
-
-				struct token t_new = t;
-				t_new.type = T_STRING;
-				t_new.str = stringify_end();
-				input_buffer_push(&t_new);
-			} else if(idx >= 0) {
-				expand_argument(t, arguments[idx], &concat_with_prev, concat, stringify, input);
-
-				if (arguments[idx].size)
-					concat_with_prev = concat;
+			t.pos = new_pos;
+		}
+
+		if (stringify || (!is_va_args && idx < 0)) {
+			if (concat_with_prev) {
+				struct token *end = input_buffer_top(input);
+				*end = glue(*end, t);
 			} else {
-				if (concat_with_prev) {
-					struct token *end = input_buffer_top(input);
-					*end = glue(*end, t);
-					concat_with_prev = 0;
-				} else if (stringify) {
-					ERROR(t.pos, "# Should be followed by macro parameter");
-				} else {
-					t.pos = new_pos;
-					input_buffer_push(&t);
-				}
-
-				if (concat)
-					concat_with_prev = 1;
+				input_buffer_push(&t);
 			}
 		}
 
-		if (concat || stringify)
-			i--;
+		concat_with_prev = concat && !comma_paste && (concat_with_prev || !empty);
+
+		i -= concat + stringify;
 	}
 
 	for(int i = 0; i < n_args; i++) {
@@ -481,6 +430,9 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 			tok->whitespace = tok->whitespace || origin.whitespace;
 	}
 
+	if (input_start == input_buffer.size && input_start)
+		input_buffer.tokens[input_start - 1].whitespace |= origin.whitespace || whitespace_after;
+
 	free(arguments);
 }
 
@@ -488,8 +440,11 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 void expand_buffer(int input, int return_output, struct token *t) { 
 	while (input || input_buffer.size) {
 		struct token top = input_buffer_take(input);
-		if (top.type == T_EOI)
+		if (top.type == T_EOI) {
+			if (!return_output && output_buffer.size)
+				output_buffer.tokens[output_buffer.size - 1].whitespace_after |= top.whitespace;
 			break;
+		}
 
 		struct define *def = NULL;
 		if (top.type != T_IDENT || string_set_contains(top.hs, top.str) ||
diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index bb7a3c5..6976b65 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -140,6 +140,10 @@ struct token string_concat_next(void) {
 	}
 
 	struct token t = expander_next();
+
+	if (t.type == PP_OTHER)
+		ERROR(t.pos, "Invalid token %.*s", t.str.len, t.str.str);
+
 	static size_t string_tokens_size = 0, string_tokens_cap = 0;
 	static struct token *string_tokens = NULL;
 
@@ -151,6 +155,9 @@ struct token string_concat_next(void) {
 	}
 
 	if (string_tokens_size) {
+		if (t.type == PP_OTHER)
+			ERROR(t.pos, "Invalid token %.*s", t.str.len, t.str.str);
+
 		prev = t;
 
 		enum string_type combined_type = STRING_DEFAULT;
diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 89c98bc..e8c1f6e 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -32,11 +32,16 @@ static char eq_table[UCHAR_MAX + 1] = {
 	3, 9,  9,  9,  9, 117, 9,  9,  9,  9,  9,  123, 124, 125, 126, 2,
 };
 
+// Length of "\\\n" or "\\\r\n".
+static int line_splice_length(const char *s) {
+	if (s[0] != '\\')
+		return 0;
+	return s[1] == '\n' ? 2 : s[1] == '\r' && s[2] == '\n' ? 3 : 0;
+}
+
 static void next_char(void) {
-	// Remove "\\\n" and "\\\r\n".
-	if (*str == '\\' &&
-	    (str[1] == '\n' || (str[1] == '\r' && str[2] == '\n'))) {
-		str += str[1] == '\n' ? 2 : 3;
+	if (line_splice_length(str)) {
+		str += line_splice_length(str);
 		pos.line++;
 		pos.column = 0;
 		needs_escape_sequences_removed = 1;
@@ -61,12 +66,11 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 	ret_str[len] = '\0';
 
 	char *read, *write;
-	// Remove '\\n':
-	for (write = read = ret_str; *read; read++) {
-		if (read[0] == '\\' && read[1] == '\n')
-			read += 1;
+	for (write = read = ret_str; *read;) {
+		if (line_splice_length(read))
+			read += line_splice_length(read);
 		else
-			*write++ = *read;
+			*write++ = *read++;
 	}
 	*write = '\0';
 
@@ -95,6 +99,8 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 			for (int i = 0; i < 4 && encoded[i]; i++)
 				*write++ = encoded[i];
 		} else {
+			if (read[0] == '\\' && read[1] == '\\')
+				*write++ = *read++;
 			*write++ = *read;
 		}
 	}
@@ -145,23 +151,33 @@ static void parse_number(void) {
 	}
 }
 
-static void parse_string_like(char end_char) {
+// Returns false if the end is missing.
+static int parse_string_like(char end_char) {
 	while (c != '\n' && c != end_char && c != EQ_NULL) {
 		if (c == '\\') {
 			next_char();
-			if (c == 'u' || c == 'U') {
-				next_char();
+			if (c == EQ_NULL || c == '\n')
+				break;
+			if (c == 'u' || c == 'U')
 				needs_escape_sequences_removed = 1;
-			}
 		}
 
 		next_char();
 	}
 
 	if (c != end_char)
-		ERROR(pos, "Invalid string");
+		return 0;
 
 	next_char();
+	return 1;
+}
+
+// Is the character after the current one the u or U of a \u or \U.
+static int is_universal_character_name(void) {
+	const char *s = str;
+	while (line_splice_length(s))
+		s += line_splice_length(s);
+	return *s == 'u' || *s == 'U';
 }
 
 static void parse_identifier(void) {
@@ -169,12 +185,10 @@ static void parse_identifier(void) {
 		if (c == EQ_ALPHA || c == 'u' || c == 'U' || c == EQ_EXPONENT ||
 		    c == 'L' || c == EQ_DECIMAL || c == '8' || c == EQ_UTF8) {
 			next_char();
-		} else if (c == '\\') {
+		} else if (c == '\\' && is_universal_character_name()) {
 			next_char();
-			if (c == 'u' || c == 'U') {
-				next_char();
-				needs_escape_sequences_removed = 1;
-			}
+			next_char();
+			needs_escape_sequences_removed = 1;
 		} else {
 			break;
 		}
@@ -244,7 +258,8 @@ restart:
 			switch (c) {
 			case '"':
 				TYPE(T_STRING);
-				parse_string_like('"');
+				if (!parse_string_like('"'))
+					next.type = PP_OTHER;
 				break;
 
 			default:
@@ -256,12 +271,14 @@ restart:
 
 		case '"':
 			TYPE(T_STRING);
-			parse_string_like('"');
+			if (!parse_string_like('"'))
+				next.type = PP_OTHER;
 			break;
 
 		case '\'':
 			TYPE(T_CHARACTER_CONSTANT);
-			parse_string_like('\'');
+			if (!parse_string_like('\''))
+				next.type = PP_OTHER;
 			break;
 
 		default:
@@ -277,12 +294,14 @@ restart:
 		switch (c) {
 		case '"':
 			TYPE(T_STRING);
-			parse_string_like('"');
+			if (!parse_string_like('"'))
+				next.type = PP_OTHER;
 			break;
 
 		case '\'':
 			TYPE(T_CHARACTER_CONSTANT);
-			parse_string_like('\'');
+			if (!parse_string_like('\''))
+				next.type = PP_OTHER;
 			break;
 
 		default: parse_identifier(); break;
@@ -290,13 +309,15 @@ restart:
 		break;
 
 	case '"':
-		TYPE(T_STRING);
-		parse_string_like('"');
+		TYPE(*is_header ? PP_HEADER_NAME_Q : T_STRING);
+		if (!parse_string_like('"'))
+			next.type = PP_OTHER;
 		break;
 
 	case '\'':
 		TYPE(T_CHARACTER_CONSTANT);
-		parse_string_like('\'');
+		if (!parse_string_like('\''))
+			next.type = PP_OTHER;
 		break;
 
 	case EQ_EXPONENT:
@@ -323,10 +344,10 @@ restart:
 			break;
 
 		case '.':
-			next_char();
-			if (c != '.')
-				ERROR(pos, "Invalid token");
-			TYPE(T_ELLIPSIS);
+			if (*str == '.') {
+				next_char();
+				TYPE(T_ELLIPSIS);
+			}
 			break;
 		}
 		break;
@@ -347,7 +368,8 @@ restart:
 	case '<':
 		if (*is_header) {
 			TYPE(PP_HEADER_NAME_H);
-			parse_string_like('>');
+			if (!parse_string_like('>'))
+				next.type = PP_OTHER;
 		} else {
 			TYPE(T_L);
 			switch (c) {
@@ -462,7 +484,19 @@ restart:
 		next.type = T_EOI;
 		break;
 
-	default: ERROR(next.pos, "Invalid token");
+	case '\\':
+		if (is_universal_character_name()) {
+			TYPE(T_IDENT);
+			next_char();
+			needs_escape_sequences_removed = 1;
+			parse_identifier();
+			break;
+		}
+		TYPE(PP_OTHER);
+		break;
+
+	// Only an error if it is still there after preprocessing.
+	default: TYPE(PP_OTHER);
 	}
 
 	next.str = (struct string_view){
diff --git a/src/preprocessor/tokens.h b/src/preprocessor/tokens.h
index aa223d6..4677a64 100644
--- a/src/preprocessor/tokens.h
+++ b/src/preprocessor/tokens.h
@@ -8,6 +8,7 @@ X(PP_HEADER_NAME_Q, "Header name")
 X(PP_HASH, "#")
 X(PP_HHASH, "##")
 X(PP_DIRECTIVE, "#")
+X(PP_OTHER, "Invalid character")
 
 // Conditional tokens.
 X(COND_IF, "Conditional")
-- 
2.43.0


From d706b9939caa18300dfc37832ab4dd6d895ebbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:53 +0000
Subject: [PATCH 41/66] fix: parser: operands, conversions, declarations and
 statements were not checked; invalid programs crashed the compiler

---
 src/abi/abi.h                 |   2 +-
 src/abi/microsoft.c           |   2 +-
 src/abi/sysv.c                |   2 +-
 src/arch/x64.c                |  45 +++--
 src/codegen/rodata.c          |   2 +-
 src/parser/declaration.c      | 150 ++++++++++-------
 src/parser/expression.c       | 299 ++++++++++++++++++++++++++--------
 src/parser/expression.h       |   1 +
 src/parser/expression_to_ir.c |   4 +-
 src/parser/function_parser.c  |  66 +++++---
 src/types.c                   |  28 +++-
 src/types.h                   |   2 +
 12 files changed, 429 insertions(+), 174 deletions(-)

diff --git a/src/abi/abi.h b/src/abi/abi.h
index bb99c86..cd84f59 100644
--- a/src/abi/abi.h
+++ b/src/abi/abi.h
@@ -20,7 +20,7 @@ void abi_init_microsoft(void);
 void abi_init_mingw_workarounds(void);
 
 extern struct evaluated_expression (*abi_expr_call)(struct evaluated_expression *callee,
-													int n, struct evaluated_expression arguments[static n]);
+													int n, struct evaluated_expression *arguments);
 
 extern void (*abi_expr_function)(struct node *function, struct type *type, struct symbol_identifier **args);
 extern void (*abi_expr_return)(struct node *func, struct evaluated_expression *value, struct node **reg_state);
diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 6ec9fdf..6bb9a9b 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -31,7 +31,7 @@ static int fits_into_reg(struct type *type) {
 }
 
 static struct evaluated_expression ms_expr_call(struct evaluated_expression *callee,
-										   int n, struct evaluated_expression arguments[static n]) {
+										   int n, struct evaluated_expression *arguments) {
 	struct type *argument_types[128];
 	struct node *arg_addresses[128];
 	struct type *callee_type = type_deref(callee->data_type);
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 012f908..7d6d7cc 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -203,7 +203,7 @@ static int add_stack_argument(int *end, struct type *type) {
 }
 
 static struct evaluated_expression sysv_expr_call(struct evaluated_expression *callee,
-										   int n, struct evaluated_expression arguments[static n]) {
+										   int n, struct evaluated_expression *arguments) {
 	struct type *argument_types[128];
 	struct node *arg_addresses[128];
 	struct node *reg_variables[MAX_REGISTER_ARGUMENTS];
diff --git a/src/arch/x64.c b/src/arch/x64.c
index 838ea47..56bdd79 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -306,9 +306,15 @@ void calculate_offsets(struct struct_data *data) {
 struct constant constant_increment(struct constant a) {
 	if (a.type != CONSTANT_TYPE)
 		NOTIMP();
-	if (!(type_is_integer(a.data_type) && is_signed(a.data_type->simple)))
+	if (!type_is_integer(a.data_type))
 		NOTIMP();
-	a.int_d++;
+	if (constant_to_u64(a) == get_type_max(a.data_type->simple)) {
+		// As an extension, continue with a larger type.
+		a = constant_cast(a, type_simple(ST_LLONG));
+		if (a.int_d < 0 || constant_to_u64(a) == get_type_max(ST_LLONG))
+			ERROR_NO_POS("Value of enumerator is too large.");
+	}
+	a.uint_d = constant_to_u64(a) + 1;
 	return a;
 }
 
@@ -498,6 +504,21 @@ void constant_normalize(struct constant *c) {
 		c->uint_d = conv_uu(c->int_d, range_max);
 }
 
+// The value the hardware conversion gives if it is out of range.
+#define INVALID_CONVERSION ((constant_uint)1 << 63)
+
+static constant_int conv_di(double x) {
+	if (x >= -0x1p63 && x < 0x1p63)
+		return x;
+	return -(constant_int)(INVALID_CONVERSION - 1) - 1;
+}
+
+static constant_uint conv_du(double x) {
+	if (x > -1 && x < 0x1p64)
+		return x;
+	return conv_di(x);
+}
+
 static struct constant simple_cast(struct constant from, enum simple_type target) {
 	assert(from.type == CONSTANT_TYPE);
 	assert(from.data_type->type == TY_SIMPLE);
@@ -552,15 +573,15 @@ static struct constant simple_cast(struct constant from, enum simple_type target
 			from.float_d = from.uint_d;
 	} else if (to_int && from_float && from_type == ST_DOUBLE) {
 		if (is_signed(target))
-			from.int_d = from.double_d;
+			from.int_d = conv_di(from.double_d);
 		else
-			from.uint_d = from.double_d;
+			from.uint_d = conv_du(from.double_d);
 		constant_normalize(&from);
 	} else if (to_int && from_float && from_type == ST_FLOAT) {
 		if (is_signed(target))
-			from.int_d = from.float_d;
+			from.int_d = conv_di(from.float_d);
 		else
-			from.uint_d = from.float_d;
+			from.uint_d = conv_du(from.float_d);
 		constant_normalize(&from);
 	} else if (from_float && to_float) {
 		if (target == ST_DOUBLE && from_type == ST_FLOAT) {
@@ -645,9 +666,9 @@ void constant_to_buffer(uint8_t *buffer, struct constant constant, int bit_offse
 		uint64_t prev_value;
 		switch (size) {
 		case 1: prev_value = *buffer; break;
-		case 2: prev_value = *(uint16_t *)buffer; break;
-		case 4: prev_value = *(uint32_t *)buffer; break;
-		case 8: prev_value = *(uint64_t *)buffer; break;
+		case 2: prev_value = read_16(buffer); break;
+		case 4: prev_value = read_32(buffer); break;
+		case 8: prev_value = read_64(buffer); break;
 		default: NOTIMP();
 		}
 		value = (prev_value & mask) | (value & ~mask);
@@ -655,9 +676,9 @@ void constant_to_buffer(uint8_t *buffer, struct constant constant, int bit_offse
 
 	switch (size) {
 	case 1: *buffer = value & 0xff; break;
-	case 2: *(uint16_t *)buffer = value & 0xffff; break;
-	case 4: *(uint32_t *)buffer = value & 0xffffffff; break;
-	case 8: *(uint64_t *)buffer = value; break;
+	case 2: write_16(buffer, value); break;
+	case 4: write_32(buffer, value); break;
+	case 8: write_64(buffer, value); break;
 	default: NOTIMP();
 	}
 }
diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 9342db8..0107992 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -296,7 +296,7 @@ void codegen_initializer(struct type *type,
 					break;
 			}
 			if (how_long == 8) {
-				asm_quad(IMM_ABS(*(uint64_t *)(buffer + i)));
+				asm_quad(IMM_ABS(read_64(buffer + i)));
 				i += how_long - 1;
 			} else {
 				asm_byte(IMM_ABS(buffer[i]));
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 6d6c74e..3309314 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -96,6 +96,17 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 int parse_struct(struct type_specifiers *ts);
 int parse_enum(struct type_specifiers *ts);
 
+#define MAX_ALIGNMENT (1 << 28)
+
+static intmax_t expression_to_constant_integer(struct expr *expr, const char *where) {
+	struct constant *constant = expression_to_constant(expr);
+
+	if (!constant || constant->type != CONSTANT_TYPE || !type_is_integer(constant->data_type))
+		ERROR(T0->pos, "Expected constant integer expression in %s.", where);
+
+	return constant_cast(*constant, type_simple(ST_LLONG)).int_d;
+}
+
 static int parse_specifier(struct type_specifiers *ts,
 						   struct storage_class_specifiers *scs,
 						   struct type_qualifiers *tq,
@@ -197,14 +208,11 @@ static int parse_specifier(struct type_specifiers *ts,
 			else
 				length_expr = parse_expression();
 
-			length_expr = expression_cast(length_expr, type_simple(ST_ULLONG));
-
 			TEXPECT(T_RPAR);
-			struct constant *constant = expression_to_constant(length_expr);
-			if (constant->type != CONSTANT_TYPE || !type_is_simple(constant->data_type, ST_ULLONG)) {
-				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument. %d", constant->data_type->type);
-			}
-			as->alignment = MAX(as->alignment, (int)constant->uint_d);
+			intmax_t alignment = expression_to_constant_integer(length_expr, "_Alignas");
+			if (alignment < 0 || alignment > MAX_ALIGNMENT || (alignment & (alignment - 1)))
+				ERROR(T0->pos, "Invalid alignment.");
+			as->alignment = MAX(as->alignment, (int)alignment);
 			return 1;
 		}
 	}
@@ -243,14 +251,13 @@ static int parse_enumerator(struct constant *prev, int first) {
 	struct constant val;
 	if (TACCEPT(T_A)) {
 		struct expr *expr = parse_assignment_expression();
-		if (!expr)
-			ERROR(T0->pos, "Expected expression");
 			
-		struct constant *ret = expression_to_constant(expr);
-		if (!ret)
-			ERROR(T0->pos, "Could not evaluate constant expression, is of type %d", expr->type);
+		intmax_t value = expression_to_constant_integer(expr, "enumerator");
+		val = *expression_to_constant(expr);
 
-		val = *ret;
+		// Values that fit have type int. As an extension, others keep their type.
+		if (value >= INT_MIN && value <= INT_MAX && !(value < 0 && !is_signed(val.data_type->simple)))
+			val = constant_cast(val, type_simple(ENUM_TYPE));
 	} else {
 		if (!first)
 			val = constant_increment(*prev);
@@ -389,18 +396,24 @@ int parse_struct(struct type_specifiers *ts) {
 				if (TACCEPT(T_COLON)) {
 					found_one = 1; // Bit-fields can't declare anonymous structs.
 
-					type = ast_to_type(&s.ts, &s.tq, NULL, NULL, 0);
-					struct expr *bitfield_expr = parse_assignment_expression();
-					struct constant *c = expression_to_constant(
-						expression_cast(bitfield_expr, type_simple(ST_INT)));
-					if (!c)
-						ERROR(T0->pos, "Bit-field must be a constant expression");
-					if (!type_is_simple(c->data_type, ST_INT))
-						ERROR(T0->pos, "Bit-field must an integer");
-					assert(c->type == CONSTANT_TYPE);
-					bitfield = c->int_d;
+					if (!type)
+						type = ast_to_type(&s.ts, &s.tq, NULL, NULL, 0);
+					if (!type_is_integer(type))
+						ERROR(T0->pos, "Bit-field has type %s.", dbg_type(type));
+
+					intmax_t width = expression_to_constant_integer(parse_assignment_expression(), "bit-field");
+					if (width < (name.len ? 1 : 0) ||
+						width > (type_is_simple(type, ST_BOOL) ? 1 : 8 * calculate_size(type)))
+						ERROR(T0->pos, "Invalid width of bit-field.");
+					bitfield = width;
 				} else if (needs_bitfield) {
+					if (found_one)
+						ERROR(T0->pos, "Expected declarator.");
 					break;
+				} else if (type_has_variable_size(type) ||
+						   !(type_is_complete(type) ||
+							 (type->type == TY_INCOMPLETE_ARRAY && fields_size && !is_union))) {
+					ERROR(T0->pos, "Member has incomplete or variable type %s.", dbg_type(type));
 				}
 
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
@@ -410,13 +423,14 @@ int parse_struct(struct type_specifiers *ts) {
 					.min_alignment = s.as.alignment
 				};
 
-				TACCEPT(T_COMMA);
+				if (!TACCEPT(T_COMMA))
+					break;
 			}
 
 			TEXPECT(T_SEMI_COLON);
 
 			if (!found_one) {
-				if (s.ts.data_type->type == TY_STRUCT) {
+				if (s.ts.data_type && s.ts.data_type->type == TY_STRUCT && s.ts.data_type->struct_data->is_complete) {
 					ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 						.type = s.ts.data_type,
 						.name = { 0 },
@@ -642,12 +656,19 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 				parameters[i + 1] = ast->function.types[i];
 			parameters[0] = type;
 
+			if (type->type == TY_FUNCTION || type->type == TY_ARRAY ||
+				type->type == TY_INCOMPLETE_ARRAY || type->type == TY_VARIABLE_LENGTH_ARRAY)
+				ERROR(ast->pos, "Function can't return type %s.", dbg_type(type));
+
 			type = type_create(&params, parameters);
 
 			ast = ast->parent;
 		} break;
 
 		case TAST_ARRAY: {
+			if (!type_is_complete(type))
+				ERROR(ast->pos, "Array of elements of type %s.", dbg_type(type));
+
 			switch (ast->array.type) {
 			case ARR_EMPTY: {
 				struct type params = {
@@ -657,12 +678,19 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 				type = type_create(&params, &type);
 			} break;
 			case ARR_EXPRESSION: {
+				if (!type_is_integer(ast->array.expr->data_type))
+					ERROR(ast->pos, "Size of array has type %s.", dbg_type(ast->array.expr->data_type));
+
 				struct constant *unconverted_length;
 				if ((unconverted_length = expression_to_constant(ast->array.expr)) &&
 					unconverted_length->type == CONSTANT_TYPE) {
-					if (unconverted_length->data_type->type == TY_SIMPLE &&
-						is_signed(unconverted_length->data_type->simple) &&
-						unconverted_length->int_d <= 0) {
+					constant_uint max_length = INT_MAX;
+					if (!type_has_variable_size(type) && calculate_size(type))
+						max_length /= calculate_size(type);
+
+					if ((is_signed(unconverted_length->data_type->simple) &&
+						 unconverted_length->int_d <= 0) ||
+						constant_to_u64(*unconverted_length) > max_length) {
 						ERROR(ast->pos, "Invalid size of array\n");
 					}
 				}
@@ -893,8 +921,6 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 				TEXPECT(T_RBRACK);
 			} else {
 				struct expr *expression = parse_expression();
-				if (!expression)
-					ERROR(T0->pos, "Expected size expression.");
 
 				arr.array.type = ARR_EXPRESSION;
 				arr.array.expr = expression;
@@ -1069,20 +1095,15 @@ static void parse_brace_initializer(struct type **type, struct initializer *init
 				int n = 0, *indices = 0, array_index = 0;
 
 				if (TACCEPT(T_LBRACK)) {
-					struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
-					struct constant *c = expression_to_constant(expr);
-					if (!c)
-						ERROR(T0->pos, "Expected constant expression in array designator.");
+					intmax_t index = expression_to_constant_integer(parse_expression(), "array designator");
 					TEXPECT(T_RBRACK);
 
-					assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
-
 					if ((current_type->type != TY_ARRAY && current_type->type != TY_INCOMPLETE_ARRAY) ||
-						(current_type->type == TY_ARRAY && c->uint_d >= (constant_uint)current_type->array.length) ||
-						c->uint_d > INT_MAX - 1)
+						(current_type->type == TY_ARRAY && (constant_uint)index >= current_type->array.length) ||
+						index < 0 || index >= INT_MAX / MAX(calculate_size(current_type->children[0]), 1))
 						ERROR(T0->pos, "Invalid array designator for %s.", dbg_type(current_type));
 
-					array_index = c->uint_d;
+					array_index = index;
 					indices = &array_index;
 					n = 1;
 				} else {
@@ -1129,8 +1150,6 @@ static void parse_brace_initializer(struct type **type, struct initializer *init
 
 				if (!expr && !(is_str && type_is_aggregate(current_type))) {
 					expr = parse_assignment_expression();
-					if (!expr)
-						ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(current_type), dbg_token(T0));
 				}
 
 				if (!type_is_aggregate(current_type) || (expr && same_unqualified_type(expr->data_type, current_type))) {
@@ -1186,8 +1205,6 @@ static void parse_value_initializer(struct type **type, struct initializer *init
 	int has_braces = TACCEPT(T_LBRACE);
 
 	struct expr *expr = parse_assignment_expression();
-	if (!expr)
-		ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(*type), dbg_token(T0));
 
 	if (type_is_aggregate(*type) && !same_unqualified_type(expr->data_type, *type))
 		ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(*type)));
@@ -1229,6 +1246,11 @@ struct {
 	struct string_view *names;
 } potentially_tentative;
 
+static void check_object_type(struct type *type) {
+	if (!type_is_complete(type))
+		ERROR(T0->pos, "Object has incomplete type %s.", dbg_type(type));
+}
+
 static int parse_init_declarator(struct specifiers s, int external, int *was_func) {
 	*was_func = 0;
 	int was_abstract = 1, has_symbols = 0;
@@ -1300,6 +1322,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	
 	int has_init = TACCEPT(T_A);
 
+	if (type_is_simple(type, ST_VOID))
+		ERROR(T0->pos, "Object can't have type void.");
+
 	// Handle function definitions first, since they differ a bit from the others.
 	if (type->type == TY_FUNCTION) {
 		if (has_init)
@@ -1319,7 +1344,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	int is_global = 0;
 	int is_tentative = 0;
 
-	if (s.scs.extern_n && has_init)
+	if (s.scs.extern_n && has_init && !external)
 		ERROR(T0->pos, "Extern declaration can't have initializer.");
 
 	if (s.scs.register_n)
@@ -1331,10 +1356,10 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (!s.scs.static_n)
 			is_global = 1;
 
-		if (s.scs.extern_n) {
-			has_definition = 0;
-		} else if (has_init) {
+		if (has_init) {
 			has_definition = 1;
+		} else if (s.scs.extern_n) {
+			has_definition = 0;
 		} else {
 			is_tentative = 1;
 		}
@@ -1380,6 +1405,10 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 				symbol->label.type = type;
 			}
 
+			check_object_type(type);
+			if (type_has_variable_size(type))
+				ERROR(T0->pos, "Variable length array can't have static storage duration.");
+
 			data_register_static_var(name, type, init, is_global, symbol->alignment);
 		} else {
 			if (type_has_variable_size(type)) {
@@ -1393,6 +1422,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 				symbol->type = IDENT_VARIABLE;
 				symbol->variable.type = type;
 
+				if (!(has_init && type->type == TY_INCOMPLETE_ARRAY))
+					check_object_type(type);
+
 				// The initializer can refer to the variable itself.
 				struct node *ptr = ir_allocate_type(type, symbol->alignment);
 				symbol->variable.ptr = ptr;
@@ -1423,15 +1455,7 @@ int parse_declaration(int external) {
 						  &s.as)) {
 		if (TACCEPT(T_KSTATIC_ASSERT)) {
 			TEXPECT(T_LPAR);
-			struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), parse_assignment_expression());
-			struct constant *constant = expression_to_constant(expr);
-			if (!constant)
-				ERROR(T0->pos, "Expresison in _Static_assert must be constant.");
-
-			assert(constant->type == CONSTANT_TYPE);
-
-			if (!type_is_simple(constant->data_type, ST_INT))
-				ERROR(T0->pos, "Invalid _Static_assert type: %s\n", dbg_type(constant->data_type));
+			intmax_t value = expression_to_constant_integer(parse_assignment_expression(), "_Static_assert");
 
 			if (TACCEPT(T_COMMA)) {
 				if (T0->type != T_STRING)
@@ -1440,10 +1464,10 @@ int parse_declaration(int external) {
 				struct string_view msg = T0->str;
 				TNEXT();
 
-				if (constant->uint_d)
+				if (!value)
 					ERROR(T0->pos, "Static assert failed: %.*s\n", msg.len, msg.str);
 			} else {
-				if (constant->uint_d)
+				if (!value)
 					ERROR(T0->pos, "Static assert failed.\n");
 			}
 			TEXPECT(T_RPAR);
@@ -1454,8 +1478,11 @@ int parse_declaration(int external) {
 	}
 
 	int was_func = 0;
-	while (!was_func && parse_init_declarator(s, external, &was_func)) {
-		TACCEPT(T_COMMA);
+	if (parse_init_declarator(s, external, &was_func)) {
+		while (!was_func && TACCEPT(T_COMMA)) {
+			if (!parse_init_declarator(s, external, &was_func))
+				ERROR(T0->pos, "Expected declarator.");
+		}
 	}
 
 	if (!was_func)
@@ -1472,6 +1499,9 @@ void generate_tentative_definitions(void) {
 
 		if (symbol && symbol->is_tentative) {
 			struct type *type = symbols_get_identifier_type(symbol);
+			if (type->type == TY_INCOMPLETE_ARRAY)
+				type = type_array(type->children[0], 1);
+			check_object_type(type);
 			data_register_static_var(name, type, (struct initializer) { 0 }, symbol->is_global, symbol->alignment);
 			symbol->is_tentative = 0;
 		}
diff --git a/src/parser/expression.c b/src/parser/expression.c
index c04f57a..77bc4e5 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -279,6 +279,198 @@ static void cast_conditional(struct expr *expr) {
 	}
 }
 
+static int is_lvalue(struct expr *expr) {
+	switch (expr->type) {
+	case E_SYMBOL:
+	case E_VARIABLE:
+	case E_INDIRECTION:
+	case E_COMPOUND_LITERAL:
+		return 1;
+
+	case E_CONSTANT:
+		return expr->constant.type == CONSTANT_LABEL;
+
+	case E_DOT_OPERATOR:
+		return is_lvalue(expr->member.lhs);
+
+	default:
+		return 0;
+	}
+}
+
+static void check_cast(struct type *from, struct type *to) {
+	if (type_is_simple(to, ST_VOID) ||
+		type_remove_qualifications(from) == type_remove_qualifications(to))
+		return;
+
+	if (!type_is_scalar(from) || !type_is_scalar(to) ||
+		(type_is_pointer(from) && type_is_floating(to)) ||
+		(type_is_floating(from) && type_is_pointer(to)))
+		ERROR(T0->pos, "Can't convert from type %s to type %s.", strdup(dbg_type(from)), strdup(dbg_type(to)));
+}
+
+static void check_call(struct expr *expr) {
+	struct type *callee = expr->call.callee->data_type;
+
+	if (!type_is_pointer(callee) || type_deref(callee)->type != TY_FUNCTION)
+		ERROR(T0->pos, "Can't call something of type %s.", dbg_type(callee));
+
+	struct type *signature = type_deref(callee), *return_type = signature->children[0];
+
+	int named_arguments_count = signature->n - 1;
+	if (!(signature->function.is_variadic ?
+		  named_arguments_count <= expr->call.n_args :
+		  named_arguments_count == expr->call.n_args))
+		ERROR(T0->pos, "Wrong number of arguments.");
+
+	if (!type_is_simple(return_type, ST_VOID) && !type_is_complete(return_type))
+		ERROR(T0->pos, "Call returns incomplete type %s.", dbg_type(return_type));
+
+	for (int i = 0; i < expr->call.n_args; i++) {
+		struct type *type = expr->call.args[i]->data_type;
+
+		if (!type_is_complete(type))
+			ERROR(T0->pos, "Argument has incomplete type %s.", dbg_type(type));
+
+		if (i < named_arguments_count)
+			check_cast(type, signature->children[i + 1]);
+	}
+}
+
+static void check_binary_operator(enum operator_type op, struct expr *lhs, struct expr *rhs) {
+	struct type *a = lhs->data_type, *b = rhs->data_type;
+	int is_valid = 0;
+
+	switch (op) {
+	case OP_ADD:
+	case OP_SUB:
+		is_valid = (type_is_arithmetic(a) && type_is_arithmetic(b)) ||
+			(type_is_pointer(a) && type_is_integer(b)) ||
+			(op == OP_ADD && type_is_integer(a) && type_is_pointer(b)) ||
+			(op == OP_SUB && type_is_pointer(a) && type_is_pointer(b) &&
+			 type_remove_qualifications(type_deref(a)) == type_remove_qualifications(type_deref(b)));
+
+		if ((type_is_pointer(a) && !type_is_complete(type_deref(a))) ||
+			(type_is_pointer(b) && !type_is_complete(type_deref(b))))
+			is_valid = 0;
+		break;
+
+	case OP_MUL:
+	case OP_DIV:
+		is_valid = type_is_arithmetic(a) && type_is_arithmetic(b);
+		break;
+
+	case OP_EQUAL:
+	case OP_NOT_EQUAL:
+		is_valid = (type_is_arithmetic(a) && type_is_arithmetic(b)) ||
+			(type_is_pointer(a) && (type_is_pointer(b) || is_null_pointer_constant(rhs))) ||
+			(type_is_pointer(b) && is_null_pointer_constant(lhs));
+		break;
+
+	case OP_LESS:
+	case OP_GREATER:
+	case OP_LESS_EQ:
+	case OP_GREATER_EQ:
+		is_valid = (type_is_arithmetic(a) && type_is_arithmetic(b)) ||
+			(type_is_pointer(a) && type_is_pointer(b));
+		break;
+
+	default:
+		is_valid = type_is_integer(a) && type_is_integer(b);
+		break;
+	}
+
+	if (!is_valid)
+		ERROR(T0->pos, "Invalid operands of types %s and %s.", strdup(dbg_type(a)), strdup(dbg_type(b)));
+}
+
+// Check the constraints on the types of the operands.
+static void check_operands(struct expr *expr) {
+	struct type *type = expr->args[0] ? expr->args[0]->data_type : NULL;
+
+	switch (expr->type) {
+	case E_CALL:
+		check_call(expr);
+		break;
+
+	case E_CAST:
+		check_cast(expr->cast.arg->data_type, expr->cast.target);
+		break;
+
+	case E_INDIRECTION:
+		if (!type_is_pointer(type))
+			ERROR(T0->pos, "Can't dereference something of type %s.", dbg_type(type));
+		break;
+
+	case E_ADDRESS_OF:
+		if (get_expression_bitfield(expr->args[0]) != -1)
+			ERROR(T0->pos, "Can't take the address of a bit-field.");
+		if (!is_lvalue(expr->args[0]) && type->type != TY_FUNCTION)
+			ERROR(T0->pos, "Can't take the address of something that is not an lvalue.");
+		break;
+
+	case E_UNARY_OP:
+		if (!(expr->unary_op == UOP_BNOT ? type_is_integer(type) : type_is_arithmetic(type)))
+			ERROR(T0->pos, "Invalid operand of type %s.", dbg_type(type));
+		break;
+
+	case E_BINARY_OP:
+		check_binary_operator(expr->binary_op, expr->args[0], expr->args[1]);
+		break;
+
+	case E_CONDITIONAL:
+		if (!type_is_scalar(type))
+			ERROR(T0->pos, "Condition has type %s.", dbg_type(type));
+		break;
+
+	case E_ASSIGNMENT:
+	case E_ASSIGNMENT_OP:
+		if (!is_lvalue(expr->args[0]) || !type_is_complete(type) ||
+			type->type == TY_ARRAY || type->type == TY_VARIABLE_LENGTH_ARRAY)
+			ERROR(T0->pos, "Can't assign to this expression.");
+		if (type->is_const)
+			ERROR(T0->pos, "Can't modify constant variable");
+
+		if (expr->type == E_ASSIGNMENT) {
+			check_cast(expr->args[1]->data_type, type);
+		} else {
+			check_binary_operator(expr->assignment_op.op, expr->args[0], expr->args[1]);
+			if (type_is_pointer(expr->args[1]->data_type))
+				ERROR(T0->pos, "Invalid pointer operand.");
+		}
+		break;
+
+	case E_COMPOUND_LITERAL:
+		if (!type_is_complete(expr->compound_literal.type) || type_has_variable_size(expr->compound_literal.type))
+			ERROR(T0->pos, "Invalid type %s of compound literal.", dbg_type(expr->compound_literal.type));
+		break;
+
+	case E_BUILTIN_VA_START:
+		if (!is_lvalue(expr->va_start_.array))
+			ERROR(T0->pos, "Invalid argument to va_start.");
+		break;
+
+	case E_BUILTIN_VA_ARG:
+		if (!type_is_pointer(expr->va_arg_.v->data_type) ||
+			(abi_info.va_list_is_reference && !is_lvalue(expr->va_arg_.v)))
+			ERROR(T0->pos, "Invalid argument to va_arg.");
+		if (!type_is_complete(expr->va_arg_.t) || type_has_variable_size(expr->va_arg_.t))
+			ERROR(T0->pos, "Invalid type %s in va_arg.", dbg_type(expr->va_arg_.t));
+		break;
+
+	case E_BUILTIN_VA_COPY:
+		if (!type_is_pointer(expr->va_copy_.d->data_type) ||
+			expr->va_copy_.d->data_type != expr->va_copy_.s->data_type ||
+			(!abi_info.va_list_is_reference && !type_is_complete(type_deref(expr->va_copy_.d->data_type))) ||
+			(abi_info.va_list_is_reference && !is_lvalue(expr->va_copy_.d)))
+			ERROR(T0->pos, "Invalid arguments to va_copy.");
+		break;
+
+	default:
+		break;
+	}
+}
+
 // This applies all the necessary transformations to binary operators
 static void fix_binary_operator(struct expr *expr) {
 	if (expr->type != E_BINARY_OP)
@@ -302,8 +494,6 @@ static void fix_binary_operator(struct expr *expr) {
 			expr->type = E_POINTER_DIFF;
 		} else if (lhs_ptr) {
 			expr->type = E_POINTER_SUB;
-		} else if (rhs_ptr) {
-			ICE("Can't subtract with pointer as rhs.");
 		}
 		break;
 
@@ -311,10 +501,6 @@ static void fix_binary_operator(struct expr *expr) {
 		if (!(lhs_ptr || rhs_ptr))
 			return;
 
-		if (lhs_ptr && rhs_ptr) {
-			ICE("Invalid addition of pointers.");
-		}
-
 		if (!lhs_ptr && rhs_ptr) {
 			struct expr *tmp = expr->args[0];
 			expr->args[0] = expr->args[1];
@@ -330,17 +516,6 @@ static void fix_binary_operator(struct expr *expr) {
 		// Expressions of the form ptr == 0 and ptr != 0 are allowed.
 		// But the right hand side must be a null pointer constant.
 		if (lhs_ptr != rhs_ptr) {
-			struct constant *non_ptr = NULL;
-			if (!rhs_ptr)
-				non_ptr = expression_to_constant(expr->args[1]);
-			if (!lhs_ptr)
-				non_ptr = expression_to_constant(expr->args[0]);
-
-			if (!non_ptr || non_ptr->type != CONSTANT_TYPE ||
-				!constant_is_zero(non_ptr)) {
-				ICE("can only compare pointers with pointers or null pointer constant");
-			}
-
 			if (!rhs_ptr)
 				expr->args[1] = expression_cast(expr->args[1], type_pointer(type_simple(ST_VOID)));
 			if (!lhs_ptr)
@@ -353,7 +528,7 @@ static void fix_binary_operator(struct expr *expr) {
 	}
 }
 
-static void fix_assignment_operators(struct expr *expr) {
+static void fix_assignment_operators(struct expr *expr, struct expr *lvalue) {
 	if (expr->type != E_ASSIGNMENT_OP)
 		return;
 
@@ -365,13 +540,8 @@ static void fix_assignment_operators(struct expr *expr) {
 	} else {
 		convert_arithmetic(&expr->args[0], &expr->args[1]);
 	}
-	// Reduce double cast into single cast. Always correct in this case.
-	if (expr->args[0]->type == E_CAST) {
-		if (expr->args[0]->cast.arg->type == E_CAST)
-			expr->args[0]->cast.arg = expr->args[0]->cast.arg->cast.arg;
-
-		expr->args[0] = expr->args[0]->cast.arg;
-	}
+	// The conversions of the left operand only determine the type of the operation.
+	expr->args[0] = lvalue;
 	int lhs_ptr = type_is_pointer(expr->args[0]->data_type);
 
 	if (lhs_ptr && (expr->assignment_op.op == OP_ADD || expr->assignment_op.op == OP_SUB)) {
@@ -388,20 +558,6 @@ static void fix_assignment_operators(struct expr *expr) {
 int evaluate_constant_expression(struct expr *expr,
  								 struct constant *constant);
 
-static void check_const_correctness(struct expr *expr) {
-	switch (expr->type) {
-	case E_ASSIGNMENT:
-	case E_ASSIGNMENT_OP:
-	case E_ASSIGNMENT_POINTER:
-		if (expr->args[0]->data_type->is_const) {
-			ICE("Can't modify constant variable");
-		}
-		break;
-	default:
-		break;
-	}
-}
-
 static struct expr *expr_dot_operator(struct expr *lhs, struct token *name) {
 	int n = 0, *indices;
 	if (!type_search_member(lhs->data_type, name->str, &n, &indices))
@@ -439,6 +595,9 @@ struct expr *expr_new(struct expr expr) {
 		decay_array(&expr.call.callee);
 	}
 
+	check_operands(&expr);
+
+	struct expr *lvalue = expr.args[0];
 	int integer_promotion = does_integer_conversion[expr.type];
 	if (integer_promotion) {
 		for (int i = 0; i < num_args[expr.type]; i++) {
@@ -447,23 +606,14 @@ struct expr *expr_new(struct expr expr) {
 	}
 
 	if (expr.type == E_CALL) {
-		assert(type_is_pointer(expr.call.callee->data_type));
-		struct type *signature = type_deref(expr.call.callee->data_type);
-
-		int named_arguments_count = signature->n - 1;
-		if (!(signature->function.is_variadic ?
-			  named_arguments_count <= expr.call.n_args :
-			  named_arguments_count == expr.call.n_args)) {
-			ERROR(T0->pos, "Wrong number of arguments.");
-		}
-
+		int named_arguments_count = type_deref(expr.call.callee->data_type)->n - 1;
 		for (int i = named_arguments_count; i < expr.call.n_args; i++) {
 			do_default_argument_promotion(&expr.call.args[i]);
 		}
 	}
 	
 	cast_conditional(&expr);
-	fix_assignment_operators(&expr);
+	fix_assignment_operators(&expr, lvalue);
 	fix_binary_operator(&expr);
 
 	expr.data_type = calculate_type(&expr);
@@ -478,8 +628,6 @@ struct expr *expr_new(struct expr expr) {
 		}
 	}
 
-	check_const_correctness(&expr);
-
 	if (!expr.pos.path)
 		expr.pos = T0->pos; // If no position is supplied, at least take something close to it.
 
@@ -501,12 +649,7 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 		if (pos != 0)
 			TEXPECT(T_COMMA);
 
-		struct expr *expr = parse_assignment_expression();
-
-		if (!expr)
-			ERROR(T0->pos, "Expected expression, got %s", dbg_token(T0));
-
-		buffer[pos] = expr;
+		buffer[pos] = parse_assignment_expression();
 	}
 
 	if (pos == MAX_ARGUMENTS)
@@ -521,8 +664,8 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 	*n_args = pos;
 }
 
-struct expr *parse_pratt(int precedence);
-struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
+static struct expr *parse_pratt(int precedence);
+static struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
 
 static struct expr *parse_prefix(void) {
 	if (TACCEPT(T_LPAR)) {
@@ -537,10 +680,7 @@ static struct expr *parse_prefix(void) {
 						.compound_literal = { cast_type, init }
 					});
 			} else {
-				struct expr *rhs = parse_pratt(PREFIX_PREC);
-				if (!rhs)
-					ERROR(T0->pos, "Expected expression");
-				return expression_cast(rhs, cast_type);
+				return expression_cast(parse_pratt(PREFIX_PREC), cast_type);
 			}
 		} else {
 			struct expr *expr = parse_pratt(0);
@@ -581,11 +721,14 @@ static struct expr *parse_prefix(void) {
 			} else {
 				t_push(t);
 				type = parse_pratt(PREFIX_PREC)->data_type;
-			} 
+			}
 		} else {
 			type = parse_pratt(PREFIX_PREC)->data_type;
 		}
 
+		if (!type_is_complete(type))
+			ERROR(T0->pos, "Invalid type %s in sizeof.", dbg_type(type));
+
 		return type_sizeof(type);
 	} else if (TACCEPT(T_KALIGNOF)) {
 		struct type *type = NULL;
@@ -602,6 +745,9 @@ static struct expr *parse_prefix(void) {
 			type = parse_pratt(PREFIX_PREC)->data_type;
 		}
 
+		if (!type_is_complete(type) && type->type != TY_INCOMPLETE_ARRAY)
+			ERROR(T0->pos, "Invalid type %s in _Alignof.", dbg_type(type));
+
 		return type_alignof(type);
 	} else if (T0->type == T_IDENT) {
 		struct symbol_identifier *sym = symbols_get_identifier(T0->str);
@@ -677,8 +823,6 @@ static struct expr *parse_prefix(void) {
 	} else if (TACCEPT(T_KGENERIC)) {
 		TEXPECT(T_LPAR);
 		struct expr *expr = parse_assignment_expression();
-		if (!expr)
-			ERROR(T0->pos, "Expected expression.");
 
 		decay_array(&expr);
 		struct type *match_type = type_make_const(expr->data_type, 0);
@@ -774,6 +918,8 @@ static struct expr *parse_prefix(void) {
 				}
 			});
 		expr = expr_dot_operator(expr, T0);
+		if (!expr)
+			ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
 		TNEXT();
 
 		expr = parse_pratt_with_lhs(0, expr);
@@ -783,12 +929,14 @@ static struct expr *parse_prefix(void) {
 
 		return expression_cast(expr, type_simple(ST_ULONG));
 	} else if (TACCEPT(T_KFUNC)) {
+		if (!get_current_function_name().len)
+			ERROR(T0->pos, "Not currently in a function.");
  		return EXPR_STR(get_current_function_name(), ST_CHAR);
 	}
 	return NULL;
 }
 
-struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs) {
+static struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs) {
 	while (precedence < precedence_get(T0->type, 1)) {
 		int new_prec = precedence_get(T0->type, 0);
 
@@ -894,7 +1042,7 @@ struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs) {
 	return lhs;
 }
 
-struct expr *parse_pratt(int precedence) {
+static struct expr *parse_optional_pratt(int precedence) {
 	struct expr *lhs = parse_prefix();
 
 	if (!lhs)
@@ -903,6 +1051,15 @@ struct expr *parse_pratt(int precedence) {
 	return parse_pratt_with_lhs(precedence, lhs);
 }
 
+static struct expr *parse_pratt(int precedence) {
+	struct expr *expr = parse_optional_pratt(precedence);
+
+	if (!expr)
+		ERROR(T0->pos, "Expected expression, got %s", dbg_token(T0));
+
+	return expr;
+}
+
 struct expr *parse_assignment_expression(void) {
 	return parse_pratt(ASSIGNMENT_PREC);
 }
@@ -911,6 +1068,10 @@ struct expr *parse_expression(void) {
 	return parse_pratt(0);
 }
 
+struct expr *parse_optional_expression(void) {
+	return parse_optional_pratt(0);
+}
+
 // Constant expressions.
 static int pointee_has_fixed_size(struct type *pointer) {
 	struct type *type = type_deref(pointer);
diff --git a/src/parser/expression.h b/src/parser/expression.h
index 3f41a64..2f07a7d 100644
--- a/src/parser/expression.h
+++ b/src/parser/expression.h
@@ -167,6 +167,7 @@ struct expr {
 
 struct expr *parse_assignment_expression(void);
 struct expr *parse_expression(void);
+struct expr *parse_optional_expression(void);
 struct expr *expression_cast(struct expr *expr, struct type *type);
 struct expr *expression_promote(struct expr *expr);
 
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 01a688a..7c0c955 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -264,7 +264,8 @@ static struct evaluated_expression evaluate_indirection(struct expr *expr) {
 }
 
 static struct evaluated_expression evaluate_symbol(struct expr *expr) {
-	assert(expr->symbol->type == IDENT_VARIABLE);
+	if (expr->symbol->type != IDENT_VARIABLE)
+		ERROR(expr->pos, "Parameter used outside of function body.");
 	return (struct evaluated_expression) {
 		.type = EE_POINTER,
 		.is_lvalue = 1,
@@ -450,6 +451,7 @@ static struct evaluated_expression evaluate_compound_literal(struct expr *expr)
 
 	return (struct evaluated_expression) {
 		.type = EE_POINTER,
+		.is_lvalue = 1,
 		.pointer = address,
 	};
 }
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index a84d1dd..8e72fc8 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -53,6 +53,11 @@ int parse_selection_statement(struct jump_blocks *jump_blocks);
 int parse_iteration_statement(struct jump_blocks *jump_blocks);
 int parse_jump_statement(struct jump_blocks *jump_blocks);
 
+static void expect_statement(struct jump_blocks *jump_blocks) {
+	if (!parse_statement(jump_blocks))
+		ERROR(T0->pos, "Expected statement, got %s", dbg_token(T0));
+}
+
 int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 	if (T0->type == T_IDENT &&
 		T1->type == T_COLON) {
@@ -85,15 +90,15 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		return 1;
 	} else if (TACCEPT(T_KCASE)) {
 		struct expr *value = parse_expression();
-		if (!value)
-			ERROR(T0->pos, "Expected expression");
+		if (!type_is_integer(value->data_type))
+			ERROR(T0->pos, "Case label has type %s.", dbg_type(value->data_type));
 		TEXPECT(T_COLON);
 		struct node *case_control = jump_blocks->case_control;
 		if (!case_control)
 			ERROR(T0->pos, "Not currently in a switch statement");
 
 		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->control_type));
-		if (!constant)
+		if (!constant || constant->type != CONSTANT_TYPE)
 			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
 
 		struct node *block_case = new_block(),
@@ -145,7 +150,7 @@ int parse_compound_statement(struct jump_blocks *jump_blocks) {
 }
 
 int parse_expression_statement(void) {
-	struct expr *expr = parse_expression();
+	struct expr *expr = parse_optional_expression();
 	if (!expr)
 		return 0;
 	TEXPECT(T_SEMI_COLON);
@@ -160,9 +165,6 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	TEXPECT(T_LPAR);
 	struct expr *condition = parse_expression();
 
-	if (!condition)
-		ERROR(T0->pos, "Expected expression");
-
 	condition = expression_promote(condition);
 	if (!type_is_integer(condition->data_type))
 		ERROR(T0->pos, "Controlling expression of switch does not have integer type");
@@ -186,7 +188,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
-	parse_statement(&new_jump_blocks);
+	expect_statement(&new_jump_blocks);
 
 	// A continue statement belongs to the enclosing loop.
 	jump_blocks->block_continue = new_jump_blocks.block_continue;
@@ -207,8 +209,6 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 	if (TACCEPT(T_KIF)) {
 		TEXPECT(T_LPAR);
 		struct expr *expr = parse_expression();
-		if(!expr)
-			ERROR(T0->pos, "Expected expression in if condition");
 
 		struct node *condition = expression_to_condition(expr);
 
@@ -218,14 +218,14 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 
 		ir_block_start(block_true);
 
-		parse_statement(jump_blocks);
+		expect_statement(jump_blocks);
 
 		if (TACCEPT(T_KELSE)) {
 			struct node *block_end = new_block();
 			ir_goto(block_end);
 			ir_block_start(block_false);
 
-			parse_statement(jump_blocks);
+			expect_statement(jump_blocks);
 
 			ir_goto(block_end);
 			ir_block_start(block_end);
@@ -260,7 +260,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
+	expect_statement(&new_jump_blocks);
 	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_control);
@@ -270,8 +270,6 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	TEXPECT(T_LPAR);
 
 	struct expr *control_expression = parse_expression();
-	if (!control_expression)
-		ERROR(T0->pos, "Expected expression");
 
 	struct node *control_variable = expression_to_condition(control_expression);
 
@@ -312,8 +310,6 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	ir_block_start(block_control);
 
 	struct expr *control_expression = parse_expression();
-	if (!control_expression)
-		ERROR(T0->pos, "Expected expression");
 
 	TEXPECT(T_RPAR);
 
@@ -330,7 +326,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
+	expect_statement(&new_jump_blocks);
 	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(new_jump_blocks.block_continue);
@@ -383,7 +379,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	ir_goto(block_control);
 	ir_block_start(block_control);
 
-	struct expr *condition = parse_expression();
+	struct expr *condition = parse_optional_expression();
 	if (condition) {
 		struct node *condition_variable = expression_to_condition(condition);
 
@@ -399,7 +395,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	ir_block_start(block_advance);
 
-	struct expr *advance_expression = parse_expression();
+	struct expr *advance_expression = parse_optional_expression();
 	if (advance_expression) // Can be empty
 		expression_to_void(advance_expression);
 
@@ -411,7 +407,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_advance;
-	parse_statement(&new_jump_blocks);
+	expect_statement(&new_jump_blocks);
 	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_advance);
@@ -436,7 +432,7 @@ struct type *current_ret_val = NULL;
 int parse_jump_statement(struct jump_blocks *jump_blocks) {
 	if (TACCEPT(T_KGOTO)) {
 		struct string_view label = T0->str;
-		TNEXT();
+		TEXPECT(T_IDENT);
 		TEXPECT(T_SEMI_COLON);
 		for (unsigned i = 0; i < function_scope.size; i++) {
 			if (sv_cmp(label, function_scope.labels[i].label)) {
@@ -461,6 +457,8 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		ir_block_start(new_block());
 		return 1;
 	} else if (TACCEPT(T_KCONTINUE)) {
+		if (!jump_blocks->block_continue)
+			ERROR(T0->pos, "Not currently in a loop");
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
@@ -470,6 +468,8 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		TEXPECT(T_SEMI_COLON);
 		return 1;
 	} else if (TACCEPT(T_KBREAK)) {
+		if (!jump_blocks->block_break)
+			ERROR(T0->pos, "Not currently in a loop or switch statement");
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
@@ -479,13 +479,15 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		TEXPECT(T_SEMI_COLON);
 		return 1;
 	} else if (TACCEPT(T_KRETURN)) {
-		struct expr *expr = parse_expression();
+		struct expr *expr = parse_optional_expression();
 		TEXPECT(T_SEMI_COLON);
 
 		struct evaluated_expression value = { .type = EE_VOID };
 
 		if (expr)
 			value = expression_evaluate(expression_cast(expr, current_ret_val));
+		else if (!type_is_simple(current_ret_val, ST_VOID))
+			ERROR(T0->pos, "Expected expression in return statement");
 
 		struct node *reg_state = NULL;
 		abi_expr_return(get_current_function(), &value, &reg_state);
@@ -519,6 +521,12 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	current_function = name;
 	struct symbol_identifier *symbol = symbols_get_identifier_global(name);
 
+	for (int i = 0; i < type->n; i++) {
+		if (!type_is_complete(type->children[i]) &&
+			!(i == 0 && type_is_simple(type->children[i], ST_VOID)))
+			ERROR(T0->pos, "Function definition with incomplete type %s.", dbg_type(type->children[i]));
+	}
+
 	function_scope.size = 0;
 
 	current_ret_val = type->children[0];
@@ -535,12 +543,18 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	struct node *func = new_function(sv_to_str(name), global);
 	abi_expr_function(func, type, args);
 
-	type_evaluate_vla(type);
+	for (int i = 0; i < type->n; i++)
+		type_evaluate_vla(type->children[i]);
 
 	struct jump_blocks jump_blocks = { 0 };
 	parse_compound_statement(&jump_blocks);
 
-	if (sv_string_cmp(name, "main")) {
+	for (unsigned i = 0; i < function_scope.size; i++) {
+		if (!function_scope.labels[i].used)
+			ERROR(T0->pos, "Label never declared %.*s", function_scope.labels[i].label.len, function_scope.labels[i].label.str);
+	}
+
+	if (sv_string_cmp(name, "main") && type_is_simple(current_ret_val, ST_INT)) {
 		struct node *b = get_current_block();
 		if (!b->block_info.end) {
 			struct node *reg_state = NULL;
@@ -554,5 +568,7 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 		ir_return(reg_state);
 	}
 	
+	current_function = (struct string_view) { 0 };
+
 	symbols_pop_scope();
 }
diff --git a/src/types.c b/src/types.c
index c573260..5934b2e 100644
--- a/src/types.c
+++ b/src/types.c
@@ -8,6 +8,7 @@
 #include "types.h"
 #include "common.h"
 #include "parser/expression_to_ir.h"
+#include "parser/function_parser.h"
 #include <abi/abi.h>
 
 static int compare_types(struct type *a, struct type **a_children,
@@ -294,6 +295,22 @@ int type_is_arithmetic(struct type *type) {
 		type_is_floating(type);
 }
 
+int type_is_scalar(struct type *type) {
+	return type_is_arithmetic(type) || type_is_pointer(type);
+}
+
+// Types of objects with known size. See 6.2.5p1.
+int type_is_complete(struct type *type) {
+	switch (type->type) {
+	case TY_SIMPLE: return type->simple != ST_VOID;
+	case TY_STRUCT: return type->struct_data->is_complete;
+	case TY_POINTER: return 1;
+	case TY_ARRAY:
+	case TY_VARIABLE_LENGTH_ARRAY: return type_is_complete(type->children[0]);
+	default: return 0;
+	}
+}
+
 int type_is_pointer(struct type *type) {
 	return type->type == TY_POINTER;
 }
@@ -411,10 +428,15 @@ struct expr *type_alignof(struct type *type) {
 }
 
 void type_evaluate_vla(struct type *type) {
-	for (int i = 0; i < type->n; i++)
+	// Parameters of function prototypes are not evaluated.
+	for (int i = 0; i < (type->type == TY_FUNCTION ? 1 : type->n); i++)
 		type_evaluate_vla(type->children[i]);
 
 	if (type->type == TY_VARIABLE_LENGTH_ARRAY) {
+		if (!type->variable_length_array.length_expr)
+			ERROR_NO_POS("[*] is only allowed in function prototypes.");
+		if (!get_current_function_name().len)
+			ERROR_NO_POS("Variable length array outside of function.");
 		if (!type->variable_length_array.is_evaluated) {
 			type->variable_length_array.length_var = expression_to_size_t(type->variable_length_array.length_expr);
 		}
@@ -423,11 +445,11 @@ void type_evaluate_vla(struct type *type) {
 }
 
 int type_contains_unevaluated_vla(struct type *type) {
-	for (int i = 0; i < type->n; i++)
+	for (int i = 0; i < (type->type == TY_FUNCTION ? 1 : type->n); i++)
 		if (type_contains_unevaluated_vla(type->children[i]))
 			return 1;
 
-	return type->type == TY_VARIABLE_LENGTH_ARRAY && type->variable_length_array.is_evaluated;
+	return type->type == TY_VARIABLE_LENGTH_ARRAY && !type->variable_length_array.is_evaluated;
 }
 
 // See 6.2.7.
diff --git a/src/types.h b/src/types.h
index 33376c9..bb430f7 100644
--- a/src/types.h
+++ b/src/types.h
@@ -152,6 +152,8 @@ int type_is_arithmetic(struct type *type);
 int type_is_floating(struct type *type);
 int type_is_integer(struct type *type);
 int type_is_pointer(struct type *type);
+int type_is_scalar(struct type *type);
+int type_is_complete(struct type *type);
 int type_is_simple(struct type *type, enum simple_type st);
 int type_is_aggregate(struct type *type);
 
-- 
2.43.0


From 25869b7024ed83d57ff9447076cf879b871fa1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:08 +0000
Subject: [PATCH 42/66] fix: preprocessor: unterminated macro calls and
 comments, comments ending in **/, wide constants in #if, surrogate pairs,
 alignment of wide strings, unreadable files

---
 src/codegen/rodata.c              |  10 ++-
 src/codegen/rodata.h              |   2 +-
 src/common.c                      |  44 +++-------
 src/common.h                      |   4 +-
 src/escape_sequence.c             |  12 ++-
 src/escape_sequence.h             |   1 +
 src/ir/export_dot.c               |   6 +-
 src/main.c                        |   7 +-
 src/parser/expression.c           |   6 +-
 src/parser/expression.h           |   2 +-
 src/preprocessor/input.c          |  19 +++--
 src/preprocessor/macro_expander.c |   8 +-
 src/preprocessor/string_concat.c  | 135 ++++++++++++++++--------------
 src/preprocessor/tokenizer.c      |  52 ++++++++----
 14 files changed, 172 insertions(+), 136 deletions(-)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 0107992..65ac9ae 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -20,6 +20,7 @@ struct entry {
 	} type;
 	struct string_view name;
 	label_id id;
+	int alignment;
 };
 
 static struct entry *entries = NULL;
@@ -43,8 +44,10 @@ static label_id label_register(enum entry_type type, struct string_view str) {
 	return id;
 }
 
-label_id rodata_register(struct string_view str) {
-	return label_register(ENTRY_STR, str);
+label_id rodata_register(struct string_view str, int alignment) {
+	label_id id = label_register(ENTRY_STR, str);
+	entries[id].alignment = MAX(entries[id].alignment, alignment);
+	return id;
 }
 
 void rodata_get_label(label_id id, int n, char buffer[]) {
@@ -69,6 +72,9 @@ void rodata_codegen(void) {
 		if (entries[i].type != ENTRY_STR)
 			continue;
 
+		if (entries[i].alignment > 1)
+			asm_align(entries[i].alignment);
+
 		asm_label(0, entries[i].id);
 
 		asm_string(entries[i].name);
diff --git a/src/codegen/rodata.h b/src/codegen/rodata.h
index 1dfc83d..bd04f46 100644
--- a/src/codegen/rodata.h
+++ b/src/codegen/rodata.h
@@ -5,7 +5,7 @@
 
 typedef int label_id;
 
-label_id rodata_register(struct string_view str);
+label_id rodata_register(struct string_view str, int alignment);
 label_id register_label_name(struct string_view str);
 label_id register_label(void);
 
diff --git a/src/common.c b/src/common.c
index 7b9cfcc..a2a2ab5 100644
--- a/src/common.c
+++ b/src/common.c
@@ -49,48 +49,28 @@ int round_up_to_nearest(int num, int div) {
 }
 
 intmax_t character_constant_to_int(struct string_view str) {
-	intmax_t constant = 0;
+	if (str.len == 1)
+		return (signed char)str.str[0];
 
-	for (int i = 0; i < str.len; i++) {
-		constant <<= 8; // TODO: UB on overflow?
-		constant |= str.str[i];
-	}
-
-	return constant;
-}
-
-intmax_t character_constant_wchar_to_int(struct string_view str) {
-	assert(str.len % 4 == 0);
-	intmax_t constant = 0;
+	uint32_t constant = 0;
 
-	for (int i = 0; i < str.len; i += 4) {
-		constant <<= 32; // TODO: UB on overflow?
-		constant |= (str.str[i] & 0xff) |
-			((str.str[i + 1] & 0xff) << 8) |
-			((str.str[i + 2] & 0xff) << 16) |
-			((str.str[i + 3] & 0xff) << 24);
-	}
+	for (int i = 0; i < str.len; i++)
+		constant = (constant << 8) | (unsigned char)str.str[i];
 
-	return constant;
+	return (int32_t)constant;
 }
 
-intmax_t character_constant_char16_to_int(struct string_view str) {
-	assert(str.len % 2 == 0);
-	intmax_t constant = 0;
+intmax_t character_constant_wide_to_int(struct string_view str, int unit_size) {
+	assert(str.len >= unit_size && str.len % unit_size == 0);
+	uint32_t constant = 0;
 
-	for (int i = 0; i < str.len; i += 2) {
-		constant <<= 16; // TODO: UB on overflow?
-		constant |= (str.str[i] & 0xff) |
-			((str.str[i + 1] & 0xff) << 8);
-	}
+	// If there are many characters, it is the last one that counts.
+	for (int i = 0; i < unit_size; i++)
+		constant |= (uint32_t)(unsigned char)str.str[str.len - unit_size + i] << (8 * i);
 
 	return constant;
 }
 
-intmax_t character_constant_char32_to_int(struct string_view str) {
-	return character_constant_wchar_to_int(str);
-}
-
 uint64_t gen_mask(unsigned char left_pad, unsigned char right_pad) {
     uint64_t start = ~0;
 
diff --git a/src/common.h b/src/common.h
index 56ebf52..37bd075 100644
--- a/src/common.h
+++ b/src/common.h
@@ -43,9 +43,7 @@ char *strdup(const char *s);
 uint64_t gen_mask(unsigned char left_pad, unsigned char right_pad);
 
 intmax_t character_constant_to_int(struct string_view str);
-intmax_t character_constant_wchar_to_int(struct string_view str);
-intmax_t character_constant_char16_to_int(struct string_view str);
-intmax_t character_constant_char32_to_int(struct string_view str);
+intmax_t character_constant_wide_to_int(struct string_view str, int unit_size);
 
 void write_8(uint8_t *data, uint64_t value);
 void write_16(uint8_t *data, uint64_t value);
diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index dc9911f..1678cbc 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -7,24 +7,28 @@
 #include <limits.h>
 
 int escape_sequence_read(uint32_t *out, const char **start, int n) {
-	const char *s = *start;
+	const char *s = *start, *end = s + n;
 
 	if (n == 0 || *s != '\\')
 		return 0;
 
 	s++;
+	if (s == end)
+		return -1;
 
 	if (is_octal(*s)) {
 		uint32_t result = 0;
-		for (int i = 0; i < 3 && i < n && is_octal(*s); i++, s++) {
+		for (int i = 0; i < 3 && s < end && is_octal(*s); i++, s++) {
 			result *= 8;
 			result += char_to_int(*s);
 		}
 		*out = result;
 	} else if (*s == 'x') {
 		s++;
+		if (s == end || !is_hexadecimal(*s))
+			return -1;
 		uint32_t result = 0;
-		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
+		for (; s < end && is_hexadecimal(*s); s++) {
 			result *= 16;
 			result += char_to_int(*s);
 		}
@@ -43,7 +47,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 		case 't': *out = '\t'; break;
 		case 'v': *out = '\v'; break;
 
-		default: ICE("Invalid escape sequence \\%c", *s);
+		default: return -1;
 		}
 
 		s++;
diff --git a/src/escape_sequence.h b/src/escape_sequence.h
index ea3c17f..357a6fb 100644
--- a/src/escape_sequence.h
+++ b/src/escape_sequence.h
@@ -3,6 +3,7 @@
 
 #include <stdint.h>
 
+// Returns 1 if there is an escape sequence, 0 if not, and -1 if it is invalid.
 int escape_sequence_read(uint32_t *out, const char **start, int n);
 void character_to_escape_sequence(char character, char output[static 5], int allow_compilcated_escape);
 
diff --git a/src/ir/export_dot.c b/src/ir/export_dot.c
index 5efd314..828077f 100644
--- a/src/ir/export_dot.c
+++ b/src/ir/export_dot.c
@@ -1,6 +1,7 @@
 #include "export_dot.h"
 #include "ir.h"
 
+#include <common.h>
 #include <debug.h>
 
 #include <stdio.h>
@@ -59,6 +60,8 @@ static void add_recursive(struct node *start) {
 
 void export_dot(const char *path) {
 	fp = fopen(path, "w");
+	if (!fp)
+		ICE("Could not open file \"%s\"", path);
 	fprintf(fp, "digraph graphname {\n");
 
 	int count = 0;
@@ -104,7 +107,8 @@ void export_dot(const char *path) {
 		/* add_node(node); */
 	}
 
-	add_recursive(first_function);
+	if (first_function)
+		add_recursive(first_function);
 
 	fprintf(fp, "}\n");
 	fclose(fp);
diff --git a/src/main.c b/src/main.c
index 0c7f514..b69a368 100644
--- a/src/main.c
+++ b/src/main.c
@@ -62,7 +62,7 @@ static struct string_view get_basename(const char *path) {
 }
 
 static int is_ext_file(struct string_view view, char ext) {
-	return view.str[view.len - 2] == '.' &&
+	return view.len >= 2 && view.str[view.len - 2] == '.' &&
 		view.str[view.len - 1] == ext;
 }
 
@@ -279,7 +279,7 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 		add_definition(arguments->defines[i]);
 
 	for (int i = 0; i < arguments->n_undefine; i++)
-		NOTIMP();
+		define_remove(arguments->undefines[i]);
 
 	if (arguments->flag_MD)
 		preprocessor_write_dependencies();
@@ -342,7 +342,8 @@ int main(int argc, char **argv) {
 		if (is_ext_file(basename, 'c')) {
 			compile_file(arguments.operands[i], &arguments);
 		} else if (is_ext_file(basename, 'o')) {
-			assert(!(arguments.flag_S || arguments.flag_c));
+			if (!will_link)
+				ERROR_NO_POS("Can't compile %s.", arguments.operands[i]);
 			struct object *object = elf_read_object(arguments.operands[i]);
 			if (!object)
 				NOTIMP();
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 77bc4e5..5ee4b10 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -811,15 +811,15 @@ static struct expr *parse_prefix(void) {
 	} else if (T0->type == T_CHARACTER_CONSTANT_WCHAR) {
 		struct string_view str = T0->str;
 		TNEXT();
-		return EXPR_INTEGER(abi_info.wchar_type, character_constant_wchar_to_int(str));
+		return EXPR_INTEGER(abi_info.wchar_type, character_constant_wide_to_int(str, 4));
 	} else if (T0->type == T_CHARACTER_CONSTANT_CHAR16) {
 		struct string_view str = T0->str;
 		TNEXT();
-		return EXPR_INTEGER(CHAR16_TYPE, character_constant_char16_to_int(str));
+		return EXPR_INTEGER(CHAR16_TYPE, character_constant_wide_to_int(str, calculate_size(type_simple(CHAR16_TYPE))));
 	} else if (T0->type == T_CHARACTER_CONSTANT_CHAR32) {
 		struct string_view str = T0->str;
 		TNEXT();
-		return EXPR_INTEGER(CHAR32_TYPE, character_constant_char32_to_int(str));
+		return EXPR_INTEGER(CHAR32_TYPE, character_constant_wide_to_int(str, calculate_size(type_simple(CHAR32_TYPE))));
 	} else if (TACCEPT(T_KGENERIC)) {
 		TEXPECT(T_LPAR);
 		struct expr *expr = parse_assignment_expression();
diff --git a/src/parser/expression.h b/src/parser/expression.h
index 2f07a7d..25d2150 100644
--- a/src/parser/expression.h
+++ b/src/parser/expression.h
@@ -40,7 +40,7 @@ struct expr *expr_new(struct expr expr);
 			.constant = {												\
 				.type = CONSTANT_LABEL,									\
 				.data_type = type_array(type_simple(CHAR_TYPE), (STR).len / calculate_size(type_simple(CHAR_TYPE))), \
-				.label = {rodata_register(STR), .offset = 0}			\
+				.label = {rodata_register(STR, calculate_size(type_simple(CHAR_TYPE))), .offset = 0}			\
 			}})
 
 #define EXPR_INT(I) expr_new((struct expr) {							\
diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 77a5349..be6061b 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -4,6 +4,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <string.h>
 
 static size_t paths_size = 0, paths_cap;
 static const char **paths = NULL;
@@ -12,13 +13,21 @@ static const char **paths = NULL;
 static struct string_set disabled_headers;
 
 static struct input input_create(const char *path, FILE *fp) {
-	fseek(fp, 0, SEEK_END);
-	size_t size = ftell(fp);
-	rewind(fp);
+	char *contents = NULL;
+	size_t size = 0, capacity = 0;
+
+	do {
+		capacity = MAX(capacity * 2, 1024);
+		contents = cc_realloc(contents, capacity);
+		size += fread(contents + size, 1, capacity - size - 1, fp);
+	} while (size == capacity - 1);
+
+	if (ferror(fp))
+		ERROR_NO_POS("Could not read file \"%s\"", path);
 
-	char *contents = cc_malloc(size + 1);
-	fread(contents, size, 1, fp);
 	contents[size] = '\0';
+	if (strlen(contents) != size)
+		ERROR_NO_POS("File \"%s\" contains a null character", path);
 
 	return (struct input) { .path = path, .contents = contents };
 }
diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 2b7342e..46e4098 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -242,12 +242,14 @@ static struct token *input_buffer_top(int input) {
 }
 
 // Returns true if done.
-static int input_buffer_parse_argument(struct token_list *tl, int ignore_comma, int input) {
+static int input_buffer_parse_argument(struct token_list *tl, int ignore_comma, int input, struct position pos) {
 	int depth = 1;
 	*tl = (struct token_list) {0};
 	struct token t;
 	do {
 		t = input_buffer_take(input);
+		if (t.type == T_EOI)
+			ERROR(pos, "Unterminated macro call");
 		if(t.type == T_LPAR) {
 			depth++;
 		} else if(t.type == T_RPAR) {
@@ -324,7 +326,7 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 
 		int finished = 0;
 		for (int i = 0; i < n_args; i++) {
-			if (input_buffer_parse_argument(&arguments[i], 0, input)) {
+			if (input_buffer_parse_argument(&arguments[i], 0, input, lpar.pos)) {
 				finished = 1;
 				if (i != n_args - 1)
 					ERROR(lpar.pos, "Wrong number of arguments to macro");
@@ -334,7 +336,7 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 
 		if (def->vararg && !finished) {
 			vararg_included = 1;
-			if (!input_buffer_parse_argument(&vararg, 1, input)) {
+			if (!input_buffer_parse_argument(&vararg, 1, input, lpar.pos)) {
 				ERROR(lpar.pos, "__VA_ARGS__ Not end of input");
 			}
 		}
diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index 6976b65..d845e51 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -2,9 +2,11 @@
 #include "macro_expander.h"
 #include "tokenizer.h"
 
+#include <abi/abi.h>
 #include <common.h>
 #include <utf8.h>
 #include <escape_sequence.h>
+#include <types.h>
 
 #include <assert.h>
 
@@ -43,54 +45,74 @@ static struct string_view buffer_get(void) {
 	return ret;
 }
 
-static uint32_t take_utf8(struct string_view *input) {
+static int unit_size(enum string_type type) {
+	switch (type) {
+	case STRING_L:
+	case STRING_U_LARGE: return 4;
+	case STRING_U_SMALL: return 2;
+	default: return 1;
+	}
+}
+
+static uint32_t take_utf8(struct string_view *input, struct position pos) {
 	assert(input->len);
 
+	unsigned char first = input->str[0];
+	int length = (first & 0x80) == 0 ? 1 : (first & 0xE0) == 0xC0 ? 2 :
+		(first & 0xF0) == 0xE0 ? 3 : (first & 0xF8) == 0xF0 ? 4 : 0;
+
+	if (length == 0 || length > input->len)
+		ERROR(pos, "Incorrectly encoded UTF-8");
+	for (int i = 1; i < length; i++)
+		if ((input->str[i] & 0xC0) != 0x80)
+			ERROR(pos, "Incorrectly encoded UTF-8");
+
 	const char *advance = input->str;
 	uint32_t codepoint = utf8_decode(&advance);
 	sv_tail(input, advance - input->str);
 
+	if (codepoint > 0x10ffff || (codepoint >= 0xd800 && codepoint <= 0xdfff))
+		ERROR(pos, "Incorrectly encoded UTF-8");
+
 	return codepoint;
 }
 
+static void buffer_write_unit(uint32_t unit, int size) {
+	for (int i = 0; i < size; i++)
+		buffer_write((unit >> (8 * i)) & 0xff);
+}
+
 static int escape_char_to_buffer(struct string_view *input,
 								 char end_char,
-								 enum string_type type) {
+								 enum string_type type,
+								 struct position pos) {
 	if (input->len == 0 || input->str[0] == end_char)
 		return 0;
 
 	uint32_t character;
+	int size = unit_size(type);
 	const char *advance = input->str;
-	if (escape_sequence_read(&character, &advance, input->len)) {
+	int escape = escape_sequence_read(&character, &advance, input->len);
+
+	if (escape == -1) {
+		ERROR(pos, "Invalid escape sequence");
+	} else if (escape) {
 		sv_tail(input, advance - input->str);
+	} else if (size == 1) {
+		character = input->str[0];
+		sv_tail(input, 1);
 	} else {
-		if (type == STRING_L || type == STRING_U_LARGE ||
-			type == STRING_U_SMALL) {
-			character = take_utf8(input);
-		} else {
-			character = input->str[0];
-			sv_tail(input, 1);
+		character = take_utf8(input, pos);
+
+		if (size == 2 && character > 0xffff) {
+			// Needs a pair of surrogates.
+			character -= 0x10000;
+			buffer_write_unit(0xd800 + (character >> 10), size);
+			character = 0xdc00 + (character & 0x3ff);
 		}
 	}
 
-	switch (type) {
-	case STRING_DEFAULT:
-	case STRING_U8:
-		buffer_write(character);
-		break;
-	case STRING_L:
-	case STRING_U_LARGE:
-		// TODO: Make this actually decode character
-		buffer_write(character & 0xff);
-		buffer_write((character >> 8) & 0xff);
-		buffer_write((character >> 16) & 0xff);
-		buffer_write((character >> 24) & 0xff);
-		break;
-	case STRING_U_SMALL:
-		buffer_write(character & 0xff);
-		buffer_write((character >> 8) & 0xff);
-		break;
-	}
+	buffer_write_unit(character, size);
 
 	return 1;
 }
@@ -113,7 +135,7 @@ static enum string_type take_string_prefix(struct string_view *input) {
 	return STRING_DEFAULT;
 }
 
-static void escape_string_to_buffer(struct string_view input, enum string_type type) {
+static void escape_string_to_buffer(struct string_view input, enum string_type type, struct position pos) {
 	assert(input.len);
 
 	char end_char = input.str[0];
@@ -122,14 +144,18 @@ static void escape_string_to_buffer(struct string_view input, enum string_type t
 
 	sv_tail(&input, 1);
 
-	while (escape_char_to_buffer(&input, end_char, type));
+	while (escape_char_to_buffer(&input, end_char, type, pos));
 
-	if (!(input.len && input.str[0] == end_char)) {
-		printf("Left over: \"%.*s\"\n", input.len, input.str);
-	}
 	assert(input.len && input.str[0] == end_char);
 }
 
+static void character_constant_to_buffer(struct token *t, enum string_type type) {
+	buffer_start();
+	escape_string_to_buffer(t->str, type, t->pos);
+	if (buffer_size == 0)
+		ERROR(t->pos, "Empty character constant");
+}
+
 struct token string_concat_next(void) {
 	static struct token prev = { 0 };
 
@@ -176,34 +202,17 @@ struct token string_concat_next(void) {
 
 		buffer_start();
 		for (unsigned i = 0; i < string_tokens_size; i++)
-			escape_string_to_buffer(string_tokens[i].str, combined_type);
+			escape_string_to_buffer(string_tokens[i].str, combined_type, string_tokens[i].pos);
 		struct token ret = string_tokens[0];
 
+		buffer_write_unit(0, unit_size(combined_type));
+
 		switch (combined_type) {
 		case STRING_DEFAULT:
-		case STRING_U8:
-			ret.type = T_STRING;
-			buffer_write('\0');
-			break;
-		case STRING_U_LARGE:
-			ret.type = T_STRING_CHAR32;
-			buffer_write('\0');
-			buffer_write('\0');
-			buffer_write('\0');
-			buffer_write('\0');
-			break;
-		case STRING_U_SMALL:
-			ret.type = T_STRING_CHAR16;
-			buffer_write('\0');
-			buffer_write('\0');
-			break;
-		case STRING_L:
-			ret.type = T_STRING_WCHAR;
-			buffer_write('\0');
-			buffer_write('\0');
-			buffer_write('\0');
-			buffer_write('\0');
-			break;
+		case STRING_U8: ret.type = T_STRING; break;
+		case STRING_U_LARGE: ret.type = T_STRING_CHAR32; break;
+		case STRING_U_SMALL: ret.type = T_STRING_CHAR16; break;
+		case STRING_L: ret.type = T_STRING_WCHAR; break;
 		}
 
 		ret.str = buffer_get();
@@ -218,8 +227,7 @@ struct token string_concat_next(void) {
 		if (type == STRING_U8)
 			ERROR(t.pos, "Can't have character constant with u8 prefix.");
 
-		buffer_start();
-		escape_string_to_buffer(t.str, type);
+		character_constant_to_buffer(&t, type);
 		t.str = buffer_get();
 
 		switch (type) {
@@ -244,8 +252,7 @@ struct token string_concat_next(void) {
 
 intmax_t escaped_character_constant_to_int(struct token t) {
 	enum string_type type = take_string_prefix(&t.str);
-	buffer_start();
-	escape_string_to_buffer(t.str, type);
+	character_constant_to_buffer(&t, type);
 
 	// No need to call buffer_get(), since we do not need
 	// a permanent string_view.
@@ -254,5 +261,11 @@ intmax_t escaped_character_constant_to_int(struct token t) {
 		.str = buffer
 	};
 
-	return character_constant_to_int(tmp_view);
+	if (type == STRING_DEFAULT)
+		return character_constant_to_int(tmp_view);
+
+	uint32_t value = character_constant_wide_to_int(tmp_view, unit_size(type));
+	if (type == STRING_L)
+		return abi_info.wchar_type == ST_INT ? (int32_t)value : (uint16_t)value;
+	return value;
 }
diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index e8c1f6e..b683029 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -10,6 +10,7 @@ static char c;
 static struct position pos;
 static const char *str;
 static int needs_escape_sequences_removed, needs_digit_separator_removed;
+static int invalid_universal_character_name;
 
 enum {
 	EQ_UTF8 = 0,
@@ -40,6 +41,10 @@ static int line_splice_length(const char *s) {
 }
 
 static void next_char(void) {
+	// Stay at the end of the input.
+	if (c == EQ_NULL)
+		return;
+
 	if (line_splice_length(str)) {
 		str += line_splice_length(str);
 		pos.line++;
@@ -89,9 +94,17 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 					codepoint |= c - 'a' + 10;
 				else if (c >= 'A' && c <= 'F')
 					codepoint |= c - 'A' + 10;
-				else
-					ERROR(pos, "Invalid universal character name in %.*s", len,
-					      initial_pos);
+				else {
+					// Only an error if the token is used.
+					invalid_universal_character_name = 1;
+					return sv_from_str(ret_str);
+				}
+			}
+
+			if ((codepoint < 0xa0 && codepoint != '$' && codepoint != '@' && codepoint != '`') ||
+			    (codepoint >= 0xd800 && codepoint <= 0xdfff) || codepoint > 0x10ffff) {
+				invalid_universal_character_name = 1;
+				return sv_from_str(ret_str);
 			}
 
 			char encoded[4];
@@ -134,14 +147,17 @@ static void parse_number(void) {
 			if ((c == '+' || c == '-'))
 				next_char();
 		} else if (c == '\'') {
+			const char *s = str;
+			while (line_splice_length(s))
+				s += line_splice_length(s);
+			char next = eq_table[(unsigned char)*s];
+			if (next != '8' && next != EQ_DECIMAL && next != EQ_ALPHA &&
+				next != 'u' && next != 'U' && next != EQ_EXPONENT && next != 'L')
+				break;
+
+			needs_digit_separator_removed = 1;
+			next_char();
 			next_char();
-			if (c == '8' || c == EQ_DECIMAL || c == EQ_ALPHA ||
-				c == 'u' || c == 'U' || c == 'L') {
-				needs_digit_separator_removed = 1;
-				next_char();
-			} else {
-				ERROR(pos, "Expected digit or non-digit after ' separator.");
-			}
 		} else if (c == EQ_DECIMAL || c == '8' || c == EQ_ALPHA || c == 'u' ||
 		           c == 'U' || c == EQ_EXPONENT || c == 'L' || c == '.') {
 			next_char();
@@ -231,16 +247,15 @@ restart:
 			goto restart;
 
 		case '*':
+			next_char();
 			for (;;) {
+				int star = c == '*';
+				if (c == EQ_NULL)
+					ERROR(next.pos, "Comment reached end of file");
 				next_char();
-				if (c == '*') {
+				if (star && c == '/') {
 					next_char();
-					if (c == '/') {
-						next_char();
-						break;
-					}
-				} else if (c == EQ_NULL) {
-					ERROR(pos, "Comment reached end of file");
+					break;
 				}
 			}
 			next.whitespace = 1;
@@ -504,8 +519,11 @@ restart:
 		.str = (char *)initial_pos,
 	};
 
+	invalid_universal_character_name = 0;
 	if (needs_escape_sequences_removed)
 		next.str = remove_escape_sequences(initial_pos);
+	if (invalid_universal_character_name)
+		next.type = PP_OTHER;
 
 	if (needs_digit_separator_removed)
 		next.str = remove_digit_separator(initial_pos);
-- 
2.43.0


From a170c5fa64503e4f35ae98db4f43d99c9cdb53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:01 +0000
Subject: [PATCH 43/66] fix: linker and objects: data of the previous file
 repeated in later objects, section flags, symbol values, duplicate and
 undefined symbols, alignment

---
 src/assembler/assembler.c |  4 +---
 src/codegen/rodata.c      | 24 +++++++++++++++--------
 src/codegen/rodata.h      |  5 ++++-
 src/ir/ir.c               |  8 ++++++--
 src/linker/elf.c          | 14 ++++++++++----
 src/linker/linker.c       | 40 +++++++++++++++++++++++++++++----------
 src/linker/object.c       | 15 ++++-----------
 src/main.c                |  3 +++
 src/parser/declaration.c  |  9 ++++++++-
 src/parser/declaration.h  |  1 +
 src/parser/parser.c       |  1 +
 11 files changed, 84 insertions(+), 40 deletions(-)

diff --git a/src/assembler/assembler.c b/src/assembler/assembler.c
index 07a2e31..1b8c5ac 100644
--- a/src/assembler/assembler.c
+++ b/src/assembler/assembler.c
@@ -63,9 +63,7 @@ static void asm_emit_no_newline(const char *fmt, ...) {
 }
 
 static void emit_label(label_id id) {
-	char buffer[64];
-	rodata_get_label(id, sizeof buffer, buffer);
-	asm_emit_no_newline("%s", buffer);
+	asm_emit_no_newline("%s", rodata_get_label(id));
 }
 
 void asm_section(const char *section) {
diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 65ac9ae..c0b3950 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -50,20 +50,21 @@ label_id rodata_register(struct string_view str, int alignment) {
 	return id;
 }
 
-void rodata_get_label(label_id id, int n, char buffer[]) {
-	int res;
+const char *rodata_get_label(label_id id) {
+	static char *buffer = NULL;
+	static size_t capacity = 0;
+
 	if (id < 0) { // Temporary label.
-		res = snprintf(buffer, n, ".L%d", -id);
+		expand_printf(&buffer, &capacity, ".L%d", -id);
 	} else if (entries[id].type == ENTRY_STR) {
-		res = snprintf(buffer, n, ".Ls%d", id);
+		expand_printf(&buffer, &capacity, ".Ls%d", id);
 	} else if (entries[id].type == ENTRY_LABEL_NAME) {
-		res = snprintf(buffer, n, "%.*s", entries[id].name.len, entries[id].name.str);
+		expand_printf(&buffer, &capacity, "%.*s", entries[id].name.len, entries[id].name.str);
 	} else {
 		NOTIMP();
 	}
 
-	if (res >= n)
-		ICE("Label name too long");
+	return buffer;
 }
 
 void rodata_codegen(void) {
@@ -85,8 +86,9 @@ label_id register_label_name(struct string_view str) {
 	return label_register(ENTRY_LABEL_NAME, str);
 }
 
+static int tmp_label_idx = -2; // -1 is left for null label.
+
 label_id register_label(void) {
-	static int tmp_label_idx = -2; // -1 is left for null label.
 	return tmp_label_idx--;
 }
 
@@ -346,3 +348,9 @@ void data_codegen(void) {
 		codegen_static_var(static_vars + i);
 	}
 }
+
+void rodata_reset(void) {
+	entries_size = 0;
+	static_vars_size = 0;
+	tmp_label_idx = -2;
+}
diff --git a/src/codegen/rodata.h b/src/codegen/rodata.h
index bd04f46..d148a29 100644
--- a/src/codegen/rodata.h
+++ b/src/codegen/rodata.h
@@ -9,7 +9,8 @@ label_id rodata_register(struct string_view str, int alignment);
 label_id register_label_name(struct string_view str);
 label_id register_label(void);
 
-void rodata_get_label(label_id id, int n, char buffer[]);
+// The name is only valid until the next call.
+const char *rodata_get_label(label_id id);
 
 void rodata_codegen(void);
 
@@ -18,4 +19,6 @@ struct initializer;
 void data_register_static_var(struct string_view label, struct type *type, struct initializer init, int global, int alignment);
 void data_codegen(void);
 
+void rodata_reset(void);
+
 #endif
diff --git a/src/ir/ir.c b/src/ir/ir.c
index c805363..c58a71d 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -20,11 +20,12 @@ struct node **seals;
 static size_t nodes_size, nodes_cap;
 struct node **nodes;
 
+static int node_counter;
+
 struct node *ir_new(int type, int size) {
 	struct node *next = ALLOC((struct node) { .type = type });
 
-	static int counter;
-	next->index = ++counter;
+	next->index = ++node_counter;
 	next->size = size;
 
 	next->parent_function = current_function;
@@ -82,6 +83,9 @@ void ir_reset(void) {
 	free(seals);
 	seal_size = seal_cap = 0;
 	seals = NULL;
+
+	nodes_size = 0;
+	node_counter = 0;
 }
 
 static void set_state(struct node *node);
diff --git a/src/linker/elf.c b/src/linker/elf.c
index 104f7df..e00867c 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -217,6 +217,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			.size = elf_section->size,
 			.cap = elf_section->size,
 			.data = elf_section->data,
+			.alignment = elf_section->header.sh_addralign,
 		};
 
 		if (elf_section->header.sh_name)
@@ -280,12 +281,12 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			uint64_t r_addend = read_64(rela_data + 16);
 
 			int type = 0;
-			switch (r_info & 0xffff) {
+			switch (r_info & 0xffffffff) {
 			case R_X86_64_64: type = RELOCATE_64; break;
 			case R_X86_64_32S: type = RELOCATE_32; break;
 			case R_X86_64_PC32: type = RELOCATE_32_RELATIVE; break;
 			default:
-				ICE("Relocation %lu not implemented.", r_info & 0xffff);
+				ICE("Relocation %lu not implemented.", r_info & 0xffffffff);
 			}
 
 			if (!symbol_mapping)
@@ -297,7 +298,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			*relocation = (struct object_relocation) {
 				.add = r_addend,
 				.offset = r_offset,
-				.idx = symbol_mapping[(r_info >> 32) & 0xffff],
+				.idx = symbol_mapping[r_info >> 32],
 				.type = type,
 			};
 		}
@@ -332,7 +333,12 @@ static struct elf_file *elf_from_object(struct object *object) {
 			memcpy(elf_section->data, section->data, elf_section->size);
 		}
 
-		elf_section->header.sh_flags = SHF_ALLOC | SHF_EXECINSTR;
+		elf_section->header.sh_flags = SHF_ALLOC;
+		if (strcmp(section->name, ".text") == 0)
+			elf_section->header.sh_flags |= SHF_EXECINSTR;
+		else if (strcmp(section->name, ".data") == 0)
+			elf_section->header.sh_flags |= SHF_WRITE;
+
 		elf_section->header.sh_addralign = section->alignment;
 	}
 
diff --git a/src/linker/linker.c b/src/linker/linker.c
index ed9ad91..631a2df 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -3,6 +3,7 @@
 #include "common.h"
 
 #include <stdlib.h>
+#include <string.h>
 
 struct combined_relocation {
 	enum relocation_type type;
@@ -26,6 +27,11 @@ struct combined_symbol {
 	int object_idx, section_idx;
 };
 
+static int is_definition_of(struct symbol *symbol, const char *name) {
+	return symbol->section != -1 && symbol->global && symbol->name && name &&
+		strcmp(symbol->name, name) == 0;
+}
+
 // This also modifies the values inside each object file.
 static struct object *combine_objects(int n_objects, struct object *objects) {
 	struct object object = { 0 };
@@ -73,17 +79,19 @@ static struct object *combine_objects(int n_objects, struct object *objects) {
 			if (!symbol->name) {
 				ICE("Invalid local relocation.\n");
 			}
-			int found_section = -1;
 			for (unsigned j = 0; j < object.symbol_size; j++) {
-				if (object.symbols[j].name && object.symbols[j].global && object.symbols[j].section != -1) {
-					if (strcmp(object.symbols[j].name, symbol->name) == 0) {
-						if (object.symbols[j].section != -1)
-							found_section = object.symbols[j].section;
-					}
+				if (is_definition_of(&object.symbols[j], symbol->name)) {
+					symbol->section = object.symbols[j].section;
+					symbol->value = object.symbols[j].value;
+					symbol->global = 0; // The definition is somewhere else.
+					break;
 				}
 			}
-
-			symbol->section = found_section;
+		} else if (symbol->global) {
+			for (unsigned j = 0; j < i; j++) {
+				if (is_definition_of(&object.symbols[j], symbol->name))
+					ERROR_NO_POS("Linking error: multiple definitions of \"%s\".", symbol->name);
+			}
 		}
 	}
 
@@ -116,8 +124,12 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 	// Move sections into segment.
 	for (unsigned i = 0; i < object->section_size; i++) {
 		struct section *section = &object->sections[i];
-		uint8_t *dest = segment->data;
+		uint8_t *dest = segment->data + segment->size;
 		if (section->size) {
+			size_t padding = section->alignment ? round_up_to_nearest(segment->size, section->alignment) - segment->size : 0;
+			if (padding)
+				memset(ADD_ELEMENTS(segment->size, segment->cap, segment->data, padding), 0, padding);
+
 			dest = ADD_ELEMENTS(segment->size, segment->cap, segment->data, section->size);
 			memcpy(dest, section->data, section->size);
 		}
@@ -140,7 +152,7 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 			struct symbol *symbol = &object->symbols[relocation->idx];
 
 			if (symbol->section == -1)
-				ICE("Linking error: \"%s\" is undefined.", symbol->name);
+				ERROR_NO_POS("Linking error: \"%s\" is undefined.", symbol->name);
 
 			struct section_info *symbol_section_info = &section_infos[symbol->section];
 			struct segment *symbol_segment = &executable.segments[symbol_section_info->segment_idx];
@@ -167,9 +179,13 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 		}
 	}
 
+	int has_entry = 0;
 	for (unsigned i = 0; i < object->symbol_size; i++) {
 		struct symbol *symbol = &object->symbols[i];
 
+		if (symbol->section == -1)
+			continue;
+
 		struct section_info *symbol_section_info = &section_infos[symbol->section];
 		struct segment *symbol_segment = &executable.segments[symbol_section_info->segment_idx];
 
@@ -177,9 +193,13 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 
 		if (symbol->name && strcmp(symbol->name, "_start") == 0) {
 			executable.entry = symbol_value;
+			has_entry = 1;
 		}
 	}
 
+	if (!has_entry)
+		ERROR_NO_POS("Linking error: \"_start\" is undefined.");
+
 	segment->load_size = segment->size;
 
 	return ALLOC(executable);
diff --git a/src/linker/object.c b/src/linker/object.c
index 7662c6f..c9afa79 100644
--- a/src/linker/object.c
+++ b/src/linker/object.c
@@ -9,13 +9,11 @@ static struct object current_object;
 static int current_section = -1;
 
 static int get_symbol(label_id label) {
-	char buffer[64];
-
-	rodata_get_label(label, sizeof buffer, buffer);
+	const char *name = rodata_get_label(label);
 
 	for (unsigned i = 0; i < current_object.symbol_size; i++) {
 		if (current_object.symbols[i].name &&
-			strcmp(current_object.symbols[i].name, buffer) == 0)
+			strcmp(current_object.symbols[i].name, name) == 0)
 			return i;
 	}
 
@@ -23,13 +21,8 @@ static int get_symbol(label_id label) {
 		.section = -1,
 	};
 
-	if (label != -1) {
-		char buffer[64];
-
-		rodata_get_label(label, sizeof buffer, buffer);
-
-		symbol.name = strdup(buffer);
-	}
+	if (label != -1)
+		symbol.name = strdup(name);
 
 	ADD_ELEMENT(current_object.symbol_size, current_object.symbol_cap, current_object.symbols) = symbol;
 
diff --git a/src/main.c b/src/main.c
index b69a368..126a8f6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -6,6 +6,7 @@
 #include "parser/parser.h"
 #include "parser/symbols.h"
 #include "codegen/codegen.h"
+#include "codegen/rodata.h"
 #include "common.h"
 #include "assembler/assembler.h"
 #include "linker/elf.h"
@@ -225,6 +226,7 @@ static void compile_file(const char *path,
 	ir_reset();
 	asm_reset();
 	parser_reset();
+	rodata_reset();
 }
 
 static int is_word_character(char c) {
@@ -303,6 +305,7 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 	ir_reset();
 	asm_reset();
 	parser_reset();
+	rodata_reset();
 }
 
 int main(int argc, char **argv) {
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 3309314..42e5f96 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -938,6 +938,9 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 	return ast;
 }
 
+// Number of static variables with block scope.
+static int local_var = 0;
+
 static struct initializer *initializer_add_entry(struct initializer *init, int index) {
 	assert(init->type == INIT_BRACE);
 
@@ -1392,7 +1395,6 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 			symbol->type = IDENT_LABEL;
 
 			if (!external) {
-				static int local_var = 0;
 				name = sv_from_str(allocate_printf(".LVAR%d%.*s", local_var++, name.len, name.str));
 			}
 
@@ -1491,6 +1493,11 @@ int parse_declaration(int external) {
 	return 1;
 }
 
+void declaration_reset(void) {
+	local_var = 0;
+	potentially_tentative.size = 0;
+}
+
 void generate_tentative_definitions(void) {
 	for (size_t i = 0; i < potentially_tentative.size; i++) {
 		struct string_view name = potentially_tentative.names[i];
diff --git a/src/parser/declaration.h b/src/parser/declaration.h
index 0da9425..0180c37 100644
--- a/src/parser/declaration.h
+++ b/src/parser/declaration.h
@@ -106,5 +106,6 @@ struct type *parse_type_name(void);
 int parse_declaration(int external);
 
 void generate_tentative_definitions(void);
+void declaration_reset(void);
 
 #endif
diff --git a/src/parser/parser.c b/src/parser/parser.c
index 200849a..1fa4498 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -24,6 +24,7 @@ void parser_reset(void) {
 	free(packs);
 	packs = NULL;
 	symbols_reset();
+	declaration_reset();
 }
 
 int parse_handle_pragma(void) {
-- 
2.43.0


From 21b19ea7cfd1ebf7646b9efd1be00f1bca431321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:45 +0000
Subject: [PATCH 44/66] fix: function parser: side effects on paths that never
 reach a return were dropped

---
 src/parser/function_parser.c | 37 +++++++++++++++++++++++-------------
 src/string_view.c            |  2 +-
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8e72fc8..e322c0c 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -44,6 +44,12 @@ static void leave_loop(struct jump_blocks *outer, struct jump_blocks *loop) {
 	outer->block_default = loop->block_default;
 }
 
+// Only what leads to a return is kept by optimize_remove_dead, so
+// every loop has to have an exit, even if it is never taken.
+static struct node *always_true(void) {
+	return ir_constant(constant_simple_signed(ST_INT, 1));
+}
+
 // See section 6.8 of standard.
 int parse_statement(struct jump_blocks *jump_blocks);
 int parse_labeled_statement(struct jump_blocks *jump_blocks);
@@ -379,17 +385,15 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	ir_goto(block_control);
 	ir_block_start(block_control);
 
+	// A missing condition is replaced by a constant.
 	struct expr *condition = parse_optional_expression();
-	if (condition) {
-		struct node *condition_variable = expression_to_condition(condition);
+	struct node *condition_variable = condition ?
+		expression_to_condition(condition) : always_true();
 
-		struct node *block_true, *block_false;
-		ir_if_selection(condition_variable, &block_true, &block_false);
-		ir_connect(block_true, block_body);
-		ir_connect(block_false, block_end);
-	} else {
-		ir_goto(block_body);
-	}
+	struct node *block_true, *block_false;
+	ir_if_selection(condition_variable, &block_true, &block_false);
+	ir_connect(block_true, block_body);
+	ir_connect(block_false, block_end);
 
 	TEXPECT(T_SEMI_COLON);
 
@@ -438,11 +442,18 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 			if (sv_cmp(label, function_scope.labels[i].label)) {
 				// Necessary to avoid more than 2 predecessors
 				// to each block.
-				struct node *step = new_block();
-				ir_goto(step);
+				struct node *step = new_block(), *next;
+				if (function_scope.labels[i].used) {
+					struct node *block_true;
+					ir_if_selection(always_true(), &block_true, &next);
+					ir_connect(block_true, step);
+				} else {
+					ir_goto(step);
+					next = new_block();
+				}
 				ir_block_start(step);
 				ir_goto(function_scope.labels[i].block);
-				ir_block_start(new_block());
+				ir_block_start(next);
 				function_scope.labels[i].block = step;
 				return 1;
 			}
@@ -562,7 +573,7 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 			abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_CONSTANT, .data_type = c.data_type, .constant = c}, &reg_state);
 			ir_return(reg_state);
 		}
-	} else if (current_ret_val == type_simple(ST_VOID)) {
+	} else {
 		struct node *reg_state = NULL;
 		abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_VOID }, &reg_state);
 		ir_return(reg_state);
diff --git a/src/string_view.c b/src/string_view.c
index 8ef2559..22e928d 100644
--- a/src/string_view.c
+++ b/src/string_view.c
@@ -16,7 +16,7 @@ int sv_cmp(struct string_view a, struct string_view b) {
 	if (a.len != b.len)
 		return 0;
 
-	return memcmp(a.str, b.str, a.len) == 0;
+	return a.len == 0 || memcmp(a.str, b.str, a.len) == 0;
 }
 
 struct string_view sv_from_str(char *string) {
-- 
2.43.0


From 89ae9a3dbaed1a5eda94027eb1b7445aedccf147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:11 +0000
Subject: [PATCH 45/66] fix: sysv: alignment of the fields of va_list was not
 initialised

---
 src/abi/sysv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 7d6d7cc..baabfcb 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -604,7 +604,7 @@ void abi_init_sysv(void) {
 
 	struct field *fields = cc_malloc(sizeof *fields * 4);
 	for (int i = 0; i < 4; i++)
-		fields[i].bitfield = -1;
+		fields[i] = (struct field) { .bitfield = -1 };
 	fields[0].type = uint;
 	fields[0].name = sv_from_str("gp_offset");
 	fields[1].type = uint;
-- 
2.43.0


From f04f1f8dee1481272a120767df445f125b3bd2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:28 +0000
Subject: [PATCH 46/66] fix: linkage: static functions, inline definitions,
 tentative definitions and redeclarations did not follow the rules of C

---
 src/parser/declaration.c     | 90 +++++++++++++++---------------------
 src/parser/function_parser.c | 24 +++++++---
 src/parser/function_parser.h |  2 +-
 src/parser/symbols.c         | 22 +++++++++
 src/parser/symbols.h         | 10 ++++
 src/types.c                  | 73 ++++++++++++++++++++++-------
 6 files changed, 145 insertions(+), 76 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 42e5f96..d968946 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -653,8 +653,8 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 
 			struct type *parameters[ast->function.n + 1];
 			for (int i = 0; i < ast->function.n; i++)
-				parameters[i + 1] = ast->function.types[i];
-			parameters[0] = type;
+				parameters[i + 1] = type_remove_qualifications(ast->function.types[i]);
+			parameters[0] = type_remove_qualifications(type);
 
 			if (type->type == TY_FUNCTION || type->type == TY_ARRAY ||
 				type->type == TY_INCOMPLETE_ARRAY || type->type == TY_VARIABLE_LENGTH_ARRAY)
@@ -1283,7 +1283,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (arg_n && !args)
 			ERROR(T0->pos, "Should not be null");
 
-		parse_function(name, type, arg_n, args, s.scs.static_n ? 0 : 1);
+		parse_function(name, type, arg_n, args, s.scs.static_n != 0, !s.fs.inline_n || s.scs.extern_n);
 		*was_func = 1;
 		return 1;
 	}
@@ -1305,23 +1305,29 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		return 1;
 	}
 
+	int is_function = type->type == TY_FUNCTION;
+	int has_linkage = external || s.scs.extern_n || is_function;
+	int is_plain_object = !is_function && !s.scs.extern_n;
+
 	// Check for agreement with previous declarations.
 	struct symbol_identifier *symbol = symbols_get_identifier_in_current_scope(name);
-	int prev_definition = 0;
 
 	if (symbol) {
-		prev_definition = symbol->has_definition;
-		struct type *prev_type = symbols_get_identifier_type(symbol);
-		struct type *composite_type = type_make_composite(type, prev_type);
-
-		if (!composite_type)
-			ERROR(T0->pos, "%.*s has conflicting types: %s and %s\n", name.len, name.str, strdup(dbg_type(prev_type)),
-				  strdup(dbg_type(type)));
-
-		type = composite_type;
+		if (!has_linkage)
+			ERROR(T0->pos, "Redeclaration of %.*s.", name.len, name.str);
+		type = symbols_check_redeclaration(symbol, name, type, s.scs.static_n != 0, is_plain_object);
 	} else {
+		struct symbol_identifier *outer = symbols_get_identifier(name);
 		symbol = symbols_add_identifier(name);
+		symbol->is_global = has_linkage && !s.scs.static_n;
+
+		if (has_linkage && outer && outer->has_linkage) {
+			type = symbols_check_redeclaration(outer, name, type, s.scs.static_n != 0, is_plain_object);
+			symbol->is_global = outer->is_global;
+		}
 	}
+
+	symbol->has_linkage = has_linkage;
 	
 	int has_init = TACCEPT(T_A);
 
@@ -1329,7 +1335,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		ERROR(T0->pos, "Object can't have type void.");
 
 	// Handle function definitions first, since they differ a bit from the others.
-	if (type->type == TY_FUNCTION) {
+	if (is_function) {
 		if (has_init)
 			ERROR(T0->pos, "Function definition can't have initializer.");
 		if (!external && s.scs.static_n)
@@ -1339,13 +1345,16 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		symbol->label.name = name;
 		symbol->label.type = type;
 
+		if (external && (!s.fs.inline_n || s.scs.extern_n))
+			symbol->is_not_inline = 1;
+		if (symbol->function)
+			symbol->function->function.is_global = symbol->is_global && symbol->is_not_inline;
+
 		return 1;
 	}
 
-	int definition_is_static = 0;
-	int has_definition = 0;
-	int is_global = 0;
-	int is_tentative = 0;
+	int definition_is_static = external || s.scs.static_n;
+	int has_definition = external ? has_init : !s.scs.extern_n;
 
 	if (s.scs.extern_n && has_init && !external)
 		ERROR(T0->pos, "Extern declaration can't have initializer.");
@@ -1353,42 +1362,17 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	if (s.scs.register_n)
 		symbol->is_register = 1;
 
-	if (external) {
-		definition_is_static = 1;
-
-		if (!s.scs.static_n)
-			is_global = 1;
-
-		if (has_init) {
-			has_definition = 1;
-		} else if (s.scs.extern_n) {
-			has_definition = 0;
-		} else {
-			is_tentative = 1;
-		}
-	} else {
-		if (s.scs.static_n)
-			definition_is_static = 1;
-		if (s.scs.extern_n) {
-			has_definition = 0;
-			is_global = 0;
-		} else {
-			has_definition = 1;
-		}
-	}
-
-	symbol->alignment = s.as.alignment;
+	symbol->alignment = MAX(symbol->alignment, s.as.alignment);
 
-	if (!prev_definition) {
-		symbol->is_tentative = is_tentative;
-		symbol->is_global = is_global;
-		symbol->has_definition = has_definition;
-	} else {
-		if (!is_tentative && has_definition)
-			symbol->is_tentative = 0;
-	}
-	if (is_tentative && !prev_definition)
+	if (has_definition) {
+		if (symbol->has_definition)
+			ERROR(T0->pos, "Redefinition of %.*s.", name.len, name.str);
+		symbol->has_definition = 1;
+		symbol->is_tentative = 0;
+	} else if (external && !s.scs.extern_n && !symbol->has_definition && !symbol->is_tentative) {
+		symbol->is_tentative = 1;
 		ADD_ELEMENT(potentially_tentative.size, potentially_tentative.cap, potentially_tentative.names) = name;
+	}
 
 	if (has_definition) {
 		if (definition_is_static) {
@@ -1411,7 +1395,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 			if (type_has_variable_size(type))
 				ERROR(T0->pos, "Variable length array can't have static storage duration.");
 
-			data_register_static_var(name, type, init, is_global, symbol->alignment);
+			data_register_static_var(name, type, init, symbol->is_global, symbol->alignment);
 		} else {
 			if (type_has_variable_size(type)) {
 				symbol->type = IDENT_VARIABLE;
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index e322c0c..3cf6d9e 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -527,7 +527,7 @@ struct string_view get_current_function_name(void) {
 	return current_function;
 }
 
-void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int global) {
+void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int is_static, int is_not_inline) {
 	(void)arg_n;
 	current_function = name;
 	struct symbol_identifier *symbol = symbols_get_identifier_global(name);
@@ -542,16 +542,28 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 
 	current_ret_val = type->children[0];
 
-	if (!symbol)
+	if (type->type != TY_FUNCTION)
+		ERROR(T0->pos, "Unexpected block after declaration of %.*s.", name.len, name.str);
+
+	struct type *declared_type = type;
+	if (symbol) {
+		if (symbol->has_definition)
+			ERROR(T0->pos, "Redefinition of %.*s.", name.len, name.str);
+		declared_type = symbols_check_redeclaration(symbol, name, type, is_static, 0);
+	} else {
 		symbol = symbols_add_identifier_global(name);
+		symbol->is_global = !is_static;
+	}
 
+	symbol->has_linkage = 1;
+	symbol->has_definition = 1;
+	symbol->is_not_inline |= is_not_inline;
 	symbol->type = IDENT_LABEL;
-	symbol->label.type = type;
+	symbol->label.type = declared_type;
 	symbol->label.name = name;
 
-	assert(type->type == TY_FUNCTION);
-
-	struct node *func = new_function(sv_to_str(name), global);
+	struct node *func = new_function(sv_to_str(name), symbol->is_global && symbol->is_not_inline);
+	symbol->function = func;
 	abi_expr_function(func, type, args);
 
 	for (int i = 0; i < type->n; i++)
diff --git a/src/parser/function_parser.h b/src/parser/function_parser.h
index c4aa6be..68c7539 100644
--- a/src/parser/function_parser.h
+++ b/src/parser/function_parser.h
@@ -4,7 +4,7 @@
 #include "parser.h"
 #include "parser/symbols.h"
 
-void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int global);
+void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int is_static, int is_not_inline);
 struct string_view get_current_function_name(void);
 
 #endif
diff --git a/src/parser/symbols.c b/src/parser/symbols.c
index 759370c..0d3e635 100644
--- a/src/parser/symbols.c
+++ b/src/parser/symbols.c
@@ -1,4 +1,6 @@
 #include "symbols.h"
+#include <debug.h>
+#include <preprocessor/preprocessor.h>
 
 #include <common.h>
 
@@ -211,6 +213,26 @@ struct type *symbols_get_identifier_type(struct symbol_identifier *symbol) {
 	}
 }
 
+struct type *symbols_check_redeclaration(struct symbol_identifier *symbol, struct string_view name,
+										 struct type *type, int is_static, int is_plain_object) {
+	if (!symbol->has_linkage)
+		ERROR(T0->pos, "Redeclaration of %.*s.", name.len, name.str);
+
+	struct type *prev_type = symbols_get_identifier_type(symbol);
+	struct type *composite_type = type_make_composite(type, prev_type);
+
+	if (!composite_type)
+		ERROR(T0->pos, "%.*s has conflicting types: %s and %s\n", name.len, name.str, strdup(dbg_type(prev_type)),
+			  strdup(dbg_type(type)));
+
+	// Functions and extern objects inherit the linkage of the previous declaration.
+	if ((is_static && symbol->is_global) ||
+		(is_plain_object && !is_static && !symbol->is_global))
+		ERROR(T0->pos, "Declarations of %.*s have different linkage.", name.len, name.str);
+
+	return composite_type;
+}
+
 // Struct help functions.
 struct symbol_struct *symbols_add_struct(struct string_view name) {
 	return &symbols_add(ENTRY_STRUCT, name)->struct_data;
diff --git a/src/parser/symbols.h b/src/parser/symbols.h
index 0363ead..5779086 100644
--- a/src/parser/symbols.h
+++ b/src/parser/symbols.h
@@ -41,12 +41,22 @@ struct symbol_identifier {
 	};
 
 	int is_global, is_tentative, is_register;
+	int has_linkage; // Declared as external or internal, as opposed to local variables and constants.
+
+	// The definition of a function, and if there is a declaration of it
+	// at file scope that is not inline, or that is extern.
+	struct node *function;
+	int is_not_inline;
 	int has_definition;
 	int alignment;
 };
 
 struct type *symbols_get_identifier_type(struct symbol_identifier *symbol);
 
+// Check a redeclaration of an identifier with linkage. The composite type is returned.
+struct type *symbols_check_redeclaration(struct symbol_identifier *symbol, struct string_view name,
+										 struct type *type, int is_static, int is_plain_object);
+
 struct symbol_identifier *symbols_add_identifier_global(struct string_view name);
 struct symbol_identifier *symbols_get_identifier_global(struct string_view name);
 
diff --git a/src/types.c b/src/types.c
index 5934b2e..56be9c8 100644
--- a/src/types.c
+++ b/src/types.c
@@ -452,35 +452,76 @@ int type_contains_unevaluated_vla(struct type *type) {
 	return type->type == TY_VARIABLE_LENGTH_ARRAY && !type->variable_length_array.is_evaluated;
 }
 
+static int type_is_array(struct type *type) {
+	return type->type == TY_ARRAY ||
+		type->type == TY_INCOMPLETE_ARRAY ||
+		type->type == TY_VARIABLE_LENGTH_ARRAY;
+}
+
+static struct type *type_with_children(struct type *type, struct type **children) {
+	struct type params = *type;
+	return type_create(&params, children);
+}
+
 // See 6.2.7.
 // Returns NULL if not compatible.
 struct type *type_make_composite(struct type *a, struct type *b) {
 	if (a == b)
 		return a;
 
-	if (a->type == TY_ARRAY && b->type == TY_INCOMPLETE_ARRAY) {
-		return a;
-	} else if (b->type == TY_ARRAY && a->type == TY_INCOMPLETE_ARRAY) {
-		return b;
+	if (type_is_array(a) && type_is_array(b)) {
+		struct type *element = type_make_composite(a->children[0], b->children[0]);
+
+		if (!element ||
+			(a->type == TY_ARRAY && b->type == TY_ARRAY && a->array.length != b->array.length))
+			return NULL;
+
+		if (a->type == TY_ARRAY)
+			return type_with_children(a, &element);
+		else if (b->type == TY_ARRAY || b->type == TY_VARIABLE_LENGTH_ARRAY)
+			return type_with_children(b, &element);
+		return type_with_children(a, &element);
 	}
 
-	if (a->type != b->type)
+	if (a->type != b->type || a->is_const != b->is_const)
 		return NULL;
 
 	switch (a->type) {
-	case TY_FUNCTION:
-		if (a->function.is_variadic && a->n == 1) {
-			return b;
-		} else if (b->function.is_variadic && b->n == 1) {
-			return a;
-		}
-		break;
+	case TY_POINTER: {
+		struct type *pointee = type_make_composite(a->children[0], b->children[0]);
+		return pointee ? type_with_children(a, &pointee) : NULL;
+	}
 
-	case TY_ARRAY:
-		break;
+	case TY_FUNCTION: {
+		struct type *return_type = type_make_composite(a->children[0], b->children[0]);
+
+		if (!return_type)
+			return NULL;
+
+		int a_unspecified = a->function.is_variadic && a->n == 1,
+			b_unspecified = b->function.is_variadic && b->n == 1;
+
+		struct type *prototype = a_unspecified ? b : a;
+		struct type *children[prototype->n];
+		children[0] = return_type;
+		for (int i = 1; i < prototype->n; i++)
+			children[i] = prototype->children[i];
 
-	default:;
+		if (!a_unspecified && !b_unspecified) {
+			if (a->n != b->n || a->function.is_variadic != b->function.is_variadic)
+				return NULL;
+
+			for (int i = 1; i < a->n; i++) {
+				children[i] = type_make_composite(a->children[i], b->children[i]);
+				if (!children[i])
+					return NULL;
+			}
+		}
+
+		return type_with_children(prototype, children);
 	}
 
-	return NULL;
+	default:
+		return NULL;
+	}
 }
-- 
2.43.0


From 8b99704f5b55b4397718235d890e8f38cc39d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:33 +0000
Subject: [PATCH 47/66] fix: literals: __func__ had no terminating zero, float
 constants were rounded twice, malformed floating constants accepted

---
 src/arch/x64.c          | 14 ++++++++++----
 src/parser/expression.c |  6 +++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 56bdd79..5e7b300 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -348,14 +348,20 @@ static int is_float(struct string_view str) {
 }
 
 static struct constant floating_point_constant_from_string(struct string_view sv) {
-	char *str = sv_to_str(sv);
-	double d = strtod(str, NULL);
-	char suffix = str[strlen(str) - 1];
+	char *str = sv_to_str(sv), *end;
+	double d = strtod(str, &end);
+	char suffix = *end;
+
+	int is_hex = str[0] == '0' && (str[1] == 'x' || str[1] == 'X');
+
+	if (end == str || (is_hex && !strpbrk(str, "pP")) ||
+		(suffix && (end[1] || !strchr("fFlL", suffix))))
+		ERROR_NO_POS("Invalid floating constant %s.", str);
 
 	struct constant res = { .type = CONSTANT_TYPE };
 	if (suffix == 'f' || suffix == 'F') {
 		res.data_type = type_simple(ST_FLOAT);
-		res.float_d = d;
+		res.float_d = strtof(str, NULL); // Rounds only once.
 	} else if (suffix == 'l' || suffix == 'L') {
 		ICE("Constants of type long double is not supported by this compiler. %s", str);
 	} else {
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 5ee4b10..165e049 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -931,7 +931,11 @@ static struct expr *parse_prefix(void) {
 	} else if (TACCEPT(T_KFUNC)) {
 		if (!get_current_function_name().len)
 			ERROR(T0->pos, "Not currently in a function.");
- 		return EXPR_STR(get_current_function_name(), ST_CHAR);
+
+		// String literals include the terminating zero.
+		struct string_view name = get_current_function_name();
+		struct string_view str = { .len = name.len + 1, .str = sv_to_str(name) };
+		return EXPR_STR(str, ST_CHAR);
 	}
 	return NULL;
 }
-- 
2.43.0


From 928ab6ef1c2469d72b714dbcb825516a28cc64b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:04 +0000
Subject: [PATCH 48/66] fix: types: members of const objects, __func__,
 conditional operators on pointers and _Generic with compatible types had the
 wrong type

---
 src/parser/declaration.c |  4 +--
 src/parser/expression.c  | 55 +++++++++++++++++++++++++++-------------
 src/types.c              | 35 +++++++++++++++++--------
 src/types.h              |  1 +
 4 files changed, 65 insertions(+), 30 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d968946..761c76d 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -623,7 +623,7 @@ static int null_type_qualifier(struct type_qualifiers *tq) {
 }
 
 static struct type *apply_tq(struct type *type, const struct type_qualifiers *tq) {
-	if (tq->const_n == 1)
+	if (tq->const_n > 0)
 		type = type_make_const(type, 1);
 	return type;
 }
@@ -631,7 +631,7 @@ static struct type *apply_tq(struct type *type, const struct type_qualifiers *tq
 struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qualifiers *tq, struct type_ast *ast, struct string_view *name, int allow_tq_in_array) {
 	struct type *type = specifiers_to_type(ts);
 
-	type = apply_tq(type, tq);
+	type = type_qualify(type, tq->const_n > 0);
 
 	if (!ast)
 		return type;
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 165e049..fceaecc 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -165,7 +165,8 @@ static struct type *calculate_type(struct expr *expr) {
 		return expr->cast.target;
 
 	case E_DOT_OPERATOR:
-		return type_select(expr->member.lhs->data_type, expr->member.member_idx);
+		return type_qualify(type_select(expr->member.lhs->data_type, expr->member.member_idx),
+							expr->member.lhs->data_type->is_const);
 
 	case E_CONDITIONAL:
 		assert(expr->args[1]->data_type == expr->args[2]->data_type);
@@ -235,8 +236,31 @@ static const int does_integer_conversion[E_NUM_TYPES] = {
 
 static int is_null_pointer_constant(struct expr *expr) {
 	struct constant *c = expression_to_constant(expr);
+	struct type *type = expr->data_type;
 
-	return c && c->type == CONSTANT_TYPE && constant_is_zero(c);
+	return (type_is_integer(type) || type == type_pointer(type_simple(ST_VOID))) &&
+		c && c->type == CONSTANT_TYPE && constant_is_zero(c);
+}
+
+// See 6.5.15p6. The pointed-to type has the qualifiers of both operands.
+static struct type *get_conditional_pointer_type(struct expr *lhs, struct expr *rhs) {
+	struct type *a = type_deref(lhs->data_type),
+		*b = type_deref(rhs->data_type),
+		*unqualified_a = type_remove_qualifications(a),
+		*unqualified_b = type_remove_qualifications(b);
+
+	if (is_null_pointer_constant(lhs))
+		return rhs->data_type;
+	if (is_null_pointer_constant(rhs))
+		return lhs->data_type;
+
+	struct type *target;
+	if (unqualified_a == type_simple(ST_VOID) || unqualified_b == type_simple(ST_VOID))
+		target = type_simple(ST_VOID);
+	else
+		target = type_make_composite(unqualified_a, unqualified_b);
+
+	return target ? type_pointer(type_qualify(target, a->is_const || b->is_const)) : NULL;
 }
 
 static void cast_conditional(struct expr *expr) {
@@ -250,21 +274,15 @@ static void cast_conditional(struct expr *expr) {
 		return;
 
 	if (type_is_pointer(a) && type_is_pointer(b)) {
-		struct type *composite;
-		if (type_remove_qualifications(type_deref(a)) == type_simple(ST_VOID))
-			expr->args[1] = expression_cast(expr->args[1], b);
-		else if (type_remove_qualifications(type_deref(b)) == type_simple(ST_VOID))
-			expr->args[2] = expression_cast(expr->args[2], a);
-		else if ((composite = type_make_composite(type_remove_qualifications(type_deref(a)),
-												  type_remove_qualifications(type_deref(b))))) {
-			composite = type_pointer(composite);
-			expr->args[2] = expression_cast(expr->args[2], composite);
-			expr->args[1] = expression_cast(expr->args[1], composite);
-		} else {
+		struct type *target = get_conditional_pointer_type(expr->args[1], expr->args[2]);
+
+		if (!target)
 			ERROR(T0->pos, "Invalid combination of data types:\n%s and %s\n",
 				  strdup(dbg_type(a)),
 				  strdup(dbg_type(b)));
-		}
+
+		expr->args[1] = expression_cast(expr->args[1], target);
+		expr->args[2] = expression_cast(expr->args[2], target);
 	} else if (type_is_pointer(a) && is_null_pointer_constant(expr->args[2])) {
 		expr->args[2] = expression_cast(expr->args[2], a);
 	} else if (type_is_pointer(b) && is_null_pointer_constant(expr->args[1])) {
@@ -845,7 +863,7 @@ static struct expr *parse_prefix(void) {
 				if (!res)
 					res = rhs;
 			} else {
-				if (type == match_type) {
+				if (type_make_composite(type, match_type)) {
 					if (res && !res_is_default)
 						ERROR(T0->pos, "More than one compatible type in _Generic association list, %s",
 							  strdup(dbg_type(type)));
@@ -935,7 +953,9 @@ static struct expr *parse_prefix(void) {
 		// String literals include the terminating zero.
 		struct string_view name = get_current_function_name();
 		struct string_view str = { .len = name.len + 1, .str = sv_to_str(name) };
-		return EXPR_STR(str, ST_CHAR);
+		struct expr *expr = EXPR_STR(str, ST_CHAR);
+		expr->data_type = expr->constant.data_type = type_qualify(expr->data_type, 1);
+		return expr;
 	}
 	return NULL;
 }
@@ -1184,7 +1204,7 @@ int evaluate_constant_expression(struct expr *expr,
 			if (bit_size != -1)
 				return 0;
 
-			struct type *child_type = type_select(lhs.data_type, expr->member.member_idx);
+			struct type *child_type = expr->data_type;
 
 			*constant = lhs;
 			constant->label.offset += offset;
@@ -1309,6 +1329,7 @@ int evaluate_constant_expression(struct expr *expr,
 		if (!evaluate_constant_expression(expr->args[0], &c))
 			return 0;
 		*constant = c;
+		constant->data_type = expr->data_type;
 	} break;
 
 	default:
diff --git a/src/types.c b/src/types.c
index 56be9c8..fd659e0 100644
--- a/src/types.c
+++ b/src/types.c
@@ -163,12 +163,36 @@ struct type *type_deref(struct type *type) {
 	return type->children[0];
 }
 
+static int type_is_array(struct type *type) {
+	return type->type == TY_ARRAY ||
+		type->type == TY_INCOMPLETE_ARRAY ||
+		type->type == TY_VARIABLE_LENGTH_ARRAY;
+}
+
+static struct type *type_with_children(struct type *type, struct type **children) {
+	struct type params = *type;
+	return type_create(&params, children);
+}
+
 struct type *type_make_const(struct type *type, int is_const) {
 	struct type params = *type;
 	params.is_const = is_const;
 	return type_create(&params, type->children);
 }
 
+// Adds qualifiers. The qualifiers of an array are those of its elements.
+struct type *type_qualify(struct type *type, int is_const) {
+	if (!is_const)
+		return type;
+
+	if (type_is_array(type)) {
+		struct type *element = type_qualify(type->children[0], is_const);
+		return type_with_children(type, &element);
+	}
+
+	return type_make_const(type, 1);
+}
+
 struct type *type_remove_qualifications(struct type *type) {
 	struct type params = *type;
 	params.is_const = 0;
@@ -452,17 +476,6 @@ int type_contains_unevaluated_vla(struct type *type) {
 	return type->type == TY_VARIABLE_LENGTH_ARRAY && !type->variable_length_array.is_evaluated;
 }
 
-static int type_is_array(struct type *type) {
-	return type->type == TY_ARRAY ||
-		type->type == TY_INCOMPLETE_ARRAY ||
-		type->type == TY_VARIABLE_LENGTH_ARRAY;
-}
-
-static struct type *type_with_children(struct type *type, struct type **children) {
-	struct type params = *type;
-	return type_create(&params, children);
-}
-
 // See 6.2.7.
 // Returns NULL if not compatible.
 struct type *type_make_composite(struct type *a, struct type *b) {
diff --git a/src/types.h b/src/types.h
index bb430f7..234e86d 100644
--- a/src/types.h
+++ b/src/types.h
@@ -136,6 +136,7 @@ struct type *type_array(struct type *type, int length);
 struct type *type_deref(struct type *type);
 struct type *type_struct(struct struct_data *struct_data);
 struct type *type_make_const(struct type *type, int is_const);
+struct type *type_qualify(struct type *type, int is_const);
 struct type *type_adjust_parameter(struct type *type);
 struct type *type_remove_qualifications(struct type *type);
 
-- 
2.43.0


From b2a60a1cb073917a8df7a14f86a5e4faa21fc329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:30 +0000
Subject: [PATCH 49/66] fix: scopes: typedef names and identifiers were
 separate name spaces, tags declared after their members, control statements
 and parameters without the scopes C defines

---
 src/parser/declaration.c     | 95 ++++++++++++++----------------------
 src/parser/function_parser.c | 31 +++++++++---
 src/parser/symbols.c         | 25 ++++++++--
 3 files changed, 82 insertions(+), 69 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 761c76d..437fdf0 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -347,6 +347,26 @@ int parse_enum(struct type_specifiers *ts) {
 	return 1;
 }
 
+static struct struct_data *declare_struct(struct string_view name, int is_union, int in_current_scope) {
+	struct symbol_struct *def = in_current_scope ?
+		symbols_get_struct_in_current_scope(name) : symbols_get_struct(name);
+
+	if (!def) {
+		def = symbols_add_struct(name);
+		def->type = is_union ? STRUCT_UNION : STRUCT_STRUCT;
+		def->struct_data = register_struct();
+		*def->struct_data = (struct struct_data) {
+			.name = name,
+			.is_complete = 0,
+		};
+	}
+
+	if (def->type != (is_union ? STRUCT_UNION : STRUCT_STRUCT))
+		ERROR(T0->pos, "%.*s not declared as %s.", name.len, name.str, is_union ? "union" : "struct");
+
+	return def->struct_data;
+}
+
 int parse_struct(struct type_specifiers *ts) {
 	int is_union = 0, is_packed = 0;
 	if (TACCEPT(T_KSTRUCT))
@@ -367,6 +387,9 @@ int parse_struct(struct type_specifiers *ts) {
 		name = sv_from_str(allocate_printf("<%d>", anonymous_counter++));
 	}
 
+	// The tag is declared before its members.
+	struct struct_data *data = declare_struct(name, is_union, T0->type == T_LBRACE || T0->type == T_SEMI_COLON);
+
 	if (TACCEPT(T_LBRACE)) {
 		int fields_size = 0, fields_cap = 0;
 		struct field *fields = NULL;
@@ -447,28 +470,8 @@ int parse_struct(struct type_specifiers *ts) {
 
 		accept_attribute(&is_packed);
 
-		struct struct_data *data = NULL;
-		struct symbol_struct *def = symbols_get_struct_in_current_scope(name);
-
-		if (is_union) {
-			if (def && def->type != STRUCT_UNION)
-				ERROR(T0->pos, "Name not declared as union.");
-		} else {
-			if (def && def->type != STRUCT_STRUCT)
-				ERROR(T0->pos, "Name not declared as struct.");
-		}
-
-		if (!def) {
-			def = symbols_add_struct(name);
-			def->type = is_union ? STRUCT_UNION : STRUCT_STRUCT;
-			data = register_struct();
-			def->struct_data = data;
-		} else {
-			data = def->struct_data;
-			if (data->is_complete) {
-				ERROR(T0->pos, "Redeclaring struct/union %.*s", name.len, name.str);
-			}
-		}
+		if (data->is_complete)
+			ERROR(T0->pos, "Redeclaring struct/union %.*s", name.len, name.str);
 
 		*data = (struct struct_data) {
 			.n = fields_size,
@@ -487,44 +490,16 @@ int parse_struct(struct type_specifiers *ts) {
 		calculate_offsets(data);
 		type_remove_unnamed(data);
 
-		struct type params = {
-			.type = TY_STRUCT,
-			.struct_data = data,
-			.n = 0
-		};
-
-		ts->data_type = type_create(&params, NULL);
-
-		return 1;
-	} else {
-		struct symbol_struct *def = symbols_get_struct(name);
-
-		if(!def) {
-			def = symbols_add_struct(name);
-
-			def->struct_data = register_struct();
-			*def->struct_data = (struct struct_data) {
-				.name = name,
-				.is_complete = 0,
-			};
-			def->type = is_union ? STRUCT_UNION : STRUCT_STRUCT;
-		}
+	}
 
-		if (!is_union && def->type != STRUCT_STRUCT) {
-			ERROR(T0->pos, "%.*s Previously not a struct", name.len, name.str);
-		} else if (is_union && def->type != STRUCT_UNION) {
-			ERROR(T0->pos, "Previously not a union");
-		}
+	struct type params = {
+		.type = TY_STRUCT,
+		.struct_data = data,
+		.n = 0
+	};
 
-		struct type params = {
-			.type = TY_STRUCT,
-			.struct_data = def->struct_data,
-			.n = 0
-		};
+	ts->data_type = type_create(&params, NULL);
 
-		ts->data_type = type_create(&params, NULL);
-		return 1;
-	}
 	return 1;
 }
 
@@ -1301,7 +1276,11 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	}
 
 	if (s.scs.typedef_n) {
-		symbols_add_typedef(name)->data_type = type;
+		struct symbol_typedef *symbol = symbols_add_typedef(name);
+		if (symbol->data_type && symbol->data_type != type)
+			ERROR(T0->pos, "%.*s has conflicting types: %s and %s\n", name.len, name.str,
+				  strdup(dbg_type(symbol->data_type)), strdup(dbg_type(type)));
+		symbol->data_type = type;
 		return 1;
 	}
 
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 3cf6d9e..f6a0d34 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -59,9 +59,12 @@ int parse_selection_statement(struct jump_blocks *jump_blocks);
 int parse_iteration_statement(struct jump_blocks *jump_blocks);
 int parse_jump_statement(struct jump_blocks *jump_blocks);
 
+// Substatement of a selection or iteration statement, which is a block of its own.
 static void expect_statement(struct jump_blocks *jump_blocks) {
+	symbols_push_scope();
 	if (!parse_statement(jump_blocks))
 		ERROR(T0->pos, "Expected statement, got %s", dbg_token(T0));
+	symbols_pop_scope();
 }
 
 int parse_labeled_statement(struct jump_blocks *jump_blocks) {
@@ -142,13 +145,17 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 	return 0;
 }
 
+static void parse_block_items(struct jump_blocks *jump_blocks) {
+	while (parse_labeled_statement(jump_blocks) ||
+		   parse_declaration(0) || parse_statement(jump_blocks));
+}
+
 int parse_compound_statement(struct jump_blocks *jump_blocks) {
 	if (!TACCEPT(T_LBRACE))
 		return 0;
 
 	symbols_push_scope();
-	while (parse_labeled_statement(jump_blocks) ||
-		   parse_declaration(0) || parse_statement(jump_blocks));
+	parse_block_items(jump_blocks);
 	symbols_pop_scope();
 
 	TEXPECT(T_RBRACE);
@@ -348,8 +355,6 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	TEXPECT(T_LPAR);
 
-	symbols_push_scope();
-
 	// init:
 	// ... init stuff ...
 	// jmp control
@@ -417,7 +422,6 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	ir_goto(block_advance);
 	ir_block_start(block_end);
 
-	symbols_pop_scope();
 	return 1;
 }
 
@@ -510,12 +514,20 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 	}
 }
 
+static int parse_control_statement(struct jump_blocks *jump_blocks) {
+	// Selection and iteration statements are blocks.
+	symbols_push_scope();
+	int found = parse_selection_statement(jump_blocks) ||
+		parse_iteration_statement(jump_blocks);
+	symbols_pop_scope();
+	return found;
+}
+
 int parse_statement(struct jump_blocks *jump_blocks) {
 	return parse_labeled_statement(jump_blocks) ||
 		parse_compound_statement(jump_blocks) ||
 		parse_expression_statement() ||
-		parse_selection_statement(jump_blocks) ||
-		parse_iteration_statement(jump_blocks) ||
+		parse_control_statement(jump_blocks) ||
 		parse_jump_statement(jump_blocks) ||
 		parse_handle_pragma() ||
 		TACCEPT(T_SEMI_COLON);
@@ -570,7 +582,10 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 		type_evaluate_vla(type->children[i]);
 
 	struct jump_blocks jump_blocks = { 0 };
-	parse_compound_statement(&jump_blocks);
+	// The parameters belong to the outermost block.
+	TEXPECT(T_LBRACE);
+	parse_block_items(&jump_blocks);
+	TEXPECT(T_RBRACE);
 
 	for (unsigned i = 0; i < function_scope.size; i++) {
 		if (!function_scope.labels[i].used)
diff --git a/src/parser/symbols.c b/src/parser/symbols.c
index 0d3e635..46964c8 100644
--- a/src/parser/symbols.c
+++ b/src/parser/symbols.c
@@ -146,12 +146,28 @@ static struct table_entry *add_entry(struct entry_id id) {
 	return new_entry;
 }
 
+// Typedef names and identifiers share one name space.
+static struct table_entry *get_ordinary(enum entry_type type, struct string_view name) {
+	enum entry_type other_type = type == ENTRY_TYPEDEF ? ENTRY_IDENTIFIER : ENTRY_TYPEDEF;
+	struct table_entry *entry = get_entry((struct entry_id) { type, name }, 0);
+	struct table_entry *other = get_entry((struct entry_id) { other_type, name }, 0);
+
+	return (entry && other && other->block > entry->block) ? NULL : entry;
+}
+
+static void check_ordinary_free(enum entry_type other_type, struct string_view name, int block) {
+	struct table_entry *other = get_entry((struct entry_id) { other_type, name }, block == 0);
+
+	if (other && other->block == block)
+		ERROR(T0->pos, "%.*s redeclared as different kind of symbol.", name.len, name.str);
+}
+
 // table_entry querying.
 static struct table_entry *symbols_add(enum entry_type type, struct string_view name) {
 	struct table_entry *entry = get_entry((struct entry_id) { type, name }, 0);
 
 	if (entry && entry->block == current_block)
-		ICE("Name already declared, %.*s", name.len, name.str);
+		ERROR(T0->pos, "Redeclaration of %.*s.", name.len, name.str);
 
 	return add_entry((struct entry_id) { type, name });
 }
@@ -172,13 +188,14 @@ struct symbol_identifier *symbols_add_identifier(struct string_view name) {
 		// Anonymous identifier.
 		return ALLOC((struct symbol_identifier) { 0 });
 	}
+	check_ordinary_free(ENTRY_TYPEDEF, name, current_block);
 	struct table_entry *entry = symbols_add(ENTRY_IDENTIFIER, name);
 	entry->identifier_data = ALLOC((struct symbol_identifier) { 0 });
 	return entry->identifier_data;
 }
 
 struct symbol_identifier *symbols_get_identifier(struct string_view name) {
-	struct table_entry *entry = symbols_get(ENTRY_IDENTIFIER, name);
+	struct table_entry *entry = get_ordinary(ENTRY_IDENTIFIER, name);
 	return entry ? entry->identifier_data : NULL;
 }
 
@@ -193,6 +210,7 @@ struct symbol_identifier *symbols_add_identifier_global(struct string_view name)
 	if (entry && entry->block == current_block)
 		ICE("Name already declared, %.*s", name.len, name.str);
 
+	check_ordinary_free(ENTRY_TYPEDEF, name, 0);
 	entry = add_entry_with_block((struct entry_id) { ENTRY_IDENTIFIER, name }, 0);
 	entry->identifier_data = ALLOC((struct symbol_identifier) { 0 });
 	return entry->identifier_data;
@@ -256,11 +274,12 @@ struct symbol_typedef *symbols_add_typedef(struct string_view name) {
 	if (entry && entry->block == current_block)
 		return &entry->typedef_data;
 
+	check_ordinary_free(ENTRY_IDENTIFIER, name, current_block);
 	return &add_entry(id)->typedef_data;
 }
 
 struct symbol_typedef *symbols_get_typedef(struct string_view name) {
-	struct table_entry *entry = symbols_get(ENTRY_TYPEDEF, name);
+	struct table_entry *entry = get_ordinary(ENTRY_TYPEDEF, name);
 	return entry ? &entry->typedef_data : NULL;
 }
 
-- 
2.43.0


From f0b9648f3502957c22a01f91ade1a03e1b331081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:27 +0000
Subject: [PATCH 50/66] fix: variable length arrays: allocations could move
 past other code, grew the stack in loops; pointers to them could not be
 subtracted, sizeof and parameters evaluated lengths at the wrong time or not
 at all

---
 src/codegen/codegen.c         | 44 +++++++++++++++++------------------
 src/debug.c                   |  2 +-
 src/ir/ir.c                   | 10 +++++---
 src/ir/ir.h                   |  5 ++--
 src/parser/declaration.c      | 19 ++++++++++-----
 src/parser/declaration.h      |  1 +
 src/parser/expression.c       | 30 ++++++++++++++++++++----
 src/parser/expression.h       |  5 ++++
 src/parser/expression_to_ir.c | 15 ++++++++++++
 src/parser/function_parser.c  | 42 ++++++++++++++++++++++++++-------
 src/parser/function_parser.h  |  1 +
 src/parser/symbols.h          |  1 +
 src/types.c                   | 23 +++++++++---------
 src/types.h                   |  9 +++----
 14 files changed, 142 insertions(+), 65 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 9a4b7cb..4388ca0 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -19,9 +19,10 @@ struct codegen_flags codegen_flags = {
 };
 
 struct vla_info {
-	int vla_slot_buffer_offset;
+	int slots_offset; // Each slot holds %rsp after the allocation.
 	int count;
 	int alloc_preamble;
+	int frame_size;
 } vla_info;
 
 struct rbp_save_info {
@@ -29,6 +30,10 @@ struct rbp_save_info {
 	int offset;
 } rbp_save_info;
 
+static int vla_slot_offset(struct node *vla) {
+	return -vla_info.slots_offset + vla->vla_alloc.slot * 8;
+}
+
 void codegen_incoming_stack_address(int offset, int reg) {
 	if (rbp_save_info.has_saved_rsp) {
 		// %rbp has been aligned, and does no longer point to the incoming stack.
@@ -497,27 +502,22 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		break;
 
 	case IR_VLA_ALLOC: {
-		int slot_offset = ins->vla_alloc.dominance * 8;
-		for (int i = ins->vla_alloc.dominance + 1; i < vla_info.count; i++)
-			asm_ins2("movq", IMM(0), MEM(-vla_info.vla_slot_buffer_offset + i * 8, REG_RBP));
-
-		label_id tmp_label = register_label();
-		asm_ins2("movq", MEM(-vla_info.vla_slot_buffer_offset + slot_offset, REG_RBP), R8(REG_RAX));
-		asm_ins2("cmpq", IMM(0), R8(REG_RAX));
-		asm_ins1("jne", IMML_ABS(tmp_label, 0));
-		asm_ins2("movq", R8(REG_RSP), R8(REG_RAX));
-		asm_ins2("movq", R8(REG_RAX), MEM(-vla_info.vla_slot_buffer_offset + slot_offset, REG_RBP));
-		asm_label(0, tmp_label);
-		tmp_label++;
-
-		asm_ins2("movq", R8(REG_RAX), R8(REG_RSP));
-
-		asm_ins2("movq", R8(REG_RSP), MEM(-vla_info.vla_slot_buffer_offset + slot_offset, REG_RBP));
+		struct node *enclosing = ins->vla_alloc.enclosing;
+
+		// Start right below the arrays that still are alive.
+		if (enclosing)
+			asm_ins2("movq", MEM(vla_slot_offset(enclosing), REG_RBP), R8(REG_RSP));
+		else
+			asm_ins2("leaq", MEM(-vla_info.frame_size, REG_RBP), R8(REG_RSP));
+
 		scalar_to_reg(ins->arguments[0], REG_RAX);
 		asm_ins2("subq", R8(REG_RAX), R8(REG_RSP));
-		reg_to_scalar(REG_RSP, ins);
 		// Align %rsp to 16 boundary. (Remember stack grows downwards. So rounding down is actually correct.)
 		asm_ins2("andq", IMM(-16), R8(REG_RSP));
+		asm_ins2("movq", R8(REG_RSP), MEM(vla_slot_offset(ins), REG_RBP));
+
+		if (ins->projects[1])
+			reg_to_scalar(REG_RSP, ins->projects[1]);
 	} break;
 
 	case IR_ALLOC:
@@ -693,12 +693,12 @@ static void codegen_function(struct node *func) {
 		for (struct node *ins = block->child; ins; ins = ins->next) {
 
 			if (ins->type == IR_VLA_ALLOC)
-				ins->vla_alloc.dominance = vla_info.count++;
+				ins->vla_alloc.slot = vla_info.count++;
 		}
 	}
 
 	perm_stack_count += vla_info.count * 8;
-	vla_info.vla_slot_buffer_offset = perm_stack_count;
+	vla_info.slots_offset = perm_stack_count;
 
 	size_t stack_alignment = 0;
 	// Allocate IR_ALLOC instructions.
@@ -767,12 +767,10 @@ static void codegen_function(struct node *func) {
 	int stack_sub = round_up_to_nearest(perm_stack_count + max_temp_stack, 16);
 	if (stack_sub)
 		asm_ins2("subq", IMM(stack_sub), R8(REG_RSP));
+	vla_info.frame_size = stack_sub;
 
 	abi_emit_function_preamble(func);
 
-	for (int i = 0; i < vla_info.count; i++)
-		asm_ins2("movq", IMM(0), MEM(-vla_info.vla_slot_buffer_offset + i * 8, REG_RBP));
-
 	struct node *reg_source = func->projects[1];
 	if (reg_source)
 		codegen_get_reg_uses(reg_source);
diff --git a/src/debug.c b/src/debug.c
index 41d2e1a..ec2697a 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -182,7 +182,7 @@ const char *dbg_instruction(struct node *ins) {
 			str = "region";
 		}
 		break;
-	case IR_VLA_ALLOC: str = "vla_alloc %d"; break;
+	case IR_VLA_ALLOC: str = "vla_alloc %d, state: %d"; break;
 	case IR_RETURN: str = "return %d, %d, %d"; break;
 
 	case IR_CONSTANT: // TODO: Print the constant.
diff --git a/src/ir/ir.c b/src/ir/ir.c
index c58a71d..05ea661 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -577,8 +577,11 @@ void ir_call(struct node *callee, struct node *reg_state, struct node *call_stac
 	*reg_source = ir_project(ins, 1, 0);
 }
 
-struct node *ir_vla_alloc(struct node *length) {
-	return ir_new1(IR_VLA_ALLOC, length, 8);
+struct node *ir_vla_alloc(struct node *length, struct node *enclosing) {
+	struct node *ins = ir_new2(IR_VLA_ALLOC, length, get_state(), 0);
+	ins->vla_alloc.enclosing = enclosing ? enclosing->arguments[0] : NULL;
+	set_state(ir_project(ins, 0, 0));
+	return ir_project(ins, 1, 8);
 }
 
 struct node *ir_set_reg(struct node *variable, struct node *reg_state, int register_index, int is_sse) {
@@ -719,7 +722,8 @@ struct node *node_get_prev_state(struct node *node) {
 		return node->arguments[1];
 	else if (node->type == IR_VA_ARG)
 		return node->arguments[2];
-	else if (node->type == IR_LOAD_VOLATILE)
+	else if (node->type == IR_LOAD_VOLATILE ||
+			 node->type == IR_VLA_ALLOC)
 		return node->arguments[1];
 	else if (node->type == IR_LOAD_BASE_RELATIVE_ADDRESS)
 		return node->arguments[1];
diff --git a/src/ir/ir.h b/src/ir/ir.h
index 84ccd92..1e59a9d 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -105,7 +105,8 @@ struct node {
 		} va_arg_;
 
 		struct {
-			int dominance;
+			struct node *enclosing; // Innermost array that outlives this one.
+			int slot;
 		} vla_alloc;
 
 		struct {
@@ -285,7 +286,7 @@ struct node *ir_constant(struct constant constant);
 void ir_call(struct node *callee, struct node *reg_state, struct node *call_stack,
 			 int non_clobbered_register,
 			 struct node **reg_source);
-struct node *ir_vla_alloc(struct node *length);
+struct node *ir_vla_alloc(struct node *length, struct node *enclosing);
 
 struct node *ir_set_reg(struct node *variable, struct node *reg_state, int register_index, int is_sse);
 struct node *ir_get_reg(struct node *source, int size, int register_index, int is_sse);
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 437fdf0..d46ebce 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -683,7 +683,7 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 				} else {
 					struct type params = {
 						.type = TY_VARIABLE_LENGTH_ARRAY,
-						.variable_length_array.length_expr = length_expr,
+						.vla_length = ALLOC((struct vla_length) { .expr = length_expr }),
 						.n = 1
 					};
 					type = type_create(&params, &type);
@@ -692,7 +692,7 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 			case ARR_STAR: {
 				struct type params = {
 					.type = TY_VARIABLE_LENGTH_ARRAY,
-					.variable_length_array.length_expr = NULL,
+					.vla_length = ALLOC((struct vla_length) { 0 }),
 					.n = 1
 				};
 				type = type_create(&params, &type);
@@ -746,6 +746,7 @@ static struct parameter_list parse_parameter_list(void) {
 		ret.types = cc_realloc(ret.types, ret.n * sizeof(*ret.types));
 		struct string_view name = { 0 };
 		struct type *type = ast_to_type(&s.ts, &s.tq, ast, &name, 1);
+		struct type *declared_type = type;
 		type = type_adjust_parameter(type);
 		ret.types[ret.n - 1] = type;
 
@@ -757,6 +758,7 @@ static struct parameter_list parse_parameter_list(void) {
 
 		ident->type = IDENT_PARAMETER;
 		ident->parameter.type = type;
+		ident->parameter.declared_type = declared_type;
 		ret.arguments[ret.n - 1] = ident;
 
 		if (T0->type == T_RPAR)
@@ -1203,6 +1205,13 @@ struct initializer parse_initializer(struct type **type) {
 }
 
 struct type *parse_type_name(void) {
+	struct type *type = parse_unevaluated_type_name();
+	if (type)
+		type_evaluate_vla(type);
+	return type;
+}
+
+struct type *parse_unevaluated_type_name(void) {
 	struct specifiers s = {0};
 	int has_spec = parse_specifiers(&s.ts, NULL, &s.tq, NULL, &s.as);
 
@@ -1214,9 +1223,7 @@ struct type *parse_type_name(void) {
 	if (!was_abstract)
 		ERROR(T0->pos, "Type name must be abstract");
 
-	struct type *type = ast_to_type(&s.ts, &s.tq, ast, NULL, 0);
-	type_evaluate_vla(type);
-	return type;
+	return ast_to_type(&s.ts, &s.tq, ast, NULL, 0);
 }
 
 struct {
@@ -1378,7 +1385,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		} else {
 			if (type_has_variable_size(type)) {
 				symbol->type = IDENT_VARIABLE;
-				symbol->variable.ptr = ir_vla_alloc(expression_to_size_t(type_sizeof(type)));
+				symbol->variable.ptr = allocate_vla(expression_to_size_t(type_sizeof(type)));
 				symbol->variable.type = type;
 
 				if (has_init)
diff --git a/src/parser/declaration.h b/src/parser/declaration.h
index 0180c37..bd126a3 100644
--- a/src/parser/declaration.h
+++ b/src/parser/declaration.h
@@ -103,6 +103,7 @@ struct specifiers {
 
 // See section A.2.2 in the standard.
 struct type *parse_type_name(void);
+struct type *parse_unevaluated_type_name(void);
 int parse_declaration(int external);
 
 void generate_tentative_definitions(void);
diff --git a/src/parser/expression.c b/src/parser/expression.c
index fceaecc..4c94e62 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -192,6 +192,12 @@ static struct type *calculate_type(struct expr *expr) {
 	case E_CONST_REMOVE:
 		return type_make_const(expr->args[0]->data_type, 0);
 
+	case E_VLA_LENGTH:
+		return type_simple(abi_info.size_type);
+
+	case E_EVALUATE_TYPE:
+		return type_simple(ST_VOID);
+
 	case E_SYMBOL:
 		switch (expr->symbol->type) {
 		case IDENT_PARAMETER:
@@ -366,7 +372,8 @@ static void check_binary_operator(enum operator_type op, struct expr *lhs, struc
 			(type_is_pointer(a) && type_is_integer(b)) ||
 			(op == OP_ADD && type_is_integer(a) && type_is_pointer(b)) ||
 			(op == OP_SUB && type_is_pointer(a) && type_is_pointer(b) &&
-			 type_remove_qualifications(type_deref(a)) == type_remove_qualifications(type_deref(b)));
+			 type_make_composite(type_remove_qualifications(type_deref(a)),
+								 type_remove_qualifications(type_deref(b))));
 
 		if ((type_is_pointer(a) && !type_is_complete(type_deref(a))) ||
 			(type_is_pointer(b) && !type_is_complete(type_deref(b))))
@@ -731,23 +738,36 @@ static struct expr *parse_prefix(void) {
 		return EXPR_ARGS(E_ADDRESS_OF, rhs);
 	} else if (TACCEPT(T_KSIZEOF)) {
 		struct type *type = NULL;
+		struct expr *operand = NULL;
 		struct token t = *T0;
 		if (TACCEPT(T_LPAR)) {
-			type = parse_type_name();
+			type = parse_unevaluated_type_name();
 			if (type) {
 				TEXPECT(T_RPAR);
 			} else {
 				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
+				operand = parse_pratt(PREFIX_PREC);
 			}
 		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
+			operand = parse_pratt(PREFIX_PREC);
 		}
 
+		if (operand)
+			type = operand->data_type;
+
 		if (!type_is_complete(type))
 			ERROR(T0->pos, "Invalid type %s in sizeof.", dbg_type(type));
 
-		return type_sizeof(type);
+		if (!type_has_variable_size(type))
+			return type_sizeof(type);
+
+		// Operands of variable size are evaluated.
+		if (!operand)
+			operand = expr_new((struct expr) {
+					.type = E_EVALUATE_TYPE,
+					.evaluate_type = type
+				});
+		return EXPR_ARGS(E_COMMA, operand, type_sizeof(type));
 	} else if (TACCEPT(T_KALIGNOF)) {
 		struct type *type = NULL;
 		struct token t = *T0;
diff --git a/src/parser/expression.h b/src/parser/expression.h
index 25d2150..986df17 100644
--- a/src/parser/expression.h
+++ b/src/parser/expression.h
@@ -87,6 +87,8 @@ struct expr {
 		E_BUILTIN_VA_ARG,
 		E_BUILTIN_VA_COPY,
 		E_CONST_REMOVE,
+		E_VLA_LENGTH,
+		E_EVALUATE_TYPE,
 
 		E_BINARY_OP,
 
@@ -154,6 +156,9 @@ struct expr {
 			int postfix, sub;
 		} assignment_pointer;
 
+		struct vla_length *vla_length;
+		struct type *evaluate_type;
+
 		enum operator_type binary_op;
 		enum unary_operator_type unary_op;
 	};
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 7c0c955..0cbb85b 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -747,6 +747,21 @@ struct evaluated_expression expression_evaluate(struct expr *expr) {
 		};
 		break;
 
+	case E_VLA_LENGTH:
+		assert(expr->vla_length->is_evaluated);
+		ret = (struct evaluated_expression) {
+			.type = EE_VARIABLE,
+			.variable = expr->vla_length->var,
+		};
+		break;
+
+	case E_EVALUATE_TYPE:
+		type_evaluate_vla(expr->evaluate_type);
+		ret = (struct evaluated_expression) {
+			.type = EE_VOID,
+		};
+		break;
+
 	case E_COMMA:
 		expression_evaluate(expr->args[0]);
 		ret = expression_evaluate(expr->args[1]);
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index f6a0d34..0405637 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -59,12 +59,29 @@ int parse_selection_statement(struct jump_blocks *jump_blocks);
 int parse_iteration_statement(struct jump_blocks *jump_blocks);
 int parse_jump_statement(struct jump_blocks *jump_blocks);
 
+static struct node *innermost_vla = NULL;
+
+struct node *allocate_vla(struct node *length) {
+	return innermost_vla = ir_vla_alloc(length, innermost_vla);
+}
+
+// Arrays of variable length live until the end of their block.
+static struct node *enter_block(void) {
+	symbols_push_scope();
+	return innermost_vla;
+}
+
+static void leave_block(struct node *outer_vla) {
+	symbols_pop_scope();
+	innermost_vla = outer_vla;
+}
+
 // Substatement of a selection or iteration statement, which is a block of its own.
 static void expect_statement(struct jump_blocks *jump_blocks) {
-	symbols_push_scope();
+	struct node *outer_vla = enter_block();
 	if (!parse_statement(jump_blocks))
 		ERROR(T0->pos, "Expected statement, got %s", dbg_token(T0));
-	symbols_pop_scope();
+	leave_block(outer_vla);
 }
 
 int parse_labeled_statement(struct jump_blocks *jump_blocks) {
@@ -154,9 +171,9 @@ int parse_compound_statement(struct jump_blocks *jump_blocks) {
 	if (!TACCEPT(T_LBRACE))
 		return 0;
 
-	symbols_push_scope();
+	struct node *outer_vla = enter_block();
 	parse_block_items(jump_blocks);
-	symbols_pop_scope();
+	leave_block(outer_vla);
 
 	TEXPECT(T_RBRACE);
 	return 1;
@@ -516,10 +533,10 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 
 static int parse_control_statement(struct jump_blocks *jump_blocks) {
 	// Selection and iteration statements are blocks.
-	symbols_push_scope();
+	struct node *outer_vla = enter_block();
 	int found = parse_selection_statement(jump_blocks) ||
 		parse_iteration_statement(jump_blocks);
-	symbols_pop_scope();
+	leave_block(outer_vla);
 	return found;
 }
 
@@ -540,7 +557,6 @@ struct string_view get_current_function_name(void) {
 }
 
 void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int is_static, int is_not_inline) {
-	(void)arg_n;
 	current_function = name;
 	struct symbol_identifier *symbol = symbols_get_identifier_global(name);
 
@@ -551,6 +567,7 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	}
 
 	function_scope.size = 0;
+	innermost_vla = NULL;
 
 	current_ret_val = type->children[0];
 
@@ -576,10 +593,17 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 
 	struct node *func = new_function(sv_to_str(name), symbol->is_global && symbol->is_not_inline);
 	symbol->function = func;
+
+	// Also the types that were adjusted to pointers are evaluated.
+	struct type *parameter_types[arg_n + 1];
+	for (int i = 0; i < arg_n; i++)
+		parameter_types[i] = args[i]->parameter.declared_type;
+
 	abi_expr_function(func, type, args);
 
-	for (int i = 0; i < type->n; i++)
-		type_evaluate_vla(type->children[i]);
+	type_evaluate_vla(type->children[0]);
+	for (int i = 0; i < arg_n; i++)
+		type_evaluate_vla(parameter_types[i]);
 
 	struct jump_blocks jump_blocks = { 0 };
 	// The parameters belong to the outermost block.
diff --git a/src/parser/function_parser.h b/src/parser/function_parser.h
index 68c7539..668bb0b 100644
--- a/src/parser/function_parser.h
+++ b/src/parser/function_parser.h
@@ -5,6 +5,7 @@
 #include "parser/symbols.h"
 
 void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int is_static, int is_not_inline);
+struct node *allocate_vla(struct node *length);
 struct string_view get_current_function_name(void);
 
 #endif
diff --git a/src/parser/symbols.h b/src/parser/symbols.h
index 5779086..6fcbc22 100644
--- a/src/parser/symbols.h
+++ b/src/parser/symbols.h
@@ -29,6 +29,7 @@ struct symbol_identifier {
 		struct constant constant;
 		struct {
 			struct type *type;
+			struct type *declared_type; // Before the adjustment of arrays and functions.
 		} parameter;
 		struct {
 			struct type *type;
diff --git a/src/types.c b/src/types.c
index fd659e0..9c44a9b 100644
--- a/src/types.c
+++ b/src/types.c
@@ -51,8 +51,7 @@ static int compare_types(struct type *a, struct type **a_children,
 		break;
 
 	case TY_VARIABLE_LENGTH_ARRAY:
-		if (a->variable_length_array.length_expr !=
-			b->variable_length_array.length_expr)
+		if (a->vla_length != b->vla_length)
 			return 0;
 		break;
 
@@ -92,7 +91,7 @@ static uint32_t type_hash(struct type *type, struct type **children) {
 	case TY_INCOMPLETE_ARRAY:
 		break;
 	case TY_VARIABLE_LENGTH_ARRAY:
-		hash ^= hash32((size_t)type->variable_length_array.length_expr);
+		hash ^= hash32((size_t)type->vla_length);
 		break;
 	default:
 		NOTIMP();
@@ -423,9 +422,10 @@ struct expr *type_sizeof(struct type *type) {
 	if (type_has_variable_size(type)) {
 		switch (type->type) {
 		case TY_VARIABLE_LENGTH_ARRAY:
-			assert(type->variable_length_array.is_evaluated);
-			return EXPR_BINARY_OP(OP_MUL, EXPR_VAR(type->variable_length_array.length_var, type_simple(ST_INT), 0),
-								  type_sizeof(type->children[0]));
+			return EXPR_BINARY_OP(OP_MUL, expr_new((struct expr) {
+						.type = E_VLA_LENGTH,
+						.vla_length = type->vla_length
+					}), type_sizeof(type->children[0]));
 		case TY_ARRAY:
 			return EXPR_BINARY_OP(OP_MUL, EXPR_INT(type->array.length),
 								  type_sizeof(type->children[0]));
@@ -457,14 +457,13 @@ void type_evaluate_vla(struct type *type) {
 		type_evaluate_vla(type->children[i]);
 
 	if (type->type == TY_VARIABLE_LENGTH_ARRAY) {
-		if (!type->variable_length_array.length_expr)
+		if (!type->vla_length->expr)
 			ERROR_NO_POS("[*] is only allowed in function prototypes.");
 		if (!get_current_function_name().len)
 			ERROR_NO_POS("Variable length array outside of function.");
-		if (!type->variable_length_array.is_evaluated) {
-			type->variable_length_array.length_var = expression_to_size_t(type->variable_length_array.length_expr);
-		}
-		type->variable_length_array.is_evaluated = 1;
+		if (!type->vla_length->is_evaluated)
+			type->vla_length->var = expression_to_size_t(type->vla_length->expr);
+		type->vla_length->is_evaluated = 1;
 	}
 }
 
@@ -473,7 +472,7 @@ int type_contains_unevaluated_vla(struct type *type) {
 		if (type_contains_unevaluated_vla(type->children[i]))
 			return 1;
 
-	return type->type == TY_VARIABLE_LENGTH_ARRAY && !type->variable_length_array.is_evaluated;
+	return type->type == TY_VARIABLE_LENGTH_ARRAY && !type->vla_length->is_evaluated;
 }
 
 // See 6.2.7.
diff --git a/src/types.h b/src/types.h
index 234e86d..1e148c1 100644
--- a/src/types.h
+++ b/src/types.h
@@ -76,11 +76,12 @@ struct type {
 		struct { 
 			size_t length;
 		} array;
-		struct {
+		// Shared between all variants of the type.
+		struct vla_length {
 			int is_evaluated;
-			struct node *length_var;
-			struct expr *length_expr;
-		} variable_length_array;
+			struct node *var;
+			struct expr *expr;
+		} *vla_length;
 		struct {
 			int is_variadic;
 		} function;
-- 
2.43.0


From 9024cd97317c1fcb95e600c144267535404542f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:16 +0000
Subject: [PATCH 51/66] fix: check the associations of _Generic

---
 src/parser/expression.c | 45 +++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 4c94e62..60dc97f 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -865,33 +865,44 @@ static struct expr *parse_prefix(void) {
 		decay_array(&expr);
 		struct type *match_type = type_make_const(expr->data_type, 0);
 
-		struct expr *res = NULL;
-		int res_is_default = 0;
+		struct expr *res = NULL, *default_res = NULL;
+		size_t n_types = 0, types_cap = 0;
+		struct type **types = NULL;
 
 		while (TACCEPT(T_COMMA)) {
-			int default_ = 0;
 			struct type *type = NULL;
-			if (TACCEPT(T_KDEFAULT)) {
-				res_is_default = 1;
-				default_ = 1;
-			} else {
+			if (!TACCEPT(T_KDEFAULT)) {
 				type = parse_type_name();
-			}
-			TEXPECT(T_COLON);
-			struct expr *rhs = parse_assignment_expression();
-			if (default_) {
-				if (!res)
-					res = rhs;
-			} else {
-				if (type_make_composite(type, match_type)) {
-					if (res && !res_is_default)
+				if (!type)
+					ERROR(T0->pos, "Expected type name in _Generic association.");
+				if (!type_is_complete(type) || type_has_variable_size(type))
+					ERROR(T0->pos, "Invalid type %s in _Generic association.", dbg_type(type));
+
+				// Long double is the same type as double here, and both may be present.
+				for (size_t i = 0; i < n_types && type != type_simple(ST_DOUBLE); i++) {
+					if (type_make_composite(type, types[i]))
 						ERROR(T0->pos, "More than one compatible type in _Generic association list, %s",
 							  strdup(dbg_type(type)));
-					res = rhs;
 				}
+
+				ADD_ELEMENT(n_types, types_cap, types) = type;
+			}
+			TEXPECT(T_COLON);
+			struct expr *rhs = parse_assignment_expression();
+			if (!type) {
+				if (default_res)
+					ERROR(T0->pos, "More than one default in _Generic association list.");
+				default_res = rhs;
+			} else if (!res && type_make_composite(type, match_type)) {
+				res = rhs;
 			}
 		}
 
+		free(types);
+
+		if (!res)
+			res = default_res;
+
 		if (!res)
 			ERROR(T0->pos, "No type matched the expresison in _Generic");
 
-- 
2.43.0


From 020709e1e643f26e39db085b943b7c0e4f2650ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:39 +0000
Subject: [PATCH 52/66] fix: reject duplicate case and default labels

---
 src/parser/function_parser.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 0405637..3d4c510 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -21,6 +21,14 @@ struct jump_blocks {
 	struct node *block_entry, *block_default;
 	struct node *case_control;
 	struct type *control_type;
+	struct case_labels *case_labels;
+};
+
+// The labels of one switch statement.
+struct case_labels {
+	size_t size, cap;
+	uint64_t *values;
+	int has_default;
 };
 
 static struct function_scope {
@@ -127,6 +135,15 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!constant || constant->type != CONSTANT_TYPE)
 			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
 
+		struct case_labels *labels = jump_blocks->case_labels;
+		uint64_t label_value = is_signed(constant->data_type->simple) ?
+			(uint64_t)constant->int_d : constant->uint_d;
+		for (size_t i = 0; i < labels->size; i++) {
+			if (labels->values[i] == label_value)
+				ERROR(T0->pos, "Duplicate case label.");
+		}
+		ADD_ELEMENT(labels->size, labels->cap, labels->values) = label_value;
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -154,6 +171,9 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		ir_block_start(block_default);
 		if (!jump_blocks->block_entry)
 			ERROR(T0->pos, "Not currently in a switch statement");
+		if (jump_blocks->case_labels->has_default)
+			ERROR(T0->pos, "Duplicate default label.");
+		jump_blocks->case_labels->has_default = 1;
 		jump_blocks->block_default = block_default;
 
 		parse_statement(jump_blocks);
@@ -217,8 +237,12 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.control_type = condition->data_type;
 	new_jump_blocks.block_default = NULL;
 
+	struct case_labels case_labels = { 0 };
+	new_jump_blocks.case_labels = &case_labels;
+
 	// Parse body
 	expect_statement(&new_jump_blocks);
+	free(case_labels.values);
 
 	// A continue statement belongs to the enclosing loop.
 	jump_blocks->block_continue = new_jump_blocks.block_continue;
-- 
2.43.0


From 19f62228892470c6a3b6b2faf70aa8ffa8558529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:39 +0000
Subject: [PATCH 53/66] fix: options: read past the end of '-', lone or missing
 arguments were mistaken for others

---
 src/arguments.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arguments.c b/src/arguments.c
index 322fd12..0a773d9 100644
--- a/src/arguments.c
+++ b/src/arguments.c
@@ -58,6 +58,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 		enum state next_state = S_OPERAND;
 
 		if (state == S_OPERAND) {
+			const char *option = arg;
 			if (arg[0] == '-' && arg[1] == 'M') {
 				arg += 2;
 
@@ -69,6 +70,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 				case 'D': ret.flag_MD = 1; cont = 0; break;
 				case 'T': next_state = S_MT; break;
 				case 'F': next_state = S_MF; break;
+				default: cont = 0; break;
 				}
 
 				arg++;
@@ -77,18 +79,18 @@ struct arguments arguments_parse(int argc, char **argv) {
 					if (cont) {
 						next_arg = arg;
 					} else if (!ignore) {
-						ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i]);
+						ERROR_NO_POS("Unrecognized flag: \"%s\"", option);
 					}
 				}
 			} else if (arg[0] == '-' && arg[1] == 's' && arg[2] == 't' && arg[3] == 'd') {
 				// Quietly ignored.
-			} else if (*arg == '-') {
+			} else if (arg[0] == '-' && arg[1]) {
 				arg++;
 
 				int cont = 1, ignore = 0;
 				switch (*arg) {
 				case 'c': ret.flag_c = 1; cont = 0; break;
-				case 'g': ret.flag_g = 1; cont = 0; break;
+				case 'g': ret.flag_g = 1; ignore = 1; cont = 0; break;
 				case 's': ret.flag_s = 1; cont = 0; break;
 				case 'E': ret.flag_E = 1; cont = 0; break;
 				case 'S': ret.flag_S = 1; cont = 0; break;
@@ -103,6 +105,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 				case 'L': next_state = S_LIBRARY_DIR; break;
 				case 'l': next_state = S_LIBRARY; break;
 				case 'f': next_state = S_FLAG; break;
+				default: cont = 0; break;
 				}
 
 				arg++;
@@ -111,7 +114,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 					if (cont) {
 						next_arg = arg;
 					} else if (!ignore) {
-						ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i]);
+						ERROR_NO_POS("Unrecognized flag: \"%s\"", option);
 					}
 				}
 			} else {
@@ -142,6 +145,9 @@ struct arguments arguments_parse(int argc, char **argv) {
 		state = next_state;
 	}
 
+	if (state != S_OPERAND)
+		ERROR_NO_POS("Missing argument to \"%s\"", argv[argc - 1]);
+
 	ret.n_operand = operand_size;
 	ret.operands = operands;
 
-- 
2.43.0


From 46cf7e125d7e28ff3b5a34dc51d5d5136d8ef0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:39 +0000
Subject: [PATCH 54/66] fix: failed opens and writes of outputs went
 unreported, rejected programs left partial assembly; dependency files were
 not escaped, crashed without suffix, missing with -E

---
 src/assembler/assembler.c       | 53 ++++++++++++++++++++++-----------
 src/common.c                    | 16 ++++++++++
 src/common.h                    |  2 ++
 src/ir/export_dot.c             |  6 ++--
 src/linker/coff.c               |  4 +--
 src/linker/elf.c                |  6 ++--
 src/main.c                      | 49 +++++++++++++++++-------------
 src/preprocessor/directives.c   | 47 ++++++++++++++++++++++-------
 src/preprocessor/directives.h   |  2 +-
 src/preprocessor/input.c        |  6 ++--
 src/preprocessor/preprocessor.c |  4 +--
 src/preprocessor/preprocessor.h |  2 +-
 12 files changed, 133 insertions(+), 64 deletions(-)

diff --git a/src/assembler/assembler.c b/src/assembler/assembler.c
index 1b8c5ac..9ca430d 100644
--- a/src/assembler/assembler.c
+++ b/src/assembler/assembler.c
@@ -16,14 +16,20 @@
 
 static int assemble_to_text = 0;
 
-static FILE *out;
+// The text is kept until it is complete, so that an error leaves no output.
+static char *text;
+static size_t text_size, text_cap;
+static const char *text_path;
 static const char *current_section;
 
 static struct object *out_object;
 
 void asm_reset(void) {
 	assemble_to_text = 0;
-	out = NULL;
+	free(text);
+	text = NULL;
+	text_size = text_cap = 0;
+	text_path = NULL;
 	current_section = NULL;
 	out_object = NULL;
 }
@@ -32,10 +38,7 @@ void asm_init_text_out(const char *path) {
 	assemble_to_text = 1;
 	current_section = ".text";
 
-	out = fopen(path, "w");
-
-	if (!out)
-		ICE("Could not open file %s", path);
+	text_path = path;
 }
 
 void asm_init_object(struct object *object) {
@@ -45,12 +48,29 @@ void asm_init_object(struct object *object) {
 
 void asm_finish(void) {
 	if (assemble_to_text) {
-		fclose(out);
+		FILE *fp = file_open_output(text_path, "w");
+		file_write(fp, text, text_size);
+		file_close_output(fp, text_path);
 	} else {
 		*out_object = *object_finish();
 	}
 }
 
+static void text_vprintf(const char *fmt, va_list args1) {
+	va_list args2;
+	va_copy(args2, args1);
+	size_t length = vsnprintf(NULL, 0, fmt, args1);
+
+	if (text_cap - text_size <= length) {
+		text_cap = MAX(text_cap * 2, text_size + length + 1);
+		text = cc_realloc(text, text_cap);
+	}
+
+	vsprintf(text + text_size, fmt, args2);
+	text_size += length;
+	va_end(args2);
+}
+
 // Emit.
 static void asm_emit_no_newline(const char *fmt, ...) {
 	if (!assemble_to_text)
@@ -58,7 +78,7 @@ static void asm_emit_no_newline(const char *fmt, ...) {
 
 	va_list args;
 	va_start(args, fmt);
-	vfprintf(out, fmt, args);
+	text_vprintf(fmt, args);
 	va_end(args);
 }
 
@@ -82,9 +102,9 @@ void asm_comment(const char *fmt, ...) {
 
 	va_list args;
 	va_start(args, fmt);
-	fprintf(out, "\t#");
-	vfprintf(out, fmt, args);
-	fprintf(out, "\n");
+	asm_emit_no_newline("\t#");
+	text_vprintf(fmt, args);
+	asm_emit_no_newline("\n");
 	va_end(args);
 }
 
@@ -93,13 +113,13 @@ void asm_label(int global, label_id label) {
 		object_symbol_set(label, global);
 	} else {
 		if (global) {
-			fprintf(out, ".global ");
+			asm_emit_no_newline(".global ");
 			emit_label(label);
-			fprintf(out, "\n");
+			asm_emit_no_newline("\n");
 		}
 
 		emit_label(label);
-		fprintf(out, ":\n");
+		asm_emit_no_newline(":\n");
 	}
 }
 
@@ -188,12 +208,9 @@ static void asm_ins_impl(const char *mnemonic, struct operand ops[4]) {
 
 		if (len == -1) {
 			printf("Could not assemble instruction: \n");
-			out = stdout;
 			assemble_to_text = 1;
 			asm_ins_impl(mnemonic, ops);
-			assemble_to_text = 0;
-			out = NULL;
-			ICE("Assembler error.");
+			ICE("Assembler error in %s", text);
 		}
 
 		for (int i = 0; i < n_relocations; i++) {
diff --git a/src/common.c b/src/common.c
index a2a2ab5..f6e0380 100644
--- a/src/common.c
+++ b/src/common.c
@@ -115,6 +115,20 @@ uint64_t read_64(uint8_t *data) {
 	return read_32(data) | ((uint64_t)read_32(data + 4) << 32);
 }
 
+FILE *file_open_output(const char *path, const char *mode) {
+	FILE *fp = fopen(path, mode);
+	if (!fp)
+		ERROR_NO_POS("Could not open file \"%s\" for writing", path);
+	return fp;
+}
+
+// What is written may not reach the file until it is closed.
+void file_close_output(FILE *fp, const char *path) {
+	int failed = ferror(fp);
+	if (fclose(fp) != 0 || failed)
+		ERROR_NO_POS("Could not write file \"%s\"", path);
+}
+
 void file_write(FILE *fp, const void *ptr, size_t size) {
 	if (size == 0)
 		return;
@@ -149,6 +163,8 @@ void file_write_zero(FILE *fp, size_t size) {
 
 void file_write_skip(FILE *fp, size_t target) {
 	long int current_pos = ftell(fp);
+	if (current_pos < 0)
+		ERROR_NO_POS("Output file is not seekable");
 	assert(target >= (size_t)current_pos);
 	file_write_zero(fp, target - current_pos);
 }
diff --git a/src/common.h b/src/common.h
index 37bd075..f6ede82 100644
--- a/src/common.h
+++ b/src/common.h
@@ -55,6 +55,8 @@ uint16_t read_16(uint8_t *data);
 uint32_t read_32(uint8_t *data);
 uint64_t read_64(uint8_t *data);
 
+FILE *file_open_output(const char *path, const char *mode);
+void file_close_output(FILE *fp, const char *path);
 void file_write(FILE *fp, const void *ptr, size_t size);
 void file_write_byte(FILE *fp, uint8_t byte);
 void file_write_word(FILE *fp, uint16_t word);
diff --git a/src/ir/export_dot.c b/src/ir/export_dot.c
index 828077f..0024673 100644
--- a/src/ir/export_dot.c
+++ b/src/ir/export_dot.c
@@ -59,9 +59,7 @@ static void add_recursive(struct node *start) {
 }
 
 void export_dot(const char *path) {
-	fp = fopen(path, "w");
-	if (!fp)
-		ICE("Could not open file \"%s\"", path);
+	fp = file_open_output(path, "w");
 	fprintf(fp, "digraph graphname {\n");
 
 	int count = 0;
@@ -111,5 +109,5 @@ void export_dot(const char *path) {
 		add_recursive(first_function);
 
 	fprintf(fp, "}\n");
-	fclose(fp);
+	file_close_output(fp, path);
 }
diff --git a/src/linker/coff.c b/src/linker/coff.c
index 509dc51..47fc8d7 100644
--- a/src/linker/coff.c
+++ b/src/linker/coff.c
@@ -334,7 +334,7 @@ static void coff_allocate(struct coff_file *coff) {
 }
 
 static void coff_write(const char *path, struct coff_file *coff) {
-	FILE *fp = fopen(path, "wb");
+	FILE *fp = file_open_output(path, "wb");
 	coff_write_header(fp, &coff->header);
 
 	for (unsigned i = 0; i < coff->header.number_of_sections; i++) {
@@ -356,7 +356,7 @@ static void coff_write(const char *path, struct coff_file *coff) {
 		}
 	}
 
-	fclose(fp);
+	file_close_output(fp, path);
 }
 
 void coff_write_object(const char *path, struct object *object) {
diff --git a/src/linker/elf.c b/src/linker/elf.c
index e00867c..17771f5 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -751,17 +751,19 @@ static void write_segments(FILE *fp, struct elf_file *elf) {
 }
 
 static void elf_write(const char *path, struct elf_file *elf) {
-	FILE *fp = fopen(path, "wb");
+	FILE *fp = file_open_output(path, "wb");
 
 	write_header(fp, elf);
 	write_sections(fp, elf);
 	write_segments(fp, elf);
 
-	fclose(fp);
+	file_close_output(fp, path);
 }
 
 static struct elf_file *elf_read(const char *path) {
 	FILE *fp = fopen(path, "rb");
+	if (!fp)
+		ERROR_NO_POS("Could not open file \"%s\"", path);
 	struct elf_file elf = { 0 };
 
 	int not_elf = read_header(fp, &elf);
diff --git a/src/main.c b/src/main.c
index 126a8f6..f93b9bb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -67,14 +67,27 @@ static int is_ext_file(struct string_view view, char ext) {
 		view.str[view.len - 1] == ext;
 }
 
-static char *dependency_path_from_outfile(const char* path) {
+// Replaces the extension with that of dependency files.
+static char *dependency_path_from_outfile(const char *path) {
+	int basename_start = strlen(path) - get_basename(path).len;
 	int len = strlen(path);
 
-	if (len <= 2 || (strcmp(path + len - 2, ".o") != 0 &&
-					 strcmp(path + len - 2, ".s") != 0))
-		return NULL;
+	for (int i = len - 1; i > basename_start; i--) {
+		if (path[i] == '.') {
+			len = i;
+			break;
+		}
+	}
 
-	return allocate_printf("%.*s.d", len - 2, path);
+	return allocate_printf("%.*s.d", len, path);
+}
+
+static void write_dependencies(struct arguments *arguments, const char *outfile) {
+	const char *target = arguments->mt_path ? arguments->mt_path : outfile;
+	const char *mf_path = arguments->mf_path ? arguments->mf_path :
+		dependency_path_from_outfile(outfile);
+
+	preprocessor_finish_writing_dependencies(target, !arguments->mt_path, mf_path);
 }
 
 static void add_definition(const char *str) {
@@ -204,22 +217,8 @@ static void compile_file(const char *path,
 		ADD_ELEMENT(object_size, object_cap, objects) = out_object;
 	}
 
-	if (arguments->flag_MD) {
-		const char *mt_path = NULL;
-		if (arguments->mt_path)
-			mt_path = arguments->mt_path;
-		else
-			mt_path = outfile;
-
-		const char *mf_path = NULL;
-		if (arguments->mf_path) {
-			mf_path = arguments->mf_path;
-		} else {
-			mf_path = dependency_path_from_outfile(outfile);
-		}
-
-		preprocessor_finish_writing_dependencies(mt_path, mf_path);
-	}
+	if (arguments->flag_MD)
+		write_dependencies(arguments, outfile);
 
 	// TODO: The compiler currently relies too heavily on global state.
 	preprocessor_reset();
@@ -301,6 +300,11 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 	}
 	printf("\n");
 
+	if (arguments->flag_MD) {
+		struct string_view basename = get_basename(path);
+		write_dependencies(arguments, allocate_printf("%.*s.o", basename.len - 2, basename.str));
+	}
+
 	preprocessor_reset();
 	ir_reset();
 	asm_reset();
@@ -364,5 +368,8 @@ int main(int argc, char **argv) {
 
 	arguments_free(&arguments);
 
+	if (fflush(stdout) != 0 || ferror(stdout))
+		return EXIT_FAILURE;
+
 	return 0;
 }
diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 1caecbe..65a7064 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -45,17 +45,39 @@ void directiver_write_dependencies(void) {
 	write_dependencies = 1;
 }
 
-void directiver_finish_writing_dependencies(const char *mt, const char *mf) {
-	write_dependencies = 1;
+// Escapes the characters that are special to make.
+static void write_escaped(FILE *fp, const char *start) {
+	for (const char *path = start; *path; path++) {
+		if (*path == ' ' || *path == '\t') {
+			// Backslashes before white space have to be escaped too.
+			for (const char *prev = path; prev != start && prev[-1] == '\\'; prev--)
+				fputc('\\', fp);
+			fputc('\\', fp);
+		} else if (*path == '#') {
+			fputc('\\', fp);
+		} else if (*path == '$') {
+			fputc('$', fp);
+		}
+		fputc(*path, fp);
+	}
+}
 
-	FILE *fp = fopen(mf, "w");
+void directiver_finish_writing_dependencies(const char *target, int escape_target, const char *mf) {
+	FILE *fp = file_open_output(mf, "w");
 
-	fprintf(fp, "%s:", mt);
-	for (unsigned i = 0; i < dep_size; i++)
-		fprintf(fp, " %s", deps[i]);
-	fprintf(fp, "\n");
+	if (escape_target)
+		write_escaped(fp, target);
+	else
+		fprintf(fp, "%s", target);
+	fputc(':', fp);
+
+	for (unsigned i = 0; i < dep_size; i++) {
+		fputc(' ', fp);
+		write_escaped(fp, deps[i]);
+	}
+	fputc('\n', fp);
 
-	fclose(fp);
+	file_close_output(fp, mf);
 }
 
 // Resets all global state. Not very elegant.
@@ -79,8 +101,13 @@ static void push_input(const char *parent_path, const char *path, int system) {
 	if (!new_input.path)
 		return;
 
-	if (write_dependencies)
-		ADD_ELEMENT(dep_size, dep_cap, deps) = strdup(new_input.path);
+	if (write_dependencies) {
+		unsigned i = 0;
+		while (i < dep_size && strcmp(deps[i], new_input.path) != 0)
+			i++;
+		if (i == dep_size)
+			ADD_ELEMENT(dep_size, dep_cap, deps) = strdup(new_input.path);
+	}
 
 	current_file = ALLOC((struct tokenized_file) {
 			.parent = current_file,
diff --git a/src/preprocessor/directives.h b/src/preprocessor/directives.h
index de65cd9..fd7f8a3 100644
--- a/src/preprocessor/directives.h
+++ b/src/preprocessor/directives.h
@@ -8,6 +8,6 @@ void directiver_push_input(const char *path, int system);
 void directiver_reset(void);
 
 void directiver_write_dependencies(void);
-void directiver_finish_writing_dependencies(const char *mt, const char *mf);
+void directiver_finish_writing_dependencies(const char *target, int escape_target, const char *mf);
 
 #endif
diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index be6061b..5ec1338 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -45,7 +45,7 @@ static FILE *try_open_file(const char *path) {
 	FILE *fp = fopen(path, "r");
 	if (!fp && errno != ENOENT) {
 		char *str = strerror(errno);
-		ICE("Error opening file %s, %s", path, str);
+		ERROR_NO_POS("Error opening file %s, %s", path, str);
 	}
 	return fp;
 }
@@ -123,8 +123,8 @@ struct input input_open(const char *parent_path, const char *path, int system) {
 	}
 
 	if (!fp)
-		ICE("\"%s\" not found in search path, with origin %s", path,
-		    parent_path);
+		ERROR_NO_POS("\"%s\" not found in search path, with origin %s", path,
+					 parent_path);
 
 	struct input input = { 0 };
 
diff --git a/src/preprocessor/preprocessor.c b/src/preprocessor/preprocessor.c
index 3153578..98ec3f7 100644
--- a/src/preprocessor/preprocessor.c
+++ b/src/preprocessor/preprocessor.c
@@ -54,6 +54,6 @@ void preprocessor_write_dependencies(void) {
 	directiver_write_dependencies();
 }
 
-void preprocessor_finish_writing_dependencies(const char *mt, const char *mf) {
-	directiver_finish_writing_dependencies(mt, mf);
+void preprocessor_finish_writing_dependencies(const char *target, int escape_target, const char *mf) {
+	directiver_finish_writing_dependencies(target, escape_target, mf);
 }
diff --git a/src/preprocessor/preprocessor.h b/src/preprocessor/preprocessor.h
index ba9c439..772f122 100644
--- a/src/preprocessor/preprocessor.h
+++ b/src/preprocessor/preprocessor.h
@@ -61,6 +61,6 @@ void define_string(char *name, char *value); // Defined in macro_expander.c
 void define_remove(const char *name);
 
 void preprocessor_write_dependencies(void);
-void preprocessor_finish_writing_dependencies(const char *mt, const char *mf);
+void preprocessor_finish_writing_dependencies(const char *target, int escape_target, const char *mf);
 
 #endif
-- 
2.43.0


From a51a3bc6426d9242b709ff9cc129bee1e7c1a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:50 +0000
Subject: [PATCH 55/66] fix: constraint violations went undiagnosed, in
 declarations, assignments, conditions and the preprocessor

---
 src/arch/x64.c                    | 12 ++++-
 src/parser/declaration.c          | 77 +++++++++++++++++++++++++++++--
 src/parser/expression.c           | 13 ++++--
 src/parser/expression_to_ir.c     |  6 ++-
 src/parser/function_parser.c      |  3 ++
 src/preprocessor/directives.c     | 16 ++++++-
 src/preprocessor/macro_expander.c | 17 +++++++
 src/preprocessor/macro_expander.h |  2 +
 src/types.c                       | 18 +++++++-
 src/types.h                       |  1 +
 10 files changed, 153 insertions(+), 12 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 5e7b300..547c677 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -432,28 +432,38 @@ static struct constant integer_constant_from_string(struct string_view str) {
 			parsed += str.str[start] - 'A' + 10;
 	}
 
+	if ((base == BASE_HEXADECIMAL || base == BASE_BINARY) && start == 2)
+		ERROR_NO_POS("Integer constant without digits: %.*s", str.len, str.str);
+
 	int allow_unsigned = base == BASE_HEXADECIMAL || base == BASE_OCTAL || base == BASE_BINARY;
 	int allow_signed = 1;
 	int allow_int = 1;
 	int allow_long = 1;
 	int allow_llong = 1;
 
+	int n_unsigned = 0, n_long = 0;
 	while (start < str.len) {
 		if (start + 1 < str.len &&
 			((str.str[start] == 'l' && str.str[start + 1] == 'l') ||
 			 (str.str[start] == 'L' && str.str[start + 1] == 'L'))) {
 			start += 2;
 			allow_int = allow_long = 0;
+			n_long++;
 		} else if (str.str[start] == 'l' || str.str[start] == 'L') {
 			start += 1;
 			allow_int = 0;
+			n_long++;
 		} else if (str.str[start] == 'u' || str.str[start] == 'U') {
 			start += 1;
 			allow_unsigned = 1;
 			allow_signed = 0;
+			n_unsigned++;
 		} else {
-			ICE("Invalid format of integer constant: %.*s", str.len, str.str);
+			ERROR_NO_POS("Invalid format of integer constant: %.*s", str.len, str.str);
 		}
+
+		if (n_long > 1 || n_unsigned > 1)
+			ERROR_NO_POS("Invalid suffix of integer constant: %.*s", str.len, str.str);
 	}
 
 	if (parsed <= get_type_max(ST_INT) && allow_int && allow_signed) {
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d46ebce..40ef482 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -149,6 +149,9 @@ static int parse_specifier(struct type_specifiers *ts,
 			return 1;
 		}
 
+		if (ts->data_type && (T0->type == T_KSTRUCT || T0->type == T_KUNION || T0->type == T_KENUM))
+			ERROR(T0->pos, "More than one type in declaration.");
+
 		if (parse_struct(ts)) {
 			*got_ts = 1;
 			return 1;
@@ -203,6 +206,9 @@ static int parse_specifier(struct type_specifiers *ts,
 			TEXPECT(T_LPAR);
 			struct type *type = parse_type_name();
 			struct expr *length_expr = NULL;
+			if (type && !type_is_complete(type))
+				ERROR(T0->pos, "Invalid type %s in _Alignas.", dbg_type(type));
+
 			if (type)
 				length_expr = type_alignof(type);
 			else
@@ -295,6 +301,9 @@ int parse_enum(struct type_specifiers *ts) {
 	}
 
 	if (TACCEPT(T_LBRACE)) {
+		if (T0->type == T_RBRACE)
+			ERROR(T0->pos, "Enumeration without enumerators.");
+
 		int first = 1;
 		struct constant prev;
 		while (parse_enumerator(&prev, first)) {
@@ -321,6 +330,7 @@ int parse_enum(struct type_specifiers *ts) {
 		}
 
 		*data = (struct enum_data) {
+			.is_complete = 1,
 			.name = name
 		};
 
@@ -367,6 +377,40 @@ static struct struct_data *declare_struct(struct string_view name, int is_union,
 	return def->struct_data;
 }
 
+// The members of unnamed members are members of the struct.
+static void get_member_names(struct struct_data *data, size_t *size, size_t *cap, struct string_view **names) {
+	for (int i = 0; i < data->n; i++) {
+		struct field *field = &data->fields[i];
+		if (field->name.len)
+			ADD_ELEMENT(*size, *cap, *names) = field->name;
+		else if (field->type->type == TY_STRUCT)
+			get_member_names(field->type->struct_data, size, cap, names);
+	}
+}
+
+static int compare_names(const void *a, const void *b) {
+	const struct string_view *name_a = a, *name_b = b;
+	if (name_a->len != name_b->len)
+		return name_a->len < name_b->len ? -1 : 1;
+	return strncmp(name_a->str, name_b->str, name_a->len);
+}
+
+static void check_member_names(struct struct_data *data) {
+	size_t size = 0, cap = 0;
+	struct string_view *names = NULL;
+	get_member_names(data, &size, &cap, &names);
+
+	if (size)
+		qsort(names, size, sizeof *names, compare_names);
+
+	for (size_t i = 1; i < size; i++) {
+		if (compare_names(&names[i - 1], &names[i]) == 0)
+			ERROR(T0->pos, "Duplicate member %.*s.", names[i].len, names[i].str);
+	}
+
+	free(names);
+}
+
 int parse_struct(struct type_specifiers *ts) {
 	int is_union = 0, is_packed = 0;
 	if (TACCEPT(T_KSTRUCT))
@@ -439,6 +483,9 @@ int parse_struct(struct type_specifiers *ts) {
 					ERROR(T0->pos, "Member has incomplete or variable type %s.", dbg_type(type));
 				}
 
+				if (fields_size && fields[fields_size - 1].type->type == TY_INCOMPLETE_ARRAY)
+					ERROR(T0->pos, "Member after flexible array member.");
+
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 					.type = type,
 					.name = name,
@@ -487,6 +534,7 @@ int parse_struct(struct type_specifiers *ts) {
 		if (is_packed)
 			data->packing = 1;
 
+		check_member_names(data);
 		calculate_offsets(data);
 		type_remove_unnamed(data);
 
@@ -505,6 +553,8 @@ int parse_struct(struct type_specifiers *ts) {
 
 static void ast_get_parameters(struct type_ast *ast,
 							   int *n, struct symbol_identifier ***arguments) {
+	struct position pos = T0->pos;
+
 	while (ast->type != TAST_TERMINAL) {
 		switch (ast->type) {
 		case TAST_POINTER:
@@ -529,7 +579,7 @@ static void ast_get_parameters(struct type_ast *ast,
 			NOTIMP();
 		}
 	}
-	ICE("Did not find parameter names");
+	ERROR(pos, "Function definition without parameter list.");
 }
 
 static struct type_ast *type_ast_new(struct type_ast ast) {
@@ -538,7 +588,7 @@ static struct type_ast *type_ast_new(struct type_ast ast) {
 }
 
 static struct type *specifiers_to_type(const struct type_specifiers *ts) {
-#define SPEC(A, B) if (ts->specifiers == (B)) return type_simple(A);
+#define SPEC(A, B) if (!ts->data_type && ts->specifiers == (B)) return type_simple(A);
 	SPEC(ST_VOID, TSF_VOID);
 	SPEC(ST_CHAR, TSF_CHAR);
 	SPEC(ST_SCHAR, TSF_SIGNED | TSF_CHAR);
@@ -584,7 +634,7 @@ static struct type *specifiers_to_type(const struct type_specifiers *ts) {
 	SPEC(ST_LDOUBLE_COMPLEX, TSF_DOUBLE | TSF_LONG1 | TSF_COMPLEX);
 #undef SPEC
 
-	if (ts->data_type)
+	if (ts->data_type && !ts->specifiers)
 		return ts->data_type;
 
 	ERROR(ts->pos, "Invalid type %X", ts->specifiers);
@@ -742,11 +792,16 @@ static struct parameter_list parse_parameter_list(void) {
 			first = 0;
 		}
 
+		if (s.scs.typedef_n || s.scs.extern_n || s.scs.static_n || s.scs.thread_local_n || s.scs.auto_n)
+			ERROR(T0->pos, "Invalid storage class of parameter.");
+
 		ret.n++;
 		ret.types = cc_realloc(ret.types, ret.n * sizeof(*ret.types));
 		struct string_view name = { 0 };
 		struct type *type = ast_to_type(&s.ts, &s.tq, ast, &name, 1);
 		struct type *declared_type = type;
+		if (type_is_simple(type, ST_VOID))
+			ERROR(T0->pos, "Parameter has type void.");
 		type = type_adjust_parameter(type);
 		ret.types[ret.n - 1] = type;
 
@@ -765,6 +820,9 @@ static struct parameter_list parse_parameter_list(void) {
 			break;
 
 		TEXPECT(T_COMMA);
+
+		if (T0->type == T_RPAR)
+			ERROR(T0->pos, "Expected parameter.");
 	}
 
 	if (TACCEPT(T_ELLIPSIS)) {
@@ -959,6 +1017,8 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 		}
 
 		// The terminating null character is only stored if there is room for it.
+		if (str.len - calculate_size(type_simple(char_type)) > calculate_size(*type))
+			ERROR(string_token.pos, "String does not fit in %s.", dbg_type(*type));
 		str.len = MIN(str.len, calculate_size(*type));
 
 		init->type = INIT_STRING;
@@ -1262,6 +1322,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (!external)
 			ERROR(T0->pos, "Function definition are not allowed inside functions.");
 
+		if (s.scs.typedef_n)
+			ERROR(T0->pos, "Typedef can't have a function body.");
+
 		if (arg_n && !args)
 			ERROR(T0->pos, "Should not be null");
 
@@ -1293,6 +1356,8 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 
 	int is_function = type->type == TY_FUNCTION;
 	int has_linkage = external || s.scs.extern_n || is_function;
+	if (has_linkage && type_has_variable_size(type))
+		ERROR(T0->pos, "Variable length array can't have linkage.");
 	int is_plain_object = !is_function && !s.scs.extern_n;
 
 	// Check for agreement with previous declarations.
@@ -1449,6 +1514,12 @@ int parse_declaration(int external) {
 		return 0;
 	}
 
+	// Only thread_local can be combined with another storage class.
+	if (s.scs.typedef_n + s.scs.extern_n + s.scs.static_n + s.scs.auto_n + s.scs.register_n > 1)
+		ERROR(T0->pos, "More than one storage class.");
+	if (external && (s.scs.auto_n || s.scs.register_n))
+		ERROR(T0->pos, "Invalid storage class outside of function.");
+
 	int was_func = 0;
 	if (parse_init_declarator(s, external, &was_func)) {
 		while (!was_func && TACCEPT(T_COMMA)) {
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 60dc97f..5384e7f 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -453,7 +453,7 @@ static void check_operands(struct expr *expr) {
 		if (!is_lvalue(expr->args[0]) || !type_is_complete(type) ||
 			type->type == TY_ARRAY || type->type == TY_VARIABLE_LENGTH_ARRAY)
 			ERROR(T0->pos, "Can't assign to this expression.");
-		if (type->is_const)
+		if (type_is_or_contains_const(type))
 			ERROR(T0->pos, "Can't modify constant variable");
 
 		if (expr->type == E_ASSIGNMENT) {
@@ -705,7 +705,12 @@ static struct expr *parse_prefix(void) {
 						.compound_literal = { cast_type, init }
 					});
 			} else {
-				return expression_cast(parse_pratt(PREFIX_PREC), cast_type);
+				struct expr *operand = parse_pratt(PREFIX_PREC);
+				struct expr *result = expression_cast(operand, cast_type);
+
+				// The result is not an lvalue, even if the type is the same.
+				return result == operand && is_lvalue(operand) ?
+					EXPR_ARGS(E_CONST_REMOVE, operand) : result;
 			}
 		} else {
 			struct expr *expr = parse_pratt(0);
@@ -755,8 +760,8 @@ static struct expr *parse_prefix(void) {
 		if (operand)
 			type = operand->data_type;
 
-		if (!type_is_complete(type))
-			ERROR(T0->pos, "Invalid type %s in sizeof.", dbg_type(type));
+		if (!type_is_complete(type) || (operand && get_expression_bitfield(operand) != -1))
+			ERROR(T0->pos, "Invalid operand of type %s in sizeof.", dbg_type(type));
 
 		if (!type_has_variable_size(type))
 			return type_sizeof(type);
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 0cbb85b..505ead0 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -796,7 +796,11 @@ struct node *expression_to_size_t(struct expr *expr) {
 }
 
 struct node *expression_to_condition(struct expr *expr) {
-	struct evaluated_expression ee = expression_evaluate(expression_promote(expr));
+	struct expr *condition = expression_promote(expr);
+	if (!type_is_scalar(condition->data_type))
+		ERROR(T0->pos, "Condition has type %s.", dbg_type(condition->data_type));
+
+	struct evaluated_expression ee = expression_evaluate(condition);
 	return variable_to_condition(evaluated_expression_to_var(&ee), ee.data_type);
 }
 
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 3d4c510..34e2c3a 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -540,6 +540,9 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 
 		struct evaluated_expression value = { .type = EE_VOID };
 
+		if (expr && type_is_simple(current_ret_val, ST_VOID) && !type_is_simple(expr->data_type, ST_VOID))
+			ERROR(T0->pos, "Returning a value of type %s from a void function.", dbg_type(expr->data_type));
+
 		if (expr)
 			value = expression_evaluate(expression_cast(expr, current_ret_val));
 		else if (!type_is_simple(current_ret_val, ST_VOID))
diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 65a7064..9ce4040 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -204,6 +204,8 @@ static void directiver_define(void) {
 		} while(t.type == T_COMMA);
 
 		t = next();
+	} else if (!t.first_of_line && !t.whitespace) {
+		ERROR(t.pos, "Expected whitespace after macro name.");
 	}
 
 	while(!t.first_of_line) {
@@ -213,6 +215,7 @@ static void directiver_define(void) {
 
 	push(t);
 
+	define_check(&def);
 	define_map_add(def);
 }
 
@@ -420,6 +423,9 @@ static struct result evaluate_until_newline(void) {
 			if (has_lpar)
 				t = next();
 
+			if (t.first_of_line || t.type != T_IDENT)
+				ERROR(t.pos, "Expected macro name after defined.");
+
 			int is_defined = define_map_get(t.str) != NULL;
 			token_list_add(&buffer, (struct token) {.type = T_NUM, .str = is_defined ? sv_from_str("1") :
 					sv_from_str("0")});
@@ -442,7 +448,13 @@ static struct result evaluate_until_newline(void) {
 	token_list_add(&buffer, (struct token) { .type = T_EOI });
 
 	buffer_pos = 0;
-	return evaluate_expression(0, 1);
+	struct result result = evaluate_expression(0, 1);
+
+	struct token end = buffer_next();
+	if (end.type != T_EOI)
+		ERROR(end.pos, "Unexpected token after preprocessor expression. %s", dbg_token(&end));
+
+	return result;
 }
 
 static struct string_view get_include_path(struct token dir, struct token t, int *system) {
@@ -600,7 +612,7 @@ static void directiver_line(struct token directive) {
 	file->line_diff += diff;
 
 	if (buffer.size >= 2) {
-		if (buffer.list[1].type != T_STRING)
+		if (buffer.list[1].type != T_STRING || buffer.list[1].str.str[0] != '"')
 			ERROR(directive.pos, "Expected s char sequence as second argument to #line");
 		struct string_view path = buffer.list[1].str;
 		path.len -= 2;
diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 46e4098..03da801 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -83,6 +83,8 @@ void define_add_def(struct define *d, struct token t) {
 
 void define_add_par(struct define *d, struct token t) {
 	d->func = 1;
+	if (token_list_index_of(&d->par, t) >= 0)
+		ERROR(t.pos, "Duplicate macro parameter %.*s.", t.str.len, t.str.str);
 	token_list_add(&d->par, t);
 }
 
@@ -93,6 +95,21 @@ static int get_param(struct define *def, struct token tok) {
 	return token_list_index_of(&def->par, tok);
 }
 
+void define_check(struct define *d) {
+	struct token *list = d->def.list;
+	int size = d->def.size;
+
+	if (size && (list[0].type == PP_HHASH || list[size - 1].type == PP_HHASH))
+		ERROR(list[0].pos, "Concat token at edge of macro expansion.");
+
+	for (int i = 0; d->func && i < size; i++) {
+		if (list[i].type == PP_HASH &&
+			(i + 1 == size || !((d->vararg && sv_string_cmp(list[i + 1].str, "__VA_ARGS__")) ||
+								get_param(d, list[i + 1]) >= 0)))
+			ERROR(list[i].pos, "# Should be followed by macro parameter");
+	}
+}
+
 void define_string(char *name, char *value) {
 	struct define def = define_init(sv_from_str(strdup(name)));
 	def.def = tokenize_input(value, "<string>");
diff --git a/src/preprocessor/macro_expander.h b/src/preprocessor/macro_expander.h
index 9cd2bfb..c50d37f 100644
--- a/src/preprocessor/macro_expander.h
+++ b/src/preprocessor/macro_expander.h
@@ -15,6 +15,8 @@ struct define {
 
 void define_string(char *name, char *value);
 struct define define_init(struct string_view name);
+// Makes sure that # and ## have their operands.
+void define_check(struct define *d);
 void define_add_def(struct define *d, struct token t);
 void define_add_par(struct define *d, struct token t);
 
diff --git a/src/types.c b/src/types.c
index 9c44a9b..cbdf9c8 100644
--- a/src/types.c
+++ b/src/types.c
@@ -217,7 +217,7 @@ int type_search_member(struct type *type, struct string_view name,
 	struct struct_data *data = type->struct_data;
 
 	if (!data->is_complete)
-		ICE("Member access on incomplete type not allowed");
+		return 0;
 
 	for (int i = 0; i < data->n; i++) {
 		if (sv_cmp(data->fields[i].name, name)) {
@@ -334,6 +334,22 @@ int type_is_complete(struct type *type) {
 	}
 }
 
+int type_is_or_contains_const(struct type *type) {
+	if (type->is_const)
+		return 1;
+
+	if (type_is_array(type))
+		return type_is_or_contains_const(type->children[0]);
+
+	if (type->type == TY_STRUCT) {
+		for (int i = 0; i < type->struct_data->n; i++)
+			if (type_is_or_contains_const(type->struct_data->fields[i].type))
+				return 1;
+	}
+
+	return 0;
+}
+
 int type_is_pointer(struct type *type) {
 	return type->type == TY_POINTER;
 }
diff --git a/src/types.h b/src/types.h
index 1e148c1..4ec90e0 100644
--- a/src/types.h
+++ b/src/types.h
@@ -156,6 +156,7 @@ int type_is_integer(struct type *type);
 int type_is_pointer(struct type *type);
 int type_is_scalar(struct type *type);
 int type_is_complete(struct type *type);
+int type_is_or_contains_const(struct type *type);
 int type_is_simple(struct type *type, enum simple_type st);
 int type_is_aggregate(struct type *type);
 
-- 
2.43.0


From ea475b0eb74b4efa8abd66c66e55d078d76541dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:02 +0000
Subject: [PATCH 56/66] fix: 'defined' was accepted as a macro name

---
 src/preprocessor/directives.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 9ce4040..cc06be0 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -160,6 +160,8 @@ static struct token next_macro_name(void) {
 
 	if (name.first_of_line || name.type != T_IDENT)
 		ERROR(name.pos, "Expected macro name");
+	if (sv_string_cmp(name.str, "defined"))
+		ERROR(name.pos, "defined can't be a macro name");
 
 	return name;
 }
-- 
2.43.0


From fcf16a6dc2718e8917141c30e8d41f43f5ceb92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:21 +0000
Subject: [PATCH 57/66] fix: absolute paths in #include were looked up relative
 to the including file

---
 src/preprocessor/input.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 5ec1338..84aa9a9 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -109,7 +109,12 @@ struct input input_open(const char *parent_path, const char *path, int system) {
 	static char *path_buffer = NULL;
 	static size_t path_capacity = 0;
 
-	if (!system) {
+	int is_absolute = path[0] == '/';
+
+	if (is_absolute) {
+		expand_printf(&path_buffer, &path_capacity, "%s", path);
+		fp = try_open_file(path_buffer);
+	} else if (!system) {
 		int length = length_of_path_without_filename(parent_path);
 
 		expand_printf(&path_buffer, &path_capacity, "%.*s%s", length,
@@ -117,7 +122,7 @@ struct input input_open(const char *parent_path, const char *path, int system) {
 		fp = try_open_file(path_buffer);
 	}
 
-	for (unsigned i = 0; !fp && i < paths_size; i++) {
+	for (unsigned i = 0; !fp && !is_absolute && i < paths_size; i++) {
 		expand_printf(&path_buffer, &path_capacity, "%s/%s", paths[i], path);
 		fp = try_open_file(path_buffer);
 	}
-- 
2.43.0


From c76072ea2b6546d5aafb385803b6c97237713341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:58 +0000
Subject: [PATCH 58/66] fix: files that include themselves exhausted all memory

---
 src/preprocessor/directives.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index cc06be0..506074e 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -24,8 +24,11 @@ struct tokenized_file {
 	int line_diff;
 
 	struct tokenized_file *parent;
+	int depth;
 };
 
+#define MAX_INCLUDE_DEPTH 200
+
 static struct tokenized_file *current_file;
 
 struct macro_stack {
@@ -96,6 +99,10 @@ void directiver_reset(void) {
 }
 
 static void push_input(const char *parent_path, const char *path, int system) {
+	int depth = current_file ? current_file->depth + 1 : 0;
+	if (depth > MAX_INCLUDE_DEPTH)
+		ERROR_NO_POS("#include \"%s\" is nested too deeply.", path);
+
 	struct input new_input = input_open(parent_path, path, system);
 
 	if (!new_input.path)
@@ -111,6 +118,7 @@ static void push_input(const char *parent_path, const char *path, int system) {
 
 	current_file = ALLOC((struct tokenized_file) {
 			.parent = current_file,
+			.depth = depth,
 			.token_idx = 0,
 			.tokens = tokenize_input(new_input.contents, new_input.path),
 			.path = strdup(new_input.path),
-- 
2.43.0


From f61256b919d8b4bc136f52a01dbfc69683af8d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:54 +0000
Subject: [PATCH 59/66] fix: files that include themselves on their last line
 were read forever

---
 src/preprocessor/directives.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 506074e..19d2fe5 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -98,8 +98,7 @@ void directiver_reset(void) {
 	deps = NULL;
 }
 
-static void push_input(const char *parent_path, const char *path, int system) {
-	int depth = current_file ? current_file->depth + 1 : 0;
+static void push_input(const char *parent_path, int depth, const char *path, int system) {
 	if (depth > MAX_INCLUDE_DEPTH)
 		ERROR_NO_POS("#include \"%s\" is nested too deeply.", path);
 
@@ -126,7 +125,7 @@ static void push_input(const char *parent_path, const char *path, int system) {
 }
 
 void directiver_push_input(const char *path, int system) {
-	push_input(".", path, system);
+	push_input(".", 0, path, system);
 }
 
 static struct token next(void);
@@ -716,6 +715,7 @@ struct token directiver_next(void) {
 			} else if (sv_string_cmp(name, "include")) {
 				// This could be the last line of the file.
 				const char *parent_path = current_file->path;
+				int parent_depth = current_file->depth;
 				struct string_view path;
 				struct token path_tok = next();
 				int system;
@@ -730,7 +730,7 @@ struct token directiver_next(void) {
 					path = get_include_path(directive, path_tok, &system);
 				}
 
-				push_input(parent_path, sv_to_str(path), system);
+				push_input(parent_path, parent_depth + 1, sv_to_str(path), system);
 			} else if (sv_string_cmp(name, "pragma")) {
 				if (directiver_handle_pragma()) {
 					push(directive);
-- 
2.43.0


From 95036398ecf273c2085280743d3f0de8be0dba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:33 +0000
Subject: [PATCH 60/66] fix: vertical tabs and form feeds are white space

---
 src/preprocessor/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index b683029..d51efbd 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -23,7 +23,7 @@ enum {
 };
 
 static char eq_table[UCHAR_MAX + 1] = {
-	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 2,   2,   7,   2,   2,
+	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 7,   7,   7,   2,   2,
 	2, 2,  2,  2,  2, 2,   2,  2,  2,  2,  2,  2,   2,   2,   2,   2,
 	7, 33, 34, 35, 9, 37,  38, 39, 40, 41, 42, 43,  44,  45,  46,  47,
 	5, 5,  5,  5,  5, 5,   5,  5,  56, 5,  58, 59,  60,  61,  62,  63,
-- 
2.43.0


From 0d9afff3c58f5f9effbd73c15ee7235f919742d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:28 +0000
Subject: [PATCH 61/66] fix: unknown pragmas swallowed following macro
 invocations, and were statements of their own

---
 src/parser/parser.c               |  7 -------
 src/preprocessor/macro_expander.c |  4 ++++
 src/preprocessor/string_concat.c  | 32 +++++++++++++++++++++++++++++--
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 1fa4498..6c3e06f 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -76,13 +76,6 @@ int parse_handle_pragma(void) {
 		TEXPECT(T_RPAR);
 
 		current_packing = new_packing;
-	} else {
-		WARNING(T0->pos, "\"#pragma %.*s\" not supported", name.len, name.str);
-
-		// Continue until newline or EOI.
-		while (T0->type != T_EOI &&
-			   !T0->first_of_line)
-			TNEXT();
 	}
 
 	return 1;
diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 03da801..d8c4b94 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -457,8 +457,10 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 
 // Expands until empty token.
 void expand_buffer(int input, int return_output, struct token *t) { 
+	int first_of_line = 0; // The expansion of the first token of a line is also first.
 	while (input || input_buffer.size) {
 		struct token top = input_buffer_take(input);
+		first_of_line |= top.first_of_line;
 		if (top.type == T_EOI) {
 			if (!return_output && output_buffer.size)
 				output_buffer.tokens[output_buffer.size - 1].whitespace_after |= top.whitespace;
@@ -470,6 +472,7 @@ void expand_buffer(int input, int return_output, struct token *t) {
 			builtin_macros(&top) || !(def = define_map_get(top.str))) {
 			if (return_output) {
 				*t = top;
+				t->first_of_line |= first_of_line;
 				return;
 			} else {
 				ADD_ELEMENT(output_buffer.size, output_buffer.cap, output_buffer.tokens) = top;
@@ -485,6 +488,7 @@ void expand_buffer(int input, int return_output, struct token *t) {
 		} else {
 			if (return_output) {
 				*t = top;
+				t->first_of_line |= first_of_line;
 				return;
 			} else {
 				ADD_ELEMENT(output_buffer.size, output_buffer.cap, output_buffer.tokens) = top;
diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index d845e51..5a2152a 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -156,6 +156,34 @@ static void character_constant_to_buffer(struct token *t, enum string_type type)
 		ERROR(t->pos, "Empty character constant");
 }
 
+// Next token, without the pragmas that are not recognized.
+static struct token next_token(void) {
+	static struct token queue[2];
+	static int queue_size = 0;
+
+	if (queue_size)
+		return queue[--queue_size];
+
+	struct token t = expander_next();
+	while (t.type == PP_DIRECTIVE) {
+		struct token pragma = expander_next();
+		struct token command = expander_next();
+
+		if (!command.first_of_line && sv_string_cmp(command.str, "pack")) {
+			queue[queue_size++] = command;
+			queue[queue_size++] = pragma;
+			break;
+		}
+
+		WARNING(command.pos, "\"#pragma %.*s\" not supported", command.first_of_line ? 0 : command.str.len, command.str.str);
+
+		for (t = command; t.type != T_EOI && !t.first_of_line;)
+			t = expander_next();
+	}
+
+	return t;
+}
+
 struct token string_concat_next(void) {
 	static struct token prev = { 0 };
 
@@ -165,7 +193,7 @@ struct token string_concat_next(void) {
 		return ret;
 	}
 
-	struct token t = expander_next();
+	struct token t = next_token();
 
 	if (t.type == PP_OTHER)
 		ERROR(t.pos, "Invalid token %.*s", t.str.len, t.str.str);
@@ -177,7 +205,7 @@ struct token string_concat_next(void) {
 
 	while (t.type == T_STRING) {
 		ADD_ELEMENT(string_tokens_size, string_tokens_cap, string_tokens) = t;
-		t = expander_next();
+		t = next_token();
 	}
 
 	if (string_tokens_size) {
-- 
2.43.0


From 7bb6914b45e6622a303a2200b30d473a3d413344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:57 +0000
Subject: [PATCH 62/66] fix: an empty file name in #include crashed

---
 src/preprocessor/directives.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 19d2fe5..0819ce3 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -730,6 +730,9 @@ struct token directiver_next(void) {
 					path = get_include_path(directive, path_tok, &system);
 				}
 
+				if (path.len <= 0)
+					ERROR(path_tok.pos, "Empty file name in #include.");
+
 				push_input(parent_path, parent_depth + 1, sv_to_str(path), system);
 			} else if (sv_string_cmp(name, "pragma")) {
 				if (directiver_handle_pragma()) {
-- 
2.43.0


From 50a84f45cc7f3944adcfa1f5875c6207d1d8c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:47 +0000
Subject: [PATCH 63/66] fix: functions with over-aligned objects saved a
 register below the stack pointer

---
 src/codegen/codegen.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 4388ca0..b24e638 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -759,7 +759,7 @@ static void codegen_function(struct node *func) {
 	if (rbp_save_info.has_saved_rsp) {
 		asm_ins2("movq", R8(REG_RSP), R8(REG_RBP));
 		asm_ins2("andq", IMM(-stack_alignment), R8(REG_RSP));
-		asm_ins2("movq", R8(REG_RBP), MEM(-rbp_save_info.offset, REG_RSP));
+		asm_ins2("movq", R8(REG_RBP), R8(REG_R11));
 	}
 
 	asm_ins2("movq", R8(REG_RSP), R8(REG_RBP));
@@ -769,6 +769,10 @@ static void codegen_function(struct node *func) {
 		asm_ins2("subq", IMM(stack_sub), R8(REG_RSP));
 	vla_info.frame_size = stack_sub;
 
+	// Nothing may be stored below the stack pointer.
+	if (rbp_save_info.has_saved_rsp)
+		asm_ins2("movq", R8(REG_R11), MEM(-rbp_save_info.offset, REG_RBP));
+
 	abi_emit_function_preamble(func);
 
 	struct node *reg_source = func->projects[1];
-- 
2.43.0


From c5193c5c9e28ee71fa1d61aeee1993ec92b6fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:19 +0000
Subject: [PATCH 64/66] fix: make the character tables large enough for the
 last character

---
 src/character_types.c | 2 +-
 src/escape_sequence.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/character_types.c b/src/character_types.c
index 9835ee7..f694cf5 100644
--- a/src/character_types.c
+++ b/src/character_types.c
@@ -10,7 +10,7 @@ enum {
 	C_IDENTIFIER_NONDIGIT = 0x20,
 };
 
-static const unsigned char char_props[UCHAR_MAX] = {
+static const unsigned char char_props[UCHAR_MAX + 1] = {
 	['\t'] = 0x10, 0x10, 0x10, 0x10,
 	[' '] = 0x10, ['$'] = 0x20,
 	['_'] = 0x20,
diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index 1678cbc..e250c19 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -57,7 +57,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 	return 1;
 }
 
-static const unsigned char needs_no_escape[CHAR_MAX] = {
+static const unsigned char needs_no_escape[CHAR_MAX + 1] = {
 	['A'] = 1, ['B'] = 1, ['C'] = 1, ['D'] = 1, ['E'] = 1,
 	['F'] = 1, ['G'] = 1, ['H'] = 1, ['I'] = 1, ['J'] = 1,
 	['K'] = 1, ['L'] = 1, ['M'] = 1, ['N'] = 1, ['O'] = 1,
@@ -78,7 +78,7 @@ static const unsigned char needs_no_escape[CHAR_MAX] = {
 	['}'] = 1, ['~'] = 1, [' '] = 1,
 };
 
-static const unsigned char has_simple_escape[CHAR_MAX] = {
+static const unsigned char has_simple_escape[CHAR_MAX + 1] = {
 	['\n'] = 'n',
 	['\t'] = 't',
 	['\"'] = '\"',
@@ -88,7 +88,7 @@ static const unsigned char has_simple_escape[CHAR_MAX] = {
 
 // Some assemblers don't support escape codes like \a,
 // these are here referred to as "complicated".
-static const unsigned char has_complicated_escape[CHAR_MAX] = {
+static const unsigned char has_complicated_escape[CHAR_MAX + 1] = {
 	['?'] = '?',
 	['\a'] = 'a',
 	['\b'] = 'b',
-- 
2.43.0


From 232251d361907190c2fd3a2b730cb417cf557683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:56 +0000
Subject: [PATCH 65/66] fix: report strings from # that are not valid string
 literals

---
 src/preprocessor/string_concat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index 5a2152a..309e0a2 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -146,7 +146,9 @@ static void escape_string_to_buffer(struct string_view input, enum string_type t
 
 	while (escape_char_to_buffer(&input, end_char, type, pos));
 
-	assert(input.len && input.str[0] == end_char);
+	// The result of # is not always a valid string.
+	if (!input.len || input.str[0] != end_char)
+		ERROR(pos, "Invalid string literal");
 }
 
 static void character_constant_to_buffer(struct token *t, enum string_type type) {
-- 
2.43.0


From 9990c26dae63ae54c33902603573ce3f0bd0c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:09 +0000
Subject: [PATCH 66/66] fix: digit separators in numbers with line splices

---
 src/preprocessor/tokenizer.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index d51efbd..d2427ad 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -122,11 +122,8 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 	return sv_from_str(ret_str);
 }
 
-static struct string_view remove_digit_separator(const char *initial_pos) {
-	size_t len = str - initial_pos - 1;
-	char *ret_str = cc_malloc(len + 1);
-	memcpy(ret_str, initial_pos, len);
-	ret_str[len] = '\0';
+static struct string_view remove_digit_separator(struct string_view number) {
+	char *ret_str = sv_to_str(number);
 
 	char *write = ret_str;
 	// Remove '\\n':
@@ -526,7 +523,7 @@ restart:
 		next.type = PP_OTHER;
 
 	if (needs_digit_separator_removed)
-		next.str = remove_digit_separator(initial_pos);
+		next.str = remove_digit_separator(next.str);
 
 	if (next.type == T_IDENT && *is_directive) {
 		*is_header = sv_string_cmp(next.str, "include");
-- 
2.43.0

