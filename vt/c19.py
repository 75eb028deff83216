"""C19: valid programs are accepted, programs violating a diagnosed constraint are rejected.

Each case is a pair of programs that differ only in one fragment: the fragment of one
obeys a constraint, the fragment of the other violates it. The surroundings (scopes,
nesting, macros, unevaluated and unreachable places, headers, unrelated code before and
after) are random. gcc and clang with -pedantic-errors must agree on both sides of the
pair before it counts. The monitor watches exit status, message, and output file of the
compiler on each side."""
import os, re, shutil
from .common import main, build_cc, run, scratch, pmap, ENV

ENVIRON = """
struct S { int a, b; struct { int in; } n; unsigned bf : 5; const int c; };
union U { int a; float f; };
struct inc;
enum E { E0, E1 = 7, E2 };
typedef int T;
typedef int FT(int);
typedef struct S TS;
extern int gi, garr[5];
extern const int gci;
extern struct inc ginc;
int f0(void), f1(int), f2(int, double), fv(const char *, ...);
void vf(void), vf1(int);
struct S fs(int);
struct inc finc(void);
"""
LOCALS = """  int i = %(k)d, j = 2, arr[3] = { 0 }, mat[2][3] = { { 0 } };
  unsigned u = 1; long l = 3; double d = 1.5; float fl = 2; char ch = 'a'; _Bool bo = 1;
  int *p = &i, **pp = &p; const int *pc = &i; int *const cp = &i; void *vp = &i; char *str = "x";
  const int ci = 4; struct S s = { 1, 2, { 3 }, 4, 5 }; const struct S cs = { 1, 2, { 3 }, 4, 5 }; struct S *ps = &s; const struct S *pcs = &cs;
  union U un = { 1 }; struct inc *pi = 0; enum E e = E1; int (*fp)(int) = f1; int (*fpa[2])(int, double) = { f2, f2 }; register int rg = 5; register int rga[3]; register int *rgp = 0; register struct inc *rgi = 0; register double rgd = 1; register char rgc = 1; register union U rgu = { 1 }; register enum E rge = E1; register int (*rgf)(int) = 0;
  void (*vfp)(void) = vf; struct { int a, b; } anon = { 1, 2 }; struct { const int k; int m; } hasconst = { 1, 2 };
  (void)i; (void)j; (void)arr; (void)mat; (void)u; (void)l; (void)d; (void)fl; (void)ch; (void)bo; (void)p; (void)pp; (void)pc; (void)cp; (void)vp; (void)str; (void)ci; (void)s;
  (void)cs; (void)ps; (void)pcs; (void)un; (void)pi; (void)e; (void)fp; (void)fpa; (void)rg; (void)vfp; (void)anon; (void)hasconst; (void)sizeof rga;
"""

# name, class, valid, invalid; {A|B|C} picks one alternative
E, S_, D, F, P, VF, IF = "expr", "stmt", "decl", "file", "pp", "voidfunc", "intfunc"
KINDS = [
    # ---- operands
    ("binary operand", E, "i {*|/|+|-} d", "i {*|/|+|-|<|==|&&} s"),
    ("binary operand 2", E, "u {%|&|^|<<|>>} {i|ch|bo|E1}", "u {%|&|^|<<|>>|\\|} {d|fl|p|s|1.5}"),
    ("binary operand 3", E, "p + {i|l|ch}", "p + {d|p|s|fl}"),
    ("binary operand 4", E, "arr {- 1|+ i}", "arr {* 2|/ i|% 3|& 1}"),
    ("pointer minus", E, "(int)(p - {p|arr|&i})", "i - {p|arr|str}"),
    ("pointer difference", E, "(int)(p - arr)", "(int)(p - {str|(double *)0|vp})"),
    ("mult void", E, "(vf(), i) * 2", "vf() {*|+|-|<|==|&&|\\|\\||&} 2"),
    ("left void", E, "1 {+|*|&&|\\|\\|} f0()", "1 {+|*|&&|\\|\\||^} vf()"),
    ("logical", E, "{p|d|i|str|fp} && i", "{s|un|vf()|cs} && i"),
    ("not", E, "!{p|d|i|fp}", "!{s|un|vf()}"),
    ("complement", E, "~{i|u|ch|bo}", "~{d|p|s|fl|vf()}"),
    ("unary minus", E, "-{i|d|ch|fl|bo}", "-{p|s|arr|vf()|str}"),
    ("unary plus", E, "+{i|d|ch|fl|bo}", "+{p|s|arr|vf()|str}"),
    ("deref", E, "*{p|arr|pc|&i|*pp}", "*{i|d|s|5|bo}"),
    ("deref member", E, "ps->{a|b|bf}", "{s|i|d|p}->a"),
    ("member of non-struct", E, "{s|(*ps)|cs}.{a|b}", "{i|ps|d|arr}.a"),
    ("no such member", E, "s.{a|b|n.in|bf}", "s.{zz|in|n.a|S}"),
    ("no such member 2", E, "{ps|pcs}->{a|n.in}", "ps->{zz|in|n.zz}"),
    ("incomplete member", E, "ps->a", "{pi->a|(*pi).a}"),
    ("subscript", E, "{arr[i]|i[arr]|str[1]|mat[1][i]}", "{i[j]|arr[d]|d[arr]|s[1]|mat[1][2][3]|arr[p]}"),
    ("call", E, "{fp(1)|(*fp)(1)|f1(1)|(**fp)(2)|fpa[1](1, 2)}", "{i(1)|s(1)|p(1)|(*fp + 0)()|arr[0](1)|d()|str(i)}"),
    ("argument count", E, "{f1(1)|fp(i)|f2(1, 2)|f0()}", "{f1()|f1(1, 2)|fp()|f2(1)|f2(1, 2, 3)|f0(1)|fpa[0](1)}"),
    ("argument count variadic", E, "fv({str|str, 1|str, s, d})", "fv()"),
    ("argument type", E, "f1({1|d|ch|u|E1})", "f1({s|un|vf()|cs})"),
    ("argument type 2", E, "f2(i, {1|d|ch|fl})", "f2(i, {s|un|vf()|p|str})"),
    ("argument struct", E, "fs({1|i}).a", "fs({s|vf()}).a"),
    ("return incomplete", E, "(int)sizeof(&finc)", "(finc(), 1)"),
    ("undeclared", E, "i + j", "i + {nope|S|inc|E|U}"),
    ("undeclared call", E, "f0()", "undeclared_zz()"),
    ("typedef as expression", E, "(T)i", "{i + T|(T + 1)|f1(T)}"),
    # ---- lvalues
    ("assign to rvalue", E, "({i|*p|arr[1]|s.a|(i)} = 3)", "({i + 1|5|f0()|-i|(int)i|i++|++i|i, j|i = j|(1 ? i : j)|E1|fs(1).a|&i|!i} = 3)"),
    ("assign to array", E, "(arr[0] = {1|mat[0][0]})", "({arr|mat[0]|arr} = {arr|mat[0]|0})"),
    ("assign to function", E, "(fp = f1, 1)", "({f1|*fp|vf} = 0, 1)"),
    ("assign to const", E, "(i = 3)", "({ci|*pc|cs.a|pcs->b|cs.n.in|gci|s.c|ps->c|hasconst.k} {=|+=|-=|*=|<<=} 3)"),
    ("assign to const pointer", E, "(*cp = 2)", "((cp = p) != 0)"),
    ("assign to struct with const member", E, "(s.a = {cs.a|ps->b})", "({s = cs|*ps = s|hasconst = hasconst|s = fs(1)}, 1)"),
    ("increment", E, "{i++|++d|--ch|p++, 1|bo++|*p ++|s.a--}", "{5++|++f0()|s++|arr++|(i + 1)++|++(i++)|f1++|(int)i++ ++|E1++|++(1 ? i : j)|vf()++}"),
    ("increment const", E, "{++i|s.a++|s.bf--}", "{++ci|gci--|cs.a++|pcs->bf--|++*pc|s.c++|cp++, 1}"),
    ("increment type", E, "{p++, 1|++pp, 1|fl++}", "{vfp++, 1|++pi, 1|s++, 1|++un, 1}"),
    ("compound assign", E, "(i {+=|-=|*=|/=|%=|&=|<<=} {2|ch|j})", "(i {%=|&=|<<=} d)"),
    ("compound assign 2", E, "(p {+=|-=} i, 1)", "(p {*=|/=|%=|&=|<<=} i, 1)"),
    ("compound assign 3", E, "(d {+=|-=|*=|/=} 2)", "(d {%=|&=|<<=|>>=|\\|=|^=} 2)"),
    ("compound assign 4", E, "(i += d, 1)", "({s += 1|i += s|un -= un|p += d|pi += 1|arr += 1}, 1)"),
    ("assign type", E, "(i = {d|ch|E2|bo|s.bf})", "(i = {s|un|vf()|anon})"),
    ("assign type 2", E, "(d = {i|fl|ch})", "(d = {p|s|str|vf()|arr|fp})"),
    ("assign type 3", E, "(p = {0|vp|arr|&i|(void *)0}, 1)", "(p = {d|s|1.0|vf()|fl}, 1)"),
    ("assign type 4", E, "(anon.a = s.a)", "({anon = s|un = s|un = 1|anon = 1|hasconst.m = s}, 1)"),
    ("assign struct", E, "(un = {un|*&un|1 ? un : un}, 1)", "(un = {i|d|s|anon|0|&un}, 1)"),
    ("address of", E, "*&{i|arr[1]|s.a|*p|ps->b|(i)}", "*&{(i + 1)|5|f0()|(i++)|-i|(int)i|(i, j)|(i = 1)|(1 ? i : j)|fs(1).a|E1}"),
    ("address of bit-field", E, "*&s.{a|b}", "*&{s.bf|ps->bf|(s.bf)|cs.bf}"),
    ("address of register", E, "*&{i|arr[0]}", "*&{rg|(rg)|((rg))|rgp|rgi|rgd|rgc|rgu|rge|rgf|(rgf)}"),
    # ---- casts, conversions
    ("cast", E, "(int){i|d|p|fl|E1|bo}", "(int){s|un|vf()|anon}"),
    ("cast 2", E, "((double){i|fl|ch} > 1)", "((double){p|s|str|vf()|fp|arr} > 1)"),
    ("cast 3", E, "((char *){i|p|0|vp|fp} != 0)", "((char *){d|s|1.5|fl|vf()} != 0)"),
    ("cast to struct", E, "((struct S){ 1 }).a", "({(struct S)i|(struct S)p|(union U *)s|(struct S)0}, 1)"),
    ("cast to function or array", E, "((FT *)fp)(1)", "{((FT)fp)(1)|((int[3])arr)[0]|((int[])p)[0]}"),
    ("cast void", E, "((void){i|s|p|vf()}, 1)", "((int)(void){i|s|p})"),
    ("conditional first", E, "({i|d|p|fp} ? 1 : 2)", "({s|un|vf()|cs} ? 1 : 2)"),
    ("conditional operands", E, "(i ? {1 : 2|1.5 : 2|E1 : ch})", "(i ? {s : 1|1 : s|vf() : 1|d : p|p : 1.5|un : s|vf() : s})"),
    ("conditional operands 2", E, "((i ? {p : 0|p : vp|0 : arr|pc : p}) != 0)", "((i ? {p : d|s : p|d : arr|p : s}) != 0)"),
    ("comma", E, "(vf(), s, i)", "(i, vf()) + 1"),
    ("sizeof", E, "(int)sizeof({i|arr|int|struct S|double[4]|int *|s.a|*p})", "(int)sizeof({struct inc|ginc|*pi|int[]|struct never})"),
    ("sizeof bit-field", E, "(int)sizeof({s.a|s.n})", "(int)sizeof({s.bf|(s.bf)|ps->bf})"),
    ("sizeof function", E, "(int)sizeof({fp|f1(1)|&f1})", "(int)sizeof({f1|FT|int(int)|vf|void})"),
    ("alignof", E, "(int)_Alignof({int|struct S|double[4]|union U|T})", "(int)_Alignof({struct inc|FT|void(int)|struct never})"),
    ("compound literal", E, "((int[]){ 1, 2 })[{1|i}]", "((int[1]){ 1, 2 })[0]"),
    ("compound literal type", E, "(*(T *){ p })", "{((FT){ 0 }, 1)|((struct inc){ 0 }, 1)|((void){ 0 }, 1)|((struct inc[2]){ 0 }, 1)}"),
    ("generic", E, "_Generic({i|1}, int: 1, default: 2)", "_Generic({d|p|s.a + 1LL}, int: 1, char: 2)"),
    ("generic duplicate", E, "_Generic(i, int: 1, long: 2)", "_Generic(i, int: 1, {T|signed|int}: 2, long: 3)"),
    ("generic defaults", E, "_Generic(d, default: 1, int: 2)", "_Generic(d, default: 1, int: 2, default: 3)"),
    ("generic incomplete", E, "_Generic(i, int: 1, struct S: 2)", "_Generic(i, int: 1, {struct inc|FT|int[]|void}: 2)"),
    ("offsetof", E, "(int)__builtin_offsetof({struct S|TS}, {b|n.in|a})", "(int)__builtin_offsetof({struct S, zz|struct S, n.zz|struct inc, a|int, a|union U, b})"),
    ("relational pointer", E, "p {<|>=|==} {arr|&i}", "p {<|>=|==} {d|s|1.5}"),
    ("equality", E, "p {==|!=} {0|vp|arr|(void *)0}", "{p == d|s == s|un != un|s == 0|0 == s|fp == d|vf() == 0|d == p}"),
    ("function name as operand", E, "(f1 == fp)", "{f1 + s|f1 * 2|-f1|f1 % 2|~f1}"),
    # ---- statements
    ("if condition", S_, "if ({i|d|p|f0()|fp}) j = 1;", "if ({s|un|vf()|ginc|fs(1)}) j = 1;"),
    ("while condition", S_, "while ({i > 1000|!p|d > 1e9}) j = 1;", "while ({s|vf()|un}) j = 1;"),
    ("do condition", S_, "do j++; while ({i > 1000|!p});", "do j++; while ({s|vf()|un|cs});"),
    ("for condition", S_, "for (; {i > 1000|!p|d > 1e9};) j = 1;", "for (; {s|vf()|un};) j = 1;"),
    ("for clause", S_, "for (int q = 0; q < 2; q++) j = q;", "for (int q = 0; q < 2; {q++, zz|qq++|q + s}) j = q;"),
    ("for scope", S_, "for (int q = 0; q < 2; q++) j = q;", "{for (int q = 0; q < 2; q++) j = 1; j = q;|for (int q = 0; q < 2; q++) { int w = q; (void)w; } j = w;}"),
    ("switch type", S_, "switch ({i|ch|E1|u|l|bo|s.bf}) { case 1: j = 2; }", "switch ({d|s|p|vf()|fl|str}) { case 1: j = 2; }"),
    ("case constant", S_, "switch (i) { case {1|1 + 2|E1|'a'|sizeof(int)|-1|(int)3.5|1 ? 4 : 5}: j = 2; }", "switch (i) { case {j|f0()|ci|p|1.5|s|arr[0]|gi + 1|&i}: j = 2; }"),
    ("case outside", S_, "switch (i) { case 3: ; }", "{case 3: ;|default: ;|{ case 3: j = 1; }|if (i) case 3: j = 1;}"),
    ("duplicate case", S_, "switch (i) { case 1: case 2: case {3|E1|'b'}: j = 2; }", "switch (i) { case 1: case 2: case {1|2|3 - 1|1u|E0 + 1|(char)2}: j = 2; }"),
    ("duplicate case 2", S_, "switch (i) { case 1: switch (j) { case {1|2}: ; } break; case 2: ; }", "switch (i) { case 1: switch (j) { case 1: case 2: ; } break; case 3: for (;;) { case 1: break; } }"),
    ("duplicate case converted", S_, "switch (0ll + l) { case 1: case 4294967297: j = 2; }", "switch (i) { case -1: j = 1; case {4294967295|0xffffffffu|0xffffffffffffffff}: j = 2; }"),
    ("duplicate default", S_, "switch (i) { default: switch (j) { default: ; } }", "switch (i) { default: j = 1; {default:|case 1: default:|{ default: ; } }  j = 3; }"),
    ("break outside", S_, "while (i) { break; }", "{break;|if (i) break;|{ while (i > 100) ; break; }|switch (j) { case 1: ; } break;}"),
    ("continue outside", S_, "while (i > 100) { continue; }", "{continue;|switch (i) { case 1: continue; }|if (i) continue;|do ; while (i > 100); continue;}"),
    ("goto label", S_, "goto L@; L@: ;", "{goto L@;|goto L@; { int L@; (void)L@; }|if (i) goto L@; M@: ; goto M@;}"),
    ("duplicate label", S_, "L@: if (i > 1000) goto L@; M@: if (i > 1000) goto M@;", "L@: if (i > 1000) goto L@; {L@: ;|{ L@: ; }|if (j) L@: j = 1;}"),
    ("expression statement", S_, "i = 1;", "{i = 1 j = 2;|i = ;|= 1;|i = (1;|i = 1);|i + ;|) ;|i j;|, i;|i ? 1;|i ? : ;|arr[;|arr[];|s.;|s.1;|p->;|f1(1,);|f1(,1);|f2(1 2);}"),
    ("statement syntax", S_, "if (i) j = 1; else j = 2;", "{else j = 2;|if i j = 1;|if () j = 1;|if (i) else j = 1;|if (i;) j = 1;|while () j = 1;|while j = 1;|do j = 1;|do j = 1; while (i) j = 2;|do j = 1; j = 2; while (0);|for (i) j = 1;|for (i; j) j = 1;|for (;;;) j = 1;|for ;; j = 1;|switch i { }|switch () { }|goto;|goto 1;|case;|break 1;|return 1 2;|if (int q = 1) j = 1;}"),
    ("keyword as identifier", S_, "{int q = 1; (void)q;}", "{int if = 1;|int int q;|int while;|goto return;|int struct = 3;|int sizeof = 1;}"),
    ("return value void function", VF, "return;", "return {1|i|s|p|d};"),
    ("return no value", IF, "return {1|i|d|ch|0};", "{return;|if (i) return; return 1;}"),
    ("return type", IF, "return {1|i|d|ch};", "return {s|vf()|un|ginc};"),
    # ---- declarations
    ("redeclared local", S_, "{ int q = 1; { int q = 2; (void)q; } (void)q; }", "{ {int q = 1; int q = 2|int q = 1; double q = 2|int q, q = 1|typedef int q; int q = 1|int q = 1; typedef int q|enum { q }; int q = 1|int q; enum { q }|static int q = 2; int q = 1|extern int q; int q = 1}; }"),
    ("redeclared parameter", F, "int ft@(int a, int b) { { int a = 1; (void)a; } return a + b; }", ["int ft@(int a, int b) { int a = 1; return a + b; }", "int ft@(int a, int b) { double b; return a; }", "int ft@(int a, int b) { typedef int a; return b; }", "int ft@(int a, int b) { for (;;) { break; } enum { b }; return a; }"]),
    ("duplicate parameter", F, "int ft@(int a, int b);", "int ft@({int a, int a|int a, double a|int q, int a, char *a});"),
    ("duplicate parameter def", F, "int ft@(int a, int b) { return a + b; }", "int ft@({int a, int a|int a, double a|int q, int a, int *a}) { return 1; }"),
    ("redeclared typedef", S_, "{ typedef int q; typedef int q; q x = 1; (void)x; }", "{ typedef int q; typedef {long|int *|unsigned|char} q; }"),
    ("redeclared enum constant", D, "enum e@ { A@, B@ };", "enum e@ { A@, {A@|B@, A@|B@, B@ = 3|A@ = 0} };"),
    ("redeclared tag", D, "struct t@ { int a; };", "struct t@ { int a; }; {struct t@ { int a; }|union t@ *zu@|enum t@ { ZZ@ }|struct t@ { double b; } zq@|union t@ { int a; }};"),
    ("redeclared tag 2", D, "enum t@ { A@ };", "enum t@ { A@ }; {enum t@ { B@ }|struct t@ *zu@|union t@ { int a; }|enum t@ { B@ } zq@};"),
    ("duplicate member", D, "struct t@ { int a, b; struct { int c; }; };", "struct t@ { {int a, a;|int a; double a;|int a; struct { int a; };|struct { int a; }; union { int a; };|int a : 2; int a : 3;|int *a, b, a[2];} };"),
    ("member incomplete", D, "struct t@ { int a; struct inc *p; struct t@ *q; };", "struct t@ { int a; {struct inc b;|struct t@ b;|struct inc b[2];|void b;|int b[]; int c;|union t@ *u;} };"),
    ("member function", D, "struct t@ { int (*f)(int); };", "struct t@ { int k; {int f(int);|FT f;|FT g, *h;} };"),
    ("member no declarator", D, "struct t@ { int a; int : 0; int b; };", "struct t@ { {int a = 3;|int a,;|int a int b;|int a[2] = 0;|static int a;|extern int a;|typedef int a;|register int a;|int *;;|int a : ;|int (a;} };"),
    ("bit-field width", D, "struct t@ { unsigned a : {1|3|31|32}; int b; };", "struct t@ { unsigned a : {33|-1|64|0|1000|1.5|gi} ; int b; };"),
    ("bit-field width 2", D, "struct t@ { {_Bool a : 1|unsigned char a : 8|short a : 16|long long a : 64|int : 0|int a : 7}; int b; };", "struct t@ { {_Bool a : 2|int : 33|int : -1|int a : 0} ; int b; };"),
    ("bit-field type", D, "struct t@ { {int|unsigned|_Bool|enum E|T} a : 1; };", "struct t@ { {float|double|int *|struct S|union U|void} a : 1; };"),
    ("object incomplete", S_, "{ struct S q = { 0 }; (void)q; }", "{ {struct inc q|struct never q|void q|struct never q[3]|struct inc q[2]|int q[]|void q[2]}; }"),
    ("parameter incomplete", F, "int ft@(struct S a, int b[]) { return a.a + b[0]; }", "int ft@({struct inc a|void a|int b, struct inc a|int b, void|struct inc a[2]}) { return 1; }"),
    ("parameter types", F, "int ft@(void);", "int ft@({void, int|int, void|int a, void b|..., int|static int a|typedef int a|extern int a|int a = 3|int a;|int a,|int int a|void a[2]});"),
    ("array of", D, "extern int a@[{2|3}][{1|4}];", "{extern void a@[2]|extern FT a@[2]|extern struct inc a@[3]|extern int a@[2][]|extern int a@(int)[2]};"),
    ("array size", F, "int a@[{1|3|E1|2 + 3|sizeof(int)|'a'}];", "int a@[{-1|-E1|1 - 2|1.5|gi|&gi|E0 - 1}];"),
    ("array size type", S_, "{ int q[{3|i > 0 ? 2 : 3|i + j + 1|ch}]; (void)sizeof q; }", "{ int q[{d|p|s|1.5|vf()|-1|-5}]; (void)sizeof q; }"),
    ("function returns", D, "{int (*a@(int))[2]|FT *a@(int)|struct S a@(int)};", "{int a@(int)[2]|FT a@(int)|int a@(void)(void)|int a@[2](void)};"),
    ("storage classes", D, "{extern int a@|typedef int a@|extern const int a@|extern int (a@)};", "{extern static int a@|typedef extern int a@|typedef static int a@|static extern int a@|extern typedef int a@};"),
    ("file storage", F, "{static int a@|extern int a@|int a@};", "{auto int a@|register int a@|static register int a@|auto int a@ = 3};"),
    ("type specifiers", D, "extern {int|unsigned long|long long int|short unsigned|char signed|long double|int long const|volatile unsigned char} a@;", "extern {int char|long float|unsigned double|short long|signed unsigned|long long long|short short|double char|float int|void int|struct S int|int struct S|T int|unsigned T|_Bool int|unsigned _Bool|short char|long char|short double|signed void} a@;"),
    ("declarator", D, "extern int {a@|*a@|(a@)|a@[2]|(*a@)(void)|*const a@}, b@;", "extern int {1|*|(|()|[2]|a@ b@|(*)|a@[|a@(|a@)|*a@ *|a@, ,b@|const|+a@|&a@}, c@;"),
    ("missing declarator", F, "struct q@ { int a; };", ["struct q@ { int a; }", "struct q@ { int a; }, ;", "struct q@ { int a; } x@ y@;", "struct q@ { int a; ;", "struct q@ { int a; }; };", "struct q@ int a; };", "struct q@ { int a }; struct r@ { int a; } 3;", "struct { int a; };;}"]),
    ("enum value", D, "enum e@ { A@ = {1|-3|'a'|E1 + 2|sizeof(int)|0x7fffffff}, B@ };", "enum e@ { A@ = {1.5|gi|f0()|&gi|\"a\"|p@|} };"),
    ("enum syntax", D, "enum e@ { A@, B@, };", "enum e@ { {|,|A@ B@|A@,,B@|1|A@ = |int|A@; B@} };"),
    ("initializer constant", F, "int a@ = {3|sizeof(gi)|E1|1 + 2 * 3|(int)1.5|'a'|1 ? 2 : 3};", "int a@ = {gi|f0()|gi + 1|garr[0]|gi++|*&gi|gci};"),
    ("initializer constant 2", F, "int *a@ = {&gi|garr|garr + 1|&garr[2]|0|(void *)0};", "int *a@ = {(int *)gi|&garr[gi]|garr + gi|gi ? &gi : 0|(&gi)++};"),
    ("initializer constant 3", S_, "{ static int q = {3|E1|sizeof(i)|-1}; (void)q; }", "{ static int q = {i|f0()|gi|*p|arr[0]|i + 1|s.a}; (void)q; }"),
    ("initializer constant 4", S_, "{ static int *q = {&gi|0|garr}; (void)q; }", "{ static int *q = {&i|p|arr|&arr[1]|&s.a|&rg}; (void)q; }"),
    ("initializer constant 5", F, "struct S a@[2] = { { 1, 2 }, [1].n.in = {3|E1} };", "struct S a@[2] = { {{ gi, 2 }|{ 1, f0() }}, [1].n.in = {3|gi} };"),
    ("initializer type", S_, "{ int q = {1|d|ch|i}; (void)q; }", "{ int q = {s|vf()|un|ginc|{ s }|{ vf() }}; (void)q; }"),
    ("initializer type 2", S_, "{ double q = {1|d|ch|i}; (void)q; }", "{ double q = {s|vf()|p|str|arr}; (void)q; }"),
    ("initializer type 3", S_, "{ int *q = {0|p|arr|vp}; (void)q; }", "{ int *q = {d|s|1.5|vf()}; (void)q; }"),
    ("initializer type 4", S_, "{ struct S q = {s|{ 1, 2 }|{ 0 }|*ps|fs(1)}; (void)q; }", "{ struct S q = {i|un|anon|1|p|d|0}; (void)q; }"),
    ("initializer array", S_, "{ int q[3] = {{ 1, 2 }|{ 0 }|{ 1, 2, 3 }|{ [1] = 5 }}; (void)q; }", "{ int q[3] = {arr|1|i|p|{ s }|(arr)|str|f0()}; (void)q; }"),
    ("initializer excess", S_, "{ int q[3] = { 1, 2, 3, }; (void)q; }", "{ {int q[3] = { 1, 2, 3, 4 }|int q[2][2] = { { 1, 2, 3 } }|union U q = { 1, 2 }|struct { int a; } q = { 1, 2 }|int q = { 1, 2 }|int q[2] = { [1] = 1, 2 }|int *q = { 0, 0 }}; (void)q; }"),
    ("initializer excess static", F, "int q@[3] = { 1, 2, 3, }; struct S w@ = { 1, 2, { 3 }, 4, 5 };", "{int q@[3] = { 1, 2, 3, 4 }|struct S w@ = { 1, 2, { 3, 4 }, 4, 5 }|struct S w@ = { 1, 2, { 3 }, 4, 5, 6 }|char w@[2] = { 1, 2, 3 }|int w@[2][2] = { 1, 2, 3, 4, 5 }};"),
    ("designator", S_, "{ struct S q = { {.a = 1|.n.in = 2|.b = 1, .a = 2|.n = { 1 }} }; (void)q; }", "{ struct S q = { {.zz = 1|.n.zz = 2|.in = 1|[0] = 1|.a.b = 1|.n = 1, .k = 3|.a[1] = 3} }; (void)q; }"),
    ("designator array", S_, "{ int q[3] = { {[1] = 1|[2] = 3, [0] = 4|[E0] = 1} }; (void)q; }", "{ int q[3] = { {.a = 1|[3] = 1|[-1] = 1|[i] = 1|[1.5] = 2|[1][0] = 3|[p] = 1|[E1] = 2} }; (void)q; }"),
    ("string initializer", S_, "{ char q[{4||5}] = \"abc\"; (void)q; }", "{ {int q[4] = \"abc\"|char q[4] = L\"abc\"|char *q[4] = \"abc\"|char q[3] = \"abcdef\"|char q = { \"a\", \"b\" }|short q[] = \"abc\"}; (void)q; }"),
    ("extern with initializer", S_, "{ extern int qx@; (void)qx@; }", "{ extern int qx@ = 3; (void)qx@; }"),
    ("typedef with initializer", D, "typedef int q@;", "typedef int q@ = 3;"),
    ("function with initializer", D, "{int q@(void)|int (*q@)(void)};", "{int q@(void) = 0|FT q@ = 0|int q@(int a) = f0};"),
    ("conflicting types", F, "{extern int a@; int a@ = 1|int a@[]; int a@[3]|int a@(); int a@(int)|int a@(int); int a@(const int)|struct S *a@(void); TS *a@(void)};", "{extern int a@; extern long a@|int a@(void); int a@(int)|int a@(int); int a@(double)|int a@(int); int a@(int, ...)|int a@[2]; int a@[3]|int a@; int *a@|int a@(int); long a@(int)|int a@; int a@(void)|extern const int a@; extern int a@|int *a@; const int *a@|typedef int a@; int a@|enum { a@ }; int a@|int a@(int); int a@(unsigned)};"),
    ("redefinition", F, "{int a@; int a@ = 1; int a@|static int a@(void); static int a@(void) { return 1; }|extern int a@; int a@ = 2};", "{int a@ = 1; int a@ = 1|int a@(void) { return 1; } int a@(void) { return 1; }|int a@ = 1; extern int a@ = 2|static int a@ = 1; static int a@ = 2|int a@(void) { return 1; } int a@};"),
    ("linkage conflict", F, "{static int a@; extern int a@|static int a@(void); int a@(void) { return 1; }|static int a@(void); extern int a@(void); static int a@(void) { return 1; }};", "{int a@; static int a@|static int a@; int a@|extern int a@; static int a@|int a@(void); static int a@(void)|int a@(void) { return 1; } static int a@(void)};"),
    ("function in function", S_, "{ int qf@(void); (void)i; }", "{int qf@(void) { return 1; }|static int qf@(void);|void qf@(int a) { }}"),
    ("static assert", D, "_Static_assert({1|sizeof(int) == 4|E1 == 7|1 < 2 && 3|'a'|-1}, \"m\");", "_Static_assert({0|sizeof(int) == 5|E1 == 8|1 > 2|1 && 0|!1}, \"m\");"),
    ("static assert constant", D, "_Static_assert({1|sizeof(gi)}, \"m\");", "_Static_assert({gi|f0()|1.5|gi == gi|\"a\"|&gi}, \"m\");"),
    ("static assert form", D, "_Static_assert(1, \"m\");", "_Static_assert({1, 2|1, gi|(1), 'm'|, \"m\"|\"m\"|1 \"m\"});"),
    ("alignas", D, "extern _Alignas({4|8|16|int|double}) int a@;", "extern _Alignas({3|-4|gi|1.5|struct inc|12|7}) int a@;"),
    ("VLA at file scope", F, "int a@[sizeof(gi)];", "{int a@[gi]|extern int a@[gi]|static int a@[2][gi]|int (*a@)[gi]|typedef int a@[gi]};"),
    ("VLA static", S_, "{ int q[i + 1]; (void)sizeof q; }", "{ {static int q[i + 1]; (void)sizeof q|extern int q[i + 1]|struct { int a[i + 1]; } q|int q[i + 1] = { 1 }|static int q[2][i]}; }"),
    ("declaration syntax", F, "int a@, b@ = 1;", "{int a@ = 1 int b@|int a@ = |a@ = 1|int a@ b@|int (a@|int a@) | int a@ = 1,|unsigned = 3|struct S = { 1 }|int 3a@|* a@|(int) a@|int a@ = ;|int a@ == 3|= 1|{ int a@; }|int a@, int b@|return 1|if (1) int a@|1 + 2};"),
    ("function body", F, "int a@(int q) { return q; }", ["int a@(int q) { return q;", "int a@(int q) return q; }", "int a@(int q) { return q; } }", "int a@(int q) { return q }", "int a@(int q) { return q; )", "int a@(int q); { return q; }", "int a@(int q) { return q; ] }", "int a@(int q) { (return q;) }", "int a@(int q) {{ return q; }", "int a@(int q) { return q; } {}", "int a@ { return 1; }", "int a@(int q) = { return q; }", "int a@(int q), b@ { return q; }", "typedef int a@(int q) { return q; }", "FT a@ { return 1; }"]),
    ("unnamed parameter", F, "int a@(int q, int w) { return q + w; }", "int a@(int q, int) { return {q + w|q + int|w} ; }"),
    ("void variable use", S_, "vf();", "{i = vf();|i + vf();|f1(vf());|vf() ? 1 : 2;|vf().a;|vf()->a;|vf()[0];|*vf();|&vf();|!vf();|(int)vf();|vf()();|return vf() + 1;}"),
    ("builtin va", F, "void a@(int n, ...) { __builtin_va_list q; __builtin_va_start(q, n); (void)__builtin_va_arg(q, int); __builtin_va_end(q); }", "void a@(int n, ...) { __builtin_va_list q; __builtin_va_start({q, zz|zz, n}); (void)__builtin_va_arg(q, int); __builtin_va_end(q); }"),
    ("va_arg type", F, "void a@(int n, ...) { __builtin_va_list q; __builtin_va_start(q, n); (void)__builtin_va_arg(q, {int|double|struct S|int *}); __builtin_va_end(q); }", "void a@(int n, ...) { __builtin_va_list q; __builtin_va_start(q, n); (void)__builtin_va_arg({q, struct inc|q, 3|n, int|q, |q|q, void(int)}); __builtin_va_end(q); }"),
    # ---- tokens
    ("tokens", S_, "ch = {'a'|'\\n'|'\\x41'|'\\0'|'\\''};", "{ch = '';|ch = 'a;|str = \"abc;|i = 0x;|i = 08;|i = 1a;|i = 0b2;|i = 1.2.3;|i = 1uu;|i = 1lul;|d = 1.5u;|d = 1e;|d = 0x1.8;|i = 12_3;|i = @;|i = 1 $$ 2;|i = `1;|i = 1 \\ 2;|ch = '\\xg';|str = \"\\x\";|d = 1.0ff;|i = 0x1p;|i = 1lL;|str = \"\\q@;}"),
    ("string prefixes", S_, "str = \"a\" {\"b\"|u8\"b\"};", "{str = L\"a\" u8\"b\";|str = u\"a\" L\"b\";|i = *(u\"a\" U\"b\");}"),
    # ---- preprocessor
    ("pp if expression", P, "#if {1|defined X|1 + 1 == 2|0x10 > 3|'a'|!0|(1)|1 ? 2 : 3}\n#endif", "#if {|1 +|(1|1)|1.5|\"a\"|1 2|= 1|1 ? 2|defined|defined(|defined()|defined 1|1 /* */ / 0|1 % 0|* 1|i++|1 += 2|()|@}\n#endif"),
    ("pp elif expression", P, "#if 0\n#elif {1|defined X|!0|(1)}\n#endif", "#if 0\n#elif {|1 +|(1|1)|1.5|1 2|1 / 0|defined()}\n#endif"),
    ("pp conditional nesting", P, "#if 1\n#elif 0\n#else\n#endif", "#if 1\n{#else\n#else\n#endif|#else\n#elif 1\n#endif|#if 1\n#endif|#endif\n#endif|#endif\n#else|#endif\n#elif 1|#ifdef X\n#endif|#else\n#if 0\n#endif}\n"),
    ("pp ifdef", P, "#ifdef X@\n#endif\n#ifndef X@\n#endif", "{#ifdef\n#endif|#ifndef\n#endif|#ifdef 1\n#endif|#ifdef \"a\"\n#endif|#ifndef (X@)\n#endif}"),
    ("pp error", P, "#if 0\n#error no\n#endif", "{#error yes|#if 1\n#error yes\n#endif|#ifndef X@\n# error\n#endif|#if 0\n#else\n#error a 'b\n#endif}"),
    ("pp unknown directive", P, "#\n#pragma foo", "{#foo|# bar 1|#endiff|#Include \"a\"|#defin X 1|#if 1\n#foo\n#endif}"),
    ("pp include", P, "#define X@ 1", "#include {\"nonexistent-zz.h\"|<nonexistent-zz.h>|foo|<stdio.h|\"a|1|X@|<>|\"\"}"),
    ("pp define", P, "#define X@ 1\n#define Y@(a, b) a ## b # a\n#define Z@(...) __VA_ARGS__\n#define W@() 1", "{#define|#define 1|#define \"a\" 1|#define X@(a|#define X@(a b) 1|#define X@(a,) 1|#define X@(1) 1|#define X@(a, a) 1|#define X@(..., a) 1|#define X@(a) #b|#define X@(a) ##a|#define X@(a) a##|#define X@ ## a|#define X@ a ##|#define X@(,) 1|#define defined 1|#define X@(a...b) 1|#define X@+1|#define X@(a) # 1|#define X@(...) #a}"),
    ("pp undef", P, "#undef X@", "{#undef|#undef 1|#undef \"a\"|#undef (X@)}"),
    ("pp line", P, "#line 100\n#line 5 \"foo.c\"", "#line {|foo|\"a\"|1 foo|1.5|0x10|-1|1 L\"a\"}"),
    ("macro arguments", S_, "\n#define Q@(a, b) (a + b)\n#define R@() 1\n#define V@(a, ...) __VA_ARGS__\ni = Q@(1, (2, 3)) + R@() + V@(1, 2);", "\n#define Q@(a, b) (a + b)\n#define R@() 1\n#define V@(a, ...) __VA_ARGS__\ni = {Q@(1)|Q@(1, 2, 3)|Q@()|R@(1)|Q@(1, 2|Q@((1, 2))|R@(,)} + 1;"),
    ("macro paste", S_, "\n#define Q@(a, b) a ## b\ni = {Q@(1, 2)|Q@(, 2)|Q@(1, u)|i Q@(+, =) 3|Q@(i, ) Q@(,)};", "\n#define Q@(a, b) a ## b\ni = {Q@(+, 1)|Q@(i, \"a\")|Q@(1, -)|Q@(\\,, i)|Q@(\"a\", \"b\")|Q@(*, i)|Q@(=, +)};"),
    ("comment", F, "int a@; /* foo */ // bar", "int a@; /* foo"),
    ("const through typedef", S_, "{ typedef int q; q v = 1; v = 2; (void)v; }", "{ typedef const int q; q v = 1; {v = 2|v++|v += 1|--v|*&v = 2}; (void)v; }"),
    ("const array elements", S_, "{ int q[2] = { 1, 2 }; q[0] = 3; (void)q; }", "{ {const int q[2]|int const q[2]} = { 1, 2 }; {q[0] = 3|*q = 3|q[1]++|*(q + 1) -= 1}; }"),
    ("const array typedef", S_, "{ typedef int q[2]; q v = { 1 }; v[0] = 1; (void)v; }", "{ typedef int q[2]; const q v = { 1 }; {v[0] = 1|(*v)++|*v = 3|v[1] += 1}; }"),
    ("const members of const arrays", S_, "{ struct { int a[2]; } q = { { 1 } }; q.a[0] = 2; (void)q; }", "{ {const struct { int a[2]; } q = { { 1 } }|struct { const int a[2]; } q = { { 1 } }|struct { struct { int a[2]; } const z; } w = { { { 1 } } }; struct { int a[2]; } *const *q = 0; w.z} {.a[0] = 2|.a[1]++}; }"),
    ("const parameter", F, "int ft@(int q, const int *p) { q = 1; p = &q; return *p; }", "int ft@(const int q, const int *p, int *const r, const int s[2]) { {q = 1|*p = 2|r = 0|s[0] = 1|q++|p[1] = 3|--*s}; return 1; }"),
    ("local function address", S_, "{ int (*q)(int) = {f1|&f1|*f1|fp}; (void)q; }", "{ int (*q)(int) = {s|d|1.5|&fs(1)|vf()}; (void)q; }"),
]


def pick(r, t):
    """expand {a|b|c}: a group counts as a choice when it has a top-level | ."""
    out, i = [], 0
    while i < len(t):
        c = t[i]
        if c == "\\" and i + 1 < len(t) and t[i + 1] in "|,":
            out.append(t[i + 1]); i += 2; continue
        if c == "{":
            dep, j, parts, cur = 0, i, [], i + 1
            while j < len(t):
                if t[j] == "\\" and j + 1 < len(t) and t[j + 1] in "|,":
                    j += 2; continue
                if t[j] == "{":
                    dep += 1
                elif t[j] == "}":
                    dep -= 1
                    if dep == 0:
                        break
                elif t[j] == "|" and dep == 1:
                    parts.append(t[cur:j]); cur = j + 1
                j += 1
            if j < len(t) and parts:
                parts.append(t[cur:j])
                out.append(pick(r, r.choice(parts)))
                i = j + 1
                continue
        out.append(c)
        i += 1
    return "".join(out)


def expand(r, t):
    return r.choice(t) if isinstance(t, list) else pick(r, t)


EXPR_IN = ["j = (%s);", "(void)(%s);", "if (%s) j = 1;", "while (0 && (%s)) ;", "f1(%s);", "arr[(%s) & 1] = 1;", "(void)sizeof((%s) + 0);", "switch (%s) { case 99: ; }", "{ int q = %s; (void)q; }", "(void)_Generic((%s) + 0, default: 1);",
           "j = 0 && (%s);", "j = 1 || (%s);", "if (0) { (void)(%s); }", "for (int z = %s; z < 0; z++) ;", "j = (i ? (%s) : 2);", "j = 1 ? 2 : (%s);", "do j++; while (0 && (%s));", "return %s;", "%s;", "fv(str, 1, %s);", "j = -(%s);",
           "j += 2 * (%s);", "(i, %s);", "(%s), i;", "{ int q[2] = { 1, %s }; (void)q; }", "{ struct S q = { .b = %s }; (void)q; }", "j = ((int[]){ %s, 2 })[0];", "\n#define MM@(x) (x)\nj = MM@((%s));", "\n#define MN@ (%s)\nj = MN@;", "for (; 0 && (%s);) ;",
           "for (int z = 0; z < 2; z++, (void)(%s)) ;", "j = ~(%s) & 3;", "switch (j) { case 1: j = %s; }", "j = !(%s);", "j = (int)(%s);", "j = (double)(%s) > 1;", "L@: j = %s; if (0) goto L@;"]
STMT_IN = ["%s"] * 5 + ["{ %s }", "if (i) { %s }", "if (i) { j = 3; } else { %s }", "while (i > 900) { %s }", "for (;;) { %s break; }", "switch (i) { case 77: { %s } default: ; }", "switch (i) { default: { %s } }", "do { %s } while (0);", "if (0) { %s }",
                         "{ int i2 = i; { long j2 = 3; { %s } (void)j2; } (void)i2; }", "return 0; { %s }", "L0@: { %s } if (0) goto L0@;", "{ j = 3; } %s", "{ typedef long Q; Q z = 1; (void)z; } { %s }", "if (i) ; else if (j) { %s } else ;"]
FUNS = ["int fn@(int n, double x, struct S ar) {\n%s\n  (void)n; (void)x; (void)ar; return i; }\n", "static int fn@(void) {\n%s\n  return j; }\nint use@(void) { return fn@(); }\n", "int fn@(char *a, ...) {\n%s\n (void)a; return 1; }\n",
        "static inline int fn@(struct S *a, int b[3]) {\n%s\n (void)a; (void)b; return i; }\n", "int (*fn@(int z))(int) {\n%s\n (void)z; return fp; }\n".replace("return fp", "return f1")]
FILLER = ["int fill@(int a) { int b = a * 3; while (b > 2) { b /= 2; if (b == 7) continue; } return b; }\n", "struct Fill@ { int x; double y[3]; };\nstatic struct Fill@ fill@ = { 1, { 2, 3 } };\ndouble *pfill@ = fill@.y;\n",
          "#define FILL@(a) ((a) + 1)\nint fill@ = FILL@(2);\n", "static int fill@(int a) { switch (a) { case 1: return 2; case 2: case 3: break; default: a++; } { int a = 3; (void)a; } return a; }\nint (*pfill@)(int) = fill@;\n",
          "#if 1 + 1 == 3\n#error no\n#elif defined FOO@\n#else\nextern int fill@;\n#endif\n", "typedef struct { int a : 3; unsigned b : 4; } fill@;\nfill@ vfill@ = { 1, 2 };\n", "char sfill@[] = \"text\", *tfill@ = \"a\" \"b\";\n",
          "void gofill@(int a) { for (int i = 0; i < a; i++) { if (i == 3) goto out; } out: ; }\n"]


def build(r, cls, frags):
    """place the fragments of one pair in the same random surroundings"""
    pre = "".join(r.choice(FILLER).replace("@", "p%d" % k) for k in range(r.randint(0, 2)))
    post = "".join(r.choice(FILLER).replace("@", "q%d" % k) for k in range(r.randint(0, 2)))
    header = False
    if cls == E:
        w, st, fun = r.choice(EXPR_IN), r.choice(STMT_IN), r.choice(FUNS)
        body = lambda f: fun.replace("%s", LOCALS % dict(k=r2) + st.replace("%s", w.replace("%s", f)))
    elif cls == S_:
        st, fun = r.choice(STMT_IN), r.choice(FUNS)
        body = lambda f: fun.replace("%s", LOCALS % dict(k=r2) + st.replace("%s", f))
    elif cls == VF:
        st = r.choice(STMT_IN[:14])
        body = lambda f: "void fn@(int a) {\n" + LOCALS % dict(k=r2) + st.replace("return 0;", ";").replace("%s", f) + "\n(void)a; }\n"
    elif cls == IF:
        st = r.choice(STMT_IN)
        body = lambda f: "int fn@(int a) {\n" + LOCALS % dict(k=r2) + st.replace("%s", f) + "\nreturn a; }\n"
    elif cls == D:
        p = r.random()
        if p < .5:
            body = lambda f: f + "\n"
            header = r.random() < .2
        else:
            st, fun = r.choice(STMT_IN), r.choice(FUNS)
            body = lambda f: fun.replace("%s", LOCALS % dict(k=r2) + st.replace("%s", "{ j = 1; " + f + " j = 2; }"))
    elif cls == F:
        body = lambda f: f + "\n"
        header = r.random() < .2
    else:
        p = r.random()
        if p < .6:
            body = lambda f: f + "\n"
            header = r.random() < .3
        elif p < .8:
            fun = r.choice(FUNS)
            body = lambda f: fun.replace("%s", LOCALS % dict(k=r2) + "\n" + f + "\n")
        else:
            body = lambda f: "#if 1 + 1 == 2\n#ifndef NEVER_@\n" + f + "\n#endif\n#else\n#error no\n#endif\n"
    r2 = r.randrange(1000)
    res = []
    for f in frags:
        b = body(f).replace("@", "0")
        if header:
            res.append((ENVIRON + pre + '#include "hdr.h"\n' + post, b))
        else:
            res.append((ENVIRON + pre + b + post, None))
    return res


OPTS = [["-S"], ["-c"], ["-c", "-fabi=ms"], ["-S", "-fcmodel=large"], ["-S", "-fabi=ms"], ["-c"]]


def body(c):
    cc = build_cc("plain")
    cc0 = cc
    root = scratch()
    rejects = {}

    def ref(comp, d):
        rc, out, err, *_ = run([comp, "-std=c11", "-pedantic-errors", "-fsyntax-only", "-w" if comp == "none" else "-Wno-unused", "-Werror=vla" if False else "-Wno-empty-translation-unit" if comp == "clang" else "-Wno-unused", "-I", d, d + "/a.c"], timeout=60)
        if rc not in (0, 1):
            return None
        return rc == 0

    def ours(d, opts):
        out = d + "/out"
        if os.path.exists(out):
            os.unlink(out)
        rc, so, se, *_ = run([cc, opts[0], d + "/a.c", "-o", out, "-I", d] + opts[1:], timeout=60, cpu=30)
        sz = os.path.getsize(out) if os.path.exists(out) else None
        return rc, (so + se).decode("utf-8", "replace"), sz

    def one(j):
        r = c.rng("pair", j)
        name, cls, v, iv = KINDS[j % len(KINDS)] if r.random() < .8 else r.choice(KINDS)
        fv, fi = expand(r, v), expand(r, iv)
        progs = build(r, cls, (fv, fi))
        opts = r.choice(OPTS)
        d = "%s/%d" % (root, j)
        os.makedirs(d)
        res = dict(name=name, fv=fv, fi=fi, used=[], bad=[])
        try:
            for side, (text, hdr) in zip(("valid", "invalid"), progs):
                open(d + "/a.c", "w").write(text)
                if hdr is not None:
                    open(d + "/hdr.h", "w").write(hdr)
                if r.random() < .0 and side == "valid":
                    continue
                want = side == "valid"
                a, b = ref("gcc", d), ref("clang", d)
                if a is None or b is None or a != want or b != want:
                    res["used"].append((side, "no" if a == b else "split", a, b))
                    if os.environ.get("VT_DEBUG"):
                        print("REFREJ", side, name, a, b, "|", fv if want else fi)
                    continue
                rc, msg, sz = ours(d, opts)
                files = {"a.c": text}
                if hdr is not None:
                    files["hdr.h"] = hdr
                if rc is None:
                    rc, msg, sz = ours(d, opts)
                    if rc is None:
                        res["used"].append((side, "timeout", a, b))
                        continue
                ok = None
                if want:
                    if rc != 0:
                        ok = "a valid program (%s: %s) is not accepted: status %s, %s" % (name, fv, rc, msg[:200])
                    elif not sz:
                        ok = "a valid program (%s: %s) is accepted but nothing is written" % (name, fv)
                else:
                    if rc == 0:
                        ok = "a constraint violation is accepted (%s): %s" % (name, fi)
                    elif rc < 0 or rc > 127:
                        ok = "the compiler crashes (%d) on a constraint violation (%s): %s" % (rc, name, fi)
                    elif not msg.strip():
                        ok = "a constraint violation is rejected without a message (%s): %s" % (name, fi)
                    elif "nternal compiler error" in msg:
                        ok = "a constraint violation ends in an internal error (%s): %s: %s" % (name, fi, msg[:200])
                    elif sz:
                        ok = "a rejected program (%s: %s) leaves an output file of %d bytes" % (name, fi, sz)
                res["used"].append((side, "ok", a, b))
                if ok:
                    res["bad"].append((ok + "  [options %s]" % " ".join(opts), files, "%s/%s/%s" % (name, side, fi if not want else fv)))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    kinds = {}
    n = c.n(len(KINDS) * 12, len(KINDS) * 150)
    for res in pmap(one, range(n)):
        if res is None:
            continue
        for side, what, a, b in res["used"]:
            if what == "ok":
                c.case(key="%s/%s" % (side, res["fv"] if side == "valid" else res["fi"]))
                kinds.setdefault((res["name"], side), set()).add(res["fv"] if side == "valid" else res["fi"])
                c.count(**{side + "_programs": 1})
            elif what == "timeout":
                c.inconclusive.append(res["name"])
            else:
                c.count(not_confirmed_by_reference=1)
        for desc, files, key in res["bad"]:
            if os.environ.get("VT_DEBUG"):
                print("BAD", desc.replace("\n", " ")[:200])
            c.violation(desc, files=files, key=key, cmd="bin/cc -c a.c -o out  (expected: see description)")
        if res["bad"] == [] and res["used"]:
            c.sample("%s: %s  /  %s" % (res["name"], res["fv"], res["fi"]))
    c.count(kinds_with_violation_seen=len([1 for k in kinds if k[1] == "invalid"]), kinds_with_valid_seen=len([1 for k in kinds if k[1] == "valid"]))
    miss = [k[0] for k in KINDS if (k[0], "invalid") not in kinds]
    if miss and os.environ.get("VT_DEBUG"):
        print("never confirmed:", miss)
    c.rule = "one case per distinct fragment and side, confirmed by gcc and clang -pedantic-errors"
    c.assumptions = ["gcc and clang with -pedantic-errors agree on what is a constraint violation", "the kinds are those listed in vt/c19.py: constraints the compiler sets out to diagnose"]
    c.min_nontrivial = 300


if __name__ == "__main__":
    main("C19", body)
