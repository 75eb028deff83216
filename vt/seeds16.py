"""Small programs that between them touch every part of the compiler; C16 mutates them."""
SEEDS = r'''
int main(void) { return 0; }
%%
int a = 1 + 2 * 3, b[3] = {1, 2, 3}, c[] = {[4] = 1, 2}; char s[] = "abc" "def"; char *p = &s[2]; long d = sizeof(int[4]);
%%
struct s { int a; struct { char b; short c; }; union { float f; double d; } u; int x : 3, y : 5; unsigned : 0; int z : 9; };
struct s g = { 1, .b = 2, .u.d = 1.5, .x = -1 }; int f(struct s *p) { p->x = 2; p->u.f = 1; return p->y + p->c + g.z; }
%%
enum e { A, B = 5, C, D = -1 }; enum e v = C; int f(enum e x) { switch (x) { case A: return 1; case B ... 7: case D: break; default: return 2; } return 3; }
%%
int fact(int n) { return n <= 1 ? 1 : n * fact(n - 1); } int (*fp)(int) = fact; int g(void) { return fp(3) + (*fp)(2) + (&fact)(1); }
%%
int f(int n) { int s = 0; for (int i = 0; i < n; i++) { if (i == 3) continue; if (i > 10) break; s += i; } while (n--) s ^= n; do { s--; } while (s > 0); return s; }
%%
int f(int n) { if (n) goto a; else goto b; a: n++; b: switch (n) { case 1: n = 2; default: { case 3: n = 4; } } return n; }
%%
double f(double a, float b) { long double_ = 1; return a * b + (int)a - (unsigned long)b / -a + 1e300 + 0x1.8p3 + 1.5f + (a < b) + !a; }
%%
int f(int n) { int a[n][n + 1]; int (*p)[n] = 0; a[1][2] = 3; return sizeof a + sizeof *p + a[0][n - 1]; }
%%
#include <stdarg.h>
int f(int n, ...) { va_list ap, aq; va_start(ap, n); va_copy(aq, ap); int r = va_arg(ap, int) + (int)va_arg(aq, double); va_end(ap); va_end(aq); return r; } int g(void) { return f(1, 2, 3.0, "x", 4L); }
%%
typedef struct { long a, b, c; } big; typedef struct { double d; float f; } sm; typedef struct { char c[3]; } tiny;
big f(big a, sm b, tiny c, int i) { a.b = b.d + c.c[1] + i; return a; } sm g(sm x) { big z = {1, 2, 3}; tiny t = {"ab"}; z = f(z, x, t, 4); x.f = z.a; return x; }
%%
int x = _Generic(1.0f, int: 1, float: 2, default: 3); _Static_assert(sizeof(long) == 8, "no"); _Alignas(16) char buf[32]; int y = _Alignof(double); _Noreturn void die(void); _Thread_local int tl;
%%
#define F(a, b, ...) a##b #a (__VA_ARGS__)
#define G(x) F(x, x, 1, 2)
#define H G(y) H
#if defined(F) && (1 + 2 * 3 > 4 ? 1 : 0) && !defined X
char *s = "x" F(,"") ; int k = __LINE__;
#elif 0
#else
#endif
#line 100 "foo.c"
#undef F
#ifdef H
int z = 'a' + L'b' + '\n' + '\x41' + '\101' + u'c';
#endif
#pragma once
#pragma push_macro("H")
#pragma pop_macro("H")
%%
char a[] = u8"\u00e9\x7f\377"; unsigned short b[] = u"ab\U0001F600"; int c[] = L"wide" L"r"; char d[2] = "ab"; unsigned e = U'\U00010000'; char *f = "a\
b" /* c */ "\0\a\b\f\v\r\t\\\'\"\?";
%%
int f(int *p, int n) { p += n; p[1] = *p++ + *--p; return p - (p + 1) + (p < p + 2) + !p + (p && n) + (p || n); } char *q(void) { return "abc" + 1; }
%%
static int s; extern int e; static int f(void) { static int c = 3; extern int e; register int r = 1; { int s = 2; r += s; } return c++ + e + s + r; } int g(void) { return f(); } inline int h(void) { return 1; }
%%
int f(a, b) int a; char b; { return a + b; } int g(); int h(void) { return g(1, 2.0, 'c'); }
%%
unsigned long f(unsigned char a, signed char b, unsigned short c, short d, unsigned e, long g, _Bool h) { a += b; c <<= 2; d >>= 1; e = ~e; g = -g % 7; h = g; a++; --h; return a ^ b | c & d && e || g ? a : (b, c); }
%%
struct n { struct n *next; int v; }; struct n *f(struct n *p) { while (p && p->next) p = p->next; return &(struct n){ p, 1 }; } int *g(void) { static int a[] = {1, 2}; return (int[]){1, 2, 3} + a[1]; }
%%
int *const cp = 0; const volatile int cv = 1; int * restrict rp; int (*arr[3])(int, char); int (*(*ff)(void))[4]; void (*sig(int, void (*)(int)))(int); int (*pa)[3];
int t(void) { arr[1] = 0; return (*pa)[1] + (*ff())[2]; }
%%
struct __attribute__((packed)) p { char a; int b; } pk; int f(void) { __builtin_va_list v; return __builtin_offsetof(struct p, b) + sizeof(struct p); }
#pragma pack(1)
struct q { char a; long b; };
#pragma pack()
%%
int f(int a, int b, int c, int d, int e, int g, int h, int i, double x, double y) { return a + b + c + d + e + g + h + i + x + y; } int m(void) { return f(1, 2, 3, 4, 5, 6, 7, 8, 9., 10.); }
%%
union u { int i; float f; char c[8]; struct { short s, t; } p; } v = { .p = { 1, 2 } }, w[2] = { { 1 }, { .f = 2 } }; union u f(union u x) { x.p.t = w[1].i; return x; }
%%
void f(void) { __asm__("nop"); } int g(int a, int b) { int r; asm volatile ("add %1, %0" : "=r"(r) : "r"(a), "0"(b) : "cc"); return r; }
%%
int g1; int *g2 = &g1; struct { int *a; char *b; int (*c)(void); } g3 = { &g1, "str", 0 }; int g4[3][2] = { {1}, {2, 3} }; char *g5[] = { "a", [2] = "b" }; int g6 = sizeof g5 / sizeof *g5; double g7 = 1.5, g8[] = {1, 2.5f};
%%
int main(int argc, char **argv) { const char *f = __func__; return argc > 1 ? argv[1][0] == f[0] : sizeof(argv) + _Alignof(int); }
%%
struct bf { unsigned a : 1; int b : 31; long c : 40; unsigned char d : 4, e : 4; _Bool f : 1; } B = { 1, 2, 3, 4, 5, 1 }; int f(struct bf *p) { p->a ^= 1; p->b++; p->c = p->d = p->e -= 3; return p->f = !p->f; }
%%
int f(int x) { return ({ int y = x; y + 1; }); } typedef int T; T t = (T)3; int h(T (T)) { return 0; } void v(int a[static 3], int b[], int c[*]); int i = sizeof(T *[3]);
%%
unsigned long long a = 0xffffffffffffffffull, b = 18446744073709551615u, c = 0b101, d = 1'000'000, e = 077777777777777777777777l; int f = -2147483647 - 1; double g = .5e-3, h = 1.e3, i = 0x.8p1; float j = 3.4e38f;
%%
int arr[10]; void f(int i) { arr[i]++, arr[i + 1]--, arr[i] *= 2, arr[i] /= 3, arr[i] %= 4, arr[i] &= 5, arr[i] |= 6, arr[i] <<= 1; i[arr] = 3; *(arr + 2) = -+-~!arr[3]; if (arr[0]) ; else { ; } for (;;) { if (arr[1]) return; } }
'''
SEEDS = [s.strip("\n") + "\n" for s in SEEDS.split("%%\n")]
SNIPPETS = r'''
int x[-1];|int x[0];|int x[];|int f(void) { return y; }|int f(void) { struct nope s; }|struct s { struct s x; };|struct s { int a; int a; };|int a; float a;|int f(int); int f(char);|
int f(void) { break; }|int f(void) { continue; }|int f(void) { goto l; }|int f(void) { case 1:; }|int f(void) { default:; }|int f(void) { l: l: ; }|int f(void) { switch (1) { case 1: case 1: ; } }|
int f(void) { 1 = 2; }|int f(void) { &1; }|int f(void) { *1; }|int f(void) { 1(); }|int f(void) { 1[2]; }|int f(void) { 1.x; }|int f(void) { 1->x; }|struct s { int a; } v; int f(void) { return v.b; }|struct s { int a; } v; int f(void) { return v + 1; }|
struct s { int a; } v; int f(void) { if (v) ; }|struct s { int a; } v; int f(void) { return -v; }|struct s { int a; } v; int f(void) { return (int)v; }|void f(void) { return 1; }|int f(void) { void x; }|void v; |int f(void) { return sizeof(void); }|int f(void) { return sizeof(f); }|
int f(void) { f + 1; f++; f = 0; }|int a[3]; int f(void) { a = 0; a++; }|int f(int x) { int x; }|int f(int x, int x);|int f(int, void);|int f(void, int);|int f(void) { int a[f()]; static int b[f()]; }|int n; int a[n];|struct s { int a[n]; };|
enum e { A, A };|enum e { A = 1.5 };|enum e { A = x };|enum e;|enum;|struct;|struct {};|struct s;struct s v;|union u {};|typedef int T; T T;|typedef int T; unsigned T x;|typedef;|int int x;|long long long x;|short char x;|signed unsigned x;|float long x;|_Bool short x;|
static extern int x;|typedef static int x;|register int x;|auto int x;|inline int x;|_Noreturn int x;|_Alignas(3) int x;|_Alignas(x) int y;|_Alignas(int[]) int y;|_Alignas() int y;|_Alignas(1000000000000) int y;|_Alignof(void)|int x = _Alignof(f);|
_Static_assert(0, "x");|_Static_assert(1);|_Static_assert(x, "y");|_Static_assert(1, 2);|_Static_assert|_Generic|int x = _Generic(1, char: 1);|int x = _Generic(1, int: 1, int: 2);|int x = _Generic(1, default: 1, default: 2);|int x = _Generic(1);|int x = _Generic();|
int x = 1/0;|int x = 1%0;|int x = -9223372036854775807-1/-1;|int x = (-9223372036854775807-1)%-1;|long x = (-9223372036854775807L-1L)/-1L;|int x = 1<<100;|int x = 1<<-1;|int x = 1>>64;|int x = (int)1e300;|int x = (int)(0.0/0.0);|int x = y;|int x = f();|int x = {1,2};|int x = {{1}};|int x = {};|int x[2] = {1,2,3};|int x[2] = {[2]=1};|int x[2] = {[-1]=1};|int x[] = {[1000000000]=1};|int x = {.a=1};|int x[2]={.a=1};|struct s{int a;} x={.b=1};|struct s{int a;} x={[0]=1};|char x[2]="abc";|char x[]={"abc"};|char x[]={"a","b"};|int x[]="abc";|char *x={"a"};|int *p=1.5;|char x = "a";
'''
SNIPPETS = [s for l in SNIPPETS.split("\n") for s in l.split("|") if s.strip()] + [
    "#", "##", "# #", "#if", "#if\n", "#if 1", "#else", "#endif", "#elif 1", "#if 0\n#else\n#else\n#endif", "#define", "#define 1", "#define f(", "#define f(x", "#define f(x,", "#define f(,)", "#define f(...", "#define f(x) #", "#define f(x) # y\nf(1)", "#define x ##\nx", "#define x a ## \nx", "#define f(x) ## x\nf(1)", "#define x x x\nx",
    "#define f(x) f(f(x))\nf(f(f(1)))", "#define f(x) x\nf(", "#define f(x) x\nf", "#define f(x,y) x\nf(1)", "#define f() x\nf(1)", "#undef", "#undef 1", "#include", "#include <", "#include \"", "#include \"nope.h\"", "#include <nope>", "#include x", "#define x <nope>\n#include x", "#include \"/\"", "#include \".\"", "#include \"\"", "#include \"t.c\"",
    "#line", "#line x", "#line 0", "#line -1", "#line 99999999999999999999", "#line 1 2", "#line 1 \"a\" b", "#error", "#error foo", "#error \"x\"", "#pragma", "#pragma pack", "#pragma pack(", "#pragma pack(push", "#pragma pack(push, 3)", "#pragma pack(99)", "#pragma pack(pop)", "#pragma push_macro", "#pragma push_macro(", "#pragma push_macro(\"x\")", "#pragma pop_macro(\"x\")", "#pragma push_macro(x)", "#pragma pop_macro(\"\")",
    "#if 1/0\n#endif", "#if 1%0\n#endif", "#if (1\n#endif", "#if 1)\n#endif", "#if 1 +\n#endif", "#if defined\n#endif", "#if defined(\n#endif", "#if defined(x\n#endif", "#if 'a\n#endif", "#if \"a\"\n#endif", "#if 1.5\n#endif", "#if 0x\n#endif", "#if 1 ? 2\n#endif", "#if 99999999999999999999999\n#endif", "#if (-9223372036854775807-1)/-1\n#endif", "#if 1<<64\n#endif", "#if 'abcd' == L'\\u1234'\n#endif", "#if x(\n#endif", "#ifdef\n#endif", "#ifdef 1\n#endif", "#ifndef\n#endif",
    "\"", "'", "'a", "''", "\"a", "\"\\", "'\\", "'\\x", "'\\x'", "'\\xfffffffffffff'", "'\\777777'", "'\\q'", "\"\\u12\"", "\"\\uzzzz\"", "\"\\U00110000\"", "L", "L'", "u8", "u8'a'", "u8\"", "'abcdefghi'", "\"\\u", "\\", "\\u", "\\u1234", "\\\n", "\\", "@", "`", "$", "\x01", "\x7f", "/*", "/* *", "//", "// \\\n x", "/", "0x", "0b", "0b2", "08", "1e", "1e+", "1.5.6", "1u2", "0xg", "1'", "1''0", ".", "..", "...", "1.0fl", "0x1p", "0x1.8", "99999999999999999999999999", "1e999999999",
    "int x = 1 ? 2;", "int x = ;", "int x = (1;", "int x = 1);", "int x = {;", "int f(", "int f(int", "int f(int,", "int f(...)", "int f(int a, ...", "int f(void) {", "int f(void) { return", "int f(void) { if", "int f(void) { if (", "int f(void) { for (", "int f(void) { for (;", "int f(void) { switch", "int f(void) { do", "int f(void) { do ; while", "int f(void) { goto", "int f(void) { int", "int f(void) { (", "int f(void) { sizeof", "int f(void) { sizeof(", "int f(void) { x ?", "int f(void) { \"a\"", "int (", "int *", "int x[", "int x[1", "int x[]", "int (*x", "int (*x)(", "struct", "struct {", "struct { int", "struct { int a", "struct { int a :", "struct { int a : 100; };", "struct { int a : -1; };", "struct { int a : 0; };", "struct { float a : 1; };", "struct { int : 3; };", "struct { int a : x; };", "union", "enum {", "enum { A", "enum { A =", "typedef", "static", "extern", "int", "}", "{", ")", "(", "]", "[", ";", ",", ";;",
    "int f(void) { __builtin_va_arg(1, int); }", "int f(void) { __builtin_va_arg; }", "int f(void) { __builtin_va_start(1, 2); }", "int f(void) { __builtin_va_start; }", "int f(void) { __builtin_va_end(); }", "int f(void) { __builtin_va_copy(1); }", "int x = __builtin_offsetof(int, a);", "int x = __builtin_offsetof(struct s, a);", "struct s {int a:3;}; int x = __builtin_offsetof(struct s, a);", "int x = __builtin_offsetof(struct s);", "__attribute__", "__attribute__(", "__attribute__((", "__attribute__((x)) int y;", "__attribute__((packed)) int x;", "int x __attribute__((aligned(3)));", "__asm__", "__asm__(", "__asm__(1);", "void f(void) { __asm__(\"%5\"); }", "void f(void) { __asm__(\"nop\" : \"=r\"(1)); }", "void f(void) { __asm__(\"nop\" : \"=q\"(x)); }", "void f(void) { __asm__(\"nop\" : : \"zz\"(1)); }",
    "int f(int n) { struct { int a[n]; } s; }", "int f(int n) { int a[n] = {1}; }", "int f(int n) { typedef int T[n]; T x; return sizeof(T); }", "int f(int n, int a[n][n]) { return sizeof a[0]; }", "int f(int n) { goto l; int a[n]; l: ; }", "int f(int n) { switch (n) { int a[n]; case 1: ; } }", "int a[1000000000000];", "int a[9223372036854775807];", "char a[2147483648];", "struct { char a[2147483647], b[2147483647]; } s;", "int f(void) { char a[3000000000]; return a[0]; }", "int a[1L << 62][1L << 62];",
    "int f(void) { return f(f(f())); } int g(int a) { return g(); }", "int f(a) { }", "int f(a, a) int a; { }", "int f(a) int b; { }", "int f(a) { } int g(void) { f(1, 2); }", "int f(int a) {} int g(void) { f((void)0); }", "void f(void) {} int g(void) { return f(); }", "void f(void) {} int g(void) { int x = f(); f() + 1; if (f()); (void)f(); }", "struct s { int a; } f(void); int g(void) { return f().a + f(); }", "struct s f(void); int g(void) { f(); }", "int f(struct s); int g(void) { f(1); }", "int f(struct s x) { }",
]
