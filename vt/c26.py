"""C26: expressions have the types the language defines."""
import itertools, os
from . import common
from .common import build_cc, main
from .diff import Runner, Test

ARITH = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "enum E"]
INTS = [t for t in ARITH if t not in ("float", "double")]
VAR = {t: "v_" + t.replace(" ", "_") for t in ARITH}
GENERIC = [t for t in ARITH if t != "enum E"]
POINTERS = ["void *", "const void *", "char *", "const char *", "signed char *", "unsigned char *", "int *", "const int *", "unsigned *", "long *", "short *", "double *", "float *", "unsigned short *", "unsigned long *", "long long *", "_Bool *",
            "int **", "const int **", "int *const *", "char **", "void **", "const char **", "struct A *", "const struct A *", "struct B *", "union V *",
            "int (*)[3]", "const int (*)[3]", "int (*)[4]", "int (*)[3][2]", "char (*)[4]", "char (*)[6]", "char *(*)[2]", "struct A (*)[2]",
            "int (*)(void)", "int (*)(int)", "void (*)(void)", "int (*)(int, ...)", "double (*)(float, char)", "int *(*)(int *)", "int (*(*)(int))(char)", "int (**)(int)", "struct A (*)(struct A)", "void (*)(int *, const char *)",
            "int (*(*)[3])(void)"]
PRE = """enum E { E0, E1 = 5, E2 = -3 };
struct A { char c; short s; unsigned u : 5; int b : 7; unsigned w : 32; _Bool f : 1; const int k; int arr[3]; char *p; struct { long in; } n; int (*fn)(int); struct A *next; };
struct B { double d; float q; };
union V { int i; double d; };
typedef int T_int; typedef int T_arr[3]; typedef int T_fn(int); typedef const char *T_str; typedef struct A T_A;
%s
static struct A sa, *pa = &sa, aa[2]; static const struct A csa; static const struct A *pca = &csa; static struct B sb, *pb = &sb; static union V uv, *pv = &uv;
static int i3[3], i32[3][2], *pi = i3, **ppi = &pi; static const int ci = 4, *pci = &ci, ci3[3]; static int *const cpi = i3; static char c4[4], *pc = c4; static const char *pcc = c4, *acc[2];
static void *pv0; static const void *pcv0; static unsigned *pu; static long *pl; static short *ps; static double *pd; static float *pf; static volatile int vi; static T_arr ta; static T_str ts = "ab";
static int f_v(void) { return 1; } static int f_i(int a) { return a; } static void f_n(void) { } static int f_va(int a, ...) { return a; } static double f_d(float a, char b) { return a; } static int *f_p(int *p) { return p; }
static struct A f_s(struct A a) { return a; } static struct A *f_ps(void) { return &sa; } static int f_c(char c) { return c; } static int (*f_f(int a))(char) { return f_c; } static void f_2(int *p, const char *s) { }
static const char *f_str(void) { return "x"; } static float f_fl(void) { return 1; } static unsigned char f_uc(void) { return 3; } static enum E f_e(void) { return E1; } static _Bool f_b(void) { return 1; }
static int (*pfi)(int) = f_i, (**ppfi)(int) = &pfi, (*apf[3])(void);
#define TY(...) _Generic((__VA_ARGS__), %s default: 0)
""" % ("\n".join("static %s %s = 2;" % (t, v) for t, v in VAR.items()),
       " ".join("%s: %d," % (t, i + 1) for i, t in enumerate(GENERIC + ["struct A", "struct B", "union V"] + POINTERS)))

ABSTRACT = {}


def arithmetic():
    """every operator with every combination of arithmetic types"""
    out = []
    for a in ARITH:
        x = VAR[a]
        out += [u % x for u in ("+%s", "-%s", "!%s", "(%s)", "%s++", "--%s", "&%s", "*&%s", "(0, %s)", "%s ? %s : %s".replace("%s", "%s", 1) if 0 else "+%s")]
        if a in INTS:
            out.append("~%s" % x)
        for b in ARITH:
            y = VAR[b]
            out += ["%s %s %s" % (x, o, y) for o in ("+", "-", "*", "/", "<", "==", ">=", "!=", "&&", "||")]
            out += ["1 ? %s : %s" % (x, y), "vi ? %s : %s" % (x, y), "(%s)%s" % (a, y), "%s = %s" % (x, y), "%s += %s" % (x, y), "(%s, %s)" % (x, y)]
            if a in INTS and b in INTS:
                out += ["%s %s %s" % (x, o, y) for o in ("%", "<<", ">>", "&", "|", "^")]
                out += ["%s <<= %s" % (x, y), "%s ^= %s" % (x, y)]
    return out


CONSTANTS = ["1", "1u", "1l", "1ul", "1ll", "1ull", "2147483647", "2147483648", "0x7fffffff", "0x80000000", "0xffffffff", "0x100000000", "037777777777", "9223372036854775807", "0xffffffffffffffff", "'a'", "1.0", "1.0f",
             "E1", "(enum E)1", "sizeof(int)", "_Alignof(int)", "(char)1", "(short)1 + (char)1", "-1", "-1u", "~0u", "!1.5", "1 ? 1 : 1u", "0 ? 1l : 1u", "1.0f + 1", "1.0f * 1.0", "L'a'", "u'a'", "U'a'"]

PTR_EXPR = ["pi", "&i3", "i3", "&i3[1]", "i32", "*i32", "&i32", "i32[1]", "&i32[1]", "**i32", "&*pi", "*ppi", "&ppi", "pci", "&ci", "ci3", "&ci3", "*ci3", "cpi", "&cpi", "*cpi", "pc", "pcc", "c4", "&c4", "acc", "&acc[1]", "*acc", "pv0", "pcv0",
            "sa", "&sa", "*pa", "pa->next", "&pa->arr", "pa->arr", "sa.c", "sa.s", "sa.k", "&sa.k", "sa.p", "&sa.p", "sa.n.in", "&sa.n.in", "sa.fn", "&sa.fn", "sa.arr[1]", "csa.c", "&csa.c", "&csa.s", "pca->p", "pca->arr", "&pca->n.in", "&pca->arr", "pca->next", "*pca",
            "aa", "&aa", "aa[1]", "aa[1].arr", "&aa[1].arr[2]", "sb.d", "&pb->q", "uv", "uv.i", "&pv->d", "f_v", "&f_v", "*f_v", "f_i", "f_n", "f_va", "f_d", "f_p", "f_s", "f_f", "f_2", "f_v()", "f_i(1)", "f_va(1, 2)", "f_d(1, 2)", "f_p(pi)", "f_s(sa)", "f_s(sa).c", "f_ps()", "f_ps()->arr", "f_f(1)", "f_f(1)('c')", "*f_f(1)",
            "f_str()", "f_str()[0]", "f_fl()", "f_uc()", "f_e()", "f_b()", "pfi", "*pfi", "**pfi", "&pfi", "pfi(1)", "(*pfi)(1)", "ppfi", "*ppfi", "(*ppfi)(1)", "apf", "&apf", "apf[1]", "*apf", "vi", "ta", "&ta", "ts", "*ts",
            "sa.u", "sa.b", "sa.w", "sa.f", "+sa.u", "+sa.b", "+sa.w", "+sa.f", "sa.u + 1", "sa.w + 1", "sa.u << 1", "sa.w >> 1", "-sa.u", "~sa.u", "sa.u + sa.w", "sa.u * 1l", "1 ? sa.u : 1u" if 0 else "sa.u & 3",
            '"abc"', '&"abc"', '*"abc"', '"abc"[1]', 'u"a"', 'L"a"', 'U"a"', 'u8"a"', "__func__",
            "pi + 1", "1 + pi", "pi - 1", "pi - i3", "i3 + 1", "&i3[2] - i3", "&i3 + 1", "i32 + 1", "*(i32 + 1)", "*i32 + 1", "aa + 1", "pa + 1", "pa - aa", "pcc - c4", "pi++", "--pi", "pi += 1", "pi -= 2", "pci + 1", "cpi + 1", "pi < i3", "pi == 0", "!pi", "pi && pc", "1[i3]", "&1[i3]", "v_char[i3]" if 0 else "0[pc]", "0[pcc]",
            "pv0 == pi", "pi ? 1 : 2u", "(void *)0", "(void *)pi", "(char *)pi", "(const char *)pi", "(int *)0", "(T_arr *)pi", "(T_fn *)f_i", "(T_str)0", "(struct A *)pv0", "(int (*)(void))f_i", "(const int)1", "(T_int)'a'", "(int (*(*)[3])(void))0",
            "vi ? pi : 0", "vi ? 0 : pi", "vi ? pi : (void *)0", "vi ? (void *)0 : pc", "vi ? pi : i3", "vi ? pi : pci", "vi ? pci : pi", "vi ? pi : pv0", "vi ? pv0 : pi", "vi ? pci : pv0", "vi ? pi : pcv0", "vi ? pv0 : pcv0", "vi ? pcc : pc", "vi ? pcc : 0", "vi ? pcc : (void *)0", "vi ? pci : (void *)0", "vi ? f_v : 0", "vi ? f_i : pfi", "vi ? &f_i : f_i", "vi ? 0 : f_i",
            "vi ? &i3 : 0", "vi ? i32 : &i32[1]", "vi ? sa : aa[1]", "vi ? csa : sa", "vi ? &csa : &sa", "vi ? i3 : pi", "vi ? \"a\" : \"bc\"", "vi ? pcc : \"bc\"", "vi ? f_n : f_n", "vi ? ts : pc", "vi ? &uv : pv", "vi ? pa : 0l", "vi ? 1 : (_Bool)1", "vi ? 'a' : 'b'", "vi ? sa.c : sa.c",
            "(pi, pc)", "(1, sa)", "(vi, ci)", "(0, i3)", "(0, f_i)", "(0, \"ab\")", "pi = i3", "pci = pi", "pv0 = pc", "sa.c = 300", "sa.s += 1.5", "v_float = 1", "v_char = v_double", "sa.u = 3", "sb.d *= 2", "sa.p = c4", "pa = aa", "*pi = 1.5", "sa.f = 4",
            "(struct B){ 1 }", "&(struct B){ 1 }", "(int[3]){ 1 }", "&(int[3]){ 1 }", "(int[]){ 1, 2, 3 }", "(int){ 1 }", "&(int){ 1 }", "(const int){ 1 }", "&(const int){ 1 }", "(struct B){ 1 }.q", "(char[]){ \"abc\" }", "&(char[]){ \"abc\" }", "(int *){ i3 }", "(T_arr){ 0 }", "(struct A[2]){ 0 }", "(int (*)(int)){ f_i }",
            "sizeof i3", "sizeof(int[2])", "_Alignof(struct B)", "(int)3.5", "(float)1", "&sa == pa", "_Generic(1, int: 1.5f, default: 2)", "_Generic(pc, char *: pi, default: 0)", "*&*&sa", "&*&sa", "&(*pa).arr[1]", "&pa[1]", "pa[1].c", "(&sa)->s", "(*ppi)[1]", "*ppi[0]", "&ppi[0][1]", "-ci", "+ci", "(ci)", "+vi", "vi++", "ci + vi",
            "+v_enum_E" if 0 else "v_enum_E + E1", "E1 | E2", "E0 == v_enum_E"]
SIZE_ONLY = ["sa.arr", "i3", "i32", "i32[0]", "*&i3", "c4", '"abcdef"', 'L"abc"', "(int[5]){ 0 }", "ta", "aa", "aa[0].arr", "sa", "*pa", "sb", "uv", "v_char", "(char)1", "+v_char", "'a'", "1.0f", "f_s(sa)", "apf", "(0, c4)" if 0 else "acc", "pa->n", "csa", "*(&i32 + 1)", "**&i32", "sa.c", "v_short = 1", "v_char++", "vi ? v_char : v_char", "(vi ? sa : sa)", "f_uc()", "(char){ 1 }", "i3 + 0", "(i3)", "&i3", "*i32", "__func__"]


def declarators():
    """casts to, pointers to and sizes of generated types: what _Generic selects"""
    return ["(%s)0" % p for p in POINTERS] + ["(%s){ 0 }" % p for p in POINTERS] + ["*(%s *)pv0" % p for p in POINTERS if "(" not in p]


def generic_of(r):
    """generic selections whose association lists differ"""
    e = r.choice(PTR_EXPR + CONSTANTS)
    ts = r.sample(GENERIC + POINTERS, r.randint(3, 9))
    l = ["%s: %d" % (t, i) for i, t in enumerate(ts)]
    l.insert(r.randint(0, len(l)), "default: 77")
    return "_Generic(%s, %s)" % (e, ", ".join(l))


def nest(r, d):
    """type of a random nested expression"""
    if d == 0:
        return "(%s)" % r.choice(list(VAR.values()) + CONSTANTS + ["+sa.u", "sa.c", "i3[1]", "*pc", "f_uc()", "sb.q", "uv.d", "-sa.w"])
    k = r.randrange(9)
    a, b = nest(r, d - 1), nest(r, r.randrange(d))
    if k < 4:
        return "(%s %s %s)" % (a, r.choice(["+", "-", "*", "<", "==", "&&"]), b)
    if k == 4:
        return "((%s)(%s))" % (r.choice(GENERIC), a)
    if k == 5:
        return "(vi ? (%s) : (%s))" % (a, b)
    if k == 6:
        return "(%s, %s)" % (a, b)
    if k == 7:
        return "%s(%s)" % (r.choice("+-!"), a)
    return "((%s) %s (int)%s)" % ("(%s)%s" % (r.choice(["char", "int", "unsigned", "long", "unsigned long", "unsigned short"]), a), r.choice(["<<", ">>", "&", "%"]), b)


FUNCTIONS = {"f_v", "f_i", "f_n", "f_va", "f_d", "f_p", "f_s", "f_f", "f_2", "*f_v", "*f_f(1)", "*pfi", "**pfi", "sa.u", "sa.b", "sa.w", "sa.f"}


def item(e):
    if e in FUNCTIONS:   # no size
        return "\tev(TY(%s));\n" % e
    return "\tev(TY(%s)); ev(sizeof(%s));\n" % (e, e)


def check(c):
    c.rule = "types of expressions seen through generic selection and sizeof: every operator with every pair of arithmetic types, pointer, array, function, aggregate and qualified operands, and random nestings"
    c.assumptions = ["clang (confirmed by gcc) defines the type; both have to agree"]
    cc = build_cc()
    items = [item(e) for e in arithmetic() + CONSTANTS + declarators()] + [item(e) for e in PTR_EXPR] + ["\tev(sizeof(%s));\n" % e for e in SIZE_ONLY] + ["\tev(sizeof %s);\n" % e for e in SIZE_ONLY if e[0] != "(" and " " not in e]
    c.count(expressions_enumerated=len(items))
    per = 6
    groups = [items[i:i + per] for i in range(0, len(items), per)]
    run = Runner(c, cc, nvec=1, prelude=PRE, ubsan=False, what="expression type")
    nf = (len(groups) + 39) // 40

    def gen1(r, j):
        return Test("void t_@@(int v) {\n%s}\n" % "".join(gen1.groups[j]))
    import threading
    todo = [groups[k * 40:(k + 1) * 40] for k in range(nf)]

    def one(k):
        run.do_file("enum%d" % k, [Test("void t_@@(int v) {\n%s}\n" % "".join(g)) for g in todo[k]], 1)
    common.pmap(one, range(nf))

    def gen2(r, j):
        out = ""
        for _ in range(8):
            k = r.random()
            if k < .4:
                g = generic_of(r)
                out += "\tev(%s);\n" % g
            elif k < .9:
                out += item(nest(r, r.randint(1, 4)))
            else:
                e = nest(r, 2)
                t = r.choice(["v_float", "v_char", "v_unsigned_short", "v_long", "v__Bool"])
                out += "\tev(TY(%s = %s));\n" % (t, e)
        return Test("void t_@@(int v) {\n%s}\n" % out)
    run.run_files(c.n(80, 3000), gen2, per_file=25, tag="nest")
    c.min_nontrivial = 500 if not os.environ.get("VT_SCALE") else 1


if __name__ == "__main__":
    main("C26", check)
