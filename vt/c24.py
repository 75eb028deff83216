"""C24: declarators, pointers and function types."""
import os
from .common import build_cc, main
from .diff import Runner, Test

BASES = ["int", "char", "short", "long", "unsigned char", "unsigned", "struct S3", "struct S12", "struct S24", "double"]
PRE = """struct S3 { char a, b, c; };
struct S12 { int x; char y; short z[2]; };
struct S24 { long l; struct S12 s; };
typedef int I; typedef char C; typedef short H; typedef long L; typedef unsigned char UC; typedef unsigned U; typedef struct S3 TS3; typedef struct S12 TS12; typedef struct S24 TS24; typedef double D;
"""
ALIAS = dict(zip(BASES, ["I", "C", "H", "L", "UC", "U", "TS3", "TS12", "TS24", "D"]))
SPELL = {"int": ["int", "signed", "signed int", "int signed"], "short": ["short", "short int", "int short", "signed short", "short signed int"], "long": ["long", "long int", "int long", "long signed", "signed long int"],
         "unsigned": ["unsigned", "unsigned int", "int unsigned"], "unsigned char": ["unsigned char", "char unsigned"], "char": ["char"], "double": ["double"]}


class Ty:
    """kind: base, ptr, arr, fun"""
    def __init__(s, kind, sub=None, n=0, params=(), const=False, base=None):
        s.kind, s.sub, s.n, s.params, s.const, s.base = kind, sub, n, params, const, base

    def key(s):
        if s.kind == "base":
            return ("b", s.base, s.const)
        if s.kind == "ptr":
            return ("p", s.const, s.sub.key())
        if s.kind == "arr":
            return ("a", s.n, s.sub.key())
        return ("f", s.sub.key(), tuple(p.key() for p in s.params))

    def copy(s, **kw):
        t = Ty(s.kind, s.sub, s.n, s.params, s.const, s.base)
        for k, v in kw.items():
            setattr(t, k, v)
        return t


def gen_type(r, depth, where="object"):
    """where: object, return (no array, no function), element/pointee"""
    kinds = ["ptr"] * 3
    if where != "return":
        kinds += ["arr"] * 2
    if where == "pointee":
        kinds += ["fun"] * 3
    if depth == 0:
        kinds = ["base"]
    elif r.random() < .12:
        kinds = ["base"]
    k = r.choice(kinds)
    if k == "base":
        return Ty("base", base=r.choice(BASES), const=where != "return" and r.random() < .12)
    if k == "ptr":
        return Ty("ptr", gen_type(r, depth - 1, "pointee"), const=where not in ("return",) and r.random() < .12)
    if k == "arr":
        return Ty("arr", gen_type(r, depth - 1, "element"), n=r.randint(1, 4))
    return Ty("fun", gen_type(r, depth - 1, "return"), params=tuple(gen_param(r, min(depth - 1, 2)) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))))


def gen_param(r, depth):
    t = gen_type(r, depth, "return")
    return t


class Render:
    """spells a type in one of many ways; typedefs used on the way are collected"""
    def __init__(self, r, uid, typedefs):
        self.r, self.uid, self.typedefs = r, uid, typedefs

    def spec(self, t):
        r = self.r
        s = r.choice(SPELL.get(t.base, [t.base]) + ([ALIAS[t.base]] if r.random() < .5 else []))
        if t.const:
            if " " in s and r.random() < .3 and not s.startswith("struct"):
                a, b = s.rsplit(" ", 1)
                return a + " const " + b
            return r.choice(["const " + s, s + " const", "const " + s + " const"])
        return s

    def params(self, t):
        r = self.r
        if not t.params:
            return "void"
        out = []
        for p in t.params:
            nm = self.uid("a") if r.random() < .5 else ""
            q = p
            # parameter adjustments: write pointers as arrays, pointers to functions as functions; qualifiers do not matter
            if p.kind == "ptr" and not p.const and p.sub.kind not in ("fun",) and r.random() < .35:
                n = r.choice(["", "3", "static 2", "const", "const 4", "static const 1", "const static 1"])
                out.append(self.decl(p.sub, "%s[%s]" % (nm, n)))
                continue
            if p.kind == "ptr" and p.sub.kind == "fun" and not p.const and r.random() < .35:
                f = p.sub
                out.append(self.decl(f.sub, "%s(%s)" % (nm or (self.uid("g")), self.params(f))))
                continue
            if r.random() < .2:
                q = p.copy(const=not p.const)
            out.append(self.decl(q, nm))
        return ", ".join(out)

    def decl(self, t, name, top=True):
        """declaration of name with type t"""
        r = self.r
        if t.kind != "base" and r.random() < .12:
            # through a typedef
            td = self.uid("T")
            c = t.const if t.kind == "ptr" else False
            u = t.copy(const=False) if t.kind == "ptr" else t
            self.typedefs.append("typedef %s;" % Render(r, self.uid, self.typedefs).decl(u, td))
            return ("%s %s%s" % (td, "const " if c else "", name)) if r.random() < .5 or not c else "const %s %s" % (td, name)
        if name and r.random() < .1 and not name.startswith(("[", "(")):
            name = "(%s)" % name
        if t.kind == "base":
            return "%s %s" % (self.spec(t), name)
        if t.kind == "ptr":
            n = "*" + ("const " if t.const else "") + name
            if t.sub.kind in ("arr", "fun"):
                n = "(%s)" % n
            return self.decl(t.sub, n)
        if t.kind == "arr":
            return self.decl(t.sub, "%s[%d]" % (name, t.n) if r.random() < .8 else "%s[%s]" % (name, r.choice(["%d + 1" % (t.n - 1), "(%d)" % t.n, "%du" % t.n, "sizeof(char[%d])" % t.n, "'\\%o'" % t.n])))
        return self.decl(t.sub, "%s(%s)" % (name, self.params(t)))


def mutate(r, t):
    """a different, incompatible type"""
    if r.random() < .35 or t.kind == "base":
        if t.kind == "base":
            return t.copy(base=r.choice([b for b in BASES if b != t.base])) if r.random() < .7 else t.copy(const=not t.const)
        if t.kind == "ptr":
            return t.copy(const=not t.const) if r.random() < .4 else t.copy(sub=mutate(r, t.sub))
        if t.kind == "arr":
            return t.copy(n=t.n + 1)
        if t.params and r.random() < .5:
            k = r.randrange(len(t.params))
            p = list(t.params)
            if r.random() < .5:
                del p[k]
            else:
                q = mutate(r, p[k])
                if q.key() == p[k].copy(const=not p[k].const).key():
                    q = Ty("ptr", Ty("ptr", p[k].copy(const=False)))
                p[k] = q
            return t.copy(params=tuple(p))
        return t.copy(params=t.params + (Ty("base", base="int"),))
    s = mutate(r, t.sub)
    if t.kind == "fun" and s.kind in ("base", "ptr") and s.key() == t.sub.copy(const=not t.sub.const).key():
        s = Ty("ptr", Ty("ptr", t.sub))
    return t.copy(sub=s)


class Values:
    """definitions of objects that have a given type, and expressions that reach their parts"""
    def __init__(self, r, uid, typedefs):
        self.r, self.uid, self.out, self.typedefs = r, uid, [], typedefs
        self.k = 0

    def render(self):
        return Render(self.r, self.uid, self.typedefs)

    def leaf(self, base):
        self.k += 1
        v = (self.k * 37) % 120 + 1
        if base == "struct S3":
            return "{ %d, %d, %d }" % (v, v + 1, v + 2)
        if base == "struct S12":
            return "{ %d, %d, { %d } }" % (v * 1000, v, v + 5)
        if base == "struct S24":
            return "{ %d, { %d, 3 } }" % (v * 100000, v)
        return str(v)

    def init(self, t, konst=True):
        """initializer"""
        if t.kind == "base":
            return self.leaf(t.base)
        if t.kind == "arr":
            return "{ %s }" % ", ".join(self.init(t.sub) for _ in range(t.n))
        return self.pointer(t)

    def pointer(self, t):
        """constant expression of pointer type t"""
        s = t.sub
        if s.kind == "fun":
            return self.r.choice(["", "&"]) + self.function(s)
        n = self.uid("o")
        if s.kind in ("base", "ptr") and self.r.random() < .5:
            # element of an array
            k = self.r.randint(1, 3)
            j = self.r.randrange(k)
            self.define(n, Ty("arr", s, n=k))
            return self.r.choice(["&%s[%d]", "%s + %d", "&*(%s + %d)"]) % (n, j)
        self.define(n, s)
        return "&" + n

    def define(self, n, t):
        i = self.init(t)
        self.out.append("static %s = %s;" % (self.render().decl(t, n), i))

    def function(self, t):
        n = self.uid("f")
        s = t.sub
        args = ", ".join(self.render().decl(p, self.uid("q")) for p in t.params) or "void"
        if s.kind == "base":
            body = ("return (%s)%s;" % (s.base, self.leaf(s.base))) if "struct" in s.base else "return %s;" % self.leaf(s.base)
        else:
            body = "return %s;" % self.pointer(s)
        if self.r.random() < .4:
            self.out.append("static %s;" % Render(self.r, self.uid, self.typedefs).decl(t, n))
        # the definition has to be spelled without typedefs for the function itself
        self.out.append("static %s { %s }" % (self.plain(t.sub, "%s(%s)" % (n, args)), body))
        return n

    def plain(self, t, name):
        if t.kind == "base":
            return "%s %s" % (self.render().spec(t), name)
        if t.kind == "ptr":
            n = "*" + ("const " if t.const else "") + name
            if t.sub.kind in ("arr", "fun"):
                n = "(%s)" % n
            return self.plain(t.sub, n)
        if t.kind == "arr":
            return self.plain(t.sub, "%s[%d]" % (name, t.n))
        return self.plain(t.sub, "%s(%s)" % (name, self.render().params(t)))

    def argument(self, t):
        if t.kind == "base":
            return "(%s)%s" % (t.base, self.leaf(t.base)) if "struct" in t.base else self.r.choice(["1", "2.5", "'a'", "v"])
        return self.r.choice(["0", "(void *)0"])

    def reach(self, e, t):
        """(expression, base) of a part of e"""
        r = self.r
        if t.kind == "base":
            return e, t.base
        if t.kind == "arr":
            i = r.randrange(t.n)
            return self.reach(self.index(e, i), t.sub)
        if t.kind == "ptr":
            if t.sub.kind == "fun":
                args = ", ".join(self.argument(p) for p in t.sub.params)
                f = r.choice(["%s", "(*%s)", "(**%s)", "(*&*%s)"]) % e
                return self.reach("%s(%s)" % (f, args), t.sub.sub)
            return self.reach(r.choice(["(*%s)", "%s[0]", "0[%s]", "(*(%s + 0))", "(*&*%s)"]) % e, t.sub)
        raise ValueError

    def index(self, e, i):
        return self.r.choice(["%s[%d]" % (e, i), "%d[%s]" % (i, e), "(*(%s + %d))" % (e, i), "(*(%d + %s))" % (i, e), "(&%s[%d])[%d]" % (e, i + 1, -1), "(*(&%s[%d] - %d))" % (e, i + 2, 2)]) if i < 4 else e

    def show(self, e, b):
        if b == "struct S3":
            return "ev(%s.c);" % e
        if b == "struct S12":
            return "ev(%s.x); ev(%s.z[0]);" % (e, e)
        if b == "struct S24":
            return "ev(%s.l); ev((&%s)->s.x);" % (e, e) if 0 else "ev(%s.l); ev(%s.s.x);" % (e, e)
        return "evd(%s);" % e if b == "double" else "ev(%s);" % e


def declarator_test(r, j):
    cnt = [0]

    def uid(p):
        cnt[0] += 1
        return "%s%d_@@" % (p, cnt[0])
    typedefs = []
    v = Values(r, uid, typedefs)
    body = []
    for _ in range(r.randint(2, 4)):
        t = gen_type(r, r.randint(1, 5))
        n = uid("x")
        typedefs.clear()
        mark = len(v.out)
        v.define(n, t)
        for _ in range(r.randint(2, 5)):
            e, b = v.reach(n, t)
            body.append(v.show(e, b))
        body.append("ev(sizeof(%s)); ev(sizeof %s); ev(_Alignof(%s));" % (v.render().decl(t, ""), n, v.render().decl(t, "")))
        a, b = (v.render().decl(Ty("ptr", t), "") for _ in range(2))
        m = mutate(r, t)
        c = v.render().decl(Ty("ptr", m), "")
        body.append("ev(_Generic((%s)0, %s: 1, default: 0));" % (a, b))
        if m.key() != t.key():
            body.append("ev(_Generic((%s)0, %s: 1, default: 0)); ev(_Generic(&%s, %s: 2, %s: 3, default: 4));" % (a, c, n, *r.sample([b, c], 2)))
        # typedefs in front of everything that uses them
        v.out[mark:mark] = list(typedefs)
        if t.kind == "ptr" or t.kind == "arr":
            pt = t if t.kind == "ptr" else Ty("ptr", t.sub)
            mark = len(v.out)
            typedefs.clear()
            l = uid("l")
            body.append("@T%d@" % len(v.out))
            d = v.render().decl(pt, l)
            body[-1] = "".join(x + " " for x in typedefs) + "{ %s = %s; %s }" % (d, n, v.show(*v.reach(l, pt)))
    return Test("%s\nvoid t_@@(int v) {\n%s\n}\n" % ("\n".join(v.out), "\n".join("\t" + b for b in body)))


# ---------------------------------------------------------------- pointers
ELEM = ["char", "short", "int", "long", "struct S3", "struct S12", "struct S24", "IP", "double", "A3", "A23"]


def pointer_test(r, j):
    t = r.choice(ELEM)
    pre = "typedef int A3_@@[3]; typedef short A23_@@[2][3]; typedef int *IP;\n"
    ty = {"A3": "A3_@@", "A23": "A23_@@"}.get(t, t)
    n = r.choice([3, 8, 20, 100])
    decl = "static %s a_@@[%d];\n" % (ty, n)
    body = ["%s *p = a_@@ + inm(0, %d), *q = &a_@@[inm(1, %d)], *const e = a_@@ + %d;" % (ty, n, n, n), "%s **pp = &p; long d = 0; int i = inm(2, 3), k; char *c = (char *)a_@@;" % ty]
    i = lambda: r.choice(["i", "1", "2", "(char)1", "1u", "2l", "i - 1", "-i", "(short)-1", "sizeof(char)", "(unsigned char)i"])
    for _ in range(r.randint(8, 16)):
        body.append(r.choice([
            "ev(q - p); ev((char *)q - (char *)p);", "ev((char *)(p + %s) - c);" % i(), "ev((char *)(%s + p) - c);" % i(), "ev((char *)(p - %s) - c);" % i(), "ev((char *)&p[%s] - c);" % i(), "ev((char *)&%s[p] - c);" % r.choice(["i", "1", "2l"]),
            "ev(p < q); ev(p <= q); ev(p == q); ev(p != q); ev(q > p); ev(q >= p);", "if (p < e) p++;", "if (q > a_@@) --q;", "if (p + 2 <= e) p += 2;", "if (q - a_@@ >= 1) q -= 1;", "ev((char *)p++ - c); if (p > e) p = a_@@;",
            "ev((char *)(*pp)++ - c); if (p > e) p--;", "for (k = 0, p = a_@@; p != e; p++) k++; ev(k);", "for (k = 0, q = e; q-- > a_@@; ) k++; ev(k); q = a_@@;", "d = e - p; ev(d); ev(sizeof(q - p)); ev((q - p) < 0);",
            "ev(!p); ev(p && q); ev(p ? 3 : 4); ev(p == 0); ev((void *)p == (void *)a_@@);", "ev((long)(p + 1) - (long)p);", "{ void *w = p; %s *z = w; ev(z == p); }" % ty, "ev(&p[1] - &p[0]); ev(&*p == p); ev(&a_@@[0] == a_@@); ev((char *)(&a_@@ + 1) - c);",
            "ev(e - a_@@); ev((e - q) * 3 + (p - a_@@));", "p = q == e ? a_@@ : q;", "*pp = %s;" % r.choice(["q", "a_@@", "&a_@@[1]"]), "ev(*pp == p); ev(**&pp == p); ev(&**pp == *pp);", "ev(0 == p); ev(0 != q); ev((void *)0 != p); ev((void *)p != q); ev(0 == (void *)0); ev((_Bool)p); ev((unsigned long)p %% _Alignof(%s));" % ty, "{ %s (*w)[%d] = &a_@@; ev((char *)(*w + 1) - c); ev((char *)(w + 1) - c); ev(sizeof *w); ev(&(*w)[1] == &w[0][1]); }" % (ty, n)]))
    return Test(pre + decl + "void t_@@(int v) {\n%s\n}\n" % "\n".join("\t" + b for b in body))


def calls_test(r, j):
    """parameters, tables of functions, functions that take and return functions"""
    n = r.randint(2, 5)
    ar = [r.randint(0, 3) for _ in range(n)]
    out = []
    for k in range(n):
        ps = r.choice([["int x"], ["int x"], ["int a[3]"], ["int *a"], ["int f(int)", "int x"], ["int (*f)(int)", "int x"]])
        ar[k] = ps
    out.append("static int one_@@(int x) { return x * 3 + 1; } static int two_@@(int x) { return x - 7; } static int rec_@@(int (*f)(int), int x) { return x <= 0 ? f(x) : rec_@@(f, x - 1) + f(x); }")
    out.append("static int (*pick_@@(int k))(int) { return k & 1 ? one_@@ : &two_@@; }")
    out.append("typedef int F_@@(int); typedef F_@@ *PF_@@; static F_@@ three_@@; static int three_@@(int x) { return x ^ 5; }")
    out.append("static PF_@@ tab_@@[] = { one_@@, &two_@@, three_@@, *one_@@, 0 }; static PF_@@ (*pk_@@)(int) = pick_@@;")
    out.append("static int sum_@@(int a[static 2], int n) { int s = 0; while (n--) s += *a++; return s + sizeof a + sizeof(*a); }")
    out.append("static int twod_@@(int a[][3], int i) { a++; return a[-1][i] + (*a)[1] + sizeof *a + (int)sizeof a; }")
    out.append("static int app_@@(int f(int), PF_@@ g, F_@@ h, int x) { return f(g((*h)(x))) + (sizeof f == sizeof g) + (f == h); }")
    out.append("static int chg_@@(const int *const p, int *q) { *q += *p; q = (int *)p; return *q; }")
    out.append("static struct { int k; PF_@@ f; int (*const *t)(int); } obj_@@ = { 3, three_@@, tab_@@ };")
    out.append("static F_@@ *self_@@(F_@@ *f) { return f; } static int nul_@@(PF_@@ f) { return !f; }")
    out.append("static void swap_@@(int *a, int *b) { int t = *a; *a = *b; *b = t; } static int *max_@@(int *a, int *b) { return *a > *b ? a : b; }")
    out.append("static PF_@@ *row_@@(int k) { return &tab_@@[k]; } static int (*(*deep_@@(void))(int))(int) { return pick_@@; }")
    body = ["int x = inm(0, 50), y = inm(1, 9) - 4, a[6] = { x, y, 3, 4, 5, 6 }, m[2][3] = { { 1, x, 3 }, { 4, y, 6 } };", "PF_@@ l = tab_@@[inm(2, 4)], *pl = &l; int i = inm(3, 4);"]
    for _ in range(r.randint(6, 14)):
        body.append(r.choice([
            "ev(tab_@@[i](x));", "ev((*tab_@@[i])(y));", "ev(l(x)); ev((*pl)(x)); ev((**pl)(x)); ev(pl[0](y));", "ev(pick_@@(x)(y));", "ev((*pick_@@(i))(x)); ev(pk_@@(y)(x)); ev((*pk_@@)(y)(x));", "ev(rec_@@(l, inm(4, 6))); ev(rec_@@(pick_@@(i), 3));",
            "ev(sum_@@(a, 5)); ev(sum_@@(&a[1], 3)); ev(sum_@@(a + i, 2));", "ev(twod_@@(m, i %% 3)); ev(twod_@@(&m[0], 1));".replace("%%", "%"), "ev(app_@@(one_@@, &two_@@, three_@@, x)); ev(app_@@(l, l, l, y));", "ev(chg_@@(&x, &a[i])); ev(a[i]);",
            "ev(obj_@@.f(x)); ev(obj_@@.t[1](x)); ev((*obj_@@.t[0])(obj_@@.k)); ev((&obj_@@)->f(y));", "ev(self_@@(l)(x)); ev(self_@@(self_@@(one_@@))(y)); ev(nul_@@(tab_@@[4])); ev(nul_@@(l)); ev(nul_@@(0));", "swap_@@(&x, &y); ev(x); ev(y);", "swap_@@(a + i, &a[5]); ev(a[i]);",
            "*max_@@(&x, &y) = 3; ev(x); ev(y);", "++*max_@@(a, a + 1); ev(a[0]); ev(a[1]);", "ev((*row_@@(i))(x)); ev(row_@@(i)[0](x)); ev(deep_@@()(x)(y)); ev((*(*deep_@@)())(x)(y));", "l = l == one_@@ ? two_@@ : one_@@; ev(l(3));", "ev(l == one_@@); ev(&one_@@ == one_@@); ev(*one_@@ == one_@@); ev(!l);",
            "{ F_@@ *t = x > 20 ? three_@@ : l; ev(t(x)); }", "for (PF_@@ *p = tab_@@; *p; p++) ev((*p)(y));", "ev((x > 10 ? one_@@ : two_@@)(y));", "ev(((int (*)(int))(void *)l)(x));", "ev((l, two_@@)(x));", "{ int (*t[2])(int) = { l, *pl }; ev(t[i & 1](x)); ev(sizeof t / sizeof *t); }", "{ extern int t_ext_@@(int); int t(int (*)(int), int); }",
            "{ int *p = &a[2], **q = &p; **q = x; *q += 1; ev(*p); ev(p[-1]); ev(q[0][1]); ev(p - a); }", "{ int (*p)[3] = m; ev(p[1][i %% 3]); ev((*p)[1]); p++; ev(**p); ev(*(*p + 1)); ev(p - m); }".replace("%%", "%")]))
    return Test("\n".join(out) + "\nvoid t_@@(int v) {\n%s\n}\n" % "\n".join("\t" + b for b in body))


def check(c):
    c.rule = "random declarators spelled in many ways (typedefs, parentheses, adjusted parameters, qualifiers): types compared through generic selection and sizeof, objects of the type built and reached through every access path; pointer arithmetic over element types of many sizes; tables of functions"
    c.assumptions = ["clang -O0, confirmed by gcc, is the reference"]
    run = Runner(c, build_cc(), nvec=4, prelude=PRE, ubsan=False, what="declarators and pointers")
    run.run_files(c.n(400, 6000), declarator_test, per_file=16, tag="decl")
    run2 = Runner(c, build_cc(), nvec=8, prelude=PRE, what="pointers")
    run2.run_files(c.n(200, 3000), lambda r, j: (pointer_test if j % 2 else calls_test)(r, j), per_file=16, tag="ptr")
    c.min_nontrivial = 500 if not os.environ.get("VT_SCALE") else 1


if __name__ == "__main__":
    main("C24", check)
