"""C22: variable length arrays are distinct, correctly sized, and released."""
import os
from .common import build_cc, main
from .diff import Runner, Test

ELEMS = [("char", 1), ("unsigned char", 1), ("short", 2), ("int", 4), ("unsigned", 4), ("long", 8), ("double", 8), ("float", 4), ("struct S3", 0), ("struct S24", 0), ("struct S6", 0), ("CP", 0)]
NUM = [e for e, s in ELEMS if s]
PRE = """typedef char *CP; struct S3 { unsigned char c[3]; }; struct S6 { short a, b, c; }; struct S24 { long a; char b; int c; short d; };
#define EV(...) ev((unsigned long long)(__VA_ARGS__))
static unsigned long low_, base_;
static unsigned long hash(void *p, unsigned long n) { unsigned char *c = p; unsigned long h = n; for (unsigned long i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
static void fill(void *p, unsigned long n, unsigned s) { unsigned char *c = p; for (unsigned long i = 0; i < n; i++) { s = s * 1103515245u + 12345u; c[i] = s >> 16; } }
static unsigned bad(void *p, unsigned long n, unsigned s) { unsigned char *c = p; unsigned b = 0; for (unsigned long i = 0; i < n; i++) { s = s * 1103515245u + 12345u; b += c[i] != (unsigned char)(s >> 16); } return b; }
static void depth(void) { char c; unsigned long a = (unsigned long)&c; if (!base_) { base_ = a; low_ = a; } if (a < low_) low_ = a; }
static long many(int a, long b, int c, long d, int e, int f, int g, int h, long i, char j) { return a + b * 3 + c * 5 + d * 7 + e * 11 + f * 13 + g * 17 + h * 19 + i * 23 + j; }
static struct S24 byval(struct S24 x, int n) { int t[n]; for (int i = 0; i < n; i++) t[i] = x.c + i; x.a += t[n - 1]; x.c = sizeof t; return x; }
static int side_; static int side(int x) { side_ = side_ * 3 + x; EV(side_); return x; }
"""


class Arr:
    def __init__(self, name, elem, dims, seed, flag=None, data=True, num=False):
        self.name, self.elem, self.dims, self.seed, self.flag, self.data, self.num = name, elem, dims, seed, flag, data, num


class Gen:
    def __init__(self, r):
        self.r, self.uid, self.loops, self.helpers, self.kinds = r, 0, 0, [], {}
        self.scopes = [[]]
        self.labels = []
        self.big = False

    def fresh(self, p="a"):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def note(self, k):
        self.kinds[k] = self.kinds.get(k, 0) + 1

    def live(self):
        return [a for s in self.scopes for a in s]

    def dim(self):
        """declares a run-time length; (declaration, name)"""
        r = self.r
        d = self.fresh("n")
        m = r.choice([3, 7, 7, 15])
        e = r.choice(["x", "v", "x + v", "x * 5 + %d" % r.randrange(9), "x >> 2", "inm(0, 64)", "side(v & 3)"])
        return "%s %s = 1 + ((%s) & %d); " % (r.choice(["int", "int", "long", "unsigned", "unsigned long", "short", "unsigned char"]), d, e, m), d

    def decl(self):
        r = self.r
        e, _ = r.choice(ELEMS)
        n = self.fresh()
        seed = r.randrange(1, 1 << 30)
        nd = r.choice([1, 1, 1, 2, 2, 3])
        pre, dims, txt = "", [], ""
        var = r.randrange(nd)
        for i in range(nd):
            if i == var or r.random() < .6:
                p, d = self.dim()
                pre += p
                dims.append(d)
                x = r.random()
                txt += "[%s]" % (d if x < .7 else "%s + 0" % d if x < .8 else "side(%s)" % d if x < .9 else "(char)%s" % d)
            else:
                d = r.randint(1, 4)
                dims.append(str(d))
                txt += "[%d]" % d
        k = r.randrange(10)
        sep = "*" if 0 else " "
        if k == 0:
            self.note("typedef")
            t = self.fresh("T")
            s = "typedef %s %s%s; " % (e, t, txt)
            for d in dims:
                if not d.isdigit() and r.random() < .5:
                    # a later change of the length has no influence on the type
                    c = self.fresh("n")
                    pre += "int %s = %s; " % (c, d)
                    s += "%s++; " % d
                    dims[dims.index(d)] = c
            s += "%s %s; " % (t, n)
        elif k == 1 and nd == 1:
            self.note("several declarators")
            m = self.fresh()
            s = "%s %s%s, *%s_p = %s, %s[2][%s]; " % (e, n, txt, n, n, m, dims[0])
            s += "EV(%s_p == %s); " % (n, n)
            b = Arr(m, e, ["2", dims[0]], seed ^ 77, None, True, e in NUM)
            s += "fill(%s, sizeof %s, %du); " % (m, m, b.seed)
            self.scopes[-1].append(b)
        else:
            self.note("%d dimensions" % nd)
            s = "%s %s%s; " % (e, n, txt)
        flag = None
        a = Arr(n, e, dims, seed, None, True, False)
        if r.random() < .35:
            flag = self.fresh("f")
            pre += "int %s = 0; " % flag
            a.flag = flag
        else:
            s += "fill(%s, sizeof %s, %du); " % (n, n, seed)
        s += "EV(sizeof %s); EV((unsigned long)%s %% _Alignof(%s)); " % (n, n, e)
        self.scopes[-1].append(a)
        return pre + s + "depth();"

    def check_one(self, a):
        n = a.name
        if a.flag:
            return "if (!%s) { %s = 1; fill(%s, sizeof %s, %du); } else EV(bad(%s, sizeof %s, %du));" % (a.flag, a.flag, n, n, a.seed, n, n, a.seed)
        return "EV(bad(%s, sizeof %s, %du));" % (n, n, a.seed)

    def index(self, d):
        r = self.r
        return r.choice(["(x + %d) %% %s" % (r.randrange(9), d), "%s - 1" % d, "0", "(unsigned)(v * 7) %% %s" % d])

    def use(self):
        r = self.r
        l = self.live()
        if not l:
            return "EV(x);"
        a = r.choice(l)
        n = a.name
        k = r.randrange(13)
        nd = len(a.dims)
        if k < 4:
            return self.check_one(a)
        if k == 4:
            ix = "[0]" * r.randint(0, nd)
            return "EV(sizeof %s%s); EV(sizeof(%s%s) / sizeof *%s);" % (n, ix, n, "", n)
        if k == 5:
            ix = [self.index(d) for d in a.dims]
            self.note("addressing")
            return "EV((char *)&%s%s - (char *)%s);" % (n, "".join("[%s]" % i for i in ix[:r.randint(1, nd)]), n)
        if k == 6 and nd >= 2:
            self.note("pointer to array")
            p = self.fresh("p")
            d = "".join("[%s]" % x for x in a.dims[1:])
            i = self.index(a.dims[0])
            return "{ %s (*%s)%s = %s; EV(sizeof *%s); EV((char *)(%s + (%s)) - (char *)%s); %s += %s; EV(%s - %s); %s--; EV((char *)%s - (char *)%s); EV(&%s[0] == %s - (%s - %s)); EV(bad(%s - (%s - 1), sizeof %s, %du)%s); }" % (
                a.elem, p, d, n, p, p, i, n, p, a.dims[0], p, n, p, p, n, n, p, p, n, p, a.dims[0], n, a.seed, " * 0" if a.flag else "")
        if k == 7:
            self.note("pointer to whole array")
            p = self.fresh("p")
            d = "".join("[%s]" % x for x in a.dims)
            return "{ %s (*%s)%s = &%s; EV(sizeof *%s); EV((char *)(%s + 1) - (char *)%s); EV((void *)*%s == (void *)%s); EV(sizeof(*%s)[0]); }" % (a.elem, p, d, n, p, p, p, p, n, p)
        if k == 8:
            # write through an index, then restore
            ix = [self.index(d) for d in a.dims]
            e = n + "".join("[%s]" % i for i in ix)
            t = self.fresh("t")
            if a.flag:
                return self.check_one(a)
            self.note("element")
            return "{ %s %s = %s; fill(&%s, sizeof %s, 5); EV(bad(%s, sizeof %s, %du) != 0); %s = %s; EV(bad(%s, sizeof %s, %du)); EV(hash(&%s, sizeof %s)); }" % (a.elem, t, e, e, e, n, n, a.seed, e, t, n, n, a.seed, t, t)
        if k == 9:
            return self.call(a)
        if k == 10:
            self.note("stack arguments")
            return "EV(many(1, sizeof %s, x & 7, 4, 5, 6, sizeof %s, 8, sizeof %s[0], 10));" % (n, n, n)
        if k == 11:
            self.note("type names")
            d = r.choice([x for x in a.dims])
            return r.choice([
                "EV(sizeof(%s[%s]));" % (a.elem, d), "EV(sizeof(int[%s][%s + 1]));" % (d, d), "EV(sizeof(char[side(%s)]));" % d, "EV(sizeof(long (*)[%s]));" % d,
                "EV((x & 1) ? sizeof(short[%s]) : sizeof(int[%s + 2]));" % (d, d), "if (x && sizeof(int[%s]) > 8) EV(1);" % d,
                "EV((x & 1) && sizeof(int[12 / (x & 1)]) > 8);", "EV((x & 1) ? sizeof(char[8 / (x & 1)]) : 3);", "EV((v & 1) || sizeof(char[8 / !(v & 1)]) == 8);",
                "EV((x & 1) ? sizeof(char[side(3)]) : sizeof(int[side(2)]));", "EV((v & 1) && sizeof(char[side(3)]));",
                "{ int q = 3; EV(sizeof(char[q++])); EV(q); }", "EV((side(1), sizeof(int[side(2)])) + side(3) * 0);" if 0 else "EV(_Alignof(double[%s]));" % d,
                "for (int q = 1; q < (int)(sizeof(char[q + 3]) / 2); q++) EV(sizeof(int[q]));", "{ int q = 1; while (sizeof(char[q]) < 4) { q++; EV(q); } }", "{ int q = 1; do { q++; } while (sizeof(char[q]) < 4); EV(q); }",
                "for (int q = 1; q < 9; q += sizeof(char[q + 1])) EV(q);", "switch (sizeof(char[%s])) { case 1: EV(1); break; case 2: EV(2); break; default: EV(9); }" % d])
        if nd >= 2:
            self.note("casts")
            d = "".join("[%s]" % x for x in a.dims[1:])
            i = self.index(a.dims[0])
            return "EV((char *)((%s (*)%s)(void *)%s)[%s] - (char *)%s); EV(sizeof *(%s (*)%s)(void *)%s); EV((char *)*(%s + (%s)) - (char *)%s); EV((char *)(%s)[%s] - (char *)%s);" % (a.elem, d, n, i, n, a.elem, d, n, n, i, n, i, n, n)
        i = self.index(a.dims[0])
        return "EV((char *)&(%s)[%s] - (char *)%s); EV(*(char *)(%s + (%s)) == *(char *)&%s[%s]);" % (i, n, n, n, i, n, i)

    def call(self, a):
        """passes the array to a function whose parameter types depend on others"""
        r = self.r
        h = self.fresh("h")
        nd = len(a.dims)
        ps = ["d%d" % i for i in range(nd)]
        ts = [r.choice(["int", "long", "unsigned", "short"]) for _ in ps]
        e = "CP" if a.elem == "char *" else a.elem
        form = r.randrange(4)
        first = r.choice(["[%s]" % ps[0], "[]", "[static 1]", "[%s]" % ps[0], "[side(%s)]" % ps[0], "[const %s]" % ps[0]])
        isconst = "const" in first
        rest = "".join("[%s]" % p for p in ps[1:])
        if nd > 1 and r.random() < .4:
            par = "%s (*a)%s" % (e, rest)
        else:
            par = "%s a%s%s" % (e, first, rest)
        args = ", ".join("%s %s" % x for x in zip(ts, ps))
        proto = ""
        if r.random() < .4:
            proto = "static unsigned long %s_@@(%s, %s a%s%s);\n" % (h, args, e, r.choice(["[]", "[*]"]), "".join(r.choice(["[*]", "[%s]" % p]) for p in ps[1:]))
        deep = "a" + "[0]" * (nd - 1)
        body = "\tunsigned long s = 0; EV(sizeof a[0]); EV(sizeof %s[0]);\n" % deep
        loops, ix = "", ""
        for i, p in enumerate(ps):
            loops += "for (int i%d = 0; i%d < %s; i%d++) " % (i, i, p, i)
            ix += "[i%d]" % i
        body += "\t%ss = s * 31 + hash(&a%s, sizeof a%s) + ((char *)&a%s - (char *)a);\n" % (loops, ix, ix, ix)
        if r.random() < .4 and not isconst:
            body += "\t{ int q = d0 & 3; %s t[q + 1]%s; fill(t, sizeof t, 9); s += hash(t, sizeof t); a = t; %ss += hash(&a%s, sizeof a%s); s += sizeof *a; }\n" % (e, rest, loops.replace("< d0", "<= q", 1), ix, ix)
        if r.random() < .3:
            self.note("recursion")
            body += "\tif (d0 > 1) { char keep[d0]; fill(keep, d0, 3); s += %s_@@(d0 - 1, %sa); s += bad(keep, d0, 3); }\n" % (h, "".join(p + ", " for p in ps[1:]))
        body += "\tdepth(); return s;\n"
        self.note("variably modified parameters")
        self.helpers.append(proto + "static unsigned long %s_@@(%s, %s) {\n%s}\n" % (h, args, par, body))
        if a.flag:
            return "if (%s) EV(%s_@@(%s, %s));" % (a.flag, h, ", ".join(a.dims), a.name)
        return "EV(%s_@@(%s, %s));" % (h, ", ".join(a.dims), a.name)

    def scope(self, d, pre="", post=""):
        self.scopes.append([])
        s = self.items(d)
        for a in self.scopes[-1]:
            if self.r.random() < .6:
                s += "\n\t" + self.check_one(a)
        self.scopes.pop()
        return "{ %s%s\n\t%s}" % (pre, s, post)

    def stmt(self, d):
        r = self.r
        if d <= 0:
            return self.use()
        k = r.randrange(9)
        if k == 0:
            return self.scope(d - 1)
        if k < 3:
            s = "if (%s) %s" % (r.choice(["x & 1", "v & 1", "x > 5", "(x ^ v) & 2"]), self.scope(d - 1))
            if r.random() < .6:
                s += " else " + self.scope(d - 1)
            return s
        if k == 3:
            s = "switch (x %% 4) { case 0: %s break; case 1: %s break; case 2: %s default: %s }" % tuple(self.scope(0 if i else d - 1) for i in range(4))
            return s
        if self.loops >= 2:
            return self.use()
        self.loops += 1
        i = self.fresh("i")
        n = r.randint(2, 4)
        x = r.random()
        esc = r.choice(["", "", "if ((x ^ %s) %% 5 == 3) continue;" % i, "if ((x + %s) %% 7 == 5) break;" % i])
        if k < 6:
            post = "x += %d; " % r.randint(1, 5)
            if x < .3:
                p, dd = self.dim()
                self.note("array in a for clause")
                a = self.fresh()
                b = self.scope(d - 1, esc, post)
                s = "%sfor (int %s = 0, %s[%s]; %s < %d; %s++) { %s[%s %% %s] = %s; EV(sizeof %s); %s }" % (p, i, a, dd, i, n, i, a, i, dd, i, a, b)
                s = "{ %s }" % s
            else:
                s = "for (int %s = 0; %s < %d; %s++) %s" % (i, i, n, i, self.scope(d - 1, esc, post))
        elif k == 6:
            s = "{ int %s = 0; while (%s++ < %d) %s }" % (i, i, n, self.scope(d - 1, esc, "x = x * 3 + 1; "))
        elif k == 7:
            s = "{ int %s = 0; do %s while (++%s < %d); }" % (i, self.scope(d - 1, esc, "x ^= %d; " % r.randint(1, 15)), i, n)
        else:
            self.note("goto")
            l = self.fresh("L")
            m = self.fresh("M")
            out = r.choice(["", "if (x %% 3 == 1) goto %s;" % m])
            s = "{ int %s = 0; %s_@@: EV(%s); %s %s_@@: EV(x); }" % (i, l, i, self.scope(d - 1, "", "%s if (++%s < %d) goto %s_@@; " % (out and "x++; " + out[:-1] + "_@@;", i, n, l)), m) if out else \
                "{ int %s = 0; %s_@@: EV(%s); %s }" % (i, l, i, self.scope(d - 1, "", "if (++%s < %d) goto %s_@@; " % (i, n, l)))
        self.loops -= 1
        return s

    def items(self, d):
        r = self.r
        o = []
        for _ in range(r.randint(2, 4)):
            x = r.random()
            o.append(self.decl() if x < .35 else self.use() if x < .65 else self.stmt(d))
        if r.random() < .25:
            # fixed objects next to the arrays
            f = self.fresh("k")
            n = r.randint(1, 40)
            o.insert(r.randint(0, len(o)), "%schar %s[%d]; fill(%s, %d, %d);" % (r.choice(["", "", "_Alignas(32) ", "_Alignas(64) "]), f, n, f, n, n))
            o.append("EV(bad(%s, %d, %d));" % (f, n, n))
        o.append(self.use())
        return "\n\t".join(o)

    def test(self):
        r = self.r
        body = self.items(3)
        for a in self.scopes[0]:
            body += "\n\t" + self.check_one(a)
        return "".join(self.helpers) + "void t_@@(int v0) {\n\tunsigned v = v0 & 15, x = inm(0, 40) + v; side_ = 0; base_ = 0; depth();\n\t%s\n\tEV(base_ - low_ < 65536);\n}\n" % body


def gen_loop(r, j):
    """many iterations over scopes with arrays: the stack has to stay bounded"""
    o = []
    k = r.randint(2, 12)
    size = r.choice([64, 200, 500])
    arms = ""
    for i in range(k):
        arms += "\t\tcase %d: { char a[1 + (x >> 3) %% %d]; fill(a, sizeof a, i); depth(); s += hash(a, sizeof a); %s%s} break;\n" % (
            i, size, "{ int b[1 + (x >> 5) % 16]; fill(b, sizeof b, 2); s += bad(a, sizeof a, i) + hash(b, sizeof b); } " if r.random() < .4 else "", r.choice(["", "", "if (x & 64) continue; ", "if (x & 128) goto next_@@; "]) if 1 else "")
    order = r.choice(["(x >> 8) % {k}", "i % {k}", "{k} - 1 - i % {k}", "ruler(i) % {k}", "{k} - 1 - ruler(i) % {k}"]).format(k=k)
    loop = r.randrange(3)
    n = r.randint(1500, 4000)
    out = "static int ruler(unsigned i) { int n = 0; while (i && !(i & 1)) { n++; i >>= 1; } return n; }\n".replace("ruler", "ruler_@@") + \
        "void t_@@(int v0) {\n\tunsigned x = inm(0, 1000) + 7 * v0; unsigned long s = 0; base_ = 0; depth();\n"
    body = "\tx = x * 1103515245u + 12345u;\n\tswitch (%s) {\n%s\t}\n" % (order.replace("ruler", "ruler_@@"), arms)
    if loop == 0:
        out += "\tfor (unsigned i = 1; i < %d; i++) {\n%s\tnext_@@: ;\n\t}\n" % (n, body)
    elif loop == 1:
        out += "\tunsigned i = 0; while (++i < %d) {\n%s\tnext_@@: ;\n\t}\n" % (n, body)
    else:
        out += "\tunsigned i = 0; do {\n%s\tnext_@@: ;\n\t} while (++i < %d);\n" % (body, n)
    return Test(out + "\tEV(s); EV(base_ - low_ < 32768);\n}\n")


def check(c):
    c.rule = "programs declaring variable length arrays of up to three dimensions in nested scopes, loops, switches and gotos, passing and pointing to them; every live array is filled with a pattern that is verified again later, addresses, sizes and stack depth are recorded"
    c.assumptions = ["clang (confirmed by gcc) defines the expected log; both have to agree"]
    cc = build_cc()
    kinds = {}

    def gen(r, j):
        g = Gen(r)
        t = g.test()
        for k, n in g.kinds.items():
            kinds[k] = kinds.get(k, 0) + n
        return Test(t)
    run = Runner(c, cc, nvec=5, prelude=PRE, what="variable length arrays")
    run.run_files(c.n(120, 4000), gen, per_file=10, tag="vla")
    run.run_files(c.n(8, 120), gen_loop, per_file=6, tag="loop")
    c.count(**{"shape: " + k: n for k, n in kinds.items()})
    c.min_nontrivial = 500 if not os.environ.get("VT_SCALE") else 1


if __name__ == "__main__":
    main("C22", check)
