"""C02: floating-point arithmetic, comparison, conversion follow IEEE-754 binary32/64 and C."""
from .common import main, build_cc
from .diff import Runner, Test
from .genexpr import ExprGen, INTS, INT, FLT

CONV = []


def inp(t, i):
    return ("ind(%d)" % i if t == "double" else "inf_(%d)" % i) if t in FLT else "in(%d)" % i


def emit(e, t, r):
    if t == "double":
        return "\t{ double r = %s; evd(r); }\n" % e if r.random() < .5 else "\tevd(%s);\n" % e
    if t == "float":
        return "\t{ float r = %s; evfp(&r); }\n" % e if r.random() < .5 else "\tevf(%s);\n" % e
    return "\tev((unsigned long long)(%s));\n" % e


def gen_conv(r):
    """every pair of arithmetic types, in-range values on both sides of each boundary"""
    a, b = r.choice(INTS + FLT * 4), r.choice(INTS + FLT * 4)
    if a in INT and b in INT:
        a = r.choice(FLT)
    c = r.choice(INTS + FLT)
    src = inp(a, 0)
    if a in FLT and b in INT and r.random() < .7:
        bits = INT[b][0]
        src = "(%s)((unsigned long long)in(0) %s)" % (a, {1: "& 1"}.get(bits, ">> %d" % (64 - bits))) if not INT[b][1] else \
            "(%s)(in(0) >> %d)" % (a, 64 - bits)
        if r.random() < .4:
            src += " + (%s)%s" % (a, r.choice(["0.25", "0.5", "0.75"]))
    s = "static %s g@@;\nvoid t_@@(int v) {\n\t%s x = %s;\n\t%s y = %s;\n" % (c, a, src, b, r.choice(["x", "(%s)x" % b]))
    s += emit("y", b, r)
    s += "\tg@@ = x;\n" + emit("g@@", c, r)
    s += "\tif (x) ev(1); else ev(2);\n\tev(!x); ev((_Bool)x); ev(x && y); ev(x || y); ev(x ? 5 : 6);\n"
    return Test(s + "}\n")


def gen(r, j):
    if r.random() < .3:
        return gen_conv(r)
    decl, pre, body, params, vars, calls = "", "", "", [], [], []
    n = r.randrange(2, 6)
    mode = r.choice(["param", "local", "global", "array", "struct", "ptr"])
    for k in range(r.randrange(0, 3)):
        at = [r.choice(FLT + FLT + INTS) for _ in range(r.randrange(1, 5))]
        rt = r.choice(FLT)
        decl += "static %s h@@_%d(%s) { return %s; }\n" % (
            rt, k, ", ".join("%s a%d" % (t, i) for i, t in enumerate(at)),
            r.choice(["a0", " + ".join("a%d" % i for i in range(len(at))), "a%d" % (len(at) - 1)]))
        calls.append(("h@@_%d" % k, at, rt))
    for i in range(n):
        t = r.choice(FLT * 4 + INTS)
        m = mode
        if m == "param":
            params.append((t, "p%d" % i)); vars.append(("p%d" % i, t))
        elif m == "local":
            pre += "\t%s l%d = %s;\n" % (t, i, inp(t, i)); vars.append(("l%d" % i, t))
        elif m == "global":
            decl += "%s%s g@@_%d;\n" % (r.choice(["", "static ", "volatile "]), t, i)
            pre += "\tg@@_%d = %s;\n" % (i, inp(t, i)); vars.append(("g@@_%d" % i, t))
        elif m == "array":
            k = r.randrange(0, 4)
            pre += "\t%s ar%d[4]; ar%d[%d] = %s;\n" % (t, i, i, k, inp(t, i)); vars.append(("ar%d[%d]" % (i, k), t))
        elif m == "ptr":
            pre += "\t%s o%d = %s; %s *q%d = &o%d;\n" % (t, i, inp(t, i), t, i, i); vars.append(("(*q%d)" % i, t))
        elif m == "struct":
            decl += "struct S@@_%d { char c; %s m; };\n" % (i, t)
            pre += "\tstruct S@@_%d s%d; s%d.m = %s;\n" % (i, i, i, inp(t, i)); vars.append(("s%d.m" % i, t))
    g = ExprGen(r, vars, floats=True, ints=r.random() < .6, calls=calls, maxdepth=r.choice([1, 2, 2, 3, 4]))
    for _ in range(r.randrange(1, 4)):
        e, t = g.top()
        if r.random() < .15:
            body += "\tif (%s) ev(1); else ev(2);\n" % e
        elif r.random() < .08 and not g.written:
            body += "\t{ int n = 0; while (%s) { if (++n > 3) break; } ev(n); n = 0; do { if (++n > 3) break; } while (%s); ev(n);" \
                    " for (n = 0; %s; n++) if (n > 3) break; ev(n); }\n" % (e, e, e)
        else:
            body += emit(e, t, r)
        for x, t in vars:
            if x in g.written:
                body += emit(x, t, r)
    if params:
        decl += "static void f@@(%s) {\n%s%s}\n" % (", ".join("%s %s" % p for p in params), pre, body)
        return Test(decl + "void t_@@(int v) { f@@(%s); }\n" % ", ".join(inp(t, i) for i, (t, _) in enumerate(params)))
    return Test(decl + "void t_@@(int v) {\n%s%s}\n" % (pre, body))


def check(c):
    c.rule = ("random expressions mixing float, double and all integer types, and every conversion pair, on 16 input vectors including "
              "NaN, infinities, signed zeros, subnormals and integer boundaries; non-trivial = distinct (function, vector) with a "
              "defined reference execution and at least one observed value")
    R = Runner(c, build_cc("plain"), nvec=16)
    R.run_files(c.n(700, 10000), gen, per_file=20)
    c.min_nontrivial = 1000


if __name__ == "__main__":
    main("C02", check)
