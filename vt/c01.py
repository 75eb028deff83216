"""C01: integer expressions evaluate to the value the language defines."""
from .common import main, build_cc
from .diff import Runner, Test
from .genexpr import ExprGen, INTS, INT


def bf_struct(r):
    """a struct of bit-fields and plain members; returns (text, [(member, type)])"""
    fields, out = [], []
    for i in range(r.randrange(2, 6)):
        t = r.choice(["unsigned int", "int", "unsigned char", "signed char", "unsigned short", "short", "long", "unsigned long", "_Bool"])
        if r.random() < .6:
            out.append("%s m%d;" % (t, i))
            fields.append(("m%d" % i, t))
        else:
            out.append("%s m%d;" % (t, i))
            fields.append(("m%d" % i, t))
    return "struct S@@ { " + " ".join(out) + " };\n", fields


def gen(r, j):
    decl = ""
    vars = []
    params = []
    body = ""
    n = r.randrange(2, 6)
    mode = r.choice(["param", "local", "global", "mixed", "array", "struct", "ptr"])
    sname, sf = bf_struct(r)
    decl += sname
    body_pre = ""
    calls = []
    for k in range(r.randrange(0, 3)):
        at = [r.choice(INTS) for _ in range(r.randrange(1, 4))]
        rt = r.choice(INTS)
        decl += "static %s h@@_%d(%s) { return %s; }\n" % (
            rt, k, ", ".join("%s a%d" % (t, i) for i, t in enumerate(at)),
            r.choice(["a0", " ^ ".join("a%d" % i for i in range(len(at))), "a%d" % (len(at) - 1)]))
        calls.append(("h@@_%d" % k, at, rt))
    for i in range(n):
        t = r.choice(INTS)
        m = r.choice(["param", "local", "global", "array", "struct", "ptr", "static"]) if mode == "mixed" else mode
        cv = "" if t == "_Bool" else ""
        if m == "param":
            params.append((t, "p%d" % i))
            vars.append(("p%d" % i, t))
        elif m == "local":
            body_pre += "\t%s l%d = in(%d);\n" % (t, i, i)
            vars.append(("l%d" % i, t))
        elif m == "static":
            body_pre += "\tstatic %s s%d; s%d = in(%d);\n" % (t, i, i, i)
            vars.append(("s%d" % i, t))
        elif m == "global":
            decl += "%s%s g@@_%d;\n" % (r.choice(["", "static ", "volatile "]), t, i)
            body_pre += "\tg@@_%d = in(%d);\n" % (i, i)
            vars.append(("g@@_%d" % i, t))
        elif m == "array":
            k = r.randrange(0, 4)
            body_pre += "\t%s ar%d[4]; ar%d[%d] = in(%d);\n" % (t, i, i, k, i)
            vars.append(("ar%d[%s]" % (i, k), t))
        elif m == "ptr":
            body_pre += "\t%s o%d = in(%d); %s *q%d = &o%d;\n" % (t, i, i, t, i, i)
            vars.append(("(*q%d)" % i if r.random() < .5 else "q%d[0]" % i, t))
        elif m == "struct" and not any(x.startswith(("st.", "sp->")) for x, _ in vars):
            body_pre += "\tstruct S@@ st; struct S@@ *sp = &st;\n"
            for kk, (f, ft) in enumerate(sf):
                body_pre += "\tst.%s = in(%d);\n" % (f, 10 + kk)
                vars.append((("st." if r.random() < .5 else "sp->") + f, ft))
    g = ExprGen(r, vars, calls=calls, maxdepth=r.choice([2, 3, 3, 4, 5]))
    ne = r.randrange(1, 4)
    for _ in range(ne):
        e, t = g.top()
        k = r.random()
        if k < .6:
            body += "\tev((unsigned long long)(%s));\n" % e
        elif k < .8:
            t2 = r.choice(INTS)
            body += "\t{ %s r = %s; ev((unsigned long long)r); }\n" % (t2, e)
        else:
            body += "\tif (%s) ev(1); else ev(2);\n" % e
        for x in sorted(g.written):
            body += "\tev((unsigned long long)%s);\n" % x
    if params:
        decl += "static void f@@(%s) {\n%s%s}\n" % (", ".join("%s %s" % p for p in params), body_pre, body)
        return Test(decl + "void t_@@(int v) { f@@(%s); }\n" % ", ".join("in(%d)" % i for i in range(len(params))))
    return Test(decl + "void t_@@(int v) {\n%s%s}\n" % (body_pre, body))


def check(c):
    c.rule = ("random integer expressions (all operators, all integer types, operands in parameters, locals, statics, globals, "
              "arrays, struct members, via pointers), each on 12 input vectors drawn from boundary values; non-trivial = a "
              "distinct (function, vector) on which the reference execution is defined and at least one value was observed")
    cc = build_cc("plain")
    R = Runner(c, cc, nvec=12)
    R.run_files(c.n(800, 12000), gen, per_file=20)
    c.min_nontrivial = 1000


if __name__ == "__main__":
    main("C01", check)
