"""C03: constant expressions have the value the language defines, in every constant context."""
from .common import main, build_cc
from .diff import Runner, Test
from .genexpr import ExprGen, INTS, INT, FLT
from .c02 import emit


def gen_addr(r, j):
    """address constants: labels, offsets, members, casts, in static initialisers"""
    n = r.randrange(3, 9)
    et = r.choice(INTS + FLT)
    decl = "struct I@@ { char a; %s b[3]; };\nstruct O@@ { short s; struct I@@ i[2]; %s z; };\n" % (r.choice(INTS), r.choice(INTS + FLT))
    decl += "static %s arr@@[%d];\nstruct O@@ ob@@[2];\nstatic int fn@@(int x) { return x + 1; }\nint sc@@;\n" % (et, n)
    body = ""
    cands = [
        ("%s *" % et, "arr@@", "(char *)P - (char *)arr@@"),
        ("%s *" % et, "arr@@ + %d" % r.randrange(0, n + 1), "(char *)P - (char *)arr@@"),
        ("%s *" % et, "&arr@@[%d]" % r.randrange(0, n + 1), "(char *)P - (char *)arr@@"),
        ("%s *" % et, "%d + arr@@" % r.randrange(0, n), "(char *)P - (char *)arr@@"),
        ("%s *" % et, "&arr@@[%d] - %d" % (n, r.randrange(0, n)), "(char *)P - (char *)arr@@"),
        ("void *", "&ob@@[1]", "(char *)P - (char *)ob@@"),
        ("void *", "&ob@@[%d].i[%d].b[%d]" % (r.randrange(2), r.randrange(2), r.randrange(3)), "(char *)P - (char *)ob@@"),
        ("void *", "&ob@@[1].z", "(char *)P - (char *)ob@@"),
        ("char *", "(char *)&ob@@[1] + %d" % r.randrange(0, 9), "P - (char *)ob@@"),
        ("char *", "(char *)ob@@ + sizeof(struct O@@)", "P - (char *)ob@@"),
        ("char *", "(char *)ob@@ - %d" % r.choice([1, 2, 8, 127, 128, 129, 4096, 70000]), "(long)P - (long)ob@@"),
        ("char *", "(char *)arr@@ + %d" % r.choice([127, 128, 129, 255, 256, 32768, 65536, 70000]), "(long)P - (long)arr@@"),
        ("%s *" % et, "arr@@ - %d" % r.randrange(1, 9), "(long)P - (long)arr@@"),
        ("int (*P)(int)", "fn@@", "P(%d)" % r.randrange(100)),
        ("int (*P)(int)", "&fn@@", "P(%d)" % r.randrange(100)),
        ("int *", "&sc@@", "P == &sc@@"),
        ("int *", "0", "P == 0"),
        ("void *", "(void *)0", "!P"),
        ("char *", "(char *)%d" % r.randrange(0, 100000), "(long)P"),
        ("long", "(long)&((struct O@@ *)0)->i[1].b", "P"),
        ("unsigned long", "(unsigned long)&((struct O@@ *)%d)->z" % r.randrange(0, 4096), "P"),
        ("char *", "\"%s\"" % r.choice(["abc", "", "x\\0y", "hello world"]), "P[0]"),
        ("char *", "\"abcdef\" + %d" % r.randrange(0, 6), "P[0]"),
        ("char *", "&\"abcdef\"[%d]" % r.randrange(0, 6), "*P"),
    ]
    for k in range(r.randrange(2, 6)):
        t, e, o = r.choice(cands)
        nm = "p@@_%d" % k
        d = t.replace("P", nm) if "P" in t else "%s%s%s" % (t, "" if t.endswith("*") else " ", nm)
        if r.random() < .3:
            # as a value when the function runs
            if "P" in t:
                body += "\t%s = %s;\n" % (d, e)
            else:
                ar = r.randrange(3)
                if ar == 0:
                    body += "\t%s = %s;\n" % (d, e)
                elif ar == 1:
                    body += "\t%s %s_[4] = { 0, %s, %s }; %s = %s_[v %% 2u + 1];\n" % (t, nm, e, e, d, nm)
                else:
                    decl += "static %s %s_(int v, %s) { return v == 77 ? %s : %s_p; }\n" % (t, nm, t + " " + nm + "_p", e, nm)
                    body += "\t%s = %s_(77, %s); if (%s != %s_(1, %s)) ev(1);\n" % (d, nm, "0", nm, nm, e)
        elif r.random() < .7:
            decl += "%s%s = %s;\n" % (r.choice(["", "static "]), d, e)
        else:
            body += "\tstatic %s = %s;\n" % (d, e)
        body += "\tev((unsigned long long)(%s));\n" % o.replace("P", nm)
        if r.random() < .4:
            nm2 = "q@@_%d" % k
            if "P" not in t:
                decl += "%s %s[3] = { 0, %s, %s };\n" % (t, nm2, e, e)
                body += "\tev((unsigned long long)(%s)); ev((unsigned long long)%s[0]);\n" % (o.replace("P", nm2 + "[2]"), nm2)
    return Test(decl + "void t_@@(int v) {\n%s}\n" % body)


BOUNDS = sorted({s * ((1 << n) + d) for n in (0, 7, 8, 15, 16, 31, 32, 63) for d in (-2, -1, 0, 1, 2) for s in (1, -1)})


def literal(v, t):
    b, signed, _ = INT[t]
    v &= (1 << b) - 1
    if signed and v >> (b - 1):
        return "(-%d%s - 1)" % ((1 << b) - v - 1, "ll" if b > 32 else "")
    return "%d%s" % (v, ("" if signed else "u") + ("ll" if b > 32 else ""))


def gen_bounds(r, j):
    """conversions and operators at the limits of the types"""
    decl, body = "", ""
    for k in range(12):
        src, dst, v = r.choice(["int", "unsigned int", "long long", "unsigned long long"]), r.choice(INTS), r.choice(BOUNDS)
        e = literal(v, src)
        if r.random() < .4:
            op = r.choice(["<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "-", "/", "%"])
            s2 = r.choice([src, src, "int", "unsigned int", "long long", "unsigned long long"])
            w = v if r.random() < .4 else r.choice(BOUNDS)
            if op not in ("/", "%") or w & ((1 << INT[s2][0]) - 1):
                e = "%s %s %s" % (e, op, literal(w, s2))
        e = "(%s)(%s)" % (dst, e)
        if r.random() < .25:
            e = "%s(%s)" % (r.choice("-~+!"), e) if dst not in ("int", "long", "long long") else "~(%s)" % e
        elif r.random() < .25:
            dst = r.choice(INTS)
            e = "(%s)%s" % (dst, e)
        q = r.randrange(5)
        if q == 0:
            body += "\tev((unsigned long long)(%s));\n" % e
        elif q == 1:
            decl += "static %s g@@_%d = %s;\n" % (r.choice(INTS), k, e)
            body += "\tev((unsigned long long)g@@_%d);\n" % k
        elif q == 2:
            body += "\tswitch ((long long)(v + %s)) { case (%s): ev(1); break; default: ev(2); }\n\tev((unsigned long long)(%s));\n" % ("0", e, e)
        elif q == 3:
            body += "\t{ %s x = %s; ev((unsigned long long)x); ev(x == (%s)); ev(x %s 0); }\n" % (r.choice(INTS), e, e, r.choice("<>"))
        else:
            decl += "static char z@@_%d[(%s) %s 0 ? 3 : 5];\n" % (k, e, r.choice([">", "<", "==", "<=", ">="]))
            body += "\tev(sizeof z@@_%d); ev((%s) ? 1 : 2);\n" % (k, e)
    return Test(decl + "void t_@@(int v) {\n%s}\n" % body)


def gen(r, j):
    if r.random() < .15:
        return gen_bounds(r, j)
    if r.random() < .2:
        return gen_addr(r, j)
    decl = "struct S@@ { char a; %s b; %s c; };\nenum E@@ { A@@ = %d, B@@, C@@ = B@@ + %d };\n" % (
        r.choice(INTS), r.choice(INTS), r.randrange(-100, 100), r.randrange(-5, 100))
    atoms = [("sizeof(%s)" % t, "unsigned long") for t in ("char", "short", "int", "long", "double", "int *", "struct S@@", "int[7]")]
    atoms += [("_Alignof(%s)" % t, "unsigned long") for t in ("char", "short", "int", "double")]
    atoms += [("'%s'" % c, "int") for c in ("a", "0", "\\n", "\\\\", "\\0", "~")]
    atoms += [("A@@", "int"), ("B@@", "int"), ("C@@", "int"), ("sizeof(enum E@@)", "unsigned long")]
    fl = r.random() < .4
    g = ExprGen(r, r.sample(atoms, r.randrange(0, 5)), floats=fl, side=False, comma=False, maxdepth=r.choice([1, 2, 3, 4, 5]))
    body, tail = "", ""
    for k in range(r.randrange(1, 4)):
        e, t = g.top()
        body += emit(e, t, r)
        ctx = r.choice(["static", "static", "global", "struct", "array", "case", "case", "enum", "size", "assert", "if", "cond", "while"])
        st = r.choice(INTS + FLT) if t in INT else r.choice(FLT)
        if ctx in ("static", "global"):
            if ctx == "global":
                decl += "%s%s%s g@@_%d = %s;\n" % (r.choice(["", "static "]), r.choice(["", "const "]), st, k, e)
                tail += emit("g@@_%d" % k, st, r)
            else:
                tail += "\tstatic %s s%d = %s;\n" % (st, k, e) + emit("s%d" % k, st, r)
        elif ctx == "struct":
            decl += "static struct { char x; %s y; } h@@_%d = { %s, %s };\n" % (st, k, e if t in INT else "1", e)
            tail += emit("h@@_%d.y" % k, st, r) + "\tev(h@@_%d.x);\n" % k
        elif ctx == "array":
            decl += "static %s ar@@_%d[] = { 1, %s, %s };\n" % (st, k, e, e)
            tail += emit("ar@@_%d[1]" % k, st, r) + "\tev(sizeof ar@@_%d);\n" % k
        elif ctx == "case" and t in INT:
            ct = r.choice(["int", "unsigned", "long", "unsigned long", "unsigned char", "short"])
            tail += "\tfor (int k = -1; k < 2; k++) { %s x = (%s)((%s) + (unsigned long)k); switch (x) { case %s: ev(1); break; default: ev(0); } }\n" % (ct, ct, e, e)
        elif ctx == "enum" and t in INT:
            e2 = "(int)(%s)" % e
            decl += "enum { N@@_%d = %s, M@@_%d };\n" % (k, e2, k)
            tail += "\tev((unsigned long long)N@@_%d); ev((unsigned long long)(M@@_%d - 1u));\n" % (k, k)
        elif ctx == "size" and t in INT:
            decl += "static char z@@_%d[((unsigned char)(%s) & 63) + 1];\n" % (k, e)
            tail += "\tev(sizeof z@@_%d);\n" % k
        elif ctx == "assert" and t in INT:
            tail += "\t_Static_assert((%s) == (%s), \"x\");\n\t_Static_assert(((%s) ? 1 : 2) != ((%s) ? 2 : 1), \"y\");\n" % (e, e, e, e)
        elif ctx == "cond":
            tail += "\tev((%s) ? %d : %d);\n" % (e, r.randrange(100), r.randrange(100))
        elif ctx == "while":
            tail += "\t{ int n = 0; while (%s) if (++n > 2) break; ev(n); n = 0; do if (++n > 2) break; while (%s); ev(n); n = 0; for (; %s; ) if (++n > 2) break; ev(n); }\n" % (e, e, e)
        else:
            tail += "\tif (%s) ev(1); else ev(2);\n" % e
    return Test(decl + "void t_@@(int v) {\n%s%s}\n" % (body, tail))


def check(c):
    c.rule = ("random constant expressions (integer and floating, sizeof/_Alignof/enum/char atoms; address constants) each placed at run time and in "
              "a constant context: static and global initialisers, case labels, enumerators, array sizes, _Static_assert, conditions; "
              "non-trivial = distinct program with a defined reference execution and at least one observed value")
    R = Runner(c, build_cc("plain"), nvec=1)
    R.run_files(c.n(900, 12000), gen, per_file=25)
    c.min_nontrivial = 1000


if __name__ == "__main__":
    main("C03", check)
