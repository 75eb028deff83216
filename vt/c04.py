"""C04: statements transfer control, and expressions evaluate operands, in the order the language defines."""
from .common import main, build_cc
from .diff import Runner, Test
from .genstmt import StmtGen

PRELUDE = "static unsigned tr(int k, unsigned v) { ev(1000 + k); ev(v); return v; }\n"


def endless(r, g):
    keep = g.in_loop, g.in_switch, g.ret
    g.in_loop = g.in_switch = 0
    if r.random() < .7:
        g.ret = None
    g.budget = r.choice([2, 4, 8])
    k = r.randrange(7)
    body = "".join(g.stmt(2, "\t\t") for _ in range(r.randrange(0, 3)))
    out = "\t\tif (--fuel < 0 || %s) leave(%s);\n" % (g.cond(1), g.e(1))
    tail = "".join(g.stmt(2, "\t\t") for _ in range(r.randrange(0, 3)))
    g.in_loop, g.in_switch, g.ret = keep
    body = body + out + tail
    if k < 2:
        return body + "\t\tleave(%s);\n" % g.e(1)
    if k == 2:
        return "\tfor (;;) {\n%s\t}\n" % body
    if k == 3:
        return "\twhile (%s) {\n%s\t}\n" % (r.choice(["1", "2 > 1", "!0"]), body)
    if k == 4:
        return "\tdo {\n%s\t} while (1);\n" % body
    if k == 5:
        return "\tX_@@: ;\n%s\tgoto X_@@;\n" % body
    return "\tgoto Y_@@;\n\tX_@@: ;\n%s\tY_@@: ev(%d);\n\tgoto X_@@;\n" % (body, g.id())


def gen(r, j):
    g = StmtGen(r, max_depth=4, budget=r.choice([8, 15, 30, 45]))
    g.vars = ["a", "b", "c", "d"][:r.randrange(2, 5)]
    fn = r.random()
    body = ""
    g.ret = lambda: g.e(1)
    for _ in range(r.randrange(2, 7)):
        body += g.stmt(4, "\t")
    params = ", ".join("unsigned " + x for x in g.vars)
    decl = "%s f@@(%s) {\n\tint fuel = 60;\n%s" % ("%s", params, body)
    for x in g.vars:
        decl += "\tev(%s);\n" % x
    end = r.random()
    if end < .2:
        # control never reaches the end: the caller is left from inside, perhaps from a loop without an exit
        decl += endless(r, g) + "}\n"
    else:
        decl += "\treturn %s;\n}\n" % g.e(1)
    decl = decl.replace("%s", "static unsigned", 1)
    args = ", ".join(r.choice(["in(%d)", "inm(%d, 4)", "inm(%d, 8)", "inm(%d, 2)"]) % i for i in range(len(g.vars)))
    return Test(decl + "void t_@@(int v) { ev(f@@(%s)); }\n" % args)


def check(c):
    c.rule = ("random functions made of if/while/do/for/switch (fallthrough, default anywhere, cases inside loops)/goto (forward, backward, into "
              "blocks)/break/continue/return/&&/||/?:/comma with a trace event at every operand, on 10 input vectors; non-trivial = distinct "
              "(function, vector) with at least one event")
    R = Runner(c, build_cc("plain"), nvec=10, prelude=PRELUDE)
    R.run_files(c.n(700, 10000), gen, per_file=12)
    c.min_nontrivial = 1000


if __name__ == "__main__":
    main("C04", check)
