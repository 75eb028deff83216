"""C07: initializers give every object exactly the value the language defines."""
from .common import main, build_cc
from .diff import Runner, Test
from .gentype import *
from .geninit import *

IV = ["0", "1", "-1", "5", "77", "-100", "200", "255", "256", "40000", "-40000", "70000", "0x7fffffff", "-2147483647 - 1",
      "3000000000", "0x123456789abcdef", "-5000000000", "'x'", "sizeof(int)", "1 + 2 * 3", "7 ? 11 : 12", "(char)300", "!3", "~9", "2 > 1"]
FV = ["0.0", "1.5", "-2.25", "3", "1e10", "-7", "1.0f / 4", "0x1p-3", "1e-300", "-0.0", ".1f", "(float).1"]


def static_value(r):
    def f(t, width, static):
        if not static and r.random() < .6:
            k = r.randrange(60)
            if t.kind == "p":
                return "(void *)(gb_@@ + inm(%d, 30))" % k if not isinstance(t, FnPtr) else r.choice(["fa_@@", "fb_@@"])
            if t.kind == "f":
                return "(%s)inm(%d, 1000) / 8" % (r.choice(["float", "double"]), k) if r.random() < .8 else "inm(%d, 99)" % k
            if t.kind == "b":
                return "inm(%d, 3)" % k
            if t.kind == "e":
                return "inm(%d, %d)" % (k, 1 if width == 1 else 2)
            return "in(%d)" % k
        if t.kind == "p":
            if isinstance(t, FnPtr):
                return r.choice(["fa_@@", "&fb_@@", "0", "*fa_@@"])
            if t.name == "char *":
                return r.choice(['"lit"', '"x" "yz"', "gb_@@", "&gb_@@[%d]" % r.randrange(30), "gb_@@ + %d" % r.randrange(30), "0", '"tail" + 2', "(char[]){ 'c', 'l', 0 }" if static == "file" else '"abc"'])
            if t.name == "int *":
                return r.choice(["gi_@@", "&gi_@@[%d]" % r.randrange(8), "gi_@@ + 3", "2 + gi_@@", "0", "&gs_@@.y", "&gs_@@.z[1]", "(int *)((char *)gi_@@ + 4)"])
            return r.choice(["gb_@@", "&gs_@@", "(void *)0", "&gi_@@[1]", "(char *)&gs_@@.z + 4", "gb_@@ + sizeof gi_@@"])
        if t.kind == "f":
            return r.choice(FV)
        if t.kind == "b":
            return r.choice(["0", "1", "7", "0.5", "256", "&gs_@@ != 0" if not static else "-1"])
        if t.kind == "e":
            return r.choice(["E0_@@", "E1_@@"]) if width == 1 else r.choice(["E0_@@", "E1_@@", "E2_@@", "E3_@@", "1"]) if not width or width > 1 else "0"
        if r.random() < .1:
            return r.choice(["1.75", "-3.5", "100.0f"] if t.signed and (not width or width > 8) and t.size > 1 else ["1.75", "0.5"])
        return r.choice(IV)
    return f


def read(l, obj):
    e = obj + l.path
    t = l.type
    if t.kind == "p":
        if isinstance(t, FnPtr):
            return "ev(%s ? %s(20) : 3);" % (e, e)
        if t.name == "char *":
            return "evs(%s ? %s : \"null\");" % (e, e)
        return "pp_@@(%s);" % e
    if t.kind == "i" and t.size == 8 and not l.width:
        return "pi_@@(%s);" % e
    return read_stmt(l, obj)


PRE = """enum e_@@ { E0_@@, E1_@@, E2_@@, E3_@@ = 3 };
static char gb_@@[33] = "0123456789abcdefghijklmnopqrstuv";
static int gi_@@[8] = { 10, 11, 12, 13, 14, 15, 16, 17 };
static struct { int x, y; int z[3]; } gs_@@ = { 1, 2, { 3, 4, 5 } };
static int fa_@@(int x) { return x + 1; }
static int fb_@@(int x) { return x * 3; }
static void pp_@@(void *p) {
  char *c = p;
  if (!c) ev(0);
  else if (c >= gb_@@ && c < gb_@@ + 33) ev(1000 + (c - gb_@@));
  else if (c >= (char *)gi_@@ && c < (char *)gi_@@ + sizeof gi_@@) ev(2000 + (c - (char *)gi_@@));
  else if (c >= (char *)&gs_@@ && c < (char *)&gs_@@ + sizeof gs_@@) ev(3000 + (c - (char *)&gs_@@));
  else ev(9999);
}
static void pi_@@(unsigned long x) {
  if (x >= (unsigned long)gi_@@ && x < (unsigned long)gi_@@ + sizeof gi_@@) ev(4000 + x - (unsigned long)gi_@@);
  else ev(x);
}
"""


def gen(r, j):
    en = enum_type("e_@@")
    g = TypeGen(r, "S@@", enums=[en], align=r.random() < .3, pack=r.random() < .3, max_arr=r.choice([3, 4, 6]), max_members=r.choice([3, 5, 6]))
    top = g.agg(r.choice([1, 2, 2, 3]))
    root = top
    k = r.random()
    if k < .3:
        root = Arr(top, r.randint(1, 4))
    elif k < .4:
        root = Arr(g.scalar(), r.randint(1, 9))
    elif k < .5:
        root = Arr(Arr(r.choice(INTS[:7]), r.randint(1, 5)), r.randint(1, 4))
    pre, body = [], []
    val = static_value(r)

    def agg_expr(sub):
        return r.choice(["v%s_@@", "(*&v%s_@@)", "r%s_@@()", "(in(7) > 2 ? v%s_@@ : r%s_@@())", "(ev(1), v%s_@@)" if False else "v%s_@@", "w%s_@@[1]"]).replace("%s", sub.tag.replace("@@", "x"))
    # variables of every named aggregate type without unions, usable as whole initializers
    usable = [a for a in g.aggs if not has_union(a)]
    names = set()
    for a in usable:
        ig = InitGen(r, val, budget=12)
        n = a.tag.replace("@@", "x")
        names.add(a.tag)
        pre.append("static %s = %s;" % (a.decl("v%s_@@" % n), ig.braced(a, "", "file")))
        ig = InitGen(r, val, budget=12)
        pre.append("static %s = { %s, %s };" % (a.decl("w%s_@@[2]" % n), ig.braced(a, "", "file"), ig.braced(a, "", "file")))
        pre.append("static %s { return v%s_@@; }" % (a.decl("r%s_@@(void)" % n), n))
    se = lambda sub: agg_expr(sub) if sub.tag in names else None
    n = 0
    for where in r.sample(["file", "file", "static", "auto", "auto", "auto", "lit", "unsized", "unsized_auto", "loop", "ptrlit", "ext"], r.randint(3, 6)):
        n += 1
        t = root
        static = "file" if where in ("file", "unsized", "ptrlit", "ext") else "block" if where == "static" else ""
        ig = InitGen(r, val, se, budget=r.choice([6, 15, 30]))
        full = r.random() < .3
        o = "o%d_@@" % n
        q = r.choice(["", "", "const "]) if not (isinstance(root, Arr) and isinstance(root.elem, FnPtr)) else ""
        if where in ("unsized", "unsized_auto"):
            el = root.elem if isinstance(root, Arr) else root
            t = Arr(el, r.randint(1, 5))
            st = None
            if isinstance(el, Sc) and el.name in STR_ELEM and r.random() < .6:
                txt = ig.string(Arr(el, None))
                dst = pre if where == "unsized" else body
                dst.append("%s%s = %s;" % ("static " if where == "unsized" else "", Arr(el, None).decl(o), txt))
                body.append("  ev(sizeof %s); evm(%s, sizeof %s);" % (o, o, o))
                continue
            # the size comes from the largest index initialized
            txt = ig.braced(t, "", static, full=True)
            dst = pre if where == "unsized" else body
            dst.append("%s%s = %s;" % ("static " if where == "unsized" else "", Arr(el, None).decl(o), txt))
            body.append("  ev(sizeof %s);" % o)
            for l in list(ig.live(t))[:60]:
                body.append("  if (sizeof %s > %s * sizeof *%s) %s" % (o, l.path[1:l.path.index("]")], o, read(l, o)))
            continue
        if where == "lit":
            txt = ig.braced(t, "", "", full=full)
            kind = r.random()
            if isinstance(t, Agg) and kind < .4:
                body.append("  %s; %s = (%s)%s;" % (t.decl(o), o, t.decl(""), txt))
            elif isinstance(t, Agg) and kind < .6:
                body.append("  %s = (%s)%s;" % (t.decl(o), t.decl(""), txt))
            else:
                body.append("  %s = &(%s)%s;" % (t.decl("(*p%s)" % o), t.decl(""), txt))
                o = "(*p%s)" % o
        elif where == "ptrlit":
            txt = ig.braced(t, "", "file", full=full)
            if has_union(t):
                continue
            pre.append("static %s = &(%s)%s;" % (t.decl("(*p%s)" % o), t.decl(""), txt))
            o = "(*p%s)" % o
        elif where == "loop":
            txt = ig.braced(t, "", "", full=full)
            body.append("  for (int i_ = 0; i_ < 2; i_++) {")
            body.append("    %s = %s;" % (t.decl(o), txt))
            for l in list(ig.live(t))[:40]:
                body.append("    " + read(l, o))
            body.append("    for (unsigned long k_ = 0; k_ < sizeof %s; k_++) ((unsigned char *)&%s)[k_] = 0x5a;" % (o, o))
            body.append("  }")
            continue
        elif where in ("file", "ext"):
            txt = ig.braced(t, "", "file", full=full)
            pre.append("%s%s%s = %s;" % ("static " if where == "file" else "", q, t.decl(o), txt))
        elif where == "static":
            txt = ig.braced(t, "", "block", full=full)
            body.append("  static %s%s = %s;" % (q, t.decl(o), txt))
        else:
            txt = ig.braced(t, "", "", full=full)
            body.append("  %s%s = %s;" % (q, t.decl(o), txt))
        lv = list(ig.live(t))
        if len(lv) > 70:
            lv = lv[:30] + r.sample(lv[30:], 40)
        for l in lv:
            body.append("  " + read(l, o))
        if where in ("file", "static", "ext") and not has_union(t) and not q:
            pass
    # scalars
    t = g.scalar()
    body.append("  %s = %s;" % (t.decl("sc"), r.choice(["%s", "{ %s }", "{ %s, }"]) % val(t, None, "")))
    body.append("  static %s = %s;" % (t.decl("ss"), r.choice(["%s", "{ %s }"]) % val(t, None, "block")))
    body.append("  " + read(Leaf("", t), "sc") + " " + read(Leaf("", t), "ss"))
    return Test(PRE + "\n".join(["\n".join(g.defs)] + pre + ["void t_@@(int v) {"] + body + ["}"]) + "\n")


def check(c):
    c.rule = ("random aggregate types with random initializers: nested and elided braces, designator paths, overrides, strings in every encoding, compound literals, unsized arrays, "
              "unions, bit-fields, anonymous members, whole-aggregate expressions and address constants, for file-scope, block static, automatic, looped and literal objects; "
              "every member with a defined value is read; non-trivial = distinct (program, vector) with events")
    R = Runner(c, build_cc("plain"), nvec=3)
    R.run_files(c.n(500, 8000), gen, per_file=8)
    c.min_nontrivial = 1000


if __name__ == "__main__":
    main("C07", check)
