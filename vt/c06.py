"""C06: size, alignment and member layout of every type, and access to members."""
from .common import main, build_cc
from .diff import Runner, Test
from .gentype import *

CMP = ["=", "=", "=", "+=", "-=", "^=", "|=", "&=", "*=", "<<=", ">>="]


def gen(r, j):
    en = enum_type("e_@@")
    g = TypeGen(r, "S@@", enums=[en])
    top = g.agg(r.choice([0, 1, 2, 2, 3]))
    # a few more shapes around it
    fam = ""
    if r.random() < 0.2:
        e = g.type(1, array=False)
        m = [Mem("h%d" % i, g.scalar()) for i in range(r.randint(1, 3))]
        fa = Agg("F@@", False, m + [Mem("tail", Arr(e, None))])
        g.defs.append(fa.definition())
        fam = "ev(sizeof(struct F@@)); ev(_Alignof(struct F@@)); { static char b_[4096]; struct F@@ *f = (void *)b_; ev((char *)&f->tail[3] - b_); ev(__builtin_offsetof(struct F@@, tail)); }"
    out = ["enum e_@@ { E0_@@, E1_@@, E2_@@, E3_@@ = 3 };"] + g.defs
    T = top.decl("")
    out.append("%s;" % top.decl("g_@@"))
    out.append("%s;" % top.decl("ga_@@[3]"))
    out.append("static struct { char pre[16]; %s; char post[16]; } w_@@;" % top.decl("t"))
    # constants known at compile time
    subs = [(p, t) for p, t in subobjects(top) if p]
    r.shuffle(subs)
    offs = [p for p, t in subs if not p.startswith("[")][:6]
    out.append("static unsigned long k_@@[] = { sizeof(%s), _Alignof(%s)%s };" % (
        T, T, "".join(", __builtin_offsetof(%s, %s)" % (T, p[1:]) for p in offs)))
    out.append("enum { SZ_@@ = sizeof(%s), AL_@@ = _Alignof(%s) };" % (T, T))
    out.append("static void put_@@(%s) { ev((unsigned long)&x %% _Alignof(%s)); " % (top.decl("x"), T))
    lv = list(leaves(top))
    some = lv if len(lv) <= 12 else r.sample(lv, 12)
    un = has_union(top)
    for l in some:
        out.append("  " + read_stmt(l, "x"))
    out.append("}")
    out.append("void t_@@(int v) {")
    out.append("  %s; static %s; char c_; %s;" % (top.decl("s"), top.decl("st"), top.decl("s2")))
    out.append("  ev(sizeof(%s)); ev(_Alignof(%s)); ev(sizeof s); ev(sizeof ga_@@); ev(SZ_@@ * 100 + AL_@@);" % (T, T))
    out.append("  for (int i = 0; i < %d; i++) ev(k_@@[i]);" % (2 + len(offs)))
    out.append("  " + fam)
    for a in sorted(set(a.tag for a in g.aggs)):
        kw = next(x.kw for x in g.aggs if x.tag == a)
        out.append("  ev(sizeof(%s %s) * 1000 + _Alignof(%s %s));" % (kw, a, kw, a))
    out.append("  ev((unsigned long)&s %% _Alignof(%s)); ev((unsigned long)&st %% _Alignof(%s)); ev((unsigned long)&g_@@ %% _Alignof(%s)); ev((unsigned long)&s2 %% AL_@@); c_ = 0; ev((unsigned long)&c_ & 0);" % (T, T, T))
    out.append("  %s *p = &s; %s *q = ga_@@; int ix = inm(90, 3);" % (T, T))
    for p, t in subs[:16]:
        dec = "(char *)&s%s - (char *)&s" % p
        out.append("  ev(%s); ev(sizeof s%s); ev((char *)&q[ix]%s - (char *)q);" % (dec, p, p))
    k = 0
    for n, l in enumerate(some):
        t = l.type
        obj, base = r.choice([("s", "&s"), ("(*p)", "p"), ("g_@@", "&g_@@"), ("st", "&st"), ("q[ix]", "&q[ix]"), ("w_@@.t", "&w_@@.t"), ("p[0]", "p")])
        pat = r.choice([0, 0xff, 0x5a, 0xa5])
        k = (k + 1) % 60
        val = value_expr(r, l, k)
        e = obj + l.path
        out.append("  __builtin_memset(%s, %d, sizeof(%s));" % (base, pat, T) if False else "  { unsigned char *b_ = (unsigned char *)%s; for (unsigned long i = 0; i < sizeof(%s); i++) b_[i] = %d; }" % (base, T, pat))
        if t.kind in "ibe" and not (t.kind == "b" and pat not in (0,) and not l.width):
            op = r.choice(CMP)
            wide = l.width is not None and t.size == 8
            if op in ("<<=", ">>="):
                # shifts of negative values are excluded
                op = "^=" if t.signed else op
                val = "inm(%d, %d)" % (k, 8)
            elif op == "*=":
                val = "inm(%d, %d)" % (k, 9)
            elif op in ("+=", "-=", "*="):
                val = "inm(%d, %d)" % (k, 100)
            if t.kind == "b" or t.kind == "e" or wide:
                op = r.choice(["=", "^=", "|=", "&="])
                if t.kind == "e" and op != "=" and l.width:
                    op = "="
            if t.size == 4 and op in ("+=", "-=", "*=") and t.signed and not l.width:
                op = "="
            if t.size == 8 and op in ("+=", "-=", "*=") and t.signed:
                op = "="
            if r.random() < 0.2 and not wide and t.kind == "i" and not (t.size >= 4 and t.signed and not l.width):
                form = r.choice(["%s++", "++%s", "%s--", "--%s"])
                if l.width == 32 and t.signed:
                    form = "%s"
                out.append("  ev((long long)(%s));" % (form % e))
            elif r.random() < 0.6:
                out.append("  ev((%s)(%s %s %s));" % ("int" if t.kind == "e" else "long long", e, op, val))
            else:
                out.append("  %s %s %s;" % (e, op, val))
            if l.width and not wide and t.kind == "i":
                # promotions
                out.append("  ev(%s - 7 < 0); ev((long long)-%s); ev((long long)~%s); ev(sizeof +%s);" % (e, e, e, e)
                           if not (l.width == 32) else "  ev(%s > -1);" % e)
        else:
            if t.kind == "p" and r.random() < 0.3:
                out.append("  %s = 0;" % e)
            else:
                out.append("  %s = %s;" % (e, val))
        out.append("  evm(%s, sizeof(%s));" % (base, T))
        out.append("  " + read_stmt(l, obj))
        if obj == "w_@@.t":
            out.append("  evm(w_@@.pre, 16); evm(w_@@.post, 16);")
    if not un:
        # whole-object copies
        out.append("  { unsigned char *b_ = (unsigned char *)&s; for (unsigned long i = 0; i < sizeof s; i++) b_[i] = 0; }")
        for l in some:
            k = (k + 1) % 60
            out.append("  s%s = %s;" % (l.path, value_expr(r, l, k)))
        out.append("  for (int i = 0; i < 16; i++) w_@@.pre[i] = w_@@.post[i] = i + 65;")
        out.append("  w_@@.t = s; q[ix] = *p; s2 = q[ix]; st = w_@@.t;")
        for l in some:
            out.append("  %s %s" % (read_stmt(l, r.choice(["w_@@.t", "q[ix]"])), read_stmt(l, r.choice(["s2", "st"]))))
        out.append("  evm(w_@@.pre, 16); evm(w_@@.post, 16);")
        out.append("  put_@@(s); { int d_ = 0; (void)d_; put_@@(q[ix]); }")
    out.append("}")
    return Test("\n".join(out) + "\n")


def check(c):
    c.rule = ("random struct/union types (nested, anonymous, arrays, bit-fields incl. unnamed and zero-width, packed, #pragma pack, _Alignas, flexible arrays); sizes, "
              "alignments and offsets as constants and as address differences, all bytes of the object after stores to each member through 7 access forms, "
              "compound assignment and ++ on members, whole-object copies with guard bytes, alignment of every kind of object; non-trivial = distinct (type, vector) with events")
    R = Runner(c, build_cc("plain"), nvec=4)
    R.run_files(c.n(500, 8000), gen, per_file=8)
    c.min_nontrivial = 1000


if __name__ == "__main__":
    main("C06", check)
