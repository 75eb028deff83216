"""C23: every way of reading variable arguments yields the arguments in order."""
from .common import main, build_cc
from .diff import Test
from .cross import CrossRunner, MsRunner
from .gentype import *
from .abigen import *

LONGS = ("long", "unsigned long")
PROMO = {"char": "int", "signed char": "int", "unsigned char": "int", "short": "int", "unsigned short": "int", "_Bool": "int", "float": "double"}
PASSED = ["char", "signed char", "unsigned char", "short", "unsigned short", "_Bool", "float", "double", "double", "int", "int", "unsigned", "long", "unsigned long", "long long",
          "unsigned long long", "void *", "char *", "enum e_@@"]
BYNAME = {s.name: s for s in SCALARS}


class Seq:
    def __init__(self, r, g, n, structs=True):
        self.pass_, self.read = [], []
        for _ in range(n):
            if structs and r.random() < .22:
                t = small_agg(r, g) if r.random() < .5 or not g.aggs else r.choice(g.aggs)
                self.pass_.append(t)
                self.read.append(t)
                continue
            name = r.choice([p for p in PASSED if g.o["longs"] or p not in LONGS])
            t = g.enums[0] if name.startswith("enum") else BYNAME[name]
            self.pass_.append(t)
            self.read.append(BYNAME["unsigned"] if name.startswith("enum") else BYNAME[PROMO.get(name, name)])


def rd(r, t, ap):
    return "{ %s = __builtin_va_arg(%s, %s); %s }" % (t.decl("w"), ap, t.decl(""), " ".join(dump(t, "w")))


def gen(r, j, longs=True):
    en = enum_type("e_@@")
    g = TypeGen(r, "S@@", enums=[en], align=False, pack=r.random() < .15, max_arr=3, max_members=r.choice([2, 3, 4]), bitfields=r.random() < .3, fnptr=False, unnamed=False, longs=longs)
    for _ in range(r.randint(0, 2)):
        g.agg(1)
    a, b, protos = [], [], []
    seq = Seq(r, g, r.choice([1, 2, 4, 6, 8, 10, 14, 18]), r.random() < .7)
    n = len(seq.read)
    named = [small_agg(r, g) if r.random() < .15 else g.scalar() for _ in range(r.choice([1, 1, 2, 3, 5, 6, 7, 9]))]
    # parameters of type char, float, ... before the ellipsis are undefined for va_start's last
    named[-1] = r.choice([BYNAME["int"], BYNAME["double"], BYNAME["unsigned long long"], BYNAME["void *"]])
    ret = r.choice([None, BYNAME["int"], BYNAME["double"], BYNAME["long long"]] + ([small_agg(r, g)] if r.random() < .4 else []))
    s = Sig("vf_@@", ret, named, seq.pass_)
    body = [s.proto() + " {", "  __builtin_va_list ap, ap2;"]
    if ret is not None:
        body.append("  %s;" % ret.decl("ret"))
    k = [0]

    def reader(i, e, byptr):
        name = "rd%d_@@" % k[0]
        k[0] += 1
        p = "void %s(int k, __builtin_va_list %sap)" % (name, "*" if byptr else "")
        protos.append(p + ";")
        o = [p + " {", "  ev(k);"]
        for t in seq.read[i:e]:
            o.append("  " + rd(r, t, "*ap" if byptr else "ap"))
        if not byptr and r.random() < .3 and e < n:
            o.append("  { __builtin_va_list c; __builtin_va_copy(c, ap); %s __builtin_va_end(c); }" % rd(r, seq.read[e], "c"))
        o.append("}")
        a.append("\n".join(o))
        return name
    if r.random() < .5:
        for i, t in enumerate(named):
            body += ["  " + x for x in dump(t, "a%d" % i)]
    for rnd in range(r.choice([1, 1, 2, 3])):
        body.append("  __builtin_va_start(ap, a%d);" % (len(named) - 1))
        i = 0
        while i < n:
            p = r.random()
            if p < .45:
                body.append("  " + rd(r, seq.read[i], "ap"))
                i += 1
            elif p < .6:
                # a copy taken here sees the rest, the original is not disturbed
                e = r.randint(i, n)
                body.append("  __builtin_va_copy(ap2, ap);")
                body += ["  " + rd(r, t, "ap2") for t in seq.read[i:e]]
                body.append("  __builtin_va_end(ap2);")
            elif p < .75:
                e = r.randint(i, n)
                body.append("  __builtin_va_copy(ap2, ap); %s(%d, ap2); __builtin_va_end(ap2);" % (reader(i, e, False), i))
            elif p < .9:
                e = r.randint(i, n)
                body.append("  %s(%d, &ap);" % (reader(i, e, True), i))
                i = e
            else:
                # a run of arguments of one type in a loop
                t = seq.read[i]
                e = i
                while e < n and seq.read[e] is t:
                    e += 1
                body.append("  for (int q = 0; q < %d; q++) %s" % (e - i, rd(r, t, "ap")))
                i = e
            if r.random() < .15:
                i = min(i, n)
        if i >= n or r.random() < .5:
            body.append("  __builtin_va_end(ap);")
        else:
            body.append("  __builtin_va_end(ap);")
    if r.random() < .4:
        body += ["  " + x for i, t in enumerate(named) for x in dump(t, "a%d" % i)]
    if ret is not None:
        body += ["  " + x for x in fill(r, ret, "ret", 33)]
        body.append("  return ret;")
    body.append("}")
    a.append("\n".join(body))
    protos.append(Sig("vf_@@", ret, named, seq.pass_).proto() + ";")
    # the caller may pass more than is read, and values that are promoted
    for c in range(r.randint(1, 2)):
        o = ["{"]
        args = []
        for i, t in enumerate(named + seq.pass_):
            v = "x%d" % i
            bit = i >= len(named) and isinstance(t, Sc) and t.name in ("int", "unsigned") and r.random() < .2
            if bit:
                o.append("  struct { %s : 5; } b%d; b%d.x = in(%d);" % (("int x" if t.name == "int" else "int x"), i, i, i))
                args.append(("(%s)" % t.name if t.name == "unsigned" else "") + "b%d.x" % i)
                continue
            o.append("  %s;" % t.decl(v))
            o += ["  " + x for x in fill(r, t, v, (c * 5 + i) % 50)]
            args.append(v)
        args += r.choice([[], [], ["1.5"], ["7"], ["in(2)", "2.25", "(char)3"]])
        fn = "vf_@@"
        if r.random() < .3:
            o.append("  %s = vf_@@;" % Sig("", ret, named, seq.pass_).proto("(*fp)"))
            fn = r.choice(["fp", "(*fp)"])
        call = "%s(%s)" % (fn, ", ".join(args))
        if ret is None:
            o.append("  %s;" % call)
        else:
            o.append("  %s = %s;" % (ret.decl("rr"), call))
            o += ["  " + x for x in dump(ret, "rr")]
        o.append("}")
        b.append("\n".join("  " + x for x in o))
    pre = ["enum e_@@ { E0_@@, E1_@@, E2_@@, E3_@@ = 3 };"] + g.defs + protos
    # the readers and the variadic function may live on different sides
    if r.random() < .5:
        readers, vf = a[:-1], a[-1:]
    else:
        readers, vf = a, []
    return Test("\n".join(pre + ["#ifdef PART_A"] + readers + ["#endif", "#ifdef PART_B"] + vf + ["void t_@@(int v) {"] + b + ["}", "#endif"]) + "\n")


def check(c):
    c.rule = ("random sequences of promoted scalars, bit-fields and aggregates through an ellipsis after random named parameters, read directly, in loops, through va_copy, by functions "
              "taking the list or its address, and again after restarting; readers, variadic functions and callers are compiled by different compilers and together, in both conventions; "
              "every value read is recorded; non-trivial = distinct (program, vector) with events")
    cc = build_cc("plain")
    for abi in (CrossRunner, MsRunner):
        for mix, opt, n in ((("cc", "cc"), "-O0", 120), (("cc", "gcc"), "-O2", 70), (("gcc", "cc"), "-O2", 70)):
            name = "ms" if abi is MsRunner else "sysv"
            R = abi(c, cc, mix, gcc_flags=(opt,), nvec=3, what="%s: part A by %s, part B by %s" % ((name,) + mix))
            R.run_files(c.n(n, n * 16), lambda r, j: gen(r, j, longs=abi is CrossRunner), per_file=10, tag="%s-%s-%s" % ((name,) + mix))
            c.count(**{"mix_%s_%s_%s" % ((name,) + mix): c.n(n, n * 16)})
    c.min_nontrivial = 1000


if __name__ == "__main__":
    main("C23", check)
