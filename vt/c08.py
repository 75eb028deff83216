"""C08: calls interoperate with the System V ABI in both directions."""
from .common import main, build_cc
from .diff import Test
from .cross import CrossRunner
from .gentype import *
from .abigen import *


def gen_test(r, j, longs=True):
    en = enum_type("e_@@")
    g = TypeGen(r, "S@@", enums=[en], align=False, pack=r.random() < .25, max_arr=3, max_members=r.choice([2, 3, 4, 6]), bitfields=r.random() < .4, fnptr=False, unnamed=False, longs=longs)
    a, b, calls, protos = [], [], [], []
    for n in range(r.randint(1, 3)):
        s = gen_sig(r, g, "f%d_@@" % n)
        protos.append(s.proto() + ";")
        a.append(callee(r, s))
        if r.random() < .3:
            ptr = s.proto("(*fp%d)" % n) + " = %s;" % s.name
            calls.append("  { %s\n%s  }" % (ptr, call(r, s, "fp%d" % n, n + 1)))
        else:
            calls.append(call(r, s, s.name, n + 1))
        if r.random() < .25:
            # nested call: A calls back into B
            cb = gen_sig(r, g, "cb%d_@@" % n, max_args=9)
            protos.append(cb.proto() + ";")
            b.append(callee(r, cb))
            protos.append("void rcb%d_@@(%s, int k);" % (n, cb.proto("(*p)")))
            a.append("void rcb%d_@@(%s, int k) {\n  ev(k);\n%s  ev(k); }" % (n, cb.proto("(*p)"), call(r, cb, r.choice(["p", "(*p)"]), n + 5)))
            calls.append("  rcb%d_@@(%s, %d);" % (n, cb.name, n + 40))
    pre = ["enum e_@@ { E0_@@, E1_@@, E2_@@, E3_@@ = 3 };"] + g.defs + protos
    return Test("\n".join(pre + ["#ifdef PART_A"] + a + ["#endif", "#ifdef PART_B"] + b + ["void t_@@(int v) {"] + calls + ["}", "#endif"]) + "\n")


def check(c):
    c.rule = ("random signatures (scalars, aggregates at and around the classification boundaries, unions, bit-fields, packed types, up to 14 arguments, variadic, function "
              "pointers, callbacks); caller and callee are compiled by different compilers in both directions and together; every argument, result and caller-side object is "
              "recorded; the recorder checks stack alignment, clobbers volatile registers and verifies callee-saved ones; non-trivial = distinct (program, vector) with events")
    cc = build_cc("plain")
    for mix, opt, n in ((("cc", "gcc"), "-O2", 220), (("gcc", "cc"), "-O2", 220), (("cc", "cc"), "-O0", 60)):
        R = CrossRunner(c, cc, mix, gcc_flags=(opt,), nvec=3, what="part A by %s, part B by %s" % mix)
        R.run_files(c.n(n, n * 16), gen_test, per_file=8, tag="%s-%s" % mix)
        c.count(**{"mix_%s_%s" % mix: c.n(n, n * 16)})
    c.min_nontrivial = 1000


if __name__ == "__main__":
    main("C08", check)
