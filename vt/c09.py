"""C09: calls interoperate with the Microsoft x64 ABI in both directions."""
from .common import main, build_cc
from .cross import MsRunner
from .c08 import gen_test


def check(c):
    c.rule = ("random signatures as in C08 under the Microsoft convention; caller and callee are compiled by different compilers (gcc -mabi=ms, clang for a Windows target) in both "
              "directions and together; every argument, result and caller-side object is recorded; the recorder checks stack alignment, overwrites the shadow space and the volatile "
              "registers and verifies the non-volatile ones; non-trivial = distinct (program, vector) with events")
    cc = build_cc("plain")
    for mix, opt, n in ((("cc", "gcc"), "-O2", 220), (("gcc", "cc"), "-O2", 220), (("cc", "cc"), "-O0", 60)):
        R = MsRunner(c, cc, mix, gcc_flags=(opt,), nvec=3, what="part A by %s, part B by %s" % mix)
        R.run_files(c.n(n, n * 16), lambda r, j: gen_test(r, j, longs=False), per_file=8, tag="%s-%s" % mix)
        c.count(**{"mix_%s_%s" % mix: c.n(n, n * 16)})
    c.min_nontrivial = 1000


if __name__ == "__main__":
    main("C09", check)
