"""C27: programs compiled for the large code model behave like any other, wherever they lie.

Random programs are compiled with -fcmodel=large, their sections are moved to randomly chosen
addresses, gigabytes away from each other and from the runtime, and they run under the event
recorder; the events are compared with those of the reference. Every relocation of the objects
is inspected: none may be narrower than an address,
other than jumps within one section."""
import os
from . import c01, c02, c03, c04, c05, c06, c07, c08, c22, c23
from .common import main, build_cc, run
from .diff import Runner, Test, rt_object
from .cross import CrossRunner
from .objfile import read_elf, Bad

GCCL = ["-O1", "-mcmodel=large", "-fno-asynchronous-unwind-tables", "-fno-jump-tables"]


def inspect(path):
    """-> (description of the first narrow relocation or None, number of relocations)"""
    o = read_elf(open(path, "rb").read())
    n = 0
    for name, s in o.sections.items():
        for off, kind, size, sym, add in s["relocs"]:
            n += 1
            y = o.symbols[sym]
            if size != 8 and not (kind == "pc" and y["section"] == name and not y["glob"]):
                return "%d-bit %s reference to %s at %s+%#x" % (size * 8, {"pc": "relative"}.get(kind, "absolute"), o.symbols[sym]["name"], name, off), n
    return None, n


class Far:
    """the steps shared by the runners of one and of two objects"""
    def setup(self):
        self.cc_flags = self.cc_flags + ["-fcmodel=large"]
        self.rt = rt_object("-mcmodel=large", "-fno-asynchronous-unwind-tables")

    def judge(self, o):
        try:
            bad, n = inspect(o)
        except Bad as e:
            bad, n = "malformed object: %s" % e, 0
        with self.lock:
            self.c.count(objects_inspected=1, relocations_inspected=n)
            if bad:
                self.c.violation(bad, {"t.c": open(os.path.join(os.path.dirname(o), "t.c")).read()}, key=bad[:30], cmd="bin/cc -c -fcmodel=large t.c")

    def move(self, o, tag, r):
        """gives the sections names of their own and returns the linker options that place them"""
        opts, args = [], []
        for s in (".text", ".data", ".rodata", ".bss"):
            n = ".far_%s%s" % (tag, s[1:])
            args += ["--rename-section", s + "=" + n]
            self.seat = getattr(self, "seat", 0)
            opts.append("-Wl,--section-start=%s=%#x" % (n, self.place(r, len(opts) + 4 * (tag != "a"))))
        rc, out, err = run(["objcopy"] + args + [o], timeout=60)
        return opts

    def place(self, r, k):
        # eight disjoint areas: the low one, around 2 and 4 GiB, and far above
        base = [0x10000000, 0x7ff00000, 0xfff00000, 0x123456000, 0x8000000000, 0x100000000000, 0x2aaaaaaaa000, 0x3fff00000000]
        b = base[(k + r) % 8]
        return b

    def seed(self, path):
        """differs from file to file, the same on every run"""
        return sum(open(os.path.join(os.path.dirname(path), "t.c" if os.path.exists(os.path.join(os.path.dirname(path), "t.c")) else "s.c"), "rb").read()) % 8


class FarRunner(Far, Runner):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.setup()

    def cc_build(self, src, o, mode=None):
        res = super().cc_build(src, o, mode)
        if res[0] == 0:
            self.judge(o)
        return res

    def link_exe(self, o, exe):
        if os.path.basename(o) not in ("c.o", "sc.o"):
            return super().link_exe(o, exe)
        opts = self.move(o, "a", self.seed(o))
        rc, out, err = run(["gcc", "-no-pie", o, self.rt] + opts + self.link + ["-lm", "-o", exe], timeout=60)
        return rc, out, err


class FarCross(Far, CrossRunner):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.setup()
        self.opts = {}

    def part(self, who, src, o, d):
        res = super().part(who, src, o, d)
        if res[0] == 0 and who == "cc":
            self.judge(o)
        return res

    def build_mix(self, mix, src, o):
        if os.path.basename(o) not in ("c.o", "sc.o"):
            return super().build_mix(mix, src, o)
        a, b = o[:-2] + ".A.o", o[:-2] + ".B.o"
        opts = []
        for who, x, d, tag in ((mix[0], a, "PART_A", "a"), (mix[1], b, "PART_B", "b")):
            rc, out, err = self.part(who, src, x, d)
            if rc != 0:
                return rc, out, err
            opts += self.move(x, tag, self.seed(o))
        self.opts[o] = opts
        return run(["ld", "-r", a, b, "-o", o], timeout=60)

    def link_exe(self, o, exe):
        return run(["gcc", "-no-pie", o, self.rt] + self.opts.pop(o, []) + self.link + ["-lm", "-o", exe], timeout=60)


def check(c):
    c.rule = ("random programs of every generator, compiled for the large model directly and through the assembler, with code and data at addresses up to 70 TB apart; alone, and in two objects "
              "of which the other is compiled by gcc; non-trivial = distinct (function, vector) with events")
    cc = build_cc("plain")
    for name, gen, pre, per, n in (("int", c01.gen, "", 20, 25), ("float", c02.gen, "", 15, 25), ("const", c03.gen, "", 15, 15), ("flow", c04.gen, c04.PRELUDE, 10, 60),
                                   ("data", c05.gen, "", 8, 60), ("layout", c06.gen, "", 6, 30), ("init", c07.gen, "", 5, 60), ("vla", lambda r, j: Test(c22.Gen(r).test()), c22.PRE, 6, 40)):
        for mode in "cS":
            R = FarRunner(c, cc, nvec=4, prelude=pre, mode=mode, what="large model, %s" % name)
            R.run_files(c.n(n // (1 if mode == "c" else 3), n * 12), gen, per_file=per, tag=name + mode)
            c.count(**{"programs_" + name: c.n(n, n * 12)})
    for mix, n in ((("cc", "cc"), 50), (("cc", "gcc"), 50), (("gcc", "cc"), 50)):
        for name, gen in (("abi", c08.gen_test), ("va", c23.gen)):
            R = FarCross(c, cc, mix, gcc_flags=GCCL, nvec=3, what="large model, part A by %s, part B by %s" % mix)
            R.run_files(c.n(n, n * 12), gen, per_file=6, tag="%s-%s-%s" % (name, mix[0], mix[1]))
            c.count(**{"programs_" + name: c.n(n, n * 12)})
    c.assumptions = ["the linker refuses a reference that does not reach its symbol"]
    c.min_nontrivial = 1000


if __name__ == "__main__":
    main("C27", check)
