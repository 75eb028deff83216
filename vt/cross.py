"""Cross-compilation: each test has a part A and a part B; the object under test mixes
parts compiled by the compiler under test with parts compiled by gcc."""
import os
from .common import run
from .diff import Runner, REF_CC, REF_FLAGS, UBSAN, rt_object

GCC = ["gcc", "-std=gnu17", "-w", "-fno-pie", "-fwrapv", "-fno-strict-aliasing", "-ffp-contract=off", "-fno-builtin"]


class CrossRunner(Runner):
    """mix: tuple of who compiles part A and part B ('cc' or 'gcc')."""
    def __init__(self, check, cc, mix, gcc_flags=("-O2",), **kw):
        super().__init__(check, cc, **kw)
        self.mix, self.gcc_flags = mix, list(gcc_flags)
        self.ref_flags = self.ref_flags + ["-DPART_A", "-DPART_B"]

    def part(self, who, src, o, d):
        if who == "cc":
            return run([self.cc] + self.cc_flags + ["-D" + d, "-c", src, "-o", o], timeout=60, cpu=40)
        cmd = GCC + self.gcc_flags if who == "gcc" else REF_CC + REF_FLAGS
        rc, out, err = run(cmd + ["-D" + d, "-c", src, "-o", o], timeout=60)
        return (99 if rc else 0), out, err

    def build_mix(self, mix, src, o):
        a, b = o[:-2] + ".A.o", o[:-2] + ".B.o"
        for who, x, d in ((mix[0], a, "PART_A"), (mix[1], b, "PART_B")):
            rc, out, err = self.part(who, src, x, d)
            if rc != 0:
                return rc, out, err
        return run(["ld", "-r", a, b, "-o", o], timeout=60)

    def cc_build(self, src, o, mode=None):
        return self.build_mix(self.mix, src, o)

    def confirmers(self):
        # gcc and clang have to interoperate for the case to be judged
        return [lambda s_, o_, m=m: self.build_mix(m, s_, o_) for m in (("gcc", "clang"), ("clang", "gcc"), ("gcc", "gcc"))]


class MsRunner(CrossRunner):
    """The same under the Microsoft calling convention; ELF objects throughout."""
    GCC = GCC + ["-mabi=ms", "-mno-red-zone"]
    CLANG = REF_CC + ["-target", "x86_64-w64-windows-gnu-elf", "-mno-ms-bitfields", "-mno-stack-arg-probe"] + REF_FLAGS + ["-fno-asynchronous-unwind-tables"]

    def __init__(self, check, cc, mix, **kw):
        super().__init__(check, cc, mix, **kw)
        self.cc_flags = self.cc_flags + ["-fabi=ms"]
        self.rt = rt_object("-DMS")

    def ref_build(self, src, o):
        return self.rename(run(self.CLANG + (UBSAN if self.ubsan else []) + self.ref_flags + ["-c", src, "-o", o], timeout=120), o)

    def rename(self, res, o):
        if res[0] == 0:
            res = run(["objcopy"] + ["--redefine-sym=%s=ms_%s" % (f, f) for f in ("memcpy", "memmove", "memset", "memcmp")] + [o], timeout=60)
        return res

    def part(self, who, src, o, d):
        if who == "cc":
            s = o[:-2] + ".s"
            rc, out, err = run([self.cc] + self.cc_flags + ["-D" + d, "-S", src, "-o", s], timeout=60, cpu=40)
            if rc != 0:
                return rc, out, err
            rc, out, err = run(["gcc", "-c", s, "-o", o], timeout=60)
            return (98 if rc else 0), b"GNU as: " + out, err
        rc, out, err = self.rename(run((self.GCC + self.gcc_flags if who == "gcc" else self.CLANG) + ["-D" + d, "-c", src, "-o", o], timeout=60), o)
        return (99 if rc else 0), out, err
