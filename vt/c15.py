"""C15: objects written for Windows link with the MinGW toolchain into programs that behave as the
source says. The programs are run by wine; reference programs are native, or MinGW gcc's."""
import atexit, os, re, shutil, threading, time
from . import common, diff, gentu, genlib, c01, c02, c04, c05, c06, c07, c08, c22, c23
from .common import run, scratch, build_cc, main, ENV, VERIF, CannotAnswer
from .diff import Test, REF_CC, REF_FLAGS
from .cross import MsRunner, GCC
from .objfile import read_coff, Canon, Bad

MINGW = "x86_64-w64-mingw32-gcc"
WIN_GCC = [MINGW] + [f for f in GCC[1:] if f != "-fno-pie"] + ["-mno-ms-bitfields", "-mno-stack-arg-probe"]
WIN_CLANG = REF_CC + ["-target", "x86_64-w64-windows-gnu", "-mno-ms-bitfields", "-mno-stack-arg-probe"] + [f for f in REF_FLAGS if f != "-fno-pie"]
# code of the small model has to be below 2 GB
LOW = ["-Wl,--image-base=0x400000,--disable-dynamicbase,--disable-high-entropy-va"]
_env = None
_lock = threading.Lock()


def wine_env():
    global _env
    with _lock:
        if _env is None:
            home = os.path.join(scratch(), "wine")
            os.makedirs(home)
            env = dict(ENV, WINEPREFIX=os.path.join(home, "prefix"), HOME=home, WINEDEBUG="-all", WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe=")
            env.pop("DISPLAY", None)
            pid = os.getpid()

            def stop():
                if os.getpid() == pid:
                    run(["wineserver", "-k"], env=env, timeout=30)
                    run(["wineserver", "-w"], env=env, timeout=30)
            atexit.register(stop)
            run(["wineserver", "-p"], env=env, timeout=60)
            run(["wine", "wineboot", "-i"], env=env, timeout=180)
            # a trivial program shows whether programs can be run at all
            src, exe = os.path.join(home, "x.c"), os.path.join(home, "x.exe")
            open(src, "w").write("int printf(const char *, ...);\nint main(void) { printf(\"ready\\n\"); return 7; }\n")
            run([MINGW, src, "-o", exe], timeout=60)
            rc, out, err = run(["wine", exe], env=env, timeout=120)
            if rc != 7 or b"ready" not in out:
                raise CannotAnswer("wine does not run MinGW programs: %s %s %s" % (rc, out[-200:], err[-300:]))
            _env = env
    return _env


def wine(exe, *args, timeout=120, good=None):
    """The programs are deterministic, wine under load is not: what does not look good is tried again."""
    for again in (0, 1, 2):
        rc, out, err = run(["wine", exe] + list(args), env=wine_env(), timeout=timeout, cwd=os.path.dirname(exe))
        out = out.replace(b"\r\n", b"\n")
        if rc is not None and (good is None or good(rc, out)):
            break
        time.sleep(again + .2)
    return rc, out, err


def examine(c, lock, o, tmp):
    """-> what is wrong with the structure of an object, or None"""
    data = open(o, "rb").read()
    try:
        obj = read_coff(data)
        x = Canon(obj, tmp)
        x.code()
        n = len(x.ins)
    except Bad as e:
        return "malformed object: %s" % e
    for t in ["x86_64-w64-mingw32-objdump", "-x"], ["llvm-readobj-18", "--sections", "--symbols", "--relocations"]:
        if not shutil.which(t[0]):
            continue
        rc, out, err = run(t + [o], timeout=60)
        if rc != 0 or err.strip():
            return "%s: %s" % (t[0], err.decode(errors="replace")[-200:].replace(o, "object"))
    with lock:
        c.count(objects=1, instructions=n, relocations=sum(len(s["relocs"]) for s in obj.sections.values()), symbols=sum(s is not None for s in obj.symbols))
    return None


class WineRunner(MsRunner):
    def __init__(self, check, cc, mix, large=False, **kw):
        super().__init__(check, cc, mix, **kw)
        self.large = large
        if large:
            self.cc_flags = self.cc_flags + ["-fcmodel=large"]
        self.winrt = os.path.join(scratch(), "rtwin.o")
        with _lock:
            if not os.path.exists(self.winrt):
                rc, out, err = run([MINGW, "-DMS", "-O1", "-w", "-c", os.path.join(VERIF, "rt/rt.c"), "-o", self.winrt + ".tmp.o"], timeout=60)
                if rc != 0:
                    raise CannotAnswer("rt.c for Windows: %s" % err[-500:])
                os.rename(self.winrt + ".tmp.o", self.winrt)

    @staticmethod
    def table(ids):
        return "\n#ifdef PART_B\n%svoid (*test_table[100])(int) = { %s };\n#endif\n" % (
            "".join("void t_%d(int);\n" % i for i in ids), ", ".join("t_%d" % i if i in ids else "0" for i in range(max(ids) + 1)))

    def file_text(self, tests):
        return super().file_text(tests) + self.table(range(len(tests)))

    def text_alone(self, t, idx):
        return super().text_alone(t, idx) + self.table([idx])

    def build_win(self, mix, src, o, flags=()):
        for who, part in zip(mix, "AB"):
            x = o[:-2] + "." + part + ".o"
            if who == "cc":
                res = run([self.cc] + self.cc_flags + ["-DPART_" + part, "-c", src, "-o", x], timeout=60, cpu=40)
                if res[0] == 0:
                    bad = examine(self.c, self.lock, x, x + ".bin")
                    if bad:
                        with self.lock:
                            self.c.violation(bad, {"t.c": open(src).read(), "t.o": open(x, "rb").read()}, key=re.sub(r"\d+", "N", bad))
            else:
                res = run((WIN_GCC + self.gcc_flags if who == "gcc" else WIN_CLANG) + list(flags) + ["-DPART_" + part, "-c", src, "-o", x], timeout=60)
                res = (99 if res[0] else 0,) + res[1:]
            if res[0] != 0:
                return res
        return 0, b"", b""

    def cc_build(self, src, o, mode=None):
        return self.build_win(self.mix, src, o)

    def confirmers(self):
        return [lambda s_, o_, m=m: self.build_win(m, s_, o_) for m in (("gcc", "clang"), ("clang", "gcc"), ("gcc", "gcc"))]

    def pe(self, exe):
        return os.path.basename(exe) in ("c", "sc") or os.path.basename(exe).startswith("sg")

    def link_exe(self, o, exe):
        if not self.pe(exe):
            return super().link_exe(o, exe)
        return run([MINGW, o[:-2] + ".A.o", o[:-2] + ".B.o", self.winrt, "-o", exe + ".exe"] + ([] if self.large else LOW), timeout=60)

    def exec(self, exe, salt, cap=None):
        if not self.pe(exe):
            return super().exec(exe, salt, cap)
        rc, out, err = wine(exe + ".exe", str(self.nvec), str(salt), "-1", str(cap or 200000), good=lambda rc, out: b"\nEND" in out)
        with self.lock:
            self.c.count(wine_runs=1)
            if rc is None:
                self.c.inconclusive.append("wine run timed out")
                out += b"\nEND\n"
        return rc, out, err


class Programs:
    """whole programs: several files sharing names, and programs using MinGW's library and headers"""
    def __init__(self, c):
        self.c, self.cc, self.mcc, self.lock = c, build_cc(), build_cc("plain", mingw=True), threading.Lock()
        self.rt = os.path.join(scratch(), "rt13win.o")
        rc, out, err = run([MINGW, "-w", "-c", os.path.join(VERIF, "rt/rt13.c"), "-o", self.rt], timeout=60)
        if rc != 0:
            raise CannotAnswer("rt13.c: %s" % err)

    def bad(self, what, files, key):
        with self.lock:
            self.c.violation(what, files, key=key)

    def one(self, item):
        fam, i = item
        if len(self.c.violations) >= 8:
            return
        d = os.path.join(scratch(), "w%s%d" % item)
        os.makedirs(d)
        try:
            getattr(self, fam)(i, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def link(self, objs, exe, large, extra=()):
        return run([MINGW] + objs + ["-o", exe] + list(extra) + ([] if large else LOW), timeout=60)

    def outcome(self, exe, ref=None):
        rc, out, err = wine(exe, timeout=60, good=lambda rc, out: (rc, out) == ref if ref else out)
        with self.lock:
            self.c.count(wine_runs=1)
        return rc, out

    def judge(self, what, exe, ref, files, key, observed):
        got = self.outcome(exe, ref)
        if got[0] is None:
            with self.lock:
                self.c.inconclusive.append("wine run timed out")
            return
        with self.lock:
            self.c.evaluations += 1
            self.c.count(events=ref[1].count(b"\n"), linked_programs=1)
            self.c.nontrivial.add(hash(observed))
        if got != ref:
            a, b = ref[1].split(b"\n"), got[1].split(b"\n")
            k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            self.bad("program behaves differently (%s): exit %s instead of %s, line %d: expected %s got %s" % (what, got[0], ref[0], k, a[k:k + 1], b[k:k + 1]), files, key)

    def tu(self, i, d):
        c, r = self.c, self.c.rng("tu", i)
        srcs = gentu.Gen(r).tus()
        names = ["t%d.c" % k for k in range(len(srcs))]
        files = dict(zip(names, srcs))
        P = lambda n: os.path.join(d, n)
        for n, t in files.items():
            open(P(n), "w").write(t)
        G = WIN_GCC + ["-fno-common"]
        for n in names:
            for fl, x in (([], ".g.o"), (["-fsanitize=undefined", "-fno-sanitize=alignment,null,object-size", "-fsanitize-undefined-trap-on-error"], ".u.o")):
                rc, out, err = run(G + fl + ["-c", P(n), "-o", P(n + x)], timeout=60)
                if rc != 0:
                    with self.lock:
                        c.count(reference_rejected=1)
                        if os.environ.get("VT_DEBUG"):
                            print("REFREJ", err.decode()[:500])
                    return
        ref = None
        for x in (".u.o", ".g.o"):
            if self.link([P(n + x) for n in names] + [self.rt], P("ref.exe"), True)[0] != 0:
                with self.lock:
                    c.count(reference_rejected=1)
                return
            got = self.outcome(P("ref.exe"))
            if got[0] != 0 or (ref is not None and got != ref):
                with self.lock:
                    c.count(outside_language=1)
                return
            ref = got
        large = r.random() < .5
        flags = ["-fabi=ms"] + (["-fcmodel=large"] if large else [])
        for n in names:
            rc, out, err = run([self.cc] + flags + ["-c", P(n), "-o", P(n + ".c.o")], timeout=60, cpu=40)
            if rc != 0:
                m = " ".join((out + err).decode(errors="replace").split())
                return self.bad("valid program rejected (%s, rc=%s): %s" % (n, rc, m[-400:]), files, "reject:" + m[-60:])
            b = examine(c, self.lock, P(n + ".c.o"), P("x.bin"))
            if b:
                return self.bad("%s: %s" % (n, b), files, re.sub(r"\d+", "N", b))
        mixes = [[True] * len(names)]
        m = [r.random() < .5 for _ in names]
        if any(m) and m not in mixes:
            mixes.append(m)
        for m in mixes:
            objs = [P(n + (".c.o" if k else ".g.o")) for n, k in zip(names, m)]
            r.shuffle(objs)
            who = " ".join("%s:%s" % (n, "cc" if k else "gcc") for n, k in zip(names, m))
            rc, out, err = self.link(objs + [self.rt], P("mix.exe"), large)
            if rc != 0:
                return self.bad("objects do not link (%s; %s): %s" % (who, flags, err.decode(errors="replace")[-500:]), files, "link%d" % i)
            self.judge("%s; %s" % (who, flags), P("mix.exe"), ref, files, "diff%d" % i, (i, tuple(m)))

    def lib(self, i, d):
        """headers and library of MinGW, by a compiler configured for them"""
        c, r = self.c, self.c.rng("lib", i)
        text = genlib.program(r)
        src, P = os.path.join(d, "p.c"), lambda n: os.path.join(d, n)
        open(src, "w").write(text)
        if i == 0:
            with self.lock:
                c.sample(text[:1500])
        outs = []
        for k, fl in enumerate((["-O0"], ["-O2"])):
            rc, out, err = run([MINGW, "-std=gnu17", "-w", "-fwrapv", "-fno-builtin"] + fl + [src, "-o", P("r%d.exe" % k)], timeout=60)
            if rc != 0:
                with self.lock:
                    c.count(reference_rejected=1)
                    if os.environ.get("VT_DEBUG"):
                        print("REFREJ", err.decode()[:500])
                return
            outs.append(self.outcome(P("r%d.exe" % k)))
        if outs[0] != outs[1] or outs[0][0] not in range(100):
            with self.lock:
                c.count(references_disagree=1)
            return
        large = r.random() < .5
        flags = ["-fcmodel=large"] if large else []
        rc, out, err = run([self.mcc] + flags + ["-c", src, "-o", P("p.o")], timeout=60, cpu=40)
        if rc != 0:
            m = " ".join((out + err).decode(errors="replace").split())
            return self.bad("valid program rejected (rc=%s): %s" % (rc, m[-400:]), {"p.c": text}, "reject:" + m[-60:])
        b = examine(c, self.lock, P("p.o"), P("x.bin"))
        if b:
            return self.bad(b, {"p.c": text}, re.sub(r"\d+", "N", b))
        rc, out, err = self.link([P("p.o")], P("p.exe"), large)
        if rc != 0:
            return self.bad("object does not link (%s): %s" % (flags, err.decode(errors="replace")[-500:]), {"p.c": text}, "link%d" % i)
        self.judge("library, %s" % flags, P("p.exe"), outs[0], {"p.c": text}, "lib%d" % i, ("lib", i))


def check(c):
    c.rule = ("programs of every generator compiled to COFF objects for both code models, the objects' structure examined, linked by the MinGW toolchain (also with objects of MinGW gcc) and run under wine; "
              "non-trivial = distinct (function, vector) or whole program with events")
    cc = build_cc("plain")
    wine_env()
    nl = lambda g: lambda r, j: g(r, j, longs=False)
    whole = lambda g: lambda r, j: part_b(g(r, j))
    both = [("cc", "cc"), ("cc", "gcc"), ("gcc", "cc")]
    k = 0
    for name, gn, pre, per, n in (("int", whole(c01.gen), "", 8, 8), ("float", whole(c02.gen), "", 8, 6), ("flow", whole(c04.gen), c04.PRELUDE, 6, 10), ("data", whole(c05.gen), "", 6, 12),
                                  ("layout", whole(c06.gen), "", 5, 6), ("init", whole(c07.gen), "", 4, 10), ("abi", nl(c08.gen_test), "", 8, 24), ("va", nl(c23.gen), "", 8, 12)):
        for large in (False, True):
            mixes = both if name in ("abi", "va") else both[:1]
            for mix in mixes:
                R = WineRunner(c, cc, mix, large=large, nvec=4, prelude=pre, what="%s, A by %s, B by %s%s" % ((name,) + mix + (", large model" if large else "",)))
                R.run_files(max(1, c.n(n, n * 25) // len(mixes)), gn, per_file=per, tag="%s%d" % (name, k))
                k += 1
    p = Programs(c)
    common.pmap(p.one, [("tu", i) for i in range(c.n(40, 1000))] + [("lib", i) for i in range(c.n(40, 1000))])
    c.assumptions = ["wine stands for Windows", "MinGW gcc's programs and clang's native ones are the reference where they agree"]
    c.min_nontrivial = 500 if not os.environ.get("VT_SCALE") else 1


def part_b(t):
    """a test that is all in the second part"""
    return Test("#ifdef PART_B\n%s\n#endif\n" % t.text, t.key)


if __name__ == "__main__":
    main("C15", check)
