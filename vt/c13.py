"""C13: programs of several translation units behave as the linkage rules of C say, whoever
compiled each of the files."""
import os, shutil, threading, traceback
from . import common, gentu
from .common import run, scratch, build_cc, main, VERIF, CannotAnswer

GCC = ["gcc", "-std=gnu17", "-w", "-fno-pie", "-fno-common", "-fwrapv", "-fno-strict-aliasing", "-fno-builtin"]
CLANG = ["clang", "-std=gnu17", "-w", "-fno-pie", "-fno-common", "-fwrapv", "-fno-strict-aliasing", "-fno-builtin"]
TRAP = ["-fsanitize=undefined", "-fno-sanitize=alignment,null,object-size", "-fsanitize-undefined-trap-on-error"]


def globals_of(o):
    rc, out, err = run(["nm", "-g", "--defined-only", "-P", o], timeout=60)
    if rc != 0:
        return None
    return {l.split()[0] for l in out.decode().splitlines() if l.strip()}


def execute(exe, bound=None):
    rc, out, err = run([exe], timeout=60, cpu=20, fsize=1 << 24)
    return rc, out


def first_difference(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    k = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
    return "line %d: expected %s got %s" % (k, la[k:k + 1], lb[k:k + 1])


class Linkage:
    def __init__(self, c):
        self.c, self.cc, self.lock = c, build_cc(), threading.Lock()
        self.rt = os.path.join(scratch(), "rt13.o")
        rc, out, err = run(["gcc", "-w", "-fno-pie", "-c", os.path.join(VERIF, "rt/rt13.c"), "-o", self.rt])
        if rc != 0:
            raise CannotAnswer("rt13.c: %s" % err)

    def compile_cc(self, src, o, mode, flags):
        if mode == "c":
            return run([self.cc] + flags + ["-c", src, "-o", o], timeout=60, cpu=40)
        rc, out, err = run([self.cc] + flags + ["-S", src, "-o", o + ".s"], timeout=60, cpu=40)
        if rc != 0:
            return rc, out, err
        return run(["gcc", "-c", o + ".s", "-o", o], timeout=60)

    def bad(self, what, files, key):
        with self.lock:
            self.c.violation(what, files, key=key)

    def one(self, i):
        if len(self.c.violations) >= 8:
            return
        d = os.path.join(scratch(), "p%d" % i)
        os.makedirs(d)
        try:
            self.program(i, d)
        finally:
            if not os.environ.get("VT_KEEP"):
                shutil.rmtree(d, ignore_errors=True)

    def program(self, i, d):
        c = self.c
        r = c.rng("tu", i)
        srcs = gentu.Gen(r).tus()
        names = ["t%d.c" % k for k in range(len(srcs))]
        files = dict(zip(names, srcs))
        P = lambda n: os.path.join(d, n)
        for n, t in files.items():
            with open(P(n), "w") as f:
                f.write(t)
        with self.lock:
            if i == 0:
                c.sample("\n/* ---- */\n".join(srcs)[:3000])
            c.count(programs=1, files=len(srcs))
        # reference, and the judge of undefined behaviour
        objs = []
        for n in names:
            for cc, x in ((GCC, ".g.o"), (GCC + TRAP, ".u.o")):
                rc, out, err = run(cc + ["-c", P(n), "-o", P(n + x)], timeout=60)
                if rc != 0:
                    with self.lock:
                        c.count(reference_rejected=1)
                        if os.environ.get("VT_DEBUG"):
                            print("GCC", i, err.decode()[:500])
                    return
        ref = None
        for x in (".u.o", ".g.o"):
            if run(["gcc", "-no-pie"] + [P(n + x) for n in names] + [self.rt, "-o", P("ref")], timeout=60)[0] != 0:
                with self.lock:
                    c.count(reference_rejected=1)
                return
            got = execute(P("ref"))
            if got[0] != 0 or (ref is not None and got != ref):
                with self.lock:
                    c.count(outside_language=1)
                return
            ref = got
        # under test
        mode = r.choice(["c", "c", "S"])
        flags = r.choice([[], [], ["-fcmodel=large"]])
        for n in names:
            rc, out, err = self.compile_cc(P(n), P(n + ".c.o"), mode, flags)
            if rc != 0:
                m = " ".join((out + err).decode(errors="replace").split())
                return self.bad("valid program rejected (%s, rc=%s): %s" % (n, rc, m[-400:]), files, "reject:" + m[-60:])
            a, b = globals_of(P(n + ".c.o")), globals_of(P(n + ".g.o"))
            with self.lock:
                c.evaluations += 1
                c.count(symbol_tables=1, global_symbols=len(b or ()))
            if a != b:
                return self.bad("%s: external definitions: expected %s got %s (%s %s)" % (n, sorted(b - (a or set())), sorted((a or set()) - b), mode, flags), files, "sym%d" % i)
        mixes = [[True] * len(names)]
        for _ in range(2):
            m = [r.random() < .5 for _ in names]
            if any(m) and m not in mixes:
                mixes.append(m)
        for m in mixes:
            objs = [P(n + (".c.o" if k else ".g.o")) for n, k in zip(names, m)]
            r.shuffle(objs)
            rc, out, err = run(["gcc", "-no-pie"] + objs + [self.rt, "-o", P("mix")], timeout=60)
            who = " ".join("%s:%s" % (n, "cc" if k else "gcc") for n, k in zip(names, m))
            if rc != 0:
                return self.bad("objects do not link (%s; %s %s): %s" % (who, mode, flags, err.decode(errors="replace")[-500:]), files, "link%d" % i)
            got = execute(P("mix"))
            with self.lock:
                c.evaluations += 1
                c.count(events=ref[1].count(b"\n"), linked_programs=1)
                c.nontrivial.add(hash((i, tuple(m))))
            if got != ref:
                if got[0] is None and execute(P("mix"))[0] is None and ref[0] is not None:
                    return self.bad("program does not end (%s; %s %s)" % (who, mode, flags), files, "end%d" % i)
                return self.bad("program behaves differently (%s; %s %s): exit %s, %s" % (who, mode, flags, got[0], first_difference(ref[1], got[1])), files, "diff%d" % i)


def check(c):
    c.rule = "programs of 2-4 files sharing names in every way, linked from any mix of objects of the compiler and gcc; each event of the run is compared"
    c.assumptions = ["gcc's objects (-fno-common) are the reference; programs whose reference runs trap or differ are not judged"]
    l = Linkage(c)
    common.pmap(l.one, range(c.n(260, 6000)))
    c.min_nontrivial = 100 if not os.environ.get("VT_SCALE") else 1


if __name__ == "__main__":
    main("C13", check)
