"""C14: executables written by the built-in linker behave as those of the system linker;
undefined and duplicate symbols are errors."""
import os, shutil, threading
from . import common, gentu
from .common import run, scratch, build_cc, main, VERIF, CannotAnswer
from .c13 import GCC, TRAP, execute, first_difference, Linkage


class Link(Linkage):
    def __init__(self, c):
        super().__init__(c)
        self.start = os.path.join(scratch(), "start.o")
        rc, out, err = run(["as", os.path.join(VERIF, "rt/start.s"), "-o", self.start])
        if rc != 0:
            raise CannotAnswer("start.s: %s" % err)
        self.rt14 = os.path.join(VERIF, "rt/rt14.c")

    def program(self, i, d):
        c = self.c
        r = c.rng("link", i)
        srcs = gentu.Gen(r, ntu=r.choice([1, 2, 3, 4, 6])).tus()
        if r.random() < .15:  # a big file: offsets and tables beyond a page
            srcs.append("void out(unsigned long);\nstatic char big%d[%d] = { 1, 2 };\nint table%d[] = { %s };\nint bigf%d(int x) { out(big%d[x]); return table%d[x]; }\n" % (
                i, r.choice([70000, 300000]), i, ", ".join(str(r.randint(0, 9999)) for _ in range(r.choice([1500, 9000]))), i, i, i))
            srcs[0] = srcs[0].replace("int main(void) {\n", "int bigf%d(int);\nint main(void) {\n\tout(bigf%d(1)); out(bigf%d(1400));\n" % (i, i, i))
        case = r.choice(["ok", "ok", "ok", "ok", "ok", "missing", "double"])
        if case == "double":
            a, b = r.randrange(len(srcs)), "twice.c"
            extra = r.choice(["int fuel = 3;\n", "int fuel;\n", "int main(void) { return 3; }\n", "void fuel(void) { }\n", "char out[4];\n"])
        names = ["t%d.c" % k for k in range(len(srcs))]
        files = dict(zip(names, srcs))
        if case == "double":
            files[b] = extra
            names.append(b)
        P = lambda n: os.path.join(d, n)
        for n, t in files.items():
            with open(P(n), "w") as f:
                f.write(t)
        if case == "missing":
            if len(names) == 1:
                case = "ok"
            else:
                names.remove(r.choice(names))
        with self.lock:
            if i == 0:
                c.sample("\n/* ---- */\n".join(srcs)[:3000])
            c.count(programs=1, files=len(srcs), **{"case_" + case: 1})
        flags = r.choice([[], [], ["-fcmodel=large"]])
        # the inputs: sources and objects of the compiler, in any order
        inputs, objs = [], []
        for n in names + ["rt14.c"]:
            src = P(n) if n != "rt14.c" else self.rt14
            o = P(n + ".c.o")
            rc, out, err = self.compile_cc(src, o, "c", flags)
            if rc != 0:
                m = " ".join((out + err).decode(errors="replace").split())
                return self.bad("valid program rejected (%s, rc=%s): %s" % (n, rc, m[-400:]), files, "reject:" + m[-60:])
            objs.append(o)
            inputs.append(o if r.random() < .4 else src)
        inputs.append(self.start)
        r.shuffle(inputs)
        if case == "ok" and r.random() < .25:
            # fewer inputs: some of the objects have been combined before
            allobjs = objs + [self.start]
            r.shuffle(allobjs)
            n = r.choice([1, 2, 2, 3])
            groups = [allobjs[k::n] for k in range(n) if allobjs[k::n]]
            inputs = []
            for k, g in enumerate(groups):
                if len(g) > 1:
                    o = P("group%d.o" % k)
                    rc, out, err = run(["ld", "-r", "-o", o] + g, timeout=60)
                    if rc != 0:
                        return self.bad("objects can't be combined by ld -r: %s" % err.decode(errors="replace")[-300:], files, "ldr")
                    g = [o]
                inputs += g
            with self.lock:
                c.count(**{"combined_into_%d" % n: 1})
        ld = run(["ld", "-static", "-o", P("ld")] + objs + [self.start], timeout=60)
        rc, out, err = run([self.cc] + flags + inputs + ["-o", P("exe")], timeout=60, cpu=40)
        msg = " ".join((out + err).decode(errors="replace").split())[-300:]
        with self.lock:
            c.evaluations += 1
            c.nontrivial.add(hash((i, case)))
        if ld[0] != 0:
            with self.lock:
                c.count(link_errors=1)
            if rc != 1:
                return self.bad("link with %s symbols: exit status %s, the system linker says: %s" % (case, rc, ld[2].decode(errors="replace")[-300:]), files, "err%d" % i)
            if os.path.exists(P("exe")):
                return self.bad("a failed link leaves an executable (%s)" % msg, files, "left%d" % i)
            return
        if rc != 0:
            return self.bad("link fails (rc=%s): %s" % (rc, msg), files, "link:" + msg[-50:])
        ref = execute(P("ld"))
        os.chmod(P("exe"), 0o755)
        got = execute(P("exe"))
        with self.lock:
            c.count(events=ref[1].count(b"\n"), executables=1)
        if ref[0] is None or ref[0] < 0:
            with self.lock:
                c.count(outside_language=1)
            return
        if got != ref:
            return self.bad("executable behaves differently from the system linker's (inputs %s %s): exit %s expected %s, %s" % (
                [os.path.basename(x) for x in inputs], flags, got[0], ref[0], first_difference(ref[1], got[1])), files, "diff%d" % i)
        # and the whole program against gcc
        if case == "ok":
            for n in names:
                if run(GCC + TRAP + ["-c", P(n), "-o", P(n + ".g.o")], timeout=60)[0] != 0:
                    return
            if run(["gcc", "-no-pie"] + [P(n + ".g.o") for n in names] + [self.rt, "-o", P("ref")], timeout=60)[0] != 0:
                return
            g = execute(P("ref"))
            with self.lock:
                c.count(compared_with_gcc=1)
            if g[0] == 0 and g != got:
                return self.bad("executable behaves differently from gcc's: exit %s, %s" % (got[0], first_difference(g[1], got[1])), files, "gcc%d" % i)


def check(c):
    c.rule = "programs of 1-7 files given to the built-in linker as sources and objects in any order; stdout and exit status compared with the system linker's and gcc's executables; undefined and duplicate symbols must be refused"
    c.assumptions = ["GNU ld is the reference for what links; the start-up code and system calls are a GNU as object that uses the relocations the linker documents as implemented"]
    l = Link(c)
    common.pmap(l.one, range(c.n(350, 8000)))
    c.min_nontrivial = 100 if not os.environ.get("VT_SCALE") else 1


if __name__ == "__main__":
    main("C14", check)
