"""C21: options and include search have their documented effect.

Five monitors: the files a random include tree brings in, in order (against gcc and clang's
search); the macros the command line leaves defined (against a model and gcc fed with the
equivalent directives); the names, kinds and number of the outputs (against a model of the
options); equality of the output over every reordering and respelling of the options; and
the output of -E compiled again (must be what compiling directly gives)."""
import os, re, shutil
from .common import main, build_cc, run, scratch, pmap, REPO
from .gentree import Tree
from .corpus import program

LIM = dict(timeout=60, cpu=30)
MARK = re.compile(rb"int (inc_\d+|main_)")
TOKEN = re.compile(rb'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|[A-Za-z_]\w*|\.?\d(?:[eEpP][+-]|[\w.])*|\S')


def kind(data):
    if data[:4] == b"\x7fELF":
        return {1: "elf object", 2: "executable", 3: "executable"}.get(data[16], "elf?")
    if data[:2] == b"\x64\x86":
        return "coff object"
    if b".text" in data or b".section" in data or b".globl" in data or b".global" in data:
        return "assembly"
    return "other"


def listing(d):
    return {os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs}


def body(c):
    cc = build_cc("plain")
    base = os.path.realpath(scratch())

    def dirfor(*k):
        d = os.path.join(base, "-".join(map(str, k)))
        os.makedirs(d)
        return d

    # ---- include search
    def search(j):
        r = c.rng("search", j)
        t = Tree(r, odd=r.random() < .4, missing=r.random() < .3, absolute=r.random() < .5)
        d = dirfor("s", j)
        opts = t.write(d)
        if r.random() < .1 and opts:
            os.makedirs(d + "/does-not-exist/a.h.d", exist_ok=True)
        refs = []
        for ref in (["gcc", "-E", "-P", "-nostdinc", "-w", "-Wfatal-errors", "-fmax-include-depth=40"], ["clang", "-E", "-P", "-nostdinc", "-w"]):
            rc, out, err = run(ref + opts + [t.main], cwd=d, **LIM)
            refs.append((rc, MARK.findall(out) if rc == 0 else None))
        rc, out, err = run([cc, "-E"] + opts + [t.main], cwd=d, **LIM)
        obj = None
        if rc == 0:
            # the same search when compiling
            rc2, out2, err2 = run([cc, "-c"] + opts + [t.main, "-o", "o.o"], cwd=d, **LIM)
            rc3, nm, _ = run(["nm", "-f", "posix", "o.o"], cwd=d, **LIM)
            obj = (rc2, set(re.findall(rb"(?m)^(inc_\d+|main_) ", nm)))
        shutil.rmtree(d, ignore_errors=True)
        if rc is None or (obj and obj[0] is None):
            return "timeout",
        if refs[0] != refs[1]:
            return "split",
        ref = refs[0]
        if (rc == 0) != (ref[0] == 0):
            return "bad", "search: status %s, the references %s: %r" % (rc, ref[0], (out + err)[-300:]), t.files, "-E " + " ".join(opts) + " " + t.main
        if rc == 0:
            got = MARK.findall(out)
            if got != ref[1]:
                return "bad", "search: the declarations included are %s, the references have %s" % (b" ".join(got), b" ".join(ref[1])), t.files, "-E " + " ".join(opts) + " " + t.main
            if obj != (0, set(ref[1])):
                return "bad", "search: compiled symbols %s, expected %s" % (obj, set(ref[1])), t.files, "-c " + " ".join(opts) + " " + t.main
            return "ok", "search %d files %s" % (len(t.files), " ".join(opts)), len(ref[1])
        return "ok", "search rejected", 0

    # ---- macros
    NAMES = ["A", "BB", "C_1", "NDEBUG", "__linux", "X9", "_q", "unix", "A1"]
    VALUES = ["1", "", "x y", "(1 + 2)", '"a b"', "'c'", "0x1F", "A", "BB+1", "-", "a=b", "==", "BB C_1", "\"\\\"q\"", "#", "1.5e+3", "int", "f(x)", "C_1 A", "/**/", "/* c */ 2", "  3  "]

    def macros(j):
        r = c.rng("macros", j)
        ops = []
        for _ in range(r.randint(1, 6)):
            n = r.choice(NAMES)
            if r.random() < .25:
                ops.append(("U", n, None))
            else:
                ops.append(("D", n, r.choice(VALUES) if r.random() < .7 else None))
        args, text = [], []
        for k, n, v in ops:
            a = n + ("=" + v if v is not None else "")
            args.append(["-" + k + a] if r.random() < .6 else ["-" + k, a])
        # -D in order, the last one stands; -U removes whatever -D there is
        undef = {n for k, n, v in ops if k == "U"}
        last = {n: ("1" if v is None else v) for k, n, v in ops if k == "D"}
        text = ["#undef %s" % n for n in NAMES if n != "__linux"] + ["#undef __linux\n#define __linux 1"]
        for n, v in last.items():
            text.append("#undef %s\n#define %s %s" % (n, n, v))
        for n in undef:
            text.append("#undef %s" % n)
        use = "\n".join("@%s %s @ %s \n#ifdef %s\nyes_%s\n#else\nno_%s\n#endif" % (n.lower(), n, '(%s)' % n, n, n.lower(), n.lower()) for n in NAMES)
        use += "\n#if defined A && !defined BB\nab\n#elif X9 + 0 > 1\nx9\n#endif\n#define STR(x) STR_(x)\n#define STR_(x) #x\n" + "\n".join("STR(%s)" % n for n in NAMES if "'" not in str(last.get(n)) or True) + "\n"
        d = dirfor("m", j)
        open(d + "/m.c", "w").write(use)
        open(d + "/ref.c", "w").write("\n".join(text) + "\n" + use)
        rr = run(["gcc", "-E", "-P", "-undef", "-w", "ref.c"], cwd=d, **LIM)
        r2 = run(["clang", "-E", "-P", "-undef", "-w", "ref.c"], cwd=d, **LIM)
        flat = [a for g in args for a in g]
        cut = r.randint(0, len(args))
        cmd = [a for g in args[:cut] for a in g] + ["m.c"] + [a for g in args[cut:] for a in g]
        k = r.randint(0, len(cmd))
        while k and cmd[k - 1] in ("-D", "-U"):
            k -= 1
        cmd.insert(k, "-E")
        rc, out, err = run([cc] + cmd, cwd=d, **LIM)
        shutil.rmtree(d, ignore_errors=True)
        if rc is None:
            return "timeout",
        if rr[0] != r2[0] or (rr[0] == 0 and TOKEN.findall(rr[1]) != TOKEN.findall(r2[1])):
            return "split",
        if rr[0] != 0:
            return "skip",
        if rc != 0:
            return "bad", "macros: status %s: %r" % (rc, (out + err)[-200:]), {"m.c": use}, " ".join("'%s'" % a for a in cmd)
        a, b = TOKEN.findall(out), TOKEN.findall(rr[1])
        if a != b:
            w = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return "bad", "macros: token %d is %r instead of %r (near %r)" % (w, a[w:w + 3], b[w:w + 3], a[max(0, w - 6):w]), {"m.c": use, "ref.c": "\n".join(text) + "\n" + use}, " ".join("'%s'" % a for a in cmd)
        return "ok", "macros " + " ".join(flat), len(a)

    # ---- outputs
    def outputs(j):
        r = c.rng("outputs", j)
        d = dirfor("o", j)
        files = {}
        stems = r.sample(["a", "b.x", "sub/c", "sub/d.e", "x y", "long-name_1", "sub/deep/q"], r.randint(1, 3))
        for k, s in enumerate(stems):
            files[s + ".c"] = "int f%d(int a) { return a + %d; }\nint g%d = %d;\nconst char *s%d = \"text\";\n" % (k, k, k, k, k)
        mode = r.choice(["-c", "-S", "-c", "-S", "-E"])
        abi = r.choice([None, None, "ms", "sysv"])
        out = None
        if len(stems) == 1 and mode != "-E" and r.random() < .6:
            out = r.choice(["out", "sub dir/o.o", "o.s", "x.c.o", "y.exe"])
        groups = [[mode]] + [[s + ".c"] for s in stems]
        if abi:
            groups.append(["-fabi=" + abi] if r.random() < .5 else ["-f", "abi=" + abi])
        if out:
            groups.append(["-o", out] if r.random() < .5 else ["-o" + out])
            os.makedirs(d + "/sub dir", exist_ok=True)
        for extra in r.sample([["-Wall"], ["-W"], ["-std=c11"], ["-O", "2"], ["-O0"], ["-g"], ["-lm"], ["-l", "c"], ["-L/tmp"], ["-L", "."], ["-fcmodel=large"], ["-fcmodel=small"], ["-DZ=1"], ["-Iinc"], ["-Wno-unused"]], r.randint(0, 4)):
            if not any(g[0].startswith("-fcm") and extra[0].startswith("-fcm") for g in groups):
                groups.append(extra)
        r.shuffle(groups)
        args = [a for g in groups for a in g]
        for f, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, f)) or d, exist_ok=True)
            open(os.path.join(d, f), "w").write(t)
        before = listing(d)
        rc, so, se = run([cc] + args, cwd=d, **LIM)
        new = listing(d) - before
        kinds = {n: kind(open(os.path.join(d, n), "rb").read()) for n in new}
        kept = all(open(os.path.join(d, f)).read() == t for f, t in files.items())
        syms = {}
        for n, k in kinds.items():
            if k == "elf object" or k == "coff object":
                q = run(["nm", "-f", "posix", n], cwd=d, **LIM)
                syms[n] = set(re.findall(rb"(?m)^([fgs]\d) [A-Z] ", q[1]))
            elif k == "assembly":
                syms[n] = set(re.findall(rb"(?m)^([fgs]\d):", open(os.path.join(d, n), "rb").read()))
        shutil.rmtree(d, ignore_errors=True)
        if rc is None:
            return "timeout",
        order = [a for a in args if a.endswith(".c")]
        want = {}
        if mode != "-E":
            for k, s in enumerate(stems):
                n = out or os.path.basename(s) + (".o" if mode == "-c" else ".s")
                want[n] = ("assembly" if mode == "-S" else "coff object" if abi == "ms" else "elf object", {b"f%d" % k, b"g%d" % k, b"s%d" % k})
        cmd = " ".join("'%s'" % a for a in args)
        if rc != 0:
            return "bad", "outputs: status %s %r" % (rc, (so + se)[-200:]), files, cmd
        if not kept:
            return "bad", "outputs: a source file is overwritten", files, cmd
        if set(want) != new:
            return "bad", "outputs: %s written instead of %s" % (sorted(new), sorted(want)), files, cmd
        for n, (k, sy) in want.items():
            if kinds[n] != k:
                return "bad", "outputs: %s is %s instead of %s" % (n, kinds[n], k), files, cmd
            if syms[n] != sy:
                return "bad", "outputs: %s defines %s instead of %s" % (n, syms[n], sy), files, cmd
        if mode == "-E":
            got = re.findall(rb"int f(\d)\(", so)
            exp = [str(stems.index(o[:-2])).encode() for o in order]
            if got != exp:
                return "bad", "outputs: -E prints the files in order %s instead of %s" % (got, exp), files, cmd
        return "ok", "outputs " + cmd, len(want) + 1

    # ---- order and spelling of options
    def orders(j):
        r = c.rng("orders", j)
        t = Tree(r, absolute=False, odd=False)
        _, prog = program(r, size=1) if r.random() < .8 else ("", "int z;\n")
        t.files[t.main] += prog + "\n#ifdef OPT_A\nint opt_a = OPT_A;\n#endif\n#ifndef OPT_B\nint opt_b[OPT_C + 1];\n#endif\n"
        d = dirfor("r", j)
        opts = t.write(d)
        inc, k = [], 0
        while k < len(opts):
            n = 2 if opts[k] in ("-I", "-D") else 1
            inc.append(opts[k:k + n])
            k += n
        ordered = [g for g in inc if g[0].startswith("-I")]
        free = [g for g in inc if not g[0].startswith("-I")] + [["-D", "OPT_A=3"], ["-DOPT_C=4"], ["-U", "OPT_B"], [t.main], ["-o", "result"]]
        free += [r.choice([["-c"], ["-S"], ["-c"]])]
        free += r.choice([[], [["-fabi=ms"]], [["-f", "cmodel=large"]], [["-fcmodel=small"]], [["-fabi=sysv"]]])
        if r.random() < .5:
            free += [["-MD"], ["-MFdep"]]
        noise = [["-Wall"], ["-Wextra"], ["-std=c99"], ["-O", "1"], ["-O3"], ["-L."], ["-W"]]

        def variant(first):
            fs = [list(g) for g in free]
            if not first:
                fs += r.sample(noise, r.randint(0, 3))
                r.shuffle(fs)
            pos = sorted(r.randrange(len(fs) + 1) for _ in ordered) if not first else [0] * len(ordered)
            allg = fs[:]
            for q, (p, g) in enumerate(zip(pos, ordered)):
                allg.insert(p + q, list(g))
            if not first:
                for g in allg:
                    # joined and separate arguments
                    if len(g) == 2 and g[0] != "-f" and r.random() < .5:
                        g[:] = [g[0] + g[1]]
                    elif len(g) == 1 and g[0][:2] in ("-D", "-U", "-I", "-o", "-f") and len(g[0]) > 2 and r.random() < .5:
                        g[:] = [g[0][:2], g[0][2:]]
                    elif len(g) == 1 and g[0][:3] == "-MF" and len(g[0]) > 3 and r.random() < .5:
                        g[:] = ["-MF", g[0][3:]]
            return [a for g in allg for a in g]

        res = []
        for q in range(4):
            args = variant(q == 0)
            for f in ("result", "dep"):
                if os.path.exists(os.path.join(d, f)):
                    os.unlink(os.path.join(d, f))
            rc, so, se = run([cc] + args, cwd=d, **LIM)
            if rc is None:
                shutil.rmtree(d, ignore_errors=True)
                return "timeout",
            res.append((rc, [open(os.path.join(d, f), "rb").read() if os.path.exists(os.path.join(d, f)) else None for f in ("result", "dep")], args))
        shutil.rmtree(d, ignore_errors=True)
        for x in res[1:]:
            if x[:2] != res[0][:2]:
                return "bad", "orders: status %s/%s or output differs between %s and %s" % (res[0][0], x[0], " ".join(res[0][2]), " ".join(x[2])), t.files, " ".join(x[2])
        return "ok", "orders " + " ".join(res[0][2]), 4 if res[0][0] == 0 else 0

    # ---- repeated target options: the last one counts; definitions reach every file
    def lastwins(j):
        r = c.rng("last", j)
        d = dirfor("l", j)
        _, prog = program(r, size=1)
        open(d + "/p.c", "w").write(prog)
        a = [r.choice(["-fabi=ms", "-fabi=sysv", "-fcmodel=large", "-fcmodel=small"]) for _ in range(r.randint(2, 4))]
        fin = [x for i, x in enumerate(a) if not any(y[:5] == x[:5] for y in a[i + 1:])]
        mode = r.choice(["-S", "-c"])
        res = []
        for o in (a, fin):
            rc, so, se = run([cc, mode, "p.c", "-o", "o"] + o, cwd=d, **LIM)
            res.append((rc, open(d + "/o", "rb").read() if rc == 0 else None))
        shutil.rmtree(d, ignore_errors=True)
        if res[0][0] is None or res[1][0] is None:
            return "timeout",
        if res[0] != res[1]:
            return "bad", "last: %s does not give the output of %s" % (" ".join(a), " ".join(fin)), {"p.c": prog}, " ".join(a)
        return "ok", "last " + " ".join(a) + mode, 1 if res[0][0] == 0 else 0

    # ---- -E compiled again
    def twice(j):
        r = c.rng("twice", j)
        d = dirfor("e", j)
        k, prog = program(r)
        t = Tree(r, absolute=False)
        t.files[t.main] += prog
        opts = t.write(d)
        o = r.choice([[], ["-fabi=ms"], ["-fcmodel=large"]])
        mode = r.choice(["-S", "-c"])
        rc, so, se = run([cc, "-E"] + opts + o + [t.main], cwd=d, **LIM)
        r1 = run([cc, mode] + opts + o + [t.main, "-o", "o1"], cwd=d, **LIM)
        ok = None
        if rc == 0 and r1[0] == 0:
            open(d + "/pre.c", "wb").write(so)
            r2 = run([cc, mode] + o + ["pre.c", "-o", "o2"], cwd=d, **LIM)
            if r2[0] != 0:
                ok = r2[0] is not None and "twice: the output of -E is not accepted: %r" % (r2[1] + r2[2])[-200:]
            elif open(d + "/o1", "rb").read() != open(d + "/o2", "rb").read():
                ok = "twice: compiling the output of -E gives something else"
        elif (rc == 0) != (r1[0] == 0) and None not in (rc, r1[0]):
            ok = None if rc == 0 else "twice: -E fails (%s) where compiling succeeds" % rc
        shutil.rmtree(d, ignore_errors=True)
        if rc is None or r1[0] is None or ok is False:
            return "timeout",
        if ok:
            files = dict(t.files)
            files["preprocessed.c"] = so
            return "bad", ok, files, " ".join([mode] + opts + o + [t.main])
        return "ok", "twice %s %s" % (k, " ".join(o + [mode])) + str(j), len(TOKEN.findall(so)) if rc == 0 and r1[0] == 0 else 0

    work = []
    for f, q, t in ((search, 900, 12000), (macros, 700, 9000), (outputs, 500, 6000), (orders, 200, 3000), (lastwins, 100, 1500), (twice, 250, 4000)):
        work += [(f, j) for j in range(c.n(q, t))]

    for (f, j), res in zip(work, pmap(lambda w: w[0](w[1]), work)):
        n = f.__name__
        if res[0] == "ok":
            c.case(key=res[1], nontrivial=res[2] > 0)
            c.count(**{n + "_cases": 1, n + "_observed": res[2]})
            if j < 3:
                c.sample(res[1][:200])
        elif res[0] == "timeout":
            c.inconclusive.append("%s %d" % (n, j))
        elif res[0] in ("split", "skip"):
            c.count(**{n + "_reference_" + res[0]: 1})
        else:
            _, desc, files, cmd = res
            if os.environ.get("VT_DEBUG"):
                print("BAD", desc[:400], "|", cmd[:200])
            c.violation(desc, files=files, key=n + "/" + re.sub(r"\d+", "", desc)[:60], cmd="bin/cc " + cmd)
    c.rule = "one case per generated command line (and tree of files); non-trivial if something was compared"
    c.assumptions = ["gcc and clang search for headers and treat macro definitions as POSIX c99 says, where they agree", "-U wins over -D in any order (POSIX c99)"]
    c.min_nontrivial = 500


if __name__ == "__main__":
    main("C21", body)
