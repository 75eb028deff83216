"""C20: dependency files name exactly the files that were read.

Random include trees are compiled with dependency output under strace. The files the trace
shows as opened and read, among the files of the tree, are compared with the prerequisites
that make sees in the written rule: make is asked whether the target is out of date after
each file of the tree, one at a time, is touched."""
import os, re, shutil
from .common import main, build_cc, run, scratch, pmap
from .gentree import Tree


def opened(log, root):
    """files below root that were opened for reading successfully"""
    res = set()
    for line in open(log, errors="surrogateescape"):
        m = re.search(r'open(?:at)?\((?:AT_FDCWD, )?"((?:[^"\\]|\\.)*)", (O_RDONLY[^,)]*)[^)]*\)\s*=\s*(\d+)', line)
        if not m:
            continue
        p = m.group(1).encode().decode("unicode_escape")
        p = os.path.realpath(os.path.join(root, p))
        if p.startswith(root + "/") and os.path.isfile(p):
            res.add(p)
    return res


def body(c):
    cc = build_cc("plain")
    base = os.path.realpath(scratch())
    tot = dict(files=0, asked=0)

    def one(j):
        r = c.rng("dep", j)
        t = Tree(r, odd=r.random() < .5, once=True, absolute=r.random() < .3)
        root = "%s/%d" % (base, j)
        os.makedirs(root)
        try:
            return work(r, t, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def work(r, t, root):
        opts = t.write(root)
        mode = r.choice(["-c", "-c", "-S", "-E"])
        outdir = r.choice(["", "out/", "out.d/"])
        if outdir:
            os.makedirs(root + "/" + outdir)
        stem = os.path.basename(t.main)[:-2]
        out = None
        if r.random() < .7 and mode != "-E":
            out = outdir + r.choice([stem, "x", "x.y", "lib obj" if " " in t.main else "obj"]) + r.choice([".o", ".s", ".obj", ""])
        eff = out or (stem + (".s" if mode == "-S" else ".o"))
        mt = mf = None
        if r.random() < .3:
            mt = r.choice(["target", "$(NAME)", "t1 t2", "dir/t.o", "a\\ b"])
        if r.random() < .5:
            mf = outdir + r.choice(["deps", "deps.mk", "x.d", "x y.d"])
        groups = [[mode], ["-MD"], [t.main]] + [opts[k:k + 2] if opts[k] in ("-I", "-D") else [opts[k]] for k in range(len(opts)) if not (k and opts[k - 1] in ("-I", "-D"))]
        if out:
            groups.append(["-o", out])
        if mt:
            groups.append(["-MT", mt] if r.random() < .7 else ["-MT" + mt])
        if mf:
            groups.append(["-MF", mf] if r.random() < .7 else ["-MF" + mf])
        # the include directories keep their order
        inc = [g for g in groups if g[0].startswith("-I")]
        rest = [g for g in groups if not g[0].startswith("-I")]
        r.shuffle(rest)
        for g in inc:
            rest.insert(0, g) if False else None
        pos = sorted(r.randrange(len(rest) + 1) for _ in inc)
        for k, (p, g) in enumerate(zip(pos, inc)):
            rest.insert(p + k, g)
        args = [a for g in rest for a in g]

        gargs = [a for g in inc for a in g] + [a for g in rest if g[0].startswith("-D") for a in g]
        grc, gout, _ = run(["gcc", "-M", "-nostdinc", "-Wfatal-errors", "-fmax-include-depth=40"] + gargs + [t.main], cwd=root, timeout=60)
        before = set(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        rc, so, se = run(["strace", "-f", "-o", root + "/trace.log", "-e", "trace=open,openat", cc] + args, cwd=root, timeout=60, cpu=30)
        if rc is None:
            return "inconclusive", "timeout " + root + repr(args)
        if grc != 0:
            if rc == 0:
                return "bad", "a header that can not be found is not an error: " + " ".join(args), t, args, ""
            return "reject", None
        if rc != 0:
            return "bad", "compilation fails with dependency output: %r" % (so + se)[:300], t, args, ""
        reads = opened(root + "/trace.log", root)
        depname = mf or (re.sub(r"\.[^./]*$", "", eff) if "." in os.path.basename(eff)[1:] else eff) + ".d"
        if not os.path.exists(os.path.join(root, depname)):
            return "bad", "no dependency file %s is written" % depname, t, args, ""
        text = open(os.path.join(root, depname)).read()
        # what make makes of it
        tree = sorted(before)
        old = 1000000000
        for f in tree:
            os.utime(f, (old, old))
        target = {"$(NAME)": "named", "t1 t2": "t2", "a\\ b": "a b"}.get(mt, mt) if mt else eff
        tf = os.path.join(root, target)
        os.makedirs(os.path.dirname(tf), exist_ok=True)
        open(tf, "a").close()
        os.utime(tf, (old + 10, old + 10))
        shutil.copyfile(os.path.join(root, depname), root + "/dep.copy")
        open(root + "/mk.mk", "w").write("NAME = named\n.SUFFIXES:\nall:\n%s:\n\tfalse\ninclude dep.copy\n" % target.replace(" ", "\\ "))
        esc = target
        mrc, mo, me = run(["make", "-rR", "-q", "-f", "mk.mk", esc], cwd=root, timeout=60)
        if mrc != 0:
            return "bad", "make does not find the target %r up to date with its dependency file: status %s %r" % (target, mrc, (mo + me)[:300]), t, args, text
        listed = set()
        for f in tree:
            os.utime(f, (old + 20, old + 20))
            mrc, mo, me = run(["make", "-rR", "-q", "-f", "mk.mk", esc], cwd=root, timeout=60)
            os.utime(f, (old, old))
            if mrc == 1:
                listed.add(os.path.realpath(f))
            elif mrc != 0:
                return "inconclusive", "make"
        reads &= set(os.path.realpath(f) for f in tree)
        ref = None
        if grc == 0:
            # gcc's list, unescaped
            g = gout.decode("utf-8", "surrogateescape").split(":", 1)[1].replace("\\\n", " ")
            g = [x for x in re.split(r"(?<!\\) +|\n", g) if x]
            ref = set(os.path.realpath(os.path.join(root, x.replace("\\ ", " ").replace("\\#", "#").replace("$$", "$"))) for x in g)
        short = lambda s: sorted(os.path.relpath(x, root) for x in s)
        if reads != listed:
            return "bad", "read %s, make depends on %s" % (short(reads), short(listed)), t, args, text
        if ref is not None and ref != listed:
            return "bad", "gcc depends on %s, make depends on %s" % (short(ref), short(listed)), t, args, text
        return "ok", len(tree), len(listed), "%s %d/%d" % (" ".join(args)[:120], len(listed), len(tree)), mode

    n = c.n(800, 9000)
    for res in pmap(one, range(n)):
        if res[0] == "ok":
            c.case(key=res[3], nontrivial=res[2] > 1)
            c.count(programs=1, files_in_trees=res[1], files_read_and_listed=res[2], **{"mode_" + res[4].strip("-"): 1})
            c.sample(res[3])
        elif res[0] == "reject":
            c.count(missing_header_rejected=1)
        elif res[0] == "inconclusive":
            c.inconclusive.append(res[1])
        else:
            _, desc, t, args, text = res
            files = {p: s for p, s in t.files.items()}
            files["dependency-file"] = text
            if os.environ.get("VT_DEBUG"):
                print("BAD", desc, args)
            c.violation(desc, files=files, key=desc[:60], cmd="bin/cc " + " ".join("'%s'" % a for a in args))
    c.rule = "one case per include tree and command line; non-trivial if a header was read"
    c.assumptions = ["strace reports every file the compiler opens", "GNU make's reading of the rule is what users rely on", "file names without backslashes and colons"]
    c.min_nontrivial = 100


if __name__ == "__main__":
    main("C20", body)
