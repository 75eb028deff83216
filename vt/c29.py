"""C29: failed reads and writes are never reported as success.

Every open, read, write and close that a set of compilations makes is made to fail, one at a
time and from one on, by injecting errors with strace; outputs are also directed at full
devices, size limits, directories and missing places. The monitor compares the exit status
with what was written: status 0 is only right when every output is what it is without faults."""
import os, re, shutil, resource, subprocess, signal
from .common import main, build_cc, run, scratch, pmap, ENV
from .corpus import program

LIM = dict(timeout=60, cpu=30)
CALLS = ["open,openat", "read", "write", "close", "lseek", "fstat,newfstatat"]
ERRS = {"open,openat": ["EACCES", "EMFILE", "EIO"], "read": ["EIO", "EISDIR"], "write": ["ENOSPC", "EIO", "EDQUOT"], "close": ["EIO", "ENOSPC"], "lseek": ["EIO"], "fstat,newfstatat": ["EIO"]}


def scenarios(r, big):
    """-> name, files, args, outputs"""
    out = []
    for k in range(9):
        _, prog = program(r)
        if k % 3 == 0:
            prog += "\n" + "\n".join("int big%d(int a, double b) { return a * %d + (int)(b / 3.5) + (a ? big%d(a - 1, b) : 0); } const char *str%d = \"%s\";" % (i, i, i, i, "s" * (i % 50)) for i in range(big))
        files = {"a.c": '#include "h.h"\n#include <sub/i.h>\n' + prog, "h.h": "#pragma once\n#define H 1\nint h_decl(int);\n" + "// filler\n" * r.choice([0, 2000]), "inc/sub/i.h": "#ifndef I\n#define I\n#include \"j.h\"\n#endif\n", "inc/sub/j.h": "typedef int j_t;\n"}
        out.append((files, prog))
    k = 0
    res = []
    for name, args, outs in [("object", ["-c", "a.c", "-o", "a.o"], ["a.o"]), ("assembly", ["-S", "a.c", "-o", "a.s"], ["a.s"]), ("coff", ["-c", "-fabi=ms", "a.c", "-o", "a.o"], ["a.o"]),
                             ("preprocessed", ["-E", "a.c"], ["stdout"]), ("dependencies", ["-c", "-MD", "-MF", "deps", "a.c", "-o", "a.o"], ["a.o", "deps"]), ("default names", ["-S", "-MD", "a.c"], ["a.s", "a.d"]),
                             ("graph", ["-c", "-fdump-ir=g.dot", "a.c", "-o", "a.o"], ["a.o", "g.dot"]), ("two files", ["-c", "a.c", "b.c"], ["a.o", "b.o"]), ("preprocessed dependencies", ["-E", "-MD", "-MF", "deps", "a.c"], ["stdout", "deps"]),
                             ("executable", ["l.c", "-o", "l"], ["l"])]:
        files, prog = out[k % len(out)]
        files = dict(files)
        if name == "two files":
            files["b.c"] = out[(k + 1) % len(out)][0]["a.c"]
        if name == "executable":
            files = {"l.c": "int x = 3; static const char s[5000] = \"abc\"; int add(int a) { return a + x + s[a]; }\nvoid _start(void) { for (;;) x = add(1); }\n"}
        res.append((name, files, args + (["-Iinc"] if name != "executable" else []), outs))
        k += 1
    return res


def place(d, files):
    for f, t in files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)


def observed(d, outs, so):
    return {o: so if o == "stdout" else (open(os.path.join(d, o), "rb").read() if os.path.isfile(os.path.join(d, o)) else None) for o in outs}


def body(c):
    cc = build_cc("plain")
    base = os.path.realpath(scratch())
    jobs = []
    bad = []
    R = c.rng("scen")
    rounds = c.n(1, 8)
    for rd in range(rounds):
        for name, files, args, outs in scenarios(R, c.n(150, 600)):
            d = os.path.join(base, "base-%d-%s" % (rd, name.replace(" ", "_")))
            place(d, files)
            rc, so, se = run([cc] + args, cwd=d, **LIM)
            if rc != 0:
                c.count(baseline_rejected=1)
                continue
            want = observed(d, outs, so)
            if any(not v for v in want.values()):
                c.violation("%s: status 0 without faults, but %s is missing or empty" % (name, [k for k, v in want.items() if not v]), files=files, key="baseline/" + name, cmd="bin/cc " + " ".join(args))
                continue
            log = d + "/trace.log"
            run(["strace", "-y", "-o", log, cc] + args, cwd=d, **LIM)
            text = open(log, errors="replace").read()
            for call in CALLS:
                n = len(re.findall(r"(?m)^(?:%s)\(" % call.replace(",", "|"), text))
                c.count(**{"calls_" + call.split(",")[0]: n})
                idx = list(range(1, n + 1))
                lim = c.n(70, 600)
                if len(idx) > lim:
                    head = idx[:lim // 3]
                    tail = idx[-lim // 3:]
                    idx = head + R.sample(idx[len(head):len(idx) - len(tail)], lim - len(head) - len(tail)) + tail
                for i in idx:
                    for e in ERRS[call] if c.thorough else [R.choice(ERRS[call])]:
                        jobs.append(("inject", name, files, args, outs, want, (call, e, "%d" % i)))
                    if i % 3 == 1:
                        jobs.append(("inject", name, files, args, outs, want, (call, R.choice(ERRS[call]), "%d+" % i)))
            total = max(len(v) for v in want.values())
            sizes = sorted({0, 1, total - 1, total // 2, 4096, 4095} | {R.randrange(total) for _ in range(c.n(4, 30))})
            for s in sizes:
                if s < total:
                    jobs.append(("limit", name, files, args, outs, want, s))
            for o in outs:
                jobs.append(("full", name, files, args, outs, want, o))
                if o != "stdout":
                    for what in ("directory", "missing", "under a file", "dangling"):
                        jobs.append((what, name, files, args, outs, want, o))
            srcs = sorted(files)
            for f in srcs:
                for what in ("source missing", "source directory"):
                    jobs.append((what, name, files, args, outs, want, f))

    def one(j):
        n, (how, name, files, args, outs, want, x) = j
        d = os.path.join(base, "f%d" % n)
        place(d, files)
        args = list(args)
        must = None
        kw = {}
        pre = []
        label = "%s: %s %s" % (name, how, x if isinstance(x, (str, int)) else " ".join(x))
        try:
            if how == "inject":
                call, e, when = x
                pre = ["strace", "-y", "-o", d + "/trace.log", "-e", "trace=" + call, "-e", "inject=%s:error=%s:when=%s" % (call, e, when)]
            elif how == "limit":
                pre = ["sh", "-c", 'trap "" XFSZ; exec "$@"', "sh"]
                kw["fsize"] = x
            elif how == "full":
                if x == "stdout":
                    kw["stdout"] = open("/dev/full", "wb")
                else:
                    os.symlink("/dev/full", os.path.join(d, x))
                must = True
            elif how == "directory":
                os.makedirs(os.path.join(d, x))
                must = True
            elif how in ("missing", "under a file"):
                if x not in args:
                    if x != "g.dot":
                        return "skip",
                    k, new = [i for i, a in enumerate(args) if a.endswith("=" + x)][0], "-fdump-ir=%s/" + x
                else:
                    k, new = args.index(x), "%s/" + x
                args[k] = new % ("not/there" if how == "missing" else "a.c" if "a.c" in files else "l.c")
                must = True
            elif how == "dangling":
                os.symlink("/nonexistent-dir-vt/x", os.path.join(d, x))
                must = True
            elif how == "source missing":
                os.unlink(os.path.join(d, x))
                must = True
            elif how == "source directory":
                os.unlink(os.path.join(d, x))
                os.makedirs(os.path.join(d, x))
                must = True
            lim = dict(LIM)
            lim.update(kw)
            rc, so, se = run(pre + [cc] + args, cwd=d, **lim)
            if "stdout" in kw:
                kw["stdout"].close()
                so = b""
            if rc is None:
                return "timeout",
            hit = 1
            line = ""
            if how == "inject":
                t = open(d + "/trace.log", errors="replace").read() if os.path.exists(d + "/trace.log") else ""
                inj = [l for l in t.split("\n") if "(INJECTED)" in l]
                hit = len(inj)
                line = inj[0][:160] if inj else ""
                # data or the report of its fate is lost
                for l in inj:
                    if re.match(r"write\(\d+<%s" % re.escape(d), l) or re.match(r"close\(\d+<%s/(%s)>" % (re.escape(d), "|".join(re.escape(o) for o in outs)), l):
                        must = True
                if not hit:
                    return "miss",
            # outputs that could be linked to a device or left out do not count as written
            got = observed(d, outs, so) if how not in ("full", "dangling", "directory", "missing", "under a file") else {}
            desc = None
            if rc == 0:
                diff = [o for o in got if got[o] != want[o]]
                if diff:
                    desc = "%s: status 0, but %s %s" % (label, diff[0], "is missing" if got[diff[0]] is None else "has %d of %d bytes or other contents" % (len(got[diff[0]]), len(want[diff[0]])))
                elif must:
                    desc = "%s: a failure is reported as success" % label
            elif rc < 0 or rc > 127:
                desc = "%s: the compiler is killed (%d)" % (label, rc)
                if how == "inject" and t.count("\n") < 12 and "a.c" not in t and "l.c" not in t:
                    desc = None  # the dynamic linker could not start the program
            if desc:
                return "bad", desc + "  " + line, files, " ".join(pre + ["bin/cc"] + args), "%s/%s/%s" % (name, how, x if isinstance(x, str) else x[0] if isinstance(x, tuple) else "")
            return "ok", label, how, rc == 0, hit
        finally:
            shutil.rmtree(d, ignore_errors=True)

    for res in pmap(one, list(enumerate(jobs))):
        if res[0] == "ok":
            c.case(key=res[1])
            c.count(**{"faults_" + res[2].replace(" ", "_"): 1, "survived" if res[3] else "reported": 1})
            c.sample(res[1])
        elif res[0] == "timeout":
            c.inconclusive.append("timeout")
        elif res[0] in ("skip", "miss"):
            c.count(**{res[0]: 1})
        else:
            if os.environ.get("VT_DEBUG"):
                print("BAD", res[1][:300])
            c.violation(res[1], files=res[2], key=res[4], cmd=res[3])
    c.rule = "one case per fault that was actually delivered to the compiler"
    c.assumptions = ["an error injected by strace stands for the same error from the kernel", "faults in the dynamic linker before the program starts are not the compiler's"]
    c.min_nontrivial = 300


if __name__ == "__main__":
    main("C29", body)
