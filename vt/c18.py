"""C18: the compiler compiled by itself behaves as the one compiled by gcc: same
status, messages and output bytes for the same input."""
import os, shutil
from .common import main, build_cc, run, scratch, pmap, make_config, ENV, CannotAnswer
from .jobs import Jobs, place, outputs, text

LIMITS = dict(timeout=120, cpu=60, fsize=1 << 28, stack=1 << 30)


def outcome(cc, d, files, args):
    rc, out, err = run([cc] + args, cwd=d, **LIMITS)
    o = outputs(d, files)
    o["status"] = b"%d" % (rc if rc is not None else -999)
    o["messages"] = text(out, err)
    return rc, o


def check(c):
    c.rule = ("random valid and invalid programs, the compiler's own sources and its tests, in every output mode, given to the compiler built by gcc and to the compiler built by that one from its own source; "
              "non-trivial = distinct non-empty outputs or diagnostics compared")
    ref = build_cc("plain")
    try:
        own = build_cc("self")
    except CannotAnswer as e:
        c.violation("the compiler does not compile itself: %s" % e, {}, key="self build")
        return
    jobs = Jobs(c)
    base = os.path.join(scratch(), "d")
    cfg = os.path.join(scratch(), "cfgsrc")
    os.makedirs(cfg)
    make_config(os.path.join(cfg, "config.h"))

    def one(item):
        fam, i = item
        kind, files, args = getattr(jobs, fam)(i)
        root = os.path.join(base, "%s-%d" % (fam, i))
        try:
            o = []
            for n, exe in (("ref", ref), ("own", own)):
                d = os.path.join(root, n, "d")
                place(d, files)
                if kind == "own":
                    shutil.copytree(cfg, os.path.join(d, "cfg"))
                o.append(outcome(exe, d, files, args))
            (r1, a), (r2, b) = o
            if r1 in (None, -9, -24):
                return ("slow", fam, None, None, None)
            if a != b and r1 is not None and r1 < 0:
                return ("refcrash", fam, None, None, None)
            if a != b:
                n = sorted(x for x in set(a) | set(b) if a.get(x) != b.get(x))
                f = dict(files)
                f.update({"gcc-built-" + x: v for x, v in a.items()})
                f.update({"self-built-" + x: v for x, v in b.items()})
                return ("bad", "%s input: %s differs between the gcc-built and the self-compiled compiler (status %s, %s); args %s" % (kind, ", ".join(n), r1, r2, " ".join(args)), f, (kind, tuple(n), r2), None)
            return ("ok", kind, 1, hash(b"".join(v for k, v in sorted(a.items()) if k != "status")), r1)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    work = [("own", i) for i in range(c.n(2 * len(jobs.srcs), 4 * len(jobs.srcs)))] + [("test", i) for i in range(c.n(2 * len(jobs.tests), 8 * len(jobs.tests)))]
    work += [("valid", i) for i in range(c.n(800, 12000))] + [("invalid", i) for i in range(c.n(1200, 25000))]
    for st, what, a, b, rc in pmap(one, work):
        if st == "bad":
            c.violation(what, a, key=str(b))
        elif st != "ok":
            c.inconclusive.append(st + " " + what)
        else:
            c.evaluations += 1
            c.nontrivial.add(b)
            c.count(**{"inputs_" + what: 1, "accepted" if rc == 0 else "rejected": 1})
    c.sample({"gcc_built": "plain", "self_built_from": "src/*.c"})
    c.min_nontrivial = 500


if __name__ == "__main__":
    main("C18", check)
