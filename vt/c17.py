"""C17: the output depends on nothing but the input.

Each compilation is repeated under different builds of the compiler, heap contents,
stack and environment sizes, locales, directories, and after other files in the same
command; every output file, message and status has to be the same. A MemorySanitizer
build watches for decisions taken on uninitialised memory."""
import os, re, shutil
from .common import main, build_cc, run, scratch, pmap, make_config, ENV
from .jobs import Jobs, place, outputs, text

MSAN = dict(ENV, MSAN_OPTIONS="exitcode=99:abort_on_error=0")
LIMITS = dict(timeout=90, cpu=40, fsize=1 << 28, stack=1 << 29)


def conditions(r, cc):
    big = "x" * r.randrange(1, 60000)
    out = [
        ("heap filled with 0xa5", cc["plain"], dict(ENV, MALLOC_PERTURB_="165"), None),
        ("heap filled with 0x01", cc["plain"], dict(ENV, MALLOC_PERTURB_="254", GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=4096"), None),
        ("other environment", cc["plain"], dict(ENV, LC_ALL="C.UTF-8", TZ="Asia/Tokyo", HOME="/nonexistent", SOMETHING=big, MALLOC_ARENA_MAX="1"), None),
        ("other directory", cc["plain"], ENV, "some/other/place-%d" % r.randrange(10 ** 6)),
        ("built by gcc -O0", cc["plain0"], dict(ENV, MALLOC_PERTURB_="85"), None),
        ("built by clang -O2", cc["clang"], ENV, None),
    ]
    return r.sample(out, 3)


def outcome(cc, d, files, args, env):
    rc, out, err = run([cc] + args, cwd=d, env=env, **LIMITS)
    o = outputs(d, files)
    o["status"] = b"%d" % (rc if rc is not None else -999)
    o["messages"] = text(out, err)
    return rc, o


def check(c):
    c.rule = ("random valid and invalid programs, the compiler's own sources and its tests, in every output mode; each compiled under a baseline and under other builds, heap contents, environments, directories and "
              "positions in the command, plus a MemorySanitizer build; non-trivial = distinct non-empty outputs or diagnostics compared")
    cc = {k: build_cc(k) for k in ("plain", "plain0", "clang", "msan")}
    jobs = Jobs(c)
    base = os.path.join(scratch(), "d")
    cfg = os.path.join(scratch(), "cfgsrc")
    os.makedirs(cfg)
    make_config(os.path.join(cfg, "config.h"))

    def slow(rc):
        return rc in (None, -9, -24)

    def setup(d, files, kind):
        place(d, files)
        if kind == "own":
            shutil.copytree(cfg, os.path.join(d, "cfg"))

    def one(item):
        fam, i = item
        kind, files, args = getattr(jobs, fam)(i)
        r = c.rng("cond", fam, i)
        root = os.path.join(base, "%s-%d" % (fam, i))
        os.makedirs(root)
        res = dict(done=0)
        try:
            d0 = os.path.join(root, "base")
            setup(d0, files, kind)
            rc, want = outcome(cc["plain"], d0, files, args, ENV)
            if slow(rc):
                return ("slow", fam, None, None, None)
            conds = conditions(r, cc)
            for k, (name, exe, env, sub) in enumerate(conds + [("MemorySanitizer", cc["msan"], MSAN, None)]):
                d = os.path.join(root, sub or "c%d" % k)
                setup(d, files, kind)
                rc2, got = outcome(exe, d, files, args, env)
                if slow(rc2):
                    continue
                bad = None
                if rc2 == 99 and b"MemorySanitizer" in got["messages"]:
                    m = re.findall(rb"#\d+ 0x[0-9a-f]+ in (\w+)", got["messages"])
                    bad = "decision on uninitialised memory in %s" % b" < ".join(m[:3]).decode()
                elif got != want:
                    n = sorted(x for x in set(want) | set(got) if want.get(x) != got.get(x))
                    bad = "%s differs (%s)" % (", ".join(n), name)
                if bad:
                    extra = {"expected-" + x: v for x, v in want.items()}
                    extra.update({"got-" + x: v for x, v in got.items()})
                    return ("bad", "%s input: %s; args %s" % (kind, bad, " ".join(args)), dict(files, **extra), bad, None)
                res["done"] += 1
            data = b"".join(v for k, v in sorted(want.items()) if k != "status")
            return ("ok", kind, res["done"], hash(data), rc)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def two(i):
        kind, files, args = jobs.two(i)
        root = os.path.join(base, "two-%d" % i)
        try:
            setup(os.path.join(root, "both"), files, kind)
            rc, both = outcome(cc["plain"], os.path.join(root, "both"), files, args + ["a.c", "b.c"], ENV)
            alone, msgs = {}, b""
            rcs = []
            for f in ("a.c", "b.c"):
                d = os.path.join(root, f[0])
                setup(d, files, kind)
                r1, o = outcome(cc["plain"], d, files, args + [f], ENV)
                rcs.append(r1)
                alone.update({k: v for k, v in o.items() if k not in ("status", "messages")})
            if slow(rc) or any(slow(x) for x in rcs):
                return ("slow", "two", None, None, None)
            if any(rcs):
                return ("ok", "two", 0, 0, rc)
            diff = [k for k, v in alone.items() if both.get(k) != v]
            if not rc and len(alone) != 2:
                diff.append("number of outputs")
            if rc or diff:
                fl = dict(files)
                fl.update({"together-" + k: v for k, v in both.items()})
                fl.update({"alone-" + k: v for k, v in alone.items() if v})
                return ("bad", "%s differs when compiled together with another file (status %s)" % (diff, rc), fl, "two", None)
            return ("ok", "two", 2, hash(b"".join(alone.values())), 0)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    work = [("valid", i) for i in range(c.n(450, 6000))] + [("invalid", i) for i in range(c.n(600, 12000))] + [("own", i) for i in range(c.n(len(jobs.srcs), 4 * len(jobs.srcs)))]
    work += [("test", i) for i in range(c.n(len(jobs.tests), 4 * len(jobs.tests)))]
    results = pmap(one, work) + pmap(two, range(c.n(150, 1500)))
    for st, what, a, b, rc in results:
        if st == "bad":
            c.violation(what, a, key=b)
        elif st == "slow":
            c.inconclusive.append("slow " + what)
        else:
            c.evaluations += a
            if b:
                c.nontrivial.add(b)
            c.count(**{"inputs_" + what: 1, "comparisons": a, "accepted" if rc == 0 else "rejected": 1})
    c.sample({"modes": "see vt/jobs.py", "conditions": [x[0] for x in conditions(c.rng(0), cc)]})
    c.min_nontrivial = 300


if __name__ == "__main__":
    main("C17", check)
