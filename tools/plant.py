#!/usr/bin/env python3
"""Development aid: turn planted bugs described in tools/plants/*.py into seeded/<id>/ after
confirming each one in a scratch copy of a clone of the repository; then try the checks on it.
usage: plant.py [-c] [-f] [ID...]  (default: all that are not there yet; -c: run the property's
check on it; -f: redo).  VT_SRC names the clone (built), default /tmp/wr. Tests and demonstrations
run with the scratch copy mounted over /repo in a mount namespace of their own."""
import json, os, re, shutil, subprocess, sys, tempfile, glob, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VT_SRC", "/tmp/wr")
BASE = "8ded214"
DEMO = '''#!/bin/bash
# Compiles demo.c with bin/cc, links and runs it; it checks itself.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
bin/cc %(flags)s -c "$d/demo.c" -o "$t/demo.o" || exit 1
gcc -no-pie "$t/demo.o" %(extra)s -lm -o "$t/demo" || exit 1
timeout 20 "$t/demo"
'''
SHDEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cc=$PWD/bin/cc
'''


def sh(c, cwd=None, t=900):
    p = subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True, timeout=t, errors="replace", stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout + p.stderr


def inside(wd, c):
    return sh("unshare -m bash -c 'mount --bind %s /repo && cd /repo && %s'" % (wd, c))


def load():
    P = {}
    for f in sorted(glob.glob(V + "/tools/plants/*.py")):
        ns = {}
        exec(open(f).read(), ns)
        for p in ns["PLANTS"]:
            P[p["id"]] = p
    return P


def do(p):
    d = os.path.join(V, "seeded", p["id"])
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        wd = tmp + "/repo"
        sh("cp -a %s %s" % (SRC, wd))
        for f, a, b in p["edits"]:
            s = open(wd + "/" + f).read()
            if s.count(a) != 1:
                return "edit matches %d times: %s" % (s.count(a), a)
            open(wd + "/" + f, "w").write(s.replace(a, b))
        rc, diff = sh("git diff", wd)
        touched = False
        for f in {e[0] for e in p["edits"]}:
            rc, bl = sh("git blame -s HEAD -- %s" % f, wd)
            rc, dd = sh("git diff -U0 %s" % f, wd)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", dd, re.M):
                st, n = int(m[1]), int(m[2] or 1)
                for i in range(st, st + n):
                    if bl.splitlines()[i - 1].lstrip("^").startswith(BASE[:7]):
                        touched = True
        if not touched:
            return "touches no original line"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        for n, t in p.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
        if "demo" in p:
            open(d + "/demo.c", "w").write(p["demo"])
        open(d + "/demo.sh", "w").write(SHDEMO + p["sh"] + "\n" if "sh" in p else DEMO % dict(flags=p.get("flags", ""), extra=p.get("extra", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(d + "/meta.json", "w"), indent=1)
        rc0, o0 = inside(SRC, "bash %s/demo.sh" % d)
        if rc0 != 0:
            return "demo fails on the unchanged tree: %s" % o0[-400:]
        rc, o = sh("make -j8 bin/cc CC=gcc 2>&1", wd)
        if rc != 0:
            return "does not build: " + o[-600:]
        rc1, o1 = inside(wd, "bash %s/demo.sh" % d)
        if rc1 == 0:
            return "demo passes with the change"
        rc, o = inside(wd, "bash /opt/vp/test.sh %s/plant.json" % tmp)
        t = json.load(open(tmp + "/plant.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        missing = [x for x in base["stable"] if x not in t["passed"]]
        if missing:
            return "tests fail: %s" % missing[:5]
        return None
    except Exception as e:
        return repr(e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def attempt(i, prop=None):
    """runs the property's check against the planted bug"""
    d = os.path.join(V, "seeded", i)
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="try.")
    try:
        rc, o = sh("cp -a %s %s/repo && cd %s/repo && git apply %s/patch.diff" % (SRC, tmp, tmp, d))
        if rc:
            return "does not apply"
        t = time.time()
        rc, o = sh("VT_REPO=%s/repo VERIF_SEED=%s VERIF_TIER=quick timeout 900 python3 -m vt.%s" % (tmp, os.environ.get("VERIF_SEED", "1"), prop.lower()), V)
        m = re.search(r"^VIOLATION.*\n(.*)", o, re.M)
        return "%s rc=%d %ds %s" % (prop, rc, time.time() - t, m[1].strip()[:150] if m else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    P = load()
    args = sys.argv[1:]
    flags = [a for a in args if a.startswith("-")]
    args = [a for a in args if not a.startswith("-")]
    want = args or list(P)
    ids = [i for i in want if "-f" in flags or not os.path.exists(os.path.join(V, "seeded", i, "patch.diff"))]
    with ThreadPoolExecutor(3) as ex:
        for i, r in zip(ids, ex.map(lambda i: do(P[i]), ids)):
            if r:
                shutil.rmtree(os.path.join(V, "seeded", i), ignore_errors=True)
            print(i, "OK" if r is None else "REJECTED: " + r)
            sys.stdout.flush()
    if "-c" in flags:
        for i in (args or ids):
            if os.path.exists(os.path.join(V, "seeded", i, "patch.diff")):
                print(i, attempt(i))
                sys.stdout.flush()


main()
