"""Differential execution: generated test functions are compiled by the compiler
under test and by the reference compiler (with undefined-behaviour traps); both
programs run under the event recorder (rt/rt.c) and the event logs are compared
per (test, input vector). A vector on which the reference traps is outside the
language's guarantees and is not judged."""
import os, signal, threading
from . import common
from .common import run, scratch, CannotAnswer, VERIF

# clang -O0 instruments before any folding, so its traps are the judge of what is
# undefined; gcc at -O0 and -O2 has to confirm every disagreement.
REF_CC = ["clang"]
REF_FLAGS = ["-std=gnu17", "-O0", "-w", "-fno-pie", "-fno-strict-aliasing", "-ffp-contract=off", "-fno-builtin"]
CONFIRM = [["gcc", "-std=gnu17", "-O0", "-w", "-fno-pie", "-fwrapv", "-fno-strict-aliasing", "-ffp-contract=off", "-fno-builtin"],
           ["gcc", "-std=gnu17", "-O2", "-w", "-fno-pie", "-fwrapv", "-fno-strict-aliasing", "-ffp-contract=off", "-fno-builtin"]]
UBSAN = ["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=function,vptr,alignment,null,object-size,nonnull-attribute,returns-nonnull-attribute",
         "-fsanitize-trap=all"]
_lock = threading.Lock()
_rt = {}


def rt_object(*flags):
    with _lock:
        if flags not in _rt:
            o = os.path.join(scratch(), "rt%d.o" % len(_rt))
            rc, out, err = run(["gcc", "-O1", "-w", "-fno-pie"] + list(flags) + ["-c", os.path.join(VERIF, "rt/rt.c"), "-o", o])
            if rc != 0:
                raise CannotAnswer("rt.c: " + err.decode())
            _rt[flags] = o
    return _rt[flags]


LEFT = 2000  # the test ended through leave()
RT_DECLS = """void ev(unsigned long long x);
void leave(unsigned long long x);
void evd(double d);
void evf(float d);
void evdp(void *p);
void evfp(void *p);
void evm(void *p, unsigned long long n);
void evs(char *s);
long long in(int k);
int inm(int k, int m);
double ind(int k);
float inf_(int k);
void indp(double *p, int k);
void infp(float *p, int k);
"""


class Test:
    """text: C source using @@ as the test's index; must define void t_@@(int v)."""
    def __init__(self, text, key=None):
        self.text, self.key = text, key or text

    def render(self, i):
        return self.text.replace("@@", str(i))


def parse_log(out):
    d = {}
    ended = False
    for line in out.decode(errors="replace").splitlines():
        if line == "END":
            ended = True
            continue
        p = line.split()
        if len(p) >= 5 and p[0].isdigit():
            d[(int(p[0]), int(p[1]))] = (int(p[2]), int(p[3]), p[4], p[5:])
    return d, ended


class Runner:
    def __init__(self, check, cc, nvec=8, prelude="", ref_flags=(), cc_flags=(), mode="c", ubsan=True,
                 link=(), what="", extra_ref=None, includes=""):
        self.c, self.cc, self.nvec, self.prelude = check, cc, nvec, prelude
        self.ref_flags, self.cc_flags, self.mode, self.ubsan = list(ref_flags), list(cc_flags), mode, ubsan
        self.link, self.what = list(link), what
        self.lock = threading.Lock()
        self.includes = includes
        self.rt = rt_object()
        self.confirm = set()

    # -- steps
    def ref_build(self, src, o):
        return run(REF_CC + REF_FLAGS + (UBSAN if self.ubsan else []) + self.ref_flags + ["-c", src, "-o", o], timeout=120)

    def cc_build(self, src, o, mode=None):
        mode = mode or self.mode
        if mode == "S":
            s = o[:-2] + ".s"
            rc, out, err = run([self.cc] + self.cc_flags + ["-S", src, "-o", s], timeout=60, cpu=40)
            if rc != 0:
                return rc, out, err
            rc, out, err = run(["gcc", "-c", s, "-o", o], timeout=60)
            if rc != 0:
                return rc, b"GNU as: " + out, err
            return rc, out, err
        return run([self.cc] + self.cc_flags + ["-c", src, "-o", o], timeout=60, cpu=40)

    def link_exe(self, o, exe):
        return run(["gcc", "-no-pie", o, self.rt] + self.link + ["-lm", "-o", exe], timeout=60)

    def file_text(self, tests):
        return RT_DECLS + self.prelude + "".join(t.render(i) for i, t in enumerate(tests))

    def text_alone(self, t, idx):
        return RT_DECLS + self.prelude + t.render(idx)

    def exec(self, exe, salt, cap=None):
        cmd = [exe, str(self.nvec), str(salt)]
        if cap:
            cmd += ["-1", str(cap)]
        return run(cmd, timeout=90, cpu=45)

    def do_file(self, tag, tests, salt):
        """Runs one generated file. Thread-safe."""
        d = os.path.join(scratch(), "f-%s" % tag)
        os.makedirs(d)
        try:
            return self._do(d, tests, salt)
        finally:
            if not os.environ.get("VT_KEEP"):
                import shutil
                shutil.rmtree(d, ignore_errors=True)

    def _do(self, d, tests, salt):
        src = os.path.join(d, "t.c")
        text = self.file_text(tests)
        open(src, "w").write(text)
        ro, rexe = os.path.join(d, "r.o"), os.path.join(d, "r")
        rc, out, err = self.ref_build(src, ro)
        if rc != 0:
            # a generator slip: find and drop the offending tests
            good = []
            for i, t in enumerate(tests):
                open(src, "w").write(self.file_text([t]))
                if self.ref_build(src, ro)[0] == 0:
                    good.append(t)
                else:
                    with self.lock:
                        self.c.count(reference_rejected=1)
                        if os.environ.get("VT_DEBUG"):
                            print("REFREJ", err.decode()[:800], t.text)
            if not good or len(good) == len(tests):
                return
            return self._do(d, good, salt)
        rc, out, err = self.link_exe(ro, rexe)
        if rc != 0:
            with self.lock:
                self.c.inconclusive.append("reference link: " + err.decode(errors="replace")[-300:])
            return
        co, cexe = os.path.join(d, "c.o"), os.path.join(d, "c")
        rc, out, err = self.cc_build(src, co)
        if rc != 0:
            self.rejected(d, tests, salt, rc, out + err)
            return
        rc, out, err = self.link_exe(co, cexe)
        if rc != 0:
            with self.lock:
                self.c.violation("object produced by the compiler does not link: " + err.decode(errors="replace")[-600:],
                                 {"t.c": text}, key="link:" + err.decode(errors="replace")[-80:])
            return
        rrc, rout, rerr = self.exec(rexe, salt)
        rlog, rend = parse_log(rout)
        if not rend:
            with self.lock:
                self.c.inconclusive.append("reference run did not end rc=%s" % rrc)
            if len(tests) > 1:
                h = len(tests) // 2
                self._do(d, tests[:h], salt)
                self._do(d, tests[h:], salt)
            return
        rlog = {k: v for k, v in rlog.items() if k[0] < len(tests)}
        faulty = {k[0] for k, v in rlog.items() if v[0] not in (0, LEFT, signal.SIGILL)}
        if faulty:
            # the reference itself misbehaves (it may have damaged the run): judge the other tests only
            with self.lock:
                self.c.count(reference_faults=len(faulty))
            rest = [t for i, t in enumerate(tests) if i not in faulty]
            if rest:
                self._do(d, rest, salt)
            return
        maxev = max([v[1] for v in rlog.values()] + [1000])
        crc, cout, cerr = self.exec(cexe, salt, cap=maxev * 2 + 1000)
        clog, cend = parse_log(cout)
        self.compare(d, tests, salt, rlog, clog, cend, crc)

    def compare(self, d, tests, salt, rlog, clog, cend, crc):
        bad = {}
        with self.lock:
            for (t, v), r in sorted(rlog.items()):
                self.c.evaluations += 1
                if r[0] not in (0, LEFT):
                    self.c.count(vectors_outside_language=1)
                    continue
                if r[1]:
                    self.c.count(events=r[1])
                    self.c.nontrivial.add(hash((tests[t].key, v, r[2])))
                g = clog.get((t, v))
                if g is None:
                    if not cend:
                        bad.setdefault(t, []).append((v, r, None))
                    continue
                if g != r:
                    bad.setdefault(t, []).append((v, r, g))
        for t, l in bad.items():
            self.report(d, tests[t], salt, l, t)

    def rejected(self, d, tests, salt, rc, msg):
        if len(tests) == 1:
            self.report_reject(tests[0], rc, msg)
            return
        good = []
        any_bad = False
        for i, t in enumerate(tests):
            src = os.path.join(d, "one.c")
            open(src, "w").write(self.file_text([t]))
            r, o, e = self.cc_build(src, os.path.join(d, "one.o"))
            if r != 0:
                any_bad = True
                self.report_reject(t, r, o + e)
            else:
                good.append(t)
        if not any_bad:
            with self.lock:
                self.c.violation("valid program rejected (rc=%s): %s" % (rc, msg.decode(errors="replace")[-400:]),
                                 {"t.c": self.file_text(tests)}, key="reject-file")
        elif good:
            self._do(d, good, salt)

    def report_reject(self, t, rc, msg):
        m = " ".join(msg.decode(errors="replace").split())
        with self.lock:
            self.c.violation("valid program %s (rc=%s): %s" % ("rejected" if rc == 1 else "crashes the compiler", rc, m[-500:]),
                             {"t.c": self.file_text([t])}, key="reject:" + m[-60:])

    def confirmers(self):
        """builds that have to agree with the reference before a disagreement is reported"""
        return [lambda s_, o_, f=f: run(f + self.ref_flags + ["-c", s_, "-o", o_], timeout=60) for f in CONFIRM]

    def single(self, d, t, salt, idx):
        """Re-run one test alone, keeping its index so that its inputs stay the same.
        Returns (text, [reference log, log under test, confirming logs...])."""
        text = self.text_alone(t, idx)
        src = os.path.join(d, "s.c")
        open(src, "w").write(text)
        logs = []
        confirm = [(f, "sg%d" % i) for i, f in enumerate(self.confirmers())]
        for build, n in [(self.ref_build, "sr"), (self.cc_build, "sc")] + confirm:
            o = os.path.join(d, n + ".o")
            rc, out, err = build(src, o)
            if rc != 0 and n.startswith("sg"):
                # the confirming compiler does not accept the program
                if os.environ.get("VT_DEBUG"):
                    print("GCCREJ", err.decode()[:400])
                logs.append({})
                continue
            if rc != 0:
                return text, None
            if self.link_exe(o, os.path.join(d, n))[0] != 0:
                return text, None
            logs.append(parse_log(self.exec(os.path.join(d, n), salt)[1])[0])
        return text, logs

    def report(self, d, t, salt, l, idx):
        text, logs = self.single(d, t, salt, idx)
        desc = None
        if logs:
            for k, r in sorted(logs[0].items()):
                g = logs[1].get(k)
                if r[0] == 0 and g != r and all(x.get(k) == r for x in logs[2:]):
                    desc = self.describe(k, r, g)
                    break
            if desc is None and any(r[0] == 0 and logs[1].get(k) != r for k, r in logs[0].items()):
                with self.lock:
                    self.c.count(references_disagree=1)
                    if os.environ.get("VT_DEBUG"):
                        print("REFDISAGREE", t.text)
                return
        with self.lock:
            if desc is None:
                # not reproducible alone: report with the full evidence of the joint run
                v, r, g = l[0]
                desc = "(only in context) " + self.describe((idx, v), r, g)
            self.c.violation((self.what + ": " if self.what else "") + desc, {"t.c": text, "test.c": t.render(idx)},
                             key=t.text,
                             cmd="compile t.c with bin/cc -c and gcc, link each with /verif/rt/rt.c, run with args: %d %d" % (self.nvec, salt))

    def describe(self, k, r, g):
        if g is None:
            return "test %d vector %d: no result (program died)" % k
        if g[0]:
            return "test %d vector %d: signal/abort %d in compiled code, reference finished with %d events" % (k + (g[0], r[1]))
        n = next((i for i, (a, b) in enumerate(zip(r[3], g[3])) if a != b), min(len(r[3]), len(g[3])))
        return "test %d vector %d: event %d differs: expected %s got %s (event counts %d vs %d)" % (
            k + (n, r[3][n] if n < len(r[3]) else "-", g[3][n] if n < len(g[3]) else "-", r[1], g[1]))

    def run_files(self, n_files, gen, per_file=20, tag="x", stop_after=12):
        """gen(rng, j) -> Test"""
        def one(i):
            if len(self.c.violations) >= stop_after:
                return
            rng = self.c.rng(tag, i)
            tests = [gen(rng, j) for j in range(per_file)]
            with self.lock:
                if i == 0:
                    self.c.sample(tests[0].render(0)[:1500])
                self.c.count(programs=1, tests=len(tests))
            try:
                self.do_file("%s%d" % (tag, i), tests, rng.randrange(1 << 31))
            except Exception:
                import traceback
                with self.lock:
                    self.c.inconclusive.append(traceback.format_exc()[-400:])
                    self.c.count(internal_errors=1)
                raise
        common.pmap(one, range(n_files))
