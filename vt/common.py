"""Shared machinery: building the compiler under test, scratch space, verdicts.

Exit status of a check: 0 = held on everything observed, 1 = violation (with a
VIOLATION line), 2 = the check could not give an answer (build failed, nothing
observed, reference tools broken)."""
import atexit, concurrent.futures as cf, hashlib, json, multiprocessing, os, random, re, shutil
import signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
NPROC = int(os.environ.get("VT_JOBS", "8"))
ENV = dict(os.environ, LC_ALL="C", PATH=os.environ.get("PATH", "/usr/bin:/bin"))
for _k in ("CPATH", "C_INCLUDE_PATH", "GCC_EXEC_PREFIX", "LIBRARY_PATH"):
    ENV.pop(_k, None)


class CannotAnswer(Exception):
    pass


def run(cmd, timeout=30, cwd=None, input=None, env=None, cpu=None, fsize=None, nofile=None, stdout=None, mem=None, stack=None):
    """Run a command; returns (rc, out, err); rc None on wall timeout, -N on signal N."""
    def pre():
        import resource
        os.setsid()
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if stack:
            resource.setrlimit(resource.RLIMIT_STACK, (stack, resource.getrlimit(resource.RLIMIT_STACK)[1]))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE if stdout is None else stdout,
                         stderr=subprocess.PIPE, cwd=cwd, env=env or ENV, preexec_fn=pre)
    try:
        o, e = p.communicate(input, timeout=timeout)
        return p.returncode, o or b"", e or b""
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o or b"", e or b""


# ---------------------------------------------------------------- scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vt.", dir=os.environ.get("VT_TMP", "/tmp"))
        pid = os.getpid()

        def clean():
            if os.getpid() == pid and not os.environ.get("VT_KEEP"):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


# ---------------------------------------------------------------- building
SAN_COMMON = ["-g", "-fno-omit-frame-pointer"]
VARIANTS = {
    # the compiler as users have it
    "plain": (["gcc"], ["-O1"], []),
    "plain0": (["gcc"], ["-O0"], []),
    "clang": (["clang"], ["-O2"], []),
    # memory errors + undefined behaviour
    "asan": (["clang"], ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + SAN_COMMON,
             ["-fsanitize=address,undefined"]),
    "gasan": (["gcc"], ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + SAN_COMMON,
              ["-fsanitize=address,undefined"]),
    # reads of uninitialised memory
    "msan": (["clang"], ["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins"] + SAN_COMMON,
             ["-fsanitize=memory"]),
}


def repo_sources():
    out = []
    for d, dn, fs in os.walk(os.path.join(REPO, "src")):
        dn.sort()
        for f in sorted(fs):
            if f.endswith(".c"):
                out.append(os.path.join(d, f))
    return out


def make_config(dst, mingw=False):
    src = open(os.path.join(REPO, "config.def.h")).read()
    src = src.replace('\t"/usr/include/",', '\t"/usr/include/",\n\t"/usr/include/x86_64-linux-gnu/",')
    src = src.replace('"include/linux/"', '"%s/include/linux/"' % REPO)
    if mingw:
        sh = open(os.path.join(REPO, "mingw_build/config.h")).read() if os.path.exists(
            os.path.join(REPO, "mingw_build/config.h")) else None
        src = MINGW_CONFIG % dict(repo=REPO)
    open(dst, "w").write(src)


MINGW_CONFIG = '''static const char *default_include[] = {
	"%(repo)s/include/mingw/",
	"/usr/x86_64-w64-mingw32/include/",
	NULL
};

static const char *default_defs[] = {
	NULL
};

static enum {
	ABI_SYSV,
	ABI_MICROSOFT
} abi = ABI_MICROSOFT;

static int mingw_workarounds = 1;
'''


def pmap(fn, items, workers=None):
    with cf.ThreadPoolExecutor(workers or NPROC) as ex:
        return list(ex.map(fn, items))


_forked = None


def _call(i):
    return _forked[0](_forked[1][i])


def fmap(fn, items, workers=None, chunk=1):
    """pmap in forked processes, for work that is mostly Python; results are pickled back"""
    global _forked
    items = list(items)
    _forked = (fn, items)
    with multiprocessing.get_context("fork").Pool(workers or NPROC) as pool:
        return pool.map(_call, range(len(items)), chunk)


_built = {}


def build_cc(variant="plain", mingw=False):
    """Build the compiler from REPO's working tree into scratch; returns binary path."""
    key = (variant, mingw)
    if os.environ.get("VT_CC") and variant == "plain" and not mingw:
        return os.environ["VT_CC"]  # development aid: a build of one's own, say with coverage
    if key in _built:
        return _built[key]
    d = os.path.join(scratch(), "build-%s%s" % (variant, "-mingw" if mingw else ""))
    os.makedirs(d)
    cfg = os.path.join(d, "config.h")
    make_config(cfg, mingw)
    common = ["-I" + os.path.join(REPO, "src"), "-I" + d, '-DCONFIG_PATH="config.h"', "-w"]
    srcs = repo_sources()
    if variant == "self":
        cc1 = build_cc("plain")
        comp = lambda s, o: [cc1, "-Wall", "-I" + os.path.join(REPO, "src"), "-I" + d,
                             '-DCONFIG_PATH="config.h"', "-c", s, "-o", o]
        link = ["gcc", "-no-pie"]
    else:
        base, cfl, lfl = VARIANTS[variant]
        comp = lambda s, o: base + cfl + common + ["-c", s, "-o", o]
        link = base + lfl

    def one(s):
        o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o")
        rc, out, err = run(comp(s, o), timeout=300)
        return rc, o, out + err
    res = pmap(one, srcs)
    for (rc, o, msg), s in zip(res, srcs):
        if rc != 0:
            raise CannotAnswer("building %s (%s) failed: %s" % (s, variant, msg.decode(errors="replace")[-2000:]))
    exe = os.path.join(d, "cc")
    rc, out, err = run(link + [o for _, o, _ in res] + ["-o", exe], timeout=300)
    if rc != 0:
        raise CannotAnswer("linking %s failed: %s" % (variant, err.decode(errors="replace")[-2000:]))
    _built[key] = exe
    return exe


# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, pid, tier, seed, level="exploration"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.nontrivial_n = 0
        self.samples = []
        self.stats = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.inconclusive = []
        self.rule = ""
        self.replay_dir = os.path.join(VERIF, "replays", pid)
        self._keys = set()
        self.min_nontrivial = 1

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.pid, self.seed, "/".join(map(str, salt))))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        v = thorough if self.thorough else quick
        s = float(os.environ.get("VT_SCALE", "1"))
        return max(1, int(v * s))

    def count(self, **kw):
        for k, v in kw.items():
            self.stats[k] = self.stats.get(k, 0) + v

    def case(self, key=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            if key is None:
                self.nontrivial_n += 1
            else:
                self.nontrivial.add(hashlib.sha1(key if isinstance(key, bytes) else str(key).encode()).digest()[:8])

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def violation(self, desc, files=None, key=None, cmd=None):
        """files: {name: text/bytes}. Saves a replay directory and prints the line."""
        k = key or desc
        if k in self._keys:
            return
        self._keys.add(k)
        self.violations.append(desc)
        if len(self.violations) > 20:
            return
        d = os.path.join(self.replay_dir, "%03d" % len(self.violations))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n, t in (files or {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), "wb") as f:
                f.write(t if isinstance(t, bytes) else str(t).encode())
        with open(os.path.join(d, "README"), "w") as f:
            f.write(desc + "\n" + (("replay: " + cmd + "\n") if cmd else "") +
                    "seed=%d tier=%s\n" % (self.seed, self.tier))
        print("VIOLATION property=%s replay=%s" % (self.pid, d))
        print("  " + desc.replace("\n", "\n  ")[:1500])
        sys.stdout.flush()

    def known_finding(self, what):
        line = "KNOWN-FINDING: property=%s %s" % (self.pid, what)
        if line not in self.known:
            self.known.append(line)
            print(line)

    def finish(self):
        dn = len(self.nontrivial) + self.nontrivial_n
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=dn, rule=self.rule,
                   samples=self.samples, **self.stats)
        if self.inconclusive:
            cov["inconclusive"] = len(self.inconclusive)
            cov["inconclusive_samples"] = self.inconclusive[:5]
        if self.known:
            cov["known_findings_reproduced"] = len(self.known)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            return 1
        if dn < self.min_nontrivial:
            print("ERROR: only %d non-trivial observations (need %d)" % (dn, self.min_nontrivial))
            return 2
        print("OK property=%s evaluations=%d nontrivial=%d inconclusive=%d wall=%.1fs %s" % (
            self.pid, self.evaluations, dn, len(self.inconclusive), time.time() - self.t0,
            {k: v for k, v in self.stats.items() if isinstance(v, (int, float))}))
        return 0


def main(pid, fn, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    c = Check(pid, tier, seed, level={"C29": "fault_enumeration"}.get(pid, "exploration"))
    try:
        fn(c)
        rc = c.finish()
    except CannotAnswer as e:
        print("ERROR: %s" % e)
        if c.violations:
            rc = c.finish()
        else:
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 1 if c.violations else 2
        if c.violations:
            c.finish()
    sys.stdout.flush()
    sys.exit(rc)
