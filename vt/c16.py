"""C16: whatever it is given, the compiler ends with a status and a message.

An AddressSanitizer + UndefinedBehaviorSanitizer build of the compiler runs on
hostile inputs: mutated programs (token and byte level), truncations, splices of
two programs, a list of small invalid programs in several contexts, raw bytes, and
random command lines. The monitors: sanitizer reports (own exit status), signals,
exit status, presence of a message on failure and of the output on success, CPU
time."""
import os, re, shutil, threading
from .common import main, build_cc, run, scratch, pmap, REPO, ENV
from .seeds16 import SEEDS, SNIPPETS

SANENV = dict(ENV, ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=3000:hard_rss_limit_mb=4000",
              UBSAN_OPTIONS="print_stacktrace=1:exitcode=99:halt_on_error=1")
TOK = re.compile(rb'''[ \t]+|\n|[A-Za-z_]\w*|\.?\d(?:[eEpP][+-]|[\w.])*|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|//[^\n]*|/\*.*?\*/|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|##|.''', re.S)
WORDS = [b"int", b"char", b"void", b"struct", b"union", b"enum", b"static", b"extern", b"typedef", b"const", b"unsigned", b"double", b"float", b"long", b"short", b"_Bool", b"return", b"if", b"else", b"for",
         b"while", b"do", b"switch", b"case", b"default", b"goto", b"break", b"continue", b"sizeof", b"_Alignof", b"_Alignas", b"_Generic", b"_Static_assert", b"inline", b"_Noreturn", b"register", b"volatile", b"restrict",
         b"(", b")", b"[", b"]", b"{", b"}", b";", b",", b":", b"?", b"=", b"+", b"-", b"*", b"/", b"%", b"&", b"|", b"^", b"~", b"!", b"<", b">", b".", b"->", b"++", b"--", b"<<", b">>", b"&&", b"||", b"+=", b"...", b"#", b"##", b"\n", b"\n#",
         b"0", b"1", b"-1", b"2147483648", b"9223372036854775807", b"18446744073709551615u", b"1.5", b"1e400", b"'a'", b'"abc"', b"L'x'", b'L"x"', b'u8"y"', b"x", b"s", b"f", b"p", b"a", b"__func__", b"__LINE__", b"__VA_ARGS__", b"defined",
         b"#define ", b"#if ", b"#endif\n", b"#include ", b"#undef ", b"#line ", b"__builtin_va_arg", b"__builtin_offsetof", b"__attribute__((packed))", b"asm", b"(int)", b"(struct s)", b"(void)", b"{}", b"[0]", b"[n]", b"()", b"(void)0", b"NULL"]
MODES = [["-S"], ["-c"], ["-c"], ["-S", "-fcmodel=large"], ["-c", "-fabi=ms"], ["-S", "-fabi=ms"], ["-E"], ["-c", "-fcmodel=large"], ["-c", "-MD"], ["-S", "-fdump-ir=dot"], ["-S", "-fdebug-stack-size"], ["-c", "-fmingw-workarounds", "-fabi=ms"]]
CONTEXT = [b"%s", b"%s", b"%s\n", b"int before; %s int after;", b"int f(int n) { %s ; return n; }", b"#define M %s\nint q(void) { M; }", b"struct w { %s };", b"int z = %s;", b"int g(int a, %s);", b"int f(int n) { return n + %s; }", b"#if %s\n#endif\n", b"int f(int n) { if (n) { %s } for (;n;) { } return 1; }"]


def mutate(r, toks, other):
    toks = list(toks)
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5, 9])):
        n = len(toks)
        if not n:
            break
        p = r.random()
        i = r.randrange(n)
        if p < .2:
            del toks[i]
        elif p < .3:
            j = min(n, i + r.randint(1, 12))
            del toks[i:j]
        elif p < .42:
            toks[i] = r.choice(WORDS)
        elif p < .54:
            toks.insert(i, b" " + r.choice(WORDS) + b" ")
        elif p < .62:
            j = r.randrange(n)
            toks[i], toks[j] = toks[j], toks[i]
        elif p < .70:
            j = min(n, i + r.randint(1, 8))
            k = r.randrange(n)
            toks[k:k] = toks[i:j]
        elif p < .80 and other:
            j = r.randrange(len(other))
            toks[i:i + r.randint(0, 4)] = other[j:j + r.randint(1, 15)]
        elif p < .88:
            j = r.randrange(n)
            toks[i] = b" " + toks[j]
        elif p < .91:
            del toks[i:]
        elif p < .94:
            b = bytearray(toks[i])
            if b:
                b[r.randrange(len(b))] = r.randrange(256)
            toks[i] = bytes(b)
        elif p < .97:
            toks[i] = toks[i] * r.choice([2, 3, 40])
        else:
            toks[i] = b" " + r.choice(SNIPPETS).encode("latin-1") + b" "
    return b"".join(toks)


def signature(rc, text):
    """groups reports: kind of error and the innermost frames of the compiler"""
    kind = ""
    m = re.search(r"AddressSanitizer: ([\w-]+)", text) or re.search(r"runtime error: ([^\n]{0,60})", text) or re.search(r"(Assertion [^\n]{0,80})", text)
    if m:
        kind = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))
    fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+)", text) if not f.startswith("_") and "interceptor" not in f]
    return "%s %s %s" % (rc, kind, " < ".join(fr[:3]))


def corpus(r):
    out = [s.encode() for s in SEEDS]
    from .genflow import FlowGen
    return out


class R:
    def __init__(self, c):
        self.c = c
        self.asan, self.plain = build_cc("asan"), build_cc("plain")
        self.lock = threading.Lock()
        self.sigs = {}

    def judge(self, d, files, args, tag, timeout=20):
        """files: name -> bytes, already written into d"""
        for f in os.listdir(d):
            if f not in files:
                p = os.path.join(d, f)
                os.unlink(p) if not os.path.isdir(p) else shutil.rmtree(p)
        rc, out, err = run([self.asan] + args, timeout=timeout + 40, cpu=timeout, cwd=d, env=SANENV, fsize=1 << 28)
        with self.lock:
            self.c.evaluations += 1
            self.c.count(**{"exit_%s" % ("signal" if rc is not None and rc < 0 else rc): 1})
        bad = None
        text = (err + out).decode(errors="replace")
        if rc in (None, -9, -24) or "hard rss limit exhausted" in text:
            rc2, o2, e2 = run([self.plain] + args, timeout=120, cpu=60, cwd=d, fsize=1 << 28, mem=8 << 30)
            if "hard rss limit exhausted" in text and rc2 not in (None, -9, -24):
                rc2 = 0  # needs much memory; that is between the program and the machine
            if rc2 in (None, -9, -24):
                bad = "runs forever (60 s of CPU time)"
                text = "timeout"
            elif rc2 in (0, 1):
                with self.lock:
                    self.c.inconclusive.append("slow or large under the sanitizers: " + tag)
                return
            else:
                rc = rc2
        if bad is None:
            if rc == 0:
                if "-E" not in args and ("-c" in args or "-S" in args) and "-o" in args and not os.path.exists(os.path.join(d, args[args.index("-o") + 1])):
                    bad = "success without output"
            elif rc == 1:
                if not (out + err).strip():
                    bad = "failure without a message"
            else:
                bad = "crash (status %s)" % rc
        if bad:
            sig = signature(rc, text)
            with self.lock:
                n = self.sigs[sig] = self.sigs.get(sig, 0) + 1
            if n == 1:
                m = re.search(r"(ERROR: AddressSanitizer.*|.*runtime error:.*|.*Assertion.*)", text)
                fl = dict(files)
                fl["report.txt"] = text[-6000:]
                self.c.violation("%s: %s [%s] args=%s" % (bad, (m.group(1) if m else text[-200:])[:300], sig, " ".join(args)), fl, key=sig, cmd="(asan build) cc " + " ".join(args))
        elif rc in (0, 1):
            # what was observed: the kind of diagnosis (or acceptance) each input led to
            msg = re.sub(r"[\"'].*|\d+", "", text.split("Compiler source")[0][-120:]) if rc == 1 else "accepted " + tag
            loc = re.search(r"(?:source: |error, )(\S+:\d+)", text)
            with self.lock:
                self.c.nontrivial.add(hash((rc, loc.group(1) if loc else msg)))
                if rc == 1 and "Internal compiler error" in text:
                    self.c.count(internal_errors=1)


def check(c):
    c.rule = ("hostile inputs (mutated and truncated programs, splices, small invalid programs in every context, raw bytes, random option sets) under an ASan+UBSan build of the compiler with its assertions enabled; "
              "non-trivial = distinct outcomes (distinct diagnostic sites of the compiler and acceptances)")
    rr = R(c)
    seeds = corpus(c.rng("corpus"))
    tests = []
    td = os.path.join(REPO, "tests")
    for f in sorted(os.listdir(td)):
        if f.endswith(".c"):
            t = open(os.path.join(td, f), "rb").read()
            t = re.sub(rb'#\s*include\s*<(?!std(arg|def|bool))[^>\n]*>', b"", t)
            tests.append(b"#define assert(x) ((x) ? (void)0 : abort())\nvoid abort(void);\n" + t)
    toks = [TOK.findall(s) for s in seeds]
    ttoks = [TOK.findall(s) for s in tests]
    base = scratch()

    def one(kind):
        def go(i):
            r = c.rng(kind, i)
            d = os.path.join(base, "h%s%d" % (kind, i))
            os.makedirs(d)
            try:
                for k in range(10):
                    mode = r.choice(MODES)
                    args = mode + ["t.c", "-o", "out.o"]
                    if kind == "snip":
                        j = i * 10 + k
                        t = r.choice(CONTEXT) if j >= len(SNIPPETS) else CONTEXT[0]
                        s = SNIPPETS[j % len(SNIPPETS)].encode("latin-1")
                        data = t.replace(b"%s", s)
                    elif kind == "mut":
                        data = mutate(r, r.choice(toks), r.choice(toks + ttoks))
                    elif kind == "tests":
                        data = mutate(r, r.choice(ttoks), r.choice(toks + ttoks))
                    else:
                        n = r.choice([0, 1, 2, 5, 20, 200, 3000])
                        q = r.random()
                        if q < .4:
                            data = bytes(r.randrange(256) for _ in range(n))
                        elif q < .7:
                            data = b"".join(r.choice(WORDS) + b" " for _ in range(n))
                        else:
                            s = bytearray(r.choice(seeds + tests))
                            for _ in range(r.randint(1, 10)):
                                s[r.randrange(len(s))] = r.randrange(256)
                            data = bytes(s)
                    open(os.path.join(d, "t.c"), "wb").write(data)
                    rr.judge(d, {"t.c": data}, args, kind)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        return go

    # every seed as it is in every mode, and every byte in every lexical context
    fixed = [(t, m) for t in seeds for m in MODES] + [(t, MODES[i % len(MODES)]) for i, t in enumerate(tests)]
    bytectx = [b'char *s = "@", t[] = "x@"; int c = \'@\'; char *u = u8"@";', b'char *s = "a\\@";', b"int c = '\\@';", b'int *s = L"@" "\\x@";', b"int x@;", b"int x = 1@;", b"#define X @\nint X;", b"#@\n",
               b"#define S(x) #x\nchar *s = S(@);", b"@", b'#include "@"\n', b"int y; // @\n/* @ */", b"char *s = \"\\u00@0\";", b"#if '@' == 1 || '\\@'\n#endif\n", b"#define C(a,b) a##b\nint C(x,@);"]
    allesc = ";".join("char *s%d = \"a\\%03o\", t%d[] = \"\\x%x\"; int c%d = '\\%o', *w%d = L\"\\%03o\"" % (i, i, i, i, i, i, i, i) for i in range(256)).encode() + b";"
    allraw = b"".join(b'char *s%d = "a%c", t%d[] = "%cb";' % (i, i, i, i) for i in range(1, 256) if i not in b'"\n\\')
    for m in MODES:
        fixed += [(allesc, m), (allraw, m)]
    for b in range(1, 256):
        for j, t in enumerate(bytectx):
            if (b + j + c.seed) % 3 == 0 or c.tier != "quick" or b in (0x7f, 0xff, 0x80, 0x5c, 0x22, 0x27):
                fixed.append((t.replace(b"@", bytes([b])), MODES[(b + j) % len(MODES)] if j else ["-S"]))

    def asis(i):
        d = os.path.join(base, "f%d" % i)
        os.makedirs(d)
        try:
            for data, mode in fixed[i * 20:i * 20 + 20]:
                open(os.path.join(d, "t.c"), "wb").write(data)
                rr.judge(d, {"t.c": data}, mode + ["t.c", "-o", "out.o"], "fixed")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    pmap(asis, range((len(fixed) + 19) // 20))
    pmap(one("snip"), range((len(SNIPPETS) + 9) // 10 + c.n(60, 600)))
    pmap(one("mut"), range(c.n(500, 20000)))
    pmap(one("tests"), range(c.n(60, 2000)))
    pmap(one("raw"), range(c.n(60, 2000)))
    if os.environ.get("VT_DEBUG"):
        for k, v in sorted(rr.sigs.items(), key=lambda x: -x[1]):
            print(v, k)
    c.min_nontrivial = 60


if __name__ == "__main__":
    main("C16", check)
