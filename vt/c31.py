"""C31: the system's headers mean the same to programs compiled by this compiler as to the platform's own compilers, and programs calling the library behave the same."""
import collections, json, os, re, threading
from . import common, genlib
from .common import run, scratch, build_cc, main, pmap, REPO
from .diff import REF_CC

# headers of ISO C, POSIX and the platform's library which do not ask for a particular compiler's extensions
HEADERS = ("assert complex ctype errno fenv float inttypes limits locale math setjmp signal stdarg stdbool stddef stdint stdio stdlib string threads time uchar wchar wctype "
           "aio cpio dirent dlfcn fcntl fmtmsg fnmatch ftw grp iconv langinfo libgen monetary mqueue nl_types poll pthread pwd regex sched search semaphore spawn strings syslog tar termios unistd utime wordexp "
           "sys/ipc sys/mman sys/msg sys/resource sys/select sys/sem sys/shm sys/stat sys/statvfs sys/time sys/times sys/types sys/uio sys/utsname sys/wait utmpx ulimit "
           "alloca argz envz err error execinfo features getopt malloc mcheck obstack paths pty shadow sysexits utmp values "
           "sys/eventfd sys/file sys/inotify sys/ioctl sys/mount sys/param sys/poll sys/random sys/sendfile sys/signalfd sys/syscall sys/sysmacros sys/timerfd sys/vfs sys/xattr").split()
FEATURES = [[], [], ["_GNU_SOURCE"], ["_DEFAULT_SOURCE"], ["_POSIX_C_SOURCE=200809L"], ["_XOPEN_SOURCE=700"], ["_XOPEN_SOURCE=500", "_DEFAULT_SOURCE"], ["_FILE_OFFSET_BITS=64"], ["__STDC_WANT_IEC_60559_BFP_EXT__"], ["_POSIX_SOURCE"], ["_ISOC99_SOURCE"]]
GCC = ["gcc", "-std=gnu17", "-w"]
CLANG = REF_CC + ["-std=gnu17", "-w", "-ferror-limit=0"]
# what asks for GNU C: register_t; the sign of NAN is not specified; long double has the representation of double here
OTHER = re.compile(r"^(LDBL_|DECIMAL_DIG$|_)|LDBL|f128|f64x|d(32|64|128)$|_(F32X|F64X|F128|FLT(16|32|64|128)X?)|^FLT(16|32|64|128)X?_|^DEC(32|64|128)_|^FLT_EVAL_METHOD$|^(I|_Complex_I|complex|imaginary|CMPLX[FL]?|NAN)$")
TYPES = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "char *", "const char *"]
LIB = "int printf(const char *, ...);\n#define KIND(x) _Generic((x), %s, default: 0)\n" % ", ".join("%s: %d" % (t, i + 1) for i, t in enumerate(TYPES))


class Unit:
    """A set of headers under feature test macros, and the facts about it that the reference compilers agree on."""
    def __init__(self, c, lock, cc, name, defs, headers):
        self.c, self.lock, self.cc, self.name = c, lock, cc, name
        self.d = os.path.join(scratch(), "h31", name)
        os.makedirs(self.d)
        self.pre = "".join("#define %s\n" % d.replace("=", " ") for d in defs) + "".join("#include <%s.h>\n" % h for h in headers)

    def path(self, n, text=None):
        p = os.path.join(self.d, n)
        if text is not None:
            open(p, "w").write(text)
        return p

    def accepted(self, lines):
        """-> those lines both references accept after the headers"""
        for who in (GCC + ["-fmax-errors=0"], CLANG):
            for _ in range(3):
                p = self.path("a.c", self.pre + LIB + "\n".join(l for _, l in lines) + "\n")
                base = (self.pre + LIB).count("\n") + 1
                rc, out, err = run(who + ["-fsyntax-only", p], timeout=60)
                if rc == 0:
                    break
                bad = {int(x) - base for x in re.findall(r"a\.c:(\d+):", err.decode(errors="replace"))}
                if not bad or min(bad) < 0:
                    return []
                lines = [l for i, l in enumerate(lines) if i not in bad]
            else:
                return []
        return lines

    def outputs(self, name, text, refs=(GCC + ["-O0"], GCC + ["-O2"], CLANG + ["-O0"])):
        """-> list of the references' results, None where one does not compile"""
        p, res = self.path(name + ".c", text), []
        for i, who in enumerate(refs):
            x = self.path("%s.%d" % (name, i))
            rc, out, err = run(who + ["-no-pie", p, "-o", x, "-lm", "-lpthread"], timeout=60)
            if rc != 0:
                if os.environ.get("VT_DEBUG"):
                    print("REFREJ", self.name, err.decode(errors="replace")[:300])
                return None
            res.append(self.outcome(x))
        return res

    def outcome(self, x):
        for t in (30, 120):
            rc, out, err = run([x], timeout=t, cwd=self.d, cpu=20)
            if rc is not None:
                break
        return rc, out

    def mine(self, name):
        """-> (what went wrong, result)"""
        p, o, x = self.path(name + ".c"), self.path(name + ".o"), self.path(name + ".cc")
        for t in (60, 200):
            rc, out, err = run([self.cc, "-c", p, "-o", o], timeout=t, cpu=100)
            if rc is not None:
                break
        if rc is None:
            with self.lock:
                self.c.inconclusive.append("timeout")
            return None, None
        if rc != 0:
            return "rejected (%s): %s" % (rc, " ".join((out + err).decode(errors="replace").split())[-400:]), None
        rc, out, err = run(["gcc", "-no-pie", o, "-o", x, "-lm", "-lpthread"], timeout=60)
        if rc != 0:
            return "the object does not link: %s" % err.decode(errors="replace")[-400:], None
        return None, self.outcome(x)

    def bad(self, what, text, key):
        with self.lock:
            self.c.violation("%s: %s" % (self.name, what), {"t.c": text}, key=key, cmd="cc -c t.c; gcc -no-pie t.o -lm -lpthread")

    # what there is to know ------------------------------------------
    def facts(self):
        pre, E = self.pre, self.path("e.c", self.pre)
        rc, out, err = run(GCC + ["-E", "-dM", E], timeout=60)
        rc0, out0, _ = run(GCC + ["-E", "-dM", "-x", "c", "/dev/null"], timeout=60)
        builtin = set(re.findall(r"#define (\w+)", out0.decode()))
        macros = sorted(m for m in re.findall(r"^#define (\w+) \S", out.decode(errors="replace"), re.M) if m not in builtin and not OTHER.search(m))
        rc, out, err = run([self.cc, "-E", E], timeout=60, cpu=40)
        if rc != 0:
            return None, "rejected (%s): %s" % (rc, " ".join((out + err).decode(errors="replace").split())[-400:])
        seen = set(re.findall(r"[A-Za-z_]\w*", out.decode(errors="replace")))
        rc, out, err = run(CLANG + ["-fsyntax-only", "-Xclang", "-ast-dump=json", E], timeout=100)
        ast = json.loads(out)["inner"] if rc == 0 else []
        lines = [(m, "void f_%s(void) { int x = KIND(%s); }" % (m, m)) for m in macros]
        types, fields, funcs = [], [], []
        for n in ast:
            name = n.get("name", "")
            if n["kind"] == "EnumDecl" and not n.get("isImplicit") and not name.startswith("_"):
                fields += [(None, f["name"]) for f in n.get("inner", []) if f["kind"] == "EnumConstantDecl" and f["name"] in seen]
            if n.get("isImplicit") or name.startswith("_") or not name or name in ("max_align_t", "register_t") or name not in seen:
                continue
            if n["kind"] == "TypedefDecl":
                types.append((name, None))
            elif n["kind"] == "RecordDecl" and n.get("completeDefinition"):
                types.append(("%s %s" % (n["tagUsed"], name), None))
                fields += [("%s %s" % (n["tagUsed"], name), f["name"]) for f in n["inner"] if f["kind"] == "FieldDecl" and f.get("name") and not f.get("isBitfield")]
            elif n["kind"] == "FunctionDecl":
                q = n["type"]["qualType"]
                q = re.sub(r"\s*__attribute__\(\(.*?\)\)", "", q)
                m = re.match(r"([^()]*?)\s*(\(.*\))$", q)
                if m and not re.search(r"Float|__int128|_Nonnull|unnamed|anonymous|\blong double\b|_Complex", q):
                    funcs.append((name, "%s (*)%s" % m.groups()))
        lines += [((t, None, None), "void f_%d(void) { %s x[1]; int y = sizeof(%s); }" % (i, t, t)) for i, (t, _) in enumerate(types)]
        lines += [((t, f, None), "void g_%d(void) { int x = sizeof(((%s *)0)->%s) + __builtin_offsetof(%s, %s); }" % (i, t, f, t, f) if t else "void g_%d(void) { int x = sizeof(%s) + %s; }" % (i, f, f)) for i, (t, f) in enumerate(fields)]
        lines += [((f, None, q), "void h_%d(void) { _Static_assert(_Generic(&%s, %s: 1, default: 0), \"\"); }" % (i, f, q)) for i, (f, q) in enumerate(funcs)]
        return [k for k, _ in self.accepted(lines)], None

    def program(self, facts):
        """the facts as a program that prints them, one line for each, those of macros under #ifdef"""
        macros = [m for m in facts if isinstance(m, str)]
        text = self.pre + LIB + "int main(void) {\n" + "".join("printf(\"%s %%d\\n\", KIND(%s));\n" % (m, m) for m in macros) + "return 0;\n}\n"
        o = self.outputs("k", text, (GCC,))
        if o is None:
            return None
        kinds = {l.split()[0]: int(l.split()[1]) for l in o[0][1].decode().splitlines()}
        out = []
        for m in macros:
            k = kinds.get(m, 0)
            if k == 0:
                continue
            v = "printf(\"%%s\", %s)" % m if k > 14 else "printf(\"%%a\", (double)(%s))" % m if k > 12 else "printf(\"%%llx\", (unsigned long long)(%s))" % m
            out.append("#ifdef %s\nprintf(\"macro %s %%d %%d \", KIND(%s), (int)sizeof(%s)); %s; printf(\"\\n\");\n#endif\n" % (m, m, m, m, v))
            if 3 <= k <= 12 or k == 2:
                # the same value where the preprocessor computes, if it can be used there
                if m not in self.unusable:
                    out.append("#ifdef %s\n#if %s < 0\nprintf(\"if %s negative\\n\");\n#elif %s > 255\nprintf(\"if %s big\\n\");\n#else\nprintf(\"if %s %%d\\n\", %s);\n#endif\n#endif\n" % ((m,) * 7))
        for f in facts:
            if isinstance(f, str):
                continue
            t, m, q = f
            if q:
                out.append("printf(\"function %s %%d\\n\", _Generic(&%s, %s: 1, default: 0));\n" % (t, t, q))
            elif m and t:
                out.append("printf(\"member %s.%s %%d %%d\\n\", (int)sizeof(((%s *)0)->%s), (int)((char *)&((%s *)0)->%s - (char *)0));\n" % (t, m, t, m, t, m))
            elif m:
                out.append("printf(\"constant %s %%d %%lld\\n\", KIND(%s), (long long)%s);\n" % (m, m, m))
            else:
                out.append("printf(\"type %s %%d %%d\\n\", (int)sizeof(%s), (int)_Alignof(%s));\n" % (t, t, t))
        main_, fs = "", ""
        for i in range(0, len(out), 100):
            fs += "static void p%d(void) {\n%s}\n" % (i, "".join(out[i:i + 100]))
            main_ += "\tp%d();\n" % i
        return self.pre + LIB + fs + "int main(void) {\n%s\treturn 0;\n}\n" % main_

    def find_unusable(self, macros):
        """macros with casts, sizeof or constants of enumerations in them do not work in #if"""
        p = self.path("u.c", self.pre + "".join("#if defined %s && (%s) == 1\n#endif\n" % (m, m) for m in macros))
        base = self.pre.count("\n") + 1
        self.unusable = set()
        for who in (GCC + ["-fmax-errors=0", "-Wundef"], CLANG + ["-Wundef"]):
            rc, out, err = run([w for w in who if w != "-w"] + ["-E", p, "-o", "/dev/null"], timeout=60)
            for x in re.findall(r"u\.c:(\d+):", err.decode(errors="replace")):
                i = (int(x) - base) // 2
                if 0 <= i < len(macros):
                    self.unusable.add(macros[i])

    def judge(self):
        facts, why = self.facts()
        rc, out, err = run(GCC + ["-E", self.path("e.c")], timeout=60)
        if re.search(rb"\w\[0\];", out):  # an array without elements is GNU C
            with self.lock:
                self.c.count(need_extensions=1)
            return
        ok = run(GCC + ["-fsyntax-only", self.path("e.c")], timeout=60)[0] == 0 and run(CLANG + ["-fsyntax-only", self.path("e.c")], timeout=60)[0] == 0
        if not ok:
            with self.lock:
                self.c.count(reference_rejected=1)
            return
        if why:
            return self.bad(why, self.pre, "reject:" + re.sub(r"\S*/", "", why)[-60:])
        self.find_unusable([m for m in facts if isinstance(m, str)])
        text = self.program(facts)
        refs = text and self.outputs("t", text)
        if not refs:
            with self.lock:
                self.c.count(reference_rejected=1)
            return
        why, res = self.mine("t")
        if why:
            return self.bad(why, text, "reject:" + re.sub(r"\S*/", "", why)[-60:])
        if res is None:
            return
        if res[0] != 0:
            return self.bad("exit status %s" % res[0], text, "status %s" % self.name)
        tab = [{}, {}, {}, {}]
        for d, o in zip(tab, [r[1] for r in refs] + [res[1]]):
            for l in o.decode(errors="replace").splitlines():
                m = re.match(r"(type .*|function \S+|macro \S+|constant \S+|if \S+|member \S+ ?\S*)( \S+ .*| \S+)$", l)
                w = l.split(" ")
                n = {"macro": 2, "if": 2, "function": 2, "constant": 2}.get(w[0])
                key = " ".join(w[:n]) if n else " ".join(w[:-2])
                d[key] = l
        cnt = collections.Counter()
        for k, l in tab[0].items():
            if tab[1].get(k) != l or tab[2].get(k) != l:
                cnt["references_disagree"] += 1
                continue
            if k not in tab[3]:
                cnt["not_defined_for_other_compilers"] += 1
                continue
            with self.lock:
                self.c.case((self.name, l))
            cnt["facts_" + k.split()[0]] += 1
            if tab[3][k] != l:
                self.bad("%r, the reference compilers have %r" % (tab[3][k], l), text, tab[3][k])
        with self.lock:
            self.c.count(units=1, **cnt)


def library(c, lock, cc, i):
    """programs which call the library"""
    r = c.rng("lib", i)
    u = Unit(c, lock, cc, "library%d" % i, [], [])
    text = genlib.program(r)
    ref = u.outputs("l", text, [["gcc", "-std=gnu17", "-w", "-fwrapv", "-fno-builtin", o] for o in ("-O0", "-O2")] + [REF_CC + ["-std=gnu17", "-w", "-fwrapv", "-fno-builtin"]])
    if not ref or ref[0] != ref[1] or ref[0] != ref[2] or ref[0][0] not in range(100):
        with lock:
            c.count(references_disagree_library=1)
        return
    why, res = u.mine("l")
    if why:
        return u.bad(why, text, "reject:" + why[-60:])
    if res is None:
        return
    with lock:
        c.case(("lib", i))
        c.count(library_programs=1, library_output_bytes=len(res[1]))
        if i == 0:
            c.sample(text[:1500])
    if res != ref[0]:
        a, b = (res[1].decode(errors="replace").split("\n"), ref[0][1].decode(errors="replace").split("\n"))
        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        u.bad("status %s, expected %s; line %d is %r, expected %r" % (res[0], ref[0][0], k, a[k:k + 1], b[k:k + 1]), text, "lib%d" % i)


def check(c):
    c.rule = ("every header of the list alone and random combinations of them under feature test macros: each object-like macro, type, member, enumeration constant and function they declare, as the compiled program sees it "
              "(type, size, value, value in #if), against gcc and clang; random programs calling the library, against gcc and clang; non-trivial = distinct facts and programs")
    cc, lock = build_cc("plain"), threading.Lock()
    jobs = [("alone-" + h.replace("/", "-"), [], [h]) for h in HEADERS]
    for i in range(c.n(40, 600)):
        r = c.rng("combo", i)
        hs = [r.choice(HEADERS) for _ in range(r.choice([2, 3, 5, 9, 16]))]
        if r.random() < .4:
            hs += r.sample(hs, 1)
        jobs.append(("combination-%d" % i, r.choice(FEATURES), hs))
    for j in jobs[:2] + jobs[-2:]:
        c.sample(repr(j))
    pmap(lambda j: Unit(c, lock, cc, *j).judge(), jobs)
    pmap(lambda i: library(c, lock, cc, i), range(c.n(120, 3000)))
    c.min_nontrivial = 3000


if __name__ == "__main__":
    main("C31", check)
