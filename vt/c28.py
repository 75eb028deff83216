"""C28: __LINE__, __FILE__, __func__ and the positions in diagnostics are exact.

Random source layouts hold numbered markers that show the line and file macros; the values are
read from the preprocessed text and from running programs, and compared with gcc and clang where
those two agree. A deliberate error is put at a random point of other layouts, and the file and
line the diagnostic names are compared."""
import os, re, shutil
from .common import main, build_cc, run, scratch, pmap

MARK = re.compile(r'mark\s*\(\s*(\d+)\s*,\s*(\d+)\s*,\s*"((?:[^"\\]|\\.)*)"\s*,')


class Layout:
    def __init__(self, r, error=None):
        self.r, self.k, self.files, self.nm, self.depth = r, 0, {}, 0, 0
        self.error = error           # None or a kind of deliberate error
        self.kinds = set()
        self.main = r.choice(["a.c", "src/m.c", "dir/sub/x y.c", "t-1.c"])
        self.dir = os.path.dirname(self.main)
        n = r.randint(4, 22)
        body = []
        at = r.randrange(n) if error else -1
        where = r.choice(["main", "main", "header"])
        self.err_in_header = error and where == "header"
        for i in range(n):
            if i == at:
                body.append(self.include(err=True) if self.err_in_header else self.err())
            body.append(self.element())
        pre = "".join(self.filler() for _ in range(r.randint(0, 4)))
        nl = "\r\n" if r.random() < .12 else "\n"
        text = (pre + "#define M(k) mark(k, __LINE__, __FILE__, __func__)\n#define ID(...) __VA_ARGS__\n#define PAIR(a, b) a b\n"
                + "#define LN __LINE__\n#define OBJ mark(7777, __LINE__, __FILE__, __func__)\n#define STMT(k) if (1) { M(k); }\n"
                + "void mark(int k, int line, const char *file, const char *fn);\n"
                + "".join(self.filler() for _ in range(r.randint(0, 3)))
                + "int id(int a, int b, int c);\nint %s(int argc, char **argv) {\n" % self.fname() + "".join(body) + "return 0;\n}\n")
        if r.random() < .1:
            text = text.rstrip("\n")
        self.files[self.main] = text
        self.files = {p: s.replace("\n", nl).encode() for p, s in self.files.items()}

    def fname(self):
        self.fn = self.r.choice(["entry", "f", "a_rather_long_name_for_a_function_that_needs_room", "_x9"])
        return self.fn

    def num(self):
        self.k += 1
        return self.k

    def comment(self):
        r = self.r
        k = r.randrange(9)
        return ["/* c */", "/* two\nlines */", "/* a\n\n\nb **/", "/**/", "/* \\\n spliced */", "/* a *\\\n/", "/*\n*\n*/", "/* // */", "/* \" */"][k]

    def filler(self):
        """something without a marker, ends a line"""
        r = self.r
        k = r.randrange(20)
        self.kinds.add("filler%d" % k)
        if k == 0:
            return "\n" * r.randint(1, 5)
        if k == 1:
            return self.comment() + "\n"
        if k == 2:
            return "// to the end\n"
        if k == 3:
            return "// goes \\\non " + ("\\\n\\\n" if r.random() < .4 else "") + "here\n"
        if k == 4:
            self.nm += 1
            return "#define F%d a \\\n  b \\\n c\n" % self.nm
        if k == 5:
            self.nm += 1
            return "#define G%d(x, \\\n  y) /* q\nq */ x \\\n\\\n y\n" % self.nm
        if k == 6:
            return "#if 0\n" + "".join(r.choice(["it's\n", "#else_ish\n", "mark(1, __LINE__)\n", "/* a\n b */\n", "#if 1\nx\n#endif\n", "#error no\n", "a \\\nb\n", "\"str\n"]) for _ in range(r.randint(0, 4))) + "#endif\n"
        if k == 7:
            return "#if 1 \\\n && 1 /* \n */\n\n#else\nno\n\n#endif // x\n"
        if k == 8:
            return "# /* null\ndirective */\n#\n"
        if k == 9:
            if r.random() < .6:
                return r.choice(["#pragma STDC FP_CONTRACT \\\n OFF\n", "#pragma\n", "# pragma GCC poison qqq /*\n*/ qqqq\n", "#pragma vt a ( ' @ \n", "#pragma vt OBJ\n"])
            return "  #  undef /*\n*/ NOT_DEFINED\n"
        if k == 10:
            return " \t \n\f\n" if r.random() < .5 else "\\\n\n\\\n\\\n\n"
        if k == 11:
            return "#ifdef NO_SUCH /* \n */\n x \n#elif 1 + \\\n 1\n\n#endif\n"
        if k == 12:
            return "#ifndef NO_SUCH\n#ifdef NO_SUCH\n\n#endif\n#endif\n"
        if k in (13, 14) and r.random() < .5:
            return self.linedir()
        return "\n"

    def linedir(self):
        r = self.r
        self.kinds.add("linedir")
        k = r.randrange(8)
        n = r.choice([1, 2, 7, 77, 100, 999, 12345, 2147483, r.randint(1, 99999)])
        k = min(k, 6)
        f = r.choice(["zoo.c", "other.h", "/abs/p.c", "with space.c", "sub\\\\win.c", "q.y", "q\\\"q.c", "x"])
        if k == 0:
            return "#line %d\n" % n
        if k in (1, 2):
            return "#line %d \"%s\"\n" % (n, f)
        self.nm += 1
        if k == 3:
            return "#define LD%d %d\n#line LD%d\n" % (self.nm, n, self.nm)
        if k == 4:
            return "#define LD%d %d \"%s\"\n#line LD%d\n" % (self.nm, n, f, self.nm)
        if k == 5:
            return "# line /* a */ %d /* b */ \"%s\" // c\n" % (n, f)
        if k == 6:
            return "#define LF%d(a, b) a b\n#line LF%d(%d, \"%s\")\n" % (self.nm, self.nm, n, f)

    def include(self, err=False):
        r = self.r
        self.nm += 1
        self.kinds.add("include")
        name = r.choice(["h%d.h", "d/h%d.h", "my h%d.inc"]) % self.nm
        self.depth += 1
        olddir = self.dir
        self.dir = os.path.join(self.dir, os.path.dirname(name))
        n = r.randint(0, 5)
        at = r.randrange(n + 1) if err else -1
        deeper = err and self.depth < 4 and r.random() < .3
        t = ""
        for i in range(n + 1):
            if i == at:
                t += self.include(True) if deeper else self.err()
            if i < n:
                t += self.element()
        if r.random() < .3:
            t = t.rstrip("\n")
            if t.endswith("\\"):
                t += "\n"
        self.depth -= 1
        self.dir = olddir
        self.files[os.path.join(self.dir, name)] = t
        if r.random() < .3:
            return "#include /* x\n */ \"%s\" // c\n" % name
        if r.random() < .2:
            return "#define H%d \"%s\"\n#include H%d\n" % (self.nm, name, self.nm)
        return "#include \"%s\"\n" % name

    def element(self):
        r = self.r
        if r.random() < .5:
            return self.filler()
        if self.depth < 3 and r.random() < .12:
            return self.include()
        k = self.num()
        v = r.randrange(27)
        self.kinds.add("marker%d" % v)
        c = self.comment()
        A = "mark(%d, __LINE__, __FILE__, __func__);" % k
        forms = {
            0: A, 1: A, 2: "M(%d);" % k, 3: "M(%d); M(%d);" % (k, self.num()),
            4: c + " " + A, 5: "mark(%d, %s __LINE__, __FILE__, __func__);" % (k, c),
            6: "mark(%d,\n __LINE__,\n\n __FILE__,\n __func__)\n;" % k,
            7: "mark(%d, __LI\\\nNE__, __FILE__, __func__); M(%d);" % (k, self.num()),
            8: "M\n(%d);" % k, 9: "M(\n%d\n);" % k,
            10: "ID(M(%d); M(%d););" % (k, self.num()),
            11: "ID(\nM(%d);\n\nM(%d);\n)" % (k, self.num()),
            12: "PAIR(" + c + " M(%d);, M(%d);)" % (k, self.num()),
            13: "STMT(%d) else { M(%d); }" % (k, self.num()),
            14: "mark(%d, LN, __FILE__, __func__);" % k,
            15: "mark(%d, ID(LN), ID(__FILE__), __func__);" % k,
            16: "id(id(1,2,\n3), 4,\n 5); M(%d); id(1,\n2,3); M(%d);" % (k, self.num()),
            17: "if (1) \\\n\\\n M(%d); \\\n else M(%d);" % (k, self.num()),
            18: "id(sizeof \"a\\\nb\", '\\\na', 3); M(%d);" % k,
            19: "{ " + c + c + " M(%d); }" % k,
            20: "mark(%d, __LINE__, __FILE__ \"\", __func__);" % k,
            21: "mark(%d, __LINE__ /* \\\n\n */, __FILE__, __func__); // \\\n\nM(%d);" % (k, self.num()),
            22: "id(__LINE__ == 3 ? 1 : 2, 3, 4); M(%d);" % k,
            23: "for (int i = 0;\n i < 1; i++)\n M(%d);" % k,
            24: "if (id(0, 0, 0))\n#pragma vt skip\n M(%d);" % k,
            25: "mark(%d,\n#pragma vt M(7)\n __LINE__, __FILE__, __func__);" % k,
            26: "#pragma vt skip\nM(%d); M(%d);" % (k, self.num())}
        return forms[v] + ("\n" if r.random() < .85 else " // end\n")

    def err(self):
        r = self.r
        k = self.error
        c = self.comment()
        pre = r.choice(["", "", c, "id(1,\n2,\n 3); ", " \\\n \\\n", "ID(id)(1,2,3);"])
        if k == "error":
            return r.choice(["#error this one\n", "  # /* a\n */ error x\n", "#error \\\n spliced\n", "#if 1\n#error y\n#endif\n"])
        if k == "undeclared":
            return pre + r.choice(["undeclared_zz;", "id(1, %s undeclared_zz, 3);" % c, "1 + %s undeclared_zz;" % c, "id(1,\n2,\nundeclared_zz);", "return\n\n undeclared_zz;",
                                   "if (undeclared_zz) ;", "undecl\\\nared_zz;", "\"a\\\nb\"; undeclared_zz;"]) + "\n"
        return pre + r.choice(["@;", "struct { int;\n", "}}}};", "int 3;", "goto 5;", "id(1 2);", "else"]) + "\n"


def body(c):
    cc = build_cc("plain")
    base = os.path.realpath(scratch())
    RT = base + "/rt.c"
    open(RT, "w").write(r'''#include <stdio.h>
int id(int a, int b, int c) { (void)b; (void)c; return a; }
void mark(int k, int l, const char *f, const char *fn) { printf("@%d %d %s %s\n", k, l, f, fn); }
int ENTRY(int, char **);
int main(void) { return ENTRY(0, 0); }
''')

    def put(root, L):
        for p, s in L.files.items():
            p = os.path.join(root, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(s)

    def marks(text):
        return MARK.findall(re.sub(r"(?m)^[ \t]*#.*", "", text.decode("latin-1")))

    def values(j):
        r = c.rng("layout", j)
        L = Layout(r)
        root = "%s/%d" % (base, j)
        os.makedirs(root)
        try:
            put(root, L)
            g = run(["gcc", "-E", "-P", L.main], cwd=root, timeout=60)
            k = run(["clang", "-E", "-P", L.main], cwd=root, timeout=60)
            if g[0] != 0 or k[0] != 0:
                return "reject", (g[2] + k[2])[:300]
            gm, km = marks(g[1]), marks(k[1])
            o = run([cc, "-E", L.main], cwd=root, timeout=60)
            if o[0] is None:
                return "inconclusive", "timeout"
            if o[0] != 0:
                return "bad", "layout is not accepted: %r" % (o[1][-200:] + o[2][-200:]), L, ""
            om = [(a, b, os.path.normpath(f)) for a, b, f in marks(o[1])]
            gm = [(a, b, os.path.normpath(f)) for a, b, f in gm]
            km = [(a, b, os.path.normpath(f)) for a, b, f in km]
            if len(gm) != len(km):
                return "reject", "references disagree on the markers"
            agree = [x == y for x, y in zip(gm, km)]
            bad = len(om) != len(gm)
            for x, y, a in zip(gm, om, agree):
                if a and x != y:
                    bad = x, y
                    break
            if bad:
                return "bad", "-E shows %s, gcc and clang show %s" % (bad[1], bad[0]) if bad is not True else "markers missing in the preprocessed text", L, o[1].decode("latin-1")
            ran = 0
            if r.random() < .3:
                gd = {}
                for prog, tag in ((["gcc", "-w", "-O0"], "g"), ([cc], "o")):
                    obj = tag + ".o"
                    a = run(prog + ["-c", L.main, "-o", obj], cwd=root, timeout=60)
                    if a[0] != 0:
                        if tag == "g":
                            return "reject", a[2][:200]
                        return ("bad", "layout does not compile: %r" % (a[1] + a[2])[-200:], L, "") if a[0] is not None else ("inconclusive", "timeout")
                    a = run(["gcc", "-no-pie", "-DENTRY=" + L.fn, RT, obj, "-o", tag], cwd=root, timeout=60)
                    a = run([root + "/" + tag], cwd=root, timeout=30)
                    gd[tag] = [l.decode("latin-1") for l in a[1].splitlines()], a[0]
                if gd["o"][1] != gd["g"][1] or len(gd["o"][0]) != len(gd["g"][0]):
                    return "bad", "the program prints %d markers, expected %d" % (len(gd["o"][0]), len(gd["g"][0])), L, ""
                dis = set(x[0] for x, a in zip(gm, agree) if not a)
                for x, y in zip(gd["g"][0], gd["o"][0]):
                    if x != y and x.split()[0][1:] not in dis:
                        return "bad", "the program shows %r, expected %r" % (y, x), L, ""
                ran = len(gd["o"][0])
            return "ok", sum(agree), len(agree), ran, L, sum(len(x) for x in L.files.values())
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def diag(j):
        r = c.rng("diag", j)
        kind = r.choice(["error", "undeclared", "undeclared", "syntax"])
        L = Layout(r, error=kind)
        root = "%s/d%d" % (base, j)
        os.makedirs(root)
        try:
            put(root, L)
            pos = []
            for t in ("gcc", "clang"):
                a = run([t, "-w", "-fsyntax-only", "-fno-caret-diagnostics" if t == "clang" else "-fno-diagnostics-show-caret", L.main], cwd=root, timeout=60)
                m = re.search(rb"^(.*?):(\d+):\d+: (?:fatal )?error:", a[2], re.M)
                if not m:
                    return "reject", "no error"
                pos.append((os.path.normpath(m.group(1).decode("latin-1")), int(m.group(2))))
            if pos[0] != pos[1]:
                return "reject", "references disagree"
            o = run([cc, "-c", L.main, "-o", "o.o"], cwd=root, timeout=60)
            if o[0] is None:
                return "inconclusive", "timeout"
            out = (o[1] + o[2]).decode("latin-1")
            m = re.search(r"^Error: (.*?):(\d+):\d+: ", out, re.M)
            if not m:
                return "bad", "no position in the diagnostic (status %s): %r" % (o[0], out[:200]), L, out
            # the name may be spelled as in the directive that gave it
            got = os.path.normpath(re.sub(r'\\([\\"])', r"\1", m.group(1))), int(m.group(2))
            if got != pos[0]:
                return "bad", "%s error is reported at %s:%d, it is at %s:%d" % ((kind,) + got + pos[0]), L, out
            return "ok", 1, kind, L
        finally:
            shutil.rmtree(root, ignore_errors=True)

    kinds = set()

    def report(res):
        _, desc, L, out = res
        if os.environ.get("VT_DEBUG"):
            print("BAD", desc)
        files = {p: s.decode("latin-1") for p, s in L.files.items()}
        files["compiler-output"] = out
        c.violation(desc, files=files, key=re.sub(r"\d+", "N", desc)[:50], cmd="bin/cc -E '%s'" % L.main)

    for res in pmap(values, range(c.n(2500, 60000))):
        if res[0] == "ok":
            c.case(key=(res[2], res[5]), nontrivial=res[1] > 2)
            kinds |= res[4].kinds
            c.count(layouts=1, files=len(res[4].files), markers=res[2], markers_compared=res[1], markers_run=res[3])
            c.sample(res[4].files[res[4].main].decode()[-200:])
        elif res[0] == "reject":
            c.count(layouts_rejected_by_references=1)
            if os.environ.get("VT_DEBUG"):
                print("REFREJ", res[1])
        elif res[0] == "inconclusive":
            c.inconclusive.append(res[1])
        else:
            report(res)
    for res in pmap(diag, range(c.n(1800, 40000))):
        if res[0] == "ok":
            c.case(key=("d", res[2], res[3].files[res[3].main]), nontrivial=True)
            c.count(**{"diagnostics_" + res[2]: 1})
        elif res[0] == "reject":
            c.count(diagnostics_references_disagree=1)
        elif res[0] == "inconclusive":
            c.inconclusive.append(res[1])
        else:
            report(res)
    c.count(layout_elements_seen=len(kinds))
    c.rule = "one case per layout; non-trivial if more than two markers were compared or a diagnostic was located"
    c.assumptions = ["positions on which gcc and clang agree are the correct ones"]
    c.min_nontrivial = 1000


main("C28", body)
