"""C10: the token sequence after preprocessing is the one the language defines."""
import os, re, shutil
from . import common
from .common import main, build_cc, run, scratch, pmap

TOK = re.compile(r'''(?:u8|[uUL])?"(?:\\.|[^"\\])*"|[uUL]?'(?:\\.|[^'\\])*'|\.?[0-9](?:[eEpP][+-]|'?[A-Za-z0-9_]|\.)*|[A-Za-z_$\x80-\xff][A-Za-z0-9_$\x80-\xff]*|'''
                 r'''\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|##|[^\s]''', re.S)


def tokens(text):
    out = []
    for l in text.split("\n"):
        if l.lstrip().startswith("#pragma"):
            continue
        out += TOK.findall(l)
    # translation phase 6 may have joined adjacent literals already
    res = []
    for t in out:
        m = re.match(r'^(u8|[uUL])?"(.*)"$', t, re.S)
        p = res and re.match(r'^(u8|[uUL])?"(.*)"$', res[-1], re.S)
        if m and p:
            res[-1] = '%s"%s%s"' % (p.group(1) or m.group(1) or "", p.group(2), m.group(2))
        else:
            res.append(t)
    return res


# ---------------------------------------------------------------- generators
IDS = ["a", "b", "cde", "x_1", "if", "int", "foo", "Z9", "_q", "u", "L", "u8", "e", "E", "p"]
NUMS = ["0", "1", "42", "0x1F", "3.5", ".5", "1e5", "10u", "7LL", "1.", "0b1", "0x1p", "08"]
PUNCT = ["+", "-", "*", "/", "<", ">", "=", "&", "|", "!", "~", "?", ":", ";", "[", "]", "{", "}", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "->", ".",
         "<<=", ">>=", "...", "^", "%", "%=", "^=", "|=", "&=", "*=", "/="]
STRS = ['"s"', '"a b"', '"q\\"t"', '"\\\\"', '"\\n"', "'c'", "'\\''", "'\\\\'", 'L"w"', 'u8"x"', "'\"'", '"\'"', '"  two  "', '"#"', '"\\x41"', 'u\'x\'', '"/* no */"', '"// no"', '""']


class Gen:
    def __init__(self, r):
        self.r = r
        self.macros = []      # (name, params or None, variadic)
        self.lines = []
        self.recursive = r.random() < .25

    def ws(self):
        r = self.r
        p = r.random()
        if p < .6:
            return " "
        if p < .8:
            return "  "
        if p < .87:
            return r.choice(["/* c */", "/* c */", "/**/", "/***/", "/* **/", "/*/ */", "/* // */", "/*\\\n*/", "/* * / \" ' */"])
        if p < .93:
            return "\t"
        return " \\\n "

    def gap(self):
        return self.ws() if self.r.random() < .7 else ""

    def simple(self):
        r = self.r
        p = r.random()
        if p < .4:
            return r.choice(IDS)
        if p < .55:
            return r.choice(NUMS)
        if p < .85:
            return r.choice(PUNCT)
        return r.choice(STRS)

    def join(self, toks):
        """writes tokens with enough white space to keep them apart"""
        r = self.r
        out = ""
        for t in toks:
            if not t:
                continue
            if out and not out[-1].isspace():
                tight = out[-1] in "()," or t[0] in "(),"
                if not tight or r.random() < .5:
                    out += self.ws()
            out += t
        return out

    def call(self, m, depth, inbody=None):
        """a complete call"""
        r = self.r
        name, params, va = m
        args = []
        n = len(params)
        for i in range(n):
            args.append(self.arg(depth, inbody))
        if va:
            if r.random() < .85 or not n:
                for i in range(r.choice([0, 1, 1, 2, 3])):
                    args.append(self.arg(depth, inbody))
                if len(args) == n and n:
                    args.append("")
            else:
                args.append("")
        s = name + r.choice(["", "", " "]) + "("
        s += (r.choice([",", ", ", " , ", "," if inbody is not None else ",\n"])).join(args)
        return s + r.choice(["", "", " "]) + ")"

    def arg(self, depth, inbody):
        r = self.r
        if r.random() < .12:
            return ""
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            p = r.random()
            if p < .1:
                out.append("(" + self.arg(0, inbody) + r.choice(["", ", b", ",[b]", ",{b,c}", ",-b", ",,", ",+b,(c),d"]) + ")")
            elif p < .4 and depth > 0 and self.macros:
                out.append(self.ref(depth - 1, inbody))
            elif p < .6 and inbody:
                out.append(r.choice(inbody))
            else:
                out.append(self.simple())
        return self.join(out)

    def ref(self, depth, inbody, complete=None):
        r = self.r
        if not self.macros:
            return self.simple()
        m = r.choice(self.macros)
        if m[1] is None:
            return m[0]
        if complete is None:
            complete = self.recursive or r.random() < .8
        if not complete:
            return m[0]
        return self.call(m, depth, inbody)

    def body(self, params, va, names):
        r = self.r
        out = []
        pars = list(params or []) + (["__VA_ARGS__"] if va else [])
        n = r.choice([0, 1, 1, 2, 3, 4, 6])
        for _ in range(n):
            p = r.random()
            if pars and p < .35:
                out.append(r.choice(pars))
            elif pars and p < .45:
                out.append("#" + self.gap() + r.choice(pars))
            elif p < .6:
                # ## with operands that give a valid token (the reference decides)
                if pars and r.random() < .8:
                    a = r.choice(pars) if r.random() < .8 else r.choice(IDS)
                    b = r.choice(pars) if r.random() < .7 else r.choice(IDS + ["1", "2x"])
                    if b == "__VA_ARGS__" and a in pars:
                        a = r.choice(IDS)  # a comma before ## __VA_ARGS__ is a GNU extension, even if it comes from an argument
                    s = a + self.gap() + "##" + self.gap() + b
                    if r.random() < .15:
                        s += self.gap() + "##" + self.gap() + r.choice([x for x in pars if x != "__VA_ARGS__"] + IDS)
                    out.append(s)
                else:
                    out.append(r.choice([r.choice(IDS) + " ## " + r.choice(IDS + ["1", "22"]), "+ ## +", "< ## <", "- ## >", "= ## =", "| ## |", "& ## &", "1 ## 2", "1 ## u",
                                         "> ## >=", "! ## =", "1 ## .5", "< ## <=", "L ## 'x'", "u8 ## \"s\"", ". ## 5", "* ## =", "/ ## =", "1.5 ## e3"]))
            elif p < .8 and (self.macros or names):
                if self.recursive and r.random() < .6:
                    m = r.choice(names)
                    out.append(m[0] if m[1] is None else self.call(m, 1, pars or None))
                else:
                    out.append(self.ref(1, pars or None))
            else:
                out.append(self.simple())
        if self.recursive and out and names:
            # keeps a macro name from ending the list (what follows it would be read from the source)
            out.append(r.choice([";", "end", "]"]))
        return out

    def define(self):
        r = self.r
        batch = []
        for _ in range(r.choice([1, 2, 3]) if self.recursive else 1):
            name = "M%d" % (len(self.macros) + len(batch) + 1)
            p = r.random()
            if p < .35:
                batch.append((name, None, False))
            else:
                params = r.sample(["x", "y", "z", "a", "par", "_p"], r.choice([0, 1, 1, 2, 2, 3]))
                batch.append((name, params, r.random() < .25))
        for m in batch:
            toks = self.body(m[1], m[2], batch if self.recursive else [])
            if m[1] is not None and "x" in m[1]:
                pass
            head = self.r.choice(["#define ", "#define  ", " # define ", "#\tdefine "]) + m[0]
            if m[1] is not None:
                ps = list(m[1]) + (["..."] if m[2] else [])
                head += "(" + r.choice([", ", ",", " , "]).join(ps) + r.choice(["", " "]) + ")"
            b = self.join(toks)
            self.lines.append(head + (r.choice([" ", "  ", "\t"]) + b if b else ""))
        self.macros += batch

    def use(self):
        r = self.r
        out = []
        for _ in range(r.choice([1, 2, 3, 5])):
            p = r.random()
            if p < .6:
                out.append(self.ref(2, None))
                if r.random() < .2 and not self.recursive:
                    out.append("(" + self.arg(1, None) + ")")
            else:
                out.append(self.simple())
        s = self.join(out) + ";"
        if r.random() < .1:
            s += r.choice([" // c", " // c \\\n not here", "//\\\n" + self.simple(), " // a ??/", " /* c\n d */ e", " // \" '"])
        self.lines.append(s)

    def cycle(self):
        """function-like macros that lead to one another with parentheses from the source"""
        r = self.r
        k = r.randint(2, 3)
        ms = []
        for i in range(k):
            ms.append(("C%d" % i, r.choice([None, 0, 0, 1, 1])))
        def inv(m):
            return m[0] + ("" if m[1] is None else "()" if m[1] == 0 else "(%s)" % r.choice(["1", "a", ""]))
        for i, m in enumerate(ms):
            nx = r.choice(ms)
            out = []
            if r.random() < .3:
                out.append(r.choice(["x", "+", "[", "p"]))
            out.append(nx[0] if r.random() < .5 else inv(nx))
            if r.random() < .5:
                out.append(r.choice(["x", "y z", ";", "p"]))
            self.lines.append("#define %s%s %s" % (m[0], "" if m[1] is None else "()" if m[1] == 0 else "(p)", " ".join(out)))
        for _ in range(r.randint(1, 3)):
            m = r.choice(ms)
            s = m[0]
            for _ in range(r.randint(0, 4)):
                s += r.choice(["()", "()", "(1)", "(b)", " ( )", "\n()"])
            self.lines.append("{ " + s + " }")

    def redefine(self):
        r = self.r
        if not self.macros:
            return
        m = r.choice(self.macros)
        p = r.random()
        if p < .4:
            self.lines.append("#undef " + m[0])
            self.macros.remove(m)
        elif p < .6:
            # a random history of definitions, pushes and pops
            n = r.choice([m[0], "PM"])
            depth = 0
            for k in range(r.randint(2, 9)):
                q = r.random()
                if q < .3:
                    self.lines.append('#pragma push_macro("%s")' % n)
                    depth += 1
                elif q < .55 and (depth or r.random() < .3):
                    self.lines.append('#pragma pop_macro("%s")' % n)
                    depth -= 1
                elif q < .75:
                    self.lines.append("#undef " + n)
                elif q < .9:
                    self.lines.append("#undef %s\n#define %s%s" % (n, n, r.choice([" v%d" % k, "(x) w%d x" % k, "", "() z%d" % k, " " + n + " r"])))
                else:
                    self.lines.append("#ifdef %s\nyes\n#else\nno\n#endif" % n)
                self.lines.append(n + r.choice([" (1);", ";", "();"]))
            self.macros.remove(m)
            self.lines.append("#undef " + m[0])
        elif p < .8:
            self.lines.append('#pragma push_macro("%s")\n#undef %s\n#define %s other_%s' % (m[0], m[0], m[0], m[0]))
            self.lines.append(m[0] + " (1, 2);")
            self.lines.append('#pragma pop_macro("%s")' % m[0])

    # conditional expressions
    def cexpr(self, d):
        r = self.r
        p = r.random()
        if d == 0 or p < .25:
            q = r.random()
            if q < .4:
                return r.choice(["0", "1", "2", "7", "-1", "0x10", "010", "3u", "5L", "9223372036854775807", "0xffffffffffffffff", "1000000LL", "'a'", "'\\n'", "'\\0'", "2147483648"])
            if q < .55:
                return r.choice(["defined ", "defined("]) + "%s" % r.choice([m[0] for m in self.macros] + ["NOPE", "K0", "K1"]) if False else self.defd()
            if q < .75:
                return r.choice(["K0", "K1", "K2", "KADD(2, 3)", "KNEG", "KU"])
            return r.choice(["undefined_id", "if_", "true_"])
        if p < .35:
            return r.choice(["-", "+", "!", "~"]) + " " + self.cexpr(d - 1)
        if p < .5:
            return "(" + self.cexpr(d - 1) + ")"
        if p < .6:
            return "(%s) ? (%s) : (%s)" % (self.cexpr(d - 1), self.cexpr(d - 1), self.cexpr(d - 1))
        if p < .7:
            return self.cexpr(d - 1) + r.choice([" << ", " >> "]) + r.choice(["0", "1", "3", "7"])
        if p < .75:
            # the unevaluated operand may divide by zero
            return r.choice(["0 && (1 / 0)", "1 || (1 % 0)", "(1 ? 2 : 1 / 0)", "(0 ? 1 / 0 : 3)"])
        op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "=="])
        return "%s %s %s" % (self.cexpr(d - 1), op, self.cexpr(d - 1))

    def defd(self):
        r = self.r
        n = r.choice([m[0] for m in self.macros] + ["NOPE", "K0", "K1"])
        return "defined %s" % n if r.random() < .5 else "defined ( %s )" % n if r.random() < .3 else "defined(%s)" % n

    def cond(self, depth=2):
        r = self.r
        n = r.choice([m[0] for m in self.macros] + ["NOPE", "K0"])
        self.lines.append(r.choice(["#if " + self.cexpr(r.randint(0, 3)), "#if " + self.cexpr(r.randint(1, 3)), "#ifdef " + n, "#ifndef " + n, " #  if " + self.cexpr(2) + " /* c */", "#ifdef " + n + " // c"]))
        self.group(depth)
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            self.lines.append(r.choice(["#elif " + self.cexpr(r.randint(0, 2))] * 3 + ["#elifdef " + n, "#elifndef " + n]))
            self.group(depth)
        if r.random() < .6:
            self.lines.append("#else" + r.choice(["", " // x", " /* y */"]))
            self.group(depth)
        self.lines.append("#endif" + r.choice(["", " // x", " /* y\n z */"]))

    def junk(self):
        """groups that are skipped only have their conditional directives interpreted"""
        r = self.r
        def lines():
            return "".join(r.choice(["# 1 2", "#! x", "#foo bar", "# \"abc\"", "#include <nowhere.h>", "#include MACRO nope(", "#error no", "#define 1 2", "#define f( x", "#undef", "@ ` $ \\ q", "#if 1 +\n#else\nx\n#endif",
                                     "#if 1\n#endif", "#ifdef\n#endif", "#if\n#elif\n#endif", "#ifndef 3\n#else\n#endif", "don't", "\"open", "1..2.3ex+", "0x", "#line -1", "#pragma pack(x", "## x", "#", "x # endif", "\"#endif\"",
                                     "/* #endif */", "// #endif", "__VA_ARGS__ ## #", "#pragma push_macro(\"K0\")\n#undef K0", "#defined", "#endi", "#elsewhere", "#elsif 1", "(((", "#warning w"]) + "\n" for _ in range(r.randint(1, 4)))
        k = r.random()
        if k < .5:
            self.lines.append("#if %s\n%s#endif" % (r.choice(["0", "0 && 1", "!1"]), lines()))
        elif k < .8:
            self.lines.append("#if 1\nk%d\n#elif %s\n%s#else\n%s#endif" % (r.randint(0, 9), r.choice(["1", "0", "1 / 0", "1 +", "", "defined", "(", "@", "f(1,"]), lines(), lines()))
        else:
            self.lines.append("#ifdef NOT_DEFINED_ANYWHERE\n%s#else\nk%d\n#endif" % (lines(), r.randint(0, 9)))

    def group(self, depth):
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2])):
            p = r.random()
            if p < .35 and depth > 0:
                self.cond(depth - 1)
            elif p < .45:
                # a definition in a group that may be skipped
                self.lines.append("#undef K%d\n#define K%d %d" % ((k := r.randint(0, 2)), k, r.randint(0, 4)))
            elif p < .5:
                self.lines.append("#" + r.choice(["", " ", " // nothing"]))
            elif p < .56:
                self.junk()
            else:
                self.lines.append("g%d %s;" % (r.randint(0, 99), r.choice(["K0", "K1", "K2", "KADD(1, K1)"])))

    def block(self):
        r = self.r
        if r.random() < .3:
            self.lines.append("#undef K0\n#undef K1\n#undef K2\n#undef KADD\n#undef KNEG\n#undef KU")
            self.lines.append("#define K0 0\n#define K1 1\n#define K2 (K1 + 1)\n#define KADD(a, b) ((a) + (b))\n#define KNEG -5\n#define KU 4000000000u")
            for _ in range(r.randint(0, 2)):
                self.define()
            for _ in range(r.randint(1, 3)):
                self.cond()
        else:
            for _ in range(r.randint(1, 6)):
                self.define()
                if r.random() < .2:
                    self.redefine()
            for _ in range(r.randint(1, 5)):
                self.use()
            if r.random() < .15:
                self.cycle()
        s = "\n".join(self.lines)
        if r.random() < .2:
            # line splices can be anywhere
            for _ in range(r.randint(1, 6)):
                k = r.randint(0, len(s))
                if "." not in s[max(0, k - 2):k + 2] and s[k - 1:k] != "\\":
                    s = s[:k] + r.choice(["\\\n", "\\\n", "\\\n\\\n"]) + s[k:]
        return s


FIXED = [
    "#define x 3\n#define f(a) f(x * (a))\n#undef x\n#define x 2\n#define g f\n#define z z[0]\n#define h g(~\n#define m(a) a(w)\n#define w 0,1\n#define t(a) a\n#define p() int\n"
    "#define q(x) x\n#define r(x,y) x ## y\n#define str(x) # x\nf(y+1) + f(f(z)) % t(t(g)(0) + t)(1);\ng(x+(3,4)-w) | h 5) & m\n(f)^m(m);\n"
    "p() i[q()] = { q(1), r(2,3), r(4,), r(,5), r(,) };\nchar c[2][6] = { str(hello), str() };",
    "#define str(s) # s\n#define xstr(s) str(s)\n#define debug(s, t) printf(\"x\" # s \"= %d, x\" # t \"= %s\", \\\n x ## s, x ## t)\n#define INCFILE(n) vers ## n\n#define glue(a, b) a ## b\n"
    "#define xglue(a, b) glue(a, b)\n#define HIGHLOW \"hello\"\n#define LOW LOW \", world\"\ndebug(1, 2);\nfputs(str(strncmp(\"abc\\0d\", \"abc\", '\\4') // this goes away\n== 0) str(: @\\n), s);\n"
    "xstr(INCFILE(2).h)\nglue(HIGH, LOW);\nxglue(HIGH, LOW)",
    "#define t(x,y,z) x ## y ## z\nint j[] = { t(1,2,3), t(,4,5), t(6,,7), t(8,9,), t(10,,), t(,11,), t(,,12), t(,,) };",
    "#define debug(...) fprintf(stderr, __VA_ARGS__)\n#define showlist(...) puts(#__VA_ARGS__)\n#define report(test, ...) ((test)?puts(#test):\\\n printf(__VA_ARGS__))\ndebug(\"Flag\");\n"
    "debug(\"X = %d\\n\", x);\nshowlist(The first, second, and third items.);\nreport(x>y, \"x is %d but y is %d\", x, y);",
    "#define EMPTY\n#define LPAREN (\n#define RPAREN )\n#define F(x, y) x + y\n#define ELLIP_FUNC(...) __VA_ARGS__\nELLIP_FUNC(F, LPAREN, 'a', 'b', RPAREN);\nELLIP_FUNC(F LPAREN 'a', 'b' RPAREN);",
    "#define hash_hash # ## #\n#define mkstr(a) # a\n#define in_between(a) mkstr(a)\n#define join(c, d) in_between(c hash_hash d)\nchar p[] = join(x, y);",
    "#define EVAL(x) x\n#define DEFER(m) m EMPTY()\n#define EMPTY()\n#define A() 123\nDEFER(A)();\nEVAL(DEFER(A)());",
    "#define CAT(a, ...) a ## __VA_ARGS__\n#define IIF(c) CAT(IIF_, c)\n#define IIF_0(t, ...) __VA_ARGS__\n#define IIF_1(t, ...) t\nIIF(1)(a, b); IIF(0)(a, b, c);",
    "#define X X + Y\n#define Y Y * X\nX; Y;",
    "#define f(x) x f\nf(1)(2)(3);\n#define NIL(xxx) xxx\n#define G_0(arg) NIL(G_1)(arg)\n#define G_1(arg) NIL(arg)\nG_0(42);",
    "#define obj() (1)\n#define str(x) #x\nstr( a  b\tc ) str(\"\\n\" '\\'') str(a/**/b) str(,) str((a,b)) str(\n l1\n l2 );" .replace("str(,)", ""),
    "#define E(...) e(__VA_ARGS__)\nE() E(,) E(a,) E(,b) E((a,b),c);",
    "#define g(x, ...) g2(x, ## __VA_ARGS__)\ng(1, 2) g(1, 2, 3);",
]


class R:
    def __init__(self, c, cc):
        self.c, self.cc = c, cc

    def pp(self, who, d, f="t.c"):
        if who == "cc":
            cmd = [self.cc, "-E", f]
        elif who == "gcc":
            cmd = ["gcc", "-E", "-P", "-std=gnu2x", "-w", "-undef", f]
        else:
            cmd = ["clang", "-E", "-P", "-std=gnu2x", "-w", f]
        return run(cmd, timeout=30, cpu=20, cwd=d)

    def split(self, out):
        t = tokens(out.decode("utf-8", "surrogateescape"))
        res, cur = {}, None
        for x in t:
            if re.match(r"BLOCK_MARK_\d+$", x):
                cur = int(x[11:])
                res[cur] = []
            elif cur is not None:
                res[cur].append(x)
        return res

    def file(self, d, blocks, tag):
        """blocks: list of texts; each is judged by its own tokens"""
        src = os.path.join(d, "t.c")
        good = blocks
        for attempt in range(3):
            with open(src, "w") as f:
                for i, b in enumerate(good):
                    # every block starts without the macros of the others
                    names = sorted(set(re.findall(r"#[ \t]*define\s+(\w+)", b)))
                    f.write("BLOCK_MARK_%d\n%s\n%s\n" % (i, b, "".join("#undef %s\n" % n for n in names)))
            rc, gout, gerr = self.pp("gcc", d)
            if rc == 0:
                break
            # drop the blocks the reference rejects
            lines = open(src).read().split("\n")
            starts = [n for n, l in enumerate(lines, 1) if l.startswith("BLOCK_MARK_")]
            bad = set()
            for m in re.finditer(r"^t\.c:(\d+):\d+: (?:error|fatal)", gerr.decode(errors="replace"), re.M):
                n = int(m.group(1))
                bad |= {max(i for i, s in enumerate(starts) if s <= n)}
            self.c.count(reference_rejected=len(bad))
            if not bad:
                return
            good = [b for i, b in enumerate(good) if i not in bad]
            if not good:
                return
        else:
            return
        lrc, lout, lerr = self.pp("clang", d)
        crc, cout, cerr = self.pp("cc", d)
        g, l, o = self.split(gout), self.split(lout), self.split(cout)
        for i, b in enumerate(good):
            self.c.evaluations += 1
            if lrc == 0 and l.get(i) != g.get(i):
                self.c.count(references_disagree=1)
                continue
            self.c.count(tokens=len(g.get(i, [])))
            self.c.nontrivial.add(hash((tuple(g.get(i, [])), b)))
            if crc == 0 and o.get(i) == g.get(i):
                continue
            self.single(d, b, g.get(i, []), tag)

    def single(self, d, b, want, tag):
        src = os.path.join(d, "t.c")
        open(src, "w").write("BLOCK_MARK_0\n%s\n" % b)
        lrc, lout, lerr = self.pp("clang", d)
        grc, gout, gerr = self.pp("gcc", d)
        g = self.split(gout).get(0)
        # "::" is a token only in later standards
        if grc or lrc or self.split(lout).get(0) != g or b"pasting" in run(["gcc", "-E", "-P", "-std=c17", "-w", src], timeout=30)[2]:
            self.c.count(references_disagree=1)
            return
        crc, cout, cerr = self.pp("cc", d)
        got = self.split(cout).get(0, [])
        if crc == 0 and got == g:
            return  # a block before it is to blame, and was reported
        if crc:
            msg = "valid source rejected (rc=%s): %s" % (crc, " ".join((cout + cerr).decode(errors="replace").split())[-300:])
        else:
            n = next((i for i, (x, y) in enumerate(zip(g, got)) if x != y), min(len(g), len(got)))
            msg = "token %d differs: expected %s got %s" % (n, g[n] if n < len(g) else "end", got[n] if n < len(got) else "end")
        self.c.violation(msg, {"t.c": open(src).read(), "expected.txt": " ".join(g) + "\n"}, key=b, cmd="bin/cc -E t.c, compare the tokens with gcc -E -P -w t.c")


def include_tree(r, d):
    """random headers in directories; returns nothing, writes t.c"""
    dirs = ["", "inc/", "inc/sub/", "other/"]
    for x in dirs[1:]:
        os.makedirs(os.path.join(d, x), exist_ok=True)
    n = r.randint(2, 7)
    heads = []
    for i in range(n):
        p = r.choice(dirs) + "h%d.h" % i
        heads.append(p)
    for i in reversed(range(n)):
        body = []
        guard = r.random()
        for _ in range(r.randint(0, 3)):
            q = r.random()
            if q < .5 and i + 1 < n:
                t = heads[r.randint(i + 1, n - 1)]
                body.append(inc(r, heads[i], t))
            elif q < .75:
                body.append("h%d_text V%d;" % (i, r.randint(0, 3)))
            else:
                body.append("#undef V%d\n#define V%d v%d_from_h%d" % ((k := r.randint(0, 3)), k, k, i))
        s = "\n".join(body)
        if guard < .3:
            s = "#ifndef H%d\n#define H%d\n%s\n#endif" % (i, i, s)
        elif guard < .5:
            s = "#pragma once\n" + s
        open(os.path.join(d, heads[i]), "w").write(s + r.choice(["\n", "\n\n", "\n// end\n"]))
    body = ["BLOCK_MARK_0"]
    for _ in range(r.randint(1, 6)):
        t = r.choice(heads)
        body.append(inc(r, "t.c", t))
        body.append("m V0 V1 V2 V3;")
    open(os.path.join(d, "t.c"), "w").write("\n".join(body) + "\n")


def inc(r, frm, to):
    rel = os.path.relpath(to, os.path.dirname(frm) or ".")
    p = r.random()
    if p < .7:
        return '#include "%s"' % rel
    if p < .8:
        return '#define HDR "%s"\n#include HDR\n#undef HDR' % rel
    if p < .9:
        return '#  include  "%s"  // why' % rel
    return '#if 1\n#include "%s"\n#else\n#include "nowhere.h"\n#endif' % rel


def check(c):
    c.rule = ("random macro sets (object-like, function-like, variadic, # and ##, nested and recursive calls, push_macro), conditional trees with random controlling expressions, include trees "
              "with guards, and the examples of the standard; the tokens of -E are compared with gcc's, clang has to agree; non-trivial = distinct expected token sequences")
    cc = build_cc("plain")
    R_ = R(c, cc)
    import threading
    lock = threading.Lock()
    oc, on = c.count, c.violation

    def locked(f):
        def g(*a, **k):
            with lock:
                return f(*a, **k)
        return g
    c.count, c.violation = locked(oc), locked(on)
    n = c.n(800, 12000)

    def one(i):
        r = c.rng("m", i)
        d = os.path.join(scratch(), "c10-%d" % i)
        os.makedirs(d)
        try:
            blocks = [Gen(r).block() for _ in range(12)]
            if i < 13:
                blocks = FIXED[i:i + 1] + blocks
            if i == 0:
                c.sample(blocks[1][:600])
            R_.file(d, blocks, "m")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    pmap(one, range(n))

    def tree(i):
        r = c.rng("i", i)
        d = os.path.join(scratch(), "c10i-%d" % i)
        os.makedirs(d)
        try:
            include_tree(r, d)
            grc, gout, _ = R_.pp("gcc", d)
            lrc, lout, _ = R_.pp("clang", d)
            g = tokens(gout.decode(errors="replace"))
            if grc or lrc or tokens(lout.decode(errors="replace")) != g:
                c.count(references_disagree=1)
                return
            crc, cout, cerr = R_.pp("cc", d)
            got = tokens(cout.decode(errors="replace"))
            c.count(include_trees=1, tokens=len(g))
            c.evaluations += 1
            c.nontrivial.add(hash(tuple(g)))
            if crc or got != g:
                k = next((i for i, (x, y) in enumerate(zip(g, got)) if x != y), min(len(g), len(got)))
                files = {}
                for root, _, fs in os.walk(d):
                    for f in fs:
                        files[os.path.relpath(os.path.join(root, f), d)] = open(os.path.join(root, f)).read()
                c.violation("includes: rc=%s token %d differs: expected %s got %s" % (crc, k, g[k:k + 1], got[k:k + 1]), files, key=str(sorted(files.items())), cmd="bin/cc -E t.c")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    pmap(tree, range(c.n(300, 5000)))
    c.min_nontrivial = 500


if __name__ == "__main__":
    main("C10", check)
