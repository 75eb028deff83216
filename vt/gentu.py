"""Programs of several translation units: every way of declaring, defining and sharing
names between files. The program reports through out(x)."""

import re

SCALARS = ["int", "char", "short", "long", "unsigned", "unsigned char", "long long", "double", "_Bool"]
STRUCTS = """struct P { int a; char b; long c; };
struct Q { char s[5]; struct P p[2]; int *ip; int (*f)(int); };
struct Opaque;
union U { int i; double d; char c[11]; };
void out(unsigned long x);
extern int fuel;
"""


class Var:
    def __init__(s, name, ty, home, static, align=0, const=False):
        s.name, s.ty, s.home, s.static, s.align, s.const = name, ty, home, static, align, const
        s.count = None

    def decl(s, incomplete=False, name=None):
        n = name or s.name
        c = "const " if s.const else ""
        if s.count is not None:
            return "%s%s %s[%s]" % (c, s.ty, n, "" if incomplete else s.count)
        if s.ty.startswith("->"):
            return "%s%s *%s" % (c, s.ty[2:], n) if not s.ty.startswith("->f") else "int (*%s)(int)" % n
        return "%s%s %s" % (c, s.ty, n)


class Fun:
    def __init__(s, name, home, kind, idx):
        s.name, s.home, s.kind, s.idx = name, home, kind, idx   # kind: ext, static, inline, sinline


class Gen:
    def __init__(self, r, ntu=None, freestanding=False):
        self.r = r
        self.n = ntu or r.choice([2, 2, 3, 3, 4])
        self.vars, self.funs = [], []
        self.t = -5  # the file being written
        self.k = 0
        self.plan()

    def uid(self, p):
        self.k += 1
        if self.r.random() < .15:
            # names that contain, or are contained in, those that have a meaning elsewhere
            return self.r.choice(["_start%d", "_start_%d", "main%d", "_main%d", "_%d", "L%d", "out%d", "fuel%d", "_end%d", "text%d", "__bss_start%d", "rt_%d", "x" * 300 + "%d",
                                  "rax%d", "caf\u00e9%d", "\u03a9\u2c6f%d", "_GLOBAL_%d", "__imp_%d", "_DYNAMIC%d", p.upper() + "%d"]) % self.k
        return "%s%d" % (p, self.k)

    # ---- planning
    def plan(self):
        r = self.r
        for _ in range(r.randint(4, 10)):
            t = r.randrange(self.n)
            v = Var(self.uid("g"), r.choice(SCALARS + ["struct P", "struct P", "union U", "struct Q"]), t, False,
                    align=r.choice([0, 0, 0, 0, 16, 32, 64]), const=r.random() < .15)
            if r.random() < .35 and v.ty != "struct Q":
                v.count = r.choice([1, 2, 3, 5, 9, 40])
                if r.random() < .15 and v.ty in SCALARS:
                    v.count = 70000  # offsets that need more than 16 bits
                    v.ty = r.choice(["int", "char", "long"])
            self.vars.append(v)
        pool = [self.uid("s") for _ in range(3)]
        for t in range(self.n):
            for nm in pool:
                if r.random() < .8:
                    v = Var(nm, r.choice(SCALARS + ["struct P"]), t, True, align=r.choice([0, 0, 0, 32]), const=r.random() < .1)
                    if r.random() < .3:
                        v.count = r.choice([1, 3, 8, 1000])
                    self.vars.append(v)
        idx = 0
        fpool = [self.uid("sf") for _ in range(2)]
        for _ in range(r.randint(3, 8)):
            self.funs.append(Fun(self.uid("f"), r.randrange(self.n), "ext", idx)); idx += 1
        for t in range(self.n):
            for nm in fpool:
                if r.random() < .7:
                    self.funs.append(Fun(nm, t, "static", idx)); idx += 1
        for _ in range(r.randint(0, 2)):
            self.funs.append(Fun(self.uid("h"), r.randrange(self.n), "inline", 1000 + idx)); idx += 1
        for _ in range(r.randint(0, 2)):
            self.funs.append(Fun(self.uid("hs"), -1, "sinline", 1000 + idx)); idx += 1
        # pointers, at the end so that they can point to anything visible
        for _ in range(r.randint(2, 6)):
            t = r.randrange(self.n)
            static = r.random() < .5
            v = Var(self.uid("p"), r.choice(["->int", "->char", "->long", "->struct P", "->fn"]), t, static, const=False)
            self.vars.append(v)

    def visible(self, t):
        return [v for v in self.vars if not v.static or v.home == t]

    def fvisible(self, t):
        return [f for f in self.funs if f.kind == "ext" or f.kind in ("inline", "sinline") or f.home == t]

    # ---- initializers
    def scalar(self, ty):
        r = self.r
        if ty == "_Bool":
            return r.choice(["0", "1"])
        if ty == "double":
            return r.choice(["1.5", "-2", "0x1p-3", "3e4"])
        return r.choice([str(r.randint(0, 100)), str(r.randint(-100, -1)), "'%s'" % r.choice("abc"), str(r.randint(1, 9)) + " << 2"])

    def init1(self, ty, t):
        r = self.r
        if ty == "struct P":
            return r.choice(["{ %d, %d, %d }" % (r.randint(-99, 99), r.randint(0, 99), r.randint(-9999, 9999)),
                             "{ .c = %d }" % r.randint(1, 99), "{ .b = 'x', .a = 4 }"])
        if ty == "union U":
            return r.choice(["{ %d }" % r.randint(1, 99), "{ .d = 2.5 }", '{ .c = "uni" }'])
        if ty == "struct Q":
            fs = [f for f in self.fvisible(t) if f.kind != "inline"]
            a = self.address("->int", t)
            self.need |= {a[1]} if a else set()
            f = r.choice(fs) if fs else None
            if f:
                self.need.add(f)
            return "{ \"%s\", { { 1, 2, 3 }, { .c = %d } }, %s, %s }" % (r.choice(["", "ab", "abcd"]), r.randint(1, 50), a[0] if a else "0", f.name if f else "0")
        return self.scalar(ty)

    def init(self, v, t):
        if v.ty.startswith("->"):
            if v.ty == "->fn":
                fs = [f for f in self.fvisible(t) if f.kind != "inline"]
                if not fs:
                    return "0"
                f = self.r.choice(fs)
                self.need.add(f)
                return self.r.choice(["", "&"]) + f.name
            a = self.address(v.ty, t)
            if not a:
                return "0"
            self.need.add(a[1])
            return a[0]
        if v.count is not None:
            if v.ty == "char" and v.count > 3 and self.r.random() < .6:
                return '"%s"' % "".join(self.r.choice("abcdef") for _ in range(self.r.randint(0, v.count - 1)))
            n = self.r.randint(1, min(v.count, 6))
            items = [self.init1(v.ty, t) for _ in range(n)]
            if self.r.random() < .3:
                k = self.r.randrange(v.count)
                return "{ [%d] = %s }" % (k, items[0])
            return "{ %s }" % ", ".join(items)
        return self.init1(v.ty, t)

    def address(self, pty, t):
        """(expression, variable) of a constant address of the pointed-to type, visible in t"""
        r = self.r
        want = pty[2:]
        c = []
        for v in self.visible(t):
            if v.const or v.ty.startswith("->"):
                continue
            if v.ty == want:
                if v.count is None:
                    c.append(("&" + v.name, v))
                else:
                    k = r.randrange(v.count) if v.count < 1000 or r.random() < .3 else v.count - r.randrange(1, 400)
                    c += [("&%s[%d]" % (v.name, k), v), ("%s + %d" % (v.name, k), v), (v.name, v)]
                    if v.count > 1:
                        c.append(("&%s[%d] - 1" % (v.name, r.randrange(1, v.count)), v))
            if v.ty == "struct P" and want in ("int", "char", "long"):
                m = dict(int="a", char="b", long="c")[want]
                c.append(("&%s%s.%s" % (v.name, "" if v.count is None else "[%d]" % r.randrange(v.count), m), v))
            if v.ty == "struct Q" and v.count is None and want in ("int", "char", "struct P"):
                c.append((dict(int="&%s.p[1].a", char="%s.s + 2")[want] % v.name if want != "struct P" else "%s.p + 1" % v.name, v))
        far = [x for x in c if (x[1].count or 0) > 1000]
        if far and r.random() < .6:
            return r.choice(far)
        return r.choice(c) if c else None

    # ---- declarations of things from the point of view of a translation unit
    def declare(self, x, t, block=False):
        r = self.r
        if isinstance(x, Var):
            if x.static:
                return "static %s%s;" % (("_Alignas(%d) " % x.align) if x.align else "", x.decl())
            inc = x.count is not None and r.random() < .4
            return "extern %s;" % x.decl(incomplete=inc)
        if x.kind == "static":
            return "static int %s(int%s);" % (x.name, r.choice(["", " v"]))
        e = r.choice(["", "extern "])
        return e + r.choice(["int %s(int);", "int %s(int a);", "int %s();", "int %s(const int q);"]) % x.name

    def define_var(self, v):
        """list of file scope declarations that together define v"""
        r = self.r
        al = ("_Alignas(%d) " % v.align) if v.align else ""
        st = "static " if v.static else ""
        self.need = set()
        d = []
        has_init = v.const or r.random() < .6 or v.ty.startswith("->")
        tent = st + al + v.decl() + ";"
        if has_init:
            seq = [r.choice([tent, "extern " + v.decl(incomplete=v.count is not None and r.random() < .5) + ";"]) for _ in range(r.choice([0, 0, 1, 2]))]
            if v.const:
                seq = [s for s in seq if s.startswith("extern")]
            if v.static and seq and seq[0].startswith("extern"):
                seq[0] = tent
            if v.static and v.const:
                seq = []
            full = v.count is not None and not self.r.random() < .7
            i = self.init(v, v.home)
            head = st + al + v.decl()
            if not v.static and seq and not al and r.random() < .15:
                head = "extern " + v.decl()
            d = seq + [head + " = " + i + ";"]
            if r.random() < .25 and not v.const:
                d.append(r.choice([tent, "extern " + v.decl() + ";"]))
        else:
            d = [tent] * r.choice([1, 1, 2])
            if r.random() < .3:
                d.append("extern " + v.decl(incomplete=v.count is not None and r.random() < .5) + ";")
            if not v.static and r.random() < .3:
                d.insert(0, "extern " + v.decl(incomplete=v.count is not None and r.random() < .5) + ";")
        return d, self.need

    # ---- statements
    def show(self, v, name=None):
        r = self.r
        n = name or v.name
        if v.count is not None:
            n += "[%d]" % r.randrange(v.count)
        if v.ty == "struct P":
            return "out(%s.a); out(%s.b); out(%s.c);" % (n, n, n)
        if v.ty == "union U":
            return "out(%s.c[%d]);" % (n, r.randrange(3))
        if v.ty == "struct Q":
            return "out(%s.s[%d]); out(%s.p[1].c); out(%s.ip ? *%s.ip : -7);" % (n, r.randrange(5), n, n, n)
        if v.ty == "double":
            return "out((long)(%s * 8));" % n
        if v.ty == "->fn":
            return "if (%s) out(%s(3));" % (n, n)
        if v.ty == "->struct P":
            return "if (%s) { out(%s->a); out(%s->c); }" % (n, n, n)
        if v.ty.startswith("->"):
            # where in the array it points
            big = [x for x in self.visible(self.t) if x.count and x.ty == v.ty[2:] and not x.const]
            big.sort(key=lambda x: -x.count)
            where = ""
            if big and r.random() < .7:
                x = big[0] if r.random() < .5 else r.choice(big)
                self.used.add(x)
                where = " if ((unsigned long long)%s - (unsigned long long)%s < %d * sizeof(%s)) out(%s - %s);" % (n, x.name, x.count, x.ty, n, x.name)
            return "if (%s) out(*%s);%s" % (n, n, where)
        return "out(%s);" % n

    def mutate(self, v):
        r = self.r
        if v.const:
            return self.show(v)
        n = v.name + ("[%d]" % r.randrange(v.count) if v.count is not None else "")
        if v.ty == "struct P":
            return r.choice(["%s.a += x;" % n, "%s.b = x;" % n, "%s.c ^= %s.a;" % (n, n), "{ struct P t = { x, 2, 3 }; %s = t; }" % n])
        if v.ty == "union U":
            return "%s.c[1] = x;" % n
        if v.ty == "struct Q":
            return r.choice(["%s.p[1].c += x;" % n, "%s.s[2]++;" % n, "if (%s.f) out(%s.f(x));" % (n, n)])
        if v.ty == "->fn":
            fs = self.usable(self.t, self.idx, True)
            if fs:
                f = r.choice(fs)
                self.used.add(f)
                return "if (%s == %s) out(1); else out(0);" % (v.name, f.name)
            return self.show(v)
        if v.ty.startswith("->"):
            a = self.address(v.ty, self.t)
            if a and r.random() < .6:
                self.used.add(a[1])
                return "%s = %s;" % (v.name, a[0])
            m = "->a" if v.ty == "->struct P" else ""
            return "if (%s) %s%s%s%s += 3;" % (v.name, "" if m else "*", v.name, m, "")
        if v.ty == "_Bool":
            return "%s = !%s;" % (n, n)
        if v.ty == "double":
            return "%s += 0.5;" % n
        return r.choice(["%s += 3;", "%s = (%s & 1023) * 3 + x;", "%s++;", "%s ^= x;"]).replace("%s", n)

    def usable(self, t, idx, address=False):
        fs = [f for f in self.fvisible(t) if f.idx > idx]
        if idx >= 1000:
            fs = []  # header functions stand alone
        if address:
            fs = [f for f in self.fvisible(t) if f.kind != "sinline"] if idx < 1000 else []
        return fs

    def stmt(self, t, idx):
        r = self.r
        self.t, self.idx = t, idx
        k = r.random()
        vs = self.visible(t) if idx < 1000 else [v for v in self.vars if not v.static and v.home >= 0]
        if idx >= 1000:
            vs = [v for v in vs if not v.static]
        blk = []
        if k < .5:
            v = r.choice(vs)
            s = self.show(v) if r.random() < .5 else self.mutate(v)
            if r.random() < .3:
                if not v.static:
                    blk.append(self.declare(v, t, True))
                    return "{ %s %s }" % (" ".join(blk), s)
                elif r.random() < .5 and v.count is None:
                    self.used.add(v)
                    return "{ extern %s; %s }" % (v.decl(), s)
            if r.random() < .12 and v.count is None and not v.ty.startswith("->") and v.ty in ("int", "long", "char") and not v.const:
                # a local variable hides it, an extern declaration in the block below shows it again
                if not v.static:
                    return "{ %s = 77; out(%s); { extern %s; %s } out(%s); }" % (v.decl(), v.name, v.decl(), s, v.name)
            self.used.add(v)
            return s
        if k < .72:
            fs = self.usable(t, idx)
            if fs:
                f = r.choice(fs)
                call = "out(%s(%s));" % (f.name, r.choice(["x", "x + 1", "%d" % r.randint(0, 9)]))
                if f.kind == "ext" and r.random() < .3:
                    return "{ %s %s }" % (self.declare(f, t, True), call)
                self.used.add(f)
                return call
        if k < .8:
            n = "c%d" % r.randint(0, 2)
            return "{ static int %s = %d; %s += x + 1; out(%s); { static long %s; %s--; out(%s); } }" % (n, r.randint(0, 9), n, n, n, n, n)
        if k < .85:
            v = r.choice(vs)
            if v.align:
                self.used.add(v)
                return "out((unsigned long)&%s %% %d);" % (v.name, v.align)
        if k < .9 and idx < 1000:
            n = self.uid("never")
            return r.choice(["{ extern int %s; out(sizeof %s); }", "{ int %s(double); out(sizeof %s(1)); }", "{ extern char %s[7]; out(sizeof %s); }"]) % (n, n)
        if k < .95 and idx < 1000:
            v = r.choice(vs)
            w = self.address("->int", t)
            if w:
                self.used.add(w[1])
                return "{ static int *sp = %s; *sp += 1; out(*sp); }" % w[0]
        return "out(x * %d);" % r.randint(1, 99)

    def function(self, f, t):
        r = self.r
        self.used = set()
        body = ["if (fuel-- <= 0) return 1;"] + [self.stmt(t, f.idx) for _ in range(r.randint(2, 6))]
        return body, self.used

    # ---- whole program
    def tus(self):
        """(list of sources, header text used by all)"""
        r = self.r
        # shared header: inline functions
        header = []
        hused = set()
        for f in self.funs:
            if f.kind in ("inline", "sinline"):
                body, used = self.function(f, -5)
                body = [b for b in body if "static" not in b] if f.kind == "inline" else body
                used = {u for u in used}
                hused |= used
                text = "int %s(int x) { %s return x + %d; }" % (f.name, " ".join(body), f.idx)
                header.append(("inline " if f.kind == "inline" else r.choice(["static inline ", "inline static ", "static "])) + text)
        srcs = []
        for t in range(self.n):
            out = []
            used_all = set(hused)
            defs = []
            for v in self.vars:
                if v.home == t:
                    d, need = self.define_var(v)
                    used_all |= need
                    defs.append((v, d, need))
            funs = []
            for f in self.funs:
                if f.kind in ("ext", "static") and f.home == t:
                    b, u = self.function(f, t)
                    used_all |= u
                    funs.append((f, b, u))
            main = None
            if t == 0:
                self.used = set()
                self.t = 0
                body = []
                for f in self.fvisible(0):
                    if r.random() < .8 or f.kind == "ext":
                        body.append("out(%s(%d));" % (f.name, r.randint(0, 9)))
                        self.used.add(f)
                for v in self.visible(0):
                    body.append(self.show(v))
                    self.used.add(v)
                main = body
                used_all |= self.used
            # declarations of everything used, first: some statics have to be declared before
            pre = []
            for x in sorted(used_all, key=lambda x: x.name):
                if isinstance(x, Fun):
                    if x.kind in ("inline", "sinline"):
                        continue
                    pre.append(self.declare(x, t))
                    if r.random() < .15:
                        pre.append(self.declare(x, t))
                else:
                    if x.static:
                        if x.home == t and not x.const:
                            pre.append(self.declare(x, t))
                        continue
                    for _ in range(r.choice([1, 1, 1, 2])):
                        pre.append(self.declare(x, t))
            # constant statics first (no tentative definition possible), the others in any order
            first = [l for v, d, nd in defs if v.static and v.const for l in d]
            chunks = [d for v, d, nd in defs if not (v.static and v.const)]
            r.shuffle(pre)
            # header functions see all external variables they use through declarations in front
            ext = ["extern %s;" % x.decl() for x in sorted(hused, key=lambda x: x.name) if isinstance(x, Var)]
            hd = []
            for f, h in zip([f for f in self.funs if f.kind in ("inline", "sinline")], header):
                mine = []
                if f.kind == "inline" and f.home == t:
                    k = r.randrange(3)
                    if k == 0:
                        mine = ["extern int %s(int x);" % f.name, h]
                    elif k == 1:
                        mine = [h, "extern int %s(int x);" % f.name]
                    else:
                        mine = ["extern " + h]
                    if r.random() < .3:
                        mine.append("int %s(int);" % f.name)
                else:
                    if f.kind == "inline" and r.random() < .3:
                        mine = ["inline int %s(int);" % f.name]
                    mine.append(h)
                hd += mine
            fchunks = []
            for f, b, u in funs:
                st = ("static " if r.random() < .6 else "") if f.kind == "static" else r.choice(["", "", "extern "])
                if f.kind == "static" and not st:
                    pre.append("static int %s(int);" % f.name)
                fchunks.append(["%sint %s(int x) { %s return x * 2 + %d; }" % (st, f.name, " ".join(b), f.idx)])
            # interleave
            body = []
            pool = [list(c) for c in chunks + fchunks]
            while pool:
                c = r.choice(pool)
                body.append(c.pop(0))
                pool = [c for c in pool if c]
            src = STRUCTS + "\n".join(ext + hd + first + pre + body) + "\n"
            if t == 0:
                src += "int fuel = 300;\nint main(void) {\n" + "\n".join("\tfuel += 5; " + m for m in main) + "\n\treturn 0;\n}\n"
            srcs.append(src)
        # either spelling of the same identifier
        return [re.sub("[\u00e9\u03a9\u2c6f]", lambda m: m[0] if r.random() < .5 else "\\u%04x" % ord(m[0]) if r.random() < .7 else "\\U%08X" % ord(m[0]), x) for x in srcs]
