"""Random data flow: scalars, arrays, structs and unions reached directly, through
pointers and through calls. Arithmetic is unsigned, indices are masked, every
object is initialised, each statement has one side effect: always defined."""

UT = ["unsigned char", "unsigned short", "unsigned", "unsigned long"]


class Agg:
    """a struct type: list of (name, kind, elem type, count or Agg)"""
    def __init__(self, name, members):
        self.name, self.members = name, members
        self.tag = "struct " + name

    def decl(self):
        out = "struct %s {" % self.name
        for n, k, t, c in self.members:
            if k == "s":
                out += " %s %s;" % (t, n)
            elif k == "a":
                out += " %s %s[%d];" % (t, n, c)
            elif k == "p":
                out += " %s *%s;" % (t, n)
            elif k == "u":
                out += " union { %s %s; unsigned char %sb[8]; };" % (t, n, n)
            else:
                out += " struct %s %s;" % (t.name, n)
        return out + " };\n"

    def scalars(self, pre):
        """all scalar lvalues inside an object `pre`: (lvalue, type)"""
        out = []
        for n, k, t, c in self.members:
            p = pre + "." + n
            if k in "su":
                out.append((p, t))
            elif k == "a":
                out += [("%s[%d]" % (p, i), t) for i in range(c)]
            elif k == "S":
                out += t.scalars(p)
        return out

    def dump(self):
        s = "static void d_%s(%s *p) {" % (self.name, self.tag)
        for l, t in self.scalars("(*p)"):
            s += " ev(%s);" % l
        return s + " }\n"


def make_agg(r, name, inner):
    ms = []
    if r.random() < .25:
        # bytes (or shorts) only: sizes that are not a multiple of the machine word
        t = r.choice([UT[0], UT[0], UT[1]])
        for i in range(r.randrange(1, 4)):
            n = "m%d" % i
            if r.random() < .6:
                ms.append((n, "a", t, r.randrange(1, 32)))
            else:
                ms.append((n, "s", t, 0))
        return Agg(name, ms)
    for i in range(r.randrange(1, 6)):
        k = r.random()
        n = "m%d" % i
        if k < .5:
            ms.append((n, "s", r.choice(UT), 0))
        elif k < .7:
            if r.random() < .35:
                ms.append((n, "a", r.choice(UT[:2]), r.randrange(1, 32)))
            else:
                ms.append((n, "a", r.choice(UT), r.choice([1, 2, 3, 4, 4, 7])))
        elif k < .8:
            ms.append((n, "u", r.choice(UT), 0))
        elif inner:
            ms.append((n, "S", r.choice(inner), 0))
        else:
            ms.append((n, "s", r.choice(UT), 0))
    return Agg(name, ms)


class FlowGen:
    def __init__(self, r, budget=30):
        self.r, self.budget, self.uid = r, budget, 0
        self.aggs = []
        for i in range(r.randrange(1, 4)):
            self.aggs.append(make_agg(r, "S%d_@@" % i, self.aggs[:]))
        self.helpers = []
        self.scopes = []

    def id(self):
        self.uid += 1
        return self.uid

    # ---- environment: dicts of name -> type
    def new_env(self):
        self.sc = {}      # scalar name -> type
        self.ar = {}      # array name -> (type, n)
        self.st = {}      # struct object -> Agg
        self.sa = {}      # array of struct -> (Agg, n)
        self.pt = {}      # pointer to scalar -> type
        self.sp = {}      # pointer to struct -> Agg
        self.ro = set()   # loop counters
        self.dep = {}     # name -> block depth of the object (or of a pointer: bound on its targets)
        self.depth = 0
        self.regs = set()

    def snapshot(self):
        return [dict(x) for x in (self.sc, self.ar, self.st, self.sa, self.pt, self.sp)] + [set(self.ro)]

    def restore(self, s):
        self.sc, self.ar, self.st, self.sa, self.pt, self.sp, self.ro = s

    def base(self, l):
        if "(unsigned char *)&" in l:
            l = l.split("(unsigned char *)&", 1)[1]
        return l.lstrip("(*&").split("[")[0].split(".")[0].split("-")[0].split(")")[0]

    def d(self, l):
        b = self.base(l)
        return 99 if b in self.regs or b in self.ro else self.dep.get(b, 0)

    def idx(self, n):
        """an index in [0, n)"""
        r = self.r
        if r.random() < .4 or n == 1:
            return str(r.randrange(n))
        v = r.choice(list(self.sc))
        if n & (n - 1) == 0:
            return r.choice(["%s & %d" % (v, n - 1), "(%s + %d) & %d" % (v, r.randrange(9), n - 1), "%s %% %d" % (v, n)])
        return "%s %% %du" % (v, n)

    def structs(self, want=None):
        """struct lvalues"""
        r = self.r
        c = [(n, a) for n, a in self.st.items()]
        c += [("%s[%s]" % (n, self.idx(k)), a) for n, (a, k) in self.sa.items()]
        c += [("(*%s)" % n, a) for n, a in self.sp.items()]
        sub = []
        for l, a in c:
            for n, k, t, _ in a.members:
                if k == "S":
                    sub.append((l + "." + n, t))
        c += sub
        if want:
            c = [x for x in c if x[1] is want]
        return c

    def lvals(self, want=None, assign=False):
        r = self.r
        k = r.random()
        if k < .4:
            c = [(n, t) for n, t in self.sc.items() if not (assign and n in self.ro)]
        elif k < .44:
            # a part of a scalar
            c = []
            for n, t in self.sc.items():
                if n in self.regs or n in self.ro:
                    continue
                z = self.idx({"unsigned char": 1, "unsigned short": 2}.get(t, 4))
                if t == "unsigned long" and r.random() < .5:
                    z = "(%s) + sizeof %s - 4" % (z, n)
                c.append((r.choice(["*(unsigned char *)&%s" % n, "((unsigned char *)&%s)[%s]" % (n, z), "*((unsigned char *)&%s + (%s))" % (n, z)]), "unsigned char"))
        elif k < .6:
            c = [("%s[%s]" % (n, self.idx(m)), t) for n, (t, m) in self.ar.items()]
        elif k < .75:
            c = []
            for n, t in self.pt.items():
                c.append(("*%s" % n, t))
                if r.random() < .3:
                    c.append(("%s[0]" % n, t))
        else:
            c = []
            for l, a in self.structs():
                for n, kk, t, m in a.members:
                    p = l + "." + n
                    if l.startswith("(*") and l.endswith(")") and r.random() < .7:
                        p = l[2:-1] + "->" + n
                    if kk in "su":
                        c.append((p, t))
                        if kk == "u" and r.random() < .3:
                            c.append(("%sb[%s]" % (p, self.idx({"unsigned char": 1, "unsigned short": 2, "unsigned": 4, "unsigned long": 8}[t])), "unsigned char"))
                    elif kk == "a":
                        c.append(("%s[%s]" % (p, self.idx(m)), t))
        if want:
            c = [x for x in c if x[1] == want]
        if not c:
            c = [(n, t) for n, t in self.sc.items() if (not want or t == want) and not (assign and n in self.ro)]
        return r.choice(c) if c else None

    def e(self, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < .35:
            if r.random() < .15:
                return "%du" % r.choice([0, 1, 2, 3, 7, 255, 256, 65535, 4294967295, 12345])
            l = self.lvals()
            return l[0]
        if k < .75:
            op = r.choice(["+", "-", "*", "^", "&", "|"])
            a, b = self.e(d - 1), self.e(d - 1)
            if op in "*-":
                return "((unsigned long)%s %s %s)" % (a, op, b) if r.random() < .5 else "((unsigned)%s %s (unsigned)%s)" % (a, op, b)
            return "(%s %s %s)" % (a, op, b)
        if k < .82:
            return "((unsigned long)%s %s %d)" % (self.e(d - 1), r.choice(["<<", ">>"]), r.randrange(32))
        if k < .9:
            return "(%s ? %s : %s)" % (self.cond(d - 1), self.e(d - 1), self.e(d - 1))
        if k < .95:
            s = self.structs()
            if s:
                l, a = r.choice(s)
                fs = [h for h in self.helpers if h[0] == "val" and h[2] is a]
                if fs:
                    return "%s(%s)" % (r.choice(fs)[1], l)
            return self.e(d - 1)
        return "(%s)(%s)" % (r.choice(UT), self.e(d - 1))

    def cond(self, d=1):
        r = self.r
        return r.choice(["%s %s %s" % (self.e(d), r.choice(["<", ">", "==", "!=", "<=", ">="]), self.e(d)),
                         "(%s & %d)" % (self.e(d), r.choice([1, 2, 4, 8])), "%s %% 3u == %d" % ("(unsigned)" + self.e(0), r.randrange(3))])

    # ---- statements
    def stmt(self, d, ind="\t"):
        r = self.r
        self.budget -= 1
        k = r.random()
        if d <= 0 or self.budget <= 0 or k < .55:
            return ind + self.leaf(d) + "\n"
        if k < .7:
            s = ind + "if (%s) {\n%s%s}" % (self.cond(), self.block(d - 1, ind + "\t"), ind)
            if r.random() < .5:
                s += " else {\n%s%s}" % (self.block(d - 1, ind + "\t"), ind)
            return s + "\n"
        if k < .9:
            c = "i%d" % self.id()
            n = r.randrange(1, 6)
            snap = self.snapshot()
            self.sc[c] = "unsigned"
            self.ro.add(c)
            style = r.randrange(4)
            body = self.block(d - 1, ind + "\t", env=False)
            if r.random() < .3:
                body += self.rotate(ind + "\t")
            self.restore(snap)
            if style == 0:
                return ind + "for (unsigned %s = 0; %s < %d; %s++) {\n%s%s}\n" % (c, c, n, c, body, ind)
            if style == 1:
                return ind + "{ unsigned %s = %d; while (%s--) {\n%s%s} }\n" % (c, n, c, body, ind)
            if style == 2:
                return ind + "{ unsigned %s = 0; do {\n%s%s} while (%s++ < %d); }\n" % (c, body, ind, c, n)
            return ind + "for (unsigned %s = %d; %s; %s--) {\n%s\t%sif (%s == %d) %s;\n%s}\n" % (c, n, c, c, body, ind, c, r.randrange(4), r.choice(["break", "continue"]), ind)
        if k < .95:
            s = ind + "switch ((unsigned)%s & 3) {\n" % self.e(1)
            for i in range(4):
                if r.random() < .7:
                    s += ind + "case %d:\n%s" % (i, self.block(d - 1, ind + "\t"))
                    if r.random() < .5:
                        s += ind + "\tbreak;\n"
            return s + ind + "default: ;\n" + ind + "}\n"
        return ind + "{\n" + self.block(d - 1, ind + "\t") + ind + "}\n"

    def rotate(self, ind):
        """parallel permutation of scalars: swaps and rotations through a temporary"""
        r = self.r
        byt = {}
        for n, t in self.sc.items():
            if n not in self.ro:
                byt.setdefault(t, []).append(n)
        c = [v for v in byt.values() if len(v) > 1]
        if not c:
            return ""
        v = r.choice(c)
        r.shuffle(v)
        v = v[:r.randrange(2, min(5, len(v)) + 1)] if len(v) > 2 else v
        t = "t%d" % self.id()
        s = ind + "{ unsigned long %s = %s;" % (t, v[0])
        for a, b in zip(v, v[1:]):
            s += " %s = %s;" % (a, b)
        return s + " %s = %s; }\n" % (v[-1], t)

    def block(self, d, ind, env=True):
        r = self.r
        snap = self.snapshot() if env else None
        self.depth += 1
        s = ""
        if r.random() < .35:
            s += self.decl(ind)
        for _ in range(r.randrange(1, 5)):
            s += self.stmt(d, ind)
        if r.random() < .2:
            s += self.rotate(ind)
        self.depth -= 1
        if env:
            self.restore(snap)
        return s

    def decl(self, ind, depth_ok=True):
        r = self.r
        k = r.random()
        if k < .35 or not self.sc:
            n, t = "x%d" % self.id(), r.choice(UT)
            e = self.e(1) if self.sc else "in(%d)" % self.uid
            self.sc[n] = t
            self.dep[n] = self.depth
            q = r.choice(["", "", "", "register ", "volatile "])
            if q:
                self.regs.add(n)
            return ind + "%s%s %s = %s;\n" % (q, t, n, e)
        if k < .5:
            n, t, m = "a%d" % self.id(), r.choice(UT), r.choice([1, 2, 3, 4, 4, 8])
            ini = ", ".join(self.e(0) for _ in range(r.randrange(1, m + 1)))
            self.ar[n] = (t, m)
            self.dep[n] = self.depth
            return ind + "%s %s[%d] = {%s};\n" % (t, n, m, ini)
        if k < .7:
            a = r.choice(self.aggs)
            n = "s%d" % self.id()
            same = self.structs(a)
            if same and r.random() < .6:
                ini = r.choice(same)[0]
            else:
                ini = "{0}"
            self.st[n] = a
            self.dep[n] = self.depth
            return ind + "%s %s = %s;\n" % (a.tag, n, ini)
        if k < .8:
            a, m = r.choice(self.aggs), r.choice([2, 2, 3, 4])
            n = "q%d" % self.id()
            self.sa[n] = (a, m)
            self.dep[n] = self.depth
            return ind + "%s %s[%d] = {0};\n" % (a.tag, n, m)
        if k < .9:
            l = self.lvals(assign=True)
            n = "p%d" % self.id()
            if l is None or self.d(l[0]) == 99:
                return ""
            self.pt[n] = l[1]
            self.dep[n] = self.depth
            return ind + "%s *%s = &%s;\n" % (l[1], n, l[0])
        c = self.structs()
        if not c:
            return ""
        l, a = r.choice(c)
        n = "z%d" % self.id()
        self.sp[n] = a
        self.dep[n] = self.depth
        return ind + "%s *%s = &%s;\n" % (a.tag, n, l)

    noev = False

    def leaf(self, d):
        r = self.r
        k = r.random()
        if k < .4:
            l, t = self.lvals(assign=True) or ("g0_@@", "unsigned")
            op = r.choice(["=", "=", "=", "+=", "^=", "-=", "|=", "&="])
            if op == "*=" and t != "unsigned long":
                op = "="
            return "%s %s %s;" % (l, op, self.e())
        if k < .47:
            l, t = self.lvals(assign=True) or ("g0_@@", "unsigned")
            return r.choice(["%s++;", "++%s;", "%s--;", "--%s;"]) % ("(%s)" % l if l.startswith("*") else l)
        if k < .62:
            s = self.structs()
            if s:
                l, a = r.choice(s)
                same = self.structs(a)
                m = r.random()
                rv = r.choice(same)[0]
                if m < .25:
                    rv = "%s ? %s : %s" % (self.cond(), rv, r.choice(same)[0])
                elif m < .45:
                    fs = [h for h in self.helpers if h[0] == "ret" and h[2] is a and not self.noev]
                    if fs:
                        rv = "%s(%s, %s)" % (r.choice(fs)[1], rv, self.e(1))
                elif m < .55:
                    o = r.choice(same)[0]
                    return "%s = %s = %s;" % (l, o, rv)
                # an object may only be assigned from one that does not partially overlap: same type, so exact or disjoint
                return "%s = %s;" % (l, rv)
        if k < .72 and self.pt:
            p = r.choice(list(self.pt))
            l = self.lvals(self.pt[p], assign=True)
            if l and self.d(l[0]) <= self.dep.get(p, 0):
                return "%s = &%s;" % (p, l[0]) if not l[0].startswith("*") or r.random() < .5 else "%s = %s;" % (p, l[0][1:])
        if k < .77 and self.sp:
            p = r.choice(list(self.sp))
            c = [x for x in self.structs(self.sp[p]) if self.d(x[0]) <= self.dep.get(p, 0)]
            if c:
                return "%s = &%s;" % (p, r.choice(c)[0])
        if k < .87:
            ps = [h for h in self.helpers if h[0] == "ptr" and not self.noev]
            if ps:
                h = r.choice(ps)
                l1, l2 = self.lvals(h[2], True), self.lvals(h[2], True)
                if l1 and l2 and self.d(l1[0]) < 99 and self.d(l2[0]) < 99:
                    return "%s(&%s, &%s);" % (h[1], l1[0], l2[0])
            ss = [h for h in self.helpers if h[0] == "sptr" and not self.noev]
            if ss:
                h = r.choice(ss)
                c = self.structs(h[2])
                if c:
                    return "%s(&%s, %s);" % (h[1], r.choice(c)[0], self.e(1))
        if k < .9:
            v = [x for x in self.sc if x not in self.ro]
            if len(v) > 1:
                l, m = r.sample(v, 2)
                return "%s = %s = %s;" % (l, m, self.e(1))
        return ";" if self.noev else "ev(%s);" % self.e(1)

    def helper(self):
        """one function of each form, usable by the later ones"""
        r = self.r
        i = self.id()
        k = r.choice(["val", "ret", "ptr", "sptr"])
        a = r.choice(self.aggs)
        self.new_env()
        self.sc["k"] = "unsigned"
        save = self.budget
        self.budget = r.choice([2, 5, 9])
        if k == "val":
            self.noev = True
            self.st["s"] = a
            del self.sc["k"]
            self.sc["r"] = "unsigned"
            body = "".join(self.stmt(2) for _ in range(r.randrange(1, 4)))
            t = "static unsigned h%d_@@(%s s) {\n\tunsigned r = 1;\n%s\treturn %s;\n}\n" % (i, a.tag, body, self.e(1))
        elif k == "ret":
            self.st["s"] = a
            body = "".join(self.stmt(2) for _ in range(r.randrange(1, 4)))
            rec = "\tif (k & 3) return h%d_@@(s, (k & 3) - 1);\n" % i if r.random() < .3 else ""
            if rec:
                self.ro.add("k")
                body = "".join(self.stmt(1) for _ in range(r.randrange(1, 3)))
            loc = ""
            t = "static %s h%d_@@(%s s, unsigned k) {\n%s%s%s\treturn %s;\n}\n" % (
                a.tag, i, a.tag, loc, body, rec, r.choice(self.structs(a))[0])
        elif k == "ptr":
            a = r.choice(UT)
            self.pt["p"] = a
            self.pt["q"] = a
            body = "".join(self.stmt(2) for _ in range(r.randrange(1, 4)))
            t = "static void h%d_@@(%s *p, %s *q) {\n\tunsigned k = *p;\n%s}\n" % (i, a, a, body)
        else:
            self.sp["p"] = a
            body = "".join(self.stmt(2) for _ in range(r.randrange(1, 4)))
            t = "static void h%d_@@(%s *p, unsigned k) {\n%s}\n" % (i, a.tag, body)
        self.budget = save
        self.noev = False
        self.helpers.append((k, "h%d_@@" % i, a))
        return t

    def program(self):
        r = self.r
        out = "".join(a.decl() for a in self.aggs) + "".join(a.dump() for a in self.aggs)
        # globals
        glob, reset = "", "static void reset_@@(void) {"
        gsc, gst, gar, vol = {}, {}, {}, set()
        for i in range(r.randrange(1, 3)):
            t = r.choice(UT)
            q = r.choice(["", "static ", "volatile "])
            glob += "%s%s g%d_@@ = %d;\n" % (q, t, i, r.randrange(100))
            gsc["g%d_@@" % i] = t
            if q == "volatile ":
                vol.add("g%d_@@" % i)
            reset += " g%d_@@ = %d;" % (i, r.randrange(100))
        if r.random() < .6:
            a = r.choice(self.aggs)
            glob += "static %s gs_@@;\n" % a.tag
            gst["gs_@@"] = a
            reset += " gs_@@ = (%s){0};" % a.tag
        if r.random() < .5:
            t = r.choice(UT)
            glob += "static %s ga_@@[4];\n" % t
            gar["ga_@@"] = (t, 4)
            reset += " for (int i = 0; i < 4; i++) ga_@@[i] = i * 3;"
        reset += " }\n"
        out += glob + reset
        for _ in range(r.randrange(0, 5)):
            out += self.helper()
        self.new_env()
        self.sc.update(gsc)
        self.regs |= vol
        self.st.update(gst)
        self.ar.update(gar)
        body = ""
        for i in range(r.randrange(2, 6)):
            n, t = "v%d" % i, r.choice(UT)
            body += "\t%s %s = %s;\n" % (t, n, r.choice(["in(%d)", "inm(%d, 9)", "inm(%d, 3)"]) % i)
            self.sc[n] = t
        for _ in range(r.randrange(1, 5)):
            body += self.decl("\t")
        outer = self.snapshot()
        for _ in range(r.randrange(3, 9)):
            body += self.stmt(3)
        for n in self.sc:
            body += "\tev(%s);\n" % n
        for n, (t, m) in self.ar.items():
            body += "\tfor (int i = 0; i < %d; i++) ev(%s[i]);\n" % (m, n)
        for n, a in self.st.items():
            body += "\td_%s(&%s);\n" % (a.name, n)
        for n, (a, m) in self.sa.items():
            body += "\tfor (int i = 0; i < %d; i++) d_%s(&%s[i]);\n" % (m, a.name, n)
        for n in self.pt:
            body += "\tev(*%s);\n" % n
        return out + "void t_@@(int v) {\n\treset_@@();\n%s}\n" % body
