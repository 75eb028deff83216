"""C25: every use of a name denotes the declaration whose scope it is in."""
import os, re
from . import common
from .common import build_cc, main
from .diff import Runner, Test

SCALARS = ["int", "char", "long", "short", "unsigned char", "unsigned", "long long", "double"]


class Ent:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


class Gen:
    """Random nests of scopes in which a handful of names is declared again and
    again as objects, functions, typedef names, enumeration constants, tags, members
    and labels; what a name denotes is recorded through values and sizes."""
    def __init__(self, r):
        self.r = r
        self.names = ["a@@", "b@@", "c@@", "T@@"]
        self.ord, self.tags = [{}], [{}]
        self.labels = set()
        self.uid = 0
        self.k = 0
        self.out = []
        self.kinds = {}
        self.globals = {}   # name -> object with linkage at file scope
        self.loops = 0

    def n(self):
        self.k += self.r.randint(1, 9)
        return self.k

    def size(self):
        return self.r.randint(1, 40)

    def fresh(self):
        self.uid += 1
        return "u@@_%d" % self.uid

    def look(self, name, stack=None):
        for s in reversed(stack or self.ord):
            if name in s:
                return s[name]

    def note(self, kind):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1

    def push(self):
        self.ord.append({})
        self.tags.append({})

    def pop(self):
        self.ord.pop()
        self.tags.pop()

    # expressions of integer constant type; hide: a name that must not appear
    def const(self, hide=()):
        r = self.r
        c = [str(self.n())]
        for name in self.names:
            e = self.look(name)
            if name in hide or not e:
                continue
            if e.kind == "enum":
                c += [name, "%s + %d" % (name, self.n())]
            elif e.kind == "typedef":
                c.append("sizeof(%s)" % name)
            elif e.kind in ("var", "array"):
                c += ["sizeof %s" % name, "sizeof(%s)" % name]
        for name in self.names:
            t = self.look(name, self.tags)
            if t and t.kind in ("struct", "union") and t.complete:
                c.append("sizeof(%s %s)" % (t.kind, name))
        return r.choice(c)

    def type_name(self):
        """a visible complete object type other than void, as written"""
        r = self.r
        c = list(SCALARS[:4])
        for name in self.names:
            e = self.look(name)
            if e and e.kind == "typedef":
                c += [name] * 3
            t = self.look(name, self.tags)
            if t and t.kind in ("struct", "union") and t.complete:
                c += ["%s %s" % (t.kind, name)] * 2
            elif t and t.kind == "enum":
                c.append("enum " + name)
        return r.choice(c)

    def declare(self, file_scope=False):
        r = self.r
        cur, tags = self.ord[-1], self.tags[-1]
        free = [n for n in self.names if n not in cur]
        tfree = [n for n in self.names if n not in tags]
        k = r.randrange(17)
        st = "static " if file_scope else r.choice(["", "", "static "])
        if k < 9 and not free or k >= 9 and k < 14 and not tfree:
            return ""
        if k < 3:
            n = r.choice(free)
            self.note("object")
            t = r.choice(SCALARS)
            hidden = self.look(n)
            if hidden and hidden.kind == "typedef" and r.random() < .7 and hidden.scalar:
                t = n   # T T = ...;
            else:
                c = [x for x in self.names if (e := self.look(x)) and e.kind == "typedef" and e.scalar and x != n]
                if c and r.random() < .3:
                    t = r.choice(c)
            q = r.choice(["", "", "", "const "])
            if r.random() < .25:
                init = "sizeof %s + %d" % (n, self.n())   # the new one
            else:
                init = self.const(hide=[n])
            cur[n] = Ent("var", const=bool(q), top=file_scope)
            return "%s%s%s %s = %s;" % (st, q, t, n, init)
        if k == 3:
            n = r.choice(free)
            self.note("array")
            h = self.look(n)
            d = "%d" % self.size()
            if h and h.kind in ("var", "array", "typedef"):
                d = "sizeof(%s) + %d" % (n, self.n() % 9)   # the outer one
            elif h and h.kind == "enum":
                d = "(%s & 15) + %d" % (n, 1 + self.n() % 9)
            cur[n] = Ent("array")
            return "%schar %s[%s];" % (st, n, d)
        if k < 6:
            n = r.choice(free)
            self.note("typedef")
            m = r.randrange(3)
            if m == 0:
                cur[n] = Ent("typedef", scalar=True)
                return "typedef %s %s;" % (r.choice(SCALARS), n)
            if m == 1:
                d = self.size()
                cur[n] = Ent("typedef", scalar=False)
                return "typedef char %s[%d]; " % (n, d)
            d = "typedef struct { char m[%d]; int %s; } %s;" % (self.size(), n, n)
            cur[n] = Ent("typedef", scalar=False)
            return d
        if k < 8:
            n = r.choice(free)
            self.note("enumerator")
            tag = ""
            if tfree and r.random() < .4:
                tag = r.choice(tfree)
                tags[tag] = Ent("openenum")
            v = self.const(hide=[]) if self.look(n) is None or self.look(n).kind in ("enum", "typedef", "array") else self.const(hide=[n])
            s = "%s = %s" % (n, v)
            cur[n] = Ent("enum")
            rest = [x for x in free if x != n]
            if rest and r.random() < .5:
                m = r.choice(rest)
                cur[m] = Ent("enum")
                s += ", %s%s" % (m, r.choice(["", " = %s + %d" % (n, self.n())]))
            if tag:
                tags[tag] = Ent("enum")
            return "enum %s { %s };" % (tag, s)
        if k == 8:
            # block-scope declarations of things with linkage
            if file_scope:
                return ""
            c = [x for x in free if x in self.globals]
            if not c:
                return ""
            n = r.choice(c)
            cur[n] = Ent(self.globals[n], const=False, top=True)
            self.note("extern in block")
            return "extern int %s;" % n if self.globals[n] == "var" else "int %s(int);" % n
        if k < 13:
            n = r.choice(tfree)
            self.note("tag")
            kind = r.choice(["struct", "struct", "union"])
            s = self.size()
            inner = ""
            m = r.choice(self.names)
            hidden = self.look(m)
            x = r.random()
            outer = self.look(n, self.tags)
            pre = ""
            if x < .3:
                pre = "%s %s; " % (kind, n)
                if r.random() < .6:
                    u = self.fresh()
                    pre += "%s %s *%s; " % (kind, n, u)
                    inner = " /*fwd*/"
            self_ref = "%s %s *%s;" % (kind, n, r.choice(self.names)) if r.random() < .6 else ""
            tags[n] = Ent(kind, complete=True)
            out = "%s%s %s { char m[%d]; %s };" % (pre, kind, n, s, self_ref)
            if inner:
                out += " ev(sizeof *%s);" % u if not file_scope else ""
            elif self_ref and not file_scope:
                mem = self_ref.split("*")[1][:-1]
                out += " ev(sizeof *((%s %s *)0)->%s);" % (kind, n, mem)
            return out
        if k == 13:
            n = r.choice(tfree)
            self.note("tag inside an expression")
            if file_scope:
                return ""
            tags[n] = Ent("struct", complete=True)
            return "ev(sizeof(struct %s { char m[%d]; }));" % (n, self.size())
        if k == 14:
            if file_scope:
                return ""
            self.note("members")
            a, b = r.sample(self.names, 2)
            u = self.fresh()
            return "struct { int %s; char %s[%d]; } %s = { %d, \"\" }; ev(%s.%s); ev(sizeof %s.%s); ev((&%s)->%s);" % (a, b, self.size(), u, self.n(), u, a, u, b, u, a)
        if k == 15:
            self.note("prototype scope")
            a, b = r.sample(self.names, 2)
            u = self.fresh()
            s = self.size()
            x = r.randrange(3)
            if x == 0:
                return "int %s(char %s[%d], char (*%s)[sizeof *%s]);" % (u, a, s, b, a)
            if x == 1:
                return "int (*%s)(int %s, int (*%s)(long %s), char (*q)[sizeof %s])%s;" % (u, a, b, a, a, " = 0" if not file_scope else "")
            return "int %s(struct { int %s; } *%s, int (*)[sizeof(struct %s { int x; })]);" % (u, a, a, b)
        if file_scope:
            return ""
        n = r.choice(self.names)
        if n in self.labels:
            return ""
        self.labels.add(n)
        self.note("label")
        return "if (v == %d) goto %s; ev(%d); %s: ev(%d);" % (r.randrange(4), n, self.n(), n, self.n())

    def use(self):
        r = self.r
        name = r.choice(self.names)
        e = self.look(name)
        t = self.look(name, self.tags)
        if r.random() < .3 and t:
            if t.kind == "enum":
                return "ev(sizeof(enum %s));" % name
            u = self.fresh()
            return r.choice(["ev(sizeof(%s %s));" % (t.kind, name), "{ %s %s %s; ev(sizeof %s); }" % (t.kind, name, u, u), "ev(_Alignof(%s %s));" % (t.kind, name)])
        if not e:
            return "ev(%s);" % self.const()
        if e.kind == "var":
            c = ["ev(%s);" % name, "ev(sizeof %s);" % name, "ev(%s + %s);" % (name, self.const()), "ev((%s) + 1);" % name, "ev(sizeof(%s) * 2);" % name, "ev((%s) * (%s));" % (name, name), "ev((%s) - 3);" % name, "ev(-(%s));" % name]
            if not e.const:
                c += ["%s += %d; ev(%s);" % (name, self.n(), name), "%s = %s;" % (name, self.const()), "{ int *%s = 0; ev(!%s); }" % (name, name)]
            return r.choice(c)
        if e.kind == "array":
            return r.choice(["ev(sizeof %s);" % name, "ev(sizeof(%s));" % name, "%s[0] = %d; ev(%s[0]);" % (name, self.n(), name)])
        if e.kind == "enum":
            return r.choice(["ev(%s);" % name, "ev(%s * 2);" % name, "switch (v) { case %s: ev(1); break; default: ev(2); }" % name, "ev((%s) + 1);" % name])
        if e.kind == "func":
            return r.choice(["ev(%s(%d));" % (name, self.n()), "ev((*%s)(%d));" % (name, self.n()), "ev((%s)(%d));" % (name, self.n())])
        if e.kind == "param":
            return "ev(sizeof *%s);" % name
        u = self.fresh()
        c = ["ev(sizeof(%s));" % name, "{ %s %s; ev(sizeof %s); }" % (name, u, u), "{ %s *%s; ev(sizeof *%s); }" % (name, u, u), "{ const %s *%s = 0; ev(sizeof *%s); }" % (name, u, u), "ev(sizeof(%s *[3]));" % name, "ev(sizeof(%s[2]));" % name, "{ int (*%s)(%s); ev(sizeof %s); }" % (u, name, u), "{ struct { %s %s; } %s; ev(sizeof %s); }" % (name, name, u, u)]
        if e.scalar:
            c += ["ev((%s)%d.75 * 2);" % (name, self.n() + 200), "ev((%s)(%d));" % (name, self.n()), "ev((%s)+1);" % name, "ev((%s)-1);" % name, "{ %s(%s) = %d; ev(%s); }" % (name, u, self.n(), u), "for (%s %s = 0; %s < 2; %s++) ev(sizeof %s);" % (name, u, u, u, u)]
        return r.choice(c)

    def block(self, d):
        self.push()
        s = self.items(d)
        self.pop()
        return "{ %s }" % s

    def sub(self, d):
        """a substatement: a block even without braces"""
        r = self.r
        if r.random() < .7:
            return self.block(d)
        self.push()
        n = r.choice(self.names)
        h = self.look(n)
        x = r.random()
        if x < .4:
            k = self.n()
            self.note("declaration in a substatement")
            s = "ev(sizeof(enum { %s = %d }) + %s);" % (n, k, n)
        elif x < .6:
            self.note("declaration in a substatement")
            s = "ev(sizeof(struct %s { char m[%d]; }) + sizeof(struct %s));" % (n, self.size(), n)
        else:
            s = self.use()
            if s.count(";") > 1 and s[0] != "{":
                s = "{ %s }" % s
        self.pop()
        return s

    def cond(self):
        """a controlling expression; sometimes declares"""
        r = self.r
        x = r.random()
        n = r.choice(self.names)
        if x < .15:
            self.note("declaration in a condition")
            self.ord[-1][n] = Ent("enum")
            return "sizeof(enum { %s = %d }) && v != %d" % (n, self.n(), r.randrange(4))
        if x < .3:
            self.note("declaration in a condition")
            self.tags[-1][n] = Ent("struct", complete=True)
            return "sizeof(struct %s { char m[%d]; }) > %d" % (n, self.size(), r.randint(1, 40))
        return r.choice(["v & 1", "v != 2", "v < 3", "%s > %d" % (self.const(), r.randint(1, 60))])

    def stmt(self, d):
        r = self.r
        if d <= 0:
            return self.use()
        k = r.randrange(8)
        if k < 2:
            return self.block(d - 1)
        self.push()
        if k < 4:
            c = self.cond()
            s = "if (%s) %s" % (c, self.sub(d - 1))
            if r.random() < .5:
                s += " else " + self.sub(d - 1)
        elif k == 4 and self.loops < 2:
            self.loops += 1
            n = r.choice(self.names)
            self.note("for declaration")
            t = r.choice(["int", "long", "short"])
            h = self.look(n)
            if h and h.kind == "typedef" and h.scalar:
                t = n
            init = "0"
            self.ord[-1][n] = Ent("var", const=True, top=False)
            b = self.sub(d - 1)
            s = "for (%s %s = %s; %s < 2; %s++) %s" % (t, n, init, n, n, b)
            self.loops -= 1
        elif k == 5 and self.loops < 2:
            self.loops += 1
            u = self.fresh()
            c = self.cond()
            s = "while (%s++ < 2 && (%s)) %s" % (u, c, self.sub(d - 1))
            s = "{ int %s = 0; %s }" % (u, s)
            self.loops -= 1
        elif k == 6 and self.loops < 2:
            self.loops += 1
            u = self.fresh()
            s = "{ int %s = 0; do %s while (%s++ < 1); }" % (u, self.sub(d - 1), u)
            self.loops -= 1
        else:
            self.push()
            c = self.cond()
            s = "switch ((%s) + v) { case 0: case 1: %s break; default: %s }" % (c, self.stmt(d - 1), self.use())
            self.pop()
        self.pop()
        return s

    def items(self, d):
        r = self.r
        o = []
        for _ in range(r.randint(2, 6)):
            x = r.random()
            if x < .45:
                o.append(self.declare())
            elif x < .75:
                o.append(self.use())
            else:
                o.append(self.stmt(d))
        o.append(self.use())
        return "\n\t".join(x for x in o if x)

    def test(self):
        r = self.r
        top = []
        for n in r.sample(self.names, r.randint(0, 2)):
            if r.random() < .6:
                self.globals[n] = "var"
                self.ord[0][n] = Ent("var", const=False, top=True)
                top.append("int %s = %d;" % (n, self.n()))
            else:
                self.globals[n] = "func"
                self.ord[0][n] = Ent("func")
                p = r.choice(self.names + ["x"])
                top.append("int %s(int %s) { return %s * 3 + %d; }" % (n, p, p, self.n()))
        for _ in range(r.randint(0, 4)):
            top.append(self.declare(True))
        # a helper whose parameters hide
        helper = ""
        if r.random() < .5:
            self.push()
            a, b = r.sample(self.names, 2)
            ta = r.choice(SCALARS[:5])
            h = self.look(a)
            if h and h.kind == "typedef" and h.scalar:
                ta = a
            self.ord[-1][a] = Ent("var", const=False, top=False)
            # a is in scope in the declaration of b
            sz = r.choice(["%d" % self.size(), "sizeof %s + %d" % (a, self.size())])
            self.ord[-1][b] = Ent("param")
            self.note("parameters")
            self.labels = set()
            body = self.items(1).replace("case 0: case 1:", "case 0: case 1:")
            helper = "static void h@@(int v, %s %s, char (*%s)[%s]) {\n\tev(sizeof *%s); %s\n}\n" % (ta, a, b, sz, b, body)
            self.pop()
        self.labels = set()
        self.push()
        body = self.items(3)
        if helper:
            body += "\n\th@@(v, %d, 0);" % self.n()
        self.pop()
        return "\n".join(x for x in top if x) + "\n" + helper + "void t_@@(int v) {\n\tv &= 3;\n\t%s\n}\n" % body


def check(c):
    c.rule = "programs whose nested scopes declare the same few names as objects, functions, typedef names, enumeration constants, tags, members, labels and parameters; what each use denotes is recorded"
    c.assumptions = ["clang (confirmed by gcc) defines the expected log; both have to agree"]
    cc = build_cc()
    kinds = {}
    import threading
    lock = threading.Lock()

    def gen(r, j):
        g = Gen(r)
        t = g.test()
        with lock:
            for k, n in g.kinds.items():
                kinds[k] = kinds.get(k, 0) + n
        return Test(re.sub(r"\bev\(", "EV(", t))
    run = Runner(c, cc, nvec=4, ubsan=False, prelude="#define EV(...) ev((long long)(__VA_ARGS__))\n", what="scopes")
    run.run_files(c.n(500, 12000), gen, per_file=12, tag="scope")
    c.count(**{"declared: " + k: n for k, n in kinds.items()})
    c.min_nontrivial = 500 if not os.environ.get("VT_SCALE") else 1


if __name__ == "__main__":
    main("C25", check)
