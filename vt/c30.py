"""C30: compiled code touches only the objects of the program, its own frame and registers.

The functions under test run on a stack that ends at an inaccessible page right above their
return address. Objects are placed against inaccessible pages, on either side, the bytes that
alignment leaves over hold a pattern that is verified; parts of objects are made accessible
alone. In a second set of runs the processor traps after every instruction and everything
below the stack pointer (beyond the red zone of the System V ABI) is overwritten, as signal
handlers do. The events, faults, patterns and preserved registers are compared with a reference."""
import os, re
from . import c01, c02, c04, c05, c06, c07, c08, c22, c23
from .common import main, build_cc, run
from .diff import Runner, Test, rt_object
from .cross import CrossRunner, MsRunner
from .gentype import *
from .abigen import fill, dump, active_leaves

PRE = """void *gmem(unsigned long long n, unsigned long long align);
void *gpart(unsigned long long align, unsigned long long off, unsigned long long n);
void *gnone(void);
#define OFF(T, m) ((unsigned long long)((char *)&((T *)4096)->m - (char *)4096))
"""


class ObjGen:
    """operations on objects at the edge of accessible memory"""
    def __init__(self, r, longs=True):
        self.ints = [t for t in INTS if longs or t.name not in ('long', 'unsigned long')]
        self.r, self.n, self.out, self.helpers, self.kinds = r, 0, [], [], {}
        en = enum_type("e_@@")
        self.g = TypeGen(r, "S@@", enums=[en], align=False, pack=r.random() < .4, max_arr=r.choice([3, 5, 9]), max_members=r.choice([1, 2, 3, 5]), bitfields=r.random() < .5,
                         fnptr=False, unnamed=False, longs=longs)

    def id(self, p="x"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def note(self, k):
        self.kinds[k] = self.kinds.get(k, 0) + 1

    def agg(self):
        r, g = self.r, self.g
        if g.aggs and r.random() < .5:
            return r.choice(g.aggs)
        if r.random() < .4:
            # bytes of every length
            g.n += 1
            t = r.choice([INTS[0], INTS[0], INTS[3], INTS[5], FLT])
            a = Agg("S@@_%d" % g.n, False, [Mem("m", Arr(t, r.randint(1, r.choice([4, 9, 20, 70])) // t.size + 1))])
            g.defs.append(a.definition())
            g.aggs.append(a)
            return a
        return g.agg(r.choice([0, 1, 1, 2]))

    def obj(self, t, fillit=True):
        """-> lvalue text of a new object in guarded memory"""
        p = self.id("p")
        ty = t.decl("")
        self.out.append("%s = gmem(sizeof(%s), _Alignof(%s));" % (t.decl("*" + p), ty, ty))
        if fillit:
            self.out += fill(self.r, t, "(*%s)" % p, self.n)
        return p

    def dump(self, t, e):
        self.out += dump(t, e)

    def op_agg(self):
        r = self.r
        t = self.agg()
        ty = t.decl("")
        p = self.obj(t)
        x = self.id()
        k = r.randrange(13)
        self.note("aggregate %d" % k)
        o = self.out
        if k == 0:
            o.append("%s = *%s;" % (t.decl(x), p))
            self.dump(t, x)
        elif k == 1:
            q = self.obj(t, False)
            o.append("*%s = *%s;" % (q, p))
            self.dump(t, "(*%s)" % q)
        elif k == 2:
            self.helpers.append("static %s { %s return a; }" % (t.decl("%s_@@(%s)" % (x, t.decl("a"))), " ".join(dump(t, "a")[:4])))
            q = self.obj(t, False)
            o.append("*%s = %s_@@(*%s);" % (q, x, p))
            self.dump(t, "(*%s)" % q)
        elif k == 3:
            self.helpers.append("static %s { return *a; }" % t.decl("%s_@@(%s)" % (x, t.decl("*a"))))
            o.append("%s = %s_@@(%s);" % (t.decl(x), x, p))
            self.dump(t, x)
        elif k == 4:
            q = self.obj(t)
            o.append("%s = inm(%d, 2) ? *%s : *%s;" % (t.decl(x), r.randrange(60), p, q))
            self.dump(t, x)
        elif k == 5:
            q = self.obj(t)
            o.append("%s[2] = { *%s, *%s };" % (t.decl(x), p, q))
            self.dump(t, x + "[0]")
            self.dump(t, x + "[1]")
        elif k == 6:
            n = r.randint(1, 5)
            o.append("%s = gmem(%d * sizeof(%s), _Alignof(%s));" % (t.decl("*" + x), n, ty, ty))
            o.append("for (int i = 0; i < %d; i++) %s[i] = *%s;" % (n, x, p))
            self.dump(t, "%s[inm(3, %d)]" % (x, n))
            o.append("%s = %s[%d - inm(1, 1)];" % (t.decl(x + "_"), x, n - 1))
            self.dump(t, x + "_")
        elif k == 7:
            # as a variadic argument, and read from there
            self.helpers.append("static void %s_@@(int n, ...) { __builtin_va_list ap; __builtin_va_start(ap, n); while (n--) { %s = __builtin_va_arg(ap, %s); %s } __builtin_va_end(ap); }" % (
                x, t.decl("w"), ty, " ".join(dump(t, "w")[:5])))
            o.append("%s_@@(%d%s);" % (x, (m := r.randint(1, 3)), (", *" + p) * m))
        elif k == 8:
            # arguments around it, so that it is passed in memory at times
            a = r.randint(0, 7)
            self.helpers.append("static int %s_@@(%s%s, int z) { %s return z; }" % (x, "".join("long long b%d, " % i for i in range(a)), t.decl("a"), " ".join(dump(t, "a")[:5])))
            o.append("ev(%s_@@(%s*%s, 7));" % (x, "1, " * a, p))
        elif k == 9:
            ls = [l for l in active_leaves(t) if l.type.kind in "ib"]
            for l in ls[:4]:
                o.append(r.choice(["(*%s)%s += in(%d) & 3;", "(*%s)%s ^= in(%d) & 1;", "(*%s)%s = in(%d) & 1;"]) % (p, l.path, r.randrange(60)))
                if l.type.kind == "i" and not (l.type.signed and (l.width or l.type.size * 8) >= 32):
                    o.append("ev((unsigned long long)(*%s)%s%s);" % (p, l.path, r.choice(["++", "--"])) if r.random() < .5 else "ev((unsigned long long)%s(*%s)%s);" % (r.choice(["++", "--"]), p, l.path))
            self.dump(t, "(*%s)" % p)
        elif k == 10:
            o.append("*%s = (%s){ 0 };" % (p, ty))
            self.dump(t, "(*%s)" % p)
        elif k == 11:
            self.helpers.append("static %s;" % t.decl("g%s_@@" % x))
            o.append("g%s_@@ = *%s; %s = (ev(1), g%s_@@);" % (x, p, t.decl(x), x))
            self.dump(t, x)
            o.append("*%s = %s;" % (p, x))
            self.dump(t, "(*%s)" % p)
        else:
            o.append("{ struct { char c; %s } w = { 5, *%s }; struct { %s char d; } y = { w.b, 6 }; *%s = y.b; ev(w.c + y.d); }" % (t.decl("b") + ";", p, t.decl("b") + ";", p))
            self.dump(t, "(*%s)" % p)

    def op_scalar(self):
        r, o = self.r, self.out
        t = r.choice(self.ints + [BOOL, FLT, DBL])
        p = self.obj(t)
        e = r.choice(["*%s", "%s[0]", "*(%s + inm(1, 1))", "%s[inm(2, 1)]"]) % p
        k = r.randrange(8)
        self.note("scalar %d" % k)
        if k == 0:
            o.append(read_stmt(Leaf("", t), e))
        elif k == 1:
            o.append("%s = %s;" % (e, value_expr(r, Leaf("", t), r.randrange(60))))
        elif k == 2 and t.kind != "f":
            o.append("%s %s 1 + inm(%d, 5);" % (e, r.choice(["|=", "^=", "&="]), r.randrange(60)))
        elif k == 3:
            o.append("if (%s) ev(3); ev(%s ? 4 : 5); ev(!%s); ev(%s && inm(4, 2));" % (e, e, e, e))
        elif k == 4 and t.kind == "i":
            o.append("switch (%s) { case 0: ev(1); break; case 3: ev(2); break; default: ev(9); }" % e)
        elif k == 5 and t.kind == "i" and t.size < 4:
            o.append("ev((unsigned long long)(%s)%s); ev((unsigned long long)%s(%s));" % (e, r.choice(["++", "--"]), r.choice(["++", "--"]), e))
        elif k == 6:
            q = self.obj(t, False)
            o.append("*%s = %s;" % (q, e))
            o.append(read_stmt(Leaf("", t), "*" + q))
        else:
            n = r.randint(1, 11)
            a = self.id("a")
            o.append("%s = gmem(%d * sizeof *%s, _Alignof(%s)); for (int i = 0; i < %d; i++) %s[i] = %s;" % (t.decl("*" + a), n, a, t.decl(""), n, a, e))
            o.append("for (int i = %d; i-- > 0;) { %s }" % (n, read_stmt(Leaf("[i]", t), a)))
            o.append("evm(%s, %d * sizeof *%s);" % (a, n, a))
        o.append(read_stmt(Leaf("", t), "*" + p))

    def op_string(self):
        r, o = self.r, self.out
        self.note("string")
        n = r.randint(1, 24)
        s = "".join(r.choice("abcxyz019 ") for _ in range(r.randint(0, n - 1)))
        x = self.id()
        o.append("struct { char s[%d]; } *%s = gmem(%d, 1); *%s = (__typeof__(*%s)){ \"%s\" }; evm(%s, %d);" % (n, x, n, x, x, s, x, n) if False else
                 "typedef struct { char s[%d]; } T%s; T%s *%s = gmem(%d, 1); *%s = (T%s){ \"%s\" }; evm(%s, %d);" % (n, x, x, x, n, x, x, s, x, n))
        o.append("for (char *q = %s->s; *q; q++) ev(*q);" % x)

    def op_part(self):
        """only one member is accessible"""
        r, o = self.r, self.out
        t = self.agg()
        ty = t.decl("")
        p = self.id("p")
        if t.union or t.anon:
            return
        ms = [m for m in t.mems if m.name and m.width is None]
        subs = [(m, "." + m.name, m.type) for m in ms]
        if not subs:
            return
        m, path, st = r.choice(subs)
        if isinstance(st, Arr) and r.random() < .6:
            path += "[%d]" % r.randrange(st.n)
            st = st.elem
        elif isinstance(st, Agg) and not st.union and r.random() < .5:
            c = [x for x in st.mems if x.name and x.width is None]
            if c:
                y = r.choice(c)
                path, st = path + "." + y.name, y.type
        self.note("member alone")
        off = "OFF(%s, %s)" % (ty, path[1:])
        o.append("%s = gpart(_Alignof(%s), %s, sizeof %s->%s);" % (t.decl("*" + p), ty, off, p, path[1:]))
        e = "(*%s)%s" % (p, path)
        o += fill(r, st, e, self.n)
        if not isinstance(st, Arr):
            x = self.id()
            o.append("%s = %s; %s = %s;" % (st.decl(x), e, e, x))
            self.dump(st, x)
        if isinstance(st, Sc) and st.kind == "i" and st.size < 4:
            o.append("%s += 3; %s++; %s ^= inm(9, 9);" % (e, e, e))
        self.dump(st, e)

    def op_bits(self):
        """a run of bit-fields is accessible without the members around it"""
        r, o = self.r, self.out
        self.note("bit-fields alone")
        n = self.id()
        pre = r.choice(["", "", "char a; ", "short a; ", "int a; ", "char a; short a2; "])
        post = r.choice(["char z;", "char z;", "short z;", "int z;", "char z[3];"])
        bits, fs = [], []
        base = r.choice([INTS[5], INTS[6], INTS[6], INTS[2], INTS[4], INTS[10]])
        total = 0
        for i in range(r.randint(1, 4)):
            w = r.randint(1, base.size * 8)
            bits.append("%s : %d;" % (base.decl("b%d" % i), w))
            fs.append(("b%d" % i, w))
        T = "struct T%s_@@" % n
        self.helpers.append("%s { %s%s %s };" % (T, pre, " ".join(bits), post))
        start = "OFF(%s, %s) + sizeof ((%s *)0)->%s" % (T, "a2" if "a2" in pre else "a", T, "a2" if "a2" in pre else "a") if pre else "0"
        o.append("%s *%s = gpart(_Alignof(%s), %s, OFF(%s, z) - (%s));" % (T, n, T, start, T, start))
        for f, w in fs:
            o.append("%s->%s = in(%d);" % (n, f, r.randrange(60)))
            if r.random() < .4:
                o.append("%s->%s %s inm(%d, 2);" % (n, f, r.choice(["^=", "|=", "&="]), r.randrange(60)))
        for f, w in fs:
            o.append("ev((unsigned long long)%s->%s);" % (n, f))

    def op_none(self):
        """an expression that is not evaluated, or whose value is not needed, touches nothing"""
        r, o = self.r, self.out
        self.note("not evaluated")
        t = r.choice(self.ints + [DBL]) if r.random() < .5 else self.agg()
        p, x = self.id("p"), self.id()
        if isinstance(t, Agg) and (t.union or not [l for l in active_leaves(t)]):
            return
        l = r.choice(list(active_leaves(t)))
        e = "(*%s)%s" % (p, l.path)
        rd = read_stmt(l, "(*%s)" % p)
        o.append("%s = gnone();" % t.decl("*" + p))
        z = "inm(%d, 1)" % r.randrange(60)
        o.append(r.choice([
            "ev(sizeof *%s);" % p,
            "if (%s) %s else ev(2);" % (z, rd),
            "ev(%s && %s);" % (z, e),
            "ev(!%s || %s);" % (z, e),
            "for (int i = 0; i < %s; i++) %s ev(3);" % (z, rd),
            "while (%s) { %s break; } ev(4);" % (z, rd),
            "ev(%s ? (int)%s : 5);" % (z, e) if l.type.kind != "f" else "ev(%s ? %s > 1 : 5);" % (z, e),
            "ev(sizeof(%s)); ev((char *)&*%s == (char *)%s); ev((char *)(%s + 1) - (char *)%s);" % (e if l.width is None else "*" + p, p, p, p, p),
            "if (%s) { %s = 0; } ev(6);" % (z, e) if l.type.kind != "p" else "if (%s) { %s = gnone(); } ev(6);" % (z, e),
            "switch (%s) { case 1: %s break; default: ev(7); }" % (z, rd),
            "{ %s = gmem(sizeof *%s, _Alignof(%s)); int y_ = %s; if (y_) *%s = *%s; evm(%s, sizeof *%s); }" % (t.decl("*" + x), x, t.decl(""), z, x, p, x, x),
            "ev((unsigned long long)(%s - 1 - inm(7, 1) + 2 == %s + 1));" % (p, p),
            "{ int y_ = %s; if (!y_) goto L%s_@@; %s L%s_@@: ev(8); }" % (z, x, rd, x),
        ]))

    def test(self):
        r = self.r
        for _ in range(r.randint(2, 6)):
            r.choice([self.op_agg, self.op_agg, self.op_agg, self.op_scalar, self.op_scalar, self.op_part, self.op_bits, self.op_none, self.op_string])()
        return "enum e_@@ { E0_@@, E1_@@, E2_@@, E3_@@ = 3 };\n" + "\n".join(self.g.defs + self.helpers) + "\nvoid t_@@(int v) {\n  " + "\n  ".join(self.out) + "\n}\n"


class Confined:
    stepping = True

    def confine(self, *flags):
        self.rt = rt_object("-DCONFINE", "-mno-red-zone", *flags)

    def exec(self, exe, salt, cap=None):
        cmd = [exe, str(self.nvec), str(salt), "-1", str(cap or 200000)]
        mine = os.path.basename(exe) in ("c", "sc")
        if self.stepping and mine:
            cmd.append("step")
        res = run(cmd, timeout=120, cpu=90)
        m = re.search(rb"CONFINE steps (\d+) objects (\d+) stack (\d+)", res[1])
        if m and mine:
            with self.lock:
                self.c.count(instructions_stepped=int(m.group(1)), guarded_objects=int(m.group(2)))
        return res


class ConfinedRunner(Confined, Runner):
    pass


class ConfinedMs(Confined, MsRunner):
    pass


def check(c):
    c.rule = ("random operations on objects and single members that lie against inaccessible memory, and programs of every generator single-stepped with the memory below the stack pointer overwritten "
              "after every instruction, under both ABIs; non-trivial = distinct (function, vector) with events")
    cc = build_cc("plain")
    kinds = {}

    def gen(r, j, longs=True):
        g = ObjGen(r, longs)
        t = g.test()
        for k, n in g.kinds.items():
            kinds[k] = kinds.get(k, 0) + n
        return Test(t if longs else "#ifdef PART_B\n%s\n#endif\n" % t)
    R = ConfinedRunner(c, cc, nvec=4, prelude=PRE, what="guarded objects")
    R.confine()
    R.stepping = False
    R.run_files(c.n(400, 8000), gen, per_file=10, tag="obj")
    R = ConfinedMs(c, cc, ("cc", "cc"), nvec=4, prelude=PRE, what="guarded objects, Microsoft ABI")
    R.confine("-DMS")
    R.stepping = False
    R.run_files(c.n(120, 2400), lambda r, j: gen(r, j, False), per_file=10, tag="objms")
    c.count(**{"operations: " + k: n for k, n in kinds.items()})
    both = "#define PART_A\n#define PART_B\n"
    for name, gn, pre, per, n in (("int", c01.gen, "", 8, 10), ("float", c02.gen, "", 8, 10), ("flow", c04.gen, c04.PRELUDE, 6, 25), ("data", c05.gen, "", 6, 40), ("layout", c06.gen, "", 5, 15),
                                  ("init", c07.gen, "", 4, 25), ("vla", lambda r, j: Test(c22.Gen(r).test()), c22.PRE, 6, 40), ("abi", c08.gen_test, both, 5, 40), ("va", c23.gen, both, 5, 20),
                                  ("objects", gen, PRE, 6, 20)):
        R = ConfinedRunner(c, cc, nvec=2, prelude=pre, what="single-stepped, %s" % name)
        R.confine()
        R.run_files(c.n(n, n * 14), gn, per_file=per, tag="s" + name)
        c.count(**{"stepped_" + name: c.n(n, n * 14)})
    for name, gn, per, n in (("abi", lambda r, j: c08.gen_test(r, j, longs=False), 5, 30), ("va", lambda r, j: c23.gen(r, j, longs=False), 5, 15)):
        R = ConfinedMs(c, cc, ("cc", "cc"), nvec=2, what="single-stepped, Microsoft ABI, %s" % name)
        R.confine("-DMS")
        R.run_files(c.n(n, n * 14), gn, per_file=per, tag="m" + name)
        c.count(**{"stepped_ms_" + name: c.n(n, n * 14)})
    c.assumptions = ["the reference's accesses stay inside of its objects wherever it does not fault itself"]
    c.min_nontrivial = 1000


if __name__ == "__main__":
    main("C30", check)
