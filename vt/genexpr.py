"""Random typed C expressions (integers and floating point)."""
INT = {  # name: (bits, signed, rank)
    "char": (8, True, 1), "signed char": (8, True, 1), "unsigned char": (8, False, 1),
    "short": (16, True, 2), "unsigned short": (16, False, 2),
    "int": (32, True, 3), "unsigned int": (32, False, 3), "unsigned": (32, False, 3),
    "long": (64, True, 4), "unsigned long": (64, False, 4),
    "long long": (64, True, 5), "unsigned long long": (64, False, 5),
    "_Bool": (1, False, 0),
}
INTS = [t for t in INT if t != "unsigned"]
FLT = ["float", "double"]
CANON = {(32, True, 3): "int", (32, False, 3): "unsigned int"}


def promote(t):
    if t in FLT:
        return t
    b, s, r = INT[t]
    return "int" if r < 3 else ("unsigned int" if t == "unsigned" else t)


def usual(a, b):
    if "double" in (a, b):
        return "double"
    if "float" in (a, b):
        return "float"
    a, b = promote(a), promote(b)
    if a == b:
        return a
    (ab, as_, ar), (bb, bs, br) = INT[a], INT[b]
    if as_ == bs:
        return a if ar > br else b
    u, ur, ub, s, sr, sb = (a, ar, ab, b, br, bb) if not as_ else (b, br, bb, a, ar, ab)
    if ur >= sr:
        return u
    if sb > ub:
        return s
    return "unsigned " + s


INTERESTING = [0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 32767,
               32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 0x7fffffffffffffff,
               0x8000000000000000, 0xffffffffffffffff, 0x123456789abcdef, 0x55555555, 0xaaaaaaaa]


def const_type(v, suf, hexa):
    s = suf.lower()
    u = "u" in s
    l = s.count("l")
    cands = []
    if l < 1:
        cands += (["unsigned int"] if u else ["int"] + (["unsigned int"] if hexa else []))
    if l < 2:
        cands += (["unsigned long"] if u else ["long"] + (["unsigned long"] if hexa else []))
    cands += (["unsigned long long"] if u else ["long long"] + (["unsigned long long"] if hexa else []))
    for c in cands:
        b, sg, _ = INT[c]
        if v < (1 << (b - (1 if sg else 0))):
            return c
    return None


class ExprGen:
    def __init__(self, rng, vars, floats=False, side=True, calls=(), maxdepth=4, ints=True, comma=True):
        """vars: list of (lvalue text, type). calls: list of (fname, [argtypes], rettype)."""
        self.r, self.vars, self.floats, self.side, self.calls = rng, vars, floats, side, list(calls)
        self.maxdepth, self.ints, self.comma = maxdepth, ints, comma
        self.reset()

    def reset(self):
        self.read, self.written = set(), set()

    # leaves ---------------------------------------------------------
    def const(self):
        r = self.r
        if self.floats and r.random() < (0.4 if self.ints else 1.0):
            v = r.choice(["0.0", "1.0", "0.5", "2.0", "3.25", "1e10", "0.1", "100.0", "1e-3", "16777217.0", "1e18", "7.0"])
            if r.random() < .35:
                return v + r.choice("fF"), "float"
            return v, "double"
        while True:
            v = r.choice(INTERESTING) if r.random() < .6 else r.randrange(0, 1 << r.choice([3, 5, 8, 16, 31, 32, 33, 63, 64]))
            suf = r.choice(["", "", "", "u", "U", "l", "L", "ul", "UL", "ll", "LL", "ull", "ULL", "LLU", "lu"])
            form = r.choice("dddxo")
            t = const_type(v, suf, form != "d")
            if t is None:
                continue
            txt = {"d": "%d", "x": "0x%x", "o": "0%o"}[form] % v
            return txt + suf, t

    def usable(self):
        return [(x, t) for x, t in self.vars if x not in self.written]

    def leaf(self):
        u = self.usable()
        if u and self.r.random() < .78:
            x, t = self.r.choice(u)
            self.read.add(x)
            return x, t
        return self.const()

    # expressions ----------------------------------------------------
    def expr(self, d=None):
        r = self.r
        d = self.maxdepth if d is None else d
        if d <= 0 or r.random() < .08:
            return self.leaf()
        k = r.random()
        if k < .52:
            return self.binary(d)
        if k < .63:
            return self.unary(d)
        if k < .75:
            return self.cast(d)
        if k < .82:
            return self.cond(d)
        if k < .85 and self.comma:
            a, _ = self.expr(d - 1)
            b, t = self.expr(d - 1)
            return "((void)(%s), %s)" % (a, self.par(b)), t
        if k < .90 and self.side:
            return self.assign(d)
        if k < .94 and self.side:
            return self.incdec()
        if k < .98 and self.calls:
            f, at, rt = r.choice(self.calls)
            return "%s(%s)" % (f, ", ".join(self.expr(d - 2)[0] for _ in at)), rt
        return self.binary(d)

    def par(self, s):
        return "(%s)" % s

    def int_expr(self, d):
        for _ in range(20):
            save = set(self.read), set(self.written)
            e, t = self.expr(d)
            if t in INT:
                return e, t
            self.read, self.written = save
        return "3", "int"

    def arith(self, t):
        return t in INT or t in FLT

    def binary(self, d):
        r = self.r
        op = r.choice(["+", "+", "-", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"])
        if op in ("%", "&", "|", "^", "<<", ">>"):
            a, ta = self.int_expr(d - 1)
            b, tb = self.int_expr(d - 1)
        else:
            w = set(self.written)
            a, ta = self.expr(d - 1)
            if op in ("<", ">", "<=", ">=", "==", "!=", "-") and r.random() < .08 and w == self.written and not any(f[0] in a for f in self.calls):
                b, tb = a, ta  # equal operands
            else:
                b, tb = self.expr(d - 1)
        if op in ("/", "%") and tb in INT and (not self.comma or r.random() < .8):
            b = "(%s) | 1" % b if r.random() < .6 else str(r.choice([1, 2, 3, 5, 7, 10, 16, 255, 1000])) + r.choice(["", "", "u", "l", "ul"])
            if not b.endswith("| 1"):
                tb = const_type(int(b.rstrip("ul")), b[len(b.rstrip("ul")):], False)
            else:
                tb = promote(usual(tb, "int"))
        if op in ("<<", ">>"):
            m = INT[promote(ta)][0] - 1
            q = r.random()
            if q < .6:
                b = "(%s) & %d" % (b, r.choice([m, m >> 1, 3, 7]))
            else:
                b = str(r.randrange(0, m + 1)) + r.choice(["", "", "u", "l", "ul", "ll"])
            if op == "<<" and INT[promote(ta)][1] and r.random() < .6:
                # keep signed left shifts defined more often
                a, ta = "(unsigned int)(%s)" % a if INT[promote(ta)][0] == 32 else "(unsigned long)(%s)" % a, \
                    "unsigned int" if INT[promote(ta)][0] == 32 else "unsigned long"
            return "(%s) %s (%s)" % (a, op, b), promote(ta)
        t = usual(ta, tb)
        if op in ("+", "-", "*") and t in INT and INT[t][1] and r.random() < .35:
            u = "unsigned int" if INT[t][0] == 32 else "unsigned long"
            a = "(%s)(%s)" % (u, a)
            t = usual(u, tb)
        if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
            t = "int"
        return "(%s) %s (%s)" % (a, op, b), t

    def unary(self, d):
        op = self.r.choice("-+~!")
        if op == "~":
            a, t = self.int_expr(d - 1)
        else:
            a, t = self.expr(d - 1)
        return "%s(%s)" % (op, a), "int" if op == "!" else promote(t)

    def cast(self, d):
        a, ta = self.expr(d - 1)
        pool = (INTS if self.ints else []) + (FLT * 3 if self.floats else [])
        t = self.r.choice(pool)
        return "(%s)(%s)" % (t, a), t

    def cond(self, d):
        a, _ = self.expr(d - 1)
        b, tb = self.expr(d - 1)
        c, tc = self.expr(d - 1)
        return "(%s) ? (%s) : (%s)" % (a, b, c), usual(tb, tc)

    def pick_target(self, ints_only):
        c = [(x, t) for x, t in self.vars if x not in self.read and x not in self.written and (not ints_only or t in INT)]
        if not c:
            return None
        x = self.r.choice(c)
        self.written.add(x[0])
        return x

    def assign(self, d):
        r = self.r
        op = r.choice(["=", "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="])
        io = op in ("%=", "&=", "|=", "^=", "<<=", ">>=")
        tg = self.pick_target(io)
        if not tg:
            return self.leaf()
        x, t = tg
        e, te = self.int_expr(d - 1) if io else self.expr(d - 1)
        if op in ("/=", "%=") and te in INT:
            e = "(%s) | 1" % e
        if op in ("<<=", ">>="):
            e = "(%s) & %d" % (e, r.choice([3, 7, 15, 31]))
        return "(%s %s (%s))" % (x, op, e), t

    def incdec(self):
        tg = self.pick_target(False)
        if not tg:
            return self.leaf()
        x, t = tg
        o = self.r.choice(["++", "--"])
        return ("(%s%s)" % (x, o) if self.r.random() < .5 else "(%s%s)" % (o, x)), t

    def top(self, d=None):
        self.reset()
        return self.expr(d)
