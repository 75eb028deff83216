"""Random control flow: every statement form of C, with an event at every step."""
from .genexpr import ExprGen, INTS

COND_TYPES = ["int", "unsigned", "long", "char", "unsigned char", "short", "unsigned long", "double", "float", "_Bool"]


class StmtGen:
    """Variables are unsigned so that arithmetic is always defined."""
    def __init__(self, r, nvars=4, features=(), max_depth=4, budget=30):
        self.r = r
        self.vars = []
        self.k = 0
        self.uid = 0
        self.budget = budget
        self.max_depth = max_depth
        self.labels = []      # labels that will certainly be defined
        self.pending = []     # labels to be placed
        self.decl = ""
        self.in_loop = self.in_switch = 0
        self.ret = None

    def id(self):
        self.uid += 1
        return self.uid

    def ev(self, e):
        return "ev(%s);" % e

    # small defined expressions over unsigned vars
    def e(self, d=2):
        r = self.r
        if d <= 0 or r.random() < .3:
            return r.choice(self.vars) if r.random() < .75 else "%du" % r.choice([0, 1, 2, 3, 5, 7, 100, 4294967295])
        k = r.randrange(10)
        if k < 5:
            return "(%s %s %s)" % (self.e(d - 1), r.choice(["+", "-", "*", "^", "&", "|"]), self.e(d - 1))
        if k == 5:
            return "(%s >> %d)" % (self.e(d - 1), r.randrange(8))
        if k == 6:
            return "tr(%d, %s)" % (self.id(), self.e(d - 1))
        if k == 7:
            return "(%s ? %s : %s)" % (self.cond(d - 1), self.e(d - 1), self.e(d - 1))
        if k == 8:
            return "(%s, %s)" % (self.tr_or_void(d - 1), self.e(d - 1))
        return "(unsigned)(%s)" % self.cond(d - 1)

    def tr_or_void(self, d):
        return "tr(%d, %s)" % (self.id(), self.e(d))

    def lin(self, d=1):
        """an expression without calls, so that it can stand beside another one"""
        r = self.r
        a = r.choice(self.vars)
        return r.choice([a, "%s + %du" % (a, r.randrange(9)), "%s %% %du" % (a, r.randrange(2, 9)), "(%s & %d)" % (a, r.choice([1, 3, 7])), "%s >> %d" % (a, r.randrange(1, 20))])

    def cond(self, d=2):
        r = self.r
        k = r.randrange(9) if d > 0 else r.randrange(4)
        if k < 3:
            return "%s %s %s" % (self.lin(), r.choice(["<", ">", "<=", ">=", "==", "!="]), self.lin()) if r.random() < .5 else \
                "%s %% %d %s %d" % (r.choice(self.vars), r.randrange(2, 5), r.choice(["==", "!=", "<"]), r.randrange(3))
        if k == 3:
            return r.choice(["%s" % self.lin(), "!(%s)" % self.lin(), "(%s)(%s)" % (r.choice(COND_TYPES), self.lin()),
                             "0", "1"])
        if k < 6:
            return "(%s %s %s)" % (self.cterm(d - 1), r.choice(["&&", "||"]), self.cterm(d - 1))
        if k == 6:
            return "!(%s)" % self.cond(d - 1)
        if k == 7:
            return "(%s ? %s : %s)" % (self.cond(d - 1), self.cond(d - 1), self.cond(d - 1))
        return "tr(%d, %s)" % (self.id(), self.e(d - 1))

    def cterm(self, d):
        return "tr(%d, %s)" % (self.id(), self.cond(d - 1)) if self.r.random() < .6 else "(%s)" % self.cond(d)

    def block(self, d, ind, n=None):
        r = self.r
        keep = list(self.vars)
        out = "{\n"
        if r.random() < .3:
            # a declaration, perhaps shadowing
            nm = r.choice(self.vars) if r.random() < .4 else "n%d" % self.id()
            out += ind + "\tunsigned %s = %du;\n" % (nm, r.randrange(100)) if nm in self.vars else ind + "\tunsigned %s = %s;\n" % (nm, self.e(1))
            if nm not in self.vars:
                self.vars.append(nm)
        for _ in range(r.randrange(1, 5) if n is None else n):
            out += self.stmt(d, ind + "\t")
        out += ind + "}\n"
        self.vars = keep
        return out

    def body(self, d, ind):
        if self.r.random() < .2:
            return "\n" + self.stmt(d, ind + "\t", simple=True)
        return " " + self.block(d, ind)

    def effect(self, d=2):
        """an expression whose value is not used: conditionals of type void, discarded && and ||"""
        r = self.r
        k = r.randrange(8) if d > 0 else 0
        if k < 2:
            return self.tr_or_void(0)
        if k < 5:
            return "(%s ? %s : %s)" % (self.cond(1), self.veffect(d - 1), self.veffect(d - 1))
        if k == 5:
            return "(%s %s %s)" % (self.cterm(1), r.choice(["&&", "||"]), self.cterm(1))
        if k == 6:
            return "(%s, %s)" % (self.effect(d - 1), self.effect(d - 1))
        return "(void)(%s ? %s : %s)" % (self.cond(1), self.e(1), self.e(1))

    def veffect(self, d):
        """of type void"""
        r = self.r
        k = r.randrange(4)
        if k == 0:
            return "(void)0"
        if k == 1:
            return "ev(%s)" % self.e(1)
        return "(void)%s" % self.effect(d)

    def stmt(self, d, ind, simple=False):
        r = self.r
        self.budget -= 1
        if r.random() < .04:
            return ind + self.effect() + ";\n"
        if d <= 0 or self.budget <= 0 or simple:
            return ind + self.leaf()
        k = r.random()
        if k < .22:
            return ind + self.leaf()
        if k < .40:
            s = ind + "if (%s)%s" % (self.cond(), self.body(d - 1, ind))
            if r.random() < .5:
                s += ind + "else%s" % (self.body(d - 1, ind))
            elif r.random() < .2:
                s += ind + "else if (%s)%s" % (self.cond(), self.body(d - 1, ind))
                s += ind + "else%s" % self.body(d - 1, ind)
            return s
        if k < .52:
            return self.loop(d, ind)
        if k < .70:
            return self.switch(d, ind)
        if k < .76:
            # forward goto over statements
            l = "L%d" % self.id()
            s = ind + "if (%s) goto %s;\n" % (self.cond(), l)
            for _ in range(r.randrange(1, 4)):
                s += self.stmt(d - 1, ind)
            s += ind + "%s:%s\n" % (l, r.choice([" ;", " " + self.leaf().strip()]))
            return s
        if k < .82:
            # backward goto with fuel
            l = "L%d" % self.id()
            s = ind + "%s: %s" % (l, self.leaf())
            for _ in range(r.randrange(1, 3)):
                s += self.stmt(d - 1, ind)
            s += ind + "if (--fuel > 0 && %s) goto %s;\n" % (self.cond(1), l)
            if r.random() < .3:
                s += ind + "if (--fuel > 0 && %s) goto %s;\n" % (self.cond(1), l)
            return s
        if k < .87:
            return ind + self.block(d - 1, ind)
        if k < .91:
            # jump into a block
            l = "L%d" % self.id()
            s = ind + "if (%s) goto %s;\n" % (self.cond(1), l)
            s += ind + "if (%s) {\n%s%s\t%s: %s%s}\n" % (self.cond(1), self.stmt(d - 1, ind + "\t"), ind, l, self.leaf(), ind)
            return s
        if k < .95 and self.ret:
            return ind + "if (%s) return %s;\n" % (self.cond(1), self.ret() if callable(self.ret) else self.ret)
        return ind + self.leaf()

    def loop(self, d, ind):
        r = self.r
        c = "c%d" % self.id()
        n = r.randrange(1, 5)
        self.in_loop += 1
        k = r.randrange(6)
        self.vars.append(c)
        pre = ""
        if k == 0:
            s = ind + "for (unsigned %s = 0; %s < %d; %s)%s" % (c, c, n, r.choice(["%s++" % c, "++%s" % c, "%s += 1" % c, "tr(%d, 0), %s++" % (self.id(), c)]), self.body(d - 1, ind))
        elif k == 1:
            pre = ind + "unsigned %s = 0;\n" % c
            s = ind + "while (%s++ < %d && %s)%s" % (c, n, self.cterm(1), self.body(d - 1, ind))
        elif k == 2:
            pre = ind + "unsigned %s = 0;\n" % c
            s = ind + "do%s" % self.block_or(d - 1, ind) + ind + "while (++%s < %d && %s);\n" % (c, n, self.cterm(1))
        elif k == 3:
            pre = ind + "unsigned %s;\n" % c
            s = ind + "for (%s = %d; %s; %s--)%s" % (c, n, c, c, self.body(d - 1, ind))
        elif k == 4:
            pre = ind + "unsigned %s = %d;\n" % (c, n)
            s = ind + "for (;;) {\n" + ind + "\tif (!%s--) break;\n" % c
            for _ in range(r.randrange(1, 4)):
                s += self.stmt(d - 1, ind + "\t")
            s += ind + "}\n"
        else:
            pre = ind + "unsigned %s = %d;\n" % (c, n)
            s = ind + "while (1) {\n"
            for _ in range(r.randrange(1, 3)):
                s += self.stmt(d - 1, ind + "\t")
            s += ind + "\tif (%s-- < 1) break;\n" % c
            # a continue above must not skip the counter forever
            s = s.replace("while (1) {\n", "while (1) {\n%s\tif (--fuel < 0) break;\n" % ind, 1)
            s += ind + "}\n"
        self.in_loop -= 1
        self.vars.remove(c)
        # counters may be changed by the body: fuel bounds every loop
        if pre:
            return ind + "{\n" + pre + s + ind + "}\n"
        return s

    def block_or(self, d, ind):
        return " " + self.block(d, ind)

    def switch(self, d, ind):
        r = self.r
        self.in_switch += 1
        ct = r.choice(["unsigned", "int", "long", "unsigned char", "char", "short", "unsigned long", "unsigned short", "long long"])
        vals = []
        wide = ct in ("long", "unsigned long", "long long") and r.random() < .6
        for _ in range(r.randrange(0, 6)):
            v = r.choice([0, 1, 2, 3, 4, 5, -1, 100, 127, 255, 65535]) if r.random() < .85 else r.choice([4294967296, 4294967297, -4294967296])
            if all((v - w) % (1 << 32) for w in vals) or (wide and all(v != w for w in vals)):
                vals.append(v)
        sel = r.choice(["%s & 3u" % r.choice(self.vars), "%s %% 6u" % r.choice(self.vars), self.lin(), self.e(1),
                        "%s %% 3u - 1" % r.choice(self.vars)])
        if wide and r.random() < .7:
            sel = "((%s)(%s) << 32 | (%s & 1u))" % (ct, "%s & 1u" % r.choice(self.vars), r.choice(self.vars))
        if wide or r.random() < .6:
            sel = "(%s)(%s)" % (ct, sel)
        s = ind + "switch (%s) {\n" % sel
        if r.random() < .1:
            s += ind + "\t%s" % self.leaf()       # unreachable unless jumped over
        items = ["case %s:" % (r.choice(["%d", "%d", "(%d)", "%d + 0"]) % v) for v in vals]
        if r.random() < .7:
            items.insert(r.randrange(len(items) + 1), "default:")
        duff = r.random() < .15 and len(items) > 1
        if duff:
            c = "c%d" % self.id()
            s = ind + "{ unsigned %s = 0;\n" % c + s
            first = items.pop(0)
            style = r.randrange(3)
            s += ind + "\t%s\n" % first
            s += ind + ("\tdo {\n" if style == 0 else "\twhile (%s++ < 3) {\n" % c if style == 1 else "\tfor (; %s < 3; %s++) {\n" % (c, c))
            self.in_loop += 1
            for it in items:
                s += ind + "\t%s\n" % it
                for _ in range(r.randrange(0, 3)):
                    s += self.stmt(d - 2, ind + "\t\t")
            self.in_loop -= 1
            s += ind + "\t\t;\n"
            s += ind + ("\t} while (++%s < 3);\n" % c if style == 0 else "\t}\n")
            s += ind + "}}\n"
        else:
            nest = r.random() < .25
            for it in items:
                s += ind + "\t%s" % it
                if nest and d > 1 and self.budget > 0 and r.random() < .5:
                    s += "\n" + ind + "\t\t" + self.leaf() + self.switch(d - 1, ind + "\t\t")
                    if r.random() < .7:
                        s += ind + "\t\t" + self.leaf() + ind + "\t\tbreak;\n"
                    continue
                if r.random() < .15:
                    s += "\n"
                    continue
                if r.random() < .15:
                    s += " {\n"
                    for _ in range(r.randrange(1, 3)):
                        s += self.stmt(d - 1, ind + "\t\t")
                    s += ind + "\t}\n"
                else:
                    s += "\n"
                    for _ in range(r.randrange(1, 4)):
                        s += self.stmt(d - 1, ind + "\t\t")
                if r.random() < .6:
                    s += ind + "\t\tbreak;\n"
            if items:
                s += ind + "\t\t;\n"
            s += ind + "}\n"
        self.in_switch -= 1
        return s

    def target(self):
        """loop counters are not assigned to"""
        return self.r.choice([v for v in self.vars if not (v[0] == "c" and len(v) > 1)])

    def leaf(self):
        r = self.r
        k = r.randrange(12)
        if k < 3:
            return "ev(%d);\n" % self.id()
        if k < 6:
            return "ev(%s);\n" % self.e()
        if k < 9:
            v = self.target()
            op = r.choice(["=", "+=", "^=", "-=", "*=", "|=", "&="])
            return "%s %s %s;\n" % (v, op, self.e())
        if k == 9:
            v = self.target()
            return r.choice(["%s++;\n", "--%s;\n", "++%s;\n", "%s--;\n"]) % v
        if k == 10 and self.in_loop:
            return "if (%s) %s;\n" % (self.cond(1), r.choice(["break", "continue", "continue"]))
        if k == 10 and self.in_switch:
            return "if (%s) break;\n" % self.cond(1)
        if k == 11:
            return r.choice([";\n", "(void)(%s);\n" % self.e(1), "%s;\n" % self.tr_or_void(1), "%s && (ev(%d), 1);\n" % (self.cterm(1), self.id())])
        return "ev(%s);\n" % r.choice(self.vars)
