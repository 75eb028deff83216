"""Random object types (structs, unions, arrays, bit-fields, pointers) and the
paths to their scalar leaves; shared by the layout, initializer and ABI checks."""


class Sc:
    """Scalar: kind i(nteger), f(loat), p(ointer), e(num), b(ool)."""
    def __init__(self, name, kind, size, signed=True, pre="", post=""):
        self.name, self.kind, self.size, self.signed = name, kind, size, signed

    def decl(self, d):
        return "%s %s" % (self.name, d) if d else self.name


class FnPtr(Sc):
    def decl(self, d):
        return "int (*%s)(int)" % d


CHAR = Sc("char", "i", 1)
INTS = [CHAR, Sc("signed char", "i", 1), Sc("unsigned char", "i", 1, False), Sc("short", "i", 2),
        Sc("unsigned short", "i", 2, False), Sc("int", "i", 4), Sc("unsigned", "i", 4, False), Sc("long", "i", 8),
        Sc("unsigned long", "i", 8, False), Sc("long long", "i", 8), Sc("unsigned long long", "i", 8, False)]
BOOL = Sc("_Bool", "b", 1, False)
FLT, DBL = Sc("float", "f", 4), Sc("double", "f", 8)
PTRS = [Sc("void *", "p", 8), Sc("char *", "p", 8), Sc("int *", "p", 8)]
FN = FnPtr("fn", "p", 8)
SCALARS = INTS + [BOOL, FLT, DBL, DBL] + PTRS


class Arr:
    def __init__(self, elem, n):
        self.elem, self.n = elem, n

    def decl(self, d):
        return self.elem.decl("%s[%s]" % (d, self.n if self.n is not None else ""))


class Mem:
    def __init__(self, name, type, width=None, align=None):
        self.name, self.type, self.width, self.align = name, type, width, align


class Agg:
    def __init__(self, tag, union, mems, packed=False, pragma=None, anon=False):
        self.tag, self.union, self.mems, self.packed, self.pragma, self.anon = tag, union, mems, packed, pragma, anon

    @property
    def kw(self):
        return "union" if self.union else "struct"

    def decl(self, d):
        if self.anon:
            return "%s %s%s %s" % (self.kw, "__attribute__((packed)) " if self.packed else "", self.body(), d)
        return "%s %s %s" % (self.kw, self.tag, d) if d else "%s %s" % (self.kw, self.tag)

    def body(self):
        out = []
        for m in self.mems:
            if m.width is not None:
                out.append("%s : %d;" % (m.type.decl(m.name), m.width))
            else:
                out.append(("_Alignas(%s) " % m.align if m.align else "") + m.type.decl(m.name) + ";")
        return "{ " + " ".join(out) + " }"

    def definition(self):
        s = "%s %s%s %s;" % (self.kw, "__attribute__((packed)) " if self.packed else "", self.tag, self.body())
        if self.pragma:
            s = "#pragma pack(push, %d)\n%s\n#pragma pack(pop)" % (self.pragma, s)
        return s


class Leaf:
    def __init__(self, path, type, width=None):
        self.path, self.type, self.width = path, type, width


def leaves(t, path="", width=None):
    if isinstance(t, Arr):
        for i in range(t.n or 0):
            yield from leaves(t.elem, "%s[%d]" % (path, i))
    elif isinstance(t, Agg):
        for m in t.mems:
            if m.width is not None:
                if m.name:
                    yield Leaf(path + "." + m.name, m.type, m.width)
            elif not m.name:
                yield from leaves(m.type, path)
            else:
                yield from leaves(m.type, path + "." + m.name)
    else:
        yield Leaf(path, t, width)


def subobjects(t, path=""):
    """(path, type) of every addressable object in t."""
    yield path, t
    if isinstance(t, Arr):
        for i in range(t.n or 0):
            yield from subobjects(t.elem, "%s[%d]" % (path, i))
    elif isinstance(t, Agg):
        for m in t.mems:
            if m.width is None:
                if m.name:
                    yield from subobjects(m.type, path + "." + m.name)
                else:
                    for x in subobjects(m.type, path):
                        if x[0] != path:
                            yield x


def has_union(t):
    if isinstance(t, Arr):
        return has_union(t.elem)
    if isinstance(t, Agg):
        return t.union or any(has_union(m.type) for m in t.mems)
    return False


class TypeGen:
    def __init__(self, rng, prefix, bitfields=True, unions=True, pack=True, align=True, floats=True, ptrs=True,
                 anon=True, long_bits=True, max_members=6, empty=False, fam=False, max_arr=4, fnptr=True, enums=(), unnamed=True, longs=True):
        self.r, self.prefix, self.n = rng, prefix, 0
        self.defs, self.aggs = [], []
        self.o = dict(bitfields=bitfields, unions=unions, pack=pack, align=align, floats=floats, ptrs=ptrs, anon=anon,
                      long_bits=long_bits, max_members=max_members, fam=fam, max_arr=max_arr, fnptr=fnptr, unnamed=unnamed, longs=longs)
        self.enums = list(enums)

    def scalar(self):
        r = self.r
        while True:
            t = r.choice(SCALARS + self.enums + ([FN] if self.o["fnptr"] else []))
            if not self.o["longs"] and t.name in ("long", "unsigned long"):
                continue
            if t.kind == "f" and not self.o["floats"]:
                continue
            if t.kind == "p" and not self.o["ptrs"]:
                continue
            return t

    def type(self, depth, array=True):
        r = self.r
        p = r.random()
        if depth > 0 and p < 0.28:
            if self.aggs and r.random() < 0.5:
                return r.choice(self.aggs)
            return self.agg(depth - 1)
        if array and p < 0.45:
            return Arr(self.type(depth - 1 if depth else 0, array=r.random() < 0.3), r.randint(1, self.o["max_arr"]))
        return self.scalar()

    def bitfield(self, name):
        r = self.r
        t = r.choice([t for t in INTS if self.o["longs"] or t.name not in ("long", "unsigned long")] + [BOOL] + [INTS[5], INTS[6]] * 3)
        bits = 1 if t is BOOL else t.size * 8
        if not self.o["long_bits"] and bits > 32:
            bits = 32
            t = INTS[6]
        w = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 23, 24, 31, 32, 33, 40, 63, 64])
        w = min(w, bits)
        if w > 32 and t.size < 8:
            w = 32
        return Mem(name, t, w)

    def agg(self, depth=2, anon=False, union=None, name=None, plain=False):
        r = self.r
        if union is None:
            union = self.o["unions"] and r.random() < 0.2
        packed, pragma = False, None
        if self.o["pack"] and not anon:
            p = r.random()
            if p < 0.12:
                packed = True
            elif p < 0.22:
                pragma = r.choice([1, 2, 4, 8, 16])
        bit_ok = self.o["bitfields"] and not plain and not packed and pragma is None
        plain = plain or packed or pragma is not None
        mems = []
        style = r.random()
        self.n += 1
        tag = "%s_%d" % (self.prefix, self.n)
        nm = r.randint(1, self.o["max_members"])
        for i in range(nm):
            self.n += 1
            name = "m%d" % self.n
            p = r.random()
            if bit_ok and (p < 0.15 or (style < 0.25 and p < 0.8)):
                q = r.random()
                if q < 0.14 and not self.o["unnamed"]:
                    mems.append(self.bitfield(name))
                elif q < 0.07:
                    mems.append(Mem("", r.choice([t for t in INTS]), 0))
                elif q < 0.14:
                    b = self.bitfield("")
                    mems.append(b)
                else:
                    mems.append(self.bitfield(name))
            elif self.o["anon"] and depth > 0 and p > 0.93:
                mems.append(Mem("", self.agg(depth - 1, anon=True, plain=plain)))
            else:
                m = Mem(name, self.type(depth))
                if self.o["align"] and not plain and r.random() < 0.05:
                    m.align = r.choice([1, 2, 4, 8, 16, 32, "int", "long", "double"])
                    if not self.align_ok(m):
                        m.align = None
                mems.append(m)
        if not any(m.name or isinstance(m.type, Agg) for m in mems):
            mems.append(Mem("m%d_" % self.n, self.scalar()))
        a = Agg(tag, union, mems, packed, pragma, anon)
        if not anon:
            self.defs.append(a.definition())
            if not any(isinstance(m.type, Arr) and m.type.n is None for m in mems):
                self.aggs.append(a)
        return a

    def align_of(self, t):
        if isinstance(t, Sc):
            return t.size
        if isinstance(t, Arr):
            return self.align_of(t.elem)
        return max([1] + [max(self.align_of(m.type), m.align if isinstance(m.align, int) else 8 if m.align else 1)
                          for m in t.mems])

    def align_ok(self, m):
        a = {"int": 4, "long": 8, "double": 8}.get(m.align, m.align)
        return a >= self.align_of(m.type)


def enum_type(name):
    return Sc("enum " + name, "e", 4, False)


def value_expr(r, l, k):
    """C expression of a value to store in leaf l; depends on the input vector."""
    t = l.type
    if t.kind == "p":
        return "(void *)in(%d)" % k if not isinstance(t, FnPtr) else "(int (*)(int))in(%d)" % k
    if t.kind == "f":
        return "(%s)inm(%d, 1000) / 8" % (t.name, k)
    if t.kind == "b":
        return "inm(%d, 2)" % k
    if t.kind == "e":
        w = l.width
        return "inm(%d, %d)" % (k, 1 << min(2, (w or 8) - 1) if w != 1 else 1)
    return "in(%d)" % k


def read_stmt(l, obj):
    e = obj + l.path
    t = l.type
    if t.kind == "f":
        return "{ double q_ = %s; evdp(&q_); }" % e
    if t.kind == "p":
        return "ev((unsigned long long)%s);" % e
    if t.kind == "e":
        return "ev((int)%s);" % e
    return "ev((unsigned long long)%s);" % e
