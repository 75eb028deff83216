"""Random call signatures with bodies that record every argument and result.
Part A defines the functions, part B the callers (and callbacks called from A)."""
from .gentype import *

SMALL = [Sc("float", "f", 4), Sc("double", "f", 8)]


class Sig:
    def __init__(self, name, ret, args, variadic=()):
        self.name, self.ret, self.args, self.variadic = name, ret, args, list(variadic)

    def proto(self, name=None, attr=""):
        a = ", ".join(t.decl("a%d" % i) for i, t in enumerate(self.args)) or "void"
        if self.variadic:
            a += ", ..."
        fn = "%s%s(%s)" % (attr, name or self.name, a)
        return "void " + fn if self.ret is None else self.ret.decl(fn)


def plain_type(r, g, depth=1):
    p = r.random()
    if p < .45:
        return g.scalar()
    if g.aggs and p < .8:
        return r.choice(g.aggs)
    return g.agg(depth)


def small_agg(r, g):
    """aggregates at the classification boundaries"""
    g.n += 1
    tag = "%s_%d" % (g.prefix, g.n)
    k = r.random()
    S = lambda n: next(s for s in SCALARS if s.name == (n if n != "long" or g.o["longs"] else "long long"))
    if k < .3:
        t = r.choice(["char", "short", "int", "float", "double", "long", "unsigned char"])
        mems = [Mem("m", Arr(S(t), r.randint(1, {"char": 18, "unsigned char": 18, "short": 9, "int": 5, "float": 5}.get(t, 3))))]
    else:
        mems = [Mem("m%d" % i, S(r.choice(["char", "short", "int", "float", "float", "double", "double", "long", "_Bool", "void *"]))) for i in range(r.randint(1, 5))]
        if r.random() < .3:
            i = r.randrange(len(mems))
            mems[i] = Mem("m%d" % i, Arr(r.choice([S("char"), S("float"), S("int")]), r.randint(1, 4)))
    a = Agg(tag, r.random() < .15, mems)
    g.defs.append(a.definition())
    g.aggs.append(a)
    return a


def union_free(t):
    return not has_union(t)


def fill(r, t, obj, k):
    """statements giving obj (an lvalue) defined contents, all bytes first"""
    out = ["{ unsigned char *b_ = (unsigned char *)&%s; for (unsigned long q_ = 0; q_ < sizeof %s; q_++) b_[q_] = 0; }" % (obj, obj)] if isinstance(t, Agg) else []
    for n, l in enumerate(active_leaves(t)):
        out.append("%s%s = %s;" % (obj, l.path, value_expr(r, l, (k * 7 + n) % 60)))
    return out


def active_leaves(t, path="", width=None):
    """leaves; of a union only its first member"""
    if isinstance(t, Arr):
        for i in range(t.n or 0):
            yield from active_leaves(t.elem, "%s[%d]" % (path, i))
    elif isinstance(t, Agg):
        ms = [m for m in t.mems if m.name or isinstance(m.type, Agg)]
        for m in ms[:1] if t.union else ms:
            if m.width is not None:
                yield Leaf(path + "." + m.name, m.type, m.width)
            elif not m.name:
                yield from active_leaves(m.type, path)
            else:
                yield from active_leaves(m.type, path + "." + m.name)
    else:
        yield Leaf(path, t, width)


def dump(t, obj):
    return [read_stmt(l, obj) for l in active_leaves(t)]


VA_SCALARS = [s for s in SCALARS if s.name in ("int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "double", "void *", "char *", "int *")]


def gen_sig(r, g, name, max_args=14, variadic=True, structs=True):
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, max_args])
    style = r.random()
    args = []
    for _ in range(n):
        if style < .2:
            args.append(r.choice(SMALL))
        elif style < .35:
            args.append(r.choice([t for t in INTS if g.o["longs"] or t.name not in ("long", "unsigned long")] + [BOOL]))
        elif structs and style < .6:
            args.append(small_agg(r, g) if r.random() < .4 else r.choice(g.aggs) if g.aggs and r.random() < .6 else g.scalar())
        elif structs:
            args.append(plain_type(r, g))
        else:
            args.append(g.scalar())
    p = r.random()
    ret = None if p < .1 else g.scalar() if p < .5 or not structs else small_agg(r, g) if p < .75 else plain_type(r, g)
    va = []
    if variadic and args and r.random() < .35:
        for _ in range(r.choice([0, 1, 2, 4, 6, 8, 11])):
            if structs and r.random() < .3:
                va.append(small_agg(r, g) if r.random() < .3 or not g.aggs else r.choice(g.aggs))
            else:
                va.append(r.choice([t for t in VA_SCALARS if g.o["longs"] or t.name not in ("long", "unsigned long")]))
    s = Sig(name, ret, args, va)
    s.is_va = bool(va) or (variadic and args and r.random() < .03)
    return s


def callee(r, s, va_macro=""):
    """definition of the function: records its arguments, returns a value made from inputs"""
    o = [s.proto() + " {"]
    if s.ret is not None:
        o.append("  %s;" % s.ret.decl("ret"))
    o.append("  char pad_[%d]; for (int i = 0; i < %d; i++) pad_[i] = i;" % ((p := r.choice([1, 16, 40])), p))
    order = list(range(len(s.args)))
    if r.random() < .3:
        r.shuffle(order)
    for i in order:
        for l in dump(s.args[i], "a%d" % i):
            o.append("  " + l)
    if s.variadic:
        o.append("  __builtin_va_list ap; __builtin_va_start(ap, a%d);" % (len(s.args) - 1))
        for i, t in enumerate(s.variadic):
            o.append("  { %s = __builtin_va_arg(ap, %s); %s }" % (t.decl("w"), t.decl(""), " ".join(dump(t, "w"))))
        o.append("  __builtin_va_end(ap);")
    # arguments are the callee's own copies
    for i in order[:3]:
        for st in fill(r, s.args[i], "a%d" % i, 11 + i):
            o.append("  " + st)
    for i in order[:3]:
        for l in dump(s.args[i], "a%d" % i)[:3]:
            o.append("  " + l)
    if s.ret is not None:
        for st in fill(r, s.ret, "ret", 33):
            o.append("  " + st)
    o.append("  ev(pad_[%d]);" % (p - 1))
    if s.ret is not None:
        o.append("  return ret;")
    o.append("}")
    return "\n".join(o)


def call(r, s, fn, tag):
    """statements calling fn with recorded arguments and recording the result"""
    o = ["{"]
    names = []
    for i, t in enumerate(list(s.args) + list(s.variadic)):
        if isinstance(t, Sc) and r.random() < .4:
            v = value_expr(r, Leaf("", t), (tag * 13 + i) % 60)
            if i >= len(s.args) or t.kind == "p":
                # through the ellipsis the argument must have exactly the promoted type
                v = "(%s)(%s)" % (t.decl(""), v)
            names.append(v)
        else:
            n = "x%d_%d" % (tag, i)
            o.append("  %s;" % t.decl(n))
            o += ["  " + x for x in fill(r, t, n, tag * 3 + i)]
            names.append(n)
    c = "%s(%s)" % (fn, ", ".join(names))
    if s.ret is None:
        o.append("  %s;" % c)
    elif isinstance(s.ret, Agg) and r.random() < .3 and not s.ret.union:
        # use a member of the returned value directly
        ls = [l for l in active_leaves(s.ret)]
        o.append("  %s; rr = %s;" % (s.ret.decl("rr"), c))
        o += ["  " + x for x in dump(s.ret, "rr")]
        l = r.choice(ls)
        if "[" not in l.path:
            o.append("  " + read_stmt(l, c))
    else:
        o.append("  %s = %s;" % (s.ret.decl("rr"), c))
        o += ["  " + x for x in dump(s.ret, "rr")]
    # the caller's objects are untouched
    for i, t in enumerate(s.args):
        n = "x%d_%d" % (tag, i)
        if names[i] == n and isinstance(t, Agg):
            o += ["  " + x for x in dump(t, n)[:3]]
    o.append("}")
    return "\n".join("  " + x for x in o)
