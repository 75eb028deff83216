"""Random valid initializers for the types of gentype: nested and elided braces, designators,
overrides, strings, compound literals, whole-aggregate expressions."""
from .gentype import *

STR_ELEM = {"char": ("", 127), "signed char": ("", 127), "unsigned char": ("", 127), "int": ("L", 0xffff),
            "unsigned short": ("u", 0xffff), "unsigned": ("U", 0xffff)}


class Path:
    """A subobject: steps are (container, index)."""
    def __init__(self, steps=()):
        self.steps = tuple(steps)

    def type(self, root):
        t = root
        for c, i in self.steps:
            t = elem(c, i)
        return t

    def text(self):
        s = ""
        for c, i in self.steps:
            if isinstance(c, Arr):
                s += "[%d]" % i
            elif c.mems[i].name:
                s += "." + c.mems[i].name
            else:
                s += "#%d" % i
        return s


def elem(c, i):
    return c.elem if isinstance(c, Arr) else c.mems[i].type


def positions(c):
    if isinstance(c, Arr):
        return list(range(c.n))
    return [i for i, m in enumerate(c.mems) if m.name or isinstance(m.type, Agg)]


def width_of(c, i):
    return c.mems[i].width if isinstance(c, Agg) else None


class InitGen:
    """value(leaf type, width, static) -> expression text."""
    def __init__(self, r, value, struct_expr=None, budget=40):
        self.r, self.value, self.struct_expr = r, value, struct_expr
        self.active = {}     # union path text -> index of the active member
        self.budget = budget

    def scalar(self, t, width, static):
        e = self.value(t, width, static)
        p = self.r.random()
        if p < .06:
            return "{ %s }" % e
        if p < .08:
            return "{ %s, }" % e
        return e

    def string(self, t):
        r = self.r
        if not (isinstance(t, Arr) and isinstance(t.elem, Sc) and t.elem.name in STR_ELEM):
            return None
        pre, mx = STR_ELEM[t.elem.name]
        n = r.randint(0, t.n) if t.n is not None else r.randint(0, 6)
        s = "".join(r.choice(["a", "Q", "7", " ", "\\n", "\\0", "\\x41", "\\377" if pre == "" else "\\x1234" if pre != "u" else "\\xabc", "?", "\\\"", "\\t"]) for _ in range(n))
        # keep a hex escape from swallowing what follows
        s = s.replace("\\x41", "\\x41\" %s\"" % pre).replace("\\x1234", "\\x1234\" %s\"" % pre).replace("\\xabc", "\\xabc\" %s\"" % pre)
        s = s.replace("\\377", "\\377\" %s\"" % pre).replace("\\0", "\\0\" %s\"" % pre)
        if pre == "" and r.random() < .2:
            q = "u8\"%s\"" % s
        else:
            q = "%s\"%s\"" % (pre, s)
        return q if r.random() < .7 else "{ %s }" % q

    def forget(self, text):
        for k in [k for k in self.active if k == text or k.startswith(text + ".") or k.startswith(text + "[") or k.startswith(text + "#")]:
            del self.active[k]

    def switches(self, base, steps):
        text = base
        for c, i in steps:
            if isinstance(c, Agg) and c.union and self.active.get(text, i) != i:
                return True
            text += Path([(c, i)]).text()
        return False

    def activate(self, base, steps):
        """note active union members along a path; switching members forgets the old one"""
        text = base
        for c, i in steps:
            if isinstance(c, Agg) and c.union:
                if self.active.get(text, 0) != i:
                    self.forget(text)
                self.active[text] = i
            text += Path([(c, i)]).text()
        return text

    def braced(self, t, base, static, depth=0, full=False):
        """initializer list in braces for aggregate t located at path text `base`"""
        r = self.r
        self.forget(base)
        items = []
        pos = positions(t)
        path = None
        blocked = []
        fill = full or r.random() < .55
        touched = set()
        limit = r.randint(1, 14)
        nested = False     # gcc and clang mishandle a string right after a designator list
        while True:
            if path is None:
                nxt = Path([(t, pos[0])]) if pos else None
            else:
                nxt = self.advance(path)
            want_desig = r.random() < (.12 if fill else .3)
            if nxt is None or want_desig:
                if nxt is None and not (r.random() < .2):
                    break
                p = self.designate(t)
                des = self.designator_text(p)
                if des is None or any(p.text().startswith(b) for b in blocked) and True:
                    if nxt is None:
                        break
                    p, des = nxt, ""
                else:
                    des += " = "
                path = p
                nested = True
            else:
                path, des = nxt, ""
            if any(path.text() == b or path.text().startswith(b) or b.startswith(path.text()) for b in blocked):
                # never re-initialize (part of) something initialized as a whole by an expression
                break
            # what initializes the subobject
            sub = path.type(t)
            w = width_of(*path.steps[-1])
            if static != "file" and items and self.switches(base, path.steps):
                # clang's code for this is unreliable in automatic objects
                break
            here = self.activate(base, path.steps)
            if isinstance(sub, Sc):
                if any(x.startswith(path.text()) for x in blocked):
                    break
                self.forget(here)
                items.append(des + self.scalar(sub, w, static))
            else:
                k = r.random()
                st = self.string(sub)
                e = None
                if self.struct_expr and not static and isinstance(sub, Agg) and not sub.anon and not has_union(sub) and k < .3:
                    e = self.struct_expr(sub)
                if e:
                    self.forget(here)
                    items.append(des + e)
                    blocked.append(path.text())
                elif st and k < .55 and (des or not nested):
                    items.append(des + st)
                    blocked.append(path.text())
                elif k < .6 or depth > 4 and k < .8 or not self.leafable(sub):
                    if not positions(sub):
                        break
                    items.append(des + self.braced(sub, here, static, depth + 1))
                else:
                    # brace elision: descend to the first scalar
                    steps = list(path.steps)
                    while not isinstance(sub, Sc):
                        ps = positions(sub)
                        steps.append((sub, ps[0]))
                        w = width_of(sub, ps[0])
                        sub = elem(sub, ps[0])
                    if any(Path(steps).text().startswith(b) for b in blocked):
                        break
                    path = Path(steps)
                    here = self.activate(base, path.steps)
                    e = self.value(sub, w, static)
                    items.append(des + e)
            self.budget -= 1
            limit -= 1
            if not full and (limit <= 0 or self.budget <= 0) and r.random() < .5:
                break
            if self.budget < -60:
                break
        if not items:
            ps = positions(t)
            # empty braces are not C17; initialize the first element
            st = path = None
            sub = elem(t, ps[0])
            here = self.activate(base, [(t, ps[0])])
            if isinstance(sub, Sc):
                items.append(self.scalar(sub, width_of(t, ps[0]), static))
            else:
                items.append(self.braced(sub, here, static, depth + 1))
        return "{ " + ", ".join(items) + (", }" if r.random() < .15 else " }")

    def leafable(self, t):
        while not isinstance(t, Sc):
            ps = positions(t)
            if not ps:
                return False
            t = elem(t, ps[0])
        return True

    def advance(self, path):
        steps = list(path.steps)
        while steps:
            c, i = steps.pop()
            if isinstance(c, Agg) and c.union:
                continue
            nx = [k for k in positions(c) if k > i]
            if nx:
                return Path(steps + [(c, nx[0])])
        return None

    def designate(self, t):
        r = self.r
        steps = []
        cur = t
        while True:
            ps = positions(cur)
            if not ps:
                break
            i = r.choice(ps)
            steps.append((cur, i))
            anon = isinstance(cur, Agg) and not cur.mems[i].name
            cur = elem(cur, i)
            if isinstance(cur, Sc) or (not anon and r.random() < .6):
                break
        return Path(steps)

    def designator_text(self, p):
        s = p.text()
        # an anonymous member is named by its members
        import re
        if re.search(r"#\d+$", s):
            return None
        return re.sub(r"#\d+", "", s)

    # leaves that have a defined value after initialization
    def live(self, t, text="", path="", width=None):
        if isinstance(t, Arr):
            for i in range(t.n):
                yield from self.live(t.elem, "%s[%d]" % (text, i), "%s[%d]" % (path, i))
        elif isinstance(t, Agg):
            if t.union:
                ps = positions(t)
                idx = [self.active[text]] if text in self.active else ps[:1]
            else:
                idx = positions(t)
            for i in idx:
                m = t.mems[i]
                if m.width is not None:
                    yield Leaf(path + "." + m.name, m.type, m.width)
                elif not m.name:
                    yield from self.live(m.type, text + "#%d" % i, path)
                else:
                    yield from self.live(m.type, text + "." + m.name, path + "." + m.name)
        else:
            yield Leaf(path, t, width)
