"""Development aid: shrink a failing t.c (python3 -m vt.reduce FILE NVEC SALT)."""
import os, re, sys
from . import common, diff
from .common import build_cc, scratch, run


class C:
    violations = []
    def count(self, **k): pass


def interesting(R, text, salt, d):
    src = os.path.join(d, "x.c")
    open(src, "w").write(text)
    rc, o, e = R.ref_build(src, d + "/r.o")
    if rc: return False
    if b"uninit" in e: return False
    if R.link_exe(d + "/r.o", d + "/r")[0]: return False
    rc, o, e = R.cc_build(src, d + "/c.o")
    if rc: return "rej" if rc == 1 else "crash"
    if R.link_exe(d + "/c.o", d + "/c")[0]: return "link"
    rl, ended = diff.parse_log(R.exec(d + "/r", salt)[1])
    if not ended: return False
    gl = []
    for f in R.confirmers():
        if f(src, d + "/g.o")[0]: return False
        R.link_exe(d + "/g.o", d + "/g")
        gl.append(diff.parse_log(R.exec(d + "/g", salt)[1])[0])
    cl, _ = diff.parse_log(R.exec(d + "/c", salt, 100000)[1])
    for k, r in rl.items():
        if r[0] == 0 and cl.get(k) != r and all(g.get(k) == r for g in gl):
            g = cl.get(k)
            return "sig" if (g is None or g[0]) else "diff"
    return False


def groups(s):
    st, out = [], []
    for i, ch in enumerate(s):
        if ch == "(": st.append(i)
        elif ch == ")" and st:
            out.append((st.pop(), i))
    return sorted(out, key=lambda p: p[0] - p[1])


def reduce(R, text, salt, budget=3000):
    d = scratch()
    kind = interesting(R, text, salt, d)
    if not kind:
        return None, None
    n = [0]
    def ok(t):
        n[0] += 1
        return n[0] < budget and interesting(R, t, salt, d) == kind
    changed = True
    while changed and n[0] < budget:
        changed = False
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            for w in (8, 4, 2, 1):
                t = "\n".join(lines[:i] + lines[i + w:])
                if lines[i:i + w] and not any("#pragma" in x for x in lines[i:i + w]) and ok(t):
                    lines = lines[:i] + lines[i + w:]
                    changed = True
                    break
            else:
                i += 1
        text = "\n".join(lines)
        again = True
        while again and n[0] < budget:
            again = False
            gs = groups(text)
            for a, b in gs:
                inner = text[a + 1:b]
                # binary context: replace "(x) op (y)" enclosing group by each child
                kids = [text[x + 1:y] for x, y in groups(inner) for text_ in [0]] if False else [inner[x + 1:y] for x, y in groups(inner)]
                cands = ["(%s)" % k for k in kids] + ["(1)", "(0)"]
                if inner in ("1", "0") or text[:a].endswith(("pack", "_Alignas", "sizeof", "_Alignof")): cands = []
                for c in cands:
                    if len(c) >= b + 1 - a and c != "(0)": continue
                    t = text[:a] + c + text[b + 1:]
                    if t != text and ok(t):
                        text = t; again = changed = True
                        break
                if again: break
    return kind, text


if __name__ == "__main__":
    f = sys.argv[1]
    if os.path.isdir(f):
        rd = open(f + "/README").read()
        m = re.search(r"args: (\d+) (\d+)", rd)
        nv, salt = (m.group(1), m.group(2)) if m else ("12", "1")
        f += "/t.c"
    else:
        nv, salt = sys.argv[2], sys.argv[3]
    cc = build_cc("plain")
    R = diff.Runner(C(), cc, nvec=int(nv))
    m = re.search(r"part A by (\w+), part B by (\w+)", rd) if os.path.isdir(sys.argv[1]) else None
    if m:
        from .cross import CrossRunner
        C.pid = "x"
        R = CrossRunner(C(), cc, (m.group(1), m.group(2)), nvec=int(nv))
    k, t = reduce(R, open(f).read(), salt)
    print(k)
    print("\n".join(l for l in (t or "").split("\n") if l.strip() and not re.match(r"(void ev|long long in|int inm|double ind|float inf)", l)))
