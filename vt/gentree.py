"""Random include trees: sources, headers of clashing names in several directories, and the
options under which they are found. Each file contributes a declaration `int inc_<id>;` at
every inclusion, so the text after preprocessing shows which files were read and in which order."""
import os

NAMES = ["a.h", "b.h", "sub/a.h", "c.h", "sub/b.h", "d.inc", "sub/deep/c.h", "e"]
ODD = {"b.h": "b b.h", "c.h": "c#1.h", "sub/b.h": "sub/b $x.h", "d.inc": "d-+.inc"}


class Tree:
    def __init__(self, r, odd=False, missing=False, once=True, absolute=True):
        self.r, self.files, self.uid, self.missing = r, {}, 0, missing
        self.absolute = absolute
        # names of directories
        self.names_of = {d: r.choice([d + ".", "." + d, d + ".h", d + "..", d + ".x.y", "_" + d + "-", d.upper() + "9", "..." + d]) for d in ("inc", "sub", "src", "deep", "two", "in", "priv", "third")
                         if odd and r.random() < .4}
        self.once = once and not absolute
        names = [ODD.get(n, n) if odd and r.random() < .5 else n for n in NAMES]
        names = [self.spell(n) for n in names]
        self.names = names[:r.randint(3, len(names))]
        sp = " " if odd and r.random() < .5 else ""
        self.main = r.choice(["main.c", "src/main.c", "src/in/main.c", "ma%sin.c" % sp, "s%src/main.x.c" % sp, "main.in.c"])
        self.main = self.spell(self.main)
        self.maindir = os.path.dirname(self.main)
        pool = ["inc", "inc/two", "third", "i%sx" % sp, "src/priv", "sub", "."]
        pool = [self.spell(x + "/")[:-1] for x in pool]
        r.shuffle(pool)
        self.incs = pool[:r.randint(0, 4)]
        dirs = [self.maindir] + self.incs
        if r.random() < .5:
            dirs.append(r.choice([self.spell("inc/")[:-1], "nowhere"]))  # headers that are not found
        for n in self.names:
            k = r.choice([1, 1, 1, 2, 2, 3]) if not missing or r.random() < .9 else 0
            for d in r.sample(dirs, min(k, len(dirs))):
                self.add(os.path.normpath(os.path.join(d, n)), self.names.index(n))
            if self.names.index(n) < 2 and not any(os.path.normpath(os.path.join(d, n)) in self.files for d in [self.maindir] + self.incs):
                self.add(os.path.normpath(os.path.join((self.incs + [self.maindir])[0], n)), self.names.index(n))
        self.files[self.main] = self.text(-1, self.main, 4) + "\nint main_;\n"
        self.opts = []
        self.incopts()

    def spell(self, path):
        "the path with the directories as they are called in this tree"
        d = path.split("/")
        return "/".join([self.names_of.get(x, x) for x in d[:-1]] + d[-1:])

    def add(self, path, level):
        if path not in self.files:
            self.files[path] = self.text(level, path, 2)

    def incopts(self):
        r = self.r
        for d in self.incs:
            p = d
            if r.random() < .3:
                p = r.choice(["./" + d, d + "/", d + "/."])
            if self.absolute and r.random() < .3:
                p = "@ROOT@/" + d
            self.opts += ["-I" + p] if r.random() < .6 else ["-I", p]
            if r.random() < .1:
                self.opts += ["-I", "does-not-exist"]
        for k in range(2):
            if r.random() < .4:
                self.opts += r.choice([["-DCOND%d" % k], ["-D", "COND%d=1" % k]])

    def form(self, n, path):
        r = self.r
        p = r.random()
        here = os.path.dirname(path)
        if p < .45:
            return '"%s"' % n
        if p < .7 and " $" not in n:
            return "<%s>" % n
        if p < .8:
            return '"./%s"' % n
        if p < .87 and here and os.path.basename(here) not in ("", ".."):
            return '"../%s/%s"' % (os.path.basename(here), n)
        if p < .92 and self.absolute:
            return '"@ROOT@/%s"' % os.path.normpath(os.path.join(r.choice([self.maindir] + self.incs), n))
        return '"%s"' % n

    def text(self, level, path, most):
        r = self.r
        self.uid += 1
        u = self.uid
        out = []
        guard = r.choice(["once", "ifndef", None]) if level >= 0 else None
        if guard == "once" and not self.once:
            guard = "ifndef"
        if guard == "once":
            out.append(r.choice(["#pragma once", "# pragma   once"]))
        if guard == "ifndef":
            out.append("#ifndef G_%d\n#define G_%d" % (u, u))
        later = self.names[level + 1:]
        body = ["int inc_%d;" % u]
        for _ in range(r.randint(1 if level < 0 else 0, most)):
            if not later:
                break
            n = r.choice(later)
            inc = "#include " + self.form(n, path)
            p = r.random()
            if p < .12:
                inc = "#define M_%d %s\n#include M_%d" % (self.uid * 10 + len(body), inc[9:], self.uid * 10 + len(body))
            elif p < .2:
                inc = "#  include/* c */" + inc[8:] + " // end"
            elif p < .24:
                inc = "#inc\\\nlude " + inc[9:]
            p = r.random()
            if p < .15:
                inc = "#if 0\n%s\n#endif" % r.choice([inc, '#include "not-there.h"'])
            elif p < .3:
                k = r.randrange(3)
                inc = "#ifdef COND%d\n%s\n%s#endif" % (k, inc, "#else\n#include \"%s\"\n" % r.choice(later) if r.random() < .3 else "")
            elif p < .36:
                inc = "#if defined COND0 || 1 > 2\nint c_%d;\n#elif 1\n%s\n#else\n#include <none.h>\n#endif" % (u, inc)
            body.append(inc)
            if r.random() < .3:
                self.uid += 1
                body.append("int inc_%d;" % self.uid)
        if r.random() < .1:
            body.append('/* #include "not-there.h" */ // #include <no.h>')
        out += body
        if guard == "ifndef":
            out.append("#endif")
        return "\n".join(out) + r.choice(["\n", "\n", ""])

    def write(self, root):
        for p, t in self.files.items():
            f = os.path.join(root, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w").write(t.replace("@ROOT@", root))
        return [o.replace("@ROOT@", root) for o in self.opts]
