"""Compilations to repeat under different builds and conditions: random valid programs,
mutated ones, the compiler's own sources and tests, in every output mode."""
import os, re
from .common import REPO, scratch
from .corpus import program, repo_sources
from .c16 import TOK, mutate, MODES as HOSTILE
from .seeds16 import SEEDS, SNIPPETS

MODES = [["-S"], ["-c"], ["-S", "-fcmodel=large"], ["-c", "-fcmodel=large"], ["-c", "-fabi=ms"], ["-S", "-fabi=ms"], ["-E"], ["-c", "-MD", "-MF", "t.d"],
         ["-S", "-fdebug-stack-size"], ["-c", "-fdump-ir=x.dot"]]
# anything that may differ from one run to the next by definition
VOLATILE = re.compile(rb"__(DATE|TIME)__")


def tests():
    out = []
    td = os.path.join(REPO, "tests")
    for f in sorted(os.listdir(td)):
        if f.endswith(".c"):
            t = open(os.path.join(td, f), "rb").read()
            t = t.replace(b"__TIME__", b'"12:34:56"').replace(b"__DATE__", b'"Jan  1 2024"')
            out.append(re.sub(rb'#\s*include\s*<(?!std(arg|def|bool))[^>\n]*>', b"", t))
    return out


class Jobs:
    def __init__(self, c):
        self.c = c
        self.toks = [TOK.findall(s.encode()) for s in SEEDS]
        self.tests = tests()
        self.ttoks = [TOK.findall(t) for t in self.tests]
        self.srcs = repo_sources(("src",))

    def valid(self, i):
        """-> (kind, {name: bytes}, args)"""
        r = self.c.rng("valid", i)
        kind, text = program(r)
        mode = r.choice(MODES)
        return kind, {"t.c": text.encode()}, mode + ["t.c", "-o", "out.o"]

    def two(self, i):
        """two files in one command"""
        r = self.c.rng("two", i)
        k1, a = program(r)
        k2, b = program(r)
        # state of the preprocessor and of every table must not survive the first file
        h = b"#pragma once\n#ifdef SEEN\n#error kept\n#endif\n#define SEEN 1\n#pragma push_macro(\"SEEN\")\n#undef EOF_\ntypedef struct shared { int a; struct shared *n; } shared_t;\nstatic int shared_f(shared_t *p) { return p ? p->a : %d; }\n" % r.randrange(9)
        use = b"\n#include \"h.h\"\n#line 100\nint use_%s(void) { shared_t s = {3, 0}; return shared_f(&s) + __LINE__ + (int)sizeof __FILE__; }\n#if %d\n#pragma pack(1)\n#endif\nstruct packed_or_not { char c; int i; } pn_%s;\n"
        return (k1 + "+" + k2, {"a.c": use % (b"a", r.randrange(2), b"a") + a.encode(), "b.c": use % (b"b", 0, b"b") + b.encode(), "h.h": h},
                r.choice([["-c"], ["-S"], ["-c", "-fabi=ms"]]))

    def invalid(self, i):
        r = self.c.rng("invalid", i)
        while True:
            p = r.random()
            if p < .5:
                data = mutate(r, r.choice(self.toks), r.choice(self.toks + self.ttoks))
            elif p < .8:
                data = mutate(r, r.choice(self.ttoks), r.choice(self.toks + self.ttoks))
            else:
                k, text = program(r, size=1)
                data = mutate(r, TOK.findall(text.encode()), r.choice(self.toks))
            if len(data) < 60000 and not VOLATILE.search(data):
                break
        return "mutated", {"t.c": data}, r.choice(HOSTILE) + ["t.c", "-o", "out.o"]

    def own(self, i):
        """the compiler's own source files"""
        s = self.srcs[i % len(self.srcs)]
        mode = MODES[(i // len(self.srcs)) % 4]
        return "own", {"t.c": b'#include "%s"\n' % s.encode()}, mode + ["-I", os.path.join(REPO, "src"), "-I", "cfg", '-DCONFIG_PATH="config.h"', "t.c", "-o", "out.o"]

    def test(self, i):
        r = self.c.rng("test", i)
        return "test", {"t.c": self.tests[i % len(self.tests)]}, r.choice(MODES) + ["t.c", "-o", "out.o"]


def text(out, err):
    """messages; the line numbers of the compiler's own source in them depend on who compiled a macro call of several lines"""
    t = re.sub(rb"(\.[ch]):\d+ of compiler source", rb"\1 of compiler source", out + b"\n--\n" + err)
    return re.sub(rb"(?:Compiler source|Not implemented): [^\n]*", b"", t)


def place(d, files):
    os.makedirs(d)
    for n, t in files.items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(t)


def outputs(d, files):
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if n not in files and n != "cfg" and os.path.isfile(p):
            out[n] = open(p, "rb").read()
    return out
