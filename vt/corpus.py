"""Programs from all generators, as plain source texts, for the checks that compare
the compiler with itself (builds, output kinds, code models)."""
import os, re
from . import c01, c02, c03, c04, c05, c06, c07, c08, c23
from .common import REPO
from .diff import RT_DECLS
from .seeds16 import SEEDS, SNIPPETS

GENS = [("int", c01.gen, "", 4), ("float", c02.gen, "", 4), ("const", c03.gen, "", 5), ("flow", c04.gen, c04.PRELUDE, 3), ("data", c05.gen, "", 2),
        ("layout", c06.gen, "", 2), ("init", c07.gen, "", 2), ("abi", c08.gen_test, "#define PART_A\n#define PART_B\n", 3), ("va", c23.gen, "#define PART_A\n#define PART_B\n", 3)]


def program(r, kinds=None, size=None):
    """-> (kind, source text); the text defines void t_K(int v) for K = 0.."""
    gens = [g for g in GENS if not kinds or g[0] in kinds]
    kind, gen, pre, n = r.choice(gens)
    n = size or n
    return kind, RT_DECLS + pre + "".join(gen(r, j).render(j) for j in range(n))


def repo_sources(what=("src", "tests")):
    """the compiler's own sources and test programs (paths)"""
    out = []
    for w in what:
        for d, _, fs in sorted(os.walk(os.path.join(REPO, w))):
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".c") and "should_fail" not in d]
    return out
