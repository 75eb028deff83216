"""C05: values kept in variables and memory are never lost, mixed up or invented."""
from .common import main, build_cc
from .diff import Runner, Test
from .genflow import FlowGen


def gen(r, j):
    g = FlowGen(r, budget=r.choice([10, 20, 30, 45]))
    return Test(g.program())


def check(c):
    c.rule = ("random functions over scalars, arrays, structs (nested, unions), pointers that alias them, helper functions taking and returning structs, loops with "
              "rotations and swaps, struct copies and conditionals, on 6 input vectors; every object is dumped at the end; non-trivial = distinct (function, vector) with events")
    R = Runner(c, build_cc("plain"), nvec=6)
    R.run_files(c.n(600, 9000), gen, per_file=8)
    c.min_nontrivial = 1000


if __name__ == "__main__":
    main("C05", check)
