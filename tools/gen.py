#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run from /verif)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, state, mech, observe, technique, note, level="exploration", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=state, meaning="what the property constrains", where=", ".join(files))], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=[observe], hook_needed=None),
                  _t=technique, _n=note, _l=level, _na=na))


T = "the 244 tests compile a fixed set of hand-written programs and check a few values in each; "
DIFF = "online differential trace monitor: generated programs run under an event recorder, UBSan-instrumented reference execution is the oracle"

prop("C01", "Integer expressions have the value and type conversions the language defines",
     "For every valid expression over the integer types, wherever its operands live, the compiled code computes the value the C language defines, including "
     "promotions, usual arithmetic conversions, wrap-around of unsigned types, shifts, division, compound assignment and increments. Every such program is accepted.",
     ["programs", "inputs"], "all well-defined integer expressions over all integer types, operand locations and operand values",
     T + "operator x type x operand-value combinations are unbounded",
     ["src/parser/expression.c", "src/parser/expression_to_ir.c", "src/ir/ir.c", "src/ir/operators.c", "src/codegen/codegen.c", "src/codegen/binary_operators.h"],
     "values of expressions at run time of the compiled program",
     [("conversions and promotions", "src/parser/expression.c"), ("operator lowering", "src/ir/ir.c"), ("machine code per operation", "src/codegen/binary_operators.h")],
     "events emitted by the compiled program", DIFF, "random typed programs on boundary-value inputs; exploration, not exhaustive")
prop("C02", "Floating-point arithmetic, comparison and conversion follow IEEE 754",
     "For every valid expression over float and double mixed with integers, the compiled code computes the correctly rounded IEEE 754 result of each operation and "
     "conversion that the language defines, including NaN, infinities, signed zeros, subnormals and the whole range of 64-bit unsigned integers. Truth tests compare with zero.",
     ["programs", "inputs"], "all well-defined floating expressions and all pairs of arithmetic types, on all operand values",
     T + "special values and conversion boundaries are hardly sampled",
     ["src/codegen/codegen.c", "src/codegen/binary_operators.h", "src/parser/expression_to_ir.c", "src/arch/x64.c"],
     "values of floating expressions at run time", [("float casts", "src/codegen/codegen.c"), ("comparison lowering", "src/codegen/binary_operators.h")],
     "events emitted by the compiled program", DIFF, "random typed programs, boundary and special floating-point values")
prop("C03", "Constant expressions have their defined value in every constant context",
     "Every constant expression - arithmetic, sizeof, alignment, enumerators, character constants and address constants - is accepted and has the value the language defines "
     "in static initializers, case labels, enumerators, array sizes, static assertions and controlling expressions, and the same value when the expression appears at run time.",
     ["programs"], "all well-defined constant expressions in all constant contexts",
     T + "folded values are only compared for a handful of literals",
     ["src/ir/operators.c", "src/arch/x64.c", "src/parser/expression.c", "src/codegen/rodata.c"], "constants folded by the compiler and the data they become",
     [("folding", "src/ir/operators.c"), ("constant casts", "src/arch/x64.c"), ("address constants", "src/parser/expression.c")],
     "events emitted by the compiled program", DIFF, "random constant expressions, one execution each")
prop("C04", "Control flow and evaluation order follow the source program",
     "For every valid function, statements execute in exactly the order the language defines through any nesting of if, loops, switch (with fallthrough, default anywhere, labels inside nested "
     "statements), goto, break, continue and return, and operands of &&, ||, ?: and the comma operator are evaluated once, in order, and only when required.",
     ["programs", "inputs"], "all well-defined control-flow graphs and inputs",
     T + "control-flow shapes are unbounded; tests contain a few dozen",
     ["src/parser/function_parser.c", "src/ir/ir.c", "src/ir/global_code_motion.c", "src/codegen/codegen.c"], "the sequence of observable events of the compiled program",
     [("statement lowering", "src/parser/function_parser.c"), ("block scheduling", "src/ir/global_code_motion.c")],
     "the ordered event trace of the compiled program", DIFF, "random structured and unstructured control flow; the whole event trace is compared")
exec(open(os.path.join(V, "tools/props2.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks, na = [], []
for p in P:
    mod = p["id"].lower()
    if p["_na"]:
        na.append(dict(property=p["id"], reason=p["_na"]))
    elif os.path.exists(os.path.join(V, "vt", mod + ".py")):
        checks.append(dict(property=p["id"], quick_cmd="python3 -m vt.%s --tier quick" % mod,
                           thorough_cmd="python3 -m vt.%s --tier thorough" % mod,
                           technique=p["_t"], level=p["_l"], level_note=p["_n"]))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 -m vt.setup", checks=checks,
         hooks=dict(guard="none", enable="no hooks: the checks build /repo's sources unmodified", source_commits=[]), not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
