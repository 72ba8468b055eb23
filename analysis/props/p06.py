"""P06: see DESIGN.md."""
import os
import closeness
import kernels
import opcheck

NOTE = """Each builtin operation's implementation is interpreted on arbitrary operands (abstract interpretation of its MIR, callees inlined, numeric kernels and the arithmetic of the number type as uninterpreted functions), giving for every path the value it returns as a term over the operands; the term is brought to a rational-function normal form under the facts of the path and compared with the normal form of the documented formula. Two different normal forms are reported only with a point at which all facts of the path hold and the two differ. The numeric kernels themselves (series, Newton iterations, repeated squaring, factorial, gamma) are cut at their loop heads; the formulas of one iteration are shown to be the function's series, invariant or fixed point, or refuted by iterating those formulas at a point."""


def run(rep, crates):
    rep.rule("formula: every value a builtin operation can return equals its documented formula, on every path, for every number of arguments")
    top = 8 if os.environ.get("VERIF_DEEP") else 4
    for op in opcheck.all_ops(crates):
        rep.count("operations")
        if op.name == "!" and op.fn.body.loop_heads():
            continue            # among the kernels below
        for n in opcheck.counts(op, top):
            rep.guard("formula:%s:%s:%s" % (op.ctx, op.name, n), opcheck.formula, rep, op, n)
    rep.rule("constant: the named constants of the number modules are the numbers they are named for")
    rep.rule("closeness: a value replaced by a near one is replaced by one within the tolerance, and the tolerance is at most 1e-9")
    rep.guard("constants", closeness.constants, rep, crates["prexel"])
    rep.guard("closeness", closeness.approximations, rep, crates["prexel"])
    rep.rule("kernel: the iterative routines behind the operations are the functions they are named for (series, invariants, fixed points)")
    for name, fn, cr in kernels.kernels(crates):
        rep.guard("kernel:" + fn.path, kernels.formula, rep, name, fn, cr)
