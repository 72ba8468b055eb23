"""P14: see DESIGN.md."""
import os
import opcheck

NOTE = """The implementation of every builtin function is interpreted once per number of arguments 0..n (abstract interpretation of its MIR, arguments arbitrary): with a number it takes, no path may refuse the call for its number of arguments and some path returns a value; with any other number every path returns the argument-count error."""


def run(rep, crates):
    rep.rule("arity: a builtin function refuses exactly the argument counts it does not take, before doing anything else")
    top = 8 if os.environ.get("VERIF_DEEP") else 4
    for op in opcheck.all_ops(crates):
        if op.kind != "Function":
            continue
        rep.count("functions")
        for n in opcheck.counts(op, top):
            rep.guard("arity:%s:%s:%s" % (op.ctx, op.name, n), opcheck.arity, rep, op, n)
