"""P02: see DESIGN.md."""
import os
import overflow

NOTE = """Every operation on the number type that has no way to report failure (operators of decimals and generic numbers, wrapping and saturating methods, abs, pow), and every panic edge, that a builtin operation or a numeric routine it calls reaches is an obligation: discharged by intervals of its operands under the facts of its path (loops of routines followed in intervals with widening, parameters of routines from their call sites), reported with operands that satisfy the facts and for which the result does not fit, undecided otherwise."""


def run(rep, crates):
    rep.rule("unguarded: an operation that cannot report failure is applied only to operands whose result fits the number type")
    rep.rule("panic: no panic edge of a builtin operation or of a routine it calls can be reached")
    rep.rule("primitive: the checked arithmetic of each number type is that type's checked arithmetic")
    called = rep.guard("operations", overflow.operations, rep, crates, 6 if os.environ.get("VERIF_DEEP") else 3)
    rep.guard("routines", overflow.routines, rep, crates, called or {})
    rep.guard("primitives", overflow.primitives, rep, crates["prexel"])
