"""P15: see DESIGN.md."""
import opcheck

NOTE = """Every path of the logarithm, the trigonometric and the inverse functions of the floating point contexts is interpreted on arbitrary operands (abstract interpretation of MIR); a path that returns a value must carry facts (tests for NaN, infinity or the range of an operand) that exclude every operand for which IEEE arithmetic makes the returned term NaN or infinite. A path is reported with such an operand."""


def run(rep, crates):
    rep.rule("finite: no path that returns a value admits operands that make it NaN or infinite")
    for op in opcheck.all_ops(crates):
        if op.kind == "Function":
            for n in (1, 2):
                rep.guard("finite:%s:%s:%s" % (op.ctx, op.name, n), opcheck.not_numbers, rep, op, n)
