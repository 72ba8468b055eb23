"""P31: see DESIGN.md."""
import opcheck

NOTE = """The three forms of the random function of every context are interpreted on arbitrary operands (abstract interpretation of MIR); the returned term must be a formula over draws from [0, 1) that maps the ends of that interval to the bounds (an affine term is decided by its ends), and every path with bounds out of order, negative or, for complex numbers, not real must be an error."""


def run(rep, crates):
    rep.rule("random: the returned formula maps draws from [0, 1) onto the interval between the bounds, for each part of a complex number")
    rep.rule("domain: bounds that are out of order, negative or not real are rejected")
    for op in opcheck.all_ops(crates):
        if op.kind == "Function" and op.name == "random":
            for n in range(3):
                rep.guard("random:%s:%s" % (op.ctx, n), opcheck.bounds, rep, op, n)
                rep.guard("domain:%s:%s" % (op.ctx, n), opcheck.domains, rep, op, n)
