"""P03: see DESIGN.md."""
import os
import kernels
import opcheck

NOTE = """Each builtin operation's implementation is interpreted on arbitrary operands (abstract interpretation of its MIR); for every rule 'operands with P are outside the domain', the facts of every path that returns a value must exclude P, and the facts of every path that rejects must exclude the operands inside the domain. A path is reported with operands that satisfy all its facts."""


def run(rep, crates):
    rep.rule("domain: no path that returns a value admits operands outside the domain of the operation")
    rep.rule("kind: the path that rejects division by zero and negative factorials names that fault")
    rep.rule("valid: no path that rejects admits operands inside the domain")
    top = 6 if os.environ.get("VERIF_DEEP") else 4
    for op in opcheck.all_ops(crates):
        rep.count("operations")
        for n in opcheck.counts(op, top):
            rep.guard("domain:%s:%s:%s" % (op.ctx, op.name, n), opcheck.domains, rep, op, n)
    rep.rule("kernel: the iterative routines reject what is outside their domain and nothing inside it")
    for name, fn, cr in kernels.kernels(crates):
        rep.guard("kernel:" + fn.path, kernels.domain, rep, name, fn, cr)
