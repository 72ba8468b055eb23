"""P05: see DESIGN.md."""
import evalmodel

NOTE = """The deciding step is an abstract interpretation of the MIR of the infix-to-RPN conversion and of the RPN evaluation (callees inlined, loops run to a fixpoint, one arbitrary token at a time from an arbitrary earlier state), with the stack discipline as events: every push, pop and call on every path is an obligation checked against the facts established on that path."""
WANTED = {'conversion': ['?order', 'out-own'], 'evaluation': ['rpn-operands', 'rpn-call', 'rpn-value', '?rpn-order', 'rpn-input', 'rpn-args']}


def run(rep, crates):
    for part, rules in WANTED.items():
        rep.rule("%s: %s" % (part, ", ".join(rules)))
    evalmodel.report(rep, crates, WANTED)
