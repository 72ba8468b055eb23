"""P01: see DESIGN.md."""
import evalmodel
import panics
from absint import Engine, State, sym, res_ok, res_err
from callgraph import CallGraph

NOTE = """Abstract interpretation of the MIR of every function the evaluation of a text reaches (call graph from the public entry point, \
trait calls resolved to every implementation in the crate, the operations themselves excluded: they are P02): every panic edge \
(failed assertion, overflow and bounds check, unwrap/expect, slicing, explicit panic) that the facts of some path do not exclude is a \
violation.  Loops are run to a fixpoint, so the verdict covers texts and token sequences of every length."""

OPS = ("Function", "BinaryFunction", "UnaryFunction")


def is_op(f):
    return f.trait is not None and f.trait.rsplit("::", 1)[-1] in OPS


class Stub:
    """The conversion and the RPN evaluation are analysed on their own."""

    def on_call(self, eng, st, name, args, ctx):
        if name.endswith("::rpn_eval") or name.endswith("::infix_to_rpn"):
            t = eng.mkterm("call", name, *[eng.T(st, a) for a in args])
            return [(res_ok(sym(("fld", t, ("v", 0, 0)))), st), (res_err(sym(("fld", t, ("v", 1, 0)))), st.copy())]
        return None


def run(rep, crates):
    cr = crates["prexel"]
    rep.rule("no panic edge is reachable on any path of the evaluation pipeline")
    g = CallGraph([cr])
    roots = [f for f in cr.bodies if f.path.startswith("evaluator::Evaluator") and f.name in ("eval", "eval_tokens")]
    if not roots:
        rep.bad("anchor:eval", "the evaluator's entry point was not found")
        return
    reach = g.closure(roots, stop=is_op)
    rep.count("functions reached", len(reach))
    seen = set()

    # the conversion and the RPN evaluation
    def loops():
        for part in ("conversion", "evaluation"):
            ev, eng, problem = evalmodel.results(crates)[part]
            if problem:
                rep.undec("anchor:" + part, problem)
                continue
            seen.update(eng.visited_fns)
            rep.count("panic edges found", len(eng.panics))
            h = eng.token_hooks
            for key in eng.panics:
                why = key[1]
                # a stored token position minus a constant: sound when every stored position is at least that constant
                mine = [p for p in getattr(h, "panics", ()) if p[0] == key[0] and p[1] == why]
                if part == "conversion" and why == "overflow:Sub" and mine and \
                        all(p[3] in h.pos_births and p[4][1][1] <= h.pos_pushed for p in mine):
                    rep.ok({"panic edge": "%s in %s" % (why, key[0]), "excluded by": "every token position that is stored is at "
                            "least %d" % h.pos_pushed})
                    continue
                panics.judge(rep, part, key, eng.panics[key], eng)
            rep.ok({"interpreted": part, "functions": len(eng.visited_fns), "blocks": eng.steps})
    rep.guard("loops", loops)

    entries = [f for f in reach if f.kind == "method" and (f.trait or f.is_pub()) or f.kind == "fn" and f.is_pub()]
    rep.count("entry functions", len(entries))

    def one(f):
        hooks = Stub() if f in roots else None
        if f.path.endswith("infix_to_rpn") or f.path.endswith("rpn_eval"):
            return
        eng = Engine([cr], hooks=hooks, budget=400000, max_states=64,
                     inline=lambda x: not (evalmodel.config_opaque(x) and not evalmodel.config_opaque(f)))
        eng.analyse(f, [sym(("arg", i)) for i in range(f.body.argc)], State())
        seen.update(eng.visited_fns)
        for key in eng.panics:
            panics.judge(rep, f.path, key, eng.panics[key], eng)
        rep.ok({"interpreted": f.path, "blocks": eng.steps} if f in roots else None)
    for f in entries:
        rep.guard(f.path, one, f)
    rep.count("functions interpreted", len(seen))
    for f in reach:
        if f.key not in seen and f.kind in ("fn", "method") and not f.path.endswith("::clone"):
            rep.notes.append("not interpreted on its own: " + f.path)
