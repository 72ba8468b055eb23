"""P25: see DESIGN.md."""
import math
import algebra
import opmodel
import opspec
from panics import show

NOTE = """Both constructors of every default context are interpreted (abstract interpretation of MIR) with the registration methods as events; the names, aliases and kinds of what they register, found by constant propagation through the operations' own methods, and the values of the constants are compared with the documented catalogue, and the configuration of the returned context with the one passed in."""


def constant(t, want):
    try:
        v = algebra.value(t, {}, algebra.REAL)
        return abs(v - want) < 1e-12
    except (algebra.Unknown, TypeError):
        pass
    if isinstance(want, complex):
        s = show(t, -4)
        return True if s.startswith("Complex::i") or t == ("call", "Complex::i") else None
    return None


def run(rep, crates):
    rep.rule("catalogue: each constructor registers every documented operation of its number type under its documented name, and its constants")
    rep.rule("aliases: the operators of the binary context answer to their documented words")
    rep.rule("config: a context made with a configuration has that configuration")
    for (ctx, via), (ops, consts, problem) in opmodel.catalogue(crates).items():
        if problem:
            if not ops:
                rep.check("not found" not in problem, "context:" + via, "%s: %s" % (via, problem)) if "not found" in problem else \
                    rep.undec("context:" + via, problem)
                continue
            rep.undec("context:" + via, problem)
        rep.count("constructors")
        have = {(o.kind, o.name): o for o in ops}
        unnamed = [o for o in ops if o.name is None]
        for kind, spec in (("Function", opspec.functions(ctx) if ctx != "binary" else {}), ("BinaryFunction", opspec.binaries(ctx)),
                           ("UnaryFunction", opspec.unaries(ctx))):
            for name in spec:
                key = "catalogue:%s:%s:%s" % (via, kind, name)
                rep.count("documented operations")
                if (kind, name) in have:
                    o = have[(kind, name)]
                    want = opspec.ALIASES.get(name, ()) if ctx == "binary" else ()
                    rep.check(set(o.aliases) >= set(want), key, "%s registers `%s` without the alias %s [%s]"
                              % (via, name, sorted(set(want) - set(o.aliases)), o.ty), {"context": via, "operation": name, "type": o.ty})
                elif unnamed or problem:
                    rep.undec(key, "the name of %s is not a constant" % ", ".join(o.ty for o in unnamed))
                else:
                    rep.bad(key, "%s does not register %s `%s`" % (via, kind, name))
        got = {n[1]: v for n, v in consts if n[0] == "s"}
        for name, want in opspec.CONSTANTS[ctx].items():
            key = "constant:%s:%s" % (via, name)
            rep.count("documented constants")
            if name not in got:
                if len(got) < len(consts) or problem:
                    rep.undec(key, "a constant's name is not known")
                else:
                    rep.bad(key, "%s does not define the constant %s" % (via, name))
                continue
            r = constant(got[name], want)
            if r is None:
                rep.undec(key, "the value of %s is %s" % (name, show(got[name], -4)))
            else:
                rep.check(r, key, "%s gives the constant %s the value %s" % (via, name, show(got[name], -4)), {"context": via, "constant": name})
    cr = crates["prexel"]
    for ctx, names in opmodel.CONTEXTS.items():
        rep.guard("config:" + ctx, config, rep, cr, names[1])
    rep.guard("config:new", config, rep, cr, "with_config")


def config(rep, cr, via):
    from absint import Engine, State, sym
    fs = [f for f in cr.bodies if f.path.rsplit("::", 1)[-1] == via and "DefaultContext" in f.path]
    if len(fs) != 1:
        return
    names = [x[0] for a in cr.adts.values() if a["def"].endswith("::Config") for x in a["variants"][0][1]]
    eng = Engine([cr], hooks=opmodel.Reg())
    for v, st, _ in eng.analyse(fs[0], [sym(("cfg",))], State()):
        t = eng.T(st, v)
        rep.count("configurations")
        fields = [x for x in t[3:]] if t[0] == "agg" else []
        made = [x for x in fields if isinstance(x, tuple) and x[0] == "agg" and str(x[1]).endswith("Config")]
        if len(made) == 1 and ("cfg",) not in fields:
            # put together again from the parts of the one that was given
            vals = list(made[0][3:])
            own = names.index("complex_number") if "complex_number" in names else len(vals)
            if "complex" in via and vals[own:own + 1] == [("c", 1)]:
                # complex numbers are what this context is for
                vals[own] = ("fld", ("cfg",), own)
            wrong = [i for i, x in enumerate(vals) if x[0] == "c" or x[0] == "fld" and x[1] == ("cfg",) and x[2] != i]
            if all(x == ("fld", ("cfg",), i) for i, x in enumerate(vals)):
                rep.ok({"constructor": via, "configuration": "copied"})
            elif wrong:
                rep.bad("config:" + via, "the context made by %s has another configuration than it is given: its field %d is %s [%s]"
                        % (via, wrong[0], show(vals[wrong[0]], -3), fs[0].path))
            else:
                rep.undec("config:" + via, "the configuration of the result of %s is not known" % via)
            continue
        if ("cfg",) in fields:
            rep.ok({"constructor": via, "configuration": "passed on"})
        elif fields and not any("cfg" in str(x) for x in fields):
            rep.bad("config:" + via, "the context made by %s does not keep the configuration it is given [%s]" % (via, fs[0].path))
        else:
            rep.undec("config:" + via, "the configuration of the result of %s is not known" % via)
