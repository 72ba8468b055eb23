"""P07: see DESIGN.md."""
import itertools
import opmodel
import opspec

NOTE = """The constructors of the default contexts are interpreted to find which operators they register, and the precedence, associativity and notation of each is found by constant propagation through its methods (abstract interpretation of MIR); every pair of binary operators of a context is compared with the documented order."""


def prec(t):
    while isinstance(t, tuple) and t[0] == "agg" and len(t) == 4:
        t = t[3]
    return t[1] if isinstance(t, tuple) and t[0] == "c" and isinstance(t[1], int) else None


def variant(t):
    return t[2] if isinstance(t, tuple) and t[0] == "agg" and len(t) >= 3 else None


def run(rep, crates):
    rep.rule("order: of two binary operators the one documented to bind tighter has the greater precedence, and equals have equal ones")
    rep.rule("associativity: `^` of the arithmetic contexts is right associative, every other operator left associative")
    rep.rule("notation: `!` is postfix, every other unary operator prefix")
    for (ctx, via), (ops, consts, problem) in opmodel.catalogue(crates).items():
        if problem and not ops:
            rep.undec("context:%s:%s" % (ctx, via), problem)
            continue
        rep.count("contexts")
        spec, un = opspec.binaries(ctx), opspec.unaries(ctx)
        bins = []
        for op in ops:
            where = op.fn.path
            if op.kind == "UnaryFunction" and op.name in un:
                v = variant(op.notation)
                if v is None:
                    rep.undec("notation:%s:%s" % (ctx, op.name), "the notation of %s is not a constant" % op.ty)
                else:
                    rep.check(v == un[op.name][0], "notation:%s:%s" % (ctx, op.name), "the %s operator `%s` is %s [%s]"
                              % (ctx, op.name, ("prefix", "postfix")[v], where), {"operator": op.name, "context": ctx})
            if op.kind == "BinaryFunction" and op.name in spec:
                bins.append(op)
                v = variant(op.associativity)
                if v is None:
                    rep.undec("associativity:%s:%s" % (ctx, op.name), "the associativity of %s is not a constant" % op.ty)
                else:
                    rep.check(v == spec[op.name][1], "associativity:%s:%s" % (ctx, op.name), "the %s operator `%s` is %s associative [%s]"
                              % (ctx, op.name, ("left", "right")[v], where), {"operator": op.name, "context": ctx})
        for a, b in itertools.combinations(bins, 2):
            pa, pb = prec(a.precedence), prec(b.precedence)
            if pa is None or pb is None:
                rep.undec("order:%s:%s:%s" % (ctx, a.name, b.name), "a precedence is not a constant")
                continue
            rep.count("pairs of operators")
            sa, sb = spec[a.name][0], spec[b.name][0]
            rep.check((pa > pb) == (sa > sb) and (pa < pb) == (sa < sb), "order:%s:%s:%s" % (ctx, a.name, b.name),
                      "the %s operators `%s` and `%s` have precedence %s and %s: `%s` should bind %s [%s, %s]"
                      % (ctx, a.name, b.name, pa, pb, a.name, "tighter" if sa > sb else "looser" if sa < sb else "as tight", a.ty, b.ty),
                      {"operators": [a.name, b.name], "context": ctx})
