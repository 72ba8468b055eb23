"""The obligations over the builtin operations (formula, domain, arity, results that are not numbers)."""
import itertools
import cmath

import algebra
import opmodel
import opspec
from algebra import Unknown, at_least, feasible, near, proved, value, REAL, CPLX, finite, head
from panics import show

REALS = (0, 1, 2, 3, 0.5, -1, -2, 0.25, 7.3, -0.4, 5, 10, -3, 1.9, 12.6, -7.25, 0.9, 2.05, -0.75, 1.0000003, 30, 90, -90, 180, 100, 45, 60.5,
         3.9999, 8, 1000, 0.999)
INTS = (0, 1, 2, 3, 5, 6, 7, 12, 255, 1000, -1, -2, -5, 31, 64, 100, 127, 128, 129, -128, 4, 1 << 40, 1 << 64, (1 << 64) + 5, -(1 << 100))
COMPLEX = (0j, 1 + 0j, 2 + 0j, 0.5 + 0j, -1 + 0j, 1j, 0.3 + 0.4j, -0.6 + 1.1j, 2.2 - 0.7j, 3 + 0j, -1.5 - 0.5j, 0.5 + 1e-3j, 10 + 0j, 5 + 0j)


EDGES = (1e-12, -1e-12, 1 + 1e-12, 1 - 1e-12, -1 - 1e-12, -1 + 1e-12, 1e-7, -1e-7)
POWERS = ((-1, 3000000000), (-1, 3000000001), (-1, 1 << 40), (1.0000003, 2200000000), (2, 64), (-1, -4294967295), (1.5, 300), (1.0000001, 70000000))


def operands(op, n):
    if op.kind == "Function":
        return [("A", i) for i in range(n)]
    return [("L",), ("R",)] if op.kind == "BinaryFunction" else [("V",)]


def table(op):
    return CPLX if op.ctx == "complex" else REAL


def numbers(t, acc):
    """The plain numbers a term is built from."""
    if isinstance(t, tuple) and t:
        try:
            h = algebra.head(t)
        except (Unknown, TypeError, IndexError, KeyError, ValueError):
            h = None
        if h is not None and h[0] == "num":
            acc.add(h[1])
            return acc
        for x in t:
            if isinstance(x, tuple):
                numbers(x, acc)
    return acc


ROUNDS = {"round", "trunc", "floor", "ceil", "round_dp", "fract"}


def rounded(t):
    if not isinstance(t, tuple) or not t:
        return False
    try:
        if algebra.head(t)[0] in ROUNDS:
            return True
    except (Unknown, TypeError, IndexError, KeyError, ValueError):
        pass
    return any(rounded(x) for x in t)


def around(op, n, o):
    """Operands near the numbers that the tests on a path compare a rounded operand with."""
    if op.ctx in ("binary", "complex") or op.kind == "Function" and n > 2:
        return
    cs = set()
    for k in o.st.facts:
        if rounded(k):
            numbers(k, cs)
    near_ = sorted({float(c) + d for c in cs if abs(c) < 1e6 for d in (0, 0.3, -0.3)})
    vs = operands(op, n)
    for i, v in enumerate(vs):
        for x in near_[:24]:
            for y in REALS if len(vs) == 2 else (0,):
                env = {v: x}
                if len(vs) == 2:
                    env[vs[1 - i]] = y
                yield env


def points(op, n):
    vs = operands(op, n)
    pool = INTS if op.ctx == "binary" else COMPLEX if op.ctx == "complex" else REALS
    if len(vs) <= 2:
        for p in itertools.product(pool, repeat=len(vs)):
            yield dict(zip(vs, p))
        if op.kind == "Function" and len(vs) == 1 and op.ctx == "decimal":
            for x in EDGES:
                yield {vs[0]: x}
        if op.kind == "BinaryFunction" and op.name == "^" and op.ctx not in ("binary", "complex"):
            for p in POWERS:
                yield dict(zip(vs, p))
    else:
        m = len(pool)
        for i in range(160):
            yield {v: pool[(i * (2 * j + 1) + i * i * j + 3 * j) % m] for j, v in enumerate(vs)}
        for p in itertools.product(pool[:5], repeat=min(len(vs), 4)):
            yield dict(zip(vs, (p * 3)[:len(vs)]))


def rets(t, acc):
    if isinstance(t, tuple):
        if t and t[0] == "ret" and len(t) > 1 and "rand" in str(t[1]):
            acc.add(t)
        else:
            for x in t:
                rets(x, acc)
    return acc


def where(op):
    return op.fn.path if op.fn is not None else op.ty


def label(op, n):
    return "%s `%s`%s" % (op.ctx, op.name, " of %d argument(s)" % n if op.kind == "Function" else "")


def point_text(env):
    return ", ".join("%s=%s" % ("argument %d" % (k[1] + 1) if k[0] == "A" else {"L": "left", "R": "right", "V": "operand"}.get(k[0], "r"), v)
                     for k, v in env.items())


def specified(op, n):
    """(allowed argument counts, formulas for n) or None when the operation is not in the specification"""
    if op.kind == "Function":
        s = opspec.functions(op.ctx).get(op.name) or opspec.functions("checked").get(op.name)
        return None if s is None else (s[0], s[1].get(n))
    if op.kind == "BinaryFunction":
        s = opspec.binaries(op.ctx).get(op.name)
        return None if s is None else (None, s[2])
    s = opspec.unaries(op.ctx).get(op.name)
    return None if s is None else (None, s[1])


def all_ops(crates):
    """The operations the contexts register, and the public ones of the same families that no context registers."""
    seen = set()
    for (ctx, via), (ops, consts, problem) in opmodel.catalogue(crates).items():
        for op in ops:
            if (ctx, op.kind, op.ty, op.name) in seen:
                continue
            seen.add((ctx, op.kind, op.ty, op.name))
            yield op
    for op in opmodel.unregistered(crates, {(k, t) for _, k, t, _ in seen}):
        yield op


def counts(op, top):
    return range(top + 1) if op.kind == "Function" else (None,)


def extreme(op, n, o):
    """Discharges an outcome of max or min: one of the arguments, at or above (below) all the others."""
    terms = [("A", i) for i in range(n)]
    if o.ok in terms and at_least(o.st.facts, terms, terms.index(o.ok), op.name == "max"):
        return True
    return False


def expected(op, n, env, specs):
    if op.kind == "Function" and op.name in ("max", "min"):
        vs = [env[("A", i)] for i in range(n)]
        return max(vs) if op.name == "max" else min(vs)
    return value(specs[0], env, table(op))


def formula(rep, op, n):
    """Every value an operation can return is the one its formula specifies."""
    s = specified(op, n)
    if s is None or (s[0] is not None and n not in s[0]) or op.name == "random":
        return
    specs = s[1]
    outs, eng = opmodel.outcomes(op.cr, op, n)
    lab = label(op, n)
    if outs is None:
        rep.undec("formula:" + lab, "the paths of %s could not be enumerated" % where(op))
        return
    for i, o in enumerate(x for x in outs if x.ok is not None):
        rep.count("results compared with their formula")
        if op.name in ("max", "min") and op.kind == "Function":
            good = extreme(op, n, o)
        else:
            good = proved(o.ok, specs, o.st.facts)
        if good:
            rep.count("proved by normal form")
            rep.ok({"operation": lab, "returns": show(o.ok, -6), "in": where(op)})
            continue
        agree, bad, taken = 0, None, False
        for env in itertools.chain(points(op, n), around(op, n, o)):
            tbl = table(op)
            try:
                fe = feasible(o.st.facts, env, tbl)
                if fe is False:
                    continue
                taken = True
                got, want = value(o.ok, env, tbl), expected(op, n, env, specs)
            except Unknown:
                taken = True
                break
            same = near(got, want)
            if same is False and fe is True and not branch_cut(op, env):
                bad = (env, got, want)
                break
            if same:
                agree += 1
        key = "formula:%s" % lab
        if bad:
            rep.bad(key, "%s returns %s, which is not the specified function: at %s it is %s, not %s [%s]"
                    % (lab, show(o.ok, -6), point_text(bad[0]), bad[1], bad[2], where(op)))
        elif not taken:
            rep.count("paths no operands take")
            rep.ok()
        elif agree >= 2 or o.st.facts and agree:
            rep.count("agree with the formula, no normal form")
            rep.ok()
        else:
            rep.undec(key, "%s returns %s, which could not be compared with the specified function [%s]" % (lab, show(o.ok, -6), where(op)))


def branch_cut(op, env):
    """Complex functions are compared off the real axis only, where their branch cuts lie."""
    if op.ctx != "complex":
        return False
    if op.name == "log" and ("A", 1) in env and complex(env[("A", 1)]).imag == 0 and complex(env[("A", 1)]).real > 0:
        env = {("A", 0): env[("A", 0)]}       # the base is real
    return any(abs(complex(v).imag) < 1e-9 or abs(complex(v).real) < 1e-9 for v in env.values()) and op.name not in ("+", "-", "*", "/")


def domains(rep, op, n):
    """Operands outside the domain are reported, with the error that names the fault; operands inside it are not rejected."""
    s = specified(op, n)
    if s is None or (s[0] is not None and n not in s[0]):
        return
    outs, eng = opmodel.outcomes(op.cr, op, n)
    lab = label(op, n)
    if outs is None:
        rep.undec("domain:" + lab, "the paths of %s could not be enumerated" % where(op))
        return
    rules = opspec.domain(op.ctx, op.name, op.kind, n)
    tbl = table(op)
    rvars = set()
    for o in outs:
        rets(o.term, rvars)
        for k in o.st.facts:
            rets(k, rvars)
    for what, bad_at, kinds in rules:
        rep.count("domain rules")
        hit = None
        rejected = 0
        for env in points(op, n):
            try:
                if not bad_at(env):
                    continue
            except (TypeError, OverflowError, ValueError):
                continue
            for r in rvars:
                env[r] = 0.37
            for o in outs:
                fe = feasible(o.st.facts, env, tbl)
                if fe is False:
                    continue
                if o.ok is not None and fe is True:
                    hit = "%s returns a value when %s (%s) [%s]" % (lab, what, point_text(env), where(op))
                elif o.err is not None and fe is True:
                    if o.kind is None:
                        continue                # which error this is was not resolved
                    if kinds is not None and o.kind not in kinds:
                        hit = "%s reports %s when %s (%s) [%s]" % (lab, o.kind, what, point_text(env), where(op))
                    rejected += 1
                if hit:
                    break
            if hit:
                break
        if hit:
            rep.bad("domain:%s:%s" % (lab, what), hit)
        elif rejected:
            rep.ok({"operation": lab, "rejects": what, "in": where(op)})
        else:
            rep.undec("domain:%s:%s" % (lab, what), "no path of %s that rejects this was recognised [%s]" % (lab, where(op)))
    # inside the domain
    for o in outs:
        if o.err is None or o.kind in ("InvalidArgumentCount",):
            continue
        if o.kind is None:
            rep.undec("valid:%s:?" % lab, "the error of a path of %s was not resolved [%s]" % (lab, where(op)))
            continue
        rep.count("rejections examined")
        hit = None
        for env in points(op, n):
            for r in rvars:
                env[r] = 0.37
            try:
                if any(b(env) for _, b, _ in rules):
                    continue
            except (TypeError, OverflowError, ValueError):
                continue
            try:
                if op.name != "random" and (s[1] or op.name in ("max", "min")):
                    w = expected(op, n, env, s[1])
                    if not finite(w) or abs(w) > 1e6:
                        continue
            except Unknown:
                continue
            if o.kind == "Overflow" and any(abs(v) > 12 for k, v in env.items() if k[0] != "ret"):
                continue
            if feasible(o.st.facts, env, tbl) is True:
                hit = env
                break
        key = "valid:%s:%s" % (lab, o.kind)
        if hit:
            rep.bad(key, "%s reports %s although its operands are valid (%s) [%s]" % (lab, o.kind, point_text(hit), where(op)))
        else:
            rep.ok()


def arity(rep, op, n):
    """A call with a number of arguments the function takes is never refused for it; any other number is."""
    s = specified(op, n)
    if s is None or op.kind != "Function":
        return
    outs, eng = opmodel.outcomes(op.cr, op, n)
    lab = label(op, n)
    if outs is None:
        rep.undec("arity:" + lab, "the paths of %s could not be enumerated" % where(op))
        return
    rep.count("functions and argument counts")
    allowed = n in s[0]
    unclear = [o for o in outs if o.ok is None and o.kind is None]
    if allowed:
        bad = [o for o in outs if o.kind == "InvalidArgumentCount"]
        rep.check(not bad and (unclear or any(o.ok is not None for o in outs)), "arity:" + lab,
                  "%s is refused for its number of arguments, or never returns a value [%s]" % (lab, where(op)),
                  {"function": lab, "accepted": True})
    else:
        bad = [o for o in outs if o.ok is not None or (o.kind is not None and o.kind != "InvalidArgumentCount")]
        panics = [k for k in eng.panics]
        if bad or not outs:
            rep.bad("arity:" + lab, "%s is not refused: it %s [%s]" % (lab, "returns a value" if bad and bad[0].ok is not None else
                                                                    "aborts" if not outs else "reports " + str(bad[0].kind), where(op)))
        elif unclear:
            rep.undec("arity:" + lab, "what %s returns is not known" % lab)
        else:
            rep.ok({"function": lab, "accepted": False})


# ---- results that are not numbers -----------------------------------------------------------------------------------------------------

FLOATS = (0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 1e-310, 1e308, -1e308, algebra.INF, -algebra.INF, algebra.NAN, 90.0, 180.0, 3.7)
GUARDED = ("log", "sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "acsc", "asec", "acot", "asinh", "acosh", "atanh",
           "acsch", "asech", "acoth")


def ieee_ok(facts, env):
    """Do all facts of the path hold for these floating point operands?  Conversions of a float to and from f64 never fail."""
    res = True
    for k, v in facts.items():
        if k[0] == "rng":
            continue
        if k[0] == "disc" and k[1][0] == "call" and k[1][1].rsplit("::", 1)[-1] in ("to_f64", "from_f64"):
            if v != ("=", 1) and not (v[0] == "!" and 1 not in v[1]):
                return False
            continue
        try:
            d = value(k, env, REAL)
        except Unknown:
            res = None
            continue
        d = int(d) if isinstance(d, bool) else d
        if v[0] == "=" and d != v[1] or v[0] == "!" and d in v[1]:
            return False
    return res


def not_numbers(rep, op, n):
    """A guarded function over floats never returns NaN or an infinity."""
    s = specified(op, n)
    if s is None or n not in s[0] or op.name not in GUARDED or op.ctx not in ("checked", "unchecked"):
        return
    outs, eng = opmodel.outcomes(op.cr, op, n)
    lab = label(op, n)
    if outs is None:
        rep.undec("finite:" + lab, "the paths of %s could not be enumerated" % where(op))
        return
    rep.count("functions")
    for o in outs:
        if o.ok is None:
            continue
        rep.count("returned values")
        core = o.ok
        try:
            op_, xs = head(core)
            if op_ == "num":
                rep.ok()
                continue
        except Unknown:
            pass
        hit, unknown = None, False
        for p in itertools.product(FLOATS, repeat=n):
            env = {("A", i): x for i, x in enumerate(p)}
            fe = ieee_ok(o.st.facts, env)
            if fe is False:
                continue
            try:
                v = value(core, env, REAL)
            except Unknown:
                unknown = True
                break
            if not finite(v):
                if fe is None:
                    unknown = True
                else:
                    hit = (env, v)
                    break
        if hit:
            rep.bad("finite:" + lab, "%s returns %s for %s: no check on this path excludes it [%s]" % (lab, hit[1], point_text(hit[0]), where(op)))
        elif unknown:
            rep.undec("finite:" + lab, "whether %s can be other than a number is not known [%s]" % (show(core, -6), where(op)))
        else:
            rep.ok({"function": lab, "returns": show(core, -6), "in": where(op)})


# ---- random values --------------------------------------------------------------------------------------------------------------------

def bounds(rep, op, n):
    """A random value lies between its bounds and reaches both, whatever the generator returns from [0, 1)."""
    s = specified(op, n)
    if s is None or n not in s[0] or op.name != "random":
        return
    outs, eng = opmodel.outcomes(op.cr, op, n)
    lab = label(op, n)
    if outs is None:
        rep.undec("random:" + lab, "the paths of %s could not be enumerated" % where(op))
        return
    tbl = table(op)
    for o in outs:
        if o.ok is None:
            continue
        rep.count("returned values")
        rs = sorted(rets(o.ok, set()), key=str)
        if not rs or any("random" not in str(r[1]).rsplit("::", 1)[-1] for r in rs) or len(rs) > 2:
            rep.undec("random:" + lab, "%s is not a formula over random numbers between 0 and 1 [%s]" % (show(o.ok, -6), where(op)))
            continue
        hit, seen = None, 0
        try:
            for env in ([{("A", i): x for i, x in enumerate(p)} for p in itertools.product((0, 1, 2, 5, 7.5, -1, -3, -4.25), repeat=n)]):
                vals = {}
                fe = feasible(o.st.facts, {**env, **{r: 0.5 for r in rs}}, tbl) if n else True
                if fe is not True:
                    continue
                lo, hi = (0, 1) if n == 0 else (0, env[("A", 0)]) if n == 1 else (env[("A", 0)], env[("A", 1)])
                if lo > hi:
                    continue     # the domain rule's business
                for p in itertools.product((0, 0.25, 0.5, 1), repeat=len(rs)):
                    v = complex(value(o.ok, {**env, **dict(zip(rs, p))}, tbl))
                    parts = [v.real, v.imag] if op.ctx == "complex" else [v.real]
                    for part in parts:
                        if not lo - 1e-9 <= part <= hi + 1e-9:
                            hit = (env, "gives %s" % part)
                    for i, part in enumerate(parts):
                        vals.setdefault(i, set()).add(part)
                        if not hit and hi - lo > 1e-9 and abs(part - hi) < 1e-9 and all(x < 1 for x in p):
                            hit = (env, "reaches its upper bound")
                for i, x in vals.items():
                    seen += 1
                    if not hit and hi - lo > 1e-9 and len(x) < 4:
                        hit = (env, "only takes the values %s" % ", ".join(str(y) for y in sorted(x)))
                    if not hit and (abs(min(x) - lo) > 1e-9 or abs(max(x) - hi) > 1e-9):
                        hit = (env, "only covers %s to %s" % (min(x), max(x)))
                if hit:
                    break
        except Unknown as e:
            rep.undec("random:" + lab, "%s in %s could not be evaluated" % (e, show(o.ok, -6)))
            continue
        if hit:
            rep.bad("random:" + lab, "%s returns %s, which %s for %s [%s]" % (lab, show(o.ok, -6), hit[1], point_text(hit[0]) or "no argument", where(op)))
        elif seen:
            rep.ok({"function": lab, "returns": show(o.ok, -6), "in": where(op)})
        else:
            rep.undec("random:" + lab, "no bounds reach %s" % show(o.ok, -6))
