"""The iterative numeric routines (series, Newton iterations, repeated squaring, factorial) against the functions they are named for.

Everywhere else such a routine is taken as the function it is named for; here its own body is examined.  Its loop summary (loops.py) gives
the values its loops start from and the formulas of one iteration.  A loop is shown right in one of these ways:

  series     the iteration, carried out on formal power series about the centre of the expansion (a constant number of iterations), yields
             the series of the function up to the required order
  invariant  a formula over the loop variables equals the function on entry, is preserved by every path of the body, and equals the returned
             value wherever the loop is left
  fixpoint   every value the iteration maps to itself satisfies the equation that defines the function
  unrolled   for constant exponents the loop unrolls to the power as a normal form

and the ways that do not loop by the normal form of what they return.  Where none of them applies the routine is undecided, unless there is a
point at which the extracted formulas, iterated as the summary says, differ from the function: that is a violation."""
import decimal
import itertools
import math
from decimal import Decimal as D
from fractions import Fraction

import algebra
import loops
import opmodel
from absint import sym, c, Budget
from algebra import Unknown, head, value, holds, near, REAL, finite, Normal
from panics import show

A0, A1 = ("A", 0), ("A", 1)


def f(name, *a):
    return ("call", name) + a


def n(x):
    return ("c", x)


# ---- formal power series ---------------------------------------------------------------------------------------------------------------

CTX = decimal.Context(prec=90, Emax=10 ** 9, Emin=-10 ** 9)
PI60 = D("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899")
E60 = D("2.71828182845904523536028747135266249775724709369995957496696762772407663035354759")


class Series:
    """Truncated power series {exponent: coefficient}."""

    def __init__(self, order):
        self.k = order

    def num(self, x):
        if isinstance(x, Fraction):
            x = CTX.divide(D(x.numerator), D(x.denominator))
        elif isinstance(x, float):
            x = D(repr(x))
        return {0: D(x)} if x else {}

    def add(self, a, b, s=1):
        r = dict(a)
        for e, v in b.items():
            r[e] = CTX.add(r.get(e, D(0)), v) if s > 0 else CTX.subtract(r.get(e, D(0)), v)
        return {e: v for e, v in r.items() if v}

    def mul(self, a, b):
        r = {}
        for e, v in a.items():
            for g, w in b.items():
                if e + g <= self.k:
                    r[e + g] = CTX.add(r.get(e + g, D(0)), CTX.multiply(v, w))
        return {e: v for e, v in r.items() if v}

    def div(self, a, b):
        if not b:
            raise Unknown("division by zero")
        lo = min(b)
        if a and min(a) < lo:
            raise Unknown("pole")
        a = {e - lo: v for e, v in a.items()}
        b = {e - lo: v for e, v in b.items()}
        b0 = b[0]
        if len(b) == 1:
            return {e: CTX.divide(v, b0) for e, v in a.items()}
        r = {}
        for e in range(self.k + 1):
            v = a.get(e, D(0))
            for g, w in b.items():
                if g and e - g in r:
                    v = CTX.subtract(v, CTX.multiply(w, r[e - g]))
            if v:
                r[e] = CTX.divide(v, b0)
        return r

    def ipow(self, a, m):
        if m < 0:
            a, m = self.div({0: D(1)}, a), -m
        if len(a) == 1:
            (e, v), = a.items()
            return {e * m: CTX.power(v, m)} if e * m <= self.k else {}
        r = {0: D(1)}
        while m:
            if m & 1:
                r = self.mul(r, a)
            a = self.mul(a, a) if m > 1 else a
            m >>= 1
        return r

    def const(self, t):
        for nm, v in (("PI", PI60), ("E", E60), ("HALF_PI", PI60 / 2), ("TWO_PI", PI60 * 2), ("QUARTER_PI", PI60 / 4), ("TAU", PI60 * 2),
                      ("FRAC_PI_2", PI60 / 2)):
            if t[0] == "const" and algebra.last(t[1]) == nm:
                return {0: v}
        return None

    def of(self, t, env, memo):
        k = id(t)
        if k in memo:
            return memo[k][1]
        r = self.of_(t, env, memo)
        memo[k] = (t, r)
        return r

    def of_(self, t, env, memo):
        r = self.const(t) if isinstance(t, tuple) and t else None
        if r is not None:
            return r
        op, xs = head(t)
        if op == "num":
            return self.num(xs)
        if op == "var":
            if xs not in env:
                raise Unknown(str(xs))
            return env[xs]
        a = [self.of(x, env, memo) for x in xs]
        if op == "add":
            return self.add(a[0], a[1])
        if op == "sub":
            return self.add(a[0], a[1], -1)
        if op == "mul":
            return self.mul(a[0], a[1])
        if op == "div":
            return self.div(a[0], a[1])
        if op == "inv":
            return self.div({0: D(1)}, a[0])
        if op == "sqr":
            return self.mul(a[0], a[0])
        if op == "neg":
            return {e: -v for e, v in a[0].items()}
        if op == "pow" and set(a[1]) <= {0}:
            m = a[1].get(0, D(0))
            if m == m.to_integral_value():
                return self.ipow(a[0], int(m))
        if op in ("rem", "rem_euclid") and set(a[1]) == {0} and abs(a[0].get(0, D(0))) < abs(a[1][0]) / 2:
            return a[0]
        if op in ("and", "or", "xor", "shr", "shl") and all(set(x) <= {0} for x in a):
            v = [int(x.get(0, 0)) for x in a]
            return self.num(int(REAL[op](*v)))
        if op[:3] == "as_" and set(a[0]) <= {0}:
            return self.num(algebra.word(op[3:], a[0].get(0, D(0)), algebra.floats(xs[0])))
        if op == "round":      # only of a value known to be within the rounding precision of an integer
            return a[0]
        if op in ("trunc", "floor", "ceil") and set(a[0]) <= {0}:
            return self.num(int(REAL[op](a[0].get(0, D(0)))))
        raise Unknown(op)


def sin_series(k):
    return {e: D(-1 if e % 4 == 3 else 1) / math.factorial(e) for e in range(1, k + 1, 2)}


def cos_series(k):
    return {e: D(-1 if e % 4 == 2 else 1) / math.factorial(e) for e in range(0, k + 1, 2)}


def exp_series(k):
    return {e: D(1) / math.factorial(e) for e in range(k + 1)}


def atan_series(k):
    return {e: D(-1 if e % 4 == 3 else 1) / e for e in range(1, k + 1, 2)}


def ln_series(k):
    return {e: D(1 if e % 2 else -1) / e for e in range(1, k + 1)}


# ---- what each routine is ---------------------------------------------------------------------------------------------------------------

class Spec:
    def __init__(self, target, points, series=None, phis=(), fixpoint=None, exponents=None, bad=None, forms=(), argc=1):
        self.target, self.points, self.series, self.phis = target, points, series, phis
        self.fixpoint, self.exponents, self.bad, self.forms, self.argc = fixpoint, exponents, bad, forms, argc


TRIGPTS = [x / 8 for x in range(-60, 61, 3)] + [k * math.pi / 4 for k in range(-12, 13)] + [0.1, 7.0, 100.3, -55.2]
POS = [0.1, 0.25, 0.5, 0.77, 0.9, 1, 1.5, 2, 2.5, 3, 4, 5, 7.3, 9, 10, 12, 16, 30.7, 99, 100, 250, 1000, 12345.6]
LANCZOS = (0.99999999999999709182, 57.156235665862923517, -59.597960355475491248, 14.136097974741747174, -0.49191381609762019978,
           0.000033994649984811888699, 0.000046523628927048575665, -0.000098374475304879564677, 0.00015808870322491248884,
           -0.00021026444172410488319, 0.0002174396181152126432, -0.00016431810653676389022, 0.000084418223983852743293,
           -0.00002619083840158140867, 0.0000036899182659531622704)
FACT = [lambda r, m: f("mul", r, f("gamma", f("add", m, n(1))))]


def points1(xs):
    return [{A0: x} for x in xs]


SPECS = {
    "checked_sin": Spec(f("sin", A0), points1(TRIGPTS), series=(0, 42, sin_series)),
    "checked_cos": Spec(f("cos", A0), points1(TRIGPTS), series=(0, 42, cos_series)),
    "checked_exp": Spec(f("exp", A0), points1([x / 4 for x in range(-40, 41)]), series=(0, 40, exp_series)),
    "atan": Spec(f("atan", A0), points1([x / 8 for x in range(-24, 25)] + [50, -300, 0.01]), series=(0, 40, atan_series)),
    "checked_ln": Spec(f("ln", A0), points1(POS), series=(1, 300, ln_series), bad=lambda x: x <= 0,
                       phis=[lambda a, m: f("add", f("ln", a), f("mul", m, f("ln", n(10)))),
                             lambda a, m: f("add", f("ln", a), f("mul", m, f("ln", n(2)))),
                             lambda a, m: f("add", f("ln", a), m)]),
    "checked_sqrt": Spec(f("sqrt", A0), points1([0] + POS), fixpoint=2, bad=lambda x: x < 0),
    "checked_cbrt": Spec(f("cbrt", A0), points1([0] + POS + [-0.3, -2, -27, -1]), fixpoint=3),
    "checked_factorial": Spec(f("factorial", A0), points1([x / 2 for x in range(0, 31)] + [0.3, 2.25, 6.8]), phis=FACT, bad=lambda x: x < 0),
    "checked_powi": Spec(f("pow", A0, A1), [{A0: x, A1: m} for x in (1, 2, 0.5, -1, -2, 3, 1.5, -0.7, 10, 0) for m in range(-9, 14)],
                         exponents=list(range(-12, 41)) + [63, 64, 65, 100], argc=2),
    "gamma": Spec(f("gamma", A0), points1([x / 4 for x in range(1, 40)] + [0.3, 0.1, 0.49, 12.2, -0.5, -1.3]), forms=[1]),
}


def lanczos(x):
    """Gamma by its reflection formula and by the Lanczos sum (g = 607/128)."""
    y = f("sub", x, n(1))
    s = n(LANCZOS[0])
    for i, p in enumerate(LANCZOS[1:]):
        s = f("add", s, f("div", n(p), f("add", y, n(i + 1))))
    t = f("add", y, n(4.7421875 + 0.5))
    return [f("div", ("const", "PI"), f("mul", f("sin", f("mul", ("const", "PI"), x)), f("gamma", f("sub", n(1), x)))),
            f("mul", f("mul", f("mul", f("sqrt", f("mul", n(2), ("const", "PI"))), f("pow", t, f("add", y, n(0.5)))), f("exp", f("neg", t))), s)]


# ---- results of a summary --------------------------------------------------------------------------------------------------------------

def result(t):
    """('some', term) | ('none',) | ('may', term): an Option or Result, or a plain value."""
    if t[0] == "agg" and t[1].endswith("Option"):
        return ("some", t[3]) if t[2] == 1 else ("none",)
    if t[0] == "agg" and t[1].endswith("Result"):
        return ("some", t[3]) if t[2] == 0 else ("none",)
    return ("may", t)


class Summary:
    def __init__(self, cr, fn, args):
        self.fn = fn
        self.eng, ends = loops.summary([cr], fn, args, inline=lambda g: not opmodel.kernel(g), budget=60000)
        self.ends = [(result(self.eng.T(s, v)), s.facts, cut) for v, s, cut in ends]
        self.insts = [i for i in self.eng.instances if any(i in cut for _, _, cut in ends)]

    def options(self, cut):
        for e, facts, at in self.ends:
            if at == cut:
                yield "end", facts, e
        for i in self.insts:
            if i.cut == cut:
                yield "loop", i.entry.facts, i
            for nxt, facts, at in i.backs:
                if at == cut and i in cut:
                    yield "back", facts, (i, nxt)

    def run(self, env, series=None, senv=None, limit=6000):
        """What the summary yields at a point: ('some', value, series) | ('none',) | None when it cannot be told.  The series of the values
        is carried along the way the point takes."""
        env, senv, cut = dict(env), dict(senv or {}), ()
        for _ in range(limit):
            live = []
            for kind, facts, x in self.options(cut):
                ok = True
                for k, v in facts.items():
                    h = self.fact(k, v, env)
                    if h is False:
                        ok = False
                        break
                if ok:
                    live.append((kind, x))
            if len(live) != 1:
                return None
            kind, x = live[0]
            memo = {}
            if kind == "end":
                if x[0] == "none":
                    return ("none",)
                v = value(x[1], env, REAL)
                s = series.of(x[1], senv, memo) if series else None
                if x[0] == "may" and not finite(v):
                    return ("none",)
                return ("some", v, s)
            i, vals = (x, x.vars) if kind == "loop" else x
            nv, ns = {}, {}
            for l, t in vals.items():
                try:
                    nv[l] = value(t, env, REAL)
                except Unknown:
                    pass
                if series:
                    try:
                        ns[l] = series.of(t, senv, memo)
                    except Unknown:
                        pass
            for l in [l for l in env if l[0] == "lv" and l[1] == i.n]:
                env.pop(l)
            for l in [l for l in senv if l[0] == "lv" and l[1] == i.n]:
                senv.pop(l)
            env.update(nv)
            senv.update(ns)
            cut = cut[:cut.index(i) + 1] if i in cut else cut + (i,)
        return None

    def fact(self, k, v, env):
        if v[0] == "r":
            return None
        if k[0] == "disc" and k[1][0] == "call":
            try:
                x = value(k[1], env, REAL)
            except Unknown:
                return None
            nm = algebra.last(k[1][1])
            if nm in ("from_u32", "from_usize", "from_i64", "from_u64", "from_i32", "to_f64", "from_f64", "from_u8", "from_i128") and finite(x):
                return v == ("=", 1) or v[0] == "!" and 1 not in v[1]
            if not finite(x):
                return v == ("=", 0) or v[0] == "!" and 0 not in v[1]
            if abs(x) < 1e24:
                if nm in ("to_u32", "to_i64", "to_u64", "to_i32", "to_usize", "to_i128") and (x != int(x) or x < 0):
                    return None
                return v == ("=", 1) or v[0] == "!" and 1 not in v[1]
            return None
        return holds(k, v, env, REAL)


def kernels(crates):
    cr = crates["prexel"]
    for fn in cr.bodies:
        name = fn.path.rsplit("::", 1)[-1]
        if name in SPECS and opmodel.kernel(fn) and fn.body.argc == SPECS[name].argc and "tests" not in fn.path:
            yield name, fn, cr
    seen = set()
    import opcheck
    for op in opcheck.all_ops(crates):
        if op.fn.body.loop_heads() and op.kind == "UnaryFunction" and op.name == "!" and op.fn.key not in seen:
            seen.add(op.fn.key)
            yield "!", op.fn, cr


FACTORIAL = Spec(f("factorial", A0), SPECS["checked_factorial"].points, phis=FACT, bad=lambda x: x < 0)


def get(name, fn, cr):
    if (fn.key,) not in _memo:
        args = [sym(("self",)), sym(A0)] if name == "!" else [sym(("A", i)) for i in range(fn.body.argc)]
        try:
            _memo[(fn.key,)] = Summary(cr, fn, args)
        except Budget:
            _memo[(fn.key,)] = None
    return (FACTORIAL if name == "!" else SPECS[name]), _memo[(fn.key,)]


_memo = {}


# ---- P06: the routine computes the function ------------------------------------------------------------------------------------------------

def close_to(facts, norm):
    return norm


class Steps(Normal):
    """Normal form with the recurrence of the gamma function and logarithms of quotients by constants."""

    def ln(self, a):
        # ln(x / 10) = ln x - ln 10
        if len(a[0]) == 1 and len(a[1]) == 1:
            (m, k), = a[0].items()
            (d, j), = a[1].items()
            q = Fraction(k) / Fraction(j)
            if q != 1 and q > 0 and (m or d):
                r = super().ln(({m: Fraction(1)}, {d: Fraction(1)}))
                whole = self.lnq(q)
                return self.add(r, whole)
        if set(a[0]) == {()} and set(a[1]) == {()}:
            return self.lnq(Fraction(a[0][()]) / Fraction(a[1][()]))
        return super().ln(a)

    def lnq(self, q):
        r = self.num(0)
        for p in (2, 5):
            while q.numerator % p == 0:
                q /= p
                r = self.add(r, self.atom("ln", (self.num(p),)))
            while q.denominator % p == 0:
                q *= p
                r = self.add(r, self.atom("ln", (self.num(p),)), -1)
        if q != 1:
            r = self.add(r, self.atom("ln", (self.num(q),)))
        return r

    def op_gamma(self, a):
        # gamma of x + k in terms of gamma of x, for a polynomial argument without constant term
        if a[1] == {(): Fraction(1)}:
            k = a[0].get((), Fraction(0))
            x = {m: v for m, v in a[0].items() if m}
            if not x and k.denominator == 1 and 0 < k < 20:
                return self.num(math.factorial(int(k) - 1))
            if x and k.denominator == 1 and abs(k) < 20:
                base = (x, {(): Fraction(1)})
                r = self.atom("gamma", (base,))
                for i in range(int(abs(k))):
                    if k > 0:
                        r = self.mul(r, self.add(base, self.num(i)))
                    else:
                        r = self.mul(r, self.inv(self.add(base, self.num(-i - 1))))
                return r
        return self.atom("gamma", (a,))

    def op_factorial(self, a):
        return self.op_gamma(self.add(a, self.num(1)))


def same(facts, t, s):
    m = Steps(facts)
    try:
        return m.same(m.of(t), m.of(s))
    except (Unknown, RecursionError, ZeroDivisionError):
        return False


def formula(rep, name, fn, cr):
    spec, s = get(name, fn, cr)
    where = fn.path
    key = "kernel:%s" % where
    rep.count("numeric routines")
    if s is None:
        rep.undec(key, "the paths of %s could not be enumerated" % where)
        return
    # refutation: the extracted formulas at points
    hit, seen = None, 0
    for env in spec.points + brinks(s, spec):
        if spec.bad and spec.bad(env[A0]):
            continue
        try:
            want = value(spec.target, env, REAL)
            if not finite(want) or abs(want) > 1e12:
                continue
            r = s.run(env)
        except (Unknown, OverflowError, RecursionError):
            continue
        if r is None or r[0] != "some":
            continue
        seen += 1
        if near(r[1], want) is False and abs(r[1] - want) > 1e-9:
            hit = (env, r[1], want)
            break
    if hit:
        rep.bad(key, "%s does not compute %s: with %s it yields %s, not %s" % (where, show(spec.target), points_text(hit[0]), hit[1], hit[2]))
        return
    if spec.exponents:
        done, off = by_powers(s)
        if off:
            rep.bad(key, "%s does not compute %s: with the exponent %d it yields the power %d" % (where, show(spec.target), *off))
            return
        rep.count("exponents followed through the loop", done)
    # the ways that do not loop
    todo = []
    for e, facts, cut in s.ends:
        if e[0] == "none":
            continue
        if cut:
            todo.append((e, facts, cut))
            continue
        rep.count("results without a loop")
        specs = [spec.target] + (lanczos(A0) if spec.forms else [])
        if any(same(facts, e[1], x) for x in specs) or algebra.proved(e[1], specs, facts):
            rep.ok({"routine": where, "returns": show(e[1], -4)})
            continue
        agree = False
        for env in spec.points + special(facts):
            ok = all(s.fact(k, v, env) is not False for k, v in facts.items())
            try:
                if ok and near(value(e[1], env, REAL), value(spec.target, env, REAL)):
                    agree = True
                    break
            except (Unknown, OverflowError):
                pass
        if agree:
            rep.count("agree with the function, no normal form")
            rep.ok()
        else:
            rep.undec(key + ":way", "%s returns %s, which could not be compared with %s" % (where, show(e[1], -4), show(spec.target)))
    if not todo:
        return
    rep.count("results after a loop", len(todo))
    how = by_series(s, spec) or by_invariant(s, spec, todo) or by_fixpoint(s, spec, todo) or by_unrolling(s, spec)
    if how:
        for e, facts, cut in todo:
            rep.ok({"routine": where, "returns": show(e[1], -4), "shown by": how})
    else:
        rep.undec(key, "that the loop of %s computes %s was not shown (it agrees at %d points)" % (where, show(spec.target), seen))


def brinks(s, spec):
    """Points just inside the tolerances with which an operand is compared with a constant."""
    out = set()
    if spec.argc != 1:
        return []
    for e, facts, cut in s.ends:
        for k in facts:
            xs = sorted(constants(k, set()))
            for t in xs:
                if 0 < abs(t) < 0.5:
                    for x in xs + [0.0]:
                        out |= {x + 0.9 * t, x - 0.9 * t, -x + 0.9 * t, -x - 0.9 * t}
    if spec.series and spec.series[0] == 1:
        out = {x for x in out if x > 0.1}         # how accurate a series is far from its centre is not claimed
    return points1(sorted(out)[:400])


def points_text(env):
    return ", ".join("argument %d = %s" % (k[1] + 1, v) for k, v in env.items())


def special(facts):
    """Points at the constants the facts compare an argument with."""
    out = []
    for k in facts:
        for x in constants(k, set()):
            out += [{A0: x}, {A0: -x}]
    return out[:60]


def constants(t, acc):
    if isinstance(t, tuple) and t:
        try:
            op, x = head(t)
            if op == "num":
                acc.add(float(x))
                return acc
        except Unknown:
            pass
        for y in t:
            constants(y, acc)
    return acc


def by_series(s, spec):
    if not spec.series or not s.insts:
        return None
    centre, order, target = spec.series
    covered = set()
    for d in (Fraction(1, 64), Fraction(-1, 64)):
        ps = Series(order)
        try:
            r = s.run({A0: float(centre + d)}, ps, {A0: ps.add(ps.num(centre), {1: D(1)})})
        except (Unknown, OverflowError, decimal.DecimalException):
            r = None
        if r is None or r[0] != "some" or r[2] is None:
            continue
        want = target(order)
        for e in range(order + 1):
            a, b = r[2].get(e, D(0)), want.get(e, D(0))
            if abs(a - b) > D("1e-24") * max(abs(a), abs(b)) + D("1e-60"):
                return None
        covered.add(d)
    if not covered:
        return None
    # a loop that is not part of the series (argument reduction) needs its invariant
    rest = [i for i in s.insts if not constant_trip(i)]
    if rest:
        todo = [x for x in s.ends if x[0][0] != "none" and any(i in rest for i in x[2])]
        if not by_invariant(s, spec, todo, rest):
            return None
        return "power series to order %d about %s, and an invariant of the argument reduction" % (order, centre)
    return "power series to order %d about %s" % (order, centre)


def constant_trip(i):
    """Do constants alone decide how often the loop runs?"""
    counters = [l for l, t in i.vars.items() if t[0] == "c"]
    for nxt, facts, _ in i.backs:
        for k, v in facts.items():
            if k[0] in ("lt", "le", "gt", "ge", "ne", "eq") and v[0] == "=" and mentions(k, i):
                if any(contains(k, l) for l in counters) and not any(contains(k, l) for l in i.vars if l not in counters):
                    return True
    return False


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t)


def mentions(t, i):
    return any(contains(t, l) for l in i.vars)


def subst(t, m):
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        return tuple(subst(x, m) for x in t)
    return t


def by_invariant(s, spec, todo, insts=None):
    insts = insts or s.insts
    if not spec.phis or not insts:
        return None
    for i in insts:
        good = None
        for phi in spec.phis:
            k = phi.__code__.co_argcount
            for ls in itertools.permutations(sorted(i.vars, key=str), k):
                P = phi(*ls)
                if not same(i.entry.facts, subst(P, {l: i.vars[l] for l in i.vars}), spec.target):
                    continue
                if not all(same(facts, subst(P, nxt), P) for nxt, facts, _ in i.backs):
                    continue
                if all(same(dict(facts), e[1], P) for e, facts, cut in todo if cut and cut[-1] is i):
                    good = P
                    break
            if good:
                break
        if not good:
            return None
    return "an invariant of the loop"


def by_fixpoint(s, spec, todo):
    if not spec.fixpoint or len(s.insts) != 1:
        return None
    i = s.insts[0]
    for e, facts, cut in todo:
        x = e[1]
        try:
            op, y = head(x)
        except Unknown:
            return None
        if op != "var" or y not in i.vars:
            return None
        for nxt, fa, _ in i.backs:
            m = Normal()
            try:
                # F(x) = x, cleared of denominators, must be a multiple of x^k = operand
                d = m.add(m.of(nxt[y]), m.of(y), -1)
                want = m.add(m.ipow(m.of(y), spec.fixpoint), m.of(A0), -1)
            except Unknown:
                return None
            if not multiple(m, d[0], want[0]):
                return None
    return "the fixed points of its iteration"


def multiple(m, p, q):
    """p = constant * monomial * q, with coefficients that agree to 24 digits."""
    if len(p) != len(q):
        # a coefficient that is zero but for the rounding of a constant
        big = max(abs(v) for v in p.values()) if p else 0
        p = {k: v for k, v in p.items() if abs(v) > big * Fraction(1, 10 ** 24)}
        if len(p) != len(q):
            return False
    for k in itertools.permutations(sorted(p, key=str)):
        ks = sorted(q, key=str)
        shift = ratio = None
        ok = True
        for a, b in zip(k, ks):
            d = dict(a)
            for at, e in b:
                d[at] = d.get(at, 0) - e
            d = {x: e for x, e in d.items() if e}
            r = p[a] / q[b]
            if shift is None:
                shift, ratio = d, r
            elif d != shift or abs(r - ratio) > abs(ratio) * Fraction(1, 10 ** 20):
                ok = False
                break
        if ok:
            return True
    return False


class BigPow(Normal):
    def op_pow(self, a, b):
        if set(b[0]) <= {()} and b[1] == {(): Fraction(1)}:
            k = b[0].get((), Fraction(0))
            if k.denominator == 1 and abs(k) <= 128:
                return self.ipow(a, int(k))
        return super().op_pow(a, b)


class Powers:
    """The values a summary goes through as powers of the first argument: (coefficient, exponent)."""

    def __init__(self, env):
        self.env = env

    def of(self, t, senv, memo):
        if not contains(t, A0) and not any(contains(t, l) for l, v in senv.items() if v[1]):
            v = value(t, {**self.env, **{l: int(v[0]) if v[0].denominator == 1 else float(v[0]) for l, v in senv.items()}}, REAL)
            if isinstance(v, float) and abs(v) > 2 ** 52:
                raise Unknown("rounded")
            return (Fraction(v), 0)
        op, xs = head(t)
        if op == "var":
            return senv[xs] if xs in senv else (Fraction(1), 1)
        a = [self.of(x, senv, memo) for x in xs]
        if op == "mul":
            return (a[0][0] * a[1][0], a[0][1] + a[1][1])
        if op == "sqr":
            return (a[0][0] ** 2, 2 * a[0][1])
        if op == "div":
            return (a[0][0] / a[1][0], a[0][1] - a[1][1])
        if op == "inv":
            return (1 / a[0][0], -a[0][1])
        if op == "pow" and a[1][1] == 0 and a[1][0].denominator == 1 and (a[0][0] == 1 or abs(a[1][0]) < 64):
            return (a[0][0] ** int(a[1][0]), a[0][1] * int(a[1][0]))
        raise Unknown(op)


def big_exponents():
    for k in range(7, 62):
        for e in ((1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) // 3, (1 << k) + (1 << k // 2) + 5):
            yield e
            yield -e


def by_powers(s):
    """(exponents followed, an exponent for which the power is another one)"""
    done = 0
    for k in big_exponents():
        env = {A0: 1 + 2.0 ** -40 / abs(k), A1: k}
        env[A0] = max(env[A0], 1 + 2.0 ** -52)
        try:
            r = s.run(env, Powers(env), {}, 400)
        except (Unknown, OverflowError, RecursionError, ZeroDivisionError, KeyError, TypeError):
            continue
        if r is None or r[0] != "some" or r[2] is None:
            continue
        if r[2][0] == 1:
            done += 1
            if r[2][1] != k:
                return done, (k, r[2][1])
    return done, None


class Terms:
    """The values a summary goes through as terms over the first argument; what does not depend on it is a number."""

    def __init__(self, env):
        self.env = env

    def of(self, t, senv, memo):
        t = subst(t, senv)
        if not contains(t, A0):
            return n(value(t, self.env, REAL))
        return t


def by_unrolling(s, spec):
    if not spec.exponents:
        return None
    for k in spec.exponents:
        env = {A0: 1.0078125, A1: k}
        try:
            r = s.run(env, Terms(env), {A1: n(k)})
        except (Unknown, OverflowError, RecursionError):
            return None
        if r is None or r[0] != "some":
            return None
        m = BigPow()
        try:
            if not m.same(m.of(r[2]), m.of(f("pow", A0, n(k)))):
                return None
        except (Unknown, ZeroDivisionError):
            return None
    return "its normal form for %d exponents" % len(spec.exponents)


# ---- P03: what the routine rejects ----------------------------------------------------------------------------------------------------

BADPTS = (0, -1e-20, -1e-12, -1e-7, -1e-3, -0.5, -1, -2, -1.5, -3, -10, -7.25)


def domain(rep, name, fn, cr):
    spec, s = get(name, fn, cr)
    where = fn.path
    if s is None or name in ("gamma",):
        return
    key = "kernel:%s" % where
    rep.count("numeric routines")
    if spec.bad:
        hit = unknown = None
        for x in BADPTS:
            if not spec.bad(x):
                continue
            try:
                r = s.run({A0: x})
            except (Unknown, OverflowError, RecursionError):
                r = None
            if r is None:
                unknown = x
            elif r[0] == "some":
                hit = (x, r[1])
                break
        if hit:
            rep.bad(key, "%s returns %s for %s, which is outside its domain" % (where, hit[1], hit[0]))
        elif unknown is not None:
            rep.undec(key, "what %s does for %s is not known" % (where, unknown))
        else:
            rep.ok({"routine": where, "rejects": "operands outside its domain"})
    hit = None
    for env in spec.points:
        if spec.bad and spec.bad(env[A0]):
            continue
        try:
            w = value(spec.target, env, REAL)
            if not finite(w) or abs(w) > 1e6:
                continue
            r = s.run(env)
        except (Unknown, OverflowError, RecursionError):
            continue
        if r is not None and r[0] == "none":
            hit = env
            break
    if hit:
        rep.bad(key + ":valid", "%s yields nothing for %s, which is inside its domain" % (where, points_text(hit)))
    else:
        rep.ok()
