"""The constants the numeric routines are built from, and what they take to be close enough."""
import algebra
import opmodel
from absint import Budget, Engine, State, sym
from algebra import Unknown, feasible, value, REAL
from fractions import Fraction
from panics import show

PI = Fraction("3.14159265358979323846264338327950288419716939937510582097494")
E = Fraction("2.71828182845904523536028747135266249775724709369995957496697")
LN2 = Fraction("0.69314718055994530941723212145817656807550013436025525412068")
LN10 = Fraction("2.30258509299404568401799145468436420760110148862877297603333")
SQRT2 = Fraction("1.41421356237309504880168872420969807856967187537694807317668")

NAMED = {
    "E": E, "E_INV": 1 / E, "E_POW_2": E * E, "PI": PI, "PI_2": 2 * PI, "TWO_PI": 2 * PI, "TAU": 2 * PI, "PI_MINUS": -PI, "PI_2_MINUS": -2 * PI,
    "PI_FRACT_2": PI / 2, "PI_FRACT_3": PI / 3, "PI_FRACT_4": PI / 4, "PI_FRACT_6": PI / 6, "PI_FRACT_8": PI / 8, "PI_3_FRACT_2": 3 * PI / 2,
    "HALF_PI": PI / 2, "FRAC_PI_2": PI / 2, "FRAC_PI_3": PI / 3, "FRAC_PI_4": PI / 4, "FRAC_PI_6": PI / 6, "FRAC_PI_8": PI / 8,
    "LN_2": LN2, "LN_10": LN10, "LN_2_INV": 1 / LN2, "LN_10_INV": 1 / LN10, "SQRT_2": SQRT2, "HALF": Fraction(1, 2), "ONE_FRACT_3": Fraction(1, 3),
    "ONE_FRACT_2": Fraction(1, 2), "ONE_MINUS": Fraction(-1), "ZERO": Fraction(0), "ONE": Fraction(1), "TWO": Fraction(2), "THREE": Fraction(3),
    "TEN": Fraction(10), "HUNDRED": Fraction(100), "E_INVERSE": 1 / E, "FOUR": Fraction(4), "FIVE": Fraction(5),
}


def exact(t):
    """The number a constant's term is, exactly where its digits are written out."""
    op, xs = algebra.head(t)
    if op == "num":
        return Fraction(xs), isinstance(xs, (int, Fraction))
    v = [exact(x) for x in xs]
    if op in ("add", "sub", "mul", "div", "neg") and len(v) in (1, 2):
        a = [x for x, _ in v]
        r = {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1], "div": lambda: a[0] / a[1],
             "neg": lambda: -a[0]}[op]()
        return r, all(x for _, x in v)
    raise Unknown(op)


def constants(rep, cr):
    for f in cr.fns.values():
        name = f.path.rsplit("::", 1)[-1]
        if f.kind != "const" or name not in NAMED or f.body is None or "tests" in f.path:
            continue
        eng = Engine([cr])
        try:
            (v, st, _), = eng.analyse(f, [], State())
            got, digits = exact(eng.T(st, v))
        except (Unknown, Budget, ValueError, ZeroDivisionError):
            rep.undec("constant:" + f.path, "the value of %s is not known" % f.path)
            continue
        want = NAMED[name]
        rep.count("named constants")
        # written out digits are those of a decimal, or at least of a float
        tol = Fraction(1, 5 * 10 ** 26 if digits and got.denominator > 10 ** 20 else 10 ** 13) * max(1, abs(want))
        rep.check(abs(got - want) <= tol, "constant:" + f.path, "%s is %s, not %s" % (f.path, float(got), "%s (they differ by %.3g)"
                  % (float(want), float(abs(got - want)))), {"constant": f.path, "to": float(tol)})


XS = (2.9996, 3.0004, -2.9996, -3.0004, 2.5, 0.9, 0.0004, -0.0004, 7.49, -1.6, 5.0, 1e6, 0.0)
NEAR = (3 - 1e-11, 3 + 1e-11, -4 + 1e-11, 2 + 1e-7, 2 - 1e-7, -5 - 1e-8, 1e-8, 0.5, 0.25, -7.75, 12.0)


def approximations(rep, cr):
    for f in cr.bodies:
        if not f.trait or f.trait.rsplit("::", 1)[-1] not in ("Approx", "ApproxEq") or "tests" in f.path:
            continue
        name = f.path.rsplit("::", 1)[-1]
        k = {"approx": 1, "approx_by": 2, "approx_eq": 3}.get(name)
        if k is None or f.body.argc != k:
            continue
        eng = Engine([cr])
        try:
            outs = eng.analyse(f, [sym(("A", i)) for i in range(k)], State())
        except Budget:
            rep.undec("close:" + f.path, "the paths of %s could not be enumerated" % f.path)
            continue
        rep.count("closeness routines")
        pts = [(x,) for x in NEAR] if k == 1 else [(x, 1e-3) for x in XS] if k == 2 else \
            [(x, x + d, 1e-3) for x in (0.0, 1.0, -2.5, 30.0) for d in (0, 9e-4, -9e-4, 11e-4, -11e-4, 1.0, -1.0, 60.0, -60.0)]
        hit, seen = None, 0
        for p in pts:
            env = {("A", i): x for i, x in enumerate(p)}
            for v, st, _ in outs:
                if feasible(st.facts, env, REAL) is not True:
                    continue
                try:
                    got = value(eng.T(st, eng.strip(st, v)), env, REAL)
                except Unknown:
                    continue
                seen += 1
                if k == 3:
                    bad = bool(got) != (abs(p[0] - p[1]) < p[2])
                else:
                    bad = abs(got - p[0]) > (p[1] if k == 2 else 1e-9)
                if bad and not hit:
                    hit = "%s yields %s for %s" % (f.path, got, ", ".join(map(str, p)))
        if hit:
            rep.bad("close:" + f.path, hit)
        elif seen:
            rep.ok({"routine": f.path, "points": seen})
        else:
            rep.undec("close:" + f.path, "what %s returns is not known" % f.path)
