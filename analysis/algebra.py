"""Equality of the formulas the interpreter extracts with the formula an operation is specified to compute.

A formula is a term over the operands (A,i), (L,), (R,), (V,).  Two formulas are proved equal by a normal form: rational functions with
exact coefficients over atoms, where exponentials, logarithms, tangents and hyperbolic functions are rewritten to a small set of atoms, and
the facts of the path (an operand is zero, a value is within 1e-9 of the integer it is rounded to) are used as rewriting rules.  They are
reported as different only with a certificate: a point that satisfies every fact of the path and where the two formulas differ."""
import cmath
import math
from fractions import Fraction

NAN = float("nan")
INF = float("inf")
NAMES = {
    "checked_add": "add", "checked_sub": "sub", "checked_mul": "mul", "checked_div": "div", "checked_rem": "rem", "checked_neg": "neg",
    "checked_sin": "sin", "checked_cos": "cos", "checked_exp": "exp", "checked_ln": "ln", "checked_sqrt": "sqrt", "checked_cbrt": "cbrt",
    "checked_factorial": "factorial", "checked_powi": "pow", "checked_powd": "pow", "checked_powf": "pow", "powi": "pow", "powf": "pow",
    "powc": "pow", "powu": "pow", "powd": "pow", "checked_pow": "pow", "checked_shl": "shl", "checked_shr": "shr", "log10": "log10", "log2": "log2",
    "rem_euclid": "rem_euclid", "is_zero": "is_zero", "bitand": "and", "bitor": "or", "bitxor": "xor", "checked_abs": "abs",
    "abs_sub": "abs_sub", "recip": "inv", "checked_log10": "log10", "sqr": "sqr",
}
IDENT = {"clone", "to_f64", "from_f64", "to_f32", "from", "into", "try_from", "try_into", "from_usize",
         "from_u32", "from_u64", "from_i64", "from_i32", "from_u8", "from_i128", "to_owned", "deref", "borrow", "as_ref", "cloned",
         "copied", "round_dp", "normalize", "Binary", "unwrap", "expect", "from_f32", "real", "approx_value"}
TOINT = {"to_i64", "to_i128", "to_u32", "to_u64", "to_usize", "to_i32"}       # these drop the fraction
CONSTS = {"PI": math.pi, "HALF_PI": math.pi / 2, "FRAC_PI_2": math.pi / 2, "QUARTER_PI": math.pi / 4, "TWO_PI": 2 * math.pi, "TAU": 2 * math.pi,
          "E": math.e, "E_INVERSE": 1 / math.e, "ONE": 1, "ZERO": 0, "TWO": 2, "TEN": 10, "NEGATIVE_ONE": -1, "LN_10": math.log(10),
          "LN_2": math.log(2), "SQRT_2": math.sqrt(2), "HUNDRED": 100, "LN10": math.log(10)}
WORDS = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "i128": (128, 1), "isize": (64, 1),
         "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "u128": (128, 0), "usize": (64, 0)}
VARS = ("A", "L", "R", "V", "lv")


class Unknown(Exception):
    pass


def last(name):
    return name.rsplit("::", 1)[-1]


def coarse(t):
    """Is this a number of decimal places so small that rounding to it changes the value?"""
    try:
        k = head(t)
    except Unknown:
        return False
    return k[0] == "num" and 0 <= k[1] < 9


def head(t):
    """(operator, operands) of a term, with conversions and the unwrapping of results dropped."""
    while True:
        if not isinstance(t, tuple) or not t:
            raise Unknown(str(t))
        k = t[0]
        if k in VARS:
            return "var", t
        if k == "ret":
            return "var", t
        if k == "c":
            if isinstance(t[1], bool) or not isinstance(t[1], (int, float)):
                raise Unknown(str(t))
            return "num", t[1]
        if k == "const":
            n = last(t[1])
            if n in CONSTS:
                return "num", CONSTS[n]
            raise Unknown(str(t))
        if k == "fld":
            if len(t) == 3 and isinstance(t[2], tuple) and t[2][0] == "v" and t[1][0] in ("call", "ret"):
                t = t[1]
                continue
            if len(t) == 3 and isinstance(t[2], int) and t[1][0] in VARS:
                return "part", t
            raise Unknown(str(t)[:80])
        if k == "agg" and len(t) == 4 and (t[1].endswith("Binary") or t[1].endswith("Wrapping")):
            t = t[3]
            continue
        if k in ("cast", "conv") and len(t) >= 2:
            inner = t[-1] if isinstance(t[-1], tuple) else t[1]
            if k == "cast" and t[1] in WORDS and inner[:1] != ("c",):
                return "as_" + t[1], (inner,)
            t = inner
            continue
        if k in ("add", "sub", "mul", "div", "rem", "neg", "not", "and", "or", "xor", "shl", "shr", "lt", "le", "gt", "ge", "eq", "ne"):
            return k, t[1:]
        if k == "call":
            n = last(t[1])
            if n == "from_parts":
                lo, mid, hi, neg, scale = [head(x)[1] for x in t[2:7]]
                v = Fraction((int(hi) << 64) | (int(mid) << 32) | int(lo), 10 ** int(scale))
                return "num", -v if neg else v
            if n in ("new", "from_i128_with_scale") and "Decimal" in t[1] and len(t) == 4:
                return "num", Fraction(int(head(t[2])[1]), 10 ** int(head(t[3])[1]))
            if n == "zero":
                return "num", 0
            if n == "one":
                return "num", 1
            if n in TOINT and len(t) == 3:
                return "trunc", t[2:]
            if n == "round_dp" and len(t) == 4 and coarse(t[3]):
                return n, t[2:]
            if n in IDENT and len(t) == 3 or n == "round_dp":
                t = t[2]
                continue
            return NAMES.get(n, n), t[2:]
        raise Unknown(str(t)[:80])


# ---- numeric value -------------------------------------------------------------------------------------------------------------------

def _safe(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, ZeroDivisionError):
            return NAN
        except OverflowError:
            return INF
    return g


def _div(a, b):
    if b == 0:
        return NAN if a == 0 or a != a else math.copysign(INF, a) * math.copysign(1, b) if not isinstance(a, complex) else NAN
    return a / b


def _rem(a, b):
    if type(a) is int and type(b) is int and b:
        return abs(a) % abs(b) * (-1 if a < 0 else 1)
    return a - b * math.trunc(a / b) if b != 0 and math.isfinite(a) else NAN


def _round(x):
    return x if not math.isfinite(x) else math.copysign(math.floor(abs(x) + 0.5), x)


def _pow(a, b):
    if a == 0 and b == 0:
        return 1.0
    if a < 0 and b != math.floor(b):
        return NAN
    if a == 0 and b < 0:
        return INF
    return float(a) ** b


def _ln(x):
    return -INF if x == 0 else math.log(x)


def _cbrt(x):
    return math.copysign(abs(x) ** (1 / 3), x)


def _shift(left):
    def g(a, b):
        if not 0 <= b < 128:
            return NAN
        if left:
            v = (int(a) << int(b)) & ((1 << 128) - 1)
            return v - (1 << 128) if v >> 127 else v
        return int(a) >> int(b)
    return g


REAL = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": _div, "rem": _rem, "neg": lambda a: -a,
    "pow": _pow, "sqrt": math.sqrt, "cbrt": _cbrt, "exp": math.exp, "ln": _ln, "log": lambda a, b: _div(_ln(a), _ln(b)),
    "log10": lambda a: _ln(a) / math.log(10), "log2": lambda a: _ln(a) / math.log(2), "abs": abs, "floor": math.floor, "ceil": math.ceil,
    "trunc": math.trunc, "round": _round, "signum": lambda a: math.copysign(1.0, a), "to_radians": lambda a: a * math.pi / 180,
    "to_degrees": lambda a: a * 180 / math.pi, "sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos,
    "atan": math.atan, "atan2": math.atan2, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "asinh": math.asinh, "acosh": math.acosh,
    "atanh": lambda a: math.copysign(INF, a) if abs(a) == 1 else math.atanh(a), "inv": lambda a: _div(1.0, a),
    "gamma": math.gamma, "factorial": lambda a: math.gamma(a + 1) if a >= 0 else NAN, "max": max, "min": min, "mul_add": lambda a, b, c: a * b + c,
    "fract": lambda a: a - math.trunc(a), "rem_euclid": lambda a, b: a % abs(b), "hypot": math.hypot, "sqr": lambda a: a * a,
    "is_zero": lambda a: a == 0, "is_one": lambda a: a == 1, "is_nan": lambda a: a != a, "is_infinite": lambda a: abs(a) == INF,
    "is_finite": lambda a: math.isfinite(a), "is_sign_negative": lambda a: math.copysign(1, a) < 0, "is_negative": lambda a: a < 0,
    "is_sign_positive": lambda a: math.copysign(1, a) > 0, "is_positive": lambda a: a > 0, "is_integer": lambda a: a == math.floor(a),
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b,
    "ne": lambda a, b: a != b, "not": lambda a: ~int(a) if not isinstance(a, bool) else not a, "and": lambda a, b: int(a) & int(b),
    "or": lambda a, b: int(a) | int(b), "xor": lambda a, b: int(a) ^ int(b), "shl": _shift(True), "shr": _shift(False),
    "even": lambda a: a % 2 == 0, "exp_m1": math.expm1, "ln_1p": lambda a: _ln(1 + a), "exp2": lambda a: 2.0 ** a,
    "round_dp": lambda a, k: a if not math.isfinite(a) else round(a, int(k)), "sign0": lambda a: (a > 0) - (a < 0), "ite": lambda c, a, b: a if c else b, "copysign": math.copysign,
}
CPLX = {
    "add": REAL["add"], "sub": REAL["sub"], "mul": REAL["mul"], "div": lambda a, b: a / b, "neg": lambda a: -a,
    "pow": lambda a, b: 1.0 if b == 0 else 0.0 if a == 0 else cmath.exp(b * cmath.log(a)), "sqrt": cmath.sqrt, "exp": cmath.exp, "ln": cmath.log,
    "log": lambda a, b: cmath.log(a) / cmath.log(b), "inv": lambda a: 1 / a, "sin": cmath.sin, "cos": cmath.cos, "tan": cmath.tan,
    "asin": cmath.asin, "acos": cmath.acos, "atan": cmath.atan, "sinh": cmath.sinh, "cosh": cmath.cosh, "tanh": cmath.tanh,
    "asinh": cmath.asinh, "acosh": cmath.acosh, "atanh": cmath.atanh, "is_zero": lambda a: a == 0, "is_one": lambda a: a == 1,
    "eq": REAL["eq"], "ne": REAL["ne"], "log10": lambda a: cmath.log(a) / math.log(10), "conj": lambda a: a.conjugate(),
    "rem": lambda a, b: _crem(a, b), "norm": abs, "arg": cmath.phase, "sqr": lambda a: a * a,
    "is_sign_negative": lambda a: math.copysign(1, a.real) < 0, "lt": lambda a, b: a.real < b.real, "gt": lambda a, b: a.real > b.real,
    "le": lambda a, b: a.real <= b.real, "ge": lambda a, b: a.real >= b.real, "new": lambda a, b: complex(a.real, b.real),
}


def _crem(a, b):
    q = a / b
    g = complex(math.trunc(q.real), math.trunc(q.imag))
    return a - b * g


LIMITS = {"INFINITY": INF, "NEG_INFINITY": -INF, "NAN": NAN, "EPSILON": 2.0 ** -52, "MAX": 1.7976931348623157e308, "MIN": -1.7976931348623157e308}


def word(name, x, of_float):
    """A conversion to a machine word: of an integer it wraps, of a float it drops the fraction and saturates."""
    bits, signed = WORDS[name]
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    if x != x:
        return 0
    if of_float or isinstance(x, float) and x != int(min(max(x, -2 ** 200), 2 ** 200)):
        return lo if x <= lo else hi if x >= hi else int(x)
    if abs(x) == INF:
        return lo if x < 0 else hi
    return (int(x) - lo) % (1 << bits) + lo


def floats(t):
    """Is the term a float that is converted to a word?"""
    return isinstance(t, tuple) and t[:1] == ("call",) and t[1] == "f64::trunc"


def machine(t):
    """Is the term a division of the machine's own numbers (of integers, then: a float is a float on both sides)?"""
    while isinstance(t, tuple) and t and t[0] in ("cast", "conv"):
        t = t[-1] if isinstance(t[-1], tuple) else t[1]
    return isinstance(t, tuple) and t[:1] == ("div",)


def value(t, env, table=REAL):
    if isinstance(t, tuple) and t and t[0] == "const" and last(t[1]) in LIMITS and ("f64" in t[1] or last(t[1])[:3] in ("INF", "NEG", "NAN")):
        return LIMITS[last(t[1])]
    op, xs = head(t)
    if op == "num":
        return float(xs) if not isinstance(xs, int) else xs
    if op == "var":
        if xs not in env:
            raise Unknown(str(xs)[:60])
        return env[xs]
    if op == "part":
        v = env[xs[1]] if xs[1] in env else None
        if v is None:
            raise Unknown(str(xs))
        if table is CPLX:
            return complex(v).real if xs[2] == 0 else complex(v).imag
        if xs[2] == 0:
            return v
        raise Unknown(str(xs))
    if op[:3] == "as_" and op[3:] in WORDS:
        v = value(xs[0], env, table)
        if isinstance(v, complex):
            raise Unknown(op)
        return word(op[3:], v, floats(xs[0]))
    if op not in table:
        raise Unknown(op)
    vs = [value(x, env, table) for x in xs]
    try:
        if op == "div" and type(vs[0]) is int and type(vs[1]) is int and vs[1] and machine(t):
            return abs(vs[0]) // abs(vs[1]) * (1 if (vs[0] < 0) == (vs[1] < 0) else -1)
        return table[op](*vs)
    except (ValueError, ZeroDivisionError):
        return NAN
    except OverflowError:
        return INF
    except TypeError:
        raise Unknown("%s of %d operands" % (op, len(xs)))


def finite(v):
    return cmath.isfinite(v)


BIG = 1e6
FITS = ("to_f64", "from_f64", "checked_add", "checked_sub", "checked_mul", "checked_div", "checked_ln", "checked_neg")


def holds(key, val, env, table=REAL):
    """Whether a fact of the path holds at a point: True, False, or None when that cannot be told."""
    try:
        if key[0] == "rng" and val[:1] == ("r",):
            d, val = value(key[1], env, table), ("rng", val)
        elif key[0] == "disc":
            inner = key[1]
            v = value(inner, env, table)
            okay = 1
            if inner[0] == "call" and last(inner[1]) in ("try_from", "try_into", "from_str"):
                okay = 0
                if last(inner[1]) != "from_str" and not (finite(v) and 0 <= v < 2 ** 32):
                    v = NAN
            if not finite(v):
                d = 1 - okay
            elif abs(v) < (1e24 if inner[0] == "call" and last(inner[1]) in FITS else BIG):
                if inner[0] == "call" and last(inner[1]) in ("to_i64", "to_u32", "to_i32", "to_u64", "to_usize", "to_i128") and (v != int(v) or abs(v) > 2 ** 31):
                    return None
                if inner[0] == "call" and last(inner[1]) in ("to_u32", "to_u64", "to_usize") and v < 0:
                    d = 1 - okay
                else:
                    d = okay
            else:
                return None
        else:
            if any(x in str(key)[:200] for x in ("'phi'",)):
                return None
            d = value(key, env, table)
            if isinstance(d, bool):
                d = int(d)
    except Unknown:
        return None
    if val[0] == "=":
        return d == val[1]
    if val[0] == "!":
        return d not in val[1]
    if val[0] == "rng":
        r = val[1]
        lo, hi = r[1], r[2]
        return (lo is None or d >= lo) and (hi is None or d <= hi)
    return None


def feasible(facts, env, table=REAL):
    """True: every fact holds at the point; False: some fact does not; None: unknown."""
    res = True
    for k, v in facts.items():
        h = holds(k, v, env, table)
        if h is False:
            return False
        if h is None:
            res = None
    return res


def near(a, b):
    if a == b:
        return True
    try:
        if not finite(a) or not finite(b):
            return None
    except TypeError:
        return None
    return abs(a - b) <= 1e-8 * max(1.0, abs(a), abs(b))


# ---- normal form ---------------------------------------------------------------------------------------------------------------------

class Normal:
    """Rational functions: (numerator, denominator), each {monomial: coefficient}; a monomial is a sorted tuple of (atom, power)."""

    def __init__(self, facts=None):
        self.atoms = []          # (name, argument normal forms)
        self.subst = {}
        self.close = set()
        for k, v in (facts or {}).items():
            if v[0] != "=":
                continue
            try:
                op, xs = head(k) if k[0] != "disc" else (None, None)
            except Unknown:
                continue
            if v[1] == 1 and op in ("is_zero", "is_one") and xs[0][0] in VARS:
                self.subst[xs[0]] = 0 if op == "is_zero" else 1
            elif v[1] == 1 and op == "eq" and len(xs) == 2:
                for a, b in (xs, xs[::-1]):
                    try:
                        if a[0] in VARS and head(b)[0] == "num":
                            self.subst[a] = head(b)[1]
                    except Unknown:
                        pass
            elif op in ("lt", "le", "gt", "ge"):
                x, y = xs if op in ("lt", "le") else xs[::-1]
                if v[1] == 0:
                    continue
                try:
                    h, inner = head(x)
                    if h == "abs" and head(y)[0] == "num" and 0 < head(y)[1] <= 1e-8:
                        h2, ab = head(inner[0])
                        if h2 == "sub":
                            for a, b in (ab, ab[::-1]):
                                if head(b)[0] == "round" and head(b)[1][0] == a:
                                    self.close.add(b)
                except Unknown:
                    pass

    # polynomials
    def pmul(self, p, q):
        r = {}
        for m, a in p.items():
            for n, b in q.items():
                d = dict(m)
                for at, e in n:
                    d[at] = d.get(at, 0) + e
                k, c = self.mono(d, a * b)
                for kk, cc in k.items():
                    r[kk] = r.get(kk, 0) + cc * c
        return {k: v for k, v in r.items() if v}

    def mono(self, d, c):
        """A monomial reduced: even powers of a square root become powers of what is under it."""
        rest, extra = {}, {(): Fraction(1)}
        for at, e in d.items():
            name, args = self.atoms[at]
            if name == "sqrt" and abs(e) >= 2 and args[0][1] == {(): Fraction(1)} and e > 0:
                for _ in range(e // 2):
                    extra = self.pmul(extra, args[0][0])
                e %= 2
            if e:
                rest[at] = e
        k = tuple(sorted(rest.items()))
        if extra == {(): Fraction(1)}:
            return {k: Fraction(1)}, c
        return self.pmul({k: Fraction(1)}, extra), c

    def padd(self, p, q, s=1):
        r = dict(p)
        for k, v in q.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}

    def num(self, x):
        return ({(): Fraction(x)} if x else {}, {(): Fraction(1)})

    def add(self, a, b, s=1):
        if a[1] == b[1]:
            return self.clean(self.padd(a[0], b[0], s), a[1])
        return self.clean(self.padd(self.pmul(a[0], b[1]), self.pmul(b[0], a[1]), s), self.pmul(a[1], b[1]))

    def mul(self, a, b):
        return self.clean(self.pmul(a[0], b[0]), self.pmul(a[1], b[1]))

    def inv(self, a):
        if not a[0]:
            raise Unknown("division by zero")
        return self.clean(a[1], a[0])

    def clean(self, n, d):
        if not d:
            raise Unknown("division by zero")
        if not n:
            return {}, {(): Fraction(1)}
        # a common monomial and the leading coefficient
        common = None
        for m in list(n) + list(d):
            mm = dict(m)
            common = mm if common is None else {a: min(common.get(a, 0), mm.get(a, 0)) for a in set(common) | set(mm)}
        common = {a: e for a, e in common.items() if e}
        if common:
            def cut(p):
                r = {}
                for m, c in p.items():
                    x = dict(m)
                    for a, e in common.items():
                        x[a] = x.get(a, 0) - e
                    r[tuple(sorted((a, e) for a, e in x.items() if e))] = c
                return r
            n, d = cut(n), cut(d)
        lead = d[max(d)]
        return {k: v / lead for k, v in n.items()}, {k: v / lead for k, v in d.items()}

    def same(self, a, b):
        return self.padd(self.pmul(a[0], b[1]), self.pmul(b[0], a[1]), -1) == {}

    def atom(self, name, args=()):
        for i, (n, xs) in enumerate(self.atoms):
            if n == name and len(xs) == len(args) and all(self.same(x, y) for x, y in zip(xs, args)):
                break
        else:
            i = len(self.atoms)
            self.atoms.append((name, tuple(args)))
        return {((i, 1),): Fraction(1)}, {(): Fraction(1)}

    def ipow(self, a, n):
        r = self.num(1)
        if n < 0:
            a, n = self.inv(a), -n
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def const(self, x):
        """A numeric constant as a rational multiple of 1, pi, 1/pi, e, 1/e, ln 10 or 1/ln 10."""
        if isinstance(x, (int, Fraction)) and (isinstance(x, int) or x.denominator <= 10 ** 6):
            return self.num(x)
        f = Fraction(x)
        s = f.limit_denominator(5000)
        if abs(s - f) <= abs(f) * Fraction(1, 10 ** 15) and s:
            return self.num(s)
        for name, c in (("pi", math.pi), ("e", math.e), ("ln10", math.log(10)), ("ln2", math.log(2))):
            for inv in (False, True):
                q = Fraction(float(x) * c if inv else float(x) / c)
                s = q.limit_denominator(720)
                if s and abs(s - q) <= abs(q) * Fraction(1, 10 ** 14):
                    a = self.named(name)
                    return self.mul(self.num(s), self.inv(a) if inv else a)
        return self.num(f)

    def named(self, name):
        if name == "pi":
            return self.atom("pi")
        if name == "e":
            return self.exp(self.num(1))
        return self.ln(self.num(10 if name == "ln10" else 2))

    def exp(self, a):
        """exp of a sum as a product of integer powers of exp of primitive arguments."""
        if not a[0]:
            return self.num(1)
        if a[1] != {(): Fraction(1)}:
            return self.atom("exp", (a,)) if a[0][max(a[0])] > 0 else self.inv(self.atom("exp", (self.mul(a, self.num(-1)),)))
        r = self.num(1)
        for m, c in sorted(a[0].items()):
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == "ln" and c.denominator == 1:
                r = self.mul(r, self.ipow(self.atoms[m[0][0]][1][0], int(c)))
                continue
            n, p = (int(c), Fraction(1)) if c.denominator == 1 else (int(c.numerator), Fraction(1, c.denominator))
            r = self.mul(r, self.ipow(self.atom("exp", (({m: p}, {(): Fraction(1)}),)), n) if abs(n) <= 12 else
                         self.atom("exp", (({m: c}, {(): Fraction(1)}),)))
        return r

    def ln(self, a):
        if self.same(a, self.num(1)):
            return self.num(0)
        # ln of a power of exp(x)
        if len(a[0]) == 1 and len(a[1]) == 1:
            m, = a[0]
            d, = a[1]
            ms = dict(m)
            for at, e in d:
                ms[at] = ms.get(at, 0) - e
            if a[0][m] == 1 and a[1][d] == 1 and ms and all(self.atoms[at][0] == "exp" for at in ms):
                r = self.num(0)
                for at, e in ms.items():
                    r = self.add(r, self.mul(self.num(e), self.atoms[at][1][0]))
                return r
        return self.atom("ln", (a,))

    def odd(self, name, a, even=False):
        """An odd (even) function: the sign of the argument is taken out (dropped)."""
        if not a[0]:
            return self.num(1) if even else self.num(0)
        if a[0][max(a[0])] < 0:
            r = self.atom(name, (self.mul(a, self.num(-1)),))
            return r if even else self.mul(r, self.num(-1))
        return self.atom(name, (a,))

    def sqrt(self, a):
        if not a[0]:
            return a
        if self.same(a, self.num(1)):
            return a
        return self.mul(self.atom("sqrt", ((self.pmul(a[0], a[1]), {(): Fraction(1)}),)), self.inv((a[1], {(): Fraction(1)})))

    def of(self, t):
        if t in self.close:
            t = head(t)[1][0]
        op, xs = head(t)
        if op == "round" and t in self.close:
            return self.of(xs[0])
        if op == "num":
            return self.const(xs)
        if op == "var":
            if xs in self.subst:
                return self.const(self.subst[xs])
            return self.atom(("var",) + tuple(map(str, xs)))
        if op[:3] == "as_":
            m = self.of(xs[0])
            if set(m[0]) <= {()} and m[1] == {(): Fraction(1)}:
                return self.num(word(op[3:], m[0].get((), Fraction(0)), floats(xs[0])))
            return self.atom(op, (m,))
        if op == "part":
            return self.of(xs[1]) if xs[2] == 0 else self.atom(("im",) + tuple(map(str, xs[1])))
        for c in self.close:
            if head(c) == (op, xs):
                return self.of(xs[0])
        a = [self.of(x) for x in xs] if op not in ("ite",) else []
        f = getattr(self, "op_" + op, None)
        if f is not None:
            return f(*a)
        if op in REAL or op in CPLX:
            return self.atom(op, tuple(a))
        raise Unknown(op)

    def op_add(self, a, b): return self.add(a, b)
    def op_sub(self, a, b): return self.add(a, b, -1)
    def op_mul(self, a, b): return self.mul(a, b)
    def op_div(self, a, b): return self.mul(a, self.inv(b))
    def op_inv(self, a): return self.inv(a)
    def op_neg(self, a): return self.mul(a, self.num(-1))
    def op_sqr(self, a): return self.mul(a, a)
    def op_mul_add(self, a, b, c): return self.add(self.mul(a, b), c)
    def op_to_radians(self, a): return self.mul(a, self.mul(self.atom("pi"), self.num(Fraction(1, 180))))
    def op_to_degrees(self, a): return self.mul(a, self.mul(self.inv(self.atom("pi")), self.num(180)))
    def op_sqrt(self, a): return self.sqrt(a)
    def op_exp(self, a): return self.exp(a)
    def op_ln(self, a): return self.ln(a)
    def op_log(self, a, b): return self.mul(self.ln(a), self.inv(self.ln(b)))
    def op_log10(self, a): return self.mul(self.ln(a), self.inv(self.ln(self.num(10))))
    def op_log2(self, a): return self.mul(self.ln(a), self.inv(self.ln(self.num(2))))
    def op_sin(self, a): return self.odd("sin", a)
    def op_cos(self, a): return self.odd("cos", a, True)
    def op_tan(self, a): return self.mul(self.odd("sin", a), self.inv(self.odd("cos", a, True)))
    def op_asin(self, a): return self.special("asin", a, ((1, Fraction(1, 2)), (-1, Fraction(-1, 2)))) or self.odd("asin", a)

    def op_acos(self, a):
        return self.special("acos", a, ((1, 0), (0, Fraction(1, 2)), (-1, Fraction(1)))) or self.atom("acos", (a,))

    def op_atan(self, a): return self.special("atan", a, ((1, Fraction(1, 4)), (-1, Fraction(-1, 4)))) or self.odd("atan", a)
    def op_sinh(self, a): return self.mul(self.add(self.exp(a), self.exp(self.op_neg(a)), -1), self.num(Fraction(1, 2)))
    def op_cosh(self, a): return self.mul(self.add(self.exp(a), self.exp(self.op_neg(a))), self.num(Fraction(1, 2)))
    def op_tanh(self, a): return self.mul(self.op_sinh(a), self.inv(self.op_cosh(a)))
    def op_asinh(self, a): return self.odd("asinh", a)
    def op_atanh(self, a): return self.odd("atanh", a)

    def op_factorial(self, a):
        if a == self.num(0) or a == self.num(1):
            return self.num(1)
        return self.atom("gamma", (self.add(a, self.num(1)),))

    def op_gamma(self, a):
        return self.atom("gamma", (a,))

    def op_pow(self, a, b):
        if b == self.num(0):
            return self.num(1)
        if set(b[0]) <= {()} and b[1] == {(): Fraction(1)}:
            n = b[0].get((), Fraction(0))
            if n.denominator == 1 and abs(n) <= 16:
                return self.ipow(a, int(n))
        if a == self.num(1) or a == self.num(0):
            return a
        if len(a[0]) == 1 and a[1] == {(): Fraction(1)}:
            (m, k), = a[0].items()
            if k == 1 and len(m) == 1 and self.atoms[m[0][0]][0] == "exp":
                return self.exp(self.mul(self.mul(self.atoms[m[0][0]][1][0], self.num(m[0][1])), b))
        if b == self.num(Fraction(1, 2)):
            return self.sqrt(a)
        return self.atom("pow", (a, b))

    def special(self, name, a, table):
        for x, v in table:
            if self.same(a, self.num(x)):
                return self.mul(self.atom("pi"), self.num(v)) if v else self.num(0)
        return None


def proved(t, specs, facts):
    """Whether a formula equals one of the specified ones by the normal form."""
    for s in specs:
        n = Normal(facts)
        try:
            if n.same(n.of(t), n.of(s)):
                return True
        except (Unknown, RecursionError, ZeroDivisionError):
            pass
    return False


def at_least(facts, terms, i, up=True):
    """Whether the facts order term i at or above (below) all the others."""
    edges = set()      # (x, y): x >= y
    for k, v in facts.items():
        if v[0] != "=" or k[0] in ("disc", "fld"):
            continue
        try:
            op, xs = head(k)
        except Unknown:
            continue
        if op not in ("lt", "le", "gt", "ge", "eq") or len(xs) != 2:
            continue
        a, b = xs
        if op == "eq":
            if v[1] == 1:
                edges |= {(a, b), (b, a)}
        elif (op in ("gt", "ge")) == (v[1] == 1):
            edges.add((a, b))
        else:
            edges.add((b, a))
    if not up:
        edges = {(b, a) for a, b in edges}
    seen, work = {terms[i]}, [terms[i]]
    while work:
        x = work.pop()
        for a, b in edges:
            if a == x and b not in seen:
                seen.add(b)
                work.append(b)
    return all(t in seen for t in terms)
