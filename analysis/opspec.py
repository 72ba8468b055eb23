"""What each builtin operation is specified to be: name, arity, table entries, formula and domain.

The specification is independent of the code: the names, aliases, arities, precedences and formulas below are those of the documentation
(README, descriptions.rs, the rustdoc of the contexts) and, for units of angles, of the existing tests."""
import math

X, Y, L, R, V = ("A", 0), ("A", 1), ("L",), ("R",), ("V",)


def f(name, *a):
    return ("call", name) + a


def n(x):
    return ("c", x)


PI = ("const", "PI")


def deg(t):       # degrees -> radians
    return f("mul", t, f("div", PI, n(180)))


def todeg(t):
    return f("mul", t, f("div", n(180), PI))


def inv(t):
    return f("div", n(1), t)


ANY = None
ONE, ONE_TWO, SOME, TWO_UP, RAND = (1,), (1, 2), (1, 2, 3, 4, 5, 6, 7, 8), (2, 3, 4, 5, 6, 7, 8), (0, 1, 2)
TRIG = ("sin", "cos", "tan")
RECIP = {"csc": "sin", "sec": "cos", "cot": "tan"}


def fold(op, k):
    t = ("A", 0)
    for i in range(1, k):
        t = f(op, t, ("A", i))
    return t


def functions(ctx):
    """{name: (allowed argument counts, {count: [equivalent formulas]})}"""
    cx = ctx == "complex"
    res = {}

    def one(name, *ts):
        res[name] = (ONE, {1: list(ts)})
    ang = (lambda t: t) if cx else deg
    back = (lambda t: t) if cx or ctx == "decimal" else todeg
    for t in TRIG:
        one(t, f(t, ang(X)))
    for r, t in RECIP.items():
        one(r, inv(f(t, ang(X))))
        one("a" + r, back(f("a" + t, inv(X))))
    for t in ("asin", "acos"):
        one(t, back(f(t, X)))
    if ctx == "decimal":
        one("asin", f("asin", X), f("mul", n(2), f("atan", f("div", X, f("add", n(1), f("sqrt", f("sub", n(1), f("mul", X, X))))))))
        one("acos", f("acos", X), f("mul", n(2), f("atan", f("div", f("sqrt", f("sub", n(1), f("mul", X, X))), f("add", n(1), X)))))
        z = inv(X)
        one("acsc", f("asin", z), f("mul", n(2), f("atan", f("div", z, f("add", n(1), f("sqrt", f("sub", n(1), f("mul", z, z))))))))
        one("asec", f("acos", z), f("mul", n(2), f("atan", f("div", f("sqrt", f("sub", n(1), f("mul", z, z))), f("add", n(1), z)))))
    if cx:
        one("atan", f("atan", X))
    else:
        res["atan"] = (ONE_TWO, {1: [back(f("atan", X))], 2: [back(f("atan2", X, Y))]})
    for t in ("sinh", "cosh", "tanh"):
        one(t, f(t, X))
    for r, t in (("csch", "sinh"), ("sech", "cosh"), ("coth", "tanh")):
        one(r, inv(f(t, X)))
        one("a" + r, back(f("a" + t, inv(X))), *([area(t, inv(X))] if ctx == "decimal" else []))
    for t in ("asinh", "acosh", "atanh"):
        one(t, back(f(t, X)), *([area(t[1:], X)] if ctx == "decimal" else []))
    one("sqrt", f("sqrt", X))
    one("ln", f("ln", X))
    one("exp", f("exp", X))
    res["log"] = (ONE_TWO, {1: [f("log10", X)], 2: [f("log", X, Y if not cx else ("fld", Y, 0))]})
    for nm, op in (("sum", "add"), ("product", "mul")):
        res[nm] = (SOME, {k: [fold(op, k)] for k in SOME})
    res["avg"] = (SOME, {k: [f("div", fold("add", k), n(k))] for k in SOME})
    res["random"] = (RAND, {})
    if not cx:
        res["max"] = (TWO_UP, {})
        res["min"] = (TWO_UP, {})
        one("to_radians", deg(X))
        one("to_degrees", todeg(X))
    if ctx in ("checked", "decimal"):
        one("floor", f("floor", X))
        one("ceil", f("ceil", X))
        one("truncate", f("trunc", X))
        one("round", f("round", X))
    if ctx == "checked":
        one("abs", f("abs", X))
        one("sign", f("signum", X))
    if ctx == "decimal":
        one("cbrt", f("cbrt", X))
    return res


def area(t, x):
    """Inverse hyperbolic functions by logarithms."""
    if t == "atanh" or t == "tanh":
        return f("mul", f("div", n(1), n(2)), f("ln", f("div", f("add", n(1), x), f("sub", n(1), x))))
    return f("ln", f("add", x, f("sqrt", f("add" if t == "sinh" else "sub", f("mul", x, x), n(1)))))


LEFT, RIGHT, PREFIX, POSTFIX = 0, 1, 0, 1
ARITH = {"+": (1, LEFT, [f("add", L, R)]), "-": (1, LEFT, [f("sub", L, R)]), "*": (2, LEFT, [f("mul", L, R)]),
         "/": (2, LEFT, [f("div", L, R)]), "mod": (2, LEFT, [f("rem", L, R)]), "^": (3, RIGHT, [f("pow", L, R)])}


def ite(op):
    return [f("ite", (op, L, R), n(1), n(0))]


BITS = {"&": (5, LEFT, [f("and", L, R)]), "|": (3, LEFT, [f("or", L, R)]), "^": (4, LEFT, [f("xor", L, R)]),
        "==": (6, LEFT, ite("eq")), "!=": (6, LEFT, ite("ne")), ">": (7, LEFT, ite("gt")), "<": (7, LEFT, ite("lt")),
        ">=": (7, LEFT, ite("ge")), "<=": (7, LEFT, ite("le")), ">>": (9, LEFT, [f("shr", L, R)]), "<<": (9, LEFT, [f("shl", L, R)])}
ALIASES = {"~": ("not",), "&": ("and",), "|": ("or",), "^": ("xor",), "==": ("eq", "equal"), "!=": ("ne", "no_equal"), ">": ("gt",),
           "<": ("lt",), ">=": ("gte",), "<=": ("lte",), ">>": ("shr",), "<<": ("shl",)}


def binaries(ctx):
    return dict(BITS) if ctx == "binary" else dict(ARITH)


def unaries(ctx):
    """{name: (notation, formulas)}"""
    if ctx == "binary":
        return {"~": (PREFIX, [f("not", V)])}
    r = {"+": (PREFIX, [V]), "-": (PREFIX, [f("neg", V)])}
    if ctx != "complex":
        r["!"] = (POSTFIX, [f("factorial", V)])
    return r


CONSTANTS = {"checked": {"PI": math.pi, "E": math.e}, "unchecked": {"PI": math.pi, "E": math.e}, "decimal": {"PI": math.pi, "E": math.e},
             "complex": {"PI": math.pi, "E": math.e, "i": 1j}, "binary": {}}


# ---- domains: the error an operation must report for some operands --------------------------------------------------------------------

def domain(ctx, name, kind, k):
    """[(what is wrong, predicate over the point, error kinds that report it)]"""
    g = lambda i: (lambda e: e[("A", i)])
    x, y = g(0), g(1)
    l, r, v = (lambda e: e[L]), (lambda e: e[R]), (lambda e: e[V])
    anyerr = None
    if kind == "BinaryFunction":
        if name in ("/", "mod"):
            return [("the divisor is zero", lambda e: r(e) == 0, ("DivisionByZero",))]
        if name == "^" and ctx == "decimal":
            return [("zero is raised to a negative power", lambda e: l(e) == 0 and r(e) < 0, anyerr),
                    ("a negative base is raised to a fraction", lambda e: l(e) < 0 and r(e) != int(r(e)), anyerr)]
        if name in ("<<", ">>"):
            return [("the shift amount is out of range", lambda e: not 0 <= r(e) < 128, anyerr)]
        return []
    if kind == "UnaryFunction":
        if name == "!":
            return [("the operand is negative", lambda e: v(e) < 0, anyerr if ctx == "decimal" else ("NegativeValue",))]
        return []
    if name == "random" and ctx != "complex":
        if k == 1:
            return [("the bound is negative", lambda e: x(e) < 0, anyerr)]
        if k == 2:
            return [("the lower bound is above the upper bound", lambda e: x(e) > y(e), anyerr)]
    if name == "random":
        if k == 1:
            return [("the bound is negative or not real", lambda e: x(e).real < 0 or x(e).imag != 0, anyerr)]
        if k == 2:
            return [("the bounds are not real or out of order", lambda e: x(e).imag != 0 or y(e).imag != 0 or x(e).real > y(e).real, anyerr)]
    if ctx == "complex":
        if name == "log" and k == 2:
            return [("the base is not real", lambda e: y(e).imag != 0, anyerr)]
        return []
    if ctx == "decimal":
        bad = {"sqrt": lambda a: a < 0, "ln": lambda a: a <= 0, "asin": lambda a: abs(a) > 1, "acos": lambda a: abs(a) > 1,
               "acsc": lambda a: abs(a) < 1, "asec": lambda a: abs(a) < 1, "acosh": lambda a: a < 1, "atanh": lambda a: abs(a) >= 1,
               "asech": lambda a: not 0 < a <= 1, "acoth": lambda a: abs(a) <= 1, "acsch": lambda a: a == 0, "acot": lambda a: a == 0,
               "csch": lambda a: a == 0, "coth": lambda a: a == 0, "csc": lambda a: a == 0, "cot": lambda a: a == 0}
        if name in bad and k == 1:
            return [("the argument is outside the domain of " + name, lambda e: bad[name](x(e)), anyerr)]
        if name == "log":
            if k == 1:
                return [("the argument is not positive", lambda e: x(e) <= 0, anyerr)]
            return [("the argument or the base is not positive, or the base is one",
                     lambda e: x(e) <= 0 or y(e) <= 0 or y(e) == 1, anyerr)]
    if ctx in ("checked", "unchecked"):
        if name == "log":
            if k == 1:
                return [("the argument is not positive", lambda e: x(e) <= 0, anyerr)]
            return [("the logarithm is not a finite number", lambda e: x(e) <= 0 or y(e) < 0 or y(e) == 1, anyerr)]
        if name == "atan" and k == 2:
            return [("both arguments are zero", lambda e: x(e) == 0 and y(e) == 0, anyerr)]
        bad = {"asin": lambda a: abs(a) > 1, "acos": lambda a: abs(a) > 1, "acsc": lambda a: abs(a) < 1, "asec": lambda a: abs(a) < 1,
               "acosh": lambda a: a < 1, "atanh": lambda a: abs(a) >= 1, "asech": lambda a: not 0 < a <= 1, "acoth": lambda a: abs(a) <= 1,
               "acsch": lambda a: a == 0}
        if name in bad and k == 1:
            return [("the argument is outside the domain of " + name, lambda e: bad[name](x(e)), anyerr)]
    return []
