"""Floating-point loops: is there an operand for which no path leads out?

A function is interpreted with one of its operands known (not-a-number, infinity, a number so large that one less is itself, ...)
and the arithmetic of floats folded; the states of a loop are kept apart until they repeat.  When the states repeat and no path
of the function reaches its end or a panic, the call never returns.  Nothing follows from a call that may return."""
import math

from absint import Budget, Engine, State, c, sym, TRUE, FALSE
from models import opt_none, opt_some

NAN = float("nan")
VALUES = (NAN, math.inf, -math.inf, 1e300, 1e17, -1e300, 0.5, 0.0, 1.0, 2.5, 5.0, -1.0, -2.5)
CMP = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b,
       "ne": lambda a, b: a != b}


def fold(n, a, b):
    try:
        if n == "add":
            r = a + b
        elif n == "sub":
            r = a - b
        elif n == "mul":
            r = a * b
        elif n == "div":
            if b == 0:
                r = NAN if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1.0, b)
            else:
                r = a / b
        elif n == "rem":
            r = math.fmod(a, b) if b != 0 and not math.isinf(a) else NAN
        else:
            return None
    except (OverflowError, ValueError):
        return None
    return NAN if r != r else r


def known(eng, st, a):
    v = eng.strip(st, a)
    if v[0] == "c" and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
        return float(v[1]) if abs(v[1]) < 1 << 53 or isinstance(v[1], float) else None
    return None


class Floats(Engine):
    def binop(self, st, op, a, b):
        x, y = self.strip(st, a), self.strip(st, b)
        if x[0] == "c" and y[0] == "c" and (isinstance(x[1], float) or isinstance(y[1], float)):
            n = op.lower()
            if n in CMP:
                return c(int(CMP[n](x[1], y[1])))
            r = fold(n, float(x[1]), float(y[1]))
            if r is not None:
                return c(r)
        return super().binop(st, op, a, b)

    def rvalue(self, st, fr, fn, r, site):
        v = super().rvalue(st, fr, fn, r, site)
        return c(NAN) if v[0] == "c" and isinstance(v[1], float) and v[1] != v[1] else v


class Hook:
    """What the operations of a number type mean for a float."""

    def __init__(self, cr):
        self.impl = {(f.trait.rsplit("::", 1)[-1], f.name): f for f in cr.bodies if f.trait and f.self_def() == "f64"}

    def on_call(self, eng, st, name, args, ctx):
        if "::" not in name:
            return None
        of, last = name.rsplit("::", 2)[-2:]
        if last in ("zero", "one") and not args:
            return [(c(0.0 if last == "zero" else 1.0), st)]
        xs = [known(eng, st, a) for a in args]
        if not xs or any(x is None for x in xs):
            return None
        v = [eng.strip(st, a) for a in args]
        if not any(isinstance(x[1], float) for x in v):
            return None
        g = self.impl.get((of, last))
        if g is not None and g.key not in ctx.stack and ctx.info.get("rkey") in (None, g.key):
            return eng.enter(st, g, args, ctx.frame, (ctx.block, "f64"), ctx.stack)
        a = xs[0]
        if len(xs) == 2:
            b = xs[1]
            if last in CMP:
                return [(c(int(CMP[last](a, b))), st)]
            r = fold(last, a, b)
            if r is not None:
                return [(c(r), st)]
            if last in ("add_assign", "sub_assign", "mul_assign", "div_assign") and args[0][0] == "ref":
                r = fold(last[:3], a, b)
                if r is not None:
                    loc, path = args[0][1], args[0][2]
                    while eng.read_loc(st, loc, path)[0] == "ref":
                        _, loc, path = eng.read_loc(st, loc, path)
                    eng.write_loc(st, loc, path, c(r))
                    return [(("agg", "tuple", "", 0, ()), st)]
            if last == "partial_cmp":
                if a != a or b != b:
                    return [(opt_none(), st)]
                return None
            return None
        if len(xs) != 1:
            return None
        if last in ("is_zero", "is_one"):
            return [(c(int(a == (0.0 if last == "is_zero" else 1.0))), st)]
        if last in ("is_nan", "is_infinite", "is_finite", "is_sign_negative", "is_sign_positive", "is_negative", "is_positive"):
            if last.startswith("is_sign") or last.endswith("ative") or last.endswith("itive"):
                if a != a or a == 0:
                    return None
                r = (a < 0) == last.endswith("negative")
            else:
                r = {"is_nan": a != a, "is_infinite": math.isinf(a), "is_finite": math.isfinite(a)}[last]
            return [(c(int(r)), st)]
        if last == "neg":
            return [(c(NAN if a != a else -a), st)]
        if last == "abs":
            return [(c(NAN if a != a else abs(a)), st)]
        if last in ("clone", "to_owned", "borrow", "deref"):
            return [(c(v[0][1]), st)]
        if last in ("to_f64", "from_f64") and of in ("ToPrimitive", "FromPrimitive"):
            return [(opt_some(c(a)), st)]
        if last in ("floor", "ceil", "trunc", "round") and math.isfinite(a):
            return None
        return None


def numbers(f):
    """The parameters that are floats, or of a number type that can be one."""
    out = []
    for i in range(1, f.body.argc + 1):
        t = f.crate.ty(f.body.locals[i])
        while t["k"] == "ref":
            t = f.crate.ty(t["t"]) if isinstance(t.get("t"), int) else {"k": "?", "s": ""}
        if t["k"] == "param" or t.get("s") == "f64":
            out.append(i)
    return out


def outcome(f, at, value, budget=40000):
    """"returns", "never" or None."""
    eng = Floats([f.crate], hooks=Hook(f.crate), budget=budget, max_states=4096)
    eng.exact, eng.unroll = 400, 4
    args = [c(value) if i in at else sym(("arg", i - 1)) for i in range(1, f.body.argc + 1)]
    try:
        outs = eng.analyse(f, args, State())
    except Budget:
        return None
    if outs or eng.panics:
        return "returns"
    return "never"


def endless(f):
    """A value of the operands with which the function never returns; the number of values tried."""
    at = numbers(f)
    if not at:
        return None, 0
    got = [(v, outcome(f, at, v)) for v in VALUES]
    if not any(o == "returns" for _, o in got):
        return None, 0               # nothing is known about this function
    bad = [v for v, o in got if o == "never"]
    return (bad[0] if bad else None), sum(1 for _, o in got if o)
