"""Operations that panic or wrap when a result does not fit: which the builtin operations reach, and with what operands.

An unguarded arithmetic operation is one on the number type that has no way to report failure: an operator of std::ops on a decimal or on the
generic number, a wrapping or saturating method, abs, pow, sum.  The operands of every one that an operation reaches are terms over the
operands of the operation, under the facts of the path.  It is discharged by the intervals of its operands (the facts refine them, the loops
of a numeric routine are followed in intervals, with widening), and reported with operands that satisfy the facts and for which the result
does not fit.  What is neither is undecided."""
import decimal
import itertools
from decimal import Decimal as D

import algebra
import kernels
import loops
import opmodel
from absint import Engine, State, Budget, sym
from algebra import Unknown, head, last, value, finite, NAN

DOWN = decimal.Context(prec=70, rounding=decimal.ROUND_FLOOR, Emax=10 ** 6, Emin=-10 ** 6)
UP = decimal.Context(prec=70, rounding=decimal.ROUND_CEILING, Emax=10 ** 6, Emin=-10 ** 6)
INFTY = D("Infinity")
decimal.getcontext().prec = 90

TRAITS = {"Add::add": "add", "Sub::sub": "sub", "Mul::mul": "mul", "Div::div": "div", "Rem::rem": "rem", "Neg::neg": "neg",
          "AddAssign::add_assign": "add", "SubAssign::sub_assign": "sub", "MulAssign::mul_assign": "mul", "DivAssign::div_assign": "div",
          "RemAssign::rem_assign": "rem", "Shl::shl": "shl", "Shr::shr": "shr", "ShlAssign::shl_assign": "shl", "ShrAssign::shr_assign": "shr"}
METHODS = {"abs": "abs", "pow": "pow", "powi": "pow", "powu": "pow", "powd": "pow", "powf": "pow", "exp": "exp", "sum": "add", "product": "mul",
           "rem_euclid": "rem", "div_euclid": "div"}
PREFIXES = ("wrapping_", "saturating_", "overflowing_", "unchecked_", "strict_")


class Kind:
    """A number type: its range, and the smallest difference of two values."""

    def __init__(self, name, hi, lo, step):
        self.name, self.hi, self.lo, self.step = name, D(hi), D(lo), D(step)


DECIMAL = Kind("decimal", 79228162514264337593543950335, -79228162514264337593543950335, D(10) ** -28)
INT = Kind("integer", 2 ** 127 - 1, -2 ** 127, 1)
WORD = {"i8": (2 ** 7 - 1, -2 ** 7), "i16": (2 ** 15 - 1, -2 ** 15), "i32": (2 ** 31 - 1, -2 ** 31), "i64": (2 ** 63 - 1, -2 ** 63),
        "i128": (2 ** 127 - 1, -2 ** 127), "isize": (2 ** 63 - 1, -2 ** 63), "u8": (2 ** 8 - 1, 0), "u16": (2 ** 16 - 1, 0),
        "u32": (2 ** 32 - 1, 0), "u64": (2 ** 64 - 1, 0), "u128": (2 ** 128 - 1, 0), "usize": (2 ** 64 - 1, 0)}


def kind_of(ty):
    """The number type a type is, if its arithmetic can fail."""
    while ty.startswith("&"):
        ty = ty.lstrip("&").replace("mut ", "", 1).strip()
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[-1]
    if ty.endswith("Decimal"):
        return DECIMAL
    if len(ty) == 1 and ty.isupper():
        return INT              # the generic number: shown for 128-bit integers
    if ty.endswith("Binary"):
        return INT
    if ty in WORD:
        return Kind(ty, *WORD[ty], step=1)
    return None


class Raw:
    def __init__(self, op, kind, args, facts, cut, site, name, fn):
        self.op, self.kind, self.args, self.facts, self.cut, self.site, self.name, self.fn = op, kind, args, facts, cut, site, name, fn

    def text(self):
        from panics import show
        return "%s(%s)" % (self.name, ", ".join(show(a, -2) for a in self.args))


class Watch(loops.Ranges):
    """Records the unguarded operations, the panics and the calls of numeric routines."""

    def __init__(self):
        self.raws, self.panics, self.calls = [], [], []

    def on_call(self, eng, st, name, args, ctx):
        r = super().on_call(eng, st, name, args, ctx)
        if r is not None:
            return r
        cut = getattr(eng, "cut", ())
        op = TRAITS.get(name)
        m = last(name)
        if op is None and args:
            if m in METHODS and not name.startswith("f64") and not name.startswith("f32") and "Complex" not in name:
                op = METHODS[m]
            for p in PREFIXES:
                if m.startswith(p):
                    op = m[len(p):]
        cr = ctx.fn.crate if ctx.fn is not None else None
        if op is not None and cr is not None:
            k = None
            tys = ctx.info.get("args") or []
            if "impl_self" in ctx.info:
                tys = [ctx.info["impl_self"]] + list(tys)
            for t in tys:
                if isinstance(t, int):
                    k = kind_of(cr.ty(t)["s"])
                    break
            if name == "Iterator::sum" or name == "Iterator::product":
                k = None
            if k is not None:
                ts = tuple(eng.T(st, eng.strip(st, a)) for a in args)
                self.raws.append(Raw(op, k, ts, dict(st.facts), cut, ctx.site, name, ctx.fn))
        rk = ctx.info.get("rkey", ctx.info.get("key"))
        if rk is not None:
            self.calls.append((rk, tuple(eng.T(st, eng.strip(st, a)) for a in args), dict(st.facts), cut))
        return None

    def on_panic(self, eng, st, fn, why, site, stack, ops):
        self.panics.append((why, fn, tuple(eng.T(st, o) if o else o for o in ops), dict(st.facts), getattr(eng, "cut", ()), site))


# ---- intervals ---------------------------------------------------------------------------------------------------------------------------

def isint(t, ints):
    """Is the term a machine integer (MIR arithmetic), as opposed to a value of the number type?"""
    if t in ints:
        return True
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "c":
        return True
    if t[0] in ("add", "sub", "mul", "div", "rem", "and", "or", "xor", "shl", "shr", "cast"):
        return all(isint(x, ints) for x in t[1:] if isinstance(x, tuple))
    if t[0] == "fld" and t[1][0] == "call":
        t = t[1]
    if t[0] == "call":
        return last(t[1]) in ("to_u32", "to_i64", "to_i32", "to_usize", "to_u64", "checked_neg") and len(t) == 3 and \
            (last(t[1]) != "checked_neg" or isint(t[2], ints))
    return False


class Box:
    """Intervals of terms under facts."""

    def __init__(self, kind, env, facts, ints=frozenset()):
        self.kind, self.env, self.ints = kind, env, ints
        self.ref, self.nonzero, self.dead = {}, set(), False
        self.memo = {}
        for _ in range(2):
            for k, v in facts.items():
                self.learn(k, v)
            self.memo.clear()

    def step(self, a, b):
        return D(1) if isint(a, self.ints) and isint(b, self.ints) else self.kind.step

    def norm(self, t):
        """The term under conversions and reference taking."""
        while True:
            if isinstance(t, tuple) and t:
                if t[0] == "fld" and len(t) == 3 and t[1][0] in ("call", "ret"):
                    t = t[1]
                    continue
                if t[0] == "call" and last(t[1]) in ("clone", "deref", "borrow", "as_ref", "copied", "cloned") and len(t) == 3:
                    t = t[2]
                    continue
            return t

    def meet(self, t, lo=None, hi=None):
        t = self.norm(t)
        a, b = self.ref.get(t, (-INFTY, INFTY))
        if lo is not None and lo > a:
            a = lo
        if hi is not None and hi < b:
            b = hi
        self.ref[t] = (a, b)
        if isinstance(t, tuple) and t and t[0] == "call" and last(t[1]) == "abs" and hi is not None and len(t) == 3:
            self.meet(t[2], -hi, hi)
        self.memo.clear()
        l, h = self.of(t)
        if l > h:
            self.dead = True

    def learn(self, k, v):
        if v[0] == "r":
            if k[0] == "rng":
                self.meet(k[1], None if v[1] is None else D(v[1]), None if v[2] is None else D(v[2]))
            return
        truth = None
        if v[0] == "=" and v[1] in (0, 1, True, False):
            truth = bool(v[1])
        elif v[0] == "!" and (0 in v[1]) != (1 in v[1]):
            truth = 0 in v[1]
        if k[0] == "disc" or truth is None and v[0] != "=":
            if k[0] != "disc" and v[0] == "!" and 0 in v[1]:
                self.nonzero.add(self.norm(k))
            return
        try:
            op, a = head(k)
        except Unknown:
            return
        if v[0] == "=" and op not in ("lt", "le", "gt", "ge", "eq", "ne", "is_zero", "is_one", "is_sign_negative", "is_negative", "is_positive",
                                      "is_sign_positive", "approx_eq") and not isinstance(v[1], bool) and isinstance(v[1], int):
            if op != "var" or isint(k, self.ints):
                self.meet(k, D(v[1]), D(v[1]))
            return
        if truth is None or not isinstance(a, tuple):
            return
        k = self.norm(k)
        a = [self.norm(x) for x in (k[2:] if k[0] == "call" else k[1:])]
        neg = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le", "eq": "ne", "ne": "eq"}
        if op in neg and len(a) == 2:
            if not truth:
                op = neg[op]
            x, y = a
            s = self.step(x, y)
            xl, xh = self.of(x)
            yl, yh = self.of(y)
            if op == "lt":
                self.meet(x, hi=yh - s)
                self.meet(y, lo=xl + s)
            elif op == "le":
                self.meet(x, hi=yh)
                self.meet(y, lo=xl)
            elif op == "gt":
                self.meet(x, lo=yl + s)
                self.meet(y, hi=xh - s)
            elif op == "ge":
                self.meet(x, lo=yl)
                self.meet(y, hi=xh)
            elif op == "eq":
                self.meet(x, yl, yh)
                self.meet(y, xl, xh)
            elif op == "ne":
                for p, q in ((x, y), (y, x)):
                    l, h = self.of(q)
                    if l == h:
                        self.without(p, l, s)
        elif op == "is_zero" and len(a) == 1:
            if truth:
                self.meet(a[0], D(0), D(0))
            else:
                self.without(a[0], D(0), self.kind.step)
        elif op == "is_one" and len(a) == 1 and truth:
            self.meet(a[0], D(1), D(1))
        elif op in ("is_sign_negative", "is_negative") and len(a) == 1:
            if truth:
                self.meet(a[0], hi=D(0))
            else:
                self.meet(a[0], lo=D(0))
        elif op in ("is_sign_positive", "is_positive") and len(a) == 1:
            if truth:
                self.meet(a[0], lo=D(0))
            else:
                self.meet(a[0], hi=D(0))

    def without(self, t, x, s):
        if x == 0:
            self.nonzero.add(self.norm(t))
        l, h = self.of(t)
        if l == x and h == x:
            self.dead = True
        elif l == x:
            self.meet(t, lo=x + s)
        elif h == x:
            self.meet(t, hi=x - s)

    def of(self, t):
        t = self.norm(t)
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = (self.kind.lo, self.kind.hi)
        l, h = self.of_(t)
        if t in self.ref:
            a, b = self.ref[t]
            l, h = max(l, a), min(h, b)
        self.memo[t] = (l, h)
        return l, h

    def full(self, t):
        if isint(t, self.ints):
            return -INFTY, INFTY
        return self.kind.lo, self.kind.hi

    def of_(self, t):
        if t in self.env:
            return self.env[t]
        try:
            op, a = head(t)
        except Unknown:
            return self.full(t)
        if op == "num":
            v = a if isinstance(a, (int, float)) else None
            if v is None:
                return DOWN.divide(D(a.numerator), D(a.denominator)), UP.divide(D(a.numerator), D(a.denominator))
            return D(v), D(v)
        if op == "var":
            return self.env.get(a, self.full(t))
        xs = [self.of(x) for x in a]
        if op[:3] == "as_":
            hi, lo = WORD[op[3:]]
            return xs[0] if lo <= xs[0][0] and xs[0][1] <= hi else (D(lo), D(hi))
        r = self.arith(op, a, xs)
        if r is None:
            return self.full(t)
        if not isint(t, self.ints):
            # a value of the number type fits it
            return max(r[0], self.kind.lo), min(r[1], self.kind.hi)
        return r

    def arith(self, op, a, xs):
        try:
            if op == "add":
                return DOWN.add(xs[0][0], xs[1][0]), UP.add(xs[0][1], xs[1][1])
            if op == "sub":
                try:
                    o, y = head(a[1])
                    if o in ("round", "floor", "ceil", "trunc") and self.norm(y[0]) == self.norm(a[0]):
                        return D(-1), D(1)
                except Unknown:
                    pass
                return DOWN.subtract(xs[0][0], xs[1][1]), UP.subtract(xs[0][1], xs[1][0])
            if op == "neg":
                return -xs[0][1], -xs[0][0]
            if op == "abs":
                l, h = xs[0]
                return (D(0) if l <= 0 <= h else min(abs(l), abs(h))), max(abs(l), abs(h))
            if op == "mul" or op == "sqr":
                y = xs[0] if op == "sqr" else xs[1]
                lo = [self.times(DOWN, p, q) for p in xs[0] for q in y]
                hi = [self.times(UP, p, q) for p in xs[0] for q in y]
                l, h = min(lo), max(hi)
                if op == "sqr" or self.norm(a[0]) == self.norm(a[1]):
                    l = D(0) if xs[0][0] <= 0 <= xs[0][1] else max(l, D(0))
                return l, h
            if op == "div":
                l, h = xs[1]
                if l <= 0 <= h:
                    return None
                qs = [(DOWN.divide(p, q), UP.divide(p, q)) for p in xs[0] for q in (l, h)]
                return min(q[0] for q in qs), max(q[1] for q in qs)
            if op in ("rem", "rem_euclid"):
                m = max(abs(xs[1][0]), abs(xs[1][1]))
                l, h = xs[0]
                if op == "rem_euclid":
                    return D(0), m
                return (D(0) if l >= 0 else max(l, -m)), (D(0) if h <= 0 else min(h, m))
            if op in ("floor", "ceil", "trunc", "round"):
                l, h = xs[0]
                return (l - 1 if l.is_finite() else l), (h + 1 if h.is_finite() else h)
            if op in ("sin", "cos", "tanh", "signum"):
                return D("-1.01"), D("1.01")
            if op in ("atan", "atan2", "asin"):
                return D("-3.2"), D("3.2")
            if op == "acos":
                return D("-0.01"), D("3.2")
            if op == "sqrt":
                return D(0), max(D("1.01"), xs[0][1])
            if op == "acosh":
                return D(0), D(70)
            if op == "ln":
                l, h = xs[0]
                return (D(-70) if l <= 0 else l.ln() - 1), (D(70) if h <= 0 else h.ln() + D("0.5"))
            if op == "exp":
                return D(0), (D(3) ** (int(xs[0][1]) + 1) if xs[0][1] < 66 else self.kind.hi) if xs[0][1] > 0 else D("1.01")
            if op == "pow" and xs[0][0] >= 1 and xs[1][1] < 100:
                return D(0), UP.power(xs[0][1], max(0, int(xs[1][1]) + 1))
            if op == "shr" and xs[0][0] >= 0:
                return D(0), xs[0][1]
            if op == "and" and xs[1][0] == xs[1][1] >= 0:
                return D(0), xs[1][1]
            if op in ("max", "min") and len(xs) == 2:
                g = max if op == "max" else min
                return g(xs[0][0], xs[1][0]), g(xs[0][1], xs[1][1])
        except (decimal.DecimalException, IndexError):
            return None
        return None

    @staticmethod
    def times(ctx, p, q):
        if p == 0 or q == 0:
            return D(0)
        return ctx.multiply(p, q)


    def safe(self, raw):
        """Can the operation not fail, by the intervals of its operands?"""
        if self.dead:
            return True
        k, op = raw.kind, raw.op
        xs = [self.of(x) for x in raw.args]
        if op == "neg":
            return k.lo == -k.hi or xs[0][0] > k.lo
        if op == "abs":
            return k.lo == -k.hi or xs[0][0] > k.lo
        if op in ("div", "rem"):
            l, h = xs[1]
            if l <= 0 <= h and self.norm(raw.args[1]) not in self.nonzero:
                return False
            if op == "rem":
                return k.lo == -k.hi or xs[0][0] > k.lo or not l <= -1 <= h
            if l <= 0 <= h:         # nonzero, but as small as can be
                return max(abs(xs[0][0]), abs(xs[0][1])) / k.step <= k.hi and k.lo == -k.hi or k.step == 1 and (xs[0][0] > k.lo or l > -1)
        if op in ("shl", "shr"):
            return xs[1][0] >= 0 and xs[1][1] < 8
        r = self.arith(op, list(raw.args), xs)
        if r is None:
            return False
        return k.lo <= r[0] and r[1] <= k.hi


# ---- a routine with loops, followed in intervals --------------------------------------------------------------------------------------------

class Loops(loops.Loops):
    cut = ()

    def explore(self, body, fn, fr, b, st, stack, cut, heads, outs, arrived=None):
        old, self.cut = self.cut, cut
        try:
            return super().explore(body, fn, fr, b, st, stack, cut, heads, outs, arrived)
        finally:
            self.cut = old


class Routine:
    def __init__(self, cr, fn, kern, args=None):
        self.fn, self.watch = fn, Watch()
        self.eng = Loops([cr], fn, budget=60000, hooks=self.watch)
        self.eng.depth = 40
        self.eng.inline = kern
        self.args = args or [sym(("A", i)) for i in range(fn.body.argc)]
        self.eng.analyse(fn, self.args, State())
        self.ends = self.eng.ends
        self.insts = [i for i in self.eng.instances if any(i in c for _, _, c in self.ends)]
        live = set(map(id, self.insts))
        ok = lambda c: all(id(i) in live for i in c)
        self.raws = [r for r in self.watch.raws if ok(r.cut)]
        self.panics = [p for p in self.watch.panics if ok(p[4])]
        self.calls = [c for c in self.watch.calls if ok(c[3])]
        self.ints = set()
        for _ in range(3):
            for i in self.insts:
                for l, t in i.vars.items():
                    if isint(t, self.ints):
                        self.ints.add(l)
        self.frozen = frozenset(self.ints)

    def options(self, cut):
        for v, s, at in self.ends:
            if at == cut:
                yield "end", s.facts, None
        for i in self.insts:
            if i.cut == cut:
                yield "loop", i.entry.facts, i
            for nxt, facts, at in i.backs:
                if at == cut and i in cut:
                    yield "back", facts, (i, nxt)

    def execute(self, kind, params, visit, limit=1300):
        """Follow the routine with its parameters in the given intervals; visit(cut, env) is called for every state of it.
        False if it was not followed to the end."""
        work = [((), dict(params), 0)]
        steps = 0
        while work:
            cut, env, turn = work.pop()
            steps += 1
            if steps > 4000:
                return False
            visit(cut, env)
            nxt, entered = {}, []
            for what, facts, x in self.options(cut):
                box = Box(kind, env, facts, self.frozen)
                if box.dead:
                    continue
                if what == "loop":
                    e = {k: v for k, v in env.items()}
                    for l, t in x.vars.items():
                        e[l] = box.of(t)
                    entered.append((cut + (x,), e))
                elif what == "back":
                    i, vals = x
                    e = {k: v for k, v in env.items() if not (k[0] == "lv" and any(k[1] == j.n for j in cut[cut.index(i) + 1:]))}
                    for l, t in vals.items():
                        e[l] = box.of(t)
                    c2 = cut[:cut.index(i) + 1]
                    nxt.setdefault(c2, []).append(e)
            for c2, e in entered:
                work.append((c2, e, 0))
            for c2, es in nxt.items():
                e = join(es)
                if turn >= limit or (c2 == cut and turn > 8 and not self.counted(cut, env, kind)):
                    e = widen(env, e, kind, self.frozen)
                    if all(inside(e.get(k), env.get(k)) for k in e):
                        continue
                work.append((c2, e, turn + 1))
        return True

    def counted(self, cut, env, kind):
        """Is it decided whether the loop goes on?"""
        i = cut[-1]
        for l in i.vars:
            if l in self.ints and l in env and env[l][0] == env[l][1]:
                return True
        return False


def join(es):
    r = dict(es[0])
    for e in es[1:]:
        for k in list(r):
            if k in e:
                r[k] = (min(r[k][0], e[k][0]), max(r[k][1], e[k][1]))
            else:
                del r[k]
    return r


THRESHOLDS = [D(x) for x in (-100, -10, -2, -1)] + [D(-1) + DECIMAL.step, D(0), DECIMAL.step, D(1), D(2), D(10), D(100)]


def widen(a, b, kind, ints):
    r = {}
    for k, (l, h) in b.items():
        if k not in a:
            r[k] = (l, h)
            continue
        L, H = a[k]
        if l < L:
            L = max([t for t in THRESHOLDS if t <= l], default=None)
            L = (-INFTY if k in ints else kind.lo) if L is None else L
        if h > H:
            H = min([t for t in THRESHOLDS if t >= h], default=None)
            H = (INFTY if k in ints else kind.hi) if H is None else H
        r[k] = (L, H)
    return r


def inside(a, b):
    return a is None or b is not None and b[0] <= a[0] and a[1] <= b[1]


# ---- refutation at points --------------------------------------------------------------------------------------------------------------

def table(kind):
    """Arithmetic that yields nothing when a result does not fit."""
    lo, hi = float(kind.lo), float(kind.hi)
    whole = kind.step == 1

    def bounded(f, op):
        def g(*a):
            v = f(*a)
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                return v
            if not finite(v) or not lo <= v <= hi:
                return NAN
            if whole and op == "div" and isinstance(v, float):
                return float(int(v)) if abs(v) < 2 ** 53 else v
            return v
        return g
    t = {k: bounded(v, k) for k, v in algebra.REAL.items()}
    t["__big__"] = 1e40
    return t


def fails(raw, env, tbl):
    """Whether the result of an unguarded operation does not fit, at a point: True, False or None."""
    try:
        xs = [value(a, env, tbl) for a in raw.args]
    except Unknown:
        return None
    if any(not finite(x) for x in xs):
        return None
    k = raw.kind
    if raw.op in ("div", "rem") and len(xs) > 1 and xs[1] == 0:
        return True
    if raw.op in ("shl", "shr"):
        return not 0 <= xs[1] < 128
    f = algebra.REAL.get(raw.op)
    if f is None:
        return None
    try:
        v = f(*xs)
    except (OverflowError, ValueError, ZeroDivisionError):
        return None
    except TypeError:
        return None
    if isinstance(v, complex) or v != v:
        return None
    lo, hi = int(k.lo), int(k.hi)
    if k.step == 1 and isinstance(v, int):
        return not lo <= v <= hi
    return v > hi * (1 + 1e-9) or v < lo * (1 + 1e-9) - (0 if lo else 1e-9)


def extremes(kind):
    if kind is DECIMAL:
        m = 7.9228162514264337e28
        return [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, 90.0, 10.0, -10.0, 1.5, 100.0, 1e-10, -1e-10, 1e-28, 30.0, -30.0, 70.0, 1e9, 1e15, -1e15,
                1e20, m, -m, m / 2 + 1e20, 1e5]
    m = 2 ** 127 - 1
    return [0, 1, -1, 2, -2, 3, 5, 7, 30, 33, 40, 64, 127, 128, -64, 1000, 2 ** 64, -2 ** 64, m, -m - 1, m - 1, m // 2 + 1]


def points(kind, names, cap=700):
    xs = extremes(kind)
    out = []
    if len(names) == 1:
        out = [{names[0]: x} for x in xs]
    elif len(names) == 2:
        out = [dict(zip(names, p)) for p in itertools.product(xs, repeat=2)]
    elif names:
        big = [xs[-1] if kind is DECIMAL else xs[-4], extremes(kind)[-4 if kind is DECIMAL else -3], 0, 1, xs[2], 3]
        out = [dict(zip(names, p)) for p in itertools.islice(itertools.product(big, repeat=len(names)), cap)]
    else:
        out = [{}]
    return out[:cap]


def walk(routine, env, kind, tbl, limit=400):
    """The first unguarded operation that fails when the routine is followed from a point, None if there is none or it cannot be followed."""
    env, cut = dict(env), ()
    for _ in range(limit):
        for r in routine.raws:
            if r.cut == cut and algebra.feasible(r.facts, env, tbl) is True and fails(r, env, tbl) is True:
                return r, dict(env)
        live = []
        for what, facts, x in routine.options(cut):
            ok = True
            for k, v in facts.items():
                if v[0] != "r" and algebra.holds(k, v, env, tbl) is False:
                    ok = False
                    break
            if ok:
                live.append((what, x))
        if len(live) != 1 or live[0][0] == "end":
            return None
        what, x = live[0]
        i, vals = (x, x.vars) if what == "loop" else x
        nv = {}
        for l, t in vals.items():
            try:
                nv[l] = value(t, env, tbl)
            except Unknown:
                pass
        for l in [l for l in env if l[0] == "lv" and l[1] == i.n]:
            env.pop(l)
        env.update(nv)
        cut = cut[:cut.index(i) + 1] if i in cut else cut + (i,)
    return None


# ---- P02 -----------------------------------------------------------------------------------------------------------------------------------

def operand_names(op, n):
    if op.kind == "Function":
        return [("A", i) for i in range(n)]
    return [("L",), ("R",)] if op.kind == "BinaryFunction" else [("V",)]


def number(ctx, kind):
    """The range that is meant by the generic number of a context's operations."""
    if kind is INT and ctx == "decimal":
        return DECIMAL
    return kind


def examine(cr, op, n):
    """(raw operations, panics, calls) on the paths of an operation with n arguments; None if they could not be enumerated."""
    st = State()
    if op.kind == "Function":
        st.mem[("ARGS", 0)] = ("agg", "array", "", 0, tuple(sym(("A", i)) for i in range(n)))
        args = [sym(("self",)), ("ref", ("ARGS", 0), ())]
    else:
        args = [sym(("self",))] + [sym(x) for x in operand_names(op, n)]
    for exact, budget in ((24, 12000), (0, 200000)):
        w = Watch()
        if op.fn.body.loop_heads() and op.kind == "UnaryFunction":
            eng = Loops([cr], op.fn, budget=budget, hooks=w)
        else:
            eng = Engine([cr], max_states=256, budget=budget, hooks=w)
            eng.unroll, eng.exact = 4, exact
        eng.depth = 40
        eng.inline = lambda f: not opmodel.kernel(f)
        try:
            eng.analyse(op.fn, args, st.copy())
            return w
        except Budget:
            pass
    return None


ALWAYS = ("from_u8", "from_u16", "from_u32", "from_u64", "from_usize", "from_i8", "from_i16", "from_i32", "from_i64", "to_f64")


def panic_safe(p, box, ctx):
    """Is a panic the interpreter could not exclude excluded by the intervals?"""
    why, fn, ops, facts, cut, site = p
    if box.dead:
        return True
    if why.startswith("overflow:") and ops and all(ops):
        op = why.split(":")[1].lower()
        xs = [box.of(x) for x in ops]
        r = box.arith(op, list(ops), xs)
        return r is not None and 0 <= r[0] and r[1] < 2 ** 31
    if why == "unwrap on None" and ops and isinstance(ops[0], tuple) and ops[0][0] == "call":
        m = last(ops[0][1])
        if m == "to_f64":
            return True
        if m in ALWAYS and (ctx == "decimal" or ops[0][2][0] == "c" and 0 <= ops[0][2][1] < 128):
            return True
        if m in ALWAYS and ops[0][2][0] != "c":
            l, h = box.of(ops[0][2])
            return 0 <= l and h < 128
    return False


def operations(rep, crates, top):
    """The builtin operations themselves; returns what numeric routines they call with what."""
    import opcheck
    from panics import show
    cr = crates["prexel"]
    called = {}
    for op in opcheck.all_ops(crates):
        if op.ctx == "unchecked":
            continue
        rep.count("operations")
        for n in opcheck.counts(op, top):
            lab = opcheck.label(op, n)
            w = examine(op.cr, op, n)
            if w is None:
                rep.undec("paths:" + lab, "the paths of %s could not be enumerated" % lab)
                continue
            rep.ok()
            names = operand_names(op, n)
            if op.fn.body.loop_heads() and op.kind == "UnaryFunction":
                routine(rep, op.cr, op.fn, op.ctx, {names[0]: None}, called, args=[sym(("self",)), sym(names[0])], label=lab)
                continue
            for key, args, facts, cut in w.calls:
                called.setdefault((op.ctx, key), []).append((args, facts, op.ctx))
            for p in w.panics:
                rep.count("panic edges")
                box = Box(number(op.ctx, INT), {}, p[3])
                where = "%s at %s" % (p[1].path, p[5][1])
                if panic_safe(p, box, op.ctx):
                    rep.ok({"operation": lab, "panic": p[0], "excluded": "by the intervals of its operands"})
                    continue
                verdict(rep, "panic:%s:%s" % (lab, p[0]), "%s can panic: %s in %s" % (lab, p[0], where), p, names, op.ctx)
            seen = set()
            if op.ctx == "complex":
                continue
            for r in w.raws:
                r.kind = number(op.ctx, r.kind)
                k = (r.site, r.args, frozenset(r.facts.items()))
                if k in seen:
                    continue
                seen.add(k)
                rep.count("unguarded operations")
                box = Box(r.kind, {}, r.facts)
                if box.safe(r):
                    rep.ok({"operation": lab, "unguarded": r.text(), "at": r.site[1], "fits": "by the intervals of its operands"})
                    continue
                tbl = table(r.kind)
                hit = None
                for env in points(r.kind, names):
                    if algebra.feasible(r.facts, env, tbl) is True and fails(r, env, tbl) is True:
                        hit = env
                        break
                key = "unguarded:%s:%s" % (lab, r.name)
                if hit:
                    rep.bad(key, "%s does not report that its result does not fit: %s in %s at %s fails with %s"
                            % (lab, r.text(), r.fn.path, r.site[1], opcheck.point_text(hit)))
                else:
                    rep.undec(key, "%s at %s is not shown to fit" % (r.text(), r.site[1]))
    return called


def verdict(rep, key, text, p, names, ctx):
    """A panic edge that is not excluded: reported if it depends on nothing the analysis does not know."""
    why, fn, ops, facts, cut, site = p
    kind = number(ctx, INT)
    tbl = table(kind)
    feas = [algebra.feasible(facts, e, tbl) for e in points(kind, names)]
    if feas and all(x is False for x in feas) and len(names) == 1:
        rep.undec(key, text + " (no operands were found that reach it)")
        return
    if why == "unwrap on None" and ops and ops[0]:
        # the value that may be missing
        hit = False
        for e in points(kind, names):
            if algebra.feasible(facts, e, tbl) is True and algebra.holds(("disc", ops[0]), ("=", 0), e, tbl) is True:
                hit = True
        if not hit:
            rep.undec(key, text + " (no operands were found that reach it)")
            return
    rep.bad(key, text)


def routine(rep, cr, fn, ctx, params, called, args=None, label=None):
    """A numeric routine with its parameters in the given intervals."""
    from panics import show
    kind = DECIMAL if ctx == "decimal" else INT
    key = (fn.key, ctx)
    label = label or fn.path
    if key not in _routines:
        try:
            _routines[key] = Routine(cr, fn, lambda f: not opmodel.kernel(f), args)
        except Budget:
            _routines[key] = None
    r = _routines[key]
    if r is None:
        rep.undec("routine:" + label, "the paths of %s could not be enumerated" % label)
        return
    for x in r.raws:
        x.kind = number(ctx, x.kind)
    status = {}         # obligation -> safe in every state
    found = {}

    def visit(cut, env):
        for j, x in enumerate(r.raws):
            if x.cut == cut and ctx != "complex":
                box = Box(x.kind, env, x.facts, r.frozen)
                status[("raw", j)] = status.get(("raw", j), True) and box.safe(x)
        for j, p in enumerate(r.panics):
            if p[4] == cut:
                box = Box(kind, env, p[3], r.frozen)
                status[("panic", j)] = status.get(("panic", j), True) and panic_safe(p, box, ctx)
        for j, (k, a, facts, at) in enumerate(r.calls):
            if at == cut:
                box = Box(kind, env, facts, r.frozen)
                if not box.dead:
                    iv = tuple(box.of(t) for t in a)
                    found.setdefault(k, []).append(iv)

    box0 = {k: (v if v is not None else (kind.lo, kind.hi)) for k, v in params.items()}
    done = r.execute(kind, box0, visit)
    for k, ivs in found.items():
        called.setdefault((ctx, k), []).extend((iv, None, ctx) for iv in ivs)
    names = list(params)
    tbl = table(kind)
    bad = None
    if ctx != "complex" and not all(status.values()):
        for env in points(kind, names):
            if not all(box0[k][0] <= D(v) <= box0[k][1] for k, v in env.items()):
                continue
            bad = walk(r, env, kind, tbl)
            if bad:
                bad += (env,)
                break
    for (what, j), safe in sorted(status.items()):
        rep.count("unguarded operations" if what == "raw" else "panic edges")
        if what == "raw":
            x = r.raws[j]
            text, at = x.text(), x.site
        else:
            text, at = r.panics[j][0], r.panics[j][5]
        if safe and done:
            rep.ok({"routine": label, "operation": text, "at": at[1], "fits": "in every state of its loops, followed in intervals"})
        elif bad and what == "raw" and bad[0] is r.raws[j]:
            from kernels import points_text
            rep.bad("unguarded:%s:%s" % (label, x.name), "%s does not report that a value does not fit: %s at %s fails, called with %s"
                    % (label, text, at[1], ", ".join("%s" % v for v in bad[2].values())))
        else:
            rep.undec("%s:%s:%s:%s" % (what, label, text, at[1]), "%s at %s in %s is not shown to fit" % (text, at[1], label))


_routines = {}


def routines(rep, crates, called):
    cr = crates["prexel"]
    by = {f.key: f for f in cr.bodies}
    kern = lambda k: k[1] in by and opmodel.kernel(by[k[1]])
    todo = [k for k in called if kern(k)]
    rounds = 0
    examined = {}
    while todo and rounds < 60:
        rounds += 1
        ctx, key = todo.pop(0)
        fn = by[key]
        kind = DECIMAL if ctx == "decimal" else INT
        lo = [INFTY] * fn.body.argc
        hi = [-INFTY] * fn.body.argc
        for args, facts, _ in called[ctx, key]:
            for i in range(min(len(args), fn.body.argc)):
                if facts is None:
                    l, h = args[i]
                else:
                    l, h = Box(kind, {}, facts).of(args[i])
                lo[i], hi[i] = min(lo[i], l), max(hi[i], h)
        params = {("A", i): (lo[i], hi[i]) for i in range(fn.body.argc)}
        old = examined.get((ctx, key))
        if old is not None and all(inside(params[k], old[1][k]) for k in params):
            continue
        if old is not None:
            params = {k: (min(params[k][0], old[1][k][0]), max(params[k][1], old[1][k][1])) for k in params}
            if old[2] > 3:
                params = {k: (kind.lo, kind.hi) for k in params}
        before = {k: len(v) for k, v in called.items()}
        sub = type(rep)(rep.pid)
        routine(sub, cr, fn, ctx, params, called)
        examined[ctx, key] = (sub, params, (old[2] if old else 0) + 1)
        todo += [k for k in called if kern(k) and before.get(k) != len(called[k]) and k not in todo]
    for (ctx, key), (sub, params, _) in examined.items():
        rep.count("numeric routines")
        rep.merge(sub)


CHECKED = {"checked_add": "add", "checked_sub": "sub", "checked_mul": "mul", "checked_div": "div", "checked_rem": "rem", "checked_neg": "neg"}


def primitives(rep, cr):
    """The checked arithmetic of each number type is that type's own checked arithmetic."""
    from algebra import Normal
    from panics import show
    n = 0
    for f in cr.bodies:
        if f.name not in CHECKED or not f.trait or "Checked" not in f.trait or f.kind != "method" or f.in_trait:
            continue
        n += 1
        ty = f.self_ty() if hasattr(f, "self_ty") else f.path
        key = "primitive:%s" % f.path
        w = Watch()
        eng = Engine([cr], max_states=64, budget=4000, hooks=w)
        st = State()
        args = [sym(("A", i)) for i in range(f.body.argc)]
        outs = eng.analyse(f, args, st)
        rep.count("checked operations of number types")
        want = ("call", CHECKED[f.name], ("A", 0)) + ((("A", 1),) if f.body.argc == 2 else ())
        kind = kind_of(f.path.split(" as ")[0].lstrip("<"))
        somes = 0
        for v, s, _ in outs:
            r = kernels.result(eng.T(s, v))
            if r[0] == "none":
                continue
            somes += 1
            m = Normal(s.facts)
            try:
                same = m.same(m.of(r[1]), m.of(want))
            except (Unknown, ZeroDivisionError):
                same = None
            if same:
                rep.ok({"method": f.path, "returns": show(r[1], -3)})
                continue
            hit = None
            for a, b in ((7, 3), (-5, 2), (12.5, 4.0), (1, 9)):
                try:
                    e = {("A", 0): a, ("A", 1): b}
                    g, t = value(r[1], e, algebra.REAL), value(want, e, algebra.REAL)
                    if algebra.feasible(s.facts, e) is not False and algebra.near(g, t) is False:
                        hit = (a, b, g, t)
                        break
                except Unknown:
                    pass
            if hit:
                rep.bad(key, "%s of %s and %s is %s, not %s" % (f.path, hit[0], hit[1], hit[2], hit[3]))
            else:
                rep.undec(key, "what %s returns could not be compared: %s" % (f.path, show(r[1], -3)))
        if not somes:
            rep.bad(key, "%s never returns a value" % f.path)
        for p in w.panics:
            rep.bad(key + ":panic", "%s can panic: %s at %s" % (f.path, p[0], p[5][1]))
        for x in w.raws:
            if kind is None or kind.name not in WORD and kind not in (DECIMAL,):
                continue
            rep.bad(key + ":raw", "%s uses %s, which cannot report that the result does not fit" % (f.path, x.name))
    rep.check(n > 0, "primitive:none", "no checked arithmetic was found")
