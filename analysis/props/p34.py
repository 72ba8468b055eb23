"""P34: see DESIGN.md."""
import math
import re

import env
from absint import Engine, State, sym
from facts import Crate
from panics import show

NOTE = """The macros are expanded for four number types in a crate of its own (witness/), type-checked against the current tree; every method of the expansions, of the checked operations of the builtin number types and of Binary is interpreted on arbitrary operands, and each path is compared with the operation of its name on the wrapped values."""

WRAPPED = {"Unchecked": "i64", "UncheckedText": "f64", "Checked": "i64", "CheckedText": "i128"}
BITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}
BINOPS = ("add", "sub", "mul", "div", "rem")
SOME, NONE = "some", ("none",)
TEXTS = ("0", "1", "5", "10", "101", "b101", "b0", "b1", "b", "", "2", "b2", "x", "-3", "b-11", "bb1", "0b1", "1b", "B1", "99", "b1111", "b" + "10" * 17, "b" + "1" * 40, "b" + "1" * 70, "b" + "1" * 127, "b" + "1" * 128,
         "b" + "0" * 130 + "1", "b0101", "b-" + "1" * 90, "b+1", "+7", "12345678901", "-98765432109876543210", "b0b1")


class Whole:
    """Leaves the operations of the builtin types uninterpreted."""

    def on_call(self, eng, st, name, args, ctx):
        if name.rsplit("::", 1)[0] in BITS:
            return [(sym(("call", name) + tuple(eng.T(st, eng.strip(st, a)) for a in args)), st)]
        return None


class Unknown(Exception):
    pass


class Undefined(Exception):
    """The operation has no value here (it panics)."""


def bounds(ty):
    n = BITS[ty]
    return (0, (1 << n) - 1) if ty[0] == "u" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)


def wrap(ty, v):
    lo, hi = bounds(ty)
    return (v - lo) % (hi - lo + 1) + lo


def samples(ty):
    if ty[0] == "f":
        return (0.0, 1.0, -1.0, 2.0, 7.5, -3.25, 10.0, 0.1, 1e300, 2.5e-3, float("inf"), -0.0, -7.0)
    lo, hi = bounds(ty)
    return tuple(sorted({0, 1, 2, 3, 7, 10, 100, hi, hi - 1, lo, lo + 1, hi // 2} | ({-1, -2, -3, -7, -100} if lo else set())))


def exact(op, a, b):
    """a op b, without a bound on the result."""
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if isinstance(a, float) or isinstance(b, float):
        if op == "div":
            if b == 0:
                return float("nan") if a == 0 or a != a else math.copysign(float("inf"), a) * math.copysign(1, b)
            return a / b
        if b == 0 or math.isinf(a):
            return float("nan")
        return math.fmod(a, b)
    if b == 0:
        raise Undefined()
    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    return q if op == "div" else a - q * b


def bounded(ty, v):
    if ty[0] == "f":
        return v
    lo, hi = bounds(ty)
    if not lo <= v <= hi:
        raise Undefined()
    return v


def operation(op, ty, *xs):
    if op == "neg":
        return bounded(ty, -xs[0])
    if op in ("div", "rem") and ty[0] != "f":
        bounded(ty, exact("div", *xs))      # the remainder overflows where the quotient does
    return bounded(ty, exact(op, *xs))


def checked(op, ty, *xs):
    if op in ("div", "rem") and xs[1] == 0:
        return NONE
    try:
        return (SOME, operation(op, ty, *xs))
    except Undefined:
        return NONE


def to_prim(name, x):
    ty = name[3:]
    if ty[0] == "f":
        return (SOME, float(x))
    if x != x or x in (float("inf"), float("-inf")):
        return NONE
    lo, hi = bounds(ty)
    return (SOME, math.trunc(x)) if lo <= math.trunc(x) <= hi else NONE


def parse(ty, s, radix=10):
    if ty[0] == "f":
        return ("ok", float(s)) if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s) else ("err", s)
    digits = "01" if radix == 2 else "0-9" if radix == 10 else None
    if digits is None:
        raise Unknown("radix")
    if not re.fullmatch("[+-]?[%s]+" % digits, s):
        return ("err", s)
    v = int(s, radix)
    lo, hi = bounds(ty)
    return ("ok", v) if lo <= v <= hi else ("err", s)


def order(a, b):
    return (SOME, (a > b) - (a < b)) if a == a and b == b else NONE


class Ev:
    """Evaluates the terms of a path for given operands."""

    def __init__(self, ty, args, wrapper):
        self.ty, self.args, self.wrapper = ty, args, wrapper

    def __call__(self, t):
        k = t[0]
        if k == "c":
            return t[1]
        if k == "s":
            return t[1]
        if k == "arg":
            return self.args[t[1]]
        if k == "ref" and len(t) == 2:
            return self(t[1])
        if k == "agg":
            n = t[1].rsplit("::", 1)[-1]
            if n == "Option":
                return (SOME, self(t[3])) if t[2] == 1 else NONE
            if n == "Result":
                return ("ok" if t[2] == 0 else "err", self(t[3]))
            if n == "Ordering":
                return (-1, 0, 1)[t[2]]
            if n == self.wrapper and len(t) >= 4:
                return ("W", self(t[3]))
            raise Unknown(n)
        if k == "disc":
            v = self(t[1])
            if isinstance(v, tuple) and v[0] in (SOME, "none", "ok", "err"):
                return 1 if v[0] in (SOME, "err") else 0
            raise Unknown("disc")
        if k == "fld":
            v = self(t[1])
            if isinstance(v, tuple) and v[0] == "W":
                return v[1]
            if isinstance(v, tuple) and isinstance(t[2], tuple) and t[2][0] == "v" and v[0] in (SOME, "ok", "err"):
                if t[2][1] != (1 if v[0] in (SOME, "err") else 0):
                    raise Unknown("variant")
                return v[1]
            if isinstance(v, tuple) and v[0] == "T" and isinstance(t[2], int):
                return v[1 + t[2]]
            raise Unknown("field")
        if k == "ovf":
            try:
                operation(t[1], self.ty, self(t[2]), self(t[3]))
                return 0
            except Undefined:
                return 1
        if k in BINOPS and len(t) == 3:
            return operation(k, self.ty, self(t[1]), self(t[2]))
        if k == "neg" and len(t) == 2:
            return operation("neg", self.ty, self(t[1]))
        if k in ("eq", "ne", "lt", "le", "gt", "ge") and len(t) == 3:
            a, b = self(t[1]), self(t[2])
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k])
        if k == "not":
            return int(not self(t[1]))
        if k in ("and", "or") and len(t) == 3:
            a, b = self(t[1]), self(t[2])
            return (a & b) if k == "and" else (a | b)
        if k == "call":
            return self.call(t)
        if k == "cast" and len(t) == 3 and t[1] in BITS:
            x = self(t[2])
            lo, hi = bounds(t[1])
            if isinstance(x, float):
                return 0 if x != x else min(max(math.trunc(x), lo) if x > float("-inf") else lo, hi) if x < float("inf") else hi
            return wrap(t[1], x)
        if k == "cast" and len(t) == 3 and t[1] == "f64":
            return float(self(t[2]))
        if k == "agg" and t[1] in ("", "tuple"):
            return ("T",) + tuple(self(x) for x in t[3:])
        raise Unknown(k)

    def call(self, t):
        name, xs = t[1], [self(x) for x in t[2:]]
        last = name.rsplit("::", 1)[-1]
        if last == self.wrapper and len(xs) == 1:
            return ("W", xs[0])
        if last in ("clone", "from", "into", "to_owned", "as_str", "deref", "borrow") and len(xs) == 1:
            return xs[0]
        if xs and isinstance(xs[0], str):
            s = xs[0]
            if last == "strip_prefix":
                c = chr(xs[1]) if isinstance(xs[1], int) else xs[1]
                return (SOME, s[len(c):]) if s.startswith(c) else NONE
            if last == "starts_with":
                return int(s.startswith(chr(xs[1]) if isinstance(xs[1], int) else xs[1]))
            head = name.rsplit("::", 1)[0]
            if last == "from_str_radix":
                return parse(head if head in BITS else self.ty, s, xs[1])
            if last in ("from_str", "parse"):
                return parse(head if head in BITS else self.ty, s)
            if last in ("trim_start_matches", "trim_end_matches") and len(xs) == 2 and xs[1] not in ("", None):
                c = chr(xs[1]) if isinstance(xs[1], int) else xs[1]
                while s and (s.startswith(c) if "start" in last else s.endswith(c)):
                    s = s[len(c):] if "start" in last else s[:-len(c)]
                return s
            if last == "trim":
                return s.strip()
            if last == "len":
                return len(s.encode())
            if last == "is_empty":
                return int(not s)
            raise Unknown(last)
        if any(isinstance(x, tuple) for x in xs):
            raise Unknown(last)
        if last in ("checked_" + o for o in BINOPS) and len(xs) == 2:
            return checked(last[8:], self.ty, *xs)
        if last == "checked_neg" and len(xs) == 1:
            return checked("neg", self.ty, xs[0])
        if last in BINOPS and len(xs) == 2:
            return operation(last, self.ty, *xs)
        if re.fullmatch(r"(wrapping|saturating|overflowing)_(add|sub|mul|div|rem|neg)", last) and self.ty[0] != "f":
            how, op = last.split("_")
            v = -xs[0] if op == "neg" else exact(op, *xs)
            lo, hi = bounds(self.ty)
            w = wrap(self.ty, v)
            return w if how == "wrapping" else min(max(v, lo), hi) if how == "saturating" else ("T", w, int(w != v))
        if last in ("div_euclid", "rem_euclid") and len(xs) == 2 and self.ty[0] != "f":
            a, b = xs
            bounded(self.ty, exact("div", a, b))
            r = a % abs(b)
            return r if last == "rem_euclid" else (a - r) // b
        if last in ("checked_div_euclid", "checked_rem_euclid") and len(xs) == 2 and self.ty[0] != "f":
            a, b = xs
            if checked("div", self.ty, a, b) == NONE:
                return NONE
            r = a % abs(b)
            return (SOME, r if last == "checked_rem_euclid" else (a - r) // b)
        if last == "neg" and len(xs) == 1:
            return operation("neg", self.ty, xs[0])
        if last in ("trunc", "floor", "ceil", "abs") and len(xs) == 1 and isinstance(xs[0], float):
            x = xs[0]
            return abs(x) if last == "abs" else x if x != x or math.isinf(x) else float(getattr(math, last)(x))
        if last == "is_zero":
            return int(xs[0] == 0)
        if last == "is_one":
            return int(xs[0] == 1)
        if last == "zero" and not xs:
            return 0
        if last == "one" and not xs:
            return 1
        if last == "partial_cmp" and len(xs) == 2:
            return order(*xs)
        if last == "cmp" and len(xs) == 2:
            return (xs[0] > xs[1]) - (xs[0] < xs[1])
        if last in ("eq", "ne", "lt", "le", "gt", "ge") and len(xs) == 2:
            return int({"eq": xs[0] == xs[1], "ne": xs[0] != xs[1], "lt": xs[0] < xs[1], "le": xs[0] <= xs[1], "gt": xs[0] > xs[1],
                        "ge": xs[0] >= xs[1]}[last])
        if re.fullmatch(r"to_[iuf](8|16|32|64|128|size)", last) and len(xs) == 1:
            return to_prim(last, xs[0])
        if re.fullmatch(r"from_[iuf](8|16|32|64|128|size)", last) and len(xs) == 1:
            return to_prim("to_" + self.ty, xs[0])
        raise Unknown(last)


def feasible(ev, facts):
    """True, False, or None when a condition of the path cannot be evaluated."""
    res = True
    for t, v in facts.items():
        try:
            if t[0] == "rng":
                x = ev(t[1])
                if isinstance(x, tuple) or not ((v[1] is None or v[1] <= x) and (v[2] is None or x <= v[2])):
                    return False
                continue
            if v[0] not in ("=", "!"):
                raise Unknown("fact")
            x = ev(t)
            x = int(x) if isinstance(x, bool) else x
            if (v[0] == "=" and x != v[1]) or (v[0] == "!" and x in v[1]):
                return False
        except Undefined:
            return False
        except (Unknown, TypeError):
            res = None
    return res


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return a == b


def wanted(name, ty, xs, wrap):
    """What a method of this name gives for the operands xs; Undefined where it may do as it pleases."""
    w = (lambda v: ("W", v)) if wrap else (lambda v: v)
    opt = (lambda o: (SOME, w(o[1])) if o[0] == SOME else NONE)
    if name in BINOPS + ("neg",):
        return w(operation(name, ty, *xs))
    if name.startswith("checked_") and name[8:] in BINOPS + ("neg",):
        return opt(checked(name[8:], ty, *xs))
    if name == "zero":
        return w(0.0 if ty[0] == "f" else 0)
    if name == "one":
        return w(1.0 if ty[0] == "f" else 1)
    if name == "is_zero":
        return int(xs[0] == 0)
    if name == "is_one":
        return int(xs[0] == 1)
    if name == "partial_cmp":
        return order(*xs)
    if name == "cmp":
        return order(*xs)[1]
    if name in ("eq", "ne", "lt", "le", "gt", "ge"):
        a, b = xs
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[name])
    if name == "clone":
        return w(xs[0])
    if name.startswith("to_"):
        return to_prim(name, xs[0])
    if name.startswith("from_") and name[5:] in BITS or name in ("from_f64", "from_f32"):
        return opt(to_prim("to_" + ty, xs[0]))
    return None


FORWARD = set(BINOPS) | {"neg", "partial_cmp", "eq", "is_zero", "clone"} | {"checked_" + o for o in BINOPS + ("neg",)}


def forwarded(name, outs, eng):
    """The one outcome is the operation of this name, on the operands in their order."""
    if len(outs) != 1:
        return False
    t = eng.T(outs[0][1], outs[0][0])
    return t[0] == "call" and t[1].rsplit("::", 1)[-1] == name and t[2:] == tuple(("arg", i) for i in range(len(t) - 2))


def method(rep, cr, f, ty, wrapper):
    name = f.name
    eng = Engine([cr], hooks=Whole())
    if wrapper and name == "from_str":
        return text(rep, cr, f, ty, wrapper)
    if wrapper and name == "fmt":
        return fmt(rep, cr, f, wrapper)
    unary_in = name.startswith("from_")
    outs = eng.analyse(f, [sym(("arg", i)) for i in range(f.body.argc)], State())
    key = "%s:%s" % (wrapper or ty, name)
    rep.count("methods")
    lab = "%s of %s" % (name, "a number type wrapping %s (%s)" % (ty, wrapper) if wrapper in WRAPPED else wrapper or ty)
    if not wrapper and forwarded(name, outs, eng):
        rep.count("forwarded")
        rep.ok({"method": f.path, "rule": "the operation of the builtin type, operands in order"})
        return
    pool = samples(ty)
    if unary_in:
        pts = [(x,) for x in samples(name[5:])]
    elif f.body.argc == 2:
        pts = [(x, y) for x in pool for y in pool]
    else:
        pts = [(x,) for x in pool] if f.body.argc else [()]
    some = False
    for xs in pts:
        try:
            want = wanted(name, ty, xs, bool(wrapper))
        except Undefined:
            continue
        if want is None:
            rep.count("methods of no obligation")
            return
        ev = Ev(ty, xs if unary_in or not wrapper else tuple(("W", x) for x in xs), wrapper)
        got, sure = [], True
        for v, st, _ in outs:
            fe = feasible(ev, st.facts)
            if fe is False:
                continue
            if fe is None:
                sure = False
            try:
                got.append(ev(eng.T(st, v)))
            except Undefined:
                continue
            except (Unknown, TypeError) as e:
                sure = False
        if not sure:
            rep.undec(key, "what %s returns could not be told" % lab)
            return
        wrong = [g for g in got if not same(g, want)]
        at = ", ".join("%s" % x for x in xs)
        if wrong:
            rep.bad(key, "%s gives %s for %s, not %s [%s]" % (lab, said(wrong[0]), at, said(want), f.path))
            return
        if got:
            some = True
        else:
            rep.bad(key, "%s panics for %s [%s]" % (lab, at, f.path))
            return
    if some:
        rep.ok({"method": f.path, "paths": len(outs), "operands": len(pts)})
    else:
        rep.undec(key, "%s could not be evaluated" % lab)


def said(v):
    if isinstance(v, tuple):
        return v[0] if len(v) == 1 else "%s(%s)" % ("a number" if v[0] == "W" else v[0], said(v[1]))
    return str(v)


def text(rep, cr, f, ty, wrapper):
    """Reading a number: Binary reads base two after a b."""
    eng = Engine([cr], hooks=Whole())
    outs = eng.analyse(f, [sym(("arg", 0))], State())
    rep.count("methods")
    key = "%s:from_str" % wrapper
    for s in TEXTS:
        if wrapper == "Binary":
            r = parse("i128", s[1:], 2) if s.startswith("b") else parse("i128", s)
        else:
            r = parse(ty, s)
        ev = Ev(ty, (s,), wrapper)
        for v, st, _ in outs:
            fe = feasible(ev, st.facts)
            if fe is False:
                continue
            try:
                if fe is None:
                    raise Unknown("path")
                g = ev(eng.T(st, v))
            except (Unknown, TypeError, Undefined):
                rep.undec(key, "how %s reads a number could not be told" % wrapper)
                return
            if g[0] != r[0] or (g[0] == "ok" and not same(g[1], ("W", r[1]))):
                rep.bad(key, "%s reads `%s` as %s, not %s [%s]" % (wrapper, s, said(g), said(r), f.path))
                return
    rep.ok({"method": f.path, "paths": len(outs), "texts": len(TEXTS)})


def holds(t, how):
    """Whether a value is written with this format in t."""
    return isinstance(t, tuple) and (len(t) == 2 and t[0] == how and isinstance(t[1], tuple) or any(holds(x, how) for x in t))


def narrowed(t):
    """The narrower integer type a term casts something of its argument to."""
    if not isinstance(t, tuple):
        return None
    if len(t) == 3 and t[0] == "cast" and BITS.get(t[1], 128) < 128 and "'arg', 0" in str(t[2]):
        return t[1]
    return next((r for r in map(narrowed, t) if r), None)


def fmt(rep, cr, f, wrapper):
    """A number prints as the wrapped value does, with the same trait; Binary in base two."""
    eng = Engine([cr], hooks=Whole())
    outs = eng.analyse(f, [sym(("arg", 0)), sym(("arg", 1))], State())
    trait = f.trait.rsplit("::", 1)[-1]
    key = "%s:%s" % (wrapper, trait)
    if wrapper == "Binary" and trait == "Debug":
        return
    rep.count("methods")
    for v, st, _ in outs:
        t = eng.T(st, v)
        while t[0] == "call" and len(t) == 3:
            t = t[2]
        x = t[2] if t[0] == "call" and len(t) == 4 else None
        if wrapper == "Binary":
            s = str(t)
            cut = narrowed(t)
            if cut:
                rep.bad(key, "a binary number is printed as %s, which does not hold all of them [%s]" % (cut, f.path))
            elif "new_binary" in s or t[0] == "call" and t[1].endswith("Binary::fmt"):
                rep.ok({"method": f.path})
            elif holds(t, "fmt") or any(h in s for h in ("new_debug", "new_lower_hex", "new_octal", "new_upper_hex", "Display::fmt", "Debug::fmt")):
                rep.bad(key, "a binary number prints as %s [%s]" % (show(t, -6), f.path))
            else:
                rep.undec(key, "how a binary number prints is not known")
            continue
        if x is not None and t[1].endswith(trait + "::fmt") and x[0] == "fld" and x[1] == ("arg", 0) and t[3] == ("arg", 1):
            rep.ok({"method": f.path})
        elif x is not None and t[1].endswith("::fmt") and x[0] == "fld" and x[1] == ("arg", 0):
            rep.bad(key, "a wrapped number prints with %s where %s is asked for [%s]" % (t[1], trait, f.path))
        else:
            rep.undec(key, "how a wrapped number prints is not known")


def run(rep, crates):
    rep.rule("wrapped: a method of a number type defined with the macros is the operation of its name on the wrapped values, in order")
    rep.rule("checked: a checked operation of a builtin number type gives nothing exactly when the result does not fit or the divisor is zero")
    rep.rule("binary: a binary number reads base two after a b, and prints in base two")
    cr = crates["prexel"]
    for trait in ("Add", "Sub", "Mul", "Div", "Rem", "Neg"):
        for f in cr.impl_methods("num::checked::Checked" + trait):
            ty = f.self_s()
            if ty in BITS or ty in ("f32", "f64"):
                rep.count("checked operations")
                rep.guard("%s:%s" % (ty, f.name), method, rep, cr, f, ty, "")
    for f in cr.bodies:
        if f.kind == "method" and f.trait and (f.self_def() or "").endswith("binary::Binary") and f.name in \
                ("zero", "is_zero", "add", "from_str", "fmt", "eq", "ne", "partial_cmp", "cmp", "lt", "le", "gt", "ge"):
            rep.guard("Binary:%s" % f.name, method, rep, cr, f, "i128", "Binary")
    try:
        wit = env.witness()
    except env.BuildFailed as e:
        rep.bad("expands", "the macros that define number types no longer expand to code that compiles: %s" % str(e)[:600])
        return
    cr = Crate(wit["witness"])
    for f in cr.bodies:
        w = (f.self_def() or "").rsplit("::", 1)[-1]
        if f.kind == "method" and f.trait and w in WRAPPED and not f.trait.startswith("std::convert::From"):
            rep.count("expanded methods")
            rep.guard("%s:%s" % (w, f.name), method, rep, cr, f, WRAPPED[w], w)
