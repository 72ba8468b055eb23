"""The builtin operations: which ones each context registers (found by interpreting its constructor) and what each one does
(every path of its implementation, interpreted on arbitrary operands)."""
from absint import Engine, State, Budget, sym, res_ok

CONTEXTS = {"checked": ("new_checked", "with_config_checked"), "unchecked": ("new_unchecked", "with_config_unchecked"),
            "decimal": ("new_decimal", "with_config_decimal"), "complex": ("new_complex", "with_config_complex"),
            "binary": ("new_binary", "with_config_binary")}
KINDS = {"add_function": "Function", "add_unary_function": "UnaryFunction", "add_binary_function": "BinaryFunction",
         "add_function_as": "Function", "add_unary_function_as": "UnaryFunction", "add_binary_function_as": "BinaryFunction"}
_memo = {}


class Reg:
    def __init__(self):
        self.items, self.consts, self.vars = [], [], []

    def on_call(self, eng, st, name, args, ctx):
        last = name.rsplit("::", 1)[-1]
        if "Context" not in name:
            return None
        if last in KINDS:
            t = eng.T(st, args[1])
            self.items.append((KINDS[last], t, eng.T(st, args[2]) if len(args) > 2 else None))
        elif last == "add_constant":
            self.consts.append((eng.T(st, eng.strip(st, args[1])), eng.T(st, args[2])))
        elif last == "set_variable":
            self.vars.append((eng.T(st, eng.strip(st, args[1])), eng.T(st, args[2])))
            return None
        else:
            return None
        return [(res_ok(("agg", "tuple", "", 0, ())), st)]


class Op:
    def __init__(self, ctx, kind, ty, fn, cr):
        self.ctx, self.kind, self.ty, self.fn, self.cr = ctx, kind, ty, fn, cr
        self.name = None
        self.aliases = ()

    def __repr__(self):
        return "%s %s `%s` (%s)" % (self.ctx, self.kind, self.name, self.ty)


def impl_of(cr, trait, ty, method):
    r = [f for f in cr.impl_methods(trait, method) if f.self_def() == ty]
    return r[0] if r else None


def text(t):
    """The text of a string term, if it is known."""
    if isinstance(t, tuple):
        if t[0] == "s":
            return t[1]
        if t[0] in ("ref", "call") and len(t) > 1:
            return text(t[-1])
    return None


def evaluate(cr, fn, args=()):
    """The one value of a function of no unknowns; None if it cannot be told."""
    eng = Engine([cr])
    st = State()
    outs = eng.analyse(fn, [sym(("self",))] + list(args), st)
    vals = {(eng.T(s, eng.strip(s, v))) for v, s, _ in outs}
    return vals.pop() if len(vals) == 1 else None


def strings(t, acc):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "s":
            acc.append(t[1])
        else:
            for x in t:
                strings(x, acc)
    return acc


def meta(cr, op):
    f = impl_of(cr, "function::" + op.kind, op.ty, "name")
    if f is not None:
        op.name = text(evaluate(cr, f))
    f = impl_of(cr, "function::" + op.kind, op.ty, "aliases")
    if f is not None:
        eng = Engine([cr])
        for v, s, _ in eng.analyse(f, [sym(("self",))], State()):
            op.aliases = tuple(strings(deep(eng, s, v), []))
    for m in ("precedence", "associativity", "notation"):
        f = impl_of(cr, "function::" + op.kind, op.ty, m)
        setattr(op, m, evaluate(cr, f) if f is not None else None)


def deep(eng, st, v, n=8):
    """The value with the references in it followed."""
    if n == 0 or not isinstance(v, tuple) or not v:
        return v
    if v[0] == "ref":
        return deep(eng, st, eng.strip(st, v), n - 1) if eng.strip(st, v) != v else v
    return tuple(deep(eng, st, x, n - 1) if isinstance(x, tuple) else x for x in v)


def catalogue(crates):
    """{context: (ops, constants, problem)}"""
    if "cat" in _memo:
        return _memo["cat"]
    cr = crates["prexel"]
    res = {}
    for ctx, names in CONTEXTS.items():
        for via in names:
            fs = [f for f in cr.bodies if f.path.rsplit("::", 1)[-1] == via and "DefaultContext" in f.path]
            if len(fs) != 1:
                res[ctx, via] = ([], [], "the constructor was not found")
                continue
            reg = Reg()
            eng = Engine([cr], hooks=reg)
            eng.unroll = 8
            problem = None
            outs = eng.analyse(fs[0], [sym(("arg", i)) for i in range(fs[0].body.argc)], State())
            if len(outs) != 1:
                problem = "the constructor ends in %d ways" % len(outs)
            ops = []
            for kind, t, as_ in reg.items:
                ty = t[1] if t[0] == "agg" else None
                f = impl_of(cr, "function::" + kind, ty, "call")
                if f is None:
                    problem = "the registered type %s was not found" % (t,)
                    continue
                op = Op(ctx, kind, ty, f, cr)
                meta(cr, op)
                if as_ is not None:
                    op.name = text(as_)
                ops.append(op)
            res[ctx, via] = (ops, reg.consts, problem)
    _memo["cat"] = res
    return res


FAMILY = (("checked", "ops::checked::"), ("unchecked", "ops::unchecked::"), ("decimal", "decimal::"), ("complex", "complex::"),
          ("binary", "binary::"), ("checked", "ops::"))


def unregistered(crates, registered):
    """The public operations no default context registers (a user can register them)."""
    cr = crates["prexel"]
    res = []
    for kind in ("Function", "UnaryFunction", "BinaryFunction"):
        for f in cr.impl_methods("function::" + kind, "call"):
            ty = f.self_def()
            if ty is None or (kind, ty) in registered:
                continue
            ctx = next((c for c, p in FAMILY if ty.startswith(p)), None)
            if ctx is None:
                continue
            op = Op(ctx, kind, ty, f, cr)
            meta(cr, op)
            res.append(op)
    return res


class Outcome:
    """One way an operation ends: the value it returns and what its path established."""

    def __init__(self, eng, st, v):
        self.eng, self.st, self.v = eng, st, v
        self.term = eng.T(st, v)
        t = self.term
        self.ok = self.err = self.kind = None
        if t[0] == "agg" and t[1].endswith("Result"):
            if t[2] == 0:
                self.ok = t[3]
            else:
                self.err = t[3]
                self.kind = error_kind(t[3])


ERR = ("Overflow", "Zero", "NAN", "InvalidInput", "InvalidArgumentCount", "DivisionByZero", "NegativeValue", "PositiveValue",
       "InvalidExpression", "Empty", "Unknown")


def error_kind(t):
    if isinstance(t, tuple):
        if t[0] == "agg" and t[1].endswith("ErrorKind"):
            return ERR[t[2]] if t[2] < len(ERR) else None
        for x in t:
            k = error_kind(x)
            if k:
                return k
    return None


def kernel(f):
    """A numeric routine that iterates or recurs: a named atom when what is asked is which formula an operation computes."""
    if f.key not in _kern:
        from facts import calls
        _kern[f.key] = f.trait is None or "Function" not in f.trait.rsplit("::", 1)[-1]
        _kern[f.key] = _kern[f.key] and f.kind != "closure" and f.path.split("::")[0] not in ("context", "evaluator", "error") and (
            bool(f.body.loop_heads()) or any(t.get("rkey", t.get("key")) == f.key for _, t in callees(f)))
    return _kern[f.key]


_kern = {}


def callees(f):
    from facts import body_refs
    return [(None, r) for r in body_refs(f.crate, f.body)]


def outcomes(cr, op, n=None):
    """(outcomes, engine) of an operation called with n arguments."""
    k = (op.fn.key, n)
    if k in _memo:
        return _memo[k]
    for exact, budget in ((24, 12000), (0, 200000)):
        eng = Engine([cr], max_states=256, budget=budget)
        eng.unroll, eng.exact, eng.depth = 4, exact, 40
        eng.inline = lambda f: not kernel(f)
        st = State()
        if op.kind == "Function":
            st.mem[("ARGS", 0)] = ("agg", "array", "", 0, tuple(sym(("A", i)) for i in range(n)))
            args = [sym(("self",)), ("ref", ("ARGS", 0), ())]
        elif op.kind == "BinaryFunction":
            args = [sym(("self",)), sym(("L",)), sym(("R",))]
        else:
            args = [sym(("self",)), sym(("V",))]
        try:
            outs = eng.analyse(op.fn, args, st)
            break
        except Budget:
            outs = None
    _memo[k] = ([Outcome(eng, s, v) for v, s, _ in outs] if outs is not None else None, eng)
    return _memo[k]
