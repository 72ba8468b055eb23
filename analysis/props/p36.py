"""P36: see DESIGN.md."""
from absint import Engine, State, sym
from opmodel import deep
from panics import show

NOTE = """Every way to make an error is interpreted with each kind, and every way to ask an error is interpreted on what it makes."""
TEXT = {"Overflow": "overflow", "Zero": "zero", "NAN": "number", "InvalidInput": "input", "InvalidArgumentCount": "argument", "DivisionByZero": "zero",
        "NegativeValue": "negative", "PositiveValue": "positive", "InvalidExpression": "expression", "Empty": "empty", "Unknown": "unknown"}
INNER, MSG, F = ("inner",), ("message",), ("f",)


def last(t):
    return t[1].rsplit("::", 1)[-1] if isinstance(t, tuple) and t and t[0] == "call" else None


def plain(t):
    while last(t) in ("from", "into", "to_string", "to_owned", "as_ref", "as_mut", "deref", "deref_mut", "new") and len(t) == 3:
        t = t[2]
    return t


def known(t):
    return not (isinstance(t, tuple) and t and (t[0] in ("hv", "ret", "phi", "vv", "uninit") or any(not known(x) for x in t)))


class Boxes:
    """A box is a value of its own, around what it holds."""

    def on_call(self, eng, st, name, args, ctx):
        if name.endswith(("Box::new", "From::from", "Into::into", "Box::from")) and len(args) == 1:
            v = eng.strip(st, args[0])
            if v[0] == "agg" and v[2].endswith("error::Custom"):
                return [(("agg", "adt", "Box", 0, (v,)), st)]
        return None


class Errors:
    def __init__(self, cr):
        self.cr = cr
        a = next((v for k, v in cr.adts.items() if k.endswith("error::ErrorKind")), None)
        self.kinds = [v[0] for v in a["variants"]] if a else []

    def method(self, name, trait=None, of="error::Error"):
        r = [f for f in self.cr.bodies if f.kind == "method" and f.name == name and (f.self_def() or "") == of and
             (f.trait is None if trait is None else (f.trait or "").endswith(trait))]
        return r[0] if len(r) == 1 else None

    def kind(self, i):
        return ("agg", "adt", "error::ErrorKind", i, ())

    def call(self, f, args):
        """[(term, facts)]; the first arguments that are aggregates are passed behind a reference when one is wanted."""
        st, out = State(), []
        for i, a in enumerate(args):
            if a[0] == "agg" and f.crate.ty(f.body.locals[i + 1]["ty"] if isinstance(f.body.locals[i + 1], dict) else f.body.locals[i + 1][0]
                                            if isinstance(f.body.locals[i + 1], (list, tuple)) else f.body.locals[i + 1])["s"].startswith("&"):
                st.mem[("P", "given%d" % i)] = a
                args = args[:i] + [("ref", ("P", "given%d" % i), ())] + args[i + 1:]
        eng = Engine([self.cr], hooks=Boxes())
        eng.keep = True
        for v, s, _ in eng.analyse(f, list(args), st):
            v = deep(eng, s, eng.strip(s, v))
            out.append((v, eng.T(s, v), s.facts))
        return out


def is_kind(t, i):
    return t == ("agg", "error::ErrorKind", i) or t == ("c", i)


def run(rep, crates):
    cr = crates["prexel"]
    rep.rule("kind: an error is of the kind it was made with; two errors are equal when their kinds are")
    rep.rule("message: an error prints the message it was made with, or the one of its kind")
    rep.rule("inner: the inner error is the one given, and there is none when none was given")
    E = Errors(cr)
    if not E.kinds:
        rep.bad("anchor", "there is no ErrorKind")
        return
    made = {}
    for i, k in enumerate(E.kinds):
        for how, f, args in (("new", E.method("new"), [E.kind(i), sym(INNER)]), ("from", E.method("from", "From"), [E.kind(i)])):
            if f is None:
                rep.bad("anchor:" + how, "an error can no longer be made with `%s`" % how)
                return
            o = E.call(f, args)
            if len(o) != 1 or o[0][0][0] != "agg":
                rep.undec("made:%s" % how, "what an error made with `%s` holds is not known" % how)
                return
            made[how, i] = o[0][0]
    f = E.method("other")
    if f is not None:
        o = E.call(f, [sym(MSG)])
        if len(o) == 1 and o[0][0][0] == "agg":
            made["other", E.kinds.index("Unknown")] = o[0][0]
    for (how, i), e in made.items():
        rep.guard("%s:%d" % (how, i), ask, rep, E, how, i, e)
    rep.guard("texts", texts, rep, E)
    rep.guard("equal", equal, rep, E, made)


def settle(rep, key, t, good, msg, f):
    if good:
        rep.ok({"method": f.path})
    elif not known(t):
        rep.undec(key, "what %s gives is not known" % f.path)
    else:
        rep.bad(key, "%s: %s [%s]" % (msg, show(t, -6), f.path))


def ask(rep, E, how, i, e):
    k = E.kinds[i]
    inner = {"new": INNER, "other": MSG}.get(how)
    lab = "an error made with `%s` of kind %s" % (how, k)
    f = E.method("kind")
    if f is None:
        rep.bad("anchor:kind", "an error can no longer be asked for its kind")
        return
    for v, t, facts in E.call(f, [e]):
        rep.count("answers")
        settle(rep, "kind:%s:%s" % (how, k), t, is_kind(t, i), "the kind of %s" % lab, f)
    for name in ("get_ref", "get_mut", "into_inner"):
        f = E.method(name)
        if f is None:
            rep.bad("anchor:" + name, "an error can no longer be asked for its inner error with %s" % name)
            continue
        for v, t, facts in E.call(f, [e]):
            rep.count("answers")
            if inner is None:
                good = t[0] == "agg" and t[1].endswith("Option") and t[2] == 0
            else:
                good = t[0] == "agg" and t[1].endswith("Option") and t[2] == 1 and plain(t[3]) == inner
            settle(rep, "%s:%s:%s" % (name, how, k), t, good, "the inner error of %s" % lab, f)
    f = E.method("fmt", "Display")
    if f is None:
        rep.bad("anchor:Display", "an error can no longer be printed")
        return
    for v, t, facts in E.call(f, [e, sym(F)]):
        rep.count("answers")
        if inner is not None:
            w = plain(t[2]) if t[0] == "call" and len(t) == 4 and t[1].endswith("Display::fmt") else written(t)
            good = w is not None and plain(w) == inner
        else:
            w = written(t)
            good = w is not None and w[0] == "s" and TEXT.get(k, "") in w[1].lower() and w[1].strip()
        settle(rep, "message:%s:%s" % (how, k), t, good, "the message of %s" % lab, f)
    f = E.method("source", "error::Error")
    if f is not None:
        for v, t, facts in E.call(f, [e]):
            rep.count("answers")
            if inner is None:
                good = t[0] == "agg" and t[1].endswith("Option") and t[2] == 0
            else:
                good = last(t) == "source" and contains(t, inner)
                # the inner error itself would be a source too
                good = good or t[0] == "agg" and t[1].endswith("Option") and t[2] == 1 and contains(t, inner)
            settle(rep, "source:%s:%s" % (how, k), t, good, "the source of %s" % lab, f)


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t)


def written(t):
    """What a Display writes, when it is one value."""
    if t[0] == "call" and last(t) in ("write_str", "pad") and len(t) == 4:
        return t[3]
    if t[0] == "call" and t[1].endswith("Display::fmt") and len(t) == 4:
        return t[2]
    if t[0] == "call" and last(t) == "write_fmt" and len(t) == 4 and t[3][0] == "fmt":
        xs = [x for x in t[3][2][3:]] if t[3][2][0] == "agg" else []
        if len(xs) == 1 and xs[0][0] == "fmt" and len(xs[0]) == 2:
            return xs[0][1]
    return None


def texts(rep, E):
    f = E.method("as_str", None, "error::ErrorKind")
    if f is None:
        rep.undec("as_str", "the text of a kind is not asked with as_str")
        return
    seen = {}
    for i, k in enumerate(E.kinds):
        for v, t, facts in E.call(f, [E.kind(i)]):
            rep.count("answers")
            settle(rep, "text:" + k, t, t[0] == "s" and TEXT.get(k, "") in t[1].lower() and t[1] not in seen, "the text of the kind %s" % k, f)
            seen[t[1]] = k


def equal(rep, E, made):
    f = E.method("eq", "PartialEq")
    if f is None:
        rep.bad("anchor:eq", "errors can no longer be compared")
        return
    for (h1, i), a in made.items():
        for (h2, j), b in made.items():
            for v, t, facts in E.call(f, [a, b]):
                rep.count("comparisons")
                settle(rep, "eq:%s:%s:%s" % (h1, h2, i == j), t, t == ("c", int(i == j)),
                       "comparing an error of kind %s with one of kind %s" % (E.kinds[i], E.kinds[j]), f)
