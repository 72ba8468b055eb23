"""P32: see DESIGN.md."""
import os
import ctxmodel as C
from absint import Engine, State, c, sym, contains
from models import opt_some, opt_none
from panics import show

NOTE = """Every rule of the splitter is interpreted on an unknown character followed by up to three unknown characters (four in the thorough tier), and the splitter on up to three characters (five) with up to two rules that take, skip or pass on what they are given; each path's tokens are compared with the characters it consumed."""
DEEP = bool(os.environ.get("VERIF_DEEP"))
APART = [",", "(", ")", "[", "]", "{", "}", " ", "\t", "\n", "\u00a0"]
UNIT = ("agg", "tuple", "", 0, ())


def parts(t):
    """The characters of a string term; None if they are not known."""
    if t == ("s", ""):
        return ()
    if t[0] == "txt":
        return t[1]
    if t[0] == "ch" or t[0] == "tok":
        return (t,)
    if t[0] == "call" and t[1] in ("String::from", "From::from", "Into::into", "char::to_string"):
        return parts(t[2])
    return None


VISIBLE = [chr(i) for i in range(33, 127)] + C.GOOD + ["\x00", "\x07", "\x1b", "\x7f", "\u009f"]
BLANKS = [" ", "\t", "\n", "\r", "\x0b", "\x0c", "\u0085", "\u00a0", "\u1680", "\u2003", "\u2028", "\u202f", "\u3000"]
SAMPLES = frozenset(VISIBLE + APART + C.BAD + BLANKS)


class Text:
    """Hook: strings as sequences of characters; `rule.split` of an unknown rule takes, skips or passes on."""

    def __init__(self, outcome=None):
        self.outcome, self.odd = outcome, False

    def on_join(self, eng, a, b, facts):
        """Which of the sample characters a character can be, on either of two paths that meet."""
        chars = {x for st in (a, b) for k in st.facts for x in ([k] if k[0] == "ch" else k) if isinstance(x, tuple) and x and x[0] == "ch"}
        for x in chars:
            yes = frozenset(w for w in SAMPLES if C.holds(a, w, x[1]) or C.holds(b, w, x[1]))
            if yes != SAMPLES:
                facts[("allow", x)] = ("in", yes, SAMPLES)

    def text_at(self, eng, st, a):
        return parts(eng.T(st, a))

    def on_call(self, eng, st, name, args, ctx):
        last = name.rsplit("::", 1)[-1]
        if name in ("String::with_capacity", "String::new"):
            return [(("s", ""), st)]
        if name in ("String::push", "String::push_str", "Extend::extend") and args[0][0] == "ref":
            cur = self.text_at(eng, st, args[0])
            if cur is None:
                return None
            new = None
            if last == "extend":
                # an option is no character or one
                o = eng.strip(st, args[1])
                if o[0] == "agg" and o[1] == "adt" and o[2].endswith("option::Option"):
                    if o[3] == 0:
                        return [(UNIT, st)]
                    x = eng.T(st, o[4][0])
                    new = (x,) if x[0] == "c" else parts(x)
            if last in ("push", "push_str"):
                x = eng.T(st, args[1])
                new = (x,) if x[0] == "c" or x[0] == "call" and x[1].startswith("char::") else parts(x)
            if new is None:
                return None
            loc, path = args[0][1], args[0][2]
            while True:
                w = eng.read_loc(st, loc, path)
                if w[0] != "ref":
                    break
                loc, path = w[1], w[2]
            eng.write_loc(st, loc, path, sym(("txt", cur + new)))
            return [(UNIT, st)]
        if last in ("pop", "clear", "truncate") and name.startswith("String::") and args[0][0] == "ref":
            # what was put together is shortened
            cur = self.text_at(eng, st, args[0])
            if cur is None:
                return None
            n = eng.T(st, args[1]) if last == "truncate" else None
            ln = ("bytes", cur)
            if last == "clear" or n == ("c", 0):
                new, v = (), UNIT
            elif last == "pop":
                new, v = cur[:-1], opt_some(sym(cur[-1])) if cur else opt_none()
            elif n == ln:
                new, v = cur, UNIT
            elif cur and n in (("sub", ln, ("c", 1)), ("sub", ln, ("call", "char::len_utf8", cur[-1]))):
                new, v = cur[:-1], UNIT
            else:
                return None
            loc, path = args[0][1], args[0][2]
            while True:
                w = eng.read_loc(st, loc, path)
                if w[0] != "ref":
                    break
                loc, path = w[1], w[2]
            eng.write_loc(st, loc, path, sym(("txt", new)))
            return [(v, st)]
        if name in ("str::len", "String::len"):
            cur = self.text_at(eng, st, args[0])
            if cur:
                t = ("bytes", cur)
                eng.learn(st, "ge", t, c(len(cur)), 1)
                return [(sym(t), st)]
        if name in ("str::ends_with", "str::starts_with") and args[1][0] in ("c", "sym"):
            cur = self.text_at(eng, st, args[0])
            if cur:
                x, w = cur[-1 if last == "ends_with" else 0], eng.T(st, args[1])
                lo, hi = eng.rng(st, ("bytes", cur))
                if w[0] == "c" and len(cur) == 1:
                    n = len((w[1] if isinstance(w[1], str) else chr(w[1])).encode())
                    if lo is not None and lo > n or hi is not None and hi < n:
                        return [(c(0), st)]
                return [(sym(("eq", x, w)), st)]
        if last == "split" and self.outcome and "SplitRule" in name and len(args) == 3:
            return self.rule(eng, st, args)
        return None

    def rule(self, eng, st, args):
        """An unknown rule: Data with 0 or 1 further characters, Continue or Skip."""
        loc, path = args[2][1], args[2][2]
        while True:
            it = eng.read_loc(st, loc, path)
            if it[0] != "ref":
                break
            loc, path = it[1], it[2]
        me = (the_rule(eng.T(st, args[0])), eng.T(st, args[1]))
        if it[0] != "iter" or it[1][0] != "arr" or it[2] == "adv" or me[0] is None or me[1][0] != "ch":
            self.odd = True
            return None
        n = len(it[1][1][4])
        at = position(it)
        out = []
        for kind in ("Data", "Continue", "Skip"):
            for k in (0, 1) if kind == "Data" else (0,):
                if at + k > n:
                    continue
                s = st.copy()
                took = tuple(eng.T(s, x) for x in it[1][1][4][at:at + k])
                if k:
                    eng.write_loc(s, loc, path, ("iter", it[1], ("at", at + k, n) if at + k < n else "done", None, ()))
                cur = s.mem.get(("X", "rules"))
                s.mem[("X", "rules")] = c((cur[1] if cur else ()) + ((me, kind, took),))
                tok = (sym(("tok", me[1]) + took),) if kind == "Data" else ()
                out.append((("agg", "adt", self.outcome[0], self.outcome[1].index(kind), tok), s))
        return out


def the_rule(t):
    """Which rule a term names, behind its box."""
    while t[0] in ("fld", "proj", "deref") and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    return t if t[0] == "rule" else None


def position(it):
    """How many elements of its array an iterator has handed out."""
    n = len(it[1][1][4])
    i = 0 if it[2] == "fresh" else n if it[2] == "done" else it[2][1]
    if it[3] is not None and it[3] != ("none",):
        i -= 1
    return i


def engine(crates, hook):
    eng = Engine(crates, hooks=hook, max_states=4096, budget=400000)
    eng.unroll, eng.exact, eng.depth = 12, 2048, 40
    return eng


def run(rep, crates):
    cr = crates["prexel"]
    rep.rule("kept: a rule that makes a token makes it of the character it is given and those it takes, in order, and of nothing else")
    rep.rule("passed: a rule that passes a character on has taken nothing")
    rep.rule("skipped: only whitespace is skipped")
    rep.rule("apart: no token of several characters contains a comma, a grouping symbol or whitespace")
    rep.rule("order: the splitter emits the tokens of its rules in the order of the text, and a character no rule wants as a token of its own")
    rep.rule("blanks: the rule that skips whitespace skips every whitespace character")
    rep.rule("whitespace: the default splitters remove whitespace")
    adt = [a for a in cr.adts if a.endswith("rules::Outcome")]
    if len(adt) != 1:
        rep.undec("outcome", "the outcome type of a rule was not found")
        return
    names = [v[0] for v in cr.adts[adt[0]]["variants"]]
    for k in crates.values():
        for f in k.bodies:
            if f.trait and f.trait.endswith("SplitRule") and C.key_fn(f) == "split":
                for n in range(5 if DEEP else 4):
                    rep.guard("rule:%s:%d" % (f.self_def(), n), one, rep, crates, cr, f, n, (adt[0], names))
    for f in cr.bodies:
        if C.key_fn(f) == "split_into_tokens" and f.trait and f.self_def():
            for r in range(3):
                for n in range(6 if DEEP and r < 2 else 4):
                    rep.guard("splitter:%d:%d" % (r, n), whole, rep, crates, cr, f, r, n, (adt[0], names))
    operators(rep, cr)


def one(rep, crates, cr, f, n, outcome):
    eng = engine([f.crate] + [k for k in crates.values() if k is not f.crate], Text())
    st = State()
    T = (f.self_def() or "?").rsplit("::", 1)[-1]
    el = [("ch", i + 1) for i in range(n)]
    st.mem[("REST", 0)] = ("iter", ("arr", ("agg", "array", "", 0, tuple(sym(e) for e in el))), "fresh", None, ())
    paths = eng.analyse(f, [sym(("self",)), sym(("ch", 0)), ("ref", ("REST", 0), ())], st)
    if paths and any(eng.T(s, v)[0] == "agg" and outcome[1][eng.T(s, v)[2]] == "Skip" for v, s, _ in paths):
        # the rule that removes whitespace removes all of it
        for v, s, _ in paths:
            t = eng.T(s, v)
            if t[0] == "agg" and outcome[1][t[2]] != "Skip":
                left = [w for w in BLANKS if holds(s, w, ("ch", 0))]
                rep.check(not left, "blanks:" + T, "%s does not skip the whitespace %r [%s]" % (T, left and left[0], f.path), {"rule": T, "skips": "all whitespace"})
    for v, s, _ in paths:
        rep.count("rule paths")
        t = eng.T(s, v)
        it = s.mem.get(("REST", 0))
        odd = [x for x in eng.unmodelled if not x.startswith("char::is_") and "contains" not in x]
        if t[0] != "agg" or it is None or it[0] != "iter" or it[1][0] != "arr" or it[2] == "adv":
            rep.undec("rule:%s:%d" % (T, n), "what the rule %s does is not known (%s)" % (T, sorted(odd)[:3]))
            continue
        took = position(it)
        kind = outcome[1][t[2]]
        if kind == "Data":
            ps = parts(t[3])
            want = tuple([("ch", 0)] + el[:took])
            if ps is None or any(p[0] not in ("ch", "c") and not (p[0] == "call" and "case" in p[1]) for p in ps):
                rep.undec("kept:%s:%d" % (T, n), "the token made by %s is %s" % (T, show(t[3], -3)))
                continue
            # a character the path knows may be written out instead of passed on
            ps = tuple(w if p != w and known(s, w) is not None and known(s, p) == known(s, w) else p for p, w in zip(ps, want)) + ps[len(want):]
            rep.check(ps == want, "kept:" + T, "%s makes the token %s of a text of which it takes %s [%s]"
                      % (T, text(ps), text(want), f.path), {"rule": T, "token": text(ps), "followed by": n - took})
            if len(ps) > 1 and ps == want:
                for x in ps:
                    for w in APART:
                        r = holds(s, w, x)
                        if r:
                            rep.bad("apart:" + T, "%s makes a token of several characters with %r in it [%s]" % (T, w, f.path))
                            break
                    else:
                        rep.count("characters of long tokens")
                        rep.ok()
        elif kind == "Skip":
            bad = [w for w in VISIBLE if holds(s, w, ("ch", 0))] if took == 0 else [w for w in VISIBLE if holds(s, w, ("ch", took))]
            rep.check(not bad, "skipped:" + T, "%s skips the character %r [%s]" % (T, bad and bad[0], f.path), {"rule": T, "skips": "whitespace"})
        else:
            rep.check(took == 0, "passed:" + T, "%s passes a character on after taking %d further characters of the text [%s]" % (T, took, f.path),
                      {"rule": T, "passes on": True})


def known(st, x):
    """The character x is on this path, if that is known."""
    if x[0] == "c":
        return ord(x[1]) if isinstance(x[1], str) and len(x[1]) == 1 else x[1]
    v = st.facts.get(x)
    if v is not None and v[0] == "=":
        return v[1]
    for k, v in st.facts.items():
        if k[0] == "eq" and x in k[1:] and v == ("=", 1):
            y = k[2] if k[1] == x else k[1]
            if y[0] == "c":
                return known(st, y)
    return None


def text(ps):
    return " ".join("c%d" % p[1] if p[0] == "ch" else show(p, -3) for p in ps)


def holds(st, ch, x):
    """Can the character x be ch?  False also when that depends on something opaque."""
    r = C.holds(st, ch, x[1])
    return bool(r)


def whole(rep, crates, cr, f, r, n, outcome):
    eng = engine([cr], Text(outcome))
    st = State()
    S = f.self_def()
    a = cr.adts.get(S)
    el = [("ch", i) for i in range(n)]

    class H(Text):
        def on_call(self, eng, st, name, args, ctx):
            if name in ("str::chars", "str::char_indices") and eng.T(st, args[0]) == ("expr",):
                arr = tuple(sym(e) for e in el)
                if name.endswith("indices"):
                    arr = tuple(("agg", "tuple", "", 0, (sym(("idx", i)), x)) for i, x in enumerate(arr))
                return [(("iter", ("arr", ("agg", "array", "", 0, arr)), "fresh", None, ()), st)]
            return Text.on_call(self, eng, st, name, args, ctx)
    eng.hooks = H(outcome)
    rules = ("agg", "array", "", 0, tuple(sym(("rule", i)) for i in range(r)))
    fields = [rules if "Vec" in cr.ty(ty)["s"] or "Box" in cr.ty(ty)["s"] else sym(("self", i)) for i, ty in
              enumerate(field_types(a))]
    st.mem[("SELF", 0)] = ("agg", "adt", S, 0, tuple(fields))
    key = "order:%d:%d" % (r, n)
    for v, s, _ in eng.analyse(f, [("ref", ("SELF", 0), ()), sym(("expr",))], st):
        rep.count("splitter paths")
        v = eng.strip(s, v)
        ev = s.mem.get(("X", "rules"))
        ev = list(ev[1]) if ev else []
        if v[0] != "vec" or v[2] != "empty" or eng.hooks.odd:
            rep.undec(key, "the tokens are %s" % show(eng.T(s, v), -3))
            continue
        got = [parts(eng.T(s, x)) for x in v[3]]
        if any(g is None for g in got):
            rep.undec(key, "a token is not known")
            continue
        want, at, bad = [], 0, None
        while at < n and bad is None:
            mine = []
            while ev and ev[0][0][1] == ("ch", at):
                mine.append(ev.pop(0))
                if mine[-1][1] != "Continue":
                    break
            asked = [m[0][0] for m in mine]
            if asked != [("rule", i) for i in range(len(asked))] or (len(asked) < r and not (mine and mine[-1][1] != "Continue")):
                bad = "the rules are not asked in their order about character %d" % at
                break
            if mine and mine[-1][1] == "Data":
                want.append((("tok", ("ch", at)) + mine[-1][2],))
                at += len(mine[-1][2])
            elif not (mine and mine[-1][1] == "Skip"):
                want.append((("ch", at),))
            at += 1
        if bad is None and ev:
            bad = "a rule is asked about a character again"
        if bad:
            rep.bad(key, "%s [%s]" % (bad, f.path))
            continue
        rep.check(got == want, key, "the tokens of a text are %s where its rules made %s [%s]" % (got, want, f.path),
                  {"rules": r, "characters": n, "tokens": len(got)})


def field_types(a):
    return [x[1] for x in a["variants"][0][1]] if a else []


def operators(rep, cr):
    """The operator characters of the configurable rule, and what the ready-made splitters are made of."""
    for f in cr.bodies:
        n = C.key_fn(f)
        if n == "new" and (f.self_def() or "").endswith("SplitWithOperatorsBuilder") or f.path.endswith("SplitWithOperatorsBuilder::new"):
            eng = Engine([cr])
            for v, s, _ in eng.analyse(f, [], State()):
                txt = consts(eng, s, v, set())
                rep.count("operator characters", len(txt))
                bad = [w for w in APART if w in txt]
                (rep.check(not bad, "apart:operators", "the operator characters of the configurable rule include %r [%s]" % (bad and bad[0], f.path))
                 if txt else rep.undec("apart:operators", "the operator characters are not known"))
        if n in ("default", "binary_number_splitter") and "plitter" in f.path and "Builder" not in f.path and f.body.argc == 0:
            eng = Engine([cr])
            eng.unroll = 8
            for v, s, _ in eng.analyse(f, [], State()):
                names = adts(eng, s, v, set())
                rep.count("ready-made splitters")
                if any(x.endswith("SkipWhitespace") for x in names):
                    rep.ok({"splitter": f.path, "rules": sorted(x.rsplit("::", 1)[-1] for x in names)})
                elif any("Split" in x and x.endswith(("SplitNumeric", "SplitIdentifier", "SplitOperator")) for x in names):
                    rep.bad("whitespace:" + f.path, "%s does not remove whitespace" % f.path)
                else:
                    rep.undec("whitespace:" + f.path, "the rules of %s are not known" % f.path)


def consts(eng, st, v, acc, d=0):
    v = eng.strip(st, v)
    return {x for x in walk(eng.T(st, v))}


def walk(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "c" and isinstance(t[1], (int, str)) and not isinstance(t[1], bool):
            yield t[1] if isinstance(t[1], str) else chr(t[1])
        else:
            for x in t:
                yield from walk(x)


def adts(eng, st, v, acc, d=0):
    v = eng.strip(st, v)
    if d > 8 or not isinstance(v, tuple) or not v:
        return acc
    if v[0] == "agg":
        acc.add(v[2])
        for x in v[4]:
            adts(eng, st, x, acc, d + 1)
    elif v[0] == "vec":
        for x in v[3]:
            adts(eng, st, x, acc, d + 1)
    return acc
