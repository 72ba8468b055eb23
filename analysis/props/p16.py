"""P16: see DESIGN.md."""
import sys
import ctxmodel as C
from absint import Engine, State, c, sym, contains
from facts import callee
from panics import show

NOTE = """The lookups of the default context are interpreted with its maps as abstract values: the map and key each one reads, and whether the key ignores case. The equality and the hash of the case-insensitive key are interpreted on two strings of unknown characters; the character mappings their results depend on are compared over all Unicode characters."""

SAMPLE = "aAzZ1é\u00c9πΠ"
FOLDS = {"to_lowercase": str.lower, "to_uppercase": str.upper,
         "to_ascii_lowercase": lambda x: "".join(c.lower() if c.isascii() else c for c in x),
         "to_ascii_uppercase": lambda x: "".join(c.upper() if c.isascii() else c for c in x)}
ITER = ("Iterator::partial_cmp", "Iterator::cmp", "Ord::cmp", "PartialOrd::partial_cmp")


class Strings:
    """Hook: the strings ("a",) and ("b",) have a known number of unknown characters; what is hashed is recorded."""

    def __init__(self, m, n):
        self.k = {("a",): m, ("b",): n}

    def on_call(self, eng, st, name, args, ctx):
        last = name.rsplit("::", 1)[-1]
        t = eng.T(st, args[0]) if args else None
        if name == "str::chars" and t in self.k:
            return [(("iter", ("arr", ("agg", "array", "", 0, tuple(sym(("ch", t[0], i)) for i in range(self.k[t])))), "fresh", None, ()), st)]
        if name in ("str::len", "String::len"):
            return None
        if name in ("char::to_lowercase", "char::to_uppercase"):
            # an iterator over the characters of the other case, kept whole
            return [(("iter", ("arr", ("agg", "array", "", 0, (sym(("call", name, t)),))), "fresh", None, ()), st)]
        if name == "Iterator::flat_map":
            it = eng.strip(st, args[0])
            if it[0] == "iter" and it[1][0] == "arr" and it[2] == "fresh" and not it[4]:
                out, work = [], [(0, (), st)]
                while work:
                    i, el, s = work.pop()
                    if i == len(it[1][1][4]):
                        out.append((("iter", ("arr", ("agg", "array", "", 0, el)), "fresh", None, ()), s))
                        continue
                    for r, s2 in eng.invoke(s, args[1], [it[1][1][4][i]], ctx.fn, ctx.frame, (ctx.block, "fm", i), ctx.site, ctx.stack):
                        r = eng.strip(s2, r)
                        if r[0] != "iter" or r[1][0] != "arr" or r[2] != "fresh" or r[4]:
                            return None
                        work.append((i + 1, el + r[1][1][4], s2))
                return out
        if name in ("Iterator::eq", "Iterator::ne"):
            x, y = eng.strip(st, args[0]), eng.strip(st, args[1])
            if x[0] == y[0] == "iter" and x[1][0] == y[1][0] == "arr" and x[2] == y[2] == "fresh" and not x[4] and not y[4]:
                xs, ys = x[1][1][4], y[1][1][4]
                out, work = [], [(0, st)]
                while work:
                    i, s = work.pop()
                    if i == len(xs) or i == len(ys):
                        out.append((c(int((len(xs) == len(ys)) == (last == "eq"))), s))
                        continue
                    for tv, s2 in eng.branch_bool(s, sym(("eq", eng.T(s, xs[i]), eng.T(s, ys[i])))):
                        work.append((i + 1, s2)) if tv else out.append((c(int(last == "ne")), s2))
                return out
        if name in ("Hash::hash", "Hasher::write_u8", "Hasher::write", "Hasher::write_str", "Hasher::write_u32", "Hasher::write_usize"):
            if eng.fn_by_key.get(ctx.info.get("rkey")) is not None:
                return None
            h = t if name == "Hash::hash" else eng.T(st, args[1])
            cur = st.mem.get(("X", "hashed"))
            st.mem[("X", "hashed")] = c((cur[1] if cur else ()) + (h,))
            return [(("agg", "tuple", "", 0, ()), st)]
        return None


LONGER = ("\u023a", "\u2c65")      # a letter that has more bytes in the other case


def length(t):
    """Is it the length in bytes of a string, or a comparison of the lengths of the two?"""
    n = lambda x: isinstance(x, tuple) and (x[0] == "len" and x[1] in (("a",), ("b",)) or x[0] == "call" and x[1].endswith("::len") and x[2] in (("a",), ("b",)))
    return isinstance(t, tuple) and (n(t) or t[0] in ("eq", "ne") and n(t[1]) and n(t[2]))


def atom(t):
    return t in (("a",), ("b",)) or (len(t) == 3 and t[0] == "ch" and t[1] in ("a", "b"))


def mapping(t):
    """(mappings applied to it, the character or string) of a term; None if it is not of that form."""
    fs = []
    while isinstance(t, tuple):
        if atom(t):
            return tuple(reversed(fs)), t
        if t[0] == "call" and len(t) == 3 and t[1].rsplit("::", 1)[-1] in FOLDS:
            fs.append(t[1].rsplit("::", 1)[-1])
            t = t[2]
        elif t[0] == "arr" and len(t[1][4]) == 1 and t[1][4][0][0] == "sym":
            t = t[1][4][0][1]
        elif t[0] in ("iter", "cast", "fmt", "deref") and len(t) >= 2:
            t = t[1]
        elif t[0] == "call" and len(t) == 3 and t[1].rsplit("::", 1)[-1] in ("chars", "collect", "bytes", "as_bytes", "from", "into", "to_string"):
            t = t[2]
        else:
            return None
    return None


def compared(k, v):
    """(x, y) when the fact says that the terms x and y are equal; 'differ' when it says they are not; None for other facts."""
    if k[0] in ("eq", "ne") and len(k) == 3 and v[0] == "=":
        return (k[1], k[2]) if (k[0] == "eq") == bool(v[1]) else "differ"
    if k[0] == "disc":
        x = k[1][1] if k[1][0] == "fld" and k[1][2] == ("v", 1, 0) else k[1]
        if x[0] == "call" and x[1] in ITER and len(x) == 4:
            if x is k[1] and x[1] == "PartialOrd::partial_cmp":
                return "known"          # Some or None: characters always compare
            return x[2:] if v == ("=", 0) else "differ"
    if k[0] == "call" and k[1].rsplit("::", 1)[-1] == "eq_ignore_ascii_case" and v[0] == "=":
        f = "char::to_ascii_lowercase"
        return (("call", f, k[2]), ("call", f, k[3])) if v[1] else "differ"
    return None


def interpret(cr, f, args, m, n):
    eng = Engine([cr], hooks=Strings(m, n), max_states=512)
    eng.unroll, eng.exact = 8, 128
    return eng, eng.analyse(f, args, State())


def keyed(cr, f, m, n):
    """Arguments for a method of the key type (by reference)."""
    S = f.self_def()
    st = State()
    return [("agg", "adt", S, 0, (sym(("a",)),)), ("agg", "adt", S, 0, (sym(("b",)),))]


def run_method(cr, f, args, m, n):
    """Interpret a method of &self with its arguments in memory."""
    eng = Engine([cr], hooks=Strings(m, n), max_states=512)
    eng.unroll, eng.exact = 8, 128
    st = State()
    refs = []
    for i, a in enumerate(args):
        st.mem[("KEY", i)] = a
        refs.append(("ref", ("KEY", i), ()))
    return eng, eng.analyse(f, refs, st)


def equality(rep, cr, f, T):
    """The character mapping under which the keys are compared; None if it is not known."""
    maps = set()
    for m, n in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 1)):
        eng, outs = run_method(cr, f, keyed(cr, f, m, n), m, n)
        for v, s0, _ in outs:
            for tv, s in eng.branch_bool(s0, v):
                if not tv:
                    continue
                rep.count("equal paths")
                pos = {}
                for k, x in s.facts.items():
                    r = compared(k, x)
                    if r == "known":
                        continue
                    if r is None or r == "differ":
                        if contains_atom(k):
                            pos["?"] = k
                        continue
                    x, y = mapping(r[0]), mapping(r[1])
                    if x is not None and y is not None and x[0] != y[0]:
                        odd = [ch for ch in SAMPLE if fold(x[0], ch) != fold(y[0], ch)]
                        if odd:
                            rep.bad("equality:" + T, "`%s` is not equal to itself as %s [%s]" % (odd[0], T, f.path))
                            return None
                    if x is None or y is None or x[0] != y[0]:
                        if contains_atom(k):
                            pos["?"] = k
                        continue
                    pos[x[1] if x[1][1:2] != ("b",) and x[1] != ("b",) else y[1]] = x[0]
                key = "equality:%s:%d:%d" % (T, m, n)
                whole = pos.get(("a",))
                if length(pos.get("?")):
                    rep.bad(key, "`%s` and `%s` are different as %s: their lengths are compared [%s]" % (LONGER + (T, f.path)))
                    return None
                if "?" in pos:
                    rep.undec(key, "what equality of %s depends on is not known: %s" % (T, show(pos["?"], -4)))
                    return None
                if whole is not None:
                    maps.add(whole)
                    rep.ok()
                    continue
                if m != n:
                    rep.bad(key, "a string of %d characters equals one of %d as %s [%s]" % (m, n, T, f.path))
                    continue
                missing = [i for i in range(m) if ("ch", "a", i) not in pos]
                if missing:
                    rep.bad(key, "character %d of two equal strings is not compared by %s [%s]" % (missing[0], T, f.path))
                    continue
                rep.ok({"type": T, "characters": m, "compared under": [".".join(x) or "identity" for x in pos.values()]})
                maps |= set(pos.values())
    if len(maps) != 1:
        rep.undec("equality:" + T, "characters are compared in %d ways" % len(maps))
        return None
    return maps.pop()


def contains_atom(t):
    return contains(t, ("a",)) or contains(t, ("b",)) or any(contains(t, ("ch", x, i)) for x in "ab" for i in range(3))


def fold(fs, x):
    for f in fs:
        x = FOLDS[f](x)
    return x


def table(fs):
    return {ch: fold(fs, ch) for ch in map(chr, range(0x110000)) if not 0xd800 <= ord(ch) < 0xe000}


def run(rep, crates):
    cr = crates["prexel"]
    rep.rule("namespace: every lookup reads one map of its own, and the adder of its kind writes that map")
    rep.rule("folding: lookups of constants, functions and operators use a key that ignores case, lookups of variables the exact name")
    rep.rule("equality: two keys are equal exactly when all their characters are, ignoring case")
    rep.rule("hash: equal keys feed equal values to the hasher")
    where = rep.guard("lookups", C.fields, cr, rep) or {}
    for g, (m, k) in where.items():
        rep.count("lookups")
        want = "exact" if g == "get_variable" else "ic"
        if k[0] not in ("exact", "ic") or k[1] != C.NAME:
            rep.undec("folding:" + g, "the key %s looks up is %s" % (g, show(k, -3)))
        else:
            rep.check(k[0] == want, "folding:" + g, "%s looks its name up %s [%s]" % (
                g, "by its exact letters" if want == "ic" else "ignoring the case of letters", C.methods(cr)[g].path),
                {"lookup": g, "key": k[0]})
    fs = [m for m, _ in where.values()]
    rep.check(len(set(fs)) == len(fs), "namespace:distinct", "two lookups read the same map")
    for add, g in list(C.ADDERS.items()) + list(C.SETTERS.items()):
        for name in (add, add + "_as"):
            f = C.methods(cr).get(name)
            if f is None or g not in where:
                continue
            rep.guard("namespace:" + name, written, rep, cr, f, name, where[g])
    keys = {}
    for f in cr.bodies:
        t = f.self_def() or ""
        if "IgnoreCaseStr" in t and f.trait and C.key_fn(f) in ("eq", "hash"):
            keys.setdefault(t, {})[C.key_fn(f)] = f
    if not any("IgnoreCaseString" in t for t in keys):
        rep.undec("keys", "the type of the keys that ignore case was not found")
    for t, ms in keys.items():
        if "eq" in ms:
            rep.guard("equality:" + t, coherence, rep, cr, t, ms)
    predicates(rep, cr, where)


def written(rep, cr, f, name, where):
    m, k = where
    setter = name in C.SETTERS
    args = [C.CTX, C.NAME, C.VAL] if setter else [C.CTX, C.FUNC, C.NAME][:f.body.argc]
    outs, eng, hook = C.runs(cr, f, args)
    for t, s, w in outs:
        if C.outcome(t) != "ok":
            continue
        rep.count("registrations")
        ins = [x for x in w if x[0] == "insert"]
        if any(x[0] == "write" for x in w):
            rep.undec("namespace:" + name, "%s changes the context in another way: %s" % (name, [x[2] for x in w if x[0] == "write"]))
            continue
        rep.check(all(x[1] == m for x in ins), "namespace:" + name, "%s puts what it registers in another map than the one it is looked up in [%s]"
                  % (name, f.path), {"registration": name, "map": m[2]})
        kind = [x[2] for x in ins if x[2][1] == C.NAME]
        if kind and all(x[0] in ("exact", "ic") for x in kind):
            rep.check(all(x == k for x in kind), "folding:" + name, "%s registers under a key that %s does not look up [%s]"
                      % (name, C.ADDERS.get(name.replace("_as", "")) or C.SETTERS.get(name), f.path))


def coherence(rep, cr, t, ms):
    T = t.rsplit("::", 1)[-1]
    fs = equality(rep, cr, ms["eq"], T)
    if fs is None:
        return
    F = table(fs)
    bad = [ch for ch in F if len(ch.lower()) == 1 and ch.lower().upper() == ch and F[ch] != F[ch.lower()]]
    rep.count("characters", len(F))
    rep.check(not bad, "folding:" + T, "`%s` and `%s` are different as %s [%s]" % (bad[:1] and bad[0], bad[:1] and bad[0].lower(), T, ms["eq"].path),
              {"type": T, "mapping": ".".join(fs)})
    groups = {}
    for ch, x in F.items():
        groups.setdefault(x, []).append(ch)
    odd = [g for g in groups.values() if len({x.casefold() for x in g}) > 1 and len({x.lower() for x in g}) > 1 and len({x.upper() for x in g}) > 1]
    rep.check(not odd, "distinct:" + T, "`%s` and `%s` are the same as %s" % ((odd[0][0], odd[0][1], T) if odd else ("", "", T)))
    h = ms.get("hash")
    if h is None:
        return
    for m in (0, 1, 2):
        args = keyed(cr, h, m, 0)[:1] + [sym(("hasher",))]
        eng, outs = run_method(cr, h, args, m, 0)
        for v, s, _ in outs:
            got = s.mem.get(("X", "hashed"))
            got = got[1] if got else ()
            ms_ = []
            for x in got:
                if not contains_atom(x):
                    if "len" in str(x) or x[0] not in ("c", "s"):
                        ms_ = None
                        break
                    continue
                r = mapping(x)
                if r is None and length(x) and fold(fs, LONGER[0]) == fold(fs, LONGER[1]):
                    rep.bad("hash:" + T, "`%s` and `%s` are equal as %s but hash differently: the length is hashed [%s]" % (LONGER + (T, h.path)))
                    return
                if r is None:
                    ms_ = None
                    break
                ms_.append(r)
            key = "hash:" + T
            if ms_ is None or [n for n in eng.unmodelled if n.rsplit("::", 1)[-1] not in FOLDS]:
                rep.undec(key, "what the hash of %s depends on is not known: %s" % (T, [show(x, -3) for x in got]))
                continue
            for gs, at in ms_:
                rep.count("hashed values")
                if gs == fs:
                    rep.ok({"type": T, "hash of": show(at, -3), "mapping": ".".join(gs)})
                    continue
                bad = None
                for g in groups.values():
                    if len(g) > 1 and len({fold(gs, ch) for ch in g}) > 1:
                        y = [ch for ch in g if fold(gs, ch) != fold(gs, g[0])][0]
                        bad = (g[0], y)
                        break
                rep.check(bad is None, key, "`%s` and `%s` are equal as %s but hash differently [%s]" % (
                    (bad or ("", ""))[0], (bad or ("", ""))[1], T, h.path))


def predicates(rep, cr, where):
    """is_variable and its like answer whether the lookup of their kind finds something."""
    for f in cr.bodies:
        n = C.key_fn(f)
        if not n.startswith("is_") or "Context" not in f.path or f.body.argc != 2:
            continue
        g = "get_" + n[3:]
        if g not in list(C.ADDERS.values()) + list(C.SETTERS.values()):
            continue
        rep.guard("predicate:" + n, predicate, rep, cr, f, n, g, where.get(g))


def present(x):
    return x == ("=", 1) or (x[0] == "!" and 0 in x[1])


def predicate(rep, cr, f, n, g, where):
    key = "predicate:" + n
    if "DefaultContext" in f.path or "DefaultContext" in (f.self_def() or ""):
        outs, eng, _ = C.runs(cr, f, [C.CTX, C.NAME])
        outs = [(sym(t), s) for t, s, _ in outs]
    else:
        eng = Engine([cr], max_states=64)
        outs = [(v, s) for v, s, _ in eng.analyse(f, [sym(C.CTX), sym(C.NAME)], State())]
    for v, s0 in outs:
        for tv, s in eng.branch_bool(s0, v):
            rep.count("predicates")
            calls = [(k[1], x) for k, x in s.facts.items() if k[0] == "disc" and k[1][0] == "call" and k[1][1].startswith("Context::get_")]
            gots = [(k[1], x) for k, x in s.facts.items() if k[0] == "disc" and k[1][0] == "got"]
            same = {k: x for k, x in s.facts.items() if k[0] in ("iceq", "eq") and contains(k, C.NAME) and "'key'" in str(k)}
            ok = None
            if len(calls) + len(gots) == 1 and not same:
                d, x = (calls + gots)[0]
                right = d[1] == "Context::" + g if d[0] == "call" else (d[1], d[2]) == where if where else None
                ok = None if right is None else right and present(x) == tv
            elif same and not calls and not gots and where:
                # the entries are gone through one by one
                m, kind = where
                yes = [k for k, x in same.items() if x == ("=", 1)]
                wrong = [k for k in yes if not contains(k, ("key", m, 0)) or (k[0] == "iceq") != (kind[0] == "ic")]
                ok = False if wrong and tv else tv == bool(yes) if yes or tv else None
                if ok is None and all((k[0] == "iceq") == (kind[0] == "ic") or k[0] == "iceq" for k in same):
                    ok = True
            elif not calls and not gots and not same:
                if any(C.contains(k, C.CTX) for k in s.facts):
                    rep.ok()            # no entry to ask about, or something else of the context
                    continue
                if C.long_enough(s):
                    ok = False
            if ok is None:
                rep.undec(key, "%s depends on %s" % (n, [show(d, -3) for d, _ in calls + gots] + [show(k, -3) for k in same]))
            else:
                rep.check(ok, key, "%s does not answer whether %s finds the name [%s]" % (n, g, f.path), {"predicate": n, "lookup": g})
