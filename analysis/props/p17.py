"""P17: see DESIGN.md."""
import os
import ctxmodel as C
from panics import show

NOTE = """The registration methods of the default context are interpreted with its maps as abstract values, for an operation with no aliases and with one to three of them (five in the thorough tier) and for maps that already hold up to two (four) unknown entries; every insertion of a path is checked against what the path established before it."""
DEEP = bool(os.environ.get("VERIF_DEEP"))


def taken(st, k):
    """What the path knows about the map entry ("got", map, key): True it exists, False it does not, None nothing."""
    f = st.facts.get(("disc", k))
    if f is None:
        return None
    return f == ("=", 1) or (f[0] == "!" and 0 in f[1])


def own(t):
    """The key term of an existing entry, without the wrapper of its key type."""
    return t[1] if t[0] == "fld" and t[2] == 0 and t[1][0] == "key" else t


def clashes(st, what="iceq"):
    """{entry of a map: is it equal (ignoring case) to the name?} as far as the path knows."""
    out = {}
    for k, v in st.facts.items():
        if k[0] == what and v[0] == "=" and len(k) == 3:
            x, y = own(k[1]), own(k[2])
            if y[0] == "key":
                x, y = y, x
            if x[0] == "key" and y == C.NAME:
                out[x] = bool(v[1])
    return out


def other_facts(st, key):
    return [k for k in st.facts if C.contains(k, key) and k[0] != "iceq"]


def run(rep, crates):
    cr = crates["prexel"]
    rep.rule("taken: an operation is registered only under names and aliases that its path found free in the map of its kind")
    rep.rule("clash: a constant is added only when no variable, a variable set only when no constant, has its name in any letter case")
    rep.rule("complete: a successful registration enters the name and every alias, with the given operation or value, and nothing else")
    rep.rule("unchanged: a refused registration has written nothing")
    rep.rule("reason: a name is refused only when it is taken, or its text is not a name")
    where = C.fields(cr, rep)
    ms = C.methods(cr)
    for add, g in C.ADDERS.items():
        for name in (add, add + "_as"):
            if name not in ms:
                rep.bad("method:" + name, "the context has no %s" % name)
                continue
            for al in (None, 0, 1, 2, 3) + ((4, 5) if DEEP else ()):
                rep.guard("%s:%s" % (name, al), operation, rep, cr, ms[name], name, where.get(g), al)
    for add, g in C.SETTERS.items():
        if add not in ms:
            rep.bad("method:" + add, "the context has no %s" % add)
            continue
        for n in range(5 if DEEP else 3):
            rep.guard("%s:%d" % (add, n), value, rep, cr, ms[add], add, where, n)


def refused(rep, key, name, f, s, w, reason, hook, eng):
    rep.count("refused")
    rep.check(not w, "unchanged:" + key, "%s fails after it has already changed the context [%s]" % (name, f.path), {"method": name, "path": "refused"})
    if reason:
        rep.ok()
        return
    wit = C.witness(s, hook.chars, C.GOOD)
    if wit is None or hook.chars == 0:
        rep.ok()
    elif wit == "?" or eng_odd(eng, hook):
        rep.undec("reason:" + key, "why %s fails is not known" % name)
    else:
        rep.bad("reason:" + key, "%s refuses the name `%s` although it is free [%s]" % (name, wit, f.path))


def eng_odd(eng, hook):
    return hook.odd or [n for n in eng.unmodelled if not n.startswith("char::is_") and n not in C.FOLD]


def operation(rep, cr, f, name, where, al):
    if where is None:
        return
    m, kind = where
    args = [C.CTX, C.FUNC, C.NAME][:f.body.argc]
    outs, eng, hook = C.runs(cr, f, args, aliases=al, chars=1)
    key = "%s:%s" % (name, al)
    wanted = [C.NAME] + [("alias", i) for i in range(al or 0)]
    for t, s, w in outs:
        o = C.outcome(t)
        rep.count("paths")
        if o is None:
            rep.undec("outcome:" + key, "what %s returns is not known" % name)
        elif o == "err":
            mine = [k for k in s.facts if k[0] == "disc" and k[1][0] == "got" and k[1][1] == m and taken(s, k[1])]
            refused(rep, key, name, f, s, w, bool(mine), hook, eng)
        else:
            ins = {}
            for e in w:
                if e[0] == "insert" and e[1] == m and e[2][0] == kind[0]:
                    ins.setdefault(e[2][1], []).append(e)
            extra = [e for e in w if e[0] != "insert" or e[1] != m or e[2][1] not in wanted]
            odd = eng_odd(eng, hook) or [e for e in w if e[0] == "write" or (e[0] == "insert" and e[2][0] not in ("ic", "exact"))]
            for x in wanted:
                label = "its name" if x == C.NAME else "its alias %d" % (x[1] + 1)
                if x not in ins:
                    (rep.undec if odd else rep.bad)("complete:" + key, "%s succeeds without registering the operation under %s [%s]" % (name, label, f.path))
                    continue
                rep.check(all(e[3] == C.FUNC for e in ins[x]), "complete:" + key, "%s registers something else than its operation under %s [%s]"
                          % (name, label, f.path), {"method": name, "aliases": al, "registered": label})
                free = taken(s, ("got", m, (kind[0], x)))
                if free is None and odd:
                    rep.undec("taken:" + key, "what %s checks before registering is not known: %s" % (name, sorted(map(str, odd))[:3]))
                    continue
                rep.check(free is False, "taken:" + key, "%s registers an operation under %s when that is already taken [%s]" % (name, label, f.path),
                          {"method": name, "aliases": al, "checked": label})
            if extra:
                (rep.undec if odd else rep.bad)("complete:" + key, "%s changes something else than what it registers: %s [%s]" % (name, extra[0][:2], f.path))


def value(rep, cr, f, name, where, n):
    me, other = ("get_constant", "get_variable") if name == "add_constant" else ("get_variable", "get_constant")
    if me not in where or other not in where:
        return
    m, kind = where[me]
    om, okind = where[other]
    outs, eng, hook = C.runs(cr, f, [C.CTX, C.NAME, C.VAL], entries=n, chars=1)
    key = "%s:%d" % (name, n)
    for t, s, w in outs:
        o = C.outcome(t)
        rep.count("paths")
        eqs = clashes(s)
        hit = [k for k, v in list(eqs.items()) + list(clashes(s, "asciieq").items()) if v and k[1] == om]
        got = [k for k in s.facts if k[0] == "disc" and k[1][0] == "got" and k[1][1] in (om, m) and taken(s, k[1])]
        if o is None:
            rep.undec("outcome:" + key, "what %s returns is not known" % name)
        elif o == "err":
            refused(rep, key, name, f, s, w, bool(hit or got), hook, eng)
        else:
            ins = [e for e in w if e[0] == "insert" and e[1] == m and e[2] == (kind[0], C.NAME)]
            extra = [e for e in w if e not in ins]
            odd = eng_odd(eng, hook) or [e for e in w if e[0] == "write"]
            if ins:
                rep.check(ins[-1][3] == C.VAL, "complete:" + key, "%s stores another value than it is given [%s]" % (name, f.path), {"method": name})
            else:
                (rep.undec if odd else rep.bad)("complete:" + key, "%s succeeds without storing the value [%s]" % (name, f.path))
            if extra:
                (rep.undec if odd else rep.bad)("complete:" + key, "%s changes something else than its own name: %s [%s]" % (name, extra[0][:2], f.path))
            for i in range(n):
                k = ("key", om, i)
                if eqs.get(k) is False or taken(s, ("got", om, ("ic", C.NAME))) is False:
                    rep.ok({"method": name, "entry": i, "of": other})
                elif clashes(s, "asciieq").get(k) is False and not asked_more(s, k):
                    rep.bad("clash:" + key, "%s compares its name with that of a %s in ASCII letters only [%s]"
                            % (name, "variable" if other == "get_variable" else "constant", f.path))
                elif only_lengths(s, k):
                    rep.bad("clash:" + key, "%s compares the lengths of its name and of that of a %s, which change with the case of letters [%s]"
                            % (name, "variable" if other == "get_variable" else "constant", f.path))
                elif odd or other_opaque(s, k):
                    rep.undec("clash:" + key, "what %s checks is not known" % name)
                else:
                    rep.bad("clash:" + key, "%s succeeds although a %s has the same name in another letter case [%s]"
                            % (name, "variable" if other == "get_variable" else "constant", f.path))
            if n == 0:
                rep.ok()
            if name == "set_variable":
                prev = t[3] if len(t) > 3 else None
                if prev == ("got", m, (kind[0], C.NAME)):
                    rep.ok({"method": name, "returns": "previous value"})
                elif prev is not None and prev[0] == "agg" and len(prev) == 3:
                    rep.check(taken(s, ("got", m, (kind[0], C.NAME))) is False, "previous:" + key,
                              "set_variable does not return the previous value of the variable [%s]" % f.path)
                elif prev is not None and prev[0] == "agg" and prev[3][0] == "fld" and prev[3][1][0] == "got":
                    rep.ok()
                else:
                    rep.undec("previous:" + key, "what set_variable returns is %s" % show(prev, -3))


def asked_more(s, k):
    """Does the path know more of the two names than their lengths and the comparison of their ASCII letters?"""
    return any((C.contains(x, k) or C.contains(x, C.NAME)) and x[0] not in ("asciieq",) and "len" not in str(x) and not (x[0] == "disc" and x[1][0] == "got")
               and "is_" not in str(x)
               or "is_ascii" in str(x) and "is_ascii_" not in str(x) for x in s.facts)


def only_lengths(s, k):
    """Is all that the path knows of the entry that its name is not as long as the given one?"""
    mine = [(x, v) for x, v in s.facts.items() if C.contains(x, k)]
    size = lambda t: t[0] == "len" or t[0] == "call" and t[1].endswith("::len")
    return bool(mine) and all((x[0], v) in (("eq", ("=", 0)), ("ne", ("=", 1))) and size(x[1]) and size(x[2]) for x, v in mine)


def other_opaque(s, k):
    """Does the path depend on the entry through something that is not understood?"""
    for x in s.facts:
        if C.contains(x, k) and x[0] not in ("iceq", "eq", "ne"):
            return True
    return False
