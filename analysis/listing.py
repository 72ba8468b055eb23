"""What a list of the operations or constants of a context shows: the tables of the context are given two entries each, with a name and a value of
which nothing is known (the first without description and aliases, the second with a description and two aliases), and every list handed back or
printed is compared with them."""
import appmodel as A
import models
from absint import c, opt_none, opt_some, sym

TABLES = ("variables", "constants", "functions", "binary_functions", "unary_functions")
ALTER = ("trunc", "round", "floor", "ceil", "abs", "neg", "normalize", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase",
         "replace", "trim", "trim_start_matches", "trim_end_matches", "trim_matches", "repeat", "len", "take", "truncate", "get", "chars", "nchars",
         "skip", "rev", "first", "last", "nth", "strip_prefix", "strip_suffix", "to_uppercase", "escape_debug", "escape_default", "split",
         "new_debug", "new_lower_exp", "new_upper_exp", "new_lower_hex", "new_binary", "trim_start", "trim_end", "split_at", "substr", "index", "pop",
         "remove", "next", "split_whitespace", "splitn", "rsplit", "rsplitn", "filter", "take_while", "skip_while", "to_f64", "to_i128", "to_i64")


def array(items):
    return ("agg", "array", "", 0, tuple(items))


class Listing(A.Apps):
    """The tables have entries: ("key", table, i) is the name of the i-th entry, ("val", table, i) what it stands for."""

    def on_call(self, eng, st, name, args, ctx):
        last = name.rsplit("::", 1)[-1]
        if args and last in ("iter", "into_iter", "keys", "values", "len", "is_empty"):
            v = eng.strip(st, args[0])
            t = eng.T(st, v) if v[0] != "iter" else ("", )
            if t[0] == "TABLE" and t[1] in TABLES:
                ks = [sym(("key", t[1], i)) for i in range(2)]
                vs = [sym(("val", t[1], i)) for i in range(2)]
                if last == "len":
                    return [(c(2), st)]
                if last == "is_empty":
                    return [(c(0), st)]
                items = ks if last == "keys" else vs if last == "values" else [("agg", "tuple", "", 0, p) for p in zip(ks, vs)]
                return [(("iter", ("arr", array(items)), "fresh", None, ()), st)]
        if len(args) == 1 and last in ("description", "aliases"):
            t = eng.T(st, eng.strip(st, args[0]))
            if t[0] == "val":
                if t[2] == 0:
                    return [(opt_none(), st)]
                if last == "description":
                    return [(opt_some(sym(("description", t))), st)]
                return [(opt_some(array([sym(("alias", t, i)) for i in range(2)])), st)]
        if last.startswith("sort") and name.split("::")[0] in ("slice", "Vec"):
            return [(A.UNIT, st)]                     # the order of a list is not looked at
        if name == "Iterator::flatten" and args:
            it = eng.strip(st, args[0])
            if it[0] == "iter" and models.exact(it):
                out = []
                for xs, s in models.exact_all(eng, st, it, ctx, (ctx.frame, ctx.block, "flat")):
                    xs = [eng.strip(s, x) for x in xs]
                    if not all(x[0] == "agg" and x[1] == "array" for x in xs):
                        out = None
                        break
                    out.append((("iter", ("arr", array(y for x in xs for y in x[4])), "fresh", None, ()), s))
                if out is not None:
                    return out
        if last == "extend" and len(args) == 2:
            loc, path, v = models.vec_of(eng, st, args[0])
            it = eng.strip(st, args[1])
            if loc is not None and v[0] == "vec" and v[2] == "empty" and it[0] == "iter" and models.exact(it):
                out = []
                for xs, s in models.exact_all(eng, st, it, ctx, (ctx.frame, ctx.block, "ext")):
                    eng.write_loc(s, loc, path, v[:3] + (v[3] + tuple(xs),) + v[4:])
                    out.append((A.UNIT, s))
                return out
        return super().on_call(eng, st, name, args, ctx)


def mentions(t, what):
    if t == what:
        return True
    return isinstance(t, tuple) and any(mentions(x, what) for x in t)


def lossy(t):
    """Whether a term is known to have lost or changed something of what it is made from."""
    if not isinstance(t, tuple) or not t:
        return False
    if isinstance(t[0], str):
        last = t[1].rsplit("::", 1)[-1] if t[0] in ("call", "ret") and len(t) > 1 and isinstance(t[1], str) else t[0]
        if last in ALTER or t[0] == "iter" and any(x in ALTER for x in t[2:]):
            return True
    return any(lossy(x) for x in t)


def precise(t):
    """Whether a text is that of a value written with a precision: bit 28 of the options of a placeholder, which follow its mark in the template."""
    if isinstance(t, tuple) and len(t) == 3 and t[0] == "fmt" and isinstance(t[1], tuple) and t[1][0] == "s":
        w = t[1][1]
        return any(ch == "\ufffd" and i + 4 < len(w) and ord(w[i + 4]) & 0x10 for i, ch in enumerate(w))
    return False


WHOLE = ("fmt", "agg", "to_string", "add", "concat", "append", "clone", "as_str", "to_owned", "pad_right", "push_str", "join", "collect", "deref", "borrow",
         "from", "into", "as_ref")


def intact(t, want):
    """Whether a text is made of another one, with that as a whole."""
    if t == want:
        return True
    if not isinstance(t, tuple) or not t or precise(t):
        return False
    n = t[1].rsplit("::", 1)[-1] if t[0] in ("call", "ret") and len(t) > 1 and isinstance(t[1], str) else t[0]
    return n in WHOLE and any(intact(x, want) for x in t[1:])


def rows(t, acc):
    """The structures a term is made of that hold something of an entry."""
    if isinstance(t, tuple) and t:
        if t[0] == "agg" and isinstance(t[1], str) and t[1] not in ("", "tuple", "array") and "::option::" not in t[1] and "::result::" not in t[1]:
            acc.append(t)
            return acc
        for x in t:
            rows(x, acc)
    return acc


def text(t):
    t = A.plain(t)
    while t[0] == "agg" and len(t) == 4 and t[1].rsplit("::", 1)[-1] in ("Cow",):
        t = A.plain(t[3])
    return t


def show_part(cr, row, field):
    a = cr.adts.get(row[1]) or next((a for a in cr.adts.values() if a["def"] == row[1]), None)
    if a is None:
        return None
    names = [f[0] for f in a["variants"][0][1]]
    return row[3 + names.index(field)] if field in names and 3 + names.index(field) < len(row) else None


def many(t):
    """The elements of a known vector or array, or None."""
    if t[0] in ("default", "vec0"):
        return []
    if t[0] == "vec" and isinstance(t[1], tuple) and t[1] and t[1][0] == "vs":
        return list(t[1][2:])
    if t[0] == "agg" and t[1] == "array":
        return list(t[3])
    if t[0] == "vec" and isinstance(t[1], tuple) and t[1][:1] == ("new",):
        return []
    if t[0] == "agg" and t[1] == "" and t[2] == 0:
        return list(t[3:])
    return None


def wrong(cr, payload, tables):
    """(what is wrong with a list that is handed back, whether that is certain), or None"""
    got = many(payload)
    if got is None:
        return ("what is in the list is not known", False)
    left = [(t, i) for t in sorted(tables) for i in range(2)]
    for item in got:
        rs = rows(item, [])
        own = [k for k in left if mentions(item, ("key",) + k) or mentions(item, ("val",) + k)]
        if len(rs) != 1 or len(own) != 1:
            return ("an entry of the list is not known", False)
        k = own[0]
        left.remove(k)
        val = ("val",) + k
        for field in ("name", "value", "description", "aliases"):
            x = show_part(cr, rs[0], field)
            if x is None:
                continue
            if field == "aliases":
                want, have = [("alias", val, i) for i in range(2 * k[1])], many(x)
                if have is None:
                    if lossy(x):
                        return ("the other names of an operation are not all listed", True)
                    return ("the other names of an operation are not known", False)
                if sorted(map(str, map(text, have))) != sorted(map(str, want)):
                    return ("the other names of an operation are not those listed", len(have) < len(want) or any(map(lossy, have)))
                continue
            if field == "description":
                if k[1] == 0:
                    continue
                want, x = ("description", val), x[3] if x[0] == "agg" and "::option::" in x[1] and len(x) == 4 else x
                if x[0] == "agg" and "::option::" in x[1]:
                    return ("the description of an operation is left out", True)
            else:
                want = ("key",) + k if field == "name" else val
            if text(x) != want:
                return ("the %s of an entry is not listed as it is" % field, lossy(x) or precise(text(x)) or not mentions(x, want))
    if left:
        return ("an entry of the table is left out", True)
    return None


def printed(trace, tables):
    """The same of a list that is printed."""
    outs = [e[1] for e in trace if e[0] == "out"]
    unknown = [t for t in outs if not isinstance(t, tuple) or not any(mentions(t, (w, tb, i)) for w in ("key", "val") for tb in tables for i in range(2))]
    unknown = [t for t in unknown if not (t[0] in ("s", "default"))]
    for tb in sorted(tables):
        for i in range(2):
            for w, what in (("key", "name"), ("val", "value")):
                if w == "val" and tb not in ("constants", "variables"):
                    continue
                k = (w, tb, i)
                has = [t for t in outs if mentions(t, k)]
                if any(text(t) == k or intact(t, k) for t in has):
                    continue
                if has and all(lossy(t) or precise(text(t)) for t in has):
                    return ("the %s of an entry is not printed as it is" % what, True)
                if not has and not unknown:
                    return ("the %s of an entry is left out" % what, True)
                if not has and any(lossy(t) for t in unknown):
                    return ("the %s of an entry may not be printed as it is" % what, False)
    return None
