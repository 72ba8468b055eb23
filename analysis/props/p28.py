"""P28: see DESIGN.md."""
import appmodel as A
import listing
from absint import Engine, State, sym
from panics import show

NOTE = """The function of the server that answers a request is interpreted for every number type (and none), with and without variables, with an arbitrary expression and two arbitrary variables; the library is uninterpreted, and what it is asked is read off the path."""


def parsed(v, ty, i, facts):
    """Whether v is the number written as the value of variable i, in the type ty."""
    if ty == "Binary" and v[0] == "agg" and len(v) == 4 and v[1].rsplit("::", 1)[-1] == "Binary":
        v, ty = v[3], "i128"
    if not (v[0] == "fld" and v[2] == ("v", 0, 0) and v[1][0] == "PARSE"):
        return False
    return v[1][1] in (ty, "?") and A.plain(v[1][2]) == ("val", i) and facts.get(("disc", v[1])) == ("=", 0)


def mentions(t, what):
    if t == what:
        return True
    return isinstance(t, tuple) and any(mentions(x, what) for x in t)


def parses(t, acc=None):
    acc = [] if acc is None else acc
    if isinstance(t, tuple):
        if t and t[0] == "PARSE":
            acc.append(t)
        for x in t:
            parses(x, acc)
    return acc


ALTER = ("trunc", "round", "floor", "ceil", "abs", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim_matches",
         "replace", "trim_start_matches", "trim_end_matches", "repeat", "len", "neg")


def altered(t):
    """Whether a written value is not the text of the value: formatted, rounded or changed."""
    while isinstance(t, tuple) and t and t[0] == "call" and len(t) == 3 and t[1].rsplit("::", 1)[-1] in ("to_string", "clone", "as_str", "to_owned"):
        t = t[2]
    return isinstance(t, tuple) and t and (t[0].startswith("new_") or t[0] in ALTER or t[0] == "fmt" and "call" not in str(t) or
                                           t[0] == "call" and t[1].rsplit("::", 1)[-1] in ALTER)


COMPUTE = ("abs", "neg", "trunc", "round", "floor", "ceil", "normalize", "min", "max", "add", "sub", "mul", "div", "rem", "not", "and", "or", "xor", "shl",
           "shr", "clamp", "signum", "wrapping_neg", "wrapping_abs", "unsigned_abs", "rescale", "round_dp", "trunc_with_scale", "conj", "pow", "powi", "fract")


def recomputed(v):
    """Whether the value of a variable is computed from the number that was read, by an operation that changes some numbers."""
    while isinstance(v, tuple) and v and v[0] == "agg" and len(v) == 4:
        v = v[3]
    if not isinstance(v, tuple) or not v:
        return False
    n = v[1].rsplit("::", 1)[-1] if v[0] in ("call", "ret") and len(v) > 1 and isinstance(v[1], str) else v[0]
    return n in COMPUTE and any(x[1][0] == "PARSE" for x in payloads(v))


def payloads(t):
    if isinstance(t, tuple) and t:
        if t[0] == "fld" and len(t) == 3 and isinstance(t[1], tuple) and t[1] and t[1][0] == "PARSE":
            yield t
        for x in t:
            yield from payloads(x)


def request(rep, cr, f, name, k, variables, items):
    key = "%s%s" % (name or "default", ":variables" if variables else "")
    spec = name or "decimal"
    ty = A.SPEC[spec][1]
    h, eng, outs = A.run_request(cr, f, k, variables, items)
    what = "a request %s%s" % ("for " + name if name else "without a type", " with variables" if variables else "")
    for t, st in outs:
        rep.count("paths of the evaluation of a request")
        tr = h.trace(st)
        evs = [e[1] for e in tr if e[0] == "eval"]
        sets = [e for e in tr if e[0] == "set"]
        failed = [x[1] for x, v in st.facts.items() if x[0] == "disc" and v == ("=", 1) and x[1][0] in ("PARSE", "call") and
                  (x[1][0] == "PARSE" or x[1][1] == "set_variable")]
        if t[0] != "agg" or not t[1].endswith("Result"):
            rep.undec(key, "what is handed back on a path is not known")
            continue
        if not evs or failed:
            if not failed:
                rep.undec(key, "why a path evaluates nothing is not known")
                continue
            w = None
            if evs:
                w = "is evaluated although a variable could not be set"
            elif t[2] != 1:
                w = "succeeds although a variable could not be set"
            elif not any(mentions(t[3], ("fld", x, ("v", 1, 0))) for x in failed):
                w = "hides the error of a variable that could not be set"
            rep.check(w is None, key + ":failed", "%s %s [%s]" % (what, w, f.path), {"request": key, "refused": show(failed[0], -3)})
            continue
        w = None
        t0 = evs[0]
        if len(evs) > 1:
            w = "is evaluated %d times" % len(evs)
        else:
            w = A.wrong_eval(cr, t0, spec, "checked")
            if w == "?":
                rep.undec(key, "the context of %s is not known" % show(t0, -5))
                continue
        if w is None and t0[4] != ("expression",):
            w = "evaluates %s, not its expression" % show(t0[4], -5)
        if w is None and any(e[1] != t0[2] for e in sets):
            w = "sets its variables in a context that is not the one evaluated"
        if w is None:
            last = {}
            for e in sets:
                last[e[2]] = e[3]
            for i in range(items if variables else 0):
                v = last.pop(("key", i), None)
                if v is None:
                    w = "does not set one of its variables"
                elif not parsed(v, ty, i, st.facts):
                    if any(p[1] not in (ty, "i128" if ty == "Binary" else ty, "?") for p in parses(v)):
                        w = "reads the value of a variable as %s" % parses(v)[0][1]
                    elif recomputed(v):
                        w = "gives a variable the value %s" % show(v, -6)
                    elif not mentions(v, ("val", i)) or mentions(v, ("val", 1 - i)) or v[0] == "fld" and v[1][0] == "PARSE":
                        w = "gives a variable the value %s" % show(v, -6)
                    else:
                        rep.undec(key, "whether %s is the value of the variable is not known" % show(v, -6))
            if w is None and last:
                if variables and any(mentions(x, ("vars",)) or x[0] not in ("s", "key") for x in last):
                    rep.undec(key, "which variables are set is not known")
                else:
                    w = "sets the variable %s" % show(list(last)[0], -5)
        d = st.facts.get(("disc", t0))
        if w is None:
            got = A.plain(t[3])
            if d == ("=", 0) and (t[2] != 0 or got != ("fld", t0, ("v", 0, 0))):
                w = "does not answer with the value of its expression"
            elif d == ("=", 1) and (t[2] != 1 or got != ("fld", t0, ("v", 1, 0))):
                w = "does not answer with the error of its evaluation"
            elif d is None or d[0] != "=":
                rep.undec(key, "whether the evaluation succeeded is not known on a path")
                continue
        rep.check(w is None, key, "%s %s [%s]" % (what, w if w is None or w.split(" ")[0] in ("is", "sets", "gives", "does", "evaluates") else ": " + w, f.path),
                  {"request": key, "answer": "value" if d == ("=", 0) else "error", "context": show(t0[2], -3)})


class Wrote:
    """What is written to a formatter."""

    def __init__(self):
        self.wrote = []

    def on_call(self, eng, st, name, args, ctx):
        if name.rsplit("::", 1)[-1] in ("write_fmt", "write_str", "pad", "write_char"):
            self.wrote.append(A.plain(eng.T(st, eng.strip(st, args[1]))))
        return None


def values(rep, cr):
    """The text of the value of a variable is the text or number of the request."""
    a = A.adt(cr, "Variable")
    fs = [f for f in cr.impl_methods("std::fmt::Display", "fmt") if a and f.self_def() == a["def"]]
    if len(fs) != 1:
        rep.undec("values", "how the value of a variable is written was not recognised")
        return
    for i, (n, fields) in enumerate(a["variants"]):
        if len(fields) != 1:
            rep.undec("values:" + n, "a value with %d parts" % len(fields))
            continue
        ft = cr.ty(fields[0][1])["s"]
        rep.check(ft not in ("f32", "i8", "u8", "i16", "u16", "i32", "u32", "half::f16"), "values:" + n,
                  "the value of a variable (%s) is read as an %s, which does not hold every number that can be written [%s]" % (n, ft, a["def"]), {"value": n, "read as": ft})
        h = Wrote()
        eng = Engine([cr], hooks=h)
        p = ("payload",)
        for v, st, _ in eng.analyse(fs[0], [("agg", "adt", a["def"], i, (sym(p),)), sym(("f",))], State()):
            t = eng.T(st, eng.strip(st, v))
            args = [A.plain(x) for x in t[2:] if x != ("f",)] if t[0] == "call" else []
            if t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("write_fmt", "write_str", "pad", "fmt") and args == [p]:
                rep.ok({"value": n, "written": "as it is"})
            elif h.wrote == [p]:
                rep.ok({"value": n, "written": "as it is"})
            elif len(h.wrote) == 1 and (altered(h.wrote[0]) or h.wrote[0][0] in ("s", "c")):
                rep.bad("values:" + n, "the value of a variable (%s) is not read as it was written [%s]" % (n, fs[0].path))
            else:
                rep.undec("values:" + n, "how the value of a variable is written was not recognised")


TABLES = {"get_constants": {"constants"}, "get_functions": {"functions"}, "get_operators": {"binary_functions", "unary_functions"}}


def lists(rep, cr, name, k):
    """The lists of the server read the tables of the context a request of that type is evaluated with."""
    kind, ty = A.SPEC[name or "decimal"]
    kind = kind or "checked"
    gf, nt = A.adt(cr, "GetFunctions"), A.adt(cr, "NumberType")
    for n, tables in TABLES.items():
        key = "list:%s:%s" % (n, name or "default")
        f = A.endpoint(cr, n)
        if f is None or gf is None:
            rep.undec(key, "the handler of the list was not recognised")
            continue
        v = A.some(("agg", "adt", nt["def"], k, ())) if k is not None else A.NONE
        q = ("agg", "adt", gf["def"], 0, tuple(v if nt["def"] in cr.ty(t)["s"] else sym((m,)) for m, t, _ in gf["variants"][0][1]))
        h, eng, outs = A.run_endpoint(cr, f, q)
        for t, st in outs:
            rep.count("lists of the server")
            ls = [e for e in h.trace(st) if e[0] == "list"]
            if any(e[2][0] != "CTX" for e in ls) or not ls:
                rep.undec(key, "the context of a list is not known")
                continue
            bad = [e for e in ls if e[2][1:3] != (kind, ty)]
            w = "lists the %s operations of %s" % bad[0][2][1:3] if bad else None
            if w is None and {e[1] for e in ls} != tables:
                w = "reads %s" % ", ".join(sorted({e[1] for e in ls}))
            rep.check(w is None, key, "%s for the type %s %s [%s]" % (n, name or "that is not named", w, f.path), {"list": n, "type": name})
        rep.guard(key + ":entries", entries, rep, cr, f, n, q, tables, name)


def entries(rep, cr, f, n, q, tables, name):
    """Every entry of the tables is handed back, as it is."""
    h, eng, outs = A.run_endpoint(cr, f, q, hooks=listing.Listing())
    for t, st in outs:
        rep.count("lists of the server, with entries")
        key = "list:%s:entries" % n
        w = listing.wrong(cr, t[3], tables) if t[0] == "REPLY" and t[2] == "json" else ("what is handed back is not known", False)
        if w is not None and not w[1]:
            rep.undec("%s:%s" % (key, name or "default"), w[0])
            continue
        rep.check(w is None, key, "%s: %s [%s]" % (n, w and w[0], f.path), {"list": n, "type": name, "entries": "all handed back"})


def run(rep, crates):
    cr = crates.get("prexel_server") or crates.get("prexel-server")
    if cr is None:
        rep.undec("server", "the server is not part of the workspace")
        return
    f = A.service(cr)
    if f is None or A.adt(cr, "NumberType") is None:
        rep.undec("server", "the function that answers a request was not recognised")
        return
    rep.rule("names: each documented name selects its number type, and a request that names none is evaluated with decimals")
    rep.rule("evaluation: a request is evaluated once, as given, with the context, options and literals of its number type, and answered with the result")
    rep.rule("variables: every variable of a request is set under its own name to its own value, read as a number of that type, before the evaluation")
    rep.rule("failed: a variable that cannot be set is answered with the error, and nothing is evaluated")
    rep.rule("list: operators, functions and constants are listed from the context a request of that type is evaluated with, every entry with its name, value, description and aliases")
    got = []
    rep.guard("names", lambda r: got.append(A.wire_names(cr, "NumberType")), rep)
    names = got[0] if got else None
    if names is None:
        rep.undec("names", "how the name of a number type is read was not recognised")
        vs = [n.lower() for n, _ in A.adt(cr, "NumberType")["variants"]]
        names = {n: vs.index(n) for n in A.SPEC if n in vs}
    else:
        for n, k in names.items():
            rep.check(k is not None, "name:" + n, "the name %s of a number type is refused" % n, {"name": n, "selects": k})
    import os
    items = 3 if os.environ.get("VERIF_DEEP") else 2
    for n, k in [(None, None)] + sorted(names.items()):
        if n is not None and k is None:
            continue
        for variables in (False, True):
            rep.guard("request:%s" % n, request, rep, cr, f, n, k, variables, items)
        rep.guard("list:%s" % n, lists, rep, cr, n, k)
    rep.guard("values", values, rep, cr)
