"""P26: see DESIGN.md."""
import appmodel as A
import listing
from absint import Engine, State, sym
from panics import show

NOTE = """The command line tool is interpreted from its parsed arguments to what it prints, once for every command and number type, with the library uninterpreted: the number type and the context of the evaluation, its options and its splitter are read off the terms that reach the output."""

TABLES = {"Constants": {"constants"}, "Functions": {"functions"}, "Operators": {"binary_functions", "unary_functions"}}


def names(rep, cr):
    et = next((a["def"] for a in cr.adts.values() if a["def"].rsplit("::", 1)[-1] == "EvalType"), None)
    got = A.type_names(cr, et) if et else None
    if got is None:
        rep.undec("names", "how the name of a number type is read was not recognised")
        return None
    for n, k in got.items():
        rep.check(k is not None and A.variant(cr, et, k).lower() == n, "name:" + n,
                  "the name %s %s [%s]" % (n, "is refused" if k is None else "selects the type " + A.variant(cr, et, k), et),
                  {"name": n, "selects": A.variant(cr, et, k) if k is not None else None})
    eng = Engine([cr])
    f = [f for f in cr.impl_methods("std::str::FromStr", "from_str") if f.self_def() == et][0]
    for v, st, _ in eng.analyse(f, [sym(("text",))], State()):
        t = eng.T(st, eng.strip(st, v))
        if t[0] == "agg" and t[1].endswith("Result"):
            known = any(v[0] == "=" and v[1] in A.SPEC for k, v in st.facts.items() if k == ("text",))
            rep.check(t[2] == 1 or known, "name:other", "a name that is not a number type is accepted [%s]" % f.path, {"other names": "refused"})
    return {n: k for n, k in got.items() if k is not None}


def evaluation(rep, crates, name, k):
    cr = crates["eval"]
    r = A.run_command(crates, "Eval", k)
    if r is None:
        rep.undec("eval:" + name, "the entry point of the command line tool was not recognised")
        return
    h, eng, states = r
    for st in states:
        rep.count("paths of the evaluation command")
        tr = h.trace(st)
        evs = [e[1] for e in tr if e[0] == "eval"]
        key = "eval:" + name
        if len(evs) != 1:
            rep.bad(key, "with the type %s the expression is evaluated %d times" % (name, len(evs)))
            continue
        t = evs[0]
        w = A.wrong_eval(cr, t, name, "unchecked")
        if w == "?":
            rep.undec(key, "the context of %s is not known" % show(t, -5))
            continue
        if w is None and t[4] != ("expression",):
            w = "what is evaluated is %s, not the expression given" % show(t[4], -4)
        d = st.facts.get(("disc", t))
        outs = [e for e in tr if e[0] in ("out", "err")]
        if w is None:
            if d == ("=", 0) and outs != [("out", ("fld", t, ("v", 0, 0)))]:
                w = "a value is not printed as it is, on the output"
            elif d == ("=", 1) and outs != [("err", ("fld", t, ("v", 1, 0)))]:
                w = "an error is not printed, on the error output"
            elif d is None or d[0] != "=":
                rep.undec(key, "whether the evaluation succeeded is not known where its result is printed")
                continue
        rep.check(w is None, key, "evaluating with the type %s: %s [main]" % (name, w),
                  {"type": name, "context": show(t[2], -3), "prints": "value" if d == ("=", 0) else "error"})


def repl(rep, crates, name, k):
    cr = crates["eval"]
    r = A.run_command(crates, "Repl", k)
    key = "repl:" + name
    if r is None or not r[0].loops:
        rep.undec(key, "what the interactive tool does with a line was not recognised")
        return
    seen = 0
    for v, st, tr, pre in r[0].loops:
        for e in tr:
            if e[0] == "eval":
                seen += 1
                w = A.wrong_eval(cr, e[1], name, "unchecked")
                if w == "?":
                    rep.undec(key, "the context of %s is not known" % show(e[1], -5))
                else:
                    rep.check(w is None, key, "the interactive tool with the type %s: %s [repl]" % (name, w), {"type": name, "context": show(e[1][2], -3)})
    rep.check(seen, key + ":none", "the interactive tool with the type %s evaluates nothing" % name)


def lists(rep, crates, name, k):
    kind, ty = A.SPEC[name]
    kind = kind or "unchecked"
    for cmd, tables in TABLES.items():
        r = A.run_command(crates, cmd, k)
        key = "list:%s:%s" % (cmd, name)
        if r is None:
            rep.undec(key, "the entry point of the command line tool was not recognised")
            continue
        h, eng, states = r
        for st in states:
            ls = [e for e in h.trace(st) if e[0] == "list"]
            rep.count("paths of the list commands")
            if any(e[2][0] != "CTX" for e in ls):
                rep.undec(key, "the context of a list is not known")
                continue
            bad = [e for e in ls if e[2][1:3] != (kind, ty)]
            w = "lists the operations of the %s context of %s" % bad[0][2][1:3] if bad else None
            if w is None and {e[1] for e in ls} != tables:
                w = "reads %s" % (", ".join(sorted({e[1] for e in ls})) or "nothing")
            rep.check(w is None, key, "the command %s with the type %s %s [list]" % (cmd.lower(), name, w), {"command": cmd, "type": name})
        rep.guard(key + ":entries", entries, rep, crates, cmd, tables, name, k)


def entries(rep, crates, cmd, tables, name, k):
    """Every entry of the tables is printed."""
    h, eng, states = A.run_command(crates, cmd, k, listing.Listing())
    for st in states:
        rep.count("paths of the list commands, with entries")
        w = listing.printed(h.trace(st), tables)
        if w is not None and not w[1]:
            rep.undec("list:%s:%s:entries" % (cmd, name), w[0])
            continue
        rep.check(w is None, "list:%s:entries" % cmd, "the command %s: %s [list]" % (cmd.lower(), w and w[0]), {"command": cmd, "entries": "all printed"})


def run(rep, crates):
    cr = crates.get("eval")
    if cr is None:
        rep.undec("tool", "the command line tool is not part of the workspace")
        return
    rep.rule("names: each documented name selects its number type")
    got = []
    rep.guard("names", lambda r: got.append(names(r, cr)), rep)
    rep.rule("eval: an expression is evaluated once, as given, with the context, options and literals of its number type; its value or error is printed")
    rep.rule("repl: the interactive tool evaluates with the context, options and literals of its number type")
    rep.rule("list: the list commands read the tables of the context the type is evaluated with, and print the name of every entry and the value of every constant")
    for name, k in (got[0] if got and got[0] else {}).items():
        rep.guard("eval:" + name, evaluation, rep, crates, name, k)
        rep.guard("repl:" + name, repl, rep, crates, name, k)
        rep.guard("list:" + name, lists, rep, crates, name, k)
