"""P27: see DESIGN.md."""
import appmodel as A
from absint import Engine, State, c, sym
from panics import show

NOTE = """What the interactive tool does with a line is interpreted for an arbitrary line, once for every number type: every path through the line handler, with the evaluations, the variables set and what is printed on it, and the facts about the line it was taken under."""

COMPARISONS = ("==", "!=", ">=", "<=")
READS = ("trim", "trim_start", "trim_end", "as_str", "deref", "to_string", "to_owned", "clone")

CHANGES = ("trim_matches", "trim_start_matches", "trim_end_matches", "trim_left_matches", "trim_right_matches", "to_lowercase", "to_uppercase",
           "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "repeat")


def is_line(t):
    while isinstance(t, tuple) and t[0] == "call" and len(t) == 3 and t[1].rsplit("::", 1)[-1] in READS:
        t = t[2]
    return t == ("line",)


def side(t):
    """0 for what stands before the sign, 1 for what stands after it, None when that is not known."""
    while isinstance(t, tuple) and t:
        last = t[1].rsplit("::", 1)[-1] if t[0] == "call" and isinstance(t[1], str) else ""
        if t[0] == "call" and len(t) == 3 and last in READS or last in CHANGES and len(t) > 3 and "is_whitespace" in str(t[3]):
            t = t[2]
        elif last in CHANGES and len(t) > 2:
            return last if isinstance(side(t[2]), int) else None
        elif t[0] == "elem" and len(t) == 3 and "split" in str(t[1]):
            i = t[2]
            i = i[1] if isinstance(i, tuple) and i[0] == "c" else i
            return i if i in (0, 1) and "rsplit" not in str(t[1]) else None
        elif t[0] == "fld" and t[2] in (0, 1) and "split_once" in str(t[1])[:400]:
            return t[2]
        else:
            return None
    return None


def pieces(t):
    """The list of all pieces of the line that t is one of, or None."""
    while isinstance(t, tuple) and t:
        if t[0] == "call" and len(t) == 3 and t[1].rsplit("::", 1)[-1] in READS:
            t = t[2]
        elif t[0] == "elem" and len(t) == 3 and t[1][0] in ("collect", "call") and "collect" in str(t[1])[:40] and "::split'" in str(t[1]) and "take" not in str(t[1]):
            return t[1]
        else:
            return None
    return None


def text(t):
    return t[1] if isinstance(t, tuple) and t[0] == "s" else None


LOOSE = ("trim_matches", "trim_end_matches", "trim_start_matches", "to_lowercase", "to_ascii_lowercase", "replace", "trim_left_matches", "trim_right_matches")


def loose(t):
    """Is the text what other lines than itself are turned into, too?"""
    if t[0] == "call" and t[1].rsplit("::", 1)[-1] in LOOSE and len(t) > 2 and isinstance(t[2], tuple):
        return is_line(t[2]) or loose(t[2])
    return False


def line_facts(st):
    """({text: whether the line contains it}, whether the line is `exit`)"""
    has, ex = {}, None
    for k, v in st.facts.items():
        if k[0] == "call" and k[1].rsplit("::", 1)[-1] == "contains" and len(k) == 4 and is_line(k[2]) and v[0] == "=":
            p = k[3]
            p = chr(p[1]) if p[0] == "c" and isinstance(p[1], int) else text(p)
            has[p] = bool(v[1])
        if k[0] == "disc" and k[1][0] == "call" and k[1][1].rsplit("::", 1)[-1] in ("find", "split_once") and is_line(k[1][2]):
            p = k[1][3] if len(k[1]) > 3 else None
            p = chr(p[1]) if p and p[0] == "c" else text(p)
            if v in (("=", 0), ("=", 1)):
                has[p] = v == ("=", 1)
        if k[0] == "call" and len(k) == 4 and is_line(k[2]) and k[1].rsplit("::", 1)[-1] in ("contains", "starts_with", "ends_with") and \
                text(k[3]) == "exit" and v[0] == "=" and ex is None:
            ex = False
        if ex is None and loose(k) and (v == ("=", "exit") or v[0] == "!" and "exit" in v[1]):
            ex = False
        if ex is None and k[0] == "eq" and v[0] == "=" and any(loose(x) for x in k[1:]) and any(text(x) == "exit" for x in k[1:]):
            ex = False
        if is_line(k):
            if v == ("=", "exit"):
                ex = True
            elif v[0] == "=" or v[0] == "!" and "exit" in v[1]:
                ex = False
        if k[0] == "eq" and any(is_line(x) for x in k[1:]) and any(text(x) == "exit" for x in k[1:]) and v[0] == "=":
            ex = bool(v[1])
    return has, ex


def ends(rep, key, v, ex, acts):
    """Does this path of the line handler end the tool, or ought it to?"""
    brk = v[0] == "agg" and v[1].endswith("Option") and v[2] == 1 and v[3][0] == "agg" and v[3][2] == 1
    if v[0] != "agg":
        rep.undec(key + ":exit", "whether the tool goes on after a line is not known")
    elif brk and ex is None:
        rep.undec(key + ":exit", "at which line the tool ends is not known")
    elif brk or ex:
        rep.check(brk and ex is not False and not acts, key + ":exit",
                  "the interactive tool %s [repl]" % ("ends although the line is not `exit`" if brk and ex is False else
                                                     "does not end at `exit`" if not brk else "evaluates or sets something at `exit`"),
                  {"line": "exit", "ends": True})
    else:
        return False
    return True


def lines(rep, crates, name, k):
    r = A.run_command(crates, "Repl", k)
    key = name
    if r is None or not r[0].loops:
        rep.undec(key, "what the interactive tool does with a line was not recognised")
        return
    eng = r[1]
    for v, st, tr, pre in r[0].loops:
        rep.count("paths through the line handler")
        evs = [e[1] for e in tr if e[0] == "eval"]
        sets = [e for e in tr if e[0] == "set"]
        outs = [e[1] for e in tr if e[0] == "out"]
        errs = [e[1] for e in tr if e[0] == "err"]
        has, ex = line_facts(st)
        if ends(rep, key, v, ex, evs or sets):
            continue
        pre_sets = [e for e in pre if e[0] == "set"]
        if evs:
            t = evs[0]
            ok, er = ("fld", t, ("v", 0, 0)), ("fld", t, ("v", 1, 0))
            d = st.facts.get(("disc", t))
            w = None
            if len(evs) > 1:
                w = "a line is evaluated %d times" % len(evs)
            elif not is_line(t[4]):
                w = "what is evaluated is %s, not the line" % show(t[4], -4)
            elif d == ("=", 0):
                mine = [e for e in sets if text(e[2]) == "$result"]
                if len(sets) != 1 or not mine or mine[0][3] != ok:
                    w = "the value of an evaluation does not become $result" if not mine or mine[0][3] != ok else "an evaluation sets another variable"
                elif mine[0][1] != t[2]:
                    w = "$result is set in another context"
                elif ok not in outs:
                    w = "the value is not printed"
            elif d == ("=", 1):
                if sets:
                    w = "a failed evaluation changes %s" % show(sets[0][2], -3)
                elif er not in errs:
                    w = "the error of a failed evaluation is not printed"
            else:
                rep.undec(key + ":eval", "whether the evaluation succeeded is not known on a path")
                continue
            if w is None and not any(e[0] == "set" and text(e[2]) == "$result" and e[1] == t[2] for e in pre_sets):
                w = "$result has no value before the first evaluation"
            rep.check(w is None, key + ":eval", "interactive tool (%s): %s [repl]" % (name, w), {"type": name, "evaluation": "value" if d == ("=", 0) else "error"})
            # only lines that are no assignment are evaluated
            if has.get("=") is not False and not (name == "binary" and any(has.get(p) for p in COMPARISONS)):
                if "=" not in has and not any(p in has for p in COMPARISONS):
                    rep.undec(key + ":which", "which lines are evaluated is not known")
                else:
                    rep.bad(key + ":which", "interactive tool (%s): a line with `=` is evaluated instead of assigned [repl]" % name)
            else:
                rep.ok()
        else:
            w = None
            if len(sets) > 1:
                w = "an assignment sets %d variables" % len(sets)
            for e in sets:
                p = e[3]
                n = pieces(e[2])
                if n is not None and st is not None:
                    lo, hi = eng.rng(st, ("len", n))
                    if hi is None or hi > 2:
                        w = "a line with more than one equals sign is taken for an assignment"
                if p[0] == "fld" and p[2] == ("v", 0, 0) and p[1][0] == "PARSE" and st.facts.get(("disc", p[1])) == ("=", 0):
                    l, r_ = side(e[2]), side(p[1][2])
                    if isinstance(l, str) or isinstance(r_, str):
                        w = "the %s of an assignment is changed by %s" % ("name" if isinstance(l, str) else "number", l if isinstance(l, str) else r_)
                    elif l == 1 or r_ == 0:
                        w = "an assignment gives the name %s the value of %s" % (show(e[2], -5), show(p[1][2], -5))
                    elif l is None or r_ is None:
                        rep.undec(key + ":sides", "which side of the sign is the name is not known")
                    if p[1][1] not in (A.SPEC[name][1], "?"):
                        w = "the value of an assignment is read as %s" % p[1][1]
                else:
                    w = "a variable is set to %s, which is not the number written" % show(p, -5)
            if not sets and not errs:
                w = "a line is dropped without a word"
            for kx, vx in st.facts.items():
                if kx[0] == "disc" and kx[1][0] == "PARSE" and vx == ("=", 1) and not errs:
                    w = "a value that is not a number is dropped without a word"
            rep.check(w is None, key + ":assign", "interactive tool (%s): %s [repl]" % (name, w), {"type": name, "assignment": bool(sets)})
            some = any(has.get(p) is False for p in COMPARISONS)
            if sets and (has.get("=") is False or name == "binary" and any(has.get(p, some) for p in COMPARISONS)):
                rep.bad(key + ":which", "interactive tool (%s): a line that is no assignment sets a variable [repl]" % name)


def rule_types(t, acc):
    """The types of the rules of a splitter, in the order the builder was given them."""
    if isinstance(t, tuple):
        if t and t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("rule", "insert_rule"):
            rule_types(t[2], acc)
            rule = t[-1]
            name = rule[1] if rule[0] == "agg" else "SplitWithOperators" if "SplitWithOperators" in str(rule) else str(rule)
            if t[1].rsplit("::", 1)[-1] == "insert_rule" and t[3] == ("c", 0):
                acc.insert(0, (name, rule))
            else:
                acc.append((name, rule))
        else:
            for x in t:
                rule_types(x, acc)
    return acc


def ends_at(cr, f, ch):
    """Whether that character, after `$`, is certainly left to be read as something else."""
    eng = Engine([cr])
    st = State()
    chars = ("agg", "array", "", 0, (c(ord(ch)), c(ord(" "))))
    st.mem[("REST", 0)] = ("iter", ("arr", chars), "fresh", None, ())
    left = []
    for v, s, _ in eng.analyse(f, [sym(("self",)), c(ord("$")), ("ref", ("REST", 0), ())], st):
        it = s.mem.get(("REST", 0))
        if it is None or it[0] != "iter":
            return False
        at = 0 if it[2] == "fresh" else it[2][1] if isinstance(it[2], tuple) else 2
        left.append(at - (it[3] is not None))
    return bool(left) and all(x == 0 for x in left)


def dollar(rep, crates, name, k):
    """`$result` can be read back: the splitter keeps a name that begins with `$` together."""
    cr = crates["eval"]
    r = A.run_command(crates, "Repl", k)
    toks = {e[1][3] for _, _, tr, _ in r[0].loops for e in tr if e[0] == "eval"} if r else set()
    key = name + ":dollar"
    if len(toks) != 1:
        rep.undec(key, "the splitter of the interactive tool is not known")
        return
    rules = rule_types(toks.pop(), [])
    if not rules:
        rep.undec(key, "the rules of the splitter of the interactive tool are not known")
        return
    for n, rule in rules:
        f = [f for f in cr.impl_methods("prexel::utils::splitter::rules::SplitRule", "split") if f.self_def() == n]
        if not f:
            f = [f for f in cr.bodies if f.name == "split" and f.self_def() == n]
        if f:
            eng = Engine([cr])
            st = State()
            st.mem[("REST", 0)] = sym(("rest",))
            outs = [eng.T(s, eng.strip(s, v)) for v, s, _ in eng.analyse(f[0], [sym(("self",)), c(ord("$")), ("ref", ("REST", 0), ())], st)]
            if outs and all(t[0] == "agg" and t[1].endswith("Outcome") and A.variant(crates["prexel"], t[1].replace("prexel::", "", 1), t[2]) == "Data"
                            for t in outs):
                cut = [ch for ch in "abmxyzABMXYZ0159_" if ends_at(cr, f[0], ch)]
                rep.check(not cut, key, "interactive tool (%s): a name that begins with `$` is read up to the first %s alone, so the variable it was given to cannot be used [%s]" %
                          (name, " or ".join(cut[:4]), f[0].path), {"type": name, "rule": n, "read": "letters, digits and _ after `$`"})
                return
            if all(t[0] == "agg" for t in outs):
                continue
            rep.undec(key, "what %s does with `$` is not known" % n)
            return
        if "SplitWithOperators" in n and "except" not in str(rule):
            break
    rep.bad(key, "interactive tool (%s): no rule of the splitter reads a name that begins with `$`, so $result cannot be used" % name)


def run(rep, crates):
    cr = crates.get("eval")
    if cr is None:
        rep.undec("tool", "the command line tool is not part of the workspace")
        return
    got = A.type_names(cr, next((a["def"] for a in cr.adts.values() if a["def"].rsplit("::", 1)[-1] == "EvalType"), None))
    rep.rule("exit: the tool ends at the line `exit` and nowhere else")
    rep.rule("evaluation: a line is evaluated once, its value printed and kept as $result; a line that fails changes nothing and its error is printed")
    rep.rule("assignment: name = number sets that variable to that number, or the error is printed")
    rep.rule("which: a line is an assignment when it has an equals sign (for binary numbers: and no comparison)")
    rep.rule("dollar: the splitter keeps names that begin with $ together, with the letters, digits and underscores that follow")
    for name, k in (got or {}).items():
        if k is None:
            continue
        rep.guard("line:" + name, lines, rep, crates, name, k)
        rep.guard("dollar:" + name, dollar, rep, crates, name, k)
    if not got:
        rep.undec("names", "the number types of the tool were not recognised")
