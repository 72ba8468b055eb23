"""P37: see DESIGN.md."""
import os
import appmodel as A
import p27 as P
import replmodel as R

NOTE = """The loop of the prompt is interpreted from its start with every kind of key at every turn, for histories of zero to three lines (four in the thorough tier) and texts of up to two letters (three), until no new state of the loop comes up, for every ASCII character as the only one of a line, and for one long session with more lines than a history of 150 holds; the state is the line, the history, the place in it and whatever else the loop keeps."""
DEEP = bool(os.environ.get("VERIF_DEEP"))
LETTERS = {0: ("a", " "), None: ("é",)}
EVERY = tuple(chr(i) for i in range(0, 128) if i != 32) + ("é", "Ω", "名", "\u200b", "\u00a0")
RICH = {0: ("a", " "), None: ("é", " ", "a")}


def run(rep, crates):
    cr = crates["eval"]
    rep.rule("line: the line that is evaluated at the enter key is what was typed or recalled since the last one, less what was deleted; once, and at no other key")
    rep.rule("recall: the key up shows the line before, the key down the line after, and an empty line after the last; at the ends nothing happens and nothing fails")
    rep.rule("history: the history has the last lines that were entered, up to its size, in order, without blank ones and without a line that repeats the one before")
    rep.rule("shown: what the prompt shows is the line")
    rep.rule("exit: a line ends the tool exactly when it is `exit`; after any other the loop goes on as after an evaluation")
    rep.rule("end: the tool ends at the line exit and the escape key, and at no other key")
    cases = [(0, RICH, 3), (1, RICH, 3), (2, LETTERS, 2), (3, LETTERS, 2)]
    if DEEP:
        cases += [(2, RICH, 2), (4, LETTERS, 2), (3, LETTERS, 3), (5, {0: ("a",), None: ("é",)}, 2)]
    flows = set()
    rep.guard("lines", handler, rep, crates, flows)
    for cap, letters, n in cases:
        rep.guard("history:%d" % cap, one, rep, cr, cap, letters, n, flows)
    # every ordinary letter and control character as the only one of a line; lines that differ in case only
    rep.guard("letters", one, rep, cr, 0, {0: EVERY, None: ()}, 1, flows)
    rep.guard("case", one, rep, cr, 2, {0: ("a", "A"), None: ()}, 1, flows)
    for cap, lines in ((150, 152),) + (((1000, 1003),) if DEEP else ()):
        rep.guard("history:%d" % cap, one, rep, cr, cap, {}, 0, flows, script(lines))
    rep.guard("history:large", one, rep, cr, 2 ** 64 - 1, {None: ()}, 0, flows)
    rep.guard("history:default", one, rep, cr, None, {None: ()}, 0, flows)


def handler(rep, crates, flows):
    """What the handler of a line answers."""
    cr = crates["eval"]
    got = A.type_names(cr, next((a["def"] for a in cr.adts.values() if a["def"].rsplit("::", 1)[-1] == "EvalType"), None))
    for name, k in (got or {}).items():
        if k is None:
            continue
        r = A.run_command(crates, "Repl", k)
        if r is None or not r[0].loops:
            rep.undec("line:" + name, "what the interactive tool does with a line was not recognised")
            continue
        if "('history',)" in str(r[0].cli):
            if not r[0].sizes:
                rep.undec("size:" + name, "which size the history has is not known")
            elif any("('history',)" in str(t) and t != ("history",) for t in r[0].sizes):
                rep.undec("size:" + name, "whether the history has the size that was asked for is not known")
            else:
                rep.check(r[0].sizes == {("history",)}, "size:" + name, "the history has another size than was asked for [repl]", {"type": name})
        for v, st, tr, _ in r[0].loops:
            rep.count("paths through the handler of a line")
            if not P.ends(rep, "line:" + name, v, P.line_facts(st)[1], []) and v[0] == "agg" and v[1].endswith("Option") and v[2] == 1:
                flows.add("continue")


def script(lines):
    """Enter so many different lines, and recall them all"""
    out = []
    for i in range(lines):
        out += [("Char", chr(ord("a") + i % 26)), ("Char", chr(ord("a") + i // 26 % 26)), ("Char", chr(ord("A") + i // 676)), ("Enter",)]
    return out + [("Up",)] * (lines + 1) + [("Down",)] * 3 + [("Esc",)]


def one(rep, cr, cap, letters, n, flows, keys=None):
    h, problem = R.explore(cr, cap, letters, n, flows=flows, script=keys)
    key = "history of %s: " % cap
    if problem:
        (rep.bad if "not found" in problem else rep.undec)("anchor:%s" % problem, problem)
        return
    rep.count("states of the prompt", len(h.seen))
    rep.count("keys interpreted", h.steps)
    for k, msg in h.bad.items():
        if tainted(h) and not k.startswith("size"):
            rep.undec(k, "%s, as far as known (%s)" % (msg, sorted(tainted(h))[:3]))
        else:
            rep.bad(k, msg + " (history of %s)" % cap)
    if h.odd:
        rep.undec("odd:%s" % cap, "not followed: %s" % sorted(h.odd)[:4])
    elif h.screen_odd:
        rep.undec("screen:%s" % cap, "what is shown is not known")
    if not h.seen and not h.bad:
        rep.undec("none:%s" % cap, "no key is read")
    for k, m in h.kinds.items():
        for i in range(m if not h.bad else 0):
            rep.ok({"history": cap, "key": k, "states": m} if i == 0 else None)


def tainted(h):
    return {n for n in getattr(h, "unmodelled", {}) if n not in ("Atomic::new",)}
