"""P22: see DESIGN.md."""
import re

import probe
import ranking
from facts import body_refs

NOTE = """Every loop of the library, of the prompt's splitter and of the server's evaluation is given a measure that gets smaller; every call of a function to itself is shown to be made once, or not decided."""


def scope(crates):
    for name, cr in crates.items():
        for f in cr.bodies:
            if name == "prexel" or (f.trait or "").startswith("prexel::") or f.file.endswith("services/evaluator.rs"):
                if not f.d["expn"]:
                    yield cr, f


def run(rep, crates):
    rep.rule("loops: every loop takes from something finite, or counts towards a bound, that nothing in it renews")
    rep.rule("iterators: nothing is collected from an iterator without an end")
    rep.rule("recursion: a function that calls itself does so with what stops it")
    calls = ranking.calls_of(crates.values())
    sums = {}
    for cr in crates.values():
        sums.update(rep.guard("summaries:" + cr.name, ranking.summaries, cr, {f.key: f for f in cr.bodies}) or {})
    n = 0
    for cr, f in scope(crates):
        fns = {g.key: g for g in cr.bodies}
        n += 1
        rep.guard("loops:" + f.path, loops, rep, f, fns, sums, calls)
        rep.guard("iterators:" + f.path, iterators, rep, cr, f)
        rep.guard("recursion:" + f.path, recursion, rep, f, fns, sums, calls)
    rep.count("functions", n)
    for cr in crates.values():
        if cr.name == "prexel":
            rep.guard("mutual", mutual, rep, cr)


def lines(f, blocks):
    out = set()
    for b in blocks:
        for s in f.body.blocks[b][0]:
            if s[0] == "=" and isinstance(s[-1], str):
                m = re.search(r":(\d+)", s[-1])
                if s[-1].startswith(f.file) and m:
                    out.add(int(m.group(1)))
    return "%s:%d" % (f.file, min(out)) if out else f.span


def loops(rep, f, fns, sums, calls):
    if not f.body.loop_heads():
        return
    bad, n = probe.endless(f)
    rep.count("operands of floating-point loops", n)
    if bad is not None:
        rep.bad("loops:%s" % f.path, "%s never returns when its operand is %s: no path leads out of its loop (%s)" % (f.path, bad, f.span))
        return
    L = ranking.Loops(f, fns, sums, calls)
    done, left = L.run()
    for blocks, used in done:
        rep.count("loops that end")
        rep.ok({"loop": lines(f, blocks), "in": f.path, "measure": list(used)})
    for blocks, ce, cb in left:
        rep.count("loops without a measure")
        p = L.stuck(blocks, ce, cb)
        where = lines(f, blocks)
        if p:
            rep.bad("loops:%s" % f.path, "%s can go round forever at %s: nothing it tests is changed on the way round (blocks %s)"
                    % (f.path, where, ", ".join(map(str, p))))
        else:
            rep.undec("loops:%s" % f.path, "no measure was found for the loop of %s at %s" % (f.path, where))


def iterators(rep, cr, f):
    for body in [f.body] + f.promoted:
        for r in body_refs(cr, body):
            name = re.sub(r"(::<.*?>)+$", "", r["fn"]).rsplit("::", 1)[-1]
            if name not in ranking.CONSUME or not r.get("args") or "Iterator" not in r["fn"] + str(r.get("trait")):
                continue
            t = cr.ty(r["args"][0])["s"]
            rep.count("iterators used up")
            if re.search(ranking.ENDLESS, t) and not re.search(ranking.BOUNDS, t) and not ranking.finite(t):
                rep.bad("iterators:%s:%s" % (f.path, name), "%s uses up an iterator without an end: %s of %s" % (f.path, name, t))


def recursion(rep, f, fns, sums, calls):
    L = ranking.Loops(f, fns, sums, calls)
    R = ranking.Recursion(f, L)
    if not R.sites:
        return
    rep.count("functions that call themselves")
    s = R.same()
    if s:
        rep.bad("recursion:" + f.path, "%s calls itself with exactly what it was given (%s)" % (f.path, lines(f, [s[0]])))
        return
    if R.always():
        rep.bad("recursion:" + f.path, "%s calls itself on every path to its end" % f.path)
        return
    b = rep.guard("forever:" + f.path, R.forever)
    if b is not None:
        rep.bad("recursion:" + f.path, "%s calls itself with a value for which it calls itself with the value it had (%s)" % (f.path, lines(f, [b])))
        return
    i = R.once()
    if i is not None:
        rep.ok({"calls itself once": f.path, "by": "argument %d" % (i + 1)})
    else:
        rep.undec("recursion:" + f.path, "%s calls itself; nothing was found that stops it" % f.path)


def mutual(rep, cr):
    """Functions that call each other with nothing between: every path of each leads to the next."""
    must = {}
    fns = {f.key: f for f in cr.bodies}
    for f in cr.bodies:
        dom = f.body.dom()
        rets = [b for b in f.body.rpo() if f.body.term(b)[0] == "return"]
        for b in f.body.rpo():
            t = f.body.term(b)
            if t[0] == "call" and rets and all(b in dom[r] for r in rets):
                r = ranking.callee(t)
                k = r and r.get("rkey")
                if k in fns and k != f.key:
                    must.setdefault(f.key, set()).add(k)
    rep.count("functions looked at for calls of each other", len(fns))
    for k in must:
        seen, work = set(), [k]
        while work:
            for m in must.get(work.pop(), ()):
                if m not in seen:
                    seen.add(m)
                    work.append(m)
        if k in seen:
            rep.bad("recursion:" + fns[k].path, "%s always leads back to itself, through %s" % (fns[k].path, ", ".join(sorted(fns[m].path for m in seen))))
