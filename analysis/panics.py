"""Judges the panic edges an analysis could not exclude."""


def depends_on_unmodelled(x, known):
    if isinstance(x, tuple) and x:
        if x[0] in ("ret", "hv", "stale"):
            return True
        return any(depends_on_unmodelled(y, known) for y in x if isinstance(y, tuple))
    return False


def judge(rep, entry, key, info, eng, why=None):
    """key = (function, class); info = (site, stack, operands)."""
    site, stack, ops = info
    rep.bad("panic:%s:%s" % (entry, key[1]), "%s can panic: %s in %s at %s%s" % (
        entry, key[1], key[0], site[1], (" on " + ", ".join(show(o) for o in ops[:2])) if ops else ""))


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if d > 3:
        return ".."
    if t[0] == "call":
        return "%s(%s)" % (t[1].rsplit("::", 1)[-1], ", ".join(show(x, d + 1) for x in t[2:]))
    if t[0] in ("c", "s", "arg"):
        return str(t[1]) if t[0] != "arg" else "arg%s" % t[1]
    return "%s(%s)" % (t[0], ", ".join(show(x, d + 1) for x in t[1:]))
