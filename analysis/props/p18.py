"""P18: see DESIGN.md."""
import os
import ctxmodel as C

NOTE = """The registration methods of the default context are interpreted, as built with debug assertions, for a name of zero to three unknown characters (five in the thorough tier); what a path requires of each character decides which names it lets through."""
DEEP = bool(os.environ.get("VERIF_DEEP"))


def run(rep, crates):
    cr = crates["prexel"]
    rep.rule("refused: no path that changes the context, or succeeds, lets a blank name through, or one with whitespace or a control character")
    rep.rule("accepted: no path refuses another name because of its characters")
    ms = C.methods(cr)
    for add in list(C.ADDERS) + list(C.SETTERS):
        for name in (add, add + "_as"):
            if name in ms:
                for n in range(6 if DEEP else 4):
                    rep.guard("%s:%d" % (name, n), method, rep, cr, ms[name], name, n)


def method(rep, cr, f, name, n):
    args = [C.CTX, C.NAME, C.VAL] if name in C.SETTERS else [C.CTX, C.FUNC, C.NAME][:f.body.argc]
    outs, eng, hook = C.runs(cr, f, args, chars=n)
    odd = [x for x in hook.odd if x.startswith("str::") or x.startswith("String::")]
    for t, s, w in outs:
        rep.count("paths")
        o = C.outcome(t)
        if o == "ok" or w:
            key = "refused:%s:%d" % (name, n)
            if n == 0:
                (rep.undec if odd else rep.bad)(key, "%s accepts an empty name [%s]" % (name, f.path))
                continue
            wit = C.witness(s, n, C.BAD)
            if wit not in (None, "?") and all(x.endswith("::len") for x in odd) and n > 1:
                # what it asks of the length of the name a longer one meets, which has the same characters in it
                own = [k for k in s.facts if k[0] not in ("rng", "lt", "le", "gt", "ge", "eq", "ne", "len") and not (k[0] == "call" and k[1].endswith("::len"))]
                if not odd or C.long_enough(s, n, own):
                    rep.bad(key, "%s accepts a name with %r in it [%s]" % (name, wit, f.path))
                else:
                    rep.undec(key, "what %s requires of the length of a name is not known" % name)
                continue
            if wit is None:
                rep.ok({"method": name, "characters": n})
            elif wit == "?" or odd:
                rep.undec(key, "what %s requires of a name is not known" % name)
            else:
                rep.bad(key, "%s accepts the name %r [%s]" % (name, wit, f.path))
        elif o == "err":
            if n == 0:
                rep.ok()
                continue
            wit = C.witness(s, n, C.GOOD)
            if wit is None:
                rep.ok()
            elif wit == "?" or odd:
                rep.undec("accepted:%s:%d" % (name, n), "what %s requires of a name is not known" % name)
            elif any(k[0] in ("disc", "iceq") or "'key'" in str(k) for k in s.facts):
                rep.ok()
            else:
                rep.bad("accepted:%s:%d" % (name, n), "%s refuses the name %r [%s]" % (name, wit, f.path))
        else:
            rep.undec("outcome:%s:%d" % (name, n), "what %s returns is not known" % name)
