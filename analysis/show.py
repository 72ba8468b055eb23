"""python3 show.py facts.json substring  -- print bodies"""
import sys
from facts import *

def pl(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e == "*": s = "*" + s
        elif e == "?": s += "?"
        elif e[0] == "f": s += ".%d" % e[1]
        elif e[0] == "i": s += "[_%d]" % e[1]
        elif e[0] == "c": s += "[c%d%s]" % (e[1], "e" if e[3] else "")
        elif e[0] == "s": s += "[%d..%d]" % (e[1], e[2])
        elif e[0] == "v": s = "(%s as %s)" % (s, e[2])
    return s

def op(c, o):
    if o[0] in ("cp", "mv"): return pl(o[1])
    if o[0] == "k":
        k = o[1]
        if "fn" in k:
            return "fn " + k["fn"] + ("  => " + k["res"] + "[" + k["rkind"] + "]" if k.get("res", k["fn"]) != k["fn"] or k.get("rkind","item")!="item" else "") + "<" + ",".join(c.tstr(a) for a in k["args"]) + ">"
        return "const " + str({a: b for a, b in k.items() if a != "t"}) + ":" + c.tstr(k["t"])
    return str(o)

def rv(c, r):
    if r[0] == "use": return op(c, r[1])
    if r[0] == "ref": return "&%s%s" % ("mut " if r[1] else "", pl(r[2]))
    if r[0] == "bin": return "%s(%s, %s)" % (r[1], op(c, r[2]), op(c, r[3]))
    if r[0] == "un": return "%s(%s)" % (r[1], op(c, r[2]))
    if r[0] == "disc": return "disc(%s)" % pl(r[1])
    if r[0] == "agg": return "%s{%s}" % (r[1][:4], ", ".join(op(c, x) for x in r[2]))
    if r[0] == "cast": return "cast %s %s as %s" % (r[1], op(c, r[2]), c.tstr(r[3]))
    return str(r)

def show(c, fn, body=None):
    b = body or fn.body
    print("fn", fn.path, "|", fn.key, fn.span, "self=", fn.self_s(), "trait=", fn.trait)
    for n, p in b.names: print("   let %s = %s" % (n, pl(p)))
    for i in sorted(b.reachable()):
        blk = b.blocks[i]
        if blk[3]: continue
        print(" bb%d:%s" % (i, " (loop)" if i in b.loop_heads() else ""))
        for s in blk[0]:
            if s[0] == "=": print("    %s = %s" % (pl(s[1]), rv(c, s[2])))
            else: print("    ", s)
        t = blk[1]
        if t[0] == "call":
            print("    %s = call %s(%s) -> %s" % (pl(t[3]), op(c, t[1]), ", ".join(op(c, x) for x in t[2]), t[4]))
        elif t[0] == "switch":
            print("    switch %s %s else %s" % (op(c, t[1]), t[2], t[3]))
        elif t[0] == "assert":
            print("    assert %s == %s [%s] %s -> %s" % (op(c, t[1]), t[2], t[3], [op(c, x) for x in t[4]], t[5]))
        elif t[0] == "drop": print("    drop %s -> %s" % (pl(t[1]), t[2]))
        else: print("    ", t)
    for i, p in enumerate(fn.promoted if body is None else []):
        print(" promoted", i); show(c, fn, p)

if __name__ == "__main__":
    c = Crate(sys.argv[1])
    for f in c.fns.values():
        if sys.argv[2] in f.path or sys.argv[2] in f.key:
            show(c, f); print()
