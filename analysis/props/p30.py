"""P30: see DESIGN.md."""
from absint import Engine, State, contains, sym
from facts import callee
from panics import show

NOTE = """What one worker of the server runs is the closure handed to HttpServer::new and all it calls or closes over in this crate: the call graph from it is searched for the creation of the store of counted requests, which has to be outside it, and for the limiter, which has to be in it and built over a store it was given."""


def calls(f):
    for bb in f.body.blocks:
        if bb[1][0] == "call":
            c = callee(bb[1])
            if c:
                yield c


def closures_in(cr, f):
    return [g for g in cr.bodies if g.kind in ("closure", "coroutine") and g.path.startswith(f.path + "::{")]


def reach(cr, roots):
    by = {}
    for f in cr.bodies:
        by.setdefault(f.key, f)
    seen, todo = {}, [(f, ()) for f in roots]
    while todo:
        f, path = todo.pop()
        if f.key in seen:
            continue
        seen[f.key] = (f, path + (f.path,))
        for c in calls(f):
            g = by.get(c.get("rkey")) or by.get(c.get("key"))
            if g is not None:
                todo.append((g, path + (f.path,)))
        for g in closures_in(cr, f):
            todo.append((g, path + (f.path,)))
    return seen


def run(rep, crates):
    cr = crates.get("prexel_server") or crates.get("prexel-server")
    if cr is None:
        rep.undec("server", "the server is not part of the workspace")
        return
    rep.rule("the store of counted requests is created outside what every worker runs")
    rep.rule("every worker has the limiter, over a store it was given")
    rep.rule("what a client is counted under depends on the client alone")
    rep.rule("a client without an address or cookie, and no other, is given a cookie with an identifier of its own, under the name it is read from")
    rep.guard("identity", identity, rep, cr)
    rep.guard("cookie", cookie, rep, cr)
    factories = []
    for f in cr.bodies:
        for c in calls(f):
            if c.get("fn", "").endswith("::new") and "HttpServer" in c["fn"]:
                for a in c.get("args") or []:
                    s = cr.ty(a)["s"] if isinstance(a, int) and a >= 0 else ""
                    if s.startswith("{closure"):
                        factories += [(f, g) for g in closures_in(cr, f) if g.kind == "closure" and
                                      (cr.ty(a).get("key") == g.key or cr.ty(a).get("def") == g.path or within(g, s))]
                    elif s.startswith("fn("):
                        factories += [(f, g) for g in cr.bodies if g.path in s]
    if not factories:
        rep.undec("factory", "what a worker runs was not recognised")
        return
    limiter = False
    for f, g in factories:
        seen = reach(cr, [g])
        for h, path in seen.values():
            rep.count("functions every worker runs")
            for c in calls(h):
                n = c.get("fn", "")
                if n.endswith("MemoryStore::new") or n.endswith("MemoryStore::with_capacity") or n.endswith("Default::default") and \
                        any(isinstance(a, int) and a >= 0 and cr.ty(a)["s"].endswith("MemoryStore") for a in c.get("args") or []):
                    rep.bad("store:" + h.path, "every worker creates a store of its own, so it counts the requests of a client alone [%s]" % " -> ".join(path))
                elif "MemoryStoreActor" in n or n.endswith("RateLimiter::new") or "RateLimiter" in n:
                    limiter = True
                    rep.ok({"function": h.path, "call": n})
    # created at all, outside
    made = [h.path for h in cr.bodies for c in calls(h) if c.get("fn", "").endswith(("MemoryStore::new", "MemoryStore::with_capacity"))]
    if limiter:
        rep.ok({"store created in": made})
    elif made:
        rep.bad("limiter", "the workers of the server do not limit the requests of a client [main]")
    else:
        rep.undec("limiter", "how requests are limited was not recognised")


OWN = ("path", "uri", "method", "query_string", "match_info", "match_name", "version", "new_v4", "now", "elapsed", "random", "fetch_add",
       "load", "thread_rng", "current", "id", "payload", "content_type", "as_ptr")
CLIENT = ("connection_info", "peer_addr", "cookie", "cookies", "headers", "remote_addr", "realip_remote_addr", "head", "extensions", "app_data")


CUT = ("take", "truncate", "skip", "get", "nth", "first", "split", "splitn", "rsplit", "rsplitn", "split_once", "rsplit_once", "split_at", "chars", "nchars",
       "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "len", "trim_matches", "replace", "is_ipv4", "is_ipv6", "port",
       "filter", "drain", "pop", "remove", "step_by", "take_while", "skip_while", "substr", "index", "octets", "segments", "rev_last", "name")


def heads(t, acc):
    """The names of what a term is made with, iterator adapters among them."""
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            acc.add(t[0])
            if t[0] == "iter":
                acc |= {x for x in t[2:] if isinstance(x, str)}
        for x in t:
            heads(x, acc)
    return acc


def forged(t):
    """What a request says of its client by itself: its headers, but for the cookies."""
    for x in walk(t):
        n = x[1].rsplit("::", 1)[-1] if len(x) > 1 and x[0] in ("call", "ret") and isinstance(x[1], str) else ""
        if n == "realip_remote_addr":
            return ["a header of the request"]
        if n in ("get", "get_all", "header") and "cookie" not in str(x).lower() and any("headers" in str(y) for y in x[2:]):
            return ["a header of the request"]
    return []


def names_in(t, acc):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] in ("call", "ret") and isinstance(t[1], str):
            acc.add(t[1].rsplit("::", 1)[-1] if not t[1].endswith("::id") or "hread" in t[1] else "")
        for x in t:
            names_in(x, acc)
    return acc


def identity(rep, cr):
    """What a client is counted under is a matter of the client alone."""
    for f in cr.bodies:
        tys = [cr.ty(f.body.locals[i])["s"] for i in range(f.body.argc + 1)]
        if f.kind != "closure" or len(tys) != 3 or "ServiceRequest" not in tys[2] or "Result<std::string::String" not in tys[0]:
            continue
        eng = Engine([cr], max_states=64)
        for v, s, _ in eng.analyse(f, [sym(("self",)), sym(("req",))], State()):
            v = eng.strip(s, v)
            if v[0] != "agg" or v[3] != 0:
                continue
            t = eng.T(s, v[4][0])
            ns = names_in(t, set())
            rep.count("names clients are counted under")
            odd = sorted(ns & set(OWN)) or forged(t)
            cut = sorted(n for n in ns | heads(t, set()) if n in CUT)
            if odd:
                rep.bad("identity", "the requests of a client are counted apart, by %s [%s]" % (", ".join(odd), f.path))
            elif cut:
                rep.bad("identity", "clients are told apart by a part of their address or cookie (%s), so the requests of several are counted as those of one [%s]" % (", ".join(cut), f.path))
            elif ns & set(CLIENT):
                rep.ok({"a client is told by": sorted(ns & set(CLIENT))})
            elif not contains(t, ("req",)) and not any(isinstance(x[0], str) and x[0] not in ("s", "c", "call", "fmt", "agg", "static", "const", "fn") for x in walk(t)):
                rep.bad("identity", "the requests of all clients are counted as those of one [%s]" % f.path)
            else:
                rep.undec("identity", "what tells a client from another was not recognised: %s" % show(t, -3))


FRESH = ("new_v4", "now_v7", "new_v7", "random", "gen", "sample", "thread_rng", "rng", "getrandom", "fill", "fill_bytes", "next_u64", "next_u128", "random_range",
         "gen_range", "new_v1", "now_v1", "now_v6")
COOKIE = ("new", "build", "named")


class Cookies:
    def on_call(self, eng, st, name, args, ctx):
        if "Cookie" in name and name.rsplit("::", 1)[-1] in COOKIE and len(args) == 2:
            cur = st.mem.get(("X", "cookies"))
            st.mem[("X", "cookies")] = ("c", (cur[1] if cur else ()) + (tuple(eng.T(st, eng.strip(st, a)) for a in args),))
        if name.endswith("::call") and "Service" in name:
            cur = st.mem.get(("X", "served"))
            st.mem[("X", "served")] = ("c", (cur[1] if cur else 0) + 1)
        return None

    def partition(self, eng, st):
        return st.mem.get(("X", "cookies")), st.mem.get(("X", "served"))


def cookie(rep, cr):
    """The cookie that a client is told by."""
    read = set()
    for f in cr.bodies:
        if f.kind != "closure" and any(c.get("fn", "").endswith("::cookie") for c in calls(f)):
            class H:
                def on_call(self, eng, st, name, args, ctx):
                    if name.endswith("::cookie") and len(args) == 2:
                        read.add(eng.T(st, eng.strip(st, args[1])))
            eng = Engine([cr], hooks=H())
            eng.analyse(f, [sym(("a", i)) for i in range(f.body.argc)], State())
    for f in cr.bodies:
        tys = [cr.ty(f.body.locals[i])["s"] for i in range(f.body.argc + 1)]
        if f.kind not in ("closure", "fn", "method") or not any("ServiceRequest" in t for t in tys[1:]) or "bool" == tys[0] or "Option<" in tys[0] or "Result<" in tys[0]:
            continue
        eng = Engine([cr], hooks=Cookies(), inline=lambda g: "Option<std::string::String>" not in cr.ty(g.body.locals[0])["s"])
        for v, s, _ in eng.analyse(f, [sym(("a", i)) for i in range(f.body.argc)], State()):
            made = s.mem.get(("X", "cookies"))
            made = made[1] if made else ()
            if ("X", "served") not in s.mem:
                continue
            known = {val for k, val in s.facts.items() if k[0] == "disc" and k[1][0] == "call" and "identifier" in k[1][1]} | \
                    {val for k, val in s.facts.items() if k[0] == "disc" and k[1][0] in ("call", "ret") and ident(cr, k[1][1])}
            rep.count("paths of a request to its handler")
            for name, value in made:
                ns = names_in(value, set())
                lost = sorted(n for n in ns | heads(value, set()) if n in CUT)
                if name not in read and name[0] == "s" and read and all(r[0] == "s" for r in read):
                    rep.bad("cookie:name", "a client is given the cookie %s, but told by the cookie %s [%s]" % (show(name, -3), ", ".join(show(r, -3) for r in read), f.path))
                elif not ns & set(FRESH) and not any(x[0] in ("hv", "phi", "ret", "vv", "unk", "a") for x in walk(value)):
                    rep.bad("cookie:value", "clients without an address are given one identifier for all: %s [%s]" % (show(value, -4), f.path))
                elif lost:
                    rep.undec("cookie:value", "whether the identifiers of two clients differ is not known: %s" % lost)
                else:
                    rep.ok({"cookie": show(name, -3), "identifier": sorted(ns & set(FRESH))})
            if known == {("=", 0)} or known and all(x[0] == "!" and 1 in x[1] for x in known):
                rep.check(bool(made), "cookie:none", "a client that has neither an address nor a cookie is not given one [%s]" % f.path, {"cookie": bool(made)})
            elif known == {("=", 1)}:
                rep.check(not made, "cookie:again", "a client that is told by its address or cookie is given another cookie [%s]" % f.path, {"cookie": bool(made)})
            elif not made:
                odd = sorted({n for k in s.facts for n in names_in(k, set())} & set(OWN))
                if odd:
                    rep.bad("cookie:none", "whether a client is given a cookie depends on %s of its request [%s]" % (", ".join(odd), f.path))


def ident(cr, name):
    """A function of the crate that tells who sends a request."""
    return any(f.path.endswith(name) and "Option<std::string::String>" in cr.ty(f.body.locals[0])["s"] for f in cr.bodies)


def walk(t):
    if isinstance(t, tuple) and t:
        yield t
        for x in t:
            yield from walk(x)


def within(g, s):
    """The closure type prints the place of the closure; a body knows its own."""
    import re
    m = re.search(r"@([^:]+):(\d+):", s)
    return bool(m) and str(g.d.get("span", "")).startswith("%s:%s" % (m.group(1), m.group(2)))
