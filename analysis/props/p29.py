"""P29: see DESIGN.md."""
import appmodel as A
from absint import Engine, State, sym
from panics import show

NOTE = """The handler of an evaluation request is interpreted from an arbitrary request to its reply, with the evaluation uninterpreted; every path is one kind of reply, and what was known of the request, its query and the evaluation on it decides whether that reply is right.  The conversion of a result into the reply, its fields on the wire and the routes are interpreted the same way."""

CLIENT_ERRORS = ("BadRequest", "UnprocessableEntity", "NotAcceptable", "UnsupportedMediaType", "PayloadTooLarge")


def contains(t, pred):
    return pred(t) or isinstance(t, tuple) and any(contains(x, pred) for x in t)


def parts(cr, t):
    """(result, error) of a reply, each a term or None; None when the reply is not known."""
    ev = A.adt(cr, "EvaluatedExpression")
    if ev is None or t[0] != "agg" or t[1] != ev["def"]:
        return None
    fs = dict(zip([f[0] for f in ev["variants"][0][1]], t[3:]))
    if set(fs) != {"result", "error"}:
        return None
    out = []
    for n in ("result", "error"):
        x = fs[n]
        if x[0] != "agg" or not x[1].endswith("Option"):
            return None
        out.append(x[3] if x[2] == 1 else None)
    return tuple(out)


def asked(st):
    """(whether only_result is known to be set: a list of 0 and 1, whether the path asks something of the query that is not understood)"""
    flags, unclear = set(), False
    for k, v in st.facts.items():
        if k[0] == "disc" or not contains(k, lambda x: isinstance(x, str) and "query" in x.lower()):
            continue
        if k[0] == "fld" and v[0] == "=" and v[1] in (0, 1):
            flags.add(v[1])
        elif k[0] in ("eq", "ne") and v[0] == "=" and any(x[0] == "agg" and x[1].endswith("Option") and x[2:] == (1, ("c", 1)) for x in k[1:]):
            flags.add(v[1] if k[0] == "eq" else 1 - v[1])
        else:
            unclear = True
    return sorted(flags), unclear


def replies(rep, cr):
    f = A.endpoint(cr, "eval")
    if f is None:
        rep.undec("reply", "the handler of an evaluation request was not recognised")
        return
    h, eng, outs = A.run_endpoint(cr, f)
    for (where, why), (site, _, ops) in eng.panics.items():
        if contains(ops, lambda x: isinstance(x, tuple) and x and x[0] in ("ANSWER", "BODY")):
            rep.bad("reply:panic", "a request is not answered at all: %s at %s [%s]" % (why, site, f.path))
    for t, st in outs:
        rep.count("kinds of replies")
        ans = {e[1] for e in h.trace(st) if e[0] == "answer"}
        if t[0] != "REPLY" or isinstance(t[1], tuple):
            rep.undec("reply", "the reply %s is not known" % show(t, -4))
            continue
        status, how, what = t[1:4]
        unread = [k for k, v in st.facts.items() if k[0] == "disc" and v == ("=", 1) and
                  (k[1][0] == "BODY" or k[1][0] == "call" and k[1][1].rsplit("::", 1)[-1] in ("from_utf8", "from_str", "from_slice"))]
        flags, unclear = asked(st)
        only = flags == [1]
        key = "reply:" + ("answered" if ans else "refused")
        w = None
        if not ans:
            p = parts(cr, what) if how == "json" else None
            if not unread:
                w = "a request that could be read is not evaluated"
            elif status not in CLIENT_ERRORS:
                w = "a request that cannot be read is answered as %s" % status
            elif how != "json":
                w = "a request that cannot be read is not answered with an error"
            elif p is None:
                rep.undec(key, "the reply %s is not known" % show(what, -4))
                continue
            elif p[0] is not None or p[1] is None:
                w = "a request that cannot be read is answered with %s" % ("a result" if p[0] is not None else "neither a result nor an error")
        elif unread:
            w = "a request that cannot be read is evaluated"
        elif len(ans) > 1:
            w = "a request is evaluated more than once"
        else:
            a = list(ans)[0]
            d = st.facts.get(("disc", a))
            ok, er = ("fld", a, ("v", 0, 0)), ("fld", a, ("v", 1, 0))
            if not contains(a, lambda x: isinstance(x, tuple) and x and x[0] == "BODY"):
                w = "what is evaluated is not the request"
            elif status != "Ok":
                w = "an evaluated request is answered as %s" % status
            elif unclear:
                rep.undec(key, "whether only_result is set on a path is not known")
                continue
            elif how == "body":
                if d != ("=", 0):
                    w = "an error is answered as a plain text"
                elif not flags:
                    w = "the result is answered as a plain text without being asked to"
                elif not only:
                    w = "the result is answered as a plain text although only_result is not set"
                elif A.plain(what) != ok:
                    w = "the plain text of a result is %s" % show(what, -4)
            elif only and d == ("=", 0):
                w = "the result is not answered as a plain text although only_result is set"
            else:
                p = parts(cr, what)
                if p is None:
                    if what[0] == "agg" and "EvaluatedExpression" in what[1]:
                        w = "the reply is %s" % show(what, -4)
                    else:
                        rep.undec(key, "the reply %s is not known" % show(what, -4))
                        continue
                elif d == ("=", 0) and p != (ok, None):
                    w = "a result is answered with result %s and error %s" % tuple(show(x, -3) if x else "nothing" for x in p)
                elif d == ("=", 1) and p != (None, er):
                    w = "an error is answered with result %s and error %s" % tuple(show(x, -3) if x else "nothing" for x in p)
                elif d is None or d[0] != "=":
                    rep.undec(key, "whether the evaluation succeeded is not known where it is answered")
                    continue
        rep.check(w is None, key, "%s [%s]" % (w, f.path), {"reply": how, "status": status, "evaluated": bool(ans)})


class Fields:
    def __init__(self):
        self.fields = None

    def on_call(self, eng, st, name, args, ctx):
        last = name.rsplit("::", 1)[-1]
        if last in ("serialize_field", "serialize_entry"):
            old = st.mem.get(("X", "fields"))
            old = old[1] if old is not None else ()
            st.mem[("X", "fields")] = ("c", old + ((eng.T(st, eng.strip(st, args[1])), eng.T(st, eng.strip(st, args[2]))),))
            return [(("agg", "adt", A.RESULT, 0, (A.UNIT,)), st)]
        if last in ("serialize_struct", "serialize_map"):
            return [(("agg", "adt", A.RESULT, 0, (sym(("ser",)),)), st)]
        return None


def wire(rep, cr):
    """A reply always has the fields `result` and `error`, with what they hold."""
    ev = A.adt(cr, "EvaluatedExpression")
    fs = [f for f in cr.bodies if f.name == "serialize" and f.trait and f.trait.endswith("Serialize") and ev and ev["def"] in f.path]
    if len(fs) != 1:
        rep.undec("wire", "how a reply is written was not recognised")
        return
    vals = [sym((n,)) for n, _, _ in ev["variants"][0][1]]
    eng = Engine([cr], hooks=Fields())
    eng.ghosts = ("fields",)
    for v, st, _ in eng.analyse(fs[0], [("agg", "adt", ev["def"], 0, tuple(vals)), sym(("serializer",))], State()):
        got = st.mem.get(("X", "fields"))
        t = eng.T(st, eng.strip(st, v))
        if t[0] == "agg" and t[1].endswith("Result") and t[2] == 1:
            continue
        if got is None:
            rep.undec("wire", "which fields a reply has is not known")
            continue
        got = {k[1] if k[0] == "s" else k: v for k, v in got[1]}
        w = None
        for n in ("result", "error"):
            if n not in got:
                w = "a reply is written without its field `%s`" % n
            elif got[n] != (n,):
                w = "the field `%s` of a reply holds %s" % (n, show(got[n], -3))
        rep.check(w is None, "wire", "%s [%s]" % (w, fs[0].path), {"fields": sorted(str(k) for k in got)})


def reads(rep, cr):
    """The fields of a request are read under their documented names."""
    for name, fields in (("EvalExpression", ("expression", "type", "variables")), ("EvalParams", ("only_result",)), ("GetFunctions", ("type",))):
        a = A.adt(cr, name)
        fs = [f for f in cr.bodies if a and f.name == "visit_str" and "for %s>" % a["def"] in f.path]
        if len(fs) != 1:
            rep.undec("read:" + name, "how a %s is read was not recognised" % name)
            continue
        own = [f[0] for f in a["variants"][0][1]]
        for n in fields:
            eng = Engine([cr])
            outs = {eng.T(s, eng.strip(s, v)) for v, s, _ in eng.analyse(fs[0], [sym(("self",)), ("s", n)], State())}
            t = outs.pop() if len(outs) == 1 else None
            if t is None or t[0] != "agg" or t[2] != 0 or t[3][0] != "agg":
                rep.undec("read:%s:%s" % (name, n), "how the field is read is not known")
                continue
            ad = cr.adts.get(t[3][1]) or cr.adts.get(t[3][1].replace("prexel_server::", "", 1))
            vn = ad["variants"][t[3][2]][0] if ad else "__field%d" % t[3][2]
            i = int(vn[7:]) if vn.startswith("__field") and vn[7:].isdigit() else None
            rep.check(i is not None and i < len(own) and own[i] == n, "read:%s:%s" % (name, n),
                      "the field `%s` of a request is %s [%s]" % (n, "ignored" if i is None else "read as `%s`" % own[i], fs[0].path), {"field": n})


def required(rep, cr):
    """A request without an expression is not read as one."""
    from facts import callee
    a = A.adt(cr, "EvalExpression")
    own = [x for x in a["variants"][0][1] if x[0] == "expression"] if a else []
    fs = [f for f in cr.bodies if a and f.name == "visit_map" and "for %s>" % a["def"] in f.path]
    if len(own) != 1 or len(fs) != 1 or not own[0][1:] or "Deserialize" not in fs[0].path:
        rep.undec("read:required", "how an expression is read was not recognised")
        return
    want = cr.ty(own[0][1])["s"] if isinstance(own[0][1], int) else str(own[0][1])
    if want.startswith(("std::option::Option", "core::option::Option")):
        rep.undec("read:required", "an expression is optional where it is read")
        return
    seen = []
    for bb in fs[0].body.blocks:
        c = callee(bb[1]) if bb[1][0] == "call" else None
        if c and c["fn"].endswith("::missing_field"):
            seen += [cr.ty(i)["s"] for i in c.get("args") or [] if isinstance(i, int) and i >= 0]
    rep.check(want in seen, "read:required", "a request without its field `expression` is not refused [%s]" % fs[0].path, {"missing": sorted(seen)})


ROUTES = {"eval": ("/eval", "Post"), "get_operators": ("/operators", "Get"), "get_constants": ("/constants", "Get"), "get_functions": ("/functions", "Get")}


class Routes:
    def __init__(self):
        self.seen = []

    def on_call(self, eng, st, name, args, ctx):
        last = name.rsplit("::", 1)[-1]
        if name.endswith("Resource::new") and args:
            self.seen.append(("path", eng.T(st, eng.strip(st, args[0]))))
        if last in ("Get", "Post", "Put", "Delete", "Head", "Patch", "Options") and not args:
            self.seen.append(("method", last))
        if last == "service" and len(args) == 2:
            self.seen.append(("service", eng.T(st, eng.strip(st, args[1]))))
        return None


def routes(rep, cr):
    for n, (path, method) in ROUTES.items():
        fs = [f for f in cr.bodies if f.name == "register" and f.trait and f.trait.endswith("HttpServiceFactory") and f.path.startswith("<") and
              ("::%s as " % n) in f.path]
        if len(fs) != 1:
            rep.undec("route:" + n, "how the handler is registered was not recognised")
            continue
        h = Routes()
        Engine([cr], hooks=h).analyse(fs[0], [sym(("self",)), sym(("config",))], State())
        got = {x[1] for x in h.seen if x[0] == "path"}
        ms = {x[1] for x in h.seen if x[0] == "method"}
        rep.check(got == {("s", path)} and ms == {method}, "route:" + n, "the handler `%s` answers %s %s, not %s %s [%s]" %
                  (n, ", ".join(ms), ", ".join(show(x, -1) for x in got), method, path, fs[0].path), {"route": path, "method": method})
    used = set()
    for f in cr.bodies:
        for i in type_ids(f):
            used |= {n for n in ROUTES if cr.ty(i)["s"].rsplit("::", 1)[-1] == n}
    for n in ROUTES:
        if not used:
            rep.undec("service:" + n, "which handlers the server has was not recognised")
        else:
            rep.check(n in used, "service:" + n, "the handler `%s` is not part of the server [main]" % n, {"handler": n})


def type_ids(f):
    from facts import callee
    for bb in f.body.blocks:
        c = callee(bb[1]) if bb[1][0] == "call" else None
        if c and c.get("fn", "").rsplit("::", 1)[-1] in ("service", "register", "configure"):
            for i in c.get("args") or []:
                if isinstance(i, int) and i >= 0:
                    yield i


def run(rep, crates):
    cr = crates.get("prexel_server") or crates.get("prexel-server")
    if cr is None:
        rep.undec("server", "the server is not part of the workspace")
        return
    rep.rule("reply: a request that cannot be read is answered with a client error and an error, any other with its result or its error, never both")
    rep.rule("reply: only_result answers a result, and only a result, as plain text")
    rep.rule("wire: result and error are always written, under those names; the fields of a request are read under their documented names")
    rep.rule("route: the documented paths and methods lead to their handlers")
    rep.guard("reply", replies, rep, cr)
    rep.guard("wire", wire, rep, cr)
    rep.guard("read", reads, rep, cr)
    rep.guard("read", required, rep, cr)
    rep.guard("route", routes, rep, cr)
