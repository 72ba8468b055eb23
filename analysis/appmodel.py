"""The two programs around the library: what the command line tool and the server do with a number type, an expression and variables.

Their entry points are interpreted from what they are given (a command, a request) to what they hand back; the library, the terminal and
the web framework stay uninterpreted.  Calls that matter leave an event in a trace that belongs to the path:
  ("set", context, name, value)   a variable is set             ("out", text) / ("err", text)   something is printed
  ("list", table, context)        a table of a context is read
Terms: ("EVAL", number type, context, splitter, expression) is the result of an evaluation; ("CTX", constructor, number type, config) a
context; ("PARSE", number type, text) a number read from a text."""
from absint import Engine, State, c, sym, res_ok

TYPES = {"Decimal": "Decimal", "Float": "f64", "Integer": "i128", "Complex": "Complex<f64>", "Binary": "Binary"}
OPTIONS = ("implicit_mul", "complex_number", "custom_function_call")
ITERS = ("IntoIterator::into_iter", "HashMap::iter", "HashMap::into_iter", "BTreeMap::iter", "BTreeMap::into_iter", "LinkedHashMap::iter")
UNIT = ("agg", "tuple", "", 0, ())


def short_type(s):
    import re
    return re.sub(r"(?:[A-Za-z_0-9]+::)+", "", s)


def plain(t):
    """The text of format!("{}", x) is the text of x."""
    while isinstance(t, tuple) and len(t) >= 2 and t[0] == "fmt":
        if len(t) == 2:
            t = t[1]
        elif len(t) == 3 and t[1][0] == "s" and len(t[1][1]) <= 2 and not t[1][1].isprintable() and t[2][0] == "agg" and len(t[2]) == 4:
            t = t[2][3]
        else:
            break
    return t


class Apps:
    def __init__(self):
        self.loops = []        # what the REPL does with a line
        self.outs = True       # keep what is printed
        self.items = 2         # variables of a request
        self.sizes, self.repls = set(), 0

    # ---- the trace
    def trace(self, st):
        v = st.mem.get(("X", "trace"))
        return v[1] if v is not None else ()

    def event(self, st, *e):
        st.mem[("X", "trace")] = c(self.trace(st) + (e,))

    def partition(self, eng, st):
        return (self.trace(st), tuple(sorted((str(k), str(v)) for k, v in st.facts.items() if k[0] == "disc" and k[1][0] == "EVAL")))

    def arg_type(self, eng, ctx, i=0):
        a = ctx.info.get("args") or []
        return short_type(eng.concrete(ctx.fn.crate, a[i], ctx.frame)) if i < len(a) else "?"

    def is_option(self, eng, ctx):
        a = ctx.info.get("args") or []
        return bool(a) and ctx.fn.crate.ty(a[0]).get("s", "").lstrip("&").startswith("std::option::Option")

    def on_call(self, eng, st, name, args, ctx):
        last = name.rsplit("::", 1)[-1]
        T = lambda i: eng.T(st, eng.strip(st, args[i]))
        if "Context" in name:
            if last.startswith("with_config_") or last.startswith("new_"):
                kind = last.split("_")[-1]
                ty = {"decimal": "Decimal", "binary": "Binary"}.get(kind)
                if ty is None:
                    ty = self.arg_type(eng, ctx)
                    if kind == "complex":
                        ty = "Complex<%s>" % ty
                return [(sym(("CTX", kind, ty, T(0) if args else ("cfg0",))), st)]
            if last == "set_variable":
                self.event(st, "set", T(0), T(1), T(2))
                r = ("call", "set_variable", T(0), T(1), T(2))
                return [(sym(r), st)]
            if last in ("variables", "constants", "functions", "binary_functions", "unary_functions"):
                self.event(st, "list", last, T(0))
                return [(sym(("TABLE", last, T(0))), st)]
        if "Evaluator" in name:
            if last in ("with_context", "with_context_and_tokenizer"):
                tok = T(1) if len(args) > 1 else ("tok0",)
                return [(sym(("EV", T(0), tok)), st)]
            if last == "eval":
                ev = T(0)
                if ev[0] == "EV":
                    ev = ("EVAL", self.arg_type(eng, ctx), ev[1], ev[2], T(1))
                    self.event(st, "eval", ev)
                    return [(sym(ev), st)]
            if last in ("mut_context", "context"):
                ev = T(0)
                if ev[0] == "EV":
                    return [(sym(ev[1]), st)]
        if last == "from_str" and name.startswith("FromStr"):
            return [(sym(("PARSE", self.arg_type(eng, ctx), T(0))), st)]
        if name == "str::parse":
            return [(sym(("PARSE", self.arg_type(eng, ctx), T(0))), st)]
        if name in ("Zero::zero",):
            return [(sym(("ZERO",)), st)]
        if "ColorWriter" in name or "ReplWriter" in name:
            if last in ("write", "writeln", "write_err", "writeln_err", "rewrite", "rewrite_err"):
                if self.outs:
                    self.event(st, "err" if last.endswith("_err") else "out", plain(T(1)))
                return [(UNIT, st)]
            if last == "flush":
                return [(UNIT, st)]
            if args and len(args) <= 2 and last not in ("new",):
                return [(args[0], st)]
            return [(sym(("writer",)), st)]
        if name.endswith("Repl::run"):
            self.repls += 1
            for v, s in eng.invoke(st.copy(), args[1], [sym(("line",)), sym(("writer",))], ctx.fn, ctx.frame, (ctx.block, "repl"), ctx.site, ctx.stack):
                self.loops.append((eng.T(s, eng.strip(s, v)), s, self.trace(s)[len(self.trace(st)):], self.trace(st)))
            return [(UNIT, st)]
        if name == "IntoIterator::into_iter" and args and self.is_option(eng, ctx):
            v = eng.strip(st, args[0])
            if v[0] == "agg":
                return [(("iter", ("arr", ("agg", "array", "", 0, v[4])), "fresh", None, ()), st)]
        flat = name == "Iterator::flatten" and args and eng.strip(st, args[0])
        if flat and flat[0] == "iter" and flat[1][0] == "arr" and flat[2] == "fresh" and not flat[4]:
            if not flat[1][1][4]:
                return [(flat, st)]
            if len(flat[1][1][4]) != 1:
                flat = None
        if name in ITERS and args and T(0) in (("default",), ("default", "vars")):
            return [(("iter", ("arr", ("agg", "array", "", 0, ())), "fresh", None, ()), st)]
        if name in ITERS and args and T(0) == ("vars",) or flat and flat[0] == "iter" and flat[1][0] == "arr" and \
                eng.T(st, eng.strip(st, flat[1][1][4][0])) == ("vars",):
            pairs = tuple(("agg", "tuple", "", 0, (sym(("key", i)), sym(("val", i)))) for i in range(self.items))
            return [(("iter", ("arr", ("agg", "array", "", 0, pairs)), "fresh", None, ()), st)]
        if last == "eval_expression" and getattr(self, "answer", False):
            r = ("ANSWER", T(0))
            self.event(st, "answer", r)
            return [(sym(r), st)]
        if name.startswith(("HttpResponse::", "HttpResponseBuilder::", "actix_web::HttpResponse::")) or "HttpResponse" in name:
            if last[:1].isupper() and not args:
                return [(sym(("RESPONSE", last)), st)]
            if args and T(0)[0] == "RESPONSE":
                if last in ("json", "body"):
                    return [(sym(("REPLY", T(0)[1], last, T(1))), st)]
                if last == "finish":
                    return [(sym(("REPLY", T(0)[1], "body", ("s", ""))), st)]
                if last in ("content_type", "header", "insert_header", "set_header", "set", "append_header", "no_chunking", "take"):
                    return [(args[0], st)]
            if last == "build" and args:
                return [(sym(("RESPONSE", T(0))), st)]
        if last in ("deserialize", "from_str", "from_slice", "from_reader") and name.split("::")[0] in ("serde_path_to_error", "serde_json"):
            return [(sym(("BODY", T(0))), st)]
        if last == "from_query" and getattr(self, "query", None) is not None:
            return [(("agg", "adt", RESULT, 0, (self.query,)), st)]
        if last == "into_inner" and args and getattr(self, "query", None) is not None:
            return [(args[0], st)]
        if "ReplBuilder" in name:
            if last == "history_size" and len(args) == 2:
                self.sizes.add(T(1))
            return [(sym(("repl",)), st)]
        if name.endswith("Parser::parse") and hasattr(self, "cli"):
            return [(self.cli, st)]
        if last == "set_use_colors":
            return [(UNIT, st)]
        return None


def engine(crates, hooks):
    eng = Engine(crates, hooks=hooks, max_states=512, budget=120000)
    eng.ghosts = ("trace",)
    eng.unroll, eng.exact = 2, 16
    return eng


def config(cr, t, seen=()):
    """{option: setting} of a configuration term, or None"""
    res = {}
    while isinstance(t, tuple) and t:
        if t[0] == "cfg0" or t[0] == "default" and t[1].endswith("Config"):
            return res
        if t[0] == "fld":
            t = t[1]
            continue
        if t[0] == "static" or t[0] == "const":
            init = [f for f in cr.bodies if f.path == t[1] + "::{closure#0}"]
            if len(init) != 1 or t in seen:
                return None
            eng = Engine([cr])
            vals = {eng.T(s, eng.strip(s, v)) for v, s, _ in eng.analyse(init[0], [sym(("unit",))], State())}
            if len(vals) != 1:
                return None
            r = config(cr, vals.pop(), seen + (t,))
            return None if r is None else {**r, **res}
        if t[0] == "call":
            last = t[1].rsplit("::", 1)[-1]
            if last in ("new", "default") and len(t) == 2 and "Config" in t[1]:
                return res
            if last.startswith("with_") and len(t) == 4 and "Config" in t[1]:
                if last == "with_grouping":
                    pass
                elif last[5:] in OPTIONS and t[3][0] == "c":
                    res.setdefault(last[5:], bool(t[3][1]))
                else:
                    return None
                t = t[2]
                continue
            if last in ("lock", "unwrap", "clone", "new", "deref", "force", "read", "get", "into_inner", "borrow", "default") and len(t) == 3:
                t = t[2]
                continue
            if last == "default" and len(t) == 2:
                return res
        return None
    return None


def binary_splitter(tok):
    return tok != ("tok0",) and "binary_number_splitter" in str(tok) or "SplitBinary" in str(tok)


# what the documentation says of each number type: constructor of the context, type of the numbers, binary literals, imaginary literals
SPEC = {"decimal": ("decimal", "Decimal"), "float": (None, "f64"), "integer": ("checked", "i128"), "complex": ("complex", "Complex<f64>"),
        "binary": ("binary", "Binary")}


def wrong_eval(cr, t, name, float_kind, tok=None):
    """What is wrong with the evaluation t of an expression for the number type of that name; None if nothing is."""
    kind, ty = SPEC[name]
    kind = kind or float_kind
    ctx = t[2]
    if ctx[0] != "CTX":
        return None if tok == "any" else "?"
    if (ctx[1], ctx[2]) != (kind, ty) or t[1] not in (ty, "?"):
        return "it is evaluated with the %s operations of %s" % (ctx[1], ctx[2])
    cfg = config(cr, ctx[3])
    if cfg is None:
        return "?"
    cfg = {k for k, v in cfg.items() if v}
    want = {"implicit_mul"} | ({"complex_number"} if name == "complex" else set())
    if cfg != want:
        return "the options switched on are %s, not %s" % (", ".join(sorted(cfg)) or "none", ", ".join(sorted(want)))
    if binary_splitter(t[3]) != (name == "binary"):
        return "binary literals are %s" % ("not recognised" if name == "binary" else "recognised")
    return None


def variant(cr, adt, i):
    return cr.adts[adt]["variants"][i][0]


def command(cr, cmd, k):
    """The parsed command line for a command and the number type of that index, or None."""
    cli, cm, et = (next((a for a in cr.adts.values() if a["def"].rsplit("::", 1)[-1] == n), None) for n in ("Cli", "Commands", "EvalType"))
    if not cli or not cm or not et:
        return None
    i = next((i for i, (n, _) in enumerate(cm["variants"]) if n == cmd), None)
    if i is None:
        return None
    t = ("agg", "adt", et["def"], k, ())
    cmdv = ("agg", "adt", cm["def"], i, tuple(t if cr.ty(f[1])["s"] == et["def"] else sym((f[0],)) for f in cm["variants"][i][1]))
    return ("agg", "adt", cli["def"], 0, tuple(cmdv if cr.ty(f[1])["s"] == cm["def"] else sym((f[0],)) for f in cli["variants"][0][1]))


def run_command(crates, cmd, k, hooks=None):
    """(hooks, engine, final states) of the command line tool"""
    cr = crates["eval"]
    h = hooks or Apps()
    h.cli = command(cr, cmd, k)
    m = next((f for f in cr.bodies if f.path == "main"), None)
    if h.cli is None or m is None:
        return None
    h.outs = hooks is not None or cmd in ("Eval", "Repl")
    eng = engine([cr], h)
    return h, eng, [s for _, s, _ in eng.analyse(m, [], State())]


def type_names(cr, adt):
    """{documented name of a number type: index of its variant}, from the text conversion of the type; None if there is none."""
    f = [f for f in cr.impl_methods("std::str::FromStr", "from_str") if f.self_def() == adt]
    if len(f) != 1:
        return None
    res = {}
    for n in SPEC:
        eng = Engine([cr])
        outs = {eng.T(s, eng.strip(s, v)) for v, s, _ in eng.analyse(f[0], [("s", n)], State())}
        if len(outs) != 1:
            return None
        t = outs.pop()
        if t[0] != "agg" or not t[1].endswith("Result"):
            return None
        res[n] = t[3][2] if t[2] == 0 and t[3][0] == "agg" else None
    return res


# ---- the server
OPTION, RESULT = "std::option::Option", "std::result::Result"


def some(v):
    return ("agg", "adt", OPTION, 1, (v,))


NONE = ("agg", "adt", OPTION, 0, ())


def adt(cr, name):
    return next((a for a in cr.adts.values() if a["def"].rsplit("::", 1)[-1] == name), None)


def service(cr):
    """The function that answers a request, or None: it takes the request and hands back a text or an error."""
    ex = adt(cr, "EvalExpression")
    if ex is None:
        return None
    fs = [f for f in cr.bodies if f.kind == "fn" and f.body.argc == 1 and cr.ty(f.body.locals[1][0] if isinstance(f.body.locals[1], (list, tuple))
                                                                               else f.body.locals[1])["s"] == ex["def"]]
    named = [f for f in fs if f.name == "eval_expression"]
    if len(named) == 1:
        return named[0]
    from facts import callee
    called = set()
    for f in fs:
        for bb in f.body.blocks:
            c_ = callee(bb[1]) if bb[1][0] == "call" else None
            if c_:
                called.add(c_.get("key"))
    roots = [f for f in fs if f.key not in called]
    return roots[0] if len(roots) == 1 else None


def request(cr, k, variables):
    """A request with the number type of index k (None: it names no type), with or without variables."""
    ex, nt = adt(cr, "EvalExpression"), adt(cr, "NumberType")
    fields = []
    for n, t, _ in ex["variants"][0][1]:
        s = cr.ty(t)["s"]
        if nt["def"] in s:
            v = ("agg", "adt", nt["def"], k, ()) if k is not None else None
        elif "Map" in s:
            v = sym(("vars",)) if variables else None
        else:
            fields.append(sym((n,)))
            continue
        fields.append((some(v) if v is not None else NONE) if s.startswith(OPTION) else v if v is not None else sym((n,)))
    return ("agg", "adt", ex["def"], 0, tuple(fields))


def run_request(cr, f, k, variables, items=2):
    h = Apps()
    h.items = items
    eng = engine([cr], h)
    return h, eng, [(eng.T(s, eng.strip(s, v)), s) for v, s, _ in eng.analyse(f, [request(cr, k, variables)], State())]


def wire_names(cr, name):
    """{documented name of a number type: index of its variant (None: refused)} as a request is read; None if that is not known."""
    a = adt(cr, name)
    vs = [f for f in cr.bodies if f.name in ("visit_str", "visit_enum") and "for %s>" % a["def"] in f.path]
    st_, en = [f for f in vs if f.name == "visit_str"], [f for f in vs if f.name == "visit_enum"]
    if len(st_) != 1 or len(en) != 1:
        return None
    res = {}
    for n in SPEC:
        eng = Engine([cr])
        outs = {eng.T(s, eng.strip(s, v)) for v, s, _ in eng.analyse(st_[0], [sym(("self",)), ("s", n)], State())}
        if len(outs) != 1:
            return None
        t = outs.pop()
        if t[0] != "agg":
            return None
        if t[2] == 1:
            res[n] = None
            continue
        field = ("agg", "adt", t[3][1], t[3][2], ())

        class H:
            def on_call(self, eng, st, name, args, ctx):
                if name.endswith("EnumAccess::variant"):
                    return [(("agg", "adt", RESULT, 0, (("agg", "tuple", "", 0, (field, sym(("access",)))),)), st)]
                if name.endswith("VariantAccess::unit_variant"):
                    return [(("agg", "adt", RESULT, 0, (UNIT,)), st)]
                return None
        eng = Engine([cr], hooks=H())
        outs = {eng.T(s, eng.strip(s, v)) for v, s, _ in eng.analyse(en[0], [sym(("self",)), sym(("data",))], State())}
        outs = {t for t in outs if t[0] != "agg" or t[2] == 0}
        if len(outs) != 1:
            return None
        t = outs.pop()
        if t[0] != "agg" or t[3][0] != "agg":
            return None
        res[n] = t[3][2]
    return res


def endpoint(cr, name):
    """The body of the handler of that name: an asynchronous function, or what a macro made of it."""
    fs = [f for f in cr.bodies if f.kind == "coroutine" and f.path.rsplit("::", 2)[-2] == name]
    return fs[0] if len(fs) == 1 else None


def run_endpoint(cr, f, query=None, answer=True, hooks=None):
    h = hooks or Apps()
    h.answer, h.query = answer, query
    eng = engine([cr], h)
    co = sym(("co",))
    st = State()
    st.facts[("disc", ("fld", ("co",), ("c", 0)))] = ("=", 0)
    res = []
    for v, s, _ in eng.analyse(f, [co, sym(("cx",))], st):
        t = eng.T(s, eng.strip(s, v))
        if s.facts.get(("disc", ("fld", ("co",), 0)), ("=", 0)) != ("=", 0):
            continue
        while t[0] == "agg" and len(t) == 4 and t[1].rsplit("::", 1)[-1] in ("Poll", "Result"):
            t = t[3]
        res.append((t, s))
    return h, eng, res
