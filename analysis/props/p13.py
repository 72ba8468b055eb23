"""P13: see DESIGN.md."""
import evalmodel
from absint import Engine, State, sym
from panics import show

NOTE = """The evaluation of the converted tokens is interpreted as for P12, with every error of the conversion and of an operation followed to the result; the methods of the evaluator are interpreted on an evaluator made of an arbitrary context and tokenizer."""
OPAQUE = ("::tokenize", "rpn_eval", "infix_to_rpn")
CTX, TOK, TEXT, TOKENS = ("ctx",), ("tokenizer",), ("text",), ("tokens",)


def opaque(g):
    return g.path.endswith(OPAQUE) or "DefaultContext" in g.path or g.path.startswith("tokenizer::Tokenizer") or \
        (g.self_def() or "").startswith("tokenizer::Tokenizer")


def runs(cr, f, args):
    eng = Engine([cr], inline=lambda g: not opaque(g))
    st = State()
    args = list(args)
    if args and args[0][0] == "agg":
        st.mem[("P", "evaluator")] = args[0]
        args[0] = ("ref", ("P", "evaluator"), ())
    return [(v, s, eng) for v, s, _ in eng.analyse(f, args, st)]


def made(cr, name, args):
    """The evaluator a constructor makes: its one value, or None."""
    fs = methods(cr, name)
    if len(fs) != 1:
        return None
    outs = runs(cr, fs[0], args)
    return outs[0][0] if len(outs) == 1 and outs[0][0][0] == "agg" else None


def methods(cr, name):
    return [f for f in cr.bodies if f.kind == "method" and f.trait is None and (f.self_def() or "").endswith("evaluator::Evaluator") and f.name == name]


def last(t):
    return t[1].rsplit("::", 1)[-1] if t[0] == "call" else None


def plain(t):
    while t[0] == "call" and len(t) == 3 and last(t) in ("from", "into", "clone", "deref", "as_slice", "as_ref", "borrow"):
        t = t[2]
    return t


def calls(t, acc):
    if isinstance(t, tuple):
        if t and t[0] == "call":
            acc.append(t)
        for x in t:
            calls(x, acc)
    return acc


def is_eval(t, tokens, ctx):
    return t[0] == "call" and last(t) == "rpn_eval" and len(t) == 4 and plain(t[2]) == tokens and t[3] == ctx


def wrong(t, facts, tokens, ctx):
    """Whether a result is that of the evaluation of these tokens in this context: None, a message, or `?`."""
    if t[0] == "agg" and t[1].endswith("Result"):
        r = plain(t[3])
        if r[0] == "fld" and r[2] == ("v", t[2], 0) and is_eval(r[1], tokens, ctx):
            return None
        e = [x for x in calls(r, []) if last(x) == "rpn_eval"]
        if not e:
            inner = [k[1] for k, v in facts.items() if k[0] == "disc" and k[1][0] == "call" and last(k[1]) == "rpn_eval"]
            if inner and facts[("disc", inner[0])] == ("=", 1):
                return "does not hand back the error of the evaluation" if not unknown(r) else "?"
            return "?"
        t = e[0]
    if t[0] != "call" or last(t) != "rpn_eval":
        return "?"
    if is_eval(t, tokens, ctx):
        return None
    if t[3] != ctx:
        return "evaluates in another context than its own: %s" % show(t[3], -4) if not unknown(t[3]) else "?"
    return "evaluates %s" % show(t[2], -5) if not unknown(t[2]) else "?"


def unknown(t):
    return isinstance(t, tuple) and bool(t) and (t[0] in ("hv", "ret", "phi", "vv", "uninit") or any(unknown(x) for x in t))


def chain(rep, cr, ev, lab, tok, ctx):
    for f in methods(cr, "eval"):
        for v, s, eng in runs(cr, f, [ev, sym(TEXT)]):
            rep.count("paths of the evaluation of a text")
            t = eng.T(s, eng.strip(s, v))
            tk = [k[1] for k in s.facts if k[0] == "disc" and k[1][0] == "call" and last(k[1]) == "tokenize"]
            if len(tk) != 1:
                early = not tk and t[0] == "agg" and t[1].endswith("Result")
                if early and t[2] == 0:
                    rep.bad("text:" + lab, "a text is given a value without being read [%s]" % f.path)
                else:
                    rep.undec("text:" + lab, "how a text is read is not known")
                continue
            k = tk[0]
            bad = None
            if k[2:] != (tok, ctx, TEXT):
                names = ("its tokenizer", "its context", "the text")
                i = next((i for i in range(3) if i + 2 >= len(k) or k[i + 2] != (tok, ctx, TEXT)[i]), 0)
                if any(unknown(x) for x in k) or len(k) != 5:
                    rep.undec("text:" + lab, "what is tokenized is not known")
                    continue
                bad = "reads the text with %s in the place of %s" % (show(k[i + 2], -5), names[i])
            elif s.facts[("disc", k)] == ("=", 1):
                r = plain(t[3]) if t[0] == "agg" and t[1].endswith("Result") and t[2] == 1 else None
                if r != ("fld", k, ("v", 1, 0)):
                    bad = "does not hand back the error of a text that cannot be read" if not unknown(t) else "?"
            else:
                bad = wrong(t, s.facts, ("fld", k, ("v", 0, 0)), ctx)
            settle(rep, "text:" + lab, bad, "the evaluation of a text", f)
    for f in methods(cr, "eval_tokens"):
        for v, s, eng in runs(cr, f, [ev, sym(TOKENS)]):
            settle(rep, "tokens:" + lab, wrong(eng.T(s, eng.strip(s, v)), s.facts, TOKENS, ctx), "the evaluation of tokens", f)
    for name in ("context", "mut_context"):
        for f in methods(cr, name):
            for v, s, eng in runs(cr, f, [ev]):
                t = eng.T(s, eng.strip(s, v))
                settle(rep, "%s:%s" % (name, lab), None if t == ctx else "?" if unknown(t) else "is %s" % show(t, -5), "the context handed out", f)


def settle(rep, key, bad, what, f):
    if bad == "?":
        rep.undec(key, "what %s does is not known" % what)
    else:
        rep.check(bad is None, key, "%s %s [%s]" % (what, bad, f.path), {"method": f.path})


def run(rep, crates):
    cr = crates["prexel"]
    rep.rule("rpn-err: after the conversion or an operation reports an error, the evaluation ends with that error")
    rep.rule("text: a text is read with the tokenizer and the context of the evaluator, and exactly its tokens are evaluated in that context; errors are handed back")
    rep.rule("given: an evaluator holds the context and the tokenizer it was given")
    evalmodel.report(rep, crates, {"evaluation": ["rpn-err", "rpn-input"]})
    for name, args, ctx, tok in (("with_context_and_tokenizer", [sym(CTX), sym(TOK)], CTX, TOK), ("with_context", [sym(CTX)], CTX, None),
                                 ("new", [], None, None)):
        fs = methods(cr, name)
        if not fs:
            rep.bad("anchor:" + name, "there is no Evaluator::%s" % name)
            continue
        ev = made(cr, name, args)
        if ev is None:
            rep.undec("made:" + name, "the evaluator made by %s is not known" % name)
            continue
        eng = Engine([cr])
        fields = [eng.T(State(), x) for x in ev[4]]
        if ctx is None:
            ctx = next((x for x in fields if x[0] == "call" and last(x).startswith("new_")), None)
            rep.check(ctx is not None and last(ctx) == "new_checked", "made:" + name, "an evaluator made without a context has the context %s" % (ctx,))
        if tok is None:
            tok = next((x for x in fields if x[0] == "call" and "Tokenizer" in x[1]), None)
        if ctx is None or tok is None:
            rep.undec("made:" + name, "what the evaluator made by %s holds is not known" % name)
            continue
        rep.guard("chain:" + name, chain, rep, cr, ev, name, tok, ctx)
