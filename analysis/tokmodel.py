"""The tokenizer interpreted on tokens of known classes.

A token of the text is an opaque string of which only its class is known: whether it parses as a number, whether the context has a
variable, constant, function or operator of that name (and its notation), and its text where that is a fixed symbol.  Every sequence of
classes of a given length is one abstract input; whatever else the tokenizer asks about is unknown and both answers are followed.
"""
import re
from absint import Engine, State, c, sym
from models import opt_none, opt_some
import ctxmodel as C

CTX = ("ctx",)
CFG = ("cfg",)


class Class:
    def __init__(self, label, num=0, var=0, const=0, fun=0, bin=0, un=None, text=None):
        self.label, self.num, self.var, self.const, self.fun, self.bin, self.un, self.text = label, num, var, const, fun, bin, un, text

    def kind(self):
        """What the token is read as: the first of these that it is."""
        for k in ("num", "var", "const", "fun"):
            if getattr(self, k):
                return k
        if self.bin or self.un:
            return "op"
        if self.text == ",":
            return "comma"
        if self.text == " ":
            return "space"
        if self.text and self.text in "([{":
            return "open"
        if self.text and self.text in ")]}":
            return "close"
        return "unknown"


K = Class
NUM, VAR, CONST, FUN = K("a number", num=1), K("a variable", var=1), K("a constant", const=1), K("a function", fun=1)
PREBIN = K("an operator that is prefix and binary", bin=1, un="pre", text="-")
PRE, POST, BIN = K("a prefix operator", un="pre", text="~"), K("a postfix operator", un="post", text="!"), K("a binary operator", bin=1, text="*")
LONG = [K("a long prefix operator", un="pre"), K("a long postfix operator", un="post"), K("a long binary operator", bin=1),
        K("a long operator that is prefix and binary", bin=1, un="pre")]
COMMA, SPACE = K("a comma", text=","), K("a space", text=" ")
OPEN = [K("the symbol " + x, text=x) for x in "([{"]
CLOSE = [K("the symbol " + x, text=x) for x in ")]}"]
UNKNOWN = [K("an unknown symbol", text="@"), K("an unknown letter", text="q"), K("an unknown word"), K("an unknown letter é", text="é")]
IMAG = K("i", text="i")
IMAGC = K("i, a constant", const=1, text="i")
LETTERS = [K("a variable of one letter", var=1, text="x"), K("a constant of one letter", const=1, text="π"), K("a digit", num=1, text="1")]
CLASHES = [K("a number that is also a variable", num=1, var=1), K("a variable that is also a constant", var=1, const=1),
           K("a variable that is also a function", var=1, fun=1), K("a constant that is also a function", const=1, fun=1),
           K("a function that is also an operator", fun=1, bin=1), K("a variable that is also an operator", var=1, un="pre", bin=1),
           K("a function that is also a prefix operator", fun=1, un="pre"), K("a constant that is also a postfix operator", const=1, un="post"),
           K("a comma that is an operator", bin=1, text=","), K("a bracket that is a function", fun=1, text="["),
           K("a number and everything else", num=1, var=1, const=1, fun=1, bin=1, un="pre")]
ALL = [NUM, VAR, CONST, FUN, PREBIN, PRE, POST, BIN] + LONG + [COMMA, SPACE] + OPEN + CLOSE + UNKNOWN + [IMAG, IMAGC] + LETTERS + CLASHES


def changed(t):
    """Is this a text other than the token's own, made from it?  (Not the whole of it, and not only without blanks around it: a token has none.)"""
    if not isinstance(t, tuple) or not t:
        return False
    last = t[1].rsplit("::", 1)[-1] if t[0] == "call" and isinstance(t[1], str) else t[0]
    if last.startswith(("trim_start_matches", "trim_end_matches", "trim_matches", "trim_left_matches", "trim_right_matches", "strip_", "replace", "repeat", "to_ascii",
                        "to_lowercase", "to_uppercase")):
        return any(has_raw(x) for x in t[1:])
    return any(changed(x) for x in t[1:])


def has_raw(t):
    return isinstance(t, tuple) and (len(t) == 2 and t[0] == "raw" or any(has_raw(x) for x in t))


def raw(i):
    return ("raw", i)


class Tok:
    def __init__(self, classes, blank=False, complex_number=False, merged=None):
        self.cl, self.blank, self.odd = classes, blank, set()
        self.complex, self.merged, self.asked, self.changed = complex_number, merged, set(), set()

    def idx(self, t):
        while isinstance(t, tuple) and t and t[0] == "call" and len(t) == 3 and t[1].rsplit("::", 1)[-1] in ("to_string", "from", "into", "clone", "to_owned", "as_str", "borrow", "as_ref", "deref"):
            t = t[2]
        return t[1] if isinstance(t, tuple) and t and t[0] == "raw" else None

    def text(self, i):
        return self.cl[i].text

    def on_call(self, eng, st, name, args, ctx):
        last = name.rsplit("::", 1)[-1]
        if not args:
            return None
        t = eng.T(st, args[0])
        if last == "split_into_tokens":
            return [(("vec", ("vec0",), "empty", tuple(sym(raw(i)) for i in range(len(self.cl))), ctx.birth if hasattr(ctx, "birth") else None), st)]
        if t == ("expr",):
            if last in ("trim", "trim_start", "trim_end"):
                return [(args[0], st)]
            if last == "is_empty":
                return [(c(int(self.blank)), st)]
            if last == "len":
                return [(c(0 if self.blank else 3), st)]
        if t == CTX or len(args) == 2 and "Context::" in name:
            if last == "config":
                return [(self.config(eng, st), st)]
            i = self.idx(eng.T(st, args[1])) if len(args) > 1 else None
            if i is not None:
                k = self.cl[i]
                q = {"is_variable": k.var, "is_constant": k.const, "is_function": k.fun, "is_binary_function": k.bin,
                     "is_unary_function": int(k.un is not None)}.get(last)
                if q is not None:
                    return [(c(int(q)), st)]
                g = {"get_variable": k.var, "get_constant": k.const, "get_function": k.fun, "get_binary_function": k.bin,
                     "get_unary_function": k.un}.get(last, 7)
                if g != 7:
                    return [(opt_some(sym(("op", i, last))) if g else opt_none(), st)]
            self.odd.add(name)
            return None
        if last == "notation" and t[0] == "op":
            k = self.cl[t[1]]
            return [(("agg", "adt", "function::Notation", self.notations.index("Postfix" if k.un == "post" else "Prefix"), ()), st)]
        if last in ("from_str", "parse") and (self.idx(t) is not None or t[0] == "cat"):
            i = self.idx(t)
            if t[0] == "cat" and any(self.idx(x) is None for x in t[1:]):
                self.odd.add(name)
            yes = self.cl[i].num if i is not None else self.merged
            return [(("agg", "adt", "std::result::Result", 0 if yes else 1, (sym(("numof", t) if yes else ("notnum", t)),)), st)]
        if last in ("from_str", "parse"):
            (self.changed if changed(t) else self.odd).add(name)
        if name == "Add::add" and len(args) == 2:
            i, j = self.idx(t), self.idx(eng.T(st, args[1]))
            if i is not None and j is not None:
                return [(sym(("cat", raw(i), raw(j))), st)]
        if last in ("push_str", "push") and len(args) == 2:
            u = eng.T(st, args[1])
            i, j = self.idx(t), self.idx(u)
            if i is not None and (j is not None or u[0] in ("s", "c", "ch")):
                loc, path = args[0][1], args[0][2]
                while True:
                    w = eng.read_loc(st, loc, path)
                    if w[0] != "ref":
                        break
                    loc, path = w[1], w[2]
                eng.write_loc(st, loc, path, sym(("cat", raw(i), raw(j) if j is not None else u)))
                return [(("agg", "tuple", "", 0, ()), st)]
        if len(args) == 2 and last in ("eq", "ne"):
            u = eng.T(st, args[1])
            for a, b in ((t, u), (u, t)):
                i = self.idx(a)
                if i is not None and b[0] in ("s", "c") and isinstance(b[1], str):
                    self.asked.add(b[1])
                    return [(c(int((self.text(i) == b[1]) == (last == "eq"))), st)]
            if self.idx(t) is not None or self.idx(u) is not None:
                self.odd.add(name)
            return None
        i = self.idx(t)
        if i is not None and (name.startswith("str::") or name.startswith("String::")):
            x = self.text(i)
            if last in ("len", "is_empty"):
                n = len(x.encode()) if x else 4
                return [(c(n if last == "len" else int(n == 0)), st)]
            if last in ("chars", "char_indices"):
                arr = tuple(c(ord(y)) for y in x) if x else tuple(sym(("letter", i, k)) for k in range(3))
                if last == "char_indices":
                    arr = tuple(("agg", "tuple", "", 0, (c(len(x[:k].encode()) if x else k), a)) for k, a in enumerate(arr))
                return [(("iter", ("arr", ("agg", "array", "", 0, arr)), "fresh", None, ()), st)]
            if "case" in last:
                return [(sym((last, t)), st)]
            if last in ("trim",):
                return [(args[0], st)] if x != " " else [(("s", ""), st)]
            if last in ("starts_with", "ends_with", "contains") and x is not None and len(args) == 2:
                u = eng.T(st, args[1])
                y = u[1] if u[0] == "s" else chr(u[1]) if u[0] == "c" and isinstance(u[1], int) else u[1] if u[0] == "c" else None
                if y is not None:
                    return [(c(int({"starts_with": x.startswith, "ends_with": x.endswith, "contains": x.__contains__}[last](y))), st)]
            if last not in ("clone", "as_str", "to_string", "to_owned", "as_ref", "borrow", "deref", "from", "into"):
                self.odd.add(name)
        if name.startswith("char::") and t[0] == "c" and len(args) == 1 and last[3:] and last in C.PRED:
            ch = t[1] if isinstance(t[1], str) else chr(t[1])
            return [(c(int(bool(C.PRED[last](ch)))), st)]
        if t[0] == "letter" and name.startswith("char::"):
            return [(c(int(last in ("is_alphabetic", "is_alphanumeric", "is_ascii", "is_ascii_alphabetic", "is_ascii_alphanumeric"))), st)]
        return None

    def config(self, eng, st):
        loc = ("CFG", 0)
        if loc not in st.mem:
            st.mem[loc] = ("agg", "adt", self.cfg[0], 0, tuple(c(int(self.complex)) if n == "complex_number" else sym(("cfg", n)) for n in self.cfg[1]))
        return ("ref", loc, ())


def words_asked(asked):
    """Classes for the texts the code compares tokens with, where no class has that text: each may be known to the context or not."""
    out = []
    for x in sorted(asked - {k.text for k in ALL} - {""}):
        if re.fullmatch(r"[^\W\d]\w*", x):
            out += [K("the word `%s`" % x, text=x), K("the word `%s`, a variable" % x, var=1, text=x), K("the word `%s`, a constant" % x, const=1, text=x),
                    K("the word `%s`, a function" % x, fun=1, text=x)]
        elif len(x) == 1:
            out += [K("the symbol %s, unknown" % x, text=x), K("the symbol %s, an operator" % x, bin=1, text=x)]
    return out


def entry(cr):
    fs = [f for f in cr.bodies if C.key_fn(f) == "tokenize" and "Tokenizer" in (f.self_def() or f.path)]
    return fs[0] if len(fs) == 1 else None


def setup(cr):
    """(function, Config's name and fields, the notations, the token kinds)"""
    f = entry(cr)
    cfg = [a for a in cr.adts if a.endswith("context::Config")]
    no = [a for a in cr.adts if a.endswith("Notation")]
    tk = [a for a in cr.adts if a.endswith("token::Token")]
    if f is None or not cfg or not no or not tk:
        return None
    return (f, (cfg[0], [x[0] for x in cr.adts[cfg[0]]["variants"][0][1]]), [v[0] for v in cr.adts[no[0]]["variants"]],
            [v[0] for v in cr.adts[tk[0]]["variants"]])


def run(cr, what, classes, **kw):
    """[(list of tokens or 'err <kind>' or None, state)], hook"""
    f, cfg, notations, kinds = what
    hook = Tok(classes, **kw)
    hook.cfg, hook.notations = cfg, notations
    eng = Engine([cr], hooks=hook, max_states=256, budget=40000)
    eng.unroll, eng.exact, eng.depth = 8, 64, 40
    out = []
    for v, s, _ in eng.analyse(f, [sym(("self",)), sym(CTX), sym(("expr",))], State()):
        v = eng.strip(s, v)
        t = eng.T(s, v)
        if t[0] != "agg":
            out.append((None, s))
        elif t[2] == 1:
            out.append(("err", s))
        else:
            w = eng.strip(s, v[4][0])
            if w[0] != "vec" or w[2] != "empty":
                out.append((None, s))
                continue
            toks = []
            for x in w[3]:
                y = eng.T(s, x)
                toks.append((kinds[y[2]],) + tuple(norm(hook, z) for z in y[3:]) if y[0] == "agg" else None)
            out.append((None if None in toks else toks, s))
    return out, hook, eng


def norm(h, z):
    i = h.idx(z)
    if i is not None:
        return raw(i)
    if z[0] == "c" and isinstance(z[1], int):
        return ("c", chr(z[1]))
    return z


def show(classes):
    return ", ".join(k.label for k in classes) or "nothing"
