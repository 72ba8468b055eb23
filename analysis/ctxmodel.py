"""The default context: its maps as abstract values, every lookup, insertion and other write an event of the path."""
from absint import Engine, State, c, sym, opt_none, opt_some, contains
from panics import show

CTX, FUNC, NAME, VAL, OWN = ("ctx",), ("func",), ("name",), ("value",), ("its own name",)
READS = {"len", "is_empty", "capacity", "iter", "keys", "values", "get", "contains_key", "get_key_value", "front", "back", "hasher",
         "into_iter", "clone", "deref", "borrow", "as_ref", "fmt", "eq"}
FOLD = ("str::to_lowercase", "str::to_uppercase")

# what the predicates of char mean, for the witnesses
import unicodedata
PRED = {
    "is_whitespace": lambda ch: ch.isspace() and ch not in "\x1c\x1d\x1e\x1f",
    "is_control": lambda ch: unicodedata.category(ch) == "Cc",
    "is_alphanumeric": lambda ch: ch.isalnum(), "is_alphabetic": lambda ch: ch.isalpha(), "is_numeric": lambda ch: ch.isnumeric(),
    "is_lowercase": lambda ch: ch.islower(), "is_uppercase": lambda ch: ch.isupper(), "is_ascii": lambda ch: ord(ch) < 128,
    "is_ascii_whitespace": lambda ch: ch in " \t\n\x0c\r", "is_ascii_control": lambda ch: ord(ch) < 32 or ord(ch) == 127,
    "is_ascii_alphanumeric": lambda ch: ord(ch) < 128 and ch.isalnum(), "is_ascii_alphabetic": lambda ch: ord(ch) < 128 and ch.isalpha(),
    "is_ascii_digit": lambda ch: ch in "0123456789", "is_ascii_punctuation": lambda ch: ord(ch) < 127 and ord(ch) > 32 and not ch.isalnum(),
    "is_ascii_graphic": lambda ch: 32 < ord(ch) < 127,
}
BAD = [" ", "\t", "\n", "\u00a0", "\u2003", "\u3000", "\x00", "\x07", "\x1b", "\x7f", "\u0085", "\u009f"]
GOOD = ["a", "Z", "_", "1", "+", "-", "#", "é", "π", "∑", "名", "5", "m", "Q", "@", "'", ".", "(", "√", "°", "½", "ß", "ñ", "я", "\u0301", "\u200b", "\u200d", "\ufeff", "\u00ad",
        "\U0001d465", "\ue000", "\ufffd"]


def ic(a, b):
    return ("iceq",) + tuple(sorted((a, b), key=str))


class Maps:
    """Hook: `chars` is the number of (unknown) characters of the name, None when the name is one unknown; `aliases` the number of
    aliases of the operation (None: it has none), `entries` how many entries each map already has when iterated."""

    def __init__(self, chars=None, aliases=None, entries=1, own=NAME):
        self.chars, self.aliases, self.entries, self.own = chars, aliases, entries, own
        self.odd = set()

    # ------------------------------------------------------------ terms
    def key(self, t):
        if isinstance(t, tuple) and t and t[0] == "agg" and "IgnoreCaseStr" in str(t[1]):
            t = self.plain(t[3])
            while isinstance(t, tuple) and t[0] == "call" and len(t) == 3 and t[1] in FOLD:
                t = self.plain(t[2])
            return ("ic", t)
        if isinstance(t, tuple) and t and t[0] == "call" and len(t) == 3 and t[1] in FOLD:
            return ("fold", t[1], self.plain(t[2]))
        return ("exact", self.plain(t))

    def plain(self, t):
        while isinstance(t, tuple) and len(t) == 3 and t[0] == "call" and t[1] in ("String::from", "From::from", "Into::into", "str::trim@no"):
            t = t[2]
        return t

    def is_map(self, t):
        return isinstance(t, tuple) and len(t) == 3 and t[0] == "fld" and t[1] == CTX and isinstance(t[2], int)

    def event(self, st, *e):
        cur = st.mem.get(("X", "writes"))
        st.mem[("X", "writes")] = c((cur[1] if cur else ()) + (e,))

    @staticmethod
    def writes(st):
        cur = st.mem.get(("X", "writes"))
        return cur[1] if cur else ()

    # ------------------------------------------------------------ the hook
    def on_call(self, eng, st, name, args, ctx):
        last = name.rsplit("::", 1)[-1]
        if "Function::" in name and args and eng.T(st, args[0]) == FUNC:
            if last == "name":
                return [(sym(self.own), st)]
            if last == "aliases":
                if self.aliases is None:
                    return [(opt_none(), st)]
                loc = ("ALIASES", 0)
                st.mem[loc] = ("agg", "array", "", 0, tuple(sym(("alias", i)) for i in range(self.aliases)))
                return [(opt_some(("ref", loc, ())), st)]
            return None
        r = self.strings(eng, st, name, last, args, ctx)
        if r is not None or not args:
            return r
        t = eng.T(st, args[0])
        if self.is_map(t):
            return self.on_map(eng, st, t, last, args, ctx)
        if len(args) == 2:
            # comparisons that ignore the case of letters
            a, b = eng.T(st, args[0]), eng.T(st, args[1])
            if last == "eq_ignore_ascii_case":
                ka, kb = self.key(a), self.key(b)
                return [(sym(("asciieq",) + tuple(sorted((ka[-1], kb[-1]), key=str))), st)]
            fn = eng.fn_by_key.get(ctx.info.get("rkey"))
            own = fn is not None and ("IgnoreCaseStr" in (fn.self_def() or "") or fn.path.endswith("eq_ignore_case"))
            if (own and last in ("eq", "ne", "eq_ignore_case")) or name == "PartialEq::eq" or name == "PartialEq::ne":
                ka, kb = self.key(a), self.key(b)
                if fn is not None and fn.path.endswith("eq_ignore_case"):
                    ka, kb = ("ic", ka[-1]), ("ic", kb[-1])
                if ka[0] == kb[0] and ka[0] in ("ic", "fold") and ka[:-1] == kb[:-1]:
                    v = ic(ka[-1], kb[-1])
                    return [(sym(("not", v)) if last == "ne" else sym(v), st)]
        return None

    def strings(self, eng, st, name, last, args, ctx):
        if self.chars is None or not args or not (name.startswith("str::") or name.startswith("String::")):
            return None
        t = eng.T(st, args[0])
        cs = [sym(("ch", i)) for i in range(self.chars)]
        if t == NAME:
            if last == "chars":
                return [(("iter", ("arr", ("agg", "array", "", 0, tuple(cs))), "fresh", None, ()), st)]
            if last == "is_empty":
                return [(c(int(self.chars == 0)), st)]
            if last in ("trim", "trim_start", "trim_end"):
                return [(sym(("trim", NAME)), st)]
            if last in ("contains", "find") and eng.strip(st, args[1])[0] in ("fn", "clo"):
                work, out = [(0, st)], []
                yes, no = (c(1), c(0)) if last == "contains" else (opt_some(sym(("at",))), opt_none())
                while work:
                    i, s = work.pop()
                    if i == len(cs):
                        out.append((no, s))
                        continue
                    for r, s2 in eng.invoke(s, args[1], [cs[i]], ctx.fn, ctx.frame, (ctx.block, "has", i), ctx.site, ctx.stack):
                        for tv, s3 in eng.branch_bool(s2, r):
                            out.append((yes, s3)) if tv else work.append((i + 1, s3))
                return out
            if last in ("len", "bytes", "char_indices", "as_bytes", "split_whitespace"):
                self.odd.add(name)
        elif t == ("trim", NAME) and last in ("is_empty", "len"):
            ws = [("call", "char::is_whitespace", ("ch", i)) for i in range(self.chars)]
            out = []
            s = st.copy()
            if all([eng.assume(s, w, 1) for w in ws]):
                out.append((c(1) if last == "is_empty" else c(0), s))
            for k in range(len(ws)):
                s = st.copy()
                if all([eng.assume(s, w, 1) for w in ws[:k]]) and eng.assume(s, ws[k], 0):
                    out.append((c(0) if last == "is_empty" else c(1), s))
            return out
        return None

    def on_map(self, eng, st, m, last, args, ctx):
        if len(args) > 1:
            k = self.key(eng.T(st, args[1]))
            mine = [w for w in self.writes(st) if w[0] == "insert" and w[1] == m and w[2] == k]
        got = ("got", m, k) if len(args) > 1 else None
        if last == "contains_key":
            if mine:
                return [(c(1), st)]
            out = []
            for x in (1, 0):
                s = st.copy()
                if eng.assume(s, ("disc", got), x):
                    out.append((c(x), s))
            return out
        if last == "get":
            if mine:
                return [(opt_some(sym(mine[-1][3])), st)]
            return [(sym(got), st)]
        if last == "insert":
            v = eng.T(st, args[2])
            prev = opt_some(sym(mine[-1][3])) if mine else sym(got)
            self.event(st, "insert", m, k, v)
            return [(prev, st)]
        if last in ("keys", "iter", "into_iter", "values"):
            el = []
            for i in range(self.entries):
                kv = [sym(("key", m, i)), sym(("val", m, i))]
                el.append(kv[0] if last == "keys" else kv[1] if last == "values" else ("agg", "tuple", "", 0, tuple(kv)))
            return [(("iter", ("arr", ("agg", "array", "", 0, tuple(el))), "fresh", None, ()), st)]
        if last not in READS:
            self.event(st, "write", m, last)
        self.odd.add("map " + last)
        return None


def engine(cr, hook):
    eng = Engine([cr], hooks=hook, max_states=1024, budget=60000)
    eng.unroll, eng.exact, eng.depth = 8, 256, 40
    return eng


def key_fn(f):
    return f.path.rsplit("::", 1)[-1]


def methods(cr):
    """The public methods of the default context by name."""
    return {key_fn(f): f for f in cr.bodies if "DefaultContext" in f.path and f.kind in ("fn", "method")}


def runs(cr, f, args, **scope):
    # an operation registered under a given name may call itself otherwise
    hook = Maps(own=OWN if FUNC in args and NAME in args else NAME, **scope)
    eng = engine(cr, hook)
    st = State()
    out = []
    for v, s, _ in eng.analyse(f, [sym(a) for a in args], st):
        t = eng.T(s, v)
        w = list(hook.writes(s))
        if ("S", CTX) in s.mem:
            w.append(("write", s.mem["S", CTX], "assignment"))
        out.append((t, s, w))
    return out, eng, hook


def outcome(t):
    """'ok', 'err' or None for the term of a result."""
    if isinstance(t, tuple) and t[0] == "agg" and str(t[1]).endswith("Result"):
        return "ok" if t[2] == 0 else "err"
    return None


def holds(st, ch, i):
    """Can the i-th character be `ch` on this path?  None if a fact about it has no known meaning."""
    ok = True
    for k, v in st.facts.items():
        if not contains(k, ("ch", i)):
            continue
        if k == ("allow", ("ch", i)):
            if ch in v[2]:
                ok = ok and ch in v[1]
            continue
        if k[0] in ("le", "lt", "ge", "gt") and k[1] != k[2] and ("ch", i) in k[1:] and (k[1][0] == "c" or k[2][0] == "c") and v[0] == "=":
            a, b = (ord(ch) if t == ("ch", i) else t[1] if isinstance(t[1], int) else ord(t[1]) for t in k[1:])
            r = {"le": a <= b, "lt": a < b, "ge": a >= b, "gt": a > b}[k[0]]
            ok = ok and r == bool(v[1])
        elif k[0] == "call" and k[1].startswith("char::") and k[-1] == ("ch", i) and len(k) == 3 and k[1][6:] in PRED and v[0] == "=":
            ok = ok and PRED[k[1][6:]](ch) == bool(v[1])
        elif k[0] in ("eq", "ne") and k[1] == ("ch", i) and k[2][0] == "c" and v[0] == "=":
            other = k[2][1] if isinstance(k[2][1], str) else chr(k[2][1])
            ok = ok and (ch == other) == (k[0] == "eq") == bool(v[1])
        elif k == ("ch", i) or k == ("rng", ("ch", i)):
            if v[0] == "=":
                ok = ok and ord(ch) == v[1]
            elif v[0] == "!":
                ok = ok and ord(ch) not in v[1]
            elif v[0] == "r":
                ok = ok and (v[1] is None or ord(ch) >= v[1]) and (v[2] is None or ord(ch) <= v[2])
        else:
            return None
    return ok


def long_enough(s, least=1, ignore=()):
    """Is all that the path knows of the name a condition on its length that a name of some length above 0 meets?"""
    lens = (("len", NAME), ("call", "str::len", NAME), ("call", "String::len", NAME))
    got = [(k, v) for k, v in s.facts.items() if contains(k, NAME) and k not in ignore]
    if not got:
        return True
    for n in (1, 2, 3, 5, 8, 17, 40, 100):
        if n < least:
            continue
        ok = True
        for k, v in got:
            if k in lens or k[0] == "rng" and k[1] in lens:
                ok = ok and (n == v[1] if v[0] == "=" else n not in v[1] if v[0] == "!" else v[0] == "r" and (v[1] is None or n >= v[1]) and (v[2] is None or n <= v[2]))
            elif k[0] in ("lt", "le", "gt", "ge", "eq", "ne") and len(k) == 3 and v[0] == "=" and all(x in lens or x[0] == "c" and isinstance(x[1], int) for x in k[1:]):
                a, b = (n if x in lens else x[1] for x in k[1:])
                ok = ok and {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[k[0]] == bool(v[1])
            elif k[0] == "call" and k[1].endswith("is_empty") and v[0] == "=":
                ok = ok and not v[1]
            else:
                return False
        if ok:
            return True
    return False


def witness(st, n, cls):
    """A name of n characters, one of them in cls and the others ordinary, that the path allows; None if there is none, '?' if unknown."""
    unknown = False
    for bad in range(n):
        name = []
        for i in range(n):
            for ch in (cls if i == bad else GOOD):
                r = holds(st, ch, i)
                if r is None:
                    unknown = True
                    break
                if r:
                    name.append(ch)
                    break
            else:
                break
        if len(name) == n:
            return "".join(name)
    return "?" if unknown else None


ADDERS = {"add_function": "get_function", "add_unary_function": "get_unary_function", "add_binary_function": "get_binary_function"}
SETTERS = {"add_constant": "get_constant", "set_variable": "get_variable"}


def fields(cr, rep):
    """{getter: (field, kind of key)} by interpreting the getters."""
    ms = methods(cr)
    out = {}
    for g in list(ADDERS.values()) + list(SETTERS.values()):
        f = ms.get(g)
        if f is None:
            rep.bad("lookup:" + g, "the context has no %s" % g)
            continue
        outs, eng, hook = runs(cr, f, [CTX, NAME])
        seen = set()
        for t, s, w in outs:
            got = t if t[0] == "got" else (t[3][1] if t[0] == "agg" and len(t) > 3 and t[3][0] == "fld" and t[3][1][0] == "got" else None)
            if t[0] == "agg" and t[2] == 1 and len(t) > 3 and t[3][0] == "fld":
                got = t[3][1]
            if t[0] == "agg" and t[2] == 1 and len(t) > 3 and t[3][0] == "val":
                # found by going through the map
                m, i = t[3][1:]
                how = {k[0] for k, v in s.facts.items() if v == ("=", 1) and k[0] in ("iceq", "eq") and contains(k, ("key", m, i)) and contains(k, NAME)}
                got = ("got", m, ({"iceq": "ic", "eq": "exact"}[how.pop()], NAME)) if len(how) == 1 else None
            elif t[0] == "agg" and t[2] == 0 and any(contains(k, ("key",)) or "key" in str(k) for k in s.facts):
                continue
            elif t[0] == "agg" and t[2] == 0:
                cand = [k[1] for k, v in s.facts.items() if k[0] == "disc" and k[1][0] == "got" and v == ("=", 0)]
                got = cand[0] if cand else None
            seen.add(got)
        if len(seen) == 1 and None not in seen:
            got = seen.pop()
            out[g] = (got[1], got[2])
            continue
        # one answer from the name itself and another from the same map under a name made from it: a second name reaches the entry
        plain = [x for x in seen if x and x[2][1] == NAME]
        other = [x for x in seen if x and x[2][1] != NAME and contains(x[2][1], NAME)]
        if plain and any(x[1] == o[1] for x in plain for o in other):
            rep.bad("lookup:" + g, "%s: a name that is not there is looked for again as another one made from it (%s): two names reach one entry" % (g, show(other[0][2][1], -3)))
        else:
            rep.undec("lookup:" + g, "what %s returns is not known: %s" % (g, [show(o[0], -3) for o in outs]))
    return out
