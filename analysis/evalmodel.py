"""Rules over the conversion to RPN and the RPN evaluation, decided on the abstract interpretation of both.

The analysis follows the three kinds of storage the conversion uses, whatever they are called: the
vector it returns (`output`), the vector that holds pending tokens (`operators`), and the counters.
Every push, pop and call is an event, checked against the facts known on the paths that reach it.
"""
from absint import Engine, State, sym, c, contains, subst, res_ok, res_err, opt_none, opt_some
import models as M

OPERAND = ("Number", "Variable", "Constant")


def config_opaque(f):
    return (f.self_def() or "").endswith("context::Config") and f.trait is None


class Base:
    """Common part: token kinds, the current token, what is known about it."""

    def __init__(self, rep_events, crate):
        self.cr = crate
        self.names = [v[0] for v in crate.adts["token::Token"]["variants"]]
        self.idx = {n: i for i, n in enumerate(self.names)}
        self.ev = rep_events          # dict rule -> {"n": int, "bad": {key: msg}, "samples": []}
        self.st = None

    # ------------------------------------------------------------ reporting
    def tainted(self):
        """Does the path at hand depend on a call the analysis has no model of?  Then nothing is claimed about it."""
        st = self.st
        if st is None:
            return False

        def names(t):
            if isinstance(t, tuple) and t:
                if t[0] == "call" and len(t) > 1 and isinstance(t[1], str):
                    if not t[1].startswith(("Context::", "Config::", "Ord::cmp", "PartialOrd::partial_cmp")) and "Function::" not in t[1]:
                        return True
                if t[0] == "ret" or t[0] == "hv":
                    return True
                return any(names(x) for x in t if isinstance(x, tuple))
            return False
        return any(names(k) for k in st.facts) or any(names(v) for l, v in st.mem.items() if l[0] != "P")

    def ob(self, rule, good, key, msg, ctx=None, st=None):
        if good is False and self.tainted():
            good = None
        r = self.ev.setdefault(rule, {"n": 0, "bad": {}, "samples": []})
        r["n"] += 1
        where = ""
        if ctx is not None:
            where = "%s at %s" % (ctx.fn.path, ctx.site[1])
        if good is None:
            r.setdefault("undec", {}).setdefault(key, "%s [%s]" % (msg, where))
        elif not good:
            r["bad"].setdefault(key, "%s [%s]" % (msg, where))
        elif len(r["samples"]) < 3 and where not in [s["where"] for s in r["samples"]]:
            r["samples"].append({"rule": rule, "where": where, "obligation": key})
        return good

    # ------------------------------------------------------------ tokens
    def kinds(self, st, t):
        """The set of token kinds the term may denote."""
        if t[0] == "agg":
            if t[1].endswith("Token"):
                return {self.names[t[2]]}
        f = st.facts.get(("disc", t))
        if f is None:
            return set(self.names)
        if f[0] == "=":
            return {self.names[f[1]]}
        return {n for i, n in enumerate(self.names) if i not in f[1]}

    def payload(self, t, kind):
        if t[0] == "agg":
            return t[3] if len(t) > 3 else None
        return ("fld", t, ("v", self.idx[kind], 0))

    def cur(self, eng, st):
        v = st.mem.get(("X", "cur"))
        if v is None:
            return None
        return eng.T(st, v)

    def ghost(self, st, name):
        v = st.mem.get(("X", name))
        return v[1] if v is not None and v[0] == "c" else None

    def setg(self, st, name, val):
        st.mem[("X", name)] = c(val)


def disc_known(st, t):
    f = st.facts.get(("disc", t))
    return f[1] if f is not None and f[0] == "=" else None


def uses(st, t):
    """All facts whose term mentions t."""
    return [(k, v) for k, v in st.facts.items() if contains(k, t)]


def prec_facts(st, top, cur):
    """What is known about precedence(top) against precedence(cur): subset of {'<','=','>'} still possible."""
    poss = {"<", "=", ">"}

    def isprec(x, t):
        return x[0] == "call" and x[1].endswith("::precedence") and contains(x, t)

    table = {"lt": ({"<"}, {"=", ">"}), "le": ({"<", "="}, {">"}), "gt": ({">"}, {"<", "="}), "ge": ({">", "="}, {"<"}),
             "eq": ({"="}, {"<", ">"}), "ne": ({"<", ">"}, {"="})}
    flip = {"<": ">", ">": "<", "=": "="}

    def strip1(x):
        # a newtype compared through its field
        while x[0] == "fld" and x[2] == 0:
            x = x[1]
        return x
    for k, v in st.facts.items():
        if v[0] == "!" and isinstance(k, tuple) and k[0] == "disc" and isinstance(k[1], tuple) and k[1][0] == "call" \
                and k[1][1] in ("Ord::cmp", "PartialOrd::partial_cmp"):
            a, b = strip1(k[1][2]), strip1(k[1][3])
            s = {"<", "=", ">"} - {{-1: "<", 255: "<", 0: "=", 1: ">"}.get(x) for x in v[1]}
            if isprec(a, top) and isprec(b, cur):
                poss &= s
            elif isprec(b, top) and isprec(a, cur):
                poss &= {flip[x] for x in s}
        if v[0] != "=" or not isinstance(k, tuple):
            continue
        if k[0] in table and len(k) == 3 and isinstance(k[1], tuple) and isinstance(k[2], tuple):
            a, b = strip1(k[1]), strip1(k[2])
            s = table[k[0]][0] if v[1] == 1 else table[k[0]][1]
            if isprec(a, top) and isprec(b, cur):
                poss &= s
            elif isprec(b, top) and isprec(a, cur):
                poss &= {flip[x] for x in s}
        if k[0] == "disc" and isinstance(k[1], tuple) and k[1][0] == "call" and k[1][1] in ("Ord::cmp", "PartialOrd::partial_cmp"):
            a, b = strip1(k[1][2]), strip1(k[1][3])
            m = {-1: "<", 255: "<", 0: "=", 1: ">"}
            s = {m.get(v[1])} if v[1] in m else None
            if s:
                if isprec(a, top) and isprec(b, cur):
                    poss &= s
                elif isprec(b, top) and isprec(a, cur):
                    poss &= {flip[x] for x in s}
    return poss


def assoc_facts(st, top, left_idx):
    """True/False/None: is the associativity of the operator named by top known to be Left?"""
    for k, v in st.facts.items():
        if k[0] == "disc" and isinstance(k[1], tuple) and k[1][0] == "call" and k[1][1].endswith("::associativity") \
                and contains(k[1], top):
            if v[0] == "=":
                return v[1] == left_idx
            if v[0] == "!" and left_idx in v[1]:
                return False
            if v[0] == "!" and 1 - left_idx in v[1]:
                return True
        if k[0] == "eq" and v[0] == "=" and len(k) == 3:
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if x[0] == "call" and x[1].endswith("::associativity") and contains(x, top) and y[0] == "agg":
                    if v[1] == 1:
                        return y[2] == left_idx
                    return y[2] != left_idx
    return None


class TokenLoop(Base):
    """Ghost bookkeeping shared by both loops: which token is being processed, and when it is done."""
    SRC = None

    def is_token_iter(self, eng, st, v):
        loc, path, it = M.get_iter(eng, st, v)
        return it[0] == "iter" and it[1][0] == "seq" and it[1][1] == self.SRC

    def on_result(self, eng, st, name, args, ctx, after):
        self.st = st
        if after is None:
            if name == "Iterator::next" and args and self.is_token_iter(eng, st, args[0]):
                self.finish(eng, st, ctx)
                if self.cur(eng, st) != ("s", "start"):
                    self.forget(eng, st)
                return "next"
            return None
        tok, res = after
        out = []
        for v, s in res:
            for x, get, s2 in eng.split(s, v, (0, 1)):
                if x == 0:
                    s2.mem[("X", "cur")] = ("s", "end")
                    self.setg(s2, "end", 1)
                else:
                    e = eng.strip(s2, get(0))
                    self.shift(s2)
                    tok = eng.fresh(s2, ("tok",))
                    pos = eng.fresh(s2, ("pos",))
                    self.unshift(s2)
                    if e[0] == "agg" and e[1] == "tuple" and len(e[4]) == 2:      # enumerate()
                        begun = self.ghost(s2, "begun")
                        self.setg(s2, "begun", 1)
                        if begun == 0:
                            s2.facts[pos[1]] = ("=", 0)
                        s2.facts[("rng", pos[1])] = ("r", 0 if begun != 1 else 1, 0 if begun == 0 else None)
                        s2.facts[("lt", pos[1], ("len", self.SRC))] = ("=", 1)
                        s2.mem[("X", "pos")] = pos
                        tok = sym(("elem", self.SRC, pos[1]))
                        v2 = opt_some(e[:4] + ((pos, tok),))
                    else:
                        v2 = opt_some(tok)
                    s2.mem[("X", "cur")] = tok
                    self.setg(s2, "end", 0)
                    v = v2
                self.begin(eng, s2, ctx)
                out.append((v, s2))
        return out

    def shift(self, st):
        """What was the current token becomes the one before it (also when the code remembers it in a variable)."""
        def sh(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == "elem" and len(v) == 3 and v[1] == self.SRC:
                i = v[2]
                if i == ("pos",):
                    return ("elem", self.SRC, ("sub", ("npos",), ("c", 1)))
                if i == ("sub", ("pos",), ("c", 1)):
                    return ("elem", self.SRC, ("sub", ("npos",), ("c", 2)))
            return tuple(sh(x) for x in v)
        for l, v in list(st.mem.items()):
            if l[0] != "X" and contains(v, ("pos",)):
                st.mem[l] = sh(v)

    def unshift(self, st):
        for l, v in list(st.mem.items()):
            if contains(v, ("npos",)):
                st.mem[l] = subst(v, ("npos",), ("pos",))

    def partition(self, eng, st):
        cur = self.cur(eng, st)
        if cur is None or cur[0] == "s":
            return cur
        ks = frozenset(self.kinds(st, cur))
        if len(ks) == 1:
            self.verdicts(eng, st, cur, next(iter(ks)))
        return ks, self.extra(eng, st, cur)

    def extra(self, eng, st, cur):
        return None

    def verdicts(self, eng, st, cur, k):
        """Establishes, before states are merged, what each of them has shown about the current token."""

    def forget(self, eng, st):
        """Between two tokens: keep nothing but the sort of each value (the rules are about one token at a time,
        whatever came before it)."""
        st.facts.clear()

        def weak(l, v):
            if v[0] == "vec":
                return ("vec", ("w", l), "unk", (), v[4])
            if v[0] == "agg" and any(x[0] == "vec" for x in v[4]):
                return v[:4] + (tuple(weak((l, i), x) for i, x in enumerate(v[4])),)
            return v
        for l, v in list(st.mem.items()):
            st.mem[l] = weak(l, v)
        st.mem[("X", "pos")] = sym(("nopos",))

    def begin(self, eng, st, ctx):
        pass

    def finish(self, eng, st, ctx):
        pass


class Shunt(TokenLoop):
    GHOSTS = ("begun", "expectfn", "end", "done", "argc", "opsempty", "paid", "alt", "nonempty", "match", "flushed", "paren")
    VERDICTS = ("alt", "nonempty", "match", "flushed", "paren")

    def __init__(self, ev, crate, out_birth=None, ops_birth=None, counters=None):
        super().__init__(ev, crate)
        self.known_counters = counters or {}
        self.out, self.ops = out_birth or set(), ops_birth or set()
        self.seen_ops, self.SRC = set(), ("arg", 0)
        self.left = [i for i, v in enumerate(crate.adts["function::Associativity"]["variants"]) if v[0] == "Left"][0]
        self.prefix = [i for i, v in enumerate(crate.adts["function::Notation"]["variants"]) if v[0] == "Prefix"][0]
        cf = crate.adts["context::Config"]["variants"][0][1]
        self.flag = {f[0]: i for i, f in enumerate(cf)}
        self.counters = {}
        self.panics = []
        self.pos_births = set()
        self.pos_pushed = 10 ** 9     # the smallest token position ever stored in a vector

    # ------------------------------------------------------------ small queries
    def cfg(self, st, name):
        i = self.flag[name]
        for k, v in st.facts.items():
            if k[0] == "fld" and k[2] == i and isinstance(k[1], tuple) and k[1][0] == "call" and k[1][1] == "Context::config":
                return v[1] if v[0] == "=" else None
        return None

    def found(self, st, getter, t):
        """Is the operator named by token t known to be registered?"""
        for k, v in st.facts.items():
            if k[0] == "disc" and isinstance(k[1], tuple) and k[1][0] == "call" and k[1][1] == getter and contains(k[1], t):
                if v == ("=", 1) or v == ("!", frozenset([0])):
                    return True
        return False

    def postfix(self, st, t):
        """True/False/None: notation of the unary operator named by token t."""
        for k, v in st.facts.items():
            if k[0] == "disc" and isinstance(k[1], tuple) and k[1][0] == "call" and k[1][1].endswith("::notation") \
                    and contains(k[1], t):
                if v[0] == "=":
                    return v[1] != self.prefix
                if v[0] == "!":
                    return self.prefix in v[1]
            if k[0] == "disc" and isinstance(k[1], tuple) and k[1][0] == "call" and k[1][1] == "Context::get_unary_function" \
                    and contains(k[1], t) and v in (("=", 0), ("!", frozenset([1]))):
                return False
        return None

    def top_of(self, eng, st, v):
        if v[3]:
            return eng.T(st, v[3][-1])
        if v[2] == "empty" or eng.rng(st, ("len", v[1]))[1] == 0:
            return None
        return ("top", v[1])

    # ------------------------------------------------------------ iteration protocol
    def begin(self, eng, st, ctx):
        for g in ("done", "argc", "paid", "expectfn") + self.VERDICTS:
            self.setg(st, g, 0)
        st.mem[("X", "popped")] = ("s", "none")
        st.mem[("X", "lastopen")] = ("s", "none")
        st.mem[("X", "count")] = c(-1)

    def start(self, st):
        self.setg(st, "end", 0)
        self.setg(st, "opsempty", 0)
        st.mem[("X", "cur")] = ("s", "start")
        for g in ("done", "argc", "paid", "expectfn") + self.VERDICTS:
            self.setg(st, g, 0)
        st.mem[("X", "popped")] = ("s", "none")
        st.mem[("X", "lastopen")] = ("s", "none")
        st.mem[("X", "count")] = c(-1)

    def neighbours(self, eng, st, cur):
        """Terms for the token before / before that, relative to the current position."""
        pos = st.mem.get(("X", "pos"))
        if pos is None:
            return None
        p = eng.T(st, pos)
        return p

    def elem_at(self, st, p, k):
        """Known kinds of tokens[pos - k]; the set of kinds, plus None when there may be no such token."""
        t = ("elem", self.SRC, ("sub", p, ("c", k)))
        return t

    def finish(self, eng, st, ctx):
        cur = self.cur(eng, st)
        if cur is None or cur == ("s", "start") or cur == ("s", "end"):
            return
        self.settle(eng, st, ctx)
        ks = self.kinds(st, cur)
        n = self.ghost(st, "done")
        self.ob("argcount-at", self.ghost(st, "expectfn") != 1, "argcount-alone",
                "an argument count is written without the function it belongs to", ctx)
        allowed = {"Number", "Variable", "Constant", "Function", "BinaryOperator", "UnaryOperator", "GroupingOpen",
                   "GroupingClose", "Comma"}
        for k in ks:
            self.ob("accept", k in allowed, "accepts:" + k,
                    "a %s token is passed over without an error" % k, ctx)
        if len(ks) != 1:
            return
        k = next(iter(ks))
        if k in ("Number", "Variable", "Constant", "Function", "BinaryOperator", "UnaryOperator", "GroupingOpen"):
            self.ob("once", n == 1, "once:" + k,
                    "a %s token of the input is stored %s times, it must be stored exactly once" % (k, n), ctx)
        self.verdicts(eng, st, cur, k)
        if k == "GroupingClose":
            self.ob("close", self.ghost(st, "match") == 1, "close-without-open",
                    "a closing symbol is accepted on a path that does not establish that the nearest pending opening "
                    "symbol is the one that matches it", ctx)
            self.ob("empty", self.ghost(st, "nonempty") == 1, "empty-group",
                    "a closing symbol directly after its opening symbol is accepted on a path that does not establish that "
                    "a function name comes before them", ctx)
        if k == "Comma":
            self.ob("comma", self.ghost(st, "flushed") == 1, "comma-leaves-operators",
                    "after a comma the pending operators of the argument before it are not all moved to the output", ctx)
            self.ob("commacount", self.ghost(st, "argc") == 1, "comma-not-counted",
                    "a comma is accepted without adding one to the argument count of the function it belongs to", ctx)
        if k == "Function":
            self.ob("paren", self.ghost(st, "paren") == 1, "call-without-parenthesis",
                    "a function call is accepted on a path that neither establishes that a parenthesis follows nor that "
                    "other call syntax is enabled", ctx)
            self.ob("funcount", self.ghost(st, "argc") == 1, "function-not-counted",
                    "a function call is accepted without starting its argument count", ctx)
        if self.known_pos(eng, st):
            self.ob("alternate", self.ghost(st, "alt") == 1, "misplaced:" + k, {
                "BinaryOperator": "a binary operator is accepted on a path where nothing before it is known to be its left "
                                  "operand",
                "Comma": "a comma is accepted on a path where nothing before it is known to be an argument",
                "GroupingClose": "a closing symbol is accepted on a path where neither an operand nor the opening symbol is "
                                 "known to come before it",
                "UnaryOperator": "a prefix operator is accepted after an operand, or a postfix operator without one",
            }.get(k, "a %s token is accepted on a path where the token before it may end an operand" % k), ctx)

    def verdicts(self, eng, st, cur, k):
        if self.ghost(st, "alt") != 1 and self.alternates(eng, st, cur, k):
            self.setg(st, "alt", 1)
        if k == "GroupingClose":
            if self.ghost(st, "match") != 1 and self.matched(eng, st, cur):
                self.setg(st, "match", 1)
            if self.ghost(st, "nonempty") != 1 and self.not_empty(eng, st, cur):
                self.setg(st, "nonempty", 1)
        if k == "Function" and self.ghost(st, "paren") != 1 and (self.cfg(st, "custom_function_call") == 1 or
                                                                 self.paren_next(st, cur)):
            self.setg(st, "paren", 1)
        if k == "Comma" and self.ghost(st, "flushed") != 1:
            ops = self.ops_value(st)
            if ops is not None:
                t = self.top_of(eng, st, ops)
                if t is not None and self.kinds(st, t) == {"GroupingOpen"}:
                    self.setg(st, "flushed", 1)

    def extra(self, eng, st, cur):
        """Until the position of the token is judged: what is known about the token before it."""
        p = self.neighbours(eng, st, cur)
        if p is None or p == ("nopos",) or self.ghost(st, "alt") == 1:
            return None
        prev = self.elem_at(st, p, 1)
        pk = self.kinds(st, prev)
        if len(pk) != len(self.names):
            m = {"Variable": "Constant", "Function": "Comma", "BinaryOperator": "Comma", "ArgCount": "Comma", "Unknown": "Comma"}
            pk = frozenset(m.get(x, x) for x in pk)
        else:
            pk = None
        z = eng.lookup(st, ("eq", p, ("c", 0)))
        if z is None and eng.rng(st, p)[1] == 0:
            z = 1
        return pk, z, self.postfix(st, prev)

    def known_pos(self, eng, st):
        return st.mem.get(("X", "pos")) not in (None, sym(("nopos",)))

    def forget(self, eng, st):
        super().forget(eng, st)
        self.start(st)

    def paren_next(self, st, cur):
        for k, v in st.facts.items():
            if k[0] == "disc" and v[0] == "=" and k[1] != cur and contains(k[1], self.SRC) and \
                    self.names[v[1]].startswith("Grouping"):
                p = self.payload(k[1], self.names[v[1]])
                if st.facts.get(p) == ("=", 40) or st.facts.get(("eq", p, ("c", 40))) == ("=", 1):
                    return True
        return False

    def ops_value(self, st):
        for l, v in st.mem.items():
            if v[0] == "vec" and v[4] in self.ops:
                return v
            if v[0] == "agg":
                for x in v[4]:
                    if isinstance(x, tuple) and x and x[0] == "vec" and x[4] in self.ops:
                        return x
        return None

    def refuted(self, st, payload):
        """Is some equality with this payload known to be false?"""
        for k, v in st.facts.items():
            if k[0] in ("eq",) and v == ("=", 0) and contains(k, payload):
                return True
            if k[0] == "disc" and v == ("=", 0) and isinstance(k[1], tuple) and k[1][0] == "call" and \
                    k[1][1].startswith("Config::get_group"):
                return True
        return False

    def not_empty(self, eng, st, cur):
        """Is it established that the group closed by the current token is not empty, or belongs to a function?"""
        p = self.neighbours(eng, st, cur)
        if p is None or p == ("nopos",):
            return False
        if eng.rng(st, p)[1] == 0:
            return True
        prev, prev2 = self.elem_at(st, p, 1), self.elem_at(st, p, 2)
        if "GroupingOpen" not in self.kinds(st, prev):
            return True
        return self.kinds(st, prev2) == {"Function"} or self.refuted(st, self.payload(prev, "GroupingOpen"))

    def alternates(self, eng, st, cur, k):
        """Is it established that an operand may (or has to) stand where the current token stands?"""
        p = self.neighbours(eng, st, cur)
        if p is None or p == ("nopos",):
            return False
        at_start = eng.rng(st, p)[1] == 0 or eng.lookup(st, ("eq", p, ("c", 0))) == 1
        prev = self.elem_at(st, p, 1)
        pk = set() if at_start else self.kinds(st, prev)
        maybe_start = at_start or (eng.rng(st, p)[0] in (None, 0) and eng.lookup(st, ("eq", p, ("c", 0))) != 0)
        post = self.postfix(st, prev) if "UnaryOperator" in pk else None
        # may the previous token end an operand / not end one, as far as this path knows?
        upost = "UnaryOperator" in pk and post is not False
        ends = bool(pk & {"Number", "Variable", "Constant", "GroupingClose"}) or upost
        others = bool(pk & {"Function", "BinaryOperator", "ArgCount", "Unknown", "Comma"}) or \
            ("UnaryOperator" in pk and post is not True)
        nonend = maybe_start or others or "GroupingOpen" in pk
        if k in ("Number", "Variable", "Constant", "Function", "GroupingOpen"):
            if ends and self.cfg(st, "implicit_mul") == 1 and not upost:
                okset = {"GroupingClose"} if k == "Number" else {"Number", "GroupingClose"}
                ends = not pk & {"Number", "Variable", "Constant", "GroupingClose"} <= okset
            return not ends
        if k in ("BinaryOperator", "Comma"):
            return not nonend
        if k == "GroupingClose":
            return not (maybe_start or others)
        if k == "UnaryOperator":
            me = self.postfix(st, cur)
            return (me is True and not nonend) or (me is False and not ends)
        return True

    def misplaced(self, eng, st, cur):
        """What is wrong with the place where an operator that is not written is added, if that is known."""
        left, right = {"Number", "GroupingClose"}, {"Number", "Variable", "Constant", "Function", "GroupingOpen"}
        ck = self.kinds(st, cur) if cur is not None and cur[0] != "s" else set(self.names)
        if len(ck) == len(self.names):
            return None
        if not ck & (left | right):
            return "at a %s token" % "/".join(sorted(ck))
        # the token before, where the operator is added in front of the current one
        p = self.neighbours(eng, st, cur)
        if p is not None and p != ("nopos",):
            pk = self.kinds(st, self.elem_at(st, p, 1))
            if ck <= right and pk <= left:
                return None
            if ck <= right and not ck & left:
                odd = pk & {"Variable", "Constant"} if len(pk) < len(self.names) else ()
                return "after a %s" % "/".join(sorted(odd)) if odd else None
        # the token after, where it is added behind the current one
        ahead = {k[1] for k in st.facts if k[0] == "disc" and isinstance(k[1], tuple) and k[1][0] == "next" and contains(k[1], self.SRC)}
        for n in ahead:
            nk = self.kinds(st, n)
            odd = nk & {"UnaryOperator", "BinaryOperator", "Comma", "GroupingClose"} if len(nk) < len(self.names) else ()
            if odd:
                return "before a %s" % "/".join(sorted(odd))
        return None

    # ------------------------------------------------------------ stores
    def on_vec(self, eng, st, op, v, val, ctx):
        self.st = st
        birth = v[4]
        cur = self.cur(eng, st)
        if op == "push":
            t = eng.T(st, val)
            if t == ("pos",):
                lo = eng.rng(st, t)[0]
                self.pos_births.add(birth)
                self.pos_pushed = min(self.pos_pushed, lo if lo is not None else 0)
                return
            if t[0] == "c" or birth not in self.out | self.ops and t[0] in ("add", "sub"):
                self.counter_push(eng, st, birth, t, ctx)
                return
            ks = self.kinds(st, t)
            if ks == {"GroupingOpen"}:
                self.seen_ops.add(birth)
            if birth in self.out:
                self.push_out(eng, st, v, t, ks, cur, ctx)
            elif birth in self.ops:
                self.push_op(eng, st, v, t, ks, cur, ctx)
            if t == cur and birth in self.out | self.ops:
                self.setg(st, "done", min(2, (self.ghost(st, "done") or 0) + 1))
        elif op == "pop":
            t = eng.T(st, val)
            if birth in self.ops:
                self.settle(eng, st, ctx)
                st.mem[("X", "popped")] = val
                self.setg(st, "paid", 0)
            elif birth not in self.out and birth in self.known_counters:
                st.mem[("X", "count")] = val
                self.counter_pop(eng, st, cur, ctx)
        elif op == "pop0":
            if birth in self.ops:
                self.setg(st, "opsempty", 1)
        elif birth in self.ops | self.out and op in ("reverse", "insert", "remove", "swap", "sort", "sort_by", "sort_by_key",
                                                     "retain", "dedup", "truncate", "extend", "append"):
            self.ob("order", False, "reorder:" + op, "the %s are changed with %s, which does not keep the stack order"
                    % ("pending operators" if birth in self.ops else "output tokens", op), ctx)

    def settle(self, eng, st, ctx):
        """The last token taken from the pending operators: an opening symbol, or put into the output?"""
        pv = st.mem.get(("X", "popped"))
        if pv is None or pv == ("s", "none"):
            return
        t = eng.T(st, pv)
        ks = self.kinds(st, t)
        if ks == {"GroupingOpen"}:
            lo = st.mem.get(("X", "lastopen"))
            self.ob("lost", lo is None or lo == ("s", "none"), "two-openings",
                    "more than one opening symbol is removed for one token", ctx)
            st.mem[("X", "lastopen")] = pv
            return
        if self.ghost(st, "paid") != 1:
            # back on the operators?
            ops = self.ops_value(st)
            if ops is not None and ops[3] and eng.T(st, ops[3][-1]) == t:
                return
            self.ob("lost", False, "lost-operator", "a pending token is taken off and not put into the output", ctx)
        else:
            self.ob("lost", True, "popped token reaches the output", "", ctx)

    def matched(self, eng, st, cur):
        for g in ("popped", "lastopen"):
            pv = st.mem.get(("X", g))
            if pv is None or pv == ("s", "none"):
                continue
            t = eng.T(st, pv)
            if self.kinds(st, t) == {"GroupingOpen"} and match_known(self, eng, st, t, cur):
                return True
        return False

    def on_panic(self, eng, st, fn, why, site, stack, ops):
        # what was the minuend: an element of a vector of token positions?
        src = None
        if why == "overflow:Sub" and len(ops) == 2 and ops[1][0] == "c":
            t = ops[0]
            if t[0] in ("top", "elem"):
                for l, v in st.mem.items():
                    if v[0] == "vec" and v[1] == t[1]:
                        src = v[4]
            elif t == ("pos",) or t[0] == "stale" and "pos" in str(t):
                src = "pos"
        self.panics.append((fn.path, why, site, src, ops))

    def counter_push(self, eng, st, birth, t, ctx):
        cur = self.cur(eng, st)
        if cur is None:
            return
        k = self.kinds(st, cur) if cur[0] != "s" else {cur[1]}
        if k == {"Function"} and t[0] == "c":
            self.counters.setdefault(birth, set()).add(t[1])
            self.setg(st, "argc", 1)
        elif birth in self.known_counters:
            self.ob("count", False, "count-start", "an argument count is started at a %s token" % "/".join(sorted(k)), ctx)

    def counter_pop(self, eng, st, cur, ctx):
        ops = self.ops_value(st)
        top = self.top_of(eng, st, ops) if ops is not None else None
        ck = self.kinds(st, cur) if cur is not None and cur[0] != "s" else set()
        good = ck == {"GroupingClose"} and top is not None and self.kinds(st, top) == {"Function"} and \
            (self.ghost(st, "match") == 1 or self.matched(eng, st, cur))
        self.ob("count", good, "count-end", "an argument count is taken off elsewhere than at the closing symbol of its "
                "function", ctx)

    def on_assign(self, eng, st, fn, b, s, loc, path, v):
        if path and path[-1] == "top":
            old = eng.T(st, eng.read_loc(st, loc, path))
            new = eng.T(st, v)
            cur = self.cur(eng, st)
            if cur is None:
                return

            class X:
                pass
            x = X()
            x.fn, x.site = fn, (fn.path, s[3])
            good = new == ("add", old, ("c", 1)) or (old[0] == "c" and new == ("c", old[1] + 1))
            self.ob("count", good and self.kinds(st, cur) == {"Comma"}, "count-step",
                    "the argument count of the innermost call changes by something else than one per comma", x)
            if good and self.kinds(st, cur) == {"Comma"}:
                self.setg(st, "argc", 1)

    def push_op(self, eng, st, v, t, ks, cur, ctx):
        self.setg(st, "opsempty", 0)
        own = t == cur
        if t[0] == "agg" and ks == {"BinaryOperator"}:
            name = t[3] if len(t) > 3 else None
            good = self.cfg(st, "implicit_mul") == 1
            self.ob("implicit", good, "operator-from-nowhere",
                    "an operator that is not in the input is added although implicit multiplication is not known to be "
                    "enabled", ctx)
            self.ob("implicit", name in (("c", 42), ("s", "*")), "implicit-operator",
                    "implicit multiplication adds another operator than `*`", ctx)
            why = self.misplaced(eng, st, cur)
            self.ob("implicit", why is None, "implicit-place", "a multiplication that is not written is added %s" % why, ctx)
            return
        if not own:
            # putting back what was just taken off is no change
            pv = st.mem.get(("X", "popped"))
            if pv is not None and eng.T(st, pv) == t:
                return
            self.ob("own", False, "pending-foreign", "something else than the current token is put on the pending operators", ctx)
            return
        if ks == {"GroupingOpen"} or ks == {"Function"}:
            return
        if ks == {"UnaryOperator"}:
            self.ob("notation", self.postfix(st, t) is False, "pending-postfix",
                    "a unary operator becomes pending on a path that does not establish that it is a prefix operator", ctx)
            return
        if ks == {"BinaryOperator"}:
            self.ob("registered", self.found(st, "Context::get_binary_function", t), "unregistered-binary",
                    "a binary operator is accepted on a path that does not establish that the context has it", ctx)
            top = self.top_of(eng, st, v)
            if top is None:
                return self.ob("prec-push", True, "pending operators empty", "", ctx)
            tk = self.kinds(st, top)
            if "UnaryOperator" in tk:
                self.ob("prec-push", False, "binary-over-prefix",
                        "a binary operator is put on top of a prefix operator that is still pending", ctx)
            elif "BinaryOperator" in tk:
                if top[0] == "agg" or not contains(("x", top), top):
                    pass
                poss = prec_facts(st, top[3] if top[0] == "agg" and len(top) > 3 else top, t)
                left = assoc_facts(st, top[3] if top[0] == "agg" and len(top) > 3 else top, self.left)
                known = True
                if not self.found(st, "Context::get_binary_function", top if top[0] != "agg" else top[3]):
                    # an operator the context does not have: the evaluation rejects it
                    known = False
                bad = known and (">" in poss or ("=" in poss and left is not False))
                self.ob("prec-push", not bad, "binary-too-early",
                        "a binary operator is put on top of a pending one on a path that does not establish that the "
                        "pending one binds weaker (or equally and groups to the right)", ctx)
            else:
                self.ob("prec-push", True, "nothing that binds stronger is pending", "", ctx)
            return
        self.ob("own", False, "pending-kind", "a %s token is put on the pending operators" % "/".join(sorted(ks)), ctx)

    def push_out(self, eng, st, v, t, ks, cur, ctx):
        if t[0] == "agg" and ks == {"ArgCount"}:
            return self.arg_count(eng, st, t, cur, ctx)
        ck = self.kinds(st, cur) if cur is not None and cur not in (("s", "end"), ("s", "start")) else set()
        at_end = cur == ("s", "end")
        if t == cur:
            if ks <= set(OPERAND):
                return self.ob("out-own", True, "operand to output", "", ctx)
            if ks == {"UnaryOperator"}:
                return self.ob("notation", self.postfix(st, t) is True, "output-prefix",
                               "a unary operator goes to the output before its operand on a path that does not establish "
                               "that it is a postfix operator", ctx)
            return self.ob("out-own", False, "output-kind", "a %s token goes straight to the output" % "/".join(sorted(ks)), ctx)
        if self.ghost(st, "expectfn") == 1:
            self.setg(st, "expectfn", 0)
            self.ob("argcount-at", ks == {"Function"}, "argcount-then-other",
                    "the token written after an argument count is not known to be the function it belongs to", ctx)
        pv = st.mem.get(("X", "popped"))
        if pv is None or eng.T(st, pv) != t:
            return self.ob("out-own", False, "output-foreign",
                           "something is put into the output that is neither the current token nor a pending operator", ctx)
        self.setg(st, "paid", 1)
        self.ob("open-out", "GroupingOpen" not in ks, "open-in-output",
                "a pending token goes to the output on a path that does not exclude that it is an opening symbol%s"
                % (" (an unclosed group at the end of the input)" if at_end else ""), ctx)
        if at_end or ck & {"Comma", "GroupingClose"}:
            return
        if ck and ck <= set(OPERAND):
            self.ob("bind-prefix", ks == {"UnaryOperator"} and self.ghost(st, "done") == 1, "operand-flush",
                    "at an operand, something else than a prefix operator directly before it is moved to the output "
                    "(or before the operand itself)", ctx)
            return
        if ck == {"BinaryOperator"}:
            if ks & {"BinaryOperator"}:
                poss = prec_facts(st, t, cur)
                left = assoc_facts(st, t, self.left)
                good = poss <= {">", "="} and ("=" not in poss or left is True)
                self.ob("prec-pop", good, "flush-weaker",
                        "at a binary operator, a pending operator is applied on a path that does not establish that it "
                        "binds stronger (or equally and groups to the left)", ctx)
            else:
                self.ob("prec-pop", ks <= {"Function", "UnaryOperator"}, "flush-other",
                        "at a binary operator, a pending %s is moved to the output" % "/".join(sorted(ks)), ctx)
            return
        if ck:
            self.ob("flush", False, "flush-at:" + "/".join(sorted(ck)),
                    "a pending operator is moved to the output at a %s token" % "/".join(sorted(ck)), ctx)

    def arg_count(self, eng, st, t, cur, ctx):
        ck = self.kinds(st, cur) if cur is not None and cur[0] != "s" else set()
        self.ob("argcount-at", ck == {"GroupingClose"}, "argcount-at", "an argument count is written elsewhere than at the "
                "closing symbol of a call", ctx)
        self.ob("argcount-at", self.ghost(st, "match") == 1 or self.matched(eng, st, cur), "argcount-before-match",
                "an argument count is written before the closing symbol is matched with the opening one", ctx)
        # the call's name is the next pending token
        ops = self.ops_value(st)
        self.setg(st, "expectfn", 1)
        if ops is not None:
            top = self.top_of(eng, st, ops)
            pv = st.mem.get(("X", "popped"))
            if self.ghost(st, "paid") != 1 and pv is not None and pv != ("s", "none"):
                pv = eng.T(st, pv)
                if "Function" in self.kinds(st, pv) and "GroupingOpen" not in self.kinds(st, pv):
                    top = pv
            self.ob("argcount-at", top is not None and self.kinds(st, top) == {"Function"}, "argcount-no-function",
                    "an argument count is written although the token before the opening symbol is not known to be a "
                    "function", ctx)
        n = t[3]
        p = self.neighbours(eng, st, cur)
        prev_open = None
        if p is not None:
            prev = self.elem_at(st, p, 1)
            pk = self.kinds(st, prev)
            prev_open = True if pk == {"GroupingOpen"} else False if "GroupingOpen" not in pk else None
            if eng.rng(st, p)[1] == 0:
                prev_open = False
        cnt = st.mem.get(("X", "count"))
        cv = eng.T(st, cnt) if cnt is not None else None
        starts = {x for s in self.known_counters.values() for x in s}
        if n == ("c", 0) and cv is not None and cv != ("c", -1):
            self.ob("argcount", prev_open is True, "count-zero",
                    "a call gets the argument count 0 on a path that does not establish that its parentheses are empty", ctx)
        elif cv is not None:
            off = None
            if n == cv:
                off = 0
            elif n[0] == "add" and n[1] == cv and n[2][0] == "c":
                off = n[2][1]
            elif n[0] == "c" and cv[0] == "c":
                off = n[1] - cv[1]
            good = off is not None and starts and all(off + s0 == 1 for s0 in starts)
            self.ob("argcount", good, "count-value", 
                    "the argument count of a call is not the number of its commas plus one", ctx)
            self.ob("argcount", prev_open is False, "count-nonzero-empty",
                    "a call with empty parentheses gets a non-zero argument count", ctx)

    def on_call(self, eng, st, name, args, ctx):
        return None


OPAQUE = ("call", "hv", "ret", "popn", "popd", "slice", "stale", "phi", "vv")


def opaque(t):
    """Does the term contain a value the analysis knows nothing about (an unmodelled call's result)?"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ("hv", "ret", "slice", "stale", "phi", "vv", "elem", "next"):
        return True
    return any(opaque(x) for x in t[1:] if isinstance(x, tuple))


def reworded(t, err):
    """Is it an error whose text is put together from the given one and something else that is known?"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "fmt" and len(t) == 3 and t[1] and t[1][0] == "s" and t[2][0] == "agg":
        return any(not contains(x, err) and not opaque(x) for x in t[2][3:])
    return t[0] in ("agg", "fmt") and any(reworded(x, err) for x in t[1:])


class Rpn(TokenLoop):
    """The evaluation of the RPN: one step per token, from any stack of values.

    The conversion is not looked into: it is the source of an arbitrary token sequence in which an argument
    count is always followed by its function (a rule of Shunt).  Argument counts are partitioned into
    0..NARGS, each followed exactly, and `any other`."""
    NARGS = 4
    GHOSTS = ("end", "err", "argc", "wasargc", "pushes", "calls", "flow", "held")
    CALLS = {"UnaryFunction::call": "UnaryOperator", "BinaryFunction::call": "BinaryOperator", "Function::call": "Function"}
    GET = {"UnaryOperator": "Context::get_unary_function", "BinaryOperator": "Context::get_binary_function",
           "Function": "Context::get_function", "Variable": "Context::get_variable", "Constant": "Context::get_constant"}

    def __init__(self, ev, crate, values=None):
        super().__init__(ev, crate)
        self.SRC = ("rpn",)
        self.values = values
        self.seen = {}

    def start(self, st):
        for g in ("end", "pushes", "calls", "wasargc", "flow", "held"):
            self.setg(st, g, 0)
        self.setg(st, "argc", -1)
        st.mem[("X", "cur")] = ("s", "start")
        for g in ("p1", "p2", "p3", "result"):
            st.mem[("X", g)] = ("s", "none")

    def partition(self, eng, st):
        cur = self.cur(eng, st)
        same = None
        if self.ghost(st, "err") == 1:
            # what is handed back is the error, or not: kept apart
            v = st.mem.get((("F", 0), 0))
            if v is not None and v[0] == "agg" and v[3] == 1:
                same = eng.T(st, v[4][0]) == eng.T(st, st.mem[("X", "error")])
        if cur is None or cur[0] == "s":
            return cur, same
        return frozenset(self.kinds(st, cur)), same

    # ------------------------------------------------------------ between tokens
    def finish(self, eng, st, ctx):
        cur = self.cur(eng, st)
        if cur is None or cur[0] == "s":
            return
        ks = self.kinds(st, cur)
        for k in ks:
            self.ob("rpn-accept", k in OPERAND + ("UnaryOperator", "BinaryOperator", "Function", "ArgCount"), "evaluates:" + k,
                    "a %s token is passed over by the evaluation without an error" % k, ctx)
        if len(ks) != 1:
            return
        k = next(iter(ks))
        n = self.ghost(st, "pushes")
        if k == "ArgCount":
            self.ob("rpn-push", n == 0, "pushes:ArgCount", "an argument count puts a value on the stack", ctx)
            return
        if k in OPERAND + ("UnaryOperator", "BinaryOperator", "Function"):
            self.ob("rpn-push", n == 1, "pushes:" + k,
                    "evaluating a %s token puts %s values on the stack, it has to put exactly one" % (k, n), ctx)
        self.ob("rpn-err", self.ghost(st, "err") != 1, "error-dropped:" + k,
                "the evaluation goes on after the operation of a %s token reported an error" % k, ctx)
        if k in ("UnaryOperator", "BinaryOperator"):
            self.ob("rpn-push", self.ghost(st, "held") == 0, "held:" + k,
                    "an operand of a %s token is left on the stack" % k, ctx)
        if k in self.CALLS.values():
            self.ob("rpn-call", self.ghost(st, "calls") == 1, "calls:" + k,
                    "a %s token calls its operation %s times" % (k, self.ghost(st, "calls")), ctx)

    def forget(self, eng, st):
        cur = self.cur(eng, st)
        was = 0
        if cur is not None and cur[0] != "s" and self.kinds(st, cur) == {"ArgCount"}:
            was = 1
            eng.fresh(st, ("argc",))
            pay = self.payload(cur, "ArgCount")
            for l, v in list(st.mem.items()):
                if contains(v, pay):
                    from absint import subst
                    st.mem[l] = subst(v, pay, ("argc",))
        err = self.ghost(st, "err")
        super().forget(eng, st)
        self.start(st)
        self.setg(st, "err", err or 0)
        self.setg(st, "wasargc", was)
        if was:
            for l, v in list(st.mem.items()):
                if l[0] != "X" and v == sym(("tok",)):
                    pass

    def on_result(self, eng, st, name, args, ctx, after):
        self.st = st
        if after is None:
            if name in self.CALLS:
                self.check_call(eng, st, name, args, ctx)
                return "call"
            return super().on_result(eng, st, name, args, ctx, None)
        tok, res = after
        if tok == "call":
            out = []
            for v, s in res:
                self.setg(s, "calls", min(2, (self.ghost(s, "calls") or 0) + 1))
                for x, get, s2 in eng.split(s, v, (0, 1)):
                    if x == 0:
                        s2.mem[("X", "result")] = get(0)
                        out.append((res_ok(get(0)), s2))
                    else:
                        self.setg(s2, "err", 1)
                        s2.mem[("X", "error")] = sym(("operr",))
                        out.append((res_err(sym(("operr",))), s2))
            return out
        out = []
        from absint import subst
        for v, s in super().on_result(eng, st, name, args, ctx, after):
            if self.ghost(s, "wasargc") == 1:
                cur = self.cur(eng, s)
                if cur[0] == "s":
                    continue      # an argument count is never last
                s.facts[("disc", cur)] = ("=", self.idx["Function"])
                for k in range(self.NARGS + 1):
                    s2 = s.copy()
                    for l, x in list(s2.mem.items()):
                        if contains(x, ("argc",)):
                            s2.mem[l] = subst(x, sym(("argc",)), c(k))
                    self.setg(s2, "argc", k)
                    out.append((v, s2))
                self.setg(s, "argc", self.NARGS + 1)
                s.facts[("rng", ("argc",))] = ("r", self.NARGS + 1, None)
            out.append((v, s))
        return out

    # ------------------------------------------------------------ events
    def on_vec(self, eng, st, op, v, val, ctx):
        self.st = st
        birth = v[4]
        cur = self.cur(eng, st)
        if cur is None or cur[0] == "s":
            if op == "pop" and birth == self.values and cur == ("s", "end"):
                st.mem[("X", "p1")] = val
            return
        ks = self.kinds(st, cur)
        if self.values is None:
            if op == "push" and ks == {"Number"}:
                self.seen[birth] = self.seen.get(birth, 0) + 1
            return
        if birth != self.values:
            return
        if op == "push":
            self.setg(st, "pushes", min(2, (self.ghost(st, "pushes") or 0) + 1))
            t = eng.T(st, val)
            if len(ks) != 1:
                self.ob("rpn-push", False, "push-any", "a value is put on the stack for a token that may be any of %s"
                        % "/".join(sorted(ks)), ctx)
                return
            k = next(iter(ks))
            if k == "Number":
                self.ob("rpn-value", t == self.payload(cur, k), "value:Number",
                        "a number token puts something else than its number on the stack", ctx)
            elif k in ("Variable", "Constant"):
                want = ("fld", ("call", self.GET[k], ("ctx",), self.payload(cur, k)), ("v", 1, 0))
                self.ob("rpn-value", t == want, "value:" + k,
                        "a %s token puts something else on the stack than the value registered under its name" % k.lower(), ctx)
            elif k in self.CALLS.values():
                r = st.mem.get(("X", "result"))
                self.ob("rpn-value", r is not None and r != ("s", "none") and eng.T(st, r) == t, "value:" + k,
                        "a %s token puts something else on the stack than the result of its operation" % k, ctx)
        elif op == "pop" and self.ghost(st, "held") == 1:
            self.setg(st, "held", 0)      # the operand was used before it was taken off
        elif op == "pop":
            for g in ("p1", "p2", "p3"):
                if st.mem.get(("X", g)) == ("s", "none"):
                    st.mem[("X", g)] = val
                    break
        elif op in ("reverse", "swap", "insert", "remove", "sort", "retain", "dedup"):
            self.ob("rpn-order", False, "stack-reorder:" + op, "the stack of values is changed with %s" % op, ctx)

    def on_assign(self, eng, st, fn, b, s, loc, path, v):
        """The newest value changed in its place: it is taken off and another one put there."""
        if not path or path[-1] != "top":
            return
        vec = eng.read_loc(st, loc, path[:-1])
        if vec[0] != "vec" or vec[4] != self.values or self.values is None:
            return

        class X:
            pass
        x = X()
        x.fn, x.site = fn, (fn.path, s[3])
        self.on_vec(eng, st, "pop", vec, eng.read_loc(st, loc, path), x)
        self.on_vec(eng, st, "push", vec, v, x)

    def hold(self, eng, st, want, arg):
        """An operation given the newest value while that is still on the stack."""
        free = [g for g in ("p1", "p2") if st.mem.get(("X", g)) == ("s", "none")]
        vecs = [x for x in st.mem.values() if x[0] == "vec" and x[4] == self.values]
        if len(free) != 3 - want or self.ghost(st, "held") != 0 or len(vecs) != 1 or self.values is None:
            return
        v = vecs[0]
        top = v[3][-1] if v[3] else sym(("top", v[1])) if v[2] != "empty" else None
        if top is not None and eng.T(st, top) == eng.T(st, arg):
            st.mem[("X", free[0])] = top
            self.setg(st, "held", 1)

    def check_call(self, eng, st, name, args, ctx):
        k = self.CALLS[name]
        cur = self.cur(eng, st)
        if cur is None or cur[0] == "s":
            self.ob("rpn-call", False, "call-outside:" + name, "an operation is called outside the processing of a token", ctx)
            return
        ks = self.kinds(st, cur)
        if self.ghost(st, "err") == 1:
            self.ob("rpn-err", False, "after-error:" + k, "an operation is called after one reported an error", ctx)
        self.ob("rpn-call", ks == {k}, "call-kind:" + name, "%s is called at a %s token" % (name, "/".join(sorted(ks))), ctx)
        if ks != {k}:
            return
        f = eng.T(st, args[0])
        want = ("fld", ("call", self.GET[k], ("ctx",), self.payload(cur, k)), ("v", 1, 0))
        self.ob("rpn-call", f == want, "callee:" + k, "a %s token calls another operation than the one registered under its "
                "name" % k, ctx)

        def pv(g):
            v = st.mem.get(("X", g))
            return None if v is None or v == ("s", "none") else eng.T(st, v)
        if k == "UnaryOperator":
            self.hold(eng, st, 1, args[1])
            good = pv("p1") is not None and eng.T(st, args[1]) == pv("p1") and pv("p2") is None
            self.ob("rpn-operands", good, "operand:unary", "a unary operator is not applied to the newest value alone", ctx)
            return
        if k == "BinaryOperator":
            a, b = eng.T(st, args[1]), eng.T(st, args[2])
            self.hold(eng, st, 2, args[1])
            good = pv("p1") is not None and pv("p2") is not None and pv("p3") is None and (a, b) == (pv("p2"), pv("p1"))
            self.ob("rpn-operands", good, "operands:binary",
                    "a binary operator is not applied to the two newest values, the older one on the left", ctx)
            return
        n = self.ghost(st, "argc")
        if n == -1:
            self.ob("rpn-args", False, "args:none-written", "a function is called although no argument count was written for it",
                    ctx)
            return
        if n is None or n > self.NARGS:
            return
        v = eng.strip(st, args[1])
        els = None
        if v[0] == "vec" and v[2] == "empty":
            els = v[3]
        elif v[0] == "agg" and v[1] == "array":
            els = v[4]
        if els is None:
            t = eng.T(st, v) if v[0] != "vec" else v[1]
            self.ob("rpn-args", None, "args:unknown", "the arguments of a call could not be followed: %s" % (t,), ctx)
            return
        els = [eng.T(st, x) for x in els]
        want, b = [], None
        vals = [x for l, x in st.mem.items() if x[0] == "vec" and x[4] == self.values]
        # the values taken, newest last: top(...top(base))
        good = len(els) == n
        if good and n:
            last = els[-1]
            if last[0] != "top":
                good = None if opaque(last) and last[0] != "top" else False
            else:
                base = last[1]
                for i in range(n):
                    want.insert(0, ("top", base))
                    base = ("popd", base)
                good = els == want
                root = base
                while root[0] == "popd":
                    root = root[1]
                good = good and root == last[1]
        self.ob("rpn-args", good, "args:%d" % n, "a function written with %d arguments is called with %s" % (
            n, "other values, or not in the written order" if len(els) == n else "%d" % len(els)), ctx)
        if n and good:
            left = [x for x in vals]
            self.ob("rpn-args", len(left) == 1 and left[0][1] == base and not left[0][3], "args-left:%d" % n,
                    "the arguments of a call are not all taken off the stack (or more than them)", ctx)

    def on_call(self, eng, st, name, args, ctx):
        if name.endswith("::infix_to_rpn"):
            a, b = st, st.copy()
            t = [eng.T(st, x) for x in args]
            self.ob("rpn-input", t[:2] == [("arg", 0), ("ctx",)], "converted-tokens",
                    "the evaluation converts something else than the tokens it was given", ctx)
            self.setg(b, "err", 1)
            b.mem[("X", "error")] = sym(("converr",))
            return [(res_ok(sym(("rpn",))), a), (res_err(sym(("converr",))), b)]
        if name == "Context::get_variable" or name in self.GET.values():
            return None
        return None


def analyse_rpn(crate, budget=1500000):
    f = find(crate, "evaluator::rpn_eval")
    if f is None:
        return None, None, "evaluator::rpn_eval not found"
    h0 = Rpn({}, crate)
    e = Engine([crate], hooks=h0, budget=budget, max_states=64, inline=lambda g: not config_opaque(g))
    e.unroll = Rpn.NARGS
    e.ghosts = Rpn.GHOSTS
    st = State()
    h0.start(st)
    e.analyse(f, [sym(("arg", 0)), sym(("ctx",))], st)
    if len(h0.seen) != 1:
        return None, None, "the stack of values was not identified (%d candidates)" % len(h0.seen)
    values = next(iter(h0.seen))
    ev = {}
    h = Rpn(ev, crate, values)
    e = Engine([crate], hooks=h, budget=budget, max_states=128, inline=lambda g: not config_opaque(g))
    e.unroll = Rpn.NARGS
    e.token_hooks = h
    e.ghosts = Rpn.GHOSTS
    st = State()
    h.start(st)
    h.setg(st, "err", 0)
    outs = e.analyse(f, [sym(("arg", 0)), sym(("ctx",))], st)
    n = 0
    for v, s, fid in outs:
        h.st = s
        w = e.strip(s, v)
        if w[0] != "agg":
            h.ob("rpn-end", None, "result-shape", "the result of the evaluation could not be followed")
            continue
        if w[3] != 0:
            if h.ghost(s, "err") == 1:
                x, y = e.T(s, s.mem[("X", "error")]), e.T(s, w[4][0])
                while y != x and y[0] == "call" and len(y) == 3 and y[1].rsplit("::", 1)[-1] in ("from", "into", "clone"):
                    y = y[2]
                h.ob("rpn-err", True if y == x else False if reworded(y, x) else None if opaque(y) else False, "error-changed:" + (
                    "conversion" if x == ("converr",) else "operation"),
                    "the evaluation hands back another error than the one the %s reported" % ("conversion" if x == ("converr",) else "operation"))
            continue
        n += 1
        h.ob("rpn-err", h.ghost(s, "err") != 1, "error-dropped:conversion",
             "the evaluation succeeds although the conversion or an operation reported an error")
        h.ob("rpn-end", h.ghost(s, "end") == 1, "early-ok", "the evaluation succeeds before all the tokens were looked at")
        r = e.T(s, w[4][0])
        vec = [x for l, x in s.mem.items() if x[0] == "vec" and x[4] == values]
        p1 = s.mem.get(("X", "p1"))
        good = None
        if vec:
            x = vec[0]
            ln = e.T(s, e.length(s, x))
            k = e.lookup(s, ln)
            if p1 not in (None, ("s", "none")):
                good = e.T(s, p1) == r and (k == 0 or x[2] == "empty" and not x[3])
            else:
                good = k == 1 and r[0] in ("elem", "top", "next") and x[1] == r[1]
                if k == 1 and not good and r[0] not in ("elem", "top"):
                    good = None
        h.ob("rpn-end", good, "one-left", "the evaluation succeeds on a path that does not establish that exactly one value is "
             "left and that it is the result")
    if not n:
        h.ob("rpn-end", False, "never-ok", "no path of the evaluation succeeds")
    return ev, e, None


class ShuntMatch:
    """Facts that tie the popped opening symbol to the closing one."""


def match_known(h, eng, st, popped, cur):
    """Does some fact establish that the symbol that closes `popped` is the current closing symbol (or the converse)?"""
    po, cc = h.payload(popped, "GroupingOpen"), h.payload(cur, "GroupingClose")
    for k, v in st.facts.items():
        if k[0] == "eq" and v == ("=", 1) and contains(k, cc) and contains(k, po):
            for x in k[1:]:
                if isinstance(x, tuple) and (contains(x, po) or contains(x, cc)) and "get_group" in str(x):
                    return True
    return False


def find(crate, path):
    for f in crate.bodies:
        if f.path == path:
            return f
    return None


def shunt_births(crate, f, budget):
    """Which vectors are the output, the pending operators and the argument counters (first pass, no rules)."""
    out, ops, cnt = set(), set(), {}
    names = [v[0] for v in crate.adts["token::Token"]["variants"]]
    gi, fi = names.index("GroupingOpen"), names.index("Function")

    class H:
        def on_vec(self, eng, st, op, v, val, ctx):
            if op == "push":
                t = eng.T(st, val)
                d = st.facts.get(("disc", t))
                if d == ("=", gi):
                    ops.add(v[4])
                elif t[0] == "c" and any(k[0] == "disc" and x == ("=", fi) and k[1][0] in ("next", "elem") and
                                         contains(k[1], ("arg", 0)) for k, x in st.facts.items()):
                    cnt.setdefault(v[4], set()).add(t[1])
    e = Engine([crate], hooks=H(), budget=budget, max_states=12, inline=lambda g: not config_opaque(g))
    for v, s, fid in e.analyse(f, [sym(("arg", 0)), sym(("arg", 1))], State()):
        w = e.strip(s, v)
        if w[0] == "agg" and w[3] == 0 and w[4]:
            x = e.strip(s, w[4][0])
            if x[0] == "vec":
                out.add(x[4])
    return out, ops - out, cnt


def analyse_shunt(crate, budget=1500000):
    """Runs the rules over infix_to_rpn; returns (events, engine, problems)."""
    f = find(crate, "evaluator::infix_to_rpn")
    if f is None:
        return None, None, "evaluator::infix_to_rpn not found"
    out, ops, cnt = shunt_births(crate, f, budget)
    if not out or not ops:
        return None, None, "the output or the pending operators were not identified"
    ev = {}
    h = Shunt(ev, crate, out, ops, cnt)
    e = Engine([crate], hooks=h, budget=budget, max_states=256, inline=lambda g: not config_opaque(g))
    e.ghosts = Shunt.GHOSTS
    e.token_hooks = h
    st = State()
    h.start(st)
    h.setg(st, "begun", 0)
    outs = e.analyse(f, [sym(("arg", 0)), sym(("arg", 1))], st)
    for v, s, fid in outs:
        h.st = s
        w = e.strip(s, v)
        if w[0] != "agg" or w[3] != 0:
            continue
        h.ob("end", h.ghost(s, "end") == 1, "early-ok", "the conversion succeeds before all the tokens were looked at")
        h.settle(e, s, None)
        h.ob("end", h.ghost(s, "opsempty") == 1, "left-over", "the conversion succeeds although operators may still be pending")
    return ev, e, None


_memo = {}


def results(crates):
    if "r" not in _memo:
        import os
        if os.environ.get("VERIF_DEEP"):
            Rpn.NARGS = 8
        _memo["r"] = {}
        for n, an in (("conversion", analyse_shunt), ("evaluation", analyse_rpn)):
            _memo["r"][n] = an(crates["prexel"])
    return _memo["r"]


def report(rep, crates, wanted):
    """wanted: {"conversion": [rules], "evaluation": [rules]} -> obligations of the report."""
    for part, rules in wanted.items():
        ev, eng, problem = rep.guard(part, lambda: results(crates)[part]) or (None, None, "analysis failed")
        if problem:
            if problem.endswith("not found"):
                rep.bad("anchor:" + part, problem)
            else:
                rep.undec("anchor:" + part, problem)
            continue
        rep.count("interpreted blocks (%s)" % part, eng.steps)
        rep.count("functions interpreted (%s)" % part, len(eng.visited_fns))
        for r in rules:
            optional, r = r.startswith("?"), r.lstrip("?")
            x = ev.get(r)
            if optional and (not x or not x["n"]):
                rep.ok()
                continue
            if not x or not x["n"]:
                rep.undec("none:" + r, "no construct of the code was recognised as an instance of rule `%s`" % r)
                continue
            rep.count("path obligations of rule %s" % r, x["n"])
            for k, m in x["bad"].items():
                rep.bad(r + ":" + k, m)
            for k, m in x.get("undec", {}).items():
                rep.undec(r + ":" + k, m)
            n = x["n"] - len(x["bad"]) - len(x.get("undec", {}))
            for i in range(n):
                rep.ok(x["samples"][i] if i < len(x["samples"]) else None)


if __name__ == "__main__":
    import sys, time
    from facts import Crate
    cr = Crate(sys.argv[1])
    for an in (analyse_shunt, analyse_rpn):
        t = time.time()
        ev, e, p = an(cr)
        print(p, "%.1fs" % (time.time() - t), e and e.steps, e and e.unmodelled, e and [k for k in e.panics])
        for r, x in (ev or {}).items():
            print(r, x["n"], "BAD" if x["bad"] else "UNDEC" if x.get("undec") else "ok")
            for k, m in list(x["bad"].items()) + list(x.get("undec", {}).items()):
                print("     ", k, "::", m)
