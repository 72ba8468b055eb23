"""A disjunctive abstract interpreter over MIR.

Nothing is executed: values are abstract (constants the source spells out, enum variants, aggregates
of abstract values, references to abstract locations, or opaque terms recording where a value came
from).  Control flow is followed on both sides of every branch whose condition is not decided by the
facts already learned on that path; states are joined at loop heads, and anywhere too many of them
meet, so the computation reaches a fixpoint over a finite set of states.  No solver is involved.

Values
  ('c', v)                      constant int/bool/char (bools are 0/1)
  ('s', str)                    string constant
  ('sym', term)                 opaque value with provenance
  ('agg', kind, name, vidx, fields)   kind: adt|tuple|array
  ('ref', loc, path)            reference to an abstract location
  ('fn', key, display, info)    function item
  ('clo', key, captures)        closure
  ('vec', base, status, stack, birth)
                                a Vec: an unknown prefix `base` (empty|some|unk) followed by the known
                                pushes in `stack`; `birth` names the place that created it
  ('iter', src, status, peeked, adapters)
"""
import re
import sys
from facts import Crate, Body, short, callee, term_succ

sys.setrecursionlimit(20000)

MAXDEPTH = 7


class Budget(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "aux")

    def __init__(self, mem=None, facts=None, aux=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.aux = aux

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.aux)

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.aux)


def sym(t):
    return ("sym", t)


def c(v):
    return ("c", v)


TRUE, FALSE = c(1), c(0)
UNIT = ("agg", "tuple", "", 0, ())


def opt_none():
    return ("agg", "adt", "std::option::Option", 0, ())


def opt_some(v):
    return ("agg", "adt", "std::option::Option", 1, (v,))


def res_ok(v):
    return ("agg", "adt", "std::result::Result", 0, (v,))


def res_err(v):
    return ("agg", "adt", "std::result::Result", 1, (v,))


_depth_cache = {}


def tdepth(t):
    if not isinstance(t, tuple):
        return 0
    k = id(t)
    d = _depth_cache.get(k)
    if d is not None and d[0] is t:
        return d[1]
    r = 1 + max([tdepth(x) for x in t] or [0])
    if len(_depth_cache) > 500000:
        _depth_cache.clear()
    _depth_cache[k] = (t, r)
    return r


def forgotten(t):
    """Terms too deep to be told apart: nothing is remembered about them."""
    return t[0] == "deep" or any(isinstance(x, tuple) and x and x[0] == "deep" for x in t)


def contains(v, t):
    if v == t:
        return True
    if isinstance(v, tuple):
        if v and v[0] == "stale":
            return False
        for x in v:
            if isinstance(x, tuple) and contains(x, t):
                return True
    return False


def subst(v, t, r):
    if v == t:
        return r
    if isinstance(v, tuple):
        if v and v[0] == "stale":
            return v
        return tuple(subst(x, t, r) if isinstance(x, tuple) else x for x in v)
    return v


class Outcome:
    __slots__ = ("kind", "value", "state", "site", "why")

    def __init__(self, kind, value, state, site, why=None):
        self.kind, self.value, self.state, self.site, self.why = kind, value, state, site, why


class Ctx:
    """What a call model gets to see about the call."""
    __slots__ = ("eng", "info", "name", "site", "frame", "argtys", "fn", "stack", "display", "body", "block")

    def __init__(self, eng, info, name, site, frame, argtys, fn, stack, body=None, block=None):
        self.eng, self.info, self.name, self.site = eng, info, name, site
        self.frame, self.argtys, self.fn, self.stack = frame, argtys, fn, stack
        self.body, self.block = body, block


def canon_name(info, crate):
    """A stable short name for a callee: Trait::method, Type::method or path::fn."""
    p = info["fn"]
    tr = info.get("trait")
    if tr:
        return tr.rsplit("::", 1)[-1] + "::" + short(p)
    if "impl_self" in info:
        t = crate.ty(info["impl_self"])
        base = t.get("def", t["s"]).rsplit("::", 1)[-1]
        if t["k"] in ("slice",):
            base = "slice"
        return base + "::" + short(p)
    return p


class Engine:
    keep = False      # keep the locals that are not used any more

    def __init__(self, crates, hooks=None, models=None, max_states=24, budget=60000, inline=None, max_stack=14):
        """crates: list of Crate (first one is the main one)."""
        import models as M
        self.crates = crates
        self.fn_by_key = {}
        for cr in crates:
            for k, f in cr.fns.items():
                self.fn_by_key.setdefault(k, f)
        self.hooks = hooks
        self.models = models or M.MODELS
        self.prefix_models = M.PREFIX_MODELS
        self.panics = {}          # (site fn path, why) -> example
        self.max_states = max_states
        self.budget = budget
        self.steps = 0
        self.inline = inline or (lambda fn: True)
        self.frames = {}
        self.max_stack = max_stack
        self.unmodelled = {}
        self.visited_fns = set()
        self.locals_of = {}
        self.joined = 0
        self.globals = {}         # promoted constants and what they refer to
        self.frame_keys = {}
        self.ghosts = ()          # names of ghost cells ("X", name) whose constants keep states apart
        self.exact = 0          # keep that many states of a loop head apart before joining any
        self.depth = MAXDEPTH * 2   # deeper terms are forgotten
        self.unroll = 0           # keep up to this many loop iterations apart while positions are constants

    # ------------------------------------------------------------ terms
    def T(self, st, v, d=0):
        k = v[0]
        if k == "sym":
            return v[1]
        if k in ("c", "s"):
            return v
        if d > 6:
            return ("deep",)
        if k == "ref":
            return self.T(st, self.read_loc(st, v[1], v[2]), d + 1)
        if k == "agg":
            return ("agg", v[2], v[3]) + tuple(self.T(st, x, d + 1) for x in v[4])
        if k == "vec":
            if v[2] == "empty" and not v[3]:
                return ("vec0",)
            return ("vec", self.vid(st, v, d))
        if k == "fn":
            return ("fn", v[2])
        if k == "clo":
            return ("clo", v[1]) + tuple(self.T(st, x, d + 1) for x in v[2])
        if k == "iter":
            return ("iter", v[1])
        return v

    def vid(self, st, v, d=0):
        """A term naming the current contents of a vec."""
        if not v[3]:
            return v[1]
        return self.mkterm("vs", v[1], *[self.T(st, x, d + 1) for x in v[3]])

    def mkterm(self, *t):
        if tdepth(t) > self.depth:
            return ("deep", t[0] if isinstance(t[0], str) else "?")
        return t

    # ------------------------------------------------------------ memory
    def read_loc(self, st, loc, path):
        v = st.mem.get(loc)
        if v is None:
            v = self.globals.get(loc)
        if v is None:
            v = sym(loc[1]) if loc[0] == "S" else sym(("uninit", loc))
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        if v[0] == "ref":
            v = self.strip(st, v)
        if v[0] == "agg":
            if isinstance(e, tuple) and e[0] == "v":      # (v, vidx, field)
                if v[3] == e[1] and e[2] < len(v[4]):
                    return v[4][e[2]]
                return sym(("bad",))
            if isinstance(e, int):
                if e < len(v[4]):
                    return v[4][e]
                return sym(("bad",))
            if isinstance(e, tuple) and e[0] == "i":
                if e[1][0] == "c" and isinstance(e[1][1], int) and 0 <= e[1][1] < len(v[4]):
                    return v[4][e[1][1]]
                if e[1][0] == "fromend" and 0 < e[1][1] <= len(v[4]):
                    return v[4][-e[1][1]]
                return sym(self.mkterm("elem", self.T(st, v), e[1]))
            if isinstance(e, tuple) and e[0] == "sub" and v[1] == "array":
                return v[:4] + (v[4][e[1]:len(v[4]) - e[2] if e[3] else e[2]],)
        if v[0] == "clo" and isinstance(e, int) and e < len(v[2]):
            return v[2][e]
        if v[0] == "vec":
            if e == "top":
                if v[3]:
                    return v[3][-1]
                return sym(("top", v[1]))
            if isinstance(e, tuple) and e[0] == "i":
                return self.vec_elem(st, v, e[1])
        if v[0] == "sym":
            if isinstance(e, tuple) and e[0] == "i":
                return sym(self.mkterm("elem", v[1], e[1]))
            return sym(self.mkterm("fld", v[1], e))
        return sym(self.mkterm("fld", self.T(st, v), e if not isinstance(e, tuple) else e))

    def vec_elem(self, st, v, i):
        if v[2] == "empty" and i[0] == "c" and isinstance(i[1], int) and 0 <= i[1] < len(v[3]):
            return v[3][i[1]]
        if v[3]:
            lt = self.T(st, self.length(st, v))
            for k in range(len(v[3])):
                if i == ("sub", lt, ("c", k + 1)) or (k + 1 == len(v[3]) and i == ("len", v[1])):
                    return v[3][-1 - k] if i != ("len", v[1]) else v[3][0]
        elif i == ("sub", ("len", v[1]), ("c", 1)):
            return sym(("top", v[1]))
        return sym(self.mkterm("elem", self.vid(st, v), i))

    def strip(self, st, v, n=8):
        while v[0] == "ref" and n:
            v = self.read_loc(st, v[1], v[2])
            n -= 1
        if v[0] == "sym" and ("S", v[1]) in st.mem:
            w = st.mem[("S", v[1])]
            if w[0] == "ref" and n:
                return self.strip(st, w, n - 1)
            return w
        return v

    def expand(self, v, ty):
        """Turns an opaque struct/tuple value into an aggregate of its opaque fields."""
        if v[0] != "sym" or ty is None:
            return None
        cr, t = ty
        tt = cr.ty(t)
        if tt["k"] == "tuple":
            return ("agg", "tuple", "", 0, tuple(sym(("fld", v[1], i)) for i in range(len(tt["args"]))))
        if tt["k"] == "adt":
            a = cr.adts.get(tt["def"])
            if a and not a["enum"]:
                return ("agg", "adt", tt["def"], 0,
                        tuple(sym(("fld", v[1], i)) for i in range(len(a["variants"][0][1]))))
        return None

    def write_loc(self, st, loc, path, val, ty=None):
        if not path:
            st.mem[loc] = val
            return
        cur = st.mem.get(loc)
        if cur is None:
            cur = sym(loc[1]) if loc[0] == "S" else sym(("uninit", loc))
        st.mem[loc] = self.upd(st, cur, path, val, ty)

    def upd(self, st, cur, path, val, ty):
        if not path:
            return val
        e, rest = path[0], path[1:]
        if cur[0] == "sym":
            x = self.expand(cur, ty)
            if x is None:
                # keep an override list on an opaque base: a one-level struct view
                if isinstance(e, int):
                    fs = [sym(("fld", cur[1], i)) for i in range(max(e + 1, 12))]
                    x = ("agg", "adt", "?", 0, tuple(fs))
                elif isinstance(e, tuple) and e[0] == "v":
                    fs = [sym(("fld", cur[1], ("v", e[1], i))) for i in range(max(e[2] + 1, 4))]
                    x = ("agg", "adt", "?", e[1], tuple(fs))
                else:
                    return sym(("upd", cur[1] if tdepth(cur) < 6 else "deep"))
            cur = x
        if cur[0] == "agg":
            if isinstance(e, tuple) and e[0] == "v":
                i = e[2]
            elif isinstance(e, int):
                i = e
            elif isinstance(e, tuple) and e[0] == "i" and e[1][0] == "c":
                i = e[1][1]
            else:
                return sym(("upd", "arr"))
            if not isinstance(i, int) or i >= len(cur[4]):
                if isinstance(i, int) and i < 16:
                    fs = list(cur[4]) + [sym(("uninitf",))] * (i + 1 - len(cur[4]))
                    cur = cur[:4] + (tuple(fs),)
                else:
                    return sym(("upd", "oob"))
            fs = list(cur[4])
            fs[i] = self.upd(st, fs[i], rest, val, None)
            return cur[:4] + (tuple(fs),)
        if cur[0] == "vec" and e == "top":
            if cur[3]:
                return cur[:3] + (cur[3][:-1] + (self.upd(st, cur[3][-1], rest, val, None),),) + cur[4:]
            t = sym(("top", cur[1]))
            return ("vec", self.popd(st, cur[1]), "unk", (self.upd(st, t, rest, val, None),), cur[4])
        if cur[0] == "clo" and isinstance(e, int) and e < len(cur[2]):
            fs = list(cur[2])
            fs[e] = self.upd(st, fs[e], rest, val, None)
            return ("clo", cur[1], tuple(fs))
        if cur[0] == "ref":
            self.write_loc(st, cur[1], cur[2] + path, val)
            return cur
        return sym(("upd", "x"))

    def lval(self, st, fr, place):
        """Resolve a MIR place to (loc, path)."""
        loc, path = (fr, place[0]), ()
        var = None
        for e in place[1]:
            if e == "*":
                v = self.read_loc(st, loc, path)
                if v[0] == "ref":
                    loc, path = v[1], v[2]
                elif v[0] == "sym":
                    loc, path = ("S", v[1]), ()
                # boxes and other transparent pointers: stay
                var = None
            elif e == "?":
                pass
            elif e[0] == "f":
                path = path + ((("v", var, e[1]) if var is not None else e[1]),)
                var = None
            elif e[0] == "v":
                var = e[1]
            elif e[0] == "i":
                idx = self.strip(st, st.mem.get((fr, e[1]), sym(("uninit", e[1]))))
                path = path + (("i", self.T(st, idx)),)
            elif e[0] == "c":
                path = path + (("i", c(e[1]) if not e[3] else ("fromend", e[1])),)
            elif e[0] == "s":
                path = path + (("sub", e[1], e[2], bool(e[3]) if len(e) > 3 else True),)
        return loc, path

    # ------------------------------------------------------------ facts
    def lookup(self, st, t):
        """Known constant value of term t under the facts, or None."""
        if t[0] == "c":
            return t[1]
        if t[0] == "not":
            x = self.lookup(st, t[1])
            return None if x is None else 1 - x
        f = st.facts.get(t)
        if f is not None and f[0] == "=":
            return f[1]
        if t[0] in ("lt", "le", "gt", "ge", "eq", "ne") and len(t) == 3:
            return self.cmp_known(st, t[0], t[1], t[2])
        return None

    def rng(self, st, t):
        if t[0] == "c" and isinstance(t[1], int):
            return (t[1], t[1])
        f = st.facts.get(t)
        if f is not None and f[0] == "=" and isinstance(f[1], int):
            return (f[1], f[1])
        r = st.facts.get(("rng", t))
        lo, hi = (r[1], r[2]) if r else (None, None)
        if t[0] in ("len", "nchars") and (lo is None or lo < 0):
            lo = 0
            if t[1][0] == "popd":
                a, b = self.rng(st, ("len", t[1][1]))
                if a is not None:
                    lo = max(0, a - 1)
                if b is not None and (hi is None or b - 1 < hi):
                    hi = max(0, b - 1)
        if t[0] == "add" and len(t) == 3 and t[2][0] == "c" and isinstance(t[2][1], int):
            a, b = self.rng(st, t[1])
            if a is not None and (lo is None or a + t[2][1] > lo):
                lo = a + t[2][1]
            if b is not None and (hi is None or b + t[2][1] < hi):
                hi = b + t[2][1]
        if t[0] == "sub" and len(t) == 3 and t[2][0] == "c" and isinstance(t[2][1], int):
            a, b = self.rng(st, t[1])
            if a is not None and (lo is None or a - t[2][1] > lo):
                lo = a - t[2][1]
            if b is not None and (hi is None or b - t[2][1] < hi):
                hi = b - t[2][1]
        if f is not None and f[0] == "!" and lo is not None:
            while lo in f[1]:
                lo += 1
        return (lo, hi)

    def cmp_known(self, st, op, a, b):
        neg = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le", "eq": "ne", "ne": "eq"}
        flip = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
        for o, x, y in ((op, a, b), (flip[op], b, a)):
            f = st.facts.get((o, x, y))
            if f and f[0] == "=":
                return f[1]
            f = st.facts.get((neg[o], x, y))
            # only sound for total orders; used for integer terms
            if f and f[0] == "=" and o in ("eq", "ne"):
                return 1 - f[1]
        la, ha = self.rng(st, a)
        lb, hb = self.rng(st, b)
        if op == "eq":
            if la is not None and la == ha == lb == hb:
                return 1
            if (ha is not None and lb is not None and ha < lb) or (hb is not None and la is not None and hb < la):
                return 0
            fa = st.facts.get(a)
            if fa and fa[0] == "!" and lb is not None and lb == hb and lb in fa[1]:
                return 0
            return None
        if op == "ne":
            r = self.cmp_known(st, "eq", a, b)
            return None if r is None else 1 - r
        if op == "gt":
            return self.cmp_known(st, "lt", b, a)
        if op == "ge":
            return self.cmp_known(st, "le", b, a)
        if op == "lt":
            if ha is not None and lb is not None and ha < lb:
                return 1
            if la is not None and hb is not None and la >= hb:
                return 0
            # x - k < L when x < L ; x - k < x
            if a[0] == "sub" and a[2][0] == "c" and isinstance(a[2][1], int) and a[2][1] >= 0:
                if a[1] == b and a[2][1] > 0:
                    return 1
                f = st.facts.get(("lt", a[1], b))
                if f and f[0] == "=" and f[1] == 1:
                    return 1
                if self.cmp_known(st, "lt", a[1], b) == 1:
                    return 1
        if op == "le":
            if ha is not None and lb is not None and ha <= lb:
                return 1
            if la is not None and hb is not None and la > hb:
                return 0
            f = st.facts.get(("lt", a, b))
            if f and f[0] == "=" and f[1] == 1:
                return 1
        return None

    def int_ge(self, st, a, b):
        """Is a >= b known, for integers?"""
        for k, v in ((("ge", a, b), 1), (("lt", a, b), 0), (("le", b, a), 1), (("gt", b, a), 0), (("eq", a, b), 1),
                     (("gt", a, b), 1), (("lt", b, a), 1), (("le", a, b), 0), (("ne", a, b), 0)):
            if st.facts.get(k) == ("=", v):
                return True
        return self.cmp_known(st, "ge", a, b) == 1

    def assume(self, st, t, val):
        """Record term t == val; returns False when that contradicts the facts."""
        k = self.lookup(st, t)
        if k is not None:
            return k == val
        if t[0] == "not":
            return self.assume(st, t[1], 1 - val)
        f = st.facts.get(t)
        if f is not None and f[0] == "!" and val in f[1]:
            return False
        if forgotten(t):
            return True
        st.facts[t] = ("=", val)
        if t[0] in ("lt", "le", "gt", "ge", "eq", "ne") and len(t) == 3 and val in (0, 1):
            self.learn(st, t[0], t[1], t[2], val)
        return True

    def learn(self, st, op, a, b, val):
        neg = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le", "eq": "ne", "ne": "eq"}
        if a[0] == "c" and b[0] != "c":
            flip = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
            return self.learn(st, flip[op], b, a, val)
        if b[0] == "s" and op in ("eq", "ne"):
            if (op == "eq") == (val == 1):
                st.facts[a] = ("=", b[1])
            return
        if b[0] != "c" or not isinstance(b[1], int):
            return
        if not val:
            op = neg[op]
        k = b[1]
        if a[0] == "len" or a[0] in ("pos", "add", "sub", "fld", "sym", "phi", "i") or True:
            lo, hi = None, None
            r = st.facts.get(("rng", a))
            if r:
                lo, hi = r[1], r[2]
            if op == "eq":
                st.facts[a] = ("=", k)
                return
            if op == "ne":
                f = st.facts.get(a)
                if f is None:
                    st.facts[a] = ("!", frozenset([k]))
                elif f[0] == "!":
                    st.facts[a] = ("!", f[1] | {k})
                return
            if op == "lt":
                hi = k - 1 if hi is None else min(hi, k - 1)
            if op == "le":
                hi = k if hi is None else min(hi, k)
            if op == "gt":
                lo = k + 1 if lo is None else max(lo, k + 1)
            if op == "ge":
                lo = k if lo is None else max(lo, k)
            st.facts[("rng", a)] = ("r", lo, hi)

    def exclude(self, st, t, vals):
        k = self.lookup(st, t)
        if k is not None:
            return k not in vals
        if t[0] == "not":
            return self.exclude(st, t[1], [1 - v for v in vals])
        if forgotten(t):
            return True
        f = st.facts.get(t)
        s = frozenset(vals) | (f[1] if f is not None and f[0] == "!" else frozenset())
        st.facts[t] = ("!", s)
        return True

    def branch_bool(self, st, v):
        """[(bool, state)] for an abstract boolean value."""
        v = self.strip(st, v)
        if v[0] == "c":
            return [(bool(v[1]), st)]
        t = self.T(st, v)
        k = self.lookup(st, t)
        if k is not None:
            return [(bool(k), st)]
        out = []
        for val in (1, 0):
            s2 = st.copy()
            if self.assume(s2, t, val):
                out.append((bool(val), s2))
        return out

    def split(self, st, v, variants):
        """Case-split an enum value: [(vidx, field_getter, state)]"""
        v = self.strip(st, v)
        if v[0] == "agg":
            return [(v[3], (lambda i, v=v: v[4][i] if i < len(v[4]) else sym(("bad",))), st)]
        t = self.T(st, v)
        out = []
        d = ("disc", t)
        known = self.lookup(st, d)
        f = st.facts.get(d)
        for x in variants:
            if known is not None and known != x:
                continue
            if f is not None and f[0] == "!" and x in f[1]:
                continue
            s2 = st if known is not None else st.copy()
            if known is None:
                s2.facts[d] = ("=", x)
            out.append((x, (lambda i, t=t, x=x: sym(self.mkterm("fld", t, ("v", x, i)))), s2))
        return out

    def fresh(self, st, t, keep=False):
        """A new unknown named t: anything still holding the previous value of that name goes stale."""
        key = t
        hit = [l for l, v in st.mem.items() if contains(v, key) or (l[0] == "S" and contains(l[1], key))]
        for l in hit:
            v = st.mem[l]
            if l[0] == "S" and contains(l[1], key):
                del st.mem[l]
            else:
                st.mem[l] = subst(v, key, ("stale", key if key[0] != "stale" else key[1]))
        bad = [f for f in st.facts if contains(f, key)]
        for f in bad:
            v = st.facts.pop(f)
            if keep:
                st.facts[subst(f, key, ("stale", key))] = v
        return sym(t)

    # ------------------------------------------------------------ evaluation
    def operand(self, st, fr, fn, o):
        if o[0] in ("cp", "mv"):
            loc, path = self.lval(st, fr, o[1])
            return self.read_loc(st, loc, path)
        if o[0] == "k":
            return self.konst(st, fn, o[1])
        return sym(("rt",))

    def konst(self, st, fn, k):
        cr = fn.crate
        if "fn" in k:
            return ("fn", k.get("rkey", k["key"]), canon_name(k, cr), FnInfo(k, cr))
        if "promoted" in k:
            key = ("P", fn.key, k["promoted"])
            if key not in self.globals:
                body = fn.promoted[k["promoted"]]
                s2 = State()
                fid = self.frame_id(("promoted", fn.key, k["promoted"]))
                v = sym(("promoted", fn.key, k["promoted"]))
                try:
                    outs = self.run(body, fn, fid, s2, ())
                    if len(outs) == 1:
                        w, so = outs[0]
                        v = w
                        # copy what the promoted refers to
                        for l, x in so.mem.items():
                            if l[0] == fid or l[0] == "P":
                                self.globals[l] = x
                except Budget:
                    raise
                self.globals[key] = v
            return self.globals[key]
        if "str" in k:
            return ("s", k["str"])
        if "int" in k:
            return c(k["int"])
        if "bytes" in k:
            return ("s", k["bytes"])
        if "zst" in k:
            t = cr.ty(k["t"])
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "closure":
                return ("clo", t["key"], ())
            if t["k"] == "fndef":
                return ("fn", t["key"], t["def"], FnInfo({"fn": t["def"], "key": t["key"], "args": t["args"]}, cr))
            return ("agg", "adt", t.get("def", t["s"]), 0, ())
        if "const" in k:
            # an associated/const item: interpret its body when we own it
            f = self.fn_by_key.get(k.get("ckey"))
            if f is not None:
                fid = self.frame_id(("const", f.key))
                outs = self.run(f.body, f, fid, State(), ())
                if len(outs) == 1:
                    w, so = outs[0]
                    for l, x in so.mem.items():
                        if l[0] in (fid, "P"):
                            self.globals[l] = x
                    return w
            return sym(("const", k["const"]))
        if "static" in k:
            return sym(("static", k["static"]))
        return sym(("const", k.get("text", "?"), cr.tstr(k["t"])))

    def frame_id(self, key):
        if key not in self.frames:
            self.frames[key] = ("F", len(self.frames))
            self.frame_keys[self.frames[key]] = key
        return self.frames[key]

    def frame_fn(self, fr):
        k = self.frame_keys.get(fr)
        return self.fn_by_key.get(k[-1]) if k is not None else None

    def concrete(self, crate, ty, fr):
        """The text of a type with the type parameters of the frame's function replaced by what its callers gave for them."""
        d = crate.ty(ty)
        if d["k"] == "param":
            return self.param(d["s"], fr)
        s = d["s"]
        for i in sorted(d.get("args", ()), reverse=True):
            a = crate.ty(i)
            b = self.concrete(crate, i, fr)
            if b != a["s"]:
                s = re.sub(r"\b%s\b" % re.escape(a["s"]), lambda m: b, s)
        return s

    def param(self, name, fr):
        k = self.frame_keys.get(fr)
        while k is not None and k[0] != "root":
            caller, b, key = k[0], k[1], k[-1]
            fn = self.fn_by_key.get(key)
            gen = fn.d.get("generics") if fn is not None else None
            if gen and name in gen and isinstance(b, int):
                cf = self.frame_fn(caller)
                info = callee(cf.body.term(b)) if cf is not None else None
                if info is None:
                    return name
                args = info.get("rargs") if info.get("rkey") == key else info.get("args")
                if args is None or len(args) != len(gen):
                    return name
                return self.concrete(cf.crate, args[gen.index(name)], caller)
            if fn is None or fn.kind != "closure":
                return name
            k = self.frame_keys.get(caller)
        return name

    def binop(self, st, op, a, b):
        a, b = self.strip(st, a), self.strip(st, b)
        ov = op.endswith("WithOverflow")
        base = op[:-12] if ov else op
        base = base.replace("Unchecked", "")
        names = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "Eq": "eq", "Ne": "ne",
                 "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge", "BitAnd": "and", "BitOr": "or", "BitXor": "xor",
                 "Shl": "shl", "Shr": "shr"}
        n = names.get(base, base)
        ta, tb = self.T(st, a), self.T(st, b)
        if a[0] == "c" and b[0] == "c" and not isinstance(a[1], (float, str)) and not isinstance(b[1], (float, str)):
            x, y = a[1], b[1]
            r = None
            if n == "add": r = x + y
            elif n == "sub": r = x - y
            elif n == "mul": r = x * y
            elif n in ("eq", "ne", "lt", "le", "gt", "ge"):
                r = int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[n])
            elif n == "and": r = x & y
            elif n == "or": r = x | y
            elif n == "xor": r = x ^ y
            if r is not None:
                return ("agg", "tuple", "", 0, (c(r), FALSE)) if ov else c(r)
        if n in ("eq", "ne", "lt", "le", "gt", "ge"):
            if n == "ne":
                v = sym(("not", self.mkterm("eq", ta, tb)))
            else:
                v = sym(self.mkterm(n, ta, tb))
            k = self.lookup(st, v[1])
            return c(k) if k is not None else v
        if n == "and" and a == b:
            return a
        if n in ("add", "mul") and a[0] == "c" and b[0] != "c":
            a, b, ta, tb = b, a, tb, ta
        if n in ("add", "sub") and tb == c(0):
            r = a
        elif n == "add" and ta[0] == "sub" and ta[2] == tb:
            r = sym(ta[1])
        elif n == "sub" and ta[0] == "add" and ta[2] == tb:
            r = sym(ta[1])
        else:
            r = sym(self.mkterm(n, ta, tb))
        if ov:
            o = sym(self.mkterm("ovf", n, ta, tb))
            if n == "sub":
                lo, _ = self.rng(st, ta)
                _, hb = self.rng(st, tb)
                if lo is not None and hb is not None and lo >= hb:
                    o = FALSE
                elif self.cmp_known(st, "le", tb, ta) == 1:
                    o = FALSE
            if n == "add" and tb[0] == "c" and isinstance(tb[1], int) and 0 <= tb[1] <= 4096:
                # counters of elements held in memory: see DESIGN (assumption A-count)
                o = sym(("ovfc", ta, tb))
            return ("agg", "tuple", "", 0, (r, o))
        return r

    def rvalue(self, st, fr, fn, r, site):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, fn, r[1])
        if k in ("ref", "addr"):
            pl = r[2] if k == "ref" else r[1]
            loc, path = self.lval(st, fr, pl)
            if loc[0] == "S" and not path and loc not in st.mem:
                return sym(loc[1])
            if pl[1] and pl[1][-1] == "*" and loc[0] != "S" and not (k == "ref" and r[1] is True) and self.read_loc(st, loc, path)[0] in ("s", "fn"):
                return self.read_loc(st, loc, path)      # a reborrowed literal
            return ("ref", loc, path)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, fn, r[2]), self.operand(st, fr, fn, r[3]))
        if k == "un":
            v = self.strip(st, self.operand(st, fr, fn, r[2]))
            if r[1] == "Not":
                if v[0] == "c" and v[1] in (0, 1):
                    return c(1 - v[1])
                t = self.T(st, v)
                if t[0] == "not":
                    return sym(t[1])
                return sym(("not", t))
            if r[1] == "PtrMetadata":
                return self.length(st, v)
            if v[0] == "c" and r[1] == "Neg":
                return c(-v[1])
            return sym(self.mkterm(r[1].lower(), self.T(st, v)))
        if k == "disc":
            loc, path = self.lval(st, fr, r[1])
            v = self.strip(st, self.read_loc(st, loc, path))
            if v[0] == "agg":
                return c(v[3] - 1 if v[2] in ("std::cmp::Ordering", "core::cmp::Ordering") else v[3])
            t = ("disc", self.T(st, v))
            kk = self.lookup(st, t)
            return c(kk) if kk is not None else sym(t)
        if k == "agg":
            ops = tuple(self.operand(st, fr, fn, x) for x in r[2])
            kk = r[1]
            if kk[0] == "adt":
                return ("agg", "adt", kk[1], kk[2], ops)
            if kk[0] in ("tuple", "array"):
                return ("agg", kk[0], "", 0, ops)
            if kk[0] in ("closure", "coroutine"):
                return ("clo", kk[1], ops)
            return sym(("agg?", site))
        if k == "cast":
            v = self.operand(st, fr, fn, r[2])
            if "Pointer" in r[1] or "Transmute" in r[1] or "PtrToPtr" in r[1] or "Subtype" in r[1]:
                return v
            w = self.strip(st, v)
            if w[0] == "c" and isinstance(w[1], int) and r[1] in ("IntToInt",):
                return w
            t = self.T(st, w)
            if r[1] == "FloatToInt":
                t = ("call", "f64::trunc", t)
            return sym(self.mkterm("cast", fn.crate.tstr(r[3]), t))
        if k == "repeat":
            v = self.operand(st, fr, fn, r[1])
            if isinstance(r[2], int) and r[2] <= 8:
                return ("agg", "array", "", 0, (v,) * r[2])
            return sym(("repeat", self.T(st, v)))
        return sym(("rv", k, site))

    def length(self, st, v):
        v = self.strip(st, v)
        if v[0] == "agg" and v[1] in ("array",):
            return c(len(v[4]))
        if v[0] == "s":
            return c(len(v[1].encode()))
        if v[0] == "vec":
            n = len(v[3])
            if v[2] == "empty":
                return c(n)
            t = ("len", v[1])
            if n:
                k = self.lookup(st, t)
                return c(k + n) if k is not None else sym(("add", t, c(n)))
        else:
            t = ("len", self.T(st, v))
        k = self.lookup(st, t)
        if v[0] == "vec" and v[2] == "some" and k is None:
            r = st.facts.get(("rng", t))
            if r is None or r[1] is None or r[1] < 1:
                st.facts[("rng", t)] = ("r", 1, r[2] if r else None)
        return c(k) if k is not None else sym(t)

    def popd(self, st, base, tag=None):
        """The base that is left after its last element is gone."""
        if tdepth(base) < 12 and str(base).count("popd") < 5:
            return ("popd", base)
        return ("popn", base[1] if base[0] == "popd" else base)

    # ------------------------------------------------------------ liveness
    def live_in(self, body):
        r = self.locals_of.get(id(body))
        if r is not None and r[0] is body:
            return r[1], r[2]
        n = len(body.blocks)
        addr = set()
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]

        def u(b, l):
            if l not in de[b]:
                use[b].add(l)

        def place_use(b, p):
            u(b, p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i":
                    u(b, e[1])

        def opu(b, o):
            if o[0] in ("cp", "mv"):
                place_use(b, o[1])

        def walk(b, x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list):
                    place_use(b, x[1])
                    return
                for y in x:
                    walk(b, y)
        for b in range(n):
            for s in body.blocks[b][0]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] == "ref":
                        place_use(b, r[2])
                        if "*" not in r[2][1]:
                            addr.add(r[2][0])
                    elif r[0] == "addr":
                        place_use(b, r[1])
                        addr.add(r[1][0])
                    elif r[0] == "disc":
                        place_use(b, r[1])
                    else:
                        walk(b, r)
                    if s[1][1]:
                        place_use(b, s[1])
                    else:
                        de[b].add(s[1][0])
                elif s[0] == "setd":
                    place_use(b, s[1])
            t = body.blocks[b][1]
            if t[0] == "call":
                walk(b, t[1]); walk(b, t[2])
                if t[3][1]:
                    place_use(b, t[3])
                else:
                    de[b].add(t[3][0])
            elif t[0] == "switch":
                opu(b, t[1])
            elif t[0] == "assert":
                opu(b, t[1])
                for o in t[4]:
                    opu(b, o)
            elif t[0] == "return":
                u(b, 0)
            elif t[0] == "yield":
                walk(b, t[1])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(body.rpo()):
                o = set()
                for s in body.succ(b):
                    o |= live[s]
                i = use[b] | (o - de[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.locals_of[id(body)] = (body, live, addr)
        return live, addr

    def prune(self, st, body, fr, b):
        if self.keep:
            return
        live, addr = self.live_in(body)
        lv = live[b]
        dead = [l for l in st.mem if l[0] == fr and l[1] not in lv and l[1] not in addr]
        if dead:
            for l in dead:
                del st.mem[l]

    # ------------------------------------------------------------ joining
    def vshape(self, v, d=0):
        k = v[0]
        if k == "agg":
            if d > 1:
                return ("agg", v[3])
            return ("agg", v[2], v[3]) + tuple(self.vshape(x, d + 1) for x in v[4])
        if k == "c":
            return v if isinstance(v[1], int) and v[1] in (0, 1) and d > 0 else ("c",)
        if k == "vec":
            return ("vec", v[2], len(v[3]) > 0)
        return (k if k != "sym" else "sym",)

    def shape(self, st, body, fr, b):
        live, addr = self.live_in(body)
        out = []
        for i in sorted(live[b]):
            v = st.mem.get((fr, i))
            if v is not None:
                ty = body.fn.crate.ty(body.locals[i])
                if ty["k"] == "bool":
                    out.append((i, v if v[0] == "c" else "sym"))
                elif v[0] == "agg":
                    out.append((i, v[2], v[3]))
                elif v[0] == "vec":
                    out.append((i, "vec", "some" if v[3] else v[2]) + ((len(v[3]),) if self.unroll else ()))
                elif self.unroll and v[0] == "iter":
                    out.append((i, "iter", v[2]))
                elif self.unroll and v[0] == "c" and isinstance(v[1], int) and 0 <= v[1] <= self.unroll:
                    out.append((i, v[1]))
        out.append(self.parts(st))
        return tuple(out)

    def parts(self, st):
        out = []
        p = getattr(self.hooks, "partition", None) if self.hooks is not None else None
        if p:
            out.append(("part", p(self, st)))
        for l in self.ghosts:
            v = st.mem.get(("X", l))
            out.append((l, v if v is not None and v[0] == "c" else None))
        return tuple(out)

    def join2(self, a, b, tag):
        if a.aux != b.aux:
            raise ValueError
        mem = {}
        # a phi name that already denotes an older instance in one of the two states goes stale there
        for st_, other in ((a, b), (b, a)):
            for l, y in list(st_.mem.items()):
                x = other.mem.get(l)
                if x is None or x == y:
                    continue
                t = ("phi", tag, l)
                if y == ("sym", t) or (y[0] == "vec" and y[1] == t and not y[3]):
                    continue
                if any(contains(v, t) for v in st_.mem.values()) or any(contains(f, t) for f in st_.facts):
                    c2 = st_.copy()
                    self.fresh(c2, t, keep=True)
                    if st_ is a:
                        a = c2
                    else:
                        b = c2
                    st_ = c2
        for l in a.mem.keys() | b.mem.keys():
            x, y = a.mem.get(l), b.mem.get(l)
            if x is None or y is None:
                if l[0] == "S":
                    x = x if x is not None else sym(l[1])
                    y = y if y is not None else sym(l[1])
                else:
                    z = x if x is not None else y
                    if l[0] == "P" or z[0] in ("fn",):
                        mem[l] = z
                    continue
            mem[l] = x if x == y else self.joinv(a, b, x, y, ("phi", tag, l))
        facts = self.join_facts(a.facts, b.facts)
        h = getattr(self.hooks, "on_join", None) if self.hooks is not None else None
        if h:
            h(self, a, b, facts)
        # what both states know about a merged value, they know about its phi
        phis = []
        for l, v in mem.items():
            x, y = a.mem.get(l), b.mem.get(l)
            if x is None or y is None or x == y:
                continue
            if v[0] == "sym" and v[1] == ("phi", tag, l):
                x, y = self.T(a, x), self.T(b, y)
                if x != y and tdepth(x) <= 6 and tdepth(y) <= 6:
                    phis.append((x, y, v[1]))
            elif v[0] == "vec" and x[0] == "vec" and y[0] == "vec" and v[1] == ("phi", tag, l):
                fa, fb = self.rng(a, self.T(a, self.length(a, x))), self.rng(b, self.T(b, self.length(b, y)))
                lo = min(fa[0], fb[0]) if fa[0] is not None and fb[0] is not None else None
                if lo:
                    facts.setdefault(("rng", ("len", v[1])), ("r", min(lo, 1), None))
        for x, y, ph in phis:
            fx = {subst(t, x, ph): f for t, f in a.facts.items() if contains(t, x)}
            if not fx:
                if x[0] != "c":
                    continue
            fy = {subst(t, y, ph): f for t, f in b.facts.items() if contains(t, y)}
            for t, f in self.join_facts(fx, fy).items():
                facts.setdefault(t, f)
            ra, rb = self.rng(a, x), self.rng(b, y)
            if ra[0] is not None and rb[0] is not None and min(ra[0], rb[0]) in (0, 1):
                facts.setdefault(("rng", ph), ("r", min(ra[0], rb[0]), None))
        return State(mem, facts, a.aux)

    def join_facts(self, fa, fb):
        facts = {}
        for t, f in fa.items():
            g = fb.get(t)
            if g is None:
                continue
            if f == g:
                facts[t] = f
            elif f[0] == "r" and g[0] == "r":
                lo = None if f[1] is None or g[1] is None else min(f[1], g[1])
                hi = None if f[2] is None or g[2] is None else max(f[2], g[2])
                if (lo is None or lo == f[1] or lo in (0, 1)) and (hi is None or hi == f[2]):
                    facts[t] = ("r", lo, hi)
                else:
                    facts[t] = ("r", lo if lo in (0, 1) else None, None)
            elif f[0] == "!" and g[0] == "!":
                s = f[1] & g[1]
                if s:
                    facts[t] = ("!", s)
        return facts

    def joinv(self, sa, sb, x, y, tag):
        if x == y:
            return x
        if x[0] == "vec" and y[0] == "vec":
            def stt(v):
                return "some" if v[3] else v[2]
            s = stt(x) if stt(x) == stt(y) else "unk"
            return ("vec", tag, s, (), x[4] if x[4] == y[4] else None)
        if x[0] == "agg" and y[0] == "agg" and x[1:4] == y[1:4] and len(x[4]) == len(y[4]):
            return x[:4] + (tuple(self.joinv(sa, sb, p, q, tag + (i,)) for i, (p, q) in enumerate(zip(x[4], y[4]))),)
        if x[0] == "iter" and y[0] == "iter" and x[1] == y[1] and x[4] == y[4]:
            return ("iter", x[1], x[2] if x[2] == y[2] else "adv", x[3] if x[3] == y[3] else None, x[4])
        if x[0] == "clo" and y[0] == "clo" and x[1] == y[1]:
            return ("clo", x[1], tuple(self.joinv(sa, sb, p, q, tag + (i,)) for i, (p, q) in enumerate(zip(x[2], y[2]))))
        return sym(tag)

    # ------------------------------------------------------------ running
    def run(self, body, fn, fr, st, stack):
        """Interpret `body` from its entry; returns [(return value, state)]."""
        self.visited_fns.add(fn.key)
        outs = {}
        heads = body.loop_heads()
        order = {b: i for i, b in enumerate(body.rpo())}
        import heapq
        heap = []
        pending = {}      # block -> list of states
        seen = {}         # block -> set of state keys
        headstates = {}   # block -> {shape: State}

        def push(b, s):
            if body.blocks[b][3]:
                return
            self.prune(s, body, fr, b)
            if b not in pending:
                pending[b] = []
                heapq.heappush(heap, (order.get(b, 10 ** 6), b))
            pending[b].append(s)
        push(0, st)
        tagbase = (fr,)
        while heap:
            _, b = heapq.heappop(heap)
            states = pending.pop(b)
            if b in heads:
                hs = headstates.setdefault(b, {})
                work = []
                for s in states:
                    sh = (s.aux, self.shape(s, body, fr, b))
                    if self.exact and len(hs) < self.exact:
                        sh = ("exact", s.key())
                        if sh in hs:
                            continue
                    if sh not in hs and len(hs) >= self.max_states:
                        sh = (s.aux, None)
                    old = hs.get(sh)
                    if old is None:
                        hs[sh] = s
                        work.append((sh, s))
                    else:
                        j = self.join2(old, s, (fr, b))
                        if j.key() != old.key():
                            self.joined += 1
                            hs[sh] = j
                            work = [w for w in work if w[0] != sh]
                            work.append((sh, j))
                states = [s for _, s in work]
            else:
                uniq = {}
                for s in states:
                    uniq.setdefault(s.key(), s)
                sk = seen.setdefault(b, {})
                states = [s for k, s in uniq.items() if k not in sk]
                if len(states) > self.max_states:
                    # merge: same aux, same shape first
                    groups = {}
                    for s in states:
                        g = (s.aux, self.shape(s, body, fr, b))
                        groups[g] = s if g not in groups else self.join2(groups[g], s, (fr, b, "m"))
                    states = list(groups.values())
                    if len(states) > self.max_states * 4:
                        groups = {}
                        for s in states:
                            g = (s.aux, self.parts(s))
                            groups[g] = s if g not in groups else self.join2(groups[g], s, (fr, b, "m"))
                        states = list(groups.values())
                for s in states:
                    sk[s.key()] = 1
            for s in states:
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget("state budget exhausted in %s" % fn.path)
                for nb, ns in self.step(body, fn, fr, b, s.copy(), stack):
                    if nb is None:
                        v = ns.mem.get((fr, 0), UNIT)
                        v = self.escape(ns, v, fr)
                        outs.setdefault((ns.key(), v), (v, ns))
                    else:
                        push(nb, ns)
        return list(outs.values())

    def escape(self, st, v, fr):
        return v

    def step(self, body, fn, fr, b, st, stack):
        blk = body.blocks[b]
        for i, s in enumerate(blk[0]):
            if s[0] == "=":
                site = (fn.path, s[3])
                v = self.rvalue(st, fr, fn, s[2], (fr, b, i))
                loc, path = self.lval(st, fr, s[1])
                if self.hooks is not None:
                    h = getattr(self.hooks, "on_assign", None)
                    if h:
                        h(self, st, fn, b, s, loc, path, v)
                self.write_loc(st, loc, path, v, (fn.crate, body.locals[s[1][0]]) if not s[1][1][:-1] and loc[0] == fr else None)
            elif s[0] == "setd":
                loc, path = self.lval(st, fr, s[1])
                v = self.read_loc(st, loc, path)
                if v[0] == "agg":
                    self.write_loc(st, loc, path, v[:3] + (s[2],) + v[4:])
        t = blk[1]
        k = t[0]
        site = (fn.path, blk[2])
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [(None, st)]
        if k == "drop":
            if self.hooks is not None:
                h = getattr(self.hooks, "on_drop", None)
                if h:
                    h(self, st, fn, b, t, fr)
            return [(t[2], st)]
        if k == "switch":
            v = self.strip(st, self.operand(st, fr, fn, t[1]))
            if v[0] == "c":
                for x, tb in t[2]:
                    if x == v[1]:
                        return [(tb, st)]
                return [(t[3], st)]
            term = self.T(st, v)
            out = []
            for x, tb in t[2]:
                s2 = st.copy()
                if self.assume(s2, term, x):
                    out.append((tb, s2))
            s2 = st.copy()
            if fn.crate.ty(t[4])["k"] == "bool" and len(t[2]) == 1:
                if self.assume(s2, term, 1 - t[2][0][0]):
                    out.append((t[3], s2))
            elif self.exclude(s2, term, [x for x, _ in t[2]]):
                out.append((t[3], s2))
            return out
        if k == "assert":
            v = self.strip(st, self.operand(st, fr, fn, t[1]))
            exp = 1 if t[2] else 0
            if v[0] == "c":
                if v[1] == exp:
                    return [(t[5], st)]
                self.panic(st, fn, t[3], site, b, stack)
                return []
            term = self.T(st, v)
            if term[0] == "ovfc":
                return [(t[5], st)]
            out = []
            s2 = st.copy()
            kk = self.lookup(st, term)
            if kk is None and term[0] == "ovf" and term[1] == "sub" and self.int_ge(st, term[2], term[3]):
                kk = 0
            if kk is None or kk != exp:
                s3 = st.copy()
                if self.assume(s3, term, 1 - exp):
                    ops = [self.T(st, self.operand(st, fr, fn, o)) for o in t[4]]
                    self.panic(s3, fn, t[3], site, b, stack, ops)
            if self.assume(s2, term, exp):
                if term[0] == "ovf" and term[1] == "sub" and term[3][0] == "c":
                    self.learn(s2, "ge", term[2], term[3], 1)
                out.append((t[5], s2))
            return out
        if k == "call":
            return self.call(body, fn, fr, b, st, t, site, stack)
        if k == "yield":
            loc, path = self.lval(st, fr, t[3])
            self.write_loc(st, loc, path, sym(("resume", fr, b)))
            return [(t[2], st)]
        return []

    def panic(self, st, fn, why, site, b, stack, ops=()):
        key = (fn.path, why)
        h = getattr(self.hooks, "on_panic", None) if self.hooks is not None else None
        if h:
            h(self, st, fn, why, site, stack, ops)
        self.panics.setdefault(key, (site, tuple(f for f in stack), ops))

    def call(self, body, fn, fr, b, st, t, site, stack):
        info = callee(t)
        args = [self.operand(st, fr, fn, a) for a in t[2]]
        argtys = []
        for a in t[2]:
            if a[0] in ("cp", "mv") and not a[1][1]:
                argtys.append((fn.crate, body.locals[a[1][0]]))
            else:
                argtys.append(None)
        if info is None:
            fv = self.strip(st, self.operand(st, fr, fn, t[1]))
            res = self.invoke(st, fv, args, fn, fr, b, site, stack)
        else:
            fi = FnInfo(info, fn.crate)
            res = self.dispatch(st, fi, args, fn, fr, b, site, stack, argtys)
        out = []
        for v, s2 in res:
            if t[4] is None:
                # diverging callee that our model thinks returns
                continue
            loc, path = self.lval(s2, fr, t[3])
            self.write_loc(s2, loc, path, v)
            out.append((t[4], s2))
        if t[4] is None and not res:
            pass
        return out

    def dispatch(self, st, fi, args, fn, fr, b, site, stack, argtys=()):
        if self.hooks is not None:
            h = getattr(self.hooks, "on_result", None)
            if h:
                ctx = Ctx(self, fi.info, fi.name, site, fr, argtys, fn, stack, None, b)
                tok = h(self, st, fi.name, args, ctx, None)      # before: a token the hook wants back
                r = self.dispatch_(st, fi, args, fn, fr, b, site, stack, argtys)
                if tok is not None:
                    r = h(self, st, fi.name, args, ctx, (tok, r))
                return r
        return self.dispatch_(st, fi, args, fn, fr, b, site, stack, argtys)

    def dispatch_(self, st, fi, args, fn, fr, b, site, stack, argtys=()):
        """Call a statically known callee: hook, model, inline, or havoc.  [(value, state)]"""
        name = fi.name
        ctx = Ctx(self, fi.info, name, site, fr, argtys, fn, stack, None, b)
        if self.hooks is not None:
            h = getattr(self.hooks, "on_call", None)
            if h:
                r = h(self, st, name, args, ctx)
                if r is not None:
                    return r
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, args, ctx)
            if r is not None:
                return r
        rkey = fi.info.get("rkey", fi.info["key"])
        # closures and function values called through Fn* traits
        if name in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call") and len(args) == 2:
            f = self.strip(st, args[0])
            tup = self.strip(st, args[1])
            if f[0] in ("clo", "fn"):
                a = list(tup[4]) if tup[0] == "agg" else [tup]
                return self.invoke(st, args[0], a, fn, fr, b, site, stack)
        target = self.fn_by_key.get(rkey)
        if target is not None and target.kind in ("fn", "method") and self.inline(target):
            if len(stack) < self.max_stack and target.key not in stack:
                return self.enter(st, target, args, fr, b, stack)
        for p, m in self.prefix_models:
            if name.startswith(p):
                r = m(self, st, args, ctx)
                if r is not None:
                    return r
        if fi.diverges:
            self.panic(st, fn, "panic:" + name, site, b, stack)
            return []
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        return self.havoc(st, name, args, ctx)

    def havoc(self, st, name, args, ctx, pure=None):
        ts = tuple(self.T(st, a) for a in args)
        # mutable references passed to unknown code: their targets become unknown
        mutated = False
        for i, a in enumerate(args):
            ty = ctx.argtys[i] if i < len(ctx.argtys) else None
            is_mut = True
            if ty is not None:
                tt = ty[0].ty(ty[1])
                is_mut = tt["k"] in ("ref", "ptr") and tt.get("mut", False)
                if tt["k"] not in ("ref", "ptr"):
                    is_mut = False
            if a[0] == "ref" and is_mut:
                mutated = True
                cur = self.read_loc(st, a[1], a[2])
                nm = ("hv", ctx.frame, ctx.block, i)
                self.fresh(st, nm)
                if cur[0] == "vec":
                    nv = ("vec", nm, "unk", (), cur[4])
                else:
                    nv = sym(nm)
                self.write_loc(st, a[1], a[2], nv)
        if mutated or pure is False:
            return [(self.fresh(st, ("ret", name, ctx.frame, ctx.block)), st)]
        return [(sym(self.mkterm("call", name, *ts)), st)]

    def enter(self, st, target, args, fr, b, stack):
        fid = self.frame_id((fr, b, target.key))
        for l in [l for l in st.mem if l[0] == fid]:
            del st.mem[l]
        body = target.body
        for i in range(body.argc):
            st.mem[(fid, i + 1)] = args[i] if i < len(args) else sym(("arg?", i))
        outs = self.run(body, target, fid, st, stack + (target.key,))
        res = []
        for v, s2 in outs:
            # drop the callee frame (references cannot outlive it, except to promoteds)
            if not any_ref_to(v, fid):
                dead = [l for l in s2.mem if l[0] == fid]
                keep = set()
                for l, x in s2.mem.items():
                    if l[0] != fid and any_ref_to(x, fid):
                        keep.add(1)
                        break
                if not keep:
                    for l in dead:
                        del s2.mem[l]
            res.append((v, s2))
        return res

    def invoke(self, st, fv, args, fn, fr, b, site, stack):
        """Call a function value (closure or fn item) with already spread arguments."""
        f = self.strip(st, fv)
        if f[0] == "clo":
            target = self.fn_by_key.get(f[1])
            if target is not None and len(stack) < self.max_stack and target.key not in stack:
                self_ty = target.crate.ty(target.body.locals[1]) if target.body.argc else None
                selfv = f
                if self_ty is not None and self_ty["k"] == "ref":
                    if fv[0] == "ref":
                        selfv = fv
                    else:
                        loc = ("C", (fr, b, f[1]))
                        st.mem[loc] = f
                        selfv = ("ref", loc, ())
                return self.enter(st, target, [selfv] + list(args), fr, (b, "clo"), stack)
            return [(sym(self.mkterm("call", "closure", f[1])), st)]
        if f[0] == "fn":
            return self.dispatch(st, f[3], list(args), fn, fr, (b, "fnv"), site, stack)
        ts = tuple(self.T(st, a) for a in args)
        return [(sym(self.mkterm("apply", self.T(st, f)) + ts), st)]

    # entry point
    def analyse(self, fn, args, st=None):
        st = st or State()
        fid = self.frame_id(("root", fn.key))
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        outs = self.run(fn.body, fn, fid, st, (fn.key,))
        return [(v, s, fid) for v, s in outs]


def any_ref_to(v, fid):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "ref" and v[1][0] == fid:
            return True
        for x in v:
            if isinstance(x, tuple) and any_ref_to(x, fid):
                return True
    return False


class FnInfo:
    __slots__ = ("info", "name", "crate")
    _cache = {}

    def __new__(cls, info, crate):
        k = (id(info), id(crate))
        r = cls._cache.get(k)
        if r is not None and r.info is info:
            return r
        r = object.__new__(cls)
        r.info, r.crate = info, crate
        r.name = canon_name(info, crate)
        cls._cache[k] = r
        return r

    def __hash__(self):
        return hash((self.name, self.info.get("rkey", self.info["key"])))

    def __eq__(self, o):
        return isinstance(o, FnInfo) and self.info.get("rkey", self.info["key"]) == o.info.get("rkey", o.info["key"]) \
            and self.name == o.name

    @property
    def diverges(self):
        n = self.name
        return n.startswith("core::panicking") or n.startswith("std::rt::panic") or n.startswith("std::rt::begin_panic") \
            or n in ("std::process::exit", "core::option::expect_failed", "core::result::unwrap_failed")
