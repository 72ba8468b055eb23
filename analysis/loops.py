"""Loop summaries: a function with loops is interpreted with every loop cut at its head.

For each way a loop is entered, the values it changes become loop variables ("lv", instance, local, …), and the summary holds the values on
entry, and, for every path through the body, the values after one iteration with the facts of that path.  Paths that leave the function
give its results over the loop variables.  Ranges are kept as the pair of their bounds, so that a `for` over a range is an ordinary loop."""
from models import exact
from absint import Engine, State, Budget, sym, opt_none, opt_some, c


class Ranges:
    """Range iterators as plain values."""

    def on_call(self, eng, st, name, args, ctx):
        last = name.rsplit("::", 1)[-1]
        if last == "into_iter" and args:
            v = eng.strip(st, args[0])
            if v[0] == "agg" and v[2].endswith("::Range"):
                return [(v, st)]
        if last == "next" and args and args[0][0] == "ref":
            v = eng.strip(st, args[0])
            if v[0] == "agg" and v[2].endswith("::Range"):
                lo, hi = v[4]
                tl, th = eng.T(st, lo), eng.T(st, hi)
                out = []
                k = eng.cmp_known(st, "lt", tl, th)
                for b in (0, 1):
                    if k is not None and k != b:
                        continue
                    s2 = st.copy()
                    if k is None and not eng.assume(s2, ("lt", tl, th), b):
                        continue
                    if b:
                        nv = eng.binop(s2, "add", lo, c(1))
                        eng.write_loc(s2, args[0][1], args[0][2], v[:4] + ((nv, hi),) + v[5:])
                        out.append((opt_some(lo), s2))
                    else:
                        out.append((opt_none(), s2))
                return out
        return None


class Instance:
    """One entry into a loop."""

    def __init__(self, n, head, entry):
        self.n, self.head, self.entry = n, head, entry
        self.vars = {}       # loop variable -> its value on entry
        self.backs = []      # ({loop variable: value after the iteration}, facts, loops being in)
        self.cut = ()


def unrolled(st, fr):
    """A loop over a constant table is simply unrolled."""
    return any(l[0] == fr and v[0] == "iter" and v[1][0] == "arr" and not isinstance(v[1][1], str) and exact(v) for l, v in st.mem.items())


def leaves(a, b, path, out):
    """Paths of the places where two values differ."""
    if a == b:
        return
    if a[0] == "agg" and b[0] == "agg" and a[1:4] == b[1:4] and len(a[4]) == len(b[4]):
        for i, (x, y) in enumerate(zip(a[4], b[4])):
            leaves(x, y, path + (i,), out)
    else:
        out.add(path)


def put(v, path, x):
    if not path:
        return x
    f = list(v[4])
    f[path[0]] = put(f[path[0]], path[1:], x)
    return v[:4] + (tuple(f),) + v[5:]


def get(v, path):
    for i in path:
        if v[0] != "agg" or i >= len(v[4]):
            return None
        v = v[4][i]
    return v


class Loops(Engine):
    def __init__(self, crates, target, **k):
        super().__init__(crates, hooks=k.pop("hooks", None) or Ranges(), **k)
        self.target = target
        self.instances = []
        self.ends = []       # (value, state, instances)

    def run(self, body, fn, fr, st, stack):
        if fn is not self.target or len(stack) != 1 or not body.loop_heads():
            return super().run(body, fn, fr, st, stack)
        self.visited_fns.add(fn.key)
        heads = body.loop_heads()
        outs = []
        self.explore(body, fn, fr, 0, st, stack, (), heads, outs)
        return [(v, s) for v, s, _ in outs]

    def explore(self, body, fn, fr, b, st, stack, cut, heads, outs, arrived=None):
        """From block b; `cut` is the instances of the loops being in."""
        work = [(b, st)]
        first = True
        seen = set()
        while work:
            b, s = work.pop()
            self.prune(s, body, fr, b)
            if b in heads and not first and not unrolled(s, fr):
                inst = next((i for i in cut if i.head == b), None)
                if inst is not None:
                    inst.arrive.append((s, cut))
                    continue
                self.enter_loop(body, fn, fr, b, s, stack, cut, heads, outs)
                continue
            first = False
            k = (b, s.key())
            if k in seen:
                continue
            seen.add(k)
            self.steps += 1
            if self.steps > self.budget:
                raise Budget("state budget exhausted in %s" % fn.path)
            for nb, ns in self.step(body, fn, fr, b, s.copy(), stack):
                if nb is None:
                    v = ns.mem.get((fr, 0), ("agg", "tuple", "", 0, ()))
                    outs.append((v, ns, cut))
                    self.ends.append((v, ns, cut))
                elif not body.blocks[nb][3]:
                    work.append((nb, ns))

    def enter_loop(self, body, fn, fr, h, st, stack, cut, heads, outs):
        changed = set()
        for _ in range(12):
            inst = Instance(len(self.instances), h, st)
            inst.arrive, inst.cut = [], cut
            s = st.copy()
            for l, path in changed:
                v = s.mem.get(l)
                old = get(v, path) if v is not None else None
                if old is None:
                    continue
                name = ("lv", inst.n, l[1]) + path
                inst.vars[name] = self.T(st, old)
                s.mem[l] = put(v, path, sym(name))
            mark, ends = len(outs), len(self.ends)
            self.instances.append(inst)
            self.explore(body, fn, fr, h, s, stack, cut + (inst,), heads, outs)
            more = set()
            for a, _ in inst.arrive:
                for l, v in s.mem.items():
                    w = a.mem.get(l)
                    if w is None or l[0] != fr:
                        continue
                    ps = set()
                    leaves(v, w, (), ps)
                    for p in ps:
                        if not any(l == l2 and p[:len(p2)] == p2 for l2, p2 in changed):
                            more.add((l, p))
            if not more:
                break
            changed |= more
            del outs[mark:]
            del self.ends[ends:]
        for a, at in inst.arrive:
            nxt = {}
            for l, path in changed:
                v = a.mem.get(l)
                x = get(v, path) if v is not None else None
                if x is not None:
                    nxt[("lv", inst.n, l[1]) + path] = self.T(a, x)
            inst.backs.append((nxt, a.facts, at))


def summary(crates, fn, args, inline=None, budget=20000, hooks=None):
    """(engine, ends); each end is (value, state, instances)."""
    eng = Loops(crates, fn, budget=budget, hooks=hooks)
    eng.depth = 40
    if inline:
        eng.inline = inline
    eng.analyse(fn, args, State())
    return eng, eng.ends
