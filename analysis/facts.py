"""Loads the MIR facts the driver dumped and answers questions about the resolved program."""
import json
import re


class Body:
    __slots__ = ("argc", "locals", "names", "blocks", "fn", "_succ", "_preds", "_dom", "_heads", "_rpo")

    def __init__(self, d, fn):
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.names = d["names"]
        self.blocks = d["blocks"]
        self.fn = fn
        self._succ = self._preds = self._dom = self._heads = self._rpo = None

    def term(self, b):
        return self.blocks[b][1]

    def succ(self, b):
        if self._succ is None:
            self._succ = [term_succ(x[1]) for x in self.blocks]
        return self._succ[b]

    def rpo(self):
        if self._rpo is None:
            seen, post = set(), []
            stack = [(0, iter(self.succ(0)))]
            seen.add(0)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ(s))))
                        break
                else:
                    post.append(n)
                    stack.pop()
            self._rpo = post[::-1]
        return self._rpo

    def reachable(self):
        return set(self.rpo())

    def preds(self):
        if self._preds is None:
            p = {b: [] for b in range(len(self.blocks))}
            for b in self.rpo():
                for s in self.succ(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def dom(self):
        """Immediate-dominator based dominator sets (blocks are few)."""
        if self._dom is None:
            order = self.rpo()
            allb = set(order)
            dom = {b: allb for b in order}
            dom[0] = {0}
            preds = self.preds()
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == 0:
                        continue
                    ps = [dom[p] for p in preds[b] if p in allb]
                    new = set.intersection(*ps) if ps else set()
                    new = new | {b}
                    if new != dom[b]:
                        dom[b] = new
                        ch = True
            self._dom = dom
        return self._dom

    def loop_heads(self):
        if self._heads is None:
            dom = self.dom()
            h = set()
            for b in self.rpo():
                for s in self.succ(b):
                    if s in dom[b]:
                        h.add(s)
            # irreducible cycles: add any retreating edge target as well
            pos = {b: i for i, b in enumerate(self.rpo())}
            for b in self.rpo():
                for s in self.succ(b):
                    if pos[s] <= pos[b]:
                        h.add(s)
            self._heads = h
        return self._heads


def term_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [] if t[4] is None else [t[4]]
    if k == "assert":
        return [t[5]]
    if k == "yield":
        return [t[2]]
    return []


class Fn:
    def __init__(self, d, crate):
        self.d = d
        self.crate = crate
        self.key = d["key"]
        self.path = d["path"]
        self.kind = d["kind"]
        self.name = d.get("name")
        self.span = d["span"]
        self.trait = d.get("trait")
        self.in_trait = d.get("in_trait")
        self.selfty = d.get("self")
        self.impl = d.get("impl")
        self.parent = d.get("parent")
        self.vis = d.get("vis", "")
        self.body = Body(d["body"], self)
        self.promoted = [Body(p, self) for p in d["promoted"]]

    @property
    def file(self):
        return self.span.rsplit(":", 1)[0]

    def self_s(self):
        return None if self.selfty is None else self.crate.ty(self.selfty)["s"]

    def self_def(self):
        if self.selfty is None:
            return None
        t = self.crate.ty(self.selfty)
        return t.get("def", t["s"])

    def is_pub(self):
        return self.vis == "Public"

    def __repr__(self):
        return "<Fn %s>" % self.path


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d["crate"]
        self.types = d["types"]
        self.adts = {a["def"]: a for a in d["adts"]}
        self.ext = d.get("ext", {})      # enums of other crates: the names of their variants
        self.impls = {i["key"]: i for i in d["impls"]}
        self.traits = {t["def"]: t for t in d["traits"]}
        self.unsafe_blocks = d["unsafe_blocks"]
        self.fns = {}
        for f in d["fns"]:
            fn = Fn(f, self)
            self.fns[fn.key] = fn
        self.children = {}
        for fn in self.fns.values():
            if fn.parent:
                self.children.setdefault(fn.parent, []).append(fn)
        self.bodies = [f for f in self.fns.values() if f.kind in ("fn", "method", "closure", "coroutine")]

    def ty(self, i):
        return self.types[i]

    def tstr(self, i):
        return self.types[i]["s"]

    # -------- lookup helpers (by meaning, not by position)
    def by_path(self, p):
        return [f for f in self.bodies if f.path == p]

    def impl_methods(self, trait, name=None):
        """Every method body implementing `trait` (path suffix match on the trait path)."""
        out = []
        for f in self.bodies:
            if f.kind == "method" and f.trait and (f.trait == trait or f.trait.endswith("::" + trait)):
                if name is None or f.name == name:
                    out.append(f)
        return out

    def inherent(self, self_def, name):
        return [f for f in self.bodies if f.kind == "method" and f.trait is None and f.name == name
                and f.self_def() and (f.self_def() == self_def or f.self_def().endswith("::" + self_def))]

    def impl_group(self, fn):
        """methods of the same impl block as fn, by name"""
        return {g.name: g for g in self.bodies if g.kind == "method" and g.impl == fn.impl}


def callee(t):
    """The constant function operand of a call terminator, or None (fn pointers)."""
    f = t[1]
    if f[0] == "k" and "fn" in f[1]:
        return f[1]
    return None


def calls(body, blocks=None):
    for b in (blocks if blocks is not None else body.rpo()):
        t = body.term(b)
        if t[0] == "call":
            yield b, t, callee(t)


def short(path):
    """`<T as a::b::Trait>::m` / `a::b::Type::<T>::m` -> last segment."""
    return re.sub(r"::<[^<>]*(?:<[^<>]*>[^<>]*)*>", "", path).rsplit("::", 1)[-1]


def fn_value_keys(crate, x, acc):
    """Collect fn-item / closure references inside operands and rvalues (function values)."""
    if isinstance(x, list):
        for y in x:
            fn_value_keys(crate, y, acc)
    elif isinstance(x, dict):
        if "fn" in x:
            acc.append(x)
        else:
            t = crate.ty(x["t"])
            if t["k"] in ("closure",):
                acc.append({"key": t["key"], "fn": t["key"], "t": x["t"], "args": []})


def body_refs(crate, body):
    """All functions a body refers to: callees, function values and closures it builds."""
    acc = []
    for b in body.rpo():
        blk = body.blocks[b]
        for s in blk[0]:
            if s[0] == "=":
                r = s[2]
                if r[0] == "agg" and r[1][0] in ("closure", "coroutine"):
                    acc.append({"key": r[1][1], "fn": r[1][1], "args": [], "closure": True, "site": (b, s[3])})
                fn_value_keys(crate, r, acc)
        t = blk[1]
        if t[0] == "call":
            fn_value_keys(crate, t[1], acc)
            fn_value_keys(crate, t[2], acc)
    return acc
