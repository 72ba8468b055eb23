"""Call graph over the resolved program: direct calls, function values, closures, and every local implementation
of a trait method that is called on a type not known here."""
import re

from facts import body_refs

# library code that calls back into trait implementations of the crate
CALLBACKS = {
    "std::collections::HashMap": (("Hash", None), ("PartialEq", None), ("Borrow", None)),
    "HashMap": (("Hash", None), ("PartialEq", None), ("Borrow", None)),
    "LinkedHashMap": (("Hash", None), ("PartialEq", None), ("Borrow", None)),
    "new_display": (("Display", "fmt"),),
    "new_debug": (("Debug", "fmt"),),
    "to_string": (("Display", "fmt"),),
    "parse": (("FromStr", "from_str"),),
}


class CallGraph:
    def __init__(self, crates):
        self.crates = crates
        self.by_key = {}
        self.impls = {}
        for c in crates:
            for f in c.fns.values():
                self.by_key[f.key] = f
                if f.trait and f.kind == "method":
                    self.impls.setdefault((f.trait.rsplit("::", 1)[-1], f.name), []).append(f)
        self._out = {}

    def out(self, f, stop=None):
        r = self._out.get(f.key)
        if r is not None:
            return r
        res = {}
        for body in [f.body] + f.promoted:
            for ref in body_refs(f.crate, body):
                for g in self.targets(ref, f.crate):
                    res[g.key] = g
        r = self._out[f.key] = list(res.values())
        return r

    def foreign(self, ref, crate):
        """Is this call resolved to library code that is given none of the crate's types, so that it cannot call back?"""
        if not ref.get("rkey") or crate is None:
            return False
        for a in ref.get("args", []):
            s = crate.tstr(a)
            if re.search(r"\b[A-Z]\b|\bSelf\b|closure|dyn ", s):
                return False
            for d in crate.adts:
                if not d.startswith(("std::", "core::", "alloc::")) and d in s:
                    return False
        return True

    def targets(self, ref, crate=None):
        k = ref.get("rkey", ref["key"])
        g = self.by_key.get(k)
        if g is not None:
            res = [g]
            if ref.get("trait") and not ref.get("rkey") and g.in_trait:
                res += self.impls.get((ref["trait"].rsplit("::", 1)[-1], g.name), [])
            return res
        res = []
        tr = ref.get("trait")
        name = ref["fn"].rsplit("::", 1)[-1]
        if tr and not self.foreign(ref, crate):
            res += self.impls.get((tr.rsplit("::", 1)[-1], name), [])
        for pat, cbs in CALLBACKS.items():
            if pat in ref["fn"] or name == pat:
                for t, m in cbs:
                    for (it, im), fs in self.impls.items():
                        if it == t and (m is None or im == m):
                            res += fs
        return res

    def closure(self, roots, stop=None):
        """All functions reachable from roots; stop(fn) -> do not go through it (it is not included)."""
        seen, parent, work = {}, {}, []
        for f in roots:
            if f.key not in seen:
                seen[f.key] = f
                work.append(f)
        while work:
            f = work.pop()
            for g in self.out(f):
                if g.key in seen or stop and stop(g):
                    continue
                seen[g.key] = g
                parent[g.key] = f
                work.append(g)
        self.parent = parent
        return list(seen.values())

    def path(self, g):
        out = [g]
        while out[-1].key in self.parent:
            out.append(self.parent[out[-1].key])
        return [f.path for f in out[::-1]]
