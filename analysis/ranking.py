"""Does every loop come to an end?  Over MIR, one strongly connected piece of the flow graph at a time.

A measure of a piece is an iterator of finite type, a stack or an integer that nothing in the piece renews; the edges on which it gets smaller
are cut, and what is left of the piece is looked at again, until nothing is left (the loop ends) or no measure is found.  A cycle that is left
runs forever if none of the values its branches depend on is changed on it; otherwise nothing is decided."""
import re

from facts import callee

TAKE = ("next", "next_if", "next_if_eq", "next_back", "nth", "next_if_map")
POP = ("pop", "pop_front", "pop_back", "pop_first", "pop_last")
DROP = ("remove", "swap_remove", "shift_remove")
PEEK = ("peek", "peek_mut", "last", "first", "last_mut", "first_mut", "front", "back", "front_mut", "back_mut", "split_first", "split_last")
READ = PEEK + ("len", "is_empty", "iter", "get", "get_mut", "as_slice", "as_mut_slice", "clone", "size_hint", "as_str", "contains", "eq", "ne", "chars",
               "capacity", "to_vec", "to_string", "fmt", "cmp", "partial_cmp", "starts_with", "ends_with", "index", "index_mut", "deref", "deref_mut", "as_ref",
               "as_mut", "borrow", "borrow_mut", "by_ref", "truncate", "clear", "reverse", "sort", "sort_by", "swap", "dedup", "retain", "lt", "le", "gt", "ge")
VIEW = ("deref", "deref_mut", "as_ref", "as_mut", "as_slice", "as_mut_slice", "as_str", "borrow", "borrow_mut", "by_ref", "as_mut_str")
SAME = ("cloned", "copied", "as_ref", "as_mut", "as_deref", "as_deref_mut", "map", "clone", "inspect")
FINITE = r"(std|core|alloc)::(slice::(iter::)?(Iter|IterMut|Chunks|ChunksExact|Windows|Split|RSplit)|vec::(IntoIter|Drain|into_iter::IntoIter|drain::Drain)|str::(iter::)?(Chars|CharIndices|Bytes|\w*Split\w*|" \
         r"Lines|Matches|MatchIndices|EncodeUtf16)|ops::(range::)?(Range|RangeInclusive)|option::(IntoIter|Iter|IterMut)|result::(IntoIter|Iter)|array::(iter::)?IntoIter|collections::[\w:]+::" \
         r"(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|Drain|IntoKeys|IntoValues)|char::(ToLowercase|ToUppercase|EscapeDefault|EscapeUnicode)|iter::(sources::\w+::)?(Empty|Once|OnceWith))(<|$)"
WRAP = r"(std|core)::iter::(adapters::\w+::)?(Enumerate|Peekable|Rev|Skip|SkipWhile|Map|Filter|FilterMap|Cloned|Copied|StepBy|TakeWhile|MapWhile|Fuse|Inspect|Scan)<"
ENDLESS = r"\b(RangeFrom|Repeat|RepeatWith|Cycle)<"
BOUNDS = r"\b(Take|TakeWhile|MapWhile|Zip|Scan)<"
CONSUME = ("collect", "count", "last", "fold", "sum", "product", "max", "min", "for_each", "max_by", "min_by", "max_by_key", "min_by_key", "extend", "unzip", "partition", "rev")


def args_of(s):
    """The type arguments of the outermost type of s."""
    i = s.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in s[i + 1:s.rfind(">")]:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return [a for a in out if not a.startswith("'")]


def finite(s):
    s = s.strip()
    while s.startswith("&"):
        s = re.sub(r"^&('\w+ )?(mut )?", "", s)
    if re.match(FINITE, s):
        return True
    a = args_of(s)
    if re.match(WRAP, s):
        return bool(a) and finite(a[0])
    m = re.match(r"(?:std|core)::iter::(?:adapters::\w+::)?(Take|Zip|Chain|FlatMap|Flatten)<", s)
    if m:
        k = m.group(1)
        return k == "Take" or k == "Zip" and any(finite(x) for x in a[:2]) or k == "Chain" and all(finite(x) for x in a[:2]) \
            or k == "FlatMap" and len(a) > 1 and finite(a[0]) and finite(a[1]) or k == "Flatten" and finite(a[0])
    return False


def name_of(t):
    r = callee(t)
    return "" if r is None else re.sub(r"(::<.*?>)+$", "", r["fn"]).rsplit("::", 1)[-1]


class Loops:
    def __init__(self, f, all_fns, summaries, calls=()):
        self.calls = calls
        self.f, self.cr, self.body = f, f.crate, f.body
        self.fns, self.sums = all_fns, summaries
        self.defs, self.cur = {}, None
        for b in self.body.rpo():
            for i, s in enumerate(self.body.blocks[b][0]):
                if s[0] == "=":
                    self.defs.setdefault(s[1][0], []).append((b, i, s[1][1], s[2]))
            t = self.body.term(b)
            if t[0] == "call" and t[3] is not None:
                self.defs.setdefault(t[3][0], []).append((b, None, t[3][1], t))

    def one(self, l):
        d = self.defs.get(l, [])
        return d[0] if len(d) == 1 and not d[0][2] and l > self.body.argc else None

    def ty(self, l):
        return self.cr.ty(self.body.locals[l])["s"]

    # -- what a place stands for -------------------------------------------------------------------------------------------
    def root(self, pl, depth=0):
        """The variable (or part of one) a place or a chain of references to it leads to."""
        l, proj = pl
        p = tuple(str(x) if not isinstance(x, list) else ("f%s" % x[1] if x[0] == "f" else str(x)) for x in proj if x != "*")
        if depth > 12:
            return (l, p)
        d = self.one(l)
        if d is None:
            return (l, p)
        r = d[3]
        if d[1] is None:
            if name_of(r) in VIEW + ("into_iter",) and r[2] and r[2][0][0] in ("cp", "mv"):
                if name_of(r) == "into_iter" and not self.ty(l).startswith("&"):
                    return (l, p)
                q = self.root(r[2][0][1], depth + 1)
                return (q[0], q[1] + p)
            return (l, p)
        if r[0] == "ref" or r[0] == "addr":
            q = self.root(r[2], depth + 1)
            return (q[0], q[1] + p)
        if r[0] == "use" and r[1][0] in ("cp", "mv"):
            t = self.ty(l)
            if t.startswith("&") or not p and (r[1][0] == "mv" or self.scalar(l) and (self.cur is None or d[0] in self.cur)) and not r[1][1][1]:
                q = self.root(r[1][1], depth + 1)
                return (q[0], q[1] + p)
        if r[0] == "cast" and r[2][0] in ("cp", "mv"):
            q = self.root(r[2][1], depth + 1)
            return (q[0], q[1] + p)
        return (l, p)

    def scalar(self, l):
        return self.ty(l) in ("bool", "usize", "u32", "u64", "i32", "i64", "u8", "char", "isize", "u16", "i16", "i8", "u128", "i128", "f32", "f64", "rust_decimal::Decimal") and self.one(l) is not None

    def arg(self, t, i=0):
        if len(t[2]) > i and t[2][i][0] in ("cp", "mv"):
            return self.root(t[2][i][1])
        return None

    # -- branches ----------------------------------------------------------------------------------------------------------
    def tested(self, op, value, depth=0):
        """[(local holding an option, does `value` mean there is something)] a switch operand speaks of."""
        if op[0] not in ("cp", "mv") or depth > 8:
            return None
        l, proj = op[1]
        if proj:
            return None
        d = self.one(l)
        if d is None:
            return None
        r = d[3]
        if d[1] is not None:
            if r[0] == "disc":
                if not [x for x in r[1][1] if x != "*"]:
                    q = self.root((r[1][0], [])) if r[1][1] else (r[1][0], ())
                    return None if q[1] else self.option(q[0], value)
                return None
            if r[0] == "un" and r[1] == "Not":
                return self.tested(r[2], None if value is None else 1 - value, depth + 1)
            if r[0] == "use":
                return self.tested(r[1], value, depth + 1)
            return None
        n = name_of(r)
        if n in ("is_some", "is_none", "is_ok", "is_err") and value is not None:
            a = self.arg(r)
            if a and not a[1]:
                yes = value == 1 if n in ("is_some", "is_ok") else value == 0
                return self.option(a[0], 1 if yes else 0, "Result" in self.ty(a[0]) and n in ("is_ok", "is_err"))
        return None

    def option(self, l, value, as_some=False, depth=0):
        """The local an option, or what was made of one, comes from, and whether it holds something when the discriminant is `value`."""
        t = self.ty(l)
        if value is None:
            return None
        if re.match(r"(&('\w+ )?(mut )?)*(std|core)::option::Option<", t):
            some = value == 1
        elif t.startswith("std::ops::ControlFlow") or t.startswith("std::result::Result"):
            some = value == 0 if not as_some else value == 1
        else:
            return None
        while depth < 8:
            depth += 1
            d = self.one(l)
            if d is None:
                return (l, some)
            r = d[3]
            if d[1] is None and name_of(r) in SAME + ("ok_or", "ok_or_else", "branch", "ok", "map_err"):
                a = self.arg(r)
                if a is None or a[1]:
                    return (l, some)
                l = a[0]
                continue
            if d[1] is not None and r[0] == "use" and r[1][0] in ("cp", "mv") and not r[1][1][1]:
                l = r[1][1][0]
                continue
            return (l, some)
        return (l, some)

    def edges_some(self):
        """{local option: [edges on which it holds something]}, and the same for what is unwrapped."""
        out = {}
        for b in self.body.rpo():
            t = self.body.term(b)
            if t[0] == "switch":
                vals = [x[0] for x in t[2]]
                rest = None
                if len(vals) == 1 and vals[0] in (0, 1):
                    rest = 1 - vals[0]
                for v, target in [(x[0], x[1]) for x in t[2]] + [(rest, t[3])]:
                    k = self.tested(t[1], v)
                    if k and k[1]:
                        out.setdefault(k[0], []).append((b, target))
            elif t[0] == "call" and name_of(t) in ("unwrap", "expect", "unwrap_unchecked") and t[4] is not None:
                a = self.arg(t)
                if a and not a[1]:
                    k = self.option(a[0], 1 if "Option" in self.ty(a[0]) else 0)
                    if k:
                        out.setdefault(k[0], []).append((b, t[4]))
        return out

    def edges_full(self, x):
        """Edges on which the stack or iterator x is known to hold something."""
        out = []
        some = self.some
        for b in self.body.rpo():
            t = self.body.term(b)
            if t[0] == "call" and name_of(t) in PEEK and self.arg(t) == x:
                out += some.get(t[3][0], [])
            if t[0] == "switch":
                c = self.compare(t[1])
                for v, target in [(y[0], y[1]) for y in t[2]] + [(None, t[3])]:
                    if v is None and len(t[2]) == 1 and t[2][0][0] in (0, 1):
                        v = 1 - t[2][0][0]
                    if v is None or c is None:
                        continue
                    if c[0] == "empty" and c[1] == x and v == 0:
                        out.append((b, target))
                    if c[0] in ("Gt", "Ne") and c[1] == ("len", x) and c[2] == ("k", 0) and v == 1:
                        out.append((b, target))
                    if c[0] == "Eq" and c[1] == ("len", x) and c[2] == ("k", 0) and v == 0:
                        out.append((b, target))
                    if c[0] == "Lt" and c[1] == ("k", 0) and c[2] == ("len", x) and v == 1:
                        out.append((b, target))
        return out

    def compare(self, op, depth=0):
        """(relation, a, b) of a boolean."""
        if op[0] not in ("cp", "mv") or op[1][1] or depth > 6:
            return None
        d = self.one(op[1][0])
        if d is None:
            return None
        r = d[3]
        if d[1] is None:
            n = name_of(r)
            if n == "is_empty":
                return ("empty", self.arg(r))
            if n in ("lt", "le", "gt", "ge", "eq", "ne") and len(r[2]) == 2:
                return (n.capitalize(), self.side(r[2][0]), self.side(r[2][1]))
            return None
        if r[0] == "bin" and r[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return (r[1], self.side(r[2]), self.side(r[3]))
        if r[0] == "un" and r[1] == "Not":
            c = self.compare(r[2], depth + 1)
            neg = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}
            return (neg[c[0]],) + c[1:] if c and c[0] in neg else None
        if r[0] == "use":
            return self.compare(r[1], depth + 1)
        return None

    def known(self, k):
        if "promoted" in k and k["promoted"] < len(self.f.promoted):
            for s in self.f.promoted[k["promoted"]].blocks[0][0]:
                if s[0] == "=" and s[2][0] == "use" and s[2][1][0] == "k":
                    return self.known(s[2][1][1])
            return "promoted %s %d" % (self.f.key, k["promoted"])
        return k.get("int", k.get("float", k.get("const", k.get("text", "?"))))

    def side(self, op):
        if op[0] == "k":
            return ("k", self.known(op[1]))
        r = self.root(op[1])
        d = self.one(r[0])
        if d is not None and not r[1]:
            if d[1] is None and name_of(d[3]) in ("zero", "one") and not d[3][2]:
                return ("k", 0 if name_of(d[3]) == "zero" else 1)
            if d[1] is None and name_of(d[3]) == "len":
                return ("len", self.arg(d[3]))
            if d[1] is not None and d[3][0] == "un" and d[3][1] == "PtrMetadata" and d[3][2][0] in ("cp", "mv"):
                return ("len", self.root(d[3][2][1]))
            if d[1] is not None and d[3][0] == "use" and d[3][1][0] == "k":
                return ("k", self.known(d[3][1][1]))
            if d[1] is not None and d[3][0] == "use":
                return ("v", self.root(d[3][1][1]))
        return ("v", r)

    # -- what changes x ----------------------------------------------------------------------------------------------------
    def overlaps(self, x, y):
        if x[0] != y[0]:
            return False
        n = min(len(x[1]), len(y[1]))
        return x[1][:n] == y[1][:n]

    def writes(self, b):
        """[(variable, how)] a block changes: "=" by assignment, or the name of the method called on it."""
        out = []
        for s in self.body.blocks[b][0]:
            if s[0] == "=":
                if "*" in s[1][1]:
                    out.append((self.root(s[1]), "="))
                else:
                    out.append((self.place(s[1]), "="))
        t = self.body.term(b)
        if t[0] == "call":
            if t[3] is not None:
                out.append((self.place(t[3]) if "*" not in t[3][1] else self.root(t[3]), "="))
            n = name_of(t)
            for i, a in enumerate(t[2]):
                if a[0] in ("cp", "mv") and not a[1][1]:
                    ty = self.ty(a[1][0])
                    if ty.startswith("&mut") or ty.startswith("&'a mut") or re.match(r"&'?\w* ?mut ", ty):
                        how = n
                        if i or n not in READ + TAKE + POP + DROP:
                            g = self.local_fn(t)
                            k = self.sums.get((g, i)) if g else None
                            how = k or "?" + n
                        out.append((self.root(a[1]), how))
                    elif "closure" in ty or ty.startswith("&") and "closure" in ty:
                        for c in self.captured(a[1][0]):
                            out.append((c, "?closure"))
        return out

    def is_place(self, x):
        return len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list) and x[0] < len(self.body.locals) \
            and all(y == "*" or isinstance(y, list) and y and isinstance(y[0], str) for y in x[1])

    def place(self, pl):
        return (pl[0], tuple("f%s" % x[1] if isinstance(x, list) and x[0] == "f" else str(x) for x in pl[1]))

    def captured(self, l, depth=0):
        """What a closure borrows mutably."""
        d = self.one(l)
        if d is None or depth > 4:
            return []
        r = d[3]
        if d[1] is not None and r[0] == "agg" and r[1][0] == "closure":
            return [self.root(o[1]) for o in r[2] if o[0] in ("cp", "mv") and "&mut" in self.ty(o[1][0])]
        if d[1] is not None and r[0] in ("ref", "use"):
            pl = r[2] if r[0] == "ref" else r[1][1] if r[1][0] != "k" else None
            return self.captured(pl[0], depth + 1) if pl else []
        return []

    def local_fn(self, t):
        r = callee(t)
        if r is None:
            return None
        g = self.fns.get(r.get("rkey")) or self.fns.get(r.get("key"))
        if g is not None and not (r.get("trait") and not r.get("rkey")):
            return g.key
        return r.get("key") if r.get("trait") else None

    def renewed(self, x, blocks, allowed):
        for b in blocks:
            for y, how in self.writes(b):
                if self.overlaps(x, y) and how not in allowed:
                    return True
        return False

    # -- measures ----------------------------------------------------------------------------------------------------------
    def measures(self, blocks):
        """[(what, edges or blocks it gets smaller on)] that hold for this piece."""
        out = []
        evs = {}
        for b in sorted(blocks):
            t = self.body.term(b)
            if t[0] != "call" or t[4] is None:
                continue
            n = name_of(t)
            i = 0
            if n not in TAKE + POP + DROP:
                g = self.local_fn(t)
                i = next((i for i in range(len(t[2])) if g and self.sums.get((g, i)) in ("next", "pop")), None)
                if i is None:
                    continue
                n = self.sums[(g, i)]
            x = self.arg(t, i)
            if x is not None:
                evs.setdefault((x, "iter" if n in TAKE else "stack"), []).append((b, t, n))
        for (x, kind), es in sorted(evs.items(), key=str):
            ty = self.part_ty(x)
            if kind == "iter" and not (ty and self.ends(ty)):
                continue
            if self.renewed(x, blocks, READ + ("reads", "by_ref", "next", "pop") + (TAKE if kind == "iter" else POP + DROP)):
                continue
            cut = []
            for b, t, n in es:
                if n in DROP:
                    cut.append(("block", b))
                    continue
                if t[3][1]:
                    continue
                dest = t[3][0]
                holders = self.held(dest)
                found = [e for h in holders for e in self.some.get(h, []) if h == dest or self.only_from(h, x)]
                if dest in self.some and len(self.defs.get(dest, [])) == 1:
                    cut += [("edge", e) for e in self.some[dest]]
                elif found:
                    cut += [("both", e, tuple(b2 for b2, _, _ in es)) for e in found]
                full = self.edges_full(x)
                if full:
                    cut.append(("guarded", b, tuple(full)))
            if cut:
                out.append(("%s %s" % (kind, self.show(x)), cut))
        for l in sorted({y[0] for b in blocks for y, how in self.writes(b) if (how == "=" or how[1:] in self.ASSIGN) and not y[1]}):
            self.cur = blocks
            m = self.counter(l, blocks)
            self.cur = None
            if m:
                out.append(m)
        return out

    def held(self, l):
        """Locals an option is moved to."""
        out = [l]
        for m, ds in self.defs.items():
            for d in ds:
                if d[1] is not None and not d[2] and d[3][0] == "use" and d[3][1][0] in ("cp", "mv") and d[3][1][1] == [l, []]:
                    out.append(m)
        return out

    def only_from(self, h, x):
        """Is a variable only ever given what was taken from x?"""
        for d in self.defs.get(h, []):
            if d[2]:
                return False
            r = d[3]
            if d[1] is None:
                if not (name_of(r) in TAKE + POP and self.arg(r) == x):
                    return False
            else:
                if not (r[0] == "use" and r[1][0] in ("cp", "mv") and not r[1][1][1]):
                    return False
                e = self.one(r[1][1][0])
                if e is None or e[1] is not None or name_of(e[3]) not in TAKE + POP or self.arg(e[3]) != x:
                    return False
        return True

    def part_ty(self, x):
        t = self.ty(x[0])
        if x[1]:
            return None
        return t

    def ends(self, t):
        """Is an iterator of this type finite?  A parameter's type is that of every call in the crate."""
        if finite(t):
            return True
        m = re.fullmatch(r"(?:&mut )?(?:<(\w+) as std::iter::IntoIterator>::IntoIter|(\w+))", t)
        g = self.f.d.get("generics") or []
        p = m and (m.group(1) or m.group(2))
        if not m or p not in g or self.f.d.get("vis") == "Public" and not self.f.d.get("expn"):
            return False
        at = [args[len(args) - len(g) + g.index(p)] for k, args in self.calls if k == self.f.key and len(args) >= len(g)]
        return bool(at) and all(finite(a) or a.startswith(("std::vec::Vec<", "&std::vec::Vec<", "&[")) for a in at)

    def show(self, x):
        for n, pl in self.body.names:
            if pl and pl[0] == x[0]:
                return n + "".join("." + p for p in x[1])
        return "_%d" % x[0] + "".join("." + p for p in x[1])

    STEP = {"Add": 1, "AddWithOverflow": 1, "AddUnchecked": 1, "Sub": -1, "SubWithOverflow": -1, "SubUnchecked": -1, "Shr": -2, "Div": -2}

    def counter(self, l, blocks):
        """A number that only goes one way in this piece, and is compared with something that does not change."""
        ty = self.ty(l)
        if not (re.fullmatch(r"[iu](8|16|32|64|128|size)", ty) or ty == "rust_decimal::Decimal"):
            return None
        dirs, at = set(), []
        for d in self.defs.get(l, []):
            if d[0] not in blocks:
                continue
            k = self.step(d, l)
            if k is None:
                return None
            dirs.add(-1 if k < 0 else 1)
            at.append(d[0])
        for b in blocks:
            for y, how in self.writes(b):
                if y[0] != l or how == "=" or how in READ:
                    continue
                s = self.ASSIGN.get(how[1:])
                t = self.body.term(b)
                k = self.amount(t[2][1]) if s and len(t[2]) == 2 and self.arg(t) == (l, ()) else None
                if not isinstance(k, (int, float)) or k < (2 if s == -2 else 1):
                    return None
                dirs.add(1 if s > 0 else -1)
                at.append(b)
        if len(dirs) != 1 or not at:
            return None
        up = dirs == {1}
        guards = []
        for b in blocks:
            t = self.body.term(b)
            if t[0] != "switch":
                continue
            c = self.compare(t[1])
            if c is None or c[0] == "empty":
                continue
            rel, a, z = c
            if z == ("v", (l, ())):
                flip = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}
                rel, a, z = flip.get(rel, rel), z, a
            if a != ("v", (l, ())) or not self.fixed(z, blocks):
                continue
            for v, target in [(y[0], y[1]) for y in t[2]] + [(None, t[3])]:
                if v is None and len(t[2]) == 1 and t[2][0][0] in (0, 1):
                    v = 1 - t[2][0][0]
                if v is None:
                    continue
                yes = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}
                r = rel if v == 1 else yes.get(rel)
                if r in (("Lt", "Le") if up else ("Gt", "Ge")) or r == "Ne" and ty != "rust_decimal::Decimal":
                    guards.append((b, target))
        # an integer that is compared with zero in a match
        for b in blocks:
            t = self.body.term(b)
            if t[0] == "switch" and t[1][0] in ("cp", "mv") and not up and self.side(t[1]) == ("v", (l, ())) and [x for x in t[2] if x[0] == 0]:
                guards.append((b, t[3]))
        if not guards:
            return None
        return ("number %s" % self.show((l, ())), [("guarded", b, tuple(guards)) for b in at])

    def fixed(self, z, blocks):
        if z[0] == "k":
            return True
        x = z[1]
        if x is None:
            return False
        allowed = READ + TAKE if z[0] == "len" else READ
        return not self.renewed(x, blocks, tuple(a for a in allowed if a not in ("truncate", "clear", "retain", "dedup")))

    def step(self, d, l, depth=0):
        """How an assignment changes the number: > 0, < 0, or None."""
        r = d[3]
        if d[2]:
            return None
        if d[1] is None:
            return self.step_call(r, l)
        if r[0] == "bin":
            return self.step_bin(r, l)
        if r[0] == "use" and r[1][0] in ("cp", "mv"):
            src, proj = r[1][1]
            e = self.one(src)
            if e is None or depth > 4:
                return None
            if not proj or (len(proj) == 1 and isinstance(proj[0], list) and proj[0][0] == "f" and proj[0][1] == 0):
                if e[1] is not None and e[3][0] == "bin":
                    return self.step_bin(e[3], l)
            if not proj and e[1] is None:
                return self.step_call(e[3], l)
            if not proj and e[1] is not None:
                return self.step(e, l, depth + 1)
            # what `?` hands on
            if len(proj) == 2 and isinstance(proj[0], list) and proj[0][0] == "v":
                k = self.option(src, proj[0][1])
                if k and k[1]:
                    e = self.one(k[0])
                    if e is not None and e[1] is None:
                        return self.step_call(e[3], l)
        return None

    def is_var(self, op, l):
        return op[0] in ("cp", "mv") and self.root(op[1]) == (l, ())

    def amount(self, op):
        if op[0] == "k":
            v = op[1].get("int")
            if v is None and str(op[1].get("const", "")).rsplit("::", 1)[-1] in ("ONE", "TWO", "TEN"):
                return {"ONE": 1, "TWO": 2, "TEN": 10}[op[1]["const"].rsplit("::", 1)[-1]]
            return v
        d = self.one(self.root(op[1])[0])
        if d is not None and d[1] is None and name_of(d[3]) == "one":
            return 1
        if d is not None and d[1] is not None and d[3][0] == "use" and d[3][1][0] == "k":
            return self.amount(d[3][1])
        return None

    def step_bin(self, r, l):
        s = self.STEP.get(r[1])
        if s is None:
            return None
        a, b = r[2], r[3]
        if not self.is_var(a, l):
            if s == 1 and self.is_var(b, l):
                a, b = b, a
            else:
                return None
        k = self.amount(b)
        if not isinstance(k, (int, float)) or isinstance(k, bool):
            return None
        if abs(s) == 2:
            return -1 if k >= (1 if r[1] == "Shr" else 2) else None
        return s * k if k else None

    ASSIGN = {"add_assign": 1, "sub_assign": -1, "div_assign": -2}
    CALLS = {"checked_add": 1, "saturating_add": 1, "wrapping_add": 1, "add": 1, "checked_sub": -1, "saturating_sub": -1, "sub": -1, "checked_div": -2, "div": -2}

    def step_call(self, t, l):
        n = name_of(t)
        if n in ("unwrap", "expect") and t[2]:
            a = self.arg(t)
            e = a and self.one(a[0])
            return self.step_call(e[3], l) if e and e[1] is None and name_of(e[3]) in self.CALLS else None
        s = self.CALLS.get(n)
        if s is None or len(t[2]) != 2 or not self.is_var(t[2][0], l):
            return None
        k = self.amount(t[2][1])
        if not isinstance(k, (int, float)):
            return None
        if abs(s) == 2:
            return -1 if k >= 2 else None
        return s * k if k else None

    # -- pieces ------------------------------------------------------------------------------------------------------------
    def pieces(self, nodes, cut_edges, cut_blocks):
        """Strongly connected pieces that hold a cycle."""
        nodes = set(nodes) - set(cut_blocks)
        succ = {n: [m for m in self.body.succ(n) if m in nodes and (n, m) not in cut_edges] for n in nodes}
        idx, low, on, st, out = {}, {}, set(), [], []
        c = [0]
        for r in sorted(nodes):
            if r in idx:
                continue
            work = [(r, iter(succ[r]))]
            idx[r] = low[r] = c[0]
            c[0] += 1
            st.append(r)
            on.add(r)
            while work:
                n, it = work[-1]
                for m in it:
                    if m not in idx:
                        idx[m] = low[m] = c[0]
                        c[0] += 1
                        st.append(m)
                        on.add(m)
                        work.append((m, iter(succ[m])))
                        break
                    if m in on:
                        low[n] = min(low[n], idx[m])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[n])
                    if low[n] == idx[n]:
                        comp = set()
                        while True:
                            m = st.pop()
                            on.discard(m)
                            comp.add(m)
                            if m == n:
                                break
                        if len(comp) > 1 or n in succ[n]:
                            out.append(comp)
        return out

    def run(self):
        """[(blocks, measures used)] that end, and [(blocks, cut edges, cut blocks)] left."""
        self.some = self.edges_some()
        done, left = [], []
        work = [(p, frozenset(), frozenset(), ()) for p in self.pieces(self.body.rpo(), set(), set())]
        while work:
            blocks, ce, cb, used = work.pop()
            for what, cuts in self.measures(blocks):
                e2, b2 = set(ce), set(cb)
                for c in cuts:
                    if c[0] == "edge":
                        e2.add(c[1])
                    elif c[0] == "block":
                        b2.add(c[1])
                    elif c[0] == "guarded":
                        # every cycle through the step passes a test that bounds it
                        rest = self.pieces(blocks, set(ce) | set(c[2]), cb)
                        if not any(c[1] in p for p in rest):
                            b2.add(c[1])
                    elif c[0] == "both":
                        if not any(c[1][0] in p and c[1][1] in p for p in self.pieces(blocks, ce, set(cb) | set(c[2]))):
                            e2.add(c[1])
                if (e2, b2) == (set(ce), set(cb)):
                    continue
                rest = self.pieces(blocks, e2, b2)
                if rest and any(p == blocks for p in rest):
                    continue
                if not rest:
                    done.append((blocks, used + (what,)))
                else:
                    done.append((blocks - set().union(*rest), used + (what,)))
                    work += [(p, frozenset(e2), frozenset(b2), used + (what,)) for p in rest]
                break
            else:
                left.append((blocks, ce, cb))
        return done, left

    # -- cycles that change nothing ----------------------------------------------------------------------------------------
    def stuck(self, blocks, ce, cb, limit=400):
        """A cycle of the piece that changes nothing its branches depend on: its blocks, or None."""
        succ = {n: [m for m in self.body.succ(n) if m in blocks and (n, m) not in ce] for n in blocks}
        n_seen = 0
        for h in sorted(blocks):
            if h not in self.body.loop_heads():
                continue
            stack = [(h, (h,))]
            while stack:
                n, path = stack.pop()
                for m in succ.get(n, ()):
                    if m == h:
                        n_seen += 1
                        if n_seen > limit:
                            return None
                        if self.repeats(path):
                            return path
                    elif m not in path:
                        stack.append((m, path + (m,)))
        return None

    def repeats(self, path):
        """Do the branches along this cycle come out the same every time round?"""
        changed, deps, conds, held = set(), [], {}, {}
        now = {}        # local -> variables its value was computed from, since the start of the cycle

        def reads(x, acc):
            if isinstance(x, list):
                if x and x[0] in ("cp", "mv") and len(x) == 2:
                    reads(x[1], acc)
                    return
                if self.is_place(x):
                    acc.add(self.root(x) if "*" in x[1] or not x[1] else self.place(x))
                    return
                for y in x:
                    reads(y, acc)

        def value(pl_set):
            out = set()
            for x in pl_set:
                r = x
                if x[0] in now:
                    out |= now[x[0]]
                else:
                    out.add(r)
            return out
        for i, b in enumerate(path):
            for s in self.body.blocks[b][0]:
                if s[0] == "=":
                    acc = set()
                    reads(s[2][1:], acc)
                    v = value(acc)
                    if s[2][0] not in ("use", "ref", "addr"):
                        v |= {("made", b)}
                    x = self.root(s[1]) if "*" in s[1][1] else self.place(s[1])
                    if x[1] or "*" in s[1][1]:
                        changed.add(x)
                        if x[0] in now:
                            now[x[0]] = now[x[0]] | v
                    else:
                        now[x[0]] = v
            t = self.body.term(b)
            if t[0] == "call":
                acc = set()
                reads(t[2], acc)
                if t[1][0] != "k":
                    reads(t[1], acc)
                v = value(acc) | {("made", b)}
                if t[3] is not None:
                    if t[3][1]:
                        changed.add(self.place(t[3]))
                    else:
                        now[t[3][0]] = v
                for x, how in self.writes(b):
                    if how in POP and x not in held and t[3] is not None and not t[3][1]:
                        held[x] = t[3][0]       # put back later, or the cycle changes x
                        continue
                    if how == "?push" and x in held and len(t[2]) == 2 and t[2][1][0] in ("cp", "mv"):
                        y = self.root(t[2][1][1])
                        d = self.one(y[0])
                        if not y[1] and d and d[1] is not None and d[3][0] == "use" and d[3][1][0] in ("cp", "mv"):
                            y = self.place(d[3][1][1])
                        if y[0] == held[x] and len(y[1]) == 2 and y[1][1] == "f0":
                            del held[x]
                            continue
                    if how != "=" and how not in READ:
                        changed.add(x)
                        if x[0] in now:
                            now[x[0]] = {("changed", b)}
                r = callee(t)
                if r is None or re.search(r"\brand|std::time|std::env|std::io|cell::|sync::|thread::", r.get("res") or r["fn"]):
                    return False
            elif t[0] in ("switch", "assert"):
                acc = set()
                reads(t[1], acc)
                deps.append(value(acc))
                if t[0] == "switch":
                    nxt = path[i + 1] if i + 1 < len(path) else path[0]
                    k = self.compare(t[1])
                    vals = [y[0] for y in t[2] if y[1] == nxt]
                    for v in vals or ["other"]:
                        if v == "other" and len(t[2]) == 1 and t[2][0][0] in (0, 1):
                            v = 1 - t[2][0][0]
                        o = self.tested(t[1], v if v != "other" else None)
                        if o:
                            d = self.one(o[0])
                            key = ("full", self.arg(d[3])) if d and d[1] is None and name_of(d[3]) in PEEK + TAKE + POP else ("some", o[0])
                            if conds.setdefault(key, o[1]) != o[1]:
                                return False
                        elif k and k[0] == "empty":
                            if conds.setdefault(("full", k[1]), v == 0) != (v == 0):
                                return False
                        elif k and any(isinstance(y, tuple) and y[0] == "len" for y in k[1:]):
                            return False
                        elif k:
                            if conds.setdefault(k, v) != v:
                                return False
                        elif t[1][0] in ("cp", "mv"):
                            kk = self.disc_key(t[1])
                            is_, not_ = conds.setdefault(kk, [None, set()])
                            if v == "other":
                                not_ |= {y[0] for y in t[2]}
                            elif is_ is not None and is_ != v:
                                return False
                            else:
                                conds[kk][0] = v
                            if conds[kk][0] in not_:
                                return False
        changed |= set(held)
        # a local that is set on the cycle and read before that carries something from one round to the next
        carried = {x for x in now}
        for d in deps:
            for x in d:
                if x[0] == "changed" or x[0] in carried and now[x[0]] != {x} or any(self.overlaps(x, y) for y in changed if y[0] != "changed"):
                    return False
        return bool(deps) or not self.leaves(path)

    def disc_key(self, op):
        d = self.one(op[1][0]) if not op[1][1] else None
        if d and d[1] is not None and d[3][0] == "disc":
            return ("disc", self.root(d[3][1]))
        return ("switch", self.root(op[1]))

    def leaves(self, path):
        return False


def summaries(cr, fns):
    """What a function of the crate does to what it is lent: {(key, argument): "next", "pop", "reads"}; a method of a trait does the worst its
    implementations do."""
    out, again = {}, True
    bodies = [f for f in cr.bodies if f.body.argc]
    rounds = 0
    while again and rounds < 4:
        again, rounds = False, rounds + 1
        for f in bodies:
            L = Loops(f, fns, out)
            for i in range(f.body.argc):
                if not re.match(r"&('?\w+ )?mut ", L.ty(i + 1)):
                    continue
                hows = {how for b in f.body.rpo() for y, how in L.writes(b) if y[0] == i + 1}
                if not hows <= set(READ + TAKE + POP + ("reads", "next", "pop")):
                    continue
                k = "reads"
                d = L.defs.get(0, [])
                if len(d) == 1 and d[0][1] is None and not d[0][2] and L.arg(d[0][3]) == (i + 1, ()):
                    n = name_of(d[0][3])
                    k = "next" if n in TAKE else "pop" if n in POP else "reads"
                if k == "reads" and hows & set(TAKE + POP + ("next", "pop")):
                    k = "by_ref"       # takes some, adds none
                if out.get((f.key, i)) != k:
                    out[(f.key, i)] = k
                    again = True
        # methods of traits
        by = {}
        for f in bodies:
            if f.trait:
                by.setdefault((f.trait, f.name), []).append(f)
        for (tr, name), fs in by.items():
            keys = {f.key for f in cr.fns.values() if f.in_trait and f.path == tr + "::" + name}
            for i in range(max(f.body.argc for f in fs)):
                ks = {out.get((f.key, i)) for f in fs}
                if None not in ks:
                    k = ks.pop() if len(ks) == 1 else "by_ref"
                    for key in keys or {"prexel::%s::%s" % (tr, name)}:
                        if out.get((key, i)) != k:
                            out[(key, i)] = k
                            again = True
    return out


def calls_of(crates):
    """[(key of a function called, the types it is called with)]"""
    out = []
    for cr in crates:
        for f in cr.bodies:
            for b in f.body.rpo():
                t = f.body.term(b)
                r = callee(t) if t[0] == "call" else None
                if r and "args" in r:
                    out.append((r.get("rkey") or r["key"], [cr.ty(a)["s"] for a in r["args"] if isinstance(a, int) and a >= 0]))
    return out


# -- recursion -----------------------------------------------------------------------------------------------------------------
CONSTS = {"ZERO": 0, "ONE": 1, "ONE_MINUS": -1, "TWO": 2, "THREE": 3, "TEN": 10, "HALF": 0.5}
INF = float("inf")


class Range:
    """An interval and the points of it left out."""
    def __init__(self, lo=-INF, hi=INF, lo_open=True, hi_open=True, out=()):
        self.lo, self.hi, self.lo_open, self.hi_open, self.out = lo, hi, lo_open, hi_open, set(out)

    def limit(self, rel, k):
        r = Range(self.lo, self.hi, self.lo_open, self.hi_open, self.out)
        if rel in ("Lt", "Le", "Eq") and (k < r.hi or k == r.hi and rel == "Lt"):
            r.hi, r.hi_open = k, rel == "Lt"
        if rel in ("Gt", "Ge", "Eq") and (k > r.lo or k == r.lo and rel == "Gt"):
            r.lo, r.lo_open = k, rel == "Gt"
        if rel == "Ne":
            r.out.add(k)
        return r

    def empty(self):
        return self.lo > self.hi or self.lo == self.hi and (self.lo_open or self.hi_open or self.lo in self.out)

    def meet(self, o):
        r = self.limit("Gt" if o.lo_open else "Ge", o.lo).limit("Lt" if o.hi_open else "Le", o.hi)
        r.out |= o.out
        return r

    def neg(self):
        return Range(-self.hi, -self.lo, self.hi_open, self.lo_open, {-x for x in self.out})

    def plus(self, k):
        return Range(self.lo + k, self.hi + k, self.lo_open, self.hi_open, {x + k for x in self.out})

    def inv(self, k):
        """k / x for k > 0, where x is on one side of zero."""
        if k <= 0 or not (self.lo >= 0 or self.hi <= 0):
            return Range()
        a = k / self.hi if self.hi else -INF
        b = k / self.lo if self.lo else INF
        return Range(a, b, self.hi_open, self.lo_open)


class Recursion:
    """Calls of a function to itself."""
    def __init__(self, f, L):
        self.f, self.L, self.body = f, L, f.body
        self.sites = []
        for b in self.body.rpo():
            t = self.body.term(b)
            if t[0] == "call":
                r = callee(t)
                if r and (r.get("rkey") or r["key"]) == f.key:
                    self.sites.append((b, t))
        self.dom = self.body.dom()

    def number(self, op):
        z = self.L.side(op)
        return self.value(z)

    def value(self, z):
        if z[0] != "k":
            return None
        if isinstance(z[1], (int, float)) and not isinstance(z[1], bool):
            return z[1]
        return CONSTS.get(str(z[1]).rsplit("::", 1)[-1])

    def conditions(self, b, var):
        """What tests that lead to b say of var."""
        r = Range()
        flt = self.L.ty(var[0]) in ("f32", "f64")
        for c in self.body.rpo():
            t = self.body.term(c)
            if t[0] != "switch" or c not in self.dom[b]:
                continue
            targets = [(x[0], x[1]) for x in t[2]] + [(1 - t[2][0][0] if len(t[2]) == 1 and t[2][0][0] in (0, 1) else None, t[3])]
            hold = [(v, x) for v, x in targets if x in self.dom[b] and self.preds(x) == {c}]
            if len(hold) != 1 or not self.unchanged(var, hold[0][1], b):
                continue
            v = hold[0][0]
            k = self.L.compare(t[1])
            one = self.one_of(t[1])
            if one and one[1] == var and v is not None:
                r = r.limit("Eq" if v == 1 else "Ne", one[0])
                continue
            if k is None or k[0] == "empty" or v is None:
                if v is not None and t[1][0] in ("cp", "mv") and self.L.side(t[1]) == ("v", var):
                    r = r.limit("Eq", v)
                continue
            rel, x, y = k
            if self.value(x) is not None:
                x, y = y, x
                rel = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(rel, rel)
            n = self.value(y)
            if x != ("v", var) or n is None:
                continue
            if v == 0:
                if flt and rel != "Ne":
                    continue
                rel = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}[rel]
            r = r.limit(rel, n)
        return r

    def preds(self, x):
        return set(self.body.preds().get(x, ())) if isinstance(self.body.preds(), dict) else set(self.body.preds()[x])

    def one_of(self, op, depth=0):
        if op[0] not in ("cp", "mv") or op[1][1] or depth > 4:
            return None
        d = self.L.one(op[1][0])
        if d is None:
            return None
        if d[1] is None and name_of(d[3]) in ("is_zero", "is_one"):
            return (0 if name_of(d[3]) == "is_zero" else 1, self.L.arg(d[3]))
        if d[1] is not None and d[3][0] == "use":
            return self.one_of(d[3][1], depth + 1)
        return None

    def unchanged(self, var, a, b):
        """Is var the same at b as at a?"""
        fwd, work = {a}, [a]
        while work:
            n = work.pop()
            if n == b:
                continue
            for m in self.body.succ(n):
                if m not in fwd:
                    fwd.add(m)
                    work.append(m)
        back, work = {b}, [b]
        while work:
            for m in self.preds(work.pop()):
                if m not in back:
                    back.add(m)
                    work.append(m)
        for n in fwd & back:
            if n != b and any(self.L.overlaps(var, y) and how not in READ for y, how in self.L.writes(n)):
                return False
        return True

    def range_of(self, op, b, depth=0):
        """The values an argument can have."""
        n = self.number(op)
        if n is not None:
            return Range(n, n, False, False)
        if op[0] == "k" or depth > 6:
            return Range()
        var = self.L.root(op[1])
        r = self.conditions(b, var) if not var[1] else Range()
        d = self.L.one(var[0])
        if d is None:
            return r
        t = d[3]
        if d[1] is not None and t[0] == "use" and t[1][0] in ("cp", "mv") and len(t[1][1][1]) == 2 and isinstance(t[1][1][1][0], list) and t[1][1][1][0][0] == "v":
            k = self.L.option(t[1][1][0], t[1][1][1][0][1])
            d = self.L.one(k[0]) if k and k[1] else None
            t = d[3] if d else None
        if t is None:
            return r
        if d[1] is not None and t[0] == "use" and t[1][0] in ("cp", "mv"):
            pr = t[1][1][1]
            if not pr:
                return r.meet(self.range_of(t[1], b, depth + 1))
            if len(pr) == 1 and isinstance(pr[0], list) and pr[0][0] == "f" and pr[0][1] == 0:
                d = self.L.one(t[1][1][0])
                t = d[3] if d else None
                if t is None:
                    return r
        if d[1] is None:
            n, ops = name_of(t), t[2]
        elif t[0] == "bin":
            n, ops = t[1].lower().replace("withoverflow", ""), [t[2], t[3]]
        elif t[0] == "un":
            n, ops = t[1].lower(), [t[2]]
        else:
            return r
        n = n.replace("checked_", "")
        xs = [self.range_of(o, d[0], depth + 1) for o in ops]
        ks = [self.number(o) for o in ops]
        if n == "neg" and len(xs) == 1:
            return r.meet(xs[0].neg())
        if n == "abs" and len(xs) == 1:
            return r.meet(Range(0, INF, False))
        if n == "inv" and len(xs) == 1:
            return r.meet(xs[0].inv(1))
        if len(xs) == 2:
            if n == "sub" and ks[0] is not None:
                return r.meet(xs[1].neg().plus(ks[0]))
            if n == "sub" and ks[1] is not None:
                return r.meet(xs[0].plus(-ks[1]))
            if n == "add" and (ks[0] is not None or ks[1] is not None):
                return r.meet(xs[1].plus(ks[0]) if ks[0] is not None else xs[0].plus(ks[1]))
            if n == "div" and ks[0] is not None:
                return r.meet(xs[1].inv(ks[0]))
        return r

    def same(self):
        """Sites that pass on exactly what the function was given."""
        out = []
        for b, t in self.sites:
            n = self.body.argc
            if len(t[2]) == n and n and all(self.L.arg(t, i) == (i + 1, ()) and not self.L.ty(i + 1).startswith("&mut") for i in range(n)) \
                    and all(self.unchanged((i + 1, ()), self.body.rpo()[0], b) for i in range(n)):
                out.append(b)
        return out

    def always(self):
        """Sites on every way to a return."""
        rets = [b for b in self.body.rpo() if self.body.term(b)[0] == "return"]
        return [b for b, _ in self.sites if all(b in self.dom[r] for r in rets)]

    def forever(self):
        """Does some value lead the function back to that value?  Only where nothing but the value decides, and it is sent there and back again."""
        for b, t in self.sites:
            for i in range(self.body.argc):
                var = (i + 1, ())
                if self.how(t[2][i]) is None or not self.only(b, var):
                    continue
                here = self.conditions(b, var)
                m = self.range_of(t[2][i], b).meet(here)
                if not m.empty() and m.lo < m.hi:
                    return b
        return None

    def how(self, op):
        """Is an argument k - x, k / x or -x of a parameter x?"""
        d = self.L.one(op[1][0]) if op[0] in ("cp", "mv") else None
        if d is None:
            return None
        t = d[3]
        if d[1] is not None and t[0] == "use" and t[1][0] in ("cp", "mv") and not t[1][1][1]:
            return self.how(t[1])
        n, ops = (name_of(t), t[2]) if d[1] is None else (t[1].lower(), [t[2], t[3]]) if t[0] == "bin" else (t[1].lower(), [t[2]]) if t[0] == "un" else (None, [])
        if n == "neg" and len(ops) == 1 or n in ("sub", "div") and len(ops) == 2 and self.number(ops[0]):
            x = self.L.root(ops[-1][1]) if ops[-1][0] in ("cp", "mv") else None
            return x if x and x[0] <= self.body.argc and not x[1] else None
        return None

    def only(self, b, var):
        """Do all the tests on the way to b speak of var?"""
        for c in self.dom[b]:
            t = self.body.term(c)
            if t[0] == "switch":
                k = self.L.compare(t[1])
                o = self.one_of(t[1])
                if not (o and o[1] == var or k and k[0] != "empty" and ("v", var) in k[1:] and any(self.value(x) is not None for x in k[1:])):
                    return False
        return not any(b in set().union(*p) for p in [self.L.pieces(self.body.rpo(), set(), set())] if p)

    def once(self):
        """A parameter whose value in every call to itself is one with which there is none."""
        for i in range(self.body.argc):
            try:
                here = [self.conditions(b, (i + 1, ())) for b, _ in self.sites]
                then = [self.range_of(t[2][i], b) for b, t in self.sites]
            except (ZeroDivisionError, OverflowError, KeyError):
                continue
            if all(a.meet(c).empty() for a in then for c in here):
                return i
        return None
