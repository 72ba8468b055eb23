"""P20: see DESIGN.md."""
import re

import opmodel
from callgraph import CallGraph
from facts import body_refs

NOTE = """The call graph from reading, converting and evaluating a text, from the context's lookups and from every builtin operation but `random` is followed through the crate; every function of a library it calls and every static it refers to is compared with the lists of effects in analysis/props/p20.py."""

OPS = ("Function", "BinaryFunction", "UnaryFunction")
# what a function of a library depends on or changes besides its arguments
EFFECTS = (
    (r"\brand(_core|_chacha)?::|getrandom", "random numbers"),
    (r"\bstd::time::|\bchrono::|Instant::now|SystemTime", "the time"),
    (r"\bstd::env::", "the environment"),
    (r"\bstd::(fs|net|process)::|\bstd::os::", "files, the network or processes"),
    (r"\bstd::io::(_print|_eprint|stdin|stdout|stderr|stdio)|\bstd::io::\w*Write", "the terminal"),
    (r"\bstd::thread::(?!local|LocalKey)|\bstd::sync::mpsc", "other threads"),
    (r"RandomState|DefaultHasher::new", "a hash that differs from run to run"),
    (r"\bstd::alloc::(alloc|dealloc|realloc)|\bstd::ptr::(write|read|swap|replace)|\bstd::mem::transmute", "raw memory"),
)
CELLS = re.compile(r"\b(?:std|core)::(?:cell::(?:Cell|RefCell|UnsafeCell|OnceCell)|sync::(?:poison::)?(?:mutex::|rwlock::|once_lock::)?(?:Mutex|RwLock|OnceLock|Once|poison)|"
                   r"sync::atomic|sync::once|cell::once|thread::(?:local::)?LocalKey)|\bonce_cell::|\bparking_lot::|\blazy_static::")
LAZY = re.compile(r"LazyLock|LazyCell|lazy_lock|lazy::|Lazy<|Lazy::")
FRESH = ("new", "from", "default")
UNORDERED = re.compile(r"std::collections::(?:hash_map::|hash_set::|hash::map::|hash::set::)?Hash(?:Map|Set)")
WALK = ("iter", "keys", "values", "into_iter", "drain", "union", "difference", "intersection", "symmetric_difference", "iter_mut", "values_mut", "into_keys", "into_values")
WHOLE = ("any", "all", "count", "contains", "sum", "max", "min", "len")


def is_op(f):
    return f.trait is not None and f.trait.rsplit("::", 1)[-1] in OPS


def roots(cr):
    out = []
    for f in cr.bodies:
        if f.kind not in ("method", "fn"):
            continue
        own = f.self_def() or ""
        if f.trait is None and own.endswith("evaluator::Evaluator") and f.body.argc > 1 and f.name.startswith("eval"):
            out.append(f)
        elif f.trait is None and own.endswith("tokenizer::Tokenizer") and f.name == "tokenize":
            out.append(f)
        elif f.name in ("infix_to_rpn", "rpn_eval") and f.kind == "fn":
            out.append(f)
        elif f.trait and f.trait.endswith("context::Context") and re.match(r"get_|is_|config$", f.name or ""):
            out.append(f)
        elif is_op(f):
            out.append(f)
    return out


def random_ops(crates):
    """The types of the operations that are named `random`, in every context."""
    tys = set()
    for ops, _, _ in opmodel.catalogue(crates).values():
        tys |= {o.ty for o in ops if o.name == "random"}
    return tys


def named(ref):
    return (ref.get("res") or ref["fn"]), ref["fn"]


def walks(crate, f):
    """Calls in f that walk an unordered map, with what is done with the walk."""
    for b in f.body.rpo():
        t = f.body.term(b)
        if t[0] != "call" or t[1][0] != "k" or "fn" not in t[1][1]:
            continue
        ref = t[1][1]
        n, m = named(ref)
        last = re.sub(r"::<.*?>$", "", n).rsplit("::", 1)[-1]
        args = " ".join(crate.ty(a)["s"] for a in (ref.get("rargs") or []) + (ref.get("args") or []) if isinstance(a, int) and a >= 0)
        if last in WALK and (UNORDERED.search(n) or UNORDERED.search(args) and "IntoIterator" in m):
            yield b, n


def uses(crate, f):
    """The last words of what is called in f with an iterator of an unordered map."""
    out = set()
    for b in f.body.rpo():
        t = f.body.term(b)
        if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
            ref = t[1][1]
            args = " ".join(crate.ty(a)["s"] for a in ref.get("args") or [] if isinstance(a, int) and a >= 0)
            n = ref["fn"]
            if ("Iterator::" in n or n.startswith("<") and "Iterator>" in n) and re.search(r"hash_(map|set)::|hash::(map|set)::", args + n):
                out.add(n.rsplit("::", 1)[-1])
    return out


def statics(x, acc):
    if isinstance(x, list):
        for y in x:
            statics(y, acc)
    elif isinstance(x, dict):
        if "static" in x:
            acc.add(x["static"])
        for y in x.values():
            if isinstance(y, (list, dict)):
                statics(y, acc)


def casts(x, acc):
    """Addresses turned into numbers."""
    if isinstance(x, list):
        if x and x[0] == "cast" and isinstance(x[1], str) and ("ExposeProvenance" in x[1] or "PointerExpose" in x[1]):
            acc.append(x)
        for y in x:
            casts(y, acc)


def run(rep, crates):
    cr = crates["prexel"]
    rep.rule("effects: nothing the evaluation of a text reaches, `random` aside, depends on or changes anything but the text and the context")
    rep.rule("state: nothing it reaches reads or writes a cell, a lock, an atomic or a mutable static, so that nothing is left behind")
    rep.rule("order: nothing it reaches takes what comes first out of an unordered map")
    rep.rule("shared: the evaluator and the context are only read")
    g = CallGraph([cr])
    start = roots(cr)
    if not any(f.name == "eval" for f in start):
        rep.bad("anchor:eval", "the evaluator's entry point was not found")
        return
    skip = rep.guard("random", random_ops, crates) or set()
    rep.count("operations exempt", len(skip))

    def stop(f):
        return is_op(f) and f.self_def() in skip and f.name == "call"
    start = [f for f in start if not stop(f)]
    reach = g.closure(start, stop=stop)
    rep.count("functions reached", len(reach))
    rep.count("entry points", len(start))
    makers = {f.path.split("::{closure")[0] for f in reach for r in body_refs(cr, f.body)
              if not r.get("closure") and CELLS.search(named(r)[0]) and named(r)[0].rsplit("::", 1)[-1] in FRESH}
    static = {f.path: f for f in cr.fns.values() if f.kind == "static"}
    for f in start:
        if f.trait is None and f.body.argc and f.kind == "method":
            t = cr.ty(f.body.locals[1])["s"]
            rep.check(not t.startswith("&mut"), "shared:" + f.path, "%s takes the evaluator or tokenizer by mutable reference" % f.path)
        for i in range(1, f.body.argc + 1):
            t = cr.ty(f.body.locals[i])["s"]
            if t.startswith("&mut") and ("Context" in t or t[5:] in ("C", "'_ C")):
                rep.bad("shared:%s:%d" % (f.path, i), "%s takes the context by mutable reference" % f.path)
    for f in sorted(reach, key=lambda x: x.path):
        bodies = [f.body] + f.promoted
        refs = [r for b in bodies for r in body_refs(cr, b) if not r.get("closure")]
        made = f.path.split("::{closure")[0] in makers
        clean = True
        for r in refs:
            n, m = named(r)
            rep.count("calls examined")
            key = "%s:%s" % (f.path, n)
            way = " <- ".join(g.path(f)[:4])
            for pat, what in EFFECTS:
                if re.search(pat, n) or re.search(pat, m):
                    clean = False
                    rep.bad("effects:" + key, "evaluating depends on or changes %s: %s calls %s (reached through %s)" % (what, f.path, n, way))
            if CELLS.search(n) or CELLS.search(m):
                if n.rsplit("::", 1)[-1] in FRESH:
                    continue
                clean = False
                if made:
                    rep.undec("state:" + key, "%s uses a cell it makes itself" % f.path)
                elif n.rsplit("::", 1)[-1] in ("get_or_init", "get_or_try_init") and no_captures(cr, r):
                    rep.ok({"initialised once": n, "in": f.path})
                else:
                    rep.bad("state:" + key, "evaluating uses state that outlives it: %s calls %s (reached through %s)" % (f.path, n, way))
        st = set()
        for b in bodies:
            statics(b.blocks, st)
        for s in sorted(st):
            rep.count("statics referred to")
            d = static.get(s)
            ty = d and d.crate.ty(d.d["ret"])["s"] or ""
            if d is None:
                continue
            if d.d.get("mut") or re.search(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w+)\b", ty):
                clean = False
                rep.bad("state:%s:%s" % (f.path, s), "evaluating uses the mutable static %s: %s (reached through %s)" % (s, f.path, " <- ".join(g.path(f)[:4])))
            elif re.search(r"Once|Lazy", ty):
                rep.ok({"initialised once": s})
        w = [n for _, n in walks(cr, f)]
        if w:
            rep.count("walks of unordered maps", len(w))
            u = uses(cr, f)
            clean = False
            if u and u <= set(WHOLE):
                rep.ok({"order does not matter": f.path})
            elif u & {"find", "find_map", "position", "last", "nth", "reduce", "fold"}:
                rep.bad("order:" + f.path, "%s takes something from an unordered map by its place: %s" % (f.path, ", ".join(w)))
            else:
                rep.undec("order:" + f.path, "%s walks an unordered map: %s" % (f.path, ", ".join(w)))
        acc = []
        for b in bodies:
            casts(b.blocks, acc)
        if acc:
            clean = False
            rep.bad("effects:%s:address" % f.path, "evaluating depends on an address: %s" % f.path)
        if clean:
            rep.ok({"function": f.path})
    for u in cr.unsafe_blocks:
        files = {f.file for f in reach}
        if str(u).split(":")[0].strip("['\"") in files or not isinstance(u, str):
            rep.undec("unsafe:%s" % (u,), "unsafe code is not followed")


def no_captures(cr, ref):
    for a in ref.get("args") or []:
        if isinstance(a, int) and a >= 0:
            t = cr.ty(a)
            if t["k"] == "closure":
                f = next((f for f in cr.bodies if f.key == t.get("key")), None)
                return f is not None and not uses_captures(f)
            if t["s"].startswith("fn(") or "fn item" in t["s"]:
                return True
    return False


def uses_captures(f):
    def look(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 1 and isinstance(x[1], list):
                return True
            return any(look(y) for y in x)
        if isinstance(x, dict):
            return any(look(y) for y in x.values() if isinstance(y, (list, dict)))
        return False
    return any(look(b) for b in f.body.blocks)
