"""Abstract models of the standard-library calls this repository makes."""
import re
from absint import (sym, c, TRUE, FALSE, UNIT, opt_none, opt_some, res_ok, res_err)

MODELS = {}
PREFIX_MODELS = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def prefix(*names):
    def d(f):
        for n in names:
            PREFIX_MODELS.append((n, f))
        return f
    return d


# ------------------------------------------------------------------ identity-like
IDENT = """Clone::clone Deref::deref DerefMut::deref_mut Borrow::borrow AsRef::as_ref AsMut::as_mut ToOwned::to_owned
ToString::to_string String::as_str Vec::as_slice Vec::as_mut_slice String::into_boxed_str Rc::new Arc::new Box::new
Option::as_ref Option::as_mut Option::as_deref Option::cloned Option::copied String::into_string slice::to_vec slice::as_ref
IntoIterator::into_iter@id Iterator::by_ref Cow::into_owned hint::must_use std::hint::must_use Result::as_ref Result::as_mut
str::to_owned str::to_string Rc::clone Vec::into_boxed_slice slice::iter@id str::as_str Result::cloned Result::copied
str::as_ref std::convert::identity Option::as_deref_mut Vec::into_iter@id Rc::as_ref std::mem::drop@no""".split()


def ident(eng, st, args, ctx):
    v = args[0]
    # a model of "gives back the same value": look through references so equal values are equal terms
    if ctx.name in ("Deref::deref", "DerefMut::deref_mut", "Borrow::borrow", "AsRef::as_ref", "Option::as_ref",
                    "Option::as_mut", "Vec::as_slice", "Iterator::by_ref", "Option::as_deref", "Result::as_ref",
                    "AsMut::as_mut", "Vec::as_mut_slice", "Option::as_deref_mut", "Result::as_mut"):
        if ctx.name in ("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut"):
            w = eng.strip(st, v)
            if w[0] == "agg":
                if w[3] == 0:
                    return [(opt_none(), st)]
                if v[0] == "ref":
                    loc, path = base_of(eng, st, v)
                    return [(opt_some(("ref", loc, path + (("v", 1, 0),))), st)]
            return [(w if w[0] == "sym" else v, st)]
        if ctx.name in ("Result::as_ref", "Result::as_mut"):
            w = eng.strip(st, v)
            return [(w, st)]
        if v[0] == "ref":
            # &&T -> &T
            inner = eng.read_loc(st, v[1], v[2])
            if inner[0] == "ref":
                return [(inner, st)]
        return [(v, st)]
    return [(eng.strip(st, v), st)]


def base_of(eng, st, v):
    while v[0] == "ref":
        w = eng.read_loc(st, v[1], v[2])
        if w[0] != "ref":
            return v[1], v[2]
        v = w
    return None


for _n in IDENT:
    if "@" not in _n:
        MODELS[_n] = ident


@model("Into::into", "From::from", "String::from", "TryInto::try_into@no")
def into(eng, st, args, ctx):
    rk = ctx.info.get("rkey", "")
    if ctx.name == "Into::into":
        # Into is blanket-implemented through From: find a local From impl between these types
        ga = ctx.info.get("args", [])
        if len(ga) == 2:
            cr = ctx.fn.crate
            src, dst = cr.tstr(ga[0]), cr.ty(ga[1])
            for f in cr.impl_methods("From", "from"):
                sd = f.self_def()
                if sd and sd == dst.get("def", dst["s"]) and f.d.get("targs") and cr.tstr(f.d["targs"][-1]).replace("'_ ", "") == src:
                    return eng.enter(st, f, args, ctx.frame, (ctx.block, "into"), ctx.stack)
        return [(eng.strip(st, args[0]), st)]
    if eng.fn_by_key.get(rk) is not None:
        return None
    return [(eng.strip(st, args[0]), st)]


@model("Try::branch")
def branch(eng, st, args, ctx):
    CF = "std::ops::ControlFlow"
    v = eng.strip(st, args[0])
    isopt = is_option_type(ctx, 0)
    out = []
    if isopt:
        for x, get, s in eng.split(st, v, (0, 1)):
            if x == 1:
                out.append((("agg", "adt", CF, 0, (get(0),)), s))
            else:
                out.append((("agg", "adt", CF, 1, (opt_none(),)), s))
    else:
        for x, get, s in eng.split(st, v, (0, 1)):
            if x == 0:
                out.append((("agg", "adt", CF, 0, (get(0),)), s))
            else:
                out.append((("agg", "adt", CF, 1, (res_err(get(0)),)), s))
    return out


def is_option_type(ctx, i):
    ga = ctx.info.get("args", [])
    if ga:
        return ctx.fn.crate.ty(ga[0]).get("def", "").endswith("option::Option")
    return False


@model("FromResidual::from_residual")
def residual(eng, st, args, ctx):
    v = eng.strip(st, args[0])
    # `?` may convert the error through From: keep local conversions
    if v[0] == "agg" and v[2].endswith("Result") and v[3] == 1:
        ga = ctx.info.get("args", [])
        cr = ctx.fn.crate
        if len(ga) == 2:
            t_out, t_in = cr.ty(ga[0]), cr.ty(ga[1])
            if t_out.get("def", "").endswith("Result") and t_in.get("def", "").endswith("Result"):
                eo, ei = cr.tstr(t_out["args"][1]), cr.tstr(t_in["args"][1])
                if eo != ei:
                    for f in cr.impl_methods("From", "from"):
                        if f.self_s() == eo and f.d.get("targs") and cr.tstr(f.d["targs"][-1]) == ei:
                            return [(res_err(x), s) for x, s in
                                    eng.enter(st, f, [v[4][0]], ctx.frame, (ctx.block, "q"), ctx.stack)]
    return [(v, st)]


# ------------------------------------------------------------------ Option / Result combinators
def call_fn(eng, st, f, args, ctx, tag):
    return eng.invoke(st, f, args, ctx.fn, ctx.frame, (ctx.block, tag), ctx.site, ctx.stack)


@model("Option::map", "Option::and_then", "Option::map_or", "Option::map_or_else", "Option::ok_or", "Option::ok_or_else",
       "Option::unwrap", "Option::expect", "Option::unwrap_or", "Option::unwrap_or_else", "Option::unwrap_or_default",
       "Option::is_some", "Option::is_none", "Option::filter", "Option::or", "Option::or_else", "Option::flatten",
       "Option::is_some_and", "Option::is_none_or", "Option::and", "Option::take", "Option::replace", "Option::iter")
def option(eng, st, args, ctx):
    m = ctx.name.split("::")[1]
    out = []
    if m == "take":
        v = eng.strip(st, args[0])
        if args[0][0] == "ref":
            loc, path = base_of(eng, st, args[0])
            eng.write_loc(st, loc, path, opt_none())
        return [(v, st)]
    if m == "replace":
        v = eng.strip(st, args[0])
        if args[0][0] == "ref":
            loc, path = base_of(eng, st, args[0])
            eng.write_loc(st, loc, path, opt_some(args[1]))
        return [(v, st)]
    for x, get, s in eng.split(st, args[0], (0, 1)):
        some = x == 1
        if m == "is_some":
            out.append((TRUE if some else FALSE, s))
        elif m == "is_none":
            out.append((FALSE if some else TRUE, s))
        elif m in ("unwrap", "expect"):
            if some:
                out.append((get(0), s))
            else:
                eng.panic(s, ctx.fn, "unwrap on None", ctx.site, ctx.block, ctx.stack, (eng.T(st, args[0]),))
        elif m == "map":
            if some:
                out += [(opt_some(v), s2) for v, s2 in call_fn(eng, s, args[1], [get(0)], ctx, "m")]
            else:
                out.append((opt_none(), s))
        elif m == "and_then":
            out += call_fn(eng, s, args[1], [get(0)], ctx, "m") if some else [(opt_none(), s)]
        elif m in ("is_some_and", "is_none_or"):
            if some:
                out += call_fn(eng, s, args[1], [get(0)], ctx, "m")
            else:
                out.append((FALSE if m == "is_some_and" else TRUE, s))
        elif m == "map_or":
            out += call_fn(eng, s, args[2], [get(0)], ctx, "m") if some else [(args[1], s)]
        elif m == "map_or_else":
            out += call_fn(eng, s, args[2], [get(0)], ctx, "m") if some else call_fn(eng, s, args[1], [], ctx, "n")
        elif m == "ok_or":
            out.append((res_ok(get(0)) if some else res_err(args[1]), s))
        elif m == "ok_or_else":
            if some:
                out.append((res_ok(get(0)), s))
            else:
                out += [(res_err(v), s2) for v, s2 in call_fn(eng, s, args[1], [], ctx, "n")]
        elif m == "unwrap_or":
            out.append((get(0) if some else args[1], s))
        elif m == "unwrap_or_else":
            out += [(get(0), s)] if some else call_fn(eng, s, args[1], [], ctx, "n")
        elif m == "unwrap_or_default":
            out.append((get(0) if some else sym(("default",)), s))
        elif m == "filter":
            if some:
                for v, s2 in call_fn(eng, s, args[1], [get(0)], ctx, "m"):
                    for bv, s3 in eng.branch_bool(s2, v):
                        out.append((opt_some(get(0)) if bv else opt_none(), s3))
            else:
                out.append((opt_none(), s))
        elif m == "or":
            out.append((opt_some(get(0)) if some else args[1], s))
        elif m == "or_else":
            out += [(opt_some(get(0)), s)] if some else call_fn(eng, s, args[1], [], ctx, "n")
        elif m == "and":
            out.append((args[1] if some else opt_none(), s))
        elif m == "flatten":
            out.append((eng.strip(s, get(0)) if some else opt_none(), s))
        elif m == "iter":
            out.append((("iter", ("arr", ("agg", "array", "", 0, (get(0),) if some else ())), "fresh", None, ()), s))
    return out


@model("Result::map", "Result::map_err", "Result::and_then", "Result::ok", "Result::err", "Result::is_ok", "Result::is_err",
       "Result::unwrap", "Result::expect", "Result::unwrap_or", "Result::unwrap_or_else", "Result::unwrap_or_default",
       "Result::map_or", "Result::map_or_else", "Result::or_else", "Result::unwrap_err", "Result::expect_err",
       "Result::is_ok_and", "Result::is_err_and", "Result::or", "Result::and")
def result(eng, st, args, ctx):
    m = ctx.name.split("::")[1]
    out = []
    for x, get, s in eng.split(st, args[0], (0, 1)):
        ok = x == 0
        if m == "is_ok":
            out.append((TRUE if ok else FALSE, s))
        elif m == "is_err":
            out.append((FALSE if ok else TRUE, s))
        elif m in ("unwrap", "expect"):
            if ok:
                out.append((get(0), s))
            else:
                eng.panic(s, ctx.fn, "unwrap on Err", ctx.site, ctx.block, ctx.stack, (eng.T(st, args[0]),))
        elif m in ("unwrap_err", "expect_err"):
            if not ok:
                out.append((get(0), s))
            else:
                eng.panic(s, ctx.fn, "unwrap_err on Ok", ctx.site, ctx.block, ctx.stack)
        elif m == "map":
            if ok:
                out += [(res_ok(v), s2) for v, s2 in call_fn(eng, s, args[1], [get(0)], ctx, "m")]
            else:
                out.append((res_err(get(0)), s))
        elif m == "map_err":
            if ok:
                out.append((res_ok(get(0)), s))
            else:
                out += [(res_err(v), s2) for v, s2 in call_fn(eng, s, args[1], [get(0)], ctx, "m")]
        elif m == "and_then":
            out += call_fn(eng, s, args[1], [get(0)], ctx, "m") if ok else [(res_err(get(0)), s)]
        elif m in ("is_ok_and", "is_err_and"):
            if ok == (m == "is_ok_and"):
                out += call_fn(eng, s, args[1], [get(0)], ctx, "m")
            else:
                out.append((FALSE, s))
        elif m == "ok":
            out.append((opt_some(get(0)) if ok else opt_none(), s))
        elif m == "err":
            out.append((opt_none() if ok else opt_some(get(0)), s))
        elif m == "unwrap_or":
            out.append((get(0) if ok else args[1], s))
        elif m == "unwrap_or_else":
            out += [(get(0), s)] if ok else call_fn(eng, s, args[1], [get(0)], ctx, "n")
        elif m == "unwrap_or_default":
            out.append((get(0) if ok else sym(("default",)), s))
        elif m == "map_or":
            out += call_fn(eng, s, args[2], [get(0)], ctx, "m") if ok else [(args[1], s)]
        elif m == "map_or_else":
            out += call_fn(eng, s, args[2], [get(0)], ctx, "m") if ok else call_fn(eng, s, args[1], [get(0)], ctx, "n")
        elif m == "or_else":
            out += [(res_ok(get(0)), s)] if ok else call_fn(eng, s, args[1], [get(0)], ctx, "n")
        elif m == "or":
            out.append((res_ok(get(0)) if ok else args[1], s))
        elif m == "and":
            out.append((args[1] if ok else res_err(get(0)), s))
    return out


# ------------------------------------------------------------------ comparisons
def simple_type(ctx):
    """Is the compared type one whose equality is total (ints, chars, strings, bools, C-like enums)?"""
    ga = ctx.info.get("args", [])
    return True


@model("PartialEq::eq", "PartialEq::ne", "std::intrinsics::discriminant_value@no")
def eq(eng, st, args, ctx):
    rk = ctx.info.get("rkey", "")
    a, b = eng.strip(st, args[0]), eng.strip(st, args[1])
    ne = ctx.name.endswith("ne")
    r = None
    if a[0] in ("c", "s") and b[0] in ("c", "s"):
        r = int(a == b)
    elif a[0] == "agg" and b[0] == "agg" and a[3] != b[3]:
        r = 0
    elif a[0] == "agg" and b[0] == "agg" and a[3] == b[3] and not a[4] and not b[4]:
        r = 1
    if r is not None:
        return [(c(r ^ ne), st)]
    # C-like enum against a known variant: compare discriminants
    for x, y in ((a, b), (b, a)):
        if x[0] == "sym" and y[0] == "agg" and not y[4] and y[1] == "adt" and not is_opt_with_fields(y):
            if y[2] in ("std::cmp::Ordering", "core::cmp::Ordering"):
                y = y[:3] + (y[3] - 1,) + y[4:]         # its discriminants are -1, 0 and 1
            t = ("disc", x[1])
            k = eng.lookup(st, t)
            if k is None:
                f = st.facts.get(t)
                if f is not None and f[0] == "!" and y[3] in f[1]:
                    k = -99
            if k is not None:
                return [(c(int(k == y[3]) ^ ne), st)]
            s2 = st.copy()
            s2.facts[t] = ("=", y[3])
            out = [(c(1 ^ ne), s2)]
            s3 = st.copy()
            eng.exclude(s3, t, [y[3]])
            out.append((c(0 ^ ne), s3))
            return out
    if a[0] == "agg" and b[0] == "agg" and a[3] == b[3] and len(a[4]) == 1 and len(b[4]) == 1:
        # Some(x) == Some(y), Ok(x) == Ok(y)
        t = eng.mkterm("eq", eng.T(st, a[4][0]), eng.T(st, b[4][0]))
    else:
        ta, tb = eng.T(st, a), eng.T(st, b)
        if ta[0] in ("c", "s") and tb[0] not in ("c", "s"):
            ta, tb = tb, ta
        t = eng.mkterm("eq", ta, tb)
    local = eng.fn_by_key.get(rk)
    if local is not None and not local.d.get("expn"):
        return None
    k = eng.lookup(st, t)
    if k is not None:
        return [(c(k ^ ne), st)]
    v = sym(("not", t)) if ne else sym(t)
    return [(v, st)]


def is_opt_with_fields(y):
    return False


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def cmp(eng, st, args, ctx):
    rk = ctx.info.get("rkey", "")
    if eng.fn_by_key.get(rk) is not None:
        return None
    m = ctx.name.split("::")[1]
    a, b = eng.strip(st, args[0]), eng.strip(st, args[1])
    if a[0] == "c" and b[0] == "c":
        return [(eng.binop(st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m], a, b), st)]
    # newtype-like aggregates compare their only field
    while a[0] == "agg" and b[0] == "agg" and len(a[4]) == 1 and len(b[4]) == 1:
        a, b = eng.strip(st, a[4][0]), eng.strip(st, b[4][0])
        if a[0] == "c" and b[0] == "c":
            return [(eng.binop(st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m], a, b), st)]
    t = eng.mkterm(m, eng.T(st, a), eng.T(st, b))
    f = st.facts.get(t)
    if f and f[0] == "=":
        return [(c(f[1]), st)]
    return [(sym(t), st)]


# ------------------------------------------------------------------ Vec
def vec_of(eng, st, v):
    """(loc, path, vec value) behind a reference, creating an unknown vec when opaque."""
    n = 0
    while v[0] == "ref" and n < 8:
        w = eng.read_loc(st, v[1], v[2])
        if w[0] == "ref":
            v = w
            n += 1
            continue
        if w[0] == "vec":
            return v[1], v[2], w
        if w[0] == "sym":
            return v[1], v[2], ("vec", w[1], "unk", (), None)
        return v[1], v[2], ("vec", ("v?", v[1]), "unk", (), None)
    if v[0] == "sym":
        loc = ("S", v[1])
        w = st.mem.get(loc)
        if w is not None and w[0] == "vec":
            return loc, (), w
        return loc, (), ("vec", v[1], "unk", (), None)
    if v[0] == "vec":
        return None, (), v
    return None, (), ("vec", ("v?",), "unk", (), None)


def newvec(ctx):
    n = ("new", ctx.frame, ctx.block)
    return ("vec", n, "empty", (), n)


@model("Vec::new", "Vec::with_capacity", "VecDeque::new")
def vec_new(eng, st, args, ctx):
    return [(newvec(ctx), st)]


@model("Vec::push", "Vec::pop", "Vec::len", "Vec::is_empty", "Vec::clear", "Vec::insert", "Vec::remove", "Vec::truncate",
       "slice::last", "slice::last_mut", "slice::is_empty", "slice::len", "slice::first", "slice::get", "slice::reverse",
       "Vec::extend", "Vec::append", "Vec::swap", "slice::swap", "Vec::last", "slice::first_mut", "slice::get_mut",
       "Vec::drain@no", "slice::sort", "slice::sort_by", "slice::sort_by_key", "Vec::retain", "Vec::dedup", "slice::contains@no")
def vec(eng, st, args, ctx):
    m = ctx.name.split("::")[1]
    sv = eng.strip(st, args[0])
    if sv[0] == "agg" and sv[1] == "array" or sv[0] == "s":
        n = len(sv[4]) if sv[0] == "agg" else len(sv[1].encode())
        if m == "len":
            return [(c(n), st)]
        if m == "is_empty":
            return [(c(int(n == 0)), st)]
        if m in ("last", "first") and sv[0] == "agg":
            if n == 0:
                return [(opt_none(), st)]
            return [(opt_some(sv[4][-1 if m == "last" else 0]), st)]
        if m == "get" and sv[0] == "agg":
            i = eng.strip(st, args[1])
            if i[0] == "c":
                return [(opt_some(sv[4][i[1]]) if 0 <= i[1] < n else opt_none(), st)]
        if m in ("reverse", "sort", "sort_by", "sort_by_key"):
            return eng.havoc(st, ctx.name, args, ctx)
    if m in ("len",):
        return [(eng.length(st, args[0] if sv[0] == "vec" else sv), st)]
    if m == "is_empty" and sv[0] != "vec":
        l = eng.length(st, sv)
        return [(eng.binop(st, "Eq", l, c(0)), st)]
    if m in ("get",) and sv[0] not in ("vec",):
        return slice_get(eng, st, sv, args, ctx)
    if m == "extend" and len(args) == 2:
        # an option is no element or one
        o = eng.strip(st, args[1])
        if o[0] == "agg" and o[1] == "adt" and o[2].endswith("option::Option"):
            if o[3] == 0:
                return [(UNIT, st)]
            m, args = "push", [args[0], o[4][0]]
    loc, path, v = vec_of(eng, st, args[0])
    base, status, stack, birth = v[1], v[2], v[3], v[4]
    nid = ("vv", ctx.frame, ctx.block)

    def put(s, nv):
        if loc is not None:
            eng.write_loc(s, loc, path, nv)

    def renew(s):
        # the vec changed: lengths and element facts about the new version start unknown
        eng.fresh(s, nid)
        return nid
    hook = getattr(eng.hooks, "on_vec", None) if eng.hooks is not None else None
    out = []
    if m == "push":
        val = args[1]
        if hook:
            hook(eng, st, "push", v, val, ctx)
        if len(stack) >= max(4, (eng.unroll or 0) + 2):
            renew(st)
            # keep the three newest elements
            put(st, ("vec", nid, "some", stack[-3:] + (val,), birth))
        else:
            put(st, ("vec", base, status, stack + (val,), birth))
        return [(UNIT, st)]
    if m in ("pop", "last", "last_mut", "is_empty"):
        if stack:
            if m == "is_empty":
                return [(FALSE, st)]
            e = stack[-1]
            if m == "pop":
                if hook:
                    hook(eng, st, "pop", v, e, ctx)
                put(st, ("vec", base, status, stack[:-1], birth))
                return [(opt_some(e), st)]
            if loc is not None:
                return [(opt_some(("ref", loc, path + ("top",))), st)]
            return [(opt_some(e), st)]
        lt = ("len", base)
        cases = []
        lo, hi = eng.rng(st, lt)
        if status in ("some", "unk") and not (hi is not None and hi < 1):
            cases.append(1)
        if status in ("empty", "unk") and not (lo is not None and lo > 0):
            cases.append(0)
        for cs in cases:
            s = st.copy() if len(cases) > 1 else st
            if cs == 0:
                if status == "unk":
                    s.facts[lt] = ("=", 0)
                    put(s, ("vec", base, "empty", (), birth))
                if hook:
                    hook(eng, s, "pop0", v, None, ctx)
                out.append((TRUE if m == "is_empty" else opt_none(), s))
                continue
            if status == "unk":
                eng.learn(s, "gt", lt, c(0), 1)
            if m == "is_empty":
                put(s, ("vec", base, "some", (), birth))
                out.append((FALSE, s))
                continue
            e = sym(("top", base))
            if m == "pop":
                if hook:
                    hook(eng, s, "pop", v, e, ctx)
                nb = eng.popd(s, base)
                if nb[0] == "popn":
                    renew(s)
                    nb = nid
                put(s, ("vec", nb, "unk", (), birth))
                out.append((opt_some(e), s))
            else:
                put(s, ("vec", base, "some", (), birth))
                if loc is not None:
                    out.append((opt_some(("ref", loc, path + ("top",))), s))
                else:
                    out.append((opt_some(e), s))
        return out
    if m == "clear":
        put(st, newvec(ctx)[:4] + (birth,))
        return [(UNIT, st)]
    empty = status == "empty" and not stack
    tot = "some" if stack else status
    if m in ("reverse", "sort", "sort_by", "sort_by_key", "swap", "retain", "dedup", "extend", "append", "insert", "truncate"):
        if hook:
            hook(eng, st, m, v, args[1] if len(args) > 1 else None, ctx)
        if m in ("reverse", "sort", "sort_by", "sort_by_key") and empty:
            return [(UNIT, st)]
        if m == "reverse" and status == "empty":
            put(st, ("vec", base, status, stack[::-1], birth))
            return [(UNIT, st)]
        if m == "insert" or m == "swap":
            idx = eng.T(st, args[1])
            ln = eng.T(st, eng.length(st, v))
            k = eng.cmp_known(st, "le" if m == "insert" else "lt", idx, ln) if idx != c(0) or m == "swap" else 1
            if k != 1:
                eng.panic(st, ctx.fn, "Vec::%s index" % m, ctx.site, ctx.block, ctx.stack, (idx, ln))
        if m == "insert" and args[1] == c(0) and status == "empty" and len(stack) < max(4, (eng.unroll or 0) + 2):
            put(st, ("vec", base, status, (args[2],) + stack, birth))
            return [(UNIT, st)]
        same_len = m in ("reverse", "sort", "sort_by", "sort_by_key", "swap")
        lk = eng.rng(st, eng.T(st, eng.length(st, v)))
        renew(st)
        if same_len and lk != (None, None):
            st.facts[("rng", ("len", nid))] = ("r",) + tuple(lk)
        put(st, ("vec", nid, tot if same_len else ("some" if m == "insert" else "unk"), (), birth))
        return [(UNIT, st)]
    if m == "remove":
        idx = eng.T(st, args[1])
        if hook:
            hook(eng, st, m, v, args[1], ctx)
        ln = eng.T(st, eng.length(st, v))
        if eng.cmp_known(st, "lt", idx, ln) != 1 and not (idx == c(0) and tot == "some"):
            eng.panic(st, ctx.fn, "Vec::remove index", ctx.site, ctx.block, ctx.stack, (idx, ln))
        r = sym(eng.mkterm("elem", eng.vid(st, v), idx))
        renew(st)
        put(st, ("vec", nid, "unk", (), birth))
        return [(r, st)]
    if m in ("first", "get", "first_mut", "get_mut"):
        return slice_get(eng, st, v, args, ctx)
    return eng.havoc(st, ctx.name, args, ctx)


def slice_get(eng, st, v, args, ctx):
    m = ctx.name.split("::")[1]
    idx = c(0) if m in ("first", "first_mut") else eng.T(st, args[1])
    if v[0] == "vec":
        lt = eng.T(st, eng.length(st, v))
        elem = eng.vec_elem(st, v, idx)
        if m in ("get_mut", "first_mut"):
            loc, path, _ = vec_of(eng, st, args[0])
            if loc is not None and (elem == (v[3][-1] if v[3] else sym(("top", v[1])))):
                elem = ("ref", loc, path + ("top",))
    else:
        lt = ("len", eng.T(st, v))
        elem = sym(eng.mkterm("elem", eng.T(st, v), idx))
    out = []
    k = eng.cmp_known(st, "lt", idx, lt)
    if k in (None, 1):
        s = st.copy()
        if k == 1 or eng.assume(s, ("lt", idx, lt), 1):
            if idx == c(0):
                eng.learn(s, "gt", lt, c(0), 1)
            out.append((opt_some(elem), s))
    if k in (None, 0):
        s = st.copy()
        if k == 0 or eng.assume(s, ("lt", idx, lt), 0):
            if idx == c(0):
                s.facts[lt] = ("=", 0)
            out.append((opt_none(), s))
    return out


def at_most(eng, st, a, b):
    """Is a <= b known?"""
    if a == b or eng.int_ge(st, b, a):
        return True
    if a[0] == "add" and len(a) == 3 and a[2] == c(1):
        return st.facts.get(("lt", a[1], b)) == ("=", 1) or eng.cmp_known(st, "lt", a[1], b) == 1
    if a[0] == "sub" and len(a) == 3 and a[2][0] == "c" and isinstance(a[2][1], int) and a[2][1] >= 0:
        return at_most(eng, st, a[1], b)
    return False


def range_inside(eng, st, rng, length):
    """Is a range of indexes within a slice of this length?"""
    if rng[0] == "RangeFrom":
        return at_most(eng, st, rng[1], length)
    if rng[0] == "RangeTo":
        return at_most(eng, st, rng[1], length)
    if rng[0] == "Range":
        return at_most(eng, st, rng[1], rng[2]) and at_most(eng, st, rng[2], length)
    return False


@model("Index::index", "IndexMut::index_mut", "SliceIndex::index")
def index(eng, st, args, ctx):
    v = eng.strip(st, args[0])
    i = eng.strip(st, args[1])
    if ctx.info.get("rkey") in eng.fn_by_key:
        return None
    base = eng.vid(st, v) if v[0] == "vec" else eng.T(st, v)
    if i[0] == "agg":      # ranges: &s[..n], &v[a..b]
        rng = (i[2].rsplit("::", 1)[-1],) + tuple(eng.T(st, x) for x in i[4])
        ga = ctx.info.get("args", [])
        is_str = bool(ga) and ctx.fn.crate.ty(ga[0])["k"] in ("str",) or (bool(ga) and ctx.fn.crate.tstr(ga[0]).endswith("String"))
        if v[0] == "agg" and v[1] == "array" or v[0] == "vec" and v[2] == "empty":
            els = v[4] if v[0] == "agg" else v[3]
            lo, hi = 0, len(els)
            if rng[0] in ("Range", "RangeFrom"):
                lo = rng[1][1] if rng[1][0] == "c" else None
            if rng[0] in ("Range", "RangeTo"):
                hi = rng[-1][1] if rng[-1][0] == "c" else None
            if rng[0] in ("Range", "RangeFrom", "RangeTo", "RangeFull") and lo is not None and hi is not None:
                if 0 <= lo <= hi <= len(els):
                    return [(("agg", "array", "", 0, els[lo:hi]), st)]
                eng.panic(st, ctx.fn, "range index", ctx.site, ctx.block, ctx.stack, (base,) + rng)
                return []
        if rng[0] != "RangeFull" and (is_str or not range_inside(eng, st, rng, ("len", base) if v[0] != "vec" else eng.T(st, eng.length(st, v)))):
            eng.panic(st, ctx.fn, "str slice" if is_str else "range index", ctx.site, ctx.block, ctx.stack, (base,) + rng)
        return [(sym(eng.mkterm("slice", base, rng)), st)]
    if v[0] == "agg" and v[1] == "array" and i[0] == "c":
        if 0 <= i[1] < len(v[4]):
            return [(v[4][i[1]], st)]
        eng.panic(st, ctx.fn, "index out of bounds", ctx.site, ctx.block, ctx.stack)
        return []
    ti = eng.T(st, i)
    if v[0] == "vec":
        t = ("lt", ti, eng.T(st, eng.length(st, v)))
        elem = eng.vec_elem(st, v, ti)
    else:
        t = ("lt", ti, ("len", base))
        elem = sym(eng.mkterm("elem", base, ti))
    k = eng.lookup(st, t)
    if k == 0:
        eng.panic(st, ctx.fn, "index out of bounds", ctx.site, ctx.block, ctx.stack, (base, ti))
        return []
    if k is None:
        s2 = st.copy()
        if eng.assume(s2, t, 0):
            eng.panic(s2, ctx.fn, "index out of bounds", ctx.site, ctx.block, ctx.stack, (base, ti))
        eng.assume(st, t, 1)
    return [(elem, st)]


# ------------------------------------------------------------------ iterators
ADAPT = {"enumerate", "peekable", "rev", "skip", "take", "map", "filter", "chars", "bytes", "iter", "into_iter", "zip",
         "char_indices", "iter_mut", "cloned", "copied", "by_ref", "skip_while", "take_while", "filter_map", "chain", "flat_map",
         "step_by"}


@model("slice::iter", "IntoIterator::into_iter", "str::chars", "str::bytes", "str::char_indices", "slice::iter_mut",
       "Vec::into_iter", "Vec::iter")
def mkiter(eng, st, args, ctx):
    m = ctx.name.split("::")[1]
    v = eng.strip(st, args[0])
    if v[0] == "iter":
        return [(v if m != "into_iter" or args[0][0] != "ref" else args[0], st)]
    if m == "into_iter" and eng.fn_by_key.get(ctx.info.get("rkey")) is not None:
        return None
    if m == "into_iter" and v[0] == "agg" and v[2].endswith(("Range", "RangeInclusive")):
        r = range_iter(eng, st, v)
        if r is not None:
            return [(r, st)]
    if v[0] == "agg" and v[1] == "array":
        home = base_of(eng, st, args[0]) if args[0][0] == "ref" and m in ("iter_mut",) else None
        return [(("iter", ("arr", v, home) if home else ("arr", v), "fresh", None, ()), st)]
    if v[0] == "vec":
        if m == "iter_mut" and not (v[2] == "empty" and not v[3]):
            # the elements may be written through the iterator: only its last element is followed (`last`, `next_back`)
            loc, path, _ = vec_of(eng, st, args[0])
            if loc is None:
                return eng.havoc(st, ctx.name, args, ctx)
            return [(("iter", ("seq", ("ret", "iter_mut", loc, path)), "fresh", None, ()), st)]
        if v[2] == "empty" and v[3]:
            return [(("iter", ("arr", ("agg", "array", "", 0, v[3])), "fresh", None, ()), st)]
        if m == "into_iter" and args[0][0] == "vec" and v[2] != "empty":
            st.mem[("S", ("owned", eng.vid(st, v)))] = v
        hook = getattr(eng.hooks, "on_vec", None) if eng.hooks is not None else None
        if m == "into_iter" and args[0][0] == "vec" and v[2] == "empty" and hook:
            hook(eng, st, "pop0", v, None, ctx)
        return [(("iter", ("seq", eng.vid(st, v)), "fresh" if v[2] != "empty" else "done", None, ()), st)]
    t = eng.T(st, v)
    if m == "into_iter":
        ga = ctx.info.get("args", [])
        if ga:
            s = ctx.fn.crate.tstr(ga[0])
            if "Iter" in s or "Chars" in s or "Range" in s:
                # already an opaque iterator: identity
                if args[0][0] == "ref" or v[0] != "sym":
                    return [(args[0], st)]
                return [(v, st)]
    tag = ("seq", t) if m in ("iter", "into_iter", "iter_mut") else (m, t)
    return [(("iter", tag, "fresh", None, ()), st)]


@model("Iterator::enumerate", "Iterator::peekable", "Iterator::rev", "Iterator::skip", "Iterator::take", "Iterator::map",
       "Iterator::filter", "Iterator::cloned", "Iterator::copied", "Iterator::zip", "Iterator::chain", "Iterator::skip_while",
       "Iterator::take_while", "Iterator::filter_map", "Iterator::flat_map", "Iterator::step_by")
def adapt(eng, st, args, ctx):
    m = ctx.name.split("::")[1]
    v = eng.strip(st, args[0])
    if v[0] == "agg" and v[2].endswith(("Range", "RangeInclusive")):
        v = range_iter(eng, st, v) or v
    if v[0] != "iter":
        t = eng.T(st, v)
        v = ("iter", ("it", t), "fresh", None, ())
    if m in ("peekable", "cloned", "copied"):
        return [(v, st)]
    if m in ("skip", "take") and exact(v) and v[2] != "done" and not any(a[0] in ("filter", "filter_map") for a in v[4]):
        k = eng.strip(st, args[1])
        if k[0] == "c":
            i, j = (0, len(v[1][1][4])) if v[2] == "fresh" else v[2][1:]
            if any(a[0] == "rev" for a in v[4]):
                i, j = (i, max(i, j - k[1])) if m == "skip" else (max(i, j - k[1]), j)
            else:
                i, j = (min(j, i + k[1]), j) if m == "skip" else (i, min(j, i + k[1]))
            return [(("iter", v[1], ("at", i, j), v[3], v[4]), st)]
    if m == "zip" and exact(v):
        w = eng.strip(st, args[1])
        if w[0] == "agg" and w[1] == "array":
            w = ("iter", ("arr", w), "fresh", None, ())
        if w[0] == "iter" and exact(w):
            out = []
            for xs, s1 in exact_all(eng, st, v, ctx, (ctx.frame, ctx.block, "za")):
                for ys, s2 in exact_all(eng, s1, w, ctx, (ctx.frame, ctx.block, "zb")):
                    arr = ("agg", "array", "", 0, tuple(("agg", "tuple", "", 0, p) for p in zip(xs, ys)))
                    out.append((("iter", ("arr", arr), "fresh", None, ()), s2))
            return out
    if m == "chain" and exact(v):
        w = eng.strip(st, args[1])
        if w[0] == "agg" and w[1] == "array":
            w = ("iter", ("arr", w), "fresh", None, ())
        if w[0] == "iter" and exact(w):
            out = []
            for xs, s1 in exact_all(eng, st, v, ctx, (ctx.frame, ctx.block, "ca")):
                for ys, s2 in exact_all(eng, s1, w, ctx, (ctx.frame, ctx.block, "cb")):
                    out.append((("iter", ("arr", ("agg", "array", "", 0, tuple(xs) + tuple(ys))), "fresh", None, ()), s2))
            return out
    if m == "rev" and v[1][0] == "seq" and v[2] == "fresh" and v[4] == () and ("S", ("owned", v[1][1])) in st.mem:
        # going through what it owns from the end is taking from the end
        return [(("iter", ("popvec", ("S", ("owned", v[1][1])), ()), "fresh", None, ()), st)]
    if m == "rev" and v[1][0] == "allof" and v[2] == "fresh" and v[4] == ():
        return [(("iter", ("popvec",) + v[1][1:], "fresh", None, ()), st)]
    extra = (m,) + tuple(args[1:])
    if m == "enumerate" and exact(v) and not any(a[0] in ("rev", "filter", "filter_map") for a in v[4]):
        extra = (m, 0 if v[2] in ("fresh", "done") else v[2][1])     # where counting starts
    return [(("iter", v[1], v[2], v[3], v[4] + (extra,)), st)]


def elem_at(st, it, i):
    """The i-th element of a known array; by reference when the array lives in memory."""
    src = it[1]
    if len(src) > 2 and src[2] is not None:
        return ("ref", src[2][0], src[2][1] + (("i", c(i)),))
    return src[1][4][i]


def elem_cases(eng, st, it, ctx, nm, back=False):
    """What the iterator yields next: [(value|None, new status, state)]"""
    src, status = it[1], it[2]
    out = []
    base = src[1] if src[0] in ("seq", "chars", "bytes", "it") else src
    if status == "done":
        return [(None, "done", st)]
    if src[0] == "arr":
        arr = src[1]
        n = len(arr[4])
        if status == "fresh":
            status = ("at", 0, n)
        if isinstance(status, tuple):
            _, i, j = status
            if i >= j:
                return [(None, "done", st)]
            back = bool(back) ^ any(a[0] == "rev" for a in it[4])
            if back:
                return [(elem_at(st, it, j - 1), ("at", i, j - 1), st)]
            return [(elem_at(st, it, i), ("at", i + 1, j), st)]
        out.append((None, "done", st.copy()))
        if n > 0:
            out.append((eng.fresh(st, ("elem", ("arr",) + tuple(eng.T(st, x) for x in arr[4]), nm)), "adv", st))
        return out
    if src[0] == "range" and eng.unroll and src[1][0] == "c" and src[2][0] == "c" and status != "adv":
        if status == "fresh":
            status = ("at", src[1][1], src[2][1])
        _, i, j = status
        if i >= j:
            return [(None, "done", st)]
        if j - i > 64:
            pass
        else:
            back = bool(back) ^ any(a[0] == "rev" for a in it[4])
            return [(c(j - 1 if back else i), ("at", i, j - 1) if back else ("at", i + 1, j), st)]
    lts = [("len", base)]
    if src[0] in ("chars", "bytes", "char_indices"):
        lts.append(("nchars", base))
    isseq = src[0] in ("seq", "chars", "bytes", "char_indices") and not any(
        a[0] in ("skip", "take", "filter", "skip_while", "take_while", "filter_map", "step_by", "zip", "flat_map", "chain")
        for a in it[4])
    # nothing left
    k = None
    if status == "fresh" and isseq:
        for lt in lts:
            lo, hi = eng.rng(st, lt)
            if lo is not None and lo > 0:
                k = 1
            elif hi is not None and hi <= 0:
                k = 0
    if src[0] == "range" and status == "fresh":
        k = eng.cmp_known(st, "lt", src[1], src[2])
    if k != 1:
        s = st.copy()
        if status == "fresh" and isseq:
            for lt in lts:
                s.facts[lt] = ("=", 0)
        if status == "fresh" and src[0] == "range":
            eng.assume(s, ("lt", src[1], src[2]), 0)
        out.append((None, "done", s))
    if k != 0:
        s = st.copy()
        if src[0] in ("seq", "chars", "bytes", "char_indices"):
            for lt in lts:
                eng.learn(s, "gt", lt, c(0), 1)
        if src[0] == "range":
            e = eng.fresh(s, ("i", nm))
            s.facts[("lt", e[1], src[2])] = ("=", 1)
            if src[1][0] == "c" and isinstance(src[1][1], int):
                s.facts[("rng", e[1])] = ("r", src[1][1], None)
            if src[2][0] == "c" and isinstance(src[2][1], int):
                s.facts[("rng", e[1])] = ("r", src[1][1] if src[1][0] == "c" else None, src[2][1] - 1)
        else:
            e = eng.fresh(s, ("next", base, nm))
        out.append((e, "adv", s))
    return out


def apply_adapters(eng, st, e, it, ctx, nm, stt=None):
    """[(value or None when filtered out, state)]"""
    vals = [(e, st)]
    base = it[1][1] if it[1][0] in ("seq", "chars", "bytes", "it") else it[1]
    for ai, a in enumerate(it[4]):
        nxt = []
        for v, s in vals:
            if v is None:
                nxt.append((v, s))
                continue
            if a[0] == "enumerate" and isinstance(stt, tuple) and it[1][0] == "arr" and len(a) == 2:
                k = stt[2] if any(b[0] == "rev" for b in it[4]) else stt[1] - 1
                nxt.append((("agg", "tuple", "", 0, (c(k - a[1]), v)), s))
            elif a[0] == "enumerate":
                p = eng.fresh(s, ("pos", nm, ai))
                s.facts[("rng", p[1])] = ("r", 0, None)
                s.facts[("lt", p[1], ("len", base))] = ("=", 1)
                nxt.append((("agg", "tuple", "", 0, (p, v)), s))
            elif a[0] == "map":
                nxt += eng.invoke(s, a[1], [v], ctx.fn, ctx.frame, (ctx.block, "it", ai), ctx.site, ctx.stack)
            elif a[0] in ("filter", "skip_while", "take_while"):
                for bv, s2 in eng.invoke(s, a[1], [v], ctx.fn, ctx.frame, (ctx.block, "it", ai), ctx.site, ctx.stack):
                    for tv, s3 in eng.branch_bool(s2, bv):
                        nxt.append((v if tv else None, s3))
            elif a[0] in ("zip",):
                z = eng.fresh(s, ("zip", nm, ai))
                nxt.append((("agg", "tuple", "", 0, (v, z)), s))
            elif a[0] in ("filter_map",):
                for ov, s2 in eng.invoke(s, a[1], [v], ctx.fn, ctx.frame, (ctx.block, "it", ai), ctx.site, ctx.stack):
                    for x, get, s3 in eng.split(s2, ov, (0, 1)):
                        nxt.append((get(0) if x == 1 else None, s3))
            elif a[0] in ("flat_map",):
                nxt.append((eng.fresh(s, ("flat", nm, ai)), s))
            else:
                nxt.append((v, s))
        vals = nxt
    return vals


def exact(it):
    """Does this iterator run over a fully known array, at a known position?"""
    if it[3] is not None:
        return False
    if it[1][0] == "arr":
        if it[2] not in ("fresh", "done") and not isinstance(it[2], tuple):
            return False
        return all(a[0] in ("enumerate", "map", "filter", "rev", "filter_map") for a in it[4])
    return False


def exact_next(eng, st, it, ctx, nm, back=False, depth=0):
    """[(value or None at the end, new status, state)] for an exact iterator."""
    out = []
    for e, stt, s in elem_cases(eng, st, it, ctx, nm, back):
        if e is None:
            out.append((None, "done", s))
            continue
        for v, s2 in apply_adapters(eng, s, e, it, ctx, (nm, depth), stt):
            if v is None:
                out += exact_next(eng, s2, it[:2] + (stt,) + it[3:], ctx, nm, back, depth + 1)
            else:
                out.append((v, stt, s2))
    return out


def exact_all(eng, st, it, ctx, nm):
    """[(list of all remaining values, state)] for an exact iterator."""
    work = [((), it, st)]
    out = []
    while work:
        vals, i, s = work.pop(0)
        for v, stt, s2 in exact_next(eng, s, i, ctx, (nm, len(vals))):
            if v is None:
                out.append((list(vals), s2))
            else:
                work.append((vals + (v,), i[:2] + (stt,) + i[3:], s2))
    return out


def range_iter(eng, st, v):
    """The iterator a range is; None if it is not modelled."""
    if v[2].endswith("RangeInclusive"):
        lo, hi = eng.T(st, v[4][0]), eng.T(st, v[4][1])
        if not (eng.unroll and lo[0] == "c" and hi[0] == "c" and isinstance(hi[1], int) and hi[1] - lo[1] < 64):
            return None
        hi = c(hi[1] + 1)
    else:
        lo, hi = eng.T(st, v[4][0]), eng.T(st, v[4][1])
    if eng.unroll and lo[0] == "c" and hi[0] == "c" and isinstance(lo[1], int) and isinstance(hi[1], int) and hi[1] - lo[1] <= 64:
        return ("iter", ("arr", ("agg", "array", "", 0, tuple(c(i) for i in range(lo[1], hi[1])))), "fresh", None, ())
    return ("iter", ("range", lo, hi), "fresh", None, ())


def get_iter(eng, st, v):
    """(loc, path, iter value) for a (reference to an) iterator."""
    n = 0
    while v[0] == "ref" and n < 8:
        w = eng.read_loc(st, v[1], v[2])
        if w[0] == "ref":
            v = w
            n += 1
            continue
        if w[0] == "iter":
            return v[1], v[2], w
        if w[0] == "agg" and w[2].endswith(("Range", "RangeInclusive")):
            r = range_iter(eng, st, w)
            if r is not None:
                return v[1], v[2], r
        return v[1], v[2], ("iter", ("it", eng.T(st, w)), "adv", None, ())
    if v[0] == "iter":
        return None, (), v
    if v[0] == "agg" and v[2].endswith(("Range", "RangeInclusive")):
        r = range_iter(eng, st, v)
        if r is not None:
            return None, (), r
    if v[0] == "sym":
        loc = ("S", v[1])
        w = st.mem.get(loc)
        if w is not None and w[0] == "iter":
            return loc, (), w
        return loc, (), ("iter", ("it", v[1]), "adv", None, ())
    return None, (), ("iter", ("it", eng.T(st, v)), "adv", None, ())


@model("Iterator::next", "Peekable::peek", "Peekable::next_if", "Peekable::next_if_eq", "DoubleEndedIterator::next_back", "Iterator::nth", "Iterator::last")
def nxt(eng, st, args, ctx):
    if eng.fn_by_key.get(ctx.info.get("rkey")) is not None:
        return None
    m = ctx.name.split("::")[1]
    loc, path, it = get_iter(eng, st, args[0])
    nm = (ctx.frame, ctx.block)
    out = []
    if it[1][0] == "seq" and it[1][1][:2] == ("ret", "iter_mut") and (m in ("last", "next_back") and it[4] == () or
                                                                    m == "next" and tuple(a[0] for a in it[4]) == ("rev",)) \
            and it[2] == "fresh" and it[3] is None:
        if loc is not None:
            eng.write_loc(st, loc, path, it[:2] + ("adv",) + it[3:])

        import copy
        sub = copy.copy(ctx)
        sub.name = "slice::last_mut"
        return vec(eng, st, [("ref", it[1][1][2], it[1][1][3])], sub)
    if it[1][0] == "popvec" and m == "next" and it[4] == ():
        import copy
        sub = copy.copy(ctx)
        sub.name = "Vec::pop"
        return vec(eng, st, [("ref", it[1][1], it[1][2])], sub)
    if m in ("last", "nth") and exact(it) and it[3] is None:
        if m == "last":
            res = []
            for vals, s in exact_all(eng, st, it, ctx, nm):
                res.append((opt_some(vals[-1]) if vals else opt_none(), s))
            return res
        k = eng.strip(st, args[1])
        if k != c(0):
            return eng.havoc(st, ctx.name, args, ctx)

    def setit(s, status, peeked):
        if loc is not None:
            eng.write_loc(s, loc, path, ("iter", it[1], status, peeked, it[4]))
    # materialise the pending element
    pend = []
    if it[3] is not None:
        pend.append((it[3], it[2], st))
    else:
        if exact(it):
            steps = exact_next(eng, st, it, ctx, nm, m == "next_back")
            pend += [(("none",) if v is None else v, stt, s) for v, stt, s in steps]
            cases = []
        else:
            cases = elem_cases(eng, st, it, ctx, nm, m == "next_back")
        for e, stt, s in cases:
            if e is None:
                pend.append((("none",), "done", s))
                continue
            for v, s2 in apply_adapters(eng, s, e, it, ctx, nm, stt):
                if v is None:
                    # element filtered out: the iteration goes on; over-approximate by "some later element or none"
                    s3 = s2.copy()
                    pend.append((("none",), "done", s3))
                else:
                    pend.append((v, stt, s2))
    for v, stt, s in pend:
        none = v == ("none",)
        if m == "peek":
            setit(s, stt, v if not none else ("none",))
            out.append((opt_none() if none else opt_some(v), s))
        elif m in ("next", "next_back", "nth", "last"):
            setit(s, stt, None)
            out.append((opt_none() if none else opt_some(v), s))
        else:
            if none:
                setit(s, stt, ("none",))
                out.append((opt_none(), s))
                continue
            if m == "next_if":
                rs = eng.invoke(s, args[1], [v], ctx.fn, ctx.frame, (ctx.block, "nif"), ctx.site, ctx.stack)
            else:
                rs = [(sym(("eq", eng.T(s, v), eng.T(s, args[1]))), s)]
            for bv, s2 in rs:
                for tv, s3 in eng.branch_bool(s2, bv):
                    if tv:
                        setit(s3, stt, None)
                        out.append((opt_some(v), s3))
                    else:
                        setit(s3, stt, v)
                        out.append((opt_none(), s3))
    return out


def exact_search(eng, st, m, it, loc, path, args, ctx, nm):
    out = []
    back = m == "rfind"
    work = [(0, it, st)]
    while work:
        k, i, s0 = work.pop(0)
        for v, stt, s in exact_next(eng, s0, i, ctx, (nm, k), back):
            if v is None:
                if loc is not None:
                    eng.write_loc(s, loc, path, it[:2] + ("done",) + it[3:])
                out.append(({"any": FALSE, "all": TRUE, "for_each": UNIT}.get(m, opt_none()), s))
                continue
            nx = i[:2] + (stt,) + i[3:]
            for r, s2 in eng.invoke(s, args[1], [v], ctx.fn, ctx.frame, (ctx.block, m, k), ctx.site, ctx.stack):
                if m == "for_each":
                    work.append((k + 1, nx, s2))
                    continue
                for x, get, s3 in (eng.split(s2, r, (0, 1)) if m == "find_map" else [(tv, None, s3) for tv, s3 in eng.branch_bool(s2, r)]):
                    if bool(x) == (m != "all"):
                        if loc is not None:
                            eng.write_loc(s3, loc, path, nx)
                        out.append((opt_some(get(0)) if m == "find_map" else
                                    {"any": TRUE, "all": FALSE, "position": opt_some(c(k))}.get(m, opt_some(v)), s3))
                    else:
                        work.append((k + 1, nx, s3))
    return out


@model("Iterator::any", "Iterator::all", "Iterator::for_each", "Iterator::position", "Iterator::find", "Iterator::find_map", "DoubleEndedIterator::rfind")
def anyall(eng, st, args, ctx):
    m = ctx.name.split("::")[1]
    loc, path, it = get_iter(eng, st, args[0])
    nm = (ctx.frame, ctx.block)
    out = []
    if exact(it):
        return exact_search(eng, st, m, it, loc, path, args, ctx, nm)
    if it[2] == "done" and it[3] in (None, ("none",)):
        return [({"any": FALSE, "all": TRUE, "for_each": UNIT}.get(m, opt_none()), st)]
    if loc is not None:
        eng.write_loc(st, loc, path, ("iter", it[1], "adv", None, it[4]))
    f = eng.strip(st, args[1])
    t = eng.mkterm(m, ("iter", it[1]) + tuple(a[0] for a in it[4]), eng.T(st, f))
    # run the predicate once on an arbitrary element, so panics and effects inside it are seen
    e = sym(("next", it[1][1] if len(it[1]) > 1 and it[1][0] != "arr" else it[1], nm))
    s0 = st.copy()
    elems = apply_adapters(eng, s0, e, it, ctx, nm)
    for v, s in elems:
        if v is None:
            continue
        for r, s2 in eng.invoke(s, args[1], [v], ctx.fn, ctx.frame, (ctx.block, "any"), ctx.site, ctx.stack):
            if m in ("any", "all"):
                for tv, s3 in eng.branch_bool(s2, r):
                    if m == "any" and tv:
                        out.append((TRUE, s3))
                    if m == "all" and not tv:
                        out.append((FALSE, s3))
            elif m == "for_each":
                out.append((UNIT, s2))
            elif m == "find_map":
                for x, get, s3 in eng.split(s2, r, (0, 1)):
                    if x == 1:
                        out.append((opt_some(get(0)), s3))
            elif m == "position":
                p = eng.fresh(s2, ("pos", nm))
                s2.facts[("lt", p[1], ("len", it[1][1] if len(it[1]) > 1 else it[1]))] = ("=", 1)
                out.append((opt_some(p), s2))
            else:
                out.append((opt_some(v), s2))
    if m == "any":
        st.facts[t] = ("=", 0)
        out.append((FALSE, st))
    elif m == "all":
        st.facts[t] = ("=", 1)
        out.append((TRUE, st))
    elif m == "for_each":
        out.append((UNIT, st))
    else:
        out.append((opt_none(), st))
    return out


@model("Iterator::fold", "Iterator::try_fold", "Iterator::reduce", "Iterator::try_for_each")
def fold(eng, st, args, ctx):
    m = ctx.name.split("::")[1]
    loc, path, it = get_iter(eng, st, args[0])
    nm = (ctx.frame, ctx.block)
    out = []
    f = args[1] if m in ("reduce", "try_for_each") else args[2]
    if exact(it):
        for vals, s0 in exact_all(eng, st, it, ctx, nm):
            if m == "reduce":
                if not vals:
                    out.append((opt_none(), s0))
                    continue
                work = [(vals[0], 1, s0)]
            else:
                work = [(UNIT if m == "try_for_each" else args[1], 0, s0)]
            while work:
                acc, k, s = work.pop(0)
                if k == len(vals):
                    if m == "fold":
                        out.append((acc, s))
                    elif m == "reduce":
                        out.append((opt_some(acc), s))
                    else:
                        out.append((try_output(ctx, acc), s))
                    continue
                a = [vals[k]] if m == "try_for_each" else [acc, vals[k]]
                for r, s2 in eng.invoke(s, f, a, ctx.fn, ctx.frame, (ctx.block, m, k), ctx.site, ctx.stack):
                    if m in ("fold", "reduce"):
                        work.append((r, k + 1, s2))
                        continue
                    good, isopt = try_kind(ctx, eng, s2, r)
                    for x, get, s3 in eng.split(s2, r, (0, 1)):
                        if x == good:
                            work.append((get(0), k + 1, s3))
                        else:
                            out.append((opt_none() if isopt else res_err(get(0)), s3))
        return out
    acc0 = UNIT if m == "try_for_each" else args[1]
    e = sym(("next", it[1][1] if len(it[1]) > 1 and it[1][0] != "arr" else it[1], nm))
    if m == "reduce":
        out.append((opt_none(), st.copy()))
        out.append((opt_some(e), st.copy()))
        accs = [e, sym(("phi", "fold", nm))]
    else:
        out.append((acc0 if m == "fold" else try_output(ctx, acc0), st.copy()))
        accs = [acc0, sym(("phi", "fold", nm))]
    for acc in accs:
        s = st.copy()
        for v, s1 in apply_adapters(eng, s, e, it, ctx, nm):
            if v is None:
                continue
            a = [v] if m == "try_for_each" else [acc, v]
            rs = eng.invoke(s1, f, a, ctx.fn, ctx.frame, (ctx.block, "fold"), ctx.site, ctx.stack)
            out += [(opt_some(r), s2) if m == "reduce" else (r, s2) for r, s2 in rs]
    return out


def try_type(ctx):
    """The return type of a try_fold: looked up in the generic arguments (R)."""
    for g in reversed(ctx.info.get("args", [])):
        t = ctx.fn.crate.ty(g)
        d = t.get("def", "")
        if d.endswith("::Option") or d.endswith("::Result"):
            return d.rsplit("::", 1)[1]
    return "Result"


def try_kind(ctx, eng, st, r):
    w = eng.strip(st, r)
    k = w[2].rsplit("::", 1)[-1] if w[0] == "agg" else try_type(ctx)
    return (1, True) if k == "Option" else (0, False)


def try_output(ctx, acc):
    return opt_some(acc) if try_type(ctx) == "Option" else res_ok(acc)


@model("Iterator::count", "Iterator::collect", "Iterator::sum", "Iterator::product", "Iterator::max", "Iterator::min",
       "FromIterator::from_iter")
def reduce_(eng, st, args, ctx):
    m = ctx.name.split("::")[1]
    loc, path, it = get_iter(eng, st, args[0])
    if loc is not None:
        eng.write_loc(st, loc, path, ("iter", it[1], "done", None, it[4]))
    nm = (ctx.frame, ctx.block)
    if exact(it):
        out = []
        for vals, s0 in exact_all(eng, st, it, ctx, nm):
            if m == "count":
                out.append((c(len(vals)), s0))
            elif m in ("collect", "from_iter"):
                ga = ctx.info.get("args", [])
                ty = ctx.fn.crate.tstr(ga[-1 if m == "collect" else 0]) if ga else ""
                if ty.startswith("std::vec::Vec") and len(vals) <= 6:
                    b = ("new", ctx.frame, ctx.block)
                    out.append((("vec", b, "empty", tuple(vals), b), s0))
                elif ty.startswith("std::result::Result<std::vec::Vec") or ty.startswith("std::option::Option<std::vec::Vec"):
                    isopt = ty.startswith("std::option")
                    b = ("new", ctx.frame, ctx.block)
                    work = [((), s0)]
                    while work:
                        got, s = work.pop(0)
                        if len(got) == len(vals):
                            v = ("vec", b, "empty", got, b)
                            out.append((opt_some(v) if isopt else res_ok(v), s))
                            continue
                        for x, get, s2 in eng.split(s, vals[len(got)], (0, 1)):
                            if (x == 1) == isopt:
                                work.append((got + (get(0),), s2))
                            else:
                                out.append((opt_none() if isopt else res_err(get(0)), s2))
                else:
                    out.append((sym(eng.mkterm(m, *[eng.T(s0, v) for v in vals])), s0))
            else:
                t = eng.mkterm("iter" + m, *[eng.T(s0, v) for v in vals])
                if m in ("max", "min"):
                    out.append((opt_none() if not vals else opt_some(sym(t)), s0))
                else:
                    out.append((sym(t), s0))
        return out
    # closures of map/filter adapters still run
    s0 = st
    if any(a[0] in ("map", "filter", "filter_map") for a in it[4]):
        e = sym(("next", it[1][1] if len(it[1]) > 1 and it[1][0] != "arr" else it[1], nm))
        states = [s for _, s in apply_adapters(eng, st.copy(), e, it, ctx, nm)] or [st]
    t = eng.mkterm(m, ("iter", it[1]) + tuple(a[0] for a in it[4]))
    if m == "count" and it[2] == "fresh" and not it[4] and it[1][0] in ("seq", "chars"):
        return [(sym(("len" if it[1][0] == "seq" else "nchars", it[1][1])), st)]
    if m in ("count",):
        st.facts.setdefault(("rng", t), ("r", 0, None))
    if m in ("collect", "from_iter"):
        ga = ctx.info.get("args", [])
        ty = ctx.fn.crate.tstr(ga[-1 if m == "collect" else 0]) if ga else ""
        if ty.startswith("std::vec::Vec"):
            return [(("vec", t, "unk", (), ("new", ctx.frame, ctx.block)), st)]
    return [(sym(t), st)]


# ------------------------------------------------------------------ strings, formatting
@model("std::fmt::format", "Arguments::new", "Arguments::from_str", "Argument::new_display", "Argument::new_debug",
       "Argument::new_binary", "Argument::new_lower_hex", "Arguments::new_const", "Arguments::new_v1", "Argument::none",
       "alloc::fmt::format", "Argument::new_lower_exp", "Argument::new_upper_hex")
def fmt(eng, st, args, ctx):
    return [(sym(eng.mkterm("fmt" if ctx.name.rsplit("::", 1)[-1] in ("new_display", "format", "new", "from_str", "new_const", "new_v1", "none") else ctx.name.rsplit("::", 1)[-1], *[eng.T(st, a) for a in args])), st)]


@model("String::new", "Default::default")
def defaults(eng, st, args, ctx):
    if ctx.name == "Default::default":
        if eng.fn_by_key.get(ctx.info.get("rkey")) is not None:
            return None
        ga = ctx.info.get("args", [])
        if ga:
            t = ctx.fn.crate.ty(ga[0])
            if t["k"] == "bool":
                return [(FALSE, st)]
            if t["k"] in ("int", "uint"):
                return [(c(0), st)]
            if t.get("def", "").endswith("Option"):
                return [(opt_none(), st)]
            if t.get("def", "").endswith("vec::Vec"):
                return [(newvec(ctx), st)]
            return [(sym(("default", t["s"])), st)]
        return [(sym(("default",)), st)]
    return [(("s", ""), st)]


@model("String::push", "String::push_str", "String::pop", "String::clear", "String::insert", "String::remove", "String::truncate")
def string_mut(eng, st, args, ctx):
    m = ctx.name.split("::")[1]
    a = args[0]
    if m in ("remove", "truncate", "insert"):
        eng.panic(st, ctx.fn, "String::%s index" % m, ctx.site, ctx.block, ctx.stack)
    if a[0] == "ref":
        loc, path = base_of(eng, st, a)
    elif a[0] == "sym":
        loc, path = ("S", a[1]), ()
    else:
        return [(UNIT, st)]
    nv = eng.fresh(st, ("str", ctx.frame, ctx.block))
    eng.write_loc(st, loc, path, nv)
    if m in ("push", "push_str", "insert"):
        return [(UNIT, st)]
    if m in ("clear", "truncate"):
        return [(UNIT, st)]
    r = ("popped", ctx.frame, ctx.block)
    return [(eng.fresh(st, r), st)]


@model("slice::split_first", "slice::split_last", "slice::split_at")
def slice_split(eng, st, args, ctx):
    m = ctx.name.split("::")[1]
    v = eng.strip(st, args[0])
    els = v[4] if v[0] == "agg" and v[1] == "array" else v[3] if v[0] == "vec" and v[2] == "empty" else None
    if els is None:
        if m == "split_at":
            eng.panic(st, ctx.fn, "range index", ctx.site, ctx.block, ctx.stack, (eng.T(st, v), eng.T(st, args[1])))
        return eng.havoc(st, ctx.name, args, ctx)
    mk = lambda x: ("agg", "array", "", 0, tuple(x))
    if m == "split_at":
        k = eng.strip(st, args[1])
        if k[0] != "c":
            return eng.havoc(st, ctx.name, args, ctx)
        if k[1] > len(els):
            eng.panic(st, ctx.fn, "range index", ctx.site, ctx.block, ctx.stack, (eng.T(st, v), k))
            return []
        return [(("agg", "tuple", "", 0, (mk(els[:k[1]]), mk(els[k[1]:]))), st)]
    if not els:
        return [(opt_none(), st)]
    p = (els[0], mk(els[1:])) if m == "split_first" else (els[-1], mk(els[:-1]))
    return [(opt_some(("agg", "tuple", "", 0, p)), st)]


@model("str::is_empty", "String::is_empty")
def str_empty(eng, st, args, ctx):
    v = eng.strip(st, args[0])
    if v[0] == "s":
        return [(c(int(v[1] == "")), st)]
    return [(eng.binop(st, "Eq", eng.length(st, v), c(0)), st)]


@model("str::len", "String::len")
def str_len(eng, st, args, ctx):
    return [(eng.length(st, args[0]), st)]


@model("std::mem::replace", "std::mem::take", "std::mem::swap")
def memrep(eng, st, args, ctx):
    m = ctx.name.rsplit("::", 1)[1]
    if args[0][0] != "ref":
        return eng.havoc(st, ctx.name, args, ctx)
    loc, path = base_of(eng, st, args[0])
    old = eng.read_loc(st, loc, path)
    if m == "replace":
        eng.write_loc(st, loc, path, args[1])
        return [(old, st)]
    if m == "take":
        if old[0] == "vec":
            eng.write_loc(st, loc, path, newvec(ctx))
        else:
            eng.write_loc(st, loc, path, sym(("default",)))
        return [(old, st)]
    if args[1][0] != "ref":
        return eng.havoc(st, ctx.name, args, ctx)
    l2, p2 = base_of(eng, st, args[1])
    o2 = eng.read_loc(st, l2, p2)
    eng.write_loc(st, loc, path, o2)
    eng.write_loc(st, l2, p2, old)
    return [(UNIT, st)]


@model("std::mem::drop", "std::mem::forget")
def drop_(eng, st, args, ctx):
    return [(UNIT, st)]


@model("std::intrinsics::discriminant_value", "std::mem::discriminant")
def discr(eng, st, args, ctx):
    v = eng.strip(st, args[0])
    if v[0] == "agg":
        return [(c(v[3]), st)]
    t = ("disc", eng.T(st, v))
    k = eng.lookup(st, t)
    return [(c(k) if k is not None else sym(t), st)]


def impure(eng, st, args, ctx):
    return eng.havoc(st, ctx.name, args, ctx, pure=False)


for _n in ("rand::random", "Rng::gen", "Rng::gen_range", "rand::thread_rng"):
    MODELS[_n] = impure


# ------------------------------------------------------------------ taking the end of a vector off
def tail_count(eng, st, v, idx):
    """k such that idx is len(v) - k, or None."""
    ln = eng.T(st, eng.length(st, v))
    ti = eng.T(st, idx)
    if ti[0] == "c" and ln[0] == "c":
        return ln[1] - ti[1]
    if ti[0] == "sub" and ti[1] == ln and ti[2][0] == "c":
        return ti[2][1]
    if ti == ln:
        return 0
    return None


@model("Vec::split_off", "Vec::drain")
def tail(eng, st, args, ctx):
    m = ctx.name.split("::")[1]
    idx = args[1]
    if m == "drain":
        r = eng.strip(st, args[1])
        if r[0] == "agg" and r[2].endswith("RangeFull"):
            loc, path, v = vec_of(eng, st, args[0])
            if loc is not None and v[0] == "vec":
                return [(("iter", ("allof", loc, path), "fresh", None, ()), st)]
        if r[0] != "agg" or not r[2].endswith("RangeFrom"):
            return eng.havoc(st, ctx.name, args, ctx)
        idx = r[4][0]
    loc, path, v = vec_of(eng, st, args[0])
    k = tail_count(eng, st, v, idx)
    ln, ti = eng.T(st, eng.length(st, v)), eng.T(st, idx)
    if k is None and (ti[:2] == ("sub", ln) or eng.int_ge(st, ln, ti)):
        return eng.havoc(st, ctx.name, args, ctx)
    if k is None or not 0 <= k <= 8 or loc is None:
        eng.panic(st, ctx.fn, "Vec::%s index" % m, ctx.site, ctx.block, ctx.stack)
        return eng.havoc(st, ctx.name, args, ctx)
    base, status, stack, birth = v[1], v[2], v[3], v[4]
    hook = getattr(eng.hooks, "on_vec", None) if eng.hooks is not None else None
    got = []
    for _ in range(k):
        if stack:
            e, stack = stack[-1], stack[:-1]
        elif status == "empty":
            return []
        else:
            e = sym(("top", base))
            nb = eng.popd(st, base)
            if nb[0] == "popn":
                return eng.havoc(st, ctx.name, args, ctx)
            base, status = nb, "unk"
        if hook:
            hook(eng, st, "pop", ("vec", base, status, stack, birth), e, ctx)
        got.insert(0, e)
    eng.write_loc(st, loc, path, ("vec", base, status, stack, birth))
    b = ("new", ctx.frame, ctx.block)
    if m == "drain":
        return [(("iter", ("arr", ("agg", "array", "", 0, tuple(got))), "fresh", None, ()), st)]
    return [(("vec", b, "empty", tuple(got), b), st)]


UNSIGNED = tuple("u%d" % n for n in (8, 16, 32, 64, 128)) + ("usize",)
SIGNED = tuple("i%d" % n for n in (8, 16, 32, 64, 128)) + ("isize",)


def split_lt(eng, st, a, b):
    """[(whether a < b, state)]"""
    k = eng.cmp_known(st, "lt", a, b)
    out = []
    for r in ((1, 0) if k is None else (k,)):
        s = st.copy()
        if k is not None or eng.assume(s, ("lt", a, b), r):
            out.append((r, s))
    return out


@model("Ord::max", "Ord::min", "std::cmp::max", "std::cmp::min")
def ordmm(eng, st, args, ctx):
    if eng.fn_by_key.get(ctx.info.get("rkey")) is not None:
        return None
    a, b = eng.strip(st, args[0]), eng.strip(st, args[1])
    big = ctx.name.endswith("max")
    if a[0] == "c" and b[0] == "c":
        return [(c(max(a[1], b[1]) if big else min(a[1], b[1])), st)]
    return [(b if (r == 1) == big else a, s) for r, s in split_lt(eng, st, eng.T(st, a), eng.T(st, b))]


@model(*[t + "::saturating_sub" for t in UNSIGNED])
def satsub(eng, st, args, ctx):
    a, b = eng.T(st, eng.strip(st, args[0])), eng.T(st, eng.strip(st, args[1]))
    if b[0] == "c" and b[1] == 1:
        # a < 1 is a == 0: the form `is_empty` and comparisons with zero use
        out = []
        k = eng.cmp_known(st, "gt", a, c(0))
        for r in ((1, 0) if k is None else (k,)):
            s = st.copy()
            if k is not None or eng.assume(s, ("gt", a, c(0)), r):
                if r == 0:
                    s.facts[a] = ("=", 0)
                out.append((eng.binop(s, "Sub", sym(a) if a[0] != "c" else a, c(1)) if r else c(0), s))
        return out
    return [(c(0) if r else eng.binop(s, "Sub", eng.strip(s, args[0]), eng.strip(s, args[1])), s) for r, s in split_lt(eng, st, a, b)]


@model(*[t + "::checked_sub" for t in UNSIGNED])
def chksub(eng, st, args, ctx):
    a, b = eng.T(st, eng.strip(st, args[0])), eng.T(st, eng.strip(st, args[1]))
    return [(opt_none() if r else opt_some(eng.binop(s, "Sub", eng.strip(s, args[0]), eng.strip(s, args[1]))), s)
            for r, s in split_lt(eng, st, a, b)]


@model(*[t + "::wrapping_add" for t in UNSIGNED], *[t + "::saturating_add" for t in UNSIGNED])
def wrapadd(eng, st, args, ctx):
    return [(eng.binop(st, "Add", eng.strip(st, args[0]), eng.strip(st, args[1])), st)]


@model(*[t + "::checked_add" for t in UNSIGNED])
def chkadd(eng, st, args, ctx):
    return [(opt_some(eng.binop(st, "Add", eng.strip(st, args[0]), eng.strip(st, args[1]))), st), (opt_none(), st.copy())]


TOTAL = re.compile(r" for (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|char|bool|str)>|^<(std|alloc)::string::String as ")


@model("PartialOrd::partial_cmp")
def partial_cmp(eng, st, args, ctx):
    """Of types with a total order: the order there is."""
    if eng.fn_by_key.get(ctx.info.get("rkey")) is not None or not TOTAL.search(str(ctx.info.get("res", ""))):
        return None
    a, b = eng.strip(st, args[0]), eng.strip(st, args[1])
    return [(opt_some(sym(eng.mkterm("call", "Ord::cmp", eng.T(st, a), eng.T(st, b)))), st)]


@model("Iterator::partial_cmp")
def iter_partial_cmp(eng, st, args, ctx):
    # lexicographic comparison of characters (or integers) is total
    t = eng.mkterm("call", ctx.name, *[eng.T(st, a) for a in args])
    if any(n in str(t) for n in ("char::to_lowercase", "char::to_uppercase", "str::chars", "str::bytes")):
        return [(opt_some(sym(t)), st)]
    return None


@model("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign", "DivAssign::div_assign", "RemAssign::rem_assign",
       "BitAndAssign::bitand_assign", "BitOrAssign::bitor_assign", "BitXorAssign::bitxor_assign", "ShlAssign::shl_assign",
       "ShrAssign::shr_assign")
def op_assign(eng, st, args, ctx):
    """`x op= y` of a foreign number type is `x = x op y`."""
    if eng.fn_by_key.get(ctx.info.get("rkey")) is not None or not args or args[0][0] != "ref":
        return None
    tr = ctx.name.split("::")[0][:-6]
    cur = eng.T(st, eng.strip(st, args[0]))
    eng.write_loc(st, args[0][1], args[0][2], sym(eng.mkterm("call", tr + "::" + tr.lower(), cur, eng.T(st, eng.strip(st, args[1])))))
    return [(("agg", "tuple", "", 0, ()), st)]
