"""P21: see DESIGN.md."""
import importlib
import itertools
import os
import re

import env
import evalmodel
import kernels
import opmodel
import overflow
from facts import Crate
from report import Report

NOTE = """Each of the 32 combinations of the optional features is type-checked; in each, every function whose body is not the same as in a combination analysed before is analysed with the rules of the properties about its file, and what breaks them there but not with all features is a violation; the operations each context registers are compared with those it registers with all features."""
FEATURES = ("complex", "decimal", "linked-hashmap", "binary", "docs")
ABOUT = (("src/context.rs", ("p16", "p17", "p18")), ("src/tokenizer.rs", ("p33", "p35")), ("src/evaluator.rs", ("p04", "p05", "p08", "p10", "p11", "p12")),
         ("src/utils/splitter.rs", ("p32",)), ("src/error.rs", ("p36",)), ("ignore_case", ("p16",)))
OPS = ("p02", "p03", "p06", "p07", "p25")


def plain(cr, x):
    """A body without what differs from one compilation to the next."""
    ty = lambda a: cr.ty(a)["s"] if isinstance(a, int) else str(a)
    if isinstance(x, dict):
        return tuple(sorted((k, ty(v) if k in ("t", "impl_self") else tuple(ty(a) for a in v) if k in ("args", "rargs", "targs") and isinstance(v, list)
                             else plain(cr, v)) for k, v in x.items() if k not in ("key", "rkey")))
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "f":
            return ("f", x[1], ty(x[2]))
        if len(x) == 6 and x[0] == "adt":
            return ("adt", x[1], x[2], x[3], tuple(ty(a) for a in x[4]))
        if x and x[0] == "cast":
            return ("cast",) + tuple(plain(cr, y) for y in x[1:-1]) + (ty(x[-1]),)
        return tuple(plain(cr, y) for y in x)
    if isinstance(x, str):
        return "" if re.fullmatch(r"\S+/src/\S+\.rs:\d+", x) else re.sub(r"impl#\d+", "impl", x)
    return x


def shape(cr, f):
    return (tuple(cr.ty(t)["s"] for t in f.body.locals), plain(cr, f.body.blocks), tuple(plain(cr, p.blocks) for p in f.promoted))


def forget():
    """What was remembered about another compilation."""
    for m in (evalmodel._memo, kernels._memo, opmodel._memo, opmodel._kern, overflow._routines):
        m.clear()


def sub(rep, name, crates):
    forget()
    r = Report("P21")
    rep.guard(name, importlib.import_module(name).run, r, crates)
    return r


def missing(features, key, msg):
    """Said of what a feature that is off would have brought."""
    return any(f not in features and f in key + " " + msg for f in ("complex", "decimal", "binary")) and \
        ("not found" in msg or "not register" in msg or "does not define" in msg)


def registered(crates):
    forget()
    return {via: ({(o.kind, o.name, tuple(sorted(map(str, o.aliases)))) for o in ops if o.name is not None}, {n[1] for n, _ in consts if n[0] == "s"},
                  problem or any(o.name is None for o in ops))
            for (ctx, via), (ops, consts, problem) in opmodel.catalogue(crates).items()}


def run(rep, crates):
    rep.rule("builds: the crate type-checks with every combination of its optional features")
    rep.rule("same: a context has the same operations and constants, under the same names, in every combination that has it")
    rep.rule("holds: the rules about operations, contexts, the tokenizer and the evaluator hold in every combination as they do with all features")
    full = {n: crates[n] for n in crates if n.startswith("prexel") and "server" not in n}
    seen = {}
    for f in full["prexel"].bodies:
        seen.setdefault(f.path, set()).add(shape(full["prexel"], f))
    all_ops = rep.guard("catalogue", registered, full) or {}
    base = {}
    for k in range(len(FEATURES), -1, -1):
        for features in itertools.combinations(FEATURES, k):
            rep.count("combinations of features")
            label = "+".join(features) or "none"
            try:
                d = env.dump(("--manifest-path", os.path.join(env.REPO, "prexel", "Cargo.toml"), "--no-default-features", "--features", ",".join(features)),
                             tag="features")
            except env.BuildFailed as e:
                if "could not compile `prexel`" in str(e):
                    err = [ln for ln in str(e).split("\n") if ln.startswith("error") or "-->" in ln]
                    rep.bad("builds:" + label, "prexel does not build with the features %s: %s" % (label, "; ".join(err)[:300]))
                else:
                    rep.undec("builds:" + label, str(e)[-300:])
                continue
            rep.ok({"features": label})
            cr = Crate(d["prexel"])
            rep.count("functions", len(cr.bodies))
            new = []
            for f in cr.bodies:
                s = shape(cr, f)
                if s not in seen.setdefault(f.path, set()):
                    seen[f.path].add(s)
                    new.append(f)
            rep.count("functions that differ from those of the combinations before", len(new))
            here = {"prexel": cr}
            for via, (ops, consts, open_) in (rep.guard("catalogue:" + label, registered, here) or {}).items():
                if via not in all_ops or all_ops[via][2] or open_:
                    if not any(f not in features and via.endswith("_" + f) for f in FEATURES):
                        rep.undec("same:%s:%s" % (label, via), "the operations are not known")
                    continue
                for what, a, b in (("operations", all_ops[via][0], ops), ("constants", all_ops[via][1], consts)):
                    rep.check(a == b, "same:%s:%s:%s" % (label, via, what), "with the features %s, %s does not register the same %s as with all features: %s"
                              % (label, via, what, ", ".join(str(x[1] if isinstance(x, tuple) else x) for x in sorted(a ^ b, key=str)[:6])))
            names = set()
            for f in new:
                about = [ps for part, ps in ABOUT if part in f.span]
                names.update(itertools.chain(*about) if about else OPS)
            for name in sorted(names):
                r = sub(rep, name, here)
                found = {k_: m for k_, m in r.violations.items() if not missing(features, k_, m)}
                if found and name not in base:
                    base[name] = sub(rep, name, full).violations
                for k_, m in found.items():
                    if k_ not in base[name]:
                        rep.bad("holds:%s:%s:%s" % (label, name.upper(), k_), "with the features %s: %s" % (label, m))
                for k_, m in r.undecided.items():
                    if not missing(features, k_, m):
                        rep.undec("holds:%s:%s:%s" % (label, name.upper(), k_), m)
                rep.discharged += r.discharged
                rep.obligations += r.discharged
