"""P38: see DESIGN.md."""
import appmodel as A
import replmodel as R
from absint import Engine, State, c, sym
from callgraph import CallGraph
from facts import body_refs
from models import opt_none, opt_some, res_ok
from panics import show

NOTE = """Every method of the writers that prints is interpreted with colours on and off and every combination of the colours that are set; what reaches the two outputs is compared piece by piece."""

UNIT = R.UNIT
DATA = ("data",)
COLORS = {"fg": ("fgcolor",), "bg": ("bgcolor",)}


def pieces(t):
    """What a formatted text is made of, in order; None when that is not known."""
    if t[0] == "fmt" and len(t) == 2:
        r = pieces(t[1])
        return r if r is not None else [t[1]]
    if t[0] == "fmt" and len(t) == 3 and t[1][0] == "s" and t[2][0] == "agg":
        args = list(t[2][3:])
        text, out, i = t[1][1], [], 0
        while i < len(text):
            x = text[i]
            if x == "\0":
                break
            if x == "\ufffd":
                if not args:
                    return None
                a = args.pop(0)
                r = pieces(a)
                if r is None:
                    return None
                out += r
                i += 1
            elif ord(x) < 128:
                out.append(("s", text[i + 1:i + 1 + ord(x)]))
                i += 1 + ord(x)
            else:
                return None
        return out if not args else None
    if t[0] == "s":
        return [t] if "\0" not in t[1] else None
    return [t]


def style(t):
    """(text, colour, background) of a styled text"""
    fg = bg = None
    while t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("with", "on") and len(t) == 4:
        if t[1].endswith("with"):
            fg = fg or t[3]
        else:
            bg = bg or t[3]
        t = t[2]
    if t[0] == "call" and t[1].endswith("StyledContent::new"):
        return t[3], fg, bg
    return t, fg, bg


def printed(t):
    """[(text, colour, background)] of what is printed, None when that is not known"""
    out = []
    for x in pieces(t) or [None]:
        if x is None:
            return None
        y, fg, bg = style(x)
        for z in (pieces(y) or [None]) if (fg, bg) != (None, None) or y is not x else [y]:
            if z is None:
                return None
            out.append((z, fg, bg))
    return out


class Out(R.Prompt):
    def __init__(self, cr):
        super().__init__(cr, 0, {}, 0)

    def trace(self, st):
        return self.get(st, "trace", ())

    def on_panic(self, *a):
        pass

    def on_call(self, eng, st, name, args, ctx):
        last = name.rsplit("::", 1)[-1]
        if name in ("std::io::_print", "std::io::_eprint", "io::_print", "io::_eprint"):
            p = printed(eng.T(st, args[0]))
            if p is None:
                self.odd.add("what is formatted")
                p = [(("?",), None, None)]
            self.put(st, "trace", self.trace(st) + tuple((last[1:], x) for x in p if x[0] != ("s", "")))
            return [(UNIT, st)]
        if "Atomic" in name and args and eng.T(st, args[0])[0] == "static":
            if last == "load":
                return [(c(self.get(st, "colors", 1)), st)]
        if last == "repeat" and len(args) == 2:
            n = eng.T(st, args[1])
            t = eng.T(st, eng.strip(st, args[0]))
            if n[0] == "c" and t[0] == "s":
                return [(("s", t[1] * n[1]), st)]
        if last in ("stdout", "stderr") and name.endswith(("io::stdout", "io::stderr")):
            return [(sym(("stream", {"stdout": "print", "stderr": "eprint"}[last])), st)]
        if args and last in ("lock", "by_ref", "clone") and eng.T(st, args[0])[0] == "stream":
            return [(sym(eng.T(st, args[0])), st)]
        if last == "write_fmt" and args and eng.T(st, args[0])[0] == "stream" and len(args) == 2:
            p = printed(eng.T(st, args[1]))
            if p is None:
                self.odd.add("what is formatted")
                p = [(("?",), None, None)]
            w = eng.T(st, args[0])[1]
            self.put(st, "trace", self.trace(st) + tuple((w, x) for x in p if x[0] != ("s", "")))
            return [(res_ok(UNIT), st)]
        if last == "flush":
            return [(UNIT, st)]
        own = eng.fn_by_key.get(ctx.info.get("rkey"))
        if own is not None:
            return None
        return self.texts(eng, st, name, last, args, ctx)


def writer(cr, name, fg, bg):
    a = A.adt(cr, name)
    if a is None:
        return None
    fs = [x[0] for x in a["variants"][0][1]]
    if name == "ColorWriter":
        if set(fs) != {"fg", "bg"}:
            return None
        v = {"fg": opt_some(sym(COLORS["fg"])) if fg else opt_none(), "bg": opt_some(sym(COLORS["bg"])) if bg else opt_none()}
        return ("agg", "adt", a["def"], 0, tuple(v[n] for n in fs))
    inner = writer(cr, "ColorWriter", fg, bg)
    if set(fs) != {"writer", "prompt_prefix"} or inner is None:
        return None
    v = {"writer": inner, "prompt_prefix": opt_some(("s", ">>> "))}
    return ("agg", "adt", a["def"], 0, tuple(v[n] for n in fs))


def colors_of(eng, st, v):
    t = eng.T(st, v)
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if x in (COLORS["fg"], COLORS["bg"]):
                out.append(x)
            else:
                for y in x:
                    walk(y)
    walk(t)
    return out


METHODS = ("write", "writeln", "write_err", "writeln_err")


def one(rep, cr, ty, name):
    f = R.method(cr, ty, name)
    if f is None:
        rep.bad("anchor:%s:%s" % (ty, name), "there is no %s::%s" % (ty, name))
        return
    on = flag(cr)
    for colors in (0, 1):
        for fg in (0, 1):
            for bg in (0, 1):
                h = Out(cr)
                eng = Engine([cr], hooks=h)
                eng.unroll, eng.exact = 4, 64
                st = State()
                w = writer(cr, ty, fg, bg)
                if w is None:
                    rep.undec("writer:" + ty, "the fields of %s are not known" % ty)
                    return
                st.mem[("P", "w")] = w
                h.put(st, "colors", colors if on else 1 - colors)
                key = "%s:%s" % (ty, name)
                for v, s, _ in eng.analyse(f, [("ref", ("P", "w"), ()), sym(DATA)], st):
                    rep.count("paths through the writers")
                    got = h.trace(s)
                    if h.odd or any(x[1][0] == ("?",) for x in got):
                        rep.undec(key, "what %s prints is not known: %s" % (f.path, sorted(h.odd)[:3]))
                        continue
                    bad = judge(ty, name, got, colors, fg, bg)
                    if bad is None and colors and colors_of(eng, s, s.mem[("P", "w")]):
                        bad = "keeps its colour for the next text"
                    if bad and any(n not in KNOWN for n in eng.unmodelled):
                        rep.undec(key, "what %s prints is not known: %s" % (f.path, sorted(eng.unmodelled)[:3]))
                        continue
                    rep.check(bad is None, key, "%s %s%s [%s]" % (name, bad, "" if colors else " with colours off", f.path),
                              {"method": f.path, "colours": bool(colors)})


KNOWN = ("StyledContent::new", "Stylize::with", "Stylize::on")


def judge(ty, name, got, colors, fg, bg):
    stream = "eprint" if "err" in name else "print"
    data = [i for i, x in enumerate(got) if x[1][0] == DATA]
    if len(data) != 1:
        return "prints its text %s" % ("%d times" % len(data) if data else "never")
    if got[data[0]][0] != stream:
        return "prints its text on the %s" % ("output instead of the error output" if stream == "eprint" else "error output instead of the output")
    want = (COLORS["fg"] if fg and colors else None, COLORS["bg"] if bg and colors else None)
    if got[data[0]][1][1:] != want:
        return "prints its text in %s" % ("colours" if not colors else "other colours than were asked for")
    if not colors and any(x[1][1] or x[1][2] for x in got):
        return "prints colours"
    rest = "".join(x[1][0][1] if x[1][0][0] == "s" else "?" for x in got[data[0] + 1:] if x[0] == stream)
    other = "".join(x[1][0][1] if x[1][0][0] == "s" else "?" for x in got if x[0] != stream)
    if data[0] != 0:
        return "prints something before its text"
    end = "\n" if "ln" in name else ""
    prompt = ">>> " if ty == "ReplWriter" and "ln" in name else ""
    if stream == "print" and (rest != end + prompt or other):
        return "prints %r after its text" % (rest + other)
    if stream == "eprint" and (rest != end or other != prompt):
        return "prints %r after its text" % (rest + other)
    return None


def flag(cr):
    """What the flag holds while colours are used (its meaning may be the opposite one)."""
    for f in cr.bodies:
        if f.body.argc == 0 and "color" in f.name and cr.ty(f.body.locals[0])["s"] == "bool":
            h = Out(cr)
            st = State()
            h.put(st, "colors", 1)
            got = {Engine.T(e, s, v) for e in [Engine([cr], hooks=h)] for v, s, _ in e.analyse(f, [], st)}
            if got == {("c", 0)}:
                return 0
    return 1


def main(rep, cr):
    """--no-color is in force before anything is printed."""
    f = next((f for f in cr.bodies if f.path == "main"), None)
    cli = A.command(cr, "Eval", 0)
    a = A.adt(cr, "Cli")
    names = [x[0] for x in a["variants"][0][1]] if a else []
    if f is None or cli is None or "no_color" not in names:
        rep.bad("main", "the switch that disables colours is gone") if a and "no_color" not in names else rep.undec("main", "main was not recognised")
        return
    on = flag(cr)
    for cmd in ("Eval", "Repl", "Constants", "Functions"):
        for off in (0, 1):
            cli = A.command(cr, cmd, 0)
            i = names.index("no_color")
            v = cli[:4] + (cli[4][:i] + (c(off),) + cli[4][i + 1:],)
            h = Switch(v, on)
            eng = A.engine([cr], h)
            for _, s, _ in eng.analyse(f, [], State()):
                got = [e for e in h.trace(s) if e[0] in ("colors", "out", "err", "list")]
                first = next((j for j, e in enumerate(got) if e[0] != "colors"), len(got))
                now = [e[1] for e in got if e[0] == "colors"]
                now0 = [e[1] for e in got[:first] if e[0] == "colors"]
                rep.count("runs of the tool")
                if first == len(got):
                    rep.ok()                # nothing is printed, or what was is not known
                elif None in now:
                    rep.undec("main:" + cmd, "whether colours are used is not known")
                elif not off and not now:
                    rep.ok()
                else:
                    ok = now0 and now0[-1] == 1 - off and all(x == 1 - off for x in now)
                    rep.check(bool(ok), "main:" + cmd, "colours are %s %s --no-color [main]" % ("on" if off else "off", "with" if off else "without"),
                              {"command": cmd, "--no-color": bool(off)})


class Switch(A.Apps):
    def __init__(self, cli, on=1):
        super().__init__()
        self.cli, self.on = cli, on

    def on_call(self, eng, st, name, args, ctx):
        if "Atomic" in name and args and "static" in str(eng.T(st, args[0])):
            last = name.rsplit("::", 1)[-1]
            now = st.mem.get(("X", "colors"), c(self.on))[1]       # what the flag holds at the start: colours are on
            if last == "load":
                return [(c(now) if now is not None else sym(("colors",)), st)]
            t = eng.T(st, args[1]) if len(args) > 1 else ("?",)
            v = t[1] if t[0] == "c" else eng.lookup(st, t)
            v = int(v) if isinstance(v, (int, bool)) else None
            new = None if v is None or now is None else {"store": v, "swap": v, "fetch_or": now | v, "fetch_and": now & v, "fetch_xor": now ^ v,
                                                          "fetch_nand": 1 - (now & v)}.get(last)
            if last == "store":
                new = v
            st.mem[("X", "colors")] = c(new)
            self.event(st, "colors", None if new is None else new if self.on else 1 - new)
            return [(UNIT if last == "store" else c(now) if now is not None else sym(("colors",)), st)]
        own = eng.fn_by_key.get(ctx.info.get("rkey"))
        if name.endswith("set_use_colors") and own is not None and own.key not in ctx.stack:
            return eng.enter(st, own, args, ctx.frame, ctx.block, ctx.stack)
        if name.endswith("Repl::run"):
            self.event(st, "list", ("prompt",))
        return super().on_call(eng, st, name, args, ctx)


STYLES = ("StyledContent", "Stylize", "SetForegroundColor", "SetBackgroundColor", "SetAttribute", "SetColors", "SetStyle")


def only(rep, cr):
    """Nothing is coloured where nobody asked whether colours are used."""
    g = CallGraph([cr])
    m = [f for f in cr.bodies if f.path == "main"]
    if not m:
        return rep.undec("only", "there is no main")

    def refs(f):
        return [ref.get("fn", "") for body in [f.body] + f.promoted for ref in body_refs(cr, body)]

    def asks(f):
        return any("Atomic" in n and n.endswith("::load") for n in refs(f))
    askers = {id(f) for f in g.closure(m) if asks(f)}
    todo, seen = list(m), {id(f) for f in m}
    while todo:
        f = todo.pop()
        if id(f) in askers or any(id(x) in askers for x in g.out(f)):
            continue
        rep.count("functions that do not ask whether colours are used")
        bad = [n for n in refs(f) if any(x in n for x in STYLES)]
        rep.check(not bad, "only:" + f.path, "%s colours text without asking whether colours are used [%s]" % (f.name, f.path), {"function": f.path, "calls": bad[:2]})
        for x in g.out(f):
            if id(x) not in seen:
                seen.add(id(x))
                todo.append(x)


def run(rep, crates):
    cr = crates["eval"]
    rep.rule("text: a writer prints the text it is given, once, on the output it is meant for, and an end of line where it ends one")
    rep.rule("colour: with colours off nothing else is printed; with colours on the text has the colours that were asked for, and the next one has not")
    rep.rule("switch: colours are off before anything is printed where that is asked for")
    for ty in ("ColorWriter", "ReplWriter"):
        for name in METHODS:
            rep.guard("%s:%s" % (ty, name), one, rep, cr, ty, name)
    rep.guard("main", main, rep, cr)
    rep.guard("only", only, rep, cr)
