"""The prompt of the interactive tool interpreted key by key.

The loop that reads the keys is interpreted from the start with a history of a given size, with every kind of key at every turn.  The texts
are exact (built from a few letters, up to a given length), so are the history and the place in it; a state of the loop that was met before
is not followed again, so the exploration covers key sequences of every length over these texts.  Next to it runs what has to happen:
the line being edited, the lines of the history, the place in it and what the screen shows."""
from absint import Engine, State, c, sym, res_ok
from models import opt_none, opt_some

UNIT = ("agg", "tuple", "", 0, ())
HUGE = 1 << 32
OTHER = ("Left", "Right", "Home", "End", "PageUp", "PageDown", "Tab", "BackTab", "Delete", "Insert", "Null")


class Model:
    """What the user can rely on: (line, history, place, what is shown, ended)"""

    def __init__(self, cap):
        self.cap = cap

    def step(self, m, ev):
        line, hist, at = m
        if ev[0] == "Char":
            line += ev[1]
        elif ev[0] == "Backspace":
            line = line[:-1]
        elif ev[0] == "Enter":
            if line.strip():
                if not hist or hist[-1] != line:
                    hist = (hist + (line,))[-self.cap:] if self.cap else ()
                at = len(hist)
            line = ""
        elif ev[0] == "Up" and at > 0:
            at -= 1
            line = hist[at]
        elif ev[0] == "Down" and at < len(hist):
            at += 1
            line = hist[at] if at < len(hist) else ""
        return line, hist, at


CHARS = {"is_ascii": str.isascii, "is_whitespace": str.isspace, "is_alphabetic": str.isalpha, "is_alphanumeric": str.isalnum,
         "is_numeric": str.isnumeric, "is_control": lambda x: ord(x) < 32 or 127 <= ord(x) < 160, "is_ascii_graphic": lambda x: 32 < ord(x) < 127,
         "is_ascii_alphanumeric": lambda x: x.isascii() and x.isalnum(), "is_ascii_digit": lambda x: x.isascii() and x.isdigit(),
         "is_ascii_whitespace": lambda x: x in " \t\n\r\x0c", "is_ascii_control": lambda x: ord(x) < 32 or ord(x) == 127,
         "is_ascii_alphabetic": lambda x: x.isascii() and x.isalpha()}


def _ascii(f):
    return lambda x: "".join(f(y) if y.isascii() else y for y in x)


CASES = {"to_ascii_lowercase": _ascii(str.lower), "to_ascii_uppercase": _ascii(str.upper), "to_lowercase": str.lower, "to_uppercase": str.upper}


class Prompt:
    def __init__(self, cr, cap, letters, maxlen, maxstates=100000):
        self.cr, self.cap, self.letters, self.maxlen = cr, cap, letters, maxlen
        self.model = Model(cap)
        self.odd, self.bad, self.seen, self.steps, self.root, self.panics = set(), {}, set(), 0, None, []
        self.keys = cr.ext.get("crossterm::event::KeyCode") or []
        self.events = cr.ext.get("crossterm::event::Event") or []
        self.maxstates = maxstates
        self.screen_odd = False
        self.kinds = {}
        self.script = None       # the keys, if these are given

    # ---- ghosts
    def get(self, st, k, d=None):
        v = st.mem.get(("X", k))
        return v[1] if v is not None else d

    def put(self, st, k, v):
        st.mem[("X", k)] = c(v)

    def wrong(self, key, msg, ctx):
        self.bad.setdefault(key, "%s [%s]" % (msg, ctx.fn.path if ctx is not None else "repl"))

    def place(self, eng, st, a):
        loc, path = a[1], a[2]
        while True:
            w = eng.read_loc(st, loc, path)
            if w[0] != "ref":
                return loc, path
            loc, path = w[1], w[2]

    def forget(self, eng, st, ctx):
        """Drop what the loop can no longer read."""
        if self.root is None or ctx.fn is not self.root[0]:
            return
        fr = ctx.frame
        live, addr = eng.live_in(ctx.fn.body)
        todo = [l for l in st.mem if l[0] == "X" or l[0] == fr and l[1] in live[ctx.block] or l[0] != fr and l[0] in ("P", "S")]
        keep = set()

        def refs(v):
            if isinstance(v, tuple):
                if len(v) == 3 and v[0] == "ref":
                    yield v[1]
                for x in v:
                    if isinstance(x, tuple):
                        yield from refs(x)
        while todo:
            l = todo.pop()
            if l in keep or l not in st.mem:
                continue
            keep.add(l)
            todo += list(refs(st.mem[l]))
        for l in list(st.mem):
            if l not in keep:
                del st.mem[l]

    def event(self, ev):
        k = ev[0]
        if k == "Resize":
            return ("agg", "adt", "crossterm::event::Event", self.events.index("Resize"), (sym(("cols",)), sym(("rows",))))
        code = ("agg", "adt", "crossterm::event::KeyCode", self.keys.index(k), (c(ord(ev[1])),) if len(ev) > 1 else ())
        key = ("agg", "adt", "crossterm::event::KeyEvent", 0, (code, sym(("mods",))))
        return ("agg", "adt", "crossterm::event::Event", self.events.index("Key"), (key,))

    def settle(self, eng, st, ctx, end=False):
        """What has to have happened by the time the next key is read."""
        ev = self.get(st, "ev")
        if ev is None:
            return True
        say = describe(ev)
        if self.get(st, "want") is not None:
            self.wrong("enter:dropped", "%s does not evaluate the line" % say, ctx)
            return False
        if self.get(st, "over") and not end:
            self.wrong("end:on", "the tool goes on after %s" % self.get(st, "over"), ctx)
            return False
        if not end and not self.screen_odd:
            line, shown = self.get(st, "model")[0], self.get(st, "screen")
            if shown != line:
                self.wrong("shown:" + ev[0], "after %s the prompt shows `%s` while the line is `%s`" % (say, shown, line), ctx)
                return False
        return True

    # ---- the hook
    def on_panic(self, eng, st, fn, why, site, stack, ops):
        ev = self.get(st, "ev")
        if self.get(st, "live"):
            self.bad.setdefault("panic:" + why, "%s can make the tool fail: %s in %s at %s" % (describe(ev) if ev else "a size of the history", why, fn.path, site[1]))

    def on_call(self, eng, st, name, args, ctx):
        last = name.rsplit("::", 1)[-1]
        if name.startswith("ctrlc::"):
            return [(res_ok(UNIT), st)]
        if "Atomic" in name and last == "load":
            # the flag of Ctrl-C
            return [(c(1), st)]
        if name.endswith("event::poll"):
            if self.script is not None:
                return [(res_ok(c(1)), st)]
            return [(res_ok(c(1)), st), (res_ok(c(0)), st.copy())] if not self.get(st, "polled") else [(res_ok(c(1)), st)]
        if name.endswith("event::read"):
            return self.read(eng, st, ctx)
        if name in ("FnMut::call_mut", "FnOnce::call_once", "Fn::call") and args and self.is_handler(eng, st, args[0]):
            return self.entered(eng, st, args, ctx)
        if "ReplWriter" in name or "ColorWriter" in name:
            return self.write(eng, st, last, args, ctx)
        if name.endswith(("Duration::from_millis", "Duration::from_secs", "Instant::now")):
            return [(sym((last,)), st)]
        own = eng.fn_by_key.get(ctx.info.get("rkey"))
        if own is not None and name.startswith(("Deref", "AsRef", "AsMut", "Borrow", "IntoIterator")) and own.key not in ctx.stack:
            return eng.enter(st, own, args, ctx.frame, ctx.block, ctx.stack)
        r = self.lists(eng, st, name, last, args, ctx)
        return r if r is not None else self.texts(eng, st, name, last, args, ctx)

    def is_handler(self, eng, st, a):
        return eng.T(st, a) == ("handler",)

    def read(self, eng, st, ctx):
        if not self.settle(eng, st, ctx):
            return []
        self.put(st, "ev", None)
        self.put(st, "live", True)
        self.forget(eng, st, ctx)
        m = self.get(st, "model")
        if self.script is not None:
            n = self.get(st, "turn", 0)
            self.put(st, "turn", n + 1)
        key = st.key() if self.script is None else n
        if key in self.seen:
            return []
        self.seen.add(key)
        if len(self.seen) > self.maxstates:
            self.odd.add("too many states")
            return []
        out = []
        for ev in self.offers(m[0]) if self.script is None else self.script[n:n + 1]:
            s = st.copy()
            self.steps += 1
            self.kinds[ev[0]] = self.kinds.get(ev[0], 0) + 1
            self.put(s, "ev", ev)
            if ev[0] == "Enter":
                self.put(s, "want", m[0])
            if ev[0] == "Esc":
                self.put(s, "over", "the escape key")
            self.put(s, "model", self.model.step(m, ev))
            out.append((res_ok(self.event(ev)), s))
        return out

    def offers(self, line):
        out = [(k,) for k in ("Backspace", "Enter", "Up", "Down", "Esc", "Left", "Delete") if k in self.keys]
        if "Resize" in self.events:
            out.append(("Resize",))
        if len(line) < self.maxlen:
            out += [("Char", x) for x in self.letters.get(len(line), self.letters[None])]
        return out

    def entered(self, eng, st, args, ctx):
        t = eng.strip(st, args[1]) if len(args) > 1 else None
        line = eng.T(st, eng.strip(st, t[4][0])) if t is not None and t[0] == "agg" and t[4] else None
        want = self.get(st, "want")
        if line is None or line[0] != "s":
            self.odd.add("the line that is evaluated")
            return []
        if want is None:
            self.wrong("enter:extra", "a line is evaluated %s" % ("once more" if (self.get(st, "ev") or ("",))[0] == "Enter" else "at " + describe(self.get(st, "ev"))), ctx)
            return []
        if line[1] != want:
            self.wrong("enter:line", "the line `%s` is evaluated as `%s`" % (want, line[1]), ctx)
            return []
        self.put(st, "want", None)
        if self.script is not None:
            return [(opt_none(), st)]
        s2 = st.copy()
        self.put(s2, "over", "the line `exit`")
        brk = ("agg", "adt", "std::ops::ControlFlow", 1, (UNIT,))
        out = [(opt_none(), st), (opt_some(brk), s2)]
        if "continue" in self.flows:
            s3 = st.copy()
            out.append((opt_some(("agg", "adt", "std::ops::ControlFlow", 0, (UNIT,))), s3))
        return out

    def write(self, eng, st, last, args, ctx):
        if last in ("write", "writeln", "rewrite", "write_err", "writeln_err", "rewrite_err"):
            t = eng.T(st, eng.strip(st, args[1]))
            if t[0] == "c" and isinstance(t[1], int):
                t = ("s", chr(t[1]))
            shown = self.get(st, "screen", "")
            if last.startswith("writeln"):
                shown = ""
            elif t[0] != "s":
                self.screen_odd = True
            elif last.startswith("rewrite"):
                shown = t[1]
            elif t[1] == "\x08 \x08":
                shown = shown[:-1] if shown else "\x08"
            else:
                shown += t[1]
            self.put(st, "screen", shown)
            return [(UNIT, st)]
        if last in ("flush", "write_prompt_prefix"):
            return [(UNIT, st)]
        if args and len(args) <= 2 and last not in ("new", "with_prompt_prefix"):
            return [(args[0], st)]
        return [(sym(("writer",)), st)]

    # ---- lists of texts
    def lists(self, eng, st, name, last, args, ctx):
        base = name.split("::")[0]
        if base in ("Vec", "VecDeque") and last in ("new", "with_capacity"):
            if args:
                n = eng.T(st, args[0])
                if n[0] != "c":
                    self.odd.add(name)
                elif n[1] >= HUGE:
                    self.bad.setdefault("size", "room for as many lines as the history may hold is taken at once, which fails for a large size [%s]" % ctx.fn.path)
                    return []
            return [(("c", ("list",)), st)]
        if not args or args[0][0] != "ref" and args[0][0] != "c":
            return None
        if args[0][0] == "ref":
            loc, path = self.place(eng, st, args[0])
            v = eng.read_loc(st, loc, path)
        else:
            loc, v = None, args[0]
        if v[0] != "c" or not isinstance(v[1], tuple) or v[1][:1] != ("list",):
            return None
        xs = v[1][1:]
        item = lambda i: ("s", xs[i])

        def set_(new):
            eng.write_loc(st, loc, path, c(("list",) + tuple(new)))
        if last in ("len",):
            return [(c(len(xs)), st)]
        if last == "is_empty":
            return [(c(int(not xs)), st)]
        if last in ("deref", "deref_mut", "as_slice", "as_ref", "borrow", "iter", "into_iter", "make_contiguous", "as_mut_slice"):
            return [(args[0], st)]
        if last in ("clear",):
            set_(())
            return [(UNIT, st)]
        if last in ("push", "push_back", "push_front"):
            t = eng.T(st, args[1])
            if t[0] != "s":
                self.odd.add(name)
                return []
            set_(xs + (t[1],) if last != "push_front" else (t[1],) + xs)
            return [(UNIT, st)]
        if last in ("pop", "pop_back", "pop_front"):
            if not xs:
                return [(opt_none(), st)]
            i = 0 if last == "pop_front" else len(xs) - 1
            set_(xs[:i] + xs[i + 1:])
            return [(opt_some(item(i)), st)]
        if last in ("first", "last", "front", "back"):
            return [(opt_some(item(0 if last in ("first", "front") else -1)) if xs else opt_none(), st)]
        if last in ("get", "index", "remove", "swap_remove", "index_mut", "get_mut"):
            i = eng.T(st, args[1])
            if i[0] != "c" or not isinstance(i[1], int):
                self.odd.add(name)
                return []
            i = i[1]
            if last in ("get", "get_mut") or last == "remove" and base == "VecDeque":
                r = opt_some(item(i)) if 0 <= i < len(xs) else opt_none()
                if last == "remove" and 0 <= i < len(xs):
                    set_(xs[:i] + xs[i + 1:])
                return [(r, st)]
            if not 0 <= i < len(xs):
                eng.panic(st, ctx.fn, "%s of a list of %d" % (("entry %d" % i), len(xs)), ctx.site, ctx.block, ctx.stack)
                return []
            r = item(i)
            if last == "remove":
                set_(xs[:i] + xs[i + 1:])
            if last == "swap_remove":
                ys = list(xs)
                ys[i] = ys[-1]
                set_(ys[:-1])
            return [(r, st)]
        if last == "as_slices":
            return [(("agg", "tuple", "", 0, (("c", v[1]), ("c", ("list",)))), st)]
        if last == "contains":
            t = eng.T(st, eng.strip(st, args[1]))
            if t[0] == "s":
                return [(c(int(t[1] in xs)), st)]
        if last in ("reserve", "shrink_to_fit"):
            return [(UNIT, st)]
        if last in ("drain", "truncate") and len(args) == 2:
            t = eng.T(st, args[1])
            if last == "drain" and t[0] == "agg":
                r = span(t, len(xs))
                if r and 0 <= r[0] <= r[1] <= len(xs):
                    set_(xs[:r[0]] + xs[r[1]:])
                    return [(("iter", ("arr", ("agg", "array", "", 0, tuple(("s", y) for y in xs[r[0]:r[1]]))), "fresh", None, ()), st)]
            if last == "truncate" and t[0] == "c":
                set_(xs[:t[1]])
                return [(UNIT, st)]
        self.odd.add(name)
        return []

    # ---- texts
    def texts(self, eng, st, name, last, args, ctx):
        if name in ("String::new", "String::with_capacity"):
            return [(("s", ""), st)]
        if not args:
            return None
        if name.endswith(("mem::take", "mem::replace")) and args[0][0] == "ref":
            loc, path = self.place(eng, st, args[0])
            v = eng.read_loc(st, loc, path)
            if v[0] == "s":
                eng.write_loc(st, loc, path, ("s", "") if last == "take" else ("s", eng.T(st, args[1])[1]))
                return [(v, st)]
            return None
        t = eng.T(st, eng.strip(st, args[0]))
        if last in ("eq", "ne") and len(args) == 2:
            u = eng.T(st, eng.strip(st, args[1]))
            a, b = exact(t), exact(u)
            if a is not None and b is not None:
                return [(c(int((a == b) == (last == "eq"))), st)]
            return None
        if t[0] == "c" and isinstance(t[1], int) and name.startswith("char::") and last in CASES and len(args) == 1:
            y = CASES[last](chr(t[1]))
            if len(y) == 1:
                return [(c(ord(y)) if "ascii" in last else ("s", y), st)]
        if t[0] == "s" and last in CASES and name.startswith(("str::", "String::", "slice::")) and len(args) == 1:
            return [(("s", CASES[last](t[1])), st)]
        if t[0] == "c" and isinstance(t[1], int) and name.startswith("char::") and last in CHARS and len(args) == 1:
            return [(c(int(CHARS[last](chr(t[1])))), st)]
        if t[0] != "s":
            return None
        x = t[1]
        if last in ("push", "push_str", "pop", "clear", "truncate", "remove", "insert", "drain") and args[0][0] == "ref":
            loc, path = self.place(eng, st, args[0])
            u = [eng.T(st, eng.strip(st, a)) for a in args[1:]]
            set_ = lambda y: eng.write_loc(st, loc, path, ("s", y))
            if last in ("push", "push_str"):
                y = u[0][1] if u[0][0] == "s" else chr(u[0][1]) if u[0][0] == "c" else None
                if y is None:
                    self.odd.add(name)
                    return []
                set_(x + y)
                return [(UNIT, st)]
            if last == "clear":
                set_("")
                return [(UNIT, st)]
            if last == "pop":
                set_(x[:-1])
                return [(opt_some(c(ord(x[-1]))) if x else opt_none(), st)]
            if last == "truncate" and u[0][0] == "c":
                b = x.encode()
                if u[0][1] < len(b):
                    try:
                        set_(b[:u[0][1]].decode())
                    except UnicodeDecodeError:
                        eng.panic(st, ctx.fn, "a cut inside a letter", ctx.site, ctx.block, ctx.stack)
                        return []
                return [(UNIT, st)]
            if last == "drain" and u[0][0] == "agg" and u[0][1].endswith("RangeFull"):
                set_("")
                return [(("s", x), st)]
            self.odd.add(name)
            return []
        if last in ("trim", "trim_start", "trim_end"):
            return [(("s", {"trim": x.strip, "trim_start": x.lstrip, "trim_end": x.rstrip}[last]()), st)]
        if last == "len":
            return [(c(len(x.encode())), st)]
        if last == "is_empty":
            return [(c(int(not x)), st)]
        if last in ("clone", "to_string", "to_owned", "as_str", "deref", "borrow", "as_ref", "from", "into", "collect", "into_string", "deref_mut", "chars",
                    "into_iter", "from_iter"):
            return [(("s", x), st)]
        if last == "count" and name.startswith(("Iterator", "str::Chars")):
            return [(c(len(x)), st)]
        if last in ("all", "any") and len(args) == 2:
            f = eng.strip(st, args[1])
            if f[0] == "fn" and "is_whitespace" in str(f):
                return [(c(int((all if last == "all" else any)(y.isspace() for y in x))), st)]
        if last in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case") and len(args) == 2:
            u = eng.T(st, eng.strip(st, args[1]))
            y = u[1] if u[0] == "s" else chr(u[1]) if u[0] == "c" and isinstance(u[1], int) else None
            if y is not None:
                return [(c(int({"starts_with": x.startswith, "ends_with": x.endswith, "contains": x.__contains__,
                                "eq_ignore_ascii_case": lambda z: x.lower() == z.lower()}[last](y))), st)]
        if name.startswith(("String::", "str::")):
            self.odd.add(name)
            return []
        return None


def exact(t):
    """The value of a term with nothing unknown in it."""
    if t[0] in ("s", "c"):
        return t[1:]
    if t[0] == "agg":
        xs = [exact(x) for x in t[3:]]
        return None if None in xs else (t[2],) + tuple(xs)
    return None


def span(t, n):
    """The two ends of a range"""
    k, xs = t[1].rsplit("::", 1)[-1], t[3:]
    if any(x[0] != "c" or not isinstance(x[1], int) for x in xs):
        return None
    xs = [x[1] for x in xs]
    return {"RangeFull": lambda: (0, n), "RangeTo": lambda: (0, xs[0]), "RangeFrom": lambda: (xs[0], n), "Range": lambda: (xs[0], xs[1]),
            "RangeToInclusive": lambda: (0, xs[0] + 1)}.get(k, lambda: None)()


def describe(ev):
    if ev is None:
        return "the start"
    names = {"Backspace": "the backspace key", "Enter": "the enter key", "Up": "the key up", "Down": "the key down", "Esc": "the escape key",
             "Resize": "a change of the window", "Left": "the key left", "Delete": "the delete key"}
    return names.get(ev[0]) or "the letter `%s`" % (ev[1:],)


def method(cr, ty, name):
    fs = [f for f in cr.bodies if f.name == name and f.kind == "method" and (f.self_def() or "").rsplit("::", 1)[-1] == ty]
    return fs[0] if len(fs) == 1 else None


def make(cr, hook, cap, pre):
    """[(the prompt with a history of this size, state)]"""
    eng = Engine([cr], hooks=hook, max_states=64)
    fs = {n: method(cr, "ReplBuilder", n) for n in ("new", "history_size", "pre_text", "build")}
    if None in fs.values():
        return None
    out = [(v, s) for v, s, _ in eng.analyse(fs["new"], [], State())]
    for n, a in (("history_size", opt_some(c(cap)) if cap is not None else opt_none()),) + ((("pre_text", ("s", "hello")),) if pre else ()) + (("build", None),):
        nxt = []
        for v, s in out:
            nxt += [(w, s2) for w, s2, _ in eng.analyse(fs[n], [v] + ([a] if a is not None else []), s)]
        out = nxt
    return out


def explore(cr, cap, letters, maxlen, pre=True, flows=(), script=None):
    """-> hook, problem"""
    hook = Prompt(cr, cap if cap is not None else 100, letters, maxlen)
    hook.flows = flows
    hook.script = script
    if not hook.keys or not hook.events:
        return hook, "the keys are not known"
    run = method(cr, "Repl", "run")
    if run is None:
        return hook, "the loop of the prompt was not found"
    made = make(cr, hook, cap, pre)
    if not made or len(made) != 1 or made[0][0][0] != "agg":
        return hook, "how the prompt is made is not known"
    eng = Engine([cr], hooks=hook, max_states=100000, budget=6000000)
    eng.exact, eng.unroll = 10 ** 7, 8
    hook.root = (run,)
    st = State()
    st.mem = {l: v for l, v in made[0][1].mem.items() if l[0] in ("P", "S")}
    hook.put(st, "model", ("", (), 0))
    hook.put(st, "screen", "")
    for v, s, _ in eng.analyse(run, [made[0][0], sym(("handler",))], st):
        if hook.settle(eng, s, None, end=True) and not hook.get(s, "over"):
            hook.wrong("end:early", "the tool ends at %s" % describe(hook.get(s, "ev")), None)
    hook.unmodelled = dict(eng.unmodelled)
    hook.engine = eng
    return hook, None
