"""P33: see DESIGN.md."""
import itertools
import os
import tokmodel as T

NOTE = """The tokenizer is interpreted on every sequence of up to two tokens of the classes listed in analysis/tokmodel.py (up to three in the thorough tier), with complex numbers on and off."""
DEEP = bool(os.environ.get("VERIF_DEEP"))


def expected(kinds, classes, cx, merged):
    """[set of allowed tokens per token], or 'err' where the text has to be refused; None where either is right."""
    out, i = [], 0
    while i < len(classes):
        k = classes[i].kind()
        r = T.raw(i)
        if k == "num":
            if cx and i + 1 < len(classes) and classes[i + 1].text == "i":
                if not merged:
                    return None
                out.append([("Number", ("numof", ("cat", r, T.raw(i + 1))))])
                i += 2
                continue
            out.append([("Number", ("numof", r))])
        elif k == "op":
            out.append([("UnaryOperator", r), ("BinaryOperator", r)])
        elif k == "comma":
            out.append([("Comma",)])
        elif k in ("open", "close"):
            out.append([("GroupingOpen" if k == "open" else "GroupingClose", ("c", classes[i].text))])
        elif k != "space":
            out.append([({"var": "Variable", "const": "Constant", "fun": "Function", "unknown": "Unknown"}[k], r)])
        i += 1
    return out


def run(rep, crates):
    cr = crates["prexel"]
    rep.rule("class: each token is read as the first of number, variable, constant, function, operator, comma, grouping symbol that it is, else as unknown")
    rep.rule("text: each token keeps its text, or the number its text denotes")
    rep.rule("imaginary: with complex numbers on, a number followed by `i` is one number; otherwise it is not")
    rep.rule("all: every token but whitespace is in the result, in order")
    what = T.setup(cr)
    if what is None:
        rep.bad("tokenize", "there is no Tokenizer::tokenize")
        return
    rep.guard("blank", blank, rep, cr, what)
    asked = set()
    for n in range(0, 4 if DEEP else 3):
        rep.guard("tokens:%d" % n, group, rep, cr, what, n, T.ALL, asked)
    done = set()
    while asked - done:
        more = T.words_asked(asked - done)
        done |= asked
        for n in (1, 2):
            rep.guard("words:%d" % n, group, rep, cr, what, n, T.ALL + more, asked, more)


def blank(rep, cr, what):
    for classes in ([], [T.SPACE]):
        o, h, e = T.run(cr, what, classes, blank=True)
        for t, s in o:
            if t is None or h.odd:
                rep.undec("blank", "a blank text gives an unknown result")
            else:
                rep.check(t == "err", "blank", "a blank text is accepted [%s]" % what[0].path, {"blank text": "refused"})


def group(rep, cr, what, n, of, asked, must=()):
    for classes in itertools.product(of, repeat=n):
        if must and not any(k in must for k in classes):
            continue
        for cx in (0, 1):
            im = any(k.num and l.text == "i" for k, l in zip(classes, classes[1:]))
            if n == 3 and cx and not im:
                continue
            for merged in (1, 0) if cx and im else (1,):
                asked |= one(rep, cr, what, list(classes), cx, merged)


def one(rep, cr, what, classes, cx, merged):
    o, h, e = T.run(cr, what, classes, complex_number=cx, merged=merged)
    rep.count("sequences of token classes")
    want = expected(what[3], classes, cx, merged)
    ops = any(k.kind() == "op" for k in classes)
    name = ",".join(k.kind() for k in classes)
    if h.changed:
        rep.bad("text:%s" % name, "a number is read from a text that is not the token's (%s) [%s]" % (sorted(h.changed)[0], what[0].path))
        return h.asked
    for t, s in o:
        if t is None or h.odd:
            rep.undec("class:%s" % name, "what is made of %s is not known (%s)" % (T.show(classes), sorted(h.odd)[:3]))
        elif want is None:
            rep.ok()
        elif t == "err":
            rep.check(ops, "class:%s" % name, "a text of %s is refused%s [%s]" % (T.show(classes), cxs(cx), what[0].path))
        else:
            good = len(t) == len(want) and all(a in b for a, b in zip(t, want))
            rep.check(good, "class:%s" % name, "a text of %s is read as %s%s [%s]" % (T.show(classes), words(t), cxs(cx), what[0].path),
                      {"text": T.show(classes), "read as": words(t)} if good and n_small(classes) else None)
    return h.asked


def n_small(classes):
    return len(classes) < 2


def cxs(cx):
    return " where complex numbers are on" if cx else ""


def words(t):
    return " ".join(x[0] + "(" + ",".join(word(y) for y in x[1:]) + ")" for x in t) or "nothing"


def word(y):
    if y[0] == "raw":
        return "#%d" % y[1]
    if y[0] in ("numof", "cat"):
        return "".join(word(z) for z in y[1:])
    return str(y[1])
