"""P35: see DESIGN.md."""
import os
import tokmodel as T
from p33 import words

NOTE = """The tokenizer is interpreted on every class of operator between every class of token before it (or none) and after it (or none), also with a space token between them."""
DEEP = bool(os.environ.get("VERIF_DEEP"))
MORE = [T.K("a prefix operator of one letter", un="pre", text="λ"), T.K("a binary operator of one letter", bin=1, text="∋"),
        T.K("a postfix operator of one letter", un="post", text="°"), T.K("a prefix and binary operator of one letter", un="pre", bin=1, text="x")]


def operand(k):
    """Does a token of this class end an operand?"""
    return k is not None and (k.kind() in ("num", "var", "const", "close") or k.kind() == "op" and k.un == "post" and not k.bin)


def starts(k):
    """Does an operand start after a token of this class?"""
    return k is None or k.kind() in ("open", "comma") or k.kind() == "op" and k.un != "post"


def expect(prev, op, nxt):
    if nxt is None:
        return "UnaryOperator" if op.un == "post" and not op.bin and operand(prev) and prev.kind() != "op" else None
    if op.un == "pre" and op.bin:
        return "BinaryOperator" if operand(prev) else "UnaryOperator" if starts(prev) else None
    if op.un == "pre":
        return "UnaryOperator" if starts(prev) else None
    if op.un == "post" and not op.bin:
        return "UnaryOperator" if operand(prev) and prev.kind() != "op" else None
    if op.bin and op.un is None:
        return "BinaryOperator" if operand(prev) else "not UnaryOperator"
    return None


def run(rep, crates):
    cr = crates["prexel"]
    rep.rule("binary: after an operand (a number, variable, constant, closing symbol or postfix operator) an operator that can be binary is binary")
    rep.rule("prefix: at the start, after an opening symbol, a comma or another operator, an operator that can be prefix is prefix")
    rep.rule("postfix: after an operand a postfix operator is unary")
    rep.rule("only: an operator with no unary meaning is never read as unary")
    what = T.setup(cr)
    if what is None:
        rep.bad("tokenize", "there is no Tokenizer::tokenize")
        return
    classes = [k for k in T.ALL if k is not T.SPACE] + MORE
    ops = [k for k in classes if k.kind() == "op"]
    before = [None] + classes
    after = [None] + (classes if DEEP else [T.NUM, T.OPEN[0], T.PRE, T.CLOSE[0], T.COMMA])
    asked, done = set(), set()
    for op in ops:
        for prev in before:
            rep.guard("%s:%s" % (op.label, prev and prev.label), one, rep, cr, what, prev, op, after, asked)
    while asked - done:
        more = T.words_asked(asked - done)
        done |= asked
        for op in ops + [k for k in more if k.kind() == "op"]:
            for prev in before if op in more else more:
                rep.guard("%s:%s" % (op.label, prev and prev.label), one, rep, cr, what, prev, op, after, asked)


def one(rep, cr, what, prev, op, after, asked):
    for nxt in after:
        want = expect(prev, op, nxt)
        if want is None:
            continue
        # a text that does not end or start at the operator: something comes before `prev` as well
        lead = [] if prev is None else [T.OPEN[0]] if prev.kind() not in ("close", "op") else [T.NUM]
        for pad in ((), (T.SPACE,)):
            for ld in ([], lead) if lead else ([],):
                left = ld + ([prev] + list(pad) if prev else list(pad))
                if nxt is None and pad:
                    continue
                asked |= check(rep, cr, what, left, op, list(pad) + ([nxt] if nxt else []), want, prev, nxt)


def check(rep, cr, what, left, op, right, want, prev, nxt):
    classes = left + [op] + right
    at = T.raw(len(left))
    o, h, e = T.run(cr, what, classes)
    rep.count("operators in their surroundings")
    key = "%s:%s:%s" % (op.label, prev.label if prev else "start", "end" if nxt is None else "more")
    for t, s in o:
        if t is None or h.odd:
            rep.undec(key, "what is made of %s is not known (%s)" % (T.show(classes), sorted(h.odd)[:3]))
            continue
        if t == "err":
            mine = None
        else:
            mine = [x[0] for x in t if x[1:] == (at,)]
            mine = mine[0] if mine else "nothing"
        if mine is None and (want == "not UnaryOperator" or not standing(classes, left, prev, nxt)):
            rep.ok()
            continue
        good = mine != "UnaryOperator" if want == "not UnaryOperator" else mine == want
        rep.check(good, key, "%s after %s and before %s is %s [%s]" % (
            op.label, prev.label if prev else "the start", nxt.label if nxt else "the end",
            "an error" if mine is None else "read as " + mine, what[0].path),
            {"operator": op.label, "after": prev.label if prev else "the start", "read as": mine})
    return h.asked


def standing(classes, left, prev, nxt):
    """Could every other operator of the sequence be right where it is, so that the whole has no reason to be refused?"""
    return not any(k is not None and k.kind() == "op" for k in (prev, nxt))
