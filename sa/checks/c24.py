"""C24 books, verses and ranges are totally ordered in reading order."""
from .kcommon import *

TECHNIQUE = KTECH
OPS = {"<": (ast.Lt, lambda c: c < 0), "<=": (ast.LtE, lambda c: c <= 0), ">": (ast.Gt, lambda c: c > 0), ">=": (ast.GtE, lambda c: c >= 0),
       "==": (ast.Eq, lambda c: c == 0), "!=": (ast.NotEq, lambda c: c != 0)}


def check(R):
    R.rule("order", "each comparison operator answers exactly as the lexicographic order of the parts prescribes")
    R.rule("foreign", "an ordering comparison with a value of another type raises a type error, and equality with it is False")
    sc = []
    for op in OPS:
        sc.append(("order", "books %s" % op) + books(op))
        sc.append(("order", "verses %s" % op) + verses(op))
        sc.append(("order", "ranges %s" % op) + ranges(op))
        for x in ("book", "verse", "range"):
            for y in ("book", "verse", "range", "number", "string", "None"):
                if x != y:
                    sc.append(("foreign", "%s %s %s" % (x, op, y)) + foreign(op, x, y))
    scen(R, sc)


def verdict(op, c, s, r, what):
    e = OPS[op][1](c)
    s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
    b = s.boolval(r[1])
    s.check(b == e, lambda: "%s %s, expected %s" % (what, s.rdescr(r), e))


def books(op):
    def setup(s):
        s.set_global(s.flag("g"))
        return dict(a=s.int("a.book", 0, NB - 1, "book"), b=s.int("b.book", 0, NB - 1, "book"))

    def run(k, st, c):
        return k.cmp(st, OPS[op][0], mk(("bk", c["a"])), mk(("bk", c["b"])))

    def check(s, c, r):
        verdict(op, 0 if s.eq(c["a"], c["b"]) else -1 if s.lt(c["a"], c["b"]) else 1, s, r, "comparing two books with %s" % op)
    return setup, run, check


def verses(op):
    def setup(s):
        s.set_global(s.flag("g"))
        a, b = s.coords("a"), s.coords("b")
        return dict(a=a, b=b, x=s.verse(a), y=s.verse(b))

    def run(k, st, c):
        return k.cmp(st, OPS[op][0], c["x"], c["y"])

    def check(s, c, r):
        verdict(op, s.lex_cmp(c["a"], c["b"]), s, r, "%s %s %s" % (s.show(c["a"]), op, s.show(c["b"])))
    return setup, run, check


def ranges(op):
    def setup(s):
        s.set_global(s.flag("g"))
        a, b, c, d = (s.coords(n, zero=False) for n in "abcd")
        s.assume(s.lex_le(a, b))
        s.assume(s.lex_le(c, d))
        return dict(a=a, b=b, c=c, d=d, x=s.range(a, b), y=s.range(c, d))

    def run(k, st, c):
        return k.cmp(st, OPS[op][0], c["x"], c["y"])

    def check(s, c, r):
        verdict(op, s.lex_cmp(c["a"], c["c"]) or s.lex_cmp(c["b"], c["d"]), s, r, "comparing two ranges with %s" % op)
    return setup, run, check


def foreign(op, x, y):
    def setup(s):
        s.set_global(s.flag("g"))
        v = s.verse(s.coords("x", zero=False))
        xx = s.coords("y", zero=False)

        def get(n):
            if n == "book":
                return mk(("bk", xx[0]))
            if n == "verse":
                return v
            if n == "range":
                return s.range(xx, xx)
            return {"number": vint(5), "string": vstr("Gen 1:1"), "None": VNONE}[n]
        return dict(x=get(x), y=get(y))

    def run(k, st, c):
        return k.cmp(st, OPS[op][0], c["x"], c["y"])

    def check(s, c, r):
        if op in ("==", "!="):
            s.check(r[0] == "ok" and s.boolval(r[1]) == (op == "!="), lambda: "comparing a %s with a %s by %s %s" % (x, y, op, s.rdescr(r)))
        else:
            s.check(s.is_exc(r, "TypeError"), lambda: "comparing a %s with a %s by %s %s" % (x, y, op, s.rdescr(r)))
    return setup, run, check
