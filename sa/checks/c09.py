"""C09 bounding ranges are the smallest that cover their contents."""
from .kcommon import *

TECHNIQUE = KTECH


def check(R):
    R.rule("bounds", "the bounding range, and the one widened to chapter or book boundaries, has exactly the documented ends")
    sc = []
    for m in ("chap_range", "book_range"):
        sc.append(("bounds", "%s of a verse" % m) + one(m, "verse"))
        sc.append(("bounds", "%s of a range" % m) + one(m, "range"))
    for m in ("range", "chap_range", "book_range"):
        for n in ((1, 2, 3) if R.tier == "quick" else (1, 2, 3, 4)):
            sc.append(("bounds", "%s of a list of %d%s" % (m, n, " within a chapter" if n > 2 else "")) + lst(m, n))
    scen(R, sc)


def widen(s, m, a, b, zero):
    if m == "chap_range":
        return s.first_of(a[0], a[1], zero), s.last_of(b[0], b[1])
    if m == "book_range":
        return s.first_of(a[0], None, zero), s.last_of(b[0], None)
    return a, b


def agree(s, c, r, a, b):
    m = c["m"]
    zero = m != "range" and s.fbit(c["f"], "VERSE_0")
    if m != "range" and not zero and s.eq(a[2], 0):
        return              # a verse 0 while verse 0s are not in effect: either reading of "first verse" is accepted
    s.check(r[0] == "ok", lambda: "%s %s" % (m, s.rdescr(r)))
    a, b = widen(s, m, a, b, zero)
    s.same_range(r[1], a, b, m)


def one(m, kind):
    def setup(s):
        kw, f = s.flags()
        a = s.coords("a")
        if kind == "verse":
            return dict(m=m, kw=kw, f=f, a=a, b=a, x=s.verse(a))
        b = s.coords("b")
        s.assume(s.lex_le(a, b))
        return dict(m=m, kw=kw, f=f, a=a, b=b, x=s.range(a, b))

    def run(k, st, c):
        return k.meth(st, c["x"], m, **c["kw"])

    def check(s, c, r):
        agree(s, c, r, c["a"], c["b"])
    return setup, run, check


def lst(m, n):
    def setup(s):
        if m == "range":
            s.set_global(s.flag("g"))
            kw, f = {}, None
        else:
            kw, f = s.flags()
        ab = []
        at = {}
        if n > 2:           # longer lists: the ends differ in the verse number only
            a = s.coords("at", zero=False)
            at = dict(book=a[0], chap=a[1])
        for i in range(n):
            a = s.coords("a%d" % i, zero=n < 2, **at)
            b = s.coords("b%d" % i, zero=n < 2, **at)
            s.assume(s.lex_le(a, b))
            ab.append((a, b))
        rs = [s.range(a, b) for a, b in ab]
        return dict(m=m, kw=kw, f=f, ab=ab, x=s.rlist([rs]))

    def run(k, st, c):
        return k.meth(st, c["x"], m, **c["kw"])

    def check(s, c, r):
        a, b = c["ab"][0]
        for x, y in c["ab"][1:]:
            if s.lex_lt(x, a):
                a = x
            if s.lex_lt(b, y):
                b = y
        agree(s, c, r, a, b)
    return setup, run, check
