"""C12 verse, chapter and book counts are exact."""
from .kcommon import *

TECHNIQUE = KTECH


def check(R):
    R.rule("verses", "the verse count is the number of verses from the first to the last, verse 0s counted when the flag is in effect or an end is a verse 0")
    R.rule("chapters", "the chapter count is the number of chapters touched, or with whole the number entirely inside")
    R.rule("books", "the book count is the number of books touched, or with whole the number entirely inside")
    R.rule("lists", "the counts of a list are the sums over its ranges, 0 for an empty list")
    R.rule("book", "the verse and chapter counts of every book are those of its chapters")
    sc = []
    for how in ("flags given", "flags omitted"):
        for w in WORLDS:
            sc.append(("verses", "verse count, into %s, %s" % (w, how)) + rng(w, how, "verse_count", None))
            for what in ("chap_count", "book_count"):
                for whole in (False, True):
                    sc.append((what[:4] == "chap" and "chapters" or "books", "%s%s, into %s, %s" % (what, " of whole ones" if whole else "", w, how)) + rng(w, how, what, whole))
        for n in (0, 1, 2) if how == "flags omitted" or R.tier == "thorough" else (0, 1):
            sc.append(("lists", "verse count of a list of %d, %s" % (n, how)) + lst(n, how, "verse_count", None))
            for what in ("chap_count", "book_count"):
                for whole in (False, True):
                    sc.append(("lists", "%s%s of a list of %d, %s" % (what, " of whole ones" if whole else "", n, how)) + lst(n, how, what, whole))
        for i in range(0, NB, 6):
            sc.append(("book", "counts of %s to %s, %s" % (NAMES[i], NAMES[min(i + 5, NB - 1)], how)) + book(range(i, min(i + 6, NB)), how))
    scen(R, sc, budget=12000000)


def given(kw, whole):
    if whole:
        kw = dict(kw, whole=mk(("b", True)))
    return kw


def ends(s, zero, ab):
    """verse 0s are counted; a first verse 1 with only the end a verse 0 is left open"""
    for a, b in ab:
        if not zero and s.eq(b[2], 0) and s.eq(a[2], 1):
            raise Infeasible()


def counted(s, what, whole, zero, path, a, b):
    if what == "verse_count":
        z = zero or s.eq(a[2], 0) or s.eq(b[2], 0)
        return norm(num.add(distance(s, a, b, path, z), 1))
    if what == "chap_count":
        cs = path
        first = lambda p: s.first_of(p[0], p[1], zero)
        last = lambda p: s.last_of(p[0], p[1])
    else:
        cs = [path[0]] + [q for p, q in zip(path, path[1:]) if not s.eq(p[0], q[0])]
        first = lambda p: s.first_of(p[0], None, zero)
        last = lambda p: s.last_of(p[0], None)
    if not whole:
        return len(cs)
    n = 0
    for i, p in enumerate(cs):
        if s.lex_le(a, first(p)) and s.lex_le(last(p), b):
            n += 1
    return n


def rng(w, how, what, whole):
    def setup(s):
        f, kw = both(s, how)
        zero = s.fbit(f, "VERSE_0")
        k, c = chapter(s, "a")
        path = reach(s, k, c, w)
        a = verse_in(s, "a", k, c)
        b = verse_in(s, "b", *path[-1])
        s.assume(s.lex_le(a, b))
        if whole:
            ends(s, zero, [(a, b)])
        return dict(kw=given(kw, whole), zero=zero, path=path, a=a, b=b, x=s.range(a, b))

    def run(k, st, c):
        return k.meth(st, c["x"], what, **c["kw"])

    def check(s, c, r):
        a, b = c["a"], c["b"]
        label = "%s%s of %s-%s" % (what, " of whole ones" if whole else "", s.show(a), s.show(b))
        s.check(r[0] == "ok", lambda: "%s %s" % (label, s.rdescr(r)))
        x = s.intval(r[1])
        e = counted(s, what, whole, c["zero"], c["path"], a, b)
        s.check(x is not None and s.eq(x, e), lambda: "%s %s, documented is %s" % (label, s.rdescr(r), s.shown(e)))
    return setup, run, check


def lst(n, how, what, whole):
    def setup(s):
        f, kw = both(s, how)
        zero = s.fbit(f, "VERSE_0")
        ab = []
        for i in range(n):
            k, c = chapter(s, "a%d" % i)
            a = verse_in(s, "a%d" % i, k, c)
            b = verse_in(s, "b%d" % i, k, c)
            s.assume(s.le(a[2], b[2]))
            if i:
                s.assume(s.le(1, a[2]))
            ab.append((a, b))
        if whole:
            ends(s, zero, ab)
        x = s.rlist([[s.range(a, b) for a, b in ab]] if n else [])
        return dict(kw=given(kw, whole), zero=zero, ab=ab, x=x)

    def run(k, st, c):
        return k.meth(st, c["x"], what, **c["kw"])

    def check(s, c, r):
        label = "%s%s of the list %s" % (what, " of whole ones" if whole else "", ", ".join("%s-%s" % (s.show(a), s.show(b)) for a, b in c["ab"]))
        s.check(r[0] == "ok", lambda: "%s %s" % (label, s.rdescr(r)))
        x = s.intval(r[1])
        e = 0
        for a, b in c["ab"]:
            e = num.add(e, counted(s, what, whole, c["zero"], [a[:2]], a, b))
        e = norm(num.lin(e)) if isinstance(e, int) else norm(e)
        s.check(x is not None and s.eq(x, e), lambda: "%s %s, documented is %s" % (label, s.rdescr(r), s.shown(e)))
    return setup, run, check


def book(ks, how):
    def setup(s):
        f, kw = both(s, how)
        zero = s.fbit(f, "VERSE_0")
        i = s.pick("book", list(ks))
        m = s.pick("count", ["verse_count", "chap_count"])
        return dict(i=i, m=m, zero=zero, kw=kw if m == "verse_count" else {}, x=s.book(i))

    def run(k, st, c):
        return k.meth(st, c["x"], c["m"], **c["kw"])

    def check(s, c, r):
        i = c["i"]
        label = "%s of %s with verse 0s %s" % (c["m"], NAMES[i], "counted" if c["zero"] else "not counted")
        s.check(r[0] == "ok", lambda: "%s %s" % (label, s.rdescr(r)))
        x = s.intval(r[1])
        e = len(MAXV[i]) if c["m"] == "chap_count" else sum(MAXV[i]) + (len(VZERO[i]) if c["zero"] else 0)
        s.check(x is not None and s.eq(x, e), lambda: "%s %s, documented is %d" % (label, s.rdescr(r), e))
    return setup, run, check
