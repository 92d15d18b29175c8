"""C06 range set operations and predicates are exact."""
from .kcommon import *

TECHNIQUE = KTECH
OPS = {"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub, "sym_difference": ast.BitXor}


def check(R):
    R.rule("predicates", "is-disjoint, is-adjacent, contains (and `in`) and surrounds answer according to the verses of the two operands")
    R.rule("sets", "union, intersection, difference and symmetric difference return exactly the documented ranges, ascending, and never fail")
    sc = []
    for kind in ("verse", "range"):
        for m in ("is_disjoint", "is_adjacent", "contains", "in", "surrounds"):
            sc.append(("predicates", "%s a %s" % (m, kind)) + pred(m, kind))
        for m in OPS:
            for rel in ("below", "above", "over its start", "inside", "sharing a start") if kind == "range" else (None,):
                for how in ("flags given", "flags omitted", "operator"):
                    for w in ("one chapter", "one book", "several books"):
                        if how != "flags given" and w != "one chapter" and kind == "range" and R.tier == "quick":
                            continue
                        sc.append(("sets", "%s with a %s%s, %s, %s" % (m, kind, " " + rel if rel else "", w, how)) + sets(m, kind, w, how, rel))
    R.rule("verse 0 ends", "a range that starts or ends at a verse 0 keeps it, and counts verse 0s, also while they are not in effect")
    for kind in ("verse", "range"):
        for m in ("intersection", "difference", "sym_difference"):
            for rel in ("over its start", "inside", "sharing a start") if kind == "range" else (None,):
                for w in ("one chapter", "one book") if R.tier == "quick" else ("one chapter", "one book", "several books"):
                    if (w, rel) == ("one chapter", "over its start"):
                        continue
                    sc.append(("verse 0 ends", "%s with a %s%s, %s" % (m, kind, " " + rel if rel else "", w)) + sets(m, kind, w, "flags given", rel, ends=True))
    scen(R, sc, budget=12000000 if R.tier == "quick" else 60000000)


def inputs(s, kind, world=None, rel=None, ends=False):
    """range a-b and range c-d (or verse c); operands exist under the flags in effect"""
    f = s.flag("g")
    zero = s.fbit(f, "VERSE_0")
    if ends:
        s.assume(not zero)
        zero = True
    if world == "one book":
        k = s.int("book", 0, NB - 1, "book")
        at = dict(book=k)
    elif world == "one chapter":
        k = s.int("book", 0, NB - 1, "book")
        c = s.int("chapter", 1, None, "chap")
        s.assume_le(c, s.nc(k))
        at = dict(book=k, chap=c)
    else:
        at = {}
    a, b = s.coords("a", zero=zero, **at), s.coords("b", zero=zero, **at)
    s.assume(s.lex_le(a, b))
    c = s.coords("c", zero=zero, **at)
    if kind == "verse":
        d = c
    else:
        d = s.coords("d", zero=zero, **at)
        s.assume(s.lex_le(c, d))
    if rel == "above":
        s.assume(s.lex_lt(b, c))
    elif rel == "below":
        s.assume(s.lex_lt(d, a))
    elif rel == "over its start":
        s.assume(s.lex_lt(c, a))
        s.assume(s.lex_le(a, d))
    elif rel == "inside":
        s.assume(s.lex_lt(a, c))
        s.assume(s.lex_le(c, b))
    elif rel == "sharing a start":
        s.assume(s.lex_eq(a, c))
    if world == "one book":
        s.assume(not (s.eq(a[1], b[1]) and s.eq(b[1], c[1]) and s.eq(c[1], d[1])))
    if world == "several books":
        s.assume(not (s.eq(a[0], b[0]) and s.eq(b[0], c[0]) and s.eq(c[0], d[0])))
    if ends:
        s.assume(s.eq(a[2], 0) or s.eq(b[2], 0))
    x = s.range(a, b)
    y = s.verse(c) if kind == "verse" else s.range(c, d)
    return f, zero, a, b, c, d, x, y


def adjacent(s, a, b, c, d, zero, multi):
    """the end of one is just before the start of the other"""
    if s.lex_lt(b, c):
        n = s.nxt(b, zero, multi)
        return n is not None and s.lex_eq(n, c)
    if s.lex_lt(d, a):
        n = s.nxt(d, zero, multi)
        return n is not None and s.lex_eq(n, a)
    return False


def pred(m, kind):
    def setup(s):
        f, zero, a, b, c, d, x, y = inputs(s, kind)
        kw = {}
        if m == "is_adjacent" and s.pick("flags", [True, False]):
            s.set_global(s.flag("p"))
            kw = {"flags": f}
        else:
            s.set_global(f)
        return dict(f=f, zero=zero, q=(a, b, c, d), x=x, y=y, kw=kw)

    def run(k, st, c):
        if m == "in":
            return k.cmp(st, ast.In, c["y"], c["x"])
        return k.meth(st, c["x"], m, c["y"], **c["kw"])

    def check(s, c, r):
        a, b, x, y = c["q"]
        what = "%s-%s %s %s-%s" % (s.show(a), s.show(b), m, s.show(x), s.show(y))
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        g = s.boolval(r[1])
        s.check(g is not None, lambda: "%s %s" % (what, s.rdescr(r)))
        if m == "is_disjoint":
            e = s.lex_lt(b, x) or s.lex_lt(y, a)
        elif m == "is_adjacent":
            e = adjacent(s, a, b, x, y, c["zero"], s.fbit(c["f"], "MULTIBOOK"))
        elif m in ("contains", "in"):
            e = s.lex_le(a, x) and s.lex_le(y, b)
        else:
            e = s.lex_lt(a, x) and s.lex_lt(y, b)
        s.check(g == e, lambda: "%s answers %s" % (what, g))
    return setup, run, check


def sets(m, kind, world, how, rel, ends=False):
    def setup(s):
        f, zero, a, b, c, d, x, y = inputs(s, kind, world, rel, ends)
        kw = {}
        if how == "flags given":
            s.set_global(s.flag("p"))
            kw = {"flags": f}
        else:
            s.set_global(f)
        return dict(f=f, zero=zero, q=(a, b, c, d), x=x, y=y, kw=kw)

    def run(k, st, c):
        if how == "operator":
            return k.binop(st, OPS[m], c["x"], c["y"])
        return k.meth(st, c["x"], m, c["y"], **c["kw"])

    def check(s, c, r):
        a, b, x, y = c["q"]
        zero = c["zero"]
        what = "%s of %s-%s and %s-%s" % (m, s.show(a), s.show(b), s.show(x), s.show(y))
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        if ends and (s.lex_lt(b, x) or s.lex_lt(y, a)):
            return
        if ends and m == "sym_difference" and not (s.lex_le(a, x) and s.lex_le(y, b)):
            return          # the ends of the union decide, which need not be verse 0s
        got = s.items(r[1])
        s.check(got is not None, lambda: "%s is not a list" % what)
        e = expected(s, m, a, b, x, y, zero, lambda: s.fbit(c["f"], "MULTIBOOK"))
        s.check(len(got) == len(e), lambda: "%s has %d ranges, documented are %d" % (what, len(got), len(e)))
        for i, (g, (p, q)) in enumerate(zip(got, e)):
            s.same_range(g, p, q, "item %d of %s" % (i, what))
    return setup, run, check


def expected(s, m, a, b, c, d, zero, multi):
    disjoint = s.lex_lt(b, c) or s.lex_lt(d, a)
    lo = a if s.lex_le(a, c) else c
    hi = b if s.lex_le(d, b) else d
    if m == "intersection":
        return [] if disjoint else [(c if s.lex_le(a, c) else a, d if s.lex_le(d, b) else b)]
    if m == "union" or m == "sym_difference" and disjoint:
        if not disjoint or adjacent(s, a, b, c, d, zero, multi()):
            return [(lo, hi)]
        return [(a, b), (c, d)] if s.lex_le(a, c) else [(c, d), (a, b)]
    if m == "difference":
        if disjoint:
            return [(a, b)]
        out = []
        if s.lex_lt(a, c):
            out.append((a, s.prv(c, zero, True)))
        if s.lex_lt(d, b):
            out.append((s.nxt(d, zero, True), b))
        return out
    out = []
    ic = c if s.lex_le(a, c) else a
    ib = d if s.lex_le(d, b) else b
    if s.lex_lt(lo, ic):
        out.append((lo, s.prv(ic, zero, True)))
    if s.lex_lt(ib, hi):
        out.append((s.nxt(ib, zero, True), hi))
    return out
