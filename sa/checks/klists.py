"""Scenarios for lists of ranges: documented consolidation and set operations on intervals of verses."""
from .kcommon import *
from .c06 import OPS, inputs

SET = tuple(OPS)
UPD = {"union": "union_update", "intersection": "intersection_update", "difference": "difference_update", "sym_difference": "sym_difference_update"}
AUG = {"union": "|=", "intersection": "&=", "difference": "-=", "sym_difference": "^="}


# ---- the documented results, on intervals (p, q) of coordinates
class Model:
    def __init__(self, s, zero, multi):
        self.s, self.zero, self.multi = s, zero, multi

    def touch(self, b, c):
        """c begins at or before the verse after b"""
        s = self.s
        if s.lex_le(c, b):
            return True
        n = s.nxt(b, self.zero, self.multi())
        return n is not None and s.lex_le(c, n)

    def merge(self, ivs):
        s = self.s
        out = []
        for p, q in ivs:
            i = 0
            while i < len(out) and s.lex_le(out[i][0], p):
                i += 1
            out.insert(i, (p, q))
        res = []
        for p, q in out:
            if res and self.touch(res[-1][1], p):
                if s.lex_lt(res[-1][1], q):
                    res[-1] = (res[-1][0], q)
            else:
                res.append((p, q))
        return res

    def common(self, x, y):
        s = self.s
        p = y[0] if s.lex_le(x[0], y[0]) else x[0]
        q = x[1] if s.lex_le(x[1], y[1]) else y[1]
        return [(p, q)] if s.lex_le(p, q) else []

    def minus(self, x, y):
        s = self.s
        if s.lex_lt(x[1], y[0]) or s.lex_lt(y[1], x[0]):
            return [x]
        out = []
        if s.lex_lt(x[0], y[0]):
            out.append((x[0], s.prv(y[0], self.zero, True)))
        if s.lex_lt(y[1], x[1]):
            out.append((s.nxt(y[1], self.zero, True), x[1]))
        return out

    def op(self, m, A, B):
        if m == "union":
            return self.merge(A + B)
        if m == "intersection":
            return self.merge([z for x in A for y in B for z in self.common(x, y)])
        if m == "difference":
            for y in B:
                A = [z for x in A for z in self.minus(x, y)]
            return self.merge(A)
        return self.op("difference", self.op("union", A, B), self.op("intersection", A, B))

    def within(self, x, A):
        """whether every verse of x is in A"""
        s = self.s
        for p, q in self.merge(A):
            if s.lex_le(p, x[0]) and s.lex_le(x[1], q):
                return True
        return False

    def disjoint(self, A, B):
        s = self.s
        return all(s.lex_lt(x[1], y[0]) or s.lex_lt(y[1], x[0]) for x in A for y in B)


def shown(s, ivs):
    return "[%s]" % ", ".join("%s-%s" % (s.show(p), s.show(q)) for p, q in ivs)


# ---- unknown operands
RELS = ("ascending", "descending", "overlapping")


def local(s, n, kinds, pair=None, rel=None):
    """n intervals in the inner verses of an inner chapter, in any order; items pair and pair+1 may be related"""
    s.set_global(s.k.h.flag(0))
    f = s.k.h.flag(s.k.flagnum(MULTIBOOK=False, VERSE_0=False))
    k = s.int("book", 0, NB - 1, "book")
    c = s.int("chapter", 2, None, "chap")
    s.assume_le(num.add(c, 1), s.nc(k))
    out = []
    for i, kind in enumerate(kinds):
        p = s.int("p%d.verse" % i, 2, None, "verse")
        s.assume_le(num.add(p, 1), s.mv(k, c))
        if kind == "verse":
            q = p
        else:
            q = s.int("q%d.verse" % i, None, None, "verse")
            s.assume_le(p, q)
            s.assume_le(num.add(q, 1), s.mv(k, c))
        out.append(((k, c, p), (k, c, q)))
    if rel is not None:
        (x, y), (z, w) = out[pair], out[pair + 1]
        if rel == "ascending":
            s.assume_le(num.add(y[2], 2), z[2])
        elif rel == "descending":
            s.assume_le(num.add(w[2], 2), x[2])
        else:
            s.assume_le(x[2], num.add(w[2], 1))
            s.assume_le(z[2], num.add(y[2], 1))
    return f, False, out


def near(s, w1, w2, w3, kinds, zero):
    """two intervals, of verses within a chapter, in neighbouring chapters or books, in this order"""
    s.set_global(s.k.h.flag(0))
    fm = s.pick("multibook", [True, False])
    f = s.k.h.flag(s.k.flagnum(MULTIBOOK=fm, VERSE_0=zero))
    k = s.int("p0.book", 0, NB - 1, "book")
    c = s.int("p0.chapter", 1, None, "chap")
    s.assume_le(c, s.nc(k))
    at = (k, c)
    out = []
    for i, kind in enumerate(kinds):
        if i:
            at = after(s, at, w2)
        p = s.coords("pr"[i], zero=zero, book=at[0], chap=at[1])
        if kind == "verse":
            q = p
        else:
            at = after(s, at, (w1, w3)[i])
            q = s.coords("qs"[i], zero=zero, book=at[0], chap=at[1])
            s.assume(s.lex_le(p, q))
        out.append((p, q))
    s.assume(s.lex_le(out[0][0], out[1][0]))
    return f, fm, zero, out


def after(s, x, w):
    k, c = x
    if w in ("within a chapter", "the same chapter"):
        return x
    if w in ("into the next chapter", "the next chapter"):
        s.assume(s.lt(c, s.nc(k)))
        return (k, norm(num.add(c, 1)))
    s.assume(s.lt(k, NB - 1))
    s.assume(s.eq(c, s.nc(k)))
    return (norm(num.add(k, 1)), 1)


def operand(s, kind, ivs):
    if kind == "verse":
        return s.verse(ivs[0][0])
    if kind == "range":
        return s.range(*ivs[0])
    rs = [s.range(*x) for x in ivs]
    if kind == "grouped":
        return s.rlist([[r] for r in rs])
    return s.rlist([rs] if rs else [])


def compare(s, r, e, what):
    s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
    listing(s, r[1], e, what)


def listing(s, v, e, what):
    got = s.items(v)
    s.check(got is not None, lambda: "%s is not a list" % what)
    s.check(len(got) == len(e), lambda: "%s has %d ranges, documented are %d: %s" % (what, len(got), len(e), shown(s, e)))
    for i, (g, (p, q)) in enumerate(zip(got, e)):
        s.same_range(g, p, q, "item %d of %s" % (i, what))


def apply(k, st, how, m, x, y, f):
    """outcomes with the list that holds the result"""
    if how == "method":
        return k.meth(st, x, m, y, flags=f)
    if how == "operator":
        return k.binop(st, OPS[m], x, y)
    out = []
    for s1, r in k.meth(st, x, UPD[m], y, flags=f):
        out.append((s1, ("ok", x) if r[0] == "ok" else r))
    return out
