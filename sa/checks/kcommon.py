"""Helpers shared by the zone-mode checks."""
from ..kern import *
from ..par import parallel
from ..canon import TITLES

KTECH = ("relational abstract interpretation: difference-bound (zone) domain over book place, chapter and verse numbers with trace partitioning, Bible tables as "
         "functions closed under congruence; every abstract result is compared with the documented result stated on coordinates")

STECH = ("abstract interpretation with relational (zone) values over every list skeleton up to a bound: items and indices unknown, links tracked exactly; the "
         "list after the operation is compared with the documented result and its link graph with that of a freshly built list")


def same_verse(self, v, x, what):
    y = self.vcoords(v)
    self.check(y is not None, lambda: "%s is not a verse" % what)
    self.check(self.lex_eq(y, x), lambda: "%s is %s, documented is %s" % (what, self.show(y), self.show(x)))


S.same_verse = same_verse


def same_range(self, v, a, b, what):
    y = self.rcoords(v)
    self.check(y is not None, lambda: "%s is not a range" % what)
    self.check(self.lex_eq(y[0], a) and self.lex_eq(y[1], b), lambda: "%s is %s-%s, documented is %s-%s" % ((what,) + tuple(self.show(z) for z in (y[0], y[1], a, b))))


S.same_range = same_range


def scen(R, scenarios, K=20000, maxrounds=14, budget=6000000):
    k = Kern(K=K, maxrounds=maxrounds)

    def one(R, t):
        rule, name, setup, run, check = t
        k.scenario(R, rule, name, setup, run, check, budget)
    parallel(R, scenarios, one)


WORLDS = ("the same chapter", "the next chapter", "the chapter after next", "the next book")


def reach(s, k, c, w):
    """chapters from (k, c) up to and including the one reached"""
    out = [(k, c)]
    if w == "the next book":
        s.assume(s.lt(k, NB - 1))
        s.assume(s.eq(c, s.nc(k)))
        out.append((norm(num.add(k, 1)), 1))
    else:
        for _ in range(WORLDS.index(w)):
            s.assume(s.lt(c, s.nc(k)))
            c = norm(num.add(c, 1))
            out.append((k, c))
    return out


def chapter(s, name):
    k = s.int(name + ".book", 0, NB - 1, "book")
    c = s.int(name + ".chapter", 1, None, "chap")
    s.assume_le(c, s.nc(k))
    return k, c


def verse_in(s, name, k, c):
    """an existing verse of the chapter, verse 0 included"""
    v = s.int(name + ".verse", 0, None, "verse")
    s.assume_le(v, s.mv(k, c))
    if not s.le(1, v):
        s.assume(s.v0(k, c))
    return (k, c, v)


def distance(s, a, b, path, zero):
    """number of verses from a to b along the chapters of path, verse 0s counted when zero"""
    if len(path) == 1:
        return norm(num.sub(b[2], a[2]))
    n = num.sub(s.mv(a[0], a[1]), a[2])
    for k, c in path[1:-1]:
        n = num.add(num.add(n, s.mv(k, c)), 1 - s.minv(k, c, zero))
    n = num.add(num.add(n, b[2]), 1 - s.minv(b[0], b[1], zero))
    return norm(n)


def both(s, how):
    """flags in effect, given or omitted"""
    f = s.flag("g")
    if how == "flags given":
        s.set_global(s.flag("p"))
        return f, {"flags": f}
    s.set_global(f)
    return f, {}
