"""C25 verse-0 and verse-1 conversions."""
from .kcommon import *

TECHNIQUE = KTECH
NAMES2 = ["verse_0_to_1", "verse_1_to_0"]


def check(R):
    R.rule("convert", "exactly the intended verses change, whatever the package-wide flags, and the conversion always returns")
    sc = []
    for m in NAMES2:
        sc.append(("convert", "%s of a verse" % m) + verse(m))
        sc.append(("convert", "%s of a range" % m) + range_(m))
        for g in ((), (1,), (2,), (1, 1)):
            sc.append(("convert", "%s of a list with groups of %s" % (m, "+".join(map(str, g)) or "nothing")) + list_(m, g))
    scen(R, sc)


def conv(s, m, x):
    if m == "verse_0_to_1":
        return (x[0], x[1], 1) if s.eq(x[2], 0) else x
    if s.eq(x[2], 1) and s.v0(x[0], x[1]):
        return (x[0], x[1], 0)
    return x


def verse(m):
    def setup(s):
        s.set_global(s.flag("g"))
        x = s.coords("x")
        return dict(x=x, v=s.verse(x))

    def run(k, st, c):
        return k.meth(st, c["v"], m)

    def check(s, c, r):
        s.check(r[0] == "ok", lambda: "%s of %s %s" % (m, s.show(c["x"]), s.rdescr(r)))
        s.same_verse(r[1], conv(s, m, c["x"]), "%s of %s" % (m, s.show(c["x"])))
        s.same_verse(c["v"], c["x"], "the original after %s" % m)
    return setup, run, check


def range_(m):
    def setup(s):
        s.set_global(s.flag("g"))
        a, b = s.coords("a"), s.coords("b")
        s.assume(s.lex_le(a, b))
        return dict(a=a, b=b, r=s.range(a, b))

    def run(k, st, c):
        return k.meth(st, c["r"], m)

    def check(s, c, r):
        what = "%s of %s-%s" % (m, s.show(c["a"]), s.show(c["b"]))
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        ea, eb = conv(s, m, c["a"]), conv(s, m, c["b"])
        if not s.lex_le(ea, eb):
            ea, eb = eb, ea
        s.same_range(r[1], ea, eb, what)
    return setup, run, check


def list_(m, shape):
    def setup(s):
        s.set_global(s.flag("g"))
        gs = []
        for i, n in enumerate(shape):
            gs.append([])
            for j in range(n):
                a, b = s.coords("a%d%d" % (i, j)), s.coords("b%d%d" % (i, j))
                s.assume(s.eq(a[0], b[0]) and s.eq(a[1], b[1]) if sum(shape) > 1 else True)
                s.assume(s.lex_le(a, b))
                gs[-1].append((a, b))
        x = s.rlist([[s.range(a, b) for a, b in g] for g in gs])
        return dict(x=x, gs=gs)

    def run(k, st, c):
        return k.meth(st, c["x"], m)

    def check(s, c, r):
        s.check(r[0] == "ok", lambda: "%s %s" % (m, s.rdescr(r)))
        got = s.groups(c["x"])
        s.check([len(g) for g in got] == [len(g) for g in c["gs"]], lambda: "%s changes the number or grouping of the items" % m)
        for g, h in zip(got, c["gs"]):
            for x, (a, b) in zip(g, h):
                ea, eb = conv(s, m, a), conv(s, m, b)
                if not s.lex_le(ea, eb):
                    ea, eb = eb, ea
                s.same_range(x, ea, eb, "%s: the item for %s-%s" % (m, s.show(a), s.show(b)))
    return setup, run, check
