"""C11 splitting and iterating a range cover it exactly once, in order."""
from .kcommon import *

TECHNIQUE = KTECH


def check(R):
    R.rule("boundaries", "split by chapter and by book gives exactly the consecutive pieces between the boundaries")
    R.rule("numbers", "split by a number of verses gives consecutive pieces of that many verses, the last one with the rest, within chapters or books when they are split too")
    R.rule("iterate", "iterating yields each verse once, in order, verse 0s included when the flag is in effect or an end is a verse 0")
    sc = []
    for how in ("flags given", "flags omitted"):
        for w in WORLDS:
            for by in ((), ("by_chap",), ("by_book",), ("by_book", "by_chap")):
                sc.append(("boundaries", "split %s, into %s, %s" % ("+".join(by) or "by nothing", w, how)) + split(by, w, how))
    for n in (1, 2, 3) if R.tier == "quick" else (1, 2, 3, 4):
        for by in ((), ("by_chap",)):
            for w in WORLDS[:2] + WORLDS[3:]:
                sc.append(("numbers", "split%s in pieces of %d, into %s" % (" by_chap and" if by else "", n, w)) + pieces(n, by, w))
    for w in WORLDS[:2] + WORLDS[3:]:
        for L in (1, 2, 3, 4) if w == WORLDS[0] else (2, 3, 4):
            sc.append(("iterate", "iterate %d verses into %s" % (L, w)) + iterate(L, w))
    scen(R, sc, budget=12000000)


def result(s, r, e, what):
    s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
    got = s.items(r[1])
    s.check(got is not None, lambda: "%s is not a list" % what)
    s.check(len(got) == len(e), lambda: "%s has %d pieces, documented are %d" % (what, len(got), len(e)))
    for i, (g, (p, q)) in enumerate(zip(got, e)):
        s.same_range(g, p, q, "piece %d of %s" % (i, what))


def bounds(s, w, how):
    f, kw = both(s, how)
    zero = s.fbit(f, "VERSE_0")
    k, c = chapter(s, "a")
    path = reach(s, k, c, w)
    a = verse_in(s, "a", k, c)
    b = verse_in(s, "b", *path[-1])
    s.assume(s.lex_le(a, b))
    zero = zero or s.eq(a[2], 0) or s.eq(b[2], 0)
    return kw, zero, path, a, b


def split(by, w, how):
    def setup(s):
        kw, zero, path, a, b = bounds(s, w, how)
        for x in by:
            kw[x] = mk(("b", True))
        return dict(kw=kw, zero=zero, path=path, a=a, b=b, x=s.range(a, b))

    def run(k, st, c):
        return k.meth(st, c["x"], "split", regroup=mk(("b", False)), **c["kw"])

    def check(s, c, r):
        a, b, path = c["a"], c["b"], c["path"]
        cuts = []
        for (k, ch), (k2, ch2) in zip(path, path[1:]):
            if "by_chap" in by or "by_book" in by and w == "the next book":
                cuts.append(((k, ch, s.mv(k, ch)), (k2, ch2, s.minv(k2, ch2, c["zero"]))))
        e, p = [], a
        for q, n in cuts:
            e.append((p, q))
            p = n
        e.append((p, b))
        result(s, r, e, "split %s of %s-%s" % ("+".join(by), s.show(a), s.show(b)))
    return setup, run, check


def pieces(n, by, w):
    """a range of up to 2n+1 verses, given by its length"""
    def setup(s):
        f, kw = both(s, "flags given")
        zero = s.fbit(f, "VERSE_0")
        k, c = chapter(s, "a")
        path = reach(s, k, c, w)
        a = verse_in(s, "a", k, c)
        zero = zero or s.eq(a[2], 0)
        L = s.pick("length", list(range(1, 2 * n + 2)))
        seq = [a]
        for _ in range(L - 1):
            x = s.nxt(seq[-1], zero, True)
            s.assume(x is not None)
            seq.append(x)
        b = seq[-1]
        s.assume(s.eq(b[0], path[-1][0]) and s.eq(b[1], path[-1][1]))
        s.assume(zero or not s.eq(b[2], 0))
        kw["num_verses"] = vint(n)
        for x in by:
            kw[x] = mk(("b", True))
        return dict(kw=kw, seq=seq, x=s.range(a, b))

    def run(k, st, c):
        return k.meth(st, c["x"], "split", regroup=mk(("b", False)), **c["kw"])

    def check(s, c, r):
        e, cur = [], []
        for i, x in enumerate(c["seq"]):
            if cur and (len(cur) == n or by and not (s.eq(x[1], cur[-1][1]) and s.eq(x[0], cur[-1][0]))):
                e.append((cur[0], cur[-1]))
                cur = []
            cur.append(x)
        e.append((cur[0], cur[-1]))
        result(s, r, e, "split in pieces of %d of %s-%s" % (n, s.show(c["seq"][0]), s.show(c["seq"][-1])))
    return setup, run, check


def iterate(L, w):
    def setup(s):
        f, kw = both(s, "flags omitted")
        zero = s.fbit(f, "VERSE_0")
        k, c = chapter(s, "a")
        path = reach(s, k, c, w)
        a = verse_in(s, "a", k, c)
        # an end that is a verse 0 counts verse 0s as well
        zero = zero or s.eq(a[2], 0) or s.pick("the end is a verse 0", [False, True])
        seq = [a]
        for _ in range(L - 1):
            x = s.nxt(seq[-1], zero, True)
            s.assume(x is not None)
            seq.append(x)
        b = seq[-1]
        s.assume(s.eq(b[0], path[-1][0]) and s.eq(b[1], path[-1][1]))
        s.assume(not zero or s.fbit(f, "VERSE_0") or s.eq(a[2], 0) or s.eq(b[2], 0))
        return dict(seq=seq, x=s.range(a, b))

    def run(k, st, c):
        # the items are read in the check
        return [(st, ("ok", c["x"]))]

    def check(s, c, r):
        what = "iterating %s-%s" % (s.show(c["seq"][0]), s.show(c["seq"][-1]))
        outs = s.k.listed(s.st.copy(), c["x"])
        if not outs:
            raise Infeasible()
        s.st, r = outs[s.choose(len(outs))]
        if not s.st.exact:
            raise Unsure("a value is not known exactly")
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        got = r[1].one()[1]
        s.check(len(got) == len(c["seq"]), lambda: "%s yields %d verses instead of %d" % (what, len(got), len(c["seq"])))
        for g, e in zip(got, c["seq"]):
            s.same_verse(g, e, "a verse of %s" % what)
    return setup, run, check
