"""C31 regrouping changes grouping only and separates books and chapters."""
from .kcommon import *
from ..shape import by_group

TECHNIQUE = KTECH


def check(R):
    R.rule("regroup", "the items and their order stay, a range that begins in another book than the one before it ended in, or with a whole chapter or book, starts a group, "
                      "and regrouping again changes nothing")
    sc = []
    for zero in (False, True):
        for w1 in ("within a chapter", "into the next chapter", "into the next book"):
            sc.append(("regroup", "one item %s%s" % (w1, ", verse 0s in effect" if zero else "")) + regroup((1,), w1, None, None, zero))
            for w2 in ("within a chapter", "into the next chapter", "into the next book"):
                if zero and R.tier == "quick" and (w1, w2) != ("within a chapter", "within a chapter"):
                    continue
                for near in ("the same chapter", "the next chapter", "the next book"):
                    for sk in ((2,), (1, 1)) if R.tier != "quick" else ((2,),):
                        sc.append(("regroup", "%s items, one %s, then in %s one %s%s" % ("+".join(map(str, sk)), w1, near, w2, ", verse 0s in effect" if zero else "")) +
                                  regroup(sk, w1, near, w2, zero))
    scen(R, sc, budget=8000000 if R.tier == "quick" else 60000000)


def after(s, x, w):
    """chapter reached from chapter x"""
    k, c = x
    if w in ("within a chapter", "the same chapter"):
        return x
    if w in ("into the next chapter", "the next chapter"):
        s.assume(s.lt(c, s.nc(k)))
        return (k, norm(num.add(c, 1)))
    s.assume(s.lt(k, NB - 1))
    s.assume(s.eq(c, s.nc(k)))
    return (norm(num.add(k, 1)), 1)


def regroup(sk, w1, near, w2, zero):
    def setup(s):
        s.set_global(s.k.h.flag(0))
        fm = s.pick("multibook", [True, False])
        f = s.k.h.flag(s.k.flagnum(MULTIBOOK=fm, VERSE_0=zero))
        k = s.int("a.book", 0, NB - 1, "book")
        c = s.int("a.chapter", 1, None, "chap")
        s.assume_le(c, s.nc(k))
        at = (k, c)
        ab = []
        for i in range(sum(sk)):
            if i:
                at = after(s, at, near)
            p = s.coords("pr"[i], zero=zero, book=at[0], chap=at[1])
            at = after(s, at, (w1, w2)[i])
            q = s.coords("qs"[i], zero=zero, book=at[0], chap=at[1])
            s.assume(s.lex_le(p, q))
            ab.append((p, q))
        rs = [s.range(x, y) for x, y in ab]
        gs, i = [], 0
        for n in sk:
            gs.append(rs[i:i + n])
            i += n
        return dict(f=f, zero=zero, kw={"flags": f}, ab=ab, x=s.rlist(gs))

    def run(k, st, c):
        out = []
        for s1, r in k.meth(st, c["x"], "regroup", **c["kw"]):
            out.append((s1, r))
        return out

    def check(s, c, r):
        what = "regrouping"
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        gs, _ = by_group(s, c["x"])
        flat = [x for g in gs for x in g]
        s.check(len(flat) == len(c["ab"]) and all(gs), lambda: "%s changes the number of items" % what)
        for x, (a, b) in zip(flat, c["ab"]):
            s.same_range(x, a, b, "an item after regrouping")
        if len(c["ab"]) > 1:
            (a, b), (p, q) = c["ab"]
            whole = s.eq(p[2], s.minv(p[0], p[1], c["zero"])) and s.lex_le(s.last_of(p[0], p[1]), q)
            if not s.eq(b[0], p[0]) or whole:
                s.check(len(gs) == 2, lambda: "%s-%s does not start a new group after %s-%s" % (s.show(p), s.show(q), s.show(a), s.show(b)))
        shape = [len(g) for g in gs]
        outs = s.k.meth(s.st.copy(), c["x"], "regroup", **c["kw"])
        if not outs:
            raise Infeasible()
        s.st, r2 = outs[s.choose(len(outs))]
        if not s.st.exact:
            raise Unsure("a value is not known exactly")
        s.check(r2[0] == "ok", lambda: "regrouping again %s" % s.rdescr(r2))
        s.check([len(g) for g in by_group(s, c["x"])[0]] == shape, "regrouping again changes the groups")
    return setup, run, check
