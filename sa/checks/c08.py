"""C08 merging yields the unique sorted list of disjoint, non-adjacent ranges."""
from .klists import *

TECHNIQUE = KTECH


def check(R):
    R.rule("merge", "merging leaves exactly the same verses, ascending, as ranges no two of which overlap or are adjacent")
    R.rule("books", "ranges in different books are joined only while the multi-book flag is in effect, or when they overlap")
    sc = []
    for n in (0, 1, 2, 3) if R.tier == "quick" else (0, 1, 2, 3, 4):
        sc.append(("merge", "merge %d ranges within a chapter" % n) + merging(n, "list"))
    sc.append(("merge", "merge 2 ranges of different groups within a chapter") + merging(2, "grouped"))
    for zero in (False, True):
        for w1 in ("within a chapter", "into the next chapter", "into the next book"):
            for w2 in ("the same chapter", "the next chapter", "the next book"):
                for w3 in ("within a chapter", "into the next chapter", "into the next book"):
                    if R.tier == "quick" and (zero and w3 != "within a chapter" or "next" in w1 and "next" in w3):
                        continue
                    sc.append(("books" if "book" in w1 + w2 + w3 else "merge", "merge a range %s and, from %s, one %s%s" % (w1, w2, w3, ", verse 0s in effect" if zero else "")) +
                              crossing(w1, w2, w3, zero))
    scen(R, sc, budget=12000000 if R.tier == "quick" else 60000000)


def merging(n, kind):
    def setup(s):
        f, zero, ivs = local(s, n, ["range"] * n)
        return dict(f=f, zero=zero, ivs=ivs, x=operand(s, kind, ivs))

    def run(k, st, c):
        return k.meth(st, c["x"], "merge", flags=c["f"])

    def check(s, c, r):
        what = "merging %s" % shown(s, c["ivs"])
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        listing(s, c["x"], Model(s, c["zero"], lambda: False).merge(c["ivs"]), what)
    return setup, run, check


def crossing(w1, w2, w3, zero):
    def setup(s):
        f, fm, z, ivs = near(s, w1, w2, w3, ["range", "range"], zero)
        if s.pick("order", [False, True]):
            x = operand(s, "list", ivs[::-1])
        else:
            x = operand(s, "list", ivs)
        return dict(f=f, fm=fm, zero=z, ivs=ivs, x=x)

    def run(k, st, c):
        return k.meth(st, c["x"], "merge", flags=c["f"])

    def check(s, c, r):
        what = "merging %s" % shown(s, c["ivs"])
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        listing(s, c["x"], Model(s, c["zero"], lambda: c["fm"]).merge(c["ivs"]), what)
    return setup, run, check
