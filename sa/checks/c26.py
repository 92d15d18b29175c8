"""C26 whole-chapter, whole-book and span predicates."""
from .kcommon import *

TECHNIQUE = KTECH
RP = ["is_single_verse", "is_whole_chap", "is_whole_book", "spans_start_chap", "spans_end_chap", "spans_start_book", "spans_end_book"]
VP = ["is_first_in_chap", "is_last_in_chap", "is_first_in_book", "is_last_in_book"]


def check(R):
    R.rule("range", "the predicate is true exactly when the verses of the range are, or include, all verses of the chapter or book under the flags in effect")
    R.rule("verse", "the predicate is true exactly when the verse is the first or last existing verse of the chapter or book under the flags in effect")
    sc = []
    for p in RP:
        sc.append(("range", p) + rng(p))
    for p in VP:
        for arg in (False, True):
            sc.append(("verse", p + (" of another" if arg else "")) + vrs(p, arg))
    scen(R, sc)


def rng(p):
    def setup(s):
        kw, f = s.flags()
        zero = s.fbit(f, "VERSE_0")
        a, b = s.coords("a", zero=zero), s.coords("b", zero=zero)
        s.assume(s.lex_le(a, b))
        return dict(kw={} if p == "is_single_verse" else kw, zero=zero, a=a, b=b, r=s.range(a, b))

    def run(k, st, c):
        return k.meth(st, c["r"], p, **c["kw"])

    def check(s, c, r):
        a, b, zero = c["a"], c["b"], c["zero"]
        what = "%s of %s-%s" % (p, s.show(a), s.show(b))
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        got = s.boolval(r[1])
        if p == "is_single_verse":
            e = s.lex_eq(a, b)
        else:
            k, c0 = (b[0], b[1]) if "end" in p else (a[0], a[1])
            c0 = c0 if "chap" in p else None
            lo, hi = s.first_of(k, c0, zero), s.last_of(k, c0)
            if p.startswith("is_"):
                e = s.lex_eq(a, lo) and s.lex_eq(b, hi)
            else:
                e = s.lex_le(a, lo) and s.lex_le(hi, b)
        s.check(got == e, lambda: "%s answers %s" % (what, got))
    return setup, run, check


def vrs(p, arg):
    def setup(s):
        kw, f = s.flags()
        zero = s.fbit(f, "VERSE_0")
        a = s.coords("a", zero=zero)
        k, c, args = a[0], a[1], []
        if arg and "chap" in p:
            c = s.int("other chapter", 1, None, "chap")
            s.assume_le(c, s.nc(k))
            args = [vint(c)]
        elif arg:
            k = s.int("o.book", 0, NB - 1, "book")
            args = [mk(("bk", k))]
        return dict(kw=kw if "first" in p else {}, zero=zero, a=a, v=s.verse(a), args=args, k=k, c=c if "chap" in p else None)

    def run(k, st, c):
        return k.meth(st, c["v"], p, *c["args"], **c["kw"])

    def check(s, c, r):
        what = "%s of %s" % (p, s.show(c["a"]))
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        got = s.boolval(r[1])
        e = s.lex_eq(c["a"], s.first_of(c["k"], c["c"], c["zero"]) if "first" in p else s.last_of(c["k"], c["c"]))
        s.check(got == e, lambda: "%s answers %s" % (what, got))
    return setup, run, check
