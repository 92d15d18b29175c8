"""C23 printing a reference and parsing it back yields the same reference."""
from .kcommon import *
from .klists import after
from ..shape import by_group

TECHNIQUE = ("relational abstract interpretation of printing composed with parsing: the printed form is a string of constant characters, unknown numbers and unknown book names; it is "
             "parsed with the grammar read from the source, the semantic actions are interpreted on the parse tree, and the result is compared with the original for all values at once")

FORMS = {"plain": {}, "abbreviated": dict(abbrev=True), "alternate separator": dict(alt_sep=True), "without spaces": dict(nospace=True),
         "abbreviated without spaces, alternate separator": dict(abbrev=True, alt_sep=True, nospace=True),
         "explicit start verses": dict(force_start_verses=True),
         "abbreviated without spaces, alternate separator, explicit start verses": dict(abbrev=True, alt_sep=True, nospace=True, force_start_verses=True)}
NEAR = ("the same chapter", "the next chapter", "another chapter", "an earlier chapter", "the next book", "a later book", "an earlier book")


def check(R):
    R.rule("verse", "a printed verse parses to the same verse")
    R.rule("range", "a printed range parses to the same range, in one item")
    R.rule("list", "a printed list parses to the same ranges in the same groups")
    q = R.tier == "quick"
    sc = []
    for form in FORMS:
        if "start verses" not in form:
            sc.append(("verse", "a verse, %s" % form) + verse(form))
        for w in ("within a chapter", "into another chapter", "into another book"):
            for back in ("range", "list"):
                if back == "list" and q and form != "plain":
                    continue
                sc.append(("range", "a range %s read back as a %s, %s" % (w, back, form)) + rng(form, w, back))
    for form in ("plain", "explicit start verses", "abbreviated without spaces, alternate separator") if q else FORMS:
        for sk in ((2,), (1, 1)):
            for w1 in ("within a chapter", "into the next chapter", "into the next book"):
                for w2 in ("within a chapter", "into the next chapter", "into the next book"):
                    for near in NEAR:
                        if near == "an earlier chapter" and w1 == "into the next book":
                            continue        # (not earlier in the same book)
                        inner = (w1, w2) == ("within a chapter", "within a chapter")
                        if q and (form != "plain" and not (inner and near in NEAR[:2] + NEAR[4:5]) or near in ("an earlier chapter", "a later book", "an earlier book") and not (inner and sk == (2,) or near == "an earlier chapter" and (w1, w2) == ("into the next chapter", "within a chapter")) or
                                  near == "another chapter" and "book" in w1 + w2):
                            continue
                        for zero in (False, True):
                            if zero and q and (form != "plain" or "next" in w1 + w2 or "book" in near):
                                continue
                            sc.append(("list", "%s items, one %s, then in %s one %s%s, %s" % ("+".join(map(str, sk)), w1, near, w2, ", verse 0s in effect" if zero else "", form)) +
                                      lst(form, sk, w1, near, w2, zero))
    scen(R, sc, budget=12000000 if q else 60000000)


def options(form):
    return {k: mk(("b", v)) for k, v in FORMS[form].items()}


def verse(form):
    def setup(s):
        f, kw = both(s, "flags given")
        a = s.coords("a", zero=s.fbit(f, "VERSE_0"))
        return dict(a=a, x=s.verse(a), f=f)

    def run(k, st, c):
        out = []
        for s1, r in k.meth(st, c["x"], "str", **options(form)):
            if r[0] != "ok":
                out.append((s1, r))
            else:
                out.extend(k.new(s1, k.Verse, r[1], flags=c["f"]))
        return out

    def check(s, c, r):
        what = "printing %s and parsing it" % s.show(c["a"])
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        s.same_verse(r[1], c["a"], "the result of %s" % what)
    return setup, run, check


def to(s, x, w):
    """another chapter, in the same or another book"""
    k, c = x
    if w in ("into another chapter", "another chapter", "an earlier chapter"):
        c2 = s.int("second chapter", 1, None, "chap")
        s.assume_le(c2, s.nc(k))
        s.assume(s.lt(c2, c) if "earlier" in w else s.lt(c, c2))
        return (k, c2)
    if w in ("into another book", "a later book", "an earlier book"):
        k2 = s.int("second book", 0, NB - 1, "book")
        s.assume(s.lt(k2, k) if "earlier" in w else s.lt(k, k2))
        c2 = s.int("second chapter", 1, None, "chap")
        s.assume_le(c2, s.nc(k2))
        return (k2, c2)
    return after(s, x, w)


def rng(form, w, back):
    def setup(s):
        f, kw = both(s, "flags given")
        zero = s.fbit(f, "VERSE_0")
        at = chapter(s, "a")
        a = s.coords("p", zero=zero, book=at[0], chap=at[1])
        at = to(s, at, w)
        if w == "into another book":
            s.assume(s.fbit(f, "MULTIBOOK"))
        b = s.coords("q", zero=zero, book=at[0], chap=at[1])
        s.assume(s.lex_le(a, b))
        return dict(a=a, b=b, x=s.range(a, b), f=f)

    def run(k, st, c):
        out = []
        for s1, r in k.meth(st, c["x"], "str", flags=c["f"], **options(form)):
            if r[0] != "ok":
                out.append((s1, r))
            else:
                out.extend(k.new(s1, k.Range if back == "range" else k.List, r[1], flags=c["f"]))
        return out

    def check(s, c, r):
        what = "printing %s-%s and parsing it" % (s.show(c["a"]), s.show(c["b"]))
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        if back == "range":
            s.same_range(r[1], c["a"], c["b"], "the result of %s" % what)
        else:
            got = s.items(r[1])
            s.check(got is not None and len(got) == 1, lambda: "%s does not give a list of one" % what)
            s.same_range(got[0], c["a"], c["b"], "the result of %s" % what)
    return setup, run, check


def lst(form, sk, w1, near, w2, zero):
    def setup(s):
        s.set_global(s.k.h.flag(0))
        multi = "book" in w1 + w2 or s.pick("multibook", [False, True])
        f = s.k.h.flag(s.k.flagnum(MULTIBOOK=multi, VERSE_0=zero))
        at = chapter(s, "a")
        ab = []
        for i, w in enumerate((w1, w2)):
            if i:
                at = to(s, at, near)
            p = s.coords("pr"[i], zero=zero, book=at[0], chap=at[1])
            at = after(s, at, w)
            q = s.coords("qs"[i], zero=zero, book=at[0], chap=at[1])
            s.assume(s.lex_le(p, q))
            ab.append((p, q))
        rs = [s.range(*z) for z in ab]
        return dict(ab=ab, f=f, x=s.rlist([rs] if sk == (2,) else [[r] for r in rs]))

    def run(k, st, c):
        out = []
        for s1, r in k.meth(st, c["x"], "str", flags=c["f"], **options(form)):
            if r[0] != "ok":
                out.append((s1, r))
            else:
                out.extend(k.new(s1, k.List, r[1], flags=c["f"]))
        return out

    def check(s, c, r):
        what = "printing [%s] and parsing it" % ("; " if len(sk) > 1 else ", ").join("%s-%s" % (s.show(p), s.show(q)) for p, q in c["ab"])
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        s.check(s.isa(r[1], s.k.List), lambda: "%s does not give a list" % what)
        gs, _ = by_group(s, r[1])
        s.check(tuple(len(g) for g in gs) == sk, lambda: "%s gives groups of %s items instead of %s" % (what, [len(g) for g in gs], list(sk)))
        for x, (p, q) in zip([x for g in gs for x in g], c["ab"]):
            s.same_range(x, p, q, "an item after %s" % what)
    return setup, run, check
