"""C27 first and last verses and book neighbours follow the Bible data."""
from .kcommon import *

TECHNIQUE = KTECH


def check(R):
    R.rule("ends", "first and last verses and verse numbers are those of the tables under the flags in effect; a chapter that does not exist raises the invalid-reference error")
    R.rule("neighbours", "the next and previous books are the neighbours in the reading order, None only at its ends")
    R.rule("ranges", "whole-book, whole-chapter and whole-Bible ranges run from the first to the last verse")
    sc = []
    for m in ("first_verse", "last_verse", "min_verse_num", "max_verse_num", "min_chap_num", "max_chap_num", "chap_count"):
        for on in ("book", "verse"):
            for arg in (False, True):
                if arg and "chap" in m or on == "verse" and m == "chap_count" or on == "book" and m in ("min_verse_num", "max_verse_num") and not arg:
                    continue
                sc.append(("ends", "%s.%s%s" % (on, m, " of a given chapter" if arg else "")) + ends(m, on, arg))
    for m in ("next", "prev"):
        sc.append(("neighbours", "book.%s" % m) + neigh(m))
    for m in ("book.range", "book.chap_range", "verse.chap_range", "verse.book_range", "whole_bible"):
        sc.append(("ranges", m) + rngs(m))
    scen(R, sc)


def ends(m, on, arg):
    def setup(s):
        kw, f = s.flags()
        if on == "book":
            k = s.int("b.book", 0, NB - 1, "book")
            c, o = None, mk(("bk", k))
        else:
            a = s.coords("a")
            k, c = a[0], a[1]
            o = s.verse(a)
        args = []
        if arg:
            c = s.int("chapter", None, None, "chap")
            args = [vint(c)]
        return dict(kw=kw if m in ("first_verse", "min_verse_num") else {}, f=f, k=k, c=c, o=o, args=args)

    def run(k, st, c):
        return k.meth(st, c["o"], m, *c["args"], **c["kw"])

    def check(s, c, r):
        k, ch = c["k"], c["c"]
        what = "%s.%s(%s)" % (on, m, s.shown(ch) if arg else "")
        if m in ("min_chap_num", "max_chap_num", "chap_count"):
            e = 1 if m == "min_chap_num" else s.nc(k)
            s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
            x = s.intval(r[1])
            s.check(x is not None and s.eq(x, e), lambda: "%s %s" % (what, s.rdescr(r)))
            return
        if arg and not (s.le(1, ch) and s.le(ch, s.nc(k))):
            s.check(s.is_exc(r, "InvalidReferenceError"), lambda: "%s %s, but there is no such chapter" % (what, s.rdescr(r)))
            return
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        zero = s.fbit(c["f"], "VERSE_0")
        if m == "first_verse":
            s.same_verse(r[1], s.first_of(k, ch, zero), what)
        elif m == "last_verse":
            s.same_verse(r[1], s.last_of(k, ch), what)
        else:
            e = s.minv(k, ch, zero) if m == "min_verse_num" else s.mv(k, ch)
            x = s.intval(r[1])
            s.check(x is not None and s.eq(x, e), lambda: "%s %s" % (what, s.rdescr(r)))
    return setup, run, check


def neigh(m):
    def setup(s):
        s.set_global(s.flag("g"))
        return dict(k=s.int("b.book", 0, NB - 1, "book"))

    def run(k, st, c):
        return k.meth(st, mk(("bk", c["k"])), m)

    def check(s, c, r):
        s.check(r[0] == "ok", lambda: "%s %s" % (m, s.rdescr(r)))
        e = norm(num.add(c["k"], 1 if m == "next" else -1))
        if not (s.le(0, e) and s.lt(e, NB)):
            s.check(r[1].one() == NONE, lambda: "%s at the end of the order %s" % (m, s.rdescr(r)))
        else:
            if r[1].one() is None:
                raise Unsure("several books")
            s.check(r[1].one() != NONE, lambda: "%s %s" % (m, s.rdescr(r)))
            k = s.bookval(r[1])
            s.check(k is not None and s.eq(k, e), lambda: "%s gives another book" % m)
    return setup, run, check


def rngs(m):
    def setup(s):
        kw, f = s.flags()
        c = dict(kw=kw, f=f, args=[])
        if m == "whole_bible":
            return c
        if m.startswith("book"):
            c["k"] = s.int("b.book", 0, NB - 1, "book")
            c["c"] = None
            c["o"] = mk(("bk", c["k"]))
            if m == "book.chap_range":
                c["c"] = s.int("chapter", None, None, "chap")
                c["args"] = [vint(c["c"])]
        else:
            a = s.coords("a")
            c["o"] = s.verse(a)
            c["k"], c["c"] = a[0], a[1] if m == "verse.chap_range" else None
        return c

    def run(k, st, c):
        if m == "whole_bible":
            return k.meth(st, mk(("o", k.Range)), m, **c["kw"])
        return k.meth(st, c["o"], m.split(".")[1], *c["args"], **c["kw"])

    def check(s, c, r):
        zero = s.fbit(c["f"], "VERSE_0")
        if m == "whole_bible":
            e = s.first_of(0, None, zero), s.last_of(NB - 1, None)
        else:
            k, ch = c["k"], c["c"]
            if m == "book.chap_range" and not (s.le(1, ch) and s.le(ch, s.nc(k))):
                s.check(s.is_exc(r, "InvalidReferenceError"), lambda: "%s of a chapter that does not exist %s" % (m, s.rdescr(r)))
                return
            e = s.first_of(k, ch, zero), s.last_of(k, ch)
        s.check(r[0] == "ok", lambda: "%s %s" % (m, s.rdescr(r)))
        s.same_range(r[1], e[0], e[1], m)
    return setup, run, check
