"""C10 verse arithmetic counts verses exactly."""
from .kcommon import *

TECHNIQUE = KTECH


def check(R):
    R.rule("add", "adding the distance to a verse in the same, next or second next chapter or the next book gives that verse, or None where the flags do not let it be reached")
    R.rule("subtract", "subtracting the distance gives the earlier verse, or None likewise")
    R.rule("difference", "the difference of two verses is the signed distance")
    R.rule("ends", "beyond the end or before the beginning of the book, or of the Bible, the result is None")
    sc = []
    for how in ("flags given", "operator"):
        for w in WORLDS:
            for m in ("add", "subtract", "difference", "negative difference"):
                sc.append((m.split()[-1], "%s, %s, %s" % (m, w, how)) + arith(m, w, how))
        for m in ("add", "subtract"):
            sc.append(("ends", "%s past the end, %s" % (m, how)) + past(m, how))
    scen(R, sc, budget=12000000)


def arith(m, w, how):
    def setup(s):
        f, kw = both(s, how)
        zero = s.fbit(f, "VERSE_0")
        k, c = chapter(s, "a")
        path = reach(s, k, c, w)
        a = verse_in(s, "a", k, c)
        b = verse_in(s, "b", *path[-1])
        s.assume(s.lex_le(a, b))
        multi = s.fbit(f, "MULTIBOOK")
        if m == "add":
            zero = zero or s.eq(a[2], 0)
        elif m == "subtract":
            zero = zero or s.eq(b[2], 0)
        else:
            zero = zero or s.eq(a[2], 0) or s.eq(b[2], 0)
            s.assume(multi or w != "the next book")
        # both ends count as verses
        s.assume(s.exists(a, zero) and s.exists(b, zero))
        n = distance(s, a, b, path, zero)
        return dict(a=a, b=b, n=n, kw=kw, none=w == "the next book" and not multi, x=s.verse(a), y=s.verse(b))

    def run(k, st, c):
        if m == "add":
            x, y, op = c["x"], vint(c["n"]), ast.Add
        elif m == "subtract":
            x, y, op = c["y"], vint(c["n"]), ast.Sub
        elif m == "difference":
            x, y, op = c["y"], c["x"], ast.Sub
        else:
            x, y, op = c["x"], c["y"], ast.Sub
        if how == "operator":
            return k.binop(st, op, x, y)
        return k.meth(st, x, "add" if op is ast.Add else "subtract", y, **c["kw"])

    def check(s, c, r):
        what = "%s of %s and %s" % (m, s.show(c["a"]), s.show(c["b"]))
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        if m in ("add", "subtract"):
            if c["none"]:
                if r[1].one() is None:
                    raise Unsure("the result is not known exactly")
                s.check(r[1].one() == NONE, lambda: "%s %s although other books are not allowed" % (what, s.rdescr(r)))
            else:
                if r[1].one() is None:
                    raise Unsure("the result is not known exactly")
                s.check(r[1].one() != NONE, lambda: "%s answers None" % what)
                s.same_verse(r[1], c["b"] if m == "add" else c["a"], "%s the distance %s %s" % (m, "from" if m == "add" else "of", what))
        else:
            x = s.intval(r[1])
            e = c["n"] if m == "difference" else norm(num.scale(num.lin(c["n"]), -1))
            s.check(x is not None and s.eq(x, e), lambda: "%s %s, documented is %s" % (what, s.rdescr(r), s.shown(e)))
    return setup, run, check


def past(m, how):
    def setup(s):
        f, kw = both(s, how)
        zero = s.fbit(f, "VERSE_0")
        multi = s.fbit(f, "MULTIBOOK")
        k = s.int("a.book", 0, NB - 1, "book")
        if multi:
            s.assume(s.eq(k, NB - 1 if m == "add" else 0))
        c = s.nc(k) if m == "add" else 1
        a = verse_in(s, "a", k, c)
        more = s.int("beyond", 1, None)
        if m == "add":
            n = num.add(num.sub(s.mv(k, c), a[2]), more)
        else:
            zero = zero or s.eq(a[2], 0)
            s.assume(s.exists(a, zero))
            n = num.add(num.sub(a[2], s.minv(k, c, zero)), more)
        return dict(a=a, n=norm(n), kw=kw, x=s.verse(a))

    def run(k, st, c):
        if how == "operator":
            return k.binop(st, ast.Add if m == "add" else ast.Sub, c["x"], vint(c["n"]))
        return k.meth(st, c["x"], m, vint(c["n"]), **c["kw"])

    def check(s, c, r):
        what = "%s past the end from %s" % (m, s.show(c["a"]))
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        if r[1].one() is None:
            raise Unsure("the result is not known exactly")
        s.check(r[1].one() == NONE, lambda: "%s %s" % (what, s.rdescr(r)))
    return setup, run, check
