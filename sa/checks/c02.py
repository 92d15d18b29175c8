"""C02 every range runs forward, with the documented end points, in one book by default."""
from .kcommon import *

TECHNIQUE = KTECH


def check(R):
    R.rule("verses", "from a start and an end verse: the ends in reading order, or the multi-book error exactly when the books differ and the flag is not in effect")
    R.rule("positional", "from positional arguments: existing ends in reading order, with the documented meaning of omitted arguments; errors are the documented ones")
    sc = [("verses", "from two verses") + kwargs(), ("verses", "from a range") + copy()]
    for i in range(32):
        m = [bool(i >> j & 1) for j in range(5)]
        sc.append(("positional", "given: " + ", ".join(n for n, g in zip(("book", "chapter", "verse", "end book", "end chapter", "end verse"), [True] + m) if g)) + pos(m))
    scen(R, sc)


def kwargs():
    def setup(s):
        kw, f = s.flags()
        a, b = s.coords("a"), s.coords("b")
        return dict(kw=kw, f=f, a=a, b=b, x=s.verse(a), y=s.verse(b))

    def run(k, st, c):
        return k.new(st, k.Range, start=c["x"], end=c["y"], **c["kw"])

    def check(s, c, r):
        a, b = c["a"], c["b"]
        what = "the range from %s to %s" % (s.show(a), s.show(b))
        if not s.eq(a[0], b[0]) and not s.fbit(c["f"], "MULTIBOOK"):
            s.check(s.is_exc(r, "MultibookRangeNotAllowedError"), lambda: "%s %s although multi-book ranges are not allowed" % (what, s.rdescr(r)))
            return
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        if not s.lex_le(a, b):
            a, b = b, a
        s.same_range(r[1], a, b, what)
    return setup, run, check


def copy():
    def setup(s):
        kw, f = s.flags()
        a, b = s.coords("a"), s.coords("b")
        s.assume(s.lex_le(a, b))
        return dict(kw=kw, a=a, b=b, x=s.range(a, b))

    def run(k, st, c):
        return k.new(st, k.Range, c["x"], **c["kw"])

    def check(s, c, r):
        s.check(r[0] == "ok", lambda: "copying a range %s" % s.rdescr(r))
        s.same_range(r[1], c["a"], c["b"], "the copy")
    return setup, run, check


def pos(mask):
    def setup(s):
        kw, f = s.flags()
        k = s.int("s.book", 0, NB - 1, "book")
        sc = s.int("chapter", None, None, "chap") if mask[0] else None
        sv = s.int("verse", None, None, "verse") if mask[1] else None
        ek = s.int("e.book", 0, NB - 1, "book") if mask[2] else None
        ec = s.int("end chapter", None, None, "chap") if mask[3] else None
        ev = s.int("end verse", None, None, "verse") if mask[4] else None
        args = [mk(("bk", k))] + [VNONE if x is None else vint(x) for x in (sc, sv)] + [VNONE if ek is None else mk(("bk", ek))] + \
               [VNONE if x is None else vint(x) for x in (ec, ev)]
        while args[-1] is VNONE:
            args.pop()
        return dict(kw=kw, f=f, k=k, sc=sc, sv=sv, ek=ek, ec=ec, ev=ev, args=args)

    def run(k, st, c):
        return k.new(st, k.Range, *c["args"], **c["kw"])

    def check(s, c, r):
        zero = s.fbit(c["f"], "VERSE_0")
        k, sc, sv, ec, ev = c["k"], c["sc"], c["sv"], c["ec"], c["ev"]
        ek = k if c["ek"] is None else c["ek"]
        what = "BibleRange with these arguments"
        if r[0] == "ok":
            x = s.rcoords(r[1])
            s.check(x is not None, "no range is constructed")
            s.check(s.lex_le(x[0], x[1]), lambda: "%s runs backwards: %s-%s" % (what, s.show(x[0]), s.show(x[1])))
            s.check(s.exists(x[0], zero) and s.exists(x[1], zero), lambda: "%s has an end that does not exist: %s-%s" % (what, s.show(x[0]), s.show(x[1])))
            s.check(s.eq(x[0][0], x[1][0]) or s.fbit(c["f"], "MULTIBOOK"), lambda: "%s spans books without the multi-book flag" % what)
        else:
            s.check(s.is_exc(r, "InvalidReferenceError", "MultibookRangeNotAllowedError"), lambda: "%s %s" % (what, s.rdescr(r)))
        # end points given in reverse order are swapped, each with the parts it was given
        if c["ek"] is not None and s.lt(ek, k):
            k, sc, sv, ek, ec, ev = ek, ec, ev, k, sc, sv
        elif sc is not None and s.eq(k, ek):
            if ec is not None and s.lt(ec, sc):
                sc, sv, ec, ev = ec, ev, sc, sv
            elif (ec is None or s.eq(ec, sc)) and sv is not None and ev is not None and s.lt(ev, sv):
                sv, ev = ev, sv
        # documented meaning of omitted arguments
        if sc is None and sv is not None:
            return
        c0 = 1 if sc is None else sc
        if not (s.le(1, c0) and s.le(c0, s.nc(k))):
            return
        start = (k, c0, s.minv(k, c0, zero) if sv is None else sv)
        if not s.exists(start, zero):
            return
        if ec is None and ev is None and not any(mask[2:]):
            end = s.last_of(k, sc) if sv is None else start
        elif ec is None and ev is None:
            end = s.last_of(ek, None)
        elif ec is None:
            if not s.eq(k, ek):
                return
            end = (ek, start[1], ev)
        elif ev is None:
            if not (s.le(1, ec) and s.le(ec, s.nc(ek))):
                return
            end = s.last_of(ek, ec)
        else:
            end = (ek, ec, ev)
        if not s.exists(end, zero):
            return
        if not s.lex_le(start, end):
            return          # "not possible to distinguish a swapped start and end from misformed arguments"
        lo, hi = start, end
        if not s.eq(lo[0], hi[0]) and not s.fbit(c["f"], "MULTIBOOK"):
            s.check(s.is_exc(r, "MultibookRangeNotAllowedError"), lambda: "%s %s" % (what, s.rdescr(r)))
            return
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        s.same_range(r[1], lo, hi, what)
    return setup, run, check
