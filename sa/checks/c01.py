"""C01 only verses that exist can be constructed."""
from .kcommon import *

TECHNIQUE = KTECH


def check(R):
    R.rule("construct", "a verse is returned exactly when it exists under the flags in effect, with the given parts; otherwise the invalid-reference error is raised")
    R.rule("copy", "a verse made from a verse has the same parts, whatever the flags")
    scen(R, [("construct", "from a book, a chapter and a verse number") + main(None)] +
         [("construct", "from the name %r, a chapter and a verse number" % TITLES[i]) + main(i) for i in (0, 18, 21, 30, 65)] +
         [("copy", "from a verse") + copy()])


def main(named):
    def setup(s):
        kw, f = s.flags()
        k = s.int("b.book", 0, NB - 1, "book") if named is None else named
        c = s.int("b.chapter" if named is None else "chapter", None, None, "chap")
        v = s.int("b.verse" if named is None else "verse", None, None, "verse")
        return dict(kw=kw, f=f, x=(k, c, v))

    def run(k, st, c):
        x = c["x"]
        return k.new(st, k.Verse, mk(("bk", x[0])) if named is None else vstr(TITLES[named]), vint(x[1]), vint(x[2]), **c["kw"])

    def check(s, c, r):
        x = c["x"]
        if s.exists(x, s.fbit(c["f"], "VERSE_0")):
            s.check(r[0] == "ok", lambda: "the existing verse %s %s" % (s.show(x), s.rdescr(r)))
            s.same_verse(r[1], x, "the constructed verse")
        else:
            s.check(s.is_exc(r, "InvalidReferenceError"), lambda: "the verse %s does not exist, but the call %s" % (s.show(x), s.rdescr(r)))
    return setup, run, check


def copy():
    def setup(s):
        kw, f = s.flags()
        x = s.coords("x")
        return dict(kw=kw, x=x, v=s.verse(x))

    def run(k, st, c):
        return k.new(st, k.Verse, c["v"], **c["kw"])

    def check(s, c, r):
        s.check(r[0] == "ok", lambda: "copying %s %s" % (s.show(c["x"]), s.rdescr(r)))
        s.same_verse(r[1], c["x"], "the copy")
    return setup, run, check
