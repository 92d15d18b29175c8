"""C20 the Bible data is complete, consistent and the standard canon; assignments keep the books in step."""
from .common import *
from .. import canon

TECHNIQUE = ("constant propagation of the module-level tables through the data setters to the values every book exposes, compared entry by entry with an independent "
             "table of the canon; label propagation from newly assigned data to every book attribute and query")


BOOKS = {}


def bk(h, b):
    return mk(("o", h.lib.books[b]))


def const(v):
    """the python constant an abstract value is exactly, or Ellipsis"""
    a = v.one()
    if a is None:
        return ...
    if a == NONE:
        return None
    if a[0] == "n":
        lo, hi = h_itv(a[1])
        return lo if lo is not None and lo == hi else ...
    if a[0] == "b":
        return a[1]
    if a[0] == "s" and a[1] is not None and all(isinstance(p, str) for p in a[1]):
        return "".join(a[1])
    if a[0] == "bk" and a[1] is not None:
        return ("book", a[1])
    if a[0] == "o" and a[1] in BOOKS:
        return ("book", BOOKS[a[1]])
    return ...


def h_itv(x):
    from ..dom import itv_of
    return itv_of(x)


def check(R):
    h = H(books="each")
    I = h.I
    I.phase = "run"
    R.rule("canon", "for every book the exposed title, abbreviation, position, neighbours, chapter count, verse counts and verse-0 chapters are the constants of the canon")
    R.rule("shape", "titles and abbreviations are non-empty, positions are distinct and consecutive, verse counts positive, only existing chapters are marked as having a verse 0")
    R.rule("step", "after new data is assigned, every value a book exposes derives from the new data and none of the old values remains")
    n = canon.NBOOKS
    if len(h.lib.books) != n:
        R.bad("canon", "class BibleBook", "%d books instead of %d" % (len(h.lib.books), n))
        return
    BOOKS.update(h.lib.bookidx)
    V0 = h.flag(2)

    def q(st, b, name, args=(), kw=None):
        rs, raised = h.meth(st.copy(), bk(h, b), name, list(args), kw or {}, "q")
        if raised or len(rs) != 1:
            return None, bool(raised and not rs)
        return const(rs[0][1]), False

    def attr(st, b, name):
        rs, raised = h.getattr(st.copy(), bk(h, b), name, "a")
        return const(rs[0][1]) if len(rs) == 1 and not raised else None

    def one(R, b):
        nm = canon.NAMES[b]
        st = h.state()
        fresh(h)

        def cmp(what, got, want):
            if got is ...:
                R.undecided("canon", "%s %s" % (nm, what), "not a constant")
            elif got != want:
                R.bad("canon", "data of %s" % nm, "%s of %s is %r, the canon has %r" % (what, nm, got, want), key="canon|%s|%s" % (nm, what.replace(" ", "_")))
            else:
                R.good("canon", "%s %s = %r" % (nm, what, got))
        try:
            cmp("title", attr(st, b, "title"), canon.TITLES[b])
            cmp("abbreviation", attr(st, b, "abbrev"), canon.ABBREVS[b])
            cmp("position", attr(st, b, "order"), b)
            for name, want in (("next", b + 1), ("prev", b - 1)):
                cmp(name, q(st, b, name)[0], ("book", want) if 0 <= want < n else None)
            mv = canon.MAXV[b]
            cmp("chapter count", q(st, b, "chap_count")[0], len(mv))
            cmp("first chapter", q(st, b, "min_chap_num")[0], 1)
            cmp("last chapter", q(st, b, "max_chap_num")[0], len(mv))
            for c in range(1, len(mv) + 1):
                cmp("verses of chapter %d" % c, q(st, b, "max_verse_num", [vint(c)])[0], mv[c - 1])
                cmp("first verse of chapter %d" % c, q(st, b, "min_verse_num", [vint(c)], {"flags": V0})[0], 0 if c in canon.VZERO[b] else 1)
                cmp("first verse of chapter %d without verse 0s" % c, q(st, b, "min_verse_num", [vint(c)], {"flags": h.flag(0)})[0], 1)
            for c in (0, -1, len(mv) + 1):
                for name in ("max_verse_num", "min_verse_num"):
                    _, onlyraise = q(st, b, name, [vint(c)])
                    if not onlyraise:
                        R.bad("canon", "BibleBook.%s" % name, "%s(%d) of %s does not raise" % (name, c, nm), key="canon|%s|%s|%d" % (nm, name, c))
                    else:
                        R.good("canon", "%s.%s(%d) raises" % (nm, name, c))
        except Incomplete as x:
            R.undecided("canon", nm, x)
    parallel(R, range(n), one)
    # documented default tables: no entry for an unknown chapter
    try:
        v0 = h.glob("default_verse_0s", "data").one()
        st = I.load_state
        d = st.get(v0[1])
        seen = 0
        for k, s in table(st, d):
            b = BOOKS[k[1]]
            for c in elems(st, s):
                seen += 1
                if not isinstance(c, int) or not 1 <= c <= len(canon.MAXV[b]):
                    R.bad("shape", "default_verse_0s", "chapter %r of %s is marked as having a verse 0 but does not exist" % (c, canon.NAMES[b]))
        if seen:
            R.good("shape", "%d chapters marked as having a verse 0 all exist" % seen)
    except (AnalysisError, TypeError, AttributeError, KeyError) as x:
        R.undecided("shape", "default_verse_0s", x)
    steps(R, h)


def table(st, o):
    """(key atom, value) pairs of a constant dict"""
    if o.cls != "dict" or o.items is None:
        raise TypeError("not a constant dict")
    for k, v in (o.items.items() if isinstance(o.items, dict) else o.items):
        ka = k.one() if isinstance(k, V) else k
        yield ka, v


def elems(st, v):
    o = st.get(v.one()[1])
    for x in o.items:
        yield const(x if isinstance(x, V) else mk(x))


def steps(R, h):
    """labels from assigned data to what the books expose; one label per book, so that a value from another book's entry shows"""
    I = h.I
    rs, _ = h.call(h.state(), h.glob("bible_data", ""), [], {}, "bd")
    (s0, data), = rs
    n = canon.NBOOKS
    I.watch = frozenset("D%d" % b for b in range(n))
    gone = 18            # a book left out of the new data (one that has verse 0s)
    perm = [b for b in reversed(range(n)) if b != gone]
    cases = [("max_verses", ["max_chap_num", "chap_count", ("max_verse_num", 1)]), ("verse_0s", [("min_verse_num", 1)]), ("name_data", ["title", "abbrev", "regex"]),
             ("book_order", ["order", "next", "prev"])]
    for prop, reads in cases:
        st = s0.copy()
        fresh(h)
        I.phase = "input"
        its = []
        for b in range(n):
            if b == gone:
                continue
            L = frozenset(["D%d" % b])
            num = vint(Itv(1, 200), L)
            if prop == "max_verses":
                o = Obj("list", elem=num, ln=vint(Itv(1, 200), L))
            elif prop == "verse_0s":
                o = Obj("set", elem=num, ln=vint(Itv(0, None), L))
            else:
                o = Obj("list", elem=V(VSTR.a, L), ln=vint(Itv(0, None), L))
            oid = I.alloc(st, h.node("D%d" % b), o, key="D%d" % b)
            el = V(frozenset([("o", oid)]), L)
            if prop == "name_data":
                el = V(frozenset([("t", (V(VSTR.a, L), V(VSTR.a, L), vint(Itv(0, 20), L), el))]), L)
            its.append((bk(h, b), el))
        if prop == "book_order":
            d = I.alloc(st, h.node("DD"), Obj("list", items=tuple(bk(h, b) for b in perm)), key="DD")
        else:
            d = I.alloc(st, h.node("DD"), Obj("dict", items=tuple(its)), key="DD")
        I.phase = "run"
        nv = mk(("o", d))
        I.memo.clear()
        I.pmemo.clear()
        try:
            rs, raised = h.drive(st, lambda: I.setattr_v(st, data, prop, nv, h.node("set")))
            rs = I.merge(rs, 1)
            if not rs:
                R.undecided("step", prop, "assignment never completes")
                continue
            for s in rs:
                s.pc = E
                r2, _ = h.getattr(s.copy(), data, prop, "get")
                for s2, v in r2:
                    if any(a != ("o", d) for a in v.a):
                        R.bad("step", "bible_data().%s" % prop, "reading %s back does not give the assigned data" % prop, key="step|%s|get" % prop)
                    else:
                        R.good("step", "%s reads back" % prop)
                for rd in reads:
                    for b in range(n):
                        step1(R, h, s, prop, rd, b, b == gone, perm)
        except Incomplete as x:
            R.undecided("step", prop, x)


def step1(R, h, s, prop, rd, b, gone, perm):
    I = h.I
    name, args = (rd[0], [vint(3 if gone else rd[1])]) if isinstance(rd, tuple) else (rd, [])
    I.memo.clear()
    I.pmemo.clear()
    what = "%s of %s after assigning %s" % (name, canon.NAMES[b], prop)
    key = "step|%s|%s" % (prop, name)
    try:
        if name in ("title", "abbrev", "regex", "order"):
            r2, x2 = h.getattr(s.copy(), bk(h, b), name, "rd")
        else:
            r2, x2 = h.meth(s.copy(), bk(h, b), name, args, {"flags": h.flag(2)} if name == "min_verse_num" else {}, "rd")
    except Incomplete as x:
        R.undecided("step", what, x)
        return
    if prop == "book_order":
        want = {"order": None if gone else perm.index(b)} if name == "order" else {}
        if name in ("next", "prev"):
            i = None if gone else perm.index(b) + (1 if name == "next" else -1)
            want[name] = ("book", perm[i]) if i is not None and 0 <= i < len(perm) else None
        got = const(r2[0][1]) if len(r2) == 1 else ...
        if got is ...:
            R.undecided("step", what, "not a constant")
        elif got != want[name]:
            R.bad("step", "BibleBook.%s" % name, "%s is %r instead of %r" % (what, got, want[name]), key=key)
        else:
            R.good("step", "%s is %r" % (what, got))
        return
    if gone:
        if name in ("title", "abbrev", "regex"):
            if any(a != NONE for _, v in r2 for a in v.a):
                R.bad("step", "BibleBook.%s" % name, "%s keeps an old value although the new data has no entry for the book" % what, key=key)
            else:
                R.good("step", "%s is None" % what)
        elif name in ("max_chap_num", "min_verse_num"):
            want = 0 if name == "max_chap_num" else 1
            got = [const(v) for _, v in r2]
            if len(got) != 1 or got[0] is ...:
                R.undecided("step", what, "not a constant")
            elif got[0] != want:
                R.bad("step", "BibleBook.%s" % name, "%s gives %r although the new data has no entry for the book" % (what, got[0]), key=key)
            else:
                R.good("step", "%s is %r" % (what, want))
        return
    lab = "D%d" % b
    for s4, v in r2:
        lv = set(v.l) | set(s4.pc)
        for oid in s4.reach([v]):
            ob = s4.get(oid)
            if ob is not None and ob.cls not in ("class", "module"):
                for w in ob.values():
                    lv |= w.l
        other = {x for x in lv if x[0] == "D" and x != lab}
        if lab not in lv:
            R.bad("step", "BibleBook.%s" % name, "%s still gives %s, not derived from the new data" % (what, const(v)), key=key)
        elif other and name in ("title", "abbrev"):
            R.bad("step", "BibleBook.%s" % name, "%s derives from the entry of another book" % what, key=key)
        else:
            R.good("step", what)
