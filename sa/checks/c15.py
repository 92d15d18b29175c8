"""C15 parsing a string fails only with the documented reference errors."""
from .common import *

TECHNIQUE = ("interprocedural exception-escape analysis by abstract interpretation of the string constructors, with the grammar, the tree callbacks and the wrapping of "
             "callback exceptions modelled; and definedness of the error position")

ALLOWED = {"BibleRangeList": {"BibleRefParsingError"}, "BibleRange": {"BibleRefParsingError", "InvalidReferenceError"}, "BibleVerse": {"BibleRefParsingError", "InvalidReferenceError"}}


def check(R):
    h = H(coarse=True)
    I = h.I
    I.phase = "run"
    R.rule("escape", "an exception that escapes a constructor given a string is the parsing error, or the invalid-reference error of a constructor that needs exactly one verse or range")
    R.rule("position", "every parsing error that escapes carries a start and an end position")
    R.rule("outcome", "a constructor given a string has a normal outcome")
    base = h.cls("BibleRefException", "")
    fc = h.cls("BibleFlag")
    tasks = [(c, f) for c in ALLOWED for f in (None, 0, 1, 2, 3)]

    def one(R, t):
        c, fl = t
        what = "%s(string, flags %s)" % (c, "omitted" if fl is None else ["none", "MULTIBOOK", "VERSE_0", "ALL"][fl])
        fresh(h)
        st = h.state()
        kw = {} if fl is None else {"flags": h.flag(fl)}
        if fl is None:
            m = h.mod(PKG)
            st.put(m, st.get(m).setf("flags", mk(h.lib.flag_sym(fc, "g?"))))
        try:
            rs, raised = h.call(st, mk(("o", h.cls(c))), [VSTR], kw, "parse")
        except Incomplete as x:
            R.undecided("escape", what, x)
            return
        ok = True
        pos = True
        for s, v, n, f in raised:
            w = I.where(n, f)
            for a in v.a:
                name = cls_name(s, a)
                if "/util.py" in w:        # consistency of the linked list: property C16
                    R.count("list_internal_exceptions_left_to_C16")
                    continue
                o = s.get(a[1]) if a[0] == "o" else None
                if name in ALLOWED[c]:
                    if name == "BibleRefParsingError":
                        for k in ("start_pos", "end_pos"):
                            pv = o.f.get(k)
                            if pv is None or NONE in pv.a or any(x[0] not in ("n", "top") for x in pv.a):
                                pos = False
                                R.bad("position", w, "%s: a parsing error without %s escapes" % (what, k), key="position|%s|%s|%s" % (c, f.qual if f else "", k))
                    continue
                if name in ("AttributeError", "TypeError", "IndexError") and "/ref.py" in w and (f is None or f.name == "__init__") and o is not None and o.x == ("implicit",):
                    R.count("implicit_exceptions_of_list_access_left_to_C16")
                    continue
                ok = False
                R.bad("escape", w, "%s: %s escapes" % (what, name), key="escape|%s|%s|%s" % (c, name, f.qual if f else ""))
        if ok:
            R.good("escape", what)
        if pos:
            R.good("position", what)
        if rs:
            R.good("outcome", what)
        else:
            R.bad("outcome", c, "%s can never succeed" % what, key="outcome|%s" % what.replace(" ", "_"))
    parallel(R, tasks, one)
