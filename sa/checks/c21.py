"""C21 every book name is recognised and none is ambiguous."""
from .common import *
from .. import canon, larkai
from ..rx import Lang, witness, overlaps, Unsupported

TECHNIQUE = ("regular-language analysis of the pattern constants each book carries (automata built from the source's patterns: membership, pairwise disjointness) and "
             "abstract interpretation of the look-up with an unknown string, recording which pattern decides which result")


def apply(tr, text):
    for m, args in tr:
        text = getattr(text, m)(*args)
    return text


def key(o, m, arg):
    """(pattern, flags, method, transforms of the looked-up string), or None when not known"""
    a = arg.one()
    if o.x is None or o.x[0] is None or a is None or a[0] != "s" or len(a[1]) != 1 or isinstance(a[1][0], str) or a[1][0][1] != "raw":
        return None
    return (o.x[0], o.x[1], m, a[1][0][2:])


def grammar(h):
    """the grammar handed to the parser at the default separators"""
    got = []

    def hook(st, o, args, node):
        got.append((st, o))
        return None
    h.I.hooks["parse"] = hook
    try:
        h.call(h.state(), mk(("o", h.cls("BibleRangeList"))), [VSTR], {}, "gr")
    finally:
        h.I.hooks.pop("parse", None)
    for st, o in got:
        v = o.f.get("grammar") or (o.x if isinstance(o.x, V) else None)
        if v is not None:
            t = larkai.grammar_text(v)
            if t is not None:
                return larkai.Grammar(*t)
    return None


def term_regex(g, name, depth=0):
    if depth > 5:
        raise Unsupported("nested terminals")
    if name in g.imports or name not in g.terms:
        r = {"INT": "[0-9]+", "DIGIT": "[0-9]", "WS": "[ \\t\\f\\r\\n]+", "LETTER": "[A-Za-z]", "WORD": "[A-Za-z]+"}.get(name)
        if r is None:
            raise Unsupported("terminal %s" % name)
        return r

    def item(it):
        if it[0] == "re":
            return "(?:%s)" % it[1] if not it[2] else "(?%s:%s)" % (it[2], it[1])
        if it[0] == "lit":
            import re
            return re.escape(it[1])
        if it[0] == "sym":
            return "(?:%s)" % term_regex(g, it[1], depth + 1)
        if it[0] == "grp":
            return "(?:%s)" % "|".join("".join(map(item, seq)) for seq, _ in it[1])
        if it[0] == "rep":
            return "(?:%s){%s,%s}" % (item(it[1]), it[2], "" if it[3] is None else it[3])
        raise Unsupported(it[0])
    return "|".join("".join(map(item, seq)) for seq, _ in g.terms[name])


def check(R):
    h = H(books="each", K=400)
    I = h.I
    I.phase = "run"
    R.rule("names", "each book's title, abbreviation and listed alternatives, in every letter case and also printed without spaces, lead to that book in every state of the look-up")
    R.rule("disjoint", "no string is matched in full by the patterns of two books")
    R.rule("lookup", "a book is only returned for strings its own pattern matches in full, after surrounding white space is removed")
    R.rule("unknown", "a string no pattern matches gives no book, or the invalid-reference error when an error is asked for")
    R.rule("token", "the book part of the reference grammar admits every name the package prints")
    st0 = h.state()
    n = len(h.lib.books)
    langs, names = [], []
    for b in range(n):
        o = st0.get(h.lib.books[b])
        r = o.f.get("regex")
        r = r.one() if r is not None else None
        ro = st0.get(r[1]) if r is not None and r[0] == "o" else None
        if ro is None or ro.cls != "re" or ro.x[0] is None:
            R.undecided("disjoint", canon.NAMES[b], "the pattern is not a constant")
            langs.append(None)
            continue
        try:
            langs.append(Lang(ro.x[0], ro.x[1]))
        except (Unsupported, Exception) as x:
            R.undecided("disjoint", canon.NAMES[b], x)
            langs.append(None)
    # names from the name table
    tab = None
    try:
        d = I.load_state.get(h.glob("default_name_data", "data").one()[1])
        tab = {}
        for k, v in d.items:
            t = v.one()[1]
            ex = I.load_state.get(t[3].one()[1])
            tab[h.lib.bookidx[k.one()[1]]] = [cst(t[1]), cst(t[0])] + [cst(x) for x in ex.items]
    except (AttributeError, TypeError, KeyError, AnalysisError, IndexError):
        R.undecided("names", "default_name_data", "the table of names is not a constant")
    printed = {}
    for b in range(n):
        o = st0.get(h.lib.books[b])
        pr = []
        for f in ("title", "abbrev"):
            v = o.f.get(f)
            c = cst(v) if v is not None else None
            if c:
                pr += [c, c.replace(" ", "")]
        printed[b] = list(dict.fromkeys(pr))
    # pairwise disjointness
    idx = [b for b in range(n) if langs[b] is not None]
    try:
        ov = overlaps([langs[b] for b in idx])
        for (i, j), w in sorted(ov.items()):
            R.bad("disjoint", "data of %s and %s" % (canon.NAMES[idx[i]], canon.NAMES[idx[j]]),
                  "%r is matched by the patterns of both books" % w, key="disjoint|%s|%s" % (canon.NAMES[idx[i]], canon.NAMES[idx[j]]))
        R.count("pattern pairs", len(idx) * (len(idx) - 1) // 2)
        if not ov:
            for i in range(len(idx)):
                R.good("disjoint", "pattern of %s shares no string with any other" % canon.NAMES[idx[i]])
    except Unsupported as x:
        R.undecided("disjoint", "all patterns", x)
    # the look-up with an unknown string
    lang_cache = {}

    def lang(k):
        if k[:3] not in lang_cache:
            lang_cache[k[:3]] = Lang(*k[:3])
        return lang_cache[k[:3]]
    keys = {}

    def hook(st, o, m, args, node):
        if m not in ("fullmatch", "match", "search") or not args:
            return None
        k = key(o, m, args[0])
        if k is None:
            return None
        s = keys.setdefault(k, "re:%04d" % len(keys))
        if s in st.bits:
            if not st.bits[s]:
                return [(st, VNONE)]
            return [(st, mk(("o", I.alloc(st, node, Obj("match", x=None), key="match"))))]
        s2 = st.copy()
        s2.bits[s] = False
        st.bits[s] = True
        return [(st, mk(("o", I.alloc(st, node, Obj("match", x=None), key="match")))), (s2, VNONE)]
    raw = mk(("s", (("h", "raw"),)))
    for err in (False, True):
        fresh(h)
        I.hooks["re"] = hook
        try:
            rs, raised = h.meth(h.state(), mk(("o", h.cls("BibleBook"))), "from_str", [raw], {"raise_error": vbool(err)}, "fs%d" % err)
        except Incomplete as x:
            R.undecided("names", "look-up", x)
            continue
        finally:
            I.hooks.pop("re", None)
        inv = {v: k for k, v in keys.items()}
        decide(R, h, rs, raised, inv, lang, langs, tab, printed, err)
    # grammar
    try:
        h2 = H(K=1, coarse=True)
        h2.I.phase = "run"
        fresh(h2)
        g = grammar(h2)
        if g is None:
            raise Unsupported("the grammar is not a constant")
        tm = [t for t in g.terms if "BOOK" in t.upper()]
        if len(tm) != 1:
            raise Unsupported("no terminal for book names")
        L = Lang(term_regex(g, tm[0]), 0)
        for b in range(n):
            for nm in printed[b]:
                if L.has(nm):
                    R.good("token", "%r is a %s" % (nm, tm[0]))
                else:
                    R.bad("token", "terminal %s" % tm[0], "the name %r of %s is not admitted as the book part of a reference" % (nm, canon.NAMES[b]), key="token|%s|%s" % (tm[0], canon.NAMES[b]))
    except (Unsupported, Incomplete, larkai.GrammarError, AnalysisError) as x:
        R.undecided("token", "grammar", x)


def cst(v):
    a = v.one()
    return "".join(a[1]) if a is not None and a[0] == "s" and all(isinstance(p, str) for p in a[1]) else None


def decide(R, h, rs, raised, inv, lang, langs, tab, printed, err):
    """rs: states of the look-up with the pattern outcomes that lead to them"""
    outs = []
    for s, v in rs:
        a = v.one()
        b = h.lib.bidx(a) if a is not None and a != NONE else (None if a == NONE else False)
        cond = [(inv[k], w) for k, w in s.bits.items() if k in inv]
        outs.append((b, cond, s, v))
    for s, v, node, f in raised:
        cond = [(inv[k], w) for k, w in s.bits.items() if k in inv]
        outs.append((("raise", {cls_name(s, a) for a in v.a}), cond, s, v))
    who = "from_str(raise_error=%s)" % err
    R.count("look-up states", len(outs))
    if any(b is False or isinstance(b, bool) for b, _, _, _ in outs) or any(not c for _, c, _, _ in outs) and len(outs) > 1:
        R.undecided("names", who, "a result does not follow from the patterns")
        return

    def where(text):
        r = []
        m = {}
        for b, cond, _, _ in outs:
            for k, w in cond:
                if k not in m:
                    m[k] = lang(k).has(apply(k[3], text))
                if m[k] != w:
                    break
            else:
                r.append(b)
        return r
    try:
        for b in sorted(printed):
            al = list(dict.fromkeys([x for x in ((tab or {}).get(b) or []) if x] + printed[b]))
            for nm in al:
                for form in dict.fromkeys([nm, nm.lower(), nm.upper(), nm.swapcase(), "  " + nm + " \t"]):
                    got = where(form)
                    if got == [b]:
                        R.good("names", "%r is %s" % (form, canon.NAMES[b]))
                    else:
                        R.bad("names", "BibleBook.from_str", "%r is not recognised as %s (look-up ends in %s)" % (form, canon.NAMES[b], [g if not isinstance(g, int) else canon.NAMES[g] for g in got]),
                              key="names|%s|%s" % (canon.NAMES[b], nm.replace(" ", "_")))
                        break
        for b, cond, s, v in outs:
            if isinstance(b, int):
                if langs[b] is None:
                    continue
                tr = {k[3] for k, w in cond if w}
                w = witness([lang(k) for k, t in cond if t], [langs[b]])
                if w is not None and all(lang(k).has(w) is False for k, t in cond if not t):
                    R.bad("lookup", "BibleBook.from_str", "%r is recognised as %s although the book's pattern does not match all of it" % (w, canon.NAMES[b]), key="lookup|%s" % canon.NAMES[b])
                else:
                    R.good("lookup", "%s is returned only for strings its pattern matches" % canon.NAMES[b])
            elif b is None:
                if err:
                    R.bad("unknown", "BibleBook.from_str", "no error is raised for an unknown name although one is asked for")
                else:
                    R.good("unknown", "%s returns None when no pattern matches" % who)
            else:
                if not err or b[1] != {"InvalidReferenceError"}:
                    R.bad("unknown", "BibleBook.from_str", "%s raises %s" % (who, ", ".join(sorted(b[1]))))
                else:
                    R.good("unknown", "%s raises InvalidReferenceError when no pattern matches" % who)
    except Unsupported as x:
        R.undecided("names", who, x)
