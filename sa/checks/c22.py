"""C22 changing a separator takes effect at once in parsing and printing."""
from .common import *
from .. import larkai
from .c21 import cst

TECHNIQUE = ("abstract interpretation of separator assignments with symbolic separators: the grammar text built for the next parse is a template whose holes must be the new "
             "separators in their roles; label propagation from each separator, and from separator-like constants in the source, to the printed text")

ROLES = ["range_sep", "major_list_sep", "minor_list_sep", "verse_sep_std", "verse_sep_alt"]


def hole(role, gen):
    return mk(("s", (("h", "sep", role, gen),)), l=frozenset([role + gen]))


def lits(g, it, out):
    if it[0] == "lit":
        out.append(it[1])
    elif it[0] == "rep":
        lits(g, it[1], out)
    elif it[0] == "grp":
        for seq, _ in it[1]:
            for x in seq:
                lits(g, x, out)
    elif it[0] == "sym" and it[1] in g.terms:
        for seq, _ in g.terms[it[1]]:
            for x in seq:
                lits(g, x, out)
    elif it[0] == "re":
        out.append(("re", it[1]))


def term_lits(g):
    """terminal -> literal alternatives"""
    out = {}
    for t, alts in g.terms.items():
        r = []
        for seq, _ in alts:
            for it in seq:
                lits(g, it, r)
        out[t] = r
    return out


def parse_grammar(h, st, key):
    """grammar of the next parse from st: list of Grammar or None, and the states after it"""
    got = []

    def hook(s, o, args, node):
        got.append(o.f.get("grammar"))
        return None
    h.I.hooks["parse"] = hook
    try:
        rs, raised = h.call(st, mk(("o", h.cls("BibleRangeList"))), [VSTR], {}, key)
    finally:
        h.I.hooks.pop("parse", None)
    gs = []
    for v in got:
        t = larkai.grammar_text(v) if v is not None else None
        gs.append(larkai.Grammar(*t) if t else None)
    return gs, rs


def setsep(h, st, data, role, v):
    I = h.I
    rs, raised = h.drive(st, lambda: I.setattr_v(st, data, role, v, h.node("set" + role)))
    rs = I.merge(rs, 1)
    if len(rs) != 1:
        raise Incomplete("assignment of %s does not complete" % role)
    rs[0].pc = E
    return rs[0]


def check(R):
    h = H(coarse=True)
    I = h.I
    I.phase = "run"
    R.rule("reads back", "after an assignment each separator reads as what was assigned to it, whatever order they are assigned in")
    R.rule("parsing", "the grammar of the next parse uses the new separator in its role and only there, whichever was assigned last and whatever was parsed before")
    R.rule("printing", "the printed text takes each separator from the current setting of its role; no separator-like constant of the source reaches it")
    rs, _ = h.call(h.state(), h.glob("bible_data", ""), [], {}, "bd")
    (s0, data), = rs
    # roles of the terminals, from the defaults
    defaults = {}
    for role in ROLES:
        r, _ = h.getattr(s0.copy(), data, role, "d")
        if len(r) != 1 or not cst(r[0][1]):
            R.undecided("parsing", role, "the default is not a constant")
            return
        defaults[role] = cst(r[0][1])
    try:
        fresh(h)
        gs, rs = parse_grammar(h, s0.copy(), "g0")
        if not gs or None in gs or len(set(defaults.values())) != len(ROLES):
            raise Incomplete("the grammar is not a template")
        base = term_lits(gs[0])
        term = {}
        for role, d in defaults.items():
            ts = [t for t, ls in base.items() if d in ls]
            if len(ts) != 1:
                raise Incomplete("no single terminal for %s" % role)
            term[role] = ts[0]
    except (Incomplete, larkai.GrammarError) as x:
        R.undecided("parsing", "default grammar", x)
        term = None
    used = [s for s, v in I.merge_rv(rs, 1)] if term else []
    for last in ROLES:
        order = [r for r in ROLES if r != last] + [last]
        for prior in ("no parse", "a parse"):
            what = "%s assigned last, %s before it" % (last, prior)
            try:
                fresh(h)
                I.memo.clear()
                I.pmemo.clear()
                st = (used[0] if prior == "a parse" and used else s0).copy()
                st.pc = E
                for r in order[:-1]:
                    st = setsep(h, st, data, r, hole(r, ""))
                if prior == "a parse":
                    _, rr = parse_grammar(h, st.copy(), "g1")
                    rr = I.merge_rv(rr, 1)
                    if rr:
                        st = rr[0][0]
                        st.pc = E
                    I.memo.clear()
                    I.pmemo.clear()
                st = setsep(h, st, data, last, hole(last, ""))
                bad = False
                for r in ROLES:
                    rb, _ = h.getattr(st.copy(), data, r, "rb")
                    for s, v in rb:
                        if v.a != hole(r, "").a:
                            bad = True
                            R.bad("reads back", "bible_data().%s" % r, "%s: %s does not read as what was assigned to it" % (what, r), key="readback|%s" % r)
                if not bad:
                    R.good("reads back", what)
                if term is None:
                    continue
                gs, _ = parse_grammar(h, st.copy(), "g2")
                if not gs or None in gs:
                    R.undecided("parsing", what, "the grammar is not a template")
                    continue
                for g in gs:
                    check_grammar(R, g, term, base, defaults, what)
            except (Incomplete, larkai.GrammarError) as x:
                R.undecided("parsing", what, x)
    printing(R, h, s0, data)


def check_grammar(R, g, term, base, defaults, what):
    tl = term_lits(g)
    by = {}
    for c, p in g.holes.items():
        by[c] = p[2] if len(p) > 2 else None
    bad = False
    for role in ROLES:
        ls = tl.get(term[role])
        want = {r for r in ROLES if term[r] == term[role]}
        if ls is None:
            R.undecided("parsing", what, "terminal %s is gone" % term[role])
            return
        have = set()
        for x in ls:
            if isinstance(x, tuple):
                continue
            rs = {by.get(c) for c in x if c in by}
            if not rs:
                if x in defaults.values():
                    bad = True
                    R.bad("parsing", "terminal %s" % term[role], "%s: parsing still uses %r" % (what, x), key="parsing|%s|old" % term[role])
                continue
            have |= rs
        if have and have != want:
            bad = True
            R.bad("parsing", "terminal %s" % term[role], "%s: the text accepted is that of %s instead of %s" % (what, ", ".join(sorted(map(str, have))), ", ".join(sorted(want))),
                  key="parsing|%s|role" % term[role])
        elif not have and not bad:
            R.undecided("parsing", what, "terminal %s has no literal" % term[role])
    # patterns that leave out the separators must follow them all
    for t, ls in tl.items():
        for x in ls:
            if isinstance(x, tuple):
                hs = {by.get(c) for c in x[1] if c in by}
                olds = [y[1] for y in base.get(t, []) if isinstance(y, tuple)]
                need = {r for r in ROLES if any(("\\" + defaults[r]) in o or defaults[r] in o and defaults[r] not in ".-" for o in olds)}
                if need - hs:
                    bad = True
                    R.bad("parsing", "terminal %s" % t, "%s: the pattern does not follow %s" % (what, ", ".join(sorted(need - hs))), key="parsing|%s|pattern" % t)
    if not bad:
        R.good("parsing", what)


def printing(R, h, s0, data):
    I = h.I
    I.watch = E
    bad = {";", ",", "-", ":", "."}

    def const(n):
        if isinstance(n.value, str) and n.value.strip() in bad and I.phase == "print":
            return V(vstr(n.value).a, frozenset(["K"]))
        return None
    cases = []
    for alt in (False, True):
        vs = "verse_sep_alt" if alt else "verse_sep_std"
        other = "verse_sep_std" if alt else "verse_sep_alt"
        cases.append(("verse", alt, {vs}, {other, "range_sep", "major_list_sep", "minor_list_sep"}))
        cases.append(("range", alt, {vs, "range_sep"}, {other, "major_list_sep", "minor_list_sep"}))
        cases.append(("list", alt, {vs, "range_sep", "major_list_sep", "minor_list_sep"}, {other}))

    def one(R, c):
        kind, alt, want, never = c
        what = "%s.str(alt_sep=%s)" % (kind, alt)
        try:
            fresh(h)
            I.memo.clear()
            I.pmemo.clear()
            st = s0.copy()
            st, ref = {"verse": h.verse, "range": h.range_, "list": h.rlist}[kind](st, "pr")
            st = I.merge([st], 1)[0]
            for r in ROLES:
                st = setsep(h, st, data, r, V(VSTR.a, frozenset([r])))
            I.memo.clear()
            I.pmemo.clear()
            I.phase = "print"
            I.consthook = const
            try:
                kws = [{"alt_sep": vbool(alt)}]
                if kind == "list":
                    kws = [{"alt_sep": vbool(alt), "preserve_groups": vbool(True)}, {"alt_sep": vbool(alt), "preserve_groups": vbool(False)}]
                for kw in kws:
                    rs, raised = h.meth(st.copy(), ref, "str", [], kw, "str")
                    got = set()
                    for s, v in rs:
                        got |= v.l
                    ok = True
                    for r in sorted(want - got):
                        ok = False
                        R.bad("printing", what, "%s does not use the current %s" % (what, r), key="printing|%s|%s" % (kind, r))
                    for r in sorted(never & got):
                        ok = False
                        R.bad("printing", what, "%s uses %s, which has no role there" % (what, r), key="printing|%s|not_%s" % (kind, r))
                    if "K" in got:
                        ok = False
                        R.bad("printing", what, "a constant separator of the source reaches the printed text", key="printing|%s|const" % kind)
                    if ok:
                        R.good("printing", what)
            finally:
                I.consthook = None
                I.phase = "run"
        except Incomplete as x:
            R.undecided("printing", what, x)
    parallel(R, cases, one)
