"""C07 list set operations are exact."""
from .klists import *

TECHNIQUE = KTECH


def check(R):
    R.rule("sets", "union, intersection, difference and symmetric difference of a list with a verse, range or list hold exactly the verses set theory prescribes, as consolidated ranges")
    R.rule("range", "a range combined with a list gives what the one-element list gives")
    R.rule("predicates", "contains, `in` and is-disjoint answer exactly")
    sc = []
    kinds = (("verse", 1), ("range", 1), ("list", 0), ("list", 1), ("list", 2), ("grouped", 2))
    quick = R.tier == "quick"
    for m in SET:
        for na, ka in ((0, "list"), (1, "list"), (2, "list"), (2, "grouped")):
            for kb, nb in kinds:
                if na == 2 and nb == 2 or "grouped" in (ka, kb) and quick:
                    continue
                two = na == 2 or nb == 2
                for rel in RELS if two else (None,):
                    if quick and (kb == "list" and nb == 1 and na == 2 or two and m == "sym_difference" and (rel != "ascending" or kb != "verse") or
                                  m == "difference" and na == 2 and rel == "overlapping" and kb == "range"):
                        continue
                    for how in ("method", "update", "operator"):
                        if how != "method" and two and quick:
                            continue
                        sc.append(("sets", "%s of a %s of %d and a %s%s%s, %s" % (m, ka, na, kb, " of %d" % nb if "verse" != kb != "range" else "", ", %s items" % rel if rel else "", how)) +
                                  sets(m, na, ka, nb, kb, how, rel))
        if not quick:
            for r1 in ("ascending",):
                sc.append(("sets", "%s of a list of 2 and a list of 2, both ascending" % m) + sets(m, 2, "list", 2, "list", "method", r1))
        for how in ("method", "operator"):
            for nb in (0, 1, 2):
                if quick and nb == 2 and (how == "operator" or m == "sym_difference"):
                    continue
                for rel in (("ascending",) if quick else RELS) if nb == 2 else (None,):
                    sc.append(("range", "%s of a range and a list of %d%s, %s" % (m, nb, ", %s items" % rel if rel else "", how)) + sets(m, 1, "range", nb, "list", how, rel))
        for zero in (False, True):
            for w1 in ("within a chapter", "into the next chapter", "into the next book"):
                for w2 in ("the same chapter", "the next chapter", "the next book"):
                    if zero and "next" in w1 and R.tier == "quick":
                        continue
                    for kb in ("verse", "range"):
                        if quick and m == "sym_difference" and kb == "range" and w2 == "the same chapter":
                            continue
                        sc.append(("sets", "%s of a list with a range %s and, from %s, a %s%s" % (m, w1, w2, kb, ", verse 0s in effect" if zero else "")) + crossing(m, w1, w2, kb, zero))
    for m in ("contains", "in", "is_disjoint"):
        for na in (0, 1, 2):
            for kb, nb in kinds[:-1]:
                sc.append(("predicates", "a list of %d %s a %s%s" % (na, m, kb, " of %d" % nb if kb == "list" else "")) + pred(m, na, "list", nb, kb))
        for nb in (0, 1, 2):
            sc.append(("predicates", "a range %s a list of %d" % (m, nb)) + pred(m, 1, "range", nb, "list"))
        for w1 in ("within a chapter", "into the next chapter", "into the next book"):
            for w2 in ("the same chapter", "the next chapter", "the next book"):
                sc.append(("predicates", "a list with a range %s %s a range from %s" % (w1, m, w2)) + pred_crossing(m, w1, w2))
    scen(R, sc, budget=12000000 if R.tier == "quick" else 60000000)


def sets(m, na, ka, nb, kb, how, rel=None):
    def setup(s):
        f, zero, ivs = local(s, na + nb, ["range"] * na + (["verse"] if kb == "verse" else ["range"] * nb), 0 if na == 2 else na, rel)
        if na == nb == 2:
            s.assume_le(num.add(ivs[2][1][2], 2), ivs[3][0][2])
        if how == "operator":
            s.set_global(f)
        return dict(f=f, A=ivs[:na], B=ivs[na:], x=operand(s, ka, ivs[:na]), y=operand(s, kb, ivs[na:]))

    def run(k, st, c):
        return apply(k, st, how, m, c["x"], c["y"], c["f"])

    def check(s, c, r):
        what = "%s of %s and %s" % (m, shown(s, c["A"]), shown(s, c["B"]))
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        listing(s, r[1], Model(s, False, lambda: False).op(m, c["A"], c["B"]), what)
    return setup, run, check


def crossing(m, w1, w2, kb, zero):
    def setup(s):
        f, fm, z, ivs = near(s, w1, w2, "within a chapter", ["range", kb], zero)
        if s.pick("order", [False, True]):
            A, B = ivs[:1], ivs[1:]
            return dict(f=f, fm=fm, A=A, B=B, x=operand(s, "list", A), y=operand(s, kb, B))
        A, B = ivs[1:], ivs[:1]
        return dict(f=f, fm=fm, A=A, B=B, x=operand(s, "list", A), y=operand(s, "range", B))

    def run(k, st, c):
        return apply(k, st, "method", m, c["x"], c["y"], c["f"])

    def check(s, c, r):
        what = "%s of %s and %s" % (m, shown(s, c["A"]), shown(s, c["B"]))
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        listing(s, r[1], Model(s, zero, lambda: c["fm"]).op(m, c["A"], c["B"]), what)
    return setup, run, check


def asked(k, st, m, x, y, f):
    if m == "in":
        return k.cmp(st, ast.In, y, x)
    if m == "contains":
        return k.meth(st, x, m, y, **({"flags": f} if f is not None else {}))
    return k.meth(st, x, m, y)


def verdict(s, M, m, A, B, r):
    what = "%s %s %s" % (shown(s, A), m, shown(s, B))
    s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
    g = s.boolval(r[1])
    s.check(g is not None, lambda: "%s %s" % (what, s.rdescr(r)))
    e = M.disjoint(A, B) if m == "is_disjoint" else all([M.within(y, A) for y in B])
    s.check(g == e, lambda: "%s answers %s" % (what, g))


def pred(m, na, ka, nb, kb):
    def setup(s):
        f, zero, ivs = local(s, na + nb, ["range"] * na + (["verse"] if kb == "verse" else ["range"] * nb))
        if m == "in":
            s.set_global(f)
        return dict(f=None if ka == "range" else f, A=ivs[:na], B=ivs[na:], x=operand(s, ka, ivs[:na]), y=operand(s, kb, ivs[na:]))

    def run(k, st, c):
        return asked(k, st, m, c["x"], c["y"], c["f"])

    def check(s, c, r):
        verdict(s, Model(s, False, lambda: False), m, c["A"], c["B"], r)
    return setup, run, check


def pred_crossing(m, w1, w2):
    def setup(s):
        f, fm, z, ivs = near(s, w1, w2, "within a chapter", ["range", "range"], False)
        if m == "in":
            s.set_global(f)
        if s.pick("order", [False, True]):
            ivs = ivs[::-1]
        return dict(f=f, fm=fm, A=ivs[:1], B=ivs[1:], x=operand(s, "list", ivs[:1]), y=operand(s, "range", ivs[1:]))

    def run(k, st, c):
        return asked(k, st, m, c["x"], c["y"], c["f"])

    def check(s, c, r):
        verdict(s, Model(s, False, lambda: c["fm"]), m, c["A"], c["B"], r)
    return setup, run, check
