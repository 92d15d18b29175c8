"""Shape kernels: list operations on every list skeleton up to a bound, with unknown items and unknown indices.

A skeleton fixes only how many items and groups there are; items are unknown numbers (or unknown ranges) related by the comparisons the code makes, indices are
unknown integers.  After the operation the list is read through its public interface in every way (forwards, backwards, by index, by group, lengths) and must read
as the documented result.  Then its representation is compared, link by link, with that of a freshly built list that reads the same: if the two graphs agree, the
operation leads from well-formed lists to well-formed lists and nothing it leaves behind can matter later.  If not, the follow-up operations are applied as well.
"""
from .kern import *


def skeletons(n):
    """all ways to have up to n items in groups"""
    out = [()]
    for m in range(1, n + 1):
        for bits in range(1 << (m - 1)):
            g, cur = [], 1
            for i in range(m - 1):
                if bits >> i & 1:
                    g.append(cur)
                    cur = 1
                else:
                    cur += 1
            out.append(tuple(g + [cur]))
    return out


def name_of(sk):
    return "+".join(map(str, sk)) or "no items"


def glist(s, kind, groups):
    """a freshly built list of the given groups of item values"""
    cls = s.k.List if kind == "range" else s.k.GList
    if not groups:
        return s.build2(cls, [])
    return s.build2(cls, [s.pylist([s.pylist(g, "grp%d" % i) for i, g in enumerate(groups)])])


def build2(self, cls, args):
    k = self.k
    ph = k.I.phase
    k.I.phase = "input"
    self.nb = getattr(self, "nb", 0) + 1
    try:
        rs, raised = k.h.call(self.st, mk(("o", cls)), args, {}, "mk%d.%d" % (self.n, self.nb))
    finally:
        k.I.phase = ph
    if len(rs) != 1 or raised:
        raise Unsure("a list cannot be built exactly")
    self.st, v = rs[0]
    return v


S.build2 = build2


class Ctx:
    """unknown items"""

    def __init__(self, s, kind):
        self.kind = kind
        self.n = 0
        if kind == "range":
            self.bk = s.int("at.book", 0, NB - 1, "book")
            self.ch = s.int("at.chapter", 1, None, "chap")
            s.assume_le(self.ch, s.nc(self.bk))

    def item(self, s, name=None):
        """(value, key)"""
        name = name or "x%d" % self.n
        self.n += 1
        if self.kind == "int":
            a = s.int(name)
            return vint(a), a
        v = s.int(name, 1, None, "verse")
        s.assume_le(v, s.mv(self.bk, self.ch))
        x = (self.bk, self.ch, v)
        return s.range(x, x), v


def key_of(s, kind, v):
    if kind == "int":
        x = s.intval(v)
        return x
    r = s.rcoords(v)
    return None if r is None else r[0][2]


def forwards(s, v):
    return s.seq(v, limit=LIMIT)


def backwards(s, v):
    st, r = one(s.k.h.meth(s.st.copy(), v, "__reversed__", [], {}, "rd"), "the reversed list")
    return s.seq(r, st, limit=LIMIT)


def length(s, v):
    st, r = one(s.k.h.meth(s.st.copy(), v, "__len__", [], {}, "rd"), "the length")
    return s.intval(r)


def by_index(s, v, i):
    st, r = one(s.k.h.meth(s.st.copy(), v, "__getitem__", [vint(i)], {}, "rd"), "the item at index %d" % i)
    return r


def by_group(s, v):
    """items group by group, and the number of groups the list claims"""
    st, gv = one(s.k.h.getattr(s.st.copy(), v, "groups", "rd"), "the groups")
    st1, r = one(s.k.h.meth(st.copy(), gv, "__len__", [], {}, "rd"), "the number of groups")
    return s.seq(gv, st, lambda x, t: s.seq(x, t, limit=LIMIT), limit=LIMIT), s.intval(r)


def in_group(s, v, i, j):
    st, gv = one(s.k.h.getattr(s.st.copy(), v, "groups", "rd"), "the groups")
    st, g = one(s.k.h.meth(st, gv, "__getitem__", [vint(i)], {}, "rd"), "group %d" % i)
    st, r = one(s.k.h.meth(st, g, "__getitem__", [vint(j)], {}, "rd"), "item %d of group %d" % (j, i))
    return r


LIMIT = 12


def same_items(s, kind, got, want, how):
    """values against keys"""
    s.check(len(got) == len(want), lambda: "%s gives %d items instead of %d" % (how, len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        a = key_of(s, kind, a)
        s.check(a is not None and s.eq(a, b), lambda: "%s, item %d is not the expected one" % (how, i))


def keys(s, kind, vals):
    out = []
    for v in vals:
        x = key_of(s, kind, v)
        s.check(x is not None, "the list holds something else than its items")
        out.append(x)
    return out


def consistent(s, v, kind, what):
    """the list reads the same in every way; returns its groups of values"""
    f = keys(s, kind, forwards(s, v))
    n = len(f)
    x = length(s, v)
    s.check(x is not None and s.eq(x, n), lambda: "%s the list has %d items but its length is %s" % (what, n, s.shown(x)))
    same_items(s, kind, backwards(s, v), f[::-1], "%s reading backwards" % what)
    for i in range(-n, n):
        same_items(s, kind, [by_index(s, v, i)], [f[i]], "%s reading at index %d" % (what, i))
    gs, ng = by_group(s, v)
    s.check(ng is not None and s.eq(ng, len(gs)), lambda: "%s there are %d groups but their number is given as %s" % (what, len(gs), s.shown(ng)))
    s.check(all(gs), lambda: "%s a group is empty" % what)
    same_items(s, kind, [x for g in gs for x in g], f, "%s reading group by group" % what)
    for i, g in enumerate(gs):
        for j, x in enumerate(g):
            same_items(s, kind, [in_group(s, v, i, j)], [key_of(s, kind, x)], "%s reading group %d" % (what, i))
    return gs


def one(r, what):
    rs, raised = r
    if raised and not rs and len(raised) == 1 and raised[0][0].exact:
        raise Wrong("reading %s fails" % what)
    if raised or len(rs) != 1:
        raise Unsure("%s is not known exactly" % what)
    if not rs[0][0].exact:
        raise Unsure("%s is not known exactly" % what)
    return rs[0]


def canonical(s, v, kind, vals):
    """does v have the representation of a freshly built list with the same groups of values?"""
    try:
        w = glist(s, kind, vals)
    except Unsure:
        return False
    return same_graph(s, v, w)


def same_graph(s, v, w):
    st = s.st
    pair, back = {}, {}
    todo = [(v, w)]
    while todo:
        x, y = todo.pop()
        if x is y or x == y:
            # equal constants; objects still have to be followed once
            if x is None or not any(a[0] == "o" for a in x.a):
                continue
        if x is None or y is None:
            return False
        a, b = x.one(), y.one()
        if a is None or b is None:
            return False
        if a[0] != "o" or b[0] != "o":
            n, m = s.k.lib.as_num(a), s.k.lib.as_num(b)
            if a == b:
                continue
            if n is not None and m is not None and not isinstance(n, Itv) and not isinstance(m, Itv) and a[0] != "b" and b[0] != "b" and st.store.same(num.lin(n), num.lin(m)):
                continue
            return False
        i, j = a[1], b[1]
        if i in pair or j in back:
            if pair.get(i) != j or back.get(j) != i:
                return False
            continue
        pair[i], back[j] = j, i
        if i == j:
            continue
        o, p = st.get(i), st.get(j)
        if o is None or p is None or o.cls != p.cls or not o.uniq or not p.uniq or o.x != p.x:
            return False
        if set(o.f) != set(p.f):
            return False
        for f in o.f:
            todo.append((o.f[f], p.f[f]))
        if (o.items is None) != (p.items is None) or o.elem != p.elem:
            return False
        if o.items is not None:
            if len(o.items) != len(p.items):
                return False
            for q, r in zip(o.items, p.items):
                if isinstance(q, tuple):
                    todo.extend(zip(q, r))
                else:
                    todo.append((q, r))
    return True


# ---------------------------------------------------------------- documented operations on groups of items
class Err(Exception):
    pass


def flat(gs):
    return [x for g in gs for x in g]


def regroup(gs, items):
    out, i = [], 0
    for g in gs:
        out.append(items[i:i + len(g)])
        i += len(g)
    return out


def at(gs, i):
    for g, grp in enumerate(gs):
        if i < len(grp):
            return g, i
        i -= len(grp)
    raise Err("IndexError")


def conform(s, i, n):
    """the position an index stands for (decided case by case), or IndexError"""
    for p in range(n):
        if s.eq(i, p) or s.eq(i, p - n):
            return p
    raise Err("IndexError")


def m_append(gs, x, new):
    if not gs or new:
        return gs + [[x]]
    return gs[:-1] + [gs[-1] + [x]]


def m_prepend(gs, x, new):
    if not gs or new:
        return [[x]] + gs
    return [[x] + gs[0]] + gs[1:]


def m_del(gs, p):
    g, j = at(gs, p)
    grp = gs[g][:j] + gs[g][j + 1:]
    return gs[:g] + ([grp] if grp else []) + gs[g + 1:]


def m_set(gs, p, x):
    g, j = at(gs, p)
    return gs[:g] + [gs[g][:j] + [x] + gs[g][j + 1:]] + gs[g + 1:]


def m_insert(gs, p, x):
    if p == len(flat(gs)):
        return m_append(gs, x, False)
    g, j = at(gs, p)
    return gs[:g] + [gs[g][:j] + [x] + gs[g][j:]] + gs[g + 1:]


def m_split(gs, p):
    g, j = at(gs, p)
    if j == 0:
        return gs
    return gs[:g] + [gs[g][:j], gs[g][j:]] + gs[g + 1:]


def one_group(xs):
    return [xs] if xs else []
