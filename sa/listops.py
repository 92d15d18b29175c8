"""The documented meaning of the public list operations, on groups of items (pairs of value and key)."""
from .shape import *


class Op:
    def __init__(self, name, args, run, model, kinds=("int", "range"), groups=True):
        self.name, self.args, self.run, self.model, self.kinds = name, args, run, model, kinds
        self.groups = groups        # is the grouping of the result documented?


OPS = {}


def op(name, args, run, model, **kw):
    OPS[name] = Op(name, args, run, model, **kw)


def call(m, *names, **fixed):
    def run(k, st, v, c):
        return k.meth(st, v, m, *[c[n] for n in names], **fixed)
    return run


def then(k, outs, f):
    """continue with every normal outcome"""
    r = []
    for st, x in outs:
        if x[0] == "ok":
            r.extend(f(st, x[1]))
        else:
            r.append((st, x))
    return r


def view(k, st, v, g, f):
    """f(state, view) of the group at index g"""
    rs, raised = k.h.getattr(st, v, "groups", "k")
    outs = k.outcome((rs, raised))
    return then(k, outs, lambda s, gv: then(k, k.meth(s, gv, "__getitem__", g), f))


def I(s, cx, name="i"):
    a = s.int(name)
    return vint(a), a


def a_none(s, cx):
    return {}


def a_x(s, cx):
    v, key = cx.item(s, "x")
    return dict(x=v, kx=(v, key))


def a_i(s, cx):
    v, a = I(s, cx)
    return dict(i=v, ki=a)


def a_ix(s, cx):
    return dict(a_i(s, cx), **a_x(s, cx))


def a_xs(n):
    def f(s, cx):
        ps = [cx.item(s, "y%d" % i) for i in range(n)]
        return dict(ys=s.pylist([p[0] for p in ps], "ys"), kys=ps)
    return f


def a_tuple(n):
    def f(s, cx):
        ps = [cx.item(s, "y%d" % i) for i in range(n)]
        return dict(ys=mk(("t", tuple(p[0] for p in ps))), kys=ps)
    return f


def a_group(*names):
    def f(s, cx):
        r = {}
        for n in names:
            if n == "x":
                r.update(a_x(s, cx))
            else:
                v, a = I(s, cx, n)
                r[n], r["k" + n] = v, a
        return r
    return f


# ---- growing
def bool_(b):
    return mk(("b", b))


op("append", a_x, call("append", "x"), lambda s, gs, c: (None, m_append(gs, c["kx"], False)))
op("append as a new group", a_x, lambda k, st, v, c: k.meth(st, v, "append", c["x"], new_group=bool_(True)), lambda s, gs, c: (None, m_append(gs, c["kx"], True)))
op("prepend", a_x, call("prepend", "x"), lambda s, gs, c: (None, m_prepend(gs, c["kx"], False)))
op("prepend as a new group", a_x, lambda k, st, v, c: k.meth(st, v, "prepend", c["x"], new_group=bool_(True)), lambda s, gs, c: (None, m_prepend(gs, c["kx"], True)))


def m_ins(s, gs, c):
    n = len(flat(gs))
    if s.eq(c["ki"], n):
        p = n
    elif n == 0 and s.eq(c["ki"], 0):
        p = 0
    else:
        p = conform(s, c["ki"], n)
    return None, m_insert(gs, p, c["kx"])


op("insert", a_ix, call("insert", "i", "x"), m_ins)
for n in (0, 1, 2):
    op("extend by %d" % n, a_xs(n), call("extend", "ys"), lambda s, gs, c: (None, m_ext(gs, c["kys"])))
    op("append_group of %d" % n, a_xs(n), call("append_group", "ys"), lambda s, gs, c: (None, gs + ([list(c["kys"])] if c["kys"] else [])))
op("extend by a tuple", a_tuple(2), call("extend", "ys"), lambda s, gs, c: (None, m_ext(gs, c["kys"])))
op("+= 1", a_xs(1), lambda k, st, v, c: k.outcome(k.h.binop(st, ast.Add(), v, c["ys"], inplace=True, key="k")), lambda s, gs, c: (("self",), m_ext(gs, c["kys"])))
op("extend by itself", a_none, lambda k, st, v, c: k.meth(st, v, "extend", v), lambda s, gs, c: (None, m_ext(gs, flat(gs))))
op("append_group of itself", a_none, lambda k, st, v, c: k.meth(st, v, "append_group", v), lambda s, gs, c: (None, gs + one_group(flat(gs))))


def m_ext(gs, ps):
    for p in ps:
        gs = m_append(gs, p, False)
    return gs


# ---- shrinking
def m_pop(s, gs, c):
    p = conform(s, c["ki"], len(flat(gs)))
    return ("item", flat(gs)[p]), m_del(gs, p)


def m_pop_last(s, gs, c):
    if not gs:
        raise Err("IndexError")
    return ("item", flat(gs)[-1]), m_del(gs, len(flat(gs)) - 1)


op("pop()", a_none, call("pop"), m_pop_last)
op("pop(i)", a_i, call("pop", "i"), m_pop)
op("del [i]", a_i, call("__delitem__", "i"), lambda s, gs, c: (None, m_pop(s, gs, c)[1]))


def m_remove(s, gs, c):
    for p, x in enumerate(flat(gs)):
        if s.eq(x[1], c["kx"][1]):
            return None, m_del(gs, p)
    raise Err("ValueError")


op("remove", a_x, call("remove", "x"), m_remove)
op("clear", a_none, call("clear"), lambda s, gs, c: (None, []))


# ---- items
op("[i]", a_i, call("__getitem__", "i"), lambda s, gs, c: (("item", flat(gs)[conform(s, c["ki"], len(flat(gs)))]), gs))
op("[i] = x", a_ix, call("__setitem__", "i", "x"), lambda s, gs, c: (None, m_set(gs, conform(s, c["ki"], len(flat(gs))), c["kx"])))


def m_index(s, gs, c):
    for p, x in enumerate(flat(gs)):
        if s.eq(x[1], c["kx"][1]):
            return ("int", p), gs
    raise Err("ValueError")


def m_count(s, gs, c):
    return ("int", sum(1 for x in flat(gs) if s.eq(x[1], c["kx"][1]))), gs


def m_in(s, gs, c):
    return ("bool", any(s.eq(x[1], c["kx"][1]) for x in flat(gs))), gs


op("index", a_x, call("index", "x"), m_index)
op("count", a_x, call("count", "x"), m_count)
op("in", a_x, lambda k, st, v, c: k.cmp(st, ast.In, c["x"], v), m_in, kinds=("int",))


def m_index_from(s, gs, c):
    n = len(flat(gs))
    if not n:
        raise Err("ValueError")
    p0 = conform(s, c["ki"], n)
    for p, x in list(enumerate(flat(gs)))[p0:]:
        if s.eq(x[1], c["kx"][1]):
            return ("int", p), gs
    raise Err("ValueError")


op("index from i", a_ix, call("index", "x", "i"), m_index_from)


def m_index_within(s, gs, c):
    n = len(flat(gs))
    if not n:
        raise Err("ValueError")
    p0 = conform(s, c["kg"], n)
    p1 = conform(s, norm(num.sub(c["kj"], 1)), n) + 1
    if p0 > p1:
        raise Infeasible()          # a lower limit above the upper one: not documented
    for p, x in list(enumerate(flat(gs)))[p0:p1]:
        if s.eq(x[1], c["kx"][1]):
            return ("int", p), gs
    raise Err("ValueError")


op("index from g before j", a_group("g", "j", "x"), call("index", "x", "g", "j"), m_index_within)


# ---- order and groups
op("reverse", a_none, call("reverse"), lambda s, gs, c: (None, one_group(flat(gs)[::-1])))


def m_sort(s, gs, c):
    out = []
    for x in flat(gs):
        i = len(out)
        while i > 0 and not s.le(out[i - 1][1], x[1]):
            i -= 1
        out.insert(i, x)
    return None, one_group(out)


op("sort", a_none, call("sort"), m_sort, kinds=("int",))
op("sort without regrouping", a_none, lambda k, st, v, c: k.meth(st, v, "sort", regroup=bool_(False)), m_sort, kinds=("range",))
op("sort with regrouping", a_none, call("sort"), m_sort, kinds=("range",), groups=False)
op("clear_groups", a_none, call("clear_groups"), lambda s, gs, c: (None, one_group(flat(gs))))
op("insert_group_at", a_i, call("insert_group_at", "i"), lambda s, gs, c: (None, m_split(gs, conform(s, c["ki"], len(flat(gs))))))
op("to_nested_lists", a_none, call("to_nested_lists"), lambda s, gs, c: (("nested", gs), gs))


# ---- groups
def gpos(s, gs, g, j=None):
    a = conform(s, g, len(gs))
    if j is None:
        return a
    for q in range(len(gs[a])):
        if s.eq(j, q):
            return a, q
    raise Err("IndexError")


def start(gs, g):
    return sum(len(x) for x in gs[:g])


def m_gget(s, gs, c):
    g, q = gpos(s, gs, c["kg"], c["kj"])
    return ("item", gs[g][q]), gs


def m_gset(s, gs, c):
    g, q = gpos(s, gs, c["kg"], c["kj"])
    return None, m_set(gs, start(gs, g) + q, c["kx"])


def m_gdel(s, gs, c):
    g, q = gpos(s, gs, c["kg"], c["kj"])
    return None, m_del(gs, start(gs, g) + q)


op("groups[g][j]", a_group("g", "j"), lambda k, st, v, c: view(k, st, v, c["g"], lambda s, w: k.meth(s, w, "__getitem__", c["j"])), m_gget)
op("groups[g][j] = x", a_group("g", "j", "x"), lambda k, st, v, c: view(k, st, v, c["g"], lambda s, w: k.meth(s, w, "__setitem__", c["j"], c["x"])), m_gset)
op("del groups[g][j]", a_group("g", "j"), lambda k, st, v, c: view(k, st, v, c["g"], lambda s, w: k.meth(s, w, "__delitem__", c["j"])), m_gdel)
op("len(groups[g])", a_group("g"), lambda k, st, v, c: view(k, st, v, c["g"], lambda s, w: k.meth(s, w, "__len__")), lambda s, gs, c: (("int", len(gs[gpos(s, gs, c["kg"])])), gs))

FOLLOW = ["append", "append as a new group", "prepend", "prepend as a new group", "insert", "del [i]", "insert_group_at", "reverse", "clear_groups", "sort", "sort without regrouping"]


def expect(s, model, gs, c):
    """("ok", result, groups) or ("err", names, groups)"""
    try:
        r, new = model(s, gs, c)
        return "ok", r, new
    except Err as e:
        return "err", str(e), gs


def result(s, kind, r, want, v, what):
    if want is None:
        return
    t = want[0]
    if t == "item":
        if r.one() is None:
            raise Unsure("the result is not known exactly")
        x = key_of(s, kind, r)
        s.check(x is not None and s.eq(x, want[1][1]), lambda: "%s answers another item" % what)
    elif t == "int":
        x = s.intval(r)
        s.check(x is not None and s.eq(x, want[1]), lambda: "%s answers %s instead of %s" % (what, s.rdescr(("ok", r))[8:], want[1]))
    elif t == "bool":
        b = s.boolval(r)
        s.check(b == want[1], lambda: "%s answers %s" % (what, b))
    elif t == "self":
        s.check(r.one() == v.one(), lambda: "%s gives another object" % what)
    elif t == "nested":
        got = [s.seq(x) for x in s.seq(r)]
        s.check([len(g) for g in got] == [len(g) for g in want[1]], lambda: "%s gives other groups" % what)
        for a, b in zip(got, want[1]):
            for x, y in zip(a, b):
                x = key_of(s, kind, x)
                s.check(x is not None and s.eq(x, y[1]), lambda: "%s gives another item" % what)


def adopt(s, outs):
    """continue with one of several outcomes"""
    if not outs:
        raise Infeasible()
    s.st, r = outs[s.choose(len(outs))]
    if not s.st.exact:
        raise Unsure("a value is not known exactly")
    return r


def prepare(o, sk, kind):
    def setup(s):
        s.set_global(s.k.h.flag(0))
        cx = Ctx(s, kind)
        gs = [[cx.item(s) for _ in range(n)] for n in sk]
        c = o.args(s, cx)
        v = glist(s, kind, [[p[0] for p in g] for g in gs])
        return dict(cx=cx, gs=gs, c=c, v=v)

    def run(k, st, ctx):
        return o.run(k, st, ctx["v"], ctx["c"])
    return setup, run


def follow(s, v, kind, ctx, what, values):
    """If a list does not have the representation of a fresh one, what is left behind must not show after the next operation either:
    takes one of the operations that may follow, with arguments of its own. Returns it with its arguments and outcome."""
    if canonical(s, v, kind, values):
        return None
    names = [n for n in FOLLOW if kind in OPS[n].kinds]
    o2 = OPS[names[s.choose(len(names))]]
    s.prefix = "next "
    c2 = o2.args(s, ctx["cx"])
    r = adopt(s, o2.run(s.k, s.st.copy(), v, c2))
    return o2, c2, r, "%s and then %s" % (what, o2.name)


def consistency(name, sk, kind):
    """C16: whatever the operation does, the list still reads the same in every way, now and after any further operation"""
    o = OPS[name]
    setup, run = prepare(o, sk, kind)

    def check(s, ctx, r):
        v = ctx["v"]
        what = "after %s on a list of %s" % (name, name_of(sk))
        gs = consistent(s, v, kind, what)
        n = follow(s, v, kind, ctx, what, gs)
        if n is not None:
            consistent(s, v, kind, n[3])
            raise Unsure("the representation after %s is not that of a fresh list" % name)
    return setup, run, check


def values(gs):
    return [[x[0] for x in g] for g in gs]


def meaning(name, sk, kind):
    """C17: result, exception and items are the documented ones"""
    o = OPS[name]
    setup, run = prepare(o, sk, kind)

    def after(s, o, v, gs, c, r, what):
        t, want, new = expect(s, o.model, gs, c)
        if t == "err":
            s.check(s.is_exc(r, want), lambda: "%s %s instead of raising %s" % (what, s.rdescr(r), want))
        else:
            s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
            result(s, kind, r[1], want, v, what)
        same_items(s, kind, forwards(s, v), [x[1] for x in flat(new)], "after %s: reading the list" % what)
        return new

    def check(s, ctx, r):
        v = ctx["v"]
        what = "%s on a list of %s" % (name, name_of(sk))
        new = after(s, o, v, ctx["gs"], ctx["c"], r, what)
        got, _ = by_group(s, v)
        if [len(g) for g in got] != [len(g) for g in new]:
            return          # a matter of C18
        n = follow(s, v, kind, ctx, what, got)
        if n is not None:
            after(s, n[0], v, new, n[1], n[2], n[3])
            raise Unsure("the representation after %s is not that of a fresh list" % name)
    return setup, run, check


def grouping(name, sk, kind):
    """C18: the groups are the documented ones"""
    o = OPS[name]
    setup, run = prepare(o, sk, kind)

    def after(s, o, v, gs, c, r, what):
        t, want, new = expect(s, o.model, gs, c)
        if (t == "ok") != (r[0] == "ok"):
            s.check("group" not in o.name, lambda: "%s %s" % (what, s.rdescr(r)))
            return None     # a matter of C17
        if t == "ok" and "groups" in o.name:
            result(s, kind, r[1], want, v, what)
        gs, n = by_group(s, v)
        s.check([len(g) for g in gs] == [len(g) for g in new], lambda: "after %s the groups have %s items instead of %s" % (what, name_of([len(g) for g in gs]), name_of([len(g) for g in new])))
        for i, (a, b) in enumerate(zip(gs, new)):
            same_items(s, kind, a, [x[1] for x in b], "after %s: reading group %d" % (what, i))
        return new, gs

    def check(s, ctx, r):
        v = ctx["v"]
        what = "%s on a list of %s" % (name, name_of(sk))
        new = after(s, o, v, ctx["gs"], ctx["c"], r, what)
        if new is None:
            return
        n = follow(s, v, kind, ctx, what, new[1])
        if n is not None:
            after(s, n[0], v, new[0], n[1], n[2], n[3])
            raise Unsure("the representation after %s is not that of a fresh list" % name)
    return setup, run, check


VIEWOPS = {
    "len": lambda k, st, w, c: k.meth(st, w, "__len__"),
    "iteration": lambda k, st, w, c: then(k, k.meth(st, w, "__iter__"), lambda s, it: k.listed(s, it)),
    "[0]": lambda k, st, w, c: k.meth(st, w, "__getitem__", vint(0)),
    "[1]": lambda k, st, w, c: k.meth(st, w, "__getitem__", vint(1)),
    "[0] = x": lambda k, st, w, c: k.meth(st, w, "__setitem__", vint(0), c["zx"]),
    "del [0]": lambda k, st, w, c: k.meth(st, w, "__delitem__", vint(0)),
    "del [1]": lambda k, st, w, c: k.meth(st, w, "__delitem__", vint(1)),
}


def stale(name, sk, g, kind, vop):
    """C29: a view of group g obtained before the operation"""
    o = OPS[name]
    setup0, run0 = prepare(o, sk, kind)

    def setup(s):
        c = setup0(s)
        c["zx"] = c["cx"].item(s, "z")[0]
        st, gv = one(s.k.h.getattr(s.st, c["v"], "groups", "vw"), "the groups")
        s.st, c["w"] = one(s.k.h.meth(st, gv, "__getitem__", [vint(g)], {}, "vw"), "a group")
        return c

    def check(s, ctx, r):
        v = ctx["v"]
        t, want, new = expect(s, o.model, ctx["gs"], ctx["c"])
        head = ctx["gs"][g][0]
        live = [x for x in new if x[0] is head]
        what = "%s of a view of group %d of %s obtained before %s" % (vop, g, name_of(sk), name)
        if live and "=" in name:
            return
        if not live and "=" in name:
            return
        before = [[key_of(s, kind, x) for x in grp] for grp in by_group(s, v)[0]]
        r2 = adopt(s, VIEWOPS[vop](s.k, s.st.copy(), ctx["w"], ctx))
        if not live:
            s.check(s.is_exc(r2, "GroupViewError"), lambda: "%s %s instead of being refused" % (what, s.rdescr(r2)))
            after, _ = by_group(s, v)
            s.check([len(x) for x in after] == [len(x) for x in before], lambda: "%s changes the list" % what)
            for a, b in zip(after, before):
                same_items(s, kind, a, b, "after %s" % what)
            return
        grp = live[0]
        if vop == "len":
            s.check(r2[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r2)))
            x = s.intval(r2[1])
            s.check(x is not None and s.eq(x, len(grp)), lambda: "%s %s" % (what, s.rdescr(r2)))
        elif vop == "iteration":
            s.check(r2[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r2)))
            same_items(s, kind, list(r2[1].one()[1]), [x[1] for x in grp], what)
    return setup, run0, check


def equality(a, b, kind, how):
    """C28: two lists"""
    def setup(s):
        s.set_global(s.k.h.flag(0))
        cx = Ctx(s, kind)
        ga, gb = ([[cx.item(s, "%s%d%d" % (nm, i, j)) for j in range(n)] for i, n in enumerate(sk)] for nm, sk in (("x", a), ("y", b)))
        return dict(ga=ga, gb=gb, v=glist(s, kind, [[p[0] for p in g] for g in ga]), w=glist(s, kind, [[p[0] for p in g] for g in gb]))

    def run(k, st, c):
        v, w = c["v"], c["w"]
        if how == "==":
            return k.cmp(st, ast.Eq, v, w)
        if how == "!=":
            return k.cmp(st, ast.NotEq, v, w)
        if how == "equals":
            return k.meth(st, v, "equals", w)
        return k.meth(st, v, "equals", w, compare_groups=bool_(False))

    def check(s, c, r):
        x, y = flat(c["ga"]), flat(c["gb"])
        e = len(x) == len(y) and (how == "equals ignoring groups" or a == b) and all(s.eq(p[1], q[1]) for p, q in zip(x, y))
        if how == "!=":
            e = not e
        what = "%s of lists of %s and %s" % (how, name_of(a), name_of(b))
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        g = s.boolval(r[1])
        s.check(g == e, lambda: "%s answers %s" % (what, g))
    return setup, run, check


def foreign(sk, kind, other, how):
    """C28: a list and something that is not one"""
    def setup(s):
        s.set_global(s.k.h.flag(0))
        cx = Ctx(s, kind)
        gs = [[cx.item(s) for _ in range(n)] for n in sk]
        v = glist(s, kind, [[p[0] for p in g] for g in gs])
        f = [p[0] for p in flat(gs)]
        w = {"a Python list": lambda: s.pylist(f), "a tuple": lambda: mk(("t", tuple(f))), "None": lambda: VNONE, "a number": lambda: vint(s.int("z")),
             "a string": lambda: vstr("Mark 3"), "itself": lambda: v, "an item": lambda: cx.item(s, "z")[0]}[other]()
        return dict(v=v, w=w, n=len(f))

    def run(k, st, c):
        if how == "==":
            return k.cmp(st, ast.Eq, c["v"], c["w"])
        if how == "!=":
            return k.cmp(st, ast.NotEq, c["v"], c["w"])
        return k.meth(st, c["v"], "equals", c["w"], compare_groups=bool_(how == "equals"))

    def check(s, c, r):
        what = "%s of a list of %s and %s" % (how, name_of(sk), other)
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        e = other == "itself" or how == "equals ignoring groups" and other in ("a Python list", "a tuple")
        g = s.boolval(r[1])
        s.check(g == (e if how != "!=" else not e), lambda: "%s answers %s" % (what, g))
    return setup, run, check


def copied(sk):
    """C28: BibleRangeList(list)"""
    def setup(s):
        s.set_global(s.k.h.flag(0))
        cx = Ctx(s, "range")
        gs = [[cx.item(s) for _ in range(n)] for n in sk]
        return dict(gs=gs, v=glist(s, "range", [[p[0] for p in g] for g in gs]))

    def run(k, st, c):
        return then(k, k.new(st, k.List, c["v"]), lambda s, w: [(t, ("ok", mk(("t", (w, r[1]))))) if r[0] == "ok" else (t, r) for t, r in k.cmp(s, ast.Eq, w, c["v"])])

    def check(s, c, r):
        what = "the copy of a list of %s" % name_of(sk)
        s.check(r[0] == "ok", lambda: "%s %s" % (what, s.rdescr(r)))
        w, b = r[1].one()[1]
        gs, _ = by_group(s, w)
        s.check([len(g) for g in gs] == list(sk), lambda: "%s has other groups" % what)
        for x, y in zip(gs, c["gs"]):
            same_items(s, "range", x, [p[1] for p in y], what)
        s.check(s.boolval(b) is True, lambda: "%s does not equal the original" % what)
    return setup, run, check
