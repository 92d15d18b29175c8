"""C30 no operation's recursion depth grows with the length of a list."""
from .common import *
from ..kern import Kern, S, Infeasible
from ..listops import OPS as _OPS

TECHNIQUE = ("call-graph analysis: the calls of every list and group-view operation, constructor and query are resolved by abstract interpretation on lists of unknown length; "
             "functions on no cycle have constant depth; for a cycle the nesting of its activations is derived on abstract lists of 4 to 32 items and must grow at most logarithmically")

SIZES = (4, 8, 16, 32)
ORDERS = ("ascending and apart", "descending", "adjacent", "all equal", "mixed")


def view_methods(h):
    """the methods of a group view"""
    A = Args(h, h.state())
    rs, raised = h.getattr(A.st, A.get("l", "self"), "groups", "grp")
    out = {}
    for s, g in rs:
        for s1, v in h.drive(s, lambda: h.lib.getitem(s, g, h.num(), h.node("gv")))[0]:
            for a in v.a:
                if a[0] != "o" or not isinstance(s1.get(a[1]).cls, tuple):
                    continue
                for c in h.I.mro(s1.get(a[1]).cls):
                    if h.I.classes[c].mod == "builtins":
                        continue
                    for k, w in h.I.load_state.get(c).f.items():
                        r = func_of(w)
                        if r is not None and r[0] == "method" and (not k.startswith("_") or k.startswith("__")) and k not in ("__init__", "__new__"):
                            out.setdefault(k, r[1])
    return out


def cycles(edges):
    """functions on a cycle: strongly connected components"""
    succ = {}
    for a, b in edges:
        if a is not None:
            succ.setdefault(a, set()).add(b)
    reach = {}

    def go(x):
        seen, todo = set(), list(succ.get(x, ()))
        while todo:
            y = todo.pop()
            if y not in seen:
                seen.add(y)
                todo.extend(succ.get(y, ()))
        return seen
    for x in succ:
        reach[x] = go(x)
    return {x for x in succ if x in reach[x]}, reach


def check(R):
    R.rule("call graph", "every function a list operation can reach is on no cycle of the call graph, or its cycle is bounded as below")
    R.rule("depth", "the nesting of a recursive function grows by at most one or two activations when the list doubles")
    h = H(coarse=True)
    h.I.phase = "run"
    tasks = [("op", e) for e in known_entries(h) if e.cls == "BibleRangeList" or e.kind == "ctor" and e.shape in ("l", "g", "rr")]
    tasks += [("op", e) for e in known_entries(h) if e.cls in ("BibleRange",) and e.name in ("union", "intersection", "difference", "sym_difference", "is_disjoint", "contains", "__eq__", "split")]
    tasks += [("view", k) for k in sorted(view_methods(h))]
    vm = view_methods(h)

    def one(R, t):
        h.I.edges = {}
        fresh(h)
        name = str(t[1]) if t[0] == "op" else "group view %s" % t[1]
        try:
            if t[0] == "op":
                run(h, t[1])
            else:
                A = Args(h, h.state())
                rs, raised = h.getattr(A.st, A.get("l", "self"), "groups", "grp")
                for s, g in rs:
                    for s1, v in h.drive(s, lambda: h.lib.getitem(s, g, h.num(), h.node("gv")))[0]:
                        A.st = s1
                        args = []
                        for pn, ann, d in params(vm[t[1]])[1:]:
                            x = A.arg(pn, ann, d, "BibleRangeList")
                            if x is not None:
                                args.append(x)
                        r2, _ = h.meth(A.st, v, t[1], args, {}, "op")
                        consume(h, r2)
        except Incomplete as x:
            R.undecided("call graph", name, x)
            return None
        cyc, reach = cycles(h.I.edges)
        if not cyc:
            R.good("call graph", "%s: %d functions, none recursive" % (name, len({b for a, b in h.I.edges})))
        else:
            R.good("call graph", "%s: %d functions, recursive: %s" % (name, len({b for a, b in h.I.edges}), ", ".join(sorted(q for m, q in cyc))))
        at = {}
        for (a, b), (node, F) in h.I.edges.items():
            if a in cyc and b in cyc and a in reach.get(b, ()):
                at[b] = (a, h.I.where(node, F) if F is not None and getattr(node, "lineno", None) else None)
        return t, cyc, at
    res = [x for x in parallel(R, tasks, one) if x]
    R.set("operations", len(tasks))
    todo = [(t, sorted(cyc), at) for t, cyc, at in res if cyc]
    seen, work = {}, []
    for t, cyc, at in todo:
        for o in ORDERS:
            work.append((t, o, cyc, at))
    if work:
        k = Kern(maxrounds=80)
        k.I.cfg.maxrec = 200
        k.I.cfg.maxdepth = 900
        parallel(R, work, lambda R, w: depth(R, k, w, vm))


def numbers(n, order):
    if order == "ascending and apart":
        return [2 + 3 * i for i in range(n)]
    if order == "descending":
        return [2 + 3 * (n - i) for i in range(n)]
    if order == "adjacent":
        return [2 + i for i in range(n)]
    if order == "all equal":
        return [7] * n
    return [2 + 3 * ((i * 7) % n) + (i % 3) for i in range(n)]


def depth(R, k, w, vm):
    t, order, cyc, at = w
    name = "%s, items %s" % (t[1] if t[0] == "op" else "group view %s" % t[1], order)
    got = {c: [] for c in cyc}
    I = k.I
    for n in SIZES:
        I.depths = None
        I.steps = 0
        I.cfg.budget = 30000000
        s = S(k, k.start(), ())
        s.todo = []
        s.set_global(k.h.flag(0))
        try:
            x, other, r, src = inputs(k, s, n, order)
            I.depths = {}
            perform(k, s, t, x, other, r, src, vm, n)
        except Incomplete as e:
            if "recursion" in str(e) and n >= 16:
                pass
            else:
                R.undecided("depth", name, e)
                return
        except Infeasible:
            R.undecided("depth", name, "the lists cannot be built")
            return
        finally:
            d, I.depths = I.depths or {}, None
        for c in cyc:
            got[c].append(d.get(c, 0))
    for c in cyc:
        d = got[c]
        if len(d) < len(SIZES):
            continue
        grow = [b - a for a, b in zip(d, d[1:])]
        if grow[-1] >= 6 and grow[-1] > grow[0]:
            a, where = at.get(c, (None, None))
            R.bad("depth", where or c[1], "%s: %s is nested %s deep on lists of %s items" % (name, c[1], ", ".join(map(str, d)), ", ".join(map(str, SIZES))), key="depth|%s" % c[1])
            return
        if grow[-1] > 2:
            R.undecided("depth", name, "%s is nested %s deep on lists of %s items" % (c[1], d, SIZES))
            return
    R.good("depth", "%s: %s" % (name, "; ".join("%s %s" % (c[1], got[c]) for c in cyc)))


def inputs(k, s, n, order):
    book = 18
    vs = {}

    def rng(v):
        if v not in vs:
            vs[v] = s.range((book, 119, v), (book, 119, v))
        return vs[v]
    half = n // 2
    rs = [rng(v) for v in numbers(n, order)]
    x = s.rlist([rs[:half], rs[half:]])
    rs2 = [rng(v + 1) for v in numbers(n, order)]
    y = s.rlist([[r] for r in rs2])
    src = s.pylist(rs2, "it")
    return x, y, rs[half], src


def perform(k, s, t, x, other, r, src, vm, n):
    def arg(A, pn, ann, d):
        kind = A.kind_of(pn, ann, d, "BibleRangeList")
        if kind is None:
            return None
        if kind in ("ref", "l", "other"):
            return other
        if kind == "it":
            return src
        if kind == "bool":
            return mk(("b", False))
        if kind in ("i", "iv"):
            return vint(n // 2)
        if kind == "r":
            return r
        if kind == "N":
            return VNONE
        return d if False else None
    A = Args(k.h, s.st)
    if t[0] == "view":
        rs, _ = k.h.getattr(s.st, x, "groups", "k")
        for s1, g in rs:
            for s2, r2 in k.meth(s1, g, "__getitem__", vint(0)):
                if r2[0] == "ok":
                    args = [a for a in (arg(A, *p) for p in params(vm[t[1]])[1:]) if a is not None]
                    drain(k, k.meth(s2, r2[1], t[1], *args))
        return
    e = t[1]
    if e.kind == "ctor":
        a = {"l": [other], "g": [src], "rr": [r, r]}.get(e.shape)
        drain(k, k.new(s.st, k.List, *(a or [])))
        return
    if e.kind == "classmethod" or e.kind == "staticmethod":
        return
    args, kw = [], {}
    nkw = {p.arg for p in e.F.node.args.kwonlyargs}
    stop = False
    for p in params(e.F)[1:]:
        v = arg(A, *p)
        if v is None:
            stop = True
        elif stop or p[0] in nkw:
            kw[p[0]] = v
        else:
            args.append(v)
    recv = x if e.cls == "BibleRangeList" else r
    if e.kind == "property":
        k.h.getattr(s.st, recv, e.name, "k")
        return
    drain(k, k.meth(s.st, recv, e.name, *args, **kw))


def drain(k, outs):
    for st, r in outs:
        if r[0] == "ok" and r[1].one() is not None and r[1].one()[0] == "o" and st.get(r[1].one()[1]) is not None and st.get(r[1].one()[1]).cls == "gen":
            k.listed(st, r[1], limit=100)
