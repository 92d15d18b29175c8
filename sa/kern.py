"""Ordering kernels: relational abstract interpretation in the zone domain.

A verse is three integers (book place k, chapter c, verse v) related by differences; the Bible tables are functions NC(k), MV(k,c) and the relation V0(k,c)
closed under congruence and linked to the independent table for constant arguments.  A scenario has three steps:

  setup(s)        unknown inputs and the assumptions on them (partitioned into cases)
  run(k, s, c)    the abstract call of the public operation
  check(s, c, r)  the documented result, stated on coordinates; every partition of every result must satisfy it

A partition that contradicts the documented result is a violation when it has lost no precision and is shown non-empty by a member (printed as the example).
"""
import ast
import time
from .harness import *
from .num import Lin, Store, Inconsistent, norm
from . import num, larkai
from .canon import MAXV, VZERO, NAMES

NB = len(MAXV)
MAXNC = max(len(r) for r in MAXV)
MINMV = min(min(r) for r in MAXV)
MAXMV = max(max(r) for r in MAXV)
V0BOOKS = [i for i, s in enumerate(VZERO) if s]


class Infeasible(Exception):
    pass


class Unsure(Exception):
    pass


class Wrong(Exception):
    pass


def const(st, e):
    e = norm(st.red(e))
    if isinstance(e, int):
        return e
    hi = st.ub_of(e)
    lo = st.ub_of(num.scale(e, -1))
    if hi is not None and lo is not None and hi == -lo:
        return hi
    return e


def app_hook(st, fn, args, at):
    if fn == "NC":
        k = const(st, args[0])
        if isinstance(k, int) and 0 <= k < NB:
            st.assert_eq(num.sub(at, len(MAXV[k])))
        else:
            st.assert_le(num.sub(1, at))
            st.assert_le(num.sub(at, MAXNC))
    elif fn == "MV":
        k, c = const(st, args[0]), const(st, args[1])
        row = MAXV[k] if isinstance(k, int) and 0 <= k < NB else None
        if row and isinstance(c, int) and 1 <= c <= len(row):
            st.assert_eq(num.sub(at, row[c - 1]))
        else:
            st.assert_le(num.sub(min(row) if row else MINMV, at))
            st.assert_le(num.sub(at, max(row) if row else MAXMV))


def eq_hook(st):
    for _ in range(4):
        again = False
        for args, at in list(st.apps.get("NC", ())):
            k = const(st, args[0])
            if isinstance(k, int) and 0 <= k < NB and not st.same(at, len(MAXV[k])):
                st.assert_eq(num.sub(at, len(MAXV[k])))
                again = True
        for args, at in list(st.apps.get("MV", ())):
            k = const(st, args[0])
            if not isinstance(k, int) or not 0 <= k < NB:
                continue
            row = MAXV[k]
            c = const(st, args[1])
            if isinstance(c, int):
                if 1 <= c <= len(row) and not st.same(at, row[c - 1]):
                    st.assert_eq(num.sub(at, row[c - 1]))
                    again = True
            else:
                st.assert_le(num.sub(min(row), at))
                st.assert_le(num.sub(at, max(row)))
        for args, val in list(st.bools.get("V0", ())):
            k, c = const(st, args[0]), const(st, args[1])
            if isinstance(k, int) and isinstance(c, int):
                if val != (0 <= k < NB and c in VZERO[k]):
                    raise Inconsistent()
            elif val:
                if isinstance(k, int):
                    cs = VZERO[k] if 0 <= k < NB else ()
                else:
                    cs = set().union(*VZERO)
                    if not V0BOOKS:
                        raise Inconsistent()
                    st.assert_le(num.sub(V0BOOKS[0], k))
                    st.assert_le(num.sub(k, V0BOOKS[-1]))
                if not cs:
                    raise Inconsistent()
                st.assert_le(num.sub(min(cs), c))
                st.assert_le(num.sub(c, max(cs)))
        if not again:
            return


class Kern:
    def __init__(self, K=20000, maxrounds=14):
        self.h = H(numeric="zone", K=K, maxrounds=maxrounds)
        self.I = self.h.I
        self.lib = self.h.lib
        self.fcls = self.h.cls("BibleFlag")
        self.bits = {}
        st = self.I.load_state
        ob = st.get(self.fcls)
        for n in ("MULTIBOOK", "VERSE_0"):
            a = ob.f.get(n).one() if ob.f.get(n) is not None else None
            if a is None or a[0] != "fl":
                raise AnalysisError("flag %s is gone" % n)
            self.bits[n] = [b for b, w in a[2] if w is True][0]
        self.Verse, self.Range, self.List = (self.h.cls(n) for n in ("BibleVerse", "BibleRange", "BibleRangeList"))
        try:
            self.GList = self.h.cls("GroupedList", "util")
        except AnalysisError:
            self.GList = None
        self.I.phase = "run"
        self.points = {}
        self.I.hooks["call"] = self.pointwise

    def pointwise(self, st, F, b, node):
        """a function of a book name alone is evaluated for the name of every book"""
        arg = None
        key = [F.mod, F.qual]
        for n, v in b.items():
            a = v.one()
            if a is None:
                return None
            if a[0] == "s" and len(a[1]) == 1 and not isinstance(a[1][0], str):
                h = a[1][0]
                if h[1] in ("num", "raw", "sep") or arg is not None or not isinstance(h[2], Lin):
                    return None
                arg = (n, h)
                key.append((n, h[:2] + h[3:]))
                continue
            if a[0] == "o":
                o = st.get(a[1])
                if o is None or o.cls not in ("class", "module"):
                    return None
            elif a[0] not in ("b", "n", "none") and not (a[0] == "s" and all(isinstance(p, str) for p in a[1])):
                return None
            key.append((n, a))
        if arg is None:
            return None
        key = tuple(key)
        if key not in self.points:
            self.points[key] = None
            self.points[key] = self.by_points(st, F, b, node, arg)
        r = self.points[key]
        if r is None:
            return None
        return [(st, mk(("bk", arg[1][2])) if r == "book" else r)]

    def by_points(self, st, F, b, node, arg):
        I = self.I
        n, h = arg
        try:
            names = larkai.name_table(self.lib, h[1], h[3:])
        except larkai.Unknown:
            return None
        got = set()
        for i, x in enumerate(names):
            s1 = st.copy()
            n0 = len(I.sink)
            rs = I.run_func(s1, F, dict(b, **{n: vstr(x)}), node, None)
            bad = len(I.sink) > n0
            del I.sink[n0:]
            if bad or len(rs) != 1 or not rs[0][0].exact or rs[0][0].bits != st.bits:
                return None
            a = rs[0][1].one()
            if a is None:
                return None
            if a[0] == "o" and a[1] in self.lib.bookidx or a[0] == "bk" and isinstance(a[1], int):
                if (a[1] if a[0] == "bk" else self.lib.bookidx[a[1]]) != i:
                    return None
                got.add("book")
            elif a[0] in ("b", "n", "none"):
                got.add(rs[0][1])
            else:
                return None
            if len(got) > 1:
                return None
        return got.pop()

    def flagnum(self, **on):
        return sum(self.bits[n] for n, x in on.items() if x)

    def start(self):
        st = self.h.state()
        st.store.app_hook = app_hook
        st.store.eq_hook = eq_hook
        return st

    # ---- abstract calls; every result is (state, ("ok", value)) or (state, ("err", value, node, func))
    def outcome(self, r):
        rs, raised = r
        return [(s, ("ok", v)) for s, v in rs] + [(s, ("err", v, n, f)) for s, v, n, f in raised]

    def meth(self, st, v, name, *args, **kw):
        return self.outcome(self.h.meth(st, v, name, list(args), kw, "k"))

    def call(self, st, f, *args, **kw):
        return self.outcome(self.h.call(st, f, list(args), kw, "k"))

    def new(self, st, cls, *args, **kw):
        return self.call(st, mk(("o", cls)), *args, **kw)

    def cmp(self, st, op, a, b):
        return self.outcome(self.h.drive(st, lambda: self.lib.compare(st, op(), a, b, self.h.node("k"))))

    def binop(self, st, op, a, b):
        return self.outcome(self.h.binop(st, op(), a, b, key="k"))

    def listed(self, st, it, limit=24):
        """exhaust an iterable: outcomes with the tuple of its items"""
        node = self.h.node("listed")
        key = (self.h.root, "$listed")
        st.env[key] = mk(("t", ()))

        def cb(s, x):
            t = s.env[key].one()[1]
            if len(t) >= limit:
                raise Incomplete("iteration does not end")
            s.env[key] = mk(("t", t + (x,)))
            return [s]
        rs, raised = self.h.drive(st, lambda: self.I.iterate(st, it, cb, node))
        return [(s, ("ok", s.env[key])) for s in rs] + [(s, ("err", v, n, f)) for s, v, n, f in raised]

    # ---- exploration of a function of decisions
    def cases(self, st, fn, limit=20000):
        """fn(s) under every combination of decisions: [(s, result)]"""
        out = []
        todo = [()]
        n = 0
        while todo:
            pre = todo.pop()
            n += 1
            if n > limit:
                raise Incomplete("more than %d cases" % limit)
            s = S(self, st.copy(), pre)
            s.todo = todo
            try:
                r = fn(s)
            except (Infeasible, Inconsistent):
                continue
            out.append((s, r))
        return out

    # ---- one scenario
    def scenario(self, R, rule, name, setup, run, check, budget=6000000):
        I = self.I
        I.steps = 0
        I.cfg.budget = budget
        parts = outs = leaves = 0
        unsure = None
        try:
            for s, ctx in self.cases(self.start(), setup):
                parts += 1
                st0 = s.st
                for st, r in run(self, st0.copy(), ctx):
                    outs += 1
                    if not st.exact:
                        unsure = unsure or "a value is not known exactly"
                        continue

                    def chk(s1):
                        s1.syms = s.syms
                        try:
                            check(s1, ctx, r)
                        except Wrong as w:
                            return ("wrong", str(w))
                        except Unsure as u:
                            return ("unsure", str(u))
                        return None
                    for s1, v in self.cases(st, chk):
                        leaves += 1
                        if v is None:
                            continue
                        if v[0] == "unsure":
                            unsure = unsure or v[1]
                            continue
                        w = s1.member()
                        if w is None:
                            unsure = unsure or "no member found of a partition that contradicts the rule: %s" % v[1]
                            continue
                        where = self.place(r)
                        R.bad(rule, where or name, "%s: %s (for example %s)" % (name, v[1], w), key="%s|%s" % (rule, name.replace(" ", "_")))
                        R.count("partitions", leaves)
                        return
        except Incomplete as e:
            R.undecided(rule, name, e)
            return
        R.count("input cases", parts)
        R.count("abstract results", outs)
        R.count("partitions", leaves)
        if unsure or not leaves:
            R.undecided(rule, name, unsure or "no result")
        else:
            R.good(rule, "%s: %d input cases, %d abstract results, %d partitions" % (name, parts, outs, leaves))

    def place(self, r):
        if r[0] == "err" and r[2] is not None and r[3] is not None:
            return self.I.where(r[2], r[3])
        return None


class S:
    """one partition: a state and the decisions that lead to it"""

    def __init__(self, k, st, pre):
        self.k, self.st, self.pre = k, st, pre
        self.n = 0
        self.prefix = ""
        self.taken = []
        self.todo = None
        self.syms = {}

    def choose(self, n):
        i = self.n
        self.n += 1
        if i < len(self.pre):
            c = self.pre[i]
        else:
            c = 0
            for j in range(1, n):
                self.todo.append(tuple(self.taken) + (j,))
        self.taken.append(c)
        return c

    def pick(self, name, options):
        return options[self.choose(len(options))]

    # ---- numbers
    def dec(self, op, x, y):
        rs = self.k.lib.num_cmp(self.st, op(), x, y)
        if not rs:
            raise Infeasible()
        i = self.choose(len(rs)) if len(rs) > 1 else 0
        self.st, r = rs[i]
        if r is None:
            raise Unsure("a number is not known exactly")
        return r

    def lt(self, x, y):
        return self.dec(ast.Lt, x, y)

    def le(self, x, y):
        return self.dec(ast.LtE, x, y)

    def eq(self, x, y):
        return self.dec(ast.Eq, x, y)

    def assume(self, c):
        if not c:
            raise Infeasible()

    def assume_le(self, x, y):
        self.st.store.assert_le(num.sub(x, y))

    def int(self, name, lo=None, hi=None, kind=None):
        name = self.prefix + name
        a = self.st.store.atom(name)
        self.syms[name] = (a, kind)
        if lo is not None:
            self.assume_le(lo, a)
        if hi is not None:
            self.assume_le(a, hi)
        return a

    # ---- tables
    def nc(self, k):
        return norm(self.st.store.app("NC", k))

    def mv(self, k, c):
        return norm(self.st.store.app("MV", k, c))

    def v0(self, k, c):
        st = self.st.store
        r = st.boolapp("V0", (num.lin(k), num.lin(c)))
        if r is not None:
            return r
        val = self.choose(2) == 0
        st.set_boolapp("V0", (num.lin(k), num.lin(c)), val)
        st._congruence()
        eq_hook(st)
        return val

    def minv(self, k, c, zero):
        return 0 if zero and self.v0(k, c) else 1

    # ---- coordinates
    def coords(self, name, zero=True, book=None, chap=None):
        k = self.int(name + ".book", 0, NB - 1, "book") if book is None else book
        if chap is None:
            c = self.int(name + ".chapter", 1, None, "chap")
            self.assume_le(c, self.nc(k))
        else:
            c = chap
        v = self.int(name + ".verse", 0 if zero else 1, None, "verse")
        self.assume_le(v, self.mv(k, c))
        if zero and not self.le(1, v):
            self.assume(self.v0(k, c))
        return (k, c, v)

    def lex_eq(self, a, b):
        return self.eq(a[0], b[0]) and self.eq(a[1], b[1]) and self.eq(a[2], b[2])

    def lex_cmp(self, a, b):
        for x, y in zip(a, b):
            if not self.eq(x, y):
                return -1 if self.lt(x, y) else 1
        return 0

    def lex_le(self, a, b):
        return self.lex_cmp(a, b) <= 0

    def lex_lt(self, a, b):
        return self.lex_cmp(a, b) < 0

    def exists(self, x, zero):
        k, c, v = x
        return self.le(1, c) and self.le(c, self.nc(k)) and self.le(self.minv(k, c, zero), v) and self.le(v, self.mv(k, c))

    def first_of(self, k, c, zero):
        c = 1 if c is None else c
        return (k, c, self.minv(k, c, zero))

    def last_of(self, k, c):
        c = self.nc(k) if c is None else c
        return (k, c, self.mv(k, c))

    def nxt(self, x, zero, multi):
        k, c, v = x
        if self.lt(v, self.mv(k, c)):
            return (k, c, norm(num.add(v, 1)))
        if self.lt(c, self.nc(k)):
            c2 = norm(num.add(c, 1))
            return (k, c2, self.minv(k, c2, zero))
        if not multi or not self.lt(k, NB - 1):
            return None
        k2 = norm(num.add(k, 1))
        return (k2, 1, self.minv(k2, 1, zero))

    def prv(self, x, zero, multi):
        k, c, v = x
        if self.lt(self.minv(k, c, zero), v):
            return (k, c, norm(num.sub(v, 1)))
        if self.lt(1, c):
            c2 = norm(num.sub(c, 1))
            return (k, c2, self.mv(k, c2))
        if not multi or not self.lt(0, k):
            return None
        k2 = norm(num.sub(k, 1))
        c2 = self.nc(k2)
        return (k2, c2, self.mv(k2, c2))

    # ---- flags
    def flag(self, name):
        return mk(self.k.lib.flag_sym(self.k.fcls, name))

    def fbit(self, f, name):
        a = f.one()
        w = dict(a[2])[self.k.bits[name]]
        b = self.k.lib.bit(self.st, w)
        if isinstance(b, bool):
            return b
        val = self.choose(2) == 0
        self.st.bits[b] = val
        return val

    def set_global(self, f):
        m = self.k.h.mod(PKG)
        self.st.put(m, self.st.get(m).setf("flags", f))

    def flags(self, omit=True):
        """flags argument (or none) and the flags in effect; both unknown"""
        g = self.flag("g")
        self.set_global(g)
        if omit and self.pick("flags", ["given", "omitted"]) == "omitted":
            return {}, g
        f = self.flag("f")
        return {"flags": f}, f

    # ---- objects
    def num(self, x):
        return vint(norm(x) if isinstance(x, Lin) else x)

    def book(self, k):
        return mk(("bk", k))

    def build(self, cls, args, kw):
        """a successfully constructed input; all flags in effect"""
        k = self.k
        ph = k.I.phase
        k.I.phase = "input"
        try:
            rs, raised = k.h.call(self.st, mk(("o", cls)), args, dict(kw, flags=k.h.flag(3)), "in%d" % self.n)
        finally:
            k.I.phase = ph
        if not rs:
            raise Infeasible()
        i = self.choose(len(rs)) if len(rs) > 1 else 0
        self.st, v = rs[i]
        return v

    def verse(self, x):
        v = self.build(self.k.Verse, [self.book(x[0]), self.num(x[1]), self.num(x[2])], {})
        self.assume(self.lex_eq(self.vcoords(v), x))
        return v

    def range(self, a, b):
        """a range from a to b (a <= b)"""
        va = self.verse(a)
        vb = self.verse(b)
        r = self.build(self.k.Range, [], {"start": va, "end": vb})
        x, y = self.rcoords(r)
        self.assume(self.lex_eq(x, a) and self.lex_eq(y, b))
        return r

    def pylist(self, vs, key="src"):
        I = self.k.I
        ph = I.phase
        I.phase = "input"
        oid = I.alloc(self.st, self.k.h.node("%s%d" % (key, self.n)), Obj("list", items=tuple(vs)), key=key)
        I.phase = ph
        return mk(("o", oid))

    def rlist(self, groups):
        """a reference list of the given groups of ranges"""
        src = self.pylist([self.pylist(g, "grp%d" % i) for i, g in enumerate(groups)])
        return self.build(self.k.List, [src], {})

    def items(self, v):
        """the items of a list the package returns, in order"""
        if v.one() is None:
            raise Unsure("several possible lists")
        if not self.isa(v, self.k.List):
            return None
        return self.seq(v)

    def groups(self, v):
        """the items of a list, group by group"""
        if v.one() is None:
            raise Unsure("several possible lists")
        if not self.isa(v, self.k.List):
            return None
        rs, raised = self.k.h.getattr(self.st.copy(), v, "groups", "grp")
        if len(rs) != 1 or raised:
            raise Unsure("the groups of the result are not known exactly")
        return self.seq(rs[0][1], rs[0][0], lambda x, s: self.seq(x, s))

    def seq(self, v, st=None, each=lambda x, s: x, limit=None):
        h = self.k.h
        st = (st or self.st).copy()
        acc = []

        def cb(s, x):
            if not s.exact:
                raise Unsure("the items are not known exactly")
            acc.append(each(x, s))
            if limit is not None and len(acc) > limit:
                raise Wrong("reading the items does not end")
            return [s]
        try:
            rs, raised = h.drive(st, lambda: self.k.I.iterate(st, v, cb, h.node("items")))
        except Incomplete as e:
            raise Unsure(str(e))
        if raised and not rs and len(raised) == 1 and raised[0][0].exact:
            raise Wrong("reading the items fails")
        if raised or len(rs) != 1 or not rs[0].exact:
            raise Unsure("the items of the result are not known exactly")
        return acc

    def field(self, v, name):
        a = v.one()
        if a is None:
            raise Unsure("several possible objects")
        if a[0] != "o":
            return None
        o = self.st.get(a[1])
        if o is None or not isinstance(o.cls, tuple):
            return None
        r = o.f.get(name)
        if r is None:
            rs, raised = self.k.h.getattr(self.st.copy(), v, name, "f")
            if len(rs) != 1 or raised:
                raise Unsure("attribute %s" % name)
            return rs[0][1]
        return r

    def isa(self, v, cls):
        a = v.one()
        if a is None:
            raise Unsure("several possible objects")
        if a[0] == "top":
            raise Unsure("unknown object")
        if a[0] != "o":
            return False
        o = self.st.get(a[1])
        return o is not None and isinstance(o.cls, tuple) and o.cls in self.k.I.classes and cls in self.k.I.mro(o.cls)

    def intval(self, v):
        a = v.one()
        if a is None or a[0] == "top":
            raise Unsure("a number is not known exactly")
        x = self.k.lib.as_num(a)
        if isinstance(x, Itv):
            raise Unsure("a number is not known exactly")
        return x

    def bookval(self, v):
        a = v.one()
        if a is None or a[0] == "top":
            raise Unsure("a book is not known exactly")
        if a[0] == "bk":
            if a[1] is None or isinstance(a[1], Itv):
                raise Unsure("a book is not known exactly")
            return a[1]
        if a[0] == "o" and a[1] in self.k.lib.bookidx:
            return self.k.lib.bookidx[a[1]]
        return None

    def boolval(self, v):
        a = v.one()
        if a is None or a[0] == "top":
            raise Unsure("a truth value is not known exactly")
        return a[1] if a[0] == "b" else None

    def vcoords(self, v):
        if not self.isa(v, self.k.Verse):
            return None
        k = self.bookval(self.field(v, "book"))
        c = self.intval(self.field(v, "chap_num"))
        n = self.intval(self.field(v, "verse_num"))
        if k is None or c is None or n is None:
            raise Wrong("a verse whose parts are not a book and two numbers")
        return (k, c, n)

    def rcoords(self, r):
        if not self.isa(r, self.k.Range):
            return None
        a, b = self.vcoords(self.field(r, "start")), self.vcoords(self.field(r, "end"))
        if a is None or b is None:
            raise Wrong("a range whose ends are not verses")
        return a, b

    # ---- verdicts
    def check(self, c, msg):
        if not c:
            raise Wrong(msg() if callable(msg) else msg)

    def is_exc(self, r, *names):
        if r[0] != "err":
            return False
        a = r[1].one()
        if a is None or a[0] != "o":
            raise Unsure("exception is not known")
        o = self.st.get(a[1])
        cls = o.cls if o is not None and isinstance(o.cls, tuple) else a[1]
        if cls not in self.k.I.classes:
            raise Unsure("exception is not known")
        return any(c[-1] in names or getattr(self.k.I.classes[c], "name", None) in names for c in self.k.I.mro(cls))

    def exc_name(self, r):
        a = r[1].one()
        o = self.st.get(a[1]) if a is not None and a[0] == "o" else None
        c = o.cls if o is not None else None
        ci = self.k.I.classes.get(c) if isinstance(c, tuple) else None
        return ci.qual.split(".")[-1] if ci is not None else "an exception"

    def rdescr(self, r):
        if r[0] == "err":
            return "raises %s" % self.exc_name(r)
        return "answers %s" % self.descr(r[1])

    def descr(self, v):
        try:
            a = v.one()
            if a == NONE:
                return "None"
            if a is not None and a[0] == "b":
                return str(a[1])
            if self.isa(v, self.k.Verse):
                return self.show(self.vcoords(v))
            if self.isa(v, self.k.Range):
                return "-".join(self.show(x) for x in self.rcoords(v))
            n = self.k.lib.as_num(a)
            if n is not None:
                return self.shown(n)
        except (Unsure, Wrong):
            pass
        return "something else"

    def shown(self, x):
        x = const(self.st.store, num.lin(x)) if not isinstance(x, Itv) else x
        if isinstance(x, int):
            return str(x)
        if isinstance(x, Lin):
            return "".join("%s%s%s" % ("" if i == 0 and k > 0 else "+" if k > 0 else "-", "" if abs(k) == 1 else "%d*" % abs(k), num.NAMES.get(a, "?"))
                           for i, (a, k) in enumerate(x.t)) + ("%+d" % x.c if x.c else "")
        return str(x)

    def show(self, x):
        if x is None:
            return "None"
        k = const(self.st.store, num.lin(x[0]))
        return "%s %s:%s" % (NAMES[k] if isinstance(k, int) and 0 <= k < NB else "book " + self.shown(x[0]), self.shown(x[1]), self.shown(x[2]))

    # ---- a member of the partition
    def member(self, limit=4.0):
        m = Member(self.st.store, self.syms, time.time() + limit).find()
        if m is None:
            return None
        g = {}
        for name, (a, kind) in self.syms.items():
            g[name] = m[name]
        out, done = [], set()
        for name in g:
            base = name.rsplit(".", 1)[0]
            if name.endswith(".book"):
                b = NAMES[g[name]]
                if base + ".chapter" in g:
                    out.append("%s = %s %s:%s" % (base, b, g[base + ".chapter"], g.get(base + ".verse", "?")))
                    done |= {base + ".chapter", base + ".verse"}
                else:
                    out.append("%s = %s" % (base, b))
            elif name not in done:
                out.append("%s = %s" % (name, g[name]))
        for w, val in sorted(self.st.bits.items()):
            out.append("%s %s=%s" % ({"f": "passed", "g": "package-wide"}.get(w[0], w[0]), {str(b): n for n, b in self.k.bits.items()}.get(w[1:], w[1:]), "on" if val else "off"))
        return ", ".join(out) or "every input"


class Member:
    """search for integers that satisfy a partition, with the actual tables"""

    def __init__(self, st, syms, deadline):
        self.st, self.syms, self.deadline = st, syms, deadline
        self.names = list(syms)

    def find(self):
        self.val = {}
        r = self.go(0, self.st.clone())
        return r

    def go(self, i, st):
        if time.time() > self.deadline:
            return None
        if i == len(self.names):
            return self.final(st)
        name = self.names[i]
        a, kind = self.syms[name]
        if a.__class__ is Lin and any(x not in st.ub and x not in st.sub for x, _ in a.t):
            for v in ({"book": 0}.get(kind, 1),):       # (no longer bound by anything)
                self.val[name] = v
                r = self.go(i + 1, st)
                if r is not None:
                    return r
            return None
        for v in self.cands(st, a, kind):
            s = st.clone()
            try:
                s.assert_eq(num.sub(a, v))
                eq_hook(s)
            except Inconsistent:
                continue
            self.val[name] = v
            r = self.go(i + 1, s)
            if r is not None:
                return r
        return None

    def cands(self, st, a, kind):
        hi = st.ub_of(a)
        lo = st.ub_of(num.scale(a, -1))
        lo = -lo if lo is not None else None
        if kind == "book":
            base = [0, 18, 1, 30, 17, 19, 64, 65, 39, 38, 31, 21, 2, 63]
            base += [x for x in range(NB) if x not in base]
        else:
            l = lo if lo is not None else (hi - 200 if hi is not None else -3)
            h = hi if hi is not None else max(l, 0) + 200
            base = sorted(range(l, h + 1), key=lambda x: (min(abs(x - l), abs(h - x)), x))[:60]
            base += [x for x in (3, 119, 0, 1) if x not in base]
        return [x for x in base if (lo is None or x >= lo) and (hi is None or x <= hi)]

    def final(self, st):
        # every table entry must have its actual value
        for args, at in st.apps.get("NC", ()):
            k = const(st, args[0])
            if not isinstance(k, int) or not 0 <= k < NB or const(st, at) != len(MAXV[k]):
                return None
        for args, at in st.apps.get("MV", ()):
            k, c = const(st, args[0]), const(st, args[1])
            if not isinstance(k, int) or not isinstance(c, int) or not 0 <= k < NB or not 1 <= c <= len(MAXV[k]):
                continue
            if const(st, at) != MAXV[k][c - 1]:
                return None
        for args, val in st.bools.get("V0", ()):
            k, c = const(st, args[0]), const(st, args[1])
            if not isinstance(k, int) or not isinstance(c, int) or val != (0 <= k < NB and c in VZERO[k]):
                return None
        return dict(self.val)
