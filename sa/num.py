"""Numeric abstract domain.

A conjunction of linear constraints over integer atoms.  Difference constraints
(x - y <= c) live in a closed difference-bound matrix (the zone domain); other
linear constraints are kept aside and decided together with the relevant zone
constraints by Fourier-Motzkin elimination (polyhedra domain).  Uninterpreted
function applications (tables of the Bible data) are atoms kept closed under
congruence.
"""
from math import gcd

INF = None


class Lin:
    """Immutable linear expression c0 + sum(ci * atom_i)."""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t          # tuple of (atom, coef) sorted by atom
        self._h = None

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        return Lin(int(x))

    def is_const(self):
        return not self.t

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, other):
        return isinstance(other, Lin) and self.c == other.c and self.t == other.t

    def __repr__(self):
        return "Lin(%d%s)" % (self.c, "".join(" %+d*%s" % (k, a) for a, k in self.t))


def lin(x):
    return x if isinstance(x, Lin) else Lin(int(x))


def norm(e):
    """Collapse to python int if constant."""
    if isinstance(e, Lin) and not e.t:
        return e.c
    return e


def add(a, b, kb=1):
    a = lin(a)
    b = lin(b)
    if not b.t:
        return Lin(a.c + kb * b.c, a.t)
    if not a.t and kb == 1:
        return Lin(a.c + b.c, b.t)
    d = dict(a.t)
    for at, k in b.t:
        n = d.get(at, 0) + kb * k
        if n:
            d[at] = n
        else:
            d.pop(at, None)
    return Lin(a.c + kb * b.c, tuple(sorted(d.items())))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    a = lin(a)
    if k == 0:
        return Lin(0)
    return Lin(a.c * k, tuple((at, c * k) for at, c in a.t))


class Inconsistent(Exception):
    pass


_COUNTER = [0]
NAMES = {}


class Store:
    """Conjunction of constraints; `le(e)` means e <= 0.  Atoms are numbered globally."""

    def __init__(self):
        self.ub = {}          # zone: ub[x][y] = c  meaning x - y <= c ; atom 0 is the zero
        self.ub[0] = {0: 0}
        self.gen = []         # non-difference constraints e <= 0
        self.sub = {}         # atom -> Lin
        self.apps = {}        # fn -> list of (args tuple, atom)
        self.bools = {}       # fn -> list of (args tuple, value)
        self.app_hook = None  # called (fn,args,atom) on creation, to add axioms
        self.eq_hook = None   # called after new equalities, to add axioms of constant arguments
        self._in_hook = False
        self.nq = 0
        self._gencache = {}

    def clone(self):
        n = Store.__new__(Store)
        n.ub = {a: dict(r) for a, r in self.ub.items()}
        n.gen = list(self.gen)
        n.sub = dict(self.sub)
        n.apps = {f: list(l) for f, l in self.apps.items()}
        n.bools = {f: list(l) for f, l in self.bools.items()}
        n.app_hook = self.app_hook
        n.eq_hook = self.eq_hook
        n._in_hook = False
        n.nq = 0
        n._gencache = {}
        return n

    def forget(self, a):
        """project an atom out of the zone part"""
        if a in self.sub:
            return
        self.ub.pop(a, None)
        for r in self.ub.values():
            r.pop(a, None)
        self.gen = [g for g in self.gen if all(x != a for x, _ in g.t)]
        self.sub = {x: e for x, e in self.sub.items() if all(y != a for y, _ in e.t)}
        self._gencache = {}

    def join(self, other):
        """least upper bound in the zone part; other constraints are kept when both have them"""
        n = Store()
        n.app_hook, n.eq_hook = self.app_hook, self.eq_hook
        n.ub = {}
        for a, r in self.ub.items():
            o = other.ub.get(a)
            if o is None:
                # atom only known on one side: keep its bounds against constants
                row = {a: 0}
                if 0 in r:
                    row[0] = r[0]
                n.ub[a] = row
                continue
            n.ub[a] = {b: max(c, o[b]) for b, c in r.items() if b in o}
        for a, r in other.ub.items():
            if a not in n.ub:
                row = {a: 0}
                if 0 in r:
                    row[0] = r[0]
                n.ub[a] = row
                z = other.ub[0].get(a)
                if z is not None:
                    n.ub[0][a] = z
        for a in self.ub:
            if a not in other.ub and a in self.ub[0]:
                n.ub[0][a] = self.ub[0][a]
        og = set(other.gen)
        n.gen = [g for g in self.gen if g in og]
        n.sub = {a: e for a, e in self.sub.items() if other.sub.get(a) == e}
        for a in set(self.sub) | set(other.sub):
            if a not in n.sub and a not in n.ub:
                n.ub[a] = {a: 0}
        for f, l in self.apps.items():
            o = other.apps.get(f, ())
            k = [x for x in l if x in o]
            if k:
                n.apps[f] = k
        for f, l in self.bools.items():
            o = other.bools.get(f, ())
            k = [x for x in l if x in o]
            if k:
                n.bools[f] = k
        n._close()
        return n

    def _close(self):
        pass

    # -- atoms
    def atom(self, name="a"):
        _COUNTER[0] += 1
        a = _COUNTER[0]
        NAMES[a] = name
        self.ub[a] = {a: 0}
        return Lin(0, ((a, 1),))

    def red(self, e):
        e = lin(e)
        if not self.sub or not e.t:
            return e
        while any(a in self.sub for a, _ in e.t):
            r = Lin(e.c)
            for a, k in e.t:
                s = self.sub.get(a)
                if s is None:
                    r = add(r, Lin(0, ((a, k),)))
                else:
                    r = add(r, scale(s, k))
            e = r
        return e

    @staticmethod
    def _diff(e):
        """If e is x - y + c, x + c or -y + c return (x, y, c) else None."""
        t = e.t
        if len(t) == 1:
            (a, k), = t
            if k == 1:
                return (a, 0, e.c)
            if k == -1:
                return (0, a, e.c)
        elif len(t) == 2:
            (a, k), (b, m) = t
            if k == 1 and m == -1:
                return (a, b, e.c)
            if k == -1 and m == 1:
                return (b, a, e.c)
        return None

    @staticmethod
    def _tight(e):
        """normalise e <= 0 dividing by gcd with integer tightening"""
        g = 0
        for _, k in e.t:
            g = gcd(g, abs(k))
        if g > 1:
            # sum + c <= 0  ->  sum/g <= floor(-c/g)
            return Lin(-((-e.c) // g), tuple((a, k // g) for a, k in e.t))
        return e

    def simp(self, e):
        """e with atoms of known value, and pairs of opposite atoms at a known distance, replaced by constants"""
        t = e.t
        if len(t) < 2:
            return e
        ub = self.ub
        z = ub[0]
        c = e.c
        rest = []
        for a, k in t:
            r = ub.get(a)
            if r is not None:
                hi, lo = r.get(0), z.get(a)
                if hi is not None and lo is not None and hi == -lo:
                    c += k * hi
                    continue
            rest.append((a, k))
        again = len(rest) > 1
        while again:
            again = False
            for i in range(len(rest)):
                a, k = rest[i]
                ra = ub.get(a)
                if ra is None:
                    continue
                for j in range(i + 1, len(rest)):
                    b, m = rest[j]
                    if (k > 0) == (m > 0):
                        continue
                    x = ra.get(b)
                    y = ub[b].get(a) if b in ub else None
                    if x is not None and y is not None and x == -y:
                        # a = b + x
                        c += k * x
                        n = k + m
                        rest = [p for q, p in enumerate(rest) if q != i and q != j] + ([(b, n)] if n else [])
                        rest.sort()
                        again = True
                        break
                if again:
                    break
        if len(rest) == len(t) and c == e.c:
            return e
        return Lin(c, tuple(rest))

    # -- assertion
    def assert_le(self, e):
        """assert e <= 0"""
        e = self._tight(self.simp(self.red(e)))
        if not e.t:
            if e.c > 0:
                raise Inconsistent()
            return
        d = self._diff(e)
        if d is None:
            self.gen.append(e)
            self._gencache = {}
            if self._fm_infeasible([]):
                raise Inconsistent()
            # opposite inequalities give an equality
            ne = Lin(-e.c, tuple((a, -k) for a, k in e.t))
            if ne in self.gen:
                self.assert_eq(e)
            return
        x, y, c = d
        self._add_zone(x, y, -c)

    def _add_zone(self, x, y, c):
        # x - y <= c
        ub = self.ub
        cur = ub[x].get(y)
        if cur is not None and cur <= c:
            return
        back = ub[y].get(x)
        if back is not None and back + c < 0:
            raise Inconsistent()
        self._gencache = {}
        neweq = back is not None and back + c == 0
        ins = [(u, row[x]) for u, row in ub.items() if x in row]
        outs = list(ub[y].items())
        for u, du in ins:
            row = ub[u]
            duc = du + c
            for v, dv in outs:
                n = duc + dv
                o = row.get(v)
                if o is None or n < o:
                    row[v] = n
                    if not neweq:
                        b = ub[v].get(u)
                        if b is not None and b + n == 0 and u != v:
                            neweq = True
        if self.gen and self._fm_infeasible([]):
            raise Inconsistent()
        if neweq:
            self._congruence()

    def assert_eq(self, e):
        e = self.simp(self.red(e))
        if not e.t:
            if e.c:
                raise Inconsistent()
            return
        g = 0
        for _, k in e.t:
            g = gcd(g, abs(k))
        if g > 1:
            if e.c % g:
                raise Inconsistent()
            e = Lin(e.c // g, tuple((a, k // g) for a, k in e.t))
        d = self._diff(e)
        if d is not None:
            x, y, c = d
            self._add_zone(x, y, -c)
            self._add_zone(y, x, c)
            return
        # solve for newest atom with unit coefficient
        pick = None
        for a, k in reversed(e.t):
            if abs(k) == 1:
                pick = (a, k)
                break
        if pick is None:
            self.gen.append(e)
            self.gen.append(scale(e, -1))
            if self._fm_infeasible([]):
                raise Inconsistent()
            return
        a, k = pick
        rest = Lin(e.c, tuple((b, m) for b, m in e.t if b != a))
        val = scale(rest, -1 if k == 1 else 1)
        # collect constraints on a
        old = []
        row = self.ub[a]
        for y, c in row.items():
            if y != a:
                old.append(add(add(Lin(0, ((a, 1),)), Lin(0, ((y, 1),)) if y else Lin(0), -1), -c))
        for x, r in self.ub.items():
            if x != a and a in r:
                old.append(add(add(Lin(0, ((x, 1),)) if x else Lin(0), Lin(0, ((a, 1),)), -1), -r[a]))
        del self.ub[a]
        for r in self.ub.values():
            r.pop(a, None)
        gens = self.gen
        self.gen = []
        self._gencache = {}
        self.sub[a] = val
        for o in old + gens:
            self.assert_le(o)
        self._congruence()

    # -- queries
    def ub_of(self, e):
        """best known upper bound of e (int) or None, zone only for differences"""
        e = self.red(e)
        if not e.t:
            return e.c
        d = self._diff(e)
        if d is not None:
            x, y, c = d
            b = self.ub.get(x, {}).get(y)
            return None if b is None else b + c
        return None

    def entails_le(self, e):
        self.nq += 1
        e = self._tight(self.simp(self.red(e)))
        if not e.t:
            return e.c <= 0
        d = self._diff(e)
        if d is not None:
            x, y, c = d
            b = self.ub[x].get(y)
            if b is not None and b + c <= 0:
                return True
            if not self.gen:
                return False
        neg = self._tight(add(Lin(1), e, -1))      # 1 - e <= 0
        return self._fm_infeasible([neg])

    def entails_eq(self, e):
        return self.entails_le(e) and self.entails_le(scale(e, -1))

    def feasible_le(self, e):
        """could e <= 0 hold?"""
        return not self.entails_le(add(Lin(1), e, -1))

    def _fm_infeasible(self, extra):
        key = tuple(extra)
        r = self._gencache.get(key)
        if r is None:
            r = self._fm(extra)
            self._gencache[key] = r
        return r

    def _fm(self, extra):
        cons = set(self.gen) | set(extra)
        if not cons:
            return False
        if not self.gen:
            return False
        # atoms of general constraints connected to `extra` (or all if no extra)
        rel = set()
        for e in (extra or self.gen):
            rel.update(a for a, _ in e.t)
        changed = True
        use = set(extra)
        pool = set(self.gen)
        while changed:
            changed = False
            for e in list(pool):
                at = {a for a, _ in e.t}
                if at & rel or any(self._linked(a, rel) for a in at):
                    pool.discard(e)
                    use.add(e)
                    if not at <= rel:
                        rel |= at
                    changed = True
        cons = set(use)
        atoms = sorted(rel)
        for x in atoms:
            row = self.ub.get(x)
            if row is None:
                continue
            for y in atoms + [0]:
                if x != y and y in row:
                    cons.add(self._mk(x, y, -row[y]))
            z = self.ub[0].get(x)
            if z is not None:
                cons.add(self._mk(0, x, -z))
        return fm_infeasible(cons)

    def _linked(self, a, rel):
        row = self.ub.get(a)
        if not row:
            return False
        for y in rel:
            if y in row:
                return True
            r = self.ub.get(y)
            if r and a in r:
                return True
        return False

    @staticmethod
    def _mk(x, y, c):
        t = []
        if x:
            t.append((x, 1))
        if y:
            t.append((y, -1))
        return Lin(c, tuple(sorted(t)))

    # -- uninterpreted functions
    def same(self, a, b):
        d = self.simp(self.red(sub(a, b)))
        if not d.t:
            return d.c == 0
        df = self._diff(d)
        if df is not None:
            x, y, c = df
            b1 = self.ub[x].get(y)
            b2 = self.ub[y].get(x)
            if b1 is not None and b2 is not None and b1 + c == 0 and b2 - c == 0:
                return True
        if self.gen:
            return self.entails_eq(d)
        return False

    def app(self, fn, *args):
        args = tuple(lin(a) for a in args)
        lst = self.apps.setdefault(fn, [])
        for ar, at in lst:
            if all(self.same(x, y) for x, y in zip(ar, args)):
                return at
        at = self.atom(fn)
        lst.append((args, at))
        if self.app_hook:
            self.app_hook(self, fn, args, at)
        return at

    def boolapp(self, fn, args):
        """return recorded truth value or None"""
        args = tuple(lin(a) for a in args)
        for ar, v in self.bools.get(fn, ()):
            if all(self.same(x, y) for x, y in zip(ar, args)):
                return v
        return None

    def set_boolapp(self, fn, args, val):
        args = tuple(lin(a) for a in args)
        self.bools.setdefault(fn, []).append((args, val))

    def _congruence(self):
        for fn, lst in self.apps.items():
            n = len(lst)
            for i in range(n):
                for j in range(i):
                    (a1, t1), (a2, t2) = lst[i], lst[j]
                    if not self.same(t1, t2) and all(self.same(x, y) for x, y in zip(a1, a2)):
                        self.assert_eq(sub(t1, t2))
        for fn, lst in self.bools.items():
            n = len(lst)
            for i in range(n):
                for j in range(i):
                    if lst[i][1] != lst[j][1] and all(self.same(x, y) for x, y in zip(lst[i][0], lst[j][0])):
                        raise Inconsistent()
        if self.eq_hook is not None and not self._in_hook:
            self._in_hook = True
            try:
                self.eq_hook(self)
            finally:
                self._in_hook = False


def fm_infeasible(cons, cap=600):
    """Fourier-Motzkin with integer tightening; True if provably infeasible."""
    cons = {Store._tight(c) for c in cons}
    while True:
        for c in cons:
            if not c.t and c.c > 0:
                return True
        cons = {c for c in cons if c.t}
        if not cons:
            return False
        # dedupe: keep strongest for the same linear part
        best = {}
        for c in cons:
            o = best.get(c.t)
            if o is None or c.c > o:
                best[c.t] = c.c
        cons = {Lin(c, t) for t, c in best.items()}
        cnt = {}
        for c in cons:
            for a, k in c.t:
                p = cnt.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        v = min(cnt, key=lambda a: cnt[a][0] * cnt[a][1] - cnt[a][0] - cnt[a][1])
        pos, neg, rest = [], [], set()
        for c in cons:
            k = dict(c.t).get(v)
            if k is None:
                rest.add(c)
            elif k > 0:
                pos.append((c, k))
            else:
                neg.append((c, -k))
        for c, k in pos:
            for d, m in neg:
                n = add(scale(c, m), scale(d, k))
                rest.add(Store._tight(n))
        if len(rest) > cap:
            return False
        cons = rest
