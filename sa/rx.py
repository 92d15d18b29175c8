"""Languages of regular expressions: a pattern constant found in the source becomes a finite automaton; membership, intersection and inclusion are
decided on the automata over a representative alphabet (every character any pattern distinguishes, plus representatives of the rest)."""
import re
try:
    from re import _parser as sre, _constants as C
except ImportError:          # before Python 3.11
    import sre_parse as sre
    import sre_constants as C

ALPHA = [chr(i) for i in range(32, 127)] + ["\t", "\n", "\u00e9", "\u00c9", "\u00a0", "\u2013", "\u0661"]


class Unsupported(Exception):
    pass


def flagbits(fl):
    if isinstance(fl, int):
        return fl
    r = 0
    for p in str(fl).replace("|", " ").split():
        r |= int(getattr(re, p.split(".")[-1], 0))
    return r


class NFA:
    def __init__(self, pattern, flags=0, alpha=ALPHA):
        self.alpha = alpha
        self.eps = [[]]
        self.tr = [[]]
        self.pred = {}
        fl = flagbits(flags)
        p = sre.parse(pattern, fl)
        self.fl = p.state.flags if hasattr(p, "state") else p.pattern.flags
        self.start = 0
        self.end = self.seq(p, 0)
        self.cache = {}

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def chars(self, op, av):
        """the representative characters an item accepts"""
        k = (op, str(av), self.fl)
        r = self.pred.get(k)
        if r is None:
            r = self.pred[k] = frozenset(c for c in self.alpha if self.ok(op, av, c))
        return r

    def ok(self, op, av, c):
        ic = self.fl & re.IGNORECASE
        if op is C.LITERAL:
            return c == chr(av) or bool(ic) and re.fullmatch(re.escape(chr(av)), c, re.I) is not None
        if op is C.NOT_LITERAL:
            return not self.ok(C.LITERAL, av, c)
        if op is C.ANY:
            return c != "\n" or bool(self.fl & re.DOTALL)
        if op is C.IN:
            neg = bool(av) and av[0][0] is C.NEGATE
            hit = any(self.ok(o, a, c) for o, a in (av[1:] if neg else av))
            return hit != neg
        if op is C.RANGE:
            cs = {c, c.lower(), c.upper()} if ic else {c}
            return any(len(x) == 1 and av[0] <= ord(x) <= av[1] for x in cs)
        if op is C.CATEGORY:
            pat = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S",
                   C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}.get(av)
            if pat is None:
                raise Unsupported(str(av))
            return re.fullmatch(pat, c, self.fl & re.ASCII) is not None
        raise Unsupported(str(op))

    def seq(self, items, s):
        for op, av in items:
            s = self.one(op, av, s)
        return s

    def one(self, op, av, s):
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            t = self.new()
            self.tr[s].append((self.chars(op, av), t))
            return t
        if op is C.SUBPATTERN:
            old = self.fl
            if len(av) == 4:
                self.fl = (self.fl | av[1]) & ~av[2]
            try:
                return self.seq(av[-1], s)
            finally:
                self.fl = old
        if getattr(C, "ATOMIC_GROUP", None) is not None and op is C.ATOMIC_GROUP:
            raise Unsupported("atomic group")
        if op is C.BRANCH:
            t = self.new()
            for br in av[1]:
                a = self.new()
                self.eps[s].append(a)
                self.eps[self.seq(br, a)].append(t)
            return t
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, item = av
            for _ in range(lo):
                s = self.seq(item, s)
            if hi is C.MAXREPEAT:
                a = self.new()
                self.eps[s].append(a)
                b = self.seq(item, a)
                self.eps[b].append(a)
                t = self.new()
                self.eps[a].append(t)
                return t
            if hi - lo > 200:
                raise Unsupported("long repeat")
            ends = [s]
            for _ in range(hi - lo):
                s = self.seq(item, s)
                ends.append(s)
            t = self.new()
            for e in ends:
                self.eps[e].append(t)
            return t
        raise Unsupported(str(op))

    def close(self, ss):
        out = set(ss)
        todo = list(ss)
        while todo:
            for t in self.eps[todo.pop()]:
                if t not in out:
                    out.add(t)
                    todo.append(t)
        return frozenset(out)

    def init(self):
        return self.close([self.start])

    def step(self, S, c):
        r = self.cache.get((S, c))
        if r is None:
            r = self.cache[S, c] = self.close({t for s in S for cs, t in self.tr[s] if c in cs})
        return r

    def acc(self, S):
        return self.end in S

    def dead(self, S):
        return not S


class Lang:
    """the strings for which a match object comes back: method is fullmatch, match or search"""

    def __init__(self, pattern, flags, method="fullmatch"):
        self.n = NFA(pattern, flags)
        self.method = method

    def init(self):
        S = self.n.init()
        return (S, self.n.acc(S) if self.method != "fullmatch" else False)

    def step(self, q, c):
        S, hit = q
        T = self.n.step(S, c)
        if self.method == "search":
            T = self.n.close(T | {self.n.start})
        if self.method == "fullmatch":
            return (T, False)
        return (T, hit or self.n.acc(T))

    def acc(self, q):
        return self.n.acc(q[0]) if self.method == "fullmatch" else q[1]

    def has(self, text):
        q = self.init()
        for c in text:
            if c not in self.n.alpha:
                raise Unsupported("character %r" % c)
            q = self.step(q, c)
        return self.acc(q)


def witness(pos, neg, limit=20000):
    """a shortest string in every language of pos and in none of neg, or None when there is none"""
    ms = list(pos) + list(neg)
    k = len(pos)
    q0 = tuple(m.init() for m in ms)
    seen = {q0: ""}
    todo = [q0]
    while todo:
        nx = []
        for q in todo:
            w = seen[q]
            if all(m.acc(x) for m, x in zip(ms[:k], q[:k])) and not any(m.acc(x) for m, x in zip(ms[k:], q[k:])):
                return w
            for c in ALPHA:
                r = tuple(m.step(x, c) for m, x in zip(ms, q))
                if any(not x[0] and not x[1] for x in r[:k]) or r in seen:
                    continue
                seen[r] = w + c
                nx.append(r)
                if len(seen) > limit:
                    raise Unsupported("too many states")
        todo = nx
    return None


def overlaps(langs):
    """pairs (i, j, string) of fullmatch languages that share a string: one subset construction of all of them"""
    q0 = tuple(m.init()[0] for m in langs)
    seen = {q0: ""}
    todo = [q0]
    out = {}
    while todo:
        nx = []
        for q in todo:
            w = seen[q]
            hit = [i for i, S in enumerate(q) if S and langs[i].n.acc(S)]
            for a in range(len(hit)):
                for b in range(a + 1, len(hit)):
                    out.setdefault((hit[a], hit[b]), w)
            live = [i for i, S in enumerate(q) if S]
            if len(live) < 2:
                continue
            cs = set()
            for i in live:
                for s in q[i]:
                    for cc, _ in langs[i].n.tr[s]:
                        cs |= cc
            for c in cs:
                r = tuple(langs[i].n.step(S, c) if S else S for i, S in enumerate(q))
                if sum(1 for S in r if S) < 2 or r in seen:
                    continue
                seen[r] = w + c
                nx.append(r)
                if len(seen) > 200000:
                    raise Unsupported("too many states")
        todo = nx
    return out
