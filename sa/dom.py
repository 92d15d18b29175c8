"""Abstract values, objects and states of the analysis.

A value V is a finite set of atoms plus a set of provenance labels.  Atoms:
  ("none",) ("b",bool) ("top",)
  ("n",x)   integer: x is a Python int, an Itv (interval) or a Lin over the state's zone
  ("s",p)   string: p is a tuple of constant pieces (str) and holes ("h", ...);  ("S",) any string
  ("fl",c,bits)  a Flag value: bits is a tuple of (bit, True|False|symbol)
  ("bk",x)  a member of the book enumeration, by its place in the canon (x None: any member)
  ("tab",name,x) the per-chapter table `name` of book x
  ("t",(V..)) tuple; ("T",V) tuple of unknown length
  ("o",oid) object in the state's heap (instances, lists, dicts, sets, classes, modules, unknown arguments)
  ("fn",F,fid) function; ("bm",F,selfatom,owner) bound method; ("bi",name) builtin; ("bb",name,atom) bound builtin
  ("prop"|"cm"|"sm", ...) descriptors; ("sup",cls,selfatom); ("ext",dotted) foreign library object
"""
from .num import Lin, Store

NONE = ("none",)
TRUE = ("b", True)
FALSE = ("b", False)
TOPA = ("top",)
ANYSTR = ("S",)
E = frozenset()


class Itv:
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __eq__(self, o):
        return isinstance(o, Itv) and o.lo == self.lo and o.hi == self.hi

    def __hash__(self):
        return hash(("itv", self.lo, self.hi))

    def __repr__(self):
        return "[%s,%s]" % (self.lo, self.hi)


def itv_of(x):
    if isinstance(x, Itv):
        return x.lo, x.hi
    if isinstance(x, int):
        return x, x
    return None, None


def mk_itv(lo, hi):
    if lo is not None and lo == hi:
        return lo
    return Itv(lo, hi)


THRESH = [-1, 0, 1, 2, 3, 65, 66, 150, 176]


def widen_itv(old, new):
    ol, oh = itv_of(old)
    nl, nh = itv_of(new)
    if nl != ol:
        nl = max([t for t in THRESH if nl is not None and t <= nl], default=None)
    if nh != oh:
        nh = min([t for t in THRESH if nh is not None and t >= nh], default=None)
    return mk_itv(nl, nh)


class V:
    __slots__ = ("a", "l", "_h")

    def __init__(self, a, l=E):
        self.a = a
        self.l = l
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and self.a == o.a and self.l == o.l)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.a, self.l))
        return self._h

    def __repr__(self):
        return "V{%s%s}" % (", ".join(map(repr, self.a)), " /" + ",".join(map(str, self.l)) if self.l else "")

    def one(self):
        """the only atom, or None"""
        if len(self.a) == 1:
            for x in self.a:
                return x
        return None

    def lab(self, l):
        if not l or l <= self.l:
            return self
        return V(self.a, self.l | l)


def mk(*atoms, l=E):
    return V(frozenset(atoms), l)


VNONE = mk(NONE)
VTRUE = mk(TRUE)
VFALSE = mk(FALSE)
VBOOL = mk(TRUE, FALSE)
VTOP = mk(TOPA)
VSTR = mk(ANYSTR)
BOT = V(E)


def vint(x, l=E):
    return mk(("n", x), l=l)


def vstr(s, l=E):
    return mk(("s", (s,) if s else ()), l=l)


def vbool(b, l=E):
    return V(VTRUE.a if b else VFALSE.a, l)


def normatoms(atoms, store=None):
    """keep at most one integer, bounded numbers of strings and tuples"""
    nums = [a for a in atoms if a[0] == "n"]
    out = atoms
    if len(nums) > 1:
        lo = hi = 0
        first = True
        for _, x in nums:
            if isinstance(x, Lin):
                l, h = bounds(store, x) if store is not None else (None, None)
            else:
                l, h = itv_of(x)
            if first:
                lo, hi, first = l, h, False
            else:
                lo = None if lo is None or l is None else min(lo, l)
                hi = None if hi is None or h is None else max(hi, h)
        out = frozenset([a for a in atoms if a[0] != "n"] + [("n", mk_itv(lo, hi))])
    strs = [a for a in out if a[0] == "s"]
    if strs and ANYSTR in out:
        out = frozenset(a for a in out if a[0] != "s")
    elif len(strs) > 6:
        out = frozenset([a for a in out if a[0] != "s"] + [ANYSTR])
    tups = [a for a in out if a[0] in ("t", "T")]
    if len(tups) > 1:
        lens = {len(a[1]) if a[0] == "t" else -1 for a in tups}
        if len(lens) == 1 and -1 not in lens:
            n = lens.pop()
            items = tuple(vjoin_all([t[1][i] for t in tups]) for i in range(n))
            out = frozenset([a for a in out if a[0] != "t"] + [("t", items)])
        elif len(tups) > 4 or -1 in lens:
            el = BOT
            for t in tups:
                el = vjoin(el, t[1]) if t[0] == "T" else vjoin_all([el] + list(t[1]))
            out = frozenset([a for a in out if a[0] not in ("t", "T")] + [("T", el)])
    fls = [a for a in out if a[0] == "fl"]
    if len(fls) > 1 and any(isinstance(w, str) and "?" in w for a in fls for _, w in a[2]):
        by = {}
        for a in fls:
            by.setdefault(a[1], []).append(dict(a[2]))
        new = []
        for c, ms in by.items():
            bits = []
            for k in ms[0]:
                ws = {m.get(k, False) for m in ms}
                bits.append((k, ws.pop() if len(ws) == 1 else sorted(w for w in ws if isinstance(w, str) and "?" in w)[0]
                             if any(isinstance(w, str) and "?" in w for w in ws) else "u?%s" % k))
            new.append(("fl", c, tuple(bits)))
        out = frozenset([a for a in out if a[0] != "fl"] + new)
    bks = [a for a in out if a[0] == "bk"]
    if len(bks) > 1:
        out = frozenset([a for a in out if a[0] != "bk"] + [("bk", None)])
    tabs = [a for a in out if a[0] == "tab"]
    if len(tabs) > 1 and len({a[1] for a in tabs}) < len(tabs):
        out = frozenset([a for a in out if a[0] != "tab"] + [("tab", n, None) for n in {a[1] for a in tabs}])
    if len(out) > 40:
        return frozenset([TOPA])
    return out


def vjoin(a, b, store=None):
    if a is b or a == b:
        return a
    at = a.a | b.a
    if len(at) > len(a.a):
        at = normatoms(at, store)
        if at == a.a:
            at = a.a
    return V(at, a.l | b.l)


def vjoin_all(vs):
    r = BOT
    for v in vs:
        r = vjoin(r, v)
    return r


def bounds(store, x):
    """interval of a linear expression in the zone"""
    lo = store.ub_of(Lin(-x.c, tuple((a, -k) for a, k in x.t)))
    hi = store.ub_of(x)
    return (None if lo is None else -lo), hi


class Obj:
    """immutable heap object"""
    __slots__ = ("cls", "f", "items", "elem", "uniq", "x", "ln")

    def __init__(self, cls, f=None, items=None, elem=None, uniq=True, x=None, ln=None):
        self.cls = cls       # class oid of instances; "list" "dict" "set" "class" "module" "any" "gen" "iter"
        self.f = f if f is not None else {}
        self.items = items   # tuple of V (list/set), tuple of (V,V) (dict), or None when the length is unknown
        self.elem = elem     # V of all elements when items is None ((V,V) for dicts)
        self.uniq = uniq
        self.x = x           # extra immutable information
        self.ln = ln         # V: length, when items is None

    def __eq__(self, o):
        return self is o or (o is not None and self.cls == o.cls and self.uniq == o.uniq and self.items == o.items and
                             self.elem == o.elem and self.x == o.x and self.f == o.f and self.ln == o.ln)

    def __hash__(self):
        return id(self)

    def rep(self, **kw):
        n = Obj(self.cls, self.f, self.items, self.elem, self.uniq, self.x, self.ln)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def setf(self, name, v):
        f = dict(self.f)
        f[name] = v
        return self.rep(f=f)

    def delf(self, name):
        f = dict(self.f)
        f.pop(name, None)
        return self.rep(f=f)

    def all_elem(self):
        if self.items is not None:
            if self.cls == "dict":
                return vjoin_all([k for k, _ in self.items]), vjoin_all([v for _, v in self.items])
            return vjoin_all(self.items)
        return self.elem

    def values(self):
        """every V held by the object"""
        for v in self.f.values():
            yield v
        if self.items is not None:
            for it in self.items:
                if isinstance(it, tuple):
                    yield it[0]
                    yield it[1]
                else:
                    yield it
        if self.elem is not None:
            if isinstance(self.elem, tuple):
                yield self.elem[0]
                yield self.elem[1]
            else:
                yield self.elem

    def __repr__(self):
        return "Obj(%s %s%s%s)" % (self.cls, self.f, "" if self.items is None else " items=%r" % (self.items,),
                                   "" if self.elem is None else " elem=%r" % (self.elem,))


def map_v(v, fn):
    """apply fn to atoms deeply (tuples included)"""
    ch = False
    out = []
    for a in v.a:
        b = map_atom(a, fn)
        if b is not a:
            ch = True
        out.append(b)
    return V(frozenset(out), v.l) if ch else v


def map_atom(a, fn):
    t = a[0]
    if t == "o":
        return fn(a)
    if t == "t":
        items = tuple(map_v(x, fn) for x in a[1])
        return a if all(x is y for x, y in zip(items, a[1])) else ("t", items)
    if t == "T":
        x = map_v(a[1], fn)
        return a if x is a[1] else ("T", x)
    if t == "bm":
        s = map_atom(a[2], fn)
        return a if s is a[2] else ("bm", a[1], s, a[3])
    if t in ("bb", "sup"):
        s = map_atom(a[2], fn)
        return a if s is a[2] else (t, a[1], s)
    return a


def map_obj(o, fn):
    ch = {}
    f = None
    for k, v in o.f.items():
        w = map_v(v, fn)
        if w is not v:
            if f is None:
                f = dict(o.f)
            f[k] = w
    if f is not None:
        ch["f"] = f
    if o.items is not None:
        it = tuple((map_v(i[0], fn), map_v(i[1], fn)) if isinstance(i, tuple) else map_v(i, fn) for i in o.items)
        if it != o.items:
            ch["items"] = it
    if o.elem is not None:
        el = (map_v(o.elem[0], fn), map_v(o.elem[1], fn)) if isinstance(o.elem, tuple) else map_v(o.elem, fn)
        if el != o.elem:
            ch["elem"] = el
    return o.rep(**ch) if ch else o


def oids(v, acc):
    for a in v.a:
        _oids_atom(a, acc)


def _oids_atom(a, acc):
    t = a[0]
    if t == "o":
        acc.append(a[1])
    elif t == "t":
        for x in a[1]:
            oids(x, acc)
    elif t == "T":
        oids(a[1], acc)
    elif t in ("bm", "bb", "sup"):
        _oids_atom(a[2], acc)


class State:
    __slots__ = ("env", "heap", "base", "store", "bits", "pc", "exact", "note", "ov")

    def __init__(self, base=None):
        self.env = {}        # (fid, name) -> V
        self.heap = {}       # overlay
        self.base = base if base is not None else {}
        self.store = None
        self.bits = {}
        self.pc = E
        self.exact = True
        self.note = ()
        self.ov = {}         # modified objects of the loaded program

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.base = self.base
        s.store = self.store.clone() if self.store is not None else None
        s.bits = dict(self.bits)
        s.pc = self.pc
        s.exact = self.exact
        s.note = self.note
        s.ov = self.ov
        return s

    def get(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = self.base.get(oid)
        return o

    def put(self, oid, obj):
        self.heap[oid] = obj
        if oid[0] == "load":
            self.ov = dict(self.ov)
            self.ov[oid] = obj

    def same(self, o):
        return self.env == o.env and self.heap == o.heap and self.bits == o.bits and self.pc == o.pc

    def rename(self, old, new):
        """redirect every reference to object `old` to `new`"""
        key = ("o", old)
        nw = ("o", new)

        def fn(a):
            return nw if a == key else a
        for k, v in self.env.items():
            w = map_v(v, fn)
            if w is not v:
                self.env[k] = w
        for k, o in self.heap.items():
            w = map_obj(o, fn)
            if w is not o:
                self.heap[k] = w

    def rename_many(self, m):
        """redirect references: m maps old oid -> new oid"""
        mm = {("o", k): ("o", v) for k, v in m.items()}

        def fn(a):
            return mm.get(a, a)
        for k, v in self.env.items():
            w = map_v(v, fn)
            if w is not v:
                self.env[k] = w
        for k, o in self.heap.items():
            if k[0] != "val":
                w = map_obj(o, fn)
                if w is not o:
                    self.heap[k] = w

    def reach(self, vs, stop=None):
        """oids reachable from the values vs"""
        seen = set()
        todo = []
        for v in vs:
            oids(v, todo)
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            ob = self.get(o)
            if ob is None or (stop is not None and stop(o, ob)):
                continue
            for v in ob.values():
                oids(v, todo)
            if isinstance(ob.cls, tuple) and ob.cls not in seen and stop is None:
                todo.append(ob.cls)
        return seen


def join_obj(a, b, lab, widen=False):
    """least upper bound; values that differ receive the labels `lab`"""
    if a is b:
        return a
    if a == b:
        return a
    if a.cls != b.cls:
        return Obj("any", uniq=False, x=("top",))
    f = {}
    for k in set(a.f) | set(b.f):
        x, y = a.f.get(k), b.f.get(k)
        if x is None or y is None:
            f[k] = (x if y is None else y).lab(lab)
        else:
            f[k] = join_v(x, y, lab, widen)
    items = elem = ln = None
    if a.items is not None and b.items is not None and len(a.items) == len(b.items) and \
            (a.cls != "dict" or all(p[0] == q[0] for p, q in zip(a.items, b.items))):
        items = tuple((join_v(p[0], q[0], lab), join_v(p[1], q[1], lab)) if isinstance(p, tuple) else join_v(p, q, lab)
                      for p, q in zip(a.items, b.items))
    elif a.items is not None or b.items is not None or a.elem is not None or b.elem is not None:
        ea, eb = a.all_elem(), b.all_elem()
        if a.cls == "dict":
            elem = (vjoin(ea[0], eb[0]).lab(lab), vjoin(ea[1], eb[1]).lab(lab))
        else:
            elem = vjoin(ea, eb).lab(lab)
        la = vint(len(a.items)) if a.items is not None else a.ln
        lb = vint(len(b.items)) if b.items is not None else b.ln
        if la is not None and lb is not None:
            ln = join_v(la, lb, lab, widen)
    x = a.x
    if a.x != b.x:
        if a.cls == "any":
            x = join_any(a.x, b.x)
        else:
            x = ("mixed",)
    return Obj(a.cls, f, items, elem, a.uniq and b.uniq, x, ln)


def join_any(x, y):
    """kinds of an unknown object: ("is", classes) | ("not", classes) | ("top",)"""
    if x == y:
        return x
    if not x or not y or x[0] == "top" or y[0] == "top":
        return ("top",)
    if x[0] == "is" and y[0] == "is":
        return ("is", x[1] | y[1])
    if x[0] == "not" and y[0] == "not":
        n = x[1] & y[1]
        return ("not", n) if n else ("top",)
    if x[0] == "is":
        x, y = y, x
    n = x[1] - y[1]
    return ("not", n) if n else ("top",)


def join_v(x, y, lab=E, widen=False):
    if x is y or x == y:
        return x
    r = vjoin(x, y)
    if widen and r.a != x.a:
        nx = [a for a in x.a if a[0] == "n"]
        nr = [a for a in r.a if a[0] == "n"]
        if nx and nr and nx != nr:
            w = widen_itv(nx[0][1], nr[0][1])
            r = V(frozenset([a for a in r.a if a[0] != "n"] + [("n", w)]), r.l)
    if x.a != y.a:
        r = r.lab(lab)
    return r


def join_state(a, b, widen=False):
    lab = a.pc | b.pc
    s = State(a.base)
    s.pc = lab
    s.exact = False
    s.note = a.note
    ae, be = a.env, b.env
    env = dict(ae)
    n = 0
    for k, y in be.items():
        x = ae.get(k)
        if x is y:
            n += 1
        elif x is None:
            env[k] = y.lab(lab)
        else:
            n += 1
            env[k] = join_v(x, y, lab, widen)
    if n < len(ae):
        if lab:
            for k, x in ae.items():
                if k not in be:
                    env[k] = x.lab(lab)
    s.env = env
    ah, bh = a.heap, b.heap
    heap = dict(ah)
    n = 0
    base = a.base
    for k, y in bh.items():
        x = ah.get(k)
        if x is y:
            n += 1
        elif x is None:
            x = base.get(k)
            heap[k] = y if x is None else join_obj(x, y, lab, widen)
        else:
            n += 1
            heap[k] = join_obj(x, y, lab, widen)
    if n < len(ah):
        for k, x in ah.items():
            if k not in bh:
                y = base.get(k)
                if y is not None:
                    heap[k] = join_obj(x, y, lab, widen)
    s.heap = heap
    if a.ov or b.ov:
        s.ov = a.ov if a.ov is b.ov else {k: heap[k] for k in set(a.ov) | set(b.ov)}
    s.bits = {k: v for k, v in a.bits.items() if b.bits.get(k) == v}
    s.store = a.store
    return s
