"""Abstract interpreter for the package's source.

Works on the syntax tree.  Every expression maps an abstract state to a list of
(state, value) pairs; states are joined at control-flow merges (all of them
when cfg.K == 1, otherwise as soon as there are more than K), loops are solved
by iterating to a fixpoint with widening, calls are analysed in their context,
recursion is solved with summaries.  Exceptions are collected in `sink`.
"""
import ast
import os
from .dom import *
from .num import Lin, Store, Inconsistent, lin, add as ladd, sub as lsub, scale as lscale

PKG = "bibleref"


class Incomplete(Exception):
    """the analysis gives up on this entry (undecided)"""


class AnalysisError(Exception):
    """the source cannot be analysed at all (vanished anchor, unsupported construct at load)"""


class Cfg:
    def __init__(self, numeric="itv", K=1, unroll=70, maxrounds=14, maxdepth=60, budget=4_000_000, maxrec=8, books="any", coarse=False, splititems=False):
        self.splititems = splititems  # the kinds of items in a container are followed separately
        self.coarse = coarse  # forget the numbers inside frozen instances
        self.books = books    # a loop over the books: "any" one book at a time, or "each" of them
        self.numeric = numeric
        self.K = K
        self.unroll = unroll
        self.maxrounds = maxrounds
        self.maxdepth = maxdepth
        self.maxrec = maxrec
        self.budget = budget


class Func:
    __slots__ = ("name", "qual", "node", "mod", "owner", "defaults", "kwdefaults", "is_gen", "path", "scope", "nested", "lines")

    def __init__(self, name, qual, node, mod, owner, path, scope):
        self.name, self.qual, self.node, self.mod, self.owner, self.path, self.scope = name, qual, node, mod, owner, path, scope
        self.defaults, self.kwdefaults = [], {}
        self.is_gen, self.nested = scan_func(node)

    def __hash__(self):      # independent of memory addresses: runs are reproducible
        return hash((self.qual, self.path, self.node.lineno))

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return "<%s>" % self.qual


_SCAN = {}


def scan_func(node):
    r = _SCAN.get(id(node))
    if r is None:
        gen = nested = False
        todo = list(node.body) if isinstance(node.body, list) else [node.body]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                nested = True
                continue
            if isinstance(n, ast.GeneratorExp):
                nested = True
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                gen = True
            todo.extend(ast.iter_child_nodes(n))
        r = _SCAN[id(node)] = (gen, nested)
        _KEEP.append(node)
    return r


_KEEP = []


class ClassInfo:
    __slots__ = ("oid", "name", "qual", "bases", "mro", "dc", "enum", "members", "node", "path", "fields", "mod", "nocmp", "nohash")

    def __init__(self):
        self.dc = None
        self.enum = None
        self.members = []
        self.fields = []
        self.nocmp = self.nohash = ()


class Out:
    __slots__ = ("n", "b", "c", "r")

    def __init__(self):
        self.n, self.b, self.c, self.r = [], [], [], []


class Interp:
    def __init__(self, cfg, srcdir):
        self.cfg = cfg
        self.src = srcdir
        self.sink = []
        self.fid = 0
        self.ctx = {}
        self.frames = {}
        self.stack = []            # (Func, fid, call node)
        self.active = []
        self.phase = "load"
        self.classes = {}
        self.modules = {}
        self.watch = E
        self.pins = []
        self.writes = []           # (oid, field, node, Func, V)
        self.rec = {}
        self.steps = 0
        self.yields = []
        self.hooks = {}
        self.col_cache = {}
        self.funcs_seen = set()
        self.edges = None
        self.depths = None
        self.funccache = {}
        self.nosink = 0
        self.quiet_fmt = 0
        self.loading = True
        self.excname_cache = {}
        self.gc_at = 400
        self.sites = set()
        self.live_iter = []        # lists under iteration: (oid)
        self.consthook = None      # may give the value of a constant expression
        self.watchers = []         # suspended generators: (objects they can reach, frame)
        self.undecided_branches = 0
        self.frozen_cache = {}
        self.valtab = {}
        self.vals = {}
        self.memo = {}
        self.pmemo = {}
        self.memo_hits = 0
        self.keepalive = []
        self.rec_min = 10 ** 9
        self.n_branches = 0
        from . import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------------ small helpers
    def site(self, node):
        return (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), getattr(node, "_mod", 0))

    def where(self, node, func=None):
        f = func if func is not None else (self.stack[-1][0] if self.stack else None)
        return "%s:%s (%s)" % (f.path if f else "?", getattr(node, "lineno", "?"), f.qual if f else "module")

    def frame_fid(self, parent, node, F):
        k = (parent, self.site(node) if node is not None else None, F)
        r = self.ctx.get(k)
        if r is None:
            r = self.ctx[k] = len(self.ctx) + 1
        return r

    def alloc(self, st, node, obj, key=None):
        oid = (self.phase, self.fid, self.site(node) if node is not None else 0, key)
        if self.loading or self.cfg.numeric == "zone":
            i = 0
            o = oid
            while st.get(o) is not None:
                i += 1
                o = oid + (i,)
            st.put(o, obj)
            return o
        if st.get(oid) is not None:
            old = st.get(oid)
            so = oid + ("*",)
            st.rename(oid, so)
            old = st.get(oid)
            cur = st.get(so)
            merged = old.rep(uniq=False)
            if cur is not None:
                merged = join_obj(cur, merged, E).rep(uniq=False)
            st.put(so, merged)
        st.put(oid, obj)
        return oid

    def newlist(self, st, node, items, key=None, cls="list"):
        return mk(("o", self.alloc(st, node, Obj(cls, items=tuple(items)), key)))

    def step(self):
        self.steps += 1
        if self.steps > self.cfg.budget:
            raise Incomplete("analysis budget exceeded")

    # ------------------------------------------------------------------ joins
    def merge(self, sts, k=None):
        """reduce a list of states to at most K by joining"""
        if len(sts) <= 1:
            return sts
        k = self.cfg.K if k is None else k
        if len(sts) <= k:
            return sts
        if self.cfg.numeric == "zone":
            raise Incomplete("more than %d disjuncts" % k)
        s = sts[0]
        for t in sts[1:]:
            s = join_state(s, t)
        return [s]

    def merge_rv(self, rs, k=None):
        """same for (state, value) pairs"""
        if len(rs) <= 1:
            return rs
        k = self.cfg.K if k is None else k
        if len(rs) <= k:
            return rs
        if self.cfg.numeric == "zone":
            raise Incomplete("more than %d disjuncts" % k)
        for s, v in rs:
            s.env["$r"] = v
        s = rs[0][0]
        for t, _ in rs[1:]:
            s = join_state(s, t)
        return [(s, s.env.pop("$r"))]

    def part_key(self, v):
        o = v.one()
        if o is not None and o[0] in ("none", "b"):
            return o
        return "v"

    # ------------------------------------------------------------------ exceptions
    def raise_v(self, st, v, node):
        self.sink.append((st, v, node, self.stack[-1][0] if self.stack else None))

    def raise_named(self, st, name, node, implicit=True):
        cls = self.lib.exc_class(name)
        oid = self.alloc(st, node, Obj(cls, {"args": VTOP}, x=("implicit",) if implicit else None), key="exc:" + name)
        self.raise_v(st, mk(("o", oid)), node)

    def may_raise(self, st, name, node, implicit=True):
        """an exception that cannot be excluded"""
        s = st.copy()
        if self.cfg.numeric == "zone" and not self.loading:
            s.exact = st.exact = False
        self.raise_named(s, name, node, implicit)

    # ------------------------------------------------------------------ names
    def scope_chain(self, fid):
        while fid is not None:
            yield fid
            fr = self.frames.get(fid)
            fid = fr[1] if fr else None

    def lookup(self, name, st, node):
        fid = self.fid
        while fid is not None:
            v = st.env.get((fid, name))
            if v is not None:
                return v
            fr = self.frames.get(fid)
            if fr is None:
                break
            fid = fr[1]
        mod = self.frames[self.fid][2]
        o = st.get(mod)
        v = o.f.get(name)
        if v is not None:
            return v
        v = self.lib.builtin_name(name)
        if v is not None:
            return v
        return None

    def e_Name(self, n, st):
        v = self.lookup(n.id, st, n)
        if v is None:
            self.raise_named(st, "NameError", n)
            return []
        return [(st, v)]

    def setname(self, name, v, st):
        fr = self.frames[self.fid]
        if fr[0] is None or name in fr[3]:
            o = st.get(fr[2])
            self.note_write(fr[2], name, None, v, st)
            st.put(fr[2], o.setf(name, v))
        elif len(fr) > 4 and name in fr[4]:
            for f in self.scope_chain(fr[1]):
                if (f, name) in st.env:
                    st.env[(f, name)] = v
                    return
            st.env[(self.fid, name)] = v
        else:
            st.env[(self.fid, name)] = v

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        self.step()
        if self.cfg.numeric == "zone" and not self.loading:
            rs = getattr(self, "e_" + n.__class__.__name__)(n, st)
            for s, v in rs:
                if len(v.a) != 1 or TOPA in v.a:
                    s.exact = False         # the kernels work with single values; anything else is a loss of precision
            return rs
        return getattr(self, "e_" + n.__class__.__name__)(n, st)

    def ev1(self, n, sts):
        out = []
        for s in sts:
            out.extend(self.ev(n, s))
        return out

    def ev_list(self, nodes, st):
        """evaluate several expressions left to right; temporaries live in the state"""
        if not nodes:
            return [(st, [])]
        if len(nodes) == 1:
            return [(s, [v]) for s, v in self.merge_rv(self.ev(nodes[0], st), max(self.cfg.K, 4))]
        sts = [st]
        keys = []
        for i, n in enumerate(nodes):
            key = (self.fid, "$t", self.site(n), i)
            keys.append(key)
            nx = []
            for s in sts:
                for s2, v in self.ev(n, s):
                    s2.env[key] = v
                    nx.append(s2)
            sts = self.merge(nx, max(self.cfg.K, 4)) if len(nx) > 1 else nx
        return [(s, [s.env.pop(k) for k in keys]) for s in sts]

    def e_Constant(self, n, st):
        if self.consthook is not None:
            r = self.consthook(n)
            if r is not None:
                return [(st, r)]
        c = n.value
        if c is None:
            return [(st, VNONE)]
        if c is True or c is False:
            return [(st, vbool(c))]
        if isinstance(c, int):
            return [(st, vint(c))]
        if isinstance(c, str):
            return [(st, vstr(c))]
        if c is Ellipsis:
            return [(st, mk(("ext", "Ellipsis")))]
        return [(st, VTOP)]

    def e_JoinedStr(self, n, st):
        vals = [x for x in n.values]
        nodes = [x.value if isinstance(x, ast.FormattedValue) else x for x in vals]
        out = []
        for s, vs in self.ev_list(nodes, st):
            cur = [(s, vstr(""))]
            for x, v in zip(vals, vs):
                nx = []
                for s1, acc in cur:
                    if isinstance(x, ast.FormattedValue):
                        conv = "repr" if x.conversion == 114 else "str"
                        if x.format_spec is not None:
                            nx.append((s1, self.lib.concat(acc, V(VSTR.a, v.l))))
                            continue
                        s1.env[(self.fid, "$js", self.site(n))] = acc
                        for s2, w in self.lib.to_str(s1, v, x, conv):
                            a2 = s2.env.get((self.fid, "$js", self.site(n)), acc)
                            nx.append((s2, self.lib.concat(a2, w)))
                    else:
                        nx.append((s1, self.lib.concat(acc, v)))
                cur = self.merge_rv(nx, max(self.cfg.K, 2))
            for s1, v in cur:
                s1.env.pop((self.fid, "$js", self.site(n)), None)
                out.append((s1, v))
        return out

    def e_FormattedValue(self, n, st):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]), st)

    def e_Tuple(self, n, st):
        return self.seq(n, st, "tuple")

    def e_List(self, n, st):
        return self.seq(n, st, "list")

    def e_Set(self, n, st):
        return self.seq(n, st, "set")

    def seq(self, n, st, kind):
        nodes = [x.value if isinstance(x, ast.Starred) else x for x in n.elts]
        out = []
        for s, vs in self.ev_list(nodes, st):
            items = []
            known = True
            el = BOT
            res = [(s, items)]
            for x, v in zip(n.elts, vs):
                if isinstance(x, ast.Starred):
                    its = self.lib.known_items(s, v)
                    if its is None:
                        known = False
                        r = self.lib.listify(s, v, x)
                        if not r:
                            continue
                        s, lv = r[0]
                        el = vjoin(el, self.lib.elem_of(s, lv))
                    else:
                        items.extend(its)
                else:
                    items.append(v)
            if known:
                if kind == "tuple":
                    out.append((s, mk(("t", tuple(items)))))
                else:
                    out.append((s, self.newlist(s, n, items, cls=kind)))
            else:
                el = vjoin_all([el] + items)
                if kind == "tuple":
                    out.append((s, mk(("T", el))))
                else:
                    out.append((s, mk(("o", self.alloc(s, n, Obj(kind, elem=el, ln=vint(Itv(0, None))))))))
        return out

    def e_Dict(self, n, st):
        if any(k is None for k in n.keys):
            return [(st, VTOP)]
        m = len(n.keys)
        out = []
        for s, vs in self.ev_list(list(n.keys) + list(n.values), st):
            items = tuple(zip(vs[:m], vs[m:]))
            out.append((s, mk(("o", self.alloc(s, n, Obj("dict", items=items))))))
        return out

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_NamedExpr(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            self.setname(n.target.id, v, s)
            out.append((s, v))
        return out

    def e_Lambda(self, n, st):
        return [(st, self.mkfunc(n, st, "<lambda>"))]

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_IfExp(self, n, st):
        base = st.pc
        n0 = len(self.sink)
        ts, fs = self.cond(n.test, st)
        out = []
        for s in ts:
            out.extend(self.ev(n.body, s))
        for s in fs:
            out.extend(self.ev(n.orelse, s))
        out = self.merge_rv(out)
        if self.watch and not any(x[0].pc - base for x in self.sink[n0:]):
            for s, _ in out:
                s.pc = base
        return out

    def e_BoolOp(self, n, st):
        # value semantics of and/or
        base = st.pc
        n0 = len(self.sink)
        isand = isinstance(n.op, ast.And)
        cur = [st]
        done = []
        for i, x in enumerate(n.values):
            if i == len(n.values) - 1:
                for s in cur:
                    done.extend(self.ev(x, s))
                break
            nx = []
            for s in cur:
                for tv, s2, v2, _ in self.truth_many(self.ev(x, s), x):
                    if tv == isand:
                        nx.append(s2)
                    else:
                        done.append((s2, v2))
            cur = self.merge(nx)
        done = self.merge_rv(done, max(self.cfg.K, 2) if all(self.part_key(v) != "v" for _, v in done) else None)
        if self.watch and not any(x[0].pc - base for x in self.sink[n0:]):
            for s, _ in done:
                s.pc = base
        return done

    def e_UnaryOp(self, n, st):
        out = []
        if isinstance(n.op, ast.Not):
            ts, fs = self.cond(n.operand, st)
            base = st.pc
            L = E
            if ts and fs:
                for s in ts + fs:
                    L |= s.pc
                L -= base
            return [(s, vbool(False, L)) for s in self.merge(ts)] + [(s, vbool(True, L)) for s in self.merge(fs)]
        for s, v in self.ev(n.operand, st):
            out.extend(self.lib.unary(s, n.op, v, n))
        return out

    def e_BinOp(self, n, st):
        out = []
        for s, (a, b) in self.ev_list([n.left, n.right], st):
            out.extend(self.lib.binop(s, n.op, a, b, n))
        return self.merge_rv(out)

    def e_Compare(self, n, st):
        if len(n.ops) == 1:
            out = []
            for s, (a, b) in self.ev_list([n.left, n.comparators[0]], st):
                out.extend(self.lib.compare(s, n.ops[0], a, b, n))
            return self.merge_rv(out, max(self.cfg.K, 2))
        # chained: a < b < c
        cur = []
        for s, vs in self.ev_list([n.left] + list(n.comparators), st):
            cur2 = [(s, vs)]
            for i, op in enumerate(n.ops):
                nx = []
                for s1, vv in cur2:
                    for s2, r in self.lib.compare(s1, op, vv[i], vv[i + 1], n):
                        for tv, s3, r3 in self.truth(s2, r, n):
                            if tv and i < len(n.ops) - 1:
                                nx.append((s3, vv))
                            else:
                                cur.append((s3, vbool(tv, r.l)))
                cur2 = nx
        return self.merge_rv(cur, max(self.cfg.K, 2))

    def e_Attribute(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            rs = self.getattr_v(s, v, n.attr, n)
            if NONE in v.a and len(v.a) > 1:
                for s2, _ in rs:
                    self.refine(n.value, s2, lambda w: V(w.a - {NONE}, w.l))
            out.extend(rs)
        return self.merge_rv(out)

    def e_Subscript(self, n, st):
        out = []
        if isinstance(n.slice, ast.Slice):
            parts = [n.value] + [x for x in (n.slice.lower, n.slice.upper, n.slice.step) if x is not None]
            for s, vs in self.ev_list(parts, st):
                it = iter(vs[1:])
                lo = next(it) if n.slice.lower is not None else None
                hi = next(it) if n.slice.upper is not None else None
                stp = next(it) if n.slice.step is not None else None
                out.extend(self.lib.getslice(s, vs[0], lo, hi, stp, n))
            return out
        for s, (v, i) in self.ev_list([n.value, n.slice], st):
            out.extend(self.lib.getitem(s, v, i, n))
        return self.merge_rv(out)

    def e_Slice(self, n, st):
        return [(st, VTOP)]

    def e_Call(self, n, st):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return [(st, self.super_v(st))]
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 and \
                self.lookup("isinstance", st, n).one() == ("bi", "isinstance"):
            ts, fs = self.cond(n, st)
            L = (E.union(*[s.pc for s in ts + fs]) - st.pc) if (ts and fs) else E
            return [(s, vbool(True, L)) for s in ts] + [(s, vbool(False, L)) for s in fs]
        nodes = [n.func] + [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
        out = []
        na = len(n.args)
        for s, vs in self.ev_list(nodes, st):
            fv = vs[0]
            args = []
            star = None
            bad = False
            for a, v in zip(n.args, vs[1:1 + na]):
                if isinstance(a, ast.Starred):
                    its = self.lib.known_items(s, v)
                    if its is None:
                        r = self.lib.listify(s, v, a)
                        if not r:
                            bad = True
                            break
                        if len(r) > 1:
                            r = self.merge_rv(r)
                        s, lv = r[0]
                        its = self.lib.known_items(s, lv)
                        if its is None:
                            star = self.lib.elem_of(s, lv)
                            continue
                    args.extend(its)
                else:
                    args.append(v)
            if bad:
                continue
            kw = {}
            for k, v in zip(n.keywords, vs[1 + na:]):
                if k.arg is None:
                    for a in v.a:
                        if a[0] == "o":
                            ob = s.get(a[1])
                            if ob is not None and ob.cls == "dict" and ob.items is not None:
                                for kk, vv in ob.items:
                                    nm = kk.one()
                                    if nm is not None and nm[0] == "s" and len(nm[1]) == 1:
                                        kw[nm[1][0]] = vv
                else:
                    kw[k.arg] = v
            out.extend(self.call_v(s, fv, args, kw, n, star))
        return self.merge_rv(out, max(self.cfg.K, 3)) if any(self.part_key(v) != "v" for _, v in out) and \
            len({self.part_key(v) for _, v in out}) == len(out) else self.merge_parts(out)

    def merge_parts(self, rs):
        """join results that have the same truth partition"""
        if len(rs) <= 1 or self.cfg.K > 1 or self.cfg.numeric == "zone":
            return self.merge_rv(rs)
        g = {}
        for s, v in rs:
            g.setdefault(self.part_key(v), []).append((s, v))
        out = []
        for k in g:
            out.extend(self.merge_rv(g[k], 1))
        return out

    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set")

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict")

    def comp_frame(self, n):
        fid = self.frame_fid(self.fid, n, "comp")
        fr = self.frames[self.fid]
        self.frames[fid] = (fr[0] if fr[0] is not None else "comp", self.fid, fr[2], E)
        return fid

    def comp(self, n, st, kind):
        acc = (self.fid, "$acc", self.site(n))
        oid = self.alloc(st, n, Obj(kind, items=()))
        st.env[acc] = mk(("o", oid))
        cf = self.comp_frame(n)

        def sink(s):
            out = []
            if kind == "dict":
                for s1, (k, v) in self.ev_list([n.key, n.value], s):
                    self.lib.dict_set(s1, s1.env[acc], k, v, n)
                    out.append(s1)
            else:
                for s1, v in self.ev(n.elt, s):
                    self.lib.append_to(s1, s1.env[acc], v)
                    out.append(s1)
            return self.merge(out)
        res = self.comp_run(n.generators, 0, st, sink, cf)
        return [(s, s.env.pop(acc)) for s in res]

    def comp_run(self, gens, i, st, sink, cf):
        """states after running generators i.. with `sink` called innermost"""
        if i == len(gens):
            old = self.fid
            self.fid = cf
            try:
                return sink(st)
            finally:
                self.fid = old
        g = gens[i]
        old = self.fid
        if i > 0:
            self.fid = cf
        try:
            its = self.ev(g.iter, st)
        finally:
            self.fid = old
        out = []
        for s, iv in its:
            def cb(s1, item):
                o2 = self.fid
                self.fid = cf
                try:
                    cur = self.assign(g.target, item, s1, g)
                    for c in g.ifs:
                        keep, drop = [], []
                        for s2 in cur:
                            t, f = self.cond(c, s2)
                            keep.extend(t)
                            drop.extend(f)
                        cur = keep
                        dropped.extend(drop)
                finally:
                    self.fid = o2
                res = []
                for s2 in cur:
                    res.extend(self.comp_run(gens, i + 1, s2, sink, cf))
                res = res + dropped[:]
                dropped.clear()
                return self.merge(res)
            dropped = []
            out.extend(self.iterate(s, iv, cb, g))
        return self.merge(out)

    def e_GeneratorExp(self, n, st):
        # the first iterable is evaluated now, the rest when iterated
        out = []
        for s, iv in self.ev(n.generators[0].iter, st):
            oid = self.alloc(s, n, Obj("gen", {"$it": iv}, x=("genexp", n, self.fid)))
            out.append((s, mk(("o", oid))))
        return out

    def e_Yield(self, n, st):
        cb = self.yields[-1]
        out = []
        rs = self.ev(n.value, st) if n.value is not None else [(st, VNONE)]
        for s, v in rs:
            for s2 in cb(s, v):
                out.append((s2, VNONE))
        return self.merge_rv(out)

    def e_YieldFrom(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            ycb = self.yields[-1]
            for s2 in self.iterate(s, v, lambda s1, x: ycb(s1, x), n):
                out.append((s2, VNONE))
        return self.merge_rv(out)

    # ------------------------------------------------------------------ truth and refinement
    def truth(self, st, v, node):
        """[(bool, state, value)]"""
        out = []
        atoms_t, atoms_f = [], []
        forks = []
        for a in v.a:
            r = self.lib.truth_atom(st, a, node)
            if r is True:
                atoms_t.append(a)
            elif r is False:
                atoms_f.append(a)
            elif r is None:
                atoms_t.append(a)
                atoms_f.append(a)
            else:
                forks.append((a, r))
        if forks:
            if len(v.a) == 1:
                a, r = forks[0]
                res = list(r(st))
                both = len({b for b, _ in res}) > 1
                L = (v.l & self.watch) if both else E
                for b, s in res:
                    if L:
                        s.pc = s.pc | L
                    out.append((b, s, v))
                return out
            for a, _ in forks:
                atoms_t.append(a)
                atoms_f.append(a)
        both = bool(atoms_t) and bool(atoms_f)
        if both and self.cfg.numeric == "zone" and not self.loading:
            st.exact = False
        L = (v.l & self.watch) if both else E
        if atoms_t:
            s = st.copy() if both else st
            if L:
                s.pc = s.pc | L
            out.append((True, s, V(frozenset(atoms_t), v.l)))
        if atoms_f:
            s = st
            if L:
                s.pc = s.pc | L
            out.append((False, s, V(frozenset(atoms_f), v.l)))
        return out

    def truth_many(self, rs, node):
        """truth of alternative results; a value decided differently in different states is a control dependence"""
        out = []
        for s, v in rs:
            out.extend((b, s2, v2, v) for b, s2, v2 in self.truth(s, v, node))
        if self.watch and len({x[0] for x in out}) > 1:
            for b, s2, v2, v in out:
                s2.pc = s2.pc | (v.l & self.watch)
        return out

    def cond(self, n, st):
        """evaluate as a condition: (states where true, states where false), with refinement"""
        self.step()
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.cond(n.operand, st)
            return f, t
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur, done = [st], []
            for x in n.values:
                nx = []
                for s in cur:
                    t, f = self.cond(x, s)
                    nx.extend(t if isand else f)
                    done.extend(f if isand else t)
                cur = self.merge(nx)
                done = self.merge(done)
            return (cur, done) if isand else (done, cur)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            r = self.cond_compare(n, st)
            if r is not None:
                return r
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 \
                and self.lookup("isinstance", st, n).one() == ("bi", "isinstance"):
            return self.cond_isinstance(n, st)
        ts, fs = [], []
        for b, s2, v2, v in self.truth_many(self.ev(n, st), n):
            if v2.a != v.a:
                self.refine(n, s2, lambda w: V(w.a & v2.a, w.l) if (w.a & v2.a) else w)
            (ts if b else fs).append(s2)
        self.n_branches += 1
        if ts and fs:
            self.undecided_branches += 1
        ts, fs = self.merge(ts), self.merge(fs)
        return ts, fs

    def cond_isinstance(self, n, st):
        ts, fs = [], []
        for s, (v, c) in self.ev_list(n.args, st):
            classes = self.lib.class_list(s, c)
            ta, fa = [], []
            for a in v.a:
                r = self.lib.isinst_atom(s, a, classes)
                if r is not False:
                    ta.append(a)
                if r is not True:
                    fa.append(a)
            both = bool(ta) and bool(fa)
            L = (v.l & self.watch) if both else E
            if ta:
                s2 = s.copy() if both else s
                s2.pc = s2.pc | L
                self.refine_name(n.args[0], s2, V(frozenset(ta), v.l))
                for a in ta:
                    self.lib.refine_any(s2, a, classes, True, len(ta) == 1)
                ts.append(s2)
            if fa:
                s2 = s
                s2.pc = s2.pc | L
                self.refine_name(n.args[0], s2, V(frozenset(fa), v.l))
                for a in fa:
                    self.lib.refine_any(s2, a, classes, False, len(fa) == 1)
                fs.append(s2)
        return self.merge(ts), self.merge(fs)

    def refine_name(self, n, st, v):
        self.refine(n, st, lambda w: v)

    def refine(self, n, st, fn):
        """narrow the value of a variable or of a field of a unique object"""
        if isinstance(n, ast.NamedExpr):
            n = n.target
        if isinstance(n, ast.Name):
            for f in self.scope_chain(self.fid):
                k = (f, n.id)
                if k in st.env:
                    w = fn(st.env[k])
                    if w.a:
                        st.env[k] = w
                    return
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            b = None
            for f in self.scope_chain(self.fid):
                b = st.env.get((f, n.value.id))
                if b is not None:
                    break
            if b is None:
                return
            a = b.one()
            if a is not None and a[0] == "o":
                ob = st.get(a[1])
                if ob is not None and (ob.uniq or a[1][0] == "val") and n.attr in ob.f and ob.cls not in ("class", "module"):
                    w = fn(ob.f[n.attr])
                    if w.a and w != ob.f[n.attr]:
                        if a[1][0] == "val":
                            st.env[(f, n.value.id)] = V(frozenset([("o", self.val_oid(st, ob.setf(n.attr, w)))]), b.l)
                        else:
                            st.put(a[1], ob.setf(n.attr, w))

    def cond_compare(self, n, st):
        op = n.ops[0]
        l, r = n.left, n.comparators[0]
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            # comparison with None
            for x, y in ((l, r), (r, l)):
                if isinstance(y, ast.Constant) and y.value is None:
                    ts, fs = [], []
                    for s, v in self.ev(x, st):
                        nn = V(v.a - {NONE}, v.l)
                        has = NONE in v.a
                        amb = any(a[0] == "top" or (a[0] == "o" and self.lib.maybe_none(s, a)) for a in nn.a)
                        both = (has or amb) and bool(nn.a)
                        L = (v.l & self.watch) if both else E
                        self.n_branches += 1
                        if both:
                            self.undecided_branches += 1
                        if has or amb:
                            s2 = s.copy() if both else s
                            s2.pc |= L
                            if has:
                                self.refine(x, s2, lambda w: V(frozenset([NONE]), w.l))
                            ts.append(s2)
                        if nn.a:
                            s.pc |= L
                            self.refine(x, s, lambda w: V(w.a - {NONE}, w.l) if w.a - {NONE} else w)
                            fs.append(s)
                    if isinstance(op, (ast.IsNot, ast.NotEq)):
                        ts, fs = fs, ts
                    return self.merge(ts), self.merge(fs)
        ts, fs = [], []
        self.n_branches += 1
        for s, (a, b) in self.ev_list([l, r], st):
            rs = self.lib.compare(s, op, a, b, n)
            for bv, s2, v2, _ in self.truth_many(rs, n):
                if isinstance(op, (ast.Is, ast.IsNot)):
                    same = bv == isinstance(op, ast.Is)
                    for x, p, q in ((l, a, b), (r, b, a)):
                        k = q.one()
                        ko = s2.get(k[1]) if k is not None and k[0] == "o" else None
                        if ko is None or not ko.uniq or k not in p.a or len(p.a) < 2 or "val" == k[1][0]:
                            continue
                        keep = frozenset([k]) if same else p.a - {k}
                        self.refine(x, s2, lambda w, p=p, keep=keep: V(keep, w.l) if w.a == p.a else w)
                elif self.cfg.numeric == "itv":
                    na, nb = self.lib.narrow(op, bv, a, b)
                    if na is not None and na is not a:
                        self.refine(l, s2, lambda w: na if w.a == a.a else w)
                    if nb is not None and nb is not b:
                        self.refine(r, s2, lambda w: nb if w.a == b.a else w)
                (ts if bv else fs).append(s2)
        if ts and fs:
            self.undecided_branches += 1
        return self.merge(ts), self.merge(fs)

    # ------------------------------------------------------------------ attributes
    def mro(self, cls):
        ci = self.classes.get(cls)
        return ci.mro if ci else []

    def cls_attr(self, st, cls, name, after=None):
        """(value, owner) of a class attribute through the MRO"""
        seen = after is None
        for c in self.mro(cls):
            if not seen:
                if c == after:
                    seen = True
                continue
            o = st.get(c)
            v = o.f.get(name) if o is not None else None
            if v is not None:
                return v, c
        return None, None

    def bind(self, st, v, selfa, cls, owner, node, name=None):
        """descriptor protocol on a class attribute value"""
        out = []
        plain = []
        for a in v.a:
            t = a[0]
            if t == "fn":
                plain.append(("bm", a, selfa, owner))
            elif t == "prop":
                out.extend(self.call_v(st.copy() if len(v.a) > 1 else st, mk(a[1]), [mk(selfa)], {}, node))
            elif t == "cm":
                plain.append(("bm", a[1], ("o", cls), owner))
            elif t == "sm":
                plain.append(a[1])
            elif t == "bi" and a[1].startswith("m:"):
                plain.append(("bb", a[1], selfa))
            else:
                plain.append(a)
        if plain:
            out.append((st, V(frozenset(plain), v.l)))
        return out

    def getattr_v(self, st, v, name, node):
        if len(v.a) == 1:
            for a in v.a:
                r = self.getattr_a(st, a, name, node)
            if v.l:
                r = [(s, w.lab(v.l)) for s, w in r]
            return r
        vals = []
        out = []
        complex_ = []
        for a in v.a:
            w = self.simple_attr(st, a, name)
            if w is not None:
                vals.append(w)
            else:
                complex_.append(a)
        for a in complex_:
            s = st.copy()
            out.extend(self.getattr_a(s, a, name, node))
        if vals:
            out.append((st, vjoin_all(vals)))
        out = self.merge_rv(out) if len(out) > 1 else out
        return [(s, w.lab(v.l)) for s, w in out]

    def simple_attr(self, st, a, name):
        """plain instance field, no user code"""
        if a[0] == "o":
            o = st.get(a[1])
            if o is not None and isinstance(o.cls, tuple) and name in o.f and not name.startswith("__"):
                cv, _ = self.cls_attr(st, o.cls, name)
                if cv is None or all(x[0] != "prop" for x in cv.a):
                    return o.f[name]
        return None

    def getattr_a(self, st, a, name, node):
        t = a[0]
        if t == "o":
            return self.getattr_o(st, a, name, node)
        return self.lib.getattr_prim(st, a, name, node)

    def getattr_o(self, st, a, name, node):
        o = st.get(a[1])
        if o is None:
            return [(st, VTOP)]
        c = o.cls
        if c == "class":
            return self.lib.class_getattr(st, a, name, node)
        if c == "module":
            v = o.f.get(name)
            if v is not None:
                return [(st, v)]
            if o.x and o.x[0] == "ext":
                return [(st, self.lib.ext_attr(o.x[1] + "." + name))]
            sub = self.modules.get(o.x[1] + "." + name) if o.x else None
            if sub is not None:
                return [(st, mk(("o", sub)))]
            self.raise_named(st, "AttributeError", node)
            return []
        if not isinstance(c, tuple):
            return self.lib.getattr_prim(st, a, name, node)
        if name == "__class__":
            return [(st, mk(("o", c)))]
        if name == "__dict__":
            return [(st, VTOP)]
        cv, owner = self.cls_attr(st, c, name)
        if cv is not None and any(x[0] == "prop" for x in cv.a):
            return self.bind(st, cv, a, c, owner, node, name)
        if name in o.f:
            return [(st, o.f[name])]
        if cv is not None:
            return self.bind(st, cv, a, c, owner, node, name)
        r = self.lib.inst_attr(st, a, o, name, node)
        if r is not None:
            return r
        gv, owner = self.cls_attr(st, c, "__getattr__")
        if gv is not None:
            return self.call_method(st, a, gv, owner, [vstr(name)], node)
        if o.x == ("lazy",):
            return [(st, VTOP)]
        self.raise_named(st, "AttributeError", node)
        return []

    def call_method(self, st, selfa, fv, owner, args, node):
        out = []
        for f in fv.a:
            if f[0] == "fn":
                out.extend(self.call_v(st, mk(("bm", f, selfa, owner)), args, {}, node))
            elif f[0] == "bi" and f[1].startswith("m:"):
                out.extend(self.call_v(st, mk(("bb", f[1], selfa)), args, {}, node))
            elif f[0] in ("cm", "sm"):
                out.extend(self.call_v(st, mk(f[1]), args, {}, node))
            else:
                out.append((st, VTOP))
        return self.merge_rv(out)

    def find_method(self, st, a, name):
        """(function value, owner) of a special method of an instance, or None"""
        if a[0] == "o":
            o = st.get(a[1])
            if o is not None and isinstance(o.cls, tuple):
                v, owner = self.cls_attr(st, o.cls, name)
                if v is not None and v.one() != NONE:
                    return v, owner
        elif a[0] == "bk":
            c = self.lib.book_cls
            v, owner = self.cls_attr(st, c, name)
            if v is not None:
                return v, owner
        return None

    def super_v(self, st):
        F = None
        fid = self.fid
        fr = self.frames[fid]
        while fr is not None and (not isinstance(fr[0], Func) or fr[0].owner is None) and fr[1] is not None:
            fid = fr[1]
            fr = self.frames.get(fid)
        F = fr[0]
        first = F.node.args.args[0].arg
        sv = st.env.get((fid, first))
        a = sv.one()
        return V(frozenset(("sup", F.owner, x) for x in sv.a), sv.l)

    def note_write(self, oid, name, node, v, st):
        if not self.loading:
            if oid[0] == "load" and oid[1] != "M":
                self.lib.dirty = True
            if oid[0] != self.phase or "any" in self.hooks:
                self.writes.append((oid, name, node, self.stack[-1][0] if self.stack else None, v, st.pc))
            h = self.hooks.get("write")
            if h:
                h(oid, name, node, v, st)
            for rs, fid in self.watchers:
                if oid in rs and any(a[0] == "o" and a[1] not in rs and a[1][0] == self.phase and st.get(a[1]) is not None
                                     and isinstance(st.get(a[1]).cls, tuple) and not self.is_frozen(st.get(a[1]).cls) for a in v.a):
                    st.env[(fid, "$grown")] = V(frozenset([TRUE]), E)

    def setattr_v(self, st, target, name, v, node, raw=False):
        """list of states"""
        out = [st]
        many = len(target.a) > 1
        for a in target.a:
            nx = []
            for s in out:
                nx.extend(self.setattr_a(s, a, name, v, node, many, raw))
            out = self.merge(nx)
            if not out:
                if many:
                    out = []
                    continue
                return []
        return out

    def setattr_a(self, st, a, name, v, node, weak, raw=False):
        if a[0] == "bk":
            for oid in self.lib.books:
                o = st.get(oid)
                self.note_write(oid, name, node, v, st)
                st.put(oid, o.setf(name, vjoin(o.f.get(name, BOT), v)))
            self.lib.cols_dirty(st)
            return [st]
        if a[0] == "none":
            if weak:
                self.may_raise(st, "AttributeError", node)
                return [st]
            self.raise_named(st, "AttributeError", node)
            return []
        if a[0] != "o":
            return [st]
        oid = a[1]
        o = st.get(oid)
        if o is None:
            return [st]
        if isinstance(o.cls, tuple) and not raw:
            cv, owner = self.cls_attr(st, o.cls, name)
            if cv is not None:
                p = [x for x in cv.a if x[0] == "prop"]
                if p:
                    if p[0][2] is None:
                        self.raise_named(st, "AttributeError", node)
                        return []
                    return [s for s, _ in self.call_v(st, mk(p[0][2]), [mk(a), v], {}, node)]
            sv, owner = self.cls_attr(st, o.cls, "__setattr__")
            if sv is not None and sv.one() is not None and sv.one()[0] == "fn":
                return [s for s, _ in self.call_method(st, a, sv, owner, [vstr(name), v], node)]
            for c in self.mro(o.cls):
                ci = self.classes[c]
                if ci.dc and ci.dc.get("frozen"):
                    if weak:
                        self.may_raise(st, "FrozenInstanceError", node, implicit=False)
                        return [st]
                    self.raise_named(st, "FrozenInstanceError", node, implicit=False)
                    return []
        self.note_write(oid, name, node, v, st)
        if o.uniq and not weak:
            st.put(oid, o.setf(name, v))
        else:
            old = o.f.get(name)
            st.put(oid, o.setf(name, v if old is None else vjoin(old, v)))
        if oid in self.lib.bookset:
            self.lib.cols_dirty(st)
        return [st]

    # ------------------------------------------------------------------ calls
    def call_v(self, st, fv, args, kw, node, star=None):
        if len(fv.a) == 1:
            for a in fv.a:
                return self.call_a(st, a, args, kw, node, star, fv.l)
        out = []
        for i, a in enumerate(fv.a):
            out.extend(self.call_a(st.copy(), a, args, kw, node, star, fv.l))
        return self.merge_parts(out)

    def call_a(self, st, a, args, kw, node, star=None, l=E):
        t = a[0]
        if t == "fn":
            return self.call_func(st, a[1], args, kw, node, star, a[2])
        if t == "bm":
            f = a[1]
            if f[0] == "fn":
                return self.call_func(st, f[1], [mk(a[2], l=l)] + args, kw, node, star, f[2])
            return self.call_a(st, f, [mk(a[2], l=l)] + args, kw, node, star, l)
        if t == "o":
            o = st.get(a[1])
            if o is not None and o.cls == "class":
                return self.instantiate(st, a[1], args, kw, node, star)
            m = self.find_method(st, a, "__call__")
            if m is not None:
                return self.call_method(st, a, m[0], m[1], args, node)
            return [(st, V(VTOP.a, l))]
        if t in ("bi", "bb"):
            r = self.lib.call(st, a, args, kw, node, star)
            return [(s, v.lab(l)) for s, v in r] if l else r
        if t == "ext":
            return self.lib.call_ext(st, a, args, kw, node, star)
        if t == "none":
            self.raise_named(st, "TypeError", node)
            return []
        if t == "part":
            return self.call_a(st, a[1], list(a[2]) + args, {**dict(a[3]), **kw}, node, star, l)
        ls = E
        for x in args:
            ls |= x.l
        return [(st, V(VTOP.a, l | ls))]

    def bindargs(self, st, F, args, kw, node, star):
        """parameter name -> V, or None if the call does not fit"""
        A = F.node.args
        pos = [x.arg for x in A.posonlyargs + A.args]
        b = {}
        n = len(args)
        for i, p in enumerate(pos):
            if i < n:
                b[p] = args[i]
        if A.vararg is not None:
            if star is not None:
                b[A.vararg.arg] = mk(("T", vjoin_all([star] + args[len(pos):])))
            else:
                b[A.vararg.arg] = mk(("t", tuple(args[len(pos):])))
        elif n > len(pos):
            return None
        kwo = {x.arg for x in A.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in kwo or k in pos:
                if k in b:
                    return None
                b[k] = v
            else:
                extra[k] = v
        if A.kwarg is not None:
            oid = self.alloc(st, node, Obj("dict", items=tuple((vstr(k), v) for k, v in sorted(extra.items()))), key="kw")
            b[A.kwarg.arg] = mk(("o", oid))
        elif extra:
            return None
        nd = len(F.defaults)
        for i, p in enumerate(pos):
            if p not in b:
                j = i - (len(pos) - nd)
                d = F.defaults[j] if j >= 0 else None
                if star is not None:
                    b[p] = star if d is None else vjoin(star, d)
                elif d is not None:
                    b[p] = d
                else:
                    return None
        for k in kwo:
            if k not in b:
                d = F.kwdefaults.get(k)
                if d is None:
                    return None
                b[k] = d
        return b

    def call_func(self, st, F, args, kw, node, star=None, scope=None):
        b = self.bindargs(st, F, args, kw, node, star)
        if b is None:
            self.raise_named(st, "TypeError", node)
            return []
        h = self.hooks.get("call")
        if h is not None:
            r = h(st, F, b, node)
            if r is not None:
                return r
        if F.is_gen:
            fid = self.frame_fid(self.fid, node, F)
            oid = self.alloc(st, node, Obj("gen", dict(b), x=("gen", F, scope, self.fid)), key="gen")
            return [(st, mk(("o", oid)))]
        return self.run_func(st, F, b, node, scope)

    def edge(self, F, node):
        """note who calls whom"""
        e = (self.stack[-1][0].mod, self.stack[-1][0].qual) if self.stack else None, (F.mod, F.qual)
        if e not in self.edges:
            self.edges[e] = (node, self.stack[-1][0] if self.stack else None)

    def enter(self, F, fid, scope, node):
        self.funcs_seen.add(F)
        if self.edges is not None:
            self.edge(F, node)
        if self.depths is not None:
            n = 1 + sum(1 for x in self.stack if (x[0].mod, x[0].qual) == (F.mod, F.qual))
            if n > self.depths.get((F.mod, F.qual), 0):
                self.depths[(F.mod, F.qual)] = n
        if fid not in self.frames:
            gl = set()
            nl = set()
            if not isinstance(F.node, ast.Lambda):
                for x in ast.walk(F.node):
                    if isinstance(x, ast.Global):
                        gl.update(x.names)
                    elif isinstance(x, ast.Nonlocal):
                        nl.update(x.names)
            self.frames[fid] = (F, scope, F.mod, frozenset(gl), frozenset(nl))
        self.stack.append((F, fid, node))

    def run_func(self, st, F, b, node, scope):
        if len(self.stack) > self.cfg.maxdepth:
            raise Incomplete("call depth")
        if not self.loading and self.cfg.numeric == "itv" and not F.nested and scope is None and self.plain(b):
            return self.run_plain(st, F, b, node)
        if self.edges is not None:
            self.edge(F, node)
        d0 = max((r["depth"] for r in self.rec.values()), default=0)
        nact = sum(1 for x in self.stack[d0:] if x[0] is F)
        head = False
        if not self.loading:
            if F in self.rec:
                return self.rec_call(st, F, b, node, scope)
            if self.cfg.numeric == "zone":
                if nact >= self.cfg.maxrec:
                    raise Incomplete("recursion in %s" % F.qual)
            elif nact >= 1:
                # summaries of functions of plain values are preferred: they do not mix up heap objects
                head = nact >= 2 or self.plain(b) or scope is not None
        fid = self.frame_fid(self.fid, node, F)
        if self.loading or self.cfg.numeric == "zone" or F.nested or scope is not None or self.watchers:
            if head:
                return self.rec_head(st, F, b, node, scope)
            return self.run_body(st, F, b, node, scope, fid)
        key = self.memo_key(st, F, b)
        m = self.memo.get(key)
        if m is not None:
            for deps, res, raised, guard, rm in m:
                if guard and any(self.rec.get(f) is not r or r["ver"] != ver for f, r, ver in guard):
                    continue
                if all(st.get(oid) == o for oid, o in deps):
                    self.memo_hits += 1
                    self.rec_min = min(self.rec_min, rm)
                    return self.memo_replay(st, res, raised)
        heap0 = dict(st.heap)
        env0 = set(st.env)
        w0 = len(self.writes)
        if st.ov:
            self.keepalive.append(st.ov)
        rc0 = self.rec_min
        self.rec_min = 10 ** 9
        depth = len(self.stack)
        old = self.sink
        self.sink = []
        try:
            res = self.rec_head(st, F, b, node, scope) if head else self.run_body(st, F, b, node, scope, fid)
            raised = self.sink
        finally:
            self.sink = old
        self.sink.extend(raised)
        rm = self.rec_min
        self.rec_min = min(rc0, rm)
        if rm >= depth:
            self.memo_store(key, F, b, heap0, env0, w0, res, raised, (), 10 ** 9)
        else:
            # valid while the summaries of the recursive functions it used stay the same
            guard = [(f, r, r["ver"]) for f, r in self.rec.items()]
            self.memo_store(key, F, b, heap0, env0, w0, res, raised, guard, rm)
        return res

    def run_plain(self, st, F, b, node):
        """a call with immutable arguments only is analysed in a state of its own"""
        key = self.memo_key(st, F, b)
        for res, raised, guard, rm in self.pmemo.get(key, ()):
            if not guard or all(self.rec.get(f) is r and r["ver"] == ver for f, r, ver in guard):
                self.memo_hits += 1
                self.rec_min = min(self.rec_min, rm)
                return self.bring(st, res, raised)
        fid = self.frame_fid(0, None, F)
        rk = (F, "plain")
        r = self.rec.get(rk)
        if r is not None:
            self.rec_min = min(self.rec_min, r["depth"])
            h = self.hooks.get("rec")
            if h:
                h(st, F, b, node)
            new = {k: vjoin(r["b"].get(k, BOT), v) for k, v in b.items()}
            pc = r["pc"] | st.pc
            if new != r["b"] or pc != r["pc"]:
                r["b"], r["pc"] = new, pc
                r["dirty"] = True
            return self.bring(st, r["exit"], [])
        if st.ov:
            self.keepalive.append(st.ov)
        d0 = max((x["depth"] for x in self.rec.values()), default=0)
        nact = sum(1 for x in self.stack[d0:] if x[0] is F and x[1] == fid)
        rc0 = self.rec_min
        self.rec_min = 10 ** 9
        depth = len(self.stack)
        old = self.sink
        w0 = len(self.writes)
        old_iter, self.live_iter = self.live_iter, []
        try:
            if nact == 0:
                res, raised = self.iso(st, F, b, node, fid, st.pc)
            else:
                r = {"fid": fid, "b": dict(b), "pc": st.pc, "exit": [], "dirty": False, "depth": depth, "ver": 0}
                self.rec[rk] = r
                try:
                    for rnd in range(14):
                        r["dirty"] = False
                        rr, raised = self.iso(st, F, r["b"], node, fid, r["pc"])
                        cur = {self.part_key(x[0]): x for x in r["exit"]}
                        for x in rr:
                            k = self.part_key(x[0])
                            j = x if k not in cur else self.join_res(cur[k], x, rnd > 2)
                            if k not in cur or j != cur[k]:
                                cur[k] = j
                                r["dirty"] = True
                                r["ver"] += 1
                        r["exit"] = list(cur.values())
                        if not r["dirty"]:
                            break
                    else:
                        raise Incomplete("no fixpoint for recursive %s" % F.qual)
                    res = r["exit"]
                finally:
                    del self.rec[rk]
        finally:
            self.sink = old
            self.live_iter = old_iter
        rm = self.rec_min
        self.rec_min = min(rc0, rm)
        if len(self.writes) == w0:
            if rm >= depth:
                self.pmemo.setdefault(key, []).append((res, raised, (), 10 ** 9))
            else:
                self.pmemo.setdefault(key, []).append((res, raised, [(f, x, x["ver"]) for f, x in self.rec.items()], rm))
        return self.bring(st, res, raised)

    def join_res(self, a, b, widen):
        """join two results (value, pc, bits, fresh objects, exact)"""
        v = vjoin(a[0], b[0])
        objs = dict(a[3])
        for k, o in b[3].items():
            objs[k] = join_obj(objs[k], o, E, widen) if k in objs else o
        return (v, a[1] | b[1], {k: w for k, w in a[2].items() if b[2].get(k) == w}, objs, a[4] and b[4])

    def iso(self, st, F, b, node, fid, pc):
        s0 = State(st.base)
        s0.ov = st.ov
        s0.heap = dict(st.ov)
        if st.ov:
            roots = []
            for o in st.ov.values():
                roots.extend(o.values())
            for x in st.reach(roots, stop=lambda o, ob: o[0] == "load"):
                if x in st.heap and x not in s0.heap:
                    s0.heap[x] = st.heap[x]
        pre = set(s0.heap)
        s0.pc = pc
        s0.bits = dict(st.bits)
        s0.exact = st.exact
        self.sink = []
        caller = self.fid
        res = self.run_body(s0, F, b, node, None, fid)
        raised = self.sink
        self.fid = caller

        def fresh(s, v):
            out = {}
            roots = [v]
            for k, o in s.ov.items():
                if st.ov.get(k) is not o:
                    out[k] = o
                    roots.extend(o.values())
            for x in s.reach(roots, stop=lambda o, ob: o[0] == "load"):
                if x[0] not in ("load", "val"):
                    o = s.get(x)
                    if o is not None:
                        out[x] = o
            return out
        return ([(v, s.pc, dict(s.bits), fresh(s, v), s.exact) for s, v in res],
                [(v, s.pc, dict(s.bits), fresh(s, v), n, fn) for s, v, n, fn in raised])

    def bring(self, st, res, raised):
        for v, pc, bits, objs, n, fn in raised:
            s = st.copy()
            s.pc = s.pc | pc
            s.bits = dict(bits)
            for k, o in objs.items():
                s.put(k, o)
            self.sink.append((s, v, n, fn))
        out = []
        for i, (v, pc, bits, objs, exact) in enumerate(res):
            s = st if i == len(res) - 1 else st.copy()
            s.pc = s.pc | pc
            s.bits = dict(bits)
            s.exact = s.exact and exact
            mv = {}
            for k in objs:
                if k[0] != "load" and k[-1] != "*" and k in s.heap:
                    mv[k] = k + ("*",)
            if mv:
                s.rename_many(mv)
                for k, k2 in mv.items():
                    merged = s.heap.pop(k).rep(uniq=False)
                    cur = s.get(k2)
                    s.put(k2, merged if cur is None else join_obj(cur, merged, E).rep(uniq=False))
            for k, o in objs.items():
                cur = s.heap.get(k) if k[-1] == "*" else None
                s.put(k, o if cur is None else join_obj(cur, o, E).rep(uniq=False))
            out.append((s, v))
        return out

    def plain(self, b):
        """only immutable values among the arguments"""
        for v in b.values():
            for a in v.a:
                if a[0] == "o" and a[1][0] != "val" and a[1] not in self.lib.bookset and a[1] not in self.classes:
                    return False
                if a[0] in ("t", "T", "bm", "fn"):
                    return False
        return True

    def memo_key(self, st, F, b):
        return (F, tuple(sorted(b.items(), key=lambda kv: kv[0])), st.pc, self.watch, self.phase, tuple(sorted(st.bits.items())), self.quiet_fmt > 0,
                frozenset((k, id(o)) for k, o in st.ov.items()) if st.ov else ())

    def memo_store(self, key, F, b, heap0, env0, w0, res, raised, guard, rm):
        if len(self.writes) != w0:
            return
        for s, v in res:
            live = None
            for k, o in s.heap.items():
                p = heap0.get(k)
                if p is not None and p is not o and p != o:
                    if live is None:
                        live = s.reach(list(s.env.values()) + list(b.values()))
                    if k in live or k[0] != self.phase:
                        return
            if any(x[0] == "$gen" for x in v.a):
                return
        for s, v, n, fn in raised:
            live = None
            for k, o in s.heap.items():
                p = heap0.get(k)
                if p is not None and p is not o and p != o:
                    if live is None:
                        live = s.reach([w for q, w in s.env.items() if q in env0] + list(b.values()))
                    if k in live or k[0] != self.phase:
                        return
        # objects the callee may read
        deps = []
        seen = set()
        todo = []
        for v in b.values():
            oids(v, todo)
        for o in key[-1]:
            todo.append(o[0])
        while todo:
            x = todo.pop()
            if x in seen or x[0] == "val" or x in self.base and x[0] == "load" and x not in heap0:
                continue
            seen.add(x)
            o = heap0.get(x)
            if o is None:
                continue
            deps.append((x, o))
            if len(deps) > 60:
                return
            for v in o.values():
                oids(v, todo)
        def live0(s):
            r = s.reach([w for q, w in s.env.items() if q in env0] + list(b.values()))
            return {x for x in r if x in heap0}
        rr = []
        for s, v in res:
            vals = {}
            lv = live0(s)
            for x in s.reach([v], stop=lambda o, ob: o in lv or o[0] == "load"):
                if x not in lv and x[0] != "load":
                    vals[x] = s.get(x)
                    if vals[x] is None or vals[x].cls in ("gen", "iter"):
                        return
            rr.append((v, s.pc, dict(s.bits), vals))
        xx = []
        for s, v, n, fn in raised:
            objs = {}
            lv = live0(s)
            for x in s.reach([v], stop=lambda o, ob: o[0] == "load"):
                if x[0] != "load" and x not in lv:
                    objs[x] = s.get(x)
            xx.append((v, s.pc, dict(s.bits), objs, n, fn))
        self.keepalive.append(key)
        self.memo.setdefault(key, []).append((deps, rr, xx, guard, rm))

    def val_closure(self, s, vs, out):
        todo = []
        for v in vs:
            oids(v, todo)
        while todo:
            x = todo.pop()
            if x[0] == "val" and x not in out:
                out[x] = self.vals[x]
                for v in out[x].values():
                    oids(v, todo)

    def memo_replay(self, st, res, raised):
        for v, pc, bits, objs, n, fn in raised:
            s = st.copy()
            s.pc = pc
            s.bits = dict(bits)
            for k, o in objs.items():
                s.put(k, o)
            self.sink.append((s, v, n, fn))
        out = []
        for i, (v, pc, bits, vals) in enumerate(res):
            s = st if i == len(res) - 1 else st.copy()
            s.pc = pc
            s.bits = dict(bits)
            mv = {}
            for k in vals:
                if k[0] != "val" and k[-1] != "*" and s.get(k) is not None:
                    mv[k] = k + ("*",)
            if mv:
                s.rename_many(mv)
                for k, k2 in mv.items():
                    merged = s.get(k).rep(uniq=False)
                    cur = s.get(k2)
                    s.put(k2, merged if cur is None else join_obj(cur, merged, E).rep(uniq=False))
            for k, o in vals.items():
                cur = s.get(k) if k[-1] == "*" else None
                s.put(k, o if cur is None else join_obj(cur, o, E).rep(uniq=False))
            out.append((s, v))
        return out

    def run_body(self, st, F, b, node, scope, fid):
        base = st.pc
        n0 = len(self.sink)
        caller = self.fid
        self.enter(F, fid, scope, node)
        for k, v in b.items():
            st.env[(fid, k)] = v
        self.fid = fid
        ysave = self.yields
        self.yields = []
        try:
            if isinstance(F.node, ast.Lambda):
                res = self.ev(F.node.body, st)
            else:
                out = self.block(F.node.body, [st])
                res = out.r + [(s, VNONE) for s in out.n]
        finally:
            self.fid = caller
            self.stack.pop()
            self.yields = ysave
        return self.leave(F, fid, res, base, n0)

    def leave(self, F, fid, res, base, n0):
        if not F.nested:
            for s, _ in res:
                for k in [k for k in s.env if k[0] == fid]:
                    del s.env[k]
        if self.watch and len(res) > 1:
            v0 = res[0][1]
            if any(v.a != v0.a for _, v in res):
                res = [(s, v.lab(s.pc - base)) for s, v in res]
        res = self.merge_parts(res)
        self.compact(n0, fid if not F.nested else None)
        if self.watch:
            keep = E
            for x in self.sink[n0:]:
                keep |= x[0].pc
            for s, _ in res:
                s.pc = base | (keep & s.pc)
        for s, v in res:
            if len(s.heap) > self.gc_at:
                self.gc(s, v)
        return res

    def compact(self, n0, fid):
        """join the raised states that agree on the exception and its origin"""
        if self.loading or self.cfg.numeric == "zone" or len(self.sink) == n0:
            return
        g = {}
        for s, v, n, fn in self.sink[n0:]:
            if fid is not None:
                for k in [k for k in s.env if k[0] == fid]:
                    del s.env[k]
            cl = []
            for a in v.a:
                o = s.get(a[1]) if a[0] == "o" else None
                cl.append(o.cls if o is not None else a[0])
            g.setdefault((id(n), id(fn), frozenset(cl)), []).append((s, v, n, fn))
        if len(g) < len(self.sink) - n0:
            new = []
            for lst in g.values():
                if len(lst) == 1:
                    new.append(lst[0])
                else:
                    (s, v), = self.merge_rv([(x[0], x[1]) for x in lst], 1)
                    new.append((s, v, lst[0][2], lst[0][3]))
            self.sink[n0:] = new

    def gc(self, st, v):
        if self.loading:
            return
        roots = list(st.env.values()) + [v] + self.pins
        live = st.reach(roots)
        # objects of earlier phases are kept
        for k in [k for k in st.heap if k not in live and k[0] == self.phase and k not in st.base]:
            if k[0] in ("run", "run2"):
                del st.heap[k]
        self.gc_at = max(400, 2 * len(st.heap))

    # recursion: one summary per function, solved by iteration
    def rec_head(self, st, F, b, node, scope):
        fid = self.frame_fid(self.fid, node, F)
        r = {"fid": fid, "entry": None, "exit": [], "dirty": False, "sink": [], "depth": len(self.stack), "ver": 0}
        self.rec[F] = r
        e = st
        for k, v in b.items():
            e.env[(fid, k)] = v
        r["entry"] = e.copy()
        params = list(b)
        try:
            for rnd in range(12):
                r["dirty"] = False
                ent = r["entry"].copy()
                bb = {k: ent.env[(fid, k)] for k in params if (fid, k) in ent.env}
                old = self.sink
                self.sink = []
                res = self.run_body(ent, F, bb, node, scope, fid)
                raised = self.sink
                self.sink = old
                ex = list(res)
                new = []
                for s, v in ex:
                    new.append((s, v))
                cur = {self.part_key(v): (s, v) for s, v in r["exit"]}
                for s, v in new:
                    k = self.part_key(v)
                    if k not in cur:
                        cur[k] = (s.copy(), v)
                        r["dirty"] = True
                        r["ver"] += 1
                    else:
                        j = self.merge_rv([(cur[k][0].copy(), cur[k][1]), (s.copy(), v)], 1)[0]
                        if j[1] != cur[k][1] or not j[0].same(cur[k][0]):
                            cur[k] = j
                            r["dirty"] = True
                            r["ver"] += 1
                r["exit"] = list(cur.values())
                if not r["dirty"]:
                    break
        finally:
            del self.rec[F]
        self.sink.extend(raised)
        return [(s.copy(), v) for s, v in r["exit"]]

    def rec_call(self, st, F, b, node, scope):
        r = self.rec[F]
        self.rec_min = min(self.rec_min, r["depth"])
        fid = r["fid"]
        h = self.hooks.get("rec")
        if h:
            h(st, F, b, node)
        saved = {k: v for k, v in st.env.items() if k[0] == fid}
        e = st.copy()
        for k in saved:
            del e.env[k]
        for k, v in b.items():
            e.env[(fid, k)] = v
        j = join_state(r["entry"], e, widen=True)
        if not j.same(r["entry"]):
            r["entry"] = j
            r["dirty"] = True
        out = []
        if scope is None and not F.nested:
            # frame rule: only objects reachable from the arguments or from the program's globals can have changed
            args = st.reach(list(b.values()), stop=lambda o, ob: o[0] == "load")
            for s, v in r["exit"]:
                ns = st.copy()
                ns.pc = st.pc | s.pc
                ns.bits = dict(s.bits)
                ns.exact = st.exact and s.exact
                res = None
                for k, o in s.heap.items():
                    cur = ns.heap.get(k)
                    if cur is o:
                        continue
                    if cur is None or k in args or k[0] == "load":
                        ns.put(k, o)
                    elif cur != o:
                        if res is None:
                            res = s.reach([v] + [mk(("o", x)) for x in args], stop=lambda o, ob: o[0] == "load")
                        if k in res:
                            ns.put(k, join_obj(cur, o, E).rep(uniq=False))
                out.append((ns, v))
            return out
        for s, v in r["exit"]:
            s = s.copy()
            for k, w in st.env.items():
                if k not in s.env:
                    s.env[k] = w
            for k, o in st.heap.items():
                if k not in s.heap:
                    s.heap[k] = o
            s.env.update(saved)
            out.append((s, v))
        return out

    def instantiate(self, st, cls, args, kw, node, star=None):
        r = self.lib.special_new(st, cls, args, kw, node, star)
        if r is not None:
            return r
        ci = self.classes[cls]
        obj = Obj(cls)
        nv, nowner = self.cls_attr(st, cls, "__new__")
        if nv is not None and nv.one() is not None and nv.one()[0] in ("fn", "sm"):
            f = nv.one()
            f = f[1] if f[0] == "sm" else f
            res = self.call_a(st, f, [mk(("o", cls))] + args, kw, node, star)
        else:
            oid = self.alloc(st, node, obj, key="i:" + ci.name)
            res = [(st, mk(("o", oid)))]
        h = self.hooks.get("new")
        out = []
        for s, sv in res:
            a = sv.one()
            if a is None or a[0] != "o":
                out.append((s, sv))
                continue
            iv, owner = self.cls_attr(s, cls, "__init__")
            tmp = (self.fid, "$new", self.site(node))
            prev = s.env.get(tmp)
            s.env[tmp] = sv
            if iv is None or iv.one() is None or iv.one()[0] not in ("fn", "bi"):
                rs = self.lib.default_init(s, a, cls, args, kw, node)
            elif iv.one()[0] == "bi":
                rs = self.lib.call(s, ("bb", iv.one()[1], a), args, kw, node, star)
            else:
                rs = self.call_a(s, ("bm", iv.one(), a, owner), args, kw, node, star)
            for s2, _ in rs:
                v2 = s2.env.pop(tmp, sv)
                if prev is not None:
                    s2.env[tmp] = prev
                out.append((s2, self.intern(s2, v2)))
        return self.merge_rv(out)

    def is_frozen(self, cls):
        r = self.frozen_cache.get(cls)
        if r is None:
            r = any(self.classes[c].dc and self.classes[c].dc.get("frozen") for c in self.mro(cls))
            self.frozen_cache[cls] = r
        return r

    def intern(self, st, v):
        """instances of frozen dataclasses are named by their contents"""
        if self.loading or self.cfg.numeric == "zone":
            return v
        a = v.one()
        if a is None or a[0] != "o" or a[1][0] == "val":
            return v
        o = st.get(a[1])
        if o is None or not isinstance(o.cls, tuple) or not self.is_frozen(o.cls):
            return v
        if self.cfg.coarse:
            o = self.coarsen(st, o)
        n = self.val_oid(st, o)
        st.heap.pop(a[1], None)
        return V(frozenset([("o", n)]), v.l)

    def coarsen(self, st, o):
        """forget the numbers of a frozen instance: only its provenance labels stay apart"""
        L = E
        f = {}
        for k, v in o.f.items():
            L |= v.l
            at = set()
            vals = {}
            for a in v.a:
                if a[0] == "n":
                    a = ("n", Itv(0, None))
                elif a[0] == "bk" or a[0] == "o" and a[1] in self.lib.bookset:
                    a = ("bk", None)
                elif a[0] == "o" and a[1][0] == "val":
                    vals.setdefault(self.vals[a[1]].cls, []).append(a[1])
                    continue
                at.add(a)
            for c, vs in vals.items():
                if len(vs) == 1:
                    at.add(("o", vs[0]))
                    continue
                j = self.vals[vs[0]]
                for x in vs[1:]:
                    j = join_obj(j, self.vals[x], E)
                at.add(("o", self.val_oid(st, self.coarsen(st, j))))
            f[k] = V(frozenset(at), v.l)
        for k, v in f.items():
            for a in v.a:
                if a[0] == "o" and a[1][0] == "val":
                    for w in self.vals[a[1]].f.values():
                        L |= w.l
        if L:
            g = {}
            for k, v in f.items():
                at = set()
                for a in v.a:
                    if a[0] == "o" and a[1][0] == "val":
                        x = self.vals[a[1]]
                        a = ("o", self.val_oid(st, x.rep(f={q: w.lab(L) for q, w in x.f.items()})))
                    at.add(a)
                g[k] = V(frozenset(at), v.l | L)
            f = g
        return o.rep(f=f)

    def val_oid(self, st, o):
        k = (o.cls, frozenset(o.f.items()))
        n = self.valtab.get(k)
        if n is None:
            n = self.valtab[k] = ("val", len(self.valtab))
            self.vals[n] = self.base[n] = o.rep(uniq=False)
        return n

    # ------------------------------------------------------------------ iteration
    def iterate(self, st, v, cb, node):
        """run cb(state, item) for every item; states after exhaustion"""
        out = []
        atoms = list(v.a)
        for i, a in enumerate(atoms):
            s = st.copy() if len(atoms) > 1 else st
            out.extend(self.iter_atom(s, a, v.l, cb, node))
        return self.merge(out)

    def iter_known(self, st, items, l, cb, node, full=False):
        if len(items) > self.cfg.unroll and not self.loading and not full:
            el = vjoin_all(items)
            return self.iter_summary(st, lambda s: el.lab(l), cb)
        sts = [st]
        for x in items:
            nx = []
            for s in sts:
                nx.extend(cb(s, x.lab(l)))
            sts = self.merge(nx)
            if not sts:
                break
        return sts

    def iter_summary(self, st, getel, cb, first=None):
        """zero or more rounds with an unknown element; fixpoint"""
        if self.cfg.numeric == "zone":
            raise Incomplete("iteration of unknown length")

        def stepf(s):
            el = getel(s)
            if self.cfg.splititems and len(el.a) > 1:
                out = []
                for a in sorted(el.a, key=str):
                    out.extend(cb(s.copy(), V(frozenset([a]), el.l)))
                return self.merge(out)
            return cb(s, el)
        return self.fix(st, lambda s: ([s.copy()], stepf(s)))

    def fix(self, st, stepf):
        """stepf(head) -> (exit states, next head states); returns exits at the fixpoint"""
        head = st
        for rnd in range(60):
            pin = self.pins
            exits, nxt = stepf(head.copy())
            new = head
            for s in nxt:
                s.pc = s.pc | head.pc
                new = join_state(new, s, widen=rnd >= 2)
            if len(nxt):
                new.pc = head.pc
            if not nxt or new.same(head):
                return exits
            head = new
        raise Incomplete("no fixpoint")

    def iter_atom(self, st, a, l, cb, node):
        t = a[0]
        if t == "t":
            return self.iter_known(st, a[1], l, cb, node)
        if t == "T":
            return self.iter_summary(st, lambda s: a[1].lab(l), cb)
        if t == "o":
            o = st.get(a[1])
            if o is None:
                return self.iter_summary(st, lambda s: V(VTOP.a, l), cb)
            if o.cls in ("list", "set"):
                if o.cls == "list" and o.uniq:
                    return self.iter_list(st, a[1], l, cb, node)
                if o.items is not None:
                    return self.iter_known(st, o.items, l, cb, node)
                return self.iter_summary(st, lambda s: (s.get(a[1]) or o).all_elem().lab(l), cb)
            if o.cls == "iter":
                if o.x == ("strict",) and self.cfg.numeric == "zone":
                    for s in self.iter_known(st, o.items, l, cb, node):
                        self.raise_named(s, "ValueError", node)
                    return []
                if o.items is not None and self.cfg.numeric == "zone" and not self.loading and o.uniq:
                    sts, done = [st], []
                    while sts:
                        nx = []
                        for s in sts:
                            its = s.get(a[1]).items
                            if its:
                                s.put(a[1], s.get(a[1]).rep(items=its[1:]))
                                nx.extend(cb(s, its[0].lab(l)))
                            else:
                                done.append(s)
                        sts = self.merge(nx)
                    return self.merge(done)
                if o.items is not None:
                    return self.iter_known(st, o.items, l, cb, node)
                if self.loading or self.cfg.numeric == "zone":
                    raise Incomplete("iteration of unknown length")
                return self.iter_summary(st, lambda s: o.elem.lab(l), cb)
            if o.cls == "dict":
                if o.items is not None:
                    return self.iter_known(st, [k for k, _ in o.items], l, cb, node)
                return self.iter_summary(st, lambda s: s.get(a[1]).elem[0].lab(l), cb)
            if o.cls == "gen":
                return self.iter_gen(st, a[1], o, l, cb, node)
            if o.cls == "class":
                ci = self.classes[a[1]]
                if ci.enum == "enum" and a[1] == self.lib.book_cls and not self.loading and self.cfg.numeric == "itv" and self.cfg.books == "any":
                    return self.iter_summary(st, lambda s: V(frozenset([("bk", None)]), l), cb)
                if ci.enum == "enum" and a[1] == self.lib.book_cls and self.cfg.numeric == "zone" and not self.loading:
                    return self.iter_known(st, [mk(("bk", i)) for i in range(len(ci.members))], l, cb, node)
                if ci.enum == "enum":
                    return self.iter_known(st, [mk(("o", m)) for m in ci.members], l, cb, node)
            if o.cls == "any":
                return self.iter_any(st, a, o, l, cb, node)
            if isinstance(o.cls, tuple):
                m = self.find_method(st, a, "__iter__")
                if m is not None:
                    out = []
                    for s, gv in self.call_method(st, a, m[0], m[1], [], node):
                        out.extend(self.iterate(s, gv, cb, node))
                    return self.merge(out)
                m = self.find_method(st, a, "__getitem__")
                if m is not None:
                    return self.iter_getitem(st, a, m, l, cb, node)
                self.raise_named(st, "TypeError", node)
                return []
        if t == "s" or t == "S":
            if t == "s" and all(isinstance(x, str) for x in a[1]):
                return self.iter_known(st, [vstr(c) for c in "".join(a[1])], l, cb, node)
            return self.iter_summary(st, lambda s: V(VSTR.a, l), cb)
        if t == "range":
            return self.iter_range(st, a, l, cb, node)
        if t == "tab":
            rows = self.lib.tab_rows(st, a) if self.cfg.numeric == "zone" else None
            if rows is not None:
                out = []
                for s, row in rows:
                    out.extend(self.iter_known(s, [vint(x) for x in sorted(row)], l, cb, node, True))
                return out
            return self.iter_summary(st, lambda s: self.lib.tab_elem(s, a).lab(l), cb)
        if t == "fl":
            self.raise_named(st, "TypeError", node)
            return []
        if t in ("none", "n", "b"):
            self.raise_named(st, "TypeError", node)
            return []
        return self.iter_summary(st, lambda s: V(VTOP.a, l), cb)

    def iter_getitem(self, st, a, m, l, cb, node):
        # sequence protocol: unknown number of rounds
        def stp(s):
            out = []
            n0 = len(self.sink)
            for s1, v in self.call_method(s, a, m[0], m[1], [vint(Itv(0, None))], node):
                out.extend(cb(s1, v.lab(l)))
            del self.sink[n0:]
            return self.merge(out)
        if self.cfg.numeric == "zone":
            raise Incomplete("iteration of unknown length")
        return self.fix(st, lambda s: ([s.copy()], stp(s)))

    def iter_list(self, st, oid, l, cb, node):
        """iteration by position, so that growth during the loop is seen"""
        o = st.get(oid)
        self.live_iter.append(oid)
        try:
            if o.items is not None and (len(o.items) <= self.cfg.unroll or self.loading):
                sts = [(st)]
                done = []
                i = 0
                while sts:
                    nx = []
                    for s in sts:
                        ob = s.get(oid)
                        if ob is None or ob.items is None:
                            # became unknown in the loop
                            done.extend(self.iter_summary(s, lambda s1: (s1.get(oid) or o).all_elem().lab(l), cb))
                        elif i < len(ob.items):
                            nx.extend(cb(s, ob.items[i].lab(l)))
                        else:
                            done.append(s)
                    sts = self.merge(nx)
                    i += 1
                    if i > 5000 or (i > 300 and not self.loading):
                        raise Incomplete("list grows while it is iterated")
                return self.merge(done)
            return self.iter_summary(st, lambda s: s.get(oid).all_elem().lab(l), cb)
        finally:
            self.live_iter.pop()

    def iter_any(self, st, a, o, l, cb, node):
        def getel(s):
            oid = self.alloc(s, node, Obj("any", x=("top",)), key="el")
            return V(frozenset([("o", oid)]), l)
        if not (o.x and o.x[0] == "is"):
            self.may_raise(st, "TypeError", node)
        return self.iter_summary(st, getel, cb)

    def iter_range(self, st, a, l, cb, node):
        lo, hi, stp = a[1], a[2], a[3]
        if all(isinstance(x, int) for x in (lo, hi, stp)):
            r = range(lo, hi, stp)
            if len(r) <= self.cfg.unroll or self.loading:
                return self.iter_known(st, [vint(i) for i in r], l, cb, node)
        if self.cfg.numeric == "zone":
            return self.lib.iter_range_zone(st, a, l, cb, node)
        l1, _ = itv_of(lo)
        _, h2 = itv_of(hi)
        ll, lh = itv_of(hi)
        if isinstance(stp, int) and stp < 0:
            el = vint(mk_itv(None if ll is None else ll + 1, itv_of(lo)[1]), l)
        else:
            el = vint(mk_itv(l1, None if h2 is None else h2 - 1), l)
        if h2 is not None and l1 is not None and h2 <= l1 and not (isinstance(stp, int) and stp < 0):
            return [st]
        return self.iter_summary(st, lambda s: el, cb)

    def iter_gen(self, st, oid, o, l, cb, node):
        consumer = (self.fid, self.sink, self.yields)
        if o.x[0] == "genexp":
            n, dfid = o.x[1], o.x[2]
            caller = self.fid
            self.fid = dfid
            cf = self.comp_frame(n)
            osink = self.sink

            def sink(s):
                out = []
                for s1, v in self.ev(n.elt, s):
                    f2, self.fid = self.fid, caller
                    try:
                        out.extend(cb(s1, v.lab(l)))
                    finally:
                        self.fid = f2
                return self.merge(out)
            try:
                gens = n.generators
                # the first iterable was evaluated when the generator was made
                itv = o.f["$it"]
                return self.genexp_run(n, itv, st, sink, cf)
            finally:
                self.fid = caller
        F, scope, dfid = o.x[1], o.x[2], o.x[3]
        b = dict(o.f)
        fid = self.frame_fid(self.fid, node, F)
        live = {k[0] for k in st.env}
        while fid in live:      # two generators of the same loop are in progress
            fid = self.frame_fid(fid, node, F)
        caller = self.fid
        base = st.pc
        n0 = len(self.sink)
        if sum(1 for x in self.stack if x[0] is F) > 6:
            raise Incomplete("recursive generator")
        self.enter(F, fid, scope, node)
        for k, v in b.items():
            st.env[(fid, k)] = v
        gsink_outer = self.sink
        gsink = []            # exceptions of the generator body itself
        stack_len = len(self.stack)

        def ycb(s, v):
            # switch to the consumer
            f2, s2, y2, st2 = self.fid, self.sink, self.yields, self.stack
            self.fid, self.sink, self.yields = caller, gsink_outer, consumer[2]
            self.stack = st2[:stack_len - 1]
            gh = self.hooks.get("grow")
            if gh:
                s.env.pop((fid, "$grown"), None)
                self.watchers.append((s.reach([w for k, w in s.env.items() if k[0] == fid]), fid))
            try:
                r = cb(s, v.lab(l))
                if gh:
                    for x in r:
                        if x.env.pop((fid, "$grown"), None) is not None:
                            gh(F, node)
                return r
            finally:
                if gh:
                    self.watchers.pop()
                self.fid, self.sink, self.yields, self.stack = f2, s2, y2, st2
        self.fid = fid
        self.yields = self.yields + [ycb]
        self.sink = gsink
        try:
            out = self.block(F.node.body, [st])
        finally:
            self.fid = caller
            self.stack.pop()
            self.yields = consumer[2]
            self.sink = gsink_outer
        self.sink.extend(gsink)
        sts = out.n + [s for s, _ in out.r]
        for s in sts:
            for k in [k for k in s.env if k[0] == fid]:
                del s.env[k]
        return self.merge(sts)

    def genexp_run(self, n, itv, st, sink, cf):
        gens = n.generators

        def run(i, s):
            if i == len(gens):
                old = self.fid
                self.fid = cf
                try:
                    return sink(s)
                finally:
                    self.fid = old
            g = gens[i]
            if i == 0:
                its = [(s, itv)]
            else:
                old = self.fid
                self.fid = cf
                try:
                    its = self.ev(g.iter, s)
                finally:
                    self.fid = old
            out = []
            for s1, iv in its:
                def cb(s2, item, g=g, i=i):
                    old = self.fid
                    self.fid = cf
                    dropped = []
                    try:
                        cur = self.assign(g.target, item, s2, g)
                        for c in g.ifs:
                            keep = []
                            for s3 in cur:
                                t, f = self.cond(c, s3)
                                keep.extend(t)
                                dropped.extend(f)
                            cur = keep
                    finally:
                        self.fid = old
                    res = []
                    for s3 in cur:
                        res.extend(run(i + 1, s3))
                    return self.merge(res + dropped)
                out.extend(self.iterate(s1, iv, cb, g))
            return self.merge(out)
        return run(0, st)

    # ------------------------------------------------------------------ assignment
    def assign(self, tgt, v, st, node):
        """list of states"""
        if isinstance(tgt, ast.Name):
            self.setname(tgt.id, v, st)
            return [st]
        if isinstance(tgt, ast.Attribute):
            key = (self.fid, "$as", self.site(tgt))
            st.env[key] = v
            out = []
            for s, b in self.ev(tgt.value, st):
                v2 = s.env.pop(key)
                out.extend(self.setattr_v(s, b, tgt.attr, v2, tgt))
            return self.merge(out)
        if isinstance(tgt, ast.Subscript):
            key = (self.fid, "$as", self.site(tgt))
            st.env[key] = v
            out = []
            if isinstance(tgt.slice, ast.Slice):
                for s, b in self.ev(tgt.value, st):
                    v2 = s.env.pop(key)
                    out.extend(self.lib.setslice(s, b, v2, tgt))
                return out
            for s, (b, i) in self.ev_list([tgt.value, tgt.slice], st):
                v2 = s.env.pop(key)
                out.extend(self.lib.setitem(s, b, i, v2, tgt))
            return self.merge(out)
        if isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            res = []
            for s, items in self.lib.unpack(st, v, n, any(isinstance(e, ast.Starred) for e in tgt.elts), node):
                # keep values in the state while assigning
                cur = [s]
                keys = []
                starpos = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
                if starpos:
                    p = starpos[0]
                    after = n - p - 1
                    mid = items[p:len(items) - after]
                    items = items[:p] + [self.newlist(s, tgt, mid)] + items[len(items) - after:]
                for i, x in enumerate(items):
                    k = (self.fid, "$un", self.site(tgt), i)
                    s.env[k] = x
                    keys.append(k)
                for k, e in zip(keys, tgt.elts):
                    e = e.value if isinstance(e, ast.Starred) else e
                    nx = []
                    for s1 in cur:
                        x = s1.env.pop(k)
                        nx.extend(self.assign(e, x, s1, node))
                    cur = self.merge(nx)
                res.extend(cur)
            return self.merge(res)
        if isinstance(tgt, ast.Starred):
            return self.assign(tgt.value, v, st, node)
        raise AnalysisError("assignment target")

    # ------------------------------------------------------------------ statements
    def block(self, stmts, sts):
        out = Out()
        cur = sts
        for s in stmts:
            if not cur:
                break
            nx = []
            for st in cur:
                self.stmt(s, st, out, nx)
            cur = self.merge(nx) if len(nx) > 1 else nx
        out.n = cur
        if self.cfg.K == 1:
            out.b = self.merge(out.b)
            out.c = self.merge(out.c)
        return out

    def stmt(self, n, st, out, nx):
        self.step()
        getattr(self, "s_" + n.__class__.__name__)(n, st, out, nx)

    def s_Expr(self, n, st, out, nx):
        if isinstance(n.value, ast.Constant):
            nx.append(st)
            return
        nx.extend(s for s, _ in self.ev(n.value, st))

    def s_Pass(self, n, st, out, nx):
        nx.append(st)

    s_Global = s_Nonlocal = s_Pass

    def s_Assign(self, n, st, out, nx):
        for s, v in self.ev(n.value, st):
            cur = [s]
            if len(n.targets) > 1:
                key = (self.fid, "$ma", self.site(n))
                s.env[key] = v
                for t in n.targets:
                    cur = [y for x in cur for y in self.assign(t, x.env[key], x, n)]
                for x in cur:
                    x.env.pop(key, None)
            else:
                cur = self.assign(n.targets[0], v, s, n)
            nx.extend(cur)

    def s_AnnAssign(self, n, st, out, nx):
        if self.frames[self.fid][0] == "class" and isinstance(n.target, ast.Name):
            self.cls_fields.append((n.target.id, n.value))
        if n.value is None:
            nx.append(st)
            return
        for s, v in self.ev(n.value, st):
            nx.extend(self.assign(n.target, v, s, n))

    def s_AugAssign(self, n, st, out, nx):
        t = n.target
        if isinstance(t, ast.Name):
            for s, (a, b) in self.ev_list([ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), n.value], st):
                for s2, v in self.lib.binop(s, n.op, a, b, n, inplace=True):
                    nx.extend(self.assign(t, v, s2, n))
            return
        if isinstance(t, ast.Attribute):
            base, extra = t.value, None
        else:
            base, extra = t.value, t.slice
        kb = (self.fid, "$ab", self.site(t))
        ki = (self.fid, "$ai", self.site(t))
        for s, vs in self.ev_list([base] + ([extra] if extra is not None else []), st):
            s.env[kb] = vs[0]
            if extra is not None:
                s.env[ki] = vs[1]
                cur = self.lib.getitem(s, vs[0], vs[1], t)
            else:
                cur = self.getattr_v(s, vs[0], t.attr, t)
            kc = (self.fid, "$ac", self.site(t))
            for s1, c in cur:
                s1.env[kc] = c
                for s2, r in self.ev(n.value, s1):
                    for s3, v in self.lib.binop(s2, n.op, s2.env.pop(kc), r, n, inplace=True):
                        b = s3.env.pop(kb)
                        if extra is not None:
                            nx.extend(self.lib.setitem(s3, b, s3.env.pop(ki), v, t))
                        else:
                            nx.extend(self.setattr_v(s3, b, t.attr, v, t))

    def s_Return(self, n, st, out, nx):
        rs = [(st, VNONE)] if n.value is None else self.ev(n.value, st)
        out.r.extend(rs)
        if len(out.r) > 8 and self.cfg.K == 1:
            pass

    def s_If(self, n, st, out, nx):
        base = st.pc
        n0, r0, b0, c0 = len(self.sink), len(out.r), len(out.b), len(out.c)
        ts, fs = self.cond(n.test, st)
        o1 = self.block(n.body, ts) if ts else Out()
        o2 = self.block(n.orelse, fs) if fs else Out()
        out.r += o1.r + o2.r
        out.b += o1.b + o2.b
        out.c += o1.c + o2.c
        sts = o1.n + o2.n
        sts = self.merge(sts)
        if self.watch:
            keep = E
            for x in self.sink[n0:]:
                keep |= x[0].pc
            for s, _ in o1.r + o2.r:
                keep |= s.pc
            for s in o1.b + o2.b + o1.c + o2.c:
                keep |= s.pc
            for s in sts:
                s.pc = base | (keep & s.pc)
        nx.extend(sts)

    def s_While(self, n, st, out, nx):
        base = st.pc
        n0 = len(self.sink)
        brk = []
        rets = []

        def stp(head):
            ts, fs = self.cond(n.test, head)
            o = self.block(n.body, ts) if ts else Out()
            return fs, o
        if self.cfg.numeric == "zone":
            cur = [st]
            exits = []
            for rnd in range(self.cfg.maxrounds + 1):
                nxt = []
                for s in cur:
                    fs, o = stp(s)
                    exits += fs
                    brk += o.b
                    rets += o.r
                    nxt += o.n + o.c
                cur = self.merge(nxt)
                if not cur:
                    break
            if cur:
                raise Incomplete("loop at line %d not decided in %d rounds" % (n.lineno, self.cfg.maxrounds))
        else:
            sts = [st]
            # decided rounds first (constant loops)
            exits = []
            rnds = 0
            cell = {}

            def step2(head):
                ns0 = len(self.sink)
                fs, o = stp(head)
                cell["b"], cell["r"] = o.b, o.r
                cell["s"] = (ns0, len(self.sink))
                return fs, self.merge(o.n + o.c)
            if self.loading:
                cur = [st]
                while cur:
                    nxt = []
                    for s in cur:
                        fs, o = stp(s)
                        exits += fs
                        brk += o.b
                        rets += o.r
                        nxt += o.n + o.c
                    cur = nxt
                    rnds += 1
                    if rnds > 20000:
                        raise AnalysisError("module-level loop")
            else:
                exits = self.fix_sink(st, step2)
                brk, rets = cell["b"], cell["r"]
        if n.orelse:
            o = self.block(n.orelse, self.merge(exits))
            exits = o.n
            out.r += o.r
            out.b += o.b
            out.c += o.c
        out.r += rets
        sts = self.merge(exits + brk)
        if self.watch:
            keep = E
            for x in self.sink[n0:]:
                keep |= x[0].pc
            for s, _ in rets:
                keep |= s.pc
            for s in sts:
                s.pc = base | (keep & s.pc)
        nx.extend(sts)

    def fix_sink(self, st, stepf):
        """fixpoint in which only the exceptions of the last round count"""
        head = st
        for rnd in range(60):
            n0 = len(self.sink)
            exits, nxt = stepf(head.copy())
            new = head
            for s in nxt:
                new = join_state(new, s, widen=rnd >= 2)
            if nxt:
                new.pc = head.pc
            if not nxt or new.same(head):
                return exits
            del self.sink[n0:]
            head = new
        raise Incomplete("no fixpoint")

    def s_For(self, n, st, out, nx):
        base = st.pc
        n0 = len(self.sink)
        its = self.ev(n.iter, st)
        kit = (self.fid, "$it", self.site(n))
        for s, iv in its:
            s.env[kit] = iv
            cell = {"b": [], "r": []}

            def cb(s1, item):
                o = self.block(n.body, self.assign(n.target, item, s1, n))
                if self.cfg.numeric == "zone" or self.loading:
                    cell["b"] += o.b
                    cell["r"] += o.r
                else:
                    # keep joins only, so that rounds of a fixpoint subsume each other
                    cell["b"] = self.merge(cell["b"] + o.b)
                    cell["r"] = self.merge_parts(cell["r"] + o.r)
                return self.merge(o.n + o.c)
            exits = self.iterate(s, iv, cb, n)
            brk = cell["b"]
            out.r += cell["r"]
            if n.orelse:
                o = self.block(n.orelse, exits)
                exits = o.n
                out.r += o.r
                out.b += o.b
                out.c += o.c
            sts = self.merge(exits + brk)
            if self.watch:
                keep = E
                for x in self.sink[n0:]:
                    keep |= x[0].pc
                for s1, _ in cell["r"]:
                    keep |= s1.pc
                for s1 in sts:
                    s1.pc = base | (keep & s1.pc)
            for s1 in sts:
                s1.env.pop(kit, None)
            nx.extend(sts)

    def s_Break(self, n, st, out, nx):
        out.b.append(st)

    def s_Continue(self, n, st, out, nx):
        out.c.append(st)

    def s_Raise(self, n, st, out, nx):
        if n.exc is None:
            cur = st.env.get((self.fid, "$exc"))
            f = self.fid
            self.raise_v(st, cur if cur is not None else VTOP, n)
            return
        self.quiet_fmt += 1
        try:
            rs = self.ev(n.exc, st)
        finally:
            self.quiet_fmt -= 1
        for s, v in rs:
            res = [(s, v)]
            a = v.one()
            if a is not None and a[0] == "o" and s.get(a[1]) is not None and s.get(a[1]).cls == "class":
                res = self.instantiate(s, a[1], [], {}, n)
            for s2, v2 in res:
                self.raise_v(s2, v2, n)

    def s_Assert(self, n, st, out, nx):
        ts, fs = self.cond(n.test, st)
        for s in fs:
            self.raise_named(s, "AssertionError", n, implicit=False)
        nx.extend(ts)

    def s_Delete(self, n, st, out, nx):
        cur = [st]
        for t in n.targets:
            res = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s.env.pop((self.fid, t.id), None)
                    res.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, (b, i) in self.ev_list([t.value, t.slice], s):
                        res.extend(self.lib.delitem(s2, b, i, t))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        res.extend(self.delattr_v(s2, b, t.attr, t))
            cur = res
        nx.extend(cur)

    def delattr_v(self, st, b, name, node):
        a = b.one()
        if a is not None and a[0] == "o":
            o = st.get(a[1])
            if isinstance(o.cls, tuple):
                sv, owner = self.cls_attr(st, o.cls, "__delattr__")
                if sv is not None and sv.one() is not None and sv.one()[0] == "fn":
                    return [s for s, _ in self.call_method(st, a, sv, owner, [vstr(name)], node)]
                for c in self.mro(o.cls):
                    ci = self.classes[c]
                    if ci.dc and ci.dc.get("frozen"):
                        self.raise_named(st, "FrozenInstanceError", node, implicit=False)
                        return []
            self.note_write(a[1], name, node, BOT, st)
            st.put(a[1], o.delf(name))
        return [st]

    def drop_frames(self, st):
        live = {f for _, f, _ in self.stack}
        live.add(self.fid)
        for f in list(live):
            live.update(self.scope_chain(f))
        for k in [k for k in st.env if isinstance(k, tuple) and k[0] not in live and k[1] != "keep"]:
            fr = self.frames.get(k[0])
            if fr is not None and isinstance(fr[0], Func) and not fr[0].nested and k[0] not in live:
                del st.env[k]

    def s_Try(self, n, st, out, nx):
        old = self.sink
        self.sink = []
        try:
            o = self.block(n.body, [st])
        finally:
            raised = self.sink
            self.sink = old
        if n.orelse:
            inner = self.block(n.orelse, o.n)
            o.n = inner.n
            o.r += inner.r
            o.b += inner.b
            o.c += inner.c
        res = Out()
        res.n, res.r, res.b, res.c = list(o.n), list(o.r), list(o.b), list(o.c)
        esc = []
        perh = [[] for _ in n.handlers]
        for item in raised:
            s, ev, node, fn = item
            rest = ev
            for hi, h in enumerate(n.handlers):
                if h.type is None:
                    perh[hi].append((s, rest))
                    rest = None
                    break
                tr = self.ev(h.type, s)
                if not tr:
                    continue
                classes = self.lib.class_list(s, tr[0][1])
                ta, fa = [], []
                for a in rest.a:
                    r = self.lib.isinst_atom(s, a, classes)
                    if r is not False:
                        ta.append(a)
                    if r is not True:
                        fa.append(a)
                if ta:
                    perh[hi].append((s.copy() if fa else s, V(frozenset(ta), rest.l)))
                if not fa:
                    rest = None
                    break
                rest = V(frozenset(fa), rest.l)
            if rest is not None:
                esc.append((s, rest, node, fn))
        old = self.sink
        self.sink = []
        for h, lst in zip(n.handlers, perh):
            if not lst:
                continue
            for s, _ in lst:
                self.drop_frames(s)
            if self.cfg.numeric == "itv" and not self.loading:
                lst = self.merge_rv(lst, 1)
            for s, ev in lst:
                if h.name:
                    self.setname(h.name, ev, s)
                s.env[(self.fid, "$exc")] = ev
                ho = self.block(h.body, [s])
                for x in ho.n + ho.b + ho.c:
                    x.env.pop((self.fid, "$exc"), None)
                res.n += ho.n
                res.r += ho.r
                res.b += ho.b
                res.c += ho.c
        esc += self.sink
        self.sink = old
        if n.finalbody:
            fin = Out()
            fin.n = self.fin(n, res.n, out, res)
            fin.b = self.fin(n, res.b, out, res)
            fin.c = self.fin(n, res.c, out, res)
            rr = []
            for s, v in res.r:
                s.env[(self.fid, "$rv")] = v
                for s2 in self.fin(n, [s], out, res):
                    rr.append((s2, s2.env.pop((self.fid, "$rv"))))
            fin.r = rr
            for s, ev, node, fn in esc:
                s.env[(self.fid, "$ev")] = ev
                for s2 in self.fin(n, [s], out, res):
                    self.sink.append((s2, s2.env.pop((self.fid, "$ev")), node, fn))
            res = fin
        else:
            self.sink.extend(esc)
        out.r += res.r
        out.b += res.b
        out.c += res.c
        nx.extend(self.merge(res.n))

    s_TryStar = s_Try

    def fin(self, n, sts, out, res):
        if not sts:
            return []
        o = self.block(n.finalbody, sts)
        out.r += o.r
        out.b += o.b
        out.c += o.c
        return o.n

    def s_With(self, n, st, out, nx):
        # context managers: enter, body, exit on every outcome
        cur = [st]
        mgrs = []
        for i, item in enumerate(n.items):
            key = (self.fid, "$cm", self.site(n), i)
            mgrs.append(key)
            res = []
            for s in cur:
                for s1, v in self.ev(item.context_expr, s):
                    s1.env[key] = v
                    for s2, ev in self.lib.cm_enter(s1, v, n):
                        if item.optional_vars is not None:
                            res.extend(self.assign(item.optional_vars, ev, s2, n))
                        else:
                            res.append(s2)
            cur = res
        old = self.sink
        self.sink = []
        o = self.block(n.body, cur)
        raised = self.sink
        self.sink = old

        def leave(s):
            sts = [s]
            for key in reversed(mgrs):
                r2 = []
                for s1 in sts:
                    v = s1.env.pop(key, VTOP)
                    r2.extend(self.lib.cm_exit(s1, v, n))
                sts = r2
            return sts
        for s in o.n:
            nx.extend(leave(s))
        for s in o.b:
            out.b.extend(leave(s))
        for s in o.c:
            out.c.extend(leave(s))
        for s, v in o.r:
            s.env[(self.fid, "$rv")] = v
            for s2 in leave(s):
                out.r.append((s2, s2.env.pop((self.fid, "$rv"))))
        for s, ev, node, fn in raised:
            s.env[(self.fid, "$ev")] = ev
            for s2 in leave(s):
                self.sink.append((s2, s2.env.pop((self.fid, "$ev")), node, fn))

    def s_Match(self, n, st, out, nx):
        raise Incomplete("match statement")

    # ------------------------------------------------------------------ definitions
    def mkfunc(self, n, st, name, owner=None):
        fr = self.frames[self.fid]
        scope = self.fid if isinstance(fr[0], Func) or fr[0] == "comp" else None
        key = (id(n), scope)
        F = self.funccache.get(key)
        path = getattr(n, "_path", "?")
        if F is None:
            qual = name
            if owner is not None:
                qual = self.cls_qual + "." + name
            F = Func(name, qual, n, fr[2], owner, path, scope)
            self.funccache[key] = F
        ds, kd = [], {}
        for d in n.args.defaults:
            r = self.ev(d, st)
            ds.append(r[0][1] if r else VTOP)
        for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults):
            if d is not None:
                r = self.ev(d, st)
                kd[a.arg] = r[0][1] if r else VTOP
        F.defaults, F.kwdefaults = ds, kd
        return mk(("fn", F, scope))

    def s_FunctionDef(self, n, st, out, nx):
        owner = self.cls_oid if self.frames[self.fid][0] == "class" else None
        v = self.mkfunc(n, st, n.name, owner)
        cur = [(st, v)]
        for d in reversed(n.decorator_list):
            res = []
            for s, x in cur:
                res.extend(self.lib.decorate(s, d, x, n))
            cur = res
        for s, x in cur:
            self.setname2(n.name, x, s)
            nx.append(s)

    s_AsyncFunctionDef = s_FunctionDef

    def setname2(self, name, v, st):
        if self.frames[self.fid][0] == "class":
            o = st.get(self.cls_oid)
            st.env[(self.fid, name)] = v
            st.put(self.cls_oid, o.setf(name, v))
        else:
            self.setname(name, v, st)

    def s_ClassDef(self, n, st, out, nx):
        bases = []
        for b in n.bases:
            for s, v in self.ev(b, st):
                st = s
                a = v.one()
                if a is not None and a[0] == "o" and a[1] in self.classes:
                    bases.append(a[1])
                else:
                    e = self.lib.ext_base(st, a)
                    if e is not None:
                        bases.append(e)
        saved = getattr(self, "cls_oid", None), getattr(self, "cls_qual", None), getattr(self, "cls_fields", None)
        outer = self.frames[self.fid][0]
        qual = (self.cls_qual + "." if outer == "class" else "") + n.name
        fr = self.frames[self.fid]
        oid = ("load" if self.loading else self.phase, "C", self.modname(fr[2]), qual)
        ci = ClassInfo()
        ci.oid, ci.name, ci.qual, ci.bases, ci.node, ci.path = oid, n.name, qual, bases, n, getattr(n, "_path", "?")
        ci.mod = self.modname(fr[2])
        ci.mro = self.linearize(oid, bases)
        for c in ci.mro[1:]:
            k = self.classes[c]
            if k.enum and not ci.enum:
                ci.enum = k.enum
        self.classes[oid] = ci
        st.put(oid, Obj("class", {"__name__": vstr(n.name), "__qualname__": vstr(qual)}, x=qual))
        self.cls_oid, self.cls_qual, self.cls_fields = oid, qual, []
        fid = self.frame_fid(self.fid, n, "class:" + qual)
        outer_scope = self.fid if isinstance(fr[0], Func) or fr[0] == "class" else None
        self.frames[fid] = ("class", outer_scope, fr[2], E)
        old = self.fid
        self.fid = fid
        self.lib.enum_begin(ci)
        o = self.block(n.body, [st])
        self.fid = old
        fields = self.cls_fields
        if not o.n:
            raise AnalysisError("class body of %s" % qual)
        st = o.n[0]
        ob = st.get(oid)
        f = dict(ob.f)
        for k in [k for k in st.env if k[0] == fid]:
            f[k[1]] = st.env.pop(k)
        st.put(oid, ob.rep(f=f))
        ci.fields = [x for x, _ in fields]
        self.lib.enum_finish(st, ci)
        self.cls_oid, self.cls_qual, self.cls_fields = saved
        cv = mk(("o", oid))
        cur = [(st, cv)]
        for d in reversed(n.decorator_list):
            res = []
            for s, x in cur:
                res.extend(self.lib.decorate(s, d, x, n))
            cur = res
        for s, x in cur:
            self.setname2(n.name, x, s)
            nx.append(s)

    def modname(self, modoid):
        return modoid[2]

    def linearize(self, oid, bases):
        seqs = [list(self.classes[b].mro) for b in bases] + [list(bases)]
        if not bases and self.lib.object_cls is not None:
            seqs = [[self.lib.object_cls], [self.lib.object_cls]]
        res = [oid]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisError("inconsistent bases")
            res.append(c)
            for t in seqs:
                if t and t[0] == c:
                    t.pop(0)

    # ------------------------------------------------------------------ imports
    def s_Import(self, n, st, out, nx):
        for a in n.names:
            st = self.lib.import_module(st, a.name)
            if a.asname:
                v = self.lib.module_value(a.name)
                self.setname(a.asname, v, st)
            else:
                top = a.name.split(".")[0]
                self.setname(top, self.lib.module_value(top), st)
        nx.append(st)

    def s_ImportFrom(self, n, st, out, nx):
        mod = n.module or ""
        if n.level:
            cur = self.modname(self.frames[self.fid][2])
            pk = cur if self.lib.is_pkg(cur) else cur.rsplit(".", 1)[0]
            for _ in range(n.level - 1):
                pk = pk.rsplit(".", 1)[0]
            mod = pk + ("." + mod if mod else "")
        st = self.lib.import_module(st, mod)
        for a in n.names:
            if a.name == "*":
                continue
            st, v = self.lib.import_name(st, mod, a.name)
            self.setname(a.asname or a.name, v, st)
        nx.append(st)
