"""Set-up shared by the checks: load the package, build unknown inputs, call public entries."""
import os
import sys
from .ai import *
from .dom import *

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.setrecursionlimit(40000)


class FakeNode:
    lineno = 0
    col_offset = 0
    _mod = "harness"
    _path = "<entry>"

    def __init__(self, key):
        self.lineno = key


class H:
    def __init__(self, **cfg):
        self.I = Interp(Cfg(**cfg), os.path.join(REPO, "src", PKG))
        self.I.lib.load()
        self.lib = self.I.lib
        self.n = 0
        I = self.I
        I.fid = I.frame_fid(0, None, "harness")
        I.frames[I.fid] = (None, None, I.modules[PKG + ".ref"], E)
        self.root = I.fid
        self.nodes = {}

    def node(self, key):
        r = self.nodes.get(key)
        if r is None:
            r = self.nodes[key] = FakeNode(100000 + len(self.nodes))
        return r

    def state(self):
        s = State(self.I.base)
        if self.I.cfg.numeric == "zone":
            s.store = Store()
        return s

    def mod(self, name):
        m = self.I.modules.get(name)
        if m is None:
            raise AnalysisError("module %s is gone" % name)
        return m

    def glob(self, name, mod="ref", st=None):
        o = (st or self.I.load_state).get(self.mod(PKG + ("." + mod if mod else "")))
        v = o.f.get(name)
        if v is None:
            raise AnalysisError("public name %s.%s is gone" % (mod or PKG, name))
        return v

    def cls(self, name, mod="ref"):
        a = self.glob(name, mod).one()
        if a is None or a[0] != "o" or a[1] not in self.I.classes:
            raise AnalysisError("public class %s is gone" % name)
        return a[1]

    def call(self, st, fv, args, kw=None, key=None, keep_sink=False):
        I = self.I
        old = I.sink
        I.sink = []
        I.fid = self.root
        try:
            r = I.call_v(st, fv, list(args), dict(kw or {}), self.node(key))
            raised = I.sink
        finally:
            I.sink = old
            I.stack = []
            I.yields = []
            I.rec = {}
            I.live_iter = []
            I.fid = self.root
        return r, raised

    def getattr(self, st, v, name, key=None):
        I = self.I
        old = I.sink
        I.sink = []
        I.fid = self.root
        r = I.getattr_v(st, v, name, self.node(key))
        raised = I.sink
        I.sink = old
        return r, raised

    def meth(self, st, v, name, args, kw=None, key=None):
        """call a method on every value of v"""
        rs, raised = self.getattr(st, v, name, key)
        out = []
        for s, f in rs:
            r, x = self.call(s, f, args, kw, key)
            out.extend(r)
            raised.extend(x)
        return self.I.merge_rv(out), raised

    def binop(self, st, op, a, b, inplace=False, key=None):
        I = self.I
        old = I.sink
        I.sink = []
        I.fid = self.root
        try:
            r = self.lib.binop(st, op, a, b, self.node(key), inplace)
            raised = I.sink
        finally:
            I.sink = old
            I.stack = []
            I.yields = []
            I.rec = {}
        return r, raised

    def drive(self, st, fn):
        """run fn(interp) with a private sink: (result, raised)"""
        I = self.I
        old = I.sink
        I.sink = []
        I.fid = self.root
        try:
            r = fn()
            raised = I.sink
        finally:
            I.sink = old
            I.stack = []
            I.yields = []
            I.rec = {}
            I.live_iter = []
            I.fid = self.root
        return r, raised

    # ---------------------------------------------------------------- inputs (interval mode)
    def book(self):
        return mk(("bk", None))

    def num(self, lo=None, hi=None, l=E):
        return vint(Itv(lo, hi), l)

    def make(self, st, cls, args, kw=None, key=None):
        """an arbitrary successfully constructed instance, in phase `input`"""
        I = self.I
        ph = I.phase
        I.phase = "input"
        try:
            r, raised = self.call(st, mk(("o", cls)), args, kw, key)
        finally:
            I.phase = ph
        r = I.merge_rv(r, 1) if I.cfg.numeric == "itv" else r
        if not r:
            raise AnalysisError("%s can never be constructed" % I.classes[cls].qual)
        return r

    def flag(self, n):
        return mk(self.lib.flag_atom(self.cls("BibleFlag"), n))

    def verse(self, st, key="v", flags=3):
        (s, v), = self.make(st, self.cls("BibleVerse"), [self.book(), self.num(), self.num()], {"flags": self.flag(flags)}, key)
        return s, v

    def range_(self, st, key="r", flags=3):
        s, a = self.verse(st, key + "a", flags)
        s, b = self.verse(s, key + "b", flags)
        (s, v), = self.make(s, self.cls("BibleRange"), [], {"start": a, "end": b, "flags": self.flag(flags)}, key)
        return s, v

    def rlist(self, st, key="l", flags=3):
        """a reference list of any number of ranges"""
        s, r = self.range_(st, key + "r", flags)
        I = self.I
        ph = I.phase
        I.phase = "input"
        oid = I.alloc(s, self.node(key + "src"), Obj("list", elem=r, ln=vint(Itv(0, None))), key="src")
        I.phase = ph
        (s, v), = self.make(s, self.cls("BibleRangeList"), [mk(("o", oid))], {}, key)
        return s, v
