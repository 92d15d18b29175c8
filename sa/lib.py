"""Models of the builtins, the standard library and lark, for the abstract interpreter."""
import ast
import re
import os
from .dom import *
from .num import Lin, Store, Inconsistent, norm, lin, add as ladd, sub as lsub, scale as lscale
from . import stubs
from .ai import PKG, Func, Incomplete, AnalysisError, ClassInfo
from .canon import MAXV, VZERO, NBOOKS

NI = ("ext", "NotImplemented")
TYPES = {"str", "int", "list", "tuple", "dict", "set", "bool", "frozenset", "float", "type", "bytes", "range", "slice", "complex"}
FUNCS = {"len", "isinstance", "issubclass", "id", "hash", "repr", "getattr", "setattr", "hasattr", "delattr", "iter", "next",
         "range", "zip", "reversed", "sorted", "print", "super", "property", "classmethod", "staticmethod", "abs",
         "callable", "vars", "round", "divmod", "ord", "chr", "format", "type", "dir", "open", "input", "globals", "locals"}
STUB_EXT = {
    "enum.Enum": "Enum", "enum.Flag": "Flag", "enum.IntFlag": "IntFlag", "functools.reduce": "_reduce",
    "itertools.chain": "_chain", "itertools.takewhile": "_takewhile", "dataclasses.FrozenInstanceError": "FrozenInstanceError",
    "lark.UnexpectedInput": "UnexpectedInput", "lark.UnexpectedToken": "UnexpectedToken", "lark.LarkError": "LarkError",
    "lark.UnexpectedCharacters": "UnexpectedCharacters", "lark.UnexpectedEOF": "UnexpectedEOF", "lark.Transformer": "Transformer",
    "lark.visitors.VisitError": "VisitError", "lark.visitors.Transformer": "Transformer", "lark.exceptions.VisitError": "VisitError",
    "lark.exceptions.UnexpectedInput": "UnexpectedInput", "lark.exceptions.LarkError": "LarkError", "lark.Token": "Token",
    "lark.exceptions.UnexpectedCharacters": "UnexpectedCharacters", "lark.exceptions.UnexpectedToken": "UnexpectedToken",
    "lark.exceptions.UnexpectedEOF": "UnexpectedEOF",
    "abc.ABC": "ABC",
}
for _n in ("Iterable", "Container", "Sized", "Hashable", "Callable", "Iterator", "Generator", "Collection", "Sequence",
           "MutableSequence", "Mapping"):
    STUB_EXT["collections.abc." + _n] = _n
    STUB_EXT["typing." + _n] = _n

OPNAME = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.BitOr: "or",
          ast.BitAnd: "and", ast.BitXor: "xor", ast.Div: "truediv", ast.Pow: "pow", ast.LShift: "lshift", ast.RShift: "rshift",
          ast.MatMult: "matmul"}
CMP = {ast.Lt: ("__lt__", "__gt__"), ast.LtE: ("__le__", "__ge__"), ast.Gt: ("__gt__", "__lt__"), ast.GtE: ("__ge__", "__le__"),
       ast.Eq: ("__eq__", "__eq__"), ast.NotEq: ("__ne__", "__ne__")}


class Lib:
    def __init__(self, I):
        self.I = I
        self.object_cls = None
        self.stub_mod = None
        self.books = []
        self.bookset = set()
        self.book_cls = None
        self.pending = {}
        self.tabs = {}
        self.colcache = {}
        self.dirty = False
        self.auto = 0
        self.excs = {}
        self.larkmodel = None

    # ================================================================ loading
    def parse(self, path, name):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        rel = os.path.relpath(path, os.path.dirname(os.path.dirname(self.I.src)))
        for n in ast.walk(tree):
            n._path = rel
            n._mod = name
        return tree

    def load(self):
        I = self.I
        st = State()
        st.store = None
        # library stubs first
        tree = ast.parse(stubs.BUILTINS)
        for n in ast.walk(tree):
            n._path = "<library>"
            n._mod = "builtins"
        mod = ("load", "M", "builtins")
        self.stub_mod = mod
        I.modules["builtins"] = mod
        st.put(mod, Obj("module", {}, x=("mod", "builtins")))
        self.run_module(st, tree, mod)
        st = self.cur
        self.stubs = st.get(mod).f
        self.object_cls = self.stubs["object"].one()[1]
        o = st.get(self.object_cls)
        st.put(self.object_cls, o.setf("__setattr__", mk(("bi", "m:objset"))).setf("__delattr__", mk(("bi", "m:objdel")))
               .setf("__init__", mk(("bi", "m:objinit"))))
        for nm in ("Enum", "Flag", "IntFlag"):
            I.classes[self.stubs[nm].one()[1]].enum = "enum" if nm == "Enum" else "flag"
        for c in I.classes.values():
            if c.oid != self.object_cls and not c.bases:
                c.mro = [c.oid, self.object_cls]
        for c in list(I.classes.values()):
            c.mro = I.linearize(c.oid, c.bases) if c.bases else c.mro
        for nm, v in self.stubs.items():
            a = v.one()
            if a and a[0] == "o" and a[1] in I.classes:
                self.excs[nm] = a[1]
        st = self.import_module(st, PKG)
        for sub in ("ref", "util", "parser", "data"):
            if os.path.exists(os.path.join(I.src, sub + ".py")):
                st = self.import_module(st, PKG + "." + sub)
        if I.sink:
            s, v, node, fn = I.sink[0]
            raise AnalysisError("module initialisation raises at line %s" % getattr(node, "lineno", "?"))
        I.loading = False
        base = dict(st.base)
        base.update(st.heap)
        I.base = base
        I.load_state = st
        self.find_books(st)
        for k in [k for k in st.env]:
            del st.env[k]
        return st

    def run_module(self, st, tree, mod):
        I = self.I
        fid = I.frame_fid(0, None, "mod:" + mod[2])
        I.frames[fid] = (None, None, mod, E)
        old = I.fid
        I.fid = fid
        out = I.block(tree.body, [st])
        I.fid = old
        if not out.n:
            s, v, node, fn = I.sink[0] if I.sink else (None, None, None, None)
            raise AnalysisError("module %s does not finish (line %s)" % (mod[2], getattr(node, "lineno", "?")))
        self.cur = out.n[0]

    def is_pkg(self, name):
        return name == PKG

    def import_module(self, st, name):
        I = self.I
        if name != PKG and not name.startswith(PKG + "."):
            return st
        if name in I.modules:
            return st
        if name.startswith(PKG + "."):
            st = self.import_module(st, PKG)
            if name in I.modules:
                return st
            path = os.path.join(I.src, name[len(PKG) + 1:].replace(".", "/") + ".py")
        else:
            path = os.path.join(I.src, "__init__.py")
        if not os.path.exists(path):
            raise AnalysisError("module %s is missing" % name)
        mod = ("load", "M", name)
        I.modules[name] = mod
        st.put(mod, Obj("module", {"__name__": vstr(name)}, x=("mod", name)))
        tree = self.parse(path, name)
        if not hasattr(I, "trees"):
            I.trees = {}
        I.trees[name] = tree
        self.run_module(st, tree, mod)
        st = self.cur
        if "." in name:
            p, c = name.rsplit(".", 1)
            po = st.get(I.modules[p])
            st.put(I.modules[p], po.setf(c, mk(("o", mod))))
        return st

    def module_value(self, name):
        if name in self.I.modules:
            return mk(("o", self.I.modules[name]))
        return mk(("ext", name))

    def import_name(self, st, mod, name):
        I = self.I
        if mod == PKG or mod.startswith(PKG + "."):
            o = st.get(I.modules[mod])
            if name in o.f:
                return st, o.f[name]
            st = self.import_module(st, mod + "." + name)
            return st, self.module_value(mod + "." + name)
        return st, self.ext_attr(mod + "." + name)

    def ext_attr(self, dotted):
        s = STUB_EXT.get(dotted)
        if s is not None:
            return self.stubs[s]
        if dotted == "functools.partial":
            return mk(("bi", "partial"))
        return mk(("ext", dotted))

    def ext_base(self, st, a):
        return None

    def builtin_name(self, name):
        if self.stub_mod is not None:
            v = getattr(self, "stubs", {}).get(name)
            if v is not None and not name.startswith("_") and name not in ("Enum", "Flag", "Transformer", "Token", "Iterable", "ABC"):
                return v
        if name in TYPES or name in FUNCS:
            return mk(("bi", name))
        if name == "NotImplemented":
            return mk(NI)
        if name == "Ellipsis":
            return mk(("ext", "Ellipsis"))
        if name == "__name__":
            return vstr("module")
        return None

    def exc_class(self, name):
        return self.excs[name]

    # ================================================================ enums, dataclasses, decorators
    def enum_begin(self, ci):
        self.auto = 0

    def enum_finish(self, st, ci):
        I = self.I
        if ci.mod == "builtins" or not ci.enum:
            return
        ob = st.get(ci.oid)
        f = dict(ob.f)
        if ci.enum == "flag":
            vals = {}
            for k, v in f.items():
                a = v.one()
                if a and a[0] == "n" and isinstance(a[1], int) and not k.startswith("__"):
                    vals[k] = a[1]
            bits = sorted({b for v in vals.values() for b in [1 << i for i in range(12)] if v & b})
            ci.members = bits
            for k, v in vals.items():
                f[k] = mk(self.flag_atom(ci.oid, v))
        else:
            for k, v in list(f.items()):
                a = v.one()
                if k.startswith("_") or a is None or a[0] not in ("s", "n"):
                    continue
                oid = ("load", "E", ci.qual, k)
                st.put(oid, Obj(ci.oid, {"name": vstr(k), "value": v, "_name_": vstr(k), "_value_": v}))
                ci.members.append(oid)
                f[k] = mk(("o", oid))
        st.put(ci.oid, ob.rep(f=f))

    def flag_atom(self, cls, n):
        return ("fl", cls, tuple((b, bool(n & b)) for b in self.I.classes[cls].members))

    def flag_sym(self, cls, name):
        return ("fl", cls, tuple((b, name + str(b)) for b in self.I.classes[cls].members))

    def find_books(self, st):
        I = self.I
        best = None
        for c in I.classes.values():
            if c.enum == "enum" and c.mod != "builtins" and (best is None or len(c.members) > len(best.members)):
                best = c
        if best is None:
            raise AnalysisError("no enumeration of books")
        self.book_cls = best.oid
        self.books = list(best.members)
        self.bookset = set(self.books)
        self.bookidx = {o: i for i, o in enumerate(self.books)}

    def decorate(self, st, d, v, n):
        I = self.I
        if isinstance(d, ast.Name) and d.id in ("property", "classmethod", "staticmethod"):
            b = I.lookup(d.id, st, d)
            if b is not None and b.one() == ("bi", d.id):
                a = v.one()
                t = {"property": ("prop", a, None), "classmethod": ("cm", a), "staticmethod": ("sm", a)}[d.id]
                return [(st, mk(t))]
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            rs = I.ev(d.value, st)
            if rs:
                a = rs[0][1].one()
                if a and a[0] == "prop":
                    if d.attr == "setter":
                        return [(st, mk(("prop", a[1], v.one())))]
                    if d.attr == "getter":
                        return [(st, mk(("prop", v.one(), a[2])))]
                    return [(st, mk(a))]
        call = isinstance(d, ast.Call)
        fn = d.func if call else d
        rs = I.ev(fn, st)
        dv = rs[0][1] if rs else VTOP
        a = dv.one()
        name = a[1] if a and a[0] == "ext" else None
        if name == "dataclasses.dataclass":
            opts = {"init": True, "repr": True, "eq": True, "order": False, "frozen": False, "unsafe_hash": False}
            if call:
                for k in d.keywords:
                    if isinstance(k.value, ast.Constant):
                        opts[k.arg] = k.value.value
            self.make_dataclass(st, v.one()[1], opts)
            return [(st, v)]
        if name == "functools.total_ordering":
            ci = I.classes[v.one()[1]]
            ci.dc = dict(ci.dc or {}, total=True)
            return [(st, v)]
        if name in ("lark.v_args", "lark.visitors.v_args") and call:
            mode = "plain"
            for k in d.keywords:
                if isinstance(k.value, ast.Constant) and k.value.value:
                    mode = k.arg
            x = v.one()
            if x[0] == "o":
                st.put(x[1], st.get(x[1]).setf("$vargs", vstr(mode)))
                return [(st, v)]
            return [(st, mk(("vargs", mode, x)))]
        if name in ("functools.lru_cache", "functools.cache", "functools.cached_property"):
            I.cached = getattr(I, "cached", set())
            x = v.one()
            if x and x[0] == "fn":
                I.cached.add(x[1])
            if name.endswith("cached_property"):
                return [(st, mk(("prop", v.one(), None)))]
            return [(st, v)]
        if name in ("typing.overload", "functools.wraps", "abc.abstractmethod", "typing.final", "contextlib.contextmanager",
                    "enum.unique", "typing.no_type_check", "typing_extensions.override", "typing.override"):
            if name == "contextlib.contextmanager":
                return [(st, mk(("cmgr", v.one())))]
            return [(st, v)]
        if name is not None:
            return [(st, v)]
        # user-defined decorator
        out = []
        cur = rs
        if call:
            cur = I.ev(d, st)
        for s, f in cur:
            out.extend(I.call_v(s, f, [v], {}, d))
        return out

    def make_dataclass(self, st, cls, opts):
        ci = self.I.classes[cls]
        ci.dc = opts
        inh = []
        for c in reversed(ci.mro[1:]):
            k = self.I.classes[c]
            if k.dc:
                inh += [x for x in k.fields if x not in inh]
        ci.fields = inh + [x for x in ci.fields if x not in inh]
        ob = st.get(cls)
        f = dict(ob.f)
        ci.nocmp, ci.nohash = set(), set()
        for b in ci.node.body if ci.node is not None else []:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and isinstance(b.value, ast.Call) and \
                    ast.unparse(b.value.func).split(".")[-1] == "field":
                opt = {k.arg: k.value.value for k in b.value.keywords if isinstance(k.value, ast.Constant)}
                names = {k.arg for k in b.value.keywords}
                if opt.get("compare") is False:
                    ci.nocmp.add(b.target.id)
                if opt.get("hash", opt.get("compare")) is False:
                    ci.nohash.add(b.target.id)
                if "default" not in names:
                    f.pop(b.target.id, None)
        st.put(cls, ob.rep(f=f))

    def dc_of(self, cls):
        """the dataclass (own or inherited) that supplies comparison, with its fields"""
        for c in self.I.mro(cls):
            ci = self.I.classes[c]
            if ci.dc and "eq" in ci.dc:
                return ci
        return None

    # ================================================================ classes as values
    def class_getattr(self, st, a, name, node):
        I = self.I
        cls = a[1]
        v, owner = I.cls_attr(st, cls, name)
        if v is not None:
            out = []
            for x in v.a:
                if x[0] == "cm":
                    out.append(("bm", x[1], a, owner))
                elif x[0] == "sm":
                    out.append(x[1])
                else:
                    out.append(x)
            return [(st, V(frozenset(out), v.l))]
        ci = I.classes[cls]
        if name == "__members__":
            return [(st, VTOP)]
        if name in ("__mro__", "__bases__", "__doc__", "__module__", "__dict__"):
            return [(st, VTOP)]
        if name == "from_iterable":
            return [(st, mk(("ext", "from_iterable")))]
        if name in ("__eq__", "__lt__", "__hash__", "__ne__", "__le__", "__gt__", "__ge__", "__repr__", "__str__", "__new__"):
            return [(st, mk(("bi", "m:" + name)))]
        I.raise_named(st, "AttributeError", node)
        return []

    def class_list(self, st, v):
        """classes named by the second argument of isinstance; None entries are unknown"""
        out = []
        for a in v.a:
            if a[0] == "t":
                for x in a[1]:
                    out += self.class_list(st, x)
            elif a[0] == "o" and a[1] in self.I.classes:
                out.append(a[1])
            elif a[0] == "bi":
                out.append(a[1])
            elif a[0] == "union":
                for x in a[1]:
                    out += self.class_list(st, x)
            else:
                out.append(None)
        return out

    def isinst_atom(self, st, a, classes):
        res = False
        for c in classes:
            r = self.isinst1(st, a, c)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def is_iterable_cls(self, st, cls, meth="__iter__"):
        v, _ = self.I.cls_attr(st, cls, meth)
        return v is not None

    def isinst1(self, st, a, c):
        I = self.I
        if c is None or a[0] == "top":
            return None
        t = a[0]
        if isinstance(c, str):
            if c == "object":
                return True
            kinds = {"s": "str", "S": "str", "n": "int", "b": "bool", "t": "tuple", "T": "tuple", "range": "range"}
            k = kinds.get(t)
            if t == "o":
                o = st.get(a[1])
                if o is None:
                    return None
                if o.cls == "any":
                    return self.any_is(o, c)
                k = o.cls if isinstance(o.cls, str) else None
                if isinstance(o.cls, tuple):
                    return False
                if o.cls == "class":
                    return c == "type"
            if t == "tab":
                k = "set" if self.tab_is_set(a) else "list"
            if k == "bool" and c == "int":
                return True
            return k == c
        ci = I.classes[c]
        if ci.mod == "builtins" and ci.name in ("Iterable", "Collection", "Container", "Sized", "Sequence", "Hashable", "Iterator",
                                                "Generator", "Callable", "Mapping"):
            if t in ("s", "S", "t", "T", "range", "tab"):
                return ci.name in ("Iterable", "Collection", "Container", "Sized", "Sequence", "Hashable")
            if t == "o":
                o = st.get(a[1])
                if o is None or o.cls == "any":
                    if o is not None and o.x and o.x[0] == "is":
                        rs = [self.cls_has(st, k, ci.name) for k in o.x[1]]
                        return rs[0] if len(set(rs)) == 1 else None
                    if o is not None and o.x and o.x[0] == "not" and c in o.x[1]:
                        return False
                    return None
                if o.cls in ("list", "set", "dict"):
                    return ci.name not in ("Hashable", "Iterator", "Generator", "Callable") and \
                        (ci.name != "Sequence" or o.cls == "list")
                if o.cls in ("gen", "iter"):
                    return ci.name in ("Iterable", "Iterator", "Generator")
                if isinstance(o.cls, tuple):
                    return self.cls_has(st, o.cls, ci.name)
            return False
        if t == "o":
            o = st.get(a[1])
            if o is None:
                return None
            if o.cls == "any":
                return self.any_is(o, c)
            if isinstance(o.cls, tuple):
                return c in I.mro(o.cls)
            return c == self.object_cls
        if t == "bk":
            return c in I.mro(self.book_cls)
        if t == "fl":
            return c in I.mro(a[1])
        return c == self.object_cls

    def cls_has(self, st, cls, name):
        if isinstance(cls, str):
            return cls in ("list", "tuple", "set", "dict", "str") and name in ("Iterable", "Collection", "Sized", "Container")
        m = {"Iterable": "__iter__", "Sized": "__len__", "Container": "__contains__", "Hashable": "__hash__", "Callable": "__call__",
             "Iterator": "__next__"}.get(name)
        if m is None:
            return any(self.I.classes[c].name == name for c in self.I.mro(cls))
        return self.is_iterable_cls(st, cls, m)

    def any_is(self, o, c):
        x = o.x
        if x and x[0] == "is":
            rs = set()
            for k in x[1]:
                if isinstance(k, str) or isinstance(c, str):
                    rs.add(k == c or (k == "bool" and c == "int"))
                else:
                    rs.add(c in self.I.mro(k) if k in self.I.classes else False)
            if len(rs) == 1:
                return rs.pop()
            return None
        if x and x[0] == "not":
            if c in x[1]:
                return False
        return None

    def refine_any(self, st, a, classes, positive, strong):
        if a[0] != "o":
            return
        o = st.get(a[1])
        if o is None or o.cls != "any" or not o.uniq or None in classes or not strong:
            return
        if positive:
            if len(classes) >= 1 and all(isinstance(c, (tuple, str)) for c in classes):
                x = o.x
                if x and x[0] == "is":
                    keep = [k for k in x[1] if any(k == c or (not isinstance(k, str) and not isinstance(c, str) and c in self.I.mro(k))
                                                   for c in classes)]
                    if keep:
                        st.put(a[1], o.rep(x=("is", frozenset(keep))))
                        return
                st.put(a[1], o.rep(x=("is", frozenset(classes))))
        else:
            x = o.x
            if x and x[0] == "is":
                keep = [k for k in x[1] if not any(k == c or (not isinstance(k, str) and not isinstance(c, str) and c in self.I.mro(k))
                                                   for c in classes)]
                if keep:
                    st.put(a[1], o.rep(x=("is", frozenset(keep))))
            elif x and x[0] == "not":
                st.put(a[1], o.rep(x=("not", x[1] | frozenset(classes))))
            else:
                st.put(a[1], o.rep(x=("not", frozenset(classes))))

    def maybe_none(self, st, a):
        o = st.get(a[1])
        return o is None or (o.cls == "any" and not (o.x and o.x[0] == "is"))

    # ================================================================ truth
    def truth_atom(self, st, a, node):
        t = a[0]
        I = self.I
        if t == "none":
            return False
        if t == "b":
            return a[1]
        if t == "n":
            x = a[1]
            if isinstance(x, int):
                return x != 0
            if isinstance(x, Itv):
                if (x.lo is not None and x.lo > 0) or (x.hi is not None and x.hi < 0):
                    return True
                return None

            def forkn(s):
                out = []
                for s2, v in self.num_cmp(s, ast.NotEq(), x, 0):
                    out.append((v, s2))
                return out
            return forkn
        if t == "s":
            if any(isinstance(p, str) and p for p in a[1]):
                return True
            if not a[1]:
                return False
            return None
        if t == "t":
            return len(a[1]) > 0
        if t == "fl":
            vals = [st.bits.get(v, v) if isinstance(v, str) else v for _, v in a[2]]
            if any(v is True for v in vals):
                return True
            if all(v is False for v in vals):
                return False

            def fork(s):
                unk = [v for v in vals if isinstance(v, str)]
                out = []
                rest = s
                for i, sym in enumerate(unk):
                    s1 = rest.copy()
                    self.setbit(s1, sym, True)
                    out.append((True, s1))
                    rest = rest.copy()
                    self.setbit(rest, sym, False)
                out.append((False, rest))
                return out
            return fork
        if t == "o":
            o = st.get(a[1])
            if o is None:
                return None
            if o.cls in ("list", "set", "dict"):
                if o.items is not None:
                    return len(o.items) > 0
                return None
            if o.cls in ("class", "module", "gen", "re", "lark", "match"):
                return True
            if isinstance(o.cls, tuple):
                for m in ("__bool__", "__len__"):
                    r = I.find_method(st, a, m)
                    if r is not None:
                        def fork2(s):
                            out = []
                            for b, s2, _, _ in I.truth_many(I.call_method(s, a, r[0], r[1], [], node), node):
                                out.append((b, s2))
                            return out
                        return fork2
                return True
            return None
        if t in ("fn", "bm", "bi", "bb", "bk", "ext"):
            return True
        if t == "tab":
            rows = self.table(a[1])
            if isinstance(a[2], int):
                return bool(rows[a[2]])
            if all(rows) or not any(rows):
                return bool(rows[0])
            if st.store is not None and isinstance(a[2], Lin):
                return lambda s: [(bool(row), s2) for s2, row in self.tab_rows(s, a)]
        return None

    # ================================================================ numbers
    def as_num(self, a):
        if a[0] == "n":
            return a[1]
        if a[0] == "b":
            return int(a[1])
        return None

    def num_cmp(self, st, op, x, y):
        """[(state, bool)] or [(state, None)] when unknown"""
        if isinstance(x, int) and isinstance(y, int):
            return [(st, {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y, ast.Eq: x == y, ast.NotEq: x != y}[type(op)])]
        if isinstance(x, Itv) or isinstance(y, Itv) or st.store is None:
            xl, xh = itv_of(x) if not isinstance(x, Lin) else bounds(st.store, x)
            yl, yh = itv_of(y) if not isinstance(y, Lin) else bounds(st.store, y)

            def lt(al, ah, bl, bh):
                if ah is not None and bl is not None and ah < bl:
                    return True
                if al is not None and bh is not None and al >= bh:
                    return False
                return None
            t = type(op)
            if t is ast.Lt:
                r = lt(xl, xh, yl, yh)
            elif t is ast.GtE:
                r = lt(xl, xh, yl, yh)
                r = None if r is None else not r
            elif t is ast.Gt:
                r = lt(yl, yh, xl, xh)
            elif t is ast.LtE:
                r = lt(yl, yh, xl, xh)
                r = None if r is None else not r
            else:
                r = None
                if lt(xl, xh, yl, yh) is True or lt(yl, yh, xl, xh) is True:
                    r = False
                elif xl is not None and xl == xh == yl == yh:
                    r = True
                if t is ast.NotEq and r is not None:
                    r = not r
            if r is None and self.I.cfg.numeric == "zone":
                st.exact = False
            return [(st, r)]
        d = lsub(x, y)
        t = type(op)
        S = st.store
        if t in (ast.Lt, ast.GtE):
            pos, neg = ladd(d, 1), lscale(d, -1)          # d+1<=0 ; -d<=0
            flip = t is ast.GtE
        elif t in (ast.LtE, ast.Gt):
            pos, neg = d, ladd(lscale(d, -1), 1)
            flip = t is ast.Gt
        else:
            out = []
            yes = t is ast.Eq
            if S.entails_eq(d):
                return [(st, yes)]
            for e, r in ((d, yes), (None, None)):
                if e is not None:
                    s1 = st.copy()
                    try:
                        s1.store.assert_eq(d)
                        out.append((s1, r))
                    except Inconsistent:
                        pass
            for e in (ladd(d, 1), ladd(lscale(d, -1), 1)):
                s1 = st.copy()
                try:
                    s1.store.assert_le(e)
                    out.append((s1, not yes))
                except Inconsistent:
                    pass
            return out
        if S.entails_le(pos):
            return [(st, not flip)]
        if S.entails_le(neg):
            return [(st, flip)]
        out = []
        s1 = st.copy()
        try:
            s1.store.assert_le(pos)
            out.append((s1, not flip))
        except Inconsistent:
            pass
        try:
            st.store.assert_le(neg)
            out.append((st, flip))
        except Inconsistent:
            pass
        return out

    def narrow(self, op, holds, a, b):
        """interval narrowing of both sides of a comparison known to hold (or not)"""
        x, y = a.one(), b.one()
        if x is None or y is None or x[0] != "n" or y[0] != "n":
            return None, None
        xl, xh = itv_of(x[1])
        yl, yh = itv_of(y[1])
        t = type(op)
        neg = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        if t not in neg:
            return None, None
        if not holds:
            t = neg[t]

        def mn(p, q):
            return q if p is None else p if q is None else min(p, q)

        def mx(p, q):
            return q if p is None else p if q is None else max(p, q)
        if t is ast.Lt:
            xh = mn(xh, None if yh is None else yh - 1)
            yl = mx(yl, None if xl is None else xl + 1)
        elif t is ast.LtE:
            xh = mn(xh, yh)
            yl = mx(yl, xl)
        elif t is ast.Gt:
            xl = mx(xl, None if yl is None else yl + 1)
            yh = mn(yh, None if xh is None else xh - 1)
        elif t is ast.GtE:
            xl = mx(xl, yl)
            yh = mn(yh, xh)
        elif t is ast.Eq:
            xl, xh = mx(xl, yl), mn(xh, yh)
            yl, yh = xl, xh
        else:
            if yl is not None and yl == yh:
                if xl == yl:
                    xl = xl + 1
                if xh == yl:
                    xh = xh - 1
        for l, h in ((xl, xh), (yl, yh)):
            if l is not None and h is not None and l > h:
                return None, None
        return vint(mk_itv(xl, xh), a.l), vint(mk_itv(yl, yh), b.l)

    def arith(self, st, op, x, y):
        t = type(op)
        if isinstance(x, int) and isinstance(y, int):
            try:
                return {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y,
                        ast.FloorDiv: lambda: x // y, ast.Mod: lambda: x % y, ast.BitOr: lambda: x | y,
                        ast.BitAnd: lambda: x & y, ast.BitXor: lambda: x ^ y, ast.LShift: lambda: x << y,
                        ast.RShift: lambda: x >> y, ast.Pow: lambda: x ** y if 0 <= y < 64 else None}[t]()
            except (KeyError, ZeroDivisionError):
                return Itv(None, None)
        if isinstance(x, Itv) or isinstance(y, Itv):
            xl, xh = itv_of(x) if not isinstance(x, Lin) else bounds(st.store, x)
            yl, yh = itv_of(y) if not isinstance(y, Lin) else bounds(st.store, y)
            if t is ast.Add:
                return mk_itv(None if xl is None or yl is None else xl + yl, None if xh is None or yh is None else xh + yh)
            if t is ast.Sub:
                return mk_itv(None if xl is None or yh is None else xl - yh, None if xh is None or yl is None else xh - yl)
            if t is ast.Mult and None not in (xl, xh, yl, yh):
                p = [xl * yl, xl * yh, xh * yl, xh * yh]
                return mk_itv(min(p), max(p))
            if t is ast.FloorDiv and isinstance(y, int) and y > 0:
                return mk_itv(None if xl is None else xl // y, None if xh is None else xh // y)
            if t is ast.Mod and isinstance(y, int) and y > 0:
                return mk_itv(0, y - 1)
            if self.I.cfg.numeric == "zone":
                st.exact = False
            return Itv(None, None)
        # linear
        if t is ast.Add:
            r = ladd(x, y)
        elif t is ast.Sub:
            r = lsub(x, y)
        elif t is ast.Mult and isinstance(y, int):
            r = lscale(x, y)
        elif t is ast.Mult and isinstance(x, int):
            r = lscale(y, x)
        else:
            st.exact = False
            return Itv(None, None)
        return r.c if not r.t else r

    # ================================================================ operators
    def unary(self, st, op, v, node):
        out = []
        res = []
        for a in v.a:
            if isinstance(op, ast.USub):
                x = self.as_num(a)
                if x is not None:
                    res.append(("n", self.arith(st, ast.Sub(), 0, x)))
                    continue
            elif isinstance(op, ast.Invert):
                if a[0] == "fl":
                    res.append(("fl", a[1], tuple((b, (not w) if isinstance(w, bool) else self.notsym(w)) for b, w in a[2])))
                    continue
            elif isinstance(op, ast.UAdd) and a[0] == "n":
                res.append(a)
                continue
            res.append(TOPA)
        return [(st, V(normatoms(frozenset(res), st.store), v.l))]

    def notsym(self, w):
        return w[1:] if w.startswith("!") else "!" + w

    def setbit(self, st, sym, val):
        if "?" not in sym:           # bits named ? are unknown at every test
            st.bits[sym] = val

    def bit(self, st, w):
        """truth of a flag bit in a state"""
        if isinstance(w, bool):
            return w
        if w in st.bits:
            return st.bits[w]
        n = self.notsym(w)
        if n in st.bits:
            return not st.bits[n]
        return w

    def flag_op(self, st, op, a, b):
        m = dict(b[2])
        bits = []
        for k, x in a[2]:
            y = m.get(k, False)
            x, y = self.bit(st, x), self.bit(st, y)
            if isinstance(op, ast.BitOr):
                r = True if (x is True or y is True) else y if x is False else x if y is False else x if x == y else "(%s|%s)" % (x, y)
            elif isinstance(op, ast.BitAnd):
                r = False if (x is False or y is False) else y if x is True else x if y is True else x if x == y else "(%s&%s)" % (x, y)
            else:
                if isinstance(x, bool) and isinstance(y, bool):
                    r = x != y
                elif x is False:
                    r = y
                elif y is False:
                    r = x
                elif x is True:
                    r = self.notsym(y)
                elif y is True:
                    r = self.notsym(x)
                else:
                    r = "(%s^%s)" % (x, y)
            bits.append((k, r))
        return ("fl", a[1], tuple(bits))

    def binop(self, st, op, a, b, node, inplace=False):
        out = []
        simple = []
        L = a.l | b.l
        for x in a.a:
            for y in b.a:
                r = self.binop_prim(st, op, x, y, node, inplace)
                if r is not None:
                    simple.append(r)
                else:
                    s = st.copy()
                    out.extend(self.binop_obj(s, op, x, y, node, inplace))
        if simple:
            out.append((st, V(normatoms(frozenset(simple), st.store), L)))
        return out

    def binop_prim(self, st, op, x, y, node, inplace):
        nx, ny = self.as_num(x), self.as_num(y)
        if nx is not None and ny is not None:
            return ("n", self.arith(st, op, nx, ny))
        if x[0] == "fl" and y[0] == "fl":
            return self.flag_op(st, op, x, y)
        if isinstance(op, ast.Add) and x[0] in "sS" and y[0] in "sS" and x[0] != "set" and len(x[0]) == 1 and len(y[0]) == 1:
            return self.concat(mk(x), mk(y)).one()
        if isinstance(op, ast.Mult) and x[0] == "s" and isinstance(ny, int):
            return ("s", self.normparts(x[1] * max(ny, 0)))
        if isinstance(op, ast.Mod) and x[0] in ("s", "S"):
            return ANYSTR
        if isinstance(op, ast.Mult) and x[0] in ("s", "S"):
            return ANYSTR
        if isinstance(op, ast.Add) and x[0] == "t" and y[0] == "t":
            return ("t", x[1] + y[1])
        if x[0] == "top" or y[0] == "top":
            return TOPA
        if x[0] in ("ext", "union") or y[0] in ("ext", "union"):
            return TOPA
        if isinstance(op, ast.BitOr) and x[0] in ("bi", "o") and y[0] in ("bi", "o", "none"):
            if (x[0] == "bi" or (st.get(x[1]) is not None and st.get(x[1]).cls == "class")) and \
               (y[0] != "o" or (st.get(y[1]) is not None and st.get(y[1]).cls == "class")):
                return ("union", (mk(x), mk(y)))
        return None

    def binop_obj(self, st, op, x, y, node, inplace):
        I = self.I
        nm = OPNAME.get(type(op))
        if x[0] == "o":
            o = st.get(x[1])
            if o is not None and o.cls == "list" and isinstance(op, ast.Add):
                if inplace:
                    return self.call(st, ("bb", "list.extend", x), [mk(y)], {}, node) and [(st, mk(x))] or []
                ys = self.known_items(st, mk(y))
                if o.items is not None and ys is not None:
                    return [(st, I.newlist(st, node, o.items + tuple(ys)))]
                return [(st, mk(("o", I.alloc(st, node, Obj("list", elem=vjoin(o.all_elem(), self.elem_of(st, mk(y))),
                                                              ln=vint(Itv(0, None)))))))]
            if o is not None and o.cls == "list" and isinstance(op, ast.Mult):
                return [(st, mk(("o", I.alloc(st, node, Obj("list", elem=o.all_elem(), ln=vint(Itv(0, None)))))))]
            if o is not None and o.cls == "set":
                return [(st, mk(("o", I.alloc(st, node, Obj("set", elem=vjoin(o.all_elem(), self.elem_of(st, mk(y))),
                                                              ln=vint(Itv(0, None)))))))]
            if o is not None and o.cls == "any":
                return [(st, VTOP)]
        results = []
        tries = []
        if inplace:
            tries.append((x, "__i%s__" % nm, y))
        tries.append((x, "__%s__" % nm, y))
        tries.append((y, "__r%s__" % nm, x))
        cur = [st]
        for recv, m, other in tries:
            if not cur:
                break
            nxt = []
            for s in cur:
                f = I.find_method(s, recv, m)
                if f is None:
                    nxt.append(s)
                    continue
                for s2, v in I.call_method(s, recv, f[0], f[1], [mk(other)], node):
                    if NI in v.a:
                        rest = V(v.a - {NI}, v.l)
                        if rest.a:
                            nxt.append(s2.copy())
                            results.append((s2, rest))
                        else:
                            nxt.append(s2)
                    else:
                        results.append((s2, v))
            cur = nxt
        for s in cur:
            if y[0] == "o" and s.get(y[1]) is not None and s.get(y[1]).cls == "any":
                results.append((s, VTOP))
            else:
                I.raise_named(s, "TypeError", node)
        return results

    # ================================================================ comparison
    def compare(self, st, op, a, b, node):
        if not isinstance(op, (ast.Is, ast.IsNot)):
            a, b = self.detoken(st, a), self.detoken(st, b)
        L = a.l | b.l
        if isinstance(op, (ast.In, ast.NotIn)):
            rs = self.contains(st, a, b, node)
            if isinstance(op, ast.NotIn):
                rs = [(s, self.negv(v)) for s, v in rs]
            return rs
        if len(a.a) == 1 and len(b.a) == 1:
            rs = self.cmp_atoms(st, op, a.one(), b.one(), node)
        else:
            if len(a.a) * len(b.a) > 12:
                return [(st, V(VBOOL.a, L))]
            rs = []
            for x in a.a:
                for y in b.a:
                    rs.extend(self.cmp_atoms(st.copy(), op, x, y, node))
            if self.I.cfg.K == 1:
                rs = self.I.merge_parts(rs)
        if L:
            both = len({v.one() for _, v in rs}) > 1 or any(v.one() is None for _, v in rs)
            if both:
                rs = [(s, v.lab(L)) for s, v in rs]
        return rs

    def negv(self, v):
        m = {TRUE: FALSE, FALSE: TRUE}
        return V(frozenset(m.get(x, TOPA) for x in v.a), v.l)

    def bidx(self, a):
        """place of a book atom in the canon: int, Lin or None (unknown), False when not a book"""
        if a[0] == "bk":
            return a[1]
        if a[0] == "o" and a[1] in self.bookset:
            return self.bookidx[a[1]]
        return False

    def ident(self, st, x, y, node):
        """[(state, bool|None)]"""
        bx, by = self.bidx(x), self.bidx(y)
        if bx is not False and by is not False:
            if bx is None or by is None or isinstance(bx, Itv) or isinstance(by, Itv):
                return [(st, None)]
            return self.num_cmp(st, ast.Eq(), bx, by)
        if x[0] == "top" or y[0] == "top":
            return [(st, None)]
        for p, q in ((x, y), (y, x)):
            if p[0] == "o":
                o = st.get(p[1])
                if o is not None and o.cls == "any":
                    if q[0] == "o" and q[1] == p[1]:
                        return [(st, True if o.uniq else None)]
                    if q[0] == "none" and o.x and o.x[0] == "is":
                        return [(st, False)]
                    return [(st, None)]
        if x[0] == "o" and y[0] == "o":
            if x[1] == y[1]:
                o = st.get(x[1])
                return [(st, True if o is None or o.uniq else None)]
            return [(st, False)]
        if x[0] == "fl" and y[0] == "fl" or (x[0] in ("n", "s", "S") and x[0] == y[0]):
            return self.eq_prim(st, x, y)
        if x[0] == y[0] == "t":
            return [(st, None)]
        if x[0] == y[0] == "ext":
            return [(st, x == y)]
        return [(st, x == y)]

    def eq_prim(self, st, x, y):
        nx, ny = self.as_num(x), self.as_num(y)
        if nx is not None and ny is not None:
            return self.num_cmp(st, ast.Eq(), nx, ny)
        if x[0] == "s" and y[0] == "s":
            if x[1] == y[1]:
                return [(st, True)]
            if all(isinstance(p, str) for p in x[1] + y[1]):
                return [(st, False)]
            return [(st, None)]
        if x[0] in ("s", "S") and y[0] in ("s", "S"):
            return [(st, None)]
        if x[0] == "fl" and y[0] == "fl":
            m = dict(y[2])
            cur, out = [st], []
            for k, w in x[2]:
                nx_ = []
                for s in cur:
                    p, q = self.bit(s, w), self.bit(s, m.get(k, False))
                    if isinstance(p, bool) and isinstance(q, bool):
                        if p == q:
                            nx_.append(s)
                        else:
                            out.append((s, False))
                    elif p == q:
                        nx_.append(s)
                    elif isinstance(p, str) and isinstance(q, bool) or isinstance(q, str) and isinstance(p, bool):
                        sym, val = (p, q) if isinstance(p, str) else (q, p)
                        s1 = s.copy()
                        self.setbit(s1, sym, val)
                        nx_.append(s1)
                        self.setbit(s, sym, not val)
                        out.append((s, False))
                    else:
                        return [(st, None)]
                cur = nx_
            return out + [(s, True) for s in cur]
        return None

    def cmp_atoms(self, st, op, x, y, node):
        I = self.I
        if isinstance(op, (ast.Is, ast.IsNot)):
            rs = self.ident(st, x, y, node)
            return self.boolres(rs, isinstance(op, ast.IsNot))
        if x[0] == "top" or y[0] == "top":
            return [(st, VBOOL)]
        nx, ny = self.as_num(x), self.as_num(y)
        if nx is not None and ny is not None:
            return self.boolres(self.num_cmp(st, op, nx, ny))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq_prim(st, x, y)
            if r is not None:
                return self.boolres(r, isinstance(op, ast.NotEq))
        elif x[0] in ("s", "S") and y[0] in ("s", "S"):
            return [(st, VBOOL)]
        if x[0] == "t" and y[0] == "t":
            return self.lex(st, op, x[1], y[1], node)
        if x[0] in ("T", "t") and y[0] in ("T", "t"):
            return [(st, VBOOL)]
        if x[0] in ("o", "bk") or y[0] in ("o", "bk"):
            return self.cmp_obj(st, op, x, y, node)
        if isinstance(op, ast.Eq):
            return [(st, vbool(x == y))]
        if isinstance(op, ast.NotEq):
            return [(st, vbool(x != y))]
        I.raise_named(st, "TypeError", node)
        return []

    def boolres(self, rs, neg=False):
        out = []
        for s, r in rs:
            if r is None:
                if self.I.cfg.numeric == "zone":
                    s.exact = False
                out.append((s, VBOOL))
            else:
                out.append((s, vbool(r != neg)))
        return out

    def lex(self, st, op, xs, ys, node):
        I = self.I
        out = []
        cur = [st]
        iseq = isinstance(op, (ast.Eq, ast.NotEq))
        for i in range(min(len(xs), len(ys))):
            nxt = []
            for s in cur:
                for s1, v in self.compare(s, ast.Eq(), xs[i], ys[i], node):
                    for b, s2, _ in I.truth(s1, v, node):
                        if b:
                            nxt.append(s2)
                        elif iseq:
                            out.append((s2, vbool(isinstance(op, ast.NotEq), xs[i].l | ys[i].l)))
                        else:
                            out.extend((s3, v3.lab(xs[i].l | ys[i].l))
                                       for s3, v3 in self.compare(s2, op, xs[i], ys[i], node))
            cur = I.merge(nxt)
        L = E
        for v in list(xs) + list(ys):
            L |= v.l
        for s in cur:
            r = {ast.Eq: len(xs) == len(ys), ast.NotEq: len(xs) != len(ys), ast.Lt: len(xs) < len(ys), ast.LtE: len(xs) <= len(ys),
                 ast.Gt: len(xs) > len(ys), ast.GtE: len(xs) >= len(ys)}[type(op)]
            out.append((s, vbool(r, L if len(out) else E)))
        return I.merge_parts(out) if I.cfg.K == 1 else out

    def dc_tuple(self, st, a, ci):
        o = st.get(a[1])
        return tuple(o.f.get(f, VTOP) for f in ci.fields if f not in ci.nocmp)

    def user_cmp(self, st, x, name):
        """("user", fn, owner) | ("dc", ci) | None for a comparison method"""
        I = self.I
        if x[0] == "bk":
            cls = self.book_cls
        elif x[0] == "o":
            o = st.get(x[1])
            if o is None or not isinstance(o.cls, tuple):
                return None
            cls = o.cls
        else:
            return None
        for c in I.mro(cls):
            ob = st.get(c)
            ci = I.classes[c]
            v = ob.f.get(name)
            if v is not None:
                if name == "__eq__" and ci.dc and ci.dc.get("eq") and False:
                    pass
                return ("user", v, c)
            if ci.dc:
                if name == "__eq__" and ci.dc.get("eq"):
                    return ("dc", ci)
                if name in ("__lt__", "__le__", "__gt__", "__ge__"):
                    if ci.dc.get("order"):
                        return ("dc", ci)
                    if ci.dc.get("total"):
                        return ("total", ci)
            if name == "__ne__" and (ob.f.get("__eq__") is not None or (ci.dc and ci.dc.get("eq"))):
                return ("ne", ci)
        return None

    def cmp_obj(self, st, op, x, y, node):
        I = self.I
        m1, m2 = CMP[type(op)]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            for p in (x, y):
                if p[0] == "o":
                    o = st.get(p[1])
                    if o is not None and o.cls in ("list", "dict", "set", "gen"):
                        if x == y and o.uniq:
                            return [(st, vbool(isinstance(op, ast.Eq)))]
                        q = y if p is x else x
                        qo = st.get(q[1]) if q[0] == "o" else None
                        if q[0] in ("none", "n", "b", "s") or (qo is not None and isinstance(qo.cls, str) and qo.cls != o.cls
                                                               and qo.cls != "any"):
                            return [(st, vbool(isinstance(op, ast.NotEq)))]
                        if qo is None or isinstance(qo.cls, str):
                            if qo is not None and o.cls == qo.cls == "list" and o.items is not None and qo.items is not None:
                                return self.lex(st, op, o.items, qo.items, node)
                            return [(st, VBOOL)]
        results = []
        cur = [st]
        tries = [(x, m1, y), (y, m2, x)]
        opname = {"__lt__": ast.Lt, "__le__": ast.LtE, "__gt__": ast.Gt, "__ge__": ast.GtE, "__eq__": ast.Eq, "__ne__": ast.NotEq}
        for recv, m, other in tries:
            nxt = []
            for s in cur:
                k = self.user_cmp(s, recv, m)
                if k is None:
                    nxt.append(s)
                elif k[0] == "dc":
                    ro, oo = s.get(recv[1]), (s.get(other[1]) if other[0] == "o" else None)
                    if oo is None or oo.cls != ro.cls:
                        if oo is not None and oo.cls == "any" and not (oo.x and oo.x[0] == "is" and ro.cls not in oo.x[1]):
                            results.append((s, VBOOL))
                        else:
                            nxt.append(s)
                        continue
                    results.extend(self.lex(s, opname[m](), self.dc_tuple(s, recv, k[1]), self.dc_tuple(s, other, k[1]), node))
                elif k[0] == "ne":
                    for s2, v in self.cmp_atoms(s, ast.Eq(), recv, other, node):
                        results.append((s2, self.negv(v)))
                elif k[0] == "total":
                    results.append((s, VBOOL))
                else:
                    for s2, v in I.call_method(s, recv, k[1], k[2], [mk(other)], node):
                        if NI in v.a:
                            rest = V(v.a - {NI}, v.l)
                            if rest.a:
                                nxt.append(s2.copy())
                                results.append((s2, rest))
                            else:
                                nxt.append(s2)
                        else:
                            results.append((s2, v))
            cur = nxt
        for s in cur:
            if isinstance(op, (ast.Eq, ast.NotEq)):
                results.extend(self.boolres(self.ident(s, x, y, node), isinstance(op, ast.NotEq)))
            else:
                unk = any(p[0] == "o" and s.get(p[1]) is not None and s.get(p[1]).cls == "any" for p in (x, y))
                if unk:
                    s2 = s.copy()
                    results.append((s2, VBOOL))
                I.raise_named(s, "TypeError", node)
        return I.merge_parts(results) if I.cfg.K == 1 else results

    # ================================================================ containment
    def contains(self, st, item, cont, node):
        I = self.I
        out = []
        L = item.l | cont.l
        for c in cont.a:
            s = st.copy() if len(cont.a) > 1 else st
            t = c[0]
            if t == "fl":
                for a in item.a:
                    s1 = s.copy() if len(item.a) > 1 else s
                    if a[0] != "fl":
                        out.append((s1, VBOOL))
                        continue
                    m = dict(c[2])
                    cur = [s1]
                    fl = []
                    for k, w in a[2]:
                        nx = []
                        for s2 in cur:
                            ww = self.bit(s2, w)
                            if ww is False:
                                nx.append(s2)
                                continue
                            q = self.bit(s2, m.get(k, False))
                            if ww is not True:
                                nx.append(s2)
                                fl.append((s2.copy(), vbool(False)))
                            elif q is True:
                                nx.append(s2)
                            elif q is False:
                                fl.append((s2, vbool(False)))
                            else:
                                h = I.hooks.get("flagtest")
                                if h:
                                    h(k, q, L, node)
                                s3 = s2.copy()
                                self.setbit(s3, q, True)
                                nx.append(s3)
                                self.setbit(s2, q, False)
                                fl.append((s2, vbool(False)))
                        cur = nx
                    both = bool(cur) and bool(fl)
                    rs = fl + [(s2, vbool(True)) for s2 in cur]
                    out.extend((s2, v.lab(L) if both else v) for s2, v in rs)
                continue
            if t == "tab":
                x = item.one()
                n = self.as_num(x) if x is not None else None
                if n is None:
                    out.append((s, V(VBOOL.a, L)))
                else:
                    out.extend((s2, v.lab(L) if len(v.a) > 1 else v) for s2, v in self.tab_contains(s, c, n))
                continue
            if t in ("t",):
                out.extend(self.contains_items(s, item, c[1], node))
                continue
            if t == "range":
                x = item.one()
                n = self.as_num(x) if x is not None else None
                if n is not None and isinstance(c[3], int) and c[3] == 1:
                    for s1, r in self.num_cmp(s, ast.LtE(), c[1], n):
                        if r is False:
                            out.append((s1, vbool(False)))
                        elif r is None:
                            out.append((s1, V(VBOOL.a, L)))
                        else:
                            for s2, r2 in self.num_cmp(s1, ast.Lt(), n, c[2]):
                                out.append((s2, V(VBOOL.a, L) if r2 is None else vbool(r2)))
                    continue
                out.append((s, V(VBOOL.a, L)))
                continue
            if t in ("s", "S"):
                out.append((s, V(VBOOL.a, L)))
                continue
            if t == "o":
                o = s.get(c[1])
                if o is not None and o.cls in ("list", "set", "dict"):
                    if o.items is not None and (len(o.items) <= 200):
                        its = [k for k, _ in o.items] if o.cls == "dict" else o.items
                        out.extend(self.contains_items(s, item, its, node))
                        continue
                    el = o.all_elem()
                    for w in (el if isinstance(el, tuple) else (el,)):
                        L = L | (w.l if w is not None else E)
                    out.append((s, V(VBOOL.a, L)))
                    continue
                if o is not None and o.cls == "class":
                    a = item.one()
                    out.append((s, V(VBOOL.a, L) if a is None or self.bidx(a) is False else vbool(True)))
                    continue
                m = I.find_method(s, c, "__contains__")
                if m is not None:
                    for s2, v in I.call_method(s, c, m[0], m[1], [item], node):
                        for b, s3, _ in I.truth(s2, v, node):
                            out.append((s3, vbool(b, v.l)))
                    continue
                m = I.find_method(s, c, "__iter__")
                if m is not None:
                    out.append((s, V(VBOOL.a, L)))
                    continue
            out.append((s, V(VBOOL.a, L)))
        return I.merge_parts(out) if I.cfg.K == 1 else out

    def contains_items(self, st, item, items, node):
        I = self.I
        x = item.one()
        # quick decision for constants and books
        bi = self.bidx(x) if x is not None else False
        if bi is not False:
            idx = [self.bidx(k.one()) if k.one() is not None else False for k in items]
            if all(i is not False and isinstance(i, int) for i in idx):
                if set(idx) >= set(range(len(self.books))):
                    return [(st, vbool(True))]
                if isinstance(bi, int):
                    return [(st, vbool(bi in idx))]
                if bi is None or isinstance(bi, Itv):
                    return [(st, VBOOL if idx else vbool(False))]
        out, cur = [], [st]
        unknown = False
        for k in items:
            nx = []
            for s in cur:
                for s1, v in self.compare(s, ast.Eq(), item, k, node):
                    for b, s2, _ in I.truth(s1, v, node):
                        (nx if not b else out).append(s2)
            cur = I.merge(nx)
            if I.cfg.K == 1:
                out = I.merge(out)
        L = item.l if (out and cur) else E
        if L is not E or out and cur:
            for k in items:
                L = L | k.l
        return [(s, vbool(True, L)) for s in out] + [(s, vbool(False, L)) for s in cur]

    # ================================================================ strings
    def normparts(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(p)
        return tuple(out)

    def token_text(self, st, a):
        """the text of a token of a string of known structure"""
        o = st.get(a[1]) if a[0] == "o" else None
        if o is None or not isinstance(o.x, tuple) or not o.x or o.x[0] != "token" or self.I.cfg.numeric != "zone":
            return None
        return o.f["value"].one()

    def detoken(self, st, v):
        if self.I.cfg.numeric != "zone" or not any(a[0] == "o" for a in v.a):
            return v
        return V(frozenset(self.token_text(st, a) or a for a in v.a), v.l)

    def concat(self, a, b):
        L = a.l | b.l
        res = []
        for x in a.a:
            for y in b.a:
                if x[0] == "s" and y[0] == "s":
                    res.append(("s", self.normparts(x[1] + y[1])))
                else:
                    res.append(ANYSTR)
        return V(normatoms(frozenset(res)), L)

    def to_str(self, st, v, node, how="str"):
        I = self.I
        out = []
        simple = []
        for a in v.a:
            t = a[0]
            if t in ("s", "S"):
                simple.append(a)
            elif t == "n":
                x = a[1]
                if isinstance(x, int):
                    simple.append(("s", (str(x),)))
                elif isinstance(x, Lin):
                    simple.append(("s", (("h", "num", x),)))
                else:
                    simple.append(ANYSTR)
            elif t == "none":
                simple.append(("s", ("None",)))
            elif t == "b":
                simple.append(("s", (str(a[1]),)))
            elif t == "o" and self.token_text(st, a) is not None:
                simple.append(self.token_text(st, a))
            elif t == "o" and not I.quiet_fmt:
                m = I.find_method(st, a, "__%s__" % how) or I.find_method(st, a, "__repr__")
                if m is None:
                    simple.append(ANYSTR)
                else:
                    s = st.copy() if len(v.a) > 1 else st
                    out.extend(I.call_method(s, a, m[0], m[1], [], node))
            else:
                simple.append(ANYSTR)
        if simple:
            out.append((st, V(normatoms(frozenset(simple)), v.l)))
        return [(s, w.lab(v.l)) for s, w in out]

    # ================================================================ containers
    def known_items(self, st, v):
        a = v.one()
        if a is None:
            return None
        if a[0] == "t":
            return list(a[1])
        if a[0] == "o":
            o = st.get(a[1])
            if o is not None and o.cls == "iter" and o.x == ("strict",) and self.I.cfg.numeric == "zone":
                return None
            if o is not None and o.cls in ("list", "set", "iter") and o.items is not None:
                return list(o.items)
            if o is not None and o.cls == "dict" and o.items is not None:
                return [k for k, _ in o.items]
        if a[0] == "s" and all(isinstance(p, str) for p in a[1]):
            return [vstr(c) for c in "".join(a[1])]
        return None

    def elem_of(self, st, v):
        out = []
        for a in v.a:
            if a[0] == "t":
                out.append(vjoin_all(a[1]))
            elif a[0] == "T":
                out.append(a[1])
            elif a[0] == "o":
                o = st.get(a[1])
                if o is not None and o.cls in ("list", "set", "iter"):
                    out.append(o.all_elem())
                elif o is not None and o.cls == "dict":
                    out.append(o.all_elem()[0])
                else:
                    out.append(VTOP)
            elif a[0] == "tab":
                out.append(self.tab_elem(st, a))
            else:
                out.append(VTOP)
        return vjoin_all(out).lab(v.l)

    def listify(self, st, v, node, cls="list", key="lst"):
        """list(v): [(state, V list)]"""
        I = self.I
        its = self.known_items(st, v)
        if its is not None:
            return [(st, I.newlist(st, node, [x.lab(v.l) for x in its], key=key, cls=cls))]
        acc = (I.fid, "$lst", I.site(node), key)
        oid = I.alloc(st, node, Obj(cls, items=()), key=key)
        prev = st.env.get(acc)
        st.env[acc] = mk(("o", oid))

        def cb(s, x):
            self.append_to(s, s.env[acc], x)
            return [s]
        out = []
        for s in I.iterate(st, v, cb, node):
            r = s.env.pop(acc)
            if prev is not None:
                s.env[acc] = prev
            out.append((s, r))
        return out

    def append_to(self, st, lv, x):
        many = len(lv.a) > 1
        for a in lv.a:
            if a[0] != "o":
                continue
            o = st.get(a[1])
            if o is None or o.cls not in ("list", "set"):
                continue
            self.I.note_write(a[1], "[]", None, x, st)
            if o.cls == "set" and o.items is not None and x in o.items:
                continue
            if o.uniq and not many and o.items is not None and (len(o.items) < 48 or self.I.loading or self.I.cfg.books == "each" and len(o.items) < 200):
                st.put(a[1], o.rep(items=o.items + (x,)))
            else:
                ln = o.ln if o.items is None else vint(len(o.items))
                nl = vint(Itv(0, None))
                if ln is not None:
                    lo, hi = itv_of(ln.one()[1]) if ln.one() else (0, None)
                    nl = vint(mk_itv((lo or 0) + (1 if o.uniq and not many else 0), None if hi is None else hi + 1))
                st.put(a[1], o.rep(items=None, elem=vjoin(o.all_elem(), x), ln=nl))

    def dict_set(self, st, dv, k, v, node):
        many = len(dv.a) > 1
        for a in dv.a:
            if a[0] != "o":
                continue
            o = st.get(a[1])
            if o is None or o.cls != "dict":
                continue
            self.I.note_write(a[1], "[]", node, vjoin(k, v), st)
            if o.items is not None and o.uniq and not many and k.one() is not None:
                items = list(o.items)
                for i, (kk, vv) in enumerate(items):
                    if kk.a == k.a:
                        items[i] = (kk, v)
                        break
                else:
                    items.append((k, v))
                st.put(a[1], o.rep(items=tuple(items)))
            else:
                ek, ev = o.all_elem() if (o.items is not None or o.elem is not None) else (BOT, BOT)
                st.put(a[1], o.rep(items=None, elem=(vjoin(ek, k), vjoin(ev, v)), ln=vint(Itv(0, None))))

    def unpack(self, st, v, n, starred, node):
        """[(state, [V]*n)]"""
        I = self.I
        out = []
        for a in v.a:
            s = st.copy() if len(v.a) > 1 else st
            its = self.known_items(s, mk(a))
            if its is None and a[0] == "o" and s.get(a[1]) is not None and (isinstance(s.get(a[1]).cls, tuple) or s.get(a[1]).cls == "gen"):
                for s2, lv in self.listify(s, mk(a), node, key="unp"):
                    k2 = self.known_items(s2, lv)
                    if k2 is not None and (len(k2) == n or starred):
                        out.append((s2, k2))
                    elif k2 is None:
                        el = self.elem_of(s2, lv).lab(v.l)
                        out.append((s2, [el] * n))
                    else:
                        I.raise_named(s2, "ValueError", node)
                continue
            if its is not None:
                if len(its) == n or (starred and len(its) >= n - 1):
                    out.append((s, [x.lab(v.l) for x in its]))
                else:
                    I.raise_named(s, "ValueError", node)
            elif a[0] in ("none", "n", "b", "bk", "fl"):
                I.raise_named(s, "TypeError", node)
            else:
                el = self.elem_of(s, mk(a)).lab(v.l)
                out.append((s, [el] * n))
        if len(out) > 1 and I.cfg.K == 1:
            # join component-wise
            ks = [("$u", i) for i in range(max(len(x) for _, x in out))]
            for s, xs in out:
                for k, x in zip(ks, xs):
                    s.env[k] = x
            s = out[0][0]
            for t, _ in out[1:]:
                s = join_state(s, t)
            return [(s, [s.env.pop(k) for k in ks])]
        return out

    # ================================================================ subscripts
    def getitem(self, st, v, i, node):
        I = self.I
        out = []
        for a in v.a:
            s = st.copy() if len(v.a) > 1 else st
            out.extend((s2, w.lab(v.l)) for s2, w in self.getitem_a(s, a, i, node))
        return out

    def getitem_a(self, st, a, i, node):
        I = self.I
        t = a[0]
        if t == "none":
            I.raise_named(st, "TypeError", node)
            return []
        if t in ("ext", "bi", "union"):
            if a == ("ext", "typing.Union") or a == ("ext", "typing.Optional"):
                x = i.one()
                return [(st, mk(("union", x[1] if x and x[0] == "t" else (i,))))]
            return [(st, mk(a))]
        if t == "tab":
            return self.tab_getitem(st, a, i, node)
        if t in ("s", "S"):
            x = i.one()
            if t == "s" and x and x[0] == "n" and isinstance(x[1], int) and all(isinstance(p, str) for p in a[1]):
                sv = "".join(a[1])
                if -len(sv) <= x[1] < len(sv):
                    return [(st, vstr(sv[x[1]]))]
                I.raise_named(st, "IndexError", node)
                return []
            return [(st, V(VSTR.a, i.l))]
        if t == "t" or t == "T":
            return self.seq_index(st, a[1] if t == "t" else None, a[1] if t == "T" else None, i, node)
        if t == "o":
            o = st.get(a[1])
            if o is None:
                return [(st, VTOP)]
            if o.cls == "list":
                return self.seq_index(st, o.items, o.elem, i, node, o.ln)
            if o.cls == "dict":
                return self.dict_get(st, a, o, i, node)
            if o.cls == "class":
                ci = I.classes[a[1]]
                x = i.one()
                if ci.enum and x and x[0] == "s" and x[1] and x[1][0] in o.f:
                    return [(st, o.f[x[1][0]])]
                return [(st, mk(a))]
            if o.cls == "any":
                if o.x and o.x[0] == "is" and len(o.x[1]) == 1:
                    pass
                return [(st, V(VTOP.a, i.l))]
            m = I.find_method(st, a, "__getitem__")
            if m is not None:
                return I.call_method(st, a, m[0], m[1], [i], node)
            I.raise_named(st, "TypeError", node)
            return []
        if t == "range":
            return [(st, vint(Itv(None, None), i.l))]
        return [(st, V(VTOP.a, i.l))]

    def seq_index(self, st, items, elem, i, node, ln=None):
        I = self.I
        x = i.one()
        n = self.as_num(x) if x is not None else None
        if items is not None:
            if isinstance(n, int):
                if -len(items) <= n < len(items):
                    return [(st, items[n])]
                I.raise_named(st, "IndexError", node)
                return []
            if isinstance(n, Lin):
                return self.index_sym(st, items, n, node)
            lo, hi = itv_of(n) if n is not None else (None, None)
            if not (lo is not None and hi is not None and lo >= -len(items) and hi < len(items)):
                I.may_raise(st, "IndexError", node)
            sel = items
            if lo is not None and lo >= 0:
                sel = items[lo:(None if hi is None else hi + 1)]
            if not sel:
                return []
            if all(self.bidx(k.one()) is not False if k.one() is not None else False for k in sel):
                return [(st, mk(("bk", None), l=i.l))] if len(sel) > 1 else [(st, sel[0])]
            return [(st, vjoin_all(sel).lab(i.l))]
        short = itv_of(ln.one()[1])[0] if ln is not None and ln.one() is not None and ln.one()[0] == "n" and not isinstance(ln.one()[1], Lin) else 0
        if not isinstance(n, int) or not -(short or 0) <= n < (short or 0):
            I.may_raise(st, "IndexError", node)
        return [(st, (elem if elem is not None else VTOP).lab(i.l))]

    def index_sym(self, st, items, n, node):
        """list of constants indexed by a linear expression"""
        I = self.I
        out = []
        N = len(items)
        idx = [self.bidx(k.one()) if k.one() is not None else False for k in items]
        isbk = all(j is not False and isinstance(j, int) for j in idx) and idx == list(range(N)) and N == len(self.books)
        for s, r in self.num_cmp(st, ast.GtE(), n, 0):
            if r:
                for s1, r1 in self.num_cmp(s, ast.Lt(), n, N):
                    if r1:
                        if isbk:
                            out.append((s1, mk(("bk", n))))
                        else:
                            out.extend(self.split_index(s1, items, n, 0, node))
                    else:
                        I.raise_named(s1, "IndexError", node)
            else:
                for s1, r1 in self.num_cmp(s, ast.GtE(), n, -N):
                    if r1:
                        m = ladd(n, N)
                        if isbk:
                            out.append((s1, mk(("bk", m))))
                        else:
                            out.extend(self.split_index(s1, items, m, 0, node))
                    else:
                        I.raise_named(s1, "IndexError", node)
        return out

    def split_index(self, st, items, n, base, node):
        if len(items) > 8:
            st.exact = False
            return [(st, vjoin_all(items))]
        out = []
        for j, v in enumerate(items):
            s = st.copy()
            try:
                s.store.assert_eq(lsub(n, j))
                out.append((s, v))
            except Inconsistent:
                pass
        return out

    def is_member(self, st, a):
        """a is one known member of an enumeration"""
        if a[0] == "bk":
            return isinstance(a[1], int)
        o = st.get(a[1]) if a[0] == "o" else None
        return o is not None and isinstance(o.cls, tuple) and o.cls in self.I.classes and self.I.classes[o.cls].enum == "enum" and \
            a[1] in self.I.classes[o.cls].members

    def dict_get(self, st, a, o, i, node, default=None):
        I = self.I
        x = i.one()
        if o.items is not None:
            bi = self.bidx(x) if x is not None else False
            if bi is not False and not isinstance(bi, int):
                idx = {}
                for k, v in o.items:
                    j = self.bidx(k.one()) if k.one() is not None else False
                    if j is False:
                        break
                    idx[j] = v
                else:
                    if set(idx) == set(range(len(self.books))):
                        nm = "dict:%s" % (a[1],)
                        return self.column(st, self.col_classify(st, [idx[j] for j in range(len(self.books))], nm), bi, nm)
                    out = []
                    if default is None:
                        I.may_raise(st, "KeyError", node)
                    vals = list(idx.values())
                    if self.I.cfg.numeric == "zone":
                        st.exact = False
                    return [(st, vjoin_all(vals + ([default] if default is not None else [])))]
            if x is not None:
                for k, v in o.items:
                    if k.a == i.a:
                        return [(st, v)]
                ck = x[0] in ("s", "n", "b", "none") and all(k.one() is not None and k.one()[0] in ("s", "n", "b", "none", "o")
                                                              for k, _ in o.items)
                ck = ck and all(isinstance(p, str) for p in (x[1] if x[0] == "s" else ()))
                if not ck and x[0] == "o" and self.is_member(st, x):
                    ck = all(k.one() is not None and (k.one()[0] in ("s", "n", "b", "none") or self.is_member(st, k.one())) for k, _ in o.items)
                if (ck or bi is not False) and all(k.one() is not None for k, _ in o.items):
                    if default is not None:
                        return [(st, default)]
                    I.raise_named(st, "KeyError", node)
                    return []
        kk, vv = o.all_elem() if (o.items is not None or o.elem is not None) else (BOT, BOT)
        if default is None:
            I.may_raise(st, "KeyError", node)
            return [(st, vv.lab(i.l))] if vv.a else []
        return [(st, vjoin(vv, default).lab(i.l))]

    def getslice(self, st, v, lo, hi, stp, node):
        I = self.I

        def c(x):
            if x is None:
                return None, True
            a = x.one()
            if a == NONE:
                return None, True
            if a and a[0] == "n" and isinstance(a[1], int):
                return a[1], True
            return None, False
        l, k1 = c(lo)
        h, k2 = c(hi)
        s_, k3 = c(stp)
        out = []
        for a in v.a:
            s = st.copy() if len(v.a) > 1 else st
            t = a[0]
            if t in ("s", "S"):
                if t == "s" and k1 and k2 and k3 and all(isinstance(p, str) for p in a[1]):
                    out.append((s, vstr("".join(a[1])[l:h:s_], v.l)))
                else:
                    out.append((s, V(VSTR.a, v.l)))
            elif t == "t":
                if k1 and k2 and k3:
                    out.append((s, mk(("t", a[1][l:h:s_]), l=v.l)))
                else:
                    out.append((s, mk(("T", vjoin_all(a[1])), l=v.l)))
            elif t == "o" and s.get(a[1]) is not None and s.get(a[1]).cls == "list":
                o = s.get(a[1])
                if o.items is not None and k1 and k2 and k3:
                    out.append((s, I.newlist(s, node, o.items[l:h:s_], key="sl").lab(v.l)))
                else:
                    out.append((s, mk(("o", I.alloc(s, node, Obj("list", elem=o.all_elem(), ln=vint(Itv(0, None))), key="sl")), l=v.l)))
            elif t == "o" and I.find_method(s, a, "__getitem__"):
                m = I.find_method(s, a, "__getitem__")
                out.extend(I.call_method(s, a, m[0], m[1], [VTOP], node))
            else:
                out.append((s, V(VTOP.a, v.l)))
        return out

    def setslice(self, st, b, v, node):
        for a in b.a:
            if a[0] == "o":
                o = st.get(a[1])
                if o is not None and o.cls == "list":
                    self.I.note_write(a[1], "[]", node, v, st)
                    st.put(a[1], o.rep(items=None, elem=vjoin(o.all_elem(), self.elem_of(st, v)), ln=vint(Itv(0, None))))
        return [st]

    def setitem(self, st, b, i, v, node):
        I = self.I
        out = []
        for a in b.a:
            s = st.copy() if len(b.a) > 1 else st
            t = a[0]
            if t == "o":
                o = s.get(a[1])
                if o is None or o.cls == "any":
                    out.append(s)
                    continue
                if o.cls == "list":
                    I.note_write(a[1], "[]", node, v, s)
                    x = i.one()
                    if o.items is not None and x and x[0] == "n" and isinstance(x[1], int) and o.uniq and len(b.a) == 1:
                        if -len(o.items) <= x[1] < len(o.items):
                            it = list(o.items)
                            it[x[1]] = v
                            s.put(a[1], o.rep(items=tuple(it)))
                            out.append(s)
                        else:
                            I.raise_named(s, "IndexError", node)
                        continue
                    if o.items is not None:
                        s.put(a[1], o.rep(items=tuple(vjoin(x, v) for x in o.items)))
                    else:
                        s.put(a[1], o.rep(elem=vjoin(o.elem, v)))
                    out.append(s)
                    continue
                if o.cls == "dict":
                    self.dict_set(s, mk(a), i, v, node)
                    out.append(s)
                    continue
                m = I.find_method(s, a, "__setitem__")
                if m is not None:
                    out.extend(s2 for s2, _ in I.call_method(s, a, m[0], m[1], [i, v], node))
                    continue
                I.raise_named(s, "TypeError", node)
                continue
            if t in ("none", "t", "s", "S", "n"):
                I.raise_named(s, "TypeError", node)
                continue
            out.append(s)
        return I.merge(out)

    def delitem(self, st, b, i, node):
        I = self.I
        out = []
        for a in b.a:
            s = st.copy() if len(b.a) > 1 else st
            if a[0] == "o":
                o = s.get(a[1])
                if o is not None and o.cls in ("list", "dict"):
                    I.note_write(a[1], "[]", node, BOT, s)
                    x = i.one()
                    if o.cls == "list" and o.items is not None and x and x[0] == "n" and isinstance(x[1], int) and o.uniq:
                        if -len(o.items) <= x[1] < len(o.items):
                            it = list(o.items)
                            del it[x[1]]
                            s.put(a[1], o.rep(items=tuple(it)))
                        else:
                            I.raise_named(s, "IndexError", node)
                            continue
                    elif o.items is not None:
                        el = o.all_elem()
                        s.put(a[1], o.rep(items=None, elem=el, ln=vint(Itv(0, len(o.items)))))
                    out.append(s)
                    continue
                m = I.find_method(s, a, "__delitem__")
                if m is not None:
                    out.extend(s2 for s2, _ in I.call_method(s, a, m[0], m[1], [i], node))
                    continue
            out.append(s)
        return out

    # ================================================================ tables of the Bible data
    def cols_dirty(self, st):
        self.dirty = True

    def tab_is_set(self, a):
        return a[1] == "V0" or a[1].startswith("set:")

    def table(self, name):
        if name == "MV":
            return MAXV
        if name == "V0":
            return VZERO
        return self.tabs[name]

    def tab_rows(self, st, a):
        """[(state, row)]: one state for every run of books with the same row"""
        T = self.table(a[1])
        k = a[2]
        if isinstance(k, int):
            return [(st, T[k])]
        if st.store is None or k is None or isinstance(k, Itv):
            return None
        out, i = [], 0
        while i < len(T):
            j = i
            while j + 1 < len(T) and T[j + 1] == T[i]:
                j += 1
            s = st.copy()
            try:
                s.store.assert_le(ladd(lscale(lin(k), -1), i))
                s.store.assert_le(ladd(lin(k), -j))
                if i == j:
                    s.store.assert_eq(ladd(lin(k), -i))
                if s.store.eq_hook:
                    s.store.eq_hook(s.store)
                out.append((s, T[i]))
            except Inconsistent:
                pass
            i = j + 1
        return out

    def tab_elem(self, st, a):
        vals = [x for row in self.table(a[1]) for x in row]
        if not vals:
            return BOT
        if st.store is not None and isinstance(a[2], (int, Lin)) and self.I.cfg.numeric == "zone":
            st.exact = False
        return vint(mk_itv(min(vals), max(vals)))

    def tab_len(self, st, a):
        T = self.table(a[1])
        k = a[2]
        if isinstance(k, int):
            return vint(len(T[k]))
        if isinstance(k, Lin) and st.store is not None:
            if T is MAXV or [len(r) for r in T] == [len(r) for r in MAXV]:
                return vint(st.store.app("NC", k))
            if all(len(r) == len(T[0]) for r in T):
                return vint(len(T[0]))
            return vint(st.store.app("len:" + a[1], k))
        ls = [len(r) for r in T]
        return vint(mk_itv(min(ls), max(ls)))

    def tab_getitem(self, st, a, i, node):
        I = self.I
        x = i.one()
        n = self.as_num(x) if x is not None else None
        T = self.table(a[1])
        k = a[2]
        if n is None:
            return [(st, self.tab_elem(st, a).lab(i.l))]
        if isinstance(k, int) and isinstance(n, int):
            if -len(T[k]) <= n < len(T[k]):
                return [(st, vint(sorted(T[k])[n] if isinstance(T[k], (set, frozenset)) else T[k][n]))]
            I.raise_named(st, "IndexError", node)
            return []
        if st.store is not None and not isinstance(n, Itv) and k is not None:
            out = []
            ln = self.tab_len(st, a).one()[1]
            for s, r in self.num_cmp(st, ast.GtE(), n, 0):
                if r:
                    for s1, r1 in self.num_cmp(s, ast.Lt(), n, ln):
                        if r1:
                            out.append((s1, vint(s1.store.app("MV" if a[1] == "MV" else "el:" + a[1], k, ladd(lin(n), 1)))))
                        else:
                            I.raise_named(s1, "IndexError", node)
                else:
                    # negative index: counts from the end
                    for s1, r1 in self.num_cmp(s, ast.GtE(), self.arith(s, ast.Add(), n, ln), 0):
                        if r1:
                            m = self.arith(s1, ast.Add(), n, ln)
                            out.append((s1, vint(s1.store.app("MV" if a[1] == "MV" else "el:" + a[1], k, ladd(lin(m), 1)))))
                        else:
                            I.raise_named(s1, "IndexError", node)
            return out
        I.may_raise(st, "IndexError", node)
        return [(st, self.tab_elem(st, a).lab(i.l))]

    def tab_contains(self, st, a, n):
        T = self.table(a[1])
        k = a[2]
        if isinstance(k, int) and isinstance(n, int):
            return [(st, vbool(n in T[k]))]
        if st.store is not None and not isinstance(n, Itv) and k is not None:
            fn = a[1] if a[1] == "V0" else "in:" + a[1]
            r = st.store.boolapp(fn, (lin(k), lin(n)))
            if r is not None:
                return [(st, vbool(r))]
            out = []
            for val in (True, False):
                s = st.copy()
                try:
                    s.store.set_boolapp(fn, (lin(k), lin(n)), val)
                    s.store._congruence()
                    if s.store.eq_hook:
                        s.store.eq_hook(s.store)
                    out.append((s, vbool(val)))
                except Inconsistent:
                    pass
            return out
        return [(st, VBOOL)]

    def col_classify(self, st, vals, name):
        first = vals[0]
        if all(v == first for v in vals):
            return ("same", first, E)
        L = E
        for v in vals:
            L |= v.l
        ones = [v.one() for v in vals]
        if all(o is not None for o in ones):
            kinds = {o[0] for o in ones}
            if kinds == {"n"} and all(isinstance(o[1], int) for o in ones):
                ints = [o[1] for o in ones]
                itv = mk_itv(min(ints), max(ints))
                if ints == list(range(len(ints))):
                    return ("ident", itv, L)
                if ints == [len(r) for r in MAXV]:
                    return ("NC", itv, L)
                self.tabs["col:" + name] = [[x] for x in ints]
                return ("col", itv, L)
            if kinds == {"s"}:
                return ("str", None, L)
            if kinds == {"o"}:
                obs = [st.get(o[1]) for o in ones]
                if all(o is not None and o.cls in ("list", "set") and o.items is not None for o in obs):
                    rows = []
                    for o in obs:
                        r = []
                        for x in o.items:
                            y = x.one()
                            if y is None or y[0] != "n" or not isinstance(y[1], int):
                                r = None
                                break
                            r.append(y[1])
                        if r is None:
                            break
                        rows.append(r)
                    if len(rows) == len(obs):
                        if all(o.cls == "list" for o in obs):
                            if rows == MAXV:
                                return ("tab", "MV", L)
                            self.tabs["tab:" + name] = rows
                            return ("tab", "tab:" + name, L)
                        if all(o.cls == "set" for o in obs):
                            if [set(r) for r in rows] == VZERO:
                                return ("tab", "V0", L)
                            self.tabs["set:" + name] = [set(r) for r in rows]
                            return ("tab", "set:" + name, L)
        return ("join", vjoin_all(vals), E)

    def column(self, st, info, k, name):
        """the value of a per-book attribute for book number k"""
        kind, x, L = info
        sym = k is not None and not isinstance(k, Itv)
        if kind == "same":
            return [(st, x)]
        if kind == "ident":
            return [(st, vint(k if sym else x, L))]
        if kind in ("NC", "col"):
            return [(st, vint(st.store.app("NC" if kind == "NC" else "col:" + name, k) if sym else x, L))]
        if kind == "str":
            return [(st, mk(("s", (("h", name, k),)), l=L) if sym else V(VSTR.a, L))]
        if kind == "tab":
            return [(st, mk(("tab", x, k), l=L))]
        if self.I.cfg.numeric == "zone":
            st.exact = False
        return [(st, x)]

    def book_attr(self, st, a, name, node):
        I = self.I
        cls = self.book_cls
        info = None if self.dirty or (isinstance(a[1], int) and self.I.cfg.numeric != "zone") else self.colcache.get(name)
        if info is None and isinstance(a[1], int) and self.I.cfg.numeric == "zone" and not self.I.loading and not self.dirty:
            if name in st.get(self.books[0]).f:
                vals = [st.get(oid).f.get(name) for oid in self.books]
                if all(v is not None for v in vals):
                    info = self.colcache[name] = self.col_classify(st, vals, name)
        if info is not None and not (isinstance(a[1], int) and info[0] not in ("tab", "ident")):
            return self.column(st, info, a[1], name)
        cv, owner = I.cls_attr(st, cls, name)
        if isinstance(a[1], int):
            v = st.get(self.books[a[1]]).f.get(name)
            if v is not None and (cv is None or not any(x[0] == "prop" for x in cv.a)):
                return [(st, v)]
        elif name in st.get(self.books[0]).f and (cv is None or not any(x[0] == "prop" for x in cv.a)):
            vals = [st.get(oid).f.get(name) for oid in self.books]
            if all(v is not None for v in vals):
                info = self.col_classify(st, vals, name)
                if not self.dirty:
                    self.colcache[name] = info
                return self.column(st, info, a[1], name)
        if cv is not None:
            return I.bind(st, cv, a, cls, owner, node, name)
        if name == "__class__":
            return [(st, mk(("o", cls)))]
        I.raise_named(st, "AttributeError", node)
        return []

    # ================================================================ attributes of primitives
    def getattr_prim(self, st, a, name, node):
        I = self.I
        t = a[0]
        if t == "none":
            I.raise_named(st, "AttributeError", node)
            return []
        if t == "bk":
            return self.book_attr(st, a, name, node)
        if t == "ext":
            return [(st, self.ext_attr(a[1] + "." + name))]
        if t == "sup":
            return self.super_attr(st, a, name, node)
        if t == "top":
            return [(st, VTOP)]
        if t == "fl":
            if name in ("value", "_value_"):
                return [(st, vint(Itv(0, None)))]
            if name in ("name", "_name_"):
                return [(st, VSTR)]
            v, owner = I.cls_attr(st, a[1], name)
            if v is not None:
                return I.bind(st, v, a, a[1], owner, node)
            m = {"__or__": ast.BitOr, "__and__": ast.BitAnd, "__xor__": ast.BitXor}.get(name)
            if m:
                return [(st, mk(("bb", "flagop:" + name, a)))]
            if name == "__contains__":
                return [(st, mk(("bb", "flag.__contains__", a)))]
            return [(st, VTOP)]
        if t in ("s", "S"):
            if name in ("start_pos", "end_pos", "line", "column", "end_line", "end_column"):
                return [(st, vint(Itv(0, None)))]
            if name in ("type", "value"):
                return [(st, VSTR)]
            return [(st, mk(("bb", "str." + name, a)))]
        if t in ("t", "T"):
            return [(st, mk(("bb", "tuple." + name, a)))]
        if t == "tab":
            return [(st, mk(("bb", "tab." + name, a)))]
        if t == "bi":
            if name in ("__setattr__", "__delattr__") and a[1] == "object":
                return [(st, mk(("bi", "m:objset" if name == "__setattr__" else "m:objdel")))]
            return [(st, mk(("bi", a[1] + "." + name)))]
        if t == "o":
            o = st.get(a[1])
            if o.cls == "any":
                if o.x and o.x[0] == "is" and len(o.x[1]) == 1:
                    r = self.any_materialise(st, a, o, name, node)
                    if r is not None:
                        return r
                return [(st, VTOP)]
            return [(st, mk(("bb", "%s.%s" % (o.cls, name), a)))]
        if t in ("fn", "bm"):
            if name == "__name__":
                return [(st, VSTR)]
            if name == "__wrapped__":
                return [(st, mk(a))]
            if t == "bm" and name == "__func__":
                return [(st, mk(a[1]))]
            return [(st, VTOP)]
        if t == "n":
            return [(st, mk(("bb", "int." + name, a)))]
        if t == "prop" and name in ("fget",):
            return [(st, mk(a[1]))]
        if t == "range":
            return [(st, {"start": vint(a[1]), "stop": vint(a[2]), "step": vint(a[3])}.get(name, VTOP))]
        if t == "cmgr":
            return [(st, VTOP)]
        return [(st, VTOP)]

    def any_materialise(self, st, a, o, name, node):
        """an unknown argument known to be an instance of one package class"""
        c = next(iter(o.x[1]))
        h = self.I.hooks.get("template")
        if h is not None and not isinstance(c, str):
            tv = h(st, c)
            if tv is not None:
                return self.I.getattr_v(st, tv, name, node)
        return None

    def super_attr(self, st, a, name, node):
        I = self.I
        owner, selfa = a[1], a[2]
        if selfa[0] == "o":
            o = st.get(selfa[1])
            cls = o.cls if isinstance(o.cls, tuple) else (selfa[1] if o.cls == "class" else owner)
        elif selfa[0] == "bk":
            cls = self.book_cls
        else:
            cls = owner
        v, ow = I.cls_attr(st, cls, name, after=owner)
        if v is None:
            if name in ("__init__", "__init_subclass__", "__post_init__"):
                return [(st, mk(("bb", "m:objinit", selfa)))]
            if name == "__setattr__":
                return [(st, mk(("bb", "m:objset", selfa)))]
            if name == "__delattr__":
                return [(st, mk(("bb", "m:objdel", selfa)))]
            if name == "__new__":
                return [(st, mk(("bi", "m:objnew")))]
            if name in ("__eq__", "__lt__", "__le__", "__gt__", "__ge__", "__ne__", "__hash__", "__repr__", "__str__"):
                return [(st, mk(("bb", "m:" + name, selfa)))]
            I.raise_named(st, "AttributeError", node)
            return []
        return I.bind(st, v, selfa, cls, ow, node, name)

    def inst_attr(self, st, a, o, name, node):
        """attributes the object machinery supplies; None if there is none"""
        I = self.I
        cls = o.cls
        ci = I.classes[cls]
        if ci.mod == "builtins" and name in ("pos_in_stream", "line", "column", "char", "token", "state"):
            return [(st, vint(Itv(-1, None)))]
        for c in I.mro(cls):
            k = I.classes[c]
            if k.mod == "builtins":
                if k.name == "UnexpectedInput":
                    if name == "get_context":
                        return [(st, mk(("ext", "opaque")))]
                    return [(st, vint(Itv(-1, None)))]
                if k.name == "VisitError" and name in ("obj", "rule"):
                    return [(st, VTOP)]
                if k.name == "Transformer" and name == "transform":
                    return [(st, mk(("bb", "lark.transform", a)))]
                if k.name == "BaseException" and name in ("with_traceback", "add_note", "__cause__", "__context__", "__traceback__"):
                    return [(st, mk(("ext", "opaque")) if name in ("with_traceback", "add_note") else VNONE)]
        if name in ("__hash__", "__eq__", "__repr__", "__str__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
            return [(st, mk(("bb", "m:" + name, a)))]
        if name in ("__setattr__",):
            return [(st, mk(("bb", "m:objset", a)))]
        return None

    def special_new(self, st, cls, args, kw, node, star):
        I = self.I
        ci = I.classes[cls]
        if ci.enum == "flag":
            x = args[0].one() if args else None
            if x and x[0] == "n" and isinstance(x[1], int):
                return [(st, mk(self.flag_atom(cls, x[1])))]
            if x and x[0] == "fl":
                return [(st, args[0])]
            return [(st, mk(("fl", cls, tuple((b, "?%d" % b) for b in ci.members))))]
        if ci.enum == "enum":
            x = args[0].one() if args else None
            if x is not None and self.bidx(x) is not False:
                return [(st, args[0])]
            for m in ci.members:
                if st.get(m).f["value"].one() == x:
                    return [(st, mk(("o", m)))]
            I.may_raise(st, "ValueError", node, implicit=True)
            return [(st, mk(("bk", None)))] if cls == self.book_cls else [(st, VTOP)]
        return None

    def default_init(self, st, a, cls, args, kw, node):
        I = self.I
        for c in I.mro(cls):
            ci = I.classes[c]
            if ci.dc and ci.dc.get("init"):
                o = st.get(a[1])
                f = dict(o.f)
                for nm, v in zip(ci.fields, args):
                    f[nm] = v
                f.update(kw)
                for nm in ci.fields:
                    if nm not in f:
                        d = st.get(c).f.get(nm)
                        f[nm] = d if d is not None else VTOP
                st.put(a[1], o.rep(f=f))
                pi, ow = I.cls_attr(st, cls, "__post_init__")
                if pi is not None:
                    return I.call_method(st, a, pi, ow, [], node)
                return [(st, VNONE)]
        return [(st, VNONE)]

    # ================================================================ builtin calls
    def labs(self, args, kw=None):
        L = E
        for x in args:
            L |= x.l
        for x in (kw or {}).values():
            L |= x.l
        return L

    def call(self, st, a, args, kw, node, star=None):
        name = a[1]
        recv = a[2] if a[0] == "bb" else None
        if star is not None:
            args = args + [star]
        if name.startswith("m:"):
            if recv is not None:
                args = [mk(recv)] + args
            return self.call_objmeth(st, name[2:], args, kw, node)
        if recv is not None:
            fn = getattr(self, "meth_" + name.split(".", 1)[0].replace(":", "_"), None)
            if name.startswith("flagop:"):
                op = {"__or__": ast.BitOr, "__and__": ast.BitAnd, "__xor__": ast.BitXor}[name[7:]]()
                return self.binop(st, op, mk(recv), args[0], node)
            if fn is not None:
                return fn(st, recv, name.split(".", 1)[1], args, kw, node)
            return [(st, V(VTOP.a, self.labs(args, kw)))]
        if "." in name:
            base, m = name.split(".", 1)
            if base in TYPES and args:
                r = args[0].one()
                if r is not None:
                    if m == "fromkeys":
                        return [(st, VTOP)]
                    return self.I.getattr_then_call(st, args[0], m, args[1:], kw, node) if hasattr(self.I, "getattr_then_call") else \
                        self.attr_call(st, args[0], m, args[1:], kw, node)
            return [(st, V(VTOP.a, self.labs(args, kw)))]
        fn = getattr(self, "bi_" + name, None)
        if fn is None:
            return [(st, V(VTOP.a, self.labs(args, kw)))]
        return fn(st, args, kw, node)

    def attr_call(self, st, v, m, args, kw, node):
        out = []
        for s, f in self.I.getattr_v(st, v, m, node):
            out.extend(self.I.call_v(s, f, args, kw, node))
        return out

    def call_objmeth(self, st, name, args, kw, node):
        I = self.I
        if name == "objset" and len(args) == 3:
            n = args[1].one()
            if n and n[0] == "s" and len(n[1]) == 1 and isinstance(n[1][0], str):
                return [(s, VNONE) for s in I.setattr_v(st, args[0], n[1][0], args[2], node, raw=True)]
            # computed name: every field may change
            for a in args[0].a:
                if a[0] == "o":
                    o = st.get(a[1])
                    for k in list(o.f):
                        I.note_write(a[1], k, node, args[2], st)
                    st.put(a[1], o.rep(f={k: vjoin(v, args[2]) for k, v in o.f.items()}, x=("lazy",)))
            return [(st, VNONE)]
        if name == "objdel" and len(args) == 2:
            for a in args[0].a:
                if a[0] == "o":
                    I.note_write(a[1], "del", node, BOT, st)
            return [(st, VNONE)]
        if name == "objinit":
            return [(st, VNONE)]
        if name == "objnew" and args:
            a = args[0].one()
            if a and a[0] == "o" and a[1] in I.classes:
                oid = I.alloc(st, node, Obj(a[1]), key="i:" + I.classes[a[1]].name)
                return [(st, mk(("o", oid)))]
            return [(st, VTOP)]
        ops = {"__eq__": ast.Eq, "__lt__": ast.Lt, "__le__": ast.LtE, "__gt__": ast.Gt, "__ge__": ast.GtE, "__ne__": ast.NotEq}
        if name in ops and len(args) == 2:
            out = []
            x, y = args[0].one(), args[1].one()
            if x is not None and y is not None and x[0] == "o" and y[0] == "o":
                xo, yo = st.get(x[1]), st.get(y[1])
                dc = self.dc_of(xo.cls) if isinstance(xo.cls, tuple) else None
                if dc is not None:
                    if yo.cls == xo.cls:
                        return self.lex(st, ops[name](), self.dc_tuple(st, x, dc), self.dc_tuple(st, y, dc), node)
                    if yo.cls != "any":
                        return [(st, mk(NI))]
            return [(st, V(VBOOL.a | {NI}, self.labs(args)))]
        if name == "__hash__":
            return [(st, vint(Itv(None, None), self.labs(args)))]
        return [(st, V(VTOP.a, self.labs(args)))]

    def bi_len(self, st, args, kw, node):
        I = self.I
        out = []
        for a in args[0].a:
            s = st.copy() if len(args[0].a) > 1 else st
            t = a[0]
            L = args[0].l
            if t == "t":
                out.append((s, vint(len(a[1]))))
            elif t == "s" and all(isinstance(p, str) for p in a[1]):
                out.append((s, vint(len("".join(a[1])))))
            elif t == "tab":
                rows = self.tab_rows(s, a) if self.tab_is_set(a) else None
                if rows is not None:
                    out.extend((s2, vint(len(row), L)) for s2, row in rows)
                else:
                    out.append((s, self.tab_len(s, a)))
            elif t == "o":
                o = s.get(a[1])
                if o is not None and o.cls in ("list", "dict", "set"):
                    if o.items is not None:
                        out.append((s, vint(len(o.items), L)))
                    else:
                        out.append((s, (o.ln or vint(Itv(0, None))).lab(L)))
                elif o is not None and o.cls == "class":
                    out.append((s, vint(len(I.classes[a[1]].members))))
                elif o is not None and isinstance(o.cls, tuple):
                    m = I.find_method(s, a, "__len__")
                    if m is None:
                        I.raise_named(s, "TypeError", node)
                    else:
                        out.extend(I.call_method(s, a, m[0], m[1], [], node))
                else:
                    if o is not None and o.cls == "any" and not (o.x and o.x[0] == "is"):
                        I.may_raise(s, "TypeError", node)
                    elif o is not None and o.cls in ("gen", "iter"):
                        I.raise_named(s, "TypeError", node)
                        continue
                    out.append((s, vint(Itv(0, None), L)))
            elif t in ("none", "n", "b", "bk"):
                I.raise_named(s, "TypeError", node)
            elif t == "range":
                d = self.arith(s, ast.Sub(), a[2], a[1])
                out.append((s, vint(d if isinstance(d, int) and d >= 0 else Itv(0, None), L)))
            else:
                out.append((s, vint(Itv(0, None), L)))
        return out

    def bi_isinstance(self, st, args, kw, node):
        cl = self.class_list(st, args[1])
        res = set()
        for a in args[0].a:
            r = self.isinst_atom(st, a, cl)
            res |= {True, False} if r is None else {r}
        return [(st, V(frozenset(("b", r) for r in res), args[0].l if len(res) > 1 else E))]

    def bi_issubclass(self, st, args, kw, node):
        a = args[0].one()
        cl = self.class_list(st, args[1])
        if a and a[0] == "o" and a[1] in self.I.classes and None not in cl:
            return [(st, vbool(any(c in self.I.mro(a[1]) for c in cl)))]
        return [(st, VBOOL)]

    def bi_type(self, st, args, kw, node):
        out = []
        for a in args[0].a:
            if a[0] == "o":
                o = st.get(a[1])
                if o is not None and isinstance(o.cls, tuple):
                    out.append(("o", o.cls))
                    continue
                if o is not None and o.cls == "any" and o.x and o.x[0] == "is" and len(o.x[1]) == 1:
                    c = next(iter(o.x[1]))
                    out.append(("o", c) if not isinstance(c, str) else ("bi", c))
                    continue
                if o is not None and o.cls in TYPES:
                    out.append(("bi", o.cls))
                    continue
            if a[0] == "bk":
                out.append(("o", self.book_cls))
                continue
            if a[0] == "fl":
                out.append(("o", a[1]))
                continue
            k = {"s": "str", "S": "str", "n": "int", "b": "bool", "t": "tuple", "T": "tuple"}.get(a[0])
            out.append(("bi", k) if k else TOPA)
        return [(st, V(frozenset(out), args[0].l))]

    def bi_id(self, st, args, kw, node):
        return [(st, vint(Itv(None, None), args[0].l | {"#id"}))]

    def bi_hash(self, st, args, kw, node):
        out = []
        for a in args[0].a:
            m = self.I.find_method(st, a, "__hash__")
            if m is not None:
                out.extend(self.I.call_method(st.copy(), a, m[0], m[1], [], node))
            else:
                out.append((st.copy(), vint(Itv(None, None), args[0].l)))
        return self.I.merge_rv(out)

    def bi_callable(self, st, args, kw, node):
        return [(st, V(VBOOL.a, args[0].l))]

    def bi_print(self, st, args, kw, node):
        return [(st, VNONE)]

    def bi_repr(self, st, args, kw, node):
        return self.to_str(st, args[0], node, "repr")

    def bi_format(self, st, args, kw, node):
        return self.to_str(st, args[0], node, "str")

    def bi_str(self, st, args, kw, node):
        if not args:
            return [(st, vstr(""))]
        return self.to_str(st, args[0], node, "str")

    def bi_int(self, st, args, kw, node):
        I = self.I
        if not args:
            return [(st, vint(0))]
        out = []
        args = [self.detoken(st, args[0])] + args[1:]
        for a in args[0].a:
            s = st.copy() if len(args[0].a) > 1 else st
            x = self.as_num(a)
            if x is not None:
                out.append((s, vint(x, args[0].l)))
            elif a[0] == "s" and all(isinstance(p, str) for p in a[1]):
                try:
                    out.append((s, vint(int("".join(a[1])))))
                except ValueError:
                    I.raise_named(s, "ValueError", node)
            elif a[0] == "s" and len(a[1]) == 1 and a[1][0][1] == "num" and len(a[1][0]) == 3 and I.cfg.numeric == "zone":
                out.append((s, vint(a[1][0][2], args[0].l)))
            elif a[0] in ("s", "S"):
                I.may_raise(s, "ValueError", node)
                out.append((s, vint(Itv(None, None), args[0].l)))
            elif a[0] == "none":
                I.raise_named(s, "TypeError", node)
            else:
                I.may_raise(s, "ValueError", node)
                out.append((s, vint(Itv(None, None), args[0].l)))
        return I.merge_rv(out)

    def bi_bool(self, st, args, kw, node):
        if not args:
            return [(st, VFALSE)]
        out = []
        for b, s, _ in self.I.truth(st, args[0], node):
            out.append((s, vbool(b, args[0].l)))
        return out

    def bi_float(self, st, args, kw, node):
        return [(st, V(VTOP.a, self.labs(args)))]

    def bi_abs(self, st, args, kw, node):
        a = args[0].one()
        x = self.as_num(a) if a else None
        if isinstance(x, int):
            return [(st, vint(abs(x)))]
        if isinstance(x, Lin):
            out = []
            for s, r in self.num_cmp(st, ast.GtE(), x, 0):
                out.append((s, vint(x if r else lscale(x, -1))))
            return out
        return [(st, vint(Itv(0, None), self.labs(args)))]

    def bi_list(self, st, args, kw, node):
        if not args:
            return [(st, self.I.newlist(st, node, (), key="lst"))]
        return self.listify(st, args[0], node)

    def bi_set(self, st, args, kw, node):
        if not args:
            return [(st, self.I.newlist(st, node, (), key="set", cls="set"))]
        return self.listify(st, args[0], node, cls="set", key="set")

    bi_frozenset = bi_set

    def bi_tuple(self, st, args, kw, node):
        if not args:
            return [(st, mk(("t", ())))]
        out = []
        for s, lv in self.listify(st, args[0], node, key="tup"):
            its = self.known_items(s, lv)
            if its is not None:
                out.append((s, mk(("t", tuple(its)), l=lv.l)))
            else:
                out.append((s, mk(("T", self.elem_of(s, lv)), l=lv.l)))
        return out

    def bi_dict(self, st, args, kw, node):
        I = self.I
        items = tuple((vstr(k), v) for k, v in kw.items())
        if not args:
            return [(st, mk(("o", I.alloc(st, node, Obj("dict", items=items), key="dict"))))]
        a = args[0].one()
        if a and a[0] == "o":
            o = st.get(a[1])
            if o is not None and o.cls == "dict":
                return [(st, mk(("o", I.alloc(st, node, o.rep(uniq=True), key="dict"))))]
        out = []
        for s, lv in self.listify(st, args[0], node, key="dl"):
            its = self.known_items(s, lv)
            if its is not None and all(x.one() is not None and x.one()[0] == "t" and len(x.one()[1]) == 2 for x in its):
                out.append((s, mk(("o", I.alloc(s, node, Obj("dict", items=tuple(x.one()[1] for x in its)), key="dict")))))
            else:
                el = self.elem_of(s, lv)
                out.append((s, mk(("o", I.alloc(s, node, Obj("dict", elem=(VTOP, VTOP), ln=vint(Itv(0, None))), key="dict")), l=el.l)))
        return out

    def bi_range(self, st, args, kw, node):
        ns = []
        for x in args:
            a = x.one()
            n = self.as_num(a) if a is not None else None
            if n is None:
                n = Itv(None, None)
            ns.append(n)
        if len(ns) == 1:
            ns = [0] + ns
        if len(ns) == 2:
            ns.append(1)
        return [(st, mk(("range", ns[0], ns[1], ns[2]), l=self.labs(args)))]

    def iter_range_zone(self, st, a, l, cb, node):
        """symbolic bounds in the zone domain: rounds until the bound is decided"""
        I = self.I
        lo, hi, stp = a[1], a[2], a[3]
        if not isinstance(stp, int) or stp not in (1, -1):
            raise Incomplete("range step")
        cur = [(st, lo)]
        exits = []
        n = norm(lscale(lsub(st.store.red(lin(hi)), st.store.red(lin(lo))), stp))
        for rnd in range(max(I.cfg.maxrounds, n + 1 if isinstance(n, int) and n < 200 else 0)):
            nx = []
            for s, i in cur:
                for s1, r in self.num_cmp(s, ast.Lt() if stp > 0 else ast.Gt(), i, hi):
                    if r is None:
                        raise Incomplete("range bound")
                    if r:
                        for s2 in cb(s1, vint(i, l)):
                            nx.append((s2, self.arith(s2, ast.Add(), i, stp)))
                    else:
                        exits.append(s1)
            cur = nx
            if not cur:
                return exits
        raise Incomplete("range of unknown length")

    def bi_zip(self, st, args, kw, node):
        I = self.I
        cur = [(st, [])]
        for i, x in enumerate(args):
            nx = []
            for s, acc in cur:
                for j, v in enumerate(acc):
                    s.env[(I.fid, "$z", I.site(node), j)] = v
                for s2, lv in self.listify(s, x, node, key=("zip", i)):
                    acc2 = [s2.env.get((I.fid, "$z", I.site(node), j)) for j in range(len(acc))]
                    nx.append((s2, acc2 + [lv]))
            cur = nx
        out = []
        strict = "strict" in kw and kw["strict"].one() != FALSE
        for s, lvs in cur:
            for j in range(len(args)):
                s.env.pop((I.fid, "$z", I.site(node), j), None)
            L = self.labs(lvs)
            its = [self.known_items(s, x) for x in lvs]
            if all(x is not None for x in its):
                n = min(len(x) for x in its) if its else 0
                tup = tuple(mk(("t", tuple(x[i] for x in its)), l=L) for i in range(n))
                o = Obj("iter", items=tup, x=("strict",) if strict and any(len(x) != n for x in its) else None)
                if strict and any(len(x) != n for x in its) and I.cfg.numeric != "zone":
                    I.may_raise(s, "ValueError", node)
                    if n == 0:
                        continue
            else:
                o = Obj("iter", elem=mk(("t", tuple(self.elem_of(s, x) for x in lvs)), l=L))
                if strict:
                    I.may_raise(s, "ValueError", node)
            out.append((s, mk(("o", I.alloc(s, node, o, key="zip")))))
        return out

    def bi_reversed(self, st, args, kw, node):
        I = self.I
        out = []
        for a in args[0].a:
            s = st.copy() if len(args[0].a) > 1 else st
            if a[0] == "range":
                if all(isinstance(x, int) for x in a[1:]):
                    r = range(a[1], a[2], a[3])[::-1]
                    out.append((s, mk(("range", r.start, r.stop, r.step))))
                else:
                    out.append((s, mk(("o", I.alloc(s, node, Obj("iter", elem=vint(mk_itv(itv_of(a[1])[0], None))), key="rev")))))
                continue
            m = I.find_method(s, a, "__reversed__")
            if m is not None:
                out.extend(I.call_method(s, a, m[0], m[1], [], node))
                continue
            its = self.known_items(s, mk(a))
            if its is not None:
                out.append((s, mk(("o", I.alloc(s, node, Obj("iter", items=tuple(reversed(its))), key="rev")))))
            else:
                out.append((s, mk(("o", I.alloc(s, node, Obj("iter", elem=self.elem_of(s, mk(a))), key="rev")), l=args[0].l)))
        return out

    def bi_sorted(self, st, args, kw, node):
        I = self.I
        out = []
        for s, lv in self.listify(st, args[0], node, key="srt"):
            its = self.known_items(s, lv)
            if its is not None and len(its) <= 1:
                out.append((s, lv))
                continue
            if I.cfg.numeric == "zone":
                if its is None:
                    raise Incomplete("sorted()")
                out.extend(I.call_v(s, self.stubs["_sorted"], [lv], kw, node))
                continue
            el = self.elem_of(s, lv)
            out.append((s, mk(("o", I.alloc(s, node, Obj("list", elem=el, ln=vint(Itv(0, None))), key="srt2")))))
        return out

    def bi_iter(self, st, args, kw, node):
        I = self.I
        a = args[0].one() if len(args) == 1 else None
        if I.cfg.numeric != "zone" or a is None:
            return [(st, args[0])]
        o = st.get(a[1]) if a[0] == "o" else None
        if o is not None and isinstance(o.cls, tuple):
            m = I.find_method(st, a, "__iter__")
            if m is not None:
                return I.call_method(st, a, m[0], m[1], [], node)
        its = None if o is not None and o.cls in ("iter", "gen") else self.known_items(st, args[0])
        if its is None:
            return [(st, args[0])]
        return [(st, mk(("o", I.alloc(st, node, Obj("iter", items=tuple(its)), key="it")), l=args[0].l))]

    def next_zone(self, st, args, node):
        """next() of an iterator that is carried along; None when it is not one"""
        I = self.I
        a = args[0].one()
        o = st.get(a[1]) if a is not None and a[0] == "o" else None
        if o is None or not o.uniq or o.cls not in ("iter", "gen"):
            return None
        cur = [st]
        if o.cls == "gen":
            n0 = len(I.sink)
            cur = []
            for s, lv in self.listify(st, args[0], node, key="nx"):
                its = self.known_items(s, lv)
                if its is None:
                    return None
                s.put(a[1], Obj("iter", items=tuple(its)))
                cur.append(s)
            if len(I.sink) != n0:
                raise Incomplete("next() of a generator that may raise")
        elif o.items is None or o.x is not None:
            return None
        out = []
        for s in cur:
            its = s.get(a[1]).items
            if its:
                s.put(a[1], s.get(a[1]).rep(items=its[1:]))
                out.append((s, its[0].lab(args[0].l)))
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                I.raise_named(s, "StopIteration", node)
        return out

    def bi_next(self, st, args, kw, node):
        I = self.I
        if I.cfg.numeric == "zone" and args:
            r = self.next_zone(st, args, node)
            if r is not None:
                return r
        f = "_nextfirst" if len(args) > 1 else "_nextraise"
        return I.call_v(st, self.stubs[f], args, {}, node)

    def bi_getattr(self, st, args, kw, node):
        I = self.I
        n = args[1].one()
        if n and n[0] == "s" and len(n[1]) == 1 and isinstance(n[1][0], str):
            if len(args) == 3:
                name = n[1][0]
                old = I.sink
                I.sink = []
                keep = st.copy()
                rs = I.getattr_v(st, args[0], name, node)
                raised = I.sink
                I.sink = old
                for s, v, nd, fn in raised:
                    a = v.one()
                    if a and a[0] == "o" and s.get(a[1]) is not None and self.excs["AttributeError"] in I.mro(s.get(a[1]).cls):
                        rs.append((s, args[2]))
                    else:
                        I.sink.append((s, v, nd, fn))
                # the attribute may be missing on joined objects
                return I.merge_rv(rs)
            return I.getattr_v(st, args[0], n[1][0], node)
        L = self.labs(args)
        vals = []
        for a in args[0].a:
            if a[0] == "o" and st.get(a[1]) is not None:
                vals.extend(st.get(a[1]).f.values())
        h = I.hooks.get("dynattr")
        if h:
            h(node)
        return [(st, V(VTOP.a, L))]

    def bi_setattr(self, st, args, kw, node):
        n = args[1].one()
        if n and n[0] == "s" and len(n[1]) == 1 and isinstance(n[1][0], str):
            return [(s, VNONE) for s in self.I.setattr_v(st, args[0], n[1][0], args[2], node)]
        return self.call_objmeth(st, "objset", args, {}, node)

    def bi_delattr(self, st, args, kw, node):
        n = args[1].one()
        if n and n[0] == "s" and len(n[1]) == 1:
            return [(s, VNONE) for s in self.I.delattr_v(st, args[0], n[1][0], node)]
        return [(st, VNONE)]

    def bi_hasattr(self, st, args, kw, node):
        I = self.I
        n = args[1].one()
        if n and n[0] == "s" and len(n[1]) == 1 and isinstance(n[1][0], str):
            old = I.sink
            I.sink = []
            rs = I.getattr_v(st.copy(), args[0], n[1][0], node)
            raised = I.sink
            I.sink = old
            res = set()
            if rs:
                res.add(True)
            if raised:
                res.add(False)
            if any(TOPA in v.a for _, v in rs):
                res |= {True, False}
            return [(st, V(frozenset(("b", r) for r in res), args[0].l))]
        return [(st, VBOOL)]

    def bi_divmod(self, st, args, kw, node):
        a, b = args[0].one(), args[1].one()
        x, y = self.as_num(a) if a else None, self.as_num(b) if b else None
        if x is None or y is None:
            return [(st, VTOP)]
        return [(st, mk(("t", (vint(self.arith(st, ast.FloorDiv(), x, y)), vint(self.arith(st, ast.Mod(), x, y)))), l=self.labs(args)))]

    def bi_vars(self, st, args, kw, node):
        return [(st, VTOP)]

    def bi_partial(self, st, args, kw, node):
        return [(st, mk(("part", args[0].one(), tuple(args[1:]), tuple(kw.items()))))]

    def bi_auto(self, st, args, kw, node):
        return [(st, vint(self.next_auto()))]

    def next_auto(self):
        self.auto = 1 if self.auto == 0 else self.auto * 2
        return self.auto

    def bi_property(self, st, args, kw, node):
        g = args[0].one() if args else None
        s = args[1].one() if len(args) > 1 else (kw["fset"].one() if "fset" in kw else None)
        return [(st, mk(("prop", g, s if s != NONE else None)))]

    def bi_super(self, st, args, kw, node):
        c, o = args[0].one(), args[1]
        return [(st, V(frozenset(("sup", c[1], x) for x in o.a), o.l))]

    # ---------------------------------------------------------------- methods of builtin types
    def meth_str(self, st, a, m, args, kw, node):
        L = self.labs(args, kw)
        const = a[0] == "s" and all(isinstance(p, str) for p in a[1])
        cargs = []
        for x in args:
            y = x.one()
            if y and y[0] == "s" and all(isinstance(p, str) for p in y[1]):
                cargs.append("".join(y[1]))
            elif y and y[0] == "n" and isinstance(y[1], int):
                cargs.append(y[1])
            else:
                cargs = None
                break
        if m == "join":
            its = self.known_items(st, args[0])
            if its is not None:
                acc = vstr("")
                for i, x in enumerate(its):
                    if i:
                        acc = self.concat(acc, mk(a))
                    acc = self.concat(acc, x)
                return [(st, acc)]
            out = []
            for s, lv in self.listify(st, args[0], node, key="join"):
                its = self.known_items(s, lv)
                if its is not None:
                    acc = vstr("")
                    for i, x in enumerate(its):
                        if i:
                            acc = self.concat(acc, mk(a))
                        acc = self.concat(acc, x)
                    out.append((s, acc))
                else:
                    out.append((s, V(VSTR.a, self.elem_of(s, lv).l | L)))
            return out
        if const and cargs is not None and m in ("replace", "strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith",
                                                 "isdigit", "find", "split", "title", "capitalize", "casefold", "count", "isalpha",
                                                 "removeprefix", "removesuffix", "partition", "isspace", "index", "swapcase"):
            sv = "".join(a[1])
            try:
                r = getattr(sv, m)(*cargs)
            except (ValueError, TypeError):
                self.I.raise_named(st, "ValueError", node)
                return []
            if isinstance(r, bool):
                return [(st, vbool(r))]
            if isinstance(r, int):
                return [(st, vint(r))]
            if isinstance(r, str):
                return [(st, vstr(r))]
            if isinstance(r, tuple):
                return [(st, mk(("t", tuple(vstr(x) for x in r))))]
            return [(st, self.I.newlist(st, node, [vstr(x) for x in r], key="split"))]
        if a[0] == "s" and len(a[1]) == 1 and not isinstance(a[1][0], str) and a[1][0][1] == "raw" and cargs is not None and \
                m in ("strip", "lstrip", "rstrip", "lower", "upper", "casefold", "title", "capitalize", "replace", "swapcase"):
            return [(st, mk(("s", (a[1][0] + ((m, tuple(cargs)),),)), l=L))]
        if a[0] == "s" and m in ("replace",) and cargs is not None:
            out = []
            for p in a[1]:
                if isinstance(p, str):
                    out.append(p.replace(*cargs))
                elif p[1] == "num" or p[1] == "sep":
                    out.append(p)
                else:
                    out.append(p + ("replace",) + tuple(cargs))
            return [(st, mk(("s", self.normparts(out)), l=L))]
        if a[0] == "s" and m in ("strip", "lstrip", "rstrip") and not args:
            ps = list(a[1])
            if ps and isinstance(ps[0], str) and m != "rstrip":
                ps[0] = ps[0].lstrip()
            if ps and isinstance(ps[-1], str) and m != "lstrip":
                ps[-1] = ps[-1].rstrip()
            return [(st, mk(("s", self.normparts(ps)), l=L))]
        if m in ("startswith", "endswith", "isdigit", "isalpha", "isnumeric", "isdecimal", "isspace", "islower", "isupper", "isalnum"):
            return [(st, V(VBOOL.a, L))]
        if m in ("find", "index", "count", "rfind", "rindex"):
            if m in ("index", "rindex"):
                self.I.may_raise(st, "ValueError", node)
            return [(st, vint(Itv(-1, None), L))]
        if m in ("split", "rsplit", "splitlines"):
            return [(st, mk(("o", self.I.alloc(st, node, Obj("list", elem=V(VSTR.a, L), ln=vint(Itv(0, None))), key="split"))))]
        if m in ("update",):
            return [(st, mk(a))]
        return [(st, V(VSTR.a, L))]

    def meth_tuple(self, st, a, m, args, kw, node):
        if m == "index":
            self.I.may_raise(st, "ValueError", node)
            return [(st, vint(Itv(0, None), self.labs(args)))]
        return [(st, vint(Itv(0, None), self.labs(args)))]

    def meth_int(self, st, a, m, args, kw, node):
        ops = {"__eq__": ast.Eq, "__lt__": ast.Lt, "__le__": ast.LtE, "__gt__": ast.Gt, "__ge__": ast.GtE, "__ne__": ast.NotEq}
        if m in ops and len(args) == 1 and not kw and all(self.as_num(x) is not None for x in args[0].a):
            return self.compare(st, ops[m](), mk(a), args[0], node)
        return [(st, V(VTOP.a, self.labs(args)))]

    def meth_tab(self, st, a, m, args, kw, node):
        if m in ("copy",):
            return [(st, mk(a))]
        if m in ("append", "add", "remove", "pop", "extend", "insert", "clear", "sort", "reverse", "discard", "update"):
            # the table is Bible data: a write to every book's table
            for oid in self.books:
                self.I.note_write(oid, "[]", node, VTOP, st)
            return [(st, VTOP)]
        return [(st, self.tab_elem(st, a))]

    def meth_flag(self, st, a, m, args, kw, node):
        return self.contains(st, args[0], mk(a), node)

    def meth_list(self, st, a, m, args, kw, node):
        I = self.I
        o = st.get(a[1])
        w = lambda v=BOT: I.note_write(a[1], "[]", node, v, st)
        h = I.hooks.get("listmut")
        if h and m in ("append", "insert", "extend"):
            h(a[1], node)
        if m == "append":
            self.append_to(st, mk(a), args[0])
            return [(st, VNONE)]
        if m == "extend":
            its = self.known_items(st, args[0])
            if its is not None:
                for x in its:
                    self.append_to(st, mk(a), x)
                return [(st, VNONE)]

            def cb(s, x):
                self.append_to(s, mk(a), x)
                return [s]
            return [(s, VNONE) for s in I.iterate(st, args[0], cb, node)]
        if m == "insert":
            w(args[1])
            x = args[0].one()
            if o.items is not None and o.uniq and x and x[0] == "n" and isinstance(x[1], int):
                it = list(o.items)
                it.insert(x[1], args[1])
                st.put(a[1], o.rep(items=tuple(it)))
            else:
                st.put(a[1], o.rep(items=None, elem=vjoin(o.all_elem(), args[1]), ln=vint(Itv(0, None))))
            return [(st, VNONE)]
        if m == "pop":
            w()
            x = args[0].one() if args else ("n", -1)
            if o.items is not None and o.uniq and x and x[0] == "n" and isinstance(x[1], int):
                if -len(o.items) <= x[1] < len(o.items):
                    it = list(o.items)
                    r = it.pop(x[1])
                    st.put(a[1], o.rep(items=tuple(it)))
                    return [(st, r)]
                I.raise_named(st, "IndexError", node)
                return []
            I.may_raise(st, "IndexError", node)
            el = o.all_elem()
            st.put(a[1], o.rep(items=None, elem=el, ln=vint(Itv(0, None))))
            return [(st, el)]
        if m == "clear":
            w()
            if o.uniq:
                st.put(a[1], o.rep(items=(), elem=None, ln=None))
            return [(st, VNONE)]
        if m == "copy":
            return [(st, mk(("o", I.alloc(st, node, o.rep(uniq=True), key="copy"))))]
        if m in ("reverse",):
            w()
            if o.items is not None and o.uniq:
                st.put(a[1], o.rep(items=tuple(reversed(o.items))))
            elif o.items is not None:
                st.put(a[1], o.rep(items=None, elem=o.all_elem(), ln=vint(len(o.items))))
            return [(st, VNONE)]
        if m == "sort":
            w()
            if I.cfg.numeric == "zone" and not (o.items is not None and len(o.items) <= 1):
                if o.items is None or not o.uniq:
                    raise Incomplete("list.sort")
                out = []
                for s, lv in I.call_v(st, self.stubs["_sorted"], [mk(("t", tuple(o.items)))], kw, node):
                    s.put(a[1], s.get(a[1]).rep(items=tuple(self.known_items(s, lv))))
                    out.append((s, VNONE))
                return out
            if o.items is not None and len(o.items) > 1:
                st.put(a[1], o.rep(items=None, elem=o.all_elem(), ln=vint(len(o.items))))
            return [(st, VNONE)]
        if m == "remove":
            w()
            if I.cfg.numeric == "zone" and o.items is not None and o.uniq and len(args) == 1 and o.cls == "list":
                out = []
                for s, i in I.call_v(st, self.stubs["_position"], [mk(("t", tuple(o.items))), args[0]], {}, node):
                    i = i.one()[1]
                    s.put(a[1], s.get(a[1]).rep(items=o.items[:i] + o.items[i + 1:]))
                    out.append((s, VNONE))
                return out
            I.may_raise(st, "ValueError", node)
            if o.items is not None:
                st.put(a[1], o.rep(items=None, elem=o.all_elem(), ln=vint(Itv(0, len(o.items)))))
            return [(st, VNONE)]
        if m == "index":
            x = args[0].one()
            bi = self.bidx(x) if x is not None else False
            if bi is not False and o.items is not None:
                idx = [self.bidx(k.one()) if k.one() is not None else False for k in o.items]
                if idx == list(range(len(self.books))):
                    if bi is None:
                        return [(st, vint(Itv(0, len(idx) - 1)))]
                    return [(st, vint(bi))]
            I.may_raise(st, "ValueError", node)
            if I.cfg.numeric == "zone":
                raise Incomplete("list.index")
            return [(st, vint(Itv(0, None), self.labs(args)))]
        if m == "count":
            return [(st, vint(Itv(0, None), self.labs(args)))]
        if m == "__iter__":
            return [(st, mk(a))]
        if m == "__len__":
            return self.bi_len(st, [mk(a)], {}, node)
        if m == "__getitem__":
            return self.getitem(st, mk(a), args[0], node)
        if m == "__contains__":
            return self.contains(st, args[0], mk(a), node)
        return [(st, V(VTOP.a, self.labs(args)))]

    def meth_set(self, st, a, m, args, kw, node):
        I = self.I
        o = st.get(a[1])
        if m == "add":
            self.append_to(st, mk(a), args[0])
            return [(st, VNONE)]
        if m in ("remove", "discard"):
            I.note_write(a[1], "[]", node, BOT, st)
            x = args[0]
            if o.items is not None and o.uniq and x.one() is not None:
                it = tuple(y for y in o.items if y.a != x.a)
                if len(it) < len(o.items):
                    st.put(a[1], o.rep(items=it))
                    return [(st, VNONE)]
            if m == "remove":
                I.may_raise(st, "KeyError", node)
            return [(st, VNONE)]
        if m in ("copy", "union", "difference", "intersection", "symmetric_difference"):
            el = o.all_elem()
            for x in args:
                el = vjoin(el, self.elem_of(st, x))
            if m == "copy" and o.items is not None:
                return [(st, mk(("o", I.alloc(st, node, o.rep(uniq=True), key="copy"))))]
            return [(st, mk(("o", I.alloc(st, node, Obj("set", elem=el, ln=vint(Itv(0, None))), key="setop"))))]
        if m in ("update", "clear", "pop"):
            I.note_write(a[1], "[]", node, BOT, st)
            el = o.all_elem()
            for x in args:
                el = vjoin(el, self.elem_of(st, x))
            st.put(a[1], o.rep(items=None, elem=el, ln=vint(Itv(0, None))))
            return [(st, el if m == "pop" else VNONE)]
        return [(st, V(VBOOL.a, self.labs(args)))]

    def meth_dict(self, st, a, m, args, kw, node):
        I = self.I
        o = st.get(a[1])
        if m == "get":
            return self.dict_get(st, a, o, args[0], node, default=args[1] if len(args) > 1 else VNONE)
        if m in ("items", "values", "keys"):
            if o.items is not None:
                its = {"items": [mk(("t", (k, v))) for k, v in o.items], "values": [v for _, v in o.items],
                       "keys": [k for k, _ in o.items]}[m]
                return [(st, mk(("o", I.alloc(st, node, Obj("list", items=tuple(its)), key="d" + m))))]
            k, v = o.elem
            el = {"items": mk(("t", (k, v))), "values": v, "keys": k}[m]
            return [(st, mk(("o", I.alloc(st, node, Obj("list", elem=el, ln=vint(Itv(0, None))), key="d" + m))))]
        if m == "copy":
            return [(st, mk(("o", I.alloc(st, node, o.rep(uniq=True), key="copy"))))]
        if m == "setdefault":
            rs = self.dict_get(st, a, o, args[0], node, default=args[1] if len(args) > 1 else VNONE)
            out = []
            for s, v in rs:
                self.dict_set(s, mk(a), args[0], v, node)
                out.append((s, v))
            return out
        if m in ("pop", "clear", "update", "popitem"):
            I.note_write(a[1], "[]", node, self.labs(args) and V(VTOP.a, self.labs(args)) or BOT, st)
            kk, vv = o.all_elem() if (o.items is not None or o.elem is not None) else (BOT, BOT)
            if m == "clear" and o.uniq:
                st.put(a[1], o.rep(items=(), elem=None, ln=None))
                return [(st, VNONE)]
            if m == "update" and args:
                x = args[0].one()
                xo = st.get(x[1]) if x and x[0] == "o" else None
                if xo is not None and xo.cls == "dict" and xo.items is not None:
                    for k, v in xo.items:
                        self.dict_set(st, mk(a), k, v, node)
                    return [(st, VNONE)]
                st.put(a[1], o.rep(items=None, elem=(VTOP, VTOP), ln=vint(Itv(0, None))))
                return [(st, VNONE)]
            st.put(a[1], o.rep(items=None, elem=(kk, vv), ln=vint(Itv(0, None))))
            if m == "pop":
                r = vv if len(args) < 2 else vjoin(vv, args[1])
                return [(st, r)]
            return [(st, VNONE)]
        if m == "__contains__":
            return self.contains(st, args[0], mk(a), node)
        return [(st, V(VTOP.a, self.labs(args)))]

    def meth_gen(self, st, a, m, args, kw, node):
        if m in ("__iter__",):
            return [(st, mk(a))]
        if m == "__next__":
            return self.bi_next(st, [mk(a)], {}, node)
        return [(st, VTOP)]

    meth_iter = meth_gen

    def meth_re(self, st, a, m, args, kw, node):
        I = self.I
        o = st.get(a[1])
        h = I.hooks.get("re")
        if h is not None:
            r = h(st, o, m, args, node)
            if r is not None:
                return r
        L = self.labs(args)
        if m in ("fullmatch", "match", "search") and I.cfg.numeric == "zone" and len(args) == 1:
            r = self.const_match(st.get(a[1]), m, args[0])
            if r is False:
                return [(st, VNONE)]
            if r is True:
                return [(st, mk(("o", I.alloc(st, node, Obj("match", x=None), key="match"))))]
        if m in ("fullmatch", "match", "search"):
            moid = I.alloc(st, node, Obj("match", x=None), key="match")
            return [(st, mk(NONE, ("o", moid), l=L))]
        if m in ("pattern", "flags"):
            return [(st, VSTR)]
        return [(st, V(VTOP.a, L))]

    def const_match(self, o, m, arg):
        """a constant pattern on a constant string: constant folding"""
        x = arg.one()
        if not isinstance(o.x, tuple) or not isinstance(o.x[0], str) or x is None or x[0] != "s" or not all(isinstance(p, str) for p in x[1]):
            return None
        fl = o.x[1]
        if not isinstance(fl, int):
            fl = {"re.IGNORECASE": 2, "re.I": 2}.get(fl)
            if fl is None:
                return None
        try:
            return getattr(re.compile(o.x[0], fl), m)("".join(x[1])) is not None
        except re.error:
            return None

    def meth_match(self, st, a, m, args, kw, node):
        return [(st, V(VSTR.a, self.labs(args)))]

    def meth_lark(self, st, a, m, args, kw, node):
        from . import larkai
        if m == "parse":
            return larkai.parse(self, st, a, args, kw, node)
        if m == "transform":
            return larkai.transform(self, st, a, args, kw, node)
        return [(st, VTOP)]

    def meth_tree(self, st, a, m, args, kw, node):
        return [(st, V(VTOP.a, self.labs(args)))]

    # ================================================================ foreign library
    def call_ext(self, st, a, args, kw, node, star=None):
        I = self.I
        name = a[1]
        L = self.labs(args, kw)
        if name == "enum.auto":
            return [(st, vint(self.next_auto()))]
        if name == "re.compile":
            p = args[0].one()
            fl = 0
            for x in args[1:]:
                if TOPA not in x.a:
                    y = x.one()
                    fl = y[1] if y and y[0] in ("ext", "n") else fl
            for k, x in kw.items():
                y = x.one()
                fl = y[1] if y and y[0] in ("ext", "n") else fl
            pat = "".join(p[1]) if p and p[0] == "s" and all(isinstance(q, str) for q in p[1]) else None
            oid = I.alloc(st, node, Obj("re", {"pattern": args[0]}, x=(pat, fl)), key="re")
            return [(st, mk(("o", oid), l=L))]
        if name in ("re.fullmatch", "re.match", "re.search"):
            s = st
            rs = self.call_ext(s, ("ext", "re.compile"), [args[0]] + args[2:], kw, node)
            out = []
            for s1, r in rs:
                out.extend(self.meth_re(s1, r.one(), name[3:], [args[1]], {}, node))
            return out
        if name == "re.escape":
            p = args[0].one()
            if p and p[0] == "s":
                import re as _re
                return [(st, mk(("s", tuple(_re.escape(q) if isinstance(q, str) else q for q in p[1])), l=L))]
            return [(st, V(VSTR.a, L))]
        if name.startswith("re."):
            return [(st, V(VTOP.a, L))]
        if name in ("lark.Lark", "lark.Lark.open"):
            oid = I.alloc(st, node, Obj("lark", {"grammar": args[0]}, x=tuple(sorted((k, str(v)) for k, v in kw.items()))), key="lark")
            return [(st, mk(("o", oid), l=L))]
        if name == "from_iterable" or name == "itertools.chain.from_iterable":
            return I.call_v(st, self.stubs["_chain_from"], args, kw, node)
        if name in ("itertools.pairwise", "itertools.zip_longest", "itertools.islice", "itertools.accumulate"):
            out = []
            for s, lv in self.listify(st, args[0], node, key="it"):
                el = self.elem_of(s, lv)
                if name.endswith("pairwise"):
                    its = self.known_items(s, lv)
                    if its is not None:
                        out.append((s, I.newlist(s, node, [mk(("t", (x, y))) for x, y in zip(its, its[1:])], key="pw")))
                        continue
                    el = mk(("t", (el, el)))
                elif name.endswith("zip_longest"):
                    el = VTOP
                out.append((s, mk(("o", I.alloc(s, node, Obj("iter", elem=el.lab(L)), key="iter")))))
            return out
        if name.startswith("operator."):
            ops = {"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq}
            m = name[9:]
            if m in ops and len(args) == 2:
                return self.compare(st, ops[m](), args[0], args[1], node)
            bops = {"or_": ast.BitOr, "and_": ast.BitAnd, "add": ast.Add, "sub": ast.Sub, "xor": ast.BitXor}
            if m in bops and len(args) == 2:
                return self.binop(st, bops[m](), args[0], args[1], node)
            if m == "attrgetter":
                nm = args[0].one()
                return [(st, mk(("ext", "attrgetter:" + nm[1][0])))] if nm and nm[0] == "s" else [(st, VTOP)]
        if name.startswith("attrgetter:"):
            cur = [(st, args[0])]
            for part in name[11:].split("."):
                cur = [y for s, v in cur for y in I.getattr_v(s, v, part, node)]
            return cur
        if name in ("copy.copy", "copy.deepcopy"):
            return self.copy_value(st, args[0], node, name.endswith("deepcopy"))
        if name == "object" or name == "builtins.object":
            return [(st, mk(("o", I.alloc(st, node, Obj(self.object_cls)))))]
        if name.startswith("typing.") or name.startswith("types."):
            if name in ("typing.cast",) and len(args) == 2:
                return [(st, args[1])]
            return [(st, V(VTOP.a, L))]
        if name == "dataclasses.field":
            return [(st, kw.get("default", VTOP))]
        if name == "dataclasses.replace":
            return [(st, V(VTOP.a, L))]
        return [(st, V(VTOP.a, L))]

    def copy_value(self, st, v, node, deep):
        I = self.I
        out = []
        for a in v.a:
            if a[0] == "o":
                o = st.get(a[1])
                if o is not None and (o.cls in ("list", "dict", "set") or isinstance(o.cls, tuple)) and a[1] not in self.bookset:
                    out.append(("o", I.alloc(st, node, o.rep(uniq=True), key="cp")))
                    continue
            out.append(a)
        return [(st, V(frozenset(out), v.l))]

    def cm_enter(self, st, v, node):
        I = self.I
        a = v.one()
        if a is not None:
            m = I.find_method(st, a, "__enter__")
            if m is not None:
                return I.call_method(st, a, m[0], m[1], [], node)
        return [(st, VTOP)]

    def cm_exit(self, st, v, node):
        I = self.I
        a = v.one()
        if a is not None:
            m = I.find_method(st, a, "__exit__")
            if m is not None:
                return [s for s, _ in I.call_method(st, a, m[0], m[1], [VNONE, VNONE, VNONE], node)]
        return [st]
