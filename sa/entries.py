"""The public entries of the package and unknown arguments for them."""
import ast
from .harness import *

# documented argument shapes of the constructors: b book, i integer, v verse, r range, l list, s string, S book name
CTOR = {
    "BibleVerse": ["bii", "Sii", "v", "s"],
    "BibleRange": ["b", "bi", "bii", "biib", "biibi", "biibii", "bNNb", "bNNNi", "bNNNNi", "biiNii", "biiNNi", "biiNi", "r", "s", "kse"],
    "BibleRangeList": ["s", "l", "g", "rr", ""],
}
MAINCLS = ["BibleBook", "BibleVerse", "BibleRange", "BibleRangeList"]


class Entry:
    def __init__(self, cls, name, F, kind, shape=None):
        self.cls, self.name, self.F, self.kind, self.shape = cls, name, F, kind, shape

    def __repr__(self):
        return "%s.%s%s" % (self.cls, self.name, "(%s)" % self.shape if self.shape is not None else "")


def func_of(v):
    """(kind, Func) of a class attribute"""
    a = v.one()
    if a is None:
        return None
    if a[0] == "fn":
        return "method", a[1]
    if a[0] in ("cm", "sm") and a[1][0] == "fn":
        return {"cm": "classmethod", "sm": "staticmethod"}[a[0]], a[1][1]
    if a[0] == "prop" and a[1] and a[1][0] == "fn":
        return "property", a[1][1]
    return None


def methods(h, clsname):
    """name -> (kind, Func) of every attribute function through the package's classes"""
    cls = h.cls(clsname)
    st = h.I.load_state
    out = {}
    for c in h.I.mro(cls):
        if h.I.classes[c].mod == "builtins":
            continue
        for k, v in st.get(c).f.items():
            if k not in out:
                r = func_of(v)
                if r is not None:
                    out[k] = r
                elif v.one() == NONE:
                    out[k] = None
    return {k: v for k, v in out.items() if v is not None}


def params(F):
    A = F.node.args
    ps = A.posonlyargs + A.args
    nd = len(A.defaults)
    out = []
    for i, p in enumerate(ps):
        j = i - (len(ps) - nd)
        out.append((p.arg, p.annotation, A.defaults[j] if j >= 0 else None))
    for p, d in zip(A.kwonlyargs, A.kw_defaults):
        out.append((p.arg, p.annotation, d))
    return out


def entries(h, flags_only=False, dunder=True, public=True):
    out = []
    for c in MAINCLS:
        for name, (kind, F) in sorted(methods(h, c).items()):
            if name.startswith("_") and not (dunder and name.startswith("__")):
                continue
            if name in ("__init__", "__setattr__", "__delattr__", "__new__", "__init_subclass__", "__post_init__"):
                continue
            if flags_only and not any(p[0] == "flags" for p in params(F)):
                continue
            out.append(Entry(c, name, F, kind))
    for c, shapes in CTOR.items():
        for s in shapes:
            out.append(Entry(c, "__init__", None, "ctor", s))
    return out


class Args:
    """unknown inputs living in one state"""

    def __init__(self, h, st, itemflags=3):
        self.h = h
        self.fl = itemflags
        self.st = st
        self.cache = {}

    def get(self, kind, key=""):
        h = self.h
        k = (kind, key)
        if k in self.cache:
            return self.cache[k]
        I = h.I
        if kind == "b":
            v = h.book()
        elif kind == "i":
            v = h.num()
        elif kind == "N":
            v = VNONE
        elif kind == "s" or kind == "S":
            v = VSTR
        elif kind == "bool":
            v = VBOOL
        elif kind == "v":
            self.st, v = h.verse(self.st, "v" + key, self.fl)
        elif kind == "r":
            self.st, v = h.range_(self.st, "r" + key, self.fl)
        elif kind == "l":
            self.st, v = h.rlist(self.st, "l" + key, self.fl)
        elif kind == "g":
            r = self.get("r", key + "g")
            ph, I.phase = I.phase, "input"
            oid = I.alloc(self.st, h.node("g" + key), Obj("list", elem=r, ln=vint(Itv(0, None))), key="grp")
            el = vjoin(r, mk(("o", oid)))
            oid2 = I.alloc(self.st, h.node("G" + key), Obj("list", elem=el, ln=vint(Itv(0, None))), key="grps")
            I.phase = ph
            v = mk(("o", oid2))
        elif kind == "ref":
            v = vjoin_all([self.get("v", key), self.get("r", key), self.get("l", key)])
        elif kind == "it":
            v = vjoin(self.get("g", key), self.get("l", key))
        elif kind == "any":
            ph, I.phase = I.phase, "input"
            oid = I.alloc(self.st, h.node("any" + key), Obj("any", x=("top",)), key="any")
            I.phase = ph
            v = mk(("o", oid))
        elif kind == "idx":
            v = h.num()
        else:
            raise AnalysisError("argument kind %s" % kind)
        self.cache[k] = v
        return v

    def recv(self, cls):
        return self.get({"BibleBook": "b", "BibleVerse": "v", "BibleRange": "r", "BibleRangeList": "l"}[cls], "self")

    def kind_of(self, name, ann, default, cls):
        t = ast.unparse(ann).replace("'", "").replace('"', "") if ann is not None else ""
        d = default.value if isinstance(default, ast.Constant) else None
        if name.endswith("flags"):
            return None
        if "BibleRef" in t and "List" not in t:
            return "ref"
        if "Union[int" in t and "BibleVerse" in t:
            return "iv"
        if "BibleVerse" in t:
            return "v"
        if "BibleRangeList" in t:
            return "l"
        if "BibleRange" in t:
            return "r"
        if "BibleBook" in t:
            return "b"
        if name == "num_verses":
            return "i"
        if "bool" in t or isinstance(d, bool):
            return "bool"
        if "int" in t:
            return "i"
        if "str" in t:
            return "s"
        if "iterable" in name:
            return "it"
        if "index" in name:
            return "i"
        if name in ("bible_ref", "other_ref"):
            return "ref"
        if name in ("value", "item"):
            return "r"
        if name == "other":
            return "other"
        if name in ("memo", "memodict"):
            return "N"
        return "other"

    def arg(self, name, ann, default, cls):
        k = self.kind_of(name, ann, default, cls)
        if k is None:
            return None
        if k == "iv":
            v = vjoin(self.get("i"), self.get("v", name))
        elif k == "other":
            v = vjoin_all([self.get("v", name), self.get("r", name), self.get("l", name), self.get("b"), self.get("i"), VNONE])
            if cls == "BibleBook":
                v = self.get("b")
        else:
            v = self.get(k, name)
        if isinstance(default, ast.Constant) and default.value is None and k in ("i", "v", "r", "b", "l"):
            v = vjoin(v, VNONE)
        return v


def prepare(h, e, itemflags=3):
    """(state, callee value, args, kw, Args) -- flags not passed"""
    A = Args(h, h.state(), itemflags)
    if e.kind == "ctor":
        args, kw = [], {}
        if e.shape == "kse":
            kw = {"start": A.get("v", "start"), "end": A.get("v", "end")}
        else:
            args = [A.get(c if c != "l" else "l", str(i) if c in "vrlg" else "") for i, c in enumerate(e.shape)]
        return A, mk(("o", h.cls(e.cls))), args, kw, None
    rv = A.recv(e.cls) if e.kind != "classmethod" else mk(("o", h.cls(e.cls)))
    args, kw = [], {}
    ps = params(e.F)
    if e.kind != "staticmethod":
        ps = ps[1:]
    nkw = {p.arg for p in e.F.node.args.kwonlyargs}
    for name, ann, d in ps:
        v = A.arg(name, ann, d, e.cls)
        if v is None:
            continue
        kw[name] = v
    # positional where possible
    pos = []
    for name, ann, d in ps:
        if name in nkw or name not in kw:
            break
        pos.append(kw.pop(name))
    return A, rv, pos, kw, rv


def invoke(h, e, A, callee, args, kw, key="entry"):
    """[(state, value)], raised"""
    if e.kind == "ctor":
        return h.call(A.st, callee, args, kw, key)
    if e.kind == "property":
        return h.getattr(A.st, callee, e.name, key)
    return h.meth(A.st, callee, e.name, args, kw, key)
