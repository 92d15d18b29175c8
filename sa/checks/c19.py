"""C19 a range list only ever holds ranges."""
from .common import *

TECHNIQUE = ("type-state abstract interpretation: public list and group-view operations are analysed with arguments of unknown type; the join of all values "
             "stored in list nodes must stay within the range class on normal and on exceptional exits")

# operations that store items; wrong items are tried kind by kind
WRONG = ["v", "none", "str", "i", "b", "l", "x"]
ITEM = [("append", ["?"]), ("append", ["?", "bool"]), ("prepend", ["?"]), ("prepend", ["?", "bool"]), ("insert", ["i", "?"]), ("__setitem__", ["i", "?"]), ("view.__setitem__", ["i", "?"])]
MANY = [("append_group", ["it"]), ("extend", ["it"]), ("__iadd__", ["it"]), ("ctor", ["it"]), ("ctor", ["nit"]), ("ctor", ["v", "r"]), ("ctor", ["r", "none"])]
REFS = ["union_update", "intersection_update", "difference_update", "sym_difference_update", "__ior__", "__iand__", "__isub__", "__ixor__",
        "union", "intersection", "difference", "sym_difference"]
TASKS = [(n, [w if k == "?" else k for k in ks]) for n, ks in ITEM for w in WRONG] + MANY + [(n, [k]) for n in REFS for k in ("v", "r", "l", "none", "it")] + \
    [(n, []) for n in ("verse_0_to_1", "verse_1_to_0", "sort", "merge", "reverse", "regroup", "clear_groups")]
NAMES = {"x": "a value of unknown type", "it": "items of any kind", "nit": "groups of items of any kind", "i": "a number", "v": "a verse", "str": "a string", "none": "None",
         "bool": "bool", "r": "a range", "l": "a list", "b": "a book"}


def check(R):
    h = H(coarse=True, splititems=True)
    I = h.I
    I.phase = "run"
    lc, rc = h.cls("BibleRangeList"), h.cls("BibleRange")
    R.rule("items", "whatever arguments it is given, an operation leaves only ranges as the values held by any range list it can reach, also when it raises")
    R.rule("accepts", "an item that is not a range is refused with a type error: the operation has no normal outcome for it")

    def arg(A, k, key):
        if k == "x":
            return A.get("any", key)
        if k in ("it", "nit"):
            x = vjoin_all([A.get("r", key), A.get("v", key), VNONE, h.num(), VSTR])
            ph, I.phase = I.phase, "input"
            oid = I.alloc(A.st, h.node("it" + key), Obj("list", elem=x, ln=vint(Itv(0, None))), key="it")
            if k == "nit":
                oid = I.alloc(A.st, h.node("nit" + key), Obj("list", elem=vjoin(x, mk(("o", oid))), ln=vint(Itv(0, None))), key="nit")
            I.phase = ph
            return mk(("o", oid))
        return {"i": lambda: h.num(), "bool": lambda: VBOOL, "str": lambda: VSTR, "none": lambda: VNONE}.get(k, lambda: A.get(k, key))()

    def one(R, t):
        name, ks = t
        what = "%s(%s)" % (name, ", ".join(NAMES[k] for k in ks))
        fresh(h)
        A = Args(h, h.state())
        tgt = A.get("l", "self") if name != "ctor" else None
        args = [arg(A, k, "a%d" % i) for i, k in enumerate(ks)]
        try:
            if name == "ctor":
                rs, raised = h.call(A.st, mk(("o", lc)), args, {}, "op")
            elif name.startswith("view."):
                rs, raised = h.getattr(A.st, tgt, "groups", "grp")
                (s, g), = rs
                rs, _ = h.drive(s, lambda: h.lib.getitem(s, g, h.num(), h.node("gv")))
                (s, g), = I.merge_rv(rs, 1)
                rs, raised = h.meth(s, g, name[5:], args, {}, "op")
            else:
                rs, raised = h.meth(A.st, tgt, name, args, {}, "op")
        except Incomplete as x:
            R.undecided("items", what, x)
            return
        bad = None
        for s, v, where in [(s, v, "") for s, v in rs] + [(s, BOT, " (after raising)") for s, v, n, f in raised]:
            for lo in {x for x in s.reach([w for w in (v, tgt) if w is not None]) if s.get(x) is not None and isinstance(s.get(x).cls, tuple) and lc in I.mro(s.get(x).cls)}:
                for w in node_values(h, s, lo):
                    for a in w.a:
                        if not is_instance(h, s, a, rc) and not excluded(h, s, a, rc):
                            bad = (cls_name(s, a), where)
        if bad:
            R.bad("items", "BibleRangeList.%s" % name, "%s can leave a %s in the list%s" % (what, bad[0], bad[1]), key="items|%s" % what.replace(" ", "_"))
        else:
            R.good("items", what)
        if (name, ) and any(name == n for n, _ in ITEM) and ks[-1 if ks[-1] != "bool" else -2] != "x":
            if rs:
                R.bad("accepts", "BibleRangeList.%s" % name, "%s is accepted" % what, key="accepts|%s" % what.replace(" ", "_"))
            else:
                names = {n for n, _ in exc_names(h, raised)}
                if "TypeError" not in names:
                    R.bad("accepts", "BibleRangeList.%s" % name, "%s never raises a type error, only %s" % (what, ", ".join(sorted(names))), key="accepts|%s" % what.replace(" ", "_"))
                else:
                    R.good("accepts", what + " raises " + ", ".join(sorted(names)))
    parallel(R, TASKS, one)
    R.set("operations", len(TASKS))


def excluded(h, s, a, rc):
    """an unknown value that a type test has narrowed to ranges"""
    if a[0] == "o":
        o = s.get(a[1])
        if o is not None and o.cls == "any" and o.x and o.x[0] == "is":
            return all(c in h.I.classes and rc in h.I.mro(c) for c in o.x[1]) if not isinstance(o.x[1], tuple) or o.x[1] not in h.I.classes else rc in h.I.mro(o.x[1])
    return False


def node_values(h, s, lo):
    """values in the internal items of a list: every object whose parent field can be the list"""
    out = []
    for x in s.reach([mk(("o", lo))]):
        o = s.get(x)
        if o is None or not isinstance(o.cls, tuple):
            continue
        p = o.f.get("parent")
        if "value" in o.f and p is not None and any(a == ("o", lo) for a in p.a):
            out.append(o.f["value"])
    return out
