"""C03 verses and ranges are immutable values."""
from .common import *

TECHNIQUE = ("abstract interpretation of attribute assignment and deletion on verse and range instances, interprocedural write-effect analysis of every "
             "public operation, and resolution of the equality and hash methods with a dependence analysis of user-written ones")

PARTS = {"BibleVerse": ("book", "chap_num", "verse_num"), "BibleRange": ("start", "end")}


def check(R):
    h = H(coarse=True)
    I = h.I
    I.phase = "run"
    R.rule("frozen", "assigning or deleting any attribute of a verse or range from outside raises on every path")
    R.rule("writes", "no public operation writes to a field of a completely constructed verse or range")
    R.rule("hash", "equality and hash are functions of the documented parts only, and hash does not use more than equality")
    for c, parts in PARTS.items():
        cls = h.cls(c)
        for name in parts + ("some_other_attribute",):
            for what in ("assign", "delete"):
                if what == "delete" and name not in parts:
                    continue
                A = Args(h, h.state())
                v = A.get("v" if c == "BibleVerse" else "r", "self")
                A.st = A.st.copy()
                I.writes = []
                if what == "assign":
                    val = A.get("any", "new")
                    rs, raised = h.drive(A.st, lambda: I.setattr_v(A.st, v, name, val, h.node("set")))
                else:
                    rs, raised = h.drive(A.st, lambda: I.delattr_v(A.st, v, name, h.node("del")))
                hit = [w for w in I.writes if w[1] == name and name in parts]
                if hit or (rs and name in parts):
                    R.bad("frozen", "class %s" % c, "a caller can %s %s of a %s" % (what, name, c), key="frozen|%s|%s|%s" % (c, name, what))
                else:
                    R.good("frozen", "%s %s.%s raises" % (what, c, name))
        hashrule(R, h, c, cls, parts)
    ents = known_entries(h)

    def one(R, e):
        try:
            rs, raised, A, rv, args, kw = run(h, e)
        except Incomplete as x:
            R.undecided("writes", str(e), x)
            return
        bad = False
        for oid, name, node, F, v, pc in I.writes:
            if oid[0] == "val" and name in ("book", "chap_num", "verse_num", "start", "end"):
                bad = True
                R.bad("writes", I.where(node, F), "%s changes %s of an existing value" % (e, name), key="writes|%s|%s" % (F.qual if F else "", name))
        if not bad:
            R.good("writes", str(e))
    parallel(R, ents, one)
    R.set("entries", len(ents))


def hashrule(R, h, c, cls, parts):
    I = h.I
    st = I.load_state
    eqf = hashf = None
    for k in I.mro(cls):
        ob, ci = st.get(k), I.classes[k]
        if ci.mod == "builtins":
            break
        if eqf is None:
            if ob.f.get("__eq__") is not None:
                eqf = ("user", ob.f["__eq__"])
            elif ci.dc and ci.dc.get("eq"):
                eqf = ("dc", [f for f in ci.fields if f not in ci.nocmp])
        if hashf is None:
            hv = ob.f.get("__hash__")
            if hv is not None:
                hashf = ("none",) if hv.one() == NONE else ("user", hv, k)
            elif ci.dc and (ci.dc.get("unsafe_hash") or (ci.dc.get("eq") and ci.dc.get("frozen"))):
                hashf = ("dc", [f for f in ci.fields if f not in ci.nohash])
            elif ci.dc and ci.dc.get("eq"):
                hashf = ("none",)
            elif ob.f.get("__eq__") is not None:
                hashf = ("none",)
    where = "class %s" % c
    if eqf is None:
        R.bad("hash", where, "%s values compare by identity: no equality on the parts is defined" % c)
        return
    if hashf is None or hashf[0] == "none":
        R.bad("hash", where, "%s values are not hashable on their parts" % c)
        return
    if eqf[0] == "dc":
        extra = [f for f in eqf[1] if f not in parts]
        if extra:
            R.bad("hash", where, "equality of %s also compares %s: values with equal parts can differ" % (c, ", ".join(extra)))
            return
        if hashf[0] == "dc":
            more = [f for f in hashf[1] if f not in eqf[1]]
            if more:
                R.bad("hash", where, "the hash of %s uses %s, which equality ignores" % (c, ", ".join(more)))
                return
    if "user" in (eqf[0], hashf[0]):
        # dependence of a user-written method on anything but the parts
        m = h.mod(PKG)
        fc = h.cls("BibleFlag")
        for kind, f in (("__eq__", eqf), ("__hash__", hashf)):
            if f[0] != "user":
                continue
            A = Args(h, h.state())
            x = A.get("v" if c == "BibleVerse" else "r", "self")
            y = A.get("v" if c == "BibleVerse" else "r", "other")
            A.st.put(m, A.st.get(m).setf("flags", mk(h.lib.flag_sym(fc, "g?"), l=frozenset(["G"]))))
            try:
                I.memo.clear(); I.pmemo.clear()
                rs, raised = h.meth(A.st, x, kind, [y] if kind == "__eq__" else [], {}, "hash")
            except Incomplete as ex:
                R.undecided("hash", "%s.%s" % (c, kind), ex)
                continue
            lab = set()
            for s, v in rs:
                lab |= v.l | s.pc
            dep = lab & {"#id", "G"}
            if dep:
                R.bad("hash", "%s.%s" % (c, kind), "%s.%s depends on %s" % (c, kind, {"#id": "object identity", "G": "the package-wide flags"}[sorted(dep)[0]]))
                return
            if not rs:
                R.bad("hash", "%s.%s" % (c, kind), "%s.%s never returns" % (c, kind))
                return
    R.good("hash", "%s: equality %s, hash %s" % (c, eqf[1] if eqf[0] == "dc" else "user-written", hashf[1] if hashf[0] == "dc" else "user-written"))
