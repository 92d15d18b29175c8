"""C04 queries and binary operations leave operands and global state unchanged; new lists share nothing with operands."""
from .common import *

TECHNIQUE = ("interprocedural effect and escape analysis by abstract interpretation: allocation-site heap abstraction, every field or container write is "
             "attributed to the abstract object it changes; reachability of operand objects from returned lists")


def check(R):
    h = H(coarse=True)
    I = h.I
    I.phase = "run"
    R.rule("effects", "no operation that is not documented as in-place writes to an object reachable from an operand, to a book, to the Bible data or to the package-wide flags")
    R.rule("sharing", "a returned list reaches no mutable object of an operand")
    ents = [e for e in known_entries(h) if not is_mutator(e)]
    lc = h.cls("BibleRangeList")
    pkg = h.mod(PKG)
    data = data_oids(h)

    def one(R, e):
        try:
            rs, raised, A, rv, args, kw = run(h, e)
        except Incomplete as x:
            R.undecided("effects", str(e), x)
            return 0
        bad = False
        for oid, name, node, F, v, pc in I.writes:
            what = None
            if oid[0] == "input":
                what = "an operand"
            elif oid in h.lib.bookset:
                what = "a Bible book"
            elif oid in data:
                what = "the Bible data"
            elif oid == pkg and name == "flags":
                what = "the package-wide flags"
            if what:
                bad = True
                R.bad("effects", I.where(node, F), "%s changes %s (%s of %s)" % (e, what, name, desc(h, rs, raised, oid)), key="effects|%s|%s|%s" % (e, F.qual if F else "", name))
        if not bad:
            R.good("effects", "%s: %d writes, none to operands or global data" % (e, len(I.writes)))
        for s, v in rs:
            for a in v.a:
                if not is_instance(h, s, a, lc):
                    continue
                shared = [x for x in s.reach([mk(a)]) if x[0] == "input"]
                if shared:
                    R.bad("sharing", str(e), "the list returned by %s shares %s with an operand" % (e, cls_name(s, ("o", sorted(shared, key=str)[0]))), key="sharing|%s" % e)
                else:
                    R.good("sharing", str(e))
        return 1
    parallel(R, ents, one)
    R.set("entries", len(ents))


def desc(h, rs, raised, oid):
    for s in [x[0] for x in rs] + [x[0] for x in raised]:
        o = s.get(oid)
        if o is not None:
            return o.cls[-1] if isinstance(o.cls, tuple) else o.cls
    return "object"


def data_oids(h):
    """the Bible data singleton and the containers it holds"""
    st = h.I.load_state
    out = set()
    m = st.get(h.mod(PKG))
    for k, v in m.f.items():
        for a in v.a:
            if a[0] == "o":
                o = st.get(a[1])
                if o is not None and isinstance(o.cls, tuple) and a[1] not in h.lib.bookset:
                    out |= {x for x in st.reach([mk(a)]) if st.get(x) is not None and (st.get(x).cls in ("list", "dict", "set") or x == a[1])}
    return out
