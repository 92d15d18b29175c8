"""C13 explicit flags override the global flags; omitted flags mean the global flags.

Information-flow analysis: the package-wide flags are one labelled unknown (a symbol per flag bit, label G).  Every
public operation that takes flags is analysed once per explicit flags value; no label G may reach its result, the
objects reachable from the receiver and result, or the decision to raise.
"""
from ..entries import *
from ..par import parallel

TECHNIQUE = ("interprocedural information-flow (taint) analysis by abstract interpretation of the syntax tree: the global flags carry a "
             "label that is propagated through data and control dependences, heap and callbacks to a fixpoint")


def set_global(h, st, v):
    m = h.mod(PKG)
    st.put(m, st.get(m).setf("flags", v))


def deps(h, lab, rs, raised, rv, A):
    """what depends on the label: list of (kind, where)"""
    out = []
    for s, v in rs:
        vs = [v] + ([rv] if rv is not None else [])
        if lab in v.l or any(lab in w.l for w in tuple_vals(v)):
            out.append(("result", ""))
        for oid in s.reach(vs):
            o = s.get(oid)
            if o is None or o.cls in ("class", "module"):
                continue
            for w in o.values():
                if lab in w.l:
                    out.append(("result", ""))
                    break
        if lab in s.pc:
            out.append(("control", ""))
    for s, v, n, f in raised:
        if lab in s.pc or lab in v.l:
            out.append(("raise", h.I.where(n, f)))
    return sorted(set(out))


def tuple_vals(v):
    for a in v.a:
        if a[0] == "t":
            for w in a[1]:
                yield w
                yield from tuple_vals(w)
        elif a[0] == "T":
            yield a[1]
            yield from tuple_vals(a[1])


def run_entry(h, e, gv, fv, budget=3000000):
    I = h.I
    I.steps = 0
    I.cfg.budget = budget
    A, callee, args, kw, rv = prepare(h, e)
    set_global(h, A.st, gv)
    if fv is not None:
        kw = dict(kw, flags=fv)
    I.writes = []
    rs, raised = invoke(h, e, A, callee, args, kw)
    I.keepalive.append(None)
    return deps_all(h, rs, raised, rv, A)


def deps_all(h, rs, raised, rv, A):
    return rs, raised, rv, A


def flag_entries(h):
    out = []
    for e in entries(h, flags_only=True):
        if e.kind == "ctor":
            iv, _ = h.I.cls_attr(h.I.load_state, h.cls(e.cls), "__init__")
            F = func_of(iv)[1] if iv is not None and func_of(iv) else None
            if F is None or not (any(p[0] == "flags" for p in params(F)) or F.node.args.kwarg):
                continue
        out.append(e)
    return out


def gen_consume(h, e, rs):
    """a returned generator is run to its end"""
    out, raised = [], []
    for s, v in rs:
        gens = [a for a in v.a if a[0] == "o" and s.get(a[1]) is not None and s.get(a[1]).cls == "gen"]
        if not gens:
            out.append((s, v))
            continue
        acc = []

        def cb(s1, item):
            acc.append(item)
            return [s1]
        r, x = h.drive(s, lambda: h.I.iterate(s, v, cb, h.node("consume")))
        raised.extend(x)
        for s1 in r:
            out.append((s1, vjoin_all(acc) if acc else VNONE))
    return out, raised


def check(R):
    h = H(coarse=True)
    I = h.I
    I.phase = "run"
    fc = h.cls("BibleFlag")
    G = mk(h.lib.flag_sym(fc, "g?"), l=frozenset(["G"]))
    Asym = mk(h.lib.flag_sym(fc, "a?"), l=frozenset(["A"]))
    ents = flag_entries(h)
    R.rule("override", "with flags passed explicitly (any combination, including none) no information flows from the package-wide flags to the result, the operands or an exception")
    R.rule("default", "with flags omitted the package-wide flags influence the same outcomes, through the same flag bits, as explicitly passed flags do")
    seen = set()

    def hook(bit, sym, L, node):
        seen.add((bit, sym[0]))
    I.hooks["flagtest"] = hook
    I.watch = frozenset(["G", "A"])

    def one(R, e):
        try:
            I.memo.clear()
            I.pmemo.clear()
            seen.clear()
            rs, raised, rv, A = run_entry(h, e, G, Asym)
            rs, x = gen_consume(h, e, rs)
            d = deps(h, "G", rs, raised + x, rv, A)
            if d:
                R.bad("override", str(e), "%s: the package-wide flags reach %s although flags are passed explicitly" % (
                    e, "; ".join("the %s%s" % (k, " raised at " + w if w else "") for k, w in d[:3])), key="override|%s" % e)
            else:
                R.good("override", str(e))
            d1 = {k for k, _ in deps(h, "A", rs, raised + x, rv, A)}
            b1 = {b for b, s in seen if s == "a"}
        except Incomplete as ex:
            R.undecided("override", str(e), ex)
            R.undecided("default", str(e), ex)
            return len(I.funcs_seen)
        try:
            I.memo.clear()
            I.pmemo.clear()
            seen.clear()
            rs, raised, rv, A = run_entry(h, e, G, None)
            rs, x = gen_consume(h, e, rs)
            d2 = {k for k, _ in deps(h, "G", rs, raised + x, rv, A)}
            b2 = {b for b, s in seen if s == "g"}
        except Incomplete as ex:
            R.undecided("default", str(e), ex)
            return len(I.funcs_seen)
        miss = [k for k in d1 if k not in d2] + ["bit %s" % b for b in b1 - b2]
        if miss:
            R.bad("default", str(e), "%s: passed flags influence %s, but the package-wide flags do not when flags are omitted" % (e, ", ".join(map(str, sorted(map(str, miss))))),
                  key="default|%s" % e)
        else:
            R.good("default", "%s depends on %s via bits %s" % (e, sorted(d1), sorted(b1)))
        return len(I.funcs_seen)
    fs = parallel(R, ents, one)
    R.set("entries", len(ents))
    R.set("functions_analysed", max(fs))
