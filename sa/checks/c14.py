"""C14 parsing depends only on the string, the flags and the Bible data, not on earlier parses."""
from .common import *

TECHNIQUE = ("non-interference by information-flow abstract interpretation: two parses in one abstract program state, the first string labelled; the label may not "
             "reach the outcome of the second parse through any retained object (parser, transformer, module or class attribute)")


def check(R):
    h = H(coarse=True)
    I = h.I
    I.phase = "run"
    R.rule("noninterference", "no information from a string parsed earlier, successfully or not, flows into the result or the error of a later parse")
    R.rule("data", "parsing changes no flag, separator, book or other Bible data")
    lab = "P1"
    I.watch = frozenset([lab])
    C = ["BibleVerse", "BibleRange", "BibleRangeList"]
    tasks = [(a, b) for a in C for b in C]

    def one(R, t):
        a, b = t
        what = "%s(string) after %s(string)" % (b, a)
        fresh(h)
        st = h.state()
        try:
            rs, raised = h.call(st, mk(("o", h.cls(a))), [V(VSTR.a, frozenset([lab]))], {}, "first")
            wr = list(I.writes)
            starts = []
            for s, how in [(s, "a successful parse") for s, v in rs] + [(s, "a failed parse") for s, v, n, f in raised]:
                s = s.copy()
                s.pc = E
                for k in list(s.env):
                    del s.env[k]
                starts.append((s, how))
            if not starts:
                R.undecided("noninterference", what, "the first parse has no outcome")
                return
            g = {}
            for s, how in starts:
                g.setdefault(how, []).append(s)
            bad = None
            for how, ss in g.items():
                for s in I.merge(ss, 1):
                    I.memo.clear()
                    I.pmemo.clear()
                    I.phase = "second"
                    rs, raised = h.call(s, mk(("o", h.cls(b))), [V(VSTR.a, frozenset(["P2"]))], {}, "second")
                    bad = bad or leak(h, rs, raised, lab, how)
        except Incomplete as x:
            R.undecided("noninterference", what, x)
            return
        if bad:
            R.bad("noninterference", bad[1], "%s: %s depends on %s before it" % (what, bad[0], bad[2]), key="noninterference|%s|%s" % (b, a))
        else:
            R.good("noninterference", what)
        data = [w for w in wr if w[0] in h.lib.bookset or w[0] in dset or (w[0] == h.mod(PKG) and w[1] == "flags")]
        if data:
            R.bad("data", I.where(data[0][2], data[0][3]), "%s(string) changes %s" % (a, data[0][1]), key="data|%s|%s" % (a, data[0][1]))
        else:
            R.good("data", "%s(string)" % a)
    from .c04 import data_oids
    dset = data_oids(h)
    parallel(R, tasks, one)


def leak(h, rs, raised, lab, how):
    for s, v in rs:
        if lab in v.l or lab in s.pc:
            return ("the result", "parsing", how)
        for oid in s.reach([v]):
            o = s.get(oid)
            if o is None or o.cls in ("class", "module"):
                continue
            if any(lab in w.l for w in o.values()):
                return ("the result", "parsing", how)
    for s, v, n, f in raised:
        if lab in s.pc or lab in v.l:
            return ("the error raised", h.I.where(n, f), how)
        for oid in s.reach([v]):
            o = s.get(oid)
            if o is not None and o.cls not in ("class", "module") and any(lab in w.l for w in o.values()):
                return ("the error raised", h.I.where(n, f), how)
    return None
