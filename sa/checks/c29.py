"""C29 a stale group view is refused and can never damage a list."""
from .kcommon import *
from ..listops import OPS, VIEWOPS, stale, skeletons, name_of

TECHNIQUE = STECH


def check(R):
    R.rule("view", "after any operation a view obtained before either reads exactly the group that its first item starts, or, when it starts none any more, is refused and changes nothing")
    n = (3, 2) if R.tier == "quick" else (4, 3)
    sc = []
    for name, o in OPS.items():
        if "=" in name or not o.groups:
            continue
        for kind in o.kinds:
            if kind == "range" and R.tier == "quick" and name in ("insert", "index", "count", "in", "[i]", "groups[g][j]", "to_nested_lists", "len(groups[g])", "index from i", "index from g before j"):
                continue
            for sk in skeletons(n[kind != "int"]):
                for g in range(len(sk)):
                    for vop in VIEWOPS:
                        sc.append(("view", "%s of group %d of %s %ss before %s" % (vop, g, name_of(sk), kind, name)) + stale(name, sk, g, kind, vop))
    scen(R, sc)
