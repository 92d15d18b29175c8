"""C18 groups always partition the list and follow the documented rules."""
from .kcommon import *
from ..listops import OPS, grouping, skeletons, name_of

TECHNIQUE = STECH


def check(R):
    R.rule("grouping", "the groups after the operation are exactly the documented ones, and an operation through a group addresses its own items")
    n = (4, 3) if R.tier == "quick" else (5, 4)
    sc = []
    for name, o in OPS.items():
        if not o.groups:
            continue
        for kind in o.kinds:
            for sk in skeletons(n[kind != "int"]):
                sc.append(("grouping", "%s on a list of %s %ss" % (name, name_of(sk), "number" if kind == "int" else kind)) + grouping(name, sk, kind))
    scen(R, sc)
