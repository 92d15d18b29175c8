"""C16 a grouped list stays internally consistent through every history."""
from .kcommon import *
from ..listops import OPS, consistency, skeletons, name_of

TECHNIQUE = STECH


def check(R):
    R.rule("consistent", "from a well-formed list every operation, returning or raising, leads to a list that reads the same in every way and is represented like a freshly built one")
    n = (4, 3) if R.tier == "quick" else (5, 4)
    sc = []
    for name, o in OPS.items():
        for kind in o.kinds:
            for sk in skeletons(n[kind != "int"]):
                sc.append(("consistent", "%s on a list of %s %ss" % (name, name_of(sk), "number" if kind == "int" else kind)) + consistency(name, sk, kind))
    scen(R, sc)
