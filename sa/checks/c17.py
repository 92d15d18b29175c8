"""C17 list operations have the meaning of the same operations on a Python list."""
from .kcommon import *
from ..listops import OPS, meaning, skeletons, name_of

TECHNIQUE = STECH


def check(R):
    R.rule("meaning", "result, exception and items afterwards are those of the same operation on a Python list; a failed operation changes no item")
    n = (4, 3) if R.tier == "quick" else (5, 4)
    sc = []
    for name, o in OPS.items():
        if "group" in name:
            continue
        for kind in o.kinds:
            for sk in skeletons(n[kind != "int"]):
                sc.append(("meaning", "%s on a list of %s %ss" % (name, name_of(sk), "number" if kind == "int" else kind)) + meaning(name, sk, kind))
    scen(R, sc)
