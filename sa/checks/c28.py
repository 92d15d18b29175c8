"""C28 list equality means same items in the same groups."""
from .kcommon import *
from ..listops import equality, foreign, copied, skeletons, name_of

TECHNIQUE = STECH


def check(R):
    R.rule("equal", "two lists are equal exactly when items and groups are, and equal ignoring groups exactly when the items are")
    R.rule("foreign", "anything that is not a list is unequal, without an exception")
    R.rule("copy", "a copy has the same items in the same groups and equals the original")
    q = R.tier == "quick"
    sc = []
    hows = ("==", "!=", "equals", "equals ignoring groups")
    for kind, n in (("int", 3 if q else 4), ("range", 2 if q else 3)):
        for a in skeletons(n):
            for b in skeletons(n):
                for how in hows:
                    sc.append(("equal", "%s of lists of %s and %s %ss" % (how, name_of(a), name_of(b), kind)) + equality(a, b, kind, how))
        for a in ((), (1,), (2,), (1, 1)):
            for other in ("a Python list", "a tuple", "None", "a number", "a string", "itself", "an item"):
                for how in hows:
                    if how == "equals ignoring groups" and (other == "a string" or other == "an item" or other == "None" or other == "a number") and not a:
                        pass
                    sc.append(("foreign", "%s of a list of %s %ss and %s" % (how, name_of(a), kind, other)) + foreign(a, kind, other, how))
    for a in skeletons(3 if q else 4):
        sc.append(("copy", "copy of a list of %s" % name_of(a)) + copied(a))
    scen(R, sc)
