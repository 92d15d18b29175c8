"""C05 in-place updates change only their target and keep it."""
import ast
from .common import *

TECHNIQUE = ("abstract interpretation of the augmented assignments with allocation-site heap abstraction: must-alias of the result with the target, write "
             "effects per operand, and detection of lists that grow while a suspended iterator over them is resumed")

OPS = [("|=", ast.BitOr), ("&=", ast.BitAnd), ("-=", ast.Sub), ("^=", ast.BitXor), ("+=", ast.Add)]
UPD = ["union_update", "intersection_update", "difference_update", "sym_difference_update", "extend", "append_group"]


def check(R):
    h = H(coarse=True)
    I = h.I
    I.phase = "run"
    R.rule("same", "the value of an augmented assignment is the very list object on its left, on every path")
    R.rule("others", "an in-place operation writes only to its target (and objects it creates), never to the other operand, books, data or flags")
    R.rule("grow", "no list gains items while an iteration over that same list is in progress and resumed: updating a list with itself terminates")
    tasks = [(o, k) for o in OPS for k in ("v", "r", "l", "self") if not (o[0] == "+=" and k in "vr")] + [(u, k) for u in UPD for k in ("v", "r", "l", "self")
                                                                                                       if not (u in ("extend", "append_group") and k in "vr")]
    tasks += [("extend", "views"), ("append_group", "views"), ("extend", "view"), ("append_group", "view")]

    def one(R, t):
        op, k = t
        name = op if isinstance(op, str) else op[0]
        what = "%s with %s" % (name, {"v": "a verse", "r": "a range", "l": "another list", "self": "the list itself", "views": "its own groups", "view": "one of its groups"}[k])
        fresh(h)
        A = Args(h, h.state())
        tgt = A.get("l", "self")
        st = A.st
        if k == "self":
            other = tgt
        elif k in ("views", "view"):
            rs, _ = h.getattr(A.st, tgt, "groups", "grp")
            (st, other), = rs
            if k == "view":
                rs, _ = h.drive(st, lambda: h.lib.getitem(st, other, h.num(), h.node("gv")))
                rs = I.merge_rv(rs, 1)
                (st, other), = rs
        else:
            other = A.get(k, "other")
            st = A.st
        own = st.reach([tgt])
        a0 = tgt.one()
        grew = []
        I.hooks["grow"] = lambda F, node: grew.append(I.where(node, F))
        I.writes = []
        try:
            if isinstance(op, str):
                rs, raised = h.meth(st, tgt, op, [other], {}, "op")
            else:
                rs, raised = h.binop(st, op[1](), tgt, other, inplace=True, key="op")
        except Incomplete as x:
            for r in ("same", "others", "grow"):
                R.undecided(r, what, x)
            return
        where = "BibleRangeList, %s" % name
        if not isinstance(op, str):
            bad = [a for s, v in rs for a in v.a if a != a0]
            if bad:
                R.bad("same", where, "%s can leave the name bound to something else (%s)" % (what, ", ".join(sorted({cls_name(s, a) for s, v in rs for a in v.a if a != a0}))),
                      key="same|%s|%s" % (name, k))
            elif not rs:
                R.bad("same", where, "%s never completes" % what, key="same|%s|%s" % (name, k))
            else:
                R.good("same", what)
        wr = [w for w in I.writes if (w[0][0] == "input" and w[0] not in own) or w[0] in h.lib.bookset or (w[0] == h.mod(PKG) and w[1] == "flags") or w[0][0] == "val"]
        if wr:
            w = wr[0]
            R.bad("others", I.where(w[2], w[3]), "%s changes another object (field %s)" % (what, w[1]), key="others|%s|%s|%s" % (name, k, w[1]))
        else:
            R.good("others", what)
        if grew:
            R.bad("grow", grew[0], "%s: the list grows while an iteration over it is in progress" % what, key="grow|%s|%s" % (name, k))
        else:
            R.good("grow", what)
    parallel(R, tasks, one)
    R.set("operations", len(tasks))
