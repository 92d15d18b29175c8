"""Helpers shared by the interval-mode checks."""
from ..entries import *
from ..par import parallel

# operations documented as changing their list in place
MUTATORS = {"append", "append_group", "prepend", "extend", "insert", "insert_group_at", "pop", "remove", "clear",
            "clear_groups", "reverse", "sort", "merge", "regroup", "union_update", "intersection_update", "difference_update",
            "sym_difference_update", "verse_0_to_1", "verse_1_to_0", "__setitem__", "__delitem__", "__iadd__", "__ior__", "__iand__",
            "__isub__", "__ixor__"}
# the public interface at the pinned commit
KNOWN = {
    "BibleBook": "__ge__ __gt__ __le__ __lt__ chap_count chap_range chap_ranges first_verse from_str last_verse max_chap_num max_verse_num "
                 "min_chap_num min_verse_num next prev range verse_count",
    "BibleVerse": "__add__ __repr__ __str__ __sub__ __lt__ __le__ __gt__ __ge__ __eq__ __hash__ add book_range chap_range first_verse is_first_in_book is_first_in_chap is_last_in_book "
                  "is_last_in_chap last_verse max_chap_num max_verse_num min_chap_num min_verse_num str subtract verse_0_to_1 verse_1_to_0",
    "BibleRange": "__and__ __contains__ __iter__ __or__ __repr__ __str__ __sub__ __xor__ __lt__ __le__ __gt__ __ge__ __eq__ __hash__ book_count book_range chap_count chap_range contains "
                  "difference intersection is_adjacent is_disjoint is_single_verse is_whole_book is_whole_chap spans_end_book spans_end_chap "
                  "spans_start_book spans_start_chap split str surrounds sym_difference union verse_0_to_1 verse_1_to_0 verse_count whole_bible",
    "BibleRangeList": "__and__ __contains__ __delitem__ __eq__ __getitem__ __iadd__ __iand__ __ior__ __isub__ __iter__ __ixor__ __len__ __or__ "
                      "__repr__ __reversed__ __setitem__ __str__ __sub__ __xor__ append append_group book_count book_range chap_count chap_range "
                      "clear clear_groups contains count difference difference_update equals extend groups index insert insert_group_at "
                      "intersection intersection_update is_disjoint merge pop prepend range regroup remove reverse sort str sym_difference "
                      "sym_difference_update to_nested_lists union union_update verse_0_to_1 verse_1_to_0 verse_count",
}
KNOWN = {k: set(v.split()) for k, v in KNOWN.items()}


def is_mutator(e):
    return e.cls == "BibleRangeList" and e.name in MUTATORS


def known_entries(h, **kw):
    return [e for e in entries(h, **kw) if e.kind == "ctor" or e.name in KNOWN[e.cls]]


def fresh(h, budget=3000000):
    I = h.I
    I.steps = 0
    I.cfg.budget = budget
    I.writes = []


def consume(h, rs):
    """run returned generators to their end; the value becomes what they yield"""
    out, raised = [], []
    for s, v in rs:
        if not any(a[0] == "o" and s.get(a[1]) is not None and s.get(a[1]).cls == "gen" for a in v.a):
            out.append((s, v))
            continue
        acc = []

        def cb(s1, item):
            acc.append(item)
            return [s1]
        r, x = h.drive(s, lambda: h.I.iterate(s, v, cb, h.node("consume")))
        raised.extend(x)
        out.extend((s1, vjoin_all(acc) if acc else VNONE) for s1 in r)
    return out, raised


def run(h, e, A=None, extra_kw=None, budget=3000000):
    """analyse one public entry: (results, raised, Args, receiver, args, kw)"""
    fresh(h, budget)
    A, callee, args, kw, rv = prepare(h, e)
    if extra_kw:
        kw.update(extra_kw)
    h.I.writes = []
    rs, raised = invoke(h, e, A, callee, args, kw)
    rs, x = consume(h, rs)
    return rs, raised + x, A, rv, args, kw


def cls_name(s, a):
    if a[0] == "o":
        o = s.get(a[1])
        if o is not None and isinstance(o.cls, tuple):
            return o.cls[-1]
        return o.cls if o is not None else "?"
    return a[0]


def exc_names(h, raised):
    out = []
    for s, v, n, f in raised:
        for a in v.a:
            out.append((cls_name(s, a), h.I.where(n, f)))
    return out


def is_instance(h, s, a, cls):
    """a is an instance of the package class with that oid (or a subclass)"""
    if a[0] != "o":
        return False
    o = s.get(a[1])
    return o is not None and isinstance(o.cls, tuple) and o.cls in h.I.classes and cls in h.I.mro(o.cls)
