"""Model of lark: the grammar text is read as data, a parse yields an unknown tree of the
grammar, and transforming it calls the user's callbacks in any order to a joined fixpoint."""
import re
from .dom import *
from .num import sub as lsub

PUA = 0xE000


def grammar_text(v):
    """(text with placeholders, {placeholder char: hole}) or None"""
    a = v.one()
    if a is None or a[0] != "s":
        return None
    out, holes = [], {}
    for p in a[1]:
        if isinstance(p, str):
            out.append(p)
        else:
            for c, h in holes.items():
                if h == p:
                    out.append(c)
                    break
            else:
                c = chr(PUA + len(holes))
                holes[c] = p
                out.append(c)
    return "".join(out), holes


TOK = re.compile(r'''(?P<ws>[ \t\f\r]+)|(?P<cm>//[^\n]*)|(?P<nl>\n)|(?P<str>"(?:\\.|[^"\\])*"i?)|(?P<re>/(?!/)(?:\\.|[^/\\\n])+/[imslux]*)|(?P<name>[?!]*[_A-Za-z][_A-Za-z0-9]*(?:\.-?\d+)?)|(?P<pct>%[a-z]+)|(?P<arrow>->)|(?P<num>\d+(?:\.\.\d+)?)|(?P<op>[:|()\[\]*+?~.,{}])''')


class GrammarError(Exception):
    pass


class Grammar:
    """rules: name -> (modifiers, [alternatives]); an alternative is a list of items:
    ("sym", name) ("lit", text, flags) ("re", pattern, flags) ("grp", [alts]) ("rep", item, lo, hi)"""

    def __init__(self, text, holes):
        self.holes = holes
        self.rules, self.terms, self.ignore, self.imports = {}, {}, [], {}
        toks = []
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise GrammarError("cannot read the grammar near %r" % text[i:i + 20])
            if m.lastgroup not in ("ws", "cm"):
                toks.append((m.lastgroup, m.group()))
            i = m.end()
        self.toks = toks
        self.i = 0
        self.run()
        del self.toks

    def peek(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else ("eof", "")

    def nextdef(self):
        """does a definition start at the current token?"""
        t = self.peek()
        return t[0] == "eof" or t[0] == "pct" or (t[0] == "name" and self.peek(1)[1] == ":")

    def run(self):
        while True:
            while self.peek()[0] == "nl":
                self.i += 1
            t = self.peek()
            if t[0] == "eof":
                return
            if t[0] == "pct":
                line = []
                while self.peek()[0] not in ("nl", "eof"):
                    line.append(self.peek()[1])
                    self.i += 1
                if line[0] == "%import":
                    self.imports[line[-1]] = "".join(line[1:]).split("->")[0]
                elif line[0] == "%ignore":
                    self.ignore.append("".join(line[1:]))
                continue
            if t[0] != "name" or self.peek(1)[1] != ":":
                raise GrammarError("unexpected %r in the grammar" % t[1])
            name = t[1]
            self.i += 2
            alts = self.alts(top=True)
            m = re.match(r"[?!]*", name).group()
            nm = name[len(m):].split(".")[0]
            if nm.lstrip("_")[:1].isupper():
                self.terms[nm] = alts
            else:
                self.rules[nm] = (m, alts)

    def skipnl(self, top):
        """newlines continue a definition only before '|'"""
        j = 0
        while self.peek(j)[0] == "nl":
            j += 1
        if not top:
            self.i += j
        elif j and self.peek(j)[1] == "|":
            self.i += j

    def alts(self, top=False, end=None):
        out = []
        while True:
            seq = []
            alias = None
            while True:
                self.skipnl(top)
                t = self.peek()
                if t[0] in ("nl", "eof") or t[1] in ("|", ")", "]"):
                    break
                if t[0] == "arrow":
                    alias = self.peek(1)[1]
                    self.i += 2
                    continue
                seq.append(self.item())
            out.append((seq, alias))
            if self.peek()[1] == "|":
                self.i += 1
                self.skipnl(False) if not top else None
                while top and self.peek()[0] == "nl":
                    self.i += 1
                continue
            return out

    def item(self):
        k, t = self.peek()
        self.i += 1
        if k == "str":
            ci = t.endswith("i")
            body = t[1:-2] if ci else t[1:-1]
            it = ("lit", body, ci)
        elif k == "re":
            j = t.rindex("/")
            it = ("re", t[1:j], t[j + 1:])
        elif k == "name":
            it = ("sym", t)
        elif t == "(":
            a = self.alts()
            self.i += 1
            it = ("grp", a)
        elif t == "[":
            a = self.alts()
            self.i += 1
            it = ("rep", ("grp", a), 0, 1)
        else:
            raise GrammarError("unexpected %r in the grammar" % t)
        while True:
            o = self.peek()[1]
            if o == "*":
                it = ("rep", it, 0, None)
            elif o == "+":
                it = ("rep", it, 1, None)
            elif o == "?":
                it = ("rep", it, 0, 1)
            elif o == "~":
                n = self.peek(1)[1].split("..")
                it = ("rep", it, int(n[0]), int(n[-1]))
                self.i += 1
            else:
                return it
            self.i += 1

    # child sequences of a rule: list of (tuple of symbols, open) -- open: unknown repetition
    def children(self, rule):
        mods, alts = self.rules[rule]
        out = []
        for seq, alias in alts:
            for c in self.seqs(seq, "!" in mods):
                out.append((c[0], c[1], alias))
        return out

    def seqs(self, seq, keep):
        cur = [((), False)]
        for it in seq:
            opts = self.opts(it, keep)
            cur = [(a + b, x or y) for a, x in cur for b, y in opts]
            if len(cur) > 64:
                raise GrammarError("too many alternatives")
        return cur

    def opts(self, it, keep):
        if it[0] == "sym":
            n = it[1]
            if n.startswith("_") and n.lstrip("_")[:1].isupper() and not keep:
                return [((), False)]
            return [((n,), False)]
        if it[0] in ("lit", "re"):
            return [(("$anon",), False)] if keep or it[0] == "re" else [((), False)]
        if it[0] == "grp":
            return [c for seq, _ in it[1] for c in self.seqs(seq, keep)]
        _, x, lo, hi = it
        inner = self.opts(x, keep)
        if lo == 0 and hi == 1:
            return [((), False)] + inner
        syms = tuple(sorted({s for c, _ in inner for s in c}))
        return [(syms, True)]


def get_grammar(v):
    g = grammar_text(v)
    if g is None:
        return None
    try:
        return Grammar(*g)
    except (GrammarError, ValueError, IndexError):
        return None


def parse(lib, st, a, args, kw, node):
    I = lib.I
    o = st.get(a[1])
    if I.cfg.numeric == "zone" and not I.loading:
        return zparse(lib, st, o, args, kw, node)
    L = args[0].l | o.f["grammar"].l
    s2 = st.copy()
    for nm in ("UnexpectedCharacters", "UnexpectedEOF"):
        s3 = s2.copy()
        cls = lib.exc_class(nm)
        oid = I.alloc(s3, node, Obj(cls, {"args": VTOP, "pos_in_stream": vint(Itv(-1, None), L)}), key="exc:" + nm)
        I.raise_v(s3, mk(("o", oid), l=L), node)
    h = I.hooks.get("parse")
    if h:
        h(st, o, args, node)
    oid = I.alloc(st, node, Obj("tree", {"grammar": o.f["grammar"], "text": args[0]}), key="tree")
    return [(st, mk(("o", oid), l=L))]


def token(lib, st, node, L, key):
    cls = lib.exc_class("Token")
    oid = lib.I.alloc(st, node, Obj(cls, {
        "start_pos": vint(Itv(0, None), L), "end_pos": vint(Itv(0, None), L), "pos_in_stream": vint(Itv(0, None), L),
        "line": vint(Itv(0, None), L), "column": vint(Itv(0, None), L), "end_line": vint(Itv(0, None), L),
        "end_column": vint(Itv(0, None), L), "type": V(VSTR.a, L), "value": V(VSTR.a, L)}, x=("token", key)), key="tok:" + key)
    return mk(("o", oid), l=L)


def meta(lib, st, node, L, key):
    oid = lib.I.alloc(st, node, Obj(lib.object_cls, {
        k: vint(Itv(0, None), L) for k in ("start_pos", "end_pos", "line", "column", "end_line", "end_column")}
        | {"empty": VFALSE}), key="meta:" + key)
    return mk(("o", oid), l=L)


def transform(lib, st, a, args, kw, node):
    """a: the transformer instance; args[0]: the tree"""
    I = lib.I
    out = []
    for ta in args[0].a:
        o = st.get(ta[1]) if ta[0] == "o" else None
        if o is not None and o.cls == "tree" and isinstance(o.x, tuple) and o.x[0] == "ztree":
            out.extend(ztransform(lib, st, a, o.x[1], node))
            continue
        if o is None or o.cls != "tree":
            out.append((st, V(VTOP.a, args[0].l)))
            continue
        out.extend(_transform(lib, st, a, o, args[0].l, node))
    return I.merge_rv(out)


def find_callback(lib, st, a, cls, name):
    I = lib.I
    v, owner = I.cls_attr(st, cls, name)
    if v is None:
        return None
    x = v.one()
    if x is None:
        return None
    mode = st.get(cls).f.get("$vargs")
    for c in I.mro(cls):
        m = st.get(c).f.get("$vargs")
        if m is not None:
            mode = m
            break
    mode = mode.one()[1][0] if mode is not None and mode.one()[1] else "plain"
    if x[0] == "vargs":
        mode, x = x[1], x[2]
    if x[0] == "sm":
        return mode, x[1], None
    if x[0] == "fn":
        return mode, ("bm", x, a, owner), owner
    return None


def _transform(lib, st, a, tree, L, node):
    I = lib.I
    g = get_grammar(tree.f["grammar"])
    if g is None:
        return [(st, V(VTOP.a, L))]
    cls = st.get(a[1]).cls
    vals = {}
    raised = []
    KEY = (I.fid, "$lk", I.site(node))

    def callback(name):
        return find_callback(lib, st, a, cls, name)

    def collect(n0):
        for item in I.sink[n0:]:
            raised.append(item)
        del I.sink[n0:]

    head = st
    syms = list(g.terms) + list(g.imports)
    for rnd in range(40):
        before = dict(vals)
        cur = head.copy()
        for k, v in vals.items():
            cur.env[(I.fid, "$lv", k)] = v
        outs = [cur]
        raised.clear()

        def setval(s, k, v):
            s.env[(I.fid, "$lv", k)] = vjoin(s.env.get((I.fid, "$lv", k), BOT), v)

        def val(s, k):
            return s.env.get((I.fid, "$lv", k), BOT)
        # terminals
        for t in sorted(set(syms)):
            cb = callback(t)
            nx = []
            for s in outs:
                tk = token(lib, s, node, L, t)
                if cb is None:
                    setval(s, t, tk)
                    nx.append(s)
                    continue
                keep = s.copy()
                n0 = len(I.sink)
                for s2, v in I.call_a(s, cb[1], [tk], {}, node):
                    setval(s2, t, v)
                    nx.append(s2)
                collect(n0)
                nx.append(keep)
            outs = I.merge(nx, 1)
        for r in sorted(g.rules):
            mods = g.rules[r][0]
            try:
                chs = g.children(r)
            except GrammarError:
                return [(st, V(VTOP.a, L))]
            for syml, opn, alias in chs:
                nx = []
                for s in outs:
                    missing = any(not val(s, x).a for x in syml if x != "$anon")
                    if opn:
                        vs = [val(s, x) if x != "$anon" else token(lib, s, node, L, "anon") for x in syml]
                        vs = [v for v in vs if v.a]
                        if not vs:
                            nx.append(s)
                            continue
                    elif missing:
                        nx.append(s)
                        continue
                    else:
                        vs = [val(s, x) if x != "$anon" else token(lib, s, node, L, "anon") for x in syml]
                    # inlined rules
                    if "?" in mods and not alias and len(syml) == 1 and not opn:
                        setval(s, r, vs[0])
                        nx.append(s)
                        continue
                    name = alias or r
                    if r.startswith("_"):
                        for v in vs:
                            setval(s, r, v)
                        nx.append(s)
                        continue
                    cb = callback(name)
                    keep = s.copy()
                    if opn:
                        ob = Obj("list", elem=vjoin_all(vs), ln=vint(Itv(0, None)))
                    else:
                        ob = Obj("list", items=tuple(vs))
                    lv = mk(("o", I.alloc(s, node, ob, key="ch:" + r)), l=L)
                    if cb is None:
                        oid = I.alloc(s, node, Obj("tree", {"children": lv, "grammar": tree.f["grammar"], "text": tree.f["text"]}), key="sub:" + r)
                        setval(s, r, mk(("o", oid), l=L))
                        nx.append(s)
                        continue
                    mode = cb[0]
                    if mode == "meta":
                        ar = [meta(lib, s, node, L, r), lv]
                    elif mode == "inline":
                        ar = list(vs)
                    elif mode == "tree":
                        ar = [VTOP]
                    else:
                        ar = [lv]
                    n0 = len(I.sink)
                    for s2, v in I.call_a(s, cb[1], ar, {}, node):
                        setval(s2, r, v)
                        nx.append(s2)
                    collect(n0)
                    nx.append(keep)
                outs = I.merge(nx, 1)
        if not outs:
            break
        fin = outs[0]
        nv = {}
        for k in [k for k in fin.env if k[0] == I.fid and len(k) == 3 and k[1] == "$lv"]:
            nv[k[2]] = fin.env.pop(k)
        new = join_state(head, fin, widen=rnd >= 2)
        new.pc = head.pc
        stable = new.same(head) and nv == before
        vals = nv
        head = new
        if stable:
            break
    else:
        from .ai import Incomplete
        raise Incomplete("transformer fixpoint")
    vcls = lib.exc_class("VisitError")
    for s, ev, nd, fn in raised:
        for k in [k for k in s.env if k[0] == I.fid and len(k) == 3 and k[1] == "$lv"]:
            del s.env[k]
        # only Exception subclasses are wrapped
        oid = I.alloc(s, node, Obj(vcls, {"orig_exc": ev, "args": VTOP}, x=("wrap", nd, fn)), key="exc:VisitError:%s" % (I.site(nd),))
        I.sink.append((s, mk(("o", oid), l=ev.l), nd, fn))
    rv = vals.get("start", V(VTOP.a, L))
    return [(head, rv.lab(L))]


# ---------------------------------------------------------------- strings of known structure
# A string of constant characters, numbers and book names is cut into cells.  A terminal matches from one cell boundary to another when it does so for every book
# name and for numbers of every length; otherwise the parse is not known.
class Unknown(Exception):
    pass


NUMREPS = ("7", "12", "150")


def cells_of(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.extend(p)
        elif p[1] == "num":
            out.append(("num", p))
        else:
            out.append(("name",) + tuple(p[1:2]) + tuple(p[3:]) + (p,))
    return out


def name_table(lib, attr, ops):
    """the names a hole stands for, by place of the book"""
    key = (attr, ops)
    t = lib.__dict__.setdefault("_ztables", {})
    if key in t:
        return t[key]
    st = lib.I.load_state
    out = []
    for oid in sorted(lib.bookidx, key=lambda o: lib.bookidx[o]):
        v = st.get(oid).f.get(attr)
        a = v.one() if v is not None else None
        if a is None or a[0] != "s" or not all(isinstance(q, str) for q in a[1]):
            raise Unknown("book names are not known")
        x = "".join(a[1])
        i = 0
        while i < len(ops):
            if ops[i] != "replace":
                raise Unknown("a changed book name")
            x = x.replace(*ops[i + 1:i + 3])
            i += 3
        out.append(x)
    t[key] = out
    return out


class ZParser:
    def __init__(self, lib, g, cells):
        self.lib, self.g, self.cells = lib, g, cells
        self.terms = {}
        for n, alts in g.terms.items():
            self.terms[n] = re.compile(self.pattern(n, ()))
        for n, src in g.imports.items():
            self.terms.setdefault(n, re.compile(self.imported(n)))
        self.ignored = [re.compile(self.pattern(n.strip(), ())) if n.strip() in g.terms else re.compile(self.imported(n.strip())) for n in g.ignore]
        self.memo, self.busy, self.mm = {}, set(), {}
        self.names = {}
        for c in cells:
            if isinstance(c, tuple) and c[0] == "name":
                self.names[c[:-1]] = name_table(lib, c[1], c[2:-1])

    COMMON = {"WS": r"(?:[ \t\f\r\n])+", "INT": r"[0-9]+", "DIGIT": r"[0-9]", "LETTER": r"[a-zA-Z]", "WORD": r"[a-zA-Z]+", "WS_INLINE": r"[ \t]+", "NEWLINE": r"(?:\r?\n)+"}

    def imported(self, n):
        if n not in self.COMMON:
            raise Unknown("terminal %s" % n)
        return self.COMMON[n]

    def pattern(self, n, seen):
        if n in seen:
            raise Unknown("recursive terminal")
        if n not in self.g.terms:
            return self.imported(n)
        return "(?:%s)" % "|".join("".join(self.tpat(it, seen + (n,)) for it in seq) for seq, _ in self.g.terms[n])

    def tpat(self, it, seen):
        k = it[0]
        if k == "lit":
            t = re.sub(r"\\(.)", r"\1", it[1])
            return "(?%s:%s)" % ("i" if it[2] else "", re.escape(t)) if it[2] else re.escape(t)
        if k == "re":
            if set(it[2]) - set("is"):
                raise Unknown("pattern flags")
            return "(?%s:%s)" % (it[2], it[1])
        if k == "sym":
            return self.pattern(it[1], seen)
        if k == "grp":
            return "(?:%s)" % "|".join("".join(self.tpat(x, seen) for x in seq) for seq, _ in it[1])
        _, x, lo, hi = it
        return "(?:%s){%d,%s}" % (self.tpat(x, seen), lo, "" if hi is None else hi)

    def reps(self, i):
        """strings the cells from i on may stand for, with the ends of the cells"""
        cells = self.cells[i:]
        first = next((c for c in cells if isinstance(c, tuple) and c[0] == "name"), None)
        firsts = range(len(self.names[first[:-1]])) if first is not None else [0]
        out = []
        for f in firsts:
            for other in (0, 61, 21) if sum(1 for c in cells if isinstance(c, tuple) and c[0] == "name") > 1 else (0,):
                for num in NUMREPS:
                    text, ends, seen = "", [0], False
                    for c in cells:
                        if not isinstance(c, tuple):
                            text += c
                        elif c[0] == "num":
                            text += num
                        else:
                            t = self.names[c[:-1]]
                            text += t[f if not seen else other % len(t)]
                            seen = True
                        ends.append(len(text))
                    out.append((text, {e: j for j, e in enumerate(ends)}))
        return out

    def match(self, rx, i):
        """cell where the longest match from cell i ends, or None"""
        key = (rx.pattern, i)
        if key in self.mm:
            return self.mm[key]
        got = set()
        if ("reps", i) not in self.mm:
            self.mm["reps", i] = self.reps(i)
        for text, ends in self.mm["reps", i]:
            m = rx.match(text)
            if not m or m.end() == 0:
                got.add(None)
            elif m.end() in ends:
                got.add(i + ends[m.end()])
            else:
                got.add("inside")
            if len(got) > 1:
                break
        r = got.pop() if len(got) == 1 else "inside"
        self.mm[key] = r
        return r

    def starts(self, i):
        """cells where a terminal may begin: after any ignored text"""
        out = [i]
        for j in out:
            if j < len(self.cells):
                for rx in self.ignored:
                    e = self.match(rx, j)
                    if e == "inside":
                        raise Unknown("ignored text within a name or number")
                    if e is not None and e not in out:
                        out.append(e)
        return out

    def terminal(self, n, rx, i):
        out = []
        for j in self.starts(i):
            if j >= len(self.cells):
                continue
            e = self.match(rx, j)
            if e == "inside":
                self.unclear = True
                continue
            if e is not None:
                out.append((("tok", n, j, e), e))
        return out

    def rule(self, r, i):
        """[(children or inlined child, end)]"""
        key = (r, i)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            raise Unknown("left-recursive grammar")
        self.busy.add(key)
        mods, alts = self.g.rules[r]
        out = []
        for seq, alias in alts:
            for kids, e in self.seq(seq, i, "!" in mods):
                if "?" in mods and not alias and len(kids) == 1:
                    t = kids
                elif r.startswith("_"):
                    t = kids
                else:
                    t = (("node", alias or r, kids),)
                if (t, e) not in out:
                    out.append((t, e))
        self.busy.discard(key)
        if len(out) > 400:
            raise Unknown("too many parses")
        self.memo[key] = out
        return out

    def seq(self, seq, i, keep):
        cur = [((), i)]
        for it in seq:
            nx = []
            for kids, e in cur:
                for k2, e2 in self.item(it, e, keep):
                    x = (kids + k2, e2)
                    if x not in nx:
                        nx.append(x)
            cur = nx
            if not cur:
                break
        return cur

    def item(self, it, i, keep):
        k = it[0]
        if k == "sym":
            n = it[1]
            if n.lstrip("_")[:1].isupper():
                rx = self.terms.get(n)
                if rx is None:
                    raise Unknown("terminal %s" % n)
                return [(((t,) if keep or not n.startswith("_") else ()), e) for t, e in self.terminal(n, rx, i)]
            if n not in self.g.rules:
                raise Unknown("rule %s" % n)
            return self.rule(n, i)
        if k in ("lit", "re"):
            rx = re.compile(self.tpat(it, ()))
            return [(((t,) if keep or k == "re" else ()), e) for t, e in self.terminal("$anon", rx, i)]
        if k == "grp":
            out = []
            for seq, _ in it[1]:
                for x in self.seq(seq, i, keep):
                    if x not in out:
                        out.append(x)
            return out
        _, x, lo, hi = it
        cur, out = [((), i)], []
        n = 0
        while cur:
            if n >= lo:
                out.extend(y for y in cur if y not in out)
            if hi is not None and n >= hi:
                break
            nx = []
            for kids, e in cur:
                for k2, e2 in self.item(x, e, keep):
                    if e2 > e and (kids + k2, e2) not in nx:
                        nx.append((kids + k2, e2))
            cur = nx
            n += 1
            if n > 200:
                raise Unknown("repetition")
        return out

    def parse(self):
        self.unclear = False
        if "start" not in self.g.rules:
            raise Unknown("no start rule")
        out = []
        for t, e in self.rule("start", 0):
            if len(self.cells) in self.starts(e) and t not in out:
                out.append(t)
        if len(out) > 1 or self.unclear and not out:
            raise Unknown("the parse of the string is not known")
        return out[0] if out else None


PLAIN = {"propagate_positions", "maybe_placeholders", "keep_all_tokens_no", "ambiguity", "cache", "strict", "debug", "start"}


def zparse(lib, st, o, args, kw, node):
    I = lib.I
    text = args[0].one() if args else None
    g = get_grammar(o.f["grammar"])
    try:
        if text is None or text[0] != "s" or g is None or g.holes or kw or len(args) != 1:
            raise Unknown("the string or the grammar is not known")
        for k, v in o.x or ():
            if k not in PLAIN or k == "start" and "start" not in str(v) or k == "ambiguity" and "resolve" not in str(v):
                raise Unknown("parser option %s" % k)
        cells = cells_of(text[1])
        memo = lib.__dict__.setdefault("_zparses", {})
        key = (o.f["grammar"].one(), tuple(c[:-1] if isinstance(c, tuple) else c for c in cells))
        if key not in memo:
            try:
                memo[key] = ("ok", ZParser(lib, g, cells).parse())
            except Unknown as e:
                memo[key] = ("unknown", str(e))
        how, tree = memo[key]
        if how == "unknown":
            raise Unknown(tree)
    except (Unknown, re.error, GrammarError):
        st.exact = False
        s2 = st.copy()
        I.raise_named(s2, "UnexpectedCharacters", node)
        return [(st, VTOP)]
    if tree is None:
        cls = lib.exc_class("UnexpectedCharacters")
        pos = st.store.atom("pos")
        st.store.assert_le(lsub(-1, pos))
        oid = I.alloc(st, node, Obj(cls, {"args": VTOP, "pos_in_stream": vint(pos)}), key="exc:parse")
        I.raise_v(st, mk(("o", oid)), node)
        return []

    def fill(t):
        if t[0] == "tok":
            parts = []
            for c in cells[t[2]:t[3]]:
                parts.append(c[-1] if isinstance(c, tuple) else c)
            return ("tok", t[1], lib.normparts(parts))
        return ("node", t[1], tuple(fill(x) for x in t[2]))
    oid = I.alloc(st, node, Obj("tree", {"grammar": o.f["grammar"], "text": args[0]}, x=("ztree", tuple(fill(x) for x in tree))), key="ztree")
    return [(st, mk(("o", oid)))]


def ztransform(lib, st, a, trees, node):
    """callbacks bottom-up, left to right"""
    I = lib.I
    cls = st.get(a[1]).cls
    uid = [0]

    def unk(s):
        p = s.store.atom("pos")
        s.store.assert_le(lsub(0, p))
        return vint(p)

    def call(s, cb, args):
        n0 = len(I.sink)
        outs = list(I.call_a(s, cb, args, {}, node))
        vcls = lib.exc_class("VisitError")
        for s2, ev, nd, fn in I.sink[n0:]:
            oid = I.alloc(s2, node, Obj(vcls, {"orig_exc": ev, "args": VTOP}, x=("wrap", nd, fn)), key="exc:VisitError:%s" % (I.site(nd),))
            raised.append((s2, mk(("o", oid)), nd, fn))
        del I.sink[n0:]
        return outs
    raised = []

    def go(s, t):
        uid[0] += 1
        if t[0] == "tok":
            n = uid[0]
            v = token(lib, s, node, E, "%s:%d" % (t[1], n))
            o = s.get(v.one()[1])
            for f in ("start_pos", "end_pos", "pos_in_stream", "line", "column", "end_line", "end_column"):
                o = o.setf(f, unk(s))
            o = o.setf("value", mk(("s", t[2]))).setf("type", vstr(t[1]))
            s.put(v.one()[1], o)
            cb = find_callback(lib, s, a, cls, t[1])
            return [(s, v)] if cb is None else call(s, cb[1], [v])
        outs = [(s, ())]
        for x in t[2]:
            nx = []
            u0 = uid[0]
            um = u0
            for s1, vs in outs:
                uid[0] = u0
                nx.extend((s2, vs + (v,)) for s2, v in go(s1, x))
                um = max(um, uid[0])
            uid[0] = um
            outs = nx
        res = []
        for s1, vs in outs:
            cb = find_callback(lib, s1, a, cls, t[1])
            lv = mk(("o", I.alloc(s1, node, Obj("list", items=vs), key="zch:%d" % uid[0])))
            if cb is None:
                s1.exact = False
                res.append((s1, VTOP))
                continue
            m = None
            if cb[0] == "meta":
                m = mk(("o", I.alloc(s1, node, Obj(lib.object_cls, {k: unk(s1) for k in ("start_pos", "end_pos", "line", "column", "end_line", "end_column")} | {"empty": VFALSE}),
                                     key="zmeta:%d" % uid[0])))
                ar = [m, lv]
            elif cb[0] == "inline":
                ar = list(vs)
            elif cb[0] == "plain":
                ar = [lv]
            else:
                s1.exact = False
                res.append((s1, VTOP))
                continue
            res.extend(call(s1, cb[1], ar))
        return res
    if len(trees) != 1:
        st.exact = False
        return [(st, VTOP)]
    outs = go(st, trees[0])
    I.sink.extend(raised)
    return outs
