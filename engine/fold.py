"""Chain segments: folding, unfolding, canonical forms, ghost words."""
from dom import *

ABS = ("absent",)


# ------------------------------------------------------------ sequences
def has_absent(I, S, r):
    sig = S
    return any(v["roles"][r] == ABS for v in I.sigs[sig])


def len_sym(I, st, S, r):
    sig = st.seg[S][0]
    if has_absent(I, sig, r):
        return ("len", S, r)
    return ("len", S, "*")


def seq_len(I, st, v):
    n = L(0)
    for p in v[2]:
        if p[0] == "el":
            n = lin_c(n, 1)
        elif p[0] == "rng":
            n = lin_add(n, p[2])
        else:
            n = lin_add(n, lin_sym(len_sym(I, st, p[1], p[2])))
    return n


def seq_at(I, st, v, ix):
    """Cell of the element at (symbolic) index ix, or None when ix is provably
    outside; may split."""
    if ix[0] != "L":
        raise Unmodelled("index %s" % ix[0])
    # from the front
    pos = L(0)
    for p in v[2]:
        if p[0] == "el":
            d = lin_add(ix, pos, -1)
            e = st.decide_eq0(d)
            if e is True:
                return p[1]
            if e is None:
                # cannot decide: try a split
                I.split_cmp(d, "eq")
            pos = lin_c(pos, 1)
        else:
            S, r = p[1], p[2]
            nxt = lin_add(pos, lin_sym(len_sym(I, st, S, r)))
            d = lin_add(ix, nxt, -1)      # ix - nxt >= 0 : beyond the segment
            g = st.decide_ge0(d)
            if g is True:
                pos = nxt
                continue
            # the element is inside the segment (or undecided): unfold
            if d == L(-1):
                raise Split(unfold_back(I, S))
            if lin_add(ix, pos, -1) == L(0):
                raise Split(unfold_front(I, S))
            raise Split(unfold_back(I, S))
    d = lin_add(ix, pos, -1)
    if st.decide_ge0(d) is True:
        return None
    raise Unmodelled("index below zero")


def replace_seg(st, S, fn):
    """fn(role) -> list of parts replacing ('seg', S, role) in sequences."""
    def f(v):
        if v and v[0] == "seq":
            if any(p[0] == "seg" and p[1] == S for p in v[2]):
                parts = []
                for p in v[2]:
                    if p[0] == "seg" and p[1] == S:
                        parts.extend(fn(p[2]))
                    else:
                        parts.append(p)
                return ("seq", v[1], tuple(parts))
            return v
        return None
    for k, v in list(st.mem.items()):
        st.mem[k] = rewrite(v, f)
    st.g = {k: rewrite(v, f) for k, v in st.g.items()}


def replace_len(st, S, val):
    """val(role) -> Lin"""
    def f(v):
        if v and v[0] == "L":
            out = None
            for s, c in v[2]:
                if type(s) is tuple and s[0] == "len" and s[1] == S:
                    if out is None:
                        out = v
                    base = ("L", out[1], tuple(t for t in out[2] if t[0] != s))
                    out = lin_add(base, val(s[2]), c)
            return out if out is not None else v
        return None
    st.subst(f)


def word_replace(W, fn):
    if W is None:
        return None
    out = []
    for t in W:
        if t[0] == "B":
            items = []
            for x in t[1]:
                r = fn(x)
                items.extend([x] if r is None else r)
            out.append(("B", tuple(items)) + t[2:])
        else:
            r = fn(t)
            out.extend([t] if r is None else r)
    return tuple(out)


def inst(pat, m, j):
    """Instantiate a pattern for node m and index j (Lin)."""
    def f(v):
        if v == ("hole",):
            return m
        if v and v[0] == "jL":
            return lin_c(j, v[1])
        if v and v[0] == "L":
            return v
        return None
    return rewrite(pat, f)


def leafproj_tokens(toks):
    out = []
    for t in toks:
        if t[0] == "V":
            out.append(("LV", t[1]))
        else:
            out.append(t)
    return tuple(out)


def _unfold(I, S, back):
    sig = None

    def empty(st):
        _, linked, base = st.seg[S]
        replace_seg(st, S, lambda r: [])
        replace_len(st, S, lambda r: L(0))
        st.W = word_replace(st.W, lambda t: [] if t[0] in ("A", "Q") and t[1] == S else None)
        for x, l in list(st.link.items()):
            if l == ("under", S):
                st.subst_node(x, base)
        st.seg.pop(S, None)
        return True

    def variant(i):
        def f(st):
            sig, linked, base = st.seg[S]
            if i >= len(I.sigs[sig]):
                return False
            v = I.sigs[sig][i]
            m = ("nd", fresh("n"))
            S2 = fresh("S")
            lnk = linked and back
            st.seg[S2] = (sig, lnk, base)
            if lnk:
                st.link[m] = ("under", S2)
            if v["lb"] is None:
                j = None
            elif v["sym"]:
                s = fresh("j")
                st.lb[s] = v["lb"]
                j = lin_sym(s)
            else:
                j = L(v["lb"])
            if any(l == ("under", S) for l in st.link.values()):
                if lnk and j is not None:
                    for x, l in list(st.link.items()):
                        if l == ("under", S):
                            st.subst_node(x, ("ch", m, lin_c(j, v["koff"])))
                else:
                    for x, l in list(st.link.items()):
                        if l == ("under", S):
                            st.link.pop(x)
            cells = {}

            def parts(r):
                pat = v["roles"][r]
                if pat == ABS:
                    new = []
                else:
                    new = [("el", st.new_cell(inst(pat, m, j)))]
                seg = [("seg", S2, r)]
                return seg + new if back else new + seg
            replace_seg(st, S, parts)
            replace_len(st, S, lambda r: lin_c(lin_sym(("len", S2, r)), 0 if r != "*" and v["roles"][r] == ABS else 1))

            def w(t):
                if t[0] == "A" and t[1] == S:
                    ch = inst(v["word"], m, j)
                    if t[2]:
                        ch = leafproj_tokens(ch)
                    return (list(ch) + [("A", S2, t[2])]) if back else ([("A", S2, t[2])] + list(ch))
                if t[0] == "Q" and t[1] == S:
                    ch = list(inst(v["word"], m, j))
                    return ([("Q", S2)] + ch) if back else (ch + [("Q", S2)])
                return None
            st.W = word_replace(st.W, w)
            for (slot, val) in v["facts"]:
                st.facts[(m, inst(slot, m, j))] = val
            if v["lb"] is not None and v["sym"] and v["lb"] >= 1 and not I.slots:
                st.facts[(m, L(0))] = True
            st.exp = st.exp | {m}
            st.seg.pop(S, None)
            return True
        return f
    return empty, variant


def unfold(I, S, back):
    empty, variant = _unfold(I, S, back)
    # the number of variants is read when the refinement is applied
    n = max([len(v) for v in I.sigs.values()] + [0])
    return [empty] + [variant(i) for i in range(n)]


def unfold_back(I, S):
    return unfold(I, S, True)


def unfold_front(I, S):
    return unfold(I, S, False)


# ------------------------------------------------------------ ghost words
def normalise(I, st):
    if st.W is None:
        return
    W = st.W
    for _ in range(200):
        new = []
        ch = False
        for t in W:
            r = norm_token(I, st, t)
            if r is None:
                new.append(t)
            else:
                new.extend(r)
                ch = True
        W = tuple(new)
        if not ch:
            break
    st.W = W


def is_slots(I, n):
    return I.slots and not is_coll(n)


def node_depth(n):
    d = 0
    while n[0] == "ch":
        d += 1
        n = n[1]
    return d


def is_coll(n):
    return n[0] == "coll"


def fk(st, n, j):
    return st.facts.get((n, j))


def kids_word(I, n):
    if is_slots(I, n):
        return [("O", n, 0), ("O", n, 1)]
    return [("F", n, L(0))]


def leafness(I, st, n):
    """True: leaf, False: inner, None: unknown"""
    if is_slots(I, n):
        a, b = fk(st, n, L(0)), fk(st, n, L(1))
        if a or b:
            return False
        if a is False and b is False:
            return True
        return None
    a = fk(st, n, L(0))
    return None if a is None else not a


def norm_token(I, st, t):
    k = t[0]
    mode = I.mode
    if k == "T":
        n = t[1]
        m = t[2] if len(t) > 2 else mode
        if m == "leaf" or m == "bleaf":
            lf = leafness(I, st, n)
            if lf is None:
                return None
            if lf:
                return [("V", n)]
            if m == "bleaf":
                return [("B", tuple(kids_word(I, n)))]
            return kids_word(I, n)
        if n not in st.exp:
            return None
        if m == "pre":
            return [("V", n)] + kids_word(I, n)
        if m == "post":
            return kids_word(I, n) + [("V", n)]
        if m == "in":
            return [("O", n, 0), ("V", n), ("O", n, 1)]
        if m == "bfs":
            return [("V", n), ("B", tuple(kids_word(I, n)))]
        raise Unmodelled("mode " + m)
    if k == "F":
        f = fk(st, t[1], t[2])
        if f is None:
            return None
        if f:
            return [("T", ("ch", t[1], t[2])), ("F", t[1], lin_c(t[2], 1))]
        return []
    if k == "O":
        f = fk(st, t[1], L(t[2]))
        if f is None:
            return None
        return [("T", ("ch", t[1], L(t[2])))] if f else []
    if k == "LV":
        lf = leafness(I, st, t[1])
        if lf is None:
            return None
        return [("V", t[1])] if lf else []
    if k == "B":
        items = t[1]
        if not items:
            return []
        h = items[0]
        if h[0] == "F":
            f = fk(st, h[1], h[2])
            if f is None:
                return None
            if not f:
                return [("B", items[1:])]
            c = ("ch", h[1], h[2])
            rest = (("F", h[1], lin_c(h[2], 1)),) + items[1:]
        elif h[0] == "O":
            f = fk(st, h[1], L(h[2]))
            if f is None:
                return None
            if not f:
                return [("B", items[1:])]
            c = ("ch", h[1], L(h[2]))
            rest = items[1:]
        else:
            return None
        head = ("LV", c) if mode == "bleaf" else ("V", c)
        return [head, ("B", rest + tuple(kids_word(I, c)))]
    return None


# ------------------------------------------------------------ reachability
class Walk:
    """Traversal of the reachable state in a fixed order, producing a
    canonical form."""

    def __init__(self, I, st):
        self.I = I
        self.st = st
        self.cells = {}
        self.ren = {}
        self.order = []       # (cell id) visit order
        self.held = set()     # cells targeted by references
        self.pending = []
        self.seqs = []        # (label, cid, path, seqvalue)
        self.label = []

    def name(self, kind, x):
        k = (kind, x)
        r = self.ren.get(k)
        if r is None:
            r = len(self.ren)
            self.ren[k] = r
            if kind == "n":
                l = self.st.link.get(("nd", x))
                if l is not None:
                    self.pending.append(("link", ("nd", x), l))
            elif kind == "S":
                self.pending.append(("seg", x, self.st.seg.get(x)))
            elif kind == "s":
                self.pending.append(("lb", x, self.st.lb.get(x)))
        return r

    def cell(self, cid):
        r = self.cells.get(cid)
        if r is not None:
            return ("c", r)
        r = len(self.cells)
        self.cells[cid] = r
        self.label.append(None)
        v = self.val(self.st.mem.get(cid, ("undef",)), (cid, ()))
        return ("c", r, v)

    def val(self, v, loc=None):
        if type(v) is not tuple:
            return v
        if not v:
            return v
        t = v[0]
        if t == "L":
            if not v[2]:
                return v
            out = []
            for s, c in v[2]:
                if type(s) is tuple:
                    out.append((("len", self.name("S", s[1]), s[2]), c))
                else:
                    out.append((self.name("s", s), c))
            return ("L", v[1], tuple(out))
        if t == "nd":
            return ("nd", self.name("n", v[1]))
        if t == "ref":
            self.held.add(v[1])
            return ("ref", self.cell(v[1]), v[2])
        if t == "box":
            return ("box", self.cell(v[1]))
        if t == "el":
            return ("el", self.cell(v[1]))
        if t == "seg":
            return ("seg", self.name("S", v[1]), v[2])
        if t == "seq":
            if loc is not None:
                self.seqs.append((loc[0], loc[1], v))
            return ("seq", v[1], tuple(self.val(p) for p in v[2]))
        if t == "A":
            return ("A", self.name("S", v[1]), v[2])
        if t == "Q":
            return ("Q", self.name("S", v[1]))
        if t == "agg" and loc is not None:
            return ("agg", v[1], v[2], tuple(self.val(x, (loc[0], loc[1] + (i,))) for i, x in enumerate(v[3])))
        return tuple(self.val(x) if type(x) is tuple else x for x in v)

    def run(self):
        st = self.st
        out = []
        nfr = len(st.frames)
        for i, fr in enumerate(st.frames):
            fr.body.analyse()
            if i == nfr - 1:
                live = fr.body.live_in[fr.bb] if fr.si == 0 else None
            else:
                nxt = st.frames[i + 1]
                live = fr.body.live_in[nxt.ret] if nxt.ret is not None else set(fr.loc)
            items = []
            for l in sorted(fr.loc):
                if live is None or l in live:
                    items.append((l, self.cell(fr.loc[l])))
            d = fr.dest
            if d is None:
                dk = None
            elif i > 0:
                loc = [l for l, c in st.frames[i - 1].loc.items() if c == d[0]]
                if loc and not d[1]:
                    dk = ("l", loc[0])
                else:
                    dk = ("p", self.cell(d[0]), d[1])
            else:
                dk = "root"
            out.append((fr.body.key, fr.bb, fr.ret, tuple(items), dk, fr.tag))
        roots = []
        for k in sorted(st.g):
            roots.append((k, self.val(st.g[k])))
        w = self.val(st.W) if st.W is not None else None
        ev = self.val(st.ev)
        out.append((tuple(roots), w, ev))
        extra = []
        while self.pending:
            kind, x, d = self.pending.pop(0)
            if kind == "link":
                extra.append(("link", self.val(x), self.name("S", d[1])))
            elif kind == "seg":
                if d is None:
                    extra.append(("seg?", self.name("S", x)))
                else:
                    extra.append(("seg", self.name("S", x), repr(d[0]), d[1], self.val(d[2])))
            else:
                extra.append(("lb", self.ren[("s", x)], d))
        out.append(tuple(extra))
        return out


def _atoms(v, acc):
    if type(v) is tuple and v:
        if v[0] in ("nd", "coll"):
            acc.add(v)
            return
        for x in v:
            if type(x) is tuple:
                _atoms(x, acc)


def relevant_facts(I, st, w):
    """Facts that can still influence something reachable."""
    its = set()
    wn = set()

    def scan(v):
        if type(v) is not tuple or not v:
            return
        if v[0] == "it":
            its.add((v[1], v[2]))
        elif v[0] == "okid":
            its.add((v[1], L(v[2])))
        elif v[0] in ("T", "LV", "V", "F", "O"):
            wn.add(v[1])
        for x in v:
            if type(x) is tuple:
                scan(x)
    for c in w.cells:
        scan(st.mem.get(c))
    if st.W is not None:
        scan(st.W)
    for v in st.g.values():
        scan(v)
    keep = {}
    for (n, j), val in st.facts.items():
        if (n, j) in its:
            keep[(n, j)] = val
        elif n in wn and st.W is not None:
            # (n, 0)-style facts decide leaf-ness of pending nodes
            if any(t[0] in ("T", "LV") and t[1] == n for t in st.W) or \
               (I.mode in ("post",) and any(t[0] == "V" and t[1] == n for t in st.W) and j == L(0)) or \
               (I.slots and I.mode in ("post", "in") and any(t[0] == "V" and t[1] == n for t in st.W)) or \
               any(t[0] == "B" and any(x[1] == n and x[0] in ("F", "O") and x[2] == (j if x[0] == "F" else j[1]) for x in t[1]) for t in st.W):
                keep[(n, j)] = val
    return keep


def gc(I, st):
    w = Walk(I, st)
    w.run()
    st.mem = {c: st.mem[c] for c in w.cells if c in st.mem}
    st.facts = relevant_facts(I, st, w)
    nodes = set()
    reach = set()

    def scan(v):
        if type(v) is not tuple or not v:
            return
        if v[0] == "node":
            reach.add(v[1])
        for x in v:
            if type(x) is tuple:
                scan(x)
    for c in st.mem.values():
        scan(c)
    st.exp = frozenset(n for n in st.exp if n in reach)
    st.lb = {s: b for s, b in st.lb.items() if ("s", s) in w.ren}
    st.link = {n: l for n, l in st.link.items() if ("n", n[1]) in w.ren}
    st.seg = {s: d for s, d in st.seg.items() if ("S", s) in w.ren}
    used = w.ren
    st.ineq = tuple(q for q in st.ineq if all((("s", s) in used) if type(s) is str else (("S", s[1]) in used) for s, c in q[2]))
    if st.bools:
        txt = set()

        def scan2(v):
            if type(v) is tuple:
                txt.add(v)
                for x in v:
                    scan2(x)
        for c in st.mem.values():
            scan2(c)
        st.bools = {b: v for b, v in st.bools.items() if b in txt}


def canon(I, st):
    w = Walk(I, st)
    out = w.run()
    facts = []
    for (n, j), val in relevant_facts(I, st, w).items():
        facts.append(repr((w.val(n), w.val(j), val)))
    exp = []
    for n in st.exp:
        a = set()
        _atoms(n, a)
        if all(("n", x[1]) in w.ren for x in a if x[0] == "nd"):
            exp.append(repr(w.val(n)))
    iq = sorted(repr(w.val(q)) for q in st.ineq)
    bl = sorted(repr((w.val(b), v)) for b, v in st.bools.items())
    return (tuple(map(repr, out)), tuple(sorted(facts)), tuple(sorted(exp)), tuple(iq), tuple(bl))


# ------------------------------------------------------------ folding
def main_node(st, v):
    """The node whose children the element iterates, and whether the element
    is iterator-like."""
    found = []

    def scan(x):
        if type(x) is not tuple or not x:
            return
        if x[0] == "it":
            if not is_coll(x[1]):
                found.append((0, x[1], x[2]))
            return
        if x[0] == "arrit":
            if x[1] is not None:
                found.append((0, x[1], L(x[2])))
                return
        if x[0] == "okid":
            found.append((1, x[1], L(x[2])))
            return
        if x[0] == "kids":
            found.append((2, x[1], None))
            return
        if x[0] == "val":
            found.append((3, x[1], None))
            return
        for y in x:
            if type(y) is tuple:
                scan(y)
    scan(v)
    if not found:
        return None
    found.sort(key=lambda f: f[0])
    return found[0]


def generalise(I, st):
    """Replace constant positions >= 1 of explicit list iterators by symbols."""
    w = Walk(I, st)
    w.run()
    todo = []
    for c in w.cells:
        def scan(x, c=c):
            if type(x) is not tuple or not x:
                return
            if x[0] == "it" and is_const(x[2]) and x[2][1] >= 1:
                todo.append((x[1], x[2][1]))
                return
            for y in x:
                if type(y) is tuple:
                    scan(y)
        scan(st.mem[c])
    for (n, k) in dict.fromkeys(todo):
        s = fresh("g")
        st.lb[s] = 1
        J = lin_sym(s)
        # integers aligned with the iterator
        seqpos = {}
        for (cid, path, sv) in w.seqs:
            explicit = []
            for p in reversed(sv[2]):
                if p[0] != "el":
                    break
                explicit.append(p[1])
            for d, e in enumerate(explicit):
                mn = main_node(st, st.mem[e])
                if mn is not None and mn[0] == 0 and mn[1] == n:
                    seqpos.setdefault("d", d)
        retarget = set()
        if "d" in seqpos:
            for (cid, path, sv) in w.seqs:
                ex = []
                for p in reversed(sv[2]):
                    if p[0] != "el":
                        break
                    ex.append(p[1])
                if len(ex) > seqpos["d"]:
                    e = ex[seqpos["d"]]
                    if st.mem[e][0] == "L" and is_const(st.mem[e]):
                        retarget.add(e)
        elif is_coll(n):
            # the first integer of a path that starts at the collection
            for (cid, path, sv) in w.seqs:
                if sv[2] and sv[2][0][0] == "el":
                    e = sv[2][0][1]
                    if st.mem[e][0] == "L" and st.mem[e] == L(k - 1):
                        retarget.add(e)
        for e in retarget:
            st.mem[e] = lin_c(J, st.mem[e][1] - k)

        def f(v):
            if v and v[0] == "it" and v[1] == n and v[2] == L(k):
                return ("it", n, J) + v[3:]
            if v and v[0] == "ch" and v[1] == n and is_const(v[2]):
                if v[2][1] == k - 1:
                    return ("ch", n, lin_c(J, -1))
            if v and v[0] == "F" and v[1] == n and is_const(v[2]):
                return ("F", n, lin_c(J, v[2][1] - k))
            return None

        def fa(v):
            r = f(v)
            if r is not None:
                return r
            # adapters that count along with the iterator (Enumerate)
            if v and v[0] == "agg" and len(v[3]) >= 2:
                if mentions_direct_it(v[3], n, L(k)):
                    fs = []
                    for x in v[3]:
                        if type(x) is tuple and x and x[0] == "L" and is_const(x) and x[1] in (k, k - 1) \
                                and (v[1].endswith("Enumerate") or is_coll(n) and ("it", n, L(k)) in v[3]):
                            fs.append(lin_c(J, x[1] - k))
                        else:
                            fs.append(rewrite(x, fa))
                    return ("agg", v[1], v[2], tuple(fs))
            return None
        st.subst(fa)
        # facts about positions of this iterator
        nf = {}
        for (m, j), val in st.facts.items():
            if m == n and is_const(j):
                j = lin_c(J, j[1] - k) if j[1] != 0 else j
            nf[(m, j)] = val
        st.facts = nf


def mentions_direct_it(fs, n, k):
    def scan(x):
        if type(x) is not tuple or not x:
            return False
        if x[0] == "it":
            return x[1] == n and x[2] == k
        return any(scan(y) for y in x if type(y) is tuple)
    return any(scan(x) for x in fs)


def materialise(I, st):
    def known(v):
        if v and v[0] == "okid":
            f = st.facts.get((v[1], L(v[2])))
            if f is None:
                return v
            return some(("node", ("ch", v[1], L(v[2])))) if f else NONE
        return None
    if I.keep:
        # values held by locals; those inside frames stay symbolic
        for fr in st.frames:
            for c in fr.loc.values():
                v = st.mem.get(c)
                if v and v[0] == "okid":
                    st.mem[c] = rewrite(v, known)
        return
    for c, v in list(st.mem.items()):
        st.mem[c] = rewrite(v, known)


def forget_nodes(I, st):
    """Rename every derived node c of the state to a fresh atom: its relation
    to its parent no longer matters (no path or ancestor list is tracked)."""
    w = Walk(I, st)
    w.run()
    found = []
    seen = set()

    def scan(v):
        if type(v) is not tuple or not v:
            return
        if v[0] == "ch":
            if v not in seen:
                seen.add(v)
                found.append(v)
            return
        for x in v:
            if type(x) is tuple:
                scan(x)
    for c in w.cells:
        scan(st.mem[c])
    if st.W is not None:
        scan(st.W)
    ren = {v: ("nd", fresh("n")) for v in found}
    if ren:
        st.seg = {k: (v[0], v[1], NOBASE) for k, v in st.seg.items()}
        st.subst(lambda v: ren.get(v) if v and v[0] == "ch" else None)
    st.link = {}


def abstract_arrays(I, st):
    """Arrays of resolved children are written as child slots again."""
    def low(x):
        if x[0] == "ref" and not x[2]:
            t = st.mem.get(x[1])
            if t is not None and t[0] == "node":
                return t
        return x

    def f(v):
        if v and v[0] == "agg" and v[1] == "[]" and len(v[3]) == 2:
            n = None
            xs = list(v[3])
            for i, x in enumerate(xs):
                if x[0] == "agg" and x[1] == OPT and x[2] == 1:
                    y = low(x[3][0])
                    if y[0] == "node" and y[1][0] == "ch" and y[1][2] == L(i) and st.facts.get((y[1][1], L(i))) is True:
                        n = y[1][1]
                        xs[i] = ("okid", n, i)
                elif x[0] == "okid" and x[2] == i:
                    n = x[1]
            if n is None:
                return None
            for i, x in enumerate(xs):
                if x == NONE and st.facts.get((n, L(i))) is False:
                    xs[i] = ("okid", n, i)
            return ("agg", v[1], v[2], tuple(xs))
        return None
    for c, v in list(st.mem.items()):
        st.mem[c] = rewrite(v, f)


def forget_stale(I, st):
    """A child whose parent no longer occurs on its own loses its relation to
    the parent: only leftovers of nodes that are finished look like that."""
    for _ in range(8):
        alone = set()
        chs = set()

        def scan(v):
            if type(v) is not tuple or not v:
                return
            if v[0] == "ch":
                chs.add(v)
                p = v[1]
                # positions are not occurrences
                while p[0] == "ch":
                    chs.add(p)
                    p = p[1]
                return
            if v[0] == "nd":
                alone.add(v)
                return
            for x in v:
                if type(x) is tuple:
                    scan(x)

        def scan2(v):
            # occurrences as a term of its own
            if type(v) is not tuple or not v:
                return
            if v[0] == "ch":
                alone.add(v)
                return
            for x in v:
                if type(x) is tuple:
                    scan2(x)
        w = Walk(I, st)
        w.run()
        for c in w.cells:
            scan(st.mem[c])
            scan2(st.mem[c])
        scan(st.W)
        scan2(st.W)
        for k, v in st.g.items():
            if k != "root":
                scan(v)
                scan2(v)
        for d in st.seg.values():
            scan(d[2])
            scan2(d[2])
        ren = {}
        for v in alone:
            if v[0] == "ch" and not is_coll(v[1]) and v[1] not in alone and v[1] != st.g.get("root"):
                ren[v] = ("nd", fresh("n"))
        if not ren:
            return
        st.subst(lambda v: ren.get(v) if v and v[0] == "ch" else None)


NOBASE = ("nd", "-")


def shift_syms(I, st):
    """Rename s+k to a fresh symbol where it is an iterator position."""
    for _ in range(20):
        w = Walk(I, st)
        w.run()
        todo = []

        def scan(x):
            if type(x) is not tuple or not x:
                return
            if x[0] == "it":
                J = x[2]
                if len(J[2]) == 1 and J[2][0][1] == 1 and type(J[2][0][0]) is str and J[1] != 0:
                    todo.append((J[2][0][0], J[1]))
                return
            for y in x:
                if type(y) is tuple:
                    scan(y)
        for c in w.cells:
            scan(st.mem[c])
        if not todo:
            return
        s, k = todo[0]
        lo = st.lb.pop(s, 0) + k
        g = fresh("g")
        st.lb[g] = 1 if lo >= 1 else 0
        st.subst_sym(s, L(-k, ((g, 1),)))
        if len(todo) > 1 and todo[1][0] == s:
            # two iterators share the symbol with different offsets
            return


WCONST = 4


def widen_ints(I, st):
    """Counters that are aligned with nothing are widened: a constant >= 4, or
    a symbol plus an offset where the symbol occurs nowhere else."""
    count = {}

    def scan(v):
        if type(v) is not tuple or not v:
            return
        if v[0] == "L":
            for s, c in v[2]:
                count[s] = count.get(s, 0) + 1
            return
        for x in v:
            if type(x) is tuple:
                scan(x)
    for v in st.mem.values():
        scan(v)
    scan(st.W)
    for v in st.g.values():
        scan(v)
    scan(st.ineq)
    for (n, j) in st.facts:
        scan(n)
        scan(j)

    def f(v):
        if v and v[0] == "agg" and v[1] not in ("()", "[]", OPT):
            fs = None
            for i, x in enumerate(v[3]):
                if type(x) is not tuple or not x or x[0] != "L":
                    continue
                if is_const(x) and x[1] >= WCONST or \
                        len(x[2]) == 1 and x[1] and x[2][0][1] == 1 and type(x[2][0][0]) is str and \
                        count.get(x[2][0][0]) == 1 and (st.lb.get(x[2][0][0]) or 0) + x[1] >= WCONST:
                    s = fresh("w")
                    st.lb[s] = WCONST
                    if fs is None:
                        fs = list(v[3])
                    fs[i] = lin_sym(s)
            if fs is not None:
                return rewrite2(("agg", v[1], v[2], tuple(fs)), f)
        return None
    for c, v in list(st.mem.items()):
        st.mem[c] = rewrite(v, f)


def rewrite2(v, f):
    return tuple(rewrite(x, f) if type(x) is tuple else x for x in v)


def fold(I, st):
    generalise(I, st)
    shift_syms(I, st)
    widen_ints(I, st)
    materialise(I, st)
    if not I.keep:
        forget_nodes(I, st)
    else:
        if I.slots:
            abstract_arrays(I, st)
        forget_stale(I, st)
    for _ in range(60):
        if not fold_once(I, st):
            break
    gc(I, st)


def fold_once(I, st):
    w = Walk(I, st)
    w.run()
    fifo = st.W is not None and any(t[0] == "B" for t in st.W)
    seqs = w.seqs
    els = []                    # per sequence: [(index, cell, main node)]
    for cid, path, sv in seqs:
        els.append([(i, p[1], main_node(st, st.mem.get(p[1], ("undef",))))
                    for i, p in enumerate(sv[2]) if p[0] == "el"])
    ends = set()
    cands = []
    for (cid, path, sv), tl in zip(seqs, els):
        ns = [mn[1] for i, e, mn in tl if mn is not None]
        if not ns:
            continue
        if fifo:
            if tl[0][0] == 0 and tl[0][2] is not None:
                ends.add(tl[0][2][1])        # the front of a queue stays explicit
        else:
            i, e, mn = tl[-1]
            if mn is not None and i == len(sv[2]) - 1:
                ends.add(mn[1])              # the top of a stack stays explicit
            elif mn is None and ns:
                ends.add(ns[-1])
        for n in ns:
            if n not in cands:
                cands.append(n)
    for n in cands:
        if n in ends:
            continue
        if try_fold(I, st, w, seqs, els, n, fifo):
            return True
    return merge_segs(I, st, seqs, fifo)


def merge_segs(I, st, seqs, fifo):
    """Two adjacent segments of one signature become one."""
    pairs = {}
    for cid, path, sv in seqs:
        ps = sv[2]
        for i in range(len(ps) - 1):
            if ps[i][0] == "seg" and ps[i + 1][0] == "seg" and ps[i][2] == ps[i + 1][2]:
                pairs.setdefault((ps[i][1], ps[i + 1][1]), 0)
                pairs[(ps[i][1], ps[i + 1][1])] += 1
    for (a, b), k in pairs.items():
        A, B = st.seg[a], st.seg[b]
        if A[0] != B[0] or A[1] != B[1]:
            continue
        ok = True
        for cid, path, sv in seqs:
            na = [i for i, p in enumerate(sv[2]) if p[0] == "seg" and p[1] == a]
            nb = [i for i, p in enumerate(sv[2]) if p[0] == "seg" and p[1] == b]
            if len(na) != len(nb) or len(na) > 1 or (na and nb[0] != na[0] + 1):
                ok = False
        if not ok:
            continue
        if A[1]:
            x = B[2]
            if st.link.get(x) != ("under", a):
                continue
            if sum(1 for d in st.seg.values() if d[2] == x) != 1:
                continue
            m = [0]

            def scan(v):
                if type(v) is not tuple or not v:
                    return
                if v == x:
                    m[0] += 1
                    return
                for y in v:
                    if type(y) is tuple:
                        scan(y)
            for v in st.mem.values():
                scan(v)
            scan(st.W)
            for v in st.g.values():
                scan(v)
            if m[0] or any(l == ("under", a) for n, l in st.link.items() if n != x):
                continue
        # ghost word
        W = st.W
        if W is not None:
            if fifo:
                bi = [i for i, t in enumerate(W) if t[0] == "B"]
                items = list(W[bi[0]][1])
                qa = [i for i, t in enumerate(items) if t[0] == "Q" and t[1] == a]
                if not qa or qa[0] + 1 >= len(items) or items[qa[0] + 1] != ("Q", b):
                    continue
                items[qa[0]:qa[0] + 2] = [("Q", a)]
                newW = W[:bi[0]] + (("B", tuple(items)) + W[bi[0]][2:],) + W[bi[0] + 1:]
            else:
                qb = [i for i, t in enumerate(W) if t[0] == "A" and t[1] == b]
                if not qb or qb[0] + 1 >= len(W) or W[qb[0] + 1][:2] != ("A", a) or W[qb[0] + 1][2] != W[qb[0]][2]:
                    continue
                newW = W[:qb[0]] + W[qb[0] + 1:]
        else:
            newW = None
        # lengths
        good = [True]

        def lens(v):
            if v and v[0] == "L":
                ca = {s[2]: c for s, c in v[2] if type(s) is tuple and s[1] == a}
                cb = {s[2]: c for s, c in v[2] if type(s) is tuple and s[1] == b}
                if ca != cb:
                    good[0] = False
                return v
            return None
        for v in list(st.mem.values()) + list(st.g.values()) + [st.ineq]:
            rewrite(v, lens)
        if not good[0]:
            continue

        def fix(v):
            if v and v[0] == "seq" and any(p[0] == "seg" and p[1] == b for p in v[2]):
                return ("seq", v[1], tuple(p for p in v[2] if not (p[0] == "seg" and p[1] == b)))
            return None
        for c, v in list(st.mem.items()):
            st.mem[c] = rewrite(v, fix)
        replace_len(st, b, lambda r: L(0))
        st.W = newW
        for n, l in list(st.link.items()):
            if l == ("under", b):
                st.link[n] = ("under", a)
            elif n == B[2]:
                del st.link[n]
        st.seg.pop(b)
        return True
    return False


def try_fold(I, st, w, seqs, els, n, fifo):
    el = {}                     # sequence -> (index, cell, main node)
    J = None
    kind = None
    for qi, tl in enumerate(els):
        for i, e, mn in tl:
            if mn is not None and mn[1] == n:
                if qi in el:
                    return False
                el[qi] = (i, e, mn)
                if mn[0] <= 1 and (kind is None or mn[0] < kind):
                    J = mn[2]
                    kind = mn[0]
    if not el:
        return False
    # children of n in use
    cells = {e for i, e, mn in el.values()}
    kids_ix = set()
    bad = [False]

    def scan(x):
        if type(x) is not tuple or not x:
            return
        if x[0] == "ch" and x[1] == n:
            kids_ix.add(x[2])
            return
        if x == n:
            bad[0] = True
            return
        for y in x:
            if type(y) is tuple:
                scan(y)
    for c in w.cells:
        if c not in cells:
            scan(st.mem[c])
    for k, v in st.g.items():
        if k != "root":
            scan(v)
    for k, d in st.seg.items():
        if d[1]:
            scan(d[2])
    if bad[0]:
        return False
    if not fifo:
        if len(kids_ix) > 1:
            return False
        if J is None and kids_ix:
            J = lin_c(next(iter(kids_ix)), 1)
            kind = 0
    # the segment below
    below = []
    for qi, (i, e, mn) in el.items():
        sv = seqs[qi][2]
        below.append(sv[2][i - 1][1] if i > 0 and sv[2][i - 1][0] == "seg" else None)
    S = below[0] if below[0] is not None and all(x == below[0] for x in below) else None
    if S is None and any(x is not None for x in below):
        return False
    if S is None and not fifo and any(i > 0 and main_node(st, st.mem.get(seqs[qi][2][2][i - 1][1])) is not None
                                      for qi, (i, e, mn) in el.items()):
        # something of another node lies below: it is folded first
        below_nodes = True
    # aligned elements of the other sequences
    ref = next(iter(el))
    rsv = seqs[ref][2][2]
    ri = el[ref][0]
    d = 0
    nxt = None
    for p in rsv[ri + 1:]:
        if p[0] == "seg":
            nxt = p[1]
            break
        d += 1
    pth = None
    if kids_ix and not fifo:
        pp = path_of(st, n)
        if pp is not None:
            pth = (len(pp), next(iter(kids_ix)))
    for qi, (cid, path, sv) in enumerate(seqs):
        if qi in el:
            continue
        ps = sv[2]
        i = None
        if pth is not None and pth[0] < len(ps) and ps[pth[0]][0] == "el":
            v = st.mem.get(ps[pth[0]][1])
            if v is not None and v[0] == "L" and st.decide_eq0(lin_add(v, pth[1], -1)) is True and \
                    all(p[0] == "seg" or (st.mem[p[1]] or ("?",))[0] == "L" for p in ps) and \
                    (S is None or (pth[0] > 0 and ps[pth[0] - 1][0] == "seg" and ps[pth[0] - 1][1] == S)) and \
                    not (S is None and pth[0] > 0 and ps[pth[0] - 1][0] == "seg"):
                i = pth[0]
        if i is None:
            if S is not None:
                k = [x for x, p in enumerate(ps) if p[0] == "seg" and p[1] == S]
                if k and k[0] + 1 < len(ps) and ps[k[0] + 1][0] == "el":
                    i = k[0] + 1
            else:
                if any(main_node(st, st.mem.get(p[1])) is not None for p in ps if p[0] == "el"):
                    continue
                end = len(ps)
                if nxt is not None:
                    k = [x for x, p in enumerate(ps) if p[0] == "seg" and p[1] == nxt]
                    if not k:
                        continue
                    end = k[0]
                i = end - 1 - d
                if i < 0 or ps[i][0] != "el" or any(p[0] == "seg" for p in ps[i:end]) or \
                        (i > 0 and ps[i - 1][0] == "seg"):
                    continue
        if i is None:
            continue
        v = st.mem.get(ps[i][1])
        if main_node(st, v) is None and simple(v):
            if i == len(ps) - 1 and S is not None and (d > 0 or nxt is not None) and not (pth and i == pth[0]):
                # a shorter stack: the last entry belongs to a node above
                if len(ps) - i != len(rsv) - ri and v[0] != "L":
                    continue
            el[qi] = (i, ps[i][1], (4, n, None))
    for qi, (i, e, mn) in el.items():
        if e in w.held:
            return False
    cells = {e for i, e, mn in el.values()}
    # ---- pattern
    sym = False
    lb = None
    if J is not None:
        if kind == 0 and not I.slots:
            sym = True
            lo = st.lo(J)
            lb = 1 if lo is not None and lo >= 1 else 0
        elif is_const(J):
            lb = J[1]
        else:
            sym = True
            lb = 0

    def pat(v):
        def f(x):
            if x == n:
                return ("hole",)
            if x and x[0] == "L":
                if J is not None and sym:
                    dd = lin_add(x, J, -1)
                    if is_const(dd):
                        return ("jL", dd[1])
                return x
            return None
        return rewrite(v, f)
    linked = I.keep and not fifo
    if S is not None:
        linked = st.seg[S][1] and st.link.get(n) == ("under", S) and not fifo
        base = st.seg[S][2]
    else:
        base = n if I.keep else NOBASE
    koff = -1
    if kids_ix and not fifo and J is not None:
        dd = lin_add(next(iter(kids_ix)), J, -1)
        if is_const(dd):
            koff = dd[1]
        else:
            linked = False
    role_of = {}
    absent = []
    if S is not None:
        sig = st.seg[S][0]
        nroles = len(sig[0])
        roles = [ABS] * nroles
        for qi, (cid, path, sv) in enumerate(seqs):
            for p in sv[2]:
                if p[0] == "seg" and p[1] == S:
                    role_of[qi] = p[2]
        for qi, (i, e, mn) in el.items():
            if qi not in role_of:
                return False
            roles[role_of[qi]] = pat(st.mem[e])
        if linked != st.seg[S][1]:
            nsig = (sig[0], linked)
            for v in I.sigs.get(sig, []):
                add_variant(I, nsig, v)
            sig = nsig
    else:
        lab = {qi: seq_label(I, st, seqs[qi]) for qi in el}
        labs = set(lab.values())
        if len(labs) != len(lab):
            return False
        best = tuple(lab[qi] for qi in sorted(el))
        every = {}
        for qi in range(len(seqs)):
            every.setdefault(seq_label(I, st, seqs[qi]), []).append(qi)
        for (ls, lk) in I.sigs:
            if lk == linked and labs < set(ls) and len(ls) > len(best) and \
                    all(len(every.get(x, ())) == 1 for x in ls):
                best = ls
        sigkey = best
        sig = (sigkey, linked)
        roles = []
        for r, lb_ in enumerate(sigkey):
            qi = every[lb_][0]
            role_of[qi] = r
            if qi in el:
                roles.append(pat(st.mem[el[qi][1]]))
            else:
                roles.append(ABS)
                # the place where the element would be
                ps = seqs[qi][2][2]
                k = 0
                if nxt is not None:
                    kk = [x for x, p in enumerate(ps) if p[0] == "seg" and p[1] == nxt]
                    if not kk:
                        return False
                    k = kk[0]
                    while k > 0 and ps[k - 1][0] == "el":
                        k -= 1
                else:
                    for x, p in enumerate(ps):
                        if p[0] == "seg":
                            k = x + 1
                if k > 0 and ps[k - 1][0] == "seg":
                    return False
                absent.append((qi, k))
    if any(mentions(r, lambda x: x[0] in ("el", "ref", "seg", "nd", "coll", "ch") if x else False) for r in roles):
        return False
    # ---- word chunk
    W = st.W
    newW = W
    chunk = ()
    S2 = fresh("S")
    if W is not None:
        def own(t):
            if t[0] in ("V", "LV", "O", "F"):
                return t[1] == n
            if t[0] == "T":
                # a child that has not been handed out yet
                return t[1] == n or (t[1][0] == "ch" and t[1][1] == n and t[1][2] not in kids_ix)
            return False
        leafflag = 1 if I.mode == "leaf" else 0
        if fifo:
            bi = [i for i, t in enumerate(W) if t[0] == "B"]
            if len(bi) != 1:
                return False
            items = list(W[bi[0]][1])
            idx = [i for i, x in enumerate(items) if x[0] in ("F", "O") and x[1] == n]
            if idx and idx != list(range(idx[0], idx[-1] + 1)):
                return False
            chunk = tuple(items[i] for i in idx)
            if S is not None:
                q = [i for i, x in enumerate(items) if x[0] == "Q" and x[1] == S]
                if not q:
                    return False
                if idx and q[0] + 1 != idx[0]:
                    return False
                items = items[:q[0]] + [("Q", S2)] + items[(idx[-1] if idx else q[0]) + 1:]
            else:
                if not idx:
                    return False
                items = items[:idx[0]] + [("Q", S2)] + items[idx[-1] + 1:]
            newW = W[:bi[0]] + (("B", tuple(items)) + W[bi[0]][2:],) + W[bi[0] + 1:]
        else:
            idx = [i for i, t in enumerate(W) if own(t)]
            if idx and idx != list(range(idx[0], idx[-1] + 1)):
                return False
            chunk = tuple(W[i] for i in idx)
            if S is not None:
                q = [i for i, t in enumerate(W) if t[0] == "A" and t[1] == S]
                if not q:
                    return False
                if idx and idx[-1] + 1 != q[0]:
                    return False
                a = idx[0] if idx else q[0]
                newW = W[:a] + (("A", S2, W[q[0]][2]),) + W[q[0] + 1:]
            elif idx:
                newW = W[:idx[0]] + (("A", S2, leafflag),) + W[idx[-1] + 1:]
            elif nxt is not None:
                q = [i for i, t in enumerate(W) if t[0] == "A" and t[1] == nxt]
                if not q:
                    return False
                newW = W[:q[0] + 1] + (("A", S2, leafflag),) + W[q[0] + 1:]
            else:
                above = {n}
                for qi, (i, e, mn) in el.items():
                    for i2, e2, mn2 in els[qi]:
                        if i2 > i and mn2 is not None:
                            above.add(mn2[1])

                def over(x):
                    while True:
                        if x in above:
                            return True
                        if x[0] != "ch":
                            return False
                        x = x[1]
                hi = [i for i, t in enumerate(W) if t[0] in ("T", "V", "LV", "O", "F") and over(t[1])]
                if hi:
                    a = hi[-1] + 1
                elif len(above) > 1:
                    a = 0
                else:
                    cpos = [i for i, t in enumerate(W) if t[0] == "F" and is_coll(t[1])]
                    a = cpos[0] if cpos else len(W)
                newW = W[:a] + (("A", S2, leafflag),) + W[a:]
    word = pat(chunk)
    if mentions(word, lambda x: bool(x) and x[0] in ("nd", "coll")):
        return False
    if newW is not None and mentions(newW, lambda x: x == n):
        left = [t for t in newW if mentions(t, lambda x: x == n)]
        if any(not (t[0] in ("T", "V", "LV", "F", "O") and t[1] != n) for t in left if t[0] != "B"):
            return False
    facts = []
    for (m, j), val in st.facts.items():
        if m == n:
            if sym and j == L(0) and lb == 1:
                continue
            facts.append((pat(j), val))
    facts = tuple(sorted(facts, key=repr))
    var = {"roles": roles, "lb": lb, "sym": sym, "word": word, "facts": facts, "koff": koff}
    add_variant(I, sig, var)
    # ---- commit
    st.W = newW
    st.seg[S2] = (sig, linked, base)
    for qi, (cid, path, sv) in enumerate(seqs):
        parts = list(sv[2])
        if qi in el:
            i = el[qi][0]
            if S is not None:
                parts[i - 1:i + 1] = [("seg", S2, role_of[qi])]
            else:
                parts[i] = ("seg", S2, role_of[qi])
        elif qi in role_of and S is not None:
            parts = [("seg", S2, p[2]) if p[0] == "seg" and p[1] == S else p for p in parts]
        else:
            k = [k for q, k in absent if q == qi]
            if not k:
                continue
            parts.insert(k[0], ("seg", S2, role_of[qi]))
        I.put(st, cid, path, ("seq", sv[1], tuple(parts)))
    for c in cells:
        st.mem.pop(c, None)
    if S is not None:
        replace_len(st, S, lambda r: lin_c(lin_sym(("len", S2, r)), 0 if r != "*" and roles[r] == ABS else -1))
        st.seg.pop(S, None)
    for k in kids_ix:
        x = ("nd", fresh("n"))
        tgt = ("ch", n, k)
        st.subst(lambda v: x if v == tgt else None)
        if linked:
            st.link[x] = ("under", S2)
    st.facts = {(m, j): v for (m, j), v in st.facts.items() if m != n}
    st.exp = st.exp - {n}
    return True


def simple(v):
    """Constant-like element that may accompany a frame."""
    if v is None:
        return False
    if v[0] == "L":
        return True
    if v[0] in ("agg", "arrit"):
        return all(simple(x) for x in v[3])
    return False


def seq_label(I, st, s):
    cid, path, sv = s
    # label by the root through which the cell is reached
    for i, fr in enumerate(st.frames):
        for l, c in fr.loc.items():
            if c == cid:
                return ("fr", fr.body.key, l, path)
    for k, v in st.g.items():
        if v == ("ref", cid, ()):
            return ("g", k, path)
    return ("m", path)


def add_variant(I, sig, var):
    vs = I.sigs.setdefault(sig, [])
    for v in vs:
        if v == var:
            return
        if v["roles"] == var["roles"] and v["word"] == var["word"] and v["facts"] == var["facts"] and \
                v["sym"] == var["sym"] and v["koff"] == var["koff"] and v["sym"] and v["lb"] <= var["lb"]:
            return
    vs.append(var)
    I.sigdirty = True
    if len(vs) > 24:
        raise Unmodelled("too many frame shapes")


# ------------------------------------------------------------ paths
def path_of(st, n):
    """Expected path of node n as sequence parts (list), or None."""
    if n[0] == "ch":
        p = [] if is_coll(n[1]) else path_of(st, n[1])
        if p is None:
            return None
        return p + [("i", n[2])]
    if n[0] == "nd":
        l = st.link.get(n)
        if l is None:
            return [] if n == st.g.get("root") else None
        S = l[1]
        b = path_of(st, st.seg[S][2])
        if b is None or not st.seg[S][1]:
            return None
        return b + [("segpath", S)]
    return None


def anc_of(st, n):
    if n[0] == "ch":
        if is_coll(n[1]):
            return [("v", n)]
        a = anc_of(st, n[1])
        return None if a is None else a + [("v", n)]
    if n[0] == "nd":
        l = st.link.get(n)
        if l is None:
            return [("v", n)] if n == st.g.get("root") else None
        S = l[1]
        if not st.seg[S][1]:
            return None
        b = anc_of(st, st.seg[S][2])
        if b is None:
            return None
        return b[:-1] + [("segval", S), ("v", n)]
    return None


def match_seq(I, st, sv, exp):
    """Does the sequence value sv equal the expected parts? Returns
    (True/False/None, explanation)."""
    parts = list(sv[2])
    if len(parts) != len(exp):
        return False, "length differs: found %s, expected %s" % (show_parts(I, st, parts), show_exp(exp))
    for p, e in zip(parts, exp):
        if e[0] == "i":
            if p[0] != "el":
                return False, "found %s, expected %s" % (show_parts(I, st, parts), show_exp(exp))
            v = st.mem[p[1]]
            if v[0] != "L" or st.decide_eq0(lin_add(v, e[1], -1)) is not True:
                return False, "found %s, expected %s" % (show_parts(I, st, parts), show_exp(exp))
        elif e[0] == "v":
            if p[0] != "el" or st.mem[p[1]] != ("val", e[1]):
                return False, "found %s, expected %s" % (show_parts(I, st, parts), show_exp(exp))
        elif e[0] in ("segval", "segpath"):
            if p[0] != "seg" or p[1] != e[1]:
                return False, "found %s, expected %s" % (show_parts(I, st, parts), show_exp(exp))
            for v in I.sigs[st.seg[p[1]][0]]:
                r = v["roles"][p[2]]
                if e[0] == "segval":
                    ok = r == ("val", ("hole",))
                else:
                    if v["sym"]:
                        ok = r == ("jL", v["koff"])
                    else:
                        ok = v["lb"] is not None and r == L(v["lb"] + v["koff"])
                if not ok:
                    return False, "segment role %r does not hold the expected component" % (r,)
    return True, ""


def show_parts(I, st, parts):
    out = []
    for p in parts:
        if p[0] == "el":
            out.append(show(st.mem.get(p[1])))
        else:
            out.append("..")
    return "[" + ", ".join(out) + "]"


def show_exp(exp):
    out = []
    for e in exp:
        if e[0] == "i":
            out.append(show(e[1]))
        elif e[0] == "v":
            out.append("value(%s)" % show(e[1]))
        else:
            out.append("..")
    return "[" + ", ".join(out) + "]"


def show(v):
    if type(v) is not tuple:
        return str(v)
    if not v:
        return "()"
    t = v[0]
    if t == "L":
        s = []
        for sy, c in v[2]:
            nm = sy if type(sy) is str else "len"
            s.append(("" if c == 1 else "%d*" % c) + nm)
        if v[1] or not s:
            s.append(str(v[1]))
        return "+".join(s).replace("+-", "-")
    if t == "nd":
        return v[1]
    if t == "coll":
        return "trees"
    if t == "ch":
        return "%s.child[%s]" % (show(v[1]), show(v[2]))
    if t == "val":
        return "value(%s)" % show(v[1])
    if t == "node":
        return "node(%s)" % show(v[1])
    if t == "agg":
        if v[1] == OPT:
            return "None" if v[2] == 0 else "Some(%s)" % show(v[3][0])
        return "%s(%s)" % (v[1].split("::")[-1], ", ".join(show(x) for x in v[3]))
    if t == "V":
        return "value(%s)" % show(v[1])
    if t == "T":
        return "subtree(%s)" % show(v[1])
    if t == "F":
        return "children(%s, from %s)" % (show(v[1]), show(v[2]))
    if t == "O":
        return "slot(%s, %s)" % (show(v[1]), v[2])
    if t == "LV":
        return "value-if-leaf(%s)" % show(v[1])
    if t == "A":
        return "rest-of-stack"
    if t == "B":
        return "level-order[%s]" % ", ".join(show(x) for x in v[1])
    if t == "Q":
        return "queue.."
    return t


def show_word(W):
    return " ".join(show(t) for t in W) if W else "nothing"
