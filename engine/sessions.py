"""Sessions: what the most general client of each public entry point does,
and what each observation must be."""
from dom import *
import fold
from client import Run, Missing, opt_of, ROOT, COLL

P = "tree_iterators_rs::prelude::"
OWN = ("Owned", "MutBorrowed", "Borrowed")
SUF = {"Owned": "", "MutBorrowed": "_iter_mut", "Borrowed": "_iter"}
PSUF = {"Owned": "", "MutBorrowed": "_mut", "Borrowed": "_ref"}
ORDER = {"dfs_preorder": "pre", "dfs_postorder": "post", "dfs_inorder": "in", "bfs": "bfs"}


def node_trait(own, binary):
    return own + ("BinaryTreeNode" if binary else "TreeNode")


def coll_trait(own, binary):
    return own + ("IntoIteratorOfBinaryTrees" if binary else "IntoIteratorOfTrees")


def entry(own, binary, order, coll=False):
    if coll:
        return P + coll_trait(own, binary) + "::" + order + "_each" + SUF[own]
    return P + node_trait(own, binary) + "::" + order + SUF[own]


def orders(binary):
    return ("dfs_preorder", "dfs_inorder", "dfs_postorder", "bfs") if binary else \
        ("dfs_preorder", "dfs_postorder", "bfs")


def val_node(v):
    return v[1] if type(v) is tuple and v and v[0] == "val" else None


class Session(Run):
    def __init__(self, prog, own, binary, order, coll=False, label=None):
        Run.__init__(self, prog, ORDER.get(order, "pre"), binary,
                     label or "%s%s::%s%s" % (own, " binary" if binary else "", order, "_each" if coll else ""), coll)
        self.own, self.binary, self.order = own, binary, order

    def need(self, key):
        if self.p.body(key) is None:
            raise Missing("%s is not part of the crate" % key.replace("tree_iterators_rs::", ""))
        return key

    def begin(self, *methods):
        """States after calling the entry point and the given methods."""
        st = self.start()
        res = self.invoke(st, self.need(entry(self.own, self.binary, self.order, self.coll)),
                          [self.root_value()], self.order)
        for m in methods:
            nxt = []
            for s, v in res:
                ref = ("ref", s.new_cell(v), ())
                nxt.extend(self.call_method(s, ref, m, by="val"))
            res = nxt
        for s, v in res:
            s.g["it"] = ("ref", s.new_cell(v), ())
            yield s

    # ---------------------------------------------------------- steps
    def split_opt(self, pairs):
        """Resolve optional results, splitting states where needed."""
        work = list(pairs)
        while work:
            s, v = work.pop()
            try:
                ok, x = opt_of(self.I, s, v)
            except Split as sp:
                for f in sp.refines:
                    c = s.copy()
                    if f(c) is not False:
                        fold.normalise(self.I, c)
                        work.append((c, v))
                continue
            yield s, ok, x

    def step_next(self, s):
        for t, ok, x in self.split_opt(self.call_method(s, s.g["it"], "next", trait="Iterator")):
            if ok:
                yield from self.expect_value(t, val_node(x))
            else:
                yield from self.expect_end(t)

    def step_stream(self, s, check, getter="get"):
        for t, _ in self.call_method(s, s.g["it"], "advance", trait="StreamingIterator"):
            tr = "StreamingIterator" if getter == "get" else "StreamingIteratorMut"
            for u, ok, x in self.split_opt(self.call_method(t, t.g["it"], getter, trait=tr)):
                if not ok:
                    yield from self.expect_end(u)
                    continue
                for w in self.split_head(u):
                    self.obl += 1
                    if not w.W or w.W[0][0] != "V":
                        self.bad(w, "order", "produced an item where the order requires %s" % fold.show_word(w.W[:3]))
                        continue
                    n = w.W[0][1]
                    try:
                        good = check(w, x, n)
                    except Split as sp:
                        w.depth += 1
                        if w.depth > 50:
                            raise Unmodelled("split depth in a check")
                        # refine and re-check from the same observation
                        for f in sp.refines:
                            c = w.copy()
                            if f(c) is not False:
                                fold.normalise(self.I, c)
                                yield from self.recheck(c, x, check)
                        continue
                    if good:
                        w.W = w.W[1:]
                        yield w

    def recheck(self, st, x, check):
        for w in self.split_head(st):
            if not w.W or w.W[0][0] != "V":
                self.bad(w, "order", "produced an item where the order requires %s" % fold.show_word(w.W[:3]))
                continue
            try:
                good = check(w, x, w.W[0][1])
            except Split as sp:
                w.depth += 1
                if w.depth > 50:
                    raise Unmodelled("split depth in a check")
                for f in sp.refines:
                    c = w.copy()
                    if f(c) is not False:
                        fold.normalise(self.I, c)
                        yield from self.recheck(c, x, check)
                continue
            if good:
                w.W = w.W[1:]
                yield w

    # ---------------------------------------------------------- checks
    def check_seq(self, st, v, exp, rule, what):
        v = self.I.deref_all(st, v)
        self.obl += 1
        if exp is None:
            raise Unmodelled("%s of a node whose position is not tracked" % what)
        if v[0] != "seq":
            raise Unmodelled("%s is %s" % (what, v[0]))
        ok, why = fold.match_seq(self.I, st, v, exp)
        if ok is None:
            raise Unmodelled("%s: %s" % (what, why))
        if not ok:
            self.bad(st, rule, "%s of %s: %s" % (what, "the node", why))
            return False
        return True

    def check_anc(self, st, x, n):
        """item is the list of the ancestors' values, the node's value last"""
        v = self.I.deref_all(st, x)
        # the last element must be the node itself
        if v[0] == "seq" and v[2] and v[2][-1][0] == "el":
            last = val_node(st.mem[v[2][-1][1]])
            if last != n:
                self.bad(st, "order", "produced value(%s) where the order requires value(%s)"
                         % (fold.show(last) if last else "?", fold.show(n)))
                return False
        elif v[0] == "seq" and v[2]:
            raise Split(fold.unfold_back(self.I, v[2][-1][1]))
        return self.check_seq(st, x, fold.anc_of(st, n), "ancestors", "ancestor list")

    def ctx_part(self, st, x, name):
        """Value of an accessor of the context item, evaluated in place."""
        v = self.I.deref_all(st, x)
        if v[0] != "agg":
            raise Unmodelled("context is %s" % v[0])
        k = self.method(v, name)
        if k is None:
            raise Missing("TreeContext has no method " + name)
        res = self.invoke(st, k, [x], name)
        if len(res) != 1:
            raise Unmodelled("context accessor forks")
        return res[0]

    def check_ctx(self, st, x, n):
        r = x
        while r[0] == "ref" and self.I.get(st, r[1], r[2])[0] == "ref":
            r = self.I.get(st, r[1], r[2])
        s1, a = self.ctx_part(st, r, "ancestors")
        if not self.check_anc(s1, a, n):
            return False
        s2, p = self.ctx_part(st, r, "path")
        if not self.check_seq(s2, p, fold.path_of(s2, n), "path", "path"):
            return False
        if self.own == "Owned" and self.order in ("dfs_postorder", "dfs_inorder"):
            return True         # documented as unavailable
        s3, c = self.ctx_part(st, r, "children")
        c = self.I.deref_all(s3, c)
        self.obl += 1
        if not self.is_children(s3, c, n):
            self.bad(s3, "children", "the context's children are not the children of the node it describes")
            return False
        return True

    def plain(self, st, v):
        """The value with references replaced by what they refer to."""
        def f(x):
            if x and x[0] == "ref":
                return self.plain(st, self.I.get(st, x[1], x[2]))
            return None
        return rewrite(v, f)

    def is_children(self, st, c, n):
        if c == ("kids", n):
            return True
        if c[0] == "agg" and c[1] == "[]" and len(c[3]) == 2:
            for i, x in enumerate(c[3]):
                want = self.I.resolve(st, ("okid", n, i))
                if self.plain(st, self.I.resolve(st, x)) != want:
                    return False
            return True
        return False


# ------------------------------------------------------------------ sessions
def run_plain(prog, own, binary, order, coll):
    S = Session(prog, own, binary, order, coll)
    S.explore(lambda: S.begin(), S.step_next)
    return S


def run_anc(prog, own, binary, order, getter="get"):
    S = Session(prog, own, binary, order, label="%s%s::%s.attach_ancestors" % (own, " binary" if binary else "", order))
    S.I.keep = True
    S.explore(lambda: S.begin("attach_ancestors"), lambda s: S.step_stream(s, S.check_anc, getter))
    return S


def run_ctx(prog, own, binary, order, coll, getter="get"):
    S = Session(prog, own, binary, order, coll,
                label="%s%s::%s%s.attach_context" % (own, " binary" if binary else "", order, "_each" if coll else ""))
    S.I.keep = True
    S.explore(lambda: S.begin("attach_context"), lambda s: S.step_stream(s, S.check_ctx, getter))
    return S


def leaf_word(W):
    """The leaves among what is still due."""
    out = []
    for t in W:
        if t[0] == "V":
            out.append(("LV", t[1]))
        elif t[0] == "A":
            out.append(("A", t[1], 1))
        else:
            out.append(t)
    return tuple(out)


def leaf_starts(S1, S2, S1ok):
    def starts():
        for s in S1.kept:
            s = s.copy()
            s.W = leaf_word(s.W)
            s.seg = {k: (("first", v[0]),) + v[1:] for k, v in s.seg.items()}
            fold.normalise(S2.I, s)
            s.trace = s.trace + ("leaves",)
            for t, v in S2.call_method(s, s.g["it"], "leaves", by="val"):
                t.g["it"] = ("ref", t.new_cell(v), ())
                yield t
    return starts


def run_leaves(prog, own, binary, order, getter=None):
    """Any number of steps of a traversal (with ancestors when getter is
    given), then leaves(), then any number of steps."""
    lab = "%s%s::%s%s ..next*.. leaves" % (own, " binary" if binary else "", order, ".attach_ancestors" if getter else "")
    S1 = Session(prog, own, binary, order, label=lab)
    S1.record = True
    if getter:
        S1.I.keep = True
        S1.explore(lambda: S1.begin("attach_ancestors"), lambda s: S1.step_stream(s, S1.check_anc, getter))
    else:
        S1.explore(lambda: S1.begin(), S1.step_next)
    S2 = Session(prog, own, binary, order, label=lab)
    S2.I.mode = "bleaf" if order == "bfs" else "leaf"
    S2.I.keep = S1.I.keep
    S2.I.fns, S2.I.fnidx = S1.I.fns, S1.I.fnidx
    S2.I.sigs = {("first", k): list(v) for k, v in S1.I.sigs.items()}
    if getter:
        S2.explore(leaf_starts(S1, S2, True), lambda s: S2.step_stream(s, S2.check_anc, getter))
    else:
        S2.explore(leaf_starts(S1, S2, True), S2.step_next)
    S2.converged = S2.converged and S1.converged
    for k, n in S1.I.unmodelled.items():
        S2.I.unmodelled.setdefault(k, n)
    S2.obl += S1.obl
    S2.I.paths += S1.I.paths
    S2.cstates += S1.cstates
    S2.I.analysed |= S1.I.analysed
    S2.first = S1
    return S2


# ------------------------------------------------------------------ pipelines
def drop_kids(st, n):
    """The specification's effect of pruning the subtree of n right after
    n's value was produced."""
    W = st.W
    while W and (W[0][0] in ("F", "O") and W[0][1] == n or W[0][0] == "T" and W[0][1][0] == "ch" and W[0][1][1] == n):
        W = W[1:]
    st.W = W


class Pipe(Session):
    """A pipeline stage and its client: next, then current_path and
    current_depth, then optionally prune_current_subtree."""

    def begin_pipe(self):
        st = self.start()
        tr = coll_trait(self.own, self.binary) if self.coll else node_trait(self.own, self.binary)
        for s, v in self.invoke(st, self.need(P + tr + "::into_pipeline" + PSUF[self.own]), [self.root_value()], "into_pipeline"):
            s.g["it"] = ("ref", s.new_cell(v), ())
            yield s

    def retry(self, st, f):
        """f(state) -> list of states; refined and repeated on Split."""
        work = [st]
        while work:
            s = work.pop()
            try:
                yield from f(s.copy())
            except Split as sp:
                s.depth += 1
                if s.depth > 60:
                    raise Unmodelled("split depth in a check")
                for g in sp.refines:
                    c = s.copy()
                    if g(c) is not False:
                        fold.normalise(self.I, c)
                        work.append(c)

    def base_trait(self):
        return "TreeCollectionIteratorBase" if self.coll else "TreeIteratorBase"

    def check_position(self, st, n, exp=None):
        """current_path and current_depth while n is the last node produced"""
        for s, p in self.call_method(st, st.g["it"], "current_path", trait=self.base_trait()):
            want = fold.path_of(s, n) if exp is None else exp(s, n)
            if not self.check_seq(s, p, want, "path", "current_path"):
                continue
            pv = self.I.deref_all(s, p)
            for t, d in self.call_method(s, s.g["it"], "current_depth", trait=self.base_trait()):
                want = fold.seq_len(self.I, t, pv)
                if self.coll:
                    want = lin_c(want, -1)
                self.obl += 1
                if d[0] != "L":
                    raise Unmodelled("current_depth is %s" % d[0])
                r = t.decide_eq0(lin_add(d, want, -1))
                if r is None:
                    raise Unmodelled("current_depth is not determined")
                if not r:
                    self.bad(t, "depth", "current_depth is %s where the node's depth is %s" % (fold.show(d), fold.show(want)))
                    continue
                yield t

    def node_of(self, x):
        return val_node(x)

    def client(self, t, n, exp=None):
        """What the client may do once n was produced."""
        for u in self.retry(t, lambda s: list(self.check_position(s, n, exp))):
            yield u.copy()
            for w, _ in self.call_method(u, u.g["it"], "prune_current_subtree", trait=self.base_trait()):
                drop_kids(w, n)
                yield w

    def step_pipe(self, s):
        for t, ok, x in self.split_opt(self.call_method(s, s.g["it"], "next", trait="Iterator")):
            if not ok:
                yield from self.expect_end(t)
                continue
            n = self.node_of(x)
            for u in self.expect_value(t, n):
                yield from self.client(u, n)


def run_source(prog, own, binary, coll):
    S = Pipe(prog, own, binary, "dfs_preorder", coll,
             label="%s%s%s::into_pipeline%s" % (own, " binary" if binary else "", " collection" if coll else "", PSUF[own]))
    S.I.keep = True
    S.explore(lambda: S.begin_pipe(), S.step_pipe)
    return S


def head(I, st):
    """Make the head of the expected sequence explicit from inside a hook."""
    fold.normalise(I, st)
    W = st.W
    if W and W[0][0] == "A":
        raise Split(fold.unfold(I, W[0][1], True))
    if W and W[0][0] == "B" and W[0][1] and W[0][1][0][0] == "Q":
        raise Split(fold.unfold(I, W[0][1][0][1], False))
    return W[0] if W else None


def fail(I, st, rule, msg):
    I.event(st, rule, msg)
    raise Unmodelled("stopped after a violation")


def choose(st, key):
    b = st.bools.get(key)
    if b is None:
        def yes(x):
            x.bools[key] = True

        def no(x):
            x.bools[key] = False
        raise Split([yes, no])
    del st.bools[key]
    return b


class Adapter(Pipe):
    """A pipeline adapter over the crate's own source."""

    def __init__(self, prog, kind, own, binary, coll):
        Pipe.__init__(self, prog, own, binary, "dfs_preorder", coll,
                      label="%s%s%s::into_pipeline%s.%s" % (own, " binary" if binary else "", " collection" if coll else "", PSUF[own], kind))
        self.kind = kind
        self.I.keep = True
        self.I.hooks["ucl:f"] = self.user
        self.tie = None

    def user(self, I, st, args, g):
        """The closure passed to the adapter: what it is called with, and
        what follows from its answer."""
        path = args[0] if self.kind.endswith("_path") else None
        x = I.deref_all(st, args[-1])
        n = val_node(x)
        h = head(I, st)
        if st.g.get("due") is not None:
            fail(I, st, "lost", "a value is dropped: the closure is called for another node first")
        if n is None or h != ("V", n):
            fail(I, st, "calls", "the closure is called with %s where %s is due" % (fold.show(x), fold.show_word(st.W[:2])))
        if path is not None:
            pv = I.deref_all(st, path)
            want = fold.path_of(st, n)
            if want is None or pv[0] != "seq":
                raise Unmodelled("path of the node is not tracked")
            ok, why = fold.match_seq(I, st, pv, want)
            if not ok:
                fail(I, st, "path", "path given to the closure: " + why)
        if self.kind.startswith("map"):
            st.W = st.W[1:]
            st.g["due"] = ("out", n)
            return ("out", n)
        cut = choose(st, ("cut", n))
        st.W = st.W[1:]
        if cut:
            drop_kids(st, n)
        else:
            st.g["due"] = ("val", n)
        self.ghost(I, st, n, cut)
        return TRUE if cut else FALSE

    def ghost(self, I, st, n, cut):
        pass

    def adapter_trait(self):
        t = "TreeCollectionIterator" if self.coll else "TreeIterator"
        if self.kind.startswith("map") or self.kind == "prune_depth":
            return t + "Base"
        return ("Binary" if self.binary else "") + t

    def begin_adapter(self):
        for s in self.begin_pipe():
            if self.kind == "prune_depth":
                y = fresh("limit")
                s.lb[y] = 0
                s.g["limit"] = lin_sym(y)
                args = [lin_sym(y)]
            else:
                args = [("ucl", "f")]
            name = self.kind if self.kind != "map" else "map_trees" if self.coll else "map_tree"
            for t, v in self.call_method(s, s.g["it"], name, args, by="val", trait=self.adapter_trait()):
                t.g["it"] = ("ref", t.new_cell(v), ())
                yield t

    def out_path(self, st, n):
        return fold.path_of(st, n)

    def step_adapter(self, s):
        for t, ok, x in self.split_opt(self.call_method(s, s.g["it"], "next", trait="Iterator")):
            if not ok:
                if t.g.get("due") is not None:
                    self.bad(t, "lost", "ended although a value was accepted and not produced")
                    continue
                yield from self.expect_end(t)
                continue
            if self.kind == "prune_depth":
                n = val_node(x)
                for u in self.expect_value(t, n):
                    yield from self.retry(u, lambda q: list(self.depth_limit(q, n)))
                continue
            self.obl += 1
            if t.g.get("due") != x:
                self.bad(t, "order", "produced %s where %s is due" % (fold.show(x), fold.show(t.g.get("due"))))
                continue
            t.g["due"] = None
            yield from self.client(t, x[1], self.out_path)

    def depth_limit(self, s, n):
        """prune_depth: nothing below the limit is due"""
        p = fold.path_of(s, n)
        if p is None:
            raise Unmodelled("depth of a node that is not tracked")
        d = L(-1 if self.coll else 0)
        for e in p:
            d = lin_c(d, 1) if e[0] == "i" else lin_add(d, lin_sym(fold.len_sym(self.I, s, e[1], "*")))
        q = lin_add(s.g["limit"], d, -1)
        e = s.decide_eq0(q)
        if e is None:
            self.I.split_cmp(q, "eq")
        if e:
            drop_kids(s, n)
        yield from self.client(s, n)


def run_adapter(prog, kind, own, binary, coll):
    S = Adapter(prog, kind, own, binary, coll)
    S.explore(lambda: S.begin_adapter(), S.step_adapter)
    return S


class Lazy(Session):
    """Nodes and trees are taken up only when what they contribute is due."""

    def __init__(self, prog, own, binary, order, coll, attach):
        Session.__init__(self, prog, own, binary, order, coll, label="%s%s::%s%s%s" % (
            own, " binary" if binary else "", order, "_each" if coll else "", "." + attach if attach else ""))
        self.I.lazy = 1
        if attach:
            self.I.keep = True


    def begin_lazy(self, *methods):
        self.I.building = True
        try:
            return list(self.begin(*methods))
        finally:
            self.I.building = False


def run_lazy(prog, own, binary, order, coll, attach=None):
    S = Lazy(prog, own, binary, order, coll, attach)
    if attach is None:
        S.explore(lambda: S.begin_lazy(), S.step_next)
    else:
        check = S.check_anc if attach == "attach_ancestors" else S.check_ctx
        S.explore(lambda: S.begin_lazy(attach), lambda s: S.step_stream(s, check, "get"))
    S.obl = S.I.lazy - 1
    return S


class Guard(Session):
    """Metadata cannot be attached to a traversal that has already yielded."""

    def __init__(self, prog, own, binary, order, coll, attach):
        Session.__init__(self, prog, own, binary, order, coll, label="%s%s::%s%s then %s" % (
            own, " binary" if binary else "", order, "_each" if coll else "", attach))
        self.attach = attach
        self.rejected = 0

    def step(self, s):
        for t in self.step_next(s):
            u = t.copy()
            ev = list(self.I.events)
            self.obl += 1
            done = self.call_method(u, u.g["it"], self.attach, by="val")
            if done and not self.spent(t, done):
                self.bad(t, "guard", "%s returns after an element has been yielded" % self.attach)
                continue
            if not done and all(e[0] != "panic" for e in self.I.events[len(ev):]) and not self.rejected:
                raise Unmodelled("%s neither returns nor panics" % self.attach)
            self.rejected += 1
            self.I.events[:] = ev
            yield t


    def spent(self, t, done):
        """Nothing is left, and the new iterator has no item either."""
        if t.W:
            return False
        for s, v in done:
            ref = ("ref", s.new_cell(v), ())
            for u, _ in self.call_method(s, ref, "advance", trait="StreamingIterator"):
                for w, ok, x in self.split_opt(self.call_method(u, ref, "get", trait="StreamingIterator")):
                    if ok:
                        return False
        return True


def run_guard(prog, own, binary, order, coll, attach):
    S = Guard(prog, own, binary, order, coll, attach)
    S.explore(lambda: S.begin(), S.step)
    return S


class Cut(Session):
    """After every step the client may remove children of the node it got,
    through the context; nothing else changes."""

    def cuts(self):
        return ((True, False), (False, True), (True, True)) if self.binary else ((True,),)

    def without(self, st, n, cut):
        """What is still due without the removed children of n."""
        def under(m):
            while m[0] == "ch":
                if m[1] == n:
                    return not self.binary or any(m[2] == L(i) for i in (0, 1) if cut[i])
                m = m[1]
            return False

        def gone(t):
            if t[0] == "F" and t[1] == n:
                return True
            if t[0] == "O" and t[1] == n:
                return cut[t[2]]
            return t[0] in ("V", "T", "F", "O") and under(t[1])
        out = []
        for t in st.W:
            if t[0] == "B":
                out.append(("B", tuple(x for x in t[1] if not gone(x))))
            elif not gone(t):
                out.append(t)
        st.W = tuple(out)

    def step_cut(self, s):
        def check(w, x, n):
            w.g["last"] = n
            return self.check_ctx(w, x, n)
        for w in self.step_stream(s, check, "get_mut"):
            n = w.g.pop("last", None)
            yield w.copy()
            if n is None:
                continue
            for cut in self.cuts():
                for t, ok, x in self.split_opt(self.call_method(w.copy(), w.g["it"], "get_mut", trait="StreamingIteratorMut")):
                    if not ok:
                        self.bad(t, "get_mut", "get_mut() gives nothing where it gave an element before")
                        continue
                    while self.I.get(t, x[1], x[2])[0] == "ref":
                        x = self.I.get(t, x[1], x[2])
                    u, c = self.ctx_part(t, x, "children_mut")
                    while self.I.get(u, c[1], c[2])[0] == "ref":
                        c = self.I.get(u, c[1], c[2])
                    v = self.I.get(u, c[1], c[2])
                    if self.binary:
                        if v[0] != "agg" or len(v[3]) != 2:
                            raise Unmodelled("children are %s" % v[0])
                        self.I.put(u, c[1], c[2], v[:3] + (tuple(NONE if g else y for g, y in zip(cut, v[3])),))
                    else:
                        if v != ("kids", n):
                            raise Unmodelled("children are %s" % v[0])
                        self.I.put(u, c[1], c[2], ("it", n, L(0), "end"))
                    self.without(u, n, cut)
                    yield u


def run_cut(prog, own, binary, order, coll):
    S = Cut(prog, own, binary, order, coll,
            label="%s%s::%s%s.attach_context ..children_mut" % (own, " binary" if binary else "", order, "_each" if coll else ""))
    S.I.keep = True
    S.explore(lambda: S.begin("attach_context"), S.step_cut)
    return S


class Edit(Session):
    """Once, at any step, the client replaces a value: the node's own or the
    root's, in the list of ancestors it was lent."""

    def check_anc(self, st, x, n):
        alt = st.g.get("alt")
        v = self.I.deref_all(st, x)
        exp = fold.anc_of(st, n)
        if alt is None or exp is None:
            return Session.check_anc(self, st, x, n)
        return self.check_seq(st, x, [("v", ("alt", e[1])) if e[0] == "v" and e[1] == alt else e for e in exp], "ancestors", "ancestor list")

    def step_edit(self, s, ctx):
        def check(w, x, n):
            w.g["last"] = n
            return (self.check_ctx if ctx else self.check_anc)(w, x, n)
        for w in self.step_stream(s, check, "get_mut"):
            n = w.g.pop("last", None)
            yield w.copy()
            if n is None or w.g.get("alt") is not None:
                continue
            for at in (0, -1):
                for t, ok, x in self.split_opt(self.call_method(w.copy(), w.g["it"], "get_mut", trait="StreamingIteratorMut")):
                    if not ok:
                        self.bad(t, "get_mut", "get_mut() gives nothing where it gave an element before")
                        continue
                    while self.I.get(t, x[1], x[2])[0] == "ref":
                        x = self.I.get(t, x[1], x[2])
                    if ctx:
                        t, x = self.ctx_part(t, x, "ancestors_mut")
                    v = self.I.deref_all(t, x)
                    if v[0] != "seq" or not v[2] or v[2][at][0] != "el":
                        raise Unmodelled("ancestors are folded")
                    if at == 0 and len(v[2]) == 1:
                        continue
                    cell = v[2][at][1]
                    if t.mem[cell][0] != "val":
                        raise Unmodelled("ancestor is %s" % t.mem[cell][0])
                    t.g["alt"] = t.mem[cell][1]
                    t.mem[cell] = ("val", ("alt", t.mem[cell][1]))
                    yield t


def run_edit(prog, own, binary, order, coll, ctx):
    S = Edit(prog, own, binary, order, coll,
             label="%s%s::%s%s.%s ..ancestors_mut" % (own, " binary" if binary else "", order, "_each" if coll else "",
                                                      "attach_context" if ctx else "attach_ancestors"))
    S.I.keep = True
    if S.I.fold_enabled:
        S.budget = 3.0      # replaced values do not fold: only the bounded run decides
    S.explore(lambda: S.begin("attach_context" if ctx else "attach_ancestors"), lambda s: S.step_edit(s, ctx))
    return S
