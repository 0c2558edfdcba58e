"""Provided methods: every way of driving an iterator agrees with next().

Which methods an implementation leaves to the trait is read from the list of
implementations; what it leaves to core::iter or streaming_iterator follows
from next (advance and get) by that crate's definition.  A method it takes
over is interpreted: from every state a traversal can be in, its result and
the state it leaves behind are compared with what stepping would give."""
from dom import *
import fold
import sessions as ss
from client import Missing, opt_of

STD = {"core::iter::Iterator": {"Item", "next"},
       "streaming_iterator::StreamingIterator": {"Item", "advance", "get"},
       "streaming_iterator::StreamingIteratorMut": {"get_mut"},
       "core::iter::IntoIterator": {"Item", "IntoIter", "into_iter"},
       "core::clone::Clone": {"clone"},
       "core::cmp::PartialEq": {"eq"}}
DONE = {"core::iter::Iterator": {"nth", "count", "last", "size_hint", "fold", "for_each"},
        "streaming_iterator::StreamingIterator": {"is_done", "next", "nth", "count"},
        "streaming_iterator::StreamingIteratorMut": {"next_mut"}}
NTH = (0, 1, 2)
INF = 1 << 60


def taken(prog, trait, ms):
    """Methods of an implementation that the trait would have provided."""
    if trait in STD:
        return set(ms) - STD[trait] - {"assert_fields_are_eq", "assert_receiver_is_total_eq"}
    t = prog.traits.get(trait)
    if t is None:
        return set()
    return {n for n in ms if any(i[0] == n and i[2] for i in t["items"])}


def short(x):
    return x.replace("tree_iterators_rs::", "")


class Provided(ss.Pipe):
    def over(self, st, trait):
        v = self.I.get(st, st.g["it"][1], st.g["it"][2])
        if v[0] != "agg":
            return {}
        return {n: i for n, i in self.p.impls.get((trait, v[1]), {}).items() if n in taken(self.p, trait, self.p.impls[(trait, v[1])])}

    def handled(self, s, trait):
        ov = self.over(s, trait)
        for n in ov:
            if n not in DONE[trait]:
                self.I.note_unmodelled("%s is taken over" % n, s)
        return [n for n in ov if n in DONE[trait]]

    def skip(self, st, k):
        """(state, whether the sequence ended before k more elements)"""
        work = [(st, k)]
        while work:
            s, k = work.pop()
            if k == 0:
                s.depth = 0
                yield s, False
                continue
            for t in self.split_head(s):
                if not t.W:
                    yield t, True
                elif t.W[0][0] == "V" or t.W[0][0] == "LV":
                    t.W = t.W[1:]
                    t.depth = 0
                    work.append((t, k - 1))
                else:
                    raise Unmodelled("the head of the expected sequence is not known")

    def call(self, s, k, args, name, by="ref"):
        c = s.copy()
        v = self.I.get(c, c.g["it"][1], c.g["it"][2])
        return self.invoke(c, k, [c.g["it"] if by == "ref" else v] + args, name)

    def number(self, s, v):
        v = self.I.deref_all(s, v)
        if v[0] != "L" or v[2]:
            raise Unmodelled("a number that is not known")
        return v[1]

    def iter_methods(self, s):
        tr = "core::iter::Iterator"
        ov = self.over(s, tr)
        for n in self.handled(s, tr):
            if n == "nth":
                for k in NTH:
                    for t, ok, x in self.split_opt(self.call(s, ov[n], [L(k)], n)):
                        for u, end in self.skip(t, k):
                            self.obl += 1
                            if ok and end:
                                self.bad(u, "nth", "nth(%d) produced an element of a sequence with fewer" % k)
                            elif ok:
                                yield from self.expect_value(u, ss.val_node(x))
                            elif not end:
                                yield from self.expect_end(u)
            elif n == "size_hint":
                for t, v in self.call(s, ov[n], [], n):
                    self.bounds(t, v)
            elif n == "count":
                for t, v in self.call(s, ov[n], [], n, "val"):
                    c = self.number(t, v)
                    for u, end in self.skip(t, c):
                        self.obl += 1
                        if end:
                            self.bad(u, "count", "count() says %d of a sequence with fewer elements" % c)
                        else:
                            for w in self.split_head(u):
                                if w.W:
                                    self.bad(w, "count", "count() says %d although %s is still due" % (c, fold.show_word(w.W[:3])))
            elif n == "last":
                for t, ok, x in self.split_opt(self.call(s, ov[n], [], n, "val")):
                    self.last_is(t, ss.val_node(x) if ok else None)
            elif n in ("fold", "for_each"):
                self.acc = n == "fold"
                c = s.copy()
                c.g["acc"] = ("tok", "acc", 0)
                for t, v in self.call(c, ov[n], ([("tok", "acc", 0)] if self.acc else []) + [("ucl", "each")], n, "val"):
                    self.obl += 1
                    for u in self.split_head(t):
                        if u.W:
                            self.bad(u, n, "%s() ends although %s is still due" % (n, fold.show_word(u.W[:3])))
                        elif self.acc and self.I.resolve(u, v) != u.g["acc"]:
                            self.bad(u, n, "fold() does not return what the closure returned last")

    def each(self, I, st, args, g):
        n = ss.val_node(I.deref_all(st, args[-1]))
        h = ss.head(I, st)
        if n is None or h is None or h[1] != n:
            ss.fail(I, st, "order", "the closure is called with %s where %s is due" % (fold.show(args[-1]), fold.show_word(st.W[:2])))
        st.W = st.W[1:]
        if not self.acc:
            return UNIT
        if I.resolve(st, args[0]) != st.g["acc"]:
            ss.fail(I, st, "fold", "the closure is not given what it returned last")
        st.g["acc"] = ("tok", "acc", n)
        return st.g["acc"]

    def bounds(self, t, v):
        """A hint is compared with the fewest and the most elements that what
        is still due can amount to, given what is known of the tree."""
        fold.normalise(self.I, t)
        v = self.I.deref_all(t, v)
        lo = self.number(t, v[3][0])
        ok, hi = opt_of(self.I, t, v[3][1])
        least = most = 0
        vague = False
        for w in t.W:
            if w[0] in ("V", "LV"):
                least, most = least + 1, most + 1
            elif w[0] == "T":
                least, most = least + 1, INF
            elif w[0] in ("F", "O"):
                most = INF
            elif w[0] == "B":
                if any(x[0] == "Q" for x in w[1]):
                    vague = True
                if w[1]:
                    most = INF
            else:
                vague = True
        self.obl += 1
        if lo > least:
            if vague:
                raise Unmodelled("the least number of elements is not known")
            self.bad(t, "size_hint", "size_hint() promises at least %d elements where only %s is still due" % (lo, fold.show_word(t.W)))
        if ok:
            hi = self.number(t, hi)
            self.obl += 1
            if vague and hi < INF:
                raise Unmodelled("the greatest number of elements is not known")
            if most > hi:
                self.bad(t, "size_hint", "size_hint() promises at most %d elements where %s is still due" % (hi, fold.show_word(t.W)))

    def last_is(self, st, n):
        work = [(st, None)]
        while work:
            s, prev = work.pop()
            if s.depth > 40:
                self.I.note_unmodelled("long sequence", s)
                continue
            for t in self.split_head(s):
                if t.W:
                    x = t.W[0][1]
                    t.W = t.W[1:]
                    work.append((t, x))
                else:
                    self.obl += 1
                    if prev != n:
                        self.bad(t, "last", "last() gives %s where %s is the last element" % (fold.show(n) if n else "nothing", fold.show(prev) if prev else "nothing"))

    def step_iter(self, s):
        yield from self.step_next(s.copy())
        yield from self.iter_methods(s)

    def step_stream2(self, s, check, getter):
        """advance, then what the provided methods say about the element"""
        ss_ = "streaming_iterator::StreamingIterator"
        ov = self.over(s, ss_)
        hs = self.handled(s, ss_)
        if "is_done" in hs:
            for t, _ in self.call_method(s.copy(), s.g["it"], "advance", trait="StreamingIterator"):
                for u, ok, x in self.split_opt(self.call_method(t, t.g["it"], "get", trait="StreamingIterator")):
                    for w, b in self.call(u, ov["is_done"], [], "is_done"):
                        self.obl += 1
                        if b not in (TRUE, FALSE):
                            raise Unmodelled("is_done is not determined")
                        if (b == TRUE) == ok:
                            self.bad(w, "is_done", "is_done() is %s although get() gives %s" % ("true" if ok else "false", "an element" if ok else "nothing"))
        for n, tr in (("next", ss_), ("next_mut", ss_ + "Mut")):
            o = self.over(s, tr).get(n)
            if o is not None:
                yield from self.streamed(self.call(s, o, [], n), check)
        if "nth" in hs:
            for k in NTH:
                for t, ok, x in self.split_opt(self.call(s, ov["nth"], [L(k)], "nth")):
                    for u, end in self.skip(t, k):
                        self.obl += 1
                        if ok and end:
                            self.bad(u, "nth", "nth(%d) produced an element of a sequence with fewer" % k)
                        elif not ok and not end:
                            yield from self.expect_end(u)
                        elif ok:
                            yield from self.recheck(u, x, check)
        self.handled(s, ss_ + "Mut")
        yield from self.step_stream(s.copy(), check, getter)

    def streamed(self, pairs, check):
        for u, ok, x in self.split_opt(pairs):
            if ok:
                yield from self.recheck(u, x, check)
            else:
                yield from self.expect_end(u)


def run_provided(prog, kind, own, binary, order, coll, getter="get"):
    at = {"plain": "", "leaves": ".leaves()", "anc": ".attach_ancestors()", "ctx": ".attach_context()", "source": ""}[kind]
    S = Provided(prog, own, binary, order, coll,
                 label="%s%s::%s%s%s: provided methods" % (own, " binary" if binary else "",
                                                           "into_pipeline" if kind == "source" else order, "_each" if coll else "", at))
    S.I.hooks["ucl:each"] = S.each
    tr = "streaming_iterator::StreamingIterator" if kind in ("anc", "ctx") else "core::iter::Iterator"

    def relevant(s):
        return S.over(s, tr) or tr[-1] == "r" and tr[0] == "s" and S.over(s, tr + "Mut")
    if kind == "plain":
        start, step = S.begin, S.step_iter
    elif kind == "source":
        start, step = S.begin_pipe, S.step_iter
    elif kind == "leaves":
        S.I.mode = "bleaf" if order == "bfs" else "leaf"

        def start():
            for s in S.begin():
                s.W = ss.leaf_word(s.W)
                fold.normalise(S.I, s)
                for t, v in S.call_method(s, s.g["it"], "leaves", by="val"):
                    t.g["it"] = ("ref", t.new_cell(v), ())
                    yield t
        step = S.step_iter
    else:
        S.I.keep = True
        chk = S.check_anc if kind == "anc" else S.check_ctx

        def start():
            yield from S.begin("attach_ancestors" if kind == "anc" else "attach_context")

        def step(s):
            yield from S.step_stream2(s, chk, getter)
    S.explore(lambda: (s for s in start() if relevant(s)), step)
    return S


def listed(prog, R, trait, ims):
    def run(prog):
        r = R("implementations of %s" % short(trait))
        r.obl = len(ims)
        r.paths = len(ims)
        un = []
        for st, ms in ims:
            x = taken(prog, trait, ms)
            if "tree_iterators::" not in short(st).replace("tree_collection_iterators::", "tree_iterators::"):
                x -= DONE.get(trait, set())     # pipeline stages have no session of their own
            if x:
                un.append("%s takes over %s" % (short(st), ", ".join(sorted(x))))
        r.status = "undecided" if un else "proved"
        r.reasons = un[:8]
        return r
    return run


def tasks(session_task, R):
    def f(prog):
        by = {}
        for im, st in prog.impl_list:
            if im.get("derived"):
                continue
            if im["trait"] in STD or im["trait"] in prog.traits:
                name = st.get("p") or st["k"]
                by.setdefault(im["trait"], []).append((name, [n for n, _ in im["items"]]))
        out = [listed(prog, R, t, ims) for t, ims in sorted(by.items())]
        it = any(taken(prog, t, ms) for t in STD if t.endswith("::Iterator") for _, ms in by.get(t, []))
        sm = any(taken(prog, t, ms) for t in STD if "streaming" in t for _, ms in by.get(t, []))
        for own in ss.OWN:
            for b in (False, True):
                for c in (False, True):
                    if it:
                        out.append(session_task(run_provided, ("source", own, b, "dfs_preorder", c)))
                    for o in ss.orders(b):
                        if it:
                            out.append(session_task(run_provided, ("plain", own, b, o, c)))
                            if not c:
                                out.append(session_task(run_provided, ("leaves", own, b, o, c)))
                        if sm:
                            for k in ("anc", "ctx")[c:]:
                                out.append(session_task(run_provided, (k, own, b, o, c)))
                                if own != "Borrowed":
                                    out.append(session_task(run_provided, (k, own, b, o, c, "get_mut")))
        return out
    return f
