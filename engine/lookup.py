"""Lookup by path: the result is the node the path leads to, or nothing when
some step has no child.  Segments are symbols (any index), paths have up to
LENGTH segments; what the children collection holds is decided lazily."""
import itertools
from dom import *
import fold
import client
from client import Missing, ROOT, COLL
from sessions import Session, P, PSUF, node_trait, coll_trait

LENGTH = 4


class Lookup(Session):
    def __init__(self, prog, own, binary, coll):
        Session.__init__(self, prog, own, binary, "dfs_preorder", coll,
                         label="%s%s%s::at_path%s" % (own, " binary" if binary else "", " collection" if coll else "", PSUF[own]))
        self.I.abstract = lambda I, st: None
        self.I.keep = True
        self.I.slots = False

    def paths(self):
        if self.I.fold_enabled:
            for n in range(LENGTH + 1):
                yield tuple(lin_sym("P%d" % i) for i in range(n))
        else:
            for n in range(4):
                for t in itertools.product(range(3 if self.binary else client.WIDTH + 1), repeat=n):
                    yield tuple(L(x) for x in t)

    def run(self):
        tr = coll_trait(self.own, self.binary) if self.coll else node_trait(self.own, self.binary)
        key = self.need(P + tr + "::at_path" + PSUF[self.own])
        for p in self.paths():
            st = State()
            st.W = ()
            st.g["asked"] = ()
            st.g["path"] = p
            for x in p:
                for s, _ in x[2]:
                    st.lb[s] = 0
            arg = ("ref", st.new_cell(("seq", "vec", tuple(("el", st.new_cell(x)) for x in p))), ())
            for s, v in self.invoke(st, key, [self.root_value(), arg], "at_path"):
                for t, ok, x in self.split_opt([(s, v)]):
                    for u in self.judge(t, t.g["path"], ok, x):
                        yield u

    def exists(self, st, n, x):
        """Whether node n has child x; None when nobody asked."""
        for m, j, f in st.g["asked"]:
            if m == n and j == x:
                return f
            if m == n and not f and is_const(x) and is_const(j) and j[1] < x[1]:
                return False
        return None

    def judge(self, st, p, ok, v):
        self.obl += 1
        n = COLL if self.coll else ROOT
        if self.coll and not p:
            n = None
        why = None
        for i, x in enumerate(p):
            if self.binary and n != COLL:
                for k in (0, 1):
                    d = st.decide_eq0(lin_c(x, -k))
                    if d is None:
                        why = "undecided"
                        break
                    if d:
                        x = L(k)
                        break
                else:
                    n = None
                    break
                if why:
                    break
            f = self.exists(st, n, x)
            if f is None:
                why = "undecided"
                break
            if not f:
                n = None
                break
            n = ("ch", n, x)
        shown = "[%s]" % ", ".join(fold.show(x) for x in p)
        if why:
            self.bad(st, "lookup", "the result for the path %s does not depend on whether the node has a child at segment %d" % (shown, i))
            return
        got = self.I.deref_all(st, v) if ok else None
        if got is not None and got[0] != "node":
            raise Unmodelled("at_path gives %s" % got[0])
        if (got[1] if got else None) != n:
            self.bad(st, "lookup", "the path %s gives %s instead of %s" % (shown, fold.show(got[1]) if got else "nothing", fold.show(n) if n else "nothing"))
            return
        yield st


def run_lookup(prog, own, binary, coll):
    S = Lookup(prog, own, binary, coll)
    S.explore(lambda: list(S.run()), lambda s: ())
    return S
