"""The node types the crate provides and the accessors of contexts: every
body is run once per case on a value whose parts are opaque tokens."""
from dom import *
import fold
import contract as ct
from client import Missing
from sessions import Session, P, node_trait

EXP = {("Owned", False): "get_value_and_children", ("MutBorrowed", False): "get_value_and_children_iter_mut",
       ("Borrowed", False): "get_value_and_children_iter", ("Owned", True): "get_value_and_children_binary",
       ("MutBorrowed", True): "get_value_and_children_binary_iter_mut", ("Borrowed", True): "get_value_and_children_binary_iter"}


def tok(x):
    return ("tok", x)


class Parts(Session):
    def __init__(self, prog, label, own="Owned", binary=False):
        Session.__init__(self, prog, own, binary, "dfs_preorder", label=label)
        self.I.keep = True
        self.I.slots = False

    def adt(self, name):
        for k in self.p.adts:
            if k.split("::")[-1] == name and self.p.adts[k]["local"]:
                return k
        raise Missing("type %s is not part of the crate" % name)

    def struct(self, adt, fields):
        names = [x for x, _ in self.p.adts[adt]["variants"][0][1]]
        if sorted(names) != sorted(fields):
            raise Unmodelled("fields of %s are %s" % (adt, names))
        return ("agg", adt, 0, tuple(fields[x] for x in names)), {x: ("f", i) if False else i for i, x in enumerate(names)}

    def fields(self, st, v):
        if v[0] != "agg":
            raise Unmodelled("result is %s" % v[0])
        return v[3]

    def check(self, st, ok, msg):
        self.obl += 1
        if not ok:
            self.bad(st, "parts", msg)
            return False
        return True


class Node(Parts):
    """get_value_and_children of a library node type."""

    def __init__(self, prog, own, binary):
        Parts.__init__(self, prog, "%s: %s" % ("BinaryTree" if binary else "Tree", EXP[own, binary]), own, binary)

    def run(self):
        adt = self.adt("BinaryTree" if self.binary else "Tree")
        tr = node_trait(self.own, self.binary)
        key = None
        for (t, a), ms in self.p.impls.items():
            if a == adt and t.endswith("::" + tr):
                key = ms.get(EXP[self.own, self.binary])
        if key is None:
            raise Missing("%s does not implement %s" % (adt, tr))
        for mask in range(4 if self.binary else 1):
            st = State()
            st.W = ()
            inner = [None, None]
            if self.binary:
                parts = {"value": tok("value")}
                for i, x in enumerate(("left", "right")):
                    if mask >> i & 1:
                        inner[i] = st.new_cell(tok(x))
                        parts[x] = some(("box", inner[i]))
                    else:
                        parts[x] = NONE
            else:
                parts = {"value": tok("value"), "children": tok("children")}
            v, at = self.struct(adt, parts)
            if self.own != "Owned":
                v = ("ref", st.new_cell(v), ())
            for s, r in self.invoke(st, self.need(key), [v], EXP[self.own, self.binary]):
                fs = self.fields(s, r)
                if len(fs) != 2:
                    raise Unmodelled("result has %d parts" % len(fs))
                good = self.same(s, v, fs[0], parts["value"], at["value"], "value")
                if not self.binary:
                    good &= self.same(s, v, fs[1], parts["children"], at["children"], "children")
                else:
                    slots = self.fields(s, fs[1])
                    if len(slots) != 2:
                        raise Unmodelled("result has %d slots" % len(slots))
                    for i, x in enumerate(("left", "right")):
                        o = s and slots[i]
                        if o[0] != "agg" or o[1] != OPT:
                            raise Unmodelled("a slot is %s" % o[0])
                        got = self.I.deref_all(s, self.unbox(s, o[3][0])) if o[2] else None
                        want = tok(x) if mask >> i & 1 else None
                        good &= self.check(s, got == want, "the %s slot holds %s where the node has %s" % (
                            x, got[1] if got else "nothing", want[1] if want else "no child"))
                if good:
                    yield s

    def unbox(self, s, v):
        return s.mem[v[1]] if v[0] == "box" else v

    def same(self, s, node, got, want, i, what):
        x = self.I.deref_all(s, got)
        ok = x == want
        if self.own != "Owned" and got[0] == "ref":
            # the very field, not a copy of it
            ok = ok and got[1] == node[1]
        return self.check(s, ok, "the %s returned is not the node's %s" % (what, what))


def run_node(prog, own, binary):
    S = Node(prog, own, binary)
    S.explore(lambda: list(S.run()), lambda s: ())
    return S


class Context(Parts):
    """An accessor of TreeContext, for contexts of trees and of collections."""

    def __init__(self, prog, name):
        Parts.__init__(self, prog, "TreeContext::" + name)
        self.name = name

    def run(self):
        adt = self.adt("TreeContext")
        ks = self.p.inherent.get((adt, self.name))
        if not ks:
            raise Missing("TreeContext::%s is not part of the crate" % self.name)
        for depth in range(4):
            for extra in (0, 1):
                st = State()
                st.W = ()
                path = ("seq", "vec", tuple(("el", st.new_cell(tok("p%d" % i))) for i in range(depth + extra)))
                anc = ("seq", "vec", tuple(("el", st.new_cell(tok("a%d" % i))) for i in range(depth + 1)))
                v, at = self.struct(adt, {"path": path, "ancestors": anc, "children": some(tok("children"))})
                ref = ("ref", st.new_cell(v), ())
                for s, r in self.invoke(st, self.need(ks[0]), [ref], self.name):
                    n = self.name
                    if n == "depth":
                        if r[0] != "L":
                            raise Unmodelled("depth is %s" % r[0])
                        ok = r == L(depth)
                        msg = "depth is %s for a node at depth %d%s" % (fold.show(r), depth, " of a tree in a collection" if extra else "")
                    else:
                        want = {"path": path, "ancestors": anc}.get(n.split("_")[0], tok("children"))
                        x = self.I.deref_all(s, r)
                        if x[0] not in ("seq", "tok"):
                            raise Unmodelled("%s is %s" % (n, x[0]))
                        ok = x[-1] == want[-1]
                        msg = "%s does not return the context's %s" % (n, n.split("_")[0])
                    if self.check(s, ok, msg):
                        yield s


def run_context(prog, name):
    S = Context(prog, name)
    S.explore(lambda: list(S.run()), lambda s: ())
    return S


def run_cloned(prog, binary, k):
    adt = "BinaryTree" if binary else "Tree"
    lab = "%s::cloned #%d" % (adt, k)
    full = next((a for a in prog.adts if a.split("::")[-1] == adt and prog.adts[a]["local"]), None)
    ks = prog.inherent.get((full, "cloned")) or ()
    if len(ks) <= k:
        raise Missing("%s::cloned is not part of the crate for both kinds of references" % adt)
    S = ct.Contract(prog, ["collect"], binary, False, lab, eager="map", own="Borrowed", depth=ct.DEPTH - 1, entry=ks[k])
    return ct.explore(S, None)


class Derive(Parts):
    """clone, eq and default of a node type treat every field."""

    def __init__(self, prog, binary, what):
        Parts.__init__(self, prog, "%s::%s" % ("BinaryTree" if binary else "Tree", what), binary=binary)
        self.what = what

    def run(self):
        adt = self.adt("BinaryTree" if self.binary else "Tree")
        trait, name = {"clone": ("clone::Clone", "clone"), "eq": ("cmp::PartialEq", "eq"), "default": ("default::Default", "default")}[self.what]
        key = None
        for (t, a), ms in self.p.impls.items():
            if a == adt and t.endswith(trait):
                key = ms.get(name)
        if key is None:
            raise Missing("%s does not implement %s" % (adt, trait))
        names = [x for x, _ in self.p.adts[adt]["variants"][0][1]]
        st = State()
        st.W = ()

        def obj(side):
            return ("ref", st.new_cell(("agg", adt, 0, tuple(tok(side + x) for x in names))), ())
        if self.what == "clone":
            for s, r in self.invoke(st, self.need(key), [obj("")], name):
                if self.check(s, tuple(self.fields(s, r)) == tuple(tok("clone of " + x) for x in names), "a field of the clone is not the clone of that field"):
                    yield s
        elif self.what == "eq":
            for s, r in self.invoke(st, self.need(key), [obj("left "), obj("right ")], name):
                if r[0] != "L" or not is_const(r):
                    raise Unmodelled("eq gives %s" % fold.show(r))
                ans = [s.bools.get(("same", x)) for x in names]
                if r[1]:
                    ok = all(a is True for a in ans)
                else:
                    ok = any(a is False for a in ans)
                if self.check(s, ok, "eq is %s with the fields %s" % (bool(r[1]), ", ".join(
                        "%s %s" % (x, {None: "not compared", True: "equal", False: "different"}[a]) for x, a in zip(names, ans)))):
                    yield s
        else:
            for s, r in self.invoke(st, self.need(key), [], name):
                fs = dict(zip(names, self.fields(s, r)))
                ok = fs["value"] == tok("default")
                if self.binary:
                    ok = ok and fs["left"] == NONE and fs["right"] == NONE
                else:
                    ok = ok and fs["children"][0] == "seq" and not fs["children"][2]
                if self.check(s, ok, "the default node is not a single default value"):
                    yield s


def run_derive(prog, binary, what):
    S = Derive(prog, binary, what)
    S.explore(lambda: list(S.run()), lambda s: ())
    return S
