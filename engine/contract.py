"""Pipeline stages over any inner stage (assume and guarantee).

The inner stage is not a body of the crate but its contract: it yields the
nodes of a tree (or of the trees of a collection) in depth-first preorder,
current_path is the path of the node yielded last, and after
prune_current_subtree the descendants of that node are not yielded.  The
contract is what the sources are shown to provide and what the adapters are
shown to provide in turn, so it holds for every chain of stages.

Abstraction: the depth of the current node is explicit up to HEIGHT; the
number of siblings before the current node on every level, and how many of
them were removed, are symbols.  At loop heads and between client calls every
integer of the state is replaced by an expression over these symbols; the
expressions are candidates that are dropped when a later state refutes them
(the exploration is then repeated), so what remains is inductive."""
import os
from dom import *
import fold
import client
from client import Missing, ROOT, COLL
from sessions import Session, P, PSUF, node_trait, coll_trait, choose, fail

TREES = {"Tree": False, "BinaryTree": True}
TI = "tree_iterators_rs::tree_iterators::"
TCI = "tree_iterators_rs::tree_collection_iterators::"
INNER = ("inner",)
DEPTH = 3 if os.environ.get("VERIF_TIER", "quick") == "quick" else 4
SAMPLE = 4
SAMPLES = 250
DEBUG = False


def canonical(i, fam):
    return "%s%d" % (fam, i)


def is_tree(v):
    return v[0] == "agg" and v[1].split("::")[-1] in TREES and "prelude" in v[1]


class Contract(Session):
    def __init__(self, prog, stages, binary, coll, label, eager=None, own="Owned", limit=None, depth=None, entry=None):
        Session.__init__(self, prog, own, binary, "dfs_preorder", coll, label=label)
        self.stages = stages
        self.eager = eager
        self.entry = entry          # a method without arguments that clones the values, given by its body
        self.own = own
        self.lim = limit
        self.deep = depth or (DEPTH - 1 if coll else DEPTH)
        self.may_be_empty = coll or not eager
        self.I.keep = True
        self.I.abstract = self.abstract
        self.I.inner = self
        self.I.slots = False
        self.I.hooks["ucl:f"] = self.closure
        self.cand = {}
        self.apart = {}
        self.base = {}
        self.sampling = False
        self.nodes = None
        last = stages[-1]
        self.consumer = last if last in ("collect", "fold", "fold_path") else None
        self.adapters = stages[:-1] if self.consumer else stages
        self.what = stages[0] if stages[0] != "collect" else None

    # ------------------------------------------------------ the inner stage
    def levels(self, st):
        return st.g["lv"]

    def node(self, st, j):
        n = COLL if self.coll else None
        for k, l in enumerate(st.g["lv"][:j + 1]):
            n = ROOT if n is None else ("ch", n, l[1])
        return n

    def path(self, st, lv=None, out=False):
        lv = st.g["lv"] if lv is None else lv
        ls = lv if self.coll else lv[1:]
        return tuple(l[2] if out and self.compacts() else l[1] for l in ls)

    def compacts(self):
        return not self.binary and any(a in ("prune", "prune_path") for a in self.adapters)

    def options(self, st):
        lv = st.g["lv"]
        if st.g["ph"] == "fresh":
            return [("first", 0), ("end",)] if self.may_be_empty else [("first", 0)]
        if st.g["ph"] == "end":
            return [("end",)]
        o = []
        d = len(lv)
        if st.g.get("sp") and client.HEIGHT > 12:
            return [("end",)]
        wide = self.I.fold_enabled and not self.sampling
        if st.g["cut"] != "y" and d < (self.deep if self.I.fold_enabled else client.HEIGHT if client.WIDTH <= 1 else min(client.HEIGHT, 6)) + 1:
            if self.binary and client.WIDTH == 0 and not self.I.fold_enabled:
                o += [("child", d & 1)]
            else:
                o += [("child", 0)] + ([("child", 1)] if self.binary else [])
        for j in range(d - 1, -1, -1):
            if j == 0 and not self.coll:
                continue
            slot = self.binary and j > 0
            if slot and (lv[j][1] != L(0) or client.WIDTH == 0 and not self.I.fold_enabled and (st.g.get("sp") or not client.SPARE)):
                continue
            if not self.I.fold_enabled and client.SPARE and not st.g.get("sp"):
                if not slot or lv[j][1][1] == 0:
                    o.append(("sib", j))
                continue
            if self.sampling:
                if not slot and sum(l[1][1] for i, l in enumerate(lv[:j + 1]) if not self.binary or i == 0) >= SAMPLE:
                    continue
            elif not wide and not slot and lv[j][1][1] + 1 >= client.WIDTH:
                continue
            o.append(("sib", j))
        o.append(("end",))
        return o

    def inner_call(self, I, st, name, args):
        if name == "next":
            return self.inner_next(I, st)
        if name == "prune_current_subtree":
            if st.g["ph"] == "on":
                st.g["cut"] = "y"
            return UNIT
        if name == "current_path":
            return ("ref", st.new_cell(("seq", "vec", tuple(("el", st.new_cell(x)) for x in self.ipath(st)))), ())
        if name == "size_hint":
            return ("agg", "()", 0, (L(0), NONE))
        return None

    def ipath(self, st):
        return self.path(st) if st.g["ph"] == "on" else ()

    def close(self, st, j):
        """The levels from j on are finished."""
        if not self.consumer:
            return
        lv = st.g["lv"]
        done = list(st.g["done"])
        drop = st.g["drop"] == "y"
        for k in range(len(lv) - 1, j - 1, -1):
            last = k == len(lv) - 1
            if last and drop:
                continue
            n = self.node(st, k)
            if self.binary and (k > 0 or not self.coll):
                cnt = lv[k][3]
            else:
                cnt = None
            if self.binary:
                cnt = lv[k][3]
                if not last:
                    b = list(cnt)
                    if not (drop and k + 1 == len(lv) - 1):
                        b[lv[k + 1][1][1]] = "y"
                    cnt = tuple(b)
            else:
                cnt = L(0) if last else lin_c(lv[k + 1][2], 0 if drop and k + 1 == len(lv) - 1 else 1)
            par = self.node(st, k - 1) if k else COLL if self.coll else None
            done.append(("done", n, par, lv[k][2], cnt, self.path(st, lv[:k + 1], True)))
            if k == 0:
                st.g["trees"] = st.g["trees"] + (n,)
        st.g["done"] = tuple(done)

    def inner_next(self, I, st):
        opts = self.options(st)
        if st.g["due"] is not None:
            fail(I, st, "lost", "a value is dropped: the next node is requested before it was passed on")
        if st.g["drop"] == "y" and st.g["cut"] != "y":
            fail(I, st, "subtree", "the descendants of a pruned node are not skipped")
        if self.consumer and st.g["cut"] == "y" and st.g["drop"] == "n" and st.g["want"] == "n":
            fail(I, st, "subtree", "descendants of a node that is not pruned are skipped")
        if st.g["want"] == "cut" and st.g["cut"] != "y":
            fail(I, st, "subtree", "descendants below the depth limit are not skipped")
        if len(opts) == 1:
            o = opts[0]
        else:
            k = ("step",)
            o = st.bools.get(k)
            if o is None:
                def mk(x):
                    def f(s):
                        s.bools[k] = x
                    return f
                raise Split([mk(x) for x in opts])
            del st.bools[k]
        lv = st.g["lv"]
        none = ("n", "n") if self.binary else ()
        if o[0] == "end":
            if st.g["ph"] == "on":
                self.close(st, 0)
            st.g["ph"] = "end"
            st.g["old"] = lv
            st.g["gone"] = st.g["drop"]
            st.g["lv"] = ()
            st.g["cut"] = st.g["drop"] = st.g["want"] = "n"
            return NONE
        drop = st.g["drop"] == "y"
        if o[0] == "first":
            st.g["lv"] = (("lv", L(0), L(0), none),)
            st.g["old"] = ()
        elif o[0] == "child":
            st.g["lv"] = lv + (("lv", L(o[1]), L(o[1]) if self.binary else L(0), none),)
            st.g["old"] = ()
        else:
            if not self.I.fold_enabled and client.SPARE:
                st.g["sp"] = "y"
            j = o[1]
            self.close(st, j)
            old = lv[j]
            d = drop and j == len(lv) - 1
            up = lv[:j]
            if self.binary and j > 0 and not d:
                # the finished slot stays known on its parent's level
                p = list(up[-1][3])
                p[old[1][1]] = "y"
                up = up[:-1] + (("lv", up[-1][1], up[-1][2], tuple(p)),)
            # removed nodes do not take up an index
            out = lin_c(old[2], 0 if d and self.compacts() else 1)
            st.g["old"] = lv[j:]
            st.g["gone"] = st.g["drop"]
            st.g["lv"] = up + (("lv", lin_c(old[1], 1), out, none),)
        st.g["ph"] = "on"
        st.g["cut"] = st.g["drop"] = st.g["want"] = "n"
        n = self.node(st, len(st.g["lv"]) - 1)
        st.g["due"] = ("val", n)
        if self.consumer and self.what in (None, "fold", "fold_path", "prune_depth"):
            st.g["due"] = None
        if self.consumer and self.what == "prune_depth" and len(st.g["lv"]) - 1 == self.lim:
            st.g["want"] = "cut"
        if self.entry:
            # the tree holds references
            return some(("ref", st.new_cell(("ref", st.new_cell(("val", n)), ())), ()))
        return some(("val", n))

    # ------------------------------------------------------ the closure
    def current(self, st):
        return self.node(st, len(st.g["lv"]) - 1) if st.g["ph"] == "on" else None

    def check_path(self, I, st, v, want, what):
        v = I.deref_all(st, v)
        if v[0] == "agg" and v[1] == "[]":
            xs = list(v[3])
        elif v[0] == "seq" and all(p[0] == "el" for p in v[2]):
            xs = [st.mem[p[1]] for p in v[2]]
        else:
            raise Unmodelled("%s is %s" % (what, v[0]))
        self.obl += 1
        ok = len(xs) == len(want)
        if ok:
            for x, w in zip(xs, want):
                if x[0] != "L":
                    raise Unmodelled("%s holds %s" % (what, x[0]))
                r = st.decide_eq0(lin_add(x, w, -1))
                if r is None:
                    I.split_cmp(lin_add(x, w, -1), "eq")
                ok = ok and r
        if not ok:
            return "%s is [%s], expected [%s]" % (what, ", ".join(fold.show(x) for x in xs), ", ".join(fold.show(x) for x in want))
        return None

    def closure(self, I, st, args, g):
        k = self.what
        if k in ("fold", "fold_path"):
            return self.fold_closure(I, st, args)
        x = I.deref_all(st, args[-1])
        n = self.current(st)
        self.obl += 1
        if n is None or x != ("val", n) or st.g["due"] != ("val", n):
            fail(I, st, "calls", "the closure is called with %s where %s is due"
                 % (fold.show(x), fold.show(st.g["due"]) if st.g["due"] else "no call"))
        if k.endswith("_path"):
            why = self.check_path(I, st, args[0], self.path(st), "the path given to the closure")
            if why:
                fail(I, st, "path", why)
        if k.startswith("map"):
            st.g["due"] = None if self.consumer else ("out", n)
            return ("out", n)
        cut = choose(st, ("cut",))
        if cut:
            st.g["drop"] = "y"
            st.g["due"] = None
        else:
            st.g["due"] = None if self.consumer else ("pass", n)
        return TRUE if cut else FALSE

    def res(self, st, v):
        """The node whose complete result v is, or None."""
        if v[0] == "res":
            return v[1]
        if v[0] == "box":
            return self.res(st, st.mem[v[1]])
        if is_tree(v) and TREES[v[1].split("::")[-1]] == self.binary:
            f = dict(zip([x for x, _ in self.p.adts[v[1]]["variants"][0][1]], v[3]))
            val = f["value"]
            want = "out" if self.what and self.what.startswith("map") else "val"
            if val[0] != want:
                return None
            n = val[1]
            if not self.binary:
                kids = f["children"]
                if kids[0] == "seq" and self.complete(st, n, kids):
                    return n
                return None
            if self.complete2(st, n, (f["left"], f["right"])):
                return n
        return None

    def done(self, st, n):
        for d in st.g["done"]:
            if d[1] == n:
                return d
        return None

    def flatten(self, st, v):
        """(parent, number) when v holds the results of the first kept
        children of one node, in order."""
        par, k = None, L(0)
        for p in v[2]:
            if p[0] == "rng":
                if par is not None:
                    return None
                par, k = p[1], p[2]
                continue
            if p[0] != "el":
                return None
            m = self.res(st, st.mem[p[1]])
            d = self.done(st, m) if m is not None else None
            if d is None or d[2] is None or par is not None and d[2] != par:
                return None
            if st.decide_eq0(lin_add(d[3], k, -1)) is not True:
                return None
            par, k = d[2], lin_c(k, 1)
        return par, k

    def complete(self, st, n, kids):
        d = self.done(st, n)
        if d is None:
            return False
        fl = self.flatten(st, kids)
        if fl is None:
            return False
        return (fl[0] is None or fl[0] == n) and st.decide_eq0(lin_add(d[4], fl[1], -1)) is True

    def complete2(self, st, n, slots):
        d = self.done(st, n)
        if d is None:
            return False
        for i in (0, 1):
            v = slots[i]
            if v[0] != "agg" or v[1] != OPT:
                return False
            if (v[2] == 1) != (d[4][i] == "y"):
                return False
            if v[2] == 1:
                m = self.res(st, v[3][0])
                if m != ("ch", n, L(i)):
                    return False
        return True

    def fold_closure(self, I, st, args):
        x = I.deref_all(st, args[-1])
        items = args[0]
        while items[0] == "ref":
            items = I.get(st, items[1], items[2])
        self.obl += 1
        n = x[1] if x[0] == "val" else None
        d = self.done(st, n) if n is not None else None
        if d is None:
            fail(I, st, "calls", "the closure is called for %s, which is not finished or was folded already" % fold.show(x))
        if self.binary:
            ok = items[0] == "agg" and items[1] == "[]" and len(items[3]) == 2 and self.complete2(st, n, items[3])
        else:
            ok = items[0] == "seq" and self.complete(st, n, items)
        if not ok:
            fail(I, st, "children", "the closure is not given exactly the results of the node's children, in order")
        if self.what == "fold_path":
            why = self.check_path(I, st, args[1], d[5], "the path given to the closure")
            if why:
                fail(I, st, "path", why)
        if ("folded", n) in st.g["called"]:
            fail(I, st, "calls", "the closure is called twice for one node")
        st.g["called"] = st.g["called"] + (("folded", n),)
        return ("res", n)

    # ------------------------------------------------------ abstraction
    def absorb(self, st):
        """Consecutive results of one node's children become a range."""
        for c in list(st.mem):
            v = st.mem[c]
            if v[0] in ("seq", "agg") and mentions(v, lambda x: x and x[0] == "seq"):
                st.mem[c] = rewrite(v, lambda x: self.absorb_seq(st, x))

    def absorb_seq(self, st, v):
        if not v or v[0] != "seq":
            return None
        if not v[2]:
            return None
        f = self.flatten(st, v)
        if f is None or f[0] is None or f[0] == COLL:
            return None
        return ("seq", v[1], (("rng", f[0], f[1]),))

    def tidy(self, st):
        """Forget finished nodes that nothing refers to any more."""
        keep = []
        vals = [v for v in st.mem.values()] + [st.g.get("due") or (), st.g["trees"]]
        for d in st.g["done"]:
            n = d[1]
            if any(mentions(v, lambda x: x == n) for v in vals):
                keep.append(d)
        st.g["done"] = tuple(keep)
        if self.compacts() or self.binary:
            # what a finished node's closure call or tree is checked against
            for i, d in enumerate(keep):
                if not any(mentions(v, lambda x: x in (("val", d[1]), ("out", d[1]))) for v in vals):
                    keep[i] = d[:4] + ((("n", "n") if self.binary else L(0)), "-")
            st.g["done"] = tuple(keep)
        names = {d[1] for d in keep}
        st.g["called"] = tuple(x for x in st.g["called"] if x[1] in names)

    def box_results(self, st):
        """Finished trees under construction become results."""
        def f(v):
            if v and v[0] in ("agg", "box"):
                if v[0] == "agg" and not is_tree(v):
                    return None
                m = self.res(st, v)
                if m is not None and self.done(st, m) is not None:
                    return ("res", m)
            return None
        for _ in range(8):
            ch = False
            for c in list(st.mem):
                v = st.mem[c]
                w = rewrite(v, f)
                if w != v:
                    st.mem[c] = w
                    ch = True
            if not ch:
                break

    def abstract(self, I, st):
        if "lv" not in st.g:
            return
        if not self.binary:
            self.absorb(st)
        self.box_results(st)
        if not self.binary:
            self.absorb(st)
        fold.gc(I, st)
        self.tidy(st)
        if not st.g["done"]:
            st.g["old"] = ()
        if not st.g["old"]:
            st.g["gone"] = "n"
        if self.binary and not self.coll:
            return                     # everything is bounded by the depth
        # ---- bases: what the integers may be expressed by
        prims, forms, cls = [], [], []
        lv = list(st.g["lv"])
        old = list(st.g["old"])
        for fam, ls in (("lv", lv), ("old", old)):
            for i, l in enumerate(ls):
                if self.binary and not (self.coll and (fam == "lv" and i == 0 or fam == "old" and i == 0 and len(lv) <= 1)):
                    cls.append("b%d" % l[1][1])
                    continue
                if fam == "old" and i == 0 and lv:
                    # the finished sibling of the current node
                    d1, d2 = lin_add(lv[-1][1], l[1], -1), lin_add(lv[-1][2], l[2], -1)
                    if is_const(d1) and is_const(d2):
                        cls.append("s%d%d" % (d1[1], d2[1]))
                        continue
                if self.consumer and st.decide_eq0(l[2]) is True or not self.coll and (l[1], l[2]) == (L(0), L(0)) and i == 0 and (fam == "lv" or not lv):
                    k = None
                    cls.append("0")
                else:
                    k = canonical(i, "K" if fam == "lv" else "k")
                    cls.append("1")
                    prims.append((k, l[2], 1 if self.consumer else 0))
                    forms.append((k, l[2], ((k, 1),), 0))
                if self.compacts():
                    c = lin_add(l[1], l[2], -1)
                    s = canonical(i, "C" if fam == "lv" else "c")
                    prims.append((s, c, 0))
                    if fam == "lv" and i == len(lv) - 1 and st.g["drop"] == "y":
                        forms.append((s + "'", lin_c(c, 1), ((s, 1),), 1))
                    forms.append((s, c, ((s, 1),), 0))
                    forms.append((s + "+", l[1], ((s, 1),) if k is None else ((k, 1), (s, 1)), 0))
        if self.consumer and "prune" in (self.what or ""):
            # nodes may be removed between a finished node and the current one
            for i, d in enumerate(st.g["done"]):
                x = d[1]
                if x[0] == "ch" and (not self.binary or x[1] == COLL):
                    s = "D%d" % i
                    prims.append((s, x[2], 0))
                    forms.append((s, x[2], ((s, 1),), 0))
                if d[4] and d[4][0] == "L" and d[5] != "-":
                    s = "N%d" % i
                    prims.append((s, d[4], 0))
                    forms.append((s, d[4], ((s, 1),), 0))
        w = fold.Walk(I, st)
        w.run()
        cells = [c for c in w.cells if c in st.mem]
        ints = []

        def grab(v):
            if v and v[0] == "L":
                ints.append(v)
                return L(0)
            return None
        sk = st.copy()
        for c in cells:
            sk.mem[c] = rewrite(sk.mem[c], grab)
        for k in sorted(sk.g):
            sk.g[k] = rewrite(sk.g[k], grab)
        sk.lb, sk.ineq = {}, ()
        key = (fold.canon(I, sk), tuple(cls), len(ints))
        # ---- candidates
        def matches(v):
            out = []
            for name, have, _, _ in forms:
                for off in (0, -1, 1) if name[0] != "D" else (0,):
                    d = lin_add(lin_c(have, off), v, -1)
                    if is_const(d) and d[1] == 0:
                        out.append((2 * abs(off) + 3 * (name[0] in "DN"), name, off))
            if is_const(v):
                out.append((1, "const", v[1]))
            out.sort(key=lambda x: x[0])
            return out
        got = [matches(v) for v in ints]
        # constants that have no invariant in common are kept apart
        form = key
        for _ in range(8):
            apart = self.apart.setdefault(form, [])
            key = form + (tuple(ints[i][1] if is_const(ints[i]) and -2 < ints[i][1] < 12 else "n" for i in apart),)
            old = self.cand.get(key)
            lost = [] if old is None else [i for i, (o, g) in enumerate(zip(old, got)) if i not in apart and not any(x in g for x in o)
                                           and is_const(ints[i]) and any(x[1] == "const" for x in o)]
            if not lost:
                break
            apart.append(lost[0])
            I.sigdirty = True
        # numbers that never differ between the states of one form stay numbers
        bst = self.base.setdefault(key, {})
        for n, have, lo in prims:
            lw = st.lo(have)
            low = lo if lw is None or not self.consumer else max(lo, lw)
            c = have[1] if is_const(have) and self.consumer else None
            if n not in bst:
                bst[n] = [c, low]
                continue
            b = bst[n]
            if b[0] is not None and b[0] != c:
                b[0] = None
                I.sigdirty = True
            if low < b[1]:
                b[1] = low
                I.sigdirty = True
        old = self.cand.get(key)
        if old is None:
            self.cand[key] = got
        else:
            for i, (o, g) in enumerate(zip(old, got)):
                keep = [x for x in o if x in g]
                if keep[:1] != o[:1]:
                    I.sigdirty = True
                if not keep:
                    if DEBUG:
                        print("NOINV", {c: self.plain(st, st.mem[c]) for c in cells}, i, fold.show(ints[i]), o, g, [(b[0], fold.show(b[1])) for b in prims], [fold.show(x) for x in ints], {k: st.g[k] for k in st.g})
                    raise Unmodelled("no invariant for an integer")
                old[i] = keep
        if self.sampling:
            I.sigdirty = False
            return
        lbs = {}
        val = {}
        for n, _, lo in prims:
            c, low = bst[n]
            val[n] = lin_sym(n) if c is None else L(c)
            if c is None:
                lbs[n] = low
        can = {}
        for name, _, ps, off in forms:
            v = L(off)
            for n, q in ps:
                v = lin_add(v, val[n], q)
            can[name] = v
        ch = self.cand[key]
        pos = [0]

        def put(v):
            if v and v[0] == "L":
                i = pos[0]
                pos[0] += 1
                if not ch[i]:
                    raise Unmodelled("no invariant for an integer")
                _, name, off = ch[i][0]
                return L(off) if name == "const" else lin_c(can[name], off)
            return None
        for c in cells:
            st.mem[c] = rewrite(st.mem[c], put)
        for k in sorted(st.g):
            st.g[k] = rewrite(st.g[k], put)
        st.lb = lbs
        st.ineq = ()

    # ------------------------------------------------------ the client
    def stage_trait(self, s):
        t = "TreeCollectionIterator" if self.coll else "TreeIterator"
        if s.startswith("map") or s == "prune_depth":
            return (TCI if self.coll else TI) + t + "Base"
        return (TCI if self.coll else TI) + ("Binary" if self.binary else "") + t

    def method_name(self, s):
        return {("map", False): "map_tree", ("map", True): "map_trees", ("fold", False): "fold_tree", ("fold", True): "fold_trees",
                ("collect", False): "collect_tree", ("collect", True): "trees"}.get((s, self.coll), s)

    def begin_stages(self):
        st = State()
        st.W = ()
        st.g.update({"lv": (), "old": (), "done": (), "called": (), "ph": "fresh", "cut": "n", "drop": "n", "want": "n", "due": None,
                     "gone": "n", "trees": ()})
        if self.eager:
            tr = coll_trait(self.own, self.binary) if self.coll else node_trait(self.own, self.binary)
            self.I.hooks["prelude::" + tr + "::into_pipeline" + PSUF[self.own]] = lambda I, s, a, c: INNER
            args = [self.root_value()]
            if self.entry:
                pass
            elif self.lim is not None:
                args.append(L(self.lim))
            else:
                args.append(("ucl", "f"))
            key = self.entry or P + tr + "::" + self.eager + PSUF[self.own]
            res = self.invoke(st, self.need(key), args, self.eager)
        else:
            res = [(st, INNER)]
            for s in self.stages:
                nxt = []
                for t, v in res:
                    args = [v]
                    if s == "prune_depth":
                        args.append(L(self.lim))
                    elif s != "collect":
                        args.append(("ucl", "f"))
                    key = self.find(s, v)
                    nxt += self.invoke(t, key, args, self.method_name(s))
                res = nxt
        for s, v in res:
            s.g["it"] = ("ref", s.new_cell(v), ())
            yield s

    def find(self, s, v):
        name = self.method_name(s)
        if v[0] == "agg":
            k = self.method(v, name, self.stage_trait(s).split("::")[-1])
        else:
            k = self.stage_trait(s) + "::" + name
        if k is None or self.p.body(k) is None:
            raise Missing("%s::%s is not part of the crate" % (self.stage_trait(s), name))
        return k

    def base_trait(self):
        return "TreeCollectionIteratorBase" if self.coll else "TreeIteratorBase"

    def step_adapter(self, s):
        for t, ok, x in self.split_opt(self.call_method(s, s.g["it"], "next", trait="Iterator")):
            self.obl += 1
            if not ok:
                if t.g["ph"] != "end":
                    self.bad(t, "complete", "ended although the inner stage was not finished")
                elif t.g["due"] is not None:
                    self.bad(t, "lost", "ended although %s is due" % fold.show(t.g["due"]))
                else:
                    yield t
                continue
            n = self.current(t)
            want = {"prune_depth": ("val", n), "map": ("out", n), "map_path": ("out", n)}.get(self.what, ("val", n))
            due = t.g["due"]
            if due is not None and due[0] == "pass":
                due = ("val", due[1])
                passed = True
            else:
                passed = self.what not in ("prune", "prune_path")
            if due is None or x != want or due != want or not passed:
                self.bad(t, "order", "produced %s where %s is due" % (fold.show(x), fold.show(due) if due else "nothing"))
                continue
            t.g["due"] = None
            if self.what == "prune_depth":
                d = len(t.g["lv"]) - 1
                if d == self.lim:
                    t.g["want"] = "cut"
                elif t.g["cut"] == "y":
                    self.bad(t, "subtree", "descendants within the depth limit are skipped")
                    continue
            elif t.g["cut"] == "y":
                self.bad(t, "subtree", "the descendants of a node that was not pruned are skipped")
                continue
            for u in self.retry(t, self.observe):
                yield u.copy()
                for w, _ in self.call_method(u, u.g["it"], "prune_current_subtree", trait=self.base_trait()):
                    self.obl += 1
                    if w.g["cut"] != "y":
                        self.bad(w, "subtree", "prune_current_subtree has no effect")
                        continue
                    yield w

    def begin_consumer(self):
        """A consumer of one tree runs to its end at once."""
        for s in self.begin_stages():
            v = self.I.get(s, s.g["it"][1], s.g["it"][2])
            if v[0] == "agg" and v[1] == OPT:
                v = v[3][0] if v[2] else None
            self.obl += 1
            if s.g["ph"] != "end":
                self.bad(s, "complete", "returned before the inner stage was finished")
                continue
            want = s.g["trees"][0] if s.g["trees"] else None
            self.result(s, v, want)

    def result(self, s, v, want):
        if v is None or want is None:
            if v is not want:
                self.bad(s, "result", "no result where a tree is left" if v is None else "a result where no tree is left")
                return False
            return True
        if self.res(s, v) != want:
            self.bad(s, "result", "the result is not that of the remaining nodes: %s" % fold.show(self.plain(s, v)))
            return False
        return True

    def step_results(self, s):
        """A consumer of a collection: one result per tree."""
        for t, ok, x in self.split_opt(self.call_method(s, s.g["it"], "next", trait="Iterator")):
            self.obl += 1
            if not ok:
                if t.g["ph"] != "end" or t.g["trees"]:
                    self.bad(t, "complete", "ended although a tree is left")
                else:
                    yield t
                continue
            if not t.g["trees"]:
                self.bad(t, "result", "a result where no tree is finished")
                continue
            n = t.g["trees"][0]
            if self.result(t, x, n):
                t.g["trees"] = t.g["trees"][1:]
                yield t

    def observe(self, st):
        out = []
        for s, p in self.call_method(st, st.g["it"], "current_path", trait=self.base_trait()):
            why = self.check_path(self.I, s, p, self.path(s, None, True), "current_path")
            if why:
                self.bad(s, "path", why)
                continue
            for t, d in self.call_method(s, s.g["it"], "current_depth", trait=self.base_trait()):
                self.obl += 1
                if d[0] != "L" or not is_const(d):
                    raise Unmodelled("current_depth is %s" % d[0])
                if d[1] != len(t.g["lv"]) - 1:
                    self.bad(t, "depth", "current_depth is %s where the node's depth is %d" % (fold.show(d), len(t.g["lv"]) - 1))
                    continue
                out.append(t)
        return out

    def retry(self, st, f):
        work = [st]
        while work:
            s = work.pop()
            try:
                yield from f(s.copy())
            except Split as sp:
                for g in sp.refines:
                    c = s.copy()
                    if g(c) is not False:
                        work.append(c)


def explore(S, step):
    """First the states with few siblings, which rule out most candidates,
    then every number of siblings."""
    begin = S.begin_consumer if step is None else S.begin_stages

    def start():
        return list(begin() or ())
    if S.I.fold_enabled:
        lim, S.sampling, deep = client.MAX_CLIENT, True, S.deep
        client.MAX_CLIENT = SAMPLES
        try:
            for S.deep in range(1 if S.consumer else deep, deep + 1):
                S.explore(start, step)
                if S.viol or S.I.events:
                    return S
        finally:
            client.MAX_CLIENT, S.sampling, S.deep = lim, False, deep
        S.converged = False
    S.explore(start, step)
    return S


def run_stage(prog, kind, binary, coll, limit=None):
    lab = "%s%s%s over any inner stage%s" % ("binary " if binary else "", "collection " if coll else "", kind,
                                             "" if limit is None else " (limit %d)" % limit)
    S = Contract(prog, [kind], binary, coll, lab, limit=limit)
    return explore(S, S.step_adapter)


def run_consumer(prog, kind, binary, coll):
    lab = "%s%s%s over any inner stage" % ("binary " if binary else "", "collection " if coll else "", kind)
    S = Contract(prog, [kind], binary, coll, lab)
    return explore(S, S.step_results if coll else None)


EAGER = {"prune": ["prune", "collect"], "prune_path": ["prune_path", "collect"], "prune_depth": ["prune_depth", "collect"],
         "map": ["map", "collect"], "map_path": ["map_path", "collect"], "fold": ["fold"], "fold_path": ["fold_path"]}


def run_eager(prog, kind, own, binary, coll, limit=None):
    name = kind + ("_each" if coll else "")
    lab = "%s%s%s::%s%s" % (own, " binary" if binary else "", " collection" if coll else "", name, PSUF[own])
    S = Contract(prog, EAGER[kind], binary, coll, lab, eager=name, own=own, limit=limit, depth=DEPTH - 2 if coll else DEPTH - 1)
    return explore(S, S.step_results if coll else None)
