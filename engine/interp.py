"""Abstract interpreter over generic MIR."""
import re
import time
from dom import *
import fold

MAX_UNFOLD = 40
MAX_STATES = 6000
MAX_SPIN = 5000     # visits of one loop head in one client step, without folding
START = ("start",)


def norm(p):
    """std::option::Option::<T>::map -> core::option::Option::map"""
    out = []
    d = 0
    i = 0
    while i < len(p):
        ch = p[i]
        if p.startswith("::<", i) and d == 0 and not p.startswith("::<impl", i):
            # skip a turbofish
            depth = 0
            j = i + 2
            while j < len(p):
                if p[j] == "<":
                    depth += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(ch)
        i += 1
    s = "".join(out)
    return s.replace("std::", "core::").replace("alloc::vec", "alloc::vec")


OPTM = ["map", "map_or", "map_or_else", "and_then", "and", "or", "or_else", "filter", "unwrap", "expect",
        "unwrap_or", "unwrap_or_else", "is_some", "is_none", "is_some_and", "is_none_or", "as_ref", "as_mut",
        "take", "take_if", "replace", "insert", "get_or_insert_with", "cloned", "copied", "flatten", "ok_or",
        "zip", "unzip", "inspect", "iter", "iter_mut"]
ITERM = ["map", "filter", "filter_map", "enumerate", "fuse", "peekable", "flat_map", "flatten", "chain", "zip",
         "cloned", "take", "skip", "rev", "nth", "find", "find_map", "any", "all", "fold", "for_each", "last",
         "count", "by_ref", "inspect", "take_while", "skip_while", "map_while", "scan", "step_by", "position", "reduce"]
MODEL = {}
for m in OPTM:
    MODEL["core::option::Option::" + m] = "models::opt_" + m
for m in ITERM:
    MODEL["core::iter::Iterator::" + m] = "models::iter_" + m
for m in ("extend", "retain", "retain_mut"):
    MODEL["alloc::vec::Vec::" + m] = "models::vec_" + m
    MODEL["alloc::collections::VecDeque::" + m] = "models::deque_" + m
    MODEL["alloc::collections::vec_deque::VecDeque::" + m] = "models::deque_" + m
MODEL["core::iter::Iterator::copied"] = "models::iter_cloned"
MODEL["core::option::Option::as_deref"] = "models::opt_as_ref"
MODEL["core::option::Option::as_deref_mut"] = "models::opt_as_mut"
MODEL["core::iter::Peekable::peek"] = "models::peekable_peek"
MODEL["core::iter::Peekable::peek_mut"] = "models::peekable_peek_mut"
MODEL["core::iter::from_fn"] = "models::iter_from_fn"
MODEL["core::iter::once"] = "models::iter_once"
MODEL["core::iter::empty"] = "models::iter_empty"
MODEL["core::bool::<impl bool>::then"] = "models::bool_then"
MODEL["core::bool::<impl bool>::then_some"] = "models::bool_then_some"
MODEL["core::num::<impl usize>::saturating_sub"] = "models::usize_saturating_sub"
MODEL["core::num::<impl usize>::checked_sub"] = "models::usize_checked_sub"
MODEL["core::result::Result::unwrap"] = "models::res_unwrap"
MODEL["core::result::Result::ok"] = "models::res_ok"
MODEL["core::num::<impl usize>::abs_diff"] = "models::usize_abs_diff"
for m in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne"):
    MODEL["core::cmp::Ordering::" + m] = "models::ord_" + m
for m in ("is_ok", "is_err", "err", "map", "unwrap_or", "unwrap_or_else"):
    MODEL["core::result::Result::" + m] = "models::res_" + m
for m in ("min", "max", "clamp", "cmp"):
    MODEL["core::cmp::Ord::" + m] = "models::usize_" + m
MODEL["core::cmp::PartialOrd::partial_cmp"] = "models::usize_partial_cmp"
for m in ("max", "min", "sum"):
    MODEL["core::iter::Iterator::" + m] = "models::iter_%s_usize" % m
for m in ("rfold", "rfind", "nth_back"):
    MODEL["core::iter::DoubleEndedIterator::" + m] = "models::iter_" + m
MODEL["core::iter::successors"] = "models::iter_successors"
MODEL["core::iter::repeat_with"] = "models::iter_repeat_with"
MODEL["core::iter::Peekable::next_if"] = "models::peekable_next_if"
MODEL["core::cmp::min"] = "models::usize_min"
MODEL["core::cmp::max"] = "models::usize_max"
MODEL["core::array::<impl [T; N]>::map"] = "models::array_map2"
MODEL["streaming_iterator::StreamingIterator::next"] = "models::si_next"
MODEL["streaming_iterator::StreamingIteratorMut::next_mut"] = "models::si_next_mut"

NODE_TRAITS = ("OwnedTreeNode", "MutBorrowedTreeNode", "BorrowedTreeNode")
BIN_TRAITS = ("OwnedBinaryTreeNode", "MutBorrowedBinaryTreeNode", "BorrowedBinaryTreeNode")
EXPAND = re.compile(r"^get_value_and_children(_iter|_iter_mut)?$")
EXPANDB = re.compile(r"^get_value_and_children_binary(_iter|_iter_mut)?$")


RANGES = ("core::ops::Range", "core::ops::RangeInclusive", "core::ops::RangeFrom")
BITS = {"u8": 8, "u16": 16, "u32": 32}


class Timeout(Exception):
    pass


class Interp:
    def __init__(self, prog, mode="pre", slots=False):
        self.p = prog
        self.mode = mode          # order of the ghost word
        self.lazy = 0             # counts the requests for children that are checked, 0 for no check
        self.slots = slots        # children are two optional slots
        self.fns = []
        self.fnidx = {}
        self.sigs = {}            # sig id -> list of variants
        self.sigdirty = False
        self.unmodelled = {}
        self.events = []
        self.analysed = set()
        self.stmts = 0
        self.paths = 0
        self.natives = None
        import natives
        self.nat = natives.TABLE
        self.fold_enabled = True
        self.abstract = None      # replaces folding
        self.inner = None         # contract of an inner pipeline stage
        self.hooks = {}
        self.deadline = None
        self.graph = ({}, set(), {})
        self.width = 3
        self.height = 3
        self.extra = 0            # 1 when the root is a collection
        self.building = False     # the client has not taken a step yet
        self.spare = False        # one node may have one child more
        self.consts = set()       # integers the code mentions
        self.keep = False         # node/parent relations matter

    # ---------------------------------------------------------------- places
    def spared(self, n):
        """Below the one extra sibling of a long chain nothing follows."""
        if not self.spare or self.height <= 12:
            return False
        while n[0] == "ch":
            if not fold.is_coll(n[1]) and n[2] != L(fold.node_depth(n[1]) & 1 if self.slots else 0):
                return True
            n = n[1]
        return False

    def beyond(self, st, n, j):
        """Without folding only trees of the given shape are visited: is child j of n outside?"""
        if fold.node_depth(n) >= self.height + self.extra or self.spared(n):
            return True
        if not is_const(j) or j[1] < max(1, self.width):
            return False
        return not (self.spare and j[1] == 1 and not any(v and x[1] == j for x, v in st.facts.items()))

    def asked(self, st, n, j, f):
        """Remember which children were asked for."""
        if "asked" in st.g and (n, j, f) not in st.g["asked"]:
            st.g["asked"] = st.g["asked"] + ((n, j, f),)

    def resolve(self, st, v):
        """Decide a lazily known optional child."""
        if type(v) is tuple and v and v[0] == "okid":
            f = st.facts.get((v[1], L(v[2])))
            if f is None:
                n, s = v[1], v[2]

                def yes(x, n=n, s=s):
                    x.facts[(n, L(s))] = True

                def no(x, n=n, s=s):
                    x.facts[(n, L(s))] = False
                if not self.fold_enabled:
                    if fold.node_depth(n) >= self.height + self.extra or self.spared(n):
                        raise Split([no])
                    if self.width == 0 and s != fold.node_depth(n) & 1 and not (self.spare and not any(
                            v and x[1] != L(fold.node_depth(x[0]) & 1) for x, v in st.facts.items() if not fold.is_coll(x[0]))):
                        raise Split([no])
                    if self.width == 1 and st.facts.get((n, L(1 - s))) is True:
                        raise Split([no])
                raise Split([yes, no])
            self.asked(st, v[1], L(v[2]), f)
            if f:
                return some(("node", ("ch", v[1], L(v[2]))))
            return NONE
        if type(v) is tuple and v and v[0] == "lazy":
            r = st.bools.get(v)
            if r is None:
                opts = v[2]

                def mk(i):
                    def f(x):
                        x.bools[v] = i
                    return f
                raise Split([mk(i) for i in range(len(opts))])
            return v[2][r]
        return v

    def get(self, st, cid, path):
        v = st.mem.get(cid, ("undef",))
        for e in path:
            v = self.resolve(st, v)
            if v[0] == "agg":
                if e >= len(v[3]):
                    raise Unmodelled("field %d of %r" % (e, v[1]))
                v = v[3][e]
            elif v[0] == "kids" and self.slots:
                v = ("okid", v[1], e)
            elif v[0] == "box" and e == 0:
                pass            # the pointer inside
            else:
                raise Unmodelled("field %r of %s" % (e, v[0]))
        return v

    def put(self, st, cid, path, val):
        if not path:
            st.mem[cid] = val
            return

        def upd(v, p):
            if not p:
                return val
            v = self.resolve(st, v)
            if v[0] != "agg":
                raise Unmodelled("store into field of %s" % v[0])
            fs = list(v[3])
            fs[p[0]] = upd(fs[p[0]], p[1:])
            return ("agg", v[1], v[2], tuple(fs))
        old = st.mem.get(cid, ("undef",))
        st.mem[cid] = upd(old, path)

    def cell(self, st, fr, local):
        c = fr.loc.get(local)
        if c is None:
            c = st.new_cell(("undef",))
            fr.loc[local] = c
        return c

    def place(self, st, fr, p):
        cid, path = self.cell(st, fr, p[0]), ()
        for e in p[1]:
            if e == "*":
                v = self.get(st, cid, path)
                if v[0] == "ref":
                    cid, path = v[1], v[2]
                elif v[0] == "box":
                    cid, path = v[1], ()
                elif v[0] in ("node", "val", "opq", "str", "stream", "item", "ucl", "fn", "kids"):
                    # a reference to something opaque is that thing
                    cid, path = st.new_cell(v), ()
                elif v[0] == "agg" and v[1] not in ("()",):
                    cid, path = st.new_cell(v), ()
                else:
                    raise Unmodelled("deref of %s" % (v[0],))
            elif e[0] == "f":
                path = path + (e[1],)
            elif e[0] == "d":
                pass
            elif e[0] in ("i", "c"):
                v = self.resolve(st, self.get(st, cid, path))
                if e[0] == "i":
                    ix = self.get(st, self.cell(st, fr, e[1]), ())
                else:
                    ix = L(e[1])
                    if e[3]:
                        if v[0] == "agg":
                            ix = L(len(v[3]) - e[1])
                        elif v[0] == "seq":
                            ix = lin_c(fold.seq_len(self, st, v), -e[1])
                        else:
                            raise Unmodelled("index from end")
                if v[0] == "agg":
                    if not is_const(ix):
                        raise Unmodelled("symbolic index")
                    path = path + (ix[1],)
                elif v[0] == "seq":
                    k = fold.seq_at(self, st, v, ix)
                    if k is None:
                        raise Unmodelled("index outside the sequence")
                    cid, path = k, ()
                else:
                    raise Unmodelled("index into %s" % v[0])
            elif e[0] == "s":
                v = self.resolve(st, self.get(st, cid, path))
                if v[0] != "seq":
                    raise Unmodelled("subslice of %s" % v[0])
                n = fold.seq_len(self, st, v)
                import natives
                x = natives.cut(self, st, v, L(e[1]), lin_c(n, -e[2]) if e[3] else L(e[2]))
                if x is None:
                    raise Unmodelled("subslice out of bounds")
                cid, path = st.new_cell(("seq", "slice", x[1])), ()
            else:
                raise Unmodelled("projection %r" % (e,))
        return cid, path

    def operand(self, st, fr, o):
        if o[0] in ("cp", "mv"):
            cid, path = self.place(st, fr, o[1])
            return self.get(st, cid, path)
        return self.const(st, fr, o[1])

    def fnval(self, f):
        k = id(f)
        if k not in self.fnidx:
            self.fnidx[k] = len(self.fns)
            self.fns.append(f)
        # structural identity so that states can be compared
        return ("fn", f["id"], self.fnidx[k])

    def const(self, st, fr, c):
        if "fn" in c:
            c["fn"].setdefault("_crate", fr.body.crate)
            return self.fnval(c["fn"])
        T = self.p.types[fr.body.crate]
        v = c.get("v")
        if v is not None:
            if v == MAXU:
                return L(-1)
            if 3 <= v <= 300 and fr.body.crate != "models":
                self.consts.add(v)
            return L(v)
        if "promoted" in c:
            key = "%s#%d" % (c["of"], c["promoted"])
            return self.eval_promoted(st, key)
        if "t" not in c:
            return ("opq", "const")
        if c.get("s", "")[:1] == '"':
            return ("str", c["s"][1:-1])
        t = T[c["t"]]
        if t["k"] == "tuple" and not t["a"]:
            return UNIT
        if t["k"] == "adt":
            a = self.p.adts.get(t["p"])
            if a and a["kind"] == "struct" and all(not f for _, f in [(v[0], v[1]) for v in a["variants"]]):
                return ("agg", t["p"], 0, ())
            if "PhantomData" in t["p"]:
                return ("agg", t["p"], 0, ())
        if t["k"] == "closure":
            return ("agg", "clo:" + t["d"], 0, ())
        return ("opq", "const")

    def eval_promoted(self, st, key):
        b = self.p.body(key)
        if b is None:
            raise Unmodelled("promoted " + key)
        fr = Frame(b, {}, None, None)
        for s in b.blocks[0]["s"]:
            if s[0] == "=":
                cid, path = self.place(st, fr, s[1])
                self.put(st, cid, path, self.rvalue(st, fr, s[2]))
        if b.blocks[0]["t"][0] != "return":
            raise Unmodelled("promoted with control flow")
        return self.get(st, self.cell(st, fr, 0), ())

    def split_cmp(self, lin, kind):
        neg = lin_add(ZERO, lin, -1)
        # symbols measuring a folded segment are decided by unfolding it
        for s, c in lin[2]:
            if type(s) is tuple and s[0] == "len":
                raise Split(fold.unfold_back(self, s[1]))
        if kind == "eq":
            def t(x):
                return x.assume_eq0(lin)

            def lt(x):
                return x.assume_ge0(lin_c(neg, -1))

            def gt(x):
                return x.assume_ge0(lin_c(lin, -1))
            raise Split([t, lt, gt])

        def ge(x):
            return x.assume_ge0(lin)

        def ng(x):
            return x.assume_ge0(lin_c(neg, -1))
        raise Split([ge, ng])

    def cmp(self, st, op, a, b):
        if a[0] != "L" or b[0] != "L":
            a2, b2 = self.deref_all(st, a), self.deref_all(st, b)
            if a2[0] == "agg" and b2[0] == "agg" and not a2[3] and not b2[3]:
                r = a2[2] == b2[2]
                return boolv(r if op == "Eq" else not r)
            raise Unmodelled("comparison of %s and %s" % (a[0], b[0]))
        if op in ("Eq", "Ne"):
            d = lin_add(a, b, -1)
            r = st.decide_eq0(d)
            if r is None:
                self.split_cmp(d, "eq")
            return boolv(r if op == "Eq" else not r)
        if op in ("Gt", "Le"):
            a, b = b, a
            op = {"Gt": "Lt", "Le": "Ge"}[op]
        # a < b  or a >= b
        if is_const(a) and a[1] == -1:      # usize::MAX
            lt = False
        elif is_const(b) and b[1] == -1:
            lt = True
        else:
            r = st.decide_ge0(lin_add(a, b, -1))
            if r is None:
                self.split_cmp(lin_add(a, b, -1), "ge")
            lt = not r
        return boolv(lt if op == "Lt" else not lt)

    def deref_all(self, st, v):
        while v[0] == "ref":
            v = self.get(st, v[1], v[2])
        return self.resolve(st, v)

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "addr"):
            cid, path = self.place(st, fr, r[2])
            return ("ref", cid, path)
        if k == "discr":
            cid, path = self.place(st, fr, r[1])
            v = self.resolve(st, self.get(st, cid, path))
            if v[0] != "agg":
                raise Unmodelled("discriminant of %s" % v[0])
            if v[1] == "core::cmp::Ordering":
                return L((255, 0, 1)[v[2]])
            return L(v[2])
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            a = r[1]
            if a["k"] == "adt":
                p = a["p"]
                if fr.body.crate == "models":
                    if "models::" + p in self.p.adts:
                        p = "models::" + p
                p = p.replace("std::", "core::")
                return ("agg", p, a["v"], ops)
            if a["k"] == "tuple":
                return ("agg", "()", 0, ops)
            if a["k"] == "array":
                return ("agg", "[]", 0, ops)
            if a["k"] == "closure":
                return ("agg", "clo:" + a["d"], 0, ops)
            if a["k"] == "rawptr":
                return ops[0]
            raise Unmodelled("aggregate " + a["k"])
        if k == "bin":
            op = r[1]
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, op, a, b, self.p.types[fr.body.crate][r[4]]["k"])
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not" and v[0] == "L":
                if is_const(v) and v[1] in (0, 1):
                    return boolv(v[1] == 0)
                raise Unmodelled("not of symbol")
            if r[1] == "Not" and v[0] == "pred":
                d = self.truth(st, v)
                return boolv(not d)
            if r[1] == "PtrMetadata":
                v = self.deref_all(st, v)
                if v[0] == "seq":
                    return fold.seq_len(self, st, v)
                if v[0] == "agg" and v[1] == "[]":
                    return L(len(v[3]))
            raise Unmodelled("unary " + r[1])
        if k == "cast":
            v = self.operand(st, fr, r[2])
            n = BITS.get(self.p.types[fr.body.crate][r[3]]["k"])
            if n and v[0] == "L":
                self.consts.add(2 ** n - 1)
                return self.narrow(st, v, n)[0]
            return v
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            m = re.match(r"(\d+)", r[2])
            if m:
                return ("agg", "[]", 0, (v,) * int(m.group(1)))
        raise Unmodelled("rvalue %s" % (r[:2],))

    def truth(self, st, v):
        if v[0] == "L":
            if is_const(v):
                return v[1] != 0
        if v[0] == "pred":
            b = st.bools.get(v)
            if b is None:
                def t(x):
                    x.bools[v] = True

                def f(x):
                    x.bools[v] = False
                raise Split([t, f])
            return b
        raise Unmodelled("truth of %s" % v[0])

    def narrow(self, st, v, n):
        """v modulo 2^n, and whether that differs from v."""
        if is_const(v):
            return L(v[1] & (2 ** n - 1)), TRUE if v[1] >> n else FALSE
        d = lin_add(L(2 ** n - 1), v, -1)
        e = st.decide_ge0(d)
        if e is None:
            self.split_cmp(d, "ge")
        if not e:
            raise Unmodelled("an integer of %d bits" % n)
        return v, FALSE

    def binop(self, st, op, a, b, ty="usize"):
        n = BITS.get(ty)
        if n and a[0] == "L" and b[0] == "L" and op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            self.consts.add(2 ** n - 1)
            r = self.binop(st, op.replace("WithOverflow", ""), a, b)
            r, ov = self.narrow(st, r, n)
            return ("agg", "()", 0, (r, ov)) if op.endswith("WithOverflow") else r
        if ty in ("isize", "i64", "i32", "i16", "i8"):
            if op in ("Lt", "Le", "Gt", "Ge"):
                x, y = (a, b) if op in ("Ge", "Lt") else (b, a)
                d = lin_add(x, y, -1)
                e = st.decide_ge0(d)
                if e is None:
                    self.split_cmp(d, "ge")
                return boolv(e == (op in ("Ge", "Le")))
            if op in ("AddWithOverflow", "SubWithOverflow"):
                return ("agg", "()", 0, (lin_add(a, b, 1 if op[0] == "A" else -1), FALSE))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmp(st, op, a, b)
        if a[0] == "pred" or b[0] == "pred":
            x, y = self.truth(st, a), self.truth(st, b)
            a, b = boolv(x), boolv(y)
        if a[0] != "L" or b[0] != "L":
            raise Unmodelled("arithmetic %s on %s,%s" % (op, a[0], b[0]))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        ov = FALSE
        if base == "Add":
            r = lin_add(a, b)
            if op.endswith("WithOverflow"):
                # usize::MAX (represented by -1) + positive overflows
                for x, y in ((a, b), (b, a)):
                    d = st.decide_eq0(lin_c(x, 1))
                    if d is None:
                        self.split_cmp(lin_c(x, 1), "eq")
                    if d is True and st.decide_eq0(y) is not True:
                        ov = TRUE
        elif base == "Sub":
            r = lin_add(a, b, -1)
            if op.endswith("WithOverflow"):
                d = st.decide_ge0(r)
                if d is None:
                    self.split_cmp(r, "ge")
                ov = boolv(not d)
        elif base == "Mul" and is_const(a):
            r = lin_add(ZERO, b, a[1])
        elif base == "Mul" and is_const(b):
            r = lin_add(ZERO, a, b[1])
        elif base in ("BitAnd", "BitOr", "BitXor") and is_const(a) and is_const(b):
            r = L({"BitAnd": a[1] & b[1], "BitOr": a[1] | b[1], "BitXor": a[1] ^ b[1]}[base])
        elif base in ("Rem", "Div", "Shl", "Shr") and is_const(a) and is_const(b) and min(a[1], b[1]) >= 0 and (b[1] or base in ("Shl", "Shr")):
            r = L({"Rem": lambda x, y: x % y, "Div": lambda x, y: x // y, "Shl": lambda x, y: x << y, "Shr": lambda x, y: x >> y}[base](a[1], b[1]))
        elif base in ("Rem", "BitAnd") and is_const(b) and b[1] > 0 and (base == "Rem" or b[1] & (b[1] + 1) == 0):
            # only the values which the operation leaves alone
            d = lin_add(L(b[1] - (base == "Rem")), a, -1)
            e = st.decide_ge0(d)
            if e is None:
                self.split_cmp(d, "ge")
            if not e:
                raise Unmodelled("binop " + op)
            r = a
        else:
            raise Unmodelled("binop " + op)
        if op.endswith("WithOverflow"):
            return ("agg", "()", 0, (r, ov))
        return r

    # ------------------------------------------------------------- execution
    def call_body(self, st, key, args, dest, ret, tag=None):
        b = self.p.body(key)
        if b is None:
            raise Unmodelled("no MIR for " + key)
        if len(st.frames) > 60:
            raise Unmodelled("call depth")
        if b.local:
            self.analysed.add(key)
        loc = {}
        for i, a in enumerate(args):
            loc[i + 1] = st.new_cell(a)
        st.frames.append(Frame(b, loc, dest, ret, tag))

    def run(self, states, fold_heads=True):
        """Run every state to completion of its frame stack. Returns final
        states; result value is stored by the outermost frame's dest."""
        out = []
        work = list(states)
        seen = set()
        n = 0
        graph, exits, at = {}, set(), {}
        outer, self.graph = self.graph, (graph, exits, at)
        whole = True
        for st in work:
            st.hp, st.heads, st.splits = (START if self.fold_enabled else None), {}, 0
        while work:
            st = work.pop()
            n += 1
            if n > MAX_STATES:
                self.note_unmodelled("state limit", st)
                whole = False
                break
            if self.deadline is not None and n & 31 == 0 and time.process_time() > self.deadline:
                raise Timeout()
            try:
                r = self.step_until(st, seen, work)
            except Unmodelled as e:
                self.note_unmodelled(str(e), st)
                exits.add(st.hp)
                continue
            except (KeyError, IndexError, TypeError, ValueError, AttributeError, RecursionError) as e:
                self.note_unmodelled("engine: %s %s" % (type(e).__name__, e), st)
                exits.add(st.hp)
                continue
            if r is not None:
                out.append(r)
                exits.add(r.hp)
                self.paths += 1
        self.graph = outer
        if self.fold_enabled and whole:
            self.no_way_out(graph, exits, at)
        return out

    def no_way_out(self, graph, exits, at):
        """Loop heads from which no path of the abstract graph leaves the call."""
        back = {}
        for a, bs in graph.items():
            for b in bs:
                back.setdefault(b, []).append(a)
        good = set()
        work = list(exits)
        while work:
            k = work.pop()
            if k in good:
                continue
            good.add(k)
            work.extend(back.get(k, ()))
        for k, (fn, ln, trace) in at.items():
            if k not in good:
                self.events.append(("hang", fn, ln, "this loop is never left", trace))
                break

    def where(self, st):
        for fr in reversed(st.frames):
            if fr.body.crate != "models":
                bl = fr.body.blocks[fr.bb]
                ln = bl["l"]
                for s in bl["s"][:fr.si + 1]:
                    if s[0] == "=":
                        ln = s[3]
                if fr.si >= len(bl["s"]):
                    ln = bl["l"]
                return fr.body.path, self.p.short(ln)
        return "?", "?"

    def note_unmodelled(self, msg, st):
        fn, ln = self.where(st)
        self.unmodelled.setdefault((msg, fn, ln), 0)
        self.unmodelled[(msg, fn, ln)] += 1

    def event(self, st, kind, msg):
        fn, ln = self.where(st)
        self.events.append((kind, fn, ln, msg, st.trace))

    def step_until(self, st, seen, work):
        while st.frames:
            fr = st.frames[-1]
            self.stmts += 1
            blk = fr.body.blocks[fr.bb]
            try:
                if fr.si < len(blk["s"]):
                    s = blk["s"][fr.si]
                    if s[0] == "=":
                        v = self.rvalue(st, fr, s[2])
                        cid, path = self.place(st, fr, s[1])
                        self.put(st, cid, path, v)
                    elif s[0] == "setd":
                        raise Unmodelled("set discriminant")
                    elif s[0] in ("dead", "live"):
                        fr.loc.pop(s[1], None)
                    fr.si += 1
                    continue
                r = self.terminator(st, fr, blk["t"])
                if r == "stop":
                    self.graph[1].add(st.hp)
                    return None
            except Split as sp:
                st.depth += 1
                if st.depth > 400:
                    raise Unmodelled("split depth")
                cs = []
                for f in sp.refines:
                    c = st.copy()
                    if f(c) is False:
                        continue
                    fold.normalise(self, c)
                    cs.append(c)
                if not cs:
                    self.graph[1].add(st.hp)
                elif len(cs) > 1:
                    for c in cs:
                        c.splits += 1
                work.extend(cs)
                return None
            # loop head reached?
            if st.frames:
                top = st.frames[-1]
                if top.si == 0:
                    top.body.analyse()
                    if top.bb in top.body.heads and r == "jump":
                        st.depth = 0
                        fold.gc(self, st)
                        if self.fold_enabled:
                            (self.abstract or fold.fold)(self, st)
                        k = fold.canon(self, st)
                        if self.fold_enabled:
                            graph, exits, at = self.graph
                            graph.setdefault(st.hp, set()).add(k)
                            st.hp = k
                            if k in seen:
                                return None
                            at[k] = self.where(st) + (st.trace,)
                        elif self.spins(st, top, k, k in seen):
                            return None
                        seen.add(k)
        return st

    def spins(self, st, top, k, known):
        """Without folding: whether the path ends at this loop head, because it
        was continued from here before, or because it goes round for ever."""
        h = (id(top.body), top.bb, len(st.frames))
        n = st.heads.get(h, 0) + 1
        st.heads = {**st.heads, h: n}
        if n > MAX_SPIN:
            self.event(st, "hang", "this loop is still running after %d iterations" % MAX_SPIN)
            return True
        if known:
            p = st.hp
            while p is not None and p[0] != k:
                p = p[2]
            if p is None:
                return True
            if p[1] == st.splits:
                self.event(st, "hang", "this loop is never left: it comes back to the same state")
                return True
        st.hp = (k, st.splits, st.hp)
        return False

    def jump(self, fr, bb):
        fr.bb = bb
        fr.si = 0
        return "jump"

    def terminator(self, st, fr, t):
        k = t[0]
        if k == "goto":
            return self.jump(fr, t[1])
        if k == "switch":
            v = self.operand(st, fr, t[1])
            if v[0] == "pred":
                v = boolv(self.truth(st, v))
            if v[0] != "L":
                raise Unmodelled("switch on %s" % v[0])
            for val, bb in t[2]:
                if val == MAXU:
                    val = -1
                d = st.decide_eq0(lin_c(v, -val))
                if d is None:
                    self.split_cmp(lin_c(v, -val), "eq")
                if d:
                    return self.jump(fr, bb)
            return self.jump(fr, t[3])
        if k == "return":
            v = self.get(st, self.cell(st, fr, 0), ())
            st.frames.pop()
            if fr.dest is not None:
                self.put(st, fr.dest[0], fr.dest[1], v)
            if st.frames:
                if fr.ret is None:
                    return "stop"
                return self.jump(st.frames[-1], fr.ret)
            return "done"
        if k == "drop":
            return self.jump(fr, t[2])
        if k == "assert":
            v = self.operand(st, fr, t[1])
            if v[0] == "L" and is_const(v):
                if (v[1] != 0) == t[2]:
                    return self.jump(fr, t[3])
                self.event(st, "panic", "assertion failed: " + t[4])
                return "stop"
            raise Unmodelled("assert on symbol")
        if k == "call":
            return self.call(st, fr, t)
        if k == "unreachable":
            return "stop"
        raise Unmodelled("terminator " + k)

    def call(self, st, fr, t):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        if t[4] is None:
            # diverging call: a panic unless proven otherwise
            self.event(st, "panic", "call of a diverging function")
            return "stop"
        dcid, dpath = self.place(st, fr, t[3])
        return self.invoke(st, f, args, (dcid, dpath), t[4])

    def show0(self, st, args):
        if not args:
            return ""
        v = args[0]
        while v[0] == "ref":
            v = self.get(st, v[1], v[2])
        return v[0] if v[0] != "agg" else str(v[1])

    def finish(self, st, dest, ret, v):
        self.put(st, dest[0], dest[1], v)
        return self.jump(st.frames[-1], ret)

    def invoke(self, st, f, args, dest, ret):
        if f[0] == "agg" and f[1].startswith("clo:"):
            return self.call_closure(st, f, args, dest, ret)
        if f[0] == "ref":
            return self.invoke(st, self.deref_all(st, f), args, dest, ret)
        if f[0] != "fn":
            raise Unmodelled("call of %s" % (f[0],))
        c = self.fns[f[2]]
        p = norm(c["p"])
        name = c["n"]
        tr = norm(c.get("trait", "")) if c.get("trait") else None
        # enum / struct constructors used as functions
        if p in ("core::option::Option::Some",):
            return self.finish(st, dest, ret, some(args[0]))
        # closures called through Fn*
        if tr in ("core::ops::FnOnce", "core::ops::FnMut", "core::ops::Fn"):
            return self.call_callable(st, args[0], args[1], dest, ret)
        h = self.hooks.get(p)
        if h is not None:
            v = h(self, st, args, c)
            return self.finish(st, dest, ret, v)
        if tr in ("Streaming", "models::Streaming"):
            tr = "streaming_iterator::StreamingIteratorMut" if name == "get_mut" else "streaming_iterator::StreamingIterator"
        # node expansion
        if tr is not None:
            short = tr.split("::")[-1]
            if short in NODE_TRAITS or short in BIN_TRAITS:
                a0 = self.deref_all(st, args[0])
                if a0[0] == "node":
                    if short in NODE_TRAITS and EXPAND.match(name):
                        v = self.expand(st, a0[1], False, name.endswith("_iter"))
                        return self.finish(st, dest, ret, v)
                    if short in BIN_TRAITS and EXPANDB.match(name):
                        v = self.expand(st, a0[1], True, name.endswith("_iter"))
                        return self.finish(st, dest, ret, v)
                    if c["id"] in self.p.bodies:
                        self.call_body(st, c["id"], args, dest, ret)
                        return "call"
        if tr == "core::iter::Iterator" and name == "collect":
            t = self.collect_target(c)
            a0 = args[0]
            if a0[0] == "agg" and a0[1] == "seqit" and not a0[2]:
                return self.finish(st, dest, ret, ("seq", t, a0[3][0][2]))
            self.call_body(st, "models::iter_collect_" + t, args, dest, ret)
            return "call"
        if tr == "core::iter::Iterator" and name in ("try_fold", "try_for_each") or tr == "core::iter::DoubleEndedIterator" and name == "try_rfold":
            self.call_body(st, "models::iter_%s_%s" % (name, self.try_target(c)), args, dest, ret)
            return "call"
        # value based dispatch of trait methods
        if tr is not None:
            k = self.dispatch(st, tr, name, args, c)
            if k is not None:
                if k[0] == "body":
                    self.call_body(st, k[1], args, dest, ret)
                    return "jump0"
                if k[0] == "val" and k[1][0] == "callmodel":
                    self.call_body(st, k[1][1], args, dest, ret)
                    return "call"
                if k[0] == "val":
                    return self.finish(st, dest, ret, k[1])
        res = c.get("res")
        if res and res["local"] and res["id"] in self.p.bodies:
            self.call_body(st, res["id"], args, dest, ret)
            return "call"
        # natives by path
        for q in (p, norm(res["p"]) if res else None):
            if q is None:
                continue
            fn = self.nat.get(q)
            if fn is not None:
                v = fn(self, st, args, c)
                return self.finish(st, dest, ret, v)
            m = MODEL.get(q)
            if m is not None:
                self.call_body(st, m, args, dest, ret)
                return "call"
        if res and res["local"] and res["id"] in self.p.bodies:
            self.call_body(st, res["id"], args, dest, ret)
            return "call"
        if c["id"] in self.p.bodies:
            self.call_body(st, c["id"], args, dest, ret)
            return "call"
        raise Unmodelled("call of %s (%s)" % (p, self.show0(st, args)))

    def collect_target(self, c):
        T = self.p.types[c["_crate"]]
        for a in c.get("a", [])[1:]:
            t = T[a]
            if t["k"] == "adt":
                if t["p"].endswith("VecDeque"):
                    return "deque"
                if t["p"].endswith("::Vec"):
                    return "vec"
            raise Unmodelled("collect into " + t.get("s", t["k"])[:60])
        raise Unmodelled("collect into an unknown type")

    def try_target(self, c):
        T = self.p.types[c["_crate"]]
        for a in reversed(c.get("a", [])):
            t = T[a]
            if t["k"] == "adt":
                for n, m in (("Option", "opt"), ("Result", "res"), ("ControlFlow", "cf")):
                    if t["p"].endswith("::" + n):
                        return m
        raise Unmodelled("a fold with an early exit of an unknown kind")

    def demand(self, st, n, tree=False):
        """A node is taken up only when its own sequence is what is due next."""
        self.lazy += 1
        h = st.W[0] if st.W else None
        what = "the next tree is" if tree else "the children of %s are" % fold.show(n)
        if self.building:
            self.event(st, "lazy", what + " requested before the first step")
        elif h is None and not tree:
            self.event(st, "lazy", what + " requested although nothing is due")
        elif h is not None and h[0] not in ("F", "A") and h[1] != n:
            self.event(st, "lazy", "%s requested although %s is due first" % (what, fold.show(h[1])))
        elif tree and h is not None and h[0] == "F" and h[1] == n[1] and st.decide_eq0(lin_add(h[2], n[2], -1)) is False:
            self.event(st, "lazy", "a tree is requested although one before it is due first")

    def expand(self, st, n, binary, shared=False):
        if n in st.exp and not shared:      # a shared reference may be asked again
            self.event(st, "reexpand", "children of one node are requested twice")
        if self.lazy:
            self.demand(st, n)
        st.exp = st.exp | {n}
        st.g["nexp"] = L(min(2, st.g.get("nexp", ZERO)[1] + 1))
        fold.normalise(self, st)
        if binary:
            kids = ("agg", "[]", 0, (("okid", n, 0), ("okid", n, 1)))
        else:
            kids = ("kids", n)
        return ("agg", "()", 0, (("val", n), kids))

    def call_callable(self, st, f, argtuple, dest, ret):
        g = f
        depth = 0
        while g[0] == "ref":
            inner = self.get(st, g[1], g[2])
            if inner[0] == "agg" and inner[1].startswith("clo:"):
                break
            g = inner
        if argtuple[0] != "agg":
            raise Unmodelled("call with %s" % argtuple[0])
        args = list(argtuple[3])
        if g[0] == "ref" or (g[0] == "agg" and g[1].startswith("clo:")):
            return self.call_closure(st, g, args, dest, ret)
        if g[0] == "fn":
            return self.invoke(st, g, args, dest, ret)
        if g[0] == "ucl":
            v = self.user_call(st, g, args)
            return self.finish(st, dest, ret, v)
        raise Unmodelled("call of %s" % (g[0],))

    def user_call(self, st, g, args):
        h = self.hooks.get("ucl:" + g[1])
        if h is None:
            raise Unmodelled("user closure " + g[1])
        return h(self, st, args, g)

    def call_closure(self, st, g, args, dest, ret):
        if g[0] == "ref":
            cl = self.get(st, g[1], g[2])
        else:
            cl = g
        key = cl[1][4:]
        b = self.p.body(key)
        if b is None:
            raise Unmodelled("no MIR for closure " + key)
        T = self.p.types[b.crate]
        env_t = T[b.locals[1]]
        if env_t["k"] == "ref":
            env = g if g[0] == "ref" else ("ref", st.new_cell(cl), ())
        else:
            env = cl
        self.call_body(st, key, [env] + args, dest, ret)
        return "call"

    def dispatch(self, st, tr, name, args, c):
        if not args:
            return None
        v = args[0]
        target = v
        nref = 0
        while target[0] == "ref":
            target = self.get(st, target[1], target[2])
            nref += 1
        target = self.resolve(st, target) if target[0] == "lazy" else target
        kind = "seqit" if target[0] == "agg" and target[1] == "seqit" else target[0]
        if kind == "agg" and target[1] in RANGES:
            kind = "range"
        if kind == "inner":
            r = self.inner.inner_call(self, st, name, args)
            if r is not None:
                return ("val", r)
        if tr == "core::iter::Iterator" and name == "next":
            h = self.nat.get("next:" + kind)
            if h is not None:
                # reference to the iterator value itself
                r = v
                while True:
                    inner = self.get(st, r[1], r[2])
                    if inner[0] != "ref":
                        break
                    r = inner
                return ("val", h(self, st, [r], c))
        if tr == "core::iter::DoubleEndedIterator" and name == "next_back":
            h = self.nat.get("next_back:" + kind)
            if h is not None:
                r = v
                while True:
                    inner = self.get(st, r[1], r[2])
                    if inner[0] != "ref":
                        break
                    r = inner
                return ("val", h(self, st, [r], c))
        h = self.nat.get("%s::%s:%s" % (tr, name, kind))
        if h is not None:
            return ("val", h(self, st, args, c))
        if target[0] == "agg":
            im = self.p.impls.get((tr, target[1])) or self.p.impls.get((tr.replace("core::", "std::"), target[1]))
            if im and name in im:
                if nref > 1:
                    r = v
                    while self.get(st, r[1], r[2])[0] == "ref":
                        r = self.get(st, r[1], r[2])
                    args[0] = r
                elif nref == 0 and self.p.body(im[name]) is not None:
                    b = self.p.body(im[name])
                    if self.p.types[b.crate][b.locals[1]]["k"] == "ref":
                        args[0] = ("ref", st.new_cell(v), ())
                return ("body", im[name])
        h = self.nat.get("%s::%s" % (tr, name))
        if h is not None:
            return ("val", h(self, st, args, c))
        return None
