"""Native models of container operations and opaque iterators."""
from dom import *
RES = "core::result::Result"
import fold

TABLE = {}


def nat(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def deref(I, st, v):
    """Follow references to the last reference; returns (ref, value)."""
    r = None
    while v[0] == "ref":
        r = v
        v = I.get(st, v[1], v[2])
    return r, v


def seqref(I, st, v):
    r, x = deref(I, st, v)
    if x[0] == "box":
        r = ("ref", x[1], ())
        x = st.mem[x[1]]
    if x[0] == "agg" and x[1] == "[]":
        # an array viewed as a slice: elements by value
        parts = tuple(("el", st.new_cell(e)) for e in x[3])
        x = ("seq", "slice", parts)
    if x[0] != "seq":
        raise Unmodelled("sequence operation on %s" % x[0])
    return r, x


def need_back(I, st, v):
    """Ensure that the last part is explicit or the sequence empty."""
    if v[2] and v[2][-1][0] == "seg":
        raise Split(fold.unfold_back(I, v[2][-1][1]))
    if v[2] and v[2][-1][0] == "rng":
        raise Unmodelled("access to a range of results")


def need_front(I, st, v):
    if v[2] and v[2][0][0] == "seg":
        raise Split(fold.unfold_front(I, v[2][0][1]))
    if v[2] and v[2][0][0] == "rng":
        raise Unmodelled("access to a range of results")


V = "alloc::vec::Vec::"
D = "alloc::collections::VecDeque::"
SL = "core::slice::<impl [T]>::"


@nat(V + "new", V + "with_capacity")
def vec_new(I, st, a, c):
    return ("seq", "vec", ())


@nat(D + "new", D + "with_capacity")
def vd_new(I, st, a, c):
    return ("seq", "deque", ())


@nat(V + "push", D + "push_back")
def push(I, st, a, c):
    r, v = seqref(I, st, a[0])
    I.put(st, r[1], r[2], ("seq", v[1], v[2] + (("el", st.new_cell(a[1])),)))
    return UNIT


@nat(D + "push_front")
def push_front(I, st, a, c):
    r, v = seqref(I, st, a[0])
    I.put(st, r[1], r[2], ("seq", v[1], (("el", st.new_cell(a[1])),) + v[2]))
    return UNIT


@nat(V + "pop", D + "pop_back")
def pop(I, st, a, c):
    r, v = seqref(I, st, a[0])
    need_back(I, st, v)
    if not v[2]:
        return NONE
    e = v[2][-1][1]
    I.put(st, r[1], r[2], ("seq", v[1], v[2][:-1]))
    return some(st.mem[e])


@nat(D + "pop_front")
def pop_front(I, st, a, c):
    r, v = seqref(I, st, a[0])
    need_front(I, st, v)
    if not v[2]:
        return NONE
    e = v[2][0][1]
    I.put(st, r[1], r[2], ("seq", v[1], v[2][1:]))
    return some(st.mem[e])


@nat(SL + "last", SL + "last_mut", D + "back", D + "back_mut")
def last(I, st, a, c):
    r, v = seqref(I, st, a[0])
    need_back(I, st, v)
    if not v[2]:
        return NONE
    return some(("ref", v[2][-1][1], ()))


@nat(SL + "first", SL + "first_mut", D + "front", D + "front_mut")
def first(I, st, a, c):
    r, v = seqref(I, st, a[0])
    need_front(I, st, v)
    if not v[2]:
        return NONE
    return some(("ref", v[2][0][1], ()))


@nat(V + "len", D + "len", SL + "len")
def length(I, st, a, c):
    r, v = seqref(I, st, a[0])
    return fold.seq_len(I, st, v)


@nat(V + "is_empty", D + "is_empty", SL + "is_empty")
def is_empty(I, st, a, c):
    r, v = seqref(I, st, a[0])
    if any(p[0] == "el" for p in v[2]):
        return FALSE
    if not v[2]:
        return TRUE
    raise Split(fold.unfold_back(I, v[2][-1][1]))


@nat(V + "clear", D + "clear")
def clear(I, st, a, c):
    r, v = seqref(I, st, a[0])
    I.put(st, r[1], r[2], ("seq", v[1], ()))
    return UNIT


@nat(V + "capacity", D + "capacity")
def capacity(I, st, a, c):
    s = fresh("cap")
    st.lb[s] = 0
    return lin_sym(s)


@nat(V + "shrink_to_fit", D + "shrink_to_fit", V + "reserve", D + "reserve", V + "shrink_to", D + "shrink_to")
def noop(I, st, a, c):
    return UNIT


@nat(V + "as_slice", V + "as_mut_slice", "core::ops::Deref::deref:seq", "core::ops::DerefMut::deref_mut:seq",
     "core::convert::AsMut::as_mut:seq", "core::convert::AsRef::as_ref:seq", "core::borrow::Borrow::borrow:seq",
     SL + "as_ref", SL + "as_mut", V + "into_boxed_slice", V + "leak")
def same(I, st, a, c):
    r, v = deref(I, st, a[0])
    return r if r is not None else a[0]


@nat(V + "truncate", D + "truncate")
def truncate(I, st, a, c):
    r, v = seqref(I, st, a[0])
    k = a[1]
    n = fold.seq_len(I, st, v)
    # keep the shortest prefix of length k
    pos = L(0)
    parts = []
    for p in v[2]:
        d = lin_add(k, pos, -1)
        if st.decide_eq0(d) is True:
            break
        if p[0] == "el":
            e = st.decide_ge0(lin_c(d, -1))
            if e is None:
                I.split_cmp(lin_c(d, -1), "ge")
            if not e:
                break
            parts.append(p)
            pos = lin_c(pos, 1)
        else:
            nx = lin_add(pos, lin_sym(fold.len_sym(I, st, p[1], p[2])))
            e = st.decide_ge0(lin_add(k, nx, -1))
            if e is True:
                parts.append(p)
                pos = nx
            else:
                raise Split(fold.unfold_back(I, p[1]))
    I.put(st, r[1], r[2], ("seq", v[1], tuple(parts)))
    return UNIT


@nat(SL + "get", SL + "get_mut", D + "get", D + "get_mut")
def get(I, st, a, c):
    r, v = seqref(I, st, a[0])
    if a[1][0] != "L":
        return slice_get(I, st, v, a[1], True)
    e = fold.seq_at(I, st, v, a[1])
    return NONE if e is None else some(("ref", e, ()))


@nat("core::ops::Index::index:seq", "core::ops::IndexMut::index_mut:seq")
def index(I, st, a, c):
    r, v = seqref(I, st, a[0])
    if a[1][0] != "L":
        return slice_get(I, st, v, a[1], False)
    e = fold.seq_at(I, st, v, a[1])
    if e is None:
        I.event(st, "panic", "index out of bounds")
        raise Unmodelled("panic: index out of bounds")
    return ("ref", e, ())


def bounds(I, st, v, rng):
    if rng[0] != "agg":
        raise Unmodelled("slice by %s" % rng[0])
    name = rng[1].split("::")[-1]
    n = fold.seq_len(I, st, v)
    if name == "RangeFull":
        lo, hi = L(0), n
    elif name == "RangeTo":
        lo, hi = L(0), rng[3][0]
    elif name == "RangeFrom":
        lo, hi = rng[3][0], n
    elif name == "Range":
        lo, hi = rng[3][0], rng[3][1]
    elif name == "RangeToInclusive":
        lo, hi = L(0), lin_c(rng[3][0], 1)
    else:
        raise Unmodelled("slice by " + name)
    return lo, hi


def cut(I, st, v, lo, hi):
    """The parts before, in and behind lo..hi; None when out of bounds."""
    n = fold.seq_len(I, st, v)
    d = st.decide_ge0(lin_add(n, hi, -1))
    if d is None:
        I.split_cmp(lin_add(n, hi, -1), "ge")
    e = st.decide_ge0(lin_add(hi, lo, -1))
    if e is None:
        I.split_cmp(lin_add(hi, lo, -1), "ge")
    if not d or not e:
        return None
    pos = L(0)
    pre, parts, post = [], [], []
    for p in v[2]:
        w = L(1) if p[0] == "el" else lin_sym(fold.len_sym(I, st, p[1], p[2]))
        nx = lin_add(pos, w)
        inlo = st.decide_ge0(lin_add(pos, lo, -1))
        inhi = st.decide_ge0(lin_add(hi, nx, -1))
        if inlo is True and inhi is True:
            parts.append(p)
        else:
            outlo = st.decide_ge0(lin_add(lo, nx, -1))
            outhi = st.decide_ge0(lin_add(pos, hi, -1))
            if outlo is True:
                pre.append(p)
            elif outhi is True:
                post.append(p)
            elif p[0] == "seg":
                # prefer unfolding at the end that the range cuts
                if lin_add(hi, nx, -1)[1] < 0:
                    raise Split(fold.unfold_back(I, p[1]))
                raise Split(fold.unfold_front(I, p[1]))
            else:
                for q in (lin_add(pos, lo, -1), lin_add(hi, nx, -1)):
                    if st.decide_ge0(q) is None:
                        I.split_cmp(q, "ge")
                raise Unmodelled("slice bounds")
        pos = nx
    return tuple(pre), tuple(parts), tuple(post)


def slice_get(I, st, v, rng, opt):
    lo, hi = bounds(I, st, v, rng)
    x = cut(I, st, v, lo, hi)
    if x is None:
        if opt:
            return NONE
        I.event(st, "panic", "slice out of bounds")
        raise Unmodelled("panic: slice out of bounds")
    s = ("ref", st.new_cell(("seq", "slice", x[1])), ())
    return some(s) if opt else s


# ------------------------------------------------------------ iteration
@nat("core::iter::IntoIterator::into_iter:seq", SL + "iter", SL + "iter_mut", D + "iter", D + "iter_mut")
def seq_into_iter(I, st, a, c):
    by_ref = a[0][0] == "ref"
    r, v = seqref(I, st, a[0])
    return seqit(v[2], by_ref)


@nat(V + "drain", D + "drain")
def drain(I, st, a, c):
    r, v = seqref(I, st, a[0])
    if a[1][0] == "agg" and a[1][1].endswith("RangeFull"):
        I.put(st, r[1], r[2], ("seq", v[1], ()))
        return seqit(v[2], False)
    x = cut(I, st, v, *bounds(I, st, v, a[1]))
    if x is None:
        oob(I, st)
    I.put(st, r[1], r[2], ("seq", v[1], x[0] + x[2]))
    return seqit(x[1], False)


def seqit(parts, byref):
    return ("agg", "seqit", 1 if byref else 0, (("seq", "it", tuple(parts)),))


@nat("next:seqit")
def seqit_next(I, st, a, c):
    r = a[0]
    v = I.get(st, r[1], r[2])
    ps = v[3][0][2]
    if not ps:
        return NONE
    p = ps[0]
    if p[0] == "rng":
        raise Unmodelled("iteration over a range of results")
    if p[0] == "seg":
        if v[2]:
            raise Unmodelled("iteration over a folded sequence")
        raise Split(fold.unfold_front(I, p[1]))
    I.put(st, r[1], r[2], seqit(ps[1:], v[2]))
    return some(("ref", p[1], ()) if v[2] else st.mem[p[1]])


@nat("next_back:seqit")
def seqit_next_back(I, st, a, c):
    r = a[0]
    v = I.get(st, r[1], r[2])
    ps = v[3][0][2]
    if not ps:
        return NONE
    p = ps[-1]
    if p[0] == "rng":
        raise Unmodelled("iteration over a range of results")
    if p[0] == "seg":
        if v[2]:
            raise Unmodelled("iteration over a folded sequence")
        raise Split(fold.unfold_back(I, p[1]))
    I.put(st, r[1], r[2], seqit(ps[:-1], v[2]))
    return some(("ref", p[1], ()) if v[2] else st.mem[p[1]])


@nat("core::iter::Iterator::size_hint:it")
def it_size_hint(I, st, a, c):
    """Any hint an iterator may report: none at all, or the exact one at the
    end and a lower bound of one before it."""
    r, v = deref(I, st, a[0])
    n, j = v[1], v[2]
    if len(v) > 3:
        return hint(0, 0)
    k = ("hint", n, j)
    b = st.bools.get(k)
    if b is None:
        def yes(x):
            x.bools[k] = True

        def no(x):
            x.bools[k] = False
        raise Split([yes, no])
    if not b:
        return hint(0, None)
    f = st.facts.get((n, j))
    if f is None:
        def yes(x):
            x.facts[(n, j)] = True

        def no(x):
            x.facts[(n, j)] = False
        if not I.fold_enabled and (I.beyond(st, n, j)):
            raise Split([no])
        raise Split([yes, no])
    return hint(1, None) if f else hint(0, 0)


def hint(lo, hi):
    return ("agg", "()", 0, (L(lo), NONE if hi is None else some(L(hi))))


@nat("core::iter::Iterator::size_hint:arrit", "core::iter::Iterator::size_hint:seqit", "core::iter::ExactSizeIterator::len:arrit",
     "core::iter::ExactSizeIterator::len:seqit")
def exact_hint(I, st, a, c):
    r, v = deref(I, st, a[0])
    n = L(len(v[3])) if v[0] == "arrit" else fold.seq_len(I, st, v[3][0])
    return n if c["n"] == "len" else ("agg", "()", 0, (n, some(n)))


@nat(V + "append", D + "append", "core::iter::Extend::extend")
def extend(I, st, a, c):
    r, v = seqref(I, st, a[0])
    r2, w = deref(I, st, a[1])
    if w[0] == "agg" and w[1] == "seqit" and not w[2]:
        I.put(st, r[1], r[2], ("seq", v[1], v[2] + w[3][0][2]))
        return UNIT
    if w[0] == "seq":
        I.put(st, r[1], r[2], ("seq", v[1], v[2] + w[2]))
        if r2 is not None:
            I.put(st, r2[1], r2[2], ("seq", w[1], ()))
        return UNIT
    if w[0] == "agg" and w[1] == OPT:
        parts = v[2]
        if w[2] == 1:
            parts = parts + (("el", st.new_cell(w[3][0])),)
        I.put(st, r[1], r[2], ("seq", v[1], parts))
        return UNIT
    if c["n"] == "extend":
        return ("callmodel", "models::%s_extend" % ("deque" if v[1] == "deque" else "vec"))
    raise Unmodelled("append from %s" % w[0])


@nat("core::clone::Clone::clone:seq", SL + "to_vec", V + "to_vec", "alloc::slice::<impl [T]>::to_vec",
     "alloc::borrow::ToOwned::to_owned:seq", "core::convert::From::from:seq", "core::convert::Into::into:seq")
def clone_seq(I, st, a, c):
    r, v = seqref(I, st, a[0])
    parts = []
    for p in v[2]:
        parts.append(("el", st.new_cell(st.mem[p[1]])) if p[0] == "el" else p)
    return ("seq", "vec", tuple(parts))


@nat("next:it")
def it_next(I, st, a, c):
    r = a[0]
    v = I.get(st, r[1], r[2])
    n, j = v[1], v[2]
    if len(v) > 3:
        if not v[3] == "fused":
            I.event(st, "repoll", "a child iterator that already returned None is polled again")
        return NONE
    if I.lazy and fold.is_coll(n):
        I.demand(st, ("ch", n, j), True)
    f = st.facts.get((n, j))
    if f is None:
        def yes(x):
            x.facts[(n, j)] = True

        def no(x):
            x.facts[(n, j)] = False
        if not I.fold_enabled and (I.beyond(st, n, j)):
            raise Split([no])       # without widening only narrow trees are visited
        raise Split([yes, no])
    I.asked(st, n, j, f)
    if f:
        I.put(st, r[1], r[2], ("it", n, lin_c(j, 1)))
        fold.normalise(I, st)
        return some(("node", ("ch", n, j)))
    I.put(st, r[1], r[2], ("it", n, L(0) if fold.is_coll(n) else j, "end"))
    return NONE


@nat("core::iter::Iterator::nth:it")
def it_nth(I, st, a, c):
    r = a[0]
    while r[0] == "ref" and I.get(st, r[1], r[2])[0] == "ref":
        r = I.get(st, r[1], r[2])
    v = I.get(st, r[1], r[2])
    n, j = v[1], lin_add(v[2], a[1])
    if len(v) > 3:
        return NONE
    f = st.facts.get((n, j))
    if f is None:
        if is_const(j):
            for i in range(j[1]):
                if st.facts.get((n, L(i))) is False:
                    f = False
    if f is None:
        def yes(x):
            x.facts[(n, j)] = True
            if is_const(j):
                for i in range(j[1]):
                    x.facts[(n, L(i))] = True

        def no(x):
            x.facts[(n, j)] = False
        if not I.fold_enabled and is_const(j) and I.beyond(st, n, j):
            raise Split([no])
        raise Split([yes, no])
    I.asked(st, n, j, f)
    if f:
        I.put(st, r[1], r[2], ("it", n, lin_c(j, 1)))
        fold.normalise(I, st)
        return some(("node", ("ch", n, j)))
    I.put(st, r[1], r[2], ("it", n, L(0) if fold.is_coll(n) else j, "end"))
    return NONE


@nat("core::iter::Iterator::nth:seqit")
def seqit_nth(I, st, a, c):
    r = a[0]
    while r[0] == "ref" and I.get(st, r[1], r[2])[0] == "ref":
        r = I.get(st, r[1], r[2])
    v = I.get(st, r[1], r[2])
    ps = v[3][0][2]
    if any(p[0] != "el" for p in ps):
        raise Unmodelled("nth of a folded sequence")
    for i in range(len(ps)):
        d = st.decide_eq0(lin_c(a[1], -i))
        if d is None:
            I.split_cmp(lin_c(a[1], -i), "eq")
        if d:
            I.put(st, r[1], r[2], seqit(ps[i + 1:], v[2]))
            return some(("ref", ps[i][1], ()) if v[2] else st.mem[ps[i][1]])
    I.put(st, r[1], r[2], seqit((), v[2]))
    return NONE


@nat("core::iter::IntoIterator::into_iter:kids")
def kids_into_iter(I, st, a, c):
    r, v = deref(I, st, a[0])
    return ("it", v[1], L(0))


@nat("core::iter::IntoIterator::into_iter:agg")
def agg_into_iter(I, st, a, c):
    byref = a[0][0] == "ref"
    r, v = deref(I, st, a[0])
    if v[1] == "[]":
        if byref:
            return ("arrit", None, 0, tuple(("ref", r[1], r[2] + (i,)) for i in range(len(v[3]))))
        n = None
        if v[3] and all(x[0] == "okid" for x in v[3]) and [x[2] for x in v[3]] == list(range(len(v[3]))):
            n = v[3][0][1]
        return ("arrit", n, 0, v[3])
    if v[1] == OPT:
        if byref:
            if v[2] == 1:
                v = some(("ref", r[1], r[2] + (0,)))
            else:
                v = NONE
        return ("agg", "models::OptIntoIter", 0, (v,))
    return a[0]


@nat("core::iter::IntoIterator::into_iter:okid")
def okid_into_iter(I, st, a, c):
    r, v = deref(I, st, a[0])
    return ("agg", "models::OptIntoIter", 0, (v,))


@nat("core::iter::IntoIterator::into_iter:it", "core::iter::IntoIterator::into_iter:arrit",
     "core::iter::IntoIterator::into_iter:seqit", "core::iter::IntoIterator::into_iter:range",
     "core::iter::IntoIterator::into_iter:stream")
def ident(I, st, a, c):
    return a[0]


@nat("next:arrit")
def arrit_next(I, st, a, c):
    r = a[0]
    v = I.get(st, r[1], r[2])
    if not v[3]:
        return NONE
    I.put(st, r[1], r[2], ("arrit", v[1], v[2] + 1, v[3][1:]))
    return some(v[3][0])


@nat("next_back:arrit")
def arrit_next_back(I, st, a, c):
    r = a[0]
    v = I.get(st, r[1], r[2])
    if not v[3]:
        return NONE
    I.put(st, r[1], r[2], ("arrit", None, v[2], v[3][:-1]))
    return some(v[3][-1])


# ------------------------------------------------------------ misc
@nat("core::mem::replace")
def mem_replace(I, st, a, c):
    r, _ = one(I, st, a[0])
    old = I.get(st, r[1], r[2])
    I.put(st, r[1], r[2], a[1])
    return old


def one(I, st, v):
    if v[0] != "ref":
        raise Unmodelled("reference expected, got %s" % v[0])
    return v, None


@nat("core::mem::take")
def mem_take(I, st, a, c):
    r, _ = one(I, st, a[0])
    old = I.get(st, r[1], r[2])
    if old[0] == "okid":
        new = NONE
    elif old[0] == "seq":
        new = ("seq", old[1], ())
    elif old[0] == "agg" and old[1] == OPT:
        new = NONE
    elif old[0] == "L":
        new = L(0)
    else:
        raise Unmodelled("mem::take of %s" % old[0])
    I.put(st, r[1], r[2], new)
    return old


@nat("core::mem::swap")
def mem_swap(I, st, a, c):
    x, y = a[0], a[1]
    u, v = I.get(st, x[1], x[2]), I.get(st, y[1], y[2])
    I.put(st, x[1], x[2], v)
    I.put(st, y[1], y[2], u)
    return UNIT


@nat("core::mem::drop", "core::mem::forget")
def mem_drop(I, st, a, c):
    return UNIT


@nat("core::ptr::read")
def ptr_read(I, st, a, c):
    r, _ = one(I, st, a[0])
    return I.get(st, r[1], r[2])


@nat("core::ops::Try::branch:agg")
def try_branch(I, st, a, c):
    v = a[0]
    if v[1] == RES:
        return ("agg", "core::ops::ControlFlow", v[2], (v[3][0] if v[2] == 0 else v,))
    if v[1] != OPT:
        raise Unmodelled("? on " + v[1])
    if v[2] == 1:
        return ("agg", "core::ops::ControlFlow", 0, (v[3][0],))
    return ("agg", "core::ops::ControlFlow", 1, (NONE,))


@nat("core::ops::Try::branch:okid")
def try_branch2(I, st, a, c):
    return try_branch(I, st, [I.resolve(st, a[0])], c)


@nat("core::ops::FromResidual::from_residual")
def from_residual(I, st, a, c):
    if a[0][0] == "agg" and a[0][1] == RES:
        return a[0]
    return NONE


@nat("core::num::<impl usize>::wrapping_add")
def wrapping_add(I, st, a, c):
    return lin_add(a[0], a[1])


@nat("core::num::<impl usize>::saturating_add", "core::num::<impl usize>::checked_add")
def saturating_add(I, st, a, c):
    some_ = c["n"] == "checked_add"
    for x, y in ((a[0], a[1]), (a[1], a[0])):
        if is_const(x) and x[1] == -1:              # usize::MAX
            d = st.decide_eq0(y)
            if d is None:
                I.split_cmp(y, "eq")
            if not d:
                return NONE if some_ else L(-1)
    r = lin_add(a[0], a[1])
    return some(r) if some_ else r


@nat("core::num::<impl usize>::is_power_of_two")
def is_pow2(I, st, a, c):
    if not is_const(a[0]):
        raise Unmodelled("is_power_of_two of a symbol")
    return boolv(a[0][1] > 0 and a[0][1] & (a[0][1] - 1) == 0)


@nat("core::num::<impl usize>::wrapping_sub")
def wrapping_sub(I, st, a, c):
    r = lin_add(a[0], a[1], -1)
    d = st.decide_ge0(lin_c(r, 1))
    if d is None:
        I.split_cmp(lin_c(r, 1), "ge")
    if not d:
        raise Unmodelled("wrapping subtraction below usize::MAX")
    return r


@nat("core::default::Default::default")
def default(I, st, a, c):
    return default_of(I, c.get("_crate", "lib"), c["a"][0])


def default_of(I, crate, ti):
    T = I.p.types[crate]
    t = T[ti]
    if t["k"] == "tuple":
        return ("agg", "()", 0, tuple(default_of(I, crate, x) for x in t["a"]))
    if t["k"] == "array":
        return ("agg", "[]", 0, tuple(default_of(I, crate, t["t"]) for _ in range(int(t["n"]))))
    if t["k"] == "usize":
        return L(0)
    if t["k"] == "bool":
        return FALSE
    if t["k"] == "adt":
        head = t["p"].split("::")[-1]
        if head == "PhantomData":
            return ("agg", "core::marker::PhantomData", 0, ())
        if head == "Vec":
            return ("seq", "vec", ())
        if head == "VecDeque":
            return ("seq", "deque", ())
        if head == "Option":
            return NONE
    if t["k"] == "param":
        return ("tok", "default")
    raise Unmodelled("default " + t["s"])


@nat("core::option::Option::unwrap_or_default")
def unwrap_or_default(I, st, a, c):
    o = a[0]
    if o[0] != "agg" or o[1] != OPT:
        raise Unmodelled("unwrap_or_default of " + o[0])
    if o[2] == 1:
        return o[3][0]
    return default_of(I, c.get("_crate", "lib"), c["a"][0])


@nat("alloc::boxed::Box::new")
def box_new(I, st, a, c):
    return ("box", st.new_cell(a[0]))


@nat("core::convert::AsRef::as_ref:box", "core::convert::AsMut::as_mut:box", "core::ops::Deref::deref:box",
     "core::ops::DerefMut::deref_mut:box", "core::borrow::Borrow::borrow:box", "core::borrow::BorrowMut::borrow_mut:box")
def box_ref(I, st, a, c):
    return ("ref", I.deref_all(st, a[0])[1], ())


@nat("core::ops::Drop::drop:box")
def box_drop(I, st, a, c):
    return UNIT


@nat("core::clone::Clone::clone:node", "core::clone::Clone::clone:val", "core::clone::Clone::clone:kids",
     "core::clone::Clone::clone:it", "core::clone::Clone::clone:L", "core::clone::Clone::clone:okid")
def clone_opq(I, st, a, c):
    r, v = deref(I, st, a[0])
    return v


@nat("core::clone::Clone::clone:agg")
def clone_agg(I, st, a, c):
    r, v = deref(I, st, a[0])

    def copyable(x):
        return x[0] in ("node", "val", "kids", "L", "okid", "it", "ref") or \
            x[0] == "agg" and x[1] in (OPT, "()", "[]") and all(copyable(y) for y in x[3])
    if copyable(v):
        return v
    raise Unmodelled("clone of " + v[1])


@nat("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def peq(I, st, a, c):
    x, y = I.deref_all(st, a[0]), I.deref_all(st, a[1])
    if x[0] in ("seq", "agg") and y[0] in ("seq", "agg"):
        return boolv(same_value(I, st, x, y) == (c["n"] == "eq"))
    return I.cmp(st, "Eq" if c["n"] == "eq" else "Ne", x, y)


def same_value(I, st, x, y):
    """Structural equality of std containers of integers."""
    x, y = I.deref_all(st, x), I.deref_all(st, y)
    if x[0] == "agg" and x[1] == "[]":
        x = ("seq", "slice", tuple(("el", st.new_cell(e)) for e in x[3]))
    if y[0] == "agg" and y[1] == "[]":
        y = ("seq", "slice", tuple(("el", st.new_cell(e)) for e in y[3]))
    if x[0] == "seq" and y[0] == "seq":
        p, q = cells(I, st, x), cells(I, st, y)
        return len(p) == len(q) and all(same_value(I, st, st.mem[a], st.mem[b]) for a, b in zip(p, q))
    if x[0] == "agg" and y[0] == "agg" and x[1] == y[1] and (x[1].startswith("core::") or x[1] == "()"):
        return x[2] == y[2] and len(x[3]) == len(y[3]) and all(same_value(I, st, a, b) for a, b in zip(x[3], y[3]))
    return I.truth(st, I.cmp(st, "Eq", x, y))


def cells(I, st, v):
    """The cells of a sequence whose elements are all explicit."""
    for p in v[2]:
        if p[0] == "seg":
            raise Split(fold.unfold_back(I, p[1]))
        if p[0] != "el":
            raise Unmodelled("access to a range of results")
    return [p[1] for p in v[2]]


def explicit(I, st, v, k):
    """k as a number, the elements of v as cells."""
    e = cells(I, st, v)
    if k is None:
        return e, None
    for i in range(len(e) + 1):
        d = st.decide_eq0(lin_c(k, -i))
        if d is None:
            I.split_cmp(lin_c(k, -i), "eq")
        if d:
            return e, i
    return e, len(e) + 1


def seqof(kind, e):
    return ("seq", kind, tuple(("el", x) for x in e))


def oob(I, st):
    I.event(st, "panic", "index out of bounds")
    raise Unmodelled("panic: index out of bounds")


@nat(V + "swap_remove", V + "remove", D + "remove", D + "swap_remove_back", V + "insert", D + "insert", V + "split_off", D + "split_off")
def positional(I, st, a, c):
    n = c["n"]
    r, v = seqref(I, st, a[0])
    if n == "split_off":
        x = cut(I, st, v, a[1], fold.seq_len(I, st, v))
        if x is None:
            oob(I, st)
        I.put(st, r[1], r[2], ("seq", v[1], x[0]))
        return ("seq", v[1], x[1])
    e, k = explicit(I, st, v, a[1])
    opt = v[1] == "deque" and n in ("remove", "swap_remove_back")
    if n == "insert":
        if k > len(e):
            oob(I, st)
        e.insert(k, st.new_cell(a[2]))
        I.put(st, r[1], r[2], seqof(v[1], e))
        return UNIT
    if k >= len(e):
        if opt:
            return NONE
        oob(I, st)
    x = st.mem[e[k]]
    if n == "remove":
        e = e[:k] + e[k + 1:]
    else:
        l = e.pop()
        if k < len(e):
            e[k] = l
    I.put(st, r[1], r[2], seqof(v[1], e))
    return some(x) if opt else x


@nat(SL + "reverse", SL + "swap", D + "swap", SL + "rotate_left", SL + "rotate_right", D + "rotate_left", D + "rotate_right")
def permute(I, st, a, c):
    n = c["n"]
    r, v = seqref(I, st, a[0])
    e, k = explicit(I, st, v, a[1] if len(a) > 1 else None)
    if n == "reverse":
        new = e[::-1]
    elif n == "swap":
        _, j = explicit(I, st, v, a[2])
        if k >= len(e) or j >= len(e):
            oob(I, st)
        new = list(e)
        new[k], new[j] = new[j], new[k]
    else:
        if k > len(e):
            oob(I, st)
        new = e[k:] + e[:k] if n == "rotate_left" else e[len(e) - k:] + e[:len(e) - k]
    vals = [st.mem[x] for x in new]
    for x, y in zip(e, vals):
        I.put(st, x, (), y)
    return UNIT


@nat(SL + "contains", D + "contains")
def contains(I, st, a, c):
    r, v = seqref(I, st, a[0])
    return boolv(any(same_value(I, st, st.mem[x], a[1]) for x in cells(I, st, v)))


@nat(SL + "starts_with", SL + "ends_with")
def starts_with(I, st, a, c):
    r, v = seqref(I, st, a[0])
    r, w = seqref(I, st, a[1])
    p, q = cells(I, st, v), cells(I, st, w)
    if len(q) > len(p):
        return FALSE
    p = p[:len(q)] if c["n"] == "starts_with" else p[len(p) - len(q):]
    return boolv(all(same_value(I, st, st.mem[x], st.mem[y]) for x, y in zip(p, q)))


@nat(SL + "split_last", SL + "split_first", SL + "split_last_mut", SL + "split_first_mut")
def split_end(I, st, a, c):
    r, v = seqref(I, st, a[0])
    if "last" in c["n"]:
        need_back(I, st, v)
        if not v[2]:
            return NONE
        e, rest = v[2][-1][1], v[2][:-1]
    else:
        need_front(I, st, v)
        if not v[2]:
            return NONE
        e, rest = v[2][0][1], v[2][1:]
    return some(("agg", "()", 0, (("ref", e, ()), ("ref", st.new_cell(("seq", "slice", rest)), ()))))


@nat(SL + "split_at", SL + "split_at_mut")
def split_at(I, st, a, c):
    r, v = seqref(I, st, a[0])
    e, k = explicit(I, st, v, a[1])
    if k > len(e):
        oob(I, st)
    return ("agg", "()", 0, (("ref", st.new_cell(seqof("slice", e[:k])), ()), ("ref", st.new_cell(seqof("slice", e[k:])), ())))


@nat(V + "extend_from_slice")
def extend_from_slice(I, st, a, c):
    r, v = seqref(I, st, a[0])
    r2, w = seqref(I, st, a[1])
    parts = tuple(("el", st.new_cell(st.mem[p[1]])) if p[0] == "el" else p for p in w[2])
    I.put(st, r[1], r[2], ("seq", v[1], v[2] + parts))
    return UNIT


@nat(V + "resize", D + "resize")
def resize(I, st, a, c):
    r, v = seqref(I, st, a[0])
    if not is_const(a[1]):
        raise Unmodelled("resize to a symbolic length")
    e = cells(I, st, v)[:a[1][1]]
    while len(e) < a[1][1]:
        e.append(st.new_cell(a[2]))
    I.put(st, r[1], r[2], seqof(v[1], e))
    return UNIT


@nat(D + "make_contiguous")
def make_contiguous(I, st, a, c):
    r, v = seqref(I, st, a[0])
    return r


@nat("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def pord(I, st, a, c):
    x, y = I.deref_all(st, a[0]), I.deref_all(st, a[1])
    return I.cmp(st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c["n"]], x, y)


@nat("core::convert::AsRef::as_ref:node", "core::convert::AsMut::as_mut:node", "core::borrow::Borrow::borrow:node",
     "core::ops::Deref::deref:node", "core::ops::DerefMut::deref_mut:node",
     "core::convert::Into::into:node", "core::convert::From::from:node")
def same_node(I, st, a, c):
    return a[0]


@nat("core::intrinsics::likely", "core::intrinsics::unlikely", "core::hint::black_box", "core::convert::identity",
     "core::convert::Into::into:L", "core::convert::From::from:L")
def ident1(I, st, a, c):
    return a[0]


@nat("core::clone::Clone::clone:tok")
def clone_tok(I, st, a, c):
    return ("tok", "clone of " + I.deref_all(st, a[0])[1])


@nat("core::cmp::PartialEq::eq:tok", "core::cmp::PartialEq::ne:tok")
def eq_tok(I, st, a, c):
    x, y = I.deref_all(st, a[0]), I.deref_all(st, a[1])
    if y[0] != "tok" or x[1].split(" ")[0] == y[1].split(" ")[0] or x[1].split(" ")[1] != y[1].split(" ")[1]:
        raise Unmodelled("comparison of %s with %s" % (x[1], y[1]))
    k = ("same", x[1].split(" ")[1])
    v = st.bools.get(k)
    if v is None:
        def mk(b):
            def f(s):
                s.bools[k] = b
            return f
        raise Split([mk(True), mk(False)])
    return boolv(v == (c["n"] == "eq"))


@nat("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "core::fmt::Arguments::new", "core::fmt::Arguments::new_v1",
     "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::Arguments::from_str_nonconst")
def fmt_args(I, st, a, c):
    return ("opq", "fmt")


# ---------------------------------------------------------------- ranges of integers
def range_cell(I, st, a):
    r = a[0]
    while True:
        v = I.get(st, r[1], r[2])
        if v[0] != "ref":
            return r, v
        r = v


def range_step(I, st, a, back):
    r, v = range_cell(I, st, a)
    f = v[3]
    kind = v[1].split("::")[-1]
    if f[0][0] != "L":
        raise Unmodelled("range of " + f[0][0])
    if kind == "RangeFrom":
        if back:
            raise Unmodelled("end of RangeFrom")
        I.put(st, r[1], r[2], ("agg", v[1], 0, (lin_c(f[0], 1),)))
        return some(f[0])
    incl = kind == "RangeInclusive"
    if incl and I.truth(st, f[2]):
        return NONE
    if not I.truth(st, I.cmp(st, "Le" if incl else "Lt", f[0], f[1])):
        return NONE
    if incl and I.truth(st, I.cmp(st, "Eq", f[0], f[1])):
        I.put(st, r[1], r[2], ("agg", v[1], 0, (f[0], f[1], TRUE)))
        return some(f[0])
    x = (f[0], lin_c(f[1], -1)) if back else (lin_c(f[0], 1), f[1])
    I.put(st, r[1], r[2], ("agg", v[1], 0, x + f[2:]))
    return some(f[1] if back and incl else x[1] if back else f[0])


@nat("next:range")
def range_next(I, st, a, c):
    return range_step(I, st, a, False)


@nat("next_back:range")
def range_next_back(I, st, a, c):
    return range_step(I, st, a, True)


@nat("core::iter::Iterator::size_hint:range", "core::iter::ExactSizeIterator::len:range")
def range_hint(I, st, a, c):
    r, v = deref(I, st, a[0])
    if v[1].split("::")[-1] != "Range":
        raise Unmodelled("length of " + v[1])
    d = lin_add(v[3][1], v[3][0], -1)
    e = st.decide_ge0(d)
    if e is None:
        I.split_cmp(d, "ge")
    n = d if e else L(0)
    return n if c["n"] == "len" else hint(n, some(n))


@nat("core::ops::RangeInclusive::new")
def range_inclusive(I, st, a, c):
    return ("agg", "core::ops::RangeInclusive", 0, (a[0], a[1], FALSE))


@nat("core::ops::Range::contains", "core::ops::RangeInclusive::contains", "core::ops::RangeFrom::contains", "core::ops::RangeTo::contains")
def range_contains(I, st, a, c):
    r, v = deref(I, st, a[0])
    x = I.deref_all(st, a[1])
    kind = v[1].split("::")[-1]
    if kind == "RangeTo":
        return I.cmp(st, "Lt", x, v[3][0])
    if not I.truth(st, I.cmp(st, "Le", v[3][0], x)):
        return FALSE
    return TRUE if kind == "RangeFrom" else I.cmp(st, "Le" if kind == "RangeInclusive" else "Lt", x, v[3][1])


@nat("core::ops::Range::is_empty")
def range_empty(I, st, a, c):
    r, v = deref(I, st, a[0])
    return I.cmp(st, "Ge", v[3][0], v[3][1])
