"""Abstract values and abstract states (shape domain with chain segments)."""
import itertools

_ids = itertools.count(1)


def fresh(prefix):
    return "%s%d" % (prefix, next(_ids))


class Unmodelled(Exception):
    pass


class Split(Exception):
    """Raised before a statement takes effect when the abstract state does not
    determine its outcome; each refinement is applied to a copy."""

    def __init__(self, refines):
        self.refines = refines


# ------------------------------------------------------------------ integers
MAXU = (1 << 64) - 1


def L(c, terms=()):
    return ("L", c, tuple(terms))


def lin_sym(s):
    return ("L", 0, ((s, 1),))


def _key(t):
    return repr(t[0])


def lin_add(a, b, k=1):
    d = dict(a[2])
    for s, c in b[2]:
        d[s] = d.get(s, 0) + k * c
    t = tuple(sorted(((s, c) for s, c in d.items() if c), key=_key))
    return ("L", a[1] + k * b[1], t)


def lin_c(a, c):
    return ("L", a[1] + c, a[2])


def is_const(a):
    return not a[2]


ZERO = L(0)
ONE = L(1)
TRUE = L(1)
FALSE = L(0)
UNIT = ("agg", "()", 0, ())
OPT = "core::option::Option"
NONE = ("agg", OPT, 0, ())


def some(v):
    return ("agg", OPT, 1, (v,))


def boolv(b):
    return TRUE if b else FALSE


# ------------------------------------------------------------------ rewriting
def rewrite(v, fn):
    """Bottom-out structural rewriting; fn returns a replacement or None."""
    if type(v) is not tuple:
        return v
    r = fn(v)
    if r is not None:
        return r
    ch = False
    out = []
    for x in v:
        if type(x) is tuple:
            y = rewrite(x, fn)
            if y is not x:
                ch = True
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else v


def mentions(v, pred):
    if type(v) is not tuple:
        return False
    if pred(v):
        return True
    for x in v:
        if type(x) is tuple and mentions(x, pred):
            return True
    return False


def lin_subst_fn(sym, lin):
    def f(v):
        if v and v[0] == "L":
            for s, c in v[2]:
                if s == sym:
                    base = ("L", v[1], tuple(t for t in v[2] if t[0] != sym))
                    return lin_add(base, lin, c)
            return v
        return None
    return f


class Frame:
    __slots__ = ("body", "bb", "si", "loc", "dest", "ret", "tag")

    def __init__(self, body, loc, dest, ret, tag=None):
        self.body = body
        self.bb = 0
        self.si = 0
        self.loc = loc
        self.dest = dest
        self.ret = ret
        self.tag = tag

    def copy(self):
        f = Frame(self.body, dict(self.loc), self.dest, self.ret, self.tag)
        f.bb = self.bb
        f.si = self.si
        return f


class State:
    __slots__ = ("mem", "frames", "facts", "lb", "ineq", "link", "seg", "W", "exp", "ev", "g",
                 "trace", "depth", "bools", "hp", "heads", "splits")

    def __init__(self):
        self.mem = {}
        self.frames = []
        self.facts = {}
        self.lb = {}
        self.ineq = ()
        self.link = {}      # node atom -> ('under', S)
        self.seg = {}       # S -> (sig id, linked, base node term)
        self.W = None
        self.exp = frozenset()
        self.ev = ()
        self.g = {}         # ghost variables: name -> value
        self.trace = ()
        self.depth = 0
        self.bools = {}
        self.hp = None      # loop heads visited: (key, splits, previous) without folding, the last key with it
        self.heads = {}     # visits of each loop head in this client step
        self.splits = 0

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.facts = dict(self.facts)
        s.lb = dict(self.lb)
        s.ineq = self.ineq
        s.link = dict(self.link)
        s.seg = dict(self.seg)
        s.W = self.W
        s.exp = self.exp
        s.ev = self.ev
        s.g = dict(self.g)
        s.trace = self.trace
        s.depth = self.depth
        s.bools = dict(self.bools)
        s.hp = self.hp
        s.heads = self.heads
        s.splits = self.splits
        return s

    # -------------------------------------------------------------- memory
    def new_cell(self, v):
        c = fresh("c")
        self.mem[c] = v
        return c

    def subst(self, fn):
        for k, v in self.mem.items():
            self.mem[k] = rewrite(v, fn)
        if self.W is not None:
            self.W = rewrite(self.W, fn)
        self.facts = {rewrite(k, fn): v for k, v in self.facts.items()}
        self.seg = {k: (v[0], v[1], rewrite(v[2], fn)) for k, v in self.seg.items()}
        self.exp = frozenset(rewrite(x, fn) for x in self.exp)
        self.ev = rewrite(self.ev, fn)
        self.g = {k: rewrite(v, fn) for k, v in self.g.items()}
        self.bools = {rewrite(k, fn): v for k, v in self.bools.items()}
        self.ineq = rewrite(self.ineq, fn)

    def subst_sym(self, sym, lin):
        self.subst(lin_subst_fn(sym, lin))
        lbv = self.lb.pop(sym, None)
        if lbv is not None:
            # lin >= lbv
            if len(lin[2]) == 1 and lin[2][0][1] == 1:
                s = lin[2][0][0]
                self.lb[s] = max(self.lb.get(s, -10**9), lbv - lin[1])
            elif is_const(lin):
                if lin[1] < lbv:
                    return False
            else:
                self.ineq = self.ineq + (lin_c(lin, -lbv),)
        return True

    def subst_node(self, atom, term):
        def f(v):
            if v == atom:
                return term
            return None
        self.subst(f)
        self.link.pop(atom, None)

    # -------------------------------------------------------------- integers
    def lo(self, lin):
        """A lower bound of lin, or None."""
        r = lin[1]
        for s, c in lin[2]:
            if c > 0:
                b = self.lb.get(s)
                if b is None and type(s) is tuple and s[0] == "len":
                    b = 0
                if b is None:
                    return self._ineq_lo(lin)
                r += c * b
            else:
                return self._ineq_lo(lin)
        return r

    def _ineq_lo(self, lin):
        best = None
        for q in self.ineq:
            d = lin_add(lin, q, -1)
            if is_const(d):
                best = d[1] if best is None else max(best, d[1])
            else:
                # lin - q with the remaining symbols bounded below
                r = d[1]
                for s, c in d[2]:
                    b = self.lb.get(s)
                    if b is None and type(s) is tuple and s[0] == "len":
                        b = 0
                    if c < 0 or b is None:
                        r = None
                        break
                    r += c * b
                if r is not None:
                    best = r if best is None else max(best, r)
        return best

    def decide_ge0(self, lin):
        lo = self.lo(lin)
        if lo is not None and lo >= 0:
            return True
        hi = self.lo(lin_add(ZERO, lin, -1))   # lower bound of -lin
        if hi is not None and hi > 0:
            return False
        return None

    def decide_eq0(self, lin):
        if is_const(lin):
            return lin[1] == 0
        lo = self.lo(lin)
        if lo is not None and lo > 0:
            return False
        hi = self.lo(lin_add(ZERO, lin, -1))
        if hi is not None and hi > 0:
            return False
        return None

    def assume_ge0(self, lin):
        if is_const(lin):
            return lin[1] >= 0
        d = self.decide_ge0(lin)
        if d is not None:
            return d
        if len(lin[2]) == 1 and lin[2][0][1] == 1 and type(lin[2][0][0]) is str:
            s = lin[2][0][0]
            self.lb[s] = max(self.lb.get(s, -10**9), -lin[1])
            return True
        self.ineq = self.ineq + (lin,)
        return True

    def assume_eq0(self, lin):
        if is_const(lin):
            return lin[1] == 0
        if self.decide_eq0(lin) is False:
            return False
        for s, c in lin[2]:
            if abs(c) == 1 and type(s) is str:
                rest = ("L", lin[1], tuple(t for t in lin[2] if t[0] != s))
                # c*s + rest = 0  ->  s = -rest/c
                val = lin_add(ZERO, rest, -c)
                return self.subst_sym(s, val)
        self.ineq = self.ineq + (lin, lin_add(ZERO, lin, -1))
        return True
