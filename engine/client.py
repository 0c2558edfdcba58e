"""Exploration of the most general client of one iterator."""
import signal
import sys
import time
from dom import *
import fold
import interp as interp_mod
from interp import Interp, Timeout

sys.setrecursionlimit(20000)
ROOT = ("nd", "root")
COLL = ("coll", "c")
MAX_ROUNDS = 25
MAX_CLIENT = 400
WIDEN = True          # fold segments (proof) or keep every shape explicit
WIDTH = 3
HEIGHT = 3
SPARE = False
BUDGET = 12.0
LIMIT = 1500


class Missing(Exception):
    """A part of the public interface that the property is about is gone."""


class Violation:
    def __init__(self, rule, fn, line, msg, trace):
        self.rule, self.fn, self.line, self.msg, self.trace = rule, fn, line, msg, trace

    def key(self):
        return (self.rule, self.fn, self.line, self.msg)


class Run:
    """One exploration: mode is the order of the expected sequence."""

    def __init__(self, prog, mode, slots, label, coll=False):
        self.p = prog
        self.I = Interp(prog, mode, slots)
        self.label = label
        self.coll = coll
        self.record = False       # keep the client states of the last round
        self.kept = []
        self.viol = []
        self.obl = 0
        self.cstates = 0
        self.rounds = 0
        self.last = ("?", "?")
        self.converged = False
        self.limit = LIMIT
        self.budget = BUDGET
        self.I.fold_enabled = WIDEN
        self.I.width = WIDTH
        self.I.height = HEIGHT
        self.I.spare = SPARE
        self.I.extra = 1 if coll else 0

    # ------------------------------------------------------------ helpers
    def start(self):
        st = State()
        if self.coll:
            st.g["root"] = COLL
            st.W = (("F", COLL, L(0)),)
        else:
            st.g["root"] = ROOT
            st.W = (("T", ROOT),)
        fold.normalise(self.I, st)
        return st

    def root_value(self):
        return ("kids", COLL) if self.coll else ("node", ROOT)

    def invoke(self, st, key, args, what):
        """Run a body to completion: list of (state, value)."""
        I = self.I
        st = st.copy()
        c = st.new_cell(("undef",))
        st.g["~ret"] = ("ref", c, ())
        st.trace = st.trace + (what,)
        I.call_body(st, key, args, (c, ()), None)
        b = I.p.body(key)
        self.last = (b.path, I.p.short(b.span))
        out = []
        for s in self.I.run([st]):
            r = s.g.pop("~ret")
            out.append((s, s.mem[r[1]]))
        return out

    def method(self, v, name, trait=None):
        """Body key of a method of the value's type."""
        if v[0] != "agg":
            raise Unmodelled("method %s of %s" % (name, v[0]))
        adt = v[1]
        ks = self.p.inherent.get((adt, name))
        if ks and trait is None:
            return ks[0]
        for (t, a), ms in self.p.impls.items():
            if a == adt and name in ms and (trait is None or t.endswith(trait)):
                return ms[name]
        for (t, a), ms in self.p.impls.items():
            if a == adt and (trait is None or t.endswith(trait)):
                k = "tree_iterators_rs::%s::%s" % (t, name)
                if k in self.p.bodies:
                    return k
        return None

    def call_method(self, st, ref, name, args=(), by="ref", trait=None):
        v = self.I.get(st, ref[1], ref[2])
        k = self.method(v, name, trait)
        if k is None:
            raise Missing("%s has no method %s" % (v[1], name))
        a0 = ref if by == "ref" else v
        return self.invoke(st, k, [a0] + list(args), name)

    def bad(self, st, rule, msg):
        self.viol.append(Violation(rule, self.last[0], self.last[1], msg, st.trace))

    # ------------------------------------------------------------ words
    def split_head(self, st):
        """Make the head of the ghost word explicit; yields states."""
        work = [st]
        while work:
            s = work.pop()
            fold.normalise(self.I, s)
            W = s.W
            seg = None
            if W and W[0][0] == "A":
                seg = (W[0][1], True)
            elif W and W[0][0] == "B" and W[0][1] and W[0][1][0][0] == "Q":
                seg = (W[0][1][0][1], False)
            if seg is None:
                yield s
                continue
            if s.depth > 60:
                self.I.note_unmodelled("unbounded unfolding of the expected sequence", s)
                continue
            for f in fold.unfold(self.I, seg[0], seg[1]):
                c = s.copy()
                c.depth += 1
                if f(c) is False:
                    continue
                work.append(c)

    def expect_value(self, st, n):
        """The traversal produced the value of node n."""
        for s in self.split_head(st):
            self.obl += 1
            if n is None:
                self.bad(s, "order", "produced something that is not a node's value")
                continue
            if not s.W or s.W[0] != ("V", n):
                hd = fold.show_word(s.W[:3])
                self.bad(s, "order", "produced value(%s) where the order requires %s" % (fold.show(n), hd))
                continue
            s.W = s.W[1:]
            s.depth = 0
            yield s

    def expect_end(self, st):
        for s in self.split_head(st):
            self.obl += 1
            if s.W:
                self.bad(s, "complete", "ended although %s is still due" % fold.show_word(s.W[:3]))
                continue
            s.depth = 0
            yield s

    # ------------------------------------------------------------ exploration
    def explore(self, starts, step):
        """starts: function returning initial client states;
        step: state -> iterable of successor client states."""
        I = self.I
        limit = MAX_CLIENT if I.fold_enabled else self.limit
        stop = time.process_time() + self.budget
        I.deadline = stop

        def alarm(*a):
            raise Timeout()
        signal.signal(signal.SIGPROF, alarm)
        signal.setitimer(signal.ITIMER_PROF, self.budget + 1)
        try:
            return self.explore1(starts, step, limit, stop)
        except Timeout:
            I.unmodelled[("time limit", self.last[0], self.last[1])] = 1
            return False
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    def explore1(self, starts, step, limit, stop):
        I = self.I
        for rnd in range(MAX_ROUNDS):
            self.rounds = rnd + 1
            I.sigdirty = False
            I.events = []
            I.unmodelled = {}
            self.viol = []
            self.obl = 0
            seen = set()
            work = []
            self.kept = []
            n = 0

            def push(s):
                s.depth = 0
                s.g.pop("nexp", None)
                try:
                    fold.gc(I, s)
                    if I.fold_enabled:
                        (I.abstract or fold.fold)(I, s)
                except Unmodelled as e:
                    I.note_unmodelled("fold: " + str(e), s)
                    return
                k = fold.canon(I, s)
                if k not in seen:
                    seen.add(k)
                    work.append(s)
                    if self.record:
                        self.kept.append(s.copy())
            try:
                for s in starts():
                    push(s)
            except Unmodelled as e:
                I.unmodelled[(str(e), self.last[0], self.last[1])] = 1
            except Split:
                I.unmodelled[("undetermined result", self.last[0], self.last[1])] = 1
            except Timeout:
                I.unmodelled[("time limit", self.last[0], self.last[1])] = 1
            except (KeyError, IndexError, TypeError, ValueError, AttributeError, RecursionError) as e:
                I.unmodelled[("engine: %s %s" % (type(e).__name__, e), self.last[0], self.last[1])] = 1
            while work:
                s = work.pop(0)
                n += 1
                if n > limit or time.process_time() > stop:
                    I.unmodelled[("client state limit", self.last[0], self.last[1])] = 1
                    break
                if not I.fold_enabled and (self.viol or any(e[0] != "repoll" for e in I.events)):
                    break
                if len(s.trace) > 40:
                    s.trace = s.trace[:4] + ("...",) + s.trace[-30:]
                try:
                    for t in step(s):
                        push(t)
                except Unmodelled as e:
                    I.note_unmodelled(str(e), s)
                except Split:
                    I.note_unmodelled("undetermined result", s)
                except Timeout:
                    I.unmodelled[("time limit", self.last[0], self.last[1])] = 1
                    break
                except (KeyError, IndexError, TypeError, ValueError, AttributeError, RecursionError) as e:
                    I.note_unmodelled("engine: %s %s" % (type(e).__name__, e), s)
            self.cstates = n
            if not I.sigdirty:
                self.converged = True
                return True
            if time.process_time() > stop:
                break
        I.unmodelled[("frame shapes do not stabilise", self.last[0], self.last[1])] = 1
        return False


def opt_of(I, st, v):
    """Resolve an optional result: (is_some, payload); may raise Split."""
    v = I.resolve(st, v)
    if v[0] == "ref":
        v = I.deref_all(st, v)
    if v[0] == "agg" and v[1] == OPT:
        return v[2] == 1, (v[3][0] if v[2] else None)
    raise Unmodelled("result is %s" % v[0])
