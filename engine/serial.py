"""The feature serde: what a node type writes is what it reads back.

The bodies behind Serialize and Deserialize (written by serde's derive macros,
or by hand) are run on a node whose fields are opaque, against a format that
only records what it is given.  What was recorded is then offered to the
reading side in every way a format may: as a sequence, as a map in any order
of the keys with or without a key that is not known, and with keys given as
text, as bytes or by position."""
import itertools
import os
import re
import shutil
import subprocess
import tempfile
from dom import *
import fold
import mir
import natives
from client import Missing
from nodes import Parts, tok

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = "core::result::Result"
HELPER = re.compile(r"serde(_core)?::__private\d*::de::missing_field$")


def ok(v):
    return ("agg", RES, 0, (v,))


def err(v):
    return ("agg", RES, 1, (v,))


def program():
    out = tempfile.mkdtemp(prefix="verif_serde_")
    try:
        p = subprocess.run([os.path.join(V, "bin", "export.sh"), out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                           env=dict(os.environ, FEATURES="serde"))
        if p.returncode:
            raise Unmodelled("the crate cannot be built with the feature serde: " + p.stderr[-600:])
        return mir.Program([("lib", os.path.join(out, "lib.json")), ("models", os.path.join(out, "models.json"))])
    finally:
        shutil.rmtree(out, ignore_errors=True)


class Table(dict):
    """serde's private helpers have their version in their path."""
    def get(self, k, d=None):
        if HELPER.match(k):
            return lambda I, st, a, c: err(tok("error"))
        return dict.get(self, k, d)


class Serial(Parts):
    def __init__(self, prog, binary, what):
        self.name = "BinaryTree" if binary else "Tree"
        Parts.__init__(self, prog, "%s: %s" % (self.name, what), binary=binary)
        self.what = what
        N = self.I.nat = Table(natives.TABLE)
        rec = lambda f: lambda I, st, a, c: f(st, I, a, c)
        N["serde::Serializer::serialize_struct"] = rec(self.open)
        N["serde::ser::SerializeStruct::serialize_field"] = rec(self.write)
        N["serde::ser::SerializeStruct::skip_field"] = rec(self.leave_out)
        N["serde::ser::SerializeStruct::end"] = rec(self.close)
        for f in ("struct", "identifier", "map", "seq", "any", "tuple", "str"):
            N["serde::Deserializer::deserialize_" + f] = rec(self.ask)
        N["serde::de::SeqAccess::next_element"] = rec(self.element)
        N["serde::de::MapAccess::next_key"] = rec(self.key)
        N["serde::de::MapAccess::next_value"] = rec(self.value)
        for f in ("duplicate_field", "missing_field", "invalid_length", "unknown_field", "custom", "invalid_type", "invalid_value"):
            N["serde::de::Error::" + f] = lambda I, st, a, c: tok("error")
        N["core::cmp::PartialEq::eq:str"] = N["core::cmp::PartialEq::ne:str"] = self.same_text
        self.I.text = True

    # ---------------------------------------------------------- the format
    def log(self, st, *e):
        st.g["log"] = st.g["log"] + (e,)

    def open(self, st, I, a, c):
        self.log(st, "open", self.text(a[1]), a[2])
        return ok(tok("writer"))

    def write(self, st, I, a, c):
        self.log(st, "field", self.text(a[1]), I.deref_all(st, a[2]))
        return ok(UNIT)

    def leave_out(self, st, I, a, c):
        self.log(st, "skip", self.text(a[1]))
        return ok(UNIT)

    def close(self, st, I, a, c):
        self.log(st, "end")
        return ok(tok("written"))

    def ask(self, st, I, a, c):
        self.log(st, c["n"], a[-1], self.text(a[1]) if c["n"] == "deserialize_struct" else None)
        return ok(tok("read"))

    def element(self, st, I, a, c):
        i = st.g["pos"]
        if i >= st.g["n"]:
            return ok(NONE)
        st.g["pos"] = i + 1
        return ok(some(tok("element %d" % i)))

    def key(self, st, I, a, c):
        ks = st.g["keys"]
        if st.g["pos"] >= len(ks):
            return ok(NONE)
        st.g["due"] = ks[st.g["pos"]]
        st.g["pos"] += 1
        return ok(some(self.ids[st.g["due"]]))

    def value(self, st, I, a, c):
        if st.g["due"] is None:
            raise Unmodelled("a value is read without its key")
        k, st.g["due"] = st.g["due"], None
        return ok(tok("value of " + k))

    def text(self, v):
        if v[0] != "str":
            raise Unmodelled("name given as %s" % v[0])
        return v[1]

    def same_text(self, I, st, a, c):
        x, y = I.deref_all(st, a[0]), I.deref_all(st, a[1])
        if x[0] != "str" or y[0] != "str":
            raise Unmodelled("comparison of a text with %s" % y[0])
        return TRUE if (x[1] == y[1]) == (c["n"] == "eq") else FALSE

    # --------------------------------------------------------- what is run
    def impl(self, trait, adt, name):
        ms = self.p.impls.get((trait, adt))
        if ms is None or name not in ms:
            return None
        return ms[name]

    def start(self, **g):
        st = State()
        st.W = ()
        st.g["log"] = ()
        for k, v in dict(pos=0, n=0, keys=(), due=None, **{}).items():
            st.g[k] = g.get(k, v)
        return st

    def written(self):
        """(state, name, [(key, field)]) for every way through serialize."""
        adt = self.adt(self.name)
        key = self.impl("serde::Serialize", adt, "serialize")
        if key is None:
            raise Missing("%s does not implement Serialize with the feature serde" % self.name)
        names = [x for x, _ in self.p.adts[adt]["variants"][0][1]]
        cases = []
        for i in range(4 if self.binary else 3):
            if self.binary:
                cases.append({"value": tok("value"), "left": some(tok("left")) if i & 1 else NONE, "right": some(tok("right")) if i & 2 else NONE})
            else:
                cases.append({"value": tok("value"), "children": i})
        for fs in cases:
            st = self.start()
            if not self.binary:
                fs["children"] = ("seq", "vec", tuple(("el", st.new_cell(tok("child %d" % i))) for i in range(fs["children"])))
            v, at = self.struct(adt, fs)
            for s, r in self.invoke(st, self.need(key), [("ref", st.new_cell(v), ()), tok("format")], "serialize"):
                yield s, r, names, fs

    def shape(self):
        """The keys in the order they are written, each with its field."""
        out = None
        for s, r, names, fs in self.written():
            log = s.g["log"]
            if not log or log[0][0] != "open":
                raise Unmodelled("written as something other than a record")
            got = []
            for e in log[1:]:
                if e[0] == "field":
                    fit = [n for n in names if e[2] == fs[n]]
                    got.append((e[1], tuple(fit)))
            if out is None:
                out = got
            elif [k for k, _ in out] == [k for k, _ in got]:
                out = [(k, tuple(n for n in a if n in b)) for (k, a), (_, b) in zip(out, got)]
        if not out or any(len(f) != 1 for _, f in out):
            raise Unmodelled("what is written has no fixed shape")
        return log[0][1], [(k, f[0]) for k, f in out]

    def run(self):
        return getattr(self, "run_" + self.what.split(" ")[0])()

    def run_writing(self):
        for s, r, names, fs in self.written():
            log = s.g["log"]
            if not log or log[0][0] != "open":
                raise Unmodelled("written as something other than a record")
            body = [e for e in log if e[0] in ("field", "skip")]
            msg = None
            if r != ok(tok("written")) or log[-1][0] != "end":
                msg = "the record is not finished"
            for e in body:
                if e[0] == "skip":
                    msg = msg or "the field %s is left out of what is written" % e[1]
                elif e[1] in names and e[2] != fs[e[1]]:
                    msg = msg or "under the name %s something else than that field is written" % e[1]
                elif e[1] not in names:
                    msg = msg or "something is written under the name %s, which is no field" % e[1]
            ks = [e[1] for e in body]
            for n in names:
                if ks.count(n) != 1:
                    msg = msg or "the field %s is written %d times" % (n, ks.count(n))
            if log[0][2] != L(len(names)):
                msg = msg or "the record is announced with %s fields" % fold.show(log[0][2])
            if self.check(s, msg is None, msg):
                yield s

    def field_ids(self, how, shape):
        """How the reading side understands each key."""
        adt = self.visited("serde::Deserialize", self.field_type, "deserialize_identifier")
        key = self.impl("serde::de::Visitor", adt, how)
        if key is None:
            raise Unmodelled("keys are not read by " + how)
        ids = {}
        for i, k in enumerate([k for k, _ in shape] + ["not known"]):
            st = self.start()
            arg = L(i)
            if how == "visit_str":
                arg = ("str", k)
            elif how == "visit_bytes":
                arg = ("ref", st.new_cell(("seq", "slice", tuple(("el", st.new_cell(L(x))) for x in k.encode()))), ())
            for s, r in self.invoke(st, self.need(key), [("agg", adt, 0, ()), arg], how):
                if r[:3] == ("agg", RES, 1):
                    self.event(s, "a key" if k != "not known" else "a key that is not known", k)
                    ids[k] = None
                else:
                    ids[k] = r[3][0]
        return ids

    def event(self, st, what, k):
        self.refused = (st, what, k)

    def visited(self, trait, adt, how):
        key = self.impl(trait, adt, "deserialize")
        if key is None:
            raise Missing("%s does not implement Deserialize with the feature serde" % adt.split("::")[-1])
        for s, r in self.invoke(self.start(), self.need(key), [tok("format")], "deserialize"):
            e = s.g["log"]
            if r != ok(tok("read")) or len(e) != 1 or e[0][0] != how:
                raise Unmodelled("deserialize does more than %s" % how)
            self.read_name = e[0][2]
            v = self.I.deref_all(s, e[0][1])
            self.visitor = v
            if v[0] != "agg":
                raise Unmodelled("visitor is %s" % v[0])
            return v[1]

    def run_reading(self):
        name, shape = self.shape()
        adt = self.adt(self.name)
        names = [x for x, _ in self.p.adts[adt]["variants"][0][1]]
        vis = self.visited("serde::Deserialize", adt, "deserialize_struct")
        visitor = self.visitor
        if self.read_name != name:
            if not self.check(self.start(), False, "written as %s and read as %s" % (name, self.read_name)):
                return
        if self.what.endswith("sequence"):
            st = self.start(n=len(shape))
            want = {f: tok("element %d" % i) for i, (k, f) in enumerate(shape)}
            runs = [(st, "visit_seq", want)]
        else:
            fp = [a for a in self.p.adts if self.p.adts[a]["local"] and ("serde::Deserialize", a) in self.p.impls and a.startswith(vis.rsplit("::", 1)[0] + "::")]
            if len(fp) != 1:
                raise Unmodelled("no type for the keys")
            self.field_type = fp[0]
            self.refused = None
            self.ids = self.field_ids({"names": "visit_str", "bytes": "visit_bytes", "positions": "visit_u64"}[self.what.split(" ")[-1]], shape)
            if self.refused:
                s, what, k = self.refused
                self.check(s, False, "%s is refused: %s" % (what, k))
                return
            runs = []
            ks = [k for k, _ in shape]
            for p in itertools.permutations(ks):
                for at in [None] + list(range(len(ks) + 1)):
                    q = list(p)
                    if at is not None:
                        q.insert(at, "not known")
                    runs.append((self.start(keys=tuple(q)), "visit_map", {f: tok("value of " + k) for k, f in shape}))
        for st, how, want in runs:
            key = self.impl("serde::de::Visitor", vis, how)
            if key is None:
                raise Unmodelled("nothing is read by " + how)
            src = st.new_cell(tok("source"))
            for s, r in self.invoke(st, self.need(key), [visitor, ("ref", src, ()) if how == "" else tok("source")], how):
                msg = None
                what = "the elements in order" if how == "visit_seq" else "the keys %s" % ", ".join(s.g["keys"])
                if r[:3] != ("agg", RES, 0):
                    msg = "what was written is refused when read back from " + what
                else:
                    v = self.I.deref_all(s, r[3][0])
                    if v[0] != "agg" or v[1] != adt:
                        raise Unmodelled("reading gives %s" % v[0])
                    for n, x in zip(names, v[3]):
                        x = self.I.deref_all(s, x)
                        if x != want.get(n):
                            msg = "the field %s is read as %s from %s" % (n, x[1] if x[0] == "tok" else fold.show(x) if x[0] == "L" else x[0], what)
                if self.check(s, msg is None, msg):
                    yield s


WHAT = ("writing", "reading a sequence", "reading a map by names", "reading a map by bytes", "reading a map by positions")


def run_serial(prog, binary, what):
    S = Serial(prog, binary, what)
    S.explore(lambda: list(S.run()), lambda s: ())
    return S


def tasks(session_task):
    def f(prog):
        P = program()

        def on(t):
            return lambda _: t(P)
        return [on(session_task(run_serial, (b, w), shapes=[(2, 1, 0.3)])) for b in (False, True) for w in WHAT]
    return f
