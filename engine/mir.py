"""Loading of the exported MIR and name resolution."""
import json, re


class Body:
    __slots__ = ("key", "j", "blocks", "args", "locals", "names", "span", "path", "local",
                 "live_in", "heads", "crate")

    def __init__(self, key, j, crate):
        self.key = key
        self.j = j
        self.blocks = j["blocks"]
        self.args = j["args"]
        self.locals = j["locals"]
        self.names = j["names"]
        self.span = j["span"]
        self.path = j["path"]
        self.local = j["local"]
        self.crate = crate
        self.live_in = None
        self.heads = None

    # -------- control flow helpers
    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[3]]
        return []

    def analyse(self):
        if self.live_in is not None:
            return
        n = len(self.blocks)
        # back edges by DFS
        heads = set()
        color = {}
        stack = [(0, iter(self.succs(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    break
                elif color[s] == 1:
                    heads.add(s)
            else:
                color[b] = 2
                stack.pop()
        self.heads = heads
        # liveness
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        for i, bl in enumerate(self.blocks):
            u, d = use[i], deff[i]

            def u_place(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def u_op(o):
                if o[0] in ("cp", "mv"):
                    u_place(o[1])

            def d_place(p):
                if p[1]:
                    u_place(p)
                else:
                    d.add(p[0])
            for s in bl["s"]:
                if s[0] == "=":
                    r = s[2]
                    for o in _ops(r):
                        u_op(o)
                    for p in _places(r):
                        u_place(p)
                    d_place(s[1])
                elif s[0] == "setd":
                    u_place(s[1])
            t = bl["t"]
            if t[0] == "switch":
                u_op(t[1])
            elif t[0] == "call":
                u_op(t[1])
                for a in t[2]:
                    u_op(a)
                d_place(t[3])
            elif t[0] == "assert":
                u_op(t[1])
            elif t[0] == "return":
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.succs(i):
                    out |= live[s]
                new = use[i] | (out - deff[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        self.live_in = live


def _ops(r):
    k = r[0]
    if k in ("use",):
        return [r[1]]
    if k == "repeat":
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return r[2]
    return []


def _places(r):
    k = r[0]
    if k in ("ref", "addr"):
        return [r[2]]
    if k == "discr":
        return [r[1]]
    return []


class Program:
    def __init__(self, files):
        self.bodies = {}
        self.types = {}
        self.adts = {}
        self.impls = {}        # (trait, adt path) -> {method: body key}
        self.inherent = {}     # (adt path, method) -> [body key]
        self.traits = {}
        self.crates = []
        self.impl_list = []
        self.derived = []       # bodies the compiler derived
        for crate, f in files:
            d = json.load(open(f))
            T = d["types"]
            self.types[crate] = T
            if crate != "models":
                self.crates = d["crates"]
            for k, b in d["bodies"].items():
                if not b["local"]:
                    continue
                self.bodies[k] = Body(k, b, crate)
                if b.get("self_ty") is not None and "of_trait" not in b:
                    st = T[b["self_ty"]]
                    if st["k"] == "adt":
                        self.inherent.setdefault((st["p"], b["name"]), []).append(k)
            for k, a in d["adts"].items():
                if crate == "models" and not a["local"]:
                    self.adts.setdefault(k, a)
                else:
                    self.adts[(("models::" + k) if crate == "models" and a["local"] else k)] = a
            for im in d["impls"]:
                if im.get("derived"):
                    self.derived += [i for n, i in im["items"]]
                st = T[im["self"]]
                if st["k"] == "adt":
                    p = st["p"]
                    if crate == "models" and self_is_local(d, p):
                        p = "models::" + p
                    m = {n: i for n, i in im["items"]}
                    self.impls.setdefault((im["trait"], p), {}).update(m)
                if crate != "models":
                    self.impl_list.append((im, st))
            for t in d["traits"]:
                if crate != "models":
                    self.traits[t["path"]] = t

    def body(self, key):
        return self.bodies.get(key)

    def field_index(self, adt, name, variant=0):
        for i, (n, _) in enumerate(self.adts[adt]["variants"][variant][1]):
            if n == name:
                return i
        return None

    def short(self, span):
        return re.sub(r"^.*?(tree_iterators_rs/src/)", r"\1", span)


def self_is_local(d, p):
    a = d["adts"].get(p)
    return bool(a and a["local"])
