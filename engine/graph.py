"""Recursion: strongly connected components of the resolved call graph."""
import json

# methods that build an adapter and do not drive the iterator they are given
LAZY = {"map", "filter", "filter_map", "flat_map", "flatten", "enumerate", "chain", "zip", "rev", "peekable", "skip", "take", "skip_while",
        "take_while", "map_while", "scan", "fuse", "inspect", "by_ref", "cloned", "copied", "cycle", "step_by", "into_iter", "size_hint"}


def calls(body):
    """(callee constant, line) of every function mentioned, and closures."""
    out = []

    def walk(o, line):
        if isinstance(o, dict):
            f = o.get("fn")
            if isinstance(f, dict) and f.get("id"):
                out.append(("fn", f, line))
            if o.get("k") == "closure" and o.get("d"):
                out.append(("clo", o["d"], line))
            for v in o.values():
                walk(v, line)
        elif isinstance(o, list):
            for v in o:
                walk(v, line)
    for b in body.blocks:
        for s in b["s"]:
            walk(s, s[3] if len(s) > 3 and isinstance(s[3], str) else s[-1] if isinstance(s[-1], str) else body.span)
        walk(b["t"], b.get("l") or body.span)
    return out


def adts_in(types, t, seen=None, depth=0):
    """Local types mentioned by a type."""
    out = set()
    if depth > 12 or not isinstance(t, int) or t >= len(types):
        return out
    x = types[t]
    if x["k"] == "adt":
        out.add(x["p"])
    for v in x.values():
        if isinstance(v, list):
            for y in v:
                if isinstance(y, int) and not isinstance(y, bool):
                    out |= adts_in(types, y, seen, depth + 1)
    if isinstance(x.get("t"), int) and x["k"] in ("ref", "ptr", "array", "slice"):
        out |= adts_in(types, x["t"], seen, depth + 1)
    return out


def graph(prog):
    """Edges caller -> {callee: line} over the crate's own bodies."""
    G = {}
    nexts = {}
    for (t, a), ms in prog.impls.items():
        if t.endswith("iter::Iterator") and "next" in ms:
            nexts[a] = ms["next"]
    for k, b in prog.bodies.items():
        if b.crate != "lib" or not b.local:
            continue
        e = G.setdefault(k, {})
        types = prog.types[b.crate]
        for kind, c, line in calls(b):
            if kind == "clo":
                e.setdefault(c, line)
                continue
            r = c.get("res")
            e.setdefault(r["id"] if r and r.get("id") else c["id"], line)
            tr = c.get("trait") or ""
            if tr.split("::")[-1] in ("Iterator", "Extend", "FromIterator", "DoubleEndedIterator") and c["n"] not in LAZY:
                for i in c["a"]:
                    for a in adts_in(types, i):
                        if a in nexts:
                            e.setdefault(nexts[a], line)
    for k in G:
        G[k] = {c: l for c, l in G[k].items() if c in G}
    return G


def sccs(G):
    """Tarjan, iterative."""
    index, low, on, stack, out = {}, {}, set(), [], []
    for root in G:
        if root in index:
            continue
        work = [(root, iter(G[root]))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(G[w])))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def excluded(prog):
    """Bodies the compiler derives: clone, eq and fmt of a tree follow its
    recursive type, like its drop."""
    return set(prog.derived)


def recursion(prog, R):
    """One task per module: no function of the module takes part in a cycle."""
    G = graph(prog)
    skip = excluded(prog)
    comp = {}
    for c in sccs(G):
        if len(c) > 1 or c[0] in G[c[0]]:
            for k in c:
                comp[k] = c
    mods = {}
    for k in G:
        if k in skip or any(k.startswith(s + "::") for s in skip):
            continue
        b = prog.bodies[k]
        mods.setdefault(b.span.rsplit(":", 1)[0], []).append(k)

    def task(mod, ks):
        def run(prog):
            r = R("functions of " + mod)
            seen = set()
            for k in ks:
                r.obl += 1
                r.fns.add(k)
                c = comp.get(k)
                if c is None or frozenset(c) in seen:
                    continue
                seen.add(frozenset(c))
                # a shortest cycle through k
                prev = {k: None}
                todo = [k]
                end = None
                for v in todo:
                    for w in G[v]:
                        if w == k:
                            end = v
                            break
                        if w in comp and comp[w] is c and w not in prev:
                            prev[w] = v
                            todo.append(w)
                    if end:
                        break
                path = [k]
                v = end
                back = []
                while v is not None and v != k:
                    back.append(v)
                    v = prev[v]
                path += back[::-1] + [k]
                line = G[path[0]][path[1]]
                r.bad("recursion", prog.bodies[k].path, line, "calls itself: " + " -> ".join(
                    prog.bodies[x].path.replace("tree_iterators_rs::", "") for x in path))
            return r
        return run
    return [task(m, ks) for m, ks in sorted(mods.items())]
