"""Values read, re-created or kept through unsafe code."""
import re

# copy the bits of a value of their first type argument, leaving the original in place
DUP = {"core::ptr::read", "core::ptr::read_unaligned", "core::ptr::read_volatile", "core::ptr::const_ptr::read", "core::ptr::mut_ptr::read",
       "core::ptr::const_ptr::<impl *const T>::read", "core::ptr::mut_ptr::<impl *mut T>::read", "core::ptr::NonNull::read",
       "core::ptr::const_ptr::<impl *const T>::read_unaligned", "core::ptr::mut_ptr::<impl *mut T>::read_unaligned",
       "core::mem::MaybeUninit::assume_init_read", "core::mem::ManuallyDrop::take", "core::mem::transmute_copy",
       "core::ptr::copy", "core::ptr::copy_nonoverlapping"}
# afterwards the original is not dropped, or no longer there
SETTLE = {"core::mem::forget", "core::mem::ManuallyDrop::new", "core::ptr::write", "alloc::vec::Vec::set_len", "core::mem::MaybeUninit::uninit",
          "alloc::boxed::Box::into_raw", "alloc::boxed::Box::leak"}
LEAK = {"core::mem::forget", "core::mem::ManuallyDrop::new", "alloc::boxed::Box::leak", "alloc::boxed::Box::into_raw", "alloc::vec::Vec::leak",
        "alloc::rc::Rc::into_raw", "alloc::sync::Arc::into_raw"}
UNLEAK = {"core::mem::ManuallyDrop::drop", "core::mem::ManuallyDrop::take", "core::mem::ManuallyDrop::into_inner", "alloc::boxed::Box::from_raw",
          "core::ptr::drop_in_place", "core::ptr::read", "alloc::rc::Rc::from_raw", "alloc::sync::Arc::from_raw"}
HELD = ("core::mem::MaybeUninit", "core::mem::ManuallyDrop")


def path_of(f):
    p = f["p"]
    p = re.sub(r"^std::", "core::", p)
    p = re.sub(r"^core::mem::manually_drop::", "core::mem::", p)
    p = re.sub(r"^core::mem::maybe_uninit::", "core::mem::", p)
    p = re.sub(r"<impl \*(const|mut) T>::", r"<impl *\1 T>::", p)
    return re.sub(r"::<(?!impl)[^>]*>", "", p)


def plain(s, b=None):
    """A type without its lifetimes and the names of its parameters."""
    s = re.sub(r"'\w+\s*,?\s*", "", s)
    for g in b.j["gens"] if b else ():
        s = re.sub(r"\b%s\b" % g, "_", s)
    return s.replace("<>", "").replace("tree_iterators_rs::", "")


def module(b):
    m = re.search(r"src/(.*?)\.rs", b.span)
    return m.group(1).replace("/", "::") if m else b.path


def fn_calls(b):
    for bl in b.blocks:
        t = bl["t"]
        if t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1].get("fn"), dict):
            yield t[1][1]["fn"], bl.get("l") or b.span


def bodies(prog):
    return [(k, b) for k, b in prog.bodies.items() if b.crate == "lib" and b.local]


def instances(prog, key, f, callers, depth=0):
    """(type, is it Copy, body) for the type the call copies, following a
    type parameter of a helper function to the helper's callers."""
    b = prog.bodies[key]
    T = prog.types[b.crate]
    ti, cp = f["a"][0], (f.get("ac") or [False])[0]
    t = T[ti]
    own = "self_ty" not in b.j and "in_trait" not in b.j
    if not cp and own and t["k"] == "param" and t["n"] in b.j["gens"] and depth < 5 and callers.get(key):
        i = b.j["gens"].index(t["n"])
        for ck, g, line in callers[key]:
            if i < len(g["a"]):
                h = {"a": [g["a"][i]], "ac": [(g.get("ac") or [False] * (i + 1))[i]]}
                yield from instances(prog, ck, h, callers, depth + 1)
        return
    yield t["s"], cp, b


def call_index(prog):
    ix = {}
    for k, b in bodies(prog):
        for f, line in fn_calls(b):
            r = f.get("res")
            ix.setdefault(r["id"] if r and r.get("id") else f["id"], []).append((k, f, line))
    return ix


def copies(prog, R):
    def run(prog):
        r = R("bitwise copies of values")
        callers = call_index(prog)
        for k, b in bodies(prog):
            r.fns.add(k)
            settled = any(path_of(f) in SETTLE for f, _ in fn_calls(b))
            for f, line in fn_calls(b):
                if path_of(f) not in DUP or not f["a"]:
                    continue
                for s, cp, where in instances(prog, k, f, callers):
                    r.obl += 1
                    if cp:
                        continue
                    if settled or path_of(f) in ("core::mem::ManuallyDrop::take", "core::mem::MaybeUninit::assume_init_read"):
                        r.status = "undecided" if r.status == "proved" else r.status
                        r.reasons.append("%s: whether the original is given up when %s is copied" % (line, plain(s)))
                        continue
                    r.bad("copy", "%s: %s" % (module(where), plain(s, where)), line,
                          "%s copies a value of type %s, which may own memory or be an exclusive reference, and the original stays in use"
                          % (path_of(f), plain(s)))
        return r
    return run


def leaks(prog, R):
    def run(prog):
        r = R("values that are never dropped")
        back = {path_of(f) for k, b in bodies(prog) for f, _ in fn_calls(b)} & (UNLEAK - {"core::ptr::read"})
        near = {}
        for k, b in bodies(prog):
            near.setdefault(k.split("::{closure")[0], set()).update(path_of(f) for f, _ in fn_calls(b))
        guards = {a for (t, a) in prog.impls if t.split("::")[-1] == "Drop"}
        callers = call_index(prog)
        for k, b in bodies(prog):
            r.fns.add(k)
            for f, line in fn_calls(b):
                if path_of(f) not in LEAK or not f["a"]:
                    continue
                for s, cp, where in instances(prog, k, f, callers):
                    r.obl += 1
                    if cp:
                        continue
                    gone = path_of(f) == "core::mem::forget"
                    if near[k.split("::{closure")[0]] & (DUP | {"core::ptr::write"}) or (
                            any(x and x in s for x in guards) if gone else back):
                        r.status = "undecided" if r.status == "proved" else r.status
                        r.reasons.append("%s: whether the value of type %s is dropped elsewhere" % (line, plain(s)))
                        continue
                    r.bad("leak", "%s: %s" % (module(where), plain(s, where)), line, "%s: a value of type %s is never dropped" % (path_of(f), plain(s)))
        return r
    return run


def held(prog, R):
    def run(prog):
        r = R("types that keep values without dropping them")
        dropped = {a for (t, a) in prog.impls if t.split("::")[-1] == "Drop"}
        T = prog.types["lib"]

        def droppable(t):
            x = T[t]
            if x["k"] in ("param", "alias", "closure") or x["k"].startswith("dyn"):
                return True
            if x["k"] in ("ref", "ptr"):
                return False
            if x["k"] == "adt":
                if x["p"].split("::")[-1] in ("Vec", "Box", "VecDeque", "Rc", "Arc", "String"):
                    return True
                return any(droppable(y) for y in x["a"])
            if x["k"] == "tuple":
                return any(droppable(y) for y in x["a"])
            if x["k"] in ("array", "slice"):
                return droppable(x["t"])
            return False

        def find(t, depth=0):
            x = T[t]
            if depth > 10:
                return None
            if x["k"] == "adt":
                p = x["p"].replace("std::", "core::")
                if (p in HELD or p.split("::")[-1] in ("MaybeUninit", "ManuallyDrop")) and x["a"] and droppable(x["a"][0]):
                    return x
                for y in x["a"]:
                    z = find(y, depth + 1)
                    if z:
                        return z
            if x["k"] == "tuple":
                for y in x["a"]:
                    z = find(y, depth + 1)
                    if z:
                        return z
            if x["k"] in ("array", "slice"):
                return find(x["t"], depth + 1)
            return None

        def holders(p, seen):
            """Types that contain p and implement Drop."""
            for a, d in prog.adts.items():
                if not d["local"] or a in seen:
                    continue
                if any(mentions(ft, p) for v in d["variants"] for n, ft in v[1] if ft is not None):
                    seen.add(a)
                    if a in dropped:
                        return True
                    if holders(a, seen):
                        return True
            return False

        def mentions(t, p, depth=0):
            x = T[t]
            if depth > 10:
                return False
            if x["k"] == "adt" and x["p"] == p:
                return True
            if x["k"] in ("adt", "tuple"):
                return any(mentions(y, p, depth + 1) for y in x["a"])
            if x["k"] in ("array", "slice", "ref", "ptr"):
                return mentions(x["t"], p, depth + 1)
            return False
        for p, d in sorted(prog.adts.items()):
            if not d["local"] or p.startswith("models::"):
                continue
            for v in d["variants"]:
                for n, ft in v[1]:
                    if ft is None:
                        continue
                    r.obl += 1
                    x = find(ft)
                    if x is None or p in dropped:
                        continue
                    if holders(p, {p}):
                        r.status = "undecided" if r.status == "proved" else r.status
                        r.reasons.append("whether the Drop impl of a containing type empties %s.%s" % (p, n))
                        continue
                    r.bad("held", p, d["span"], "field %s keeps a %s and nothing drops what is in it when the value is dropped" % (n, plain(x["s"])))
        return r
    return run


def exclusive(prog, R):
    """Exclusive references made from raw pointers: a pointer may be copied, so
    only one place per type may turn pointers to nodes into references."""
    def run(prog):
        r = R("exclusive references made from raw pointers")
        groups = {}
        for k, b in bodies(prog):
            r.fns.add(k)
            T = prog.types[b.crate]
            root = prog.bodies.get(k.split("::{closure")[0]) or b
            st = root.j.get("self_ty")
            own = T[st]["p"] if st is not None and T[st]["k"] == "adt" else root.path
            for bl in b.blocks:
                for s in bl["s"]:
                    if s[0] != "=" or s[2][0] != "ref" or not s[2][1]:
                        continue
                    loc, proj = s[2][2]
                    t = T[b.locals[loc]]
                    if proj[:1] == ["*"] and t["k"] == "ptr":
                        r.obl += 1
                        if len(proj) == 1:
                            groups.setdefault((own, plain(T[t["t"]]["s"], root)), set()).add((s[-1], k))
        for (own, ty), sites in sorted(groups.items()):
            if len(sites) > 1:
                sites = sorted(sites)
                r.bad("exclusive", own, sites[0][0], "references to %s are made from copies of one raw pointer at %s" % (
                    ty, ", ".join(x.replace("tree_iterators_rs/src/", "") for x, _ in sites)))
        return r
    return run


def tasks(prog, R):
    return [f(prog, R) for f in (copies, leaks, held, exclusive)]
