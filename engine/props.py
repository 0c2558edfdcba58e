"""The properties and the analyses that decide them."""
from check import session_task, R
import sessions as ss
import contract as ct
import lookup as lk
import nodes as nd
import graph
import memory
import witness
import serial
import provided


def plain(coll):
    def f(prog):
        return [session_task(ss.run_plain, (own, b, o, coll))
                for own in ss.OWN for b in (False, True) for o in ss.orders(b)]
    return f


def anc(prog):
    out = []
    for own in ss.OWN:
        for b in (False, True):
            for o in ss.orders(b):
                for g in (("get", "get_mut") if own != "Borrowed" else ("get",)):
                    out.append(session_task(ss.run_anc, (own, b, o, g)))
    return out


def ctx(prog, coll=False):
    out = []
    for coll in (coll,):
        for own in ss.OWN:
            for b in (False, True):
                for o in ss.orders(b):
                    for g in (("get", "get_mut") if own != "Borrowed" else ("get",)):
                        out.append(session_task(ss.run_ctx, (own, b, o, coll, g)))
    return out


def leaves(ancestors):
    def f(prog):
        out = []
        for own in ss.OWN:
            for b in (False, True):
                for o in ss.orders(b):
                    gs = (None,) if not ancestors else ("get", "get_mut") if own != "Borrowed" else ("get",)
                    for g in gs:
                        out.append(session_task(ss.run_leaves, (own, b, o, g)))
        return out
    return f


STAGES = [(2, 1, 0.2), (2, 2, 0.5), (3, 1, 0.3), (1, 5, 0.3), (3, 2, 0.6), (2, 3, 1.0)]


def combos():
    for own in ss.OWN:
        for b in (False, True):
            for c in (False, True):
                yield own, b, c


def sources(prog):
    return [session_task(ss.run_source, x) for x in combos()]


def stages(*kinds):
    def f(prog):
        return [session_task(ct.run_stage, (k, b, c) + ((lim,) if k == "prune_depth" else ()), shapes=STAGES)
                for k in kinds for b in (False, True) for c in (False, True)
                for lim in (range(5) if k == "prune_depth" else (None,))]
    return f


def maps(prog):
    return stages("map", "map_path")(prog) + [session_task(ss.run_adapter, (k,) + x) for k in ("map", "map_path") for x in combos()]


def consumers(*kinds):
    def f(prog):
        return [session_task(ct.run_consumer, (k, b, c), shapes=STAGES) for k in kinds for b in (False, True) for c in (False, True)]
    return f


def eager(prog):
    return [session_task(ct.run_eager, (k,) + x + ((lim,) if k == "prune_depth" else ()), shapes=STAGES)
            for k in ct.EAGER for x in combos() for lim in ((0, 1, 2) if k == "prune_depth" else (None,))]


def lookups(prog):
    return [session_task(lk.run_lookup, x, shapes=[(2, 2, 1.0)]) for x in combos()]


def node_types(prog):
    return [session_task(nd.run_node, (o, b)) for o in ss.OWN for b in (False, True)] + \
        [session_task(nd.run_context, (n,)) for n in ("depth", "path", "ancestors", "ancestors_mut", "children", "children_mut")] + \
        [session_task(nd.run_cloned, (b, k), shapes=STAGES) for b in (False, True) for k in (0, 1)] + \
        [session_task(nd.run_derive, (b, w)) for b in (False, True) for w in ("clone", "eq", "default")]


def attachments(coll):
    return (None, "attach_context") + (() if coll else ("attach_ancestors",))


def laziness(prog):
    return [session_task(ss.run_lazy, x, kinds=("lazy", "reexpand"))
            for own, b, c in combos() for o in ss.orders(b)
            for a in (attachments(c) if o != "bfs" else (None,)) for x in [(own, b, o, c, a)]]


def guards(prog):
    return [session_task(ss.run_guard, (own, b, o, c, a)) for own, b, c in combos() for o in ss.orders(b) for a in attachments(c)[1:]]


EDITS = [(2, 2, 0.3), (1, 4, 0.3), (2, 3, 1.0)]


def cuts(prog):
    return [session_task(ss.run_cut, (own, b, o, c)) for own in ("Owned", "MutBorrowed") for b in (False, True)
            for o in ("dfs_preorder", "bfs") for c in (False, True)] + \
        [session_task(ss.run_edit, (own, b, o, c, x), shapes=EDITS) for own in ("Owned", "MutBorrowed") for b in (False, True)
         for o in ss.orders(b) for c, x in ((False, False), (False, True), (True, True))]


MGC = ("Each session is the most general client of one public entry point: it starts from an unknown tree and polls any number of times. "
       "The compiled bodies (rustc MIR) of the crate are interpreted over abstract values: symbolic nodes whose child lists have symbolic "
       "length, integers as linear expressions, and chains of stack frames or ancestors folded into segments at loop heads and between "
       "client calls until a fixpoint is reached. The specification is carried along as a word of what is still due. ")
CONF = ("A session with an alarm or without a fixpoint is run again without folding on the tree shapes listed under without_widening; "
        "only alarms reached there are violations, and a session whose fixpoint does not converge counts as undecided. ")


STAGE = ("The stage before the one analysed is not the crate's source but the contract every stage keeps (values in depth-first preorder, "
         "current_path of the node yielded last, prune_current_subtree skips its descendants), so the result holds for every chain of stages. "
         "The depth of the nodes is explicit up to a limit (%d; one less for collections and for the eager methods); the number of siblings "
         "and of removed siblings on every level is arbitrary: integers are templates over symbolic counts, dropped when a state refutes them "
         "until what remains is inductive. " % ct.DEPTH)
LOOK = ("Paths have up to %d segments, each of them a symbol standing for any index; the tree is arbitrary. " % lk.LENGTH)


PARTS = "Nodes and contexts are built from opaque tokens, one case per combination of present and absent children. "


def spec(tasks, rule, level, extra=""):
    return {"level": level, "tasks": tasks, "rule": rule, "explanation": MGC + extra + CONF}


def static(tasks, rule, level, text):
    return {"level": level, "tasks": tasks, "rule": rule, "explanation": text}


PROPS = {
    "C01": spec(plain(False), "every value produced is the next one of the order's recursive definition; the end only when nothing is due", "proof"),
    "C02": spec(plain(True), "every value produced is the next one of the concatenation of the trees' sequences; the end only when nothing is due", "proof"),
    "C03": spec(anc, "every item is the list of the values from the root to the node that is due; the end only when nothing is due", "other"),
    "C04": spec(lambda p: ctx(p, False), "ancestors, path and children of every context are those of the node that is due; the end only when nothing is due", "other"),
    "C05": spec(lambda p: ctx(p, True), "as C04, with the tree's index in front of the path; the end only when nothing is due in any tree", "other"),
    "C06": spec(leaves(False), "after any number of steps and leaves(), every value produced is the next leaf among what was due", "other",
                "The states reached by stepping the traversal are the starting points of the leaves sessions. "),
    "C07": spec(leaves(True), "after any number of steps and leaves(), every item is the ancestor list of the next leaf among what was due", "other",
                "The states reached by stepping the traversal are the starting points of the leaves sessions. "),
    "C08": spec(sources, "every value is the next one of the preorder of what is not skipped; current_path and current_depth are those of the node yielded last", "proof"),
    "C09": spec(maps, "the closure is called once per node, with the node's value and path, in order; its results are yielded with the inner stage's paths and depths", "other", STAGE),
    "C10": spec(stages("prune", "prune_path", "prune_depth"), "exactly the nodes for which the closure holds (or below the limit) are removed, with their subtrees; paths and depths are those in the remaining tree", "other", STAGE),
    "C11": spec(consumers("collect"), "the collected tree has exactly the inner stage's nodes, each under its parent, in order", "other", STAGE),
    "C12": spec(consumers("fold", "fold_path"), "the closure is called once per node, after its children, with exactly their results in order, its value and its path; the root's result is returned", "other", STAGE),
    "C13": spec(eager, "the result is that of the pipeline stage named, on the whole tree (or on every tree of the collection)", "other", STAGE),
    "C14": spec(lookups, "the node returned is the one the path leads to; nothing is returned exactly when a step has no child", "other", LOOK),
    "C15": spec(node_types, "each part returned is the very part of the node (or context) named; clone, eq and default treat every field; cloned() clones every value in place", "proof", PARTS),
    "C16": static(lambda p: memory.tasks(p, R), "no bitwise copy of a value that is not Copy stays next to its original; no value is kept from being dropped; "
                  "only one place of a type makes exclusive references from its raw pointers to nodes",
                  "other", "Every body of the crate (rustc MIR) is searched for calls that copy values bitwise or keep them from being dropped, every type for fields that do; "
                  "type parameters of helper functions are followed to their callers. "),
    "C17": static(lambda p: graph.recursion(p, R), "no function of the crate reaches itself in the call graph",
                  "proof", "The call graph has an edge for every function or closure mentioned in a body (rustc MIR, after name resolution); calls through a type parameter lead to every "
                  "implementation in the crate that the parameter's actual types reach. Derived impls and drop glue are left out. "),
    "C18": spec(laziness, "a node's children, or a collection's next tree, are requested only when nothing else is due first", "other"),
    "C19": static(lambda p: witness.tasks(p, R), "every program of the accepted groups compiles and every program of the refused groups is rejected with a borrow or lifetime error",
                  "proof", "Client programs are generated for every kind of traversal and pipeline, and checked by rustc against the crate's metadata built from the current source; none is run. "),
    "C20": spec(guards, "attaching after any number of elements panics (or yields nothing, when nothing is left); before the first it does not", "proof"),
    "C21": static(lambda p: witness.crates(p, R), "the crates linked are core, alloc and no_std dependencies", "proof", "The crate list is the one rustc resolved. "),
    "C24": spec(provided.tasks(session_task, R), "a method that an implementation takes over from its trait gives, and leaves behind, what stepping one by one would", "proof",
                "The implementations that leave every provided method to its trait are listed; only methods taken over need a session. "),
    "C25": spec(cuts, "after children of a node are removed through its context, exactly they and what is below them is no longer due", "other"),
    "C23": spec(serial.tasks(session_task), "every field is written once, under its own name, and comes back in its place from every way of reading what was written", "proof",
                "The crate is exported with the feature serde. The format is one that records what it is given and offers it again. "),
}
