"""Type-level witnesses: client programs the compiler has to accept, and
programs it has to refuse, checked against the crate's current source.
Nothing is run: the deciding step is rustc's type and borrow checker."""
import os
import re
import shutil
import subprocess
import tempfile

REPO = os.environ.get("REPO", "/repo")
OWN = ("Owned", "MutBorrowed", "Borrowed")
SUF = {"Owned": ("", ""), "MutBorrowed": ("_iter_mut", "_mut"), "Borrowed": ("_iter", "_ref")}
REFUSE = {"E0382", "E0499", "E0502", "E0503", "E0505", "E0506", "E0515", "E0597", "E0713", "E0716", "E0621", "E0521", "E0310", "E0311"}

HEAD = """#![allow(unused, dead_code)]
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;
/// no Clone, no Default, no Debug, no PartialEq
pub struct Tok(Vec<u8>);
pub struct Hold<'x>(&'x str);
fn tok() -> Tok { Tok(Vec::new()) }
fn ntree() -> Tree<Tok> { Tree { value: tok(), children: Vec::new() } }
fn btree() -> BinaryTree<Tok> { BinaryTree { value: tok(), left: None, right: None } }
fn take<T>(_: T) {}
fn same<T>(a: T, _: T) -> T { a }
fn send<T: Send>(t: T) -> T { t }
fn sync<T: Sync>(t: T) -> T { t }
fn stat<T: 'static>(_: T) {}
/// a node type of the user's own
pub struct Own { v: Tok, c: std::collections::VecDeque<Own> }
impl OwnedTreeNode for Own { type OwnedValue = Tok; type OwnedChildren = std::collections::VecDeque<Own>;
    fn get_value_and_children(self) -> (Tok, std::collections::VecDeque<Own>) { (self.v, self.c) } }
impl<'a> MutBorrowedTreeNode<'a> for Own { type MutBorrowedValue = &'a mut Tok; type MutBorrowedChildren = std::collections::vec_deque::IterMut<'a, Own>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut Tok, Self::MutBorrowedChildren) { (&mut self.v, self.c.iter_mut()) } }
impl<'a> BorrowedTreeNode<'a> for Own { type BorrowedValue = &'a Tok; type BorrowedChildren = std::collections::vec_deque::Iter<'a, Own>;
    fn get_value_and_children_iter(&'a self) -> (&'a Tok, Self::BorrowedChildren) { (&self.v, self.c.iter()) } }
/// a binary node type of the user's own
pub struct Bin { v: Tok, c: [Option<Box<Bin>>; 2] }
impl OwnedBinaryTreeNode for Bin { type OwnedValue = Tok;
    fn get_value_and_children_binary(self) -> (Tok, [Option<Self>; 2]) { let [l, r] = self.c; (self.v, [l.map(|x| *x), r.map(|x| *x)]) } }
impl<'a> MutBorrowedBinaryTreeNode<'a> for Bin { type MutBorrowedValue = &'a mut Tok;
    fn get_value_and_children_binary_iter_mut(&'a mut self) -> (&'a mut Tok, [Option<&'a mut Self>; 2]) { let [l, r] = &mut self.c; (&mut self.v, [l.as_deref_mut(), r.as_deref_mut()]) } }
impl<'a> BorrowedBinaryTreeNode<'a> for Bin { type BorrowedValue = &'a Tok;
    fn get_value_and_children_binary_iter(&'a self) -> (&'a Tok, [Option<&'a Self>; 2]) { (&self.v, [self.c[0].as_deref(), self.c[1].as_deref()]) } }
pub struct Hold2<T>(T);
fn own() -> Own { Own { v: tok(), c: Default::default() } }
fn bin() -> Bin { Bin { v: tok(), c: [None, None] } }
type Rc0 = std::rc::Rc<u8>;
type Cell0 = std::cell::Cell<u8>;
fn ntree_of<T>(v: T) -> Tree<T> { Tree { value: v, children: Vec::new() } }
fn btree_of<T>(v: T) -> BinaryTree<T> { BinaryTree { value: v, left: None, right: None } }
"""


def orders(binary):
    return ("dfs_preorder", "dfs_postorder", "bfs") + (("dfs_inorder",) if binary else ())


def makers(binary):
    return ("btree", "bin") if binary else ("ntree", "own")


def entry(own, mk, order, coll):
    """(setup, expression) of one traversal."""
    if own == "Owned":
        return ("let t = vec![%s(), %s()];" % (mk, mk), "t.%s_each()" % order) if coll else ("let t = %s();" % mk, "t.%s()" % order)
    suf = SUF[own][0]
    if coll:
        m = "_mut" if own == "MutBorrowed" else ""
        return ("let mut t = vec![%s(), %s()];" % (mk, mk), "t.iter%s().%s_each%s()" % (m, order, suf))
    return ("let mut t = %s();" % mk, "t.%s%s()" % (order, suf))


def pipe(own, mk, coll):
    suf = SUF[own][1]
    if own == "Owned":
        return ("let t = vec![%s(), %s()];" % (mk, mk), "t.into_pipeline()") if coll else ("let t = %s();" % mk, "t.into_pipeline()")
    if coll:
        m = "_mut" if own == "MutBorrowed" else ""
        return ("let mut t = vec![%s(), %s()];" % (mk, mk), "t.iter%s().into_pipeline%s()" % (m, suf))
    return ("let mut t = %s();" % mk, "t.into_pipeline%s()" % suf)


def witnesses():
    """(group, name, body, None or the reason it has to be refused)"""
    out = []

    def ok(g, name, body):
        out.append((g, name, body, None))

    def no(g, name, body, why):
        out.append((g, name, body, why))
    for own in OWN:
        for b in (False, True):
            for coll in (False, True):
                for mk in makers(b):
                    for o in orders(b):
                        s, e = entry(own, mk, o, coll)
                        n = "%s %s %s%s" % (own, mk, o, "_each" if coll else "")
                        g = "%s %s traversals" % (own, "binary" if b else "n-ary")
                        val = {"Owned": "Tok", "MutBorrowed": "&mut Tok", "Borrowed": "&Tok"}[own]
                        ok(g, n + ": runs over values without Clone, Default or Debug",
                           "%s let v: Vec<%s> = %s.collect();" % (s, val, e))
                        if not coll:
                            ok(g, n + ": with ancestors", "%s let mut i = %s.attach_ancestors(); while let Some(x) = i.next() { let y: &[%s] = x; }" % (s, e, val))
                        ok(g, n + ": with context", "%s let mut i = %s.attach_context(); while let Some(x) = i.next() { let y: &[%s] = x.ancestors(); let p: &[usize] = x.path(); }" % (s, e, val))
                        if not coll:
                            ok(g, n + ": leaves", "%s let v: Vec<%s> = %s.leaves().collect();" % (s, val, e))
                            ok(g, n + ": leaves with ancestors", "%s let mut i = %s.attach_ancestors().leaves(); while let Some(x) = i.next() { let y: &[%s] = x; }" % (s, e, val))
                        if own != "Borrowed" and not coll:
                            ok(g, n + ": mutable getters", "%s let mut i = %s.attach_ancestors(); while let Some(x) = i.next_mut() { let y: &mut [%s] = x; }" % (s, e, val))
                        if own == "MutBorrowed":
                            ok(g, n + ": several exclusive references are held at once",
                               "%s let mut i = %s; let a = i.next(); let c = i.next(); drop(i); if let (Some(a), Some(c)) = (a, c) { std::mem::swap(a, c); }" % (s, e))
                            no(g, n + ": the tree is used during the traversal", "%s let mut i = %s; take(&t); i.next();" % (s, e), "aliasing")
                            no(g, n + ": two exclusive traversals at once", "%s let mut i = %s; let mut j = %s; i.next(); j.next();" % (s, e, e), "aliasing")
                        if own == "Borrowed":
                            ok(g, n + ": two traversals at once; the values outlive the iterator",
                               "%s let mut i = %s; let mut j = %s; let a = i.next(); drop(i); let c = j.next(); take((a, c));" % (s, e, e))
                        if own != "Owned":
                            no(g, n + ": the iterator outlives the tree", "let mut i = { %s %s }; i.next();" % (s, e), "dangling")
                            no(g, n + ": a value outlives the tree", "let v = { %s let mut i = %s; i.next() }; take(v);" % (s, e), "dangling")
                            no(g, n + ": the tree is moved while a value is in use", "%s let v = { let mut i = %s; i.next() }; drop(t); take(v);" % (s, e), "dangling")
                            for a in ("attach_ancestors", "attach_context")[coll:]:
                                no(g, n + ": the %s iterator outlives the tree" % a, "let mut i = { %s %s.%s() }; i.next();" % (s, e, a), "dangling")
                        else:
                            no(g, n + ": the tree is used after it was consumed", "%s let i = %s; take(&t);" % (s, e), "moved")
                            ok(g, n + ": the iterator is returned from the scope of the tree", "let mut i = { %s %s }; i.next();" % (s, e))
                            if mk in ("ntree", "btree"):
                                ok(g, n + ": values with a lifetime of their own",
                                   "let s = String::new(); let r: &str = { let t = %s; let mut i = %s; i.next().unwrap().0 };" % (
                                       ("vec![%s]" if coll else "%s") % ("Tree { value: Hold(&s), children: Vec::new() }" if mk == "ntree" else
                                                                          "BinaryTree { value: Hold(&s), left: None, right: None }"),
                                       e))
                        for a in ("attach_ancestors", "attach_context")[coll:]:
                            no(g, n + ": an item of %s is kept across next()" % a,
                               "%s let mut i = %s.%s(); let x = i.next(); i.next(); take(x);" % (s, e, a), "aliasing")
                        for a in ("", ".attach_ancestors()", ".attach_context()"):
                            if coll and a == ".attach_ancestors()":
                                continue
                            if mk in ("ntree", "btree"):
                                ok("threads", n + a + ": can be sent and shared", "%s take(send(sync(%s%s)));" % (s, e, a))
                    if mk in ("ntree", "btree"):
                        for o in orders(b):
                            s, e = entry(own, mk, o, coll)
                            n = "%s %s %s%s" % (own, mk, o, "_each" if coll else "")
                            g = "%s %s traversals" % (own, "binary" if b else "n-ary")
                            for a in ("", ".attach_ancestors()", ".attach_context()", ".leaves()", ".attach_ancestors().leaves()"):
                                if coll and a not in ("", ".attach_context()"):
                                    continue
                                rc = s.replace(mk + "()", mk + "_of(Rc0::new(1))")
                                no("threads", n + a + ": sent with values that cannot be sent", "%s take(send(%s%s));" % (rc, e, a), "threads")
                                ce = s.replace(mk + "()", mk + "_of(Cell0::new(1))")
                                no("threads", n + a + ": shared with values that cannot be shared", "%s take(sync(%s%s));" % (ce, e, a), "threads")
                            if own == "MutBorrowed":
                                st = s.replace("let mut t =", "let mut t: %s =" % (("Vec<%s<&'static str>>" if coll else "%s<&'static str>") % ("BinaryTree" if b else "Tree")))
                                st = st.replace(mk + "()", mk + '_of("")')
                                no(g, n + ": a short-lived value is written into a tree of long-lived ones",
                                   "%s { let s = String::new(); let mut i = %s; if let Some(v) = i.next() { *v = &s; } } take(t);" % (st, e), "dangling")
                                no(g, n + ": a short-lived value is written through the ancestors" if not coll else n + ": a short-lived value is written through the context",
                                   "%s { let s = String::new(); let mut i = %s; while let Some(x) = i.next_mut() { %s } } take(t);" % (
                                       st, e + (".attach_context()" if coll else ".attach_ancestors()"),
                                       "*x.ancestors_mut()[0] = &s;" if coll else "*x[0] = &s;"), "dangling")
                    s, e = pipe(own, mk, coll)
                    g = "%s %s pipelines" % (own, "binary" if b else "n-ary")
                    n = "%s %s %spipeline" % (own, mk, "collection " if coll else "")
                    val = {"Owned": "Tok", "MutBorrowed": "&mut Tok", "Borrowed": "&Tok"}[own]
                    adv = "%s let mut i = %s%s; while let Some(x) = i.next() { let p: &[usize] = i.current_path(); i.prune_current_subtree(); }"
                    for st, ty in (("", None), (".map_tree(|v| Some(v))", None), (".map_path(|p: &[usize], v| p.len())", None),
                                   (".prune(|v| true)", None), (".prune_path(|p: &[usize], v| p.is_empty())", None), (".prune_depth(3)", None)):
                        if coll:
                            st = st.replace("map_tree(", "map_trees(")
                        ok(g, n + st + ": can be driven by hand", adv % (s, e, st))
                        ok("threads", n + st + ": can be sent and shared", "%s take(send(sync(%s%s)));" % (s, e, st))
                        if own != "Owned":
                            no(g, n + st + ": outlives the tree", "let mut i = { %s %s%s }; i.next();" % (s, e, st), "dangling")
                        no(g, n + st + ": the current path is kept across next()",
                           "%s let mut i = %s%s; i.next(); let p = i.current_path(); i.next(); take(p);" % (s, e, st), "aliasing")
                        if mk in ("ntree", "btree"):
                            rc = s.replace(mk + "()", mk + "_of(Rc0::new(1))")
                            no("threads", n + st + ": sent with values that cannot be sent", "%s take(send(%s%s));" % (rc, e, st), "threads")
                    no(g, n + ".map_path: the path given to the closure is kept",
                       "%s let mut k: Vec<&[usize]> = Vec::new(); let mut i = %s.map_path(|p: &[usize], v| { k.push(p); }); i.next();" % (s, e), "dangling")
                    for call in ("prune(|v: &%s| { k.push(v); true })", "prune_path(|p: &[usize], v: &%s| { k.push(v); true })"):
                        no(g, n + "." + call.split("(")[0] + ": the reference given to the closure is kept",
                           "%s let mut k: Vec<&%s> = Vec::new(); let mut i = %s.%s; i.next();" % (s, val, e, call % val), "dangling")
                    tree = "BinaryTree" if b else "Tree"
                    if not coll:
                        ok(g, n + ": collects", "%s let r: Option<%s<%s>> = %s.collect_tree();" % (s, tree, val, e))
                        ok(g, n + ": folds", "%s let mut k = 0; let r: Option<usize> = %s.fold_tree(|c, v| { k += 1; 1usize });" % (s, e))
                    es = ("_each" if coll else "") + SUF[own][1]
                    c = e[:e.index(".into_pipeline")]
                    ct = "[Option<usize>; 2]" if b else "Vec<usize>"
                    for call, ty in (("prune%s(|v: &%s| { k += 1; false })", "Option<%s<%s>>" % (tree, val)),
                                     ("prune_path%s(|p: &[usize], v: &%s| { k += 1; false })", "Option<%s<%s>>" % (tree, val)),
                                     ("prune_depth%s(2)", "%s<%s>" % (tree, val)),
                                     ("map%s(|v: %s| { k += 1; Hold2(v) })", "%s<Hold2<%s>>" % (tree, val)),
                                     ("map_path%s(|p: &[usize], v: %s| { k += p.len(); Hold2(v) })", "%s<Hold2<%s>>" % (tree, val)),
                                     ("fold%s(|c: CT, v: %s| { k += 1; 1usize })".replace("CT", ct), "usize"),
                                     ("fold_path%s(|c: CT, p: &[usize], v: %s| { k += 1; 1usize })".replace("CT", ct), "usize")):
                        m = call.split("%")[0]
                        call = call % ((es, val) if "%s" in call[call.index("%s") + 2:] else es)
                        if coll:
                            ok(g, "%s: %s in one call" % (n, m), "%s let mut k = 0usize; %s.%s.for_each(|x| take(x));" % (s, c, call))
                        else:
                            ok(g, "%s: %s in one call" % (n, m), "%s let mut k = 0usize; let r: %s = %s.%s; take(k);" % (s, ty, c, call))
                    ok(g, n + ": lookup", "%s let r = %s.at_path%s(&[0, 1]);" % (s, c, SUF[own][1]))
                    if own != "Owned":
                        no(g, n + ": the node looked up outlives the tree", "let r = { %s %s.at_path%s(&[0, 1]) }; take(r);" % (s, c, SUF[own][1]), "dangling")
                        no(g, n + ": the mapped tree outlives the one it was made from",
                           "let r = { %s %s.map%s(|v| v)%s }; take(r);" % (s, c, es, ".next()" if coll else ""), "dangling")
                        no(g, n + ": the collected tree outlives the one it was made from",
                           "let r = { %s %s%s }; take(r);" % (s, e, ".trees().next()" if coll else ".collect_tree()"), "dangling")
                    if own == "MutBorrowed":
                        no(g, n + ": the tree is used while the pipeline runs", "%s let mut i = %s; take(&t); i.next();" % (s, e), "aliasing")
    return out


def metadata(tmp):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(tmp, "target"))
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    p = subprocess.run(["cargo", "check", "--offline", "-p", "tree_iterators_rs"], cwd=REPO, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise RuntimeError("the crate does not build: " + p.stderr[-300:])
    d = os.path.join(tmp, "target", "debug", "deps")
    g = [f for f in os.listdir(d) if f.startswith("libtree_iterators_rs-") and f.endswith(".rmeta")]
    return d, os.path.join(d, g[0])


def compile_group(tmp, name, deps, meta, progs):
    """One crate per group; errors are attributed to the module they are in."""
    src = os.path.join(tmp, name + ".rs")
    at = {}
    with open(src, "w") as f:
        f.write(HEAD)
        line = HEAD.count("\n") + 1
        for i, (g, n, body, why) in enumerate(progs):
            f.write("fn w%d() { %s }\n" % (i, body))
            at[line] = i
            line += 1
    p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-o", os.path.join(tmp, name + ".rmeta"),
                        "-L", "dependency=" + deps, "--extern", "tree_iterators_rs=" + meta, "--extern",
                        "streaming_iterator=" + [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("libstreaming_iterator-") and f.endswith(".rmeta")][0],
                        "--error-format=short", "--cap-lints=allow", src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    errs = {}
    other = []
    for l in p.stdout.splitlines():
        m = re.match(r".*?\.rs:(\d+):\d+: error(?:\[(E\d+)\])?: (.*)", l)
        if m:
            i = at.get(int(m.group(1)))
            if i is None:
                other.append(l[-160:])
            else:
                errs.setdefault(i, []).append((m.group(2) or "", m.group(3)))
        elif l.startswith("error"):
            other.append(l[:160])
    return p.returncode, errs, other


TMP = None
LIB = None


def prepare():
    """Builds the crate's metadata once, before the tasks are distributed."""
    global TMP, LIB
    if TMP is None:
        TMP = tempfile.mkdtemp(prefix="verif_w_")
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(TMP, ignore_errors=True))
        LIB = metadata(TMP)


def tasks(prog, R):
    prepare()
    groups = {}
    for w in witnesses():
        groups.setdefault((w[0], w[3] is None), []).append(w)

    def task(g, must, progs):
        def run(prog):
            r = R("%s: programs the compiler %s" % (g, "accepts" if must else "refuses"))
            r.obl = len(progs)
            r.paths = len(progs)
            name = re.sub(r"\W+", "_", g) + ("_ok" if must else "_no")
            rc, errs, other = compile_group(TMP, name, LIB[0], LIB[1], progs)
            if other and not errs or any("aborting" not in o and "could not" not in o for o in other):
                r.status = "undecided"
                r.reasons = other[:3]
                return r
            unsure = []
            for i, (_, n, body, why) in enumerate(progs):
                e = errs.get(i)
                if must and e:
                    if all(c == "E0599" and "bounds were not satisfied" not in m or c in ("E0432", "E0433", "E0425", "E0407") for c, m in e):
                        unsure.append("%s: %s" % (n, e[0][1][:100]))
                    else:
                        r.bad("refused", n, g, "rustc %s: %s; program: %s" % (e[0][0], e[0][1][:200], body))
                elif not must:
                    if not e and rc == 0 or not e and any(errs.values()) and all(x[0] in REFUSE or x[0] == "E0277" and g == "threads" for v in errs.values() for x in v):
                        r.bad("accepted", n, g, "the compiler accepts this program (%s): %s" % (why, body))
                    elif not e:
                        unsure.append("%s: not checked, other programs of the group have errors before borrow checking" % n)
                    elif not any(c in REFUSE or c == "E0277" and why == "threads" for c, m in e):
                        unsure.append("%s: refused for another reason: %s %s" % (n, e[0][0], e[0][1][:100]))
            if unsure and r.status == "proved":
                r.status = "undecided"
            r.reasons += unsure[:8]
            return r
        return run
    return [task(g, m, ps) for (g, m), ps in sorted(groups.items())]


def crates(prog, R):
    """no_std: the crate is compiled without std and names nothing of it."""
    def run(prog):
        r = R("crates linked by the library")
        cs = prog.crates
        r.obl = len(cs)
        for c in cs:
            if c in ("std", "std_detect", "proc_macro", "test"):
                r.bad("std", "crate root", c, "the library links the crate %s" % c)
        if "core" not in cs:
            r.status = "undecided"
            r.reasons = ["no list of crates"]
        return r
    return [run]
