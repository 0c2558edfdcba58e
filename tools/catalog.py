FOUR = ("mod", "owned", "mut_borrow", "borrow")
prop("C01", "Each traversal yields every value once, in its order's definition",
     "For every tree, a depth-first preorder, inorder, postorder or breadth-first traversal produces the value of every node of the tree exactly once, in exactly the order the traversal's recursive definition gives (children in the order the node lists them, a missing binary child standing for an empty subtree). "
     "It ends only after the last value is due, keeps reporting the end afterwards, and never panics. This is the same for owned, borrowed and mutably borrowed traversals.",
     ["inputs", "histories"], "every finite tree of every shape and width, every number of steps taken by the client, all 21 entry points",
     "The tests traverse one fixed tree per implementation; a mistake that depends on width, on depth, on empty child lists or on one-sided binary nodes is invisible to them.",
     files(PRE, INO, POS, BFS) + files("prelude.rs"),
     "The iterators keep explicit stacks or queues of child iterators; next() pops, expands and pushes.",
     [("traversal stack / queue", "the child iterators still to be visited and the values held back")])
prop("C02", "Traversals over collections visit the trees one after another",
     "For every collection of trees, an each-traversal produces exactly the concatenation, in collection order, of the traversals of its trees, each in its order's definition. "
     "Empty collections give an empty traversal; it ends only after the last tree is finished, keeps reporting the end afterwards, and never panics.",
     ["inputs", "histories"], "every finite collection of trees of every shape, every number of steps, all 21 each-entry points",
     "The tests traverse collections of one or two copies of the same tree.",
     files(PRE, INO, POS, BFS) + files("collection_iterators.rs", "prelude.rs"),
     "A macro-generated wrapper holds the collection's iterator and the iterator of the current tree.",
     [("current tree iterator", "the traversal of the tree being visited")])
PARTLY = ("A session (one entry point with one getter) is decided for every tree and history when its fixpoint converges; evidence lists how many are. "
          "For the others the same abstract interpretation without folding covers trees up to the shapes listed in the evidence, and only that part is claimed. ")
prop("C03", "Attached ancestors are exactly the path of values to the root",
     "For every tree and every step of a traversal with ancestors attached, the streamed item is the values of the current node's ancestors from the root down, with the current node's own value last, and the nodes come in the traversal's order. "
     "Every node is reported exactly once, the end is reported afterwards for good, and nothing panics; the mutable getter shows the same item as the shared one.",
     ["inputs", "histories"], "every finite tree of every shape, every number of steps, 35 entry point and getter combinations",
     "The tests compare the ancestors on one fixed tree whose nodes have at most two children.",
     files(PRE, INO, POS, BFS) + files("prelude.rs"),
     "attach_ancestors wraps the traversal with a stack of values (depth first) or a chain of parents (breadth first).",
     [("item_stack", "the values from the root to the current node"), ("traversal_stack", "the child iterators still to be visited")],
     level="other", note=PARTLY + TRUST)
prop("C04", "Attached context gives the node's ancestors, path and children",
     "For every tree and every step of a traversal with context attached, the context's ancestors are the values from the root to the current node, its path is the list of child indexes leading there, and its children are the current node's own children (where they are documented to be available). "
     "The nodes come in the traversal's order, each exactly once, the end is final, and nothing panics; a missing binary child does not change a right child's index.",
     ["inputs", "histories"], "every finite tree of every shape, every number of steps, 35 entry point and getter combinations",
     "The tests compare paths on one fixed tree; indexes beyond one, unary binary nodes and empty child lists at depth do not occur.",
     files(PRE, INO, POS, BFS) + files("prelude.rs", "tree_context.rs"),
     "attach_context wraps the traversal; the context is updated in place by advance().",
     [("path", "child indexes from the root to the current node"), ("ancestors", "the values from the root down"), ("children", "the current node's child collection")],
     level="other", note=PARTLY + TRUST)
prop("C05", "Context over collections starts its path with the tree's index",
     "For every collection of trees traversed with context, the path of a node is the index of its tree in the collection followed by the child indexes inside that tree, and ancestors and children are those of the node in its own tree. "
     "The trees are visited in collection order, each node exactly once; nothing of one tree leaks into the next.",
     ["inputs", "histories"], "every finite collection of trees, every number of steps, 35 entry point and getter combinations",
     "The tests use collections of one or two copies of the same tree.",
     files(PRE, INO, POS, BFS) + files("collection_iterators.rs", "prelude.rs"),
     "The collection wrapper prefixes each tree's path with the tree's index.",
     [("current tree index", "the first element of every path")],
     level="other", note=PARTLY + TRUST)
prop("C06", "leaves() yields exactly the remaining leaves, from any point",
     "For every tree and after any number of steps of a traversal, asking for the leaves yields exactly those nodes without children that the traversal has not produced yet, each once, in the traversal's order. "
     "A fresh traversal therefore yields all leaves; the end is final and nothing panics.",
     ["inputs", "histories"], "every finite tree, every number of steps before and after the switch, all 21 traversals",
     "The tests only take the leaves of a traversal that has not been started, on one fixed tree.",
     files(PRE, INO, POS, BFS) + files(*["leaves_iterators/%s/%s.rs" % (a, b) for a in ("depth_first", "breadth_first") for b in FOUR]),
     "leaves() reuses the pending stack or queue of the traversal it consumes.",
     [("traversal stack and item stack", "what is pending when leaves() is called")],
     level="other", note=PARTLY + TRUST)
prop("C07", "Leaves with ancestors: the remaining leaves, with their ancestor lists",
     "For every tree and after any number of steps of a traversal with ancestors attached, asking for the leaves yields exactly the not yet produced nodes without children, in the traversal's order, each with the list of its ancestors' values and its own value last. "
     "The end is final and nothing panics.",
     ["inputs", "histories"], "every finite tree, every number of steps before and after the switch, 35 traversal and getter combinations",
     "The tests only take the leaves of a traversal that has not been started, on one fixed tree.",
     files(PRE, INO, POS, BFS) + files(*["leaves_iterators/%s/%s.rs" % (a, b) for a in ("ancestors_depth_first", "ancestors_breadth_first") for b in FOUR]),
     "leaves() reuses the pending stack and the ancestor stack of the traversal it consumes.",
     [("item_stack", "the ancestors of the next leaf")],
     level="other", note=PARTLY + TRUST)
PIPE = tuple("tree_iterators/%s.rs" % x for x in ("mod", "map", "map_path", "prune", "prune_path", "prune_depth"))
CPIPE = tuple("tree_collection_iterators/%s.rs" % x for x in ("mod", "map", "map_path", "prune", "prune_path", "prune_depth", "trees", "fold", "fold_path"))
STAGE = ("Each stage is decided over the contract of the stage before it (assume and guarantee), for any number of siblings and removed siblings on every level, "
         "with node depths explicit up to the limit given in the evidence; deeper trees are outside the claim. "
         "An alarm is reported only when it is reached again on explicit small trees. ")
AG = "assume-guarantee abstract interpretation of rustc MIR (Houdini-style inductive integer templates)"
prop("C08", "Pipelines start as a preorder traversal that knows each node's path",
     "For every tree or collection turned into a pipeline, the values come in depth-first preorder, and after every step the reported path and depth are those of the node produced last (with the tree's index in front for collections). "
     "After asking to skip the current subtree, exactly that node's descendants are left out and nothing else; asking again, or before the first step, changes nothing more.",
     ["inputs", "histories"], "every finite tree or collection of every shape, every sequence of steps and skip requests, all 12 entry points",
     "The tests skip subtrees at one or two fixed nodes of one fixed tree; they never ask at a last sibling, at a leaf, twice, or in a collection's second tree.",
     files(PRE) + files("collection_iterators.rs", "tree_iterators/mod.rs", "tree_collection_iterators/mod.rs", "prelude.rs"),
     "The preorder traversal with path tracking keeps a stack of enumerated child iterators and a path.",
     [("current_path", "child indexes of the node produced last"), ("traversal stack", "the child iterators still to be visited")])
prop("C09", "Mapping a pipeline calls the closure once per node with its path",
     "For every pipeline over a tree or a collection, mapping calls the closure exactly once for every node, in preorder, with that node's value and, for the variant with path, the node's path; the results come out in the same order. "
     "Paths, depths and skipping subtrees work on the mapped pipeline exactly as on the one it was made from.",
     ["inputs", "histories"], "every tree and collection, any stage before it, every sequence of steps and skip requests",
     "The tests map one fixed tree with at most two children per node and compare values only.",
     files(*PIPE[:3]) + files(*CPIPE[:3]),
     "Map stages forward next(), current_path() and prune_current_subtree() to the inner stage.",
     technique=AG, level="other", note=STAGE + TRUST)
prop("C10", "Pruning removes exactly the chosen nodes with their subtrees",
     "For every pipeline, pruning by closure removes exactly the nodes for which the closure holds and their descendants, calling it once for every node that is not already removed, in preorder, with its value (and its path before this removal); pruning by depth removes exactly the nodes deeper than the limit. "
     "The paths and depths reported afterwards are those of the node in the remaining tree: removed siblings do not take up an index, while binary children keep their side.",
     ["inputs", "histories"], "every tree and collection, any stage before it, every choice the closure may make, every sequence of steps and skip requests, limits 0 to 4",
     "The tests prune one fixed tree with one fixed predicate; runs of removed siblings, removed roots in collections and indexes after removals hardly occur.",
     files(PIPE[0], *PIPE[3:]) + files(CPIPE[0], *CPIPE[3:6]),
     "Prune stages loop over the inner stage, skip subtrees and count removed siblings per level.",
     [("pruned_at_each_depth", "how many siblings were removed on every level")],
     technique=AG, level="other", note=STAGE + TRUST)
prop("C11", "Collecting a pipeline rebuilds the remaining tree",
     "For every pipeline, collecting gives a tree with exactly the nodes the pipeline produces, each under the parent and in the position its path says; nothing when no node remains. "
     "For collections, one tree comes out for every remaining tree, in order, and then the end.",
     ["inputs"], "every tree and collection, any stage before it",
     "The tests collect one fixed tree; the reconstruction from depths alone goes wrong only for particular successions of depths.",
     files("tree_iterators/mod.rs", "tree_collection_iterators/mod.rs", "tree_collection_iterators/trees.rs", "prelude.rs"),
     "A stack of unfinished nodes is folded into their parents whenever the depth goes down.",
     [("keeping_stack", "the unfinished nodes from the root down")], technique=AG, level="other", note=STAGE + TRUST)
prop("C12", "Folding gives each node its children's results, in order, once",
     "For every pipeline, folding calls the closure exactly once for every node, after its children, with exactly the results of its children in order (for binary trees on the side they belong to), its value and, for the variant with path, its path; the root's result is returned, nothing when no node remains. "
     "For collections, one result comes out for every remaining tree, in order, and then the end.",
     ["inputs"], "every tree and collection, any stage before it",
     "The tests fold one fixed tree with a commutative closure.",
     files("tree_iterators/mod.rs", "tree_collection_iterators/mod.rs", "tree_collection_iterators/fold.rs", "tree_collection_iterators/fold_path.rs"),
     "A stack of values and a stack of children's results are folded whenever the depth goes down.",
     [("folded_so_far", "the children's results of the unfinished nodes"), ("paths", "the path of the unfinished node on top")],
     technique=AG, level="other", note=STAGE + TRUST)
prop("C13", "One-call tree operations equal their pipeline counterparts",
     "For every tree, the one-call operations (prune, prune by path, prune by depth, map, map with path, fold, fold with path) give exactly the tree or value that the corresponding pipeline stage followed by collecting gives on the whole tree, with the closure seeing every node's value and path; on collections they do so for every tree. "
     "Owned, borrowed and mutably borrowed variants agree; an operation that cannot lose the root never fails.",
     ["inputs"], "every tree and collection, every closure, 84 methods (depth limits 0 to 2)",
     "The tests call a few of the methods on one fixed tree; whole variants (owned, borrowed, mutable, binary, collection) are never called.",
     files("prelude.rs") + files(*PIPE) + files(*CPIPE),
     "Default methods of the node and collection traits build the pipeline and run it.",
     technique=AG, level="other", note=STAGE + TRUST)
prop("C14", "Lookup by path finds exactly the node the path leads to",
     "For every tree and every list of child indexes, looking up the path returns the node reached from the root by taking those children in turn, and nothing exactly when one of the steps has no such child; the empty path is the root. "
     "For collections the first index selects the tree, and the empty path gives nothing; no index, however large, panics.",
     ["inputs"], "every tree and collection, every index value, paths of up to 4 segments, all 12 methods",
     "The tests look up a few paths of one fixed tree; out-of-range indexes at every level and one-sided binary nodes are not tried.",
     files("prelude.rs"), "A loop takes the n-th child for every segment.", level="other",
     note="Decided for arbitrary trees and index values, for paths of up to 4 segments; longer ones are outside the claim. " + TRUST)
prop("C15", "The library's node types and contexts hand out their own parts",
     "The Tree and BinaryTree types give exactly their own value and their own children (left first, then right, an absent child staying absent) in owned, borrowed and mutably borrowed form, and a context's depth, path, ancestors and children are those it was given, with the depth counted inside the node's own tree. "
     "Clone, equality and default of both types are structural, and cloned() on a tree of references gives the tree of the same shape with every value cloned.",
     ["inputs"], "every value and child list, every combination of absent children, every depth up to 3 for contexts (the accessors do not depend on it otherwise), trees of any width for cloned()",
     "The tests reach these bodies only through traversals of a few fixed trees; cloned(), equality and depth() of collection contexts are hardly used there.",
     files("prelude.rs", "tree_context.rs"), "Small impl blocks at the end of prelude.rs and in tree_context.rs.", level="proof", note=TRUST)
SYN = "code query over rustc MIR and types (effect and ownership analysis)"
prop("C16", "No value is dropped twice, leaked or aliased through unsafe code",
     "Whatever the client does with a traversal, in safe code, every value and every child collection it passes through is dropped exactly once, and no exclusive reference handed out aliases another one. "
     "This holds when the traversal is finished, dropped half-way, or switched to leaves().",
     ["inputs", "histories"], "every node type, every value type, every sequence of client calls",
     "The tests use integer values and child lists without Drop; nothing observes a double free, a leak or aliasing there.",
     files(PRE, INO, POS, BFS) + files("prelude.rs", "tree_context.rs", "bfs_iterators/mod.rs", "leaves_iterators/mod.rs", "examples.rs"),
     "Some iterators with context duplicate child collections bitwise or keep raw pointers to nodes.",
     [("traversal_stack and into_iterator_stack", "two views of the same children")], technique=SYN, level="other",
     note="The rules are sound for code without unsafe (where the compiler already decides the property) and decide the constructs the crate uses: bitwise copies, values kept "
     "from being dropped, references made from raw pointers. Other unsafe constructs are outside the claim. Three known findings are listed in known_findings.json. ")
prop("C17", "Nothing recurses: deep trees cannot overflow the stack",
     "No traversal, leaves, pipeline, fold, collect, prune, map or lookup calls itself, directly or through other functions of the library, so the call stack they use does not grow with the depth, width or number of trees. "
     "Dropping, cloning, comparing or printing the library's own tree types is outside this property.",
     ["inputs"], "every tree, however deep",
     "The deepest tree in the tests has about ten levels; a recursive implementation passes them all.",
     files(PRE, INO, POS, BFS) + files("prelude.rs", "collection_iterators.rs") + files(*PIPE) + files(*CPIPE),
     "Explicit stacks and queues replace recursion everywhere.", technique="strongly connected components of the resolved call graph of rustc MIR",
     level="proof", note="Every body of the crate is in the graph; generated derive implementations and drop glue are left out. Closures and nodes supplied by the user are taken not to call back. ")
prop("C18", "Traversals are lazy: a node is opened only when it is due",
     "A traversal asks a node for its value and children only when its part of the sequence is the next one to be produced, and a collection for its next tree only when the trees before it are finished; before the first step it asks for nothing. "
     "So stopping early never touches what lies behind, and every owned or mutably borrowed node is opened once.",
     ["inputs", "histories"], "every finite tree and collection, every point at which the client stops, 87 entry point combinations (breadth-first with attachments excepted)",
     "The tests run every traversal to its end and have no way to see when a node is opened.",
     files(PRE, INO, POS, BFS) + files("collection_iterators.rs"),
     "Nodes are kept unopened inside their parents' child iterators until they are due.", level="other", note=PARTLY + TRUST)
prop("C19", "Lifetimes and bounds: safe uses compile, dangling and aliasing ones do not",
     "References, iterators, contexts, pipelines and collected trees obtained from a tree cannot outlive it, a tree that is mutably traversed cannot be used otherwise at the same time, a streamed item, a current path, or what a closure was lent cannot be kept across the next step, and a consumed tree cannot be used again: the compiler refuses such programs. "
     "Conversely values need no Clone, Default, Debug or 'static, closures may be FnMut and borrow, user-defined node types work in every variant, values of borrowed traversals may be held together and outlive the iterator, and the iterators can be sent to and shared between threads when the values can, and only then.",
     ["inputs"], "about 2250 generated client programs, for every combination of ownership, arity, order, collection, attachment and pipeline stage",
     "A test that must not compile cannot be in the test suite, and the tests' value types have every trait.",
     files(PRE, INO, POS, BFS) + files("prelude.rs", "tree_context.rs", "collection_iterators.rs") + files(*PIPE) + files(*CPIPE),
     "Lifetime parameters, trait bounds and opaque return types of the public API.",
     technique="type-level witnesses: compile-pass and compile-fail programs decided by rustc's type and borrow checker", level="other",
     note="Decided for the generated programs, by the compiler. Iterators with context of the mutable binary inorder and postorder traversals are not Send today: four known findings. ")
prop("C20", "Metadata cannot be attached to a traversal that has started",
     "Attaching ancestors or context to a traversal works before the first value is produced and panics once one has been produced, so that ancestors and paths are never built from a half-consumed state. "
     "When nothing is left to traverse, an iterator without items may be given instead of the panic.",
     ["histories"], "every tree and collection, every number of steps before attaching, 63 attach methods",
     "The tests attach after a fixed number of steps, if at all, on one fixed tree.",
     files(PRE, INO, POS, BFS) + files("collection_iterators.rs") + [D[:-4] + "doc_files/attach_ancestors.md", D[:-4] + "doc_files/attach_context.md"],
     "attach_ancestors and attach_context take the root out of the traversal and panic when it is gone.")
prop("C21", "The library does not depend on std",
     "The library links core, alloc and dependencies that do not need std, and nothing else, whatever it is used for.",
     ["inputs"], "the default feature set",
     "The tests link std themselves, so a use of std in the library goes unnoticed.",
     ["tree_iterators_rs/src/lib.rs", "tree_iterators_rs/Cargo.toml"], "#![no_std] at the crate root.",
     technique="query over the crates rustc resolved for the library", level="proof", note="The crate list is that of the default features on this host. ")
prop("C22", "Steps are cheap: amortised constant time, memory bounded by depth or width",
     "A full traversal takes time linear in the number of nodes (with paths and ancestors maintained in place, not rebuilt), a depth-first traversal holds memory proportional to the depth times the width of what is pending, and collecting, folding and pruning add only linear work.",
     ["inputs"], "every tree of every size",
     "The tests use trees of about ten nodes and measure nothing.",
     files(PRE, INO, POS, BFS) + files(*PIPE), "Explicit stacks, updated in place.",
     na="It quantifies over run-time quantities (numbers of steps, bytes held, reallocation of vectors); no static argument in reach bounds them soundly for this crate, and a measurement would be a different technique.")
prop("C23", "Serialisation with the feature serde loses nothing",
     "With the feature serde, Tree and BinaryTree are written as a record of all their fields, each under its own name and whatever it holds (value and children; value, left and right). "
     "What was written is read back as an equal tree, whether the format gives the fields as a sequence, or as a map in any order, with keys given as text, bytes or position, and a key that is not known is passed over.",
     ["inputs"], "every value, every combination of absent children, child lists of any length, every order of the keys with at most one that is not known",
     "No test enables serialisation; losses that show only with absent children or only in formats without names would pass any test that prints JSON.",
     files("prelude.rs") + ["tree_iterators_rs/Cargo.toml"], "Derived implementations behind cfg_attr(feature = \"serde\").", level="proof",
     note="The derived bodies are run on opaque fields against an abstract format. serde itself, and its implementations for Vec, Option and Box, are trusted. Formats that use the list of field names only for its length are assumed to agree with it. " + TRUST)
prop("C24", "Every way of driving an iterator agrees with stepping it",
     "Whatever method of Iterator, StreamingIterator or StreamingIteratorMut a client uses on a traversal, on leaves or on the start of a pipeline (nth, skip, last, count, fold, for_each, size_hint, is_done, ...), "
     "it gives what calling next (or advance and get) one by one would give, and leaves the rest of the traversal in the same state; size_hint never promises more, or fewer, elements than can come.",
     ["inputs", "histories"], "every implementation of an iterator trait in the crate; every tree, every point of the traversal at which the method is called",
     "The tests step with next and collect; a specialised nth or size_hint passes them whatever it does.",
     files(PRE, INO, POS, BFS) + files("collection_iterators.rs", "prelude.rs") + files(*PIPE) + files(*CPIPE),
     "Every implementation supplies only the methods its trait requires, so that the rest follows from next, or advance and get.", level="proof",
     note="Methods an implementation leaves to its trait are right by the trait's definition, which is trusted. Methods taken over are analysed for nth, count, last, fold, for_each, size_hint, is_done, next and next_mut of traversals, leaves and pipeline sources; others would be reported as undecided. " + TRUST)
prop("C25", "What a client changes through a context takes effect",
     "In a preorder or breadth-first traversal with context, a child that the client removes through children_mut (all of them, or either one of a binary node) is not visited, nor is anything below it; "
     "every other node still is, in order, with its own path, ancestors and children. "
     "A value that is replaced in the list of ancestors, through next_mut or ancestors_mut, is what every later item shows for that node, in every order.",
     ["inputs", "histories"], "every tree and collection, owned and mutably borrowed, any number of removals at any step; one replaced value (the node's own or the root's) at any step",
     "The tests read contexts and never change them.",
     files(PRE, INO, POS, BFS) + files("tree_context.rs", "collection_iterators.rs") + [D[:-4] + "doc_files/tree_context_children.md"],
     "The children live in the context between two steps and are taken from it by the next; the ancestors' values are kept once.", level="other",
     note="Decided for any size for the n-ary preorder traversals; explored on trees of bounded width and depth (see without_widening in the evidence) for the others. " + TRUST)
