AI = "abstract interpretation of monomorphised MIR (value numbering with bit provenance, shape invariant of the tree, trace partitioning)"
NOTE = ("Every path of the listed instances from an arbitrary state satisfying the stated invariant is evaluated abstractly and judged; "
        "undecided obligations are counted in the evidence and do not alarm. Trusts rustc's MIR, the modelled std routines (DESIGN.md) and the analyser. ")

prop("C01", "Keys outside the index range are refused, keys inside are split exactly",
     "Every operation that takes a key accepts exactly the keys of 0..width^depth (what index_range() reports) and panics on every other key before it reads, writes, allocates or drops anything; an accepted key is located at the path of its base-width digits, most significant first, so distinct keys have distinct paths. This holds for every node width and every depth up to the widest key type.",
     ["inputs"], "every usize key, every supported node width (64, 128, 256) and depth",
     "Tests use a few small keys on one or two configurations; the range gate and digit extraction depend on the width and depth, and overflow only at the largest configuration.",
     ["src/hibit_tree.rs", "src/lib.rs", "src/dense_tree.rs", "src/sparse_tree.rs"],
     [("Index::from, index_range, level_indices", "src/hibit_tree.rs, src/lib.rs")],
     AI, NOTE + "Instances: widths 64/128/256 with depths 1-9/1-8/1-8 over uninterpreted trees, DenseTree depths 1-4, SparseTree widths 64/128/256, operators depths 1-3. A key whose digit count exceeds usize (width 256, depth 8) is covered up to usize::MAX-1.")
prop("C02", "Iteration visits every key once, in ascending order, with its element",
     "Iterating any tree yields exactly its keys, each once, in ascending order, each with the element stored under it, and then ends; nodes that are empty although their parent lists them (inexact trees) are skipped. This holds for every tree, width and depth.",
     ["inputs", "histories"], "every tree honouring the tree contract with a bounded number of children per node at arbitrary positions",
     "Tests iterate a few small trees; the walk's re-selection after exhausting or skipping nodes depends on the whole tree's shape and on each depth and width.",
     ["src/iter.rs", "src/bit_utils.rs", "src/bit_queue.rs"],
     [("Iter::new / next", "src/iter.rs")],
     AI, NOTE + "Iteration is followed from start to end, so obligations bound the children per node (1-4, at arbitrary positions, including empty nodes); widths 64/128/256 with depths 1-9/1-8/1-8. Operators are covered because iteration uses only the cursor contract, which C13-C17 decide.")
prop("C03", "Bit blocks and bit queues are faithful sets of small numbers",
     "On 64, 128 and 256 bit blocks: set/clear/test change and report exactly the addressed bit; AND, OR, emptiness, equality and counting are the set operations; iterating or traversing a block or queue visits exactly the set bits in ascending order, stops exactly when told to; trimming a queue removes exactly the bits below the bound; the current position is the next bit that will be yielded, or the capacity at the end.",
     ["inputs", "histories"], "every block value, every bit index, every trim bound, arbitrary prefixes of queue operations",
     "Tests use a few masks; the result must hold for all 2^256 block values and all interleavings of taking and trimming.",
     ["src/bit_block.rs", "src/bit_queue.rs", "src/bit_utils.rs"],
     [("BitBlock impls", "src/bit_block.rs"), ("PrimitiveBitQueue, ArrayBitQueue", "src/bit_queue.rs")],
     "abstract interpretation of monomorphised MIR in a bit-vector/rank domain", NOTE + "Traversals are followed for the first four bits.")
prop("C04", "SparseTree insertion is a map update",
     "After inserting a value under a key in range, the key maps to that value and every other key maps to what it mapped to before; get_or_insert leaves a present key's element alone and otherwise stores one default element, and returns a reference to the stored element. The tree stays well formed: the three parallel lists agree, every stored key's path of blocks leads to its entry, blocks taken from the free list are empty and are taken once, no block is lost.",
     ["inputs", "histories"], "every well-formed tree (any number and placement of keys, any free lists), every key in range, every element type",
     "Tests insert fixed or random keys into fresh trees; block reuse after removals, list growth and index-type limits depend on the whole history.",
     ["src/sparse_tree.rs", "src/level.rs", "src/level_block.rs", "src/config.rs"],
     [("insert / get_or_insert_impl", "src/sparse_tree.rs"), ("IntrusiveListLevel::insert_block", "src/level.rs")],
     AI, NOTE + "Instances: width 64 depths 1-3 (thorough: 4), widths 128 and 256 depths 1-2, with and without a default element, from every well-formed tree; all other depths up to 8 from a new tree (thorough for the largest); trees of fewer than 2^32 elements and 2^31 blocks per level.")
prop("C05", "SparseTree removal is a map deletion",
     "Removing a key returns its element if the key was present and nothing otherwise; afterwards the key is absent and every other key maps to what it mapped to before. The tree stays well formed, including when blocks on the path become empty and enter the free list and when the last element is moved into the freed slot.",
     ["inputs", "histories"], "every well-formed tree, every key in range (present or not)",
     "Tests remove a handful of keys; the swap of the last entry, emptied blocks at each level and their combination depend on the whole tree's shape.",
     ["src/sparse_tree.rs", "src/level.rs", "src/level_block.rs"],
     [("SparseTree::remove", "src/sparse_tree.rs"), ("IntrusiveListLevel::remove_empty_block_unchecked", "src/level.rs")],
     AI, NOTE + "Instances: width 64 depths 1-3 (thorough: 4), widths 128 and 256 depth 1 (thorough: 2), from every well-formed tree; other depths up to 8 from a new tree.")
prop("C06", "DenseTree insertion is a map update",
     "After inserting a value under a key in range, the key maps to that value and every other key maps to what it mapped to before; get_or_insert leaves a present key's element alone and otherwise stores one default element, and returns a reference to the stored element. The tree stays well formed: every stored element is reachable under exactly its key, no stored key is lost.",
     ["inputs", "histories"], "every well-formed tree (any number and placement of keys), every key in range, every element type",
     "Tests insert a few fixed keys and compare with a HashMap; node growth, sparse-in-node child positions and key-list growth depend on which of 64 bits are set at each level.",
     ["src/dense_tree.rs", "src/dense_tree/node.rs"],
     [("insert_impl / get_or_insert_node", "src/dense_tree.rs"), ("NodePtr::insert", "src/dense_tree/node.rs")],
     AI, NOTE + "Instances: depths 1-4 (thorough: 5) from every well-formed tree, 5-9 from a new tree; one opaque 8-byte element type.")
prop("C07", "DenseTree removal is a map deletion",
     "Removing a key returns its element if the key was present and nothing otherwise; afterwards the key is absent and every other key maps to what it mapped to before. The tree stays well formed, including when the removal empties nodes on the way to the root and when another element is moved into the freed slot.",
     ["inputs", "histories"], "every well-formed tree, every key in range (present or not)",
     "Tests remove a handful of keys; the swap of the last element, node emptying at each level and their combination depend on the whole tree's shape.",
     ["src/dense_tree.rs", "src/dense_tree/node.rs"],
     [("DenseTree::remove", "src/dense_tree.rs"), ("NodePtr::remove, drop_node", "src/dense_tree/node.rs")],
     AI, NOTE + "Instances: depths 1-4 (thorough: 5) from every well-formed tree, 5-9 from a new tree.")
prop("C08", "Lookups report exactly what is stored",
     "On every tree, looking a key up by value or by pre-validated index finds the element stored under that key and nothing for any other key; the unchecked lookups agree on present keys; the key/value listing shows exactly the stored entries, each value at its key's position. Lookups change nothing and allocate nothing.",
     ["inputs", "histories"], "every well-formed tree, every key in range",
     "Tests look up the keys they inserted and a few others; agreement must hold for every absent key sharing a path prefix with present ones.",
     ["src/dense_tree.rs", "src/sparse_tree.rs", "src/hibit_tree.rs"],
     [("HibitTree::get, data, data_unchecked", "src/hibit_tree.rs, src/dense_tree.rs, src/sparse_tree.rs"), ("level_indices", "src/lib.rs")],
     AI, NOTE + "Instances: DenseTree depths 1-9, SparseTree widths 64 (depths 1-8), 128 (1-8) and 256 (1-5), with and without a default element.")
prop("C09", "Container cursors show the honest node masks and elements",
     "On every tree, a cursor that selects a node shows exactly the set of children the tree has there (nothing for an absent node), and reports a child's element exactly as a lookup of that key would, whatever was selected before, on any level; unchecked selection and access agree with the checked ones on nodes and elements that exist. Cursors change nothing and allocate nothing.",
     ["inputs", "programs"], "every well-formed tree, every cursor walk that re-selects from any level after having been elsewhere, present or absent nodes at every step",
     "Tests reach cursors only through iteration over small trees; stale per-level state shows only after particular re-selections.",
     ["src/dense_tree.rs", "src/sparse_tree.rs"],
     [("Cursor::select_level_node(_unchecked), data(_unchecked)", "src/dense_tree.rs, src/sparse_tree.rs")],
     AI, NOTE + "Instances: DenseTree depths 1-3 (thorough: 4), SparseTree width 64 depths 1-3, width 128 depths 1-2 (thorough: 64x4, 256x1, 256x2); walks of one detour to any depth followed by re-selection from any level; straight descents on all deeper configurations.")
prop("C10", "Containers touch only memory they own and initialised",
     "No sequence of safe container operations reads uninitialised or freed memory, writes outside an allocation or into shared constants, frees with a wrong size, or leaves an emptied or unreachable node unfreed. This holds for every operation from every well-formed tree.",
     ["inputs", "histories"], "every well-formed tree and operation argument",
     "Tests pass without a memory checker, and a wrong size or an out-of-range child only shows for particular bit patterns and capacities.",
     ["src/dense_tree.rs", "src/dense_tree/node.rs", "src/sparse_tree.rs", "src/level/intrusive_list_level.rs"],
     [("NodePtr raw_new/raw_realloc/drop_node", "src/dense_tree/node.rs"), ("Level blocks", "src/level")],
     AI, NOTE + "Instances: DenseTree depths 1-4, SparseTree width 64 depths 1-3 and widths 128/256 depth 1 (thorough: 64x4, 128x2, 256x2); DenseTree's own allocations may be refused in new/insert/get_or_insert/materialize.")
prop("C11", "A panic in caller code leaves containers sound",
     "When an element's destructor, the element type's Default, or a tree being materialized panics inside a container operation, no element is dropped twice, nothing uninitialised is dropped, and a surviving container keeps every key: the interrupted operation either took effect completely or not at all, at worst leaving an empty branch or leaking elements; it can still be used and dropped.",
     ["faults", "inputs", "histories"], "a panic at any call into caller code, in every operation, from every well-formed tree",
     "Tests never panic inside an operation; unwinding runs code no test enters.",
     ["src/dense_tree.rs", "src/dense_tree/from.rs", "src/sparse_tree.rs"],
     [("drop_impl, insert_impl, get_or_insert", "src/dense_tree.rs, src/sparse_tree.rs"), ("from_sparse_hierarchy", "src/dense_tree/from.rs")],
     AI + ", following the unwind edges", NOTE + "Every call into caller code may unwind once. Instances: DenseTree depths 1-3, SparseTree width 64 depths 1-3 and widths 128/256 depth 1 (thorough: DenseTree 4, SparseTree 64x4, 128x2, 256x2).")
prop("C12", "Every element is handed over or dropped exactly once",
     "An element replaced by an insertion is dropped once; a removed element is handed to the caller undropped; lookups, insertion of new keys and default insertion drop nothing; dropping a tree drops each stored element once and releases all of its memory.",
     ["inputs", "histories"], "every well-formed tree and operation argument, every element type",
     "Tests use integers, whose drop is invisible.",
     ["src/dense_tree.rs", "src/sparse_tree.rs"],
     [("insert/remove/drop_impl", "src/dense_tree.rs, src/sparse_tree.rs")],
     AI, NOTE)
OPW = "Tests combine two or three small concrete trees; the result must be right for every combination of masks at every level, for absent nodes, and after any re-selection."
OPN = NOTE + "Source trees are uninterpreted functions constrained only by the documented tree contract; any call outside that contract (e.g. an unchecked access to an absent node) is reported. Instances: depths 1-3, 64-bit nodes"
OPT = "abstract interpretation of monomorphised MIR over uninterpreted source trees with contract typestate"
prop("C13", "intersection() holds exactly the common keys",
     "For any two trees, the intersection finds a key iff both trees hold it, and yields the pair of their elements, first tree first; its node masks are the bitwise AND of the sources' masks at the same path, whatever was selected before; unchecked accesses agree wherever they are allowed.",
     ["inputs", "programs"], "every pair of source trees honouring the tree contract, every key, every cursor walk of the listed shapes", OPW,
     ["src/ops/intersection.rs"], [("Intersection::data, Cursor", "src/ops/intersection.rs")], OPT, OPN + ".")
prop("C14", "union() holds exactly the keys of either tree",
     "For any two trees, the union finds a key iff at least one tree holds it, and yields for each tree its element or nothing, first tree first; its node masks are the bitwise OR of the sources' masks at the same path, a source lacking that node contributing nothing; unchecked accesses agree wherever they are allowed.",
     ["inputs", "programs"], "every pair of source trees honouring the tree contract, every key, every cursor walk of the listed shapes", OPW,
     ["src/ops/union.rs"], [("Union::data, Cursor", "src/ops/union.rs")], OPT, OPN + ".")
prop("C15", "multi_intersection() holds exactly the keys common to all trees",
     "Over any list of trees, the intersection finds a key iff the list is not empty and every tree holds the key, and then yields every tree's element in list order, through lookups and cursors alike; node masks are the AND of all sources' masks at the same path.",
     ["inputs", "programs"], "lists of 0-3 arbitrary source trees, every key, every cursor walk of the listed shapes", OPW,
     ["src/ops/_multi_intersection.rs"], [("MultiIntersection::data, Cursor", "src/ops/_multi_intersection.rs")], OPT, OPN + ", 0-3 sources.")
prop("C16", "multi_union() holds exactly the keys of any tree",
     "Over any list of trees, the union finds a key iff some tree holds it, and then yields the elements of exactly the trees that hold it, in list order, through lookups and cursors alike; node masks are the OR of the sources' masks at the same path, sources lacking the node contributing nothing.",
     ["inputs", "programs"], "lists of 0-3 arbitrary source trees, every key, every cursor walk of the listed shapes", OPW,
     ["src/ops/_multi_union.rs"], [("MultiUnion::data, Cursor", "src/ops/_multi_union.rs")], OPT, OPN + ", 0-3 sources.")
prop("C17", "map() and multi_map_fold() transform elements only",
     "A mapped tree has exactly its source's keys and node masks, and each element is the function applied once to the source's element; a folded multi-tree has exactly its source's keys and masks, and each element is the fold of the source's items in order starting from the initial value.",
     ["inputs", "programs"], "every source tree (for folds: intersections and unions of 0-3 source trees), every key, every function, every cursor walk of the listed shapes", OPW,
     ["src/ops/map.rs", "src/ops/multi_map_fold.rs"], [("Map, MultiMapFold", "src/ops")], OPT, OPN + ".")
prop("C18", "Materializing a tree keeps exactly its contents",
     "Collecting any tree into a DenseTree yields a well-formed tree with exactly the source's keys, each mapped to the source's element, and nothing else, whether or not the source is exact, including sources without any element and sources whose nodes turn out empty; the new tree's nodes contain no empty branches.",
     ["inputs"], "every source tree honouring the tree contract, with a bounded number of children per node at arbitrary positions, or full nodes",
     "Tests materialize a few intersections and compare their contents; node headers, empty branches and later mutations of the new tree are not looked at.",
     ["src/dense_tree/from.rs", "src/dense_tree/node.rs"],
     [("from_exact_sparse_hierarchy, from_sparse_hierarchy", "src/dense_tree/from.rs"), ("raw_new, raw_push_within_capacity, raw_finalize, from_parts", "src/dense_tree/node.rs")],
     AI, NOTE + "Source trees are uninterpreted functions constrained by the tree contract. Instances: depths 1-4, up to 5 / 3x2 / 2x2x2 / 1x2x2x1 children per node, and full 64-child nodes; that the result satisfies the representation invariant makes C06-C10 apply to it.")
prop("C19", "A tree that claims an exact hierarchy lists no empty child",
     "Wherever a tree's EXACT_HIERARCHY is true, every child its nodes list is a node with at least one child or an element, at every level, for as long as the tree lives; an operator claims this only if it follows from what its sources claim. Iteration, materialization and the operators rely on the claim.",
     ["inputs", "histories"], "every container reachable by insertions, removals and materialization; every operator over sources with any combination of claims",
     "Tests see a wrong claim only if a walk happens to enter an empty node of that shape; most walks tolerate it.",
     ["src/hibit_tree_types.rs", "src/hibit_tree.rs", "src/dense_tree.rs", "src/sparse_tree.rs", "src/ops"],
     [("EXACT_HIERARCHY constants", "src/ops/*.rs, src/dense_tree.rs, src/sparse_tree.rs"), ("remove / drop_node / remove_empty_block", "src/dense_tree.rs, src/sparse_tree.rs")],
     AI, NOTE + "Containers: DenseTree depths 1-4, SparseTree widths 64/128/256; operators: depths 2-3 over 2-3 sources, each combination of claims.")
prop("C20", "Lookups and mutations do work bounded by width and depth",
     "Looking up, inserting, removing, listing and stepping a cursor do an amount of work bounded by the tree's width and depth, however many elements it stores: no loop over and no move of the stored elements, apart from the amortised growth of the lists that hold them.",
     ["inputs", "histories"], "every well-formed tree of any size, every key in range",
     "Tests use small trees, on which a scan or a shift of everything stored is not noticeable and returns the same results.",
     ["src/dense_tree.rs", "src/sparse_tree.rs", "src/level/intrusive_list_level.rs"],
     [("insert, remove, get, Cursor", "src/dense_tree.rs, src/sparse_tree.rs")],
     AI + " with the number of elements symbolic: a loop that no fact bounds, or a move, fill or per-element reallocation of unbounded length is reported", NOTE)
prop("C21", "Safe code cannot misuse the borrows, keys and threads of a tree",
     "The types refuse every safe program that would keep a reference, iterator, cursor or listing across a mutation or the end of its tree, obtain two exclusive references, mutate through a shared reference, use a validated key on a tree of another width or depth or forge one, combine trees of different shape, call an unchecked or level-wise operation without unsafe, hold two items of a lending iteration, use defaults where none exist, or send or share non-thread-safe elements; and they accept the same programs without the misuse.",
     ["programs"], "every safe program of the listed shapes, on DenseTree, SparseTree and the operators; drop checking with and without may_dangle",
     "A test is a program that compiles; it cannot show that another program is rejected, and a signature loosened by a lifetime or an auto trait keeps every test green.",
     ["src/hibit_tree.rs", "src/dense_tree.rs", "src/sparse_tree.rs", "src/iter.rs", "src/ops"],
     [("public signatures", "src/*.rs, src/ops/*.rs"), ("Drop impls (may_dangle)", "src/dense_tree.rs, src/sparse_tree.rs")],
     "compile-fail witnesses paired with compiling twins, decided by rustc's type, borrow and drop checks", "Each misuse is one witness shape; rejection is decided by the error code. ")
prop("C22", "The crate builds in every configuration it offers",
     "The library type-checks with every combination of its features (simd or not, may_dangle on nightly), with CPU extensions enabled, and on targets other than x86-64.",
     ["inputs"], "feature combinations, CPU extensions, x86-64, aarch64, riscv64, powerpc64, i686",
     "The tests run in one configuration on one machine; code selected by feature, target or CPU is never compiled there.",
     ["Cargo.toml", "src/lib.rs", "src/bit_block.rs", "src/config.rs", "src/dense_tree/node.rs"],
     [("cfg-dependent code", "src/bit_block.rs, src/config.rs, src/dense_tree.rs, src/sparse_tree.rs, src/dense_tree/node.rs")],
     "type checking of the crate for each configuration (cargo check, -Zbuild-std for other targets)", "Standard library sources for other targets come from the installed rust-src.")
prop("C23", "Compile-time helpers compute what they stand for",
     "const_for! and const_for_rev! loops visit exactly the numbers of their range, in order, and stop exactly when told to, returning the value of the stop; ConstInteger's DEC, INC and saturating decrement are the neighbouring numbers; splitting an array moves every item exactly once; a conditional type holds and hands out the alternative its condition selects.",
     ["inputs", "programs"], "every range 0..9 in both directions with a stop at any step, every ConstUsize 0-9, arrays of 1-9 items, both conditions",
     "These helpers are generic over const values; tests instantiate one or two of them, while the widths and depths the crate supports use all.",
     ["src/const_utils"],
     [("ConstUsize, const_for, ConstArray", "src/const_utils"), ("CondType", "src/const_utils/cond_type.rs")],
     AI, NOTE)
