#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
D = "src/dense_tree.rs"; DN = "src/dense_tree/node.rs"; DF = "src/dense_tree/from.rs"
S = "src/sparse_tree.rs"; SL = "src/sparse_tree_levels.rs"; CFG = "src/config.rs"
LV = "src/level/intrusive_list_level.rs"; LB = "src/level_block/block.rs"
HT = "src/hibit_tree.rs"; IT = "src/iter.rs"; LIB = "src/lib.rs"
BB = "src/bit_block.rs"; BQ = "src/bit_queue.rs"; BU = "src/bit_utils.rs"
OI = "src/ops/intersection.rs"; OU = "src/ops/union.rs"; MI = "src/ops/_multi_intersection.rs"
MU = "src/ops/_multi_union.rs"; MP = "src/ops/map.rs"; MF = "src/ops/multi_map_fold.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

prop("C01", "DenseTree behaves as a map from index to value",
 "After any sequence of insert, get_or_insert (with writes through the returned reference) and remove on a DenseTree of any supported depth, get and get_unchecked return exactly what an ordinary map given the same calls holds: the last value stored under that index, or nothing if the index was never stored or was removed since. remove returns the value that was stored (nothing if absent) and, like insert and get_or_insert, changes no other index; get_or_insert returns the stored value if there is one and otherwise stores and returns the type's default.",
 ["histories", "inputs"], "every operation history over every index in range, for every depth 1..9 and every node fill level (0..64 children at every level)",
 "Tests run one seeded history of depth-4 trees with random keys: nodes are never full, never emptied at several levels by design, depths 1, 2, 5..9 and boundary indices are not exercised.",
 [D, DN, BU, LIB], [("dense child arrays kept sorted by popcount rank, with one trailing empty child", DN), ("swap-remove of the value vector with repointing of the moved key's terminal node", D), ("emptied nodes unlinked bottom-up", D)],
 ["return values of get, get_unchecked, insert, get_or_insert, remove", "key_values"],
 [{"name": "data/keys", "meaning": "values and their indices, element 0 is a placeholder", "where": D}])

prop("C02", "SparseTree behaves as a map from index to value in every configuration",
 "For every width (64, 128, 256) and depth (1..8) configuration, with or without required defaults, after any sequence of insert, get_or_insert, get_mut, get_mut_unchecked and remove, get, get_mut and get_unchecked return exactly what an ordinary map given the same calls holds, for up to the full number of children of every node and far more than 65536 elements. remove returns the value that was stored (nothing if absent), and no operation changes any other index.",
 ["histories", "configurations", "inputs"], "every operation history over every index in range, for all 24 width x depth configurations",
 "Tests use two configurations with random keys; no test fills a node or a level completely, so index-width limits of the small per-level child indices are never reached, and reuse of freed blocks is barely exercised.",
 [S, SL, CFG, LV, LB, BU], [("per-level block vectors with an intrusive free list", LV), ("index 0 reserved for the empty block / placeholder value", S), ("child index integer types per level", CFG), ("swap-remove with back pointers to the terminal block", S)],
 ["return values of all map operations", "key_values"])

prop("C03", "Iteration yields every element exactly once in ascending index order",
 "Iterating any tree, concrete or lazy, yields each index the tree contains exactly once, in strictly ascending order, together with the same value that get returns for that index, and yields nothing else; once it has returned nothing it keeps returning nothing. The ordinary and the lending iteration interfaces agree, and stopping early or iterating again (also with several iterators interleaved) does not affect the tree or any other iteration.",
 ["inputs", "histories", "configurations"], "all trees and lazy operation results, all key distributions, all widths and depths, every stopping point",
 "Tests compare iteration with a few fixed lists and one random set; sparse/dense extremes, boundary indices, full nodes and non-exact hierarchies (empty sub-trees below set bits) are unsampled.",
 [IT, LIB, HT, BQ, BB], [("per-level bit queues driven from the deepest level up", IT), ("index reassembly from level indices", LIB)],
 ["items of Iter through Iterator and LendingIterator"])

prop("C04", "key_values exposes exactly the stored pairs, position by position",
 "key_values and key_values_mut of a DenseTree or SparseTree always return two slices of equal length whose positions correspond: every stored index appears exactly once, next to its own value, and no placeholder or removed element appears. A write through the mutable slice is what get, get_mut, iteration and remove observe for that index afterwards, and nothing else changes.",
 ["histories", "configurations"], "every operation history on both containers, every configuration, including the empty container",
 "One test sorts the value slice of a random tree; correspondence of keys with values, mutation through the slice and the state after removals of first/last/middle elements are not checked.",
 [D, S], [("keys and values moved together by swap-remove; first element skipped", D), ("same for SparseTree", S)],
 ["slices of key_values / key_values_mut"])

prop("C05", "Index range is exactly 0..width^depth and is enforced on every access",
 "index_range() of every tree, concrete or lazy, ends at width to the power depth (saturating at the maximum of usize), every index below the end is accepted by every operation that takes an index, and every index at or above the end makes the operation panic before changing anything, so the tree afterwards behaves as if the call had not been made. A checked Index converts back to the number it was made from and gives the same results as the plain number.",
 ["inputs", "configurations"], "every usize, every operation taking an index, all widths and depths, concrete and lazy trees",
 "No test passes an out-of-range index or the largest valid one, and no test calls index_range.",
 [HT, D, S, CFG], [("Index::from assertion", HT), ("index_range", HT)],
 ["panic/no panic, state after a caught panic, index_range value"])

prop("C06", "intersection contains exactly the indices present in both operands",
 "intersection(a, b), with operands passed by value or by reference, contains an index exactly when both operands contain it and pairs the values a and b hold there, in that order; get, get_unchecked (for contained indices), iteration and cursor access all agree on this, and an empty operand gives an empty result.",
 ["inputs", "configurations"], "all pairs of trees of equal shape (DenseTree and SparseTree, including mixed kinds of the same width and depth), all overlaps",
 "One smoke test with three keys and one random test of a mapped intersection; structural overlaps without common keys, full nodes, other widths and depths are not sampled.",
 [OI, IT], [("level masks combined with AND", OI)], ["get/get_unchecked/iter/cursor results against set algebra"])

prop("C07", "union contains exactly the indices present in either operand",
 "union(a, b), with operands passed by value or by reference, contains an index exactly when at least one operand contains it, and yields for each side the value held there or nothing when that side lacks the index; get, get_unchecked, iteration and cursor access all agree on this, also when operands are themselves lazy.",
 ["inputs", "configurations"], "all pairs of trees of equal shape, all overlaps, concrete and lazy operands",
 "One smoke test with five keys; one-sided sub-trees at every level and lazy operands with empty sub-trees are not sampled.",
 [OU, IT, D, S], [("level masks combined with OR; absent sub-trees answer with empty nodes", OU)], ["get/get_unchecked/iter/cursor results against set algebra"])

prop("C08", "multi_intersection: indices in all operands, values in operand order",
 "multi_intersection over any number of trees up to 32 (including zero, which is empty, and one) contains an index exactly when all of them contain it, and yields for it one value per tree in the order the trees were given, the same on get, get_unchecked, iteration and cursor access. The value sequence reports its exact remaining length at every step, and stepping and folding it produce the same values.",
 ["inputs", "configurations"], "all operand counts 0..32, all contents and overlaps, all tree shapes",
 "One smoke test with three trees of three keys; counts other than 3, empty operands, all operands sharing sub-trees but no keys, and reported lengths are not checked.",
 [MI], [("AND of all level masks with early exit below an empty level", MI), ("stack buffers of 32 cursors", MI)], ["value iterators of get/get_unchecked/iter/cursor"])

prop("C09", "multi_union: indices in any operand, present values in operand order",
 "multi_union over any number of trees up to 32 (including zero and one), of any depth including 1, contains an index exactly when at least one of them contains it, and yields for it the values of exactly those trees that contain it, in the order the trees were given, the same on get, get_unchecked, iteration and cursor access; an index contained in none is reported absent, never as present with no values. The value sequence's size bounds always enclose its real remaining length, and stepping and folding it produce the same values.",
 ["inputs", "configurations"], "all operand counts 0..32, all contents and overlaps, all tree shapes including depth 1",
 "One smoke test with three trees; cursor lookups of absent indices, depth 1, trees that vanish at different levels, and many operands are not covered.",
 [MU], [("OR of level masks; per-level lists of the operands still non-empty", MU)], ["value iterators of get/get_unchecked/iter/cursor"])

prop("C10", "map keeps the index set and applies the function once per accessed element",
 "map(t, f), t.map(f) and t.map_ref(f) contain exactly the indices of t and give f(value of t) at each, on get, get_unchecked, iteration and cursor access; f is called exactly once for each element an access delivers, with that element's value, and never for an absent index.",
 ["inputs", "configurations"], "all trees, concrete or lazy, all functions including stateful ones and those whose result borrows from the tree",
 "Tests map two fixed trees with pure functions and look only at results, so repeated, missing or speculative calls would pass.",
 [MP, HT], [("f executed in data/data_unchecked of tree and cursor", MP)], ["results and a log of every call of f"])

prop("C11", "multi_map_fold folds each element's values in order from a fresh initial value",
 "multi_map_fold(m, init, f) and m.map_fold(init, f) contain exactly the indices of the multi_* tree m, and give at each the left fold of f over exactly the values m yields there, in operand order, starting from a newly made initial value; per delivered element init is called once and f once per value, and neither is called for an absent index, the same on get, get_unchecked, iteration and cursor access.",
 ["inputs", "configurations"], "all multi_union and multi_intersection results, all fold functions including order-sensitive and stateful ones",
 "Tests fold sums (commutative) over three trees; order, fresh initial values and call counts cannot be seen there.",
 [MF, MU, MI], [("fold over the value iterator in data/data_unchecked of tree and cursor", MF)], ["results with an order-sensitive fold and a log of calls of init and f"])

prop("C12", "Nested lazy expressions equal set algebra on every access path",
 "Any composition of intersection, union, map, multi_intersection, multi_union and multi_map_fold over concrete or lazy trees contains exactly the indices that evaluating the same expression on ordinary maps gives, with the same values, and get, get_unchecked, iteration, lending iteration and cursor access agree with each other, also when they are used from within a function that the expression is just calling.",
 ["programs", "inputs", "configurations"], "all nesting shapes, all operand contents; operands by value or by reference",
 "No test nests more than two operations; intermediate results with set bits over empty sub-trees, as operands of another operation, are not covered.",
 [OI, OU, MI, MU, MP, MF, IT], [("every operation implements the same tree and cursor interfaces over its operands", "src/ops")], ["all access paths of nested expressions"])

prop("C13", "materialize produces a tree with exactly the lazy tree's contents",
 "Materializing any lazy tree (result of map, intersection, union, multi_map_fold or a nesting of them) into a DenseTree gives a tree with exactly the same indices and the same values, also when the lazy tree is empty or contains sub-trees that turn out empty, for every depth; each element's value is produced exactly once, and iteration, get and key_values of the new tree agree.",
 ["inputs", "configurations"], "all lazy expressions materializable into a DenseTree, all contents including empty ones, all depths",
 "Two tests materialize random depth-4 trees with a non-empty result; empty results, depth 1, empty sub-trees and call counts are not covered.",
 [DF, DN], [("recursive copy over a cursor, exact and non-exact variants", DF)], ["contents of the materialized tree against the lazy one"])

prop("C14", "A materialized tree is an ordinary DenseTree afterwards",
 "After materialize, the resulting DenseTree is indistinguishable through its interface from one built by inserting the same pairs: any further sequence of insert, get_or_insert, remove, iteration, use as an operand of lazy operations, re-materialization and dropping gives the same results and leaks nothing.",
 ["histories", "inputs"], "every follow-up history on every materialized tree",
 "Tests only read from materialized trees; none inserts into or removes from one.",
 [DF, DN, D], [("nodes built with exact capacity and a trailing empty child", DN)], ["map operations on a materialized tree against a model"])

prop("C15", "Cursor traversal gives the tree's structure at any selected node",
 "A cursor on any tree, concrete or lazy, after selecting one node per level from the top, returns at every selection a mask of that node's children and at the last level, for a position, the value that get returns for the index formed by the selections, or nothing when that index is absent; selecting a child that does not exist gives an empty mask and only absent data below it. The result depends only on the current path, not on what was selected before, so levels can be re-selected in any order and any number of times from the changed level downwards, and for existing nodes the checked and unchecked forms agree.",
 ["histories", "inputs", "configurations"], "all selection sequences valid under the cursor contract, all trees and lazy results",
 "Only a documentation example selects nodes by hand; reselection, missing nodes and mixed checked/unchecked selection are never tested.",
 [HT, D, S, OI, OU, MI, MU, MP, MF], [("cursor caches one node per level", D), ("cursors of operations delegate to operand cursors", "src/ops")], ["masks and data returned by cursors"])

prop("C16", "Hierarchy masks never hide an element, and exact ones never lie",
 "For every tree, every contained index is reachable through set bits of the masks a cursor reports from the root down; if the tree declares an exact hierarchy, then also no node other than the root of an empty tree has an empty mask and every set bit leads to at least one element. This holds after every history of insertions and removals, and masks depend only on the set of contained indices, not on the history that produced it.",
 ["histories", "inputs", "configurations"], "all histories on concrete trees, all lazy results, all shapes",
 "No test looks at a mask; stale bits left by removals only slow iteration down or show in lazy operations on particular key patterns.",
 [D, DN, S, LB, OI, OU, MI, MU, MP, MF, DF], [("bits cleared bottom-up when nodes become empty", D), ("same for SparseTree", S), ("EXACT_HIERARCHY constants", HT)], ["complete walks over cursor masks"])

prop("C17", "Every value handed to a tree is returned or dropped exactly once",
 "Each value given to or created for a container is either returned by remove, or dropped exactly once: when it is overwritten, when its removed value is dropped by the caller, or when the container is dropped; none is dropped early, twice or never, and no other value comes into existence except, for a container with required defaults, one default value that lives as long as the container. get_or_insert makes a default only when the index is absent.",
 ["histories", "configurations"], "all operation histories, all configurations, both containers, materialized trees and operations owning their operands, value types with and without size",
 "Tests store plain numbers, so a lost, duplicated or dropped-twice value cannot be observed.",
 [D, S, DF, "src/req_default.rs"], [("manual drop skipping the placeholder element", D), ("manual drop in SparseTree depending on required defaults", S)], ["a ledger of value creation, moves and drops"])

prop("C18", "A panic in user code leaves no corruption behind",
 "When a value's Default, its Drop, a function passed to map or multi_map_fold, an operand iterator given to a multi operation, or an operand tree of the user's own panics during any operation (insert, get_or_insert, remove, construction, access, iteration, materialize, dropping a tree), the panic reaches the caller, no value is dropped twice and no memory that never held a value is treated as one. A container that survives the panic keeps all its other elements unchanged, contains the affected index either with a proper value or not at all, and works normally afterwards.",
 ["fault_sequences", "histories"], "a panic at every call of user code inside every operation, on both containers",
 "No test panics inside a callback.",
 [D, S, DF, MP, MF], [("order of updates around user code", D), ("placeholder element held in a Vec with manual drop", S)], ["drop ledger and model comparison after a caught panic"])

prop("C19", "Safe and contract-respecting use never causes undefined behaviour",
 "No sequence of safe calls, and no use of the unsafe functions within their documented contracts, on any container, lazy operation, cursor, iterator or bit utility makes an out-of-bounds, misaligned, uninitialized or dangling access, an invalid value, a violation of Rust's aliasing rules or of an allocation's layout contract; nor does an allocation that fails, which ends the operation as it does in the standard library's containers.",
 ["histories", "inputs", "configurations"], "all workloads over the public interface",
 "Tests run without any memory checking; the crate is built on unchecked accesses, raw allocation, transmutes and uninitialized placeholders.",
 [D, DN, DF, S, SL, LV, LB, OI, OU, MI, MU, BB, BQ, BU, IT, "src/const_utils/const_array.rs", "src/const_utils/cond_type.rs"], [("unchecked indexing justified by reserved empty children / blocks", DN), ("raw node allocation", DN)], ["Miri (both aliasing models), AddressSanitizer and standard-library precondition checks over the workloads"])

prop("C20", "Memory is bounded by the contents and fully released",
 "Dropping a container, lazy tree, iterator or cursor releases all heap memory allocated for it. Memory held by a DenseTree is bounded by a linear function of the elements it holds (plus the usual growth slack of its value storage), emptied nodes being released on removal; a SparseTree reuses emptied nodes, so repeating the same insert/remove cycle never grows either container after its first round.",
 ["histories", "configurations"], "all operation histories, arbitrarily many churn rounds, all shapes",
 "Tests never measure memory; a leaked node or a block missing from the free list is invisible to them.",
 [D, DN, S, LV], [("nodes freed when their last child goes", D), ("recursive node release on drop", DN), ("free list of empty blocks", LV)], ["a counting allocator around every workload"])

prop("C21", "Concurrent readers of a shared SparseTree see consistent data without races",
 "Any number of threads may at the same time read one SparseTree (get, get_unchecked, iteration, cursors, key_values, get_or_default) and evaluate lazy operations over shared trees, each seeing exactly what a single thread would see, without any data race; a tree built or modified on one thread and handed to another behaves the same there.",
 ["schedules", "histories"], "all schedules of concurrent readers, with hand-over of ownership between threads",
 "All tests are single-threaded.",
 [S, SL, OI, OU, MI, MU, IT], [("no interior mutability in read paths", S)], ["ThreadSanitizer and Miri race detection plus value checks in every thread"])

prop("C22", "Bit blocks of every width implement exact fixed-size bitset algebra",
 "For 64, 128 and 256 bit blocks, zero is empty, set_bit sets or clears exactly the given bit and returns its previous state, get_bit, is_zero, equality and count_ones reflect exactly the set bits, & and | (also the assigning forms, by value and by reference) are per-bit, the array view holds bit i at position i%64 of word i/64, and traversal visits the set bits once each in ascending order and stops exactly where its callback asks it to.",
 ["inputs"], "all bit patterns and positions of the three widths",
 "Only indirectly used by tree tests on 64 bits; 128 and 256 bit blocks and early stops are almost untested.",
 [BB, BU, "src/utils/primitive.rs"], [("word index and bit index arithmetic", BU)], ["results of every BitBlock operation against a bool array"])

prop("C23", "Bit queues pop set bits in order, trim and stop correctly",
 "A bit queue made from a block (or empty / filled) pops exactly its set bits, each once, in ascending order; at any time trim_to(n) removes exactly the remaining bits below n, traverse visits exactly the remaining bits in order and stops when asked, for_each visits all of them, clones are independent, and current() lies after every popped bit, not after the next one, and equals the capacity once the queue has returned nothing.",
 ["inputs", "histories"], "all bit patterns, widths and interleavings of next, trim_to, traverse, for_each, current and clone, for 8 to 256 bit queues",
 "No test uses trim_to, current, filled or traverse of a partially consumed multi-word queue.",
 [BQ, BU], [("active word copied to slot 0 of the queue", BQ)], ["results of every BitQueue operation against a sorted list"])

prop("C24", "get_or_default returns the stored value, or an untouched default",
 "On a SparseTree with required defaults, get_or_default returns the stored value for a contained index and a value equal to the type's default for every other index, after any history of operations in any configuration; the default it returns can never be altered by writing through any other operation, and the default element is never visible to get, iteration, key_values or removal.",
 ["histories", "configurations", "inputs"], "all histories, all indices in range, all 24 configurations",
 "One test reads a few present and absent indices of one configuration.",
 [S, "src/req_default.rs", LB, LV], [("absent indices resolve to element 0", S), ("freed blocks leave no stale child index", LB)], ["get_or_default against a map with default"])

prop("C25", "Compile-time helpers visit, split and select exactly what they name",
 "const_for and const_for_rev over any supported bounds from <= to call the visitor once for each integer from..to, in ascending respectively descending order, stop exactly where the visitor breaks and report that break; the integer helpers' values and neighbours are right; splitting the last element off an array of any supported size returns the other elements in order and the last one, each exactly once; a conditional value always holds and returns the alternative its condition names, and making or cloning one makes nothing of the other; taking an owned value hands over that value without a clone, taking a borrowed one clones it only when asked; a primitive's operations are its integer type's.",
 ["inputs"], "all bounds 0 <= from <= to <= 9, all break positions, all array sizes 1..9, both conditions",
 "The two loop tests print instead of asserting and only start at 0; splitting is not tested.",
 ["src/const_utils/const_int.rs", "src/const_utils/const_array.rs", "src/const_utils/cond_type.rs", "src/const_utils/const_bool.rs", "src/utils/array.rs", "src/utils/take.rs", "src/utils/primitive.rs"], [("type-level recursion over Dec", "src/const_utils/const_int.rs")], ["visitor logs, returned arrays, drop ledger, clone counts"])

prop("C26", "Results do not depend on the build configuration",
 "The same program gives the same results in every supported build: debug and optimized, with and without the simd feature (for 64-bit trees), with and without the CPU's bit-manipulation instructions (popcnt, BMI1, BMI2, AVX2), and with the may_dangle feature on nightly, which additionally lets containers hold references that go out of scope before the container does.",
 ["configurations", "inputs"], "all combinations of optimization level, features and CPU target features",
 "Tests run in a single build; the BMI2 and may_dangle code is not even compiled there.",
 [DN, BU, BB, D, S, "Cargo.toml"], [("cfg(target_feature = bmi2) rank computation", DN), ("simd and may_dangle features", LIB)], ["digests of recorded transcripts of the same workload from every build"])

prop("C27", "Lazy operations leave operands untouched and hand out the stored elements",
 "Building a lazy operation, or building it and dropping it, calls no user function and evaluates nothing; using it in any way never changes the operands, and dropping it drops exactly the operands it owns and none it borrows. References it delivers point to the elements stored in the operands (the same addresses get on the operand gives), never to copies, and stay valid as long as the operands live, beyond the lifetime of the iterator or cursor that produced them.",
 ["inputs", "programs"], "all lazy operations and nestings, operands by reference or by value",
 "Tests compare values, so copies, eager evaluation and changed operands would go unnoticed.",
 [OI, OU, MI, MU, MP, MF, IT], [("operations only store their operands", "src/ops")], ["addresses of delivered references, call logs, drop ledger, contents of operands before and after"])

prop("C28", "Lazy evaluation visits operands only where the operation has elements",
 "While a lazy operation is iterated completely or materialized, an operand is asked for at most twice as many nodes as the operation has (an intersection those nodes that all operands have; a union those that any has; a multi_union, per operand, those right below nodes which that operand has) and for at most twice as many elements, however large the operand is. An iteration abandoned early pays only for what lies before that point. Creating an iterator or cursor, get, get_unchecked, and a cursor following one path ask each operand for no more than a few nodes per level.",
 ["inputs", "programs"], "all lazy operations and nestings over operands of very different sizes and overlaps",
 "Tests check results, which stay right when early discarding is lost; only counting accesses on lopsided inputs shows it.",
 [OI, OU, MI, MU, MP, MF, IT, DF], [("masks combined at every level before anything descends", "src/ops"), ("iteration descends only where the masks lead", IT)], ["how often a counting operand of the user's own is asked for nodes and elements"])

prop("C29", "The cost of container operations does not grow with the number of elements",
 "On a DenseTree or SparseTree insert, get_or_insert, remove, get, get_unchecked, get_mut, get_or_default, key_values, index_range, creating an iterator or a cursor, selecting a node and advancing an iterator take time that depends on the depth and width of the tree but does not grow with the number of stored elements (insertion: amortized over the growth of the storage). The memory requested over the whole life of a tree stays proportional to the largest memory it held plus a bounded amount for each operation.",
 ["histories", "inputs"], "trees of every width with 10^5 to 10^6 elements: indices adjacent, spread, descending",
 "Unit tests use small trees, where linear operations cost nothing noticeable.",
 [D, DN, S, LV, LB, IT], [("swap-remove in the contiguous storage", D), ("O(1) child lookup by rank or table", DN)], ["CPU time of the thread per operation, bytes requested of the allocator"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
