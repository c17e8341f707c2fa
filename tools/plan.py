"""Which workloads, in which builds, decide which property."""

SAN = dict(profile="san", target=True)
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1"}
VARIANTS = {
    "chk": dict(profile="chk"),
    "rel": dict(profile="rel"),
    "dbg": dict(profile="dbg"),
    "nosimd": dict(profile="chk", dir="nosimd", args=["--no-default-features"]),
    "bmi": dict(profile="chk", dir="bmi", rustflags="-Ctarget-feature=+bmi1,+bmi2,+popcnt,+lzcnt,+avx,+avx2"),
    "popcnt": dict(profile="chk", dir="popcnt", rustflags="-Ctarget-feature=+popcnt,+sse4.1"),
    "dangle": dict(profile="chk", dir="dangle", args=["--features", "may_dangle"]),
    "asan": dict(SAN, dir="asan", rustflags="-Zsanitizer=address", env=ASAN_ENV),
    # assertions of the crate off (they would hide what follows), precondition checks of std on
    "asanub": dict(profile="ub", target=True, dir="asanub", rustflags="-Zsanitizer=address -Zub-checks=yes", env={"ASAN_OPTIONS": ASAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")}),
    "tsan": dict(SAN, dir="tsan", rustflags="-Zsanitizer=thread", args=["-Zbuild-std"],
                 env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"}),
    "miri": dict(profile="mirirel", miri="-Zmiri-strict-provenance -Zmiri-ignore-leaks"),
    "miritree": dict(profile="mirirel", miri="-Zmiri-tree-borrows -Zmiri-ignore-leaks"),
    "hostile": dict(profile="mirirel", dir="hostile", args=["--features", "may_dangle"], miri="-Zmiri-ignore-leaks"),
}

CONT = ["dense", "s64", "s128", "s256"]
SPARSE = ["s64", "s128", "s256"]
PAIR = ["p_d1", "p_d3", "p_d6", "p_w128", "p_w256", "p_w256x3", "p_gh"]
MULTI = ["m_d1", "m_d3", "m_d5", "m_w128", "m_w256", "m_w256x2", "m_gh"]
MAT = ["t_d1", "t_d2", "t_d3", "t_d6", "t_d9", "t_gh"]
MATALL = ["t_d%d" % d for d in range(1, 10)] + ["t_gh"]
KINDS = ["k_d3"]
THREADS = ["r_d1", "r_d3", "r_d6", "r_w128", "r_w256"]
ZOO = ["z_d1", "z_d2", "z_d3", "z_d5", "z_d8", "z_w128", "z_w128x4", "z_w256", "z_w256x2", "z_w256x3", "z_gh", "z_w256gh"]

def job(variant, b, only, worker=0, workers=1, ms=4000, args=(), timeout=None):
    return dict(variant=variant, bin=b, only=only, worker=worker, workers=workers, ms=ms, args=list(args),
                timeout=timeout or ms / 1000 * 8 + 120)

def spread(sel, ms, variant="chk", args=()):
    """sel: list of (bin, only, workers)"""
    return [job(variant, b, only, w, n, ms, args) for b, only, n in sel for w in range(n)]

# Quick tier: beside the build with assertions, a part of the workload with other cases in these builds.
SIDE = {"rel": {"dense", "s64", "s256", "z_d3", "z_w256x2", "p_d3", "p_w256x3", "m_d3", "m_w256x2", "t_d3", "lazyown", "k_d3"},
        "bmi": {"dense", "s64", "z_d3", "p_d3", "t_d3"}}
CPU_NEEDS = {"bmi": {"bmi1", "bmi2", "avx", "avx2", "popcnt", "abm"}, "popcnt": {"popcnt", "sse4_1"}}
def cpu_flags():
    try: return set(next(l for l in open("/proc/cpuinfo") if l.startswith("flags")).split(":")[1].split())
    except (OSError, StopIteration): return set()
CPU = cpu_flags()
def runs_here(v): return CPU_NEEDS.get(v, set()) <= CPU
def side(sel, ms=2500):
    return [dict(job(v, b, only, 0, 1, ms), seed_off=(i + 1) * 1000) for i, v in enumerate(SIDE) if runs_here(v) for b, only, n in sel if b in SIDE[v]]

def plan(sel, total_s=9.0, slots=8, thorough_s=420, rel=True, asan=True):
    """quick: about total_s of wall time over the slots, and the other builds; thorough: the same workloads, deeper, in three builds."""
    n = sum(x[2] for x in sel)
    def q(): return spread(sel, max(2000, int(total_s * 1000 * slots / n))) + side(sel)
    def t():
        out = []
        k = 1 + bool(rel) + bool(asan)
        ms = int(thorough_s * 1000 * slots / n / k)
        for v in ["chk"] + (["rel"] if rel else []) + (["asan"] if asan else []):
            out += spread(sel, ms, v, ["--mult", "300" if v != "asan" else "100"])
        return out + [dict(j, args=["--mult", "300"]) for j in side(sel, ms // 2) if j["variant"] == "bmi"]
    return q, t

PLAN = {}
def prop(pid, sel, rule, assumptions=(), level="exploration", must=(), q=None, t=None, **kw):
    extra = {k: kw.pop(k) for k in ("probes", "compare", "ub_only", "hostile", "slots", "controls") if k in kw}
    pq, pt = plan(sel, **kw)
    PLAN[pid] = dict(quick=q or pq, thorough=t or pt, rule=rule, level=level, must_observe=list(must),
                     assumptions=list(assumptions) + COMMON, **extra)
COMMON = ["executions only: nothing is said about inputs, histories and builds that the run did not produce",
          "x86_64 Linux, the installed nightly toolchain"]

def z(prefix, n=1): return [(b, prefix, n) for b in ZOO]

HISTORY = ("random histories over structured index universes (complete nodes, borders of every level and word, uniform, runs, "
           "shared prefixes), phases of growth, churn, shrinking, filling and draining, all depths; ")

prop("C01", [("dense", "map_,huge_map", 8)], HISTORY + "every return value is compared with an ordinary map, and after each phase the complete contents, trees beyond 2^20 elements (thorough: 2^24) included; "
     "a state counts once per distinct set of stored indices, empty ones not at all")
prop("C02", [("s64", "map_,huge_map", 3), ("s128", "map_,huge_map", 2), ("s256", "map_,huge_map", 3)], HISTORY + "every return value is compared with an ordinary map, "
     "after each phase the complete contents, trees beyond 2^20 elements (thorough: 2^24) and 2^16 nodes included; a state counts once per distinct set of stored indices and configuration, empty ones not at all")
prop("C03", [(b, "iter_,huge_iter", 1) for b in CONT] + z("iter_"), HISTORY + "and lazy expressions over such trees; complete ordinary and lending iterations, "
     "several iterators advanced in turns (next, nth, fold, count, last, abandoned), compared with the ordered model; a state counts once per distinct non-empty contents and expression")
prop("C04", [(b, "kv_,huge_kv", 2) for b in CONT], HISTORY + "both slices compared with the model after every operation, "
     "writes and swaps through the mutable slice read back through every other interface; a state counts once per distinct non-empty contents")
def c05_quick():
    return (spread([(b, "range_", 1) for b in CONT] + z("range_"), 3500) +
            spread([(b, "range_", 1) for b in CONT + ["z_d3", "z_w256"]], 2500, "rel"))  # no debug assertions in this build
prop("C05", [(b, "range_", 1) for b in CONT] + z("range_"), q=c05_quick, rule= HISTORY + "every index-taking operation at the edges inside and outside of the range (powers of two above it, aliases of stored "
     "indices, usize::MAX), then contents, masks and further operations compared with the model; a state counts once per distinct non-empty contents")
RELATED = ("operands of equal and different kinds with related index sets (equal, disjoint, sharing nodes but no indices, nested, empty, partial, filled), built by histories that include removals; "
           "every access path (get, get_unchecked, get_or_default where offered, iteration, lending iteration, cursor with reselection) and every form (by value, by reference, ")
NONEMPTY = "; a state counts once per distinct non-empty result and form"
def pm(bins, prefix, n=1): return [(b, prefix, n) for b in bins]
prop("C06", pm(PAIR + KINDS, "inter_"), RELATED + "operands swapped, nested in itself) against the set intersection with both values" + NONEMPTY)
prop("C07", pm(PAIR + KINDS, "union_"), RELATED + "operands swapped, nested in itself) against the set union with the present values" + NONEMPTY)
prop("C08", pm(MULTI + KINDS, "minter_"), RELATED + "slices, vectors, filtered and chained iterators) over 0 to 32 operands, repeated ones included, values compared in operand order" + NONEMPTY)
prop("C09", pm(MULTI + KINDS, "munion_"), RELATED + "slices, vectors, filtered and chained iterators) over 0 to 32 operands, repeated ones included, values compared in operand order" + NONEMPTY)
prop("C10", pm(PAIR + KINDS, "mapf_"), RELATED + "map and map_ref, closures and function objects), with functions that log every call and its argument" + NONEMPTY)
prop("C11", pm(MULTI + KINDS, "foldf_"), RELATED + "over multi_intersection and multi_union), non-commutative folds that keep the order, initial values that log their creation" + NONEMPTY)
def mat_thorough(prefix):
    def t():
        sel = pm(MATALL + (KINDS if "mat_," in prefix else []), prefix)
        return spread(sel, 150000, "chk", ["--mult", "300"]) + spread(sel, 100000, "rel", ["--mult", "300"]) + spread(sel, 150000, "asan", ["--mult", "100"])
    return t
prop("C13", pm(MAT + KINDS, "mat_,huge_mat"), rule="lazy expressions of every kind and nesting, over every depth 1 to 9, with complete, partial, empty and seemingly non-empty nodes, results larger than u16 indices; "
     "the materialized tree compared with the expression's model through every interface, operands compared before and after" + NONEMPTY, t=mat_thorough("mat_,huge_mat"))
prop("C14", pm(MAT, "mord_"), rule="materialized trees used as ordinary trees: histories of insertions and removals judged by the map model, node structure and masks exact, ownership ledger, memory bound and release, "
     "iteration, cursors and key_values; a state counts once per distinct non-empty contents", t=mat_thorough("mord_"))
prop("C12", z("zoo_all") + pm(MULTI, "zoo_bare"), "22 nested expressions over operands with related index sets (equal, disjoint, sharing nodes but no indices, empty, partial) built by histories "
     "that include removals; get, get_unchecked, iteration, lending iteration and cursor against the same expression over ordinary maps; counted once per distinct non-empty result and expression")
prop("C15", [(b, "cur_", 1) for b in CONT] + z("cur_"), HISTORY + "and lazy expressions; random walks of cursors with reselection from any level, of missing children too, checked and unchecked, "
     "several cursors at once, masks and data against the model; counted once per distinct non-empty contents")
prop("C16", [(b, "mask_", 1) for b in CONT] + z("mask_"), HISTORY + "and lazy expressions; complete walks over the masks after operations, compared with the exact node structure (exact trees) or for inclusion, "
     "and with the masks of a tree of the same contents and another history; counted once per distinct non-empty contents")
prop("C17", [("dense", "own_", 2), ("s64", "own_", 2), ("s128", "own_", 2), ("s256", "own_", 2)] + pm(MAT, "mord_own") + [("lazyown", "own_lazy", 1)], HISTORY + "and operations that own and consume trees, with values that keep a ledger of construction and drop; after each operation exactly the values that "
     "the model holds, the caller holds, and the one default are alive; counted once per distinct non-empty contents", must=())
prop("C18", [(b, "panic_", 1) for b in CONT] + z("panic_") + pm(MAT + MULTI, "panic_"), "a panic at the n-th call of user code (Default, Drop, map and fold functions, operand iterators, operand trees of the user's own) for n over all reachable values, in every kind of operation; afterwards ledger, contents, "
     "masks, further operations and destruction are judged; counted once per distinct contents, operation and point of failure", level="fault_enumeration", must=["panics_injected"])
prop("C20", [(b, "mem_", 1) for b in CONT] + z("mem_") + pm(MAT, "mord_mem"), HISTORY + "under a counting allocator: nothing left after drop, DenseTree bounded by its contents, repeated cycles on a plateau; counted once per distinct contents measured")
prop("C24", [("s64", "dflt_", 3), ("s128", "dflt_", 2), ("s256", "dflt_", 3)], HISTORY + "on trees with required defaults: get_or_default at members, near misses and anywhere, for values with distinguishable defaults; counted once per distinct contents")
prop("C27", z("lazy_") + [("lazyown", "own_lazy", 2)], "22 nested expressions with logging user functions; building, iterator and cursor creation and node selection call nothing, operands compared (contents, order, addresses) before and after use; "
     "every delivered reference compared with the address get on the operand gives, kept beyond the iterator, and read again; operations that own, borrow and materialize operands of values with a ledger, which must live exactly as long as their owner; "
     "operand iterators and functions that log being run while operations are built; counted once per distinct non-empty result and expression",
     must=["addresses_compared", "references_kept", "built_and_dropped", "operations_dropped", "materialized"])
prop("C28", [(b, "work_each,work_zoo,work_mat", 2) for b in ("work_d2", "work_d4", "work_d6", "work_w256x3")],
     "22 nested expressions and each operation by itself over 1 to 32 operands that count how often they are asked for nodes and elements; sets of very different sizes that share all, some or no nodes; "
     "the counts compared with the nodes and elements that the expression has according to set algebra over the prefixes of the indices; complete, abandoned, lending iteration, get, cursor paths, materialize; counted once per distinct contents and expression", asan=False,
     must=["evaluations_metered", "operands_metered", "materializations_metered"])
prop("C29", [(b, "work_size", 2) for b in CONT] + [("t_d4", "work_mat", 2), ("t_d6", "work_mat", 2)], "trees of up to 2^20 elements in every width, depths 3 to 6, and materialized ones, indices adjacent, spread or descending; 15 kinds of operations, each 2000 times at scattered elements: CPU time of the thread "
     "(limit: some forty times what is usual, a small part of what a pass over the elements takes) and bytes requested; whole iterations and drains; counted once per distinct size, arrangement and configuration", asan=False,
     must=["operations_timed", "elements_in_timed_trees"])

def small(sel, ms=6000, extra=()):
    """programs that build and run fast: several builds already in the quick tier"""
    vs = ["chk", "rel"] + list(extra)
    q = lambda: [j for v in vs for j in spread(sel, ms, v)]
    t = lambda: [j for v in vs + ["asan", "nosimd", "bmi", "dbg"] for j in spread(sel, 100000, v, ["--mult", "300"])]
    return dict(q=q, t=t)
prop("C22", [], rule="patterns of whole, empty, single and bordering bits and words in blocks of 64, 128 and 256 bits; every operation against a list of bools after every step; "
     "all positions from the empty and the full block; a state counts once per distinct non-empty pattern (pair of patterns)", **small([("bits", "block_", 4)], 3000, [v for v in ("nosimd", "bmi") if runs_here(v)]))
prop("C23", [], rule="queues of 8 to 256 bits over one to eight words of every primitive; interleavings of next, trim_to, traverse with stops, for_each, fold, nth, clone and current against a sorted list; "
     "all pairs of pops and trims, all 16-bit patterns; a state counts once per distinct history and remaining bits", **small([("bits", "queue_", 4)], 3000, [v for v in ("nosimd", "bmi") if runs_here(v)]))
prop("C25", [], rule="all bounds 0 <= from <= to <= 9 with all break positions and both directions, all integers, all array sizes with elements that keep a ledger, zero-sized, large and heap-allocated ones, "
     "conditional values of nine pairs of types, owned and borrowed values of six types through Take, random operands of the five primitives; each combination counts once", **small([("consts", "const_", 2)], 2500, ["dbg"]))

RACE = ("tsan", "race", r"ThreadSanitizer: data race")
def c21_quick():
    return spread([("bounds", "thr_", 1)], 100) + spread(pm(THREADS, "thr_"), 14000, "tsan") + spread([("r_d3", "thr_", 1), ("r_w256", "thr_", 1)], 5000, "rel")
def c21_thorough():
    sel = pm(THREADS, "thr_", 2)
    return (spread([("bounds", "thr_", 1)], 100) + spread(sel, 250000, "tsan", ["--mult", "300"]) + spread(pm(THREADS, "thr_"), 60000, "rel", ["--mult", "300"]) +
            spread(pm(THREADS, "thr_"), 60000, "asan") +
            [dict(job("miri", b, "thr_", w, 8, 240000, ["--mult", "0"], timeout=900), miriflags=f" -Zmiri-seed={w}") for b in ["r_d1", "r_d3", "r_w256"] for w in range(8)])
prop("C21", [], q=c21_quick, t=c21_thorough, slots=6, controls=[RACE],
     probes=[("tsan", "r_d1", ["E0277"], "sharing trees between threads", "cannot be (sent|shared) between threads safely")],
     must=["operations_overlapping_another_thread", "trees_handed_over", "additions"],
     rule="two to four threads, started together, with yields and pauses between operations: readers of shared trees and of shared lazy trees, expressions per thread, owners of other trees beside readers, "
     "trees handed round, atomic counters as values; every read compared with the model in its thread, counters compared with what the threads added, under the race detector (no synchronisation between "
     "readers: tickets are relaxed); a state counts once per distinct interleaving of the operations (order of their starts and ends over the threads)")

# ---- C26: the same cases in every build
CORE = ["dense", "s64", "z_d3", "t_d2", "bits"]
C26 = {
    "chk": CORE + ["s256", "p_d3", "m_w256x2", "z_w128x4", "consts"],
    "rel": CORE + ["s256", "p_d3", "m_w256x2", "z_w128x4", "consts"],
    "bmi": CORE + ["s256", "p_d3", "m_w256x2"],
    "nosimd": CORE + ["p_d3"],
    "popcnt": ["dense", "s256", "bits", "t_d2"],
    "dbg": ["dense", "s64", "z_d3", "bits", "consts"],
    "dangle": ["dense", "s64", "t_d2"],
}
C26_ALL = CONT + ZOO + PAIR + MULTI + MATALL + KINDS + ["bits", "consts", "lazyown"]
WIDE = {"s128", "s256"} | {b for b in ZOO + PAIR + MULTI if "_w" in b}
SCEN = "map_,iter_,kv_,range_,cur_,mask_,own_,panic_,dflt_,inter_,union_,mapf_,minter_,munion_,foldf_,mat_,mord_m,mord_o,zoo_,lazy_,block_,queue_,const_"
def builds(): return [v for v in C26 if runs_here(v)]
def c26_quick():
    out = []
    for v in builds():
        for b in C26[v]:
            m = 60 if b in CONT else 250
            if v == "dbg": m = m // 3
            out.append(job(v, b, SCEN, 0, 1, 0, ["--digest", "--hard-ms", "600000", "--mult", str(m)], timeout=300))
    return out + spread([("dangling", None, 1)], 300, "dangle")
def c26_thorough():
    out = []
    for v in builds():
        for b in C26_ALL:
            if v == "nosimd" and b in WIDE: continue
            m = 1500 if b in CONT else 6000
            if v == "dbg": m = m // 5
            for w in range(2): out.append(job(v, b, SCEN, w, 2, 0, ["--digest", "--hard-ms", "3600000", "--mult", str(m)], timeout=3000))
    return out + spread([("dangling", None, 1)], 5000, "dangle")
prop("C26", [], q=c26_quick, t=c26_thorough, compare=True,
     probes=[("dangle", "dangling", ["E0597"], "with the may_dangle feature, a container of references that end before it", "does not live long enough")],
     rule="the same cases, operation by operation, in up to seven builds (assertions, release, debug, without simd, with BMI and AVX2, with popcnt, with may_dangle); digests of every logged operation, result and "
     "counter compared between the builds; a state counts once per distinct state of the underlying scenarios")

# ---- C19: everything above under the sanitizers
UB = ["--ub-only"]
def mj(b, only, w, variant="miri", sec=180): return job(variant, b, only, w, 8, 0, UB + ["--mult", "0", "--hard-ms", str(sec * 1000)], timeout=sec * 4)
C19_MIRI = [
    ("dense", "map_history,map_values,cur_,own_history,panic_history", 1), ("dense", "iter_history,iter_values,range_history,mask_history,map_sweep", 2), ("dense", "kv_values,range_values,own_zst,map_history", 3),
    ("s64", "map_history,map_values,own_history,panic_history,cur_values,iter_history", 1), ("s64", "dflt_reuse,kv_history,iter_values,range_history", 2), ("s64", "dflt_tracked,mask_history", 3),
    ("s128", "map_history,map_values,own_history,panic_history,iter_history", 1), ("s128", "cur_history,range_values,dflt_reuse", 2),
    ("s256", "map_history,map_values,iter_history,own_history,dflt_reuse,own_zst", 1), ("s256", "cur_history,panic_history,range_history", 2),
    ("z_d3", "zoo_all,cur_,lazy_,iter_,panic_,range_", 1), ("z_d1", "zoo_all,cur_,iter_", 2), ("z_w256x2", "zoo_all,cur_,iter_,mask_", 3),
    ("p_d3", "inter_forms,union_forms,mapf_forms", 1), ("p_w256x3", "inter_forms,union_forms,mapf_forms", 2),
    ("m_d3", None, 1), ("m_w256x2", None, 2),
    ("t_d1", "mat_zoo,mat_hollow,mat_plain,panic_,mord_own", 1), ("t_d2", "mat_zoo,mat_hollow,mat_plain,panic_,mord_own", 2), ("t_d3", "mat_zoo,mat_hollow,mat_plain,panic_", 3),
    ("k_d3", "inter_,union_,minter_,munion_", 1), ("k_d3", "mapf_,foldf_,mat_", 2), ("z_gh", "zoo_all,cur_,iter_", 1), ("t_gh", "mat_zoo,mat_hollow,mat_plain", 2),
    ("lazyown", None, 1), ("bits", None, 1), ("consts", "const_ints,const_unwind,const_cond,const_split,const_take", 1),
]
C19_TREE = [("dense", "map_history,map_values,cur_,own_history,panic_history", 4), ("s256", "map_history,own_history,panic_history", 3), ("s64", "map_history,own_history,dflt_reuse", 5),
            ("t_d2", "mat_zoo,mat_hollow,mat_plain,panic_mat", 5), ("z_d2", "zoo_all,cur_", 4), ("p_d1", "inter_forms,union_forms,mapf_forms", 3), ("m_d1", None, 3), ("bits", "block_history,queue_array,queue_prim,queue_block", 2),
            ("consts", "const_unwind,const_cond,const_split,const_take", 2)]
C19_ASAN = ["dense", "s64", "s256", "z_d3", "z_w256x2", "p_d3", "m_d3", "t_d1", "t_d3", "bits", "consts", "lazyown", "k_d3"]
# blocks guarded by the harness's own allocator: layouts, and far more executions than a sanitizer manages
C19_NATIVE = ["dense", "s64", "s128", "s256", "z_d3", "z_w256x2", "p_d3", "m_d3", "t_d1", "t_d3", "lazyown", "k_d3"]
def c19_quick():
    return ([mj(b, o, w) for b, o, w in C19_MIRI] + [mj(b, o, w, "miritree") for b, o, w in C19_TREE] +
            [job("asanub", b, None, 0, 1, 4000, UB + ["--mult", "30"]) for b in C19_ASAN] +
            [job("rel", b, None, 3, 8, 3000, UB + ["--mult", "20"]) for b in C19_NATIVE] + [job("rel", "starve", None, w, 2, 3000, UB) for w in range(2)])
C19_EVERY = CONT + ZOO + PAIR + MULTI + MATALL + KINDS + ["bits", "consts", "lazyown"]
def c19_thorough():
    out = []
    for b in C19_EVERY:
        for w in range(8): out.append(dict(job("miri", b, None, w, 8, 0, UB + ["--mult", "0", "--hard-ms", "500000"], timeout=2400), miriflags=f" -Zmiri-seed={w}"))
        for w in (1, 6): out.append(job("miritree", b, None, w, 8, 0, UB + ["--mult", "0", "--hard-ms", "500000"], timeout=2400))
        out.append(job("asanub", b, None, 0, 1, 60000, UB + ["--mult", "100"]))
        out.append(job("rel", b, None, 1, 2, 30000, UB + ["--mult", "100"]))
    for v in ("rel", "chk"):
        for w in range(4): out.append(job(v, "starve", None, w, 4, 60000, UB))
    return out
prop("C19", [], q=c19_quick, t=c19_thorough, ub_only=True, hostile=True, must=["allocations_failed"],
     controls=[("asanub", "overflow", "heap-buffer-overflow"), ("asanub", "freed", "heap-use-after-free"), ("asanub", "precondition", "unsafe precondition.* violated"),
               ("rel", "layout", "another layout"), ("rel", "tail", "past the end"), ("miri", "layout", "Undefined Behavior"),
               ("miri", "alias", "Undefined Behavior"), ("miri", "overflow", "Undefined Behavior"), ("miritree", "alias", "Undefined Behavior")],
     rule="the workloads of all other properties, injected panics included, under Miri (stacked borrows with strict provenance, tree borrows), AddressSanitizer and the precondition checks of std, with the crate's own assertions off; "
     "safe programs written to reach a dangling, aliased or shared value, which run under Miri if the compiler accepts them; and processes in which one allocation fails, each of which must go on rightly or end in handle_alloc_error; a state counts once per distinct state of the underlying scenarios")

def setup_jobs():
    """Everything the quick checks build, so that checks only rebuild what a change affects."""
    need = {}
    for p in PLAN.values():
        for j in p["quick"](): need.setdefault(j["variant"], set()).add(j["bin"])
        for v, b, *_ in p.get("probes", []): need.setdefault(v, set()).add(b)
        for v, *_ in p.get("controls", []): need.setdefault(v, set()).add("control")
    return [(v, sorted(b)) for v, b in need.items()]

TECH = {
    "C19": ("sanitizers: Miri under both aliasing models, AddressSanitizer and precondition checks over the workloads of all properties; hostile safe programs",
            "Held on the executions of the run; Miri's runs are small (tens of operations per case), AddressSanitizer's are large but see no aliasing or uninitialized memory. Leaks are left to C17 and C20."),
    "C26": ("runtime monitoring: transcripts of the same workload recorded in every build and compared",
            "Held on the cases of the run, whose digests agreed in all builds; builds that this machine cannot execute are left out and named by their absence in cases_per_build."),
    "C21": ("runtime monitoring: ThreadSanitizer over concurrent readers, values judged by a model in every thread, conservation of shared counters",
            "Held on the schedules of the run; the race detector reports unordered conflicting accesses of the executed paths whether or not they collide in time. Thorough adds Miri's race detector with several schedules."),
    "*": ("runtime monitoring: random histories judged online by an executable model",
          "Held on the executions of the run, whose numbers and distinct states are in the evidence; trusts the model (ordinary maps) and the harness. No statement about inputs that were not run."),
    "C17": ("runtime monitoring: ledger of construction and drop kept by the values, judged after every operation",
            "Held on the executions of the run; every value carries an identity, so a lost, early or double drop is seen at the operation that causes it."),
    "C18": ("runtime monitoring with fault injection: panics at the n-th call of user code, ledger and model judged afterwards",
            "Held on the injected points of failure (all n reachable by the workload's operations are drawn at random); leaks of memory after a panic are judged only for containers and values."),
    "C28": ("runtime monitoring: operands that count every access, compared with what set algebra over the node paths allows",
            "Held on the evaluations of the run; the bound leaves a factor of two and a half and a constant, so constant overheads below that are not seen."),
    "C29": ("runtime monitoring: CPU time of the thread and bytes requested, on trees of up to 2^20 elements",
            "Held on the operations of the run. A limit in CPU time sees linear behaviour at 10^6 elements, not slower growth such as a logarithm or a constant factor."),
    "C20": ("runtime monitoring: counting allocator compared with the contents after every phase",
            "Held on the histories of the run; measures bytes and blocks of the whole process, so any leak of the measured part shows."),
}
