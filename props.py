import os
BUILD_MODES = {
    # library and harness code, instrumented; linked against sim/simrt.cpp instead of the TSan runtime
    "sim": ["-O1", "-g1", "-fsanitize=thread", "-fsized-deallocation", "-femulated-tls", "-fno-omit-frame-pointer"],
}


def isa(i):
    """every second configuration is compiled for the baseline instruction set: seq has other code there (SSE3, BMI2, count of leading zeros)"""
    return "sim+base" if i % 2 else "sim"


CM = ["low", "low_shared", "throwing_move", "set", "medium_pod", "none", "set_shared", "low_pod"]
CMAP_SRC = [("harness/cmap_cfg.cpp", isa(i), ["-DCFG=%d" % i]) for i in range(1, 11)] + ["harness/cmap.cpp", "harness/common.cpp"]


def cm(*profiles):
    return ["%s_%s" % (p, c) for c in CM for p in profiles]


CM_RULE = ("Each run draws a table configuration (map/set, shards, lock type, throwing moves), hash and shard spread, initial size around a growth threshold, "
           "1-4 tasks of 2-30 operations on a few hot keys, prefilled keys and fresh keys, and the failures to inject. ")
PAR = ["-DCMAP_PAR", "-D_GLIBCXX_USE_TBB_PAR_BACKEND=0", "-include", os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/par_backend.hpp")]
SEQC = ["devector", "devector_throwing_move", "devector_relocatable", "devector_long", "tiered", "tiered_throwing_move", "tiered_relocatable", "tiered_long", "tiered_fixed",
        "devector_throwing_construction", "devector_throwing_assignment", "tiered_throwing_construction", "tiered_fixed_throwing_assignment", "devector_over_aligned", "tiered_over_aligned"]
PROPS = {
    "C01": {"sources": CMAP_SRC, "scenarios": cm("keys") + ["bulk_low", "live_low_shared", "live_medium_pod"], "quick_s": 40, "rule": CM_RULE},
    "C02": {"sources": CMAP_SRC, "scenarios": cm("visits") + ["bulk_low_shared", "live_low"], "quick_s": 40, "rule": CM_RULE},
    "C03": {"sources": CMAP_SRC, "scenarios": cm("bulk"), "quick_s": 40, "rule": CM_RULE},
    "C04": {"sources": CMAP_SRC, "scenarios": cm("live") + ["faults_low", "faults_low_shared", "faults_throwing_move", "bulk_low"], "quick_s": 40, "rule": CM_RULE},
    "C05": {"sources": CMAP_SRC, "scenarios": cm("faults", "seqf") + ["faults_throwing_construction", "seqf_throwing_construction", "faults_over_aligned", "seqf_over_aligned"], "quick_s": 50, "rule": CM_RULE},
    "C06": {"sources": CMAP_SRC, "scenarios": cm("all") + ["all_throwing_construction", "all_over_aligned"], "quick_s": 40, "rule": CM_RULE},
    "C08": {
        "sources": [("harness/cmap_cfg.cpp", "sim", PAR + ["-DCFG=%d" % i]) for i in range(2, 7)] + [("harness/cmap.cpp", "sim", PAR), "harness/common.cpp"],
        "scenarios": ["par_low_shared", "par_throwing_move", "par_set", "par_medium_pod", "par_none"], "quick_s": 35,
        "rule": CM_RULE + "Half of the operations take std::execution::par, whose iterations run on up to 3 simulated tasks. ",
        "stub": "heap, pthread, clocks as for every check; the parallel backend of libstdc++'s execution policies is replaced by one that runs chunks on simulated tasks",
    },
    "C12": {
        "sources": [("harness/seqc_cfg.cpp", isa(i), ["-DCFG=%d" % i]) for i in range(1, 16)] + ["harness/seqc.cpp", "harness/common.cpp"],
        "scenarios": SEQC, "quick_s": 40,
        "rule": "Each run draws two containers of one type (element type: nothrow-move, throwing-move, relocatable owner of memory, trivial), initial contents around bucket and capacity limits, up to 40 operations and the failures to inject. ",
    },
    "C07": {
        "sources": ["harness/locks.cpp"],
        "scenarios": ["locks"],
        "quick_s": 25,
        "rule": "Each run draws a lock type, 2-6 tasks and their lock/try/timed/shared/unique operations with hold times.",
    },
}

FLATS = ["flat_set", "flat_map_throwing_move", "flat_multimap", "flat_multiset_relocatable", "flat_set_string", "flat_map_long", "flat_set_throwing_construction", "flat_map_throwing_assignment", "flat_map_transparent", "flat_multiset_transparent"]
ORDS = ["ordered_set", "ordered_map", "ordered_map_throwing_move", "ordered_map_long", "ordered_set_throwing_construction", "ordered_set_over_aligned", "ordered_map_transparent", "ordered_set_transparent"]
RADS = ["radix_set_string", "radix_map_long", "radix_map_string_throwing_move", "radix_set_extract", "radix_hash_set", "radix_hash_map_throwing_move",
        "radix_map_throwing_assignment", "radix_hash_set_throwing_construction", "radix_set_double", "radix_map_short", "radix_set_wstring",
        "radix_set_vector_u64", "radix_set_vector_int", "radix_set_array_short", "radix_map_tuple_short_byte", "radix_set_tuple_double_int",
        "radix_set_pointer", "radix_set_tuple_float_int", "radix_set_u16string", "radix_set_byte", "radix_set_vector_float", "radix_map_over_aligned", "radix_hash_set_over_aligned"]
ASSOC_RULE = "Each run draws two containers of one type, their comparator or hash state, initial contents, a key universe of 6 to 3000 keys, up to 250 operations and the failures to inject. "


def assoc(lo, names):
    return {"sources": [("harness/assoc_cfg.cpp", isa(i), ["-DCFG=%d" % (lo + i)]) for i in range(len(names))] + ["harness/assoc.cpp", "harness/common.cpp"],
            "scenarios": names, "quick_s": 40, "rule": ASSOC_RULE}


PROPS["C14"] = assoc(1, FLATS)
PROPS["C15"] = assoc(11, ORDS)
PROPS["C16"] = assoc(21, RADS)
PROPS["C16"]["quick_s"] = 65  # more scenarios than the others
SEQN = ["sequence", "sequence_throwing_move", "sequence_relocatable_aligned", "sequence_long", "sequence_propagating_allocator", "sequence_allocator",
        "sequence_throwing_construction", "sequence_throwing_assignment", "sequence_over_aligned"]
PROPS["C13"] = {
    "sources": [("harness/seqn_cfg.cpp", isa(i), ["-DCFG=%d" % i]) for i in range(1, 10)] + ["harness/seqn.cpp", "harness/common.cpp"],
    "scenarios": SEQN, "quick_s": 40,
    "rule": "Each run draws two sequences (element type, allocator identity), initial contents around multiples of 64 pushed at either end, up to 60 operations and the failures to inject. ",
}
PROPS["C17"] = {
    "sources": [("harness/strc_cfg.cpp", isa(i), ["-DCFG=%d" % i]) for i in range(1, 6)] + ["harness/strc.cpp", "harness/common.cpp"],
    "scenarios": ["tstring", "string28_allocator", "string_propagating_allocator", "wtstring", "string118"], "quick_s": 35,
    "rule": "Each run draws two strings (character type, inline capacity, allocator identity), initial texts around the inline and growth limits, up to 50 operations with arguments from outside or from the strings themselves, and the failures to inject. ",
}
PROPS["C18"] = {
    "sources": [("harness/anyc_cfg.cpp", "sim", ["-DCFG=%d" % i]) for i in range(1, 6)] + ["harness/anyc.cpp", "harness/common.cpp"],
    "scenarios": ["any", "r_any", "any_48", "r_nh_any_48", "nh_any_16"], "quick_s": 35,
    "rule": "Each run draws up to 45 operations on four dynamic values (17 held types: small and large, copyable and move-only, relocatable and not, over-aligned, nested) and the failures to inject. ",
}

PROPS["C19"] = {
    "sources": [("harness/strm_cfg.cpp", "sim", ["-DCFG=%d" % i]) for i in range(1, 8)] + ["harness/strm.cpp", "harness/common.cpp"],
    "scenarios": ["file32", "file1", "istream32", "istream7", "wistream16", "buffer", "buffer16"], "quick_s": 35,
    "rule": "Each run draws a text of up to 40 tokens (numbers, hexadecimal, words, malformed and special values, runs of spaces), the source (buffering, piece size, seekable or not, exceptions), up to 50 operations, and the failures to inject. ",
}
PROPS["C20"] = {
    "sources": [("harness/algo_cfg.cpp", isa(i), ["-DCFG=%d" % i]) for i in range(1, 11)] + ["harness/algo.cpp", "harness/common.cpp"],
    "scenarios": ["algo_vector", "algo_vector_throwing_move", "algo_vector_relocatable", "algo_vector_pod", "algo_deque_throwing_move", "algo_deque_relocatable", "algo_list", "algo_list_pod",
                  "algo_vector_throwing_construction", "algo_deque_throwing_assignment"], "quick_s": 35,
    "rule": "Each run draws up to 8 calls: the algorithm, the container, an input of 0 to 9000 elements of one of 7 patterns, the sub-range and run borders, the buffer (default, medium, small, tiny, none, or the caller's of any size) and the failures to inject. ",
}
SHARE = ["share_" + x for x in "flat_set flat_map_string ordered_set_string ordered_map radix_set_string radix_map radix_hash_set radix_hash_map_string concurrent_map_no_concurrency concurrent_set_string devector_string tiered_vector sequence_string tstring radix_map_tstring any r_any".split()]
PROPS["C09"] = {
    "sources": [("harness/shar_cfg.cpp", isa(i), ["-DCFG=%d" % i]) for i in range(1, 18)] + ["harness/shar.cpp", "harness/common.cpp"],
    "scenarios": SHARE, "quick_s": 40,
    "rule": "Each run draws how a shared instance is built (up to 31 steps, keys of one of 6 shapes), 2 to 4 tasks with up to 12 operations each (reads of the shared instance, operations on the task's own instances, allocation failures) and every interleaving. ",
}
PROPS["C10"] = {
    "sources": [("harness/fmtc_cfg.cpp", "sim", ["-DCFG=%d" % i]) for i in (1, 2)] + ["harness/fmtc.cpp", "harness/common.cpp"],
    "scenarios": ["format_char", "format_wchar"], "quick_s": 35,
    "rule": "Each run draws 1 to 4 tasks of up to 14 operations: what is formatted (24 kinds, with drawn values, alignment, width and fill), where the text goes (11 ways), the failures to inject (allocation, user code, stream), and every interleaving. ",
}
