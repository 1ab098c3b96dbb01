"""What each check runs: harness, parameter vectors per tier, stated bounds."""
def R(a, b):
    return list(range(a, b + 1))

CHECKS = {}

CHECKS["C01"] = dict(
    bounds="all u64 / i64 values; all terminated group sequences of 1..=10 bytes; 0..=3 arbitrary trailing bytes",
    jobs=[
        dict(h="h_uleb_roundtrip", quick=[[0], [1], [3]]),
        dict(h="h_zigzag_roundtrip", quick=[[0], [1], [3]]),
        dict(h="h_uleb_decode_any", quick=[[n] for n in R(1, 10)]),
    ])

def plain(jobs):
    """no expression rewriting: every assertion goes to the solver as built"""
    return [dict(j, plain=True) for j in jobs]

def bp(T, extra):
    return [[w, n] for w in R(1, T) for n in extra]

CHECKS["C02"] = dict(
    bounds="every width 1..=N of u8,u16,u32,u64 with all values; counts 1, N-1, N, N+3, 2N+1 (N = pack length = type width)",
    jobs=plain([
        dict(h="h_roundtrip_u%d" % T, quick=bp(T, [T - 1, 2 * T + 1]), thorough=bp(T, [1, T, T + 3, 3 * T + 5])) for T in (8, 16, 32, 64)
    ] + [
        dict(h="h_pack_u%d" % T, quick=bp(T, [T]), thorough=bp(T, [1, T // 2, T - 1])) for T in (8, 16, 32, 64)
    ] + [
        dict(h="h_unpack_u%d" % T, quick=[[w, T + 3, 0] for w in R(1, T)], thorough=[[w, n, e] for w in R(1, T) for n in (1, T - 1, T, 2 * T + 1) for e in (0, 5)]) for T in (8, 16, 32, 64)
    ]))

CHECKS["C03"] = dict(
    bounds="all widths 0..=32 (0 = all values zero), all values; lengths 0,1,7,8,9,31,32,33,65 (quick: subset); booleans up to 40; bitmaps at offsets 0..=17",
    jobs=plain([
        dict(h="h_rle_roundtrip", quick=[[w, n] for w in R(0, 32) for n in (3, 7, 15, 31, 33, 63)] + [[w, n] for w in (1, 3, 8, 12) for n in (0, 1, 7, 8, 9, 31, 32, 65)],
             thorough=[[w, n] for w in R(0, 32) for n in (0, 1, 7, 8, 9, 31, 32, 64, 65, 100, 520)]),
        dict(h="h_bool_roundtrip", quick=[[n] for n in R(0, 20) + [40]], thorough=[[n] for n in R(0, 70) + [511, 520]]),
        dict(h="h_bitmap", quick=[[o, n] for o in (0, 1, 7, 8, 9, 15) for n in (0, 1, 7, 8, 9, 17)], thorough=[[o, n] for o in R(0, 17) for n in R(0, 24)]),
    ]))

CHECKS["C04"] = dict(
    bounds="up to 3 runs (4 thorough), each bit-packed of 1, 2 or 5 groups or run-length of 1..=m (m up to 20) with all values; widths 1..=32; any run-length header below 2^31",
    jobs=plain([
        dict(h="h_expand", quick=[[w, 2, 4, 0, 3] for w in R(1, 32)] + [[w, 3, 3, 1, 2] for w in (1, 2, 5, 8, 9, 17)],
             thorough=[[w, 3, 6, t, 9] for w in R(1, 32) for t in (0, 1)] + [[w, 4, 3, 1, 2] for w in (1, 3, 10)]),
        dict(h="h_runs", quick=[[w, 3, 3, 1] for w in R(1, 32)]),
        dict(h="h_long_run", quick=[[w, n] for w in R(1, 32) for n in (1, 5)], thorough=[[w, 40] for w in R(1, 32)]),
    ]))

def lin(jobs, select=1):
    """sums as linear combinations; selects settled against the path condition"""
    return [dict(dict(select=select), linear=True, **j) for j in jobs]

CHECKS["C05"] = dict(
    bounds="sequences of 0, 1 and 2 arbitrary i64; 3 arbitrary 6-bit (thorough 8-, 12-bit) values, also after 126 given ones; n values (n around 1, 2, 128, 129, 256, 257) whose smallest difference per block is one of 10 constants (extremes included) and whose remaining differences are any w-bit numbers, w over 0..=64; 0..2 arbitrary trailing bytes",
    jobs=lin([
        dict(h="h_short", quick=[[0, 0], [0, 2], [1, 0], [1, 2]]),
        dict(h="h_free", quick=[[0, 2, 64, 1], [0, 3, 6, 0], [126, 3, 3, 0]], thorough=[[0, 3, 8, 0], [0, 3, 12, 1], [127, 3, 5, 0], [254, 4, 3, 0], [0, 4, 4, 0]], select=2, time=900, cost=5),
        dict(h="h_pair", quick=[[a, 10, 1] for a in (1, 5, 10)], thorough=[[a, b, 0] for a in R(1, 10) for b in R(1, 10)]),
        dict(h="h_blocks", quick=[[n, w, 0, 0] for w in R(0, 64) for n in (5,)] + [[n, w, m, 1] for n in (33, 128, 129, 130, 257, 258) for w in (0, 1, 7, 63, 64) for m in (0, 3)] + [[130, 20, m, 2] for m in R(0, 9)],
             thorough=[[n, w, m, 1] for n in (3, 129, 130, 257, 300) for w in R(0, 64) for m in R(0, 9)]),
    ]))
CHECKS["C06"] = dict(
    bounds="block sizes 128, 256 (thorough 384, 512, 1024) in 1, 2, 4 (8, 16) mini-blocks; counts around every mini-block and block boundary up to 3 blocks; widths of the mini-blocks run over 0..=64; first value and smallest differences any zig-zag number of 1..10 bytes, packed contents arbitrary; width bytes of absent mini-blocks arbitrary; 0..2 trailing bytes",
    jobs=lin([
        dict(h="h_conformant", quick=[[128, 4, n, w, 10, 1] for n in (2, 33, 34, 130) for w in R(0, 64)]
             + [[bs, m, n, 7, z, t] for bs, m in ((128, 1), (128, 2), (128, 4), (256, 4), (256, 8)) for n in (0, 1, 2, 32, 33, 34, 64, 65, 66, 128, 129, 130, 257, 258) for z, t in ((10, 0), (1, 2))],
             thorough=[[bs, m, n, w, 10, 1] for bs, m in ((128, 1), (128, 2), (128, 4), (256, 2), (384, 4), (512, 16), (1024, 4)) for n in (1, 31, 33, 97, 129, 255, 300, 520) for w in R(0, 64)]),
        ]) + plain([dict(h="h_conformant", quick=[[128, 4, 2, w, 10, 1] for w in R(0, 64)])]))
CHECKS["C07"] = dict(
    bounds="lists of 0..=3 (thorough 4) byte strings, each of any length 0..=3 (4) and any contents; 129, 132 and 258 strings with two free ones across the mini-block and block boundaries; 0..2 arbitrary trailing bytes",
    jobs=lin([
        dict(h="h_delta_length", quick=[[k, 3, t] for k in (0, 1, 2, 3) for t in (0, 2)], thorough=[[4, 4, 1]]),
        dict(h="h_delta_byte_array", quick=[[k, 3, t] for k in (0, 1, 2, 3) for t in (0, 1)], thorough=[[3, 4, 0], [4, 3, 0]]),
        dict(h="h_many", quick=[[132, 40, 3], [129, 127, 2], [258, 127, 2], [258, 255, 2]], thorough=[[300, 254, 4]]),
    ]))

CHECKS["C08"] = dict(
    bounds="every bit pattern of each native type, up to 3 values (thorough 9), both page versions; lists of 0..=3 byte strings of length 0..=3 with any contents, cut at any byte, and any declared length; fixed-length strings of 1..=5, 12, 16 bytes; up to 17 booleans",
    jobs=plain([dict(h=h, quick=[[n, v] for n in (0, 1, 3) for v in (1, 2)], thorough=[[9, 1], [9, 2]]) for h in ("h_i32", "h_i64", "h_f32", "h_f64", "h_int96")]
      + [dict(h="h_fixed", quick=[[k, s, 1 + k % 2] for k in (0, 1, 2, 3) for s in (1, 2, 5, 12, 16)]),
         dict(h="h_byte_array", quick=[[k, 3, t, v] for k in (0, 1, 2, 3) for t, v in ((0, 1), (5, 2))], thorough=[[4, 4, 4, 1]]),
         dict(h="h_cut", quick=[[k, 2] for k in (1, 2, 3)], thorough=[[3, 5]]),
         dict(h="h_length", quick=[[n] for n in (0, 1, 5)]),
         dict(h="h_boolean", quick=[[n, 1 + n % 2] for n in (0, 1, 7, 8, 9, 16, 17)])]))

CHECKS["C09"] = dict(
    bounds="any bytes up to 11 (uleb128, zigzag), 5 (hybrid RLE, widths 0..=40, counts 0..2^64-1), 6 (packed integers: any width, any length; delta packed; 9 with a given header), block sizes, mini-block numbers and counts from lists with their extremes; up to 24 values read of each stream",
    jobs=plain([dict(j, nocheck=True) for j in [
        dict(h="h_uleb", quick=[[n] for n in R(0, 11)]),
        dict(h="h_runs", quick=[[n, w] for n in (0, 1, 2, 3, 4) for w in (0, 1, 8, 9, 32, 40)], thorough=[[n, w] for n in (4, 5) for w in R(0, 40)], cost=2),
        dict(h="h_values", quick=[[n, w, k] for n in (0, 2, 3, 4) for w in (0, 1, 3, 12) for k in (0, 1, 9)] + [[3, w, 2**64 - 1] for w in (0, 1, 7)] + [[4, w, 3] for w in (32, 33, 40, 1000)], thorough=[[n, w, k] for n in (4, 5) for w in (0, 1, 3, 12, 17, 32) for k in (9, 20, 2**63)], cost=2),
        dict(h="h_levels", quick=[[n, k] for n in (0, 2, 3, 4) for k in (0, 1, 9)], thorough=[[5, 20]]),
        dict(h="h_bitpacked_u8", quick=[[n] for n in (0, 1, 3)], thorough=[[8]]),
        dict(h="h_bitpacked_u16", quick=[[n] for n in (0, 1, 3)], thorough=[[6]]),
        dict(h="h_bitpacked_u32", quick=[[n] for n in (0, 1, 4)], thorough=[[9]], cost=3),
        dict(h="h_bitpacked_u64", quick=[[n] for n in (0, 1, 3)], thorough=[[9]], cost=3),
        dict(h="h_bitmap", quick=[[0], [1], [2]], thorough=[[3]]),
        dict(h="h_delta", quick=[[n] for n in R(0, 6)], thorough=[[7], [8]], cost=3),
        dict(h="h_delta_extreme", quick=[[b, m, 3, 3] for b in R(0, 5) for m in R(0, 7)] + [[b, m, k, 3] for b, m in ((1, 1), (3, 4), (5, 7), (0, 1), (2, 5)) for k in (0, 1, 2, 4, 5)], thorough=[[b, m, k, 5] for b in R(0, 5) for m in R(0, 7) for k in R(0, 5)]),
        dict(h="h_delta_length", quick=[[m, k, n] for m in (1, 4) for k in (0, 1, 3) for n in (1, 5, 7)], thorough=[[m, k, n] for m in (1, 4) for k in (2, 3, 5) for n in (8, 10)]),
        dict(h="h_delta_byte_array", quick=[[k, n] for k in (0, 1, 2) for n in (1, 4, 7)], thorough=[[3, 9], [2, 10]]),
        dict(h="h_binary", quick=[[n, k] for n in (0, 3, 4, 5, 9, 13) for k in (0, 1, 3, 99)], thorough=[[25, 7], [25, 99]]),
    ]]))

CHECKS["C10"] = dict(
    bounds="level streams of 1..=2 (thorough 3) runs, each run-length of 1..=4 or bit-packed of 1, 2 or 5 groups (the last possibly cut), all level values, page ending up to 3 positions before the stream; maximum levels 1, 2, 3, 7, 300 and either side of each power of two, the width of levels for every maximum; alignment with values: all presence patterns of 1..=3 runs up to 12 (thorough 20) positions",
    jobs=plain([
        dict(h="h_runs", quick=[[1, 9, 1, 9], [2, 3, 0, 3], [2, 2, 1, 9]], thorough=[[3, 3, 1, 3], [2, 6, 1, 17]]),
        dict(h="h_page", quick=[[r, 2, m, v, p] for r in (1, 2) for m in (1, 2, 3, 7, 300) for v in (1, 2) for p in (0, 1)], thorough=[[3, 2, m, v, 1] for m in (1, 2, 15) for v in (1, 2)]),
        dict(h="h_page", quick=[[1, 2, m, 1 + m % 2, 0] for i in R(2, 14) for m in (2 ** i - 1, 2 ** i)] + [[1, 2, 32767, 1, 1]]),
        dict(h="h_width", quick=[[0]]),
        dict(h="h_aligned", quick=[[1, 0, 5, 12], [1, 1, 3, 7], [2, 0, 4, 12], [2, 1, 3, 12], [2, 2, 3, 12], [3, 0, 3, 12], [2, 3, 1, 12]], thorough=[[3, k, 3, 20] for k in (0, 1, 2, 4, 5)], cost=4),
        dict(h="h_aligned_levels", quick=[[n, m] for n in (0, 1, 6) for m in (2, 3)] + [[5, 5]], thorough=[[9, 3]]),
        dict(h="h_bitmap_tail", quick=[[n] for n in (0, 1, 7, 8, 9)], thorough=[[12]]),
    ]))
CHECKS["C11"] = dict(
    bounds="level streams of 1..=3 runs (run-length of 1..=3 or bit-packed of 8) with all level values; every ordered list of up to 2 (thorough 3) disjoint intervals, touching and (thorough: empty) ones included, of up to 16 positions",
    jobs=plain([
        dict(h="h_filtered", quick=[[1, 0, 5, 2, 1, 5], [1, 1, 1, 2, 0, 8], [2, 0, 3, 2, 0, 6], [2, 0, 3, 2, 1, 4], [2, 1, 2, 2, 0, 8], [2, 2, 2, 2, 0, 8], [2, 3, 1, 1, 0, 16], [3, 0, 2, 2, 0, 6], [2, 1, 1, 3, 0, 7]],
             thorough=[[2, k, 3, 2, 1, n] for k in (0, 1, 2) for n in (8, 10)] + [[3, k, 2, 2, 0, 12] for k in R(0, 7)] + [[2, 3, 1, 2, 0, 12], [2, 1, 2, 3, 0, 9]], cost=5),
        dict(h="h_slice", quick=[[n, k, 1] for n in (0, 1, 5) for k in (0, 1, 2)] + [[6, 3, 0], [9, 2, 0]], thorough=[[8, 3, 1]]),
        dict(h="h_slice_optional", quick=[[n, k] for n in (1, 4) for k in (1, 2)], thorough=[[7, 2], [9, 1]]),
    ]))
CHECKS["C13"] = dict(
    bounds="any body of 0..=12 bytes, any levels, any declared lengths (all u32 in version 1, all i32 and all usize in version 2)",
    jobs=plain([
        dict(h="h_v1", quick=[[n] for n in R(0, 12)], thorough=[[16], [24]]),
        dict(h="h_v2", quick=[[n] for n in R(0, 8)], thorough=[[12], [20]]),
        dict(h="h_page", quick=[[n] for n in R(0, 10)], thorough=[[14]]),
        dict(h="h_length", quick=[[n] for n in R(0, 6)]),
    ]))
def shapes(ns, widths, extra=[]):
    return [[n, m, v, w, r] + extra for n in ns for m in (0, 1, 2, 5) for v in (1, 2) for w in widths for r in ((0,) if m < 2 else (0, 1))]
CHECKS["C12"] = dict(
    bounds="pages of 0..=5 (thorough 10) values of every physical type, required, optional and nested (maximum levels 0, 1, 2, 5, with and without repetition levels), both versions; all levels, all values; dictionary indices of width 0..=32; every encoding with and without a dictionary; any body of up to 6 bytes",
    outside="repetition Repeated at the leaf is decoded by the caller from levels; dictionary pages are decoded by the caller",
    jobs=plain([
        dict(h="h_i32", quick=shapes((0, 1, 3), (0, 2, 9)) + [[3, 1, 1, w, 0] for w in R(1, 33)], thorough=shapes((8, 10), (0, 1, 8, 17, 33))),
        dict(h="h_i64", quick=shapes((0, 4), (0, 3))),
        dict(h="h_int96", quick=shapes((3,), (0, 1))),
        dict(h="h_f32", quick=shapes((3,), (0, 5))),
        dict(h="h_f64", quick=shapes((3,), (0, 32))),
        dict(h="h_binary", quick=shapes((0, 1, 5), (0, 2, 7)), thorough=shapes((9,), (0, 33))),
        dict(h="h_fixed", quick=shapes((0, 1, 4), (0, 4), [1]) + shapes((3,), (0,), [12]), thorough=shapes((9,), (0, 6), [3])),
        dict(h="h_boolean", quick=[x for x in shapes((0, 1, 7, 9), (0,)) if x[0] < 9 or x[1] < 2], thorough=shapes((11,), (0,))),
        dict(h="h_dispatch", quick=[[]]),
        dict(h="h_any", quick=[[n, 1] for n in (0, 1, 4, 6)] + [[n, 2] for n in (0, 1, 3)], thorough=[[7, 1], [4, 2], [5, 2]], cost=4, nocheck=True),
    ]))

CHECKS["C29"] = dict(
    bounds="every schema of up to 4 (thorough 5) nodes in groups up to 3 deep (empty groups included) with every repetition; chains of up to 4 (6) groups; any one-character ASCII names, equal ones included",
    outside="nesting deeper than 6 groups",
    jobs=plain([
        dict(h="h_tree", quick=[[0, 1], [1, 1], [2, 2], [3, 3], [4, 3]], thorough=[[5, 3]], cost=5),
        dict(h="h_chain", quick=[[n] for n in R(0, 4)], thorough=[[6]]),
    ]))
CHECKS["C30"] = dict(
    bounds="round trip: every schema of up to 4 (thorough 5) nodes in groups up to 3 deep; one column of every physical type (fixed lengths to 2^31-1), every legacy and logical annotation, any precision and scale up to 2^31-1, any id, ASCII names; groups with every combination of annotations and any id; stored forms: up to 4 (5) elements with any numbers of children, and one element (or group) with arbitrary type, length, repetition, legacy annotation, precision and scale codes",
    outside="precision, scale or length above 2^31-1 (the format cannot store them); a precision without a scale (refused, the format would take the scale as 0); nesting deeper than 4",
    jobs=plain([
        dict(h="h_tree", quick=[[0, 1], [1, 1], [2, 2], [3, 3], [4, 3]], thorough=[[5, 3]], cost=5),
        dict(h="h_column", quick=[[0, 2], [2, 2], [4, 2], [6, 1], [7, 1], [8, 1], [9, 1]]),
        dict(h="h_annotated", quick=[[k] for k in R(0, 3)], cost=3),
        dict(h="h_children", quick=[[n] for n in R(0, 4)], thorough=[[5]]),
        dict(h="h_element", quick=[[]]), dict(h="h_group", quick=[[]]), dict(h="h_root_column", quick=[[]]),
    ]))
CHECKS["C31"] = dict(
    bounds="every physical type, with fixed lengths 0..13, 15, 16, 17, 20, 31, 32, 64, 100, 127, 128, 129, 1000 for decimals and every length for intervals and UUIDs; every legacy and logical annotation with any precision and scale (all usize); every pair of both annotations on 7 physical types",
    outside="the logical type UNKNOWN (accepted on INT32 only, the format does not restrict it); consistency of the legacy with the logical annotation",
    jobs=plain([dict(h=h, quick=[[]]) for h in ("h_converted", "h_logical", "h_both", "h_lengths")]))
CHECKS["C33"] = dict(
    bounds="none beyond the types: every 32-bit code of each enumeration, with and without any length, precision and scale; every logical type; every compression level of the levels' integer types",
    outside="the integer annotation with a bit width other than 8, 16, 32 or 64 (read as 32 bits signed, as documented)",
    jobs=plain([dict(h=h, quick=[[]]) for h in ("h_repetition", "h_codec", "h_page_type", "h_encoding", "h_boundary_order", "h_group_converted", "h_physical", "h_converted", "h_time_unit", "h_logical", "h_levels", "h_options")]))
CHECKS["C35"] = dict(
    bounds="all values of every native type and all pairs of them; byte strings of 0..=6 (thorough 12) bytes, all contents",
    outside="the order of NaN (it has none)",
    jobs=plain([dict(h=h, quick=[[]]) for h in ("h_native", "h_int96_ns", "h_int96_ord")] + [
        dict(h="h_binary", quick=[[a, b] for a in R(0, 4) for b in R(0, 4)] + [[6, 5]], thorough=[[12, 12], [9, 10]])]))
CHECKS["C36"] = dict(
    bounds="every combination of logical type, legacy type and physical type, with any precision, scale and length; files of up to 3 columns listing 0..=4 orders",
    jobs=plain([dict(h="h_order", quick=[[]]), dict(h="h_metadata", quick=[[n, k] for n in R(1, 3) for k in R(0, 4)])]))

WHOLE = [[s, ng, np, mode, seed, seed % 2] for seed, (s, ng, np, mode) in enumerate(
    [(0, 0, 0, 0), (0, 2, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0), (1, 1, 1, 0), (1, 1, 1, 1), (1, 2, 2, 0), (1, 2, 2, 5), (1, 1, 3, 2), (1, 3, 1, 1),
     (2, 1, 1, 0), (2, 1, 2, 2), (2, 2, 1, 6), (2, 2, 2, 3), (2, 3, 1, 2), (3, 1, 1, 0), (3, 1, 2, 2), (3, 2, 1, 1), (3, 2, 2, 6), (1, 1, 3, 1), (1, 1, 3, 0), (2, 0, 0, 4)])]
WHOLE_T = [[s, ng, np, mode, seed, flip] for s in (1, 2, 3) for ng in (1, 2, 3) for np in (1, 2, 3) for mode in (0, 1, 2, 6) for seed, flip in ((0, 0), (3, 1), (5, 0))]
CHECKS["C14"] = dict(
    bounds="chunks of 1..=3 pages of four kinds (both data page versions, dictionary, empty page) in every order, bodies of 0..=3 arbitrary bytes, arbitrary small counts, any declared number of values up to that of the pages, four filters, three buffers handed over, chunk start by data or dictionary offset; the chunk cut at every byte; compressed and uncompressed sizes, every count, every encoding and the page type with any 32-bit value; statistics of every combination of present fields",
    outside="chunks of more than 3 pages; bodies longer than the page limit of 64 bytes of the size jobs; compressed bodies (C17); read errors of the source (C28)",
    jobs=lin([
        dict(h="h_pages", quick=[[c, 3, c % 4, c // 4 % 2, c % 3, c % 5, c // 8 % 2] for c in range(64)] + [[c, 2, f, 1, f % 3, 1, 0] for c in range(16) for f in range(4)] + [[c, 1, 0, 1, 2, 0, 0] for c in range(4)],
             thorough=[[c, 4, c % 4, 1, c % 3, 0, 0] for c in range(256)] + [[c, 3, f, 1, 0, 0, 1] for c in range(64) for f in range(4)]),
        dict(h="h_cut", quick=[[c, 2] for c in range(16)] + [[c, 1] for c in range(4)], thorough=[[c, 3] for c in range(64)]),
        dict(h="h_sorted", quick=[[k] for k in (0, 1, 2)]),
        dict(h="h_sizes", quick=[[k, f, m, a] for k in (0, 1, 2) for f, m, a in ((0, 64, 3), (1, 64, 3), (2, 32, 5), (0, 8, 0))], thorough=[[k, 2, 100, 70] for k in (0, 1, 2)], cost=2),
        dict(h="h_fields", quick=[[0, f] for f in range(6)] + [[1, f] for f in range(6)] + [[2, f] for f in (0, 4, 5)]),
        dict(h="h_stats", quick=[[s, v] for s in (0, 1, 2, 4, 8, 16, 32, 63, 42) for v in (1, 2)], thorough=[[s, v] for s in range(64) for v in (1, 2)]),
    ]))
CHECKS["C15"] = dict(
    bounds="selection of rows: 1 page with up to 3 intervals, 2 with up to 2 and 3 with 1, of any 16-bit starts and lengths, and 1 page with 2 intervals and 2 pages with 1 with every 64-bit location, number of rows and interval (thorough: one page or interval more); rows of up to 3 pages with every 64-bit location and every selection; reading of up to 3 pages with 0..=2 arbitrary intervals each (pages without rows skipped), with and without dictionary, gaps and bytes before; every start, length, compressed and uncompressed size and page type of an indexed page",
    outside="more than 3 pages; read errors of the source (C28)",
    jobs=lin([
        dict(h="h_select", quick=[[0, 2, 1], [3, 0, 1], [1, 1, 1], [1, 2, 1], [2, 1, 1], [2, 2, 0], [3, 1, 0], [1, 3, 0]], thorough=[[3, 2, 0], [2, 2, 1], [3, 1, 1]], time=800, cost=20),
        dict(h="h_rows", quick=[[k, m] for k in R(0, 3) for m in (0, 1)], thorough=[[4, 0], [4, 1]], cost=2),
        dict(h="h_read", quick=[[k, d, g, p] for k in R(0, 3) for d in (0, 1) for g, p in ((0, 4), (3, 0))]),
        dict(h="h_wrong", quick=[[w, k] for w in R(0, 5) for k in (0, 1)]),
        dict(h="h_header", quick=[[k, f] for k in R(0, 2) for f in R(0, 2)]),
        dict(h="h_both", quick=[[0]]),
    ]))
CHECKS["C32"] = dict(
    bounds="metadata of 0..=2 row groups over schemas of 0, 1, 2 and 3 columns (flat and nested) with small arbitrary counts, texts of up to 3 ASCII bytes and every optional field present or absent (16 combinations); every numeric field and code in turn with any 32- or 64-bit value; columns missing, added or swapped; metadata of 65524..=65541 bytes (the first read is of 65536); every length and every magic number of the footer; files of 0..=11 arbitrary bytes; every declared file size beyond the real one; files of nothing but metadata as written by write_metadata_sidecar",
    outside="more than 2 row groups or 3 columns; equality of the path in a chunk with that of the schema, which the reader does not compare; encrypted files; thrift budgets of metadata with thousands of columns of one-letter names",
    jobs=lin([
        dict(h="h_roundtrip", quick=[[s, g, k, b] for s, g in ((0, 0), (0, 1), (1, 1), (2, 2), (3, 1)) for k, b in ((0, 0), (1, 4), (2, 0), (3, 9), (6, 4), (7, 0), (11, 4), (14, 5))] + [[2, 0, 5, 0]], thorough=[[s, g, k, 4] for s in R(0, 3) for g in R(0, 3) for k in R(0, 15)]),
        dict(h="h_sidecar", quick=[[s, g, k] for s, g in ((0, 0), (1, 1), (2, 2), (3, 1)) for k in (0, 3, 8, 15)], thorough=[[s, g, k] for s in R(0, 3) for g in R(0, 3) for k in R(0, 15)]),
        dict(h="h_field", quick=[[f] for f in R(0, 22)], cost=2),
        dict(h="h_large", quick=[[d, b] for d in R(0, 9) for b in (0, 3)], thorough=[[d, 70000] for d in R(0, 9)]),
        dict(h="h_footer", quick=[[b, w] for b in (4, 5, 20) for w in (0, 1)], thorough=[[b, 2] for b in (4, 6)], cost=2),
        dict(h="h_tiny", quick=[[n] for n in R(0, 11)]),
    ]))
CHECKS["C37"] = dict(
    bounds="five schemas of up to 5 leaves (flat, nested twice, names that are prefixes of one another, repeated at several levels or empty), each of 6 field names and every name of 0..=2 ASCII bytes; up to 2 row groups of chunks of up to 2 pages and a dictionary with arbitrary bytes and small counts, with and without a filter of pages; every combination of row groups kept out of 0..=4; every declared size of a chunk",
    outside="two fields of the same name at the root; more than 5 columns",
    jobs=lin([
        dict(h="h_columns", quick=[[s, f, g, s + f, p] for s in R(0, 4) for f in R(0, 5) for g, p in ((0, 0), (1, 1))], thorough=[[s, f, g, k, p] for s in R(0, 4) for f in R(0, 5) for g in (0, 1, 2) for p in (0, 1) for k in (1, 2, 3)]),
        dict(h="h_name", quick=[[n] for n in R(0, 2)]),
        dict(h="h_read", quick=[[k, s] for k in R(0, 5) for s in (0, 1, 2)]),
        dict(h="h_filter", quick=[[s, g] for s in R(0, 4) for g in R(0, 4)], thorough=[[1, 6]]),
        dict(h="h_short", quick=[[c] for c in R(0, 2)]),
    ]))
CHECKS["C38"] = dict(
    bounds="texts of up to 140 bytes: seven schemas with any ASCII byte in place of, or inserted at, every position and with one byte cut and another replaced (thorough: two inserted, up to four cut), every annotation and type in any mixture of cases, numbers of up to five arbitrary digits with and without sign and prefixes around the ends of 32 and 64 bits, names of up to 3 arbitrary bytes, every ASCII text of 0..=4 bytes, nesting to 3000 levels",
    outside="more than two arbitrary bytes away from one of the seven schemas; non-ASCII texts except one concrete; whether a leaf's type and annotation go together is taken from ParquetType::try_from_primitive, which C31 decides; schemas nested deeper than the limit of 128 levels, which the parser refuses",
    jobs=lin([
        dict(h="h_byte", quick=[[k, p] + [0] * 7 + [int(p % 9 == 0)] for k in R(0, 6) for p in R(0, 139)]),
        dict(h="h_insert", quick=[[k, p, 1] for k in R(0, 6) for p in R(0, 139)], thorough=[[k, p, 2] for k in R(0, 6) for p in R(0, 139)]),
        dict(h="h_cut", quick=[[k, p, 1] for k in R(0, 6) for p in R(0, 139)], thorough=[[k, p, n] for k in R(0, 6) for p in R(0, 139) for n in (2, 4)]),
        dict(h="h_words", quick=[[k, t] for k in R(0, 30) for t in (0, 1)]),
        dict(h="h_digits", quick=[[w, n, m, 0] for w in R(0, 6) for n in (0, 1, 3) for m in (0, 1)] + [[w, 2, m, p] for w in R(0, 6) for m in (0, 1) for p in R(1, 5)], thorough=[[w, 5, m, 0] for w in R(0, 6) for m in (0, 1)], time=300),
        dict(h="h_names", quick=[[n] for n in R(0, 2)], thorough=[[3]]),
        dict(h="h_any", quick=[[n] for n in R(0, 4)], thorough=[[6]]),
        dict(h="h_deep", quick=[[n, c] for n in (0, 10, 60, 300, 3000) for c in (0, 1)], max_steps=40000000),
        dict(h="h_unicode", quick=[[0]]),
    ]))
CHECKS["C23"] = dict(
    bounds="insertion of every hash into every content of filters of 1..=4 blocks, in every block and with 0..=3 bytes beyond the blocks; membership of every hash with any one word of the block arbitrary, and of hashes of 6 low halves with any high half and any content; sequences of up to 3 arbitrary hashes over 1 and 2 blocks; the block of every high half for filters of up to 6, 31 and 100 blocks; XXH64 of every native value and of every byte string of 0..=40, 63..=66 bytes; filters of 0..=64 arbitrary bytes at offsets 0..=5 of a file, in buffers used before, cut short by 1, 7 or all of their bytes; every declared length and every offset outside the file; every unknown algorithm, hash and compression",
    outside="more than 100 blocks or 66 bytes",
    jobs=lin([
        dict(h="h_insert", quick=[[n, e, b] for n in R(1, 4) for e in (0, 3) for b in range(n)], time=400, cost=20),
        dict(h="h_member", quick=[[1, 0, w, 0, 0] for w in R(0, 7)] + [[n, e, 8, b, k] for n, e, b in ((1, 0, 0), (2, 3, 1), (3, 0, 0), (4, 0, 3)) for k in R(0, 5)], thorough=[[3, 1, w, b, 0] for w in R(0, 7) for b in (0, 2)], time=400, cost=20),
        dict(h="h_sequence", quick=[[1, k, 0, 0, 0] for k in R(1, 3)] + [[2, 2, 0, 0, 0], [2, 3, 0, 1, 0], [2, 2, 1, 0, 0], [2, 3, 1, 1, 1]], thorough=[[3, 2, 0, 1], [3, 2, 2, 2]], time=600, cost=30),
        dict(h="h_block", quick=[[n, b] for n in R(1, 6) for b in range(n)] + [[n, b] for n in (31, 100) for b in (0, 1, n // 2, n - 2, n - 1)], thorough=[[n, b] for n in (31, 100) for b in range(n)]),
        dict(h="h_small", quick=[[n] for n in (0, 1, 31)]),
        dict(h="h_native", quick=[[t] for t in R(0, 4)]),
        dict(h="h_bytes", quick=[[n] for n in R(0, 40) + R(63, 66)]),
        dict(h="h_read", quick=[[n, p, m, u] for n in (0, 1, 32, 64) for p in (0, 5) for m in (0, 1, 7, n) if m <= n for u in (0, 4, 70)]),
        dict(h="h_none", quick=[[n] for n in (0, 3, 32)]),
        dict(h="h_declared", quick=[[n] for n in (0, 5, 33)]),
        dict(h="h_offset", quick=[[0]]),
        dict(h="h_unknown", quick=[[0], [1], [2]]),
    ]))
CHECKS["C27"] = dict(
    bounds="files of 0..=2 row groups of up to 4 columns (four schemas, flat and nested), each of up to 3 data pages of both kinds and a dictionary with arbitrary small counts and bytes, with and without statistics and indexes, key-value metadata and writer name; sinks that take everything, one byte, half, three bytes or alternately one and all at a time, any number of bytes in each of the first four writes, and suspend never, every other time or twice each; row groups with missing or further columns, pages without rows, invalid counts or statistics, and failing producers",
    outside="sinks that fail (C28); pages of more than a few bytes",
    jobs=lin([
        dict(h="h_same", quick=[[s, g, p, st, w, (s + g + w) % 2, (g + p + w) % 3, (s + g + p + w) % 8, 3 * g + w] for s in R(0, 3) for g in R(0, 2) for p in (0, 1, 2) for st in (0, 1) for w in R(0, 5) if (s * 5 + g * 7 + p + st + w) % 3 == 0], thorough=[[s, g, p, st, w, f, d, (g + w) % 8, w] for s in R(0, 3) for g in R(0, 2) for p in (1, 3) for st in (0, 1) for w in R(0, 5) for f in (0, 1) for d in R(0, 2)]),
        dict(h="h_bad", quick=[[b, c, w, st] for b in R(0, 9) for c in (0, 1) for w in (0, 3) for st in (0, 1)]),
    ]))
CHECKS["C28"] = dict(
    bounds="a file of one and two row groups of three columns (nested, with dictionaries, both kinds of pages, statistics, both indexes) of arbitrary bytes; one failure, refusal of all bytes (for sources: end of the data), interruption or partial transfer of 1..=4 bytes at any operation (reads, writes, flush and, for failures, seeks) of the synchronous and the asynchronous writer, and of reading the metadata, the pages of a chunk with and without a filter, selected pages, both indexes, the chunks and the pages of a field, the bloom filter, synchronously and asynchronously, and of writing a file of nothing but metadata; every operation transferring one byte, half, three bytes, alternately one and all, or any number in the first four, and suspended never, every other time or twice",
    outside="more than one fault; interruptions of asynchronous operations, which the interface does not allow, and of reads within a thrift structure, which the dependency reports as errors; a source that claims its end and then continues",
    jobs=lin([
        dict(h="h_write", quick=[[f, p, d, g] for f in R(0, 3) for p in R(0, 4) for d in (0, 1) for g in (1, 2) if not (f == 2 and d == 1)]),
        dict(h="h_after", quick=[[f, p, d, t] for f in (0, 1) for p in R(0, 2) for d in (0, 1) for t in (0, 1)]),
        dict(h="h_split_write", quick=[[w, p, d] for w in R(0, 5) for p in R(0, 2) for d in (0, 1)]),
        dict(h="h_read", quick=[[f, p, k, c, d] for f in R(0, 3) for d in (0, 1) for k in R(0, 7) for c in (0, 2) for p in (R(0, 8) if k in ((1, 2, 7) if d == 0 else (1, 2, 3, 4)) else (0, 1)) if not (f == 2 and d == 1) and not (d == 1 and k in (5, 7))]),
        dict(h="h_split_read", quick=[[w, p, k, c, d] for w in R(0, 5) for d in (0, 1) for p in (0, 1, 2) for k in R(0, 7) for c in (0, 1, 2) if not (d == 1 and k in (5, 7)) and not (d == 0 and p > 0)]),
        dict(h="h_bloom", quick=[[f, p, w] for f in R(0, 3) for p in R(0, 3) for w in (0, 1)]),
        dict(h="h_sidecar", quick=[[f, p, w] for f in R(0, 3) for p in R(0, 1) for w in (0, 1)]),
    ]))
CHECKS["C16"] = dict(
    bounds="chunks of 0..=3 pages (both page versions, dictionaries, pages without values, bodies of up to 3 arbitrary bytes, arbitrary counts), filters that keep all, none or some pages, read from the start of the chunk or from the current position of the source; sources delivering everything, single bytes, arbitrary parts, and pending in between; the chunk cut at every byte, any byte in place of each one, up to 2 arbitrary bytes (thorough 3) instead of a chunk, any value of each field of the page headers, any total, position at or beyond the end, limits of the size of pages of 16 bits; files of up to 2 columns and 1 row group: whole, cut at every byte from either end, any byte in place of each, any declared length of the metadata, up to 11 arbitrary bytes in all, metadata of 1 arbitrary byte, metadata around the size of the first read (65536 bytes); chunks of up to 3 columns of any declared size",
    outside="limits of the size of pages below the memory taken by their headers: the two thrift readers of parquet-format-safe charge the start of a structure differently, so one may accept a header the other refuses; failures of the source (C28)",
    jobs=lin([
        dict(h="h_chunk", quick=[[c, k, f, s, p, 0] for k, n in ((0, 1), (1, 4), (2, 16)) for c in R(0, n - 1) for f in ((0, 3) if k else (0,)) for s, p in ((0, 0), (1, 1))]
             + [[c, k, f, s, p, 0] for c, k in ((4, 2), (1, 2), (6, 2), (24, 3), (36, 3), (18, 3), (57, 3), (6, 3)) for f in R(0, 3) for s, p in ((0, 0), (1, 1), (2, 0), (3, 2), (4, 0), (5, 1))]),
        dict(h="h_total", quick=[[c, k, s, m] for c, k in ((0, 0), (4, 2), (1, 1), (6, 2), (12, 2)) for s in (0, 1) for m in (0, 1, 3)] + [[4, 2, 0, 2]], cost=2),
        dict(h="h_cut", quick=[[c, k, f, s] for c, k in ((4, 2), (1, 2), (6, 2), (3, 1)) for f, s in ((0, 0), (1, 1))]),
        dict(h="h_byte", quick=[[c, k, p, 0] for c, k in ((0, 1), (1, 1), (2, 1)) for p in R(0, 30)], thorough=[[c, 2, p, 1] for c in (4, 6) for p in R(0, 60)], cost=2),
        dict(h="h_any", quick=[[n, s] for n in (1, 2) for s in (0, 1)], thorough=[[3, 0]], cost=5),
        dict(h="h_fields", quick=[[k, f, 2, 64] for k in R(0, 2) for f in R(0, 8)] + [[k, f, 0, 16] for k in R(0, 2) for f in (0, 1)]),
        dict(h="h_limit", quick=[[0], [1]]),
        dict(h="h_meta", quick=[[k, s, p, b] for k in R(0, 2) for s, p, b in ((0, 0, 0), (1, 1, 3), (3, 0, 0), (5, 2, 1))]),
        dict(h="h_meta_byte", quick=[[k, p, p % 2] for k in (0, 1, 2) for p in R(0, 160) if p != 7 and not (k == 2 and p in (96, 104, 119))], thorough=[[2, p, 1] for p in (96, 104, 119)]),
        dict(h="h_meta_len", quick=[[k, 0, x] for k in (0, 1, 2) for x in (0, 1, 17, 60)], thorough=[[k, 0, x] for k in (1, 2) for x in range(1, 140, 8)], cost=2),
        dict(h="h_meta_cut", quick=[[k, s] for k in (0, 1, 2) for s in (0, 1)]),
        dict(h="h_meta_any", quick=[[n, 0, 0] for n in (1, 4, 7, 8, 11)] + [[0, 0, 1], [1, 0, 1], [1, 1, 1]], thorough=[[2, 0, 1]]),
        dict(h="h_meta_large", quick=[[d, s] for d in (0, 1, 2, 8) for s in (0,)] + [[1, 1]]),
        dict(h="h_columns", quick=[[n, s, p, f] for n in (1, 2, 3) for s, p in ((0, 0), (1, 1)) for f in (0, 1)]),
    ]))
CHECKS["C18"] = dict(
    bounds="snappy, gzip (flate2 over miniz_oxide) and Brotli as they are, in Rust, LZ4 through a stand-in for the C library over lz4_flex, and Zstandard through a stand-in; every accepted level; compressed after 0..=2 bytes already in the output: up to 14 arbitrary bytes (snappy), 12 (LZ4), 1 (gzip and Brotli at each level, thorough 2), 9 (Zstandard), one arbitrary byte followed by up to 40 others, and the same without arbitrary bytes up to 70000 (a single path); compressed data of up to 30 bytes cut at or with any byte in place of each; up to 6 (gzip 3, Brotli 2) arbitrary bytes as compressed data; lengths one off; the Hadoop framing of LZ4 with up to 3 frames, any declared sizes; every level as a number",
    outside="what the C libraries lz4 and zstd do inside (their sources are not Rust); larger arbitrary inputs, as the matches found by the codecs depend on hashes of them; the feature lz4_flex, whose codec as configured by Cargo.toml (without checked-decode) may panic on damaged data",
    assumptions=["the stand-ins in harness/stubs have the interface of zstd and lz4; zstd's gives at most 3 bytes per read and takes at most 5 per write, as the real one may"],
    jobs=lin([
        dict(h="h_round", quick=[[0, 0, n, n, 0, p] for n in (0, 1, 8, 14) for p in (0, 2)] + [[1, 0, n, n, 0, p] for n in (0, 1, 8, 12) for p in (0, 2)] + [[4, l, n, n, 0, p] for l in R(1, 22) + [99] for n, p in ((0, 0), (9, 2))]
             + [[2, l, n, n, 0, p] for l in R(0, 10) + [99] for n, p in ((0, 1), (1, 1))] + [[3, l, n, n, 0, p] for l in R(0, 11) + [99] for n, p in ((0, 1), (1, 1))]
             + [[0, 0, 1, 40, h, 1] for h in (0, 1)] + [[2, l, 1, 40, 0, 1] for l in (0, 1, 6, 10)] + [[3, l, 1, 40, 1, 1] for l in (0,)]
             + [[c, l, 0, n, h, p] for c, l in ((0, 0), (1, 0), (2, 99), (2, 0), (2, 10), (3, 99), (3, 9), (4, 99)) for n, h, p in ((300, 0, 1), (5000, 1, 0), (70000, 1, 2), (40000, 0, 0))],
             thorough=[[1, 0, 1, 40, 0, 2], [1, 0, 1, 20, 1, 0], [0, 0, 2, 40, 3, 0], [2, 1, 2, 2, 0, 0], [3, 0, 2, 2, 0, 0]], cost=3),
        dict(h="h_any", quick=[[0, n, m] for n, m in ((0, 0), (1, 0), (3, 1), (5, 4), (6, 5))] + [[1, n, m] for n, m in ((0, 0), (1, 0), (6, 5), (7, 2))] + [[2, n, m] for n, m in ((0, 0), (0, 1), (3, 2))] + [[3, n, m] for n, m in ((0, 1), (1, 1), (2, 2))] + [[4, n, m] for n, m in ((0, 0), (0, 1), (6, 2))] + [[5, n, m] for n, m in ((0, 0), (0, 1), (1, 0), (8, 5), (10, 2))], cost=2),
        dict(h="h_damaged", quick=[[0, 3, 3, 0, p] for p in R(0, 4)] + [[0, 0, 30, 0, p] for p in R(0, 5)] + [[1, 0, 30, 0, p] for p in R(0, 10)] + [[2, 0, 6, 0, p] for p in R(0, 13) if p != 10] + [[3, 0, 6, 0, p] for p in R(0, 6)] + [[4, 3, 6, 0, p] for p in R(0, 15)], cost=2),
        dict(h="h_length", quick=[[c, f, n, 0, n + d - 1] for c, f in ((0, 3), (1, 3), (2, 0), (3, 0), (4, 3)) for n in (3, 6) for d in (0, 1, 2)]),
        dict(h="h_levels", quick=[[]]),
        dict(h="h_hadoop", quick=[[f, n, h, k, t] for f, n, h in ((2, 3, 0), (0, 30, 0), (3, 9, 1), (0, 0, 0)) for k in R(0, 3) for t in (0, 1, 8)]),
        dict(h="h_frames", quick=[[0, 0], [0, 2], [2, 3], [3, 2], [9, 2]]),
        dict(h="h_unsupported", quick=[[]]),
    ]))
CHECKS["C17"] = dict(
    bounds="sequences of 0..=4 pages of both versions (levels of lengths 0 to the whole page, the compression flag absent or either value), dictionaries and pages without bytes, in any order, of 0..=20 arbitrary bytes (gzip and Brotli: 1 arbitrary byte, others given) and 300 given ones, arbitrary small counts and statistics, all with each codec, on their own with reused buffers larger and smaller than the page, through the compressor, a file and both decompressors; any mixture of uncompressed, snappy, LZ4 and Zstandard through the decompressors, of which a page fails or is damaged; any declared 32-bit lengths of the levels, for compression and for decompression of up to 5 arbitrary bytes into a declared size of 0..=5",
    outside="what codecs do to larger arbitrary bytes, and the sources of lz4 and zstd, in C (see C18); the compression flag of a page of version 2, which is set on compression",
    assumptions=["the stand-ins in harness/stubs have the interface of zstd and lz4"],
    jobs=plain([
        dict(h="h_page", quick=[[c, code, k, n] for c in R(0, 3) for code, k in ([(a, 1) for a in R(0, 6)] + [(26, 3), (180, 3), (334, 3), (56, 3), (114, 3), (341, 3), (1030, 4), (2000, 4)]) for n in (5, 8, 300)]
             + [[c, a, 1, n] for c in (4, 5) for a in R(0, 6) for n in (1, 300)]),
        dict(h="h_sequence", quick=[[s, code, k, 4, b] for s, code, k in ((0, 26, 3), (27, 26, 3), (9, 260, 3), (57, 180, 3), (36, 334, 3), (18, 56, 3), (6, 114, 3), (228, 1030, 4), (147, 2000, 4), (85, 2000, 4), (108, 51, 4)) for b in (9, 0, 1, 2)]
             + [[s, 12, 3, 5, 9] for s in R(0, 63)]),
        dict(h="h_compressor", quick=[[c, code, k, 4, a, b] for c in R(0, 3) for code, k in ((26, 3), (180, 3), (334, 3), (1030, 4)) for a, b in ((0, 9), (1, 9), (2, 9), (k, 9), (3, 1), (3, 0), (3, 2), (2, 1))]),
        dict(h="h_file", quick=[[c, code, k, n] for c in R(0, 3) for code, k in ((0, 0), (26, 3), (180, 3), (334, 3), (56, 3), (5, 1), (2, 1), (30, 2)) for n in (5, 300)] + [[c, code, k, n] for c in (4, 5) for code, k in ((26, 3), (180, 3), (55, 2)) for n in (300,)], cost=2),
        dict(h="h_levels", quick=[[c, n] for c in (0, 1, 3) for n in (0, 3, 5)]),
        dict(h="h_damaged", quick=[[c, n, m, f] for c in (1, 2, 3) for n, m in ((0, 0), (3, 0), (3, 3), (4, 3), (5, 5), (2, 5)) for f in (0, 1, 2)]),
    ]))
FIELDS34 = ([(f, [0] + list(range(1 + f % 2, 45, 3))) for f in (0, 1, 7, 9, 11, 70)] + [(f, [0] + list(range(1, 45, 8))) for f in (71, 72)] + [(f, R(0, 3)) for f in (23, 24, 30, 31, 73, 74, 75)] + [(f, (0, 1, 2)) for f in (18, 21, 22, 25, 48, 49, 50, 51, 52, 65)]
            + [(44, (0, 1, 3, 4, 5)), (45, (0, 3, 4)), (32, (0, 1))] + [(f, [0]) for f in (2, 3, 4, 5, 6, 8, 10, 12, 13, 14, 15, 16, 17, 19, 20, 26, 27, 28, 29, 33, 34, 35, 40, 41, 42, 43, 46, 47, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64)])
CHECKS["C34"] = dict(
    bounds="files of two columns (flat and nested) with dictionaries, both versions of data pages, statistics, column and offset indexes, a bloom filter and key values: any value in each numeric field of the metadata and of the locations of pages (offsets: any outside of the file, and every one inside of it), any one byte of the file in place of it (quick: one position in seven, offsets: one place in three), every cut of the end and of the start, lists longer, shorter or missing; any metadata of 1 byte and any end of a file of 8 bytes; any length of up to 5 bytes declared for each list or string of the metadata, page header, index; schemas of up to 3 elements with any numbers of children; page headers with any value in each numeric field for every codec; any 2 bytes as page headers and as indexes; page bodies of up to 6 (Snappy, LZ4) any bytes; all of these files are opened and entirely read: accessors, statistics, pages, columns, indexes, located pages, bloom filters, also asynchronously. At most 4096 bytes per page; memory: at most 256 bytes per byte of the file plus 128 KiB plus four pages, plus 1 MiB for a located page",
    outside="two damaged places at once other than those fields; the size of a located page once decompressed and groups of many fields (known findings); codecs compiled from C (stand-ins)",
    jobs=lin([
        dict(h="h_field", quick=[[0, f, n] for f, ns in FIELDS34 for n in ns] + [[1, f, n] for f, ns in FIELDS34 for n in list(ns)[:2]], thorough=[[1, f, n] for f, ns in FIELDS34 for n in list(ns)[2:]] + [[k, f, n] for k in (0, 1) for f in (0, 1, 7, 9, 11, 70, 71, 72) for n in R(1, 44)], time=200),
        dict(h="h_byte", quick=[[k, p] for k in (0, 1) for p in R(0, 9)] + [[k, p] for k in (0, 1) for p in range(10 + 2 * k, 760, 7)], thorough=[[k, p] for k in (0, 1) for p in R(10, 760) if (p - 3 - 2 * k) % 7], time=200),
        dict(h="h_any", quick=[[0], [1]], thorough=[[2]], time=800),
        dict(h="h_file", quick=[[n] for n in (0, 1, 4, 7, 8, 11, 12, 13, 20)]),
        dict(h="h_cut", quick=[[k, n] for k in (0, 1) for n in list(R(1, 12)) + list(range(13, 760, 40))], thorough=[[k, n] for k in (0, 1) for n in R(13, 760)]),
        dict(h="h_length", quick=[[0]]),
        dict(h="h_header", quick=[[k, f, 1, c] for k in (0, 1, 2) for f in R(0, 8) for c in (0, 1)] + [[k, f, n, c] for k in (0, 1) for f in (10, 11, 12) for n in R(0, 3) for c in (0, 1, 2)] + [[1, 9, n, c] for n in R(0, 4) for c in (0, 1)] + [[0, 9, 0, 0]]
             + [[k, f, 1, c] for k in (0, 1, 2) for f in (1, 2, 4, 10, 11) for c in (2, 3, 4, 5)] + [[1, 6, 0, c] for c in (2, 3, 4, 5)] + [[0, 8, n, 0] for n in (0, 3, 4, 5, 9)]),
        dict(h="h_pages_any", quick=[[1, 12], [2, 0], [2, 12]], thorough=[[3, 0]], time=800),
        dict(h="h_body", quick=[[v, n, 0] for v in (0, 1) for n in (0, 1, 3, 4, 6, 9)] + [[v, n, c] for v in (0, 1) for n in (0, 2, 4, 6) for c in (1, 2, 3)], thorough=[[v, n, c] for v in (0, 1) for n in (7, 8) for c in (1, 2)], time=600),
        dict(h="h_location", quick=[[f, n] for f in (0, 1, 9) for n in R(0, 12)] + [[f, 0] for f in R(2, 8)]),
        dict(h="h_index_any", quick=[[0, 0, 0], [0, 1, 0], [0, 2, 0], [0, 2, 1], [2, 1, 0], [0, 0, 1]], thorough=[[k, 2, 0] for k in R(1, 4)] + [[0, 3, 1]], time=800),
        dict(h="h_claim", thorough=[[k, 4, w] for k in (1, 4, 7, 11, 32) for w in (2, 3)], time=400, quick=[[k, m, w] for k in list(R(0, 12)) + [20, 21, 22, 23, 30, 31, 32, 33, 34] for m, w in ((0, 1), (3, 1), (4, 2), (0, 4), (3, 5)) if w != 2 or k not in (1, 4, 7, 11, 32)] + [[k, 3, w] for k in R(24, 27) for w in (1, 4, 5)] + [[35, 0, 1]]),
        dict(h="h_bloom", quick=[[32, 1], [32, 2], [32, 5], [0, 1], [64, 2]]),
        dict(h="h_children", quick=[[1], [2], [3]]),
        dict(h="h_wide", quick=[[0, 200], [1, 120], [1, 200], [2, 20]]),
    ]))
CHECKS["C24"] = dict(
    bounds="files of 0..=3 row groups of 0, 1, 2 and 3 columns (flat and nested) of 0..=3 pages, of which the first may be a dictionary, both page versions, all encodings in turn, page bodies of 0..=3 arbitrary bytes (and 70000 bytes), arbitrary small counts, all positive 32-bit counts of values, rows and dictionary entries (two at a time); every field of page headers with any 32-bit value; created-by and up to 3 key-value entries of ASCII text up to 3 bytes, present or absent",
    outside="more than 3 row groups, columns or pages; compressed pages (C17); non-ASCII texts; data pages without values at the end of a chunk are not delivered by the reader, which stops once all values were read (not asserted)",
    jobs=lin([
        dict(h="h_shape", quick=WHOLE, thorough=WHOLE_T),
        dict(h="h_counts", quick=[[1, 0], [2, 0], [3, 0], [3, 1], [4, 1], [3, 2], [5, 2], [10, 2], [12, 2]], thorough=[[5, 1], [6, 1], [6, 2], [9, 2]], cost=4),
        dict(h="h_header", quick=[[k, a, s] for k in (2, 3) for a in (0, 1, 2, 3, 4) for s in (32,)] + [[1, 0, 0], [1, 0, 40], [0, 0, 0]], cost=3),
        dict(h="h_meta", quick=[[a, n, v, g] for a, n, v, g in ((0, 0, 0, 0), (1, 1, 0, 1), (3, 2, 1, 0), (2, 3, 2, 1))], thorough=[[3, 4, 0, 0]]),
        dict(h="h_with_indexes", quick=[[n] for n in (1, 2)], thorough=[[3]], cost=3),
        dict(h="h_long", quick=[[5000], [70000]]),
    ]))
CHECKS["C25"] = dict(
    bounds="the files of C24; with statistics: up to 2 row groups of up to 3 pages with bounds of up to 3 bytes; all positive 32-bit counts of values and rows (two at a time); the file is walked byte by byte with the thrift reader alone",
    outside="more than 3 row groups, columns or pages; what compression does to a page (C17); offset recorded for the metadata of a chunk without pages",
    jobs=lin([
        dict(h="h_shape", quick=WHOLE, thorough=WHOLE_T),
        dict(h="h_coded", quick=[[s, g, p, 2, 1, c, l] for s, g, p in ((1, 1, 1), (1, 2, 2), (2, 1, 2)) for c, l in ((1, 9), (2, 300), (3, 1), (4, 5), (5, 1), (6, 70), (7, 2), (1, 0))]),
        dict(h="h_counts", quick=[[1, 0], [2, 0], [3, 0], [3, 1], [5, 1], [10, 1], [12, 1]], thorough=[[6, 1], [9, 1]], cost=4),
        dict(h="h_stats", quick=[[g, p, w] for g, p, w in ((1, 1, 1), (1, 2, 2), (2, 1, 3), (1, 3, 1), (2, 2, 1))], cost=2),
        dict(h="h_long", quick=[[5000], [70000]]),
    ]))
CHECKS["C26"] = dict(
    bounds="every sequence of up to 3 (thorough 4) calls out of: write a good row group, write one whose column or page production fails at any point, with too few or too many columns, or with inconsistent row counts, and end; with and without statistics; for the synchronous writer, and the asynchronous one with a sink that takes everything and one that splits and suspends writes (which has no accessor for its metadata); a row group or none, the end and further calls with one failure of the sink at any operation",
    outside="more than one failure of the sink",
    jobs=lin([
        dict(h="h_calls", quick=[[n, s, w] for w in R(0, 2) for n, s in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1))], thorough=[[4, s, w] for s in (0, 1) for w in (0, 1)], cost=5, time=600),
        dict(h="h_missing", quick=[[k, 0, w] for k in (0, 1) for w in R(0, 2)]),
        dict(h="h_sink", quick=[[g, p, w, f] for g in (0, 1) for p in R(0, 2) for w in (0, 1) for f in (0, 1)]),
    ]))
CHECKS["C19"] = dict(
    bounds="every value of every field of the statistics of each physical type, each present or absent, byte strings of 0, 2, 3 bytes and fixed lengths 0, 1, 3, 16; stored bounds of 0..=13 bytes for each type; through the stored form and through the headers of both kinds of data pages",
    outside="longer byte strings; the deprecated fields min and max are neither read nor written",
    jobs=plain([dict(h=h, quick=[[]]) for h in ("h_i32", "h_i64", "h_int96", "h_f32", "h_f64", "h_boolean", "h_eq")] + [
        dict(h="h_binary", quick=[[0, 2], [2, 0], [3, 3]]), dict(h="h_fixed", quick=[[0], [1], [3], [16]]),
        dict(h="h_stored", quick=[[k, n, m] for k in R(0, 7) for n, m in ((99, 99), (0, 0), (1, 1), (4, 4), (8, 8), (12, 12), (3, 3), (2, 3), (3, 2), (4, 8), (8, 4), (12, 99), (99, 12), (99, 5), (5, 99), (4, 5), (9, 8), (12, 13), (11, 12), (2, 1), (1, 0), (1, 99), (99, 0))])]))
CHECKS["C20"] = dict(
    bounds="chunks of 0..=2 pages of every physical type with each bound, null count and the statistics present or absent, 3 pages with everything present; signed, unsigned and decimal annotations (logical and legacy), byte strings of up to 2 bytes of any lengths, all bit patterns of the numbers (for 96-bit timestamps: all nanoseconds on two days); any null counts (all i64 for their sum)",
    outside="more than 3 pages, longer byte strings",
    jobs=lin([
        dict(h="h_chunk", quick=[[k, n, 0, 2, (k + n) % 2] for k in (0, 1, 2, 3, 4, 5, 6, 8, 10, 11) for n in (1, 2)] + [[7, 2, 0, 0, 0], [9, 2, 0, 1, 1]]
             + [[k, 2, 1, 1, k % 4] for k in (0, 1, 3, 5, 8, 10, 11)] + [[k, 2, 2, 1, 0] for k in (0, 1, 10)] + [[k, 0, 0, 1, 2] for k in (0, 3)] + [[k, 1, 2, 2, 2] for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)]
             + [[k, 3, 0, 1, 0] for k in (0, 1, 3)],
             thorough=[[k, 2, 2, 2, 1] for k in (1, 3, 5, 6, 8, 10, 11)] + [[k, 2, 1, 1, 0] for k in (2, 4, 7, 9)] + [[k, 3, 1, 1, 0] for k in (0, 1, 3, 10)] + [[k, 3, 0, 1, 0] for k in (2, 5, 8, 9, 10, 11)], cost=4, time=600),
        dict(h="h_nulls", quick=[[1], [2]], time=300, cost=4),
    ]))
CHECKS["C21"] = dict(
    bounds="files of 1..=2 row groups with up to 3 pages in a column of each physical type, each page entirely null or with bounds of any value (when there are several pages, with different leading bytes; byte strings of 1..=3 bytes), any null counts up to 7 and any small row counts, with and without a dictionary; files of 100 and 300 (thorough 1000) pages; all selections of up to 2 (3) chunks out of 6 in any order; stored indexes with lists of 0..=2 items each, bounds of 0, 1, 3, 4, 8, 12 bytes, any null flags and order codes -4..=3; any 32-bit lengths, any negative or large offsets",
    outside="the length of the bounds of fixed-length columns is not compared with the type when an index is read (they are returned as stored); more than 3 pages with free bounds",
    jobs=lin([
        dict(h="h_written", quick=[[k, 1, 1, 0, k % 2] for k in R(0, 7)] + [[k, 1, 2, k % 4, 0] for k in R(0, 7)] + [[k, 2, 2, 0, 1] for k in (0, 1, 6, 7)] + [[k, 1, 3, z, 0] for k in (1, 2, 6) for z in (0, 2, 7)] + [[1, 1, 0, 0, 0]],
             thorough=[[k, 2, 2, z, 0] for k in (0, 1, 2, 4, 5, 6, 7) for z in (1, 2)] + [[k, 1, 3, z, 1] for k in (0, 1, 2, 4, 5, 6, 7) for z in (0, 1, 4, 5)], time=400),
        dict(h="h_missing_bounds", quick=[[]]),
        dict(h="h_subset", quick=[[0], [1], [2]], thorough=[[3]]),
        dict(h="h_many", quick=[[0, 100], [1, 300], [6, 100], [3, 50]], thorough=[[1, 1000], [0, 1000]]),
        dict(h="h_lists", quick=[[k, n, n, n, d, w] for k, w in ((0, 1), (0, 0), (0, 3), (1, 4), (1, 3), (1, 8), (2, 8), (2, 4), (3, 12), (4, 4), (5, 8), (5, 4), (6, 0), (6, 3), (7, 3), (7, 1)) for n, d in ((0, 9), (0, 0), (1, 1), (2, 9))]
             + [[k, a, b, c, d, (1, 4, 8, 12, 4, 8, 2, 3)[k]] for k in R(0, 7) for a, b, c, d in ((1, 2, 2, 2), (2, 1, 2, 2), (2, 2, 1, 2), (2, 2, 2, 1), (1, 1, 1, 0), (1, 1, 1, 2), (0, 1, 1, 1), (1, 0, 0, 9), (2, 2, 1, 9))]),
        dict(h="h_places", quick=[[i, j, 59] for i in R(0, 5) for j in (0, 1)] + [[0, 0, 0]]),
    ]))
