"""What each check explores: jobs are (entry, parameters, points that must be reached)."""

ASSUME = [
    "rustc's LLVM IR (fat LTO, opt-level 2, overflow checks on, no vectorisation) stands for the code that is run",
    "the symbolic executor in /verif/engine models LLVM IR, the allocator and memory functions faithfully; each run validates sampled paths against the natively compiled code",
    "Z3 answers are correct",
    "inputs beyond the stated bounds are not covered",
]

PROPS = {}
KNOWN = {}
NOT = {}

SELF = {
    "quick": [("st_f32", [k, s]) for k in range(8) for s in range(4)] + [("st_f64", [k, s]) for k in (0, 1, 4, 5, 6, 7) for s in range(4)]
    + [("st_int", [k, s]) for k in range(4) for s in range(6)] + [("st_std", [k, s]) for k in range(8) for s in (0, 3)],
    "bounds": "operations of the executor itself",
}

PROPS["C01"] = {
    "quick": [(e, [n], [1, 2, 3, 4] if n > 10 else []) for e in ("c01_u8", "c01_u16", "c01_u32", "c01_u64") for n in (0, 1, 12, 45)]
    + [("c01_ref", [12, w]) for w in (8, 16, 32, 64)] + [("c01_pad", [w, n, p], [1, 2, 3, 4]) for w in (8, 16, 32, 64) for n in (30, 40, 300) for p in (0x80,)],
    "thorough": [(e, [75]) for e in ("c01_u8", "c01_u16", "c01_u32", "c01_u64")],
    "bounds": "streams of 0, 1, 12 and 45 (thorough: 75) unconstrained bytes at widths 8, 16, 32, 64; a longer stream starts with one of these; numbers padded with 30, 40 and 300 equal bytes",
}

PROPS["C02"] = {
    "quick": [(e, [n], [1, 2, 3, 4] if n > 10 else []) for e in ("c02_i8", "c02_i16", "c02_i32", "c02_i64") for n in (0, 1, 12, 45)]
    + [("c02_ref", [12, w]) for w in (8, 16, 32, 64)] + [("c02_pad", [w, n, p], [1, 2, 3, 4]) for w in (8, 16, 32, 64) for n in (30, 40, 300) for p in (0x80, 0xff)],
    "thorough": [(e, [75]) for e in ("c02_i8", "c02_i16", "c02_i32", "c02_i64")],
    "bounds": "streams of 0, 1, 12 and 45 (thorough: 75) unconstrained bytes at widths 8, 16, 32, 64; a longer stream starts with one of these; numbers padded with 30, 40 and 300 equal bytes",
}

PROPS["C03"] = {
    "quick": [("c03_f32", [n]) for n in (0, 3, 4, 5)] + [("c03_f64", [n]) for n in (0, 7, 8, 9)]
    + [("c03_arr32", [n]) for n in (11, 12)] + [("c03_arr64", [n]) for n in (15, 16)] + [("c03_vec32", [n]) for n in (11, 12)]
    + [("c03_instr32", [n]) for n in (3, 4, 5)] + [("c03_instr64", [n]) for n in (7, 8, 9)]
    + [("c03_expr", []), ("c03_const", []), ("c03_global", []), ("c03_module", [0]), ("c03_module", [1]), ("c03_mix", [2], [1, 2]), ("c03_mix", [3])]
    + [("c03_f32", [n]) for n in (1, 2, 8)] + [("c03_f64", [n]) for n in range(1, 7)] + [("c03_f64", [16])]
    + [("c03_arr32", [n]) for n in range(0, 11)] + [("c03_arr64", [n]) for n in range(0, 15)] + [("c03_vec32", [n]) for n in range(0, 11)],
    "bounds": "all bit patterns of both widths, streams one byte short, exact and one longer, stand-alone and inside arrays, vectors, instructions, expressions, initialisers and whole modules; expressions of up to three constants of either width, cut anywhere",
}

PROPS["C04"] = {
    "quick": [("c04_free", [n], [1, 2] if n > 1 else []) for n in (0, 1, 2, 4, 6)] + [("c04_len", [l, n]) for l, n in ((4, 4), (4, 3), (5, 5), (6, 6), (7, 8))]
    + [("c04_long", [40, at, 3]) for at in (0, 15, 31, 37)] + [("c04_long", [140, 129, 3])] + [("c04_big", [n, a], [1, 2]) for n, a in ((300, 299), (300, 5), (70000, 69999))]
    + [("c04_import_module", [4]), ("c04_import_name", [4]), ("c04_export", [4]), ("c04_custom", [4, 2]), ("c04_section", [2, 4]), ("c04_section", [7, 4])],
    "thorough": [("c04_free", [n]) for n in (3, 5, 7, 8)] + [("c04_len", [8, 8]), ("c04_len", [9, 9])] + [("c04_long", [64, at, 4]) for at in range(0, 61, 4)],
    "bounds": "names of up to 7 (thorough: 9) unconstrained bytes with unconstrained declared length; windows of 3 (4) unconstrained bytes inside names of 40, 64 and 140 bytes, unconstrained bytes in names of 300 and 70,000; import, export and custom-section names of 4 unconstrained bytes",
}

PROPS["C05"] = {
    "quick": [("c05_bytes", [6])] + [(e, [n]) for e in ("c05_vec_u8", "c05_vec_u32", "c05_vec_i32", "c05_vec_val") for n in (0, 5, 7)] + [("c05_vec_f32", [n]) for n in (8, 10)]
    + [("c05_runs_u8", [7, 9]), ("c05_runs_val", [8, 9])] + [("c05_arr_byte", [k + d, k]) for k in range(9) for d in (-1, 0, 1) if k + d >= 0] + [("c05_arr_u32", [k + d, k]) for k in range(6) for d in (0, 2)] + [("c05_arr_u32", [k, k]) for k in (6, 7, 8)]
    + [("c05_nested", [6])] + [("c05_long", [k, l, n]) for k in (0, 1, 2) for l, n in ((20, 20), (130, 130), (40, 39), (200, 201))]
    + [("c05_long_runs", [3, 0, 100]), ("c05_long_runs", [130, 1, 2]), ("c05_runs_sum", [0]), ("c05_runs_sum", [1])] + [("c05_big", [k, n], [1]) for k in range(4) for n in (300, 5000, 70000)],
    "thorough": [(e, [9]) for e in ("c05_vec_u8", "c05_vec_u32", "c05_vec_i32", "c05_vec_val")] + [("c05_vec_f32", [14]), ("c05_runs_u8", [9, 12]), ("c05_runs_val", [10, 12]), ("c05_nested", [8])],
    "bounds": "sequences in up to 7-10 (thorough: 9-14) unconstrained bytes including their declared count; declared counts of 20, 40, 130 and 200 elements with symbolic values, and of 300, 5,000 and 70,000 with the last ones symbolic; run-length sequences with any five-byte run lengths for the total-length rule, otherwise totals of at most 9 (12) elements plus fixed longer runs",
}

PROPS["C06"] = {
    "quick": [("c06_free", [k, n], [1, 2] if n == 5 else []) for k in range(7) for n in (0, 1, 5)] + [("c06_size", [k, w, 6]) for k in range(7) for w in (1, 2, 5)] + [("c06_long", [100])]
    + [("c06_section", [i, w, t], [1, 2] if w == 1 else []) for i in range(12) for w, t in ((1, 0), (1, 6), (2, 3), (5, 0))] + [("c06_count", [i]) for i in range(12)] + [("c06_code", [0], [1, 2]), ("c06_code", [1], [1, 2])] + [("c06_big", [n, i], [1, 2]) for n in (300, 70000) for i in (0, 1)]
    + [("c06_free", [k, n]) for k in range(7) for n in (2, 3, 4)],
    "thorough": [("c06_free", [k, n]) for k in range(7) for n in (6, 7, 8)] + [("c06_long", [300])],
    "bounds": "sized items of seven kinds, nested included, in up to 5 (thorough: 8) unconstrained bytes and with any declared size of one, two or five bytes over 6 unconstrained bytes of content; contents of 100 (300) bytes with any size, of 300 and 70,000 with sizes around it and around its low bytes; every section kind with any declared size in one, two or five bytes, and any entry count; two function bodies with any one-byte sizes",
}

PROPS["C07"] = {
    "quick": [("c07_one", [n], [1, 2]) for n in (1, 3, 6, 11)] + [("c07_op", [op, 12]) for op in (0x0c, 0x0e, 0x10, 0x11, 0x23, 0x28, 0x3e, 0x3f, 0x41, 0x42, 0x43, 0x44)]
    + [("c07_between", [3])] + [("c07_table", [k, w]) for k, w in ((3, 1), (20, 1), (130, 1), (4, 5), (12, 2))] + [("c07_big", [n], [1]) for n in (300, 70000)]
    + [("c07_one", [14]), ("c07_between", [4]), ("c07_table", [200, 2]), ("c07_table", [8, 5])] + [("c07_op", [op, 20]) for op in (0x0c, 0x11, 0x28, 0x41, 0x42)],
    "thorough": [("c07_one", [18]), ("c07_table", [16, 5])],
    "bounds": "any opcode byte followed by up to 14 (thorough: 18) unconstrained bytes; the immediate-carrying opcodes with 12, some with 20; label tables of up to 200 entries, of 300 and 70,000 with the last labels symbolic, and labels of up to five bytes; four arbitrary instructions in sequence",
}

PROPS["C08"] = {
    "quick": [("c08_free", [n], [1, 2] if n > 0 else []) for n in (0, 1, 2, 3, 4, 5, 6, 7)] + [("c08_const_free", [5])] + [("c08_one", [op, 5]) for op in (2, 3, 4)]
    + [("c08_tokens", [5, 8, 2]), ("c08_tokens", [6, 6, 2]), ("c08_tokens", [7, 5, 2]), ("c08_nest", [40, 1, 3]), ("c08_nest", [12, 2, 3]), ("c08_nest", [20, 2, 2]), ("c08_flat", [20, 2])] + [("c08_big", a, [1, 2]) for a in ([300, 0], [70000, 0], [300, 1], [300, 2])],
    "thorough": [("c08_free", [8]), ("c08_const_free", [7]), ("c08_tokens", [8, 5, 3]), ("c08_tokens", [7, 8, 2]), ("c08_nest", [40, 2, 0]), ("c08_nest", [40, 2, 1]), ("c08_nest", [40, 2, 2]), ("c08_nest", [40, 2, 3])],
    "bounds": "bodies of up to 7 (thorough: 8) unconstrained bytes; sequences of up to 7 (8) tokens of the structural alphabet (openers with result types, else, end, others); nests of up to 40 constructs and flat bodies of 20 conditionals with windows of 1-2 unconstrained bytes anywhere; nests of 300 constructs and bodies of 70,000 instructions with symbolic ones at the end",
}

PROPS["C09"] = {
    "quick": [("c09_preamble", [n]) for n in (0, 7, 8, 9)] + [("c09_preamble_full", [], [1, 2])] + [("c09_free", [n], [1, 2] if n > 2 else []) for n in (1, 2, 3, 4, 5, 6, 7)]
    + [("c09_ids", [k]) for k in (1, 2, 3, 6)] + [("c09_insert", [i]) for i in range(1, 13)] + [("c09_rename", [i]) for i in range(1, 12)] + [("c09_order", [h]) for h in range(4)]
    + [("c09_custom", [i, 3], [1, 2]) for i in (1, 4, 10, 12)] + [("c09_customs", [3]), ("c09_prefix", [], [1, 2])] + [("c09_tail", [n]) for n in (1, 3, 5)]
    + [("c09_bodies", [a, b, g]) for a, b, g in ((2, 2, 0), (2, 1, 1), (1, 2, 0), (0, 0, 0), (9, 9, 0), (9, 1, 0), (9, 0, 0), (2, 9, 0), (0, 9, 1), (3, 3, 1))]
    + [("c09_mutate", [1, 0, 12])] + [("c09_big", [n], [1, 2]) for n in (300, 3000)],
    "thorough": [("c09_free", [8]), ("c09_mutate", [2, 0, 12]), ("c09_custom", [4, 4]), ("c09_ids", [8])],
    "bounds": "preambles of 8 unconstrained bytes; 7 (thorough: 8) unconstrained bytes after the preamble; up to 6 (8) sections with unconstrained ids; a populated module of every section kind with any section renamed, repeated, swapped, dropped, cut short or extended, a custom section of up to 4 unconstrained bytes inserted, and 1 (2) consecutive unconstrained bytes anywhere; up to 3 functions and bodies, and 300 and 3,000 functions with as many custom sections and with 1, 256 or 65,536 bodies more or less",
    "assume": ["mutated and free modules: functions with more than 6 locals besides parameters are left out (all local counts are covered in C10)"],
}

PROPS["C10"] = {
    "quick": [("c10_free", [i, 1, 6], [1, 2]) for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)] + [("c10_free", [i, 2, 6]) for i in (1, 3, 6, 7)]
    + [("c10_types", [a, b]) for a, b in ((0, 0), (1, 1), (3, 1), (2, 2), (20, 0))] + [("c10_imports", [1, 4], [1, 2]), ("c10_imports", [2, 2])]
    + [("c10_import_kinds", [a, b, c]) for a, b, c in ((0, 1, 2), (3, 2, 1), (2, 0, 3), (1, 3, 0))]
    + [("c10_limits", [i, a, b]) for i in (4, 5) for a, b in ((1, 0), (5, 0), (5, 5), (2, 3))] + [("c10_globals", [1])]
    + [("c10_global_const", [o, n]) for o, n in ((0x41, 1), (0x41, 5), (0x42, 10), (0x23, 5), (0x43, 4), (0x44, 8))] + [("c10_exports", [3, 1]), ("c10_exports", [2, 5]), ("c10_start", [1]), ("c10_start", [5])]
    + [("c10_funcs", [3, 2]), ("c10_funcs", [20, 1]), ("c10_elems", [2, 2]), ("c10_elems", [20, 1]), ("c10_datas", [3]), ("c10_datas", [140])] + [("c10_body", [2, 3]), ("c10_body", [4, 1]), ("c10_bodies", [1]), ("c10_locals", [100])] + [("c10_big", [n], [1]) for n in (2, 300, 3000)] + [("c10_long", [n], [1]) for n in (2, 300, 70000)],
    "thorough": [("c10_free", [i, 1, 7]) for i in (1, 2, 3, 4, 5, 6, 7, 10)] + [("c10_free", [i, 2, 7]) for i in (2, 3, 4, 5, 10)] + [("c10_globals", [2]), ("c10_body", [2, 4]), ("c10_bodies", [2]), ("c10_imports", [2, 4]), ("c10_locals", [500])],
    "bounds": "each section with one or two entries in 6 (thorough: 7) unconstrained bytes; templates with several entries, every tag byte unconstrained and numbers in up to five or ten bytes; up to 20 parameters, 20 functions, 20 element indices, 140 data bytes, 100 (500) locals; sections with 300 and 3,000 entries, the last of each symbolic; entries with 70,000 parameters, locals, element indices or data bytes",
    "assume": ["in c10_free, functions with more than 6 locals are left out"],
}

PROPS["C11"] = {
    "quick": [("c11_kind", [k, n]) for k in range(31) for n in (0, 3, 6)] + [("c11_kind", [0, 13]), ("c11_kind", [1, 13]), ("c11_kind", [2, 9]), ("c11_kind", [18, 8]), ("c11_kind", [19, 7]), ("c11_kind", [13, 7])]
    + [("c11_count", [k, 4]) for k in range(11)] + [("c11_runs", [7, 9]), ("c11_any", [10], [2])] + [("c11_free", [n]) for n in (1, 2, 3, 4, 5, 6, 7)]
    + [("c11_section", [i, 4]) for i in range(1, 12)] + [("c11_mutate", [1, 0, 12], [1, 2, 3, 4]), ("c11_body", [3, 0], [3, 4]), ("c11_body", [4, 1], [3, 4])]
    + [("c11_wide", [k, w]) for k in (0, 1) for w in (1, 5)] + [("c11_table", [3, 1]), ("c11_table", [2, 5]), ("c11_table", [40, 1])] + [("c11_indices", [i], [4] if i != 2 else []) for i in range(15)]
    + [("c11_big", [300, w], [1, 3]) for w in range(10)] + [("c11_big", a, [1, 3]) for a in ([5000, 1], [70000, 2], [70000, 3], [70000, 4], [3000, 5], [70000, 6], [5000, 7], [3000, 8], [70000, 9])],
    "thorough": [("c11_kind", [k, 8]) for k in range(31)] + [("c11_runs", [8, 9]), ("c11_free", [8]), ("c11_mutate", [2, 0, 12]), ("c11_body", [5, 0]), ("c11_body", [5, 1])],
    "bounds": "31 decodable types on 6-13 (thorough: 8-13) unconstrained bytes; any five-byte declared count with 4 bytes behind it, stand-alone and in every section; 7 (8) unconstrained bytes after the preamble; 1 (2) consecutive unconstrained bytes anywhere in a populated module; function bodies of 4 (5) unconstrained bytes; every index and limit with any five-byte value; 300 to 70,000 parts of ten kinds with a symbolic byte or index behind them. Live memory is limited to 1 MiB plus 64 KiB per input byte",
    "assume": ["functions with more than 6 locals (except runs of 300 and 70,000), and run-length sequences with more than 9 elements in total, are left out (known finding: the decoded form lists every local)", "nesting deeper than the inputs above allow is left out (known finding: deep nesting exhausts the stack)"],
}

VALID = ["external types are compared only for accepted modules"]

PROPS["C12"] = {
    "quick": [("c12_ops", [p, r, k]) for p, r, k in ((0, 0, 1), (1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 0, 1), (1, 0, 1), (2, 1, 2), (3, 1, 2), (4, 1, 2), (3, 0, 2), (1, 1, 2))]
    + [("c12_ops", [p, r, 3]) for p, r in ((2, 1), (4, 1), (3, 0))]
    + [("c12_dead", [p, r, k]) for p, r, k in ((0, 0, 1), (0, 1, 1), (1, 1, 1), (0, 0, 2), (0, 1, 2), (1, 1, 2), (2, 0, 2), (0, 1, 3), (1, 1, 3))]
    + [("c12_mix", [p, r, d]) for p, r in ((0, 0), (1, 1), (2, 1), (3, 0)) for d in (0, 1)] + [("c12_const", [w, r, k]) for w in (1, 5) for r in (0, 1) for k in (0, 1)]
    + [("c12_select", [p, r, d]) for p in (0, 1, 2, 3, 4) for r in (0, 1) for d in (0, 1)] + [("c12_block", [p, k]) for p in (0, 2, 3) for k in (1, 2)] + [("c12_big", a) for a in ([300, 299], [300, 0], [70000, 50000])],
    "thorough": [("c12_ops", [p, r, 4]) for p, r in ((3, 1), (4, 1), (5, 0))] + [("c12_dead", [p, r, 4]) for p, r in ((0, 1), (1, 1))] + [("c12_ops", [p, r, 3]) for p, r in ((5, 1), (1, 1), (0, 0))],
    "reach": [1, 2],
    "bounds": "sequences of up to 3 (thorough: 4) arbitrary numeric, drop and select opcodes on up to 4 (5) parameters of unconstrained types, in reachable and unreachable code; a symbolic operation among 300 and 70,000",
    "assume": VALID,
}

PROPS["C13"] = {
    "quick": [("c13_free", [n, r]) for n in (1, 2, 3) for r in (0, 1)] + [("c13_tokens", a) for a in ([2, 0, 1], [3, 1, 0], [3, 1, 1], [3, 2, 1])]
    + [("c13_one", [1, 2, 0, 0]), ("c13_if", [1, 1, 1, 1]), ("c13_if", [2, 1, 0, 0]), ("c13_if", [1, 2, 0, 1]), ("c13_two", [1, 1, 0, 0])]
    + [("c13_deep", a) for a in ([3, 1, 1, 0], [3, 5, 1, 1], [8, 1, 0, 0], [2, 1, 2, 2])] + [("c13_table", [1, 2, 5, 1])] + [("c13_labels", [d, k, r]) for d, k, r in ((1, 1, 0), (2, 2, 1), (3, 3, 1))]
    + [("c13_return", [k, i, n, r]) for k, i, n, r in ((0, 0, 1, 0), (2, 0, 1, 1), (2, 1, 1, 1), (1, 1, 1, 0))] + [("c13_below", [2, 2, 2]), ("c13_below", [1, 3, 1]), ("c13_chain", [2])]
    + [("c13_tower", a, [1, 2]) for a in ([40, 41, 1, 0], [40, 41, 5, 1], [40, 20, 1, 0], [40, 39, 1, 3], [40, 0, 1, 2], [40, 20, 5, 3])] + [("c13_big", [300, o], [1, 2]) for o in (12, 13, 14)] + [("c13_above", [n, k]) for n in (300, 70000) for k in (2, 3, 4)]
    + [("c13_free", [4, 1]), ("c13_table", [2, 2, 1, 0]), ("c13_one", [1, 2, 1, 1]), ("c13_two", [1, 1, 1, 1]), ("c13_tokens", [4, 1, 1])],
    "thorough": [("c13_deep", [4, 2, 1, 3]), ("c13_table", [2, 1, 1, 1]), ("c13_free", [4, 0]), ("c13_free", [5, 0]), ("c13_free", [5, 1]), ("c13_tokens", [5, 1, 1]), ("c13_tokens", [5, 2, 0]), ("c13_table", [3, 3, 1, 1]), ("c13_chain", [3]), ("c13_one", [1, 3, 0, 1]), ("c13_one", [2, 3, 1, 1]), ("c13_two", [2, 1, 0, 1]), ("c13_two", [2, 2, 1, 1]), ("c13_if", [2, 2, 1, 1])],
    "reach": [1, 2],
    "bounds": "bodies of 4 (thorough: 5) unconstrained bytes; sequences of 4 (5) instructions incl. structured ones; blocks, ifs and two nested or consecutive blocks of unconstrained kind and type with up to 2 (3) instructions inside and 1 after; nests of up to 8 constructs of unconstrained result types and of 40 with one unconstrained construct, with label indices of 1-5 bytes; br_table with up to 3 labels; symbolic labels below 300 constructs; constructs above 300 and 70,000 operands",
    "assume": VALID,
}

PROPS["C14"] = {
    "quick": [("c14_local", [p, w, r, d]) for p in (0, 1, 3) for w in (1, 5) for r in (0, 1) for d in (0, 1)] + [("c14_locals", [p, k, r]) for p, k, r in ((1, 1, 1), (1, 2, 1), (2, 2, 0))]
    + [("c14_global", [i, o, w, r]) for i, o in ((0, 0), (1, 0), (0, 1), (2, 2)) for w in (1, 5) for r in (0, 1)] + [("c14_global_dead", [i, h]) for i in (0, 1, 2) for h in (0, 1)]
    + [("c14_call", [i, p, w, r]) for i in (0, 2) for p in (0, 1, 2) for w in (1, 5) for r in (0, 1)] + [("c14_indirect", [t, p, w, r]) for t in (0, 1, 2) for p in (1, 2, 3) for w in (1, 5) for r in (0, 1)]
    + [("c14_indirect_wide", [t, w]) for t in (0, 1) for w in (1, 5)] + [("c14_call_dead", [h, r]) for h in (0, 1) for r in (0, 1)]
    + [("c14_mem", [m, p, w, v]) for m in (0, 1, 2) for p in (1, 2, 3) for w in (1, 5) for v in (0, 1)] + [("c14_mem_dead", [p, r]) for p in (0, 1, 2) for r in (0, 1)]
    + [("c14_grow", [m, p, w, r]) for m in (0, 1, 2) for p in (0, 1) for w in (1, 5) for r in (0, 1)] + [("c14_pair", [2, 1]), ("c14_pair", [1, 0]), ("c14_pair", [2, 0]), ("c14_locals", [2, 3, 1])]
    + [("c14_big", a) for a in ([300, 0], [300, 1], [3000, 0], [3000, 1])] + [("c14_big_index", [300, k]) for k in (0, 1)],
    "thorough": [("c14_pair", [3, 1]), ("c14_pair", [3, 0]), ("c14_big_index", [3000, 0]), ("c14_big_index", [3000, 1])],
    "reach": [1, 2],
    "bounds": "one or two (locals: three) instructions with indices and immediates of 1 to 5 bytes on up to 3 parameters of unconstrained types, up to 4 globals, 4 functions, one memory and table, imported, own or absent; calls with 300 and 3,000 parameters, and indices near the ends of 300 (3,000) types and globals",
    "assume": VALID,
}

PROPS["C15"] = {
    "quick": [("c15_one", [p, r, k]) for p, r, k in ((0, 0, 1), (1, 1, 1), (1, 1, 2), (2, 0, 2), (2, 1, 3), (2, 0, 3), (0, 2, 2))] + [("c15_multi", [1, 2]), ("c15_multi", [2, 1]), ("c15_multi", [3, 1])]
    + [("c15_position", [n, k]) for n, k in ((1, 2), (5, 2), (9, 2))] + [("c15_runs", [3, 1, 1]), ("c15_runs", [2, 40, 1]), ("c15_runs", [1, 130, 2]), ("c15_runs", [0, 0, 5]), ("c15_runs", [2, 3, 5])]
    + [("c15_imports", [1, 1]), ("c15_imports", [2, 1]), ("c15_imports", [2, 2])] + [("c15_leak", [k]) for k in (1, 2, 3)]
    + [("c15_big", a) for a in ([300, 0], [300, 1], [300, 2], [70000, 0], [3000, 1], [3000, 2])] + [("c15_big_call", [n]) for n in (300, 3000)],
    "thorough": [("c15_multi", [2, 2]), ("c15_one", [3, 1, 4]), ("c15_runs", [3, 100, 2]), ("c15_leak", [4]), ("c15_imports", [1, 3])],
    "reach": [1, 2],
    "bounds": "up to 3 functions (9 in fixed templates) of unconstrained declared type and locals with up to 3 instructions each (thorough: 4); up to 70,000 locals, 3,000 runs of locals or parameters, and 3,000 functions, with any index near the ends of the range",
    "assume": VALID,
}

PROPS["C16"] = {
    "quick": [("c16_free", [at, i, n]) for at in range(4) for i in (0, 2) for n in (0, 1, 2, 3)] + [("c16_free", [at, 1, 4]) for at in range(4)]
    + [("c16_get", [at, i, w]) for at in range(4) for i in (0, 1, 3) for w in (1, 5)] + [("c16_int", [at, w]) for at in range(4) for w in (1, 5, 10)] + [("c16_float", [at, o]) for at in range(4) for o in (0x43, 0x44)]
    + [("c16_seq", [at, i, k]) for at in range(4) for i in (0, 2) for k in (0, 1, 2)] + [("c16_seq", [at, 1, 3]) for at in range(4)] + [("c16_after", [at, f]) for at in range(4) for f in (0x41, 0x42, 0x23)]
    + [("c16_block", [at]) for at in range(4)] + [("c16_segments", [k, i]) for k in (9, 11) for i in (0, 2)] + [("c16_globals", [i]) for i in (0, 1, 2)] + [("c16_big", [300, at]) for at in range(4)],
    "thorough": [("c16_free", [at, 1, 5]) for at in range(4)] + [("c16_seq", [at, 2, 4]) for at in range(4)],
    "reach": [1, 2],
    "bounds": "expressions of up to 4 (thorough: 5) unconstrained bytes, or 3 (4) instructions, or one constant or global read in full width, in each of the places (first and second global, element and data offset) with up to 3 imported globals of unconstrained type; reads near the ends of 300 imported globals",
    "assume": VALID,
}

PROPS["C17"] = {
    "quick": [("c17_limits", [k, o, a, b]) for k in (1, 2) for o in (0, 1) for a, b in ((1, 0), (5, 0), (1, 1), (5, 5), (1, 5), (5, 1))]
    + [("c17_count", [k, t, m]) for k in (0, 1, 2, 3) for t in (0, 1, 2) for m in (0, 1, 2)] + [("c17_each", [1]), ("c17_each", [2])]
    + [("c17_results", a) for a in ([0, 1, 2], [1, 1, 1], [2, 0, 1], [0, 2, 1], [0, 0, 0], [0, 1, 3])] + [("c17_names", [k, l]) for k, l in ((1, 3), (2, 0), (2, 1), (3, 2), (2, 5), (4, 1), (2, 20))]
    + [("c17_prefix", [4]), ("c17_prefix", [5]), ("c17_names_kinds", [])] + [("c17_export", [n, w]) for n in (0, 1, 2) for w in (1, 5)] + [("c17_start", [1]), ("c17_start", [5])]
    + [("c17_indices", [i, w]) for i in range(15) for w in (1, 5)] + [("c17_elem", [t, k]) for t in (0, 1, 2) for k in (0, 1, 2, 3)] + [("c17_data", [m, k]) for m in (0, 1, 2) for k in (0, 2)]
    + [("c17_free", [n]) for n in (0, 4, 7)] + [("c17_mutate", [1, 1, 12], [1, 2]), ("c17_without", [])]
    + [("c17_big", a, [2] if a[2] in (1, 13) else [1, 2]) for a in ([300, 10, 13], [300, 10, 14], [600, 22, 1], [600, 22, 2])] + [("c17_big_index", a) for a in ([300, 7], [300, 8], [300, 9], [3000, 7])],
    "thorough": [("c17_mutate", [2, 1, 12]), ("c17_free", [8]), ("c17_free", [9]), ("c17_names", [5, 2]), ("c17_count", [4, 1, 1])],
    "reach": [1, 2],
    "bounds": "each constraint with numbers of up to 5 bytes, up to 3 (thorough: 4) imports of unconstrained kind, up to 5 export names of up to 5 (20) bytes, a symbolic name among 300 and 600, a symbolic index among 300 and 3,000, 7 (9) unconstrained bytes after the preamble, and 1 (2) consecutive unconstrained bytes anywhere in a populated valid module",
    "assume": VALID + ["in c17_free and c17_mutate, functions with more than 6 locals are left out"],
}

PROPS["C18"] = {
    "quick": [("c18_imports", a) for a in ([0, 1, 2, 3], [3, 2, 1, 0], [3, 3, 0, 0], [1, 0, 2, 3], [2, 9, 9, 9], [9, 9, 9, 9])] + [("c18_spaces", a) for a in ([0, 1, 3], [1, 1, 3], [2, 1, 0], [2, 2, 3], [2, 2, 1], [3, 1, 0])]
    + [("c18_same", [k, i, o, e]) for k in (0, 3) for i, o, e in ((0, 2, 2), (2, 0, 2), (2, 2, 2), (3, 3, 1))] + [("c18_same", [k, i, o, 2]) for k in (1, 2) for i, o in ((1, 0), (0, 1))]
    + [("c18_limits", [k, o, a, b]) for k in (1, 2) for o in (0, 1) for a, b in ((1, 0), (5, 0), (5, 5), (2, 3))] + [("c18_uses", [a, b]) for a, b in ((0, 0), (1, 2), (2, 1), (2, 2))] + [("c18_func", [p, r]) for p, r in ((0, 0), (4, 1), (12, 1))] + [("c18_big", [n]) for n in (200, 300, 600)] + [("c18_big_func", [n]) for n in (300, 3000)],
    "thorough": [("c18_spaces", [3, 2, 0]), ("c18_spaces", [3, 2, 3]), ("c18_same", [0, 3, 3, 3]), ("c18_same", [3, 4, 4, 3]), ("c18_uses", [3, 3])],
    "reach": [1, 2],
    "bounds": "up to 4 imports of any kind and description, 2 own functions and globals, up to 3 exports of unconstrained kind and index; limits in full width; function types of up to 12 parameters; an exported global or function near the ends of up to 600 imported and 600 own globals or 3,000 imported and 3,000 own functions",
}

PROPS["C19"] = {
    "quick": [("c19_none", [], [1, 2])] + [("c19_args", [1, a]) for a in range(9)] + [("c19_args", [2, a + 10 * b]) for a in (0, 1, 2, 3, 7) for b in (0, 1, 2, 3, 7)]
    + [("c19_args", [3, a + 10 * b + 100 * c]) for a in (1, 2, 7) for b in (1, 2, 7) for c in (1, 2, 7)] + [("c19_args", [4, a]) for a in (1121, 7117, 2711, 1277)]
    + [("c19_wide", [n]) for n in (1, 2, 3, 4)] + [("c19_free", [n]) for n in (0, 1, 4, 7, 8, 9, 10)] + [("c19_module", [n]) for n in (1, 2, 3, 4, 5)] + [("c19_body", [n]) for n in (0, 1, 2)]
    + [("c19_long", [n]) for n in (31, 4000, 8192, 20000)],
    "thorough": [("c19_args", [3, a + 10 * b + 100 * c]) for a in (0, 1, 2, 3, 7, 8) for b in (0, 3, 8) for c in (0, 3, 8)] + [("c19_module", [6]), ("c19_body", [3]), ("c19_long", [70000])],
    "reach": [1, 2, 3, 4],
    "bounds": "up to 4 arguments of up to 8 unconstrained ASCII characters (one or two arguments of up to 4 bytes of any valid UTF-8) against a directory of twelve files of both verdicts; files of up to 10 unconstrained bytes, 5 (thorough: 6) after the preamble, bodies of 2 (3) bytes, files of up to 20,000 (70,000) bytes; missing files and directories",
    "assume": ["the executor's model of open, read, write, stat, exit and the argument vector stands for the operating system", "arguments are valid UTF-8 and name entries of the working directory", "the tool's main.rs is compiled as a library with a function calling main added; the native runs use the program as it is"],
}

PROPS["C20"] = {
    "quick": [("c20_byte", [0], [2]), ("c20_byte", [1], [1]), ("c20_byte", [3], [1]), ("c20_compare", [], [1, 2, 3, 4]), ("c20_arrays", [], [1, 2]), ("c20_show", [], [1]), ("c20_sized", [], [1, 2, 3, 4]), ("c20_sized_show", [], [1])]
    + [("c20_consume", [n, m]) for n, m in ((0, 0), (0, 3), (3, 5), (6, 5), (5, 5), (127, 127), (200, 230))] + [("c20_consume", [n, 8]) for n in range(12)],
    "bounds": "all bytes and characters and all pairs of them; arrays of four; sized items of two bytes; up to 232 bytes of skipped content",
}

PROPS["C21"] = {
    "quick": [("c21_preamble", [n], [1, 2, 3] if n > 7 else []) for n in (0, 1, 3, 4, 5, 7, 8, 9)] + [("c21_section", [k, n], [1, 3]) for k in range(12) for n in (0, 1)] + [("c21_tag", [k], [1, 2]) for k in range(20)]
    + [("c21_opcode", [n, i], [1, 3]) for n in (0, 1, 2, 5) for i in (0, 1)] + [("c21_else", [k, n], [1, 2]) for k in (0, 1, 2) for n in (2, 4)] + [("c21_cut", [12], [1, 2])]
    + [("c21_size", [k, m], [1]) for k in range(1, 12) for m in (0, 1)] + [("c21_sized", [n], [1, 2, 3]) for n in (0, 2, 130)] + [("c21_body", [m], [1]) for m in (0, 1)]
    + [("c21_content", [k], [1, 2]) for k in range(10)] + [("c21_inner", [k], [1, 2]) for k in range(21)] + [("c21_number", [k, 5], [1]) for k in range(15)] + [("c21_short", [k], [1]) for k in range(22)] + [("c21_const", [w], [1, 2]) for w in (32, 64)] + [("c21_text", [k], [1]) for k in range(4)] + [("c21_texts", [], [1])] + [("c21_big", [n, k], [1]) for n in (300, 70000) for k in range(5)] + [("c21_big", [300, 5], [1])],
    "thorough": [("c21_section", [k, 3]) for k in range(12)] + [("c21_opcode", [n, i]) for n in (9, 30) for i in (0, 1)] + [("c21_else", [k, 7]) for k in (0, 1, 2)],
    "bounds": "inputs with one defect: any preamble; any section id after each section of a populated module, 1 (thorough: 3) unconstrained bytes behind its content; any value of twenty kinds of tag bytes and of opcodes, stand-alone and in twenty-one places of a module; every cut of a populated module and of twenty-two stand-alone items; any number of five bytes in fifteen places of a module; sizes too large by up to 99; numbers of five and ten bytes with any last byte; names of any two bytes; defects of six kinds behind 300 or 70,000 sound parts; the texts of all kinds of errors with any byte",
    "assume": ["nothing is said about the error for inputs with several defects, nor about which of end of file and size mismatch is returned when content needs more than its size"],
}

PROPS["C22"] = {
    "quick": [("c22_instr", [n], [1, 2]) for n in (1, 2, 3)] + [("c22_same", [n], [1, 2]) for n in (2, 5)] + [("c22_expr", [n], [1, 2]) for n in (2, 3)] + [("c22_float", [w], [1, 2]) for w in (4, 8)]
    + [("c22_entry", [k, 4], [1, 2]) for k in range(13)] + [("c22_wide", [k], [1, 2]) for k in range(18)] + [("c22_module", [k], [1, 2]) for k in range(1, 12)] + [("c22_error", [], [1, 2])] + [("c22_big", [n, k], [1, 2]) for n in (300, 70000) for k in range(5)],
    "thorough": [("c22_same", [6]), ("c22_instr", [4]), ("c22_expr", [4])] + [("c22_entry", [k, 5]) for k in range(13)],
    "bounds": "pairs of instructions of 3 (thorough: 4) unconstrained bytes, of the same opcode with 5 (6), of expressions of 3 (4), of entries of thirteen kinds of 4 (5), of entries and instructions of eighteen kinds with all numbers in full width, of float constants, of populated modules with one unconstrained byte each at the same place, of values of five kinds with 300 or 70,000 parts that differ in one or in number, and of errors of any kinds with any byte",
    "assume": ["the bytes 43 and 44 are left out where float constants could occur; these are compared separately"],
}

PROPS["C23"] = {
    "quick": [("c23_body", a, [1, 2]) for a in ([1, 0, 0], [1, 0, 1], [2, 0, 0], [2, 0, 1], [3, 0, 0], [3, 0, 1], [1, 1, 0], [1, 1, 1], [1, 2, 0], [1, 2, 1], [2, 1, 0], [2, 1, 1])] + [("c23_body", [1, 3, 1], [1, 2])]
    + [("c23_marker", [k], [2] if k < 25 else [1]) for k in range(26)] + [("c23_results", [n, h], [1] if n < 2 else [2]) for n in range(4) for h in range(8)],
    "thorough": [("c23_body", [2, 2, 0]), ("c23_body", [2, 2, 1]), ("c23_body", [1, 4, 1]), ("c23_body", [4, 0, 1])],
    "bounds": "bodies of up to 3 (thorough: 4) instructions, or of 1-2 instructions of which structured ones hold up to 3 (4) more, else and end markers and result types of up to two values included; markers at twenty-five places of a valid module; constructs with up to 3 results",
    "assume": ["instructions in memory are chosen among unreachable, nop, markers, drop, return, two constants, a parameter, branches with any label in reach and two beyond, and the structured ones"],
}


def _deep(b, replay):
    k, d, _ = replay(b["replay"], "c11_deep", "", [400000])
    return k == "crash", k + " " + d


def _locals(b, replay):
    k, d, _ = replay(b["replay"], "c11_locals", "", [])
    return k == "alloc", k + " " + d


KNOWN["deep-nesting"] = _deep
KNOWN["locals-run"] = _locals
