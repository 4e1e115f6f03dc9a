"""Which symbolic runs decide which property, and within what bounds."""

TRUSTED = [
    "rustc's lowering to LLVM IR (the IR encoded is the one a dev build with overflow checks and debug assertions generates)",
    "symx (LLVM IR symbolic executor in /verif/symx), validated per run by native replay of sampled paths and by re-proving its table rewrites with z3",
    "z3 5.3.2; cvc5 1.1.2 as a second opinion in the thorough tier",
]
COMMON_ASSUMPTIONS = [
    "x86-64 little-endian target; allocation never fails",
    "trits are stored one per byte with values 0..2 (the B1T1 representation the crate uses)",
]
TROIKA_UF = "the Troika permutation is an uninterpreted total function on states (the same one everywhere); what is shown holds for every permutation, Troika included"

PROPS = {
    "C01": dict(
        jobs=[dict(h="c01_trits", quick=[0, 1, 2, 3, 4], probe=False, validate=800),
              dict(h="c01_near", quick=[2, 3, 4], probe=False, validate=800),
              dict(h="c01_int", quick=[0, 1, 2], thorough=[0, 1, 2, 3], probe=False, validate=800),
              dict(h="c01_tryte", quick=[()], probe=False, validate=800)],
        bounds="all 3^n trit values for the five widths n in {1,3,6,9,18} at slice offset 2 with neighbours on both sides (this also covers every integer of each range, since reading is shown to be the bijective balanced-ternary sum); "
               "integer-first round trip for the 1-, 3-, 6-trit (thorough: 9-trit) ranges; all 27 trytes",
        outside="integers outside the representable range",
    ),
    "C02": dict(
        jobs=[dict(h="c02_str", quick=[0, 1, 2, 3], thorough=[0, 1, 2, 3, 4, 5], probe=False, anycover=[1, 2], covers=[]),
              dict(h="c02_utf8", quick=[(2, 0), (3, 1), (4, 3)], thorough=[(l, p) for l in (2, 3, 4) for p in range(4)], probe=False),
              dict(h="c02_trits", quick=[0, 1, 2, 3, 5, 6, 7, 9], thorough=list(range(0, 31)), probe=False),
              dict(h="c02_window", quick=[(0, 1), (1, 1), (2, 1), (3, 1), (4, 2), (5, 2), (7, 2)], thorough=[(m, n) for m in range(0, 11) for n in range(0, 4)], probe=False, covers=[], anycover=[1, 2]),
              dict(h="c02_char", quick=[()], probe=False, covers=[1, 2])],
        bounds={"quick": "all ASCII strings up to 3 characters (every one of 128 values per character), strings with one 2-, 3- or 4-byte character at sampled positions, all trit sequences of lengths 0..9 listed, destination windows up to 7 trits, every Unicode scalar for the character helpers",
                "thorough": "all ASCII strings up to 5 characters, one multi-byte character at every position of a 3-character string, all trit sequences up to 30 trits, windows 0..10 trits with strings of 0..3 characters, every Unicode scalar for the character helpers"},
        outside="longer strings (the code handles each character independently of its position, which is argued, not decided)",
    ),
    "C03": dict(
        jobs=[dict(h="c03_i32", quick=[0, 1, 2], probe=False),
              dict(h="c03_usize", quick=[0, 1], probe=False),
              dict(h="c03_agree", quick=[(0, 31), (1, 31)], probe=False)],
        bounds="every i32 for moduli 3, 27, 19683; every usize below 2^63 for the unsigned variants (moduli 3, 27); agreement on every value below 2^31",
        outside="usize values of 2^63 and above",
    ),
    "C04": dict(
        jobs=[dict(h="c04_move", quick=[4, 9], thorough=[4, 9, 16], probe=False),
              dict(h="c04_ranges", quick=[0, 1], probe=False, covers=[1, 2, 3]),
              dict(h="c04_overlap", quick=[()], probe=False),
              dict(h="c04_bulk", quick=[0, 1, 2, 3, 5, 8], thorough=list(range(0, 25)), probe=False),
              dict(h="c04_min", quick=[(0, 2), (2, 0), (3, 3), (2, 5), (5, 2)], thorough=[(n, m) for n in range(0, 7) for m in range(0, 7)], probe=False),
              dict(h="c04_cycle", quick=[(1, 4), (3, 7), (4, 4), (5, 3)], thorough=[(n, m) for n in range(1, 7) for m in range(0, 14)], probe=False, covers=[1]),
              dict(h="c04_views", quick=[0, 1, 4, 7], thorough=list(range(0, 16)), probe=False),
              dict(h="c04_inc", quick=[0, 1, 2, 3, 4], thorough=list(range(0, 10)), probe=False, covers=[], anycover=[1, 2])],
        bounds={"quick": "window arithmetic: every start/end/amount up to 2^40 (no memory); memory operations: every trit content for windows up to 8 trits with margins on both sides",
                "thorough": "window arithmetic: every start/end/amount up to 2^40; memory operations: every trit content for windows up to 24 trits (bulk), 15 (views), 9 (increment), 6x13 (cycle)"},
        outside="larger windows (the loops treat trits independently of the window size)",
    ),
    "C05": dict(
        jobs=[dict(h="c05_eq", quick=[(0, 0), (0, 1), (1, 1), (2, 2), (3, 3), (2, 3), (4, 4)], thorough=[(n, m) for n in range(0, 9) for m in range(0, 9)], probe=False, covers=[], anycover=[1, 2]),
              dict(h="c05_trans", quick=[1, 3], thorough=[1, 2, 3, 4, 5, 6], probe=False),
              dict(h="c05_clone", quick=[1, 3, 6], thorough=list(range(1, 13)), probe=False)],
        bounds={"quick": "all pairs (triples) of sequences up to 4 (3) trits at differing offsets; clones up to 6 trits", "thorough": "pairs up to 8 trits, triples up to 6, clones up to 12"},
        outside="longer sequences",
    ),
    "C06": dict(
        jobs=[dict(h="c06_round", quick=[()], probe=False, validate=800),
              dict(h="c06_whole", quick=[0, 1, 2], probe=False),
              dict(h="c06_cells", quick=[(0, 365), (365, 729)], probe=False, validate=0),
              dict(h="c06_overwrite", quick=[()])],
        bounds="each of the 24 rounds, split in two steps (S-box and shifts; column parity and round constant), from every one of the 3^729 states; set/get: every state, every one of the 729 cells, every value",
        outside="nothing within the permutation: composition of the steps is the recorded order of the step calls (48 checked in sequence); the hook that separates the steps is trusted to be called between them",
        assumptions=["the specification (S-box, lane shifts, parity) is written independently in the harness; the round constants are a frozen copy"],
    ),
    "C07": dict(
        jobs=[dict(h="c07_chunks", quick=[(op, 484, 4, 1) for op in range(12)] + [(op, 3, 1000, 0) for op in (0, 1, 2, 3, 4, 5, 6)] + [(0, 0, 486, 1), (2, 485, 500, 1)],
                   thorough=[(op, 480, 12, 1) for op in range(12)] + [(op, 3, 1500, 1) for op in range(12)] + [(op, 486, 486, 1) for op in range(12)], cost=2),
              dict(h="c07_commit", quick=[(0, 5), (1, 486), (486, 600), (485, 0)], thorough=[(p, n) for p in (0, 1, 242, 243, 485, 486, 487, 600) for n in (0, 1, 5, 100, 485, 486, 487, 1000)]),
              dict(h="c07_troika_sponge", quick=[(5, 10), (245, 250), (486, 486), (0, 3)], thorough=[(n, m) for n in (0, 1, 5, 100, 242, 243, 244, 260, 486, 487, 800) for m in (0, 1, 243, 244, 486, 500)])],
        bounds={"quick": "all 12 entry points; every content of the key, the prefix and up to 1000 trits of data; every division in up to four pieces (two cuts anywhere) of 4 trits across a block boundary; every one-cut division near block boundaries, ends and middle of 1000 trits",
                "thorough": "as quick with two cuts, 12 trits across the boundary at every division, 486 and 1500 trits at the boundary-related cuts"},
        outside="more than two non-empty cuts at once; longer data (the loop handles block after block)",
        assumptions=[TROIKA_UF],
    ),
    "C08": dict(
        jobs=[dict(h="c08_roundtrip", quick=[(p, n) for p in (0, 1, 485) for n in (0, 1, 2, 486)] + [(0, 485), (0, 487), (200, 286), (200, 287), (3, 1000)],
                   thorough=[(p, n) for p in (0, 1, 2, 100, 243, 484, 485, 486, 487) for n in (0, 1, 2, 3, 100, 242, 243, 244, 384, 385, 386, 387, 485, 486, 487, 488, 972, 973, 1458, 2000)]),
              dict(h="c08_window", quick=[(480, 10, 0), (480, 10, 1), (3, 1000, 0), (3, 1000, 1)], thorough=[(p, n, d) for p in (0, 1, 480, 485) for n in (1, 6, 20, 486, 487, 1000) for d in (0, 1)])],
        bounds={"quick": "every key (243 trits), prefix and plaintext; lengths 0..1000 listed per run, at the listed positions within the block; every split of in-place windows at the cuts listed in c08_window",
                "thorough": "every key, prefix and plaintext; 9 positions x 20 lengths up to 2000 trits"},
        outside="other lengths",
        assumptions=[TROIKA_UF],
    ),
    "C09": dict(
        jobs=[dict(h="c09_compare", quick=[(0, 1), (480, 10), (480, 500), (0, 243)], thorough=[(p, n) for p in (0, 1, 480, 485) for n in (1, 2, 10, 243, 486, 487, 700)], covers=[1, 2]),
              dict(h="c09_fork", quick=[(5, op, 490, 8) for op in range(7)] + [(0, 0, 3, 0), (485, 2, 1, 100)], thorough=[(p, op, n, q) for p in (0, 5, 485) for op in range(12) for n in (1, 490) for q in (0, 8, 485)]),
              dict(h="c09_join", quick=[(0, 0), (300, 300), (485, 243), (243, 244)], thorough=[(p, q) for p in (0, 1, 242, 243, 244, 485) for q in (0, 1, 242, 243, 244, 485)]),
              dict(h="c09_inner", quick=[(0, 486), (5, 486), (0, 1000), (485, 972)], thorough=[(p, n) for p in (0, 1, 5, 485, 486) for n in (486, 487, 972, 1000, 1458)])],
        bounds={"quick": "every content; compared streams up to 500 trits, forks moved by each operation with up to 490 trits, joins at the listed positions, restored states absorbing 486..1000 trits",
                "thorough": "every content; more positions and lengths (up to 1458 trits)"},
        outside="other lengths; restored states absorbing less than a full block (documented not to agree)",
        assumptions=[TROIKA_UF],
    ),
    "C10": dict(
        jobs=[dict(h="c10_gen", quick=[(0, 5), (1, 243), (10, 50), (243, 486), (300, 500), (700, 81)], thorough=[(n, m) for n in (0, 1, 10, 100, 242, 243, 244, 300, 486, 729, 1000) for m in (0, 1, 50, 243, 486, 487, 1000)]),
              dict(h="c10_differ", quick=[0, 10, 200], thorough=[0, 10, 200, 300, 600], cost=3)],
        bounds={"quick": "every key, nonce (up to 700 trits) and division in up to four pieces at the listed cuts; outputs up to 500 trits; sensitivity: every pair of different (key, nonce) of equal length up to 200 trits of nonce",
                "thorough": "nonces up to 1000 trits, outputs up to 1000 trits; sensitivity up to 600 trits of nonce"},
        outside="longer nonces and outputs",
        assumptions=[TROIKA_UF, "sensitivity (c10_differ) only: the permutation has no two states whose images agree on the first 243 or on the last 243 trits"],
    ),
    "C11": dict(
        jobs=[dict(h="c11_sizeof", quick=[()], probe=False),
              dict(h="c11_round", quick=[(k, d, p) for k in (0, 1) for d in range(0, 14) for p in (0,)] + [(1, 13, 470), (0, 7, 480)],
                   thorough=[(k, d, p) for k in (0, 1) for d in range(0, 14) for p in (0, 444, 450, 460, 470, 483, 484, 485)]),
              dict(h="c11_decode", quick=[(0, n) for n in range(0, 46)] + [(1, n) for n in (0, 2, 3, 5, 6, 9, 14, 15, 41, 42, 45)],
                   thorough=[(k, n) for k in (0, 1) for n in range(0, 60)], covers=[], anycover=[1, 2]),
              dict(h="c11_canon", quick=list(range(0, 14)))],
        bounds="every size 0..(27^13-1)/2 (by digit count, all digits symbolic), every trit buffer of each length 0..45 (thorough: 0..59); head tryte and most significant digit by case split over their 27 values, the rest symbolic",
        outside="longer buffers (nothing beyond 42 trits is read, which the unread remainder checks show at 45)",
        assumptions=[TROIKA_UF],
    ),
    "C12": dict(
        jobs=[dict(h="c12_fixed", quick=[(k, w, p, c) for k in (0, 1, 2) for (w, p, c) in ((3, 0, 0), (3, 484, 2), (6, 484, 5), (9, 480, 4), (18, 480, 17), (18, 0, 0))],
                   thorough=[(k, w, p, c) for k in (0, 1, 2) for w in (3, 6, 9, 18) for p in (0, 1, 470, 480, 484, 485, 486) for c in range(0, w)]),
              dict(h="c12_patterns", quick=[(k, w) for k in (0, 1) for w in (3, 6, 9, 18)])],
        bounds={"quick": "every value of each width, absorbed, masked and plain; every state (key 243 trits and prefix symbolic) at the listed block positions; truncations 0, middle and width-1",
                "thorough": "as quick at seven block positions, every truncation"},
        outside="nothing else is read by these functions",
        assumptions=[TROIKA_UF],
    ),
    "C13": dict(
        jobs=[dict(h="c13_var", quick=[(k, n, p) for k in (0, 1) for (n, p) in ((0, 0), (1, 0), (5, 484), (13, 100), (14, 100), (200, 480), (365, 0))],
                   thorough=[(k, n, p) for k in (0, 1) for n in (0, 1, 2, 13, 14, 100, 161, 162, 163, 364, 365, 500, 1000) for p in (0, 1, 479, 480, 485)]),
              dict(h="c13_fixed", quick=[(k, n, p) for k in (0, 1) for (n, p) in ((0, 0), (1, 0), (10, 480), (243, 243), (500, 480))],
                   thorough=[(k, n, p) for k in (0, 1) for n in (0, 1, 2, 10, 243, 485, 486, 487, 1000, 3000) for p in (0, 1, 480, 485)]),
              dict(h="c13_hostile", quick=[(k, n, 0) for k in (0, 1) for n in (0, 2, 3, 6, 9, 12, 30, 45)] + [(0, 100, 480), (1, 100, 480)],
                   thorough=[(k, n, p) for k in (0, 1) for n in list(range(0, 61)) + [100, 200, 300] for p in (0, 480)], covers=[], anycover=[1, 2])],
        bounds={"quick": "contents of 0..365 trytes (every content) at the listed block positions; every trit buffer of 0..100 trits of the listed lengths, any declared length; allocation limit 4096 bytes",
                "thorough": "contents of up to 1000 trytes at five block positions; every trit buffer of length 0..60, 100, 200, 300"},
        outside="longer contents (the body is handled by the sponge operations of C07 and C08)",
        assumptions=[TROIKA_UF],
    ),
    "C14": dict(
        jobs=[dict(h="c14_mac", quick=[0, 1, 300, 485], thorough=[0, 1, 100, 242, 243, 244, 300, 484, 485, 486]),
              dict(h="c14_history", quick=[(0, 5, 0), (480, 10, 0), (480, 10, 1)], thorough=[(p, n, m) for (p, n) in ((0, 1), (0, 5), (480, 10), (480, 500), (0, 487)) for m in (0, 1)], cost=2)],
        bounds={"quick": "every 243-trit tag, every history of the listed lengths (key and prefix symbolic); different histories: every pair of one length (10 trits, across a block boundary, absorbed or masked) after every common history",
                "thorough": "more lengths (up to 500 trits, several blocks)"},
        outside="histories of different length or shape compared with each other",
        assumptions=[TROIKA_UF, "c14_history only: the permutation has no two states whose images agree on the first 243 or on the last 243 trits"],
    ),
    "C15": dict(
        jobs=[dict(h="c15_join", quick=[(0, 0), (0, 300), (300, 5), (485, 243)], thorough=[(p, q) for p in (0, 1, 242, 243, 244, 300, 485) for q in (0, 1, 242, 243, 300, 485)]),
              dict(h="c15_differ", quick=[0], thorough=[0, 400, 485], cost=3)],
        bounds={"quick": "every identifier, every pair of states (key and prefix symbolic) at the listed block positions; every pair of different linked states", "thorough": "more block positions"},
        outside="other block positions",
        assumptions=[TROIKA_UF, "c15_differ only: the permutation has no two states whose images agree on the first 243 or on the last 243 trits"],
    ),
    "C16": dict(
        jobs=[dict(h="c16_sign", quick=[(0, 1, 13), (0, 1, 26), (1, 2, 0), (25, 26, 20), (38, 39, 13), (50, 51, 5), (76, 77, 26), (77, 78, 0), (77, 78, 13)],
                   thorough=[(i, i + 1, b) for b in (0, 13, 26) for i in range(78)] + [(i, i + 1, b) for b in range(27) for i in (0, 77)], cost=1),
              dict(h="c16_counts", quick=[()], thorough=[()], t=400, cost=4, opts=["--tab-cap", "81"])],
        bounds={"quick": "every hash (234 symbolic trits): chain lengths and data flow of key generation, signing (twice) and recovery, with the chains observed; every value of the listed hash trytes (others equal to the listed base), every PRNG key and 9-trit nonce: real chains walked, recovery and verification",
                "thorough": "real chains for every value of every single hash tryte at three bases, and of the first and last tryte at every base"},
        outside="hashes that differ from the bases in several trytes are covered by the chain-length check only; nonces longer than 9 trits (C10)",
        assumptions=[TROIKA_UF, "hash_data is one unknown function of (input, output size): C07 decides what they compute; c16_counts replaces repeated hashing by the identity and records the number of steps (guarded hooks VERIF_HASH, VERIF_REHASH)"],
    ),
    "C17": dict(
        jobs=[dict(h="c17_counts", quick=[()], thorough=[()], t=400, cost=4),
              dict(h="c17_order", quick=[()], thorough=[()], probe=False, cost=3),
              dict(h="c17_pair", quick=[(0, 77, 13), (0, 1, 0), (76, 77, 26), (5, 40, 7)], thorough=[(i, j, b) for b in (0, 7, 13, 26) for (i, j) in ((0, 77), (0, 1), (76, 77), (5, 40), (12, 13), (39, 78 - 1))])],
        bounds="every hash: the 81 chain lengths are 13 + tryte and a 3-digit checksum of minus the digit sum, each within 0..26; order lemma for every pair of digits, of partial sums within +-1100 and of checksums; every pair of hashes that differ in the listed two trytes directly",
        outside="the ideal-hash consequence (verification of another hash fails) is not decided separately; the order lemma is a step of the sum, composed over the 78 trytes by hand",
        assumptions=["repeated hashing is replaced by a recorder of the number of steps (guarded hook VERIF_REHASH); c16_sign walks the real chains", TROIKA_UF],
    ),
    "C18": dict(
        jobs=[dict(h="c18_life", quick=[(0, 0, 9), (1, 0, 9), (0, 2, 9), (1, 2, 9), (1, 3, 18)], thorough=[(k, d, n) for k in (0, 1) for d in range(5) for n in (3, 33)], t=400, cost=3)],
        bounds={"quick": "heights 0, 2 (both trees) and 3 (traversal), every key number of the whole life and after it; every PRNG key and nonce of 9 or 18 trits; one hash value (C16 covers every hash)",
                "thorough": "heights 0..4, both trees, nonces of 3 and 33 trits"},
        outside="larger heights (the tree itself is covered up to height 8 by C20); other hash values (C16)",
        assumptions=[TROIKA_UF, "hash_data is one unknown function (guarded hook VERIF_HASH)"],
    ),
    "C19": dict(
        jobs=[dict(h="c19_any", quick=[0, 1, 17, 18, 40, 13139, 13140, 13141, 13382, 13383], thorough=[0, 1, 4, 17, 18, 19, 100, 1000, 13139, 13140, 13141, 13382, 13383, 13384, 13625, 13626, 13627, 13869], covers=[], anycover=[1, 2], opts=["--tab-cap", "81"], t=300, cost=3),
              dict(h="c19_hash", quick=[0, 1, 233, 235], thorough=[0, 1, 81, 232, 233, 235, 243, 1000])],
        bounds={"quick": "every buffer of the listed lengths (all trits symbolic, so every header), one hash value; hashes of wrong size of the listed lengths",
                "thorough": "more lengths, up to tree height 3"},
        outside="lengths not listed, other hash values (C16 covers the dependence on the hash)",
        assumptions=[TROIKA_UF, "hash_data is one unknown function (guarded hook VERIF_HASH)"],
    ),
    "C20": dict(
        jobs=[dict(h="c20_history", quick=[(k, d, e) for k in (0, 1) for d in (0, 1, 2, 3, 4, 5, 6) for e in (0, 1)] + [(k, 7, 3) for k in (0, 1)], thorough=[(k, d, e) for k in (0, 1) for d in range(10) for e in (0, 1, 2, 3, 5)], probe=False),
              dict(h="c20_agree", quick=[0, 1, 2, 3, 5, 8], thorough=list(range(11)), probe=False),
              dict(h="c20_load", quick=[(0, 3), (1, 3)], thorough=[(0, 5), (1, 5)], probe=False),
              dict(h="c20_heights", quick=[63, 64, 65, 1000000], thorough=[63, 64, 65, 127, 128, 1000000, 2**63], probe=False)],
        bounds={"quick": "heights 0..7, every step of the whole life and beyond it, reloading at every step, every third or never; every value of the leaves, merging is an unknown function; loads of any (height 0..3, key number, number of nodes)",
                "thorough": "heights 0..9 (agreement 0..10), loads of heights 0..5"},
        outside="larger trees; node contents are not authenticated by load",
        assumptions=["leaves are four symbolic trits each, merging is an uninterpreted function of both children (the trees are generic in the hash type)"],
    ),
    "C24": dict(
        jobs=[dict(h="c24_header", quick=[(0, 0), (1, 0), (11, 0), (11, 480)], thorough=[(n, p) for n in (0, 1, 11, 14, 40, 200) for p in (0, 1, 300, 480, 485)]),
              dict(h="c24_tagged", quick=[(0, 0, 0), (5, 4, 0), (5, 4, 480), (40, 30, 100), (0, 170, 5), (170, 0, 5)],
                   thorough=[(n, m, p) for (n, m) in ((0, 0), (1, 1), (5, 4), (13, 14), (40, 30), (0, 170), (170, 0), (400, 400)) for p in (0, 1, 100, 480, 485)]),
              dict(h="c24_signed", quick=[(2, 3, 0, 1, 1)], thorough=[(0, 0, 0, 0, 0), (2, 3, 0, 1, 1), (20, 30, 400, 2, 0), (1, 1, 485, 2, 3)], opts=["--tab-cap", "81"], cost=4),
              dict(h="c24_announce", quick=[(0, 1)], thorough=[(0, 0), (0, 1), (400, 2)], opts=["--tab-cap", "81"], t=300, cost=5),
              dict(h="c24_change", quick=[(0, 1, 1)], thorough=[(0, 0, 0), (0, 1, 2), (400, 2, 1)], opts=["--tab-cap", "81"], t=400, cost=6)],
        bounds={"quick": "every content of the listed lengths (headers: type; tagged, signed: public and masked payload), every application instance, message and link identifier, every linked and current state (key and prefix symbolic) at the listed block positions; keys of every seed, trees of height 1; about twenty cut-off places per message",
                "thorough": "more lengths, block positions, trees of heights 0..2"},
        outside="messages that carry an NTRU key (announce with one, subscribe, unsubscribe); larger trees (C18, C20) and payloads (C07, C08)",
        assumptions=[TROIKA_UF, "in messages that carry a signature repeated hashing is replaced by recording its number of steps, so that an end of chain is the start (guarded hook VERIF_REHASH); C16 walks real chains"],
    ),
    "C25": dict(
        jobs=[dict(h="c25_tagged", quick=[(5, 4, w) for w in (4, 5, 6, 7, 8)] + [(0, 0, 6), (2, 2, 0), (2, 2, 1), (2, 2, 2), (40, 30, 4), (30, 40, 5)],
                   thorough=[(n, m, w) for (n, m) in ((1, 1), (2, 2), (5, 4), (40, 30)) for w in (0, 1, 2, 4, 5, 6, 7, 8)] , cost=3),
              dict(h="c25_tagged", quick=[(2, 2, 3)], thorough=[(2, 2, 3), (5, 4, 3)], t=300, cost=5),
              dict(h="c24_signed", quick=[(2, 1, 0, 1, 0)], thorough=[(2, 1, 0, 1, 0), (10, 10, 100, 2, 1)], opts=["--tab-cap", "81"], cost=4),
              dict(h="c24_announce", quick=[(0, 1)], opts=["--tab-cap", "81"], t=300, cost=5),
              dict(h="c24_change", quick=[(0, 1, 1)], opts=["--tab-cap", "81"], t=400, cost=6)],
        bounds={"quick": "every content of the listed lengths, identifiers and linked states; every change of the version, type, public payload, masked payload, linked identifier, linked state, application instance or message identifier that leaves the tag alone, every change of the tag alone; for signatures: what is signed is the fresh output of a state that absorbed everything before it, and any other key (expected, announced or new) fails",
                "thorough": "more lengths"},
        outside="changes of a size field and of the tag together with anything else (they need a forged tag, which the collision-free assumption does not exclude); a message read in another state whose size field decrypts to another size; signature trits (C16, C17, C19)",
        assumptions=[TROIKA_UF, "c25_tagged: the permutation has no two states whose images agree on the first 243 or on the last 243 trits", "signed messages as in C24"],
    ),
    "C26": dict(
        jobs=[dict(h="c26_any", quick=[(0, n, 0, 0) for n in (0, 2, 3, 5, 6, 9, 20, 40)]
                   + [(1, n, 0, 0) for n in (0, 80, 81, 83, 84, 86, 87, 90, 96)] + [(1, n, 0, 1) for n in (86, 87, 90, 96)] + [(1, 99, 0, 2), (1, 90, 400, 0), (1, 400, 0, 9)]
                   + [(6, n, 0, 0) for n in (80, 81, 100)],
                   thorough=[(0, n, p, 0) for n in range(0, 61) for p in (0, 480)] + [(1, n, 0, d) for n in range(84, 100) for d in (0, 1, 2)] + [(1, n, 0, 0) for n in range(0, 84)] + [(1, n, 0, d) for n in (200, 400) for d in (9, 10, 11, 12, 13)], covers=[1]),
              dict(h="c26_any", quick=[(2, 80, 0, 0), (2, 90, 0, 0), (2, 99, 0, 1), (3, 81, 0, 0), (3, 90, 0, 0), (3, 99, 0, 1)] + [(4, n, 0, 0) for n in (0, 242, 243, 245, 246, 263, 264, 300, 3000)] + [(5, n, 0, 0) for n in (0, 80, 323, 324, 341, 342, 400)],
                   opts=["--tab-cap", "81"], cost=2),
              dict(h="c26_keyload", quick=[(n, 0, d) for (n, d) in ((0, 0), (80, 0), (161, 0), (162, 0), (164, 0), (165, 0), (168, 0), (168, 1), (180, 1), (180, 2), (492, 1), (495, 1), (492, 2), (168, 2))],
                   thorough=[(n, 0, d) for d in (0, 1, 2, 3) for n in (165, 166, 167, 168, 170, 171, 174, 180, 489, 490, 491, 492, 495)])],
        bounds={"quick": "every buffer of each listed length (every trit symbolic; the head of one size field takes the listed value), read as header (0..40 trits), tagged packet (0..96, 400), signed packet, announcement, key change, keyload (no keys, up to 495 trits); every state at the listed block positions; allocation limit 16384 bytes",
                "thorough": "every length 0..60 (header), 0..99 (tagged), more keyloads"},
        outside="longer buffers; subscribe, unsubscribe and NTRU parts of keyloads; valid signatures in arbitrary data (C17, C19)",
        assumptions=[TROIKA_UF, "repeated hashing replaced by the identity (guarded hook VERIF_REHASH)"],
    ),
    "C27": dict(
        jobs=[dict(h="c27_psk", quick=[(0, 0, 0), (1, 0, 0), (1, 1, 0), (2, 0, 0), (2, 1, 480), (3, 0, 100), (3, 1, 0), (3, 2, 0), (3, 3, 0), (5, 4, 0), (5, 2, 300)],
                   thorough=[(n, j, p) for n in range(0, 8) for j in range(n + 1) for p in (0, 1, 300, 480)])],
        bounds={"quick": "up to five recipients, every position of the reader (or not listed), a reader that also holds a key that is not listed; every pre-shared key, session key, nonce, link identifier, linked and current state; fixed recipient identifiers; about twenty cut-off places",
                "thorough": "up to seven recipients, more block positions"},
        outside="recipients by public key (C29); other identifiers (they only decide places in std's hash map)",
        assumptions=[TROIKA_UF, "std's random hash map keys take one fixed value"],
    ),
}

NOT_APPLICABLE = {
    "C21": "not encoded yet",
    "C22": "the transform of a symbolic polynomial is 10 layers of 512 modular multiplications with reduction by division; equality of the result with the ring product is a nonlinear identity over 1024 16-bit words that neither bit-vector nor integer solving discharges within reach (and a transform of a fixed polynomial would be a test, not a solver verdict)",
    "C23": "decryption correctness needs the ring identity of C22 under rounding, beyond the reach of the solvers for the same reason; that a wrong capsule is rejected depends on it too",
    "C28": "not encoded yet",
    "C29": "the session key of a public-key recipient goes through the encapsulation of C23; subscribe and unsubscribe likewise carry or use an NTRU key (the pre-shared-key part of the keyload is C27)",
}
