"""Single source of truth: the properties and how each is decided.

gen.py turns this into properties.jsonl and MANIFEST.json; check.py runs it."""
SYNC = "tycho-types/sync"
TECH = "symbolic execution of rustc's LLVM IR of the crate with z3 (bounded), counterexamples replayed natively"
PROPS = {}
NOT_APPLICABLE = {}


def P(id, title, statement, over, text, why, files, mech, module, harnesses, features=SYNC, time=(560, 3000), assumptions=(), note="", parts=None, opts=()):
    PROPS[id] = {
        "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
        "parts": parts or [{"module": module, "features": features, "harnesses": harnesses}],
        "time": time, "assumptions": list(assumptions), "note": note, "engine_opts": list(opts),
    }


def H(bound, thorough=None, thorough_only=False):
    d = {"bound": bound}
    if thorough:
        d["bound_thorough"] = thorough
    if thorough_only:
        d["thorough_only"] = True
    return d


P("C01", "Builder stores append exactly the given bits or change nothing",
  "Every store into a cell builder (single bits, fixed-width and variable-width integers, raw bytes, zero/one runs, whole slices and builders, prepending) appends exactly the requested bits in big-endian order after the existing ones, whatever the current alignment. It succeeds exactly when the total stays within 1023 bits and 4 references, for every requested size up to the largest representable one, and a rejected store leaves the builder's length and bits as they were. Rewinding removes exactly the requested number of trailing bits, clearing removes all of them, and later stores see clean space. Taking a builder apart and putting it together, building it from raw data or from a cell, and replacing its references keep data, references and kind.",
  ["inputs", "histories"],
  "all builder fill levels (every alignment near empty, every distance to the capacity), all widths and all values of the stored data",
  "The tests store a few constants at a few alignments; shift and mask mistakes show only for particular combinations of alignment, width and value, and capacity wrap-around only for sizes nobody writes down.",
  ["src/cell/builder.rs"],
  [("store_raw/store_uint/store_small_uint/store_u8..u256", "src/cell/builder.rs"), ("rewind_bits, prepend_raw", "src/cell/builder.rs"), ("has_capacity", "src/cell/builder.rs")],
  "builder_store", {
      "st_fixed": H("bit/u8..u256, start 0..24 and capacity-9..capacity+3, value arbitrary"),
      "st_uint": H("0..70 bit widths, same starts, value arbitrary"),
      "st_small": H("0..10 bit widths, same starts, value arbitrary"),
      "st_raw": H("0..4 arbitrary bytes, widths 0..8*len+18, store and prepend"),
      "st_seq": H("prefix 0..17, store 32 bits, rewind 0..52, then 13 ones or zeros and 16 arbitrary bits"),
      "st_huge": H("any u16 width at any fill level that does not fit"),
      "st_huge_raw": H("any u16 width at fill 0, 511, 1022 that does not fit"),
      "st_refs": H("0..6 references, any u8 capacity question"),
      "st_parts": H("0..37 bits, 0..4 references with and without a level, ordinary or exotic; raw data of 0..50 and over 1023 bits"),
      "st_slice": H("37 arbitrary bits, windows at 0..9 of length 0..28, appended at start 0..17; slice, slice data, builder"),
  })

P("C02", "Slice reads return exactly the window's bits and never leave it",
  "Reading from a cell slice (bits, integers of every width, 256-bit words, raw bytes, references, at any relative offset) yields exactly the bits at that position of the cell and succeeds exactly when the requested range lies within the slice's current window. No read ever observes a bit or reference outside the window, for any requested offset and size, and a failed load leaves the slice where it was. Narrowing, splitting and skipping move both ends of the window by exactly the requested amounts.",
  ["inputs", "histories"],
  "all windows (every alignment), all offsets, all widths including ones far beyond the cell, all data bits",
  "The tests read a few aligned and unaligned values; a window that ends inside a byte, an offset applied on top of a shifted window, or a huge offset that wraps around are never sampled.",
  ["src/cell/slice.rs"],
  [("get_*/load_*", "src/cell/slice.rs"), ("CellSliceRange", "src/cell/slice.rs"), ("get_raw", "src/cell/slice.rs")],
  "slice_read", {
      "rd_fixed": H("1..256 bit reads, window start 0..9, offset 0..9, window end from 9 bits short to 2 bits spare"),
      "rd_uint": H("0..66 bit reads, window start 0..8, offset 0..8, windows short by 0..2 or 2 bits spare"),
      "rd_raw": H("0..30 bit raw reads, same windows, target buffers too small, exact and larger"),
      "rd_range": H("any window of any cell size, any u16/u8 sizes, all seven window operations"),
      "rd_any_offset": H("any u16 offset and width on windows of 4, 12 and 20 bits"),
      "rd_rest": H("all windows of 32 bits and 0..4 references"),
      "rd_refs": H("0..4 references, all windows, any u8 index"),
  })

P("C03", "Slice comparisons, prefixes and scans mean what the bit strings mean",
  "Comparing two cell slices is the lexicographic comparison of their bit strings and depends on nothing outside their windows or on their alignment: equality of data, ordering, prefix and suffix tests, longest common prefix, stripping a prefix, uniformity tests and counting leading or trailing equal bits all return what the plain bit strings give. Whole-slice equality also compares the remaining references, in order.",
  ["inputs"],
  "all pairs of windows of the covered lengths at the covered alignments, all data bits inside and around the windows",
  "Each operation has aligned, short and long code paths and masks partial bytes; a wrong mask only matters when the bits outside the window happen to differ.",
  ["src/cell/slice.rs", "src/util.rs"],
  [("lex_cmp, contents_eq, has_prefix, has_suffix, longest_common_data_prefix, strip_data_prefix", "src/cell/slice.rs"), ("count_leading, count_trailing, test_uniform", "src/cell/slice.rs"), ("bits_memscan", "src/util.rs")],
  "slice_cmp", {
      "cmp_lex": H("lengths 0..50 (14 base lengths, other side equal, +1, +10, -3), alignments 0..8 x {0,3,7,8}, every common prefix length, arbitrary data and surroundings", "alignments 0..8 x 0..8"),
      "cmp_suffix": H("suffix lengths 0..15, up to 9 bits in front, same alignments"),
      "cmp_lcp": H("same windows as cmp_lex"),
      "cmp_scan": H("lengths 0..66, alignment 0..8, position of the first (last) different bit arbitrary, both bits, both directions"),
      "cmp_scan_long": H("lengths 64..290, alignment 0..8, position of the different bit arbitrary"),
      "cmp_refs": H("0..3 references on each side, reference windows, arbitrary 1 byte contents"),
  })

P("C04", "A cell's hashes, depths, level and type follow from its content alone",
  "For every cell that can be built, the hash and depth at each level are those of the standard cell representation: SHA-256 of the two descriptor bytes, the data with its completion tag (or the previous level's hash), then the big-endian depths and the hashes of the children at that level (one level higher below a Merkle cell); pruned branches answer lower levels from their stored hashes and depths; the depth is one more than the deepest child and never wraps around. The level mask is the union of the children's (shifted by one for Merkle cells). An exotic cell is accepted exactly when its type, bit length, reference count and stored level mask are the ones its type prescribes, and a virtualized tree shows its level 0 hashes and depths at every level and through every child. Cells are equal exactly when their representation hashes are.",
  ["inputs"],
  "all data bits, all bit lengths covered, all combinations of up to 4 children that are leaves or pruned branches with arbitrary hashes and depths",
  "The tests compare a handful of known cells; mixed levels, children at the depth limit, unusual child combinations and malformed exotic cells are not among them.",
  ["src/cell/cell_context.rs", "src/cell/cell_impl/mod.rs", "src/cell/cell_impl/sync.rs", "src/cell/builder.rs", "src/cell/mod.rs"],
  [("CellParts::compute_hashes", "src/cell/cell_context.rs"), ("CellBuilder::build_ext", "src/cell/builder.rs"), ("OrdinaryCell/PrunedBranch/VirtualCell hash and depth", "src/cell/cell_impl/mod.rs")],
  "cell_repr", {
      "ce_leaf": H("lengths 0..40, 477..492, 1014..1023 bits, arbitrary data", "every length 0..1023"),
      "ce_tree": H("0..4 children (leaf or pruned branch of level 1..3, arbitrary hashes and depths), 17 bits, plus one cell on top"),
      "ce_merkle": H("Merkle proof and update over all child kinds, plus one cell on top"),
      "ce_exotic": H("22 bit lengths 0..1023 around each valid one, arbitrary data (type and mask bytes included), 0..4 children"),
      "ce_virtual": H("0..3 children (leaf or level 1 pruned branch, arbitrary hashes and depths), by reference and owned"),
  },
  assumptions=["SHA-256 is an uninterpreted function of its input blocks (the engine's stub replaces the compression function; concrete inputs are hashed for real)",
               "hash formulas are claimed for level masks 0b001, 0b011, 0b111 and their unions; other masks are only claimed for validation and for pruned branches themselves"])

P("C05", "Dropping cells frees exactly what nothing refers to any more",
  "Cells are shared by reference count: dropping handles to cell trees in any order releases every cell exactly once, exactly when the last handle, parent, builder or virtual wrapper that refers to it is gone; whatever is still held stays intact and readable, weak references stop upgrading, and dropping a tree needs bounded stack however deep it is.",
  ["histories"],
  "all cell graphs of up to 4 nodes with up to 3 references each, all kept nodes, two drop orders; chains of up to 12000 cells",
  "The custom non-recursive destructor moves references between cells while taking a tree apart; a mistake shows only for particular sharing patterns and drop orders, and as memory corruption or a leak rather than a wrong value.",
  ["src/cell/cell_impl/mod.rs", "src/cell/cell_impl/sync.rs"],
  [("Drop for OrdinaryCellHeader", "src/cell/cell_impl/mod.rs"), ("make_ordinary_cell, make_pruned_branch", "src/cell/cell_impl/sync.rs")],
  "cell_drop", {
      "cd_dag": H("graphs of 1..4 nodes, 0..3 references each, leaf pruned or ordinary, last node optionally virtualized, any node kept to the end", "graphs of 1..5 nodes"),
      "cd_deep": H("chains of 3, 40, 300 cells with 1..4 references (shared or own side leaves), optionally holding the lower half; a chain of 12000"),
      "cd_tree": H("builders, clones, slices and built cells over a shared tree"),
  }, assumptions=["one thread: atomics are executed sequentially"])

P("C06", "A dictionary update changes exactly one entry and keeps the tree canonical",
  "A dictionary is a map from fixed-length keys to values, stored as the one canonical tree for its contents: setting, replacing, adding and removing a key (or the smallest or largest key, signed or unsigned) changes exactly that entry, reports what it did and returns the old value, and leaves exactly the tree that any other order of operations with the same contents would produce, including the choice of the shortest label encoding. An operation that cannot be carried out (the value does not fit, the key has the wrong length) fails and leaves the dictionary unchanged.",
  ["histories", "inputs"],
  "every dictionary over 3 bit keys with every operation on it (which, by induction over operations, covers every history), arbitrary values; two keys of 1..64 bits differing at any position",
  "A label encoding or an edge split that is off by one yields a dictionary that still answers lookups but has a different hash than every other node computes; tests compare a few dictionaries only.",
  ["src/dict/mod.rs", "src/dict/ops/insert.rs", "src/dict/ops/remove.rs"],
  [("dict_insert, dict_insert_owned", "src/dict/ops/insert.rs"), ("dict_remove_owned, dict_remove_bound_owned", "src/dict/ops/remove.rs"), ("write_label, write_label_parts, split_edge, rebuild_dict_from_stack", "src/dict/mod.rs")],
  "dict_map", {
      "dm_step3": H("all 256 dictionaries over 3 bit keys x set/replace/add/remove of every key and remove min/max (signed, unsigned); values arbitrary, 8 bits and 0..2 references; new value 13 bits and 1 reference"),
      "dm_step4": H("all dictionaries of up to 4 entries over 4 bit keys x the same operations", thorough_only=True),
      "dm_wide": H("keys of 14 lengths 1..64 in 5 patterns, second key differing first at every bit position"),
      "dm_three": H("three keys of 4..9 bits with two forks at every pair of positions, uniform and mixed segments, every key removed and put back", "also 16 and 33 bits"),
      "dm_symkey": H("two keys of 2, 6, 9, 12, 16 arbitrary bits differing first at every position", "also 20 bits"),
      "dm_overflow": H("32 bit keys, values of 970..1023 bits and 0..4 references"),
      "dm_badkey": H("every dictionary over 3 bit keys, arbitrary keys of 0, 1, 2, 4, 5, 17 bits"),
  })

P("C07", "Dictionary lookups, ordered searches and iteration agree with the sorted map",
  "Looking up a key finds its value exactly when it is present; searching for the next, previous, smallest or largest key returns the neighbour in unsigned or signed (two's complement) order; iterating entries, keys or values, forwards or backwards, signed or not, borrowed or owned, yields every entry once in that order, with owned values referring to the right cell; iterating a union yields every key of either side once with both values. On arbitrary, malformed or partly pruned trees these operations return errors rather than panicking, looping or inventing entries, and lookups outside a pruned part still work.",
  ["inputs"],
  "every dictionary over 3 bit keys with every query; dictionaries with 12 bit keys of three entries; arbitrary small cell trees as dictionary roots",
  "The tests iterate a few unsigned dictionaries; signed and reversed traversals of every shape and trees coming from an attacker are not covered.",
  ["src/dict/raw.rs", "src/dict/ops/find.rs", "src/dict/ops/get.rs"],
  [("dict_get, dict_get_owned", "src/dict/ops/get.rs"), ("dict_find_owned, dict_find_bound", "src/dict/ops/find.rs"), ("RawIter, RawKeys, RawValues, RawOwnedValues, UnionRawIter", "src/dict/raw.rs")],
  "dict_query", {
      "dq_get": H("all 256 dictionaries over 3 bit keys, all keys, all four searches in both orders, bounds; values arbitrary, 0..2 references"),
      "dq_iter": H("all 256 dictionaries over 3 bit keys, five iterators, four directions"),
      "dq_union": H("all pairs of dictionaries over 2 bit keys, four directions", "all pairs over 3 bit keys"),
      "dq_wide_find": H("1..3 keys out of 8 patterns of 12 bits, queries at and next to the patterns"),
      "dq_hostile": H("root of 0..7 arbitrary bits with 0..3 children of 0..5 arbitrary bits (or two layers of smaller ones), keys of 1, 2, 3, 9 bits", "one more bit per cell"),
      "dq_hostile_find": H("root of 0..7 and children of 0..5 arbitrary bits, arbitrary key, eight operations", "root of 0..9 bits"),
      "dq_hostile_mut": H("same trees, five updating operations", "root of 0..9 bits"),
      "dq_pruned": H("all dictionaries over 3 bit keys of at least two entries with one side of the root fork pruned"),
  })

P("C08", "Bulk dictionary building, changing, splitting, merging equal single updates",
  "Building a dictionary from sorted entries, applying a sorted batch of insertions, replacements and removals, splitting a dictionary at its first key bit (or at a prefix) and merging two dictionaries, all produce exactly the tree that single updates would produce. Unsorted input, a failing entry, dictionaries that are not siblings, or a value that does not fit are refused with an error and leave the dictionary as it was, with nothing leaked or freed twice.",
  ["histories", "inputs"],
  "every dictionary over 3 bit keys with every pair of changes, every dictionary over 2 bit keys with every batch, every list of up to four 2 bit keys in any order, 16 bit keys of eight patterns",
  "The bulk algorithms keep a stack of half-built nodes with hand-managed memory; a wrong fork position shows only for particular neighbouring keys and as a hash mismatch or a leak.",
  ["src/dict/ops/build.rs", "src/dict/ops/modify.rs", "src/dict/ops/split_merge.rs", "src/dict/mod.rs"],
  [("build_dict_from_sorted_iter", "src/dict/ops/build.rs"), ("dict_modify_from_sorted_iter", "src/dict/ops/modify.rs"), ("dict_split_by_prefix, dict_merge, dict_merge_siblings", "src/dict/ops/split_merge.rs"), ("dict_load_from_root", "src/dict/mod.rs")],
  "dict_bulk", {
      "db_build": H("up to 4 keys of 2 bits in any order, values 8 bits and 0..2 references"),
      "db_build_wide": H("1..4 of 16 bit keys of eight patterns"),
      "db_modify2": H("all dictionaries over 2 bit keys x every batch of changes x failure at any entry"),
      "db_modify3": H("all dictionaries over 3 bit keys, up to 2 changes, values differ", "up to 3 changes, arbitrary values"),
      "db_modify3_all": H("all dictionaries over 3 bit keys x every batch of changes", thorough_only=True),
      "db_modify_wide": H("up to 3 of eight 16 bit patterns, up to two changes"),
      "db_split": H("all dictionaries over 3 bit keys, split at any prefix of 0..3 bits"),
      "db_siblings": H("all pairs of dictionaries over 2 bit keys (siblings or not)"),
      "db_merge": H("all pairs of dictionaries over 2 bit keys"),
      "db_load_root": H("all dictionaries over 3 bit keys followed by arbitrary data"),
  })

P("C09", "BOC decoding accepts exactly well-formed bags and never misbehaves",
  "Decoding a bag of cells from arbitrary bytes never panics, loops, reads outside the input or allocates beyond it: it either returns an error or exactly the cells the bytes describe. All three tags, every reference and offset size, index tables, stored hashes and checksums are understood; truncated input, references that do not point forward, unnormalized padding, wrong sizes and counts, unsupported flags and any corruption under a checksum are refused. Limits on the number of roots are kept, and a header decoded first gives its cells by index, and none out of range.",
  ["inputs"],
  "all byte strings of up to 18 bytes (without checksum), all small bags of up to three cells, all truncations",
  "BOCs come from the network; the parser reads with unchecked pointer arithmetic after hand-written length checks, and a single missing check shows only for particular malformed headers. The fuzz corpus samples these, the solver covers all of them up to the bound.",
  ["src/boc/de.rs", "src/boc/mod.rs"],
  [("BocHeader::decode, finalize", "src/boc/de.rs"), ("CellParts::read_raw_cell_from_ptr, from_raw_cell", "src/boc/de.rs"), ("Boc::decode_ext, decode_pair_ext", "src/boc/mod.rs")],
  "boc_decode", {
      "bd_raw": H("all byte strings of 0..18 bytes whose header has no checksum flag", "0..24 bytes"),
      "bd_cells": H("1..3 cells, 0..5 references each, all flag bytes of one cell, up to two bytes of data, all references, wrong sizes, repeated roots"),
      "bd_cut": H("a bag of two cells with every tag, index, checksum, reference size 1..4 and offset size 1..8, cut at every length, one byte appended"),
      "bd_full": H("one or two cells of any size up to full ones, stored hashes in any of them"),
      "bd_steps": H("1..4 cells, 1..3 roots, every reference size, any limits on the number of roots, cells by any index"),
      "bd_crc": H("bag of two cells, every difference of the checksum, every change of one byte before it"),
  }, assumptions=["SHA-256 is an uninterpreted function of its input blocks on symbolic data", "stored hashes are skipped, not verified, by design"])

P("C10", "BOC encoding is well formed, minimal, and round-trips",
  "Encoding any tree or set of roots writes every distinct cell exactly once, parents before children, with the smallest sufficient reference and offset sizes and a correct checksum if asked for; the announced sizes are the written sizes; writing into a vector, a writer or through a reused cache gives the same bytes, the first of them if the writer fails; and decoding them gives the same cells, roots, data, hashes and descriptors back (stored hashes only if they were not suppressed).",
  ["inputs"],
  "all graphs of up to 4 cells with shared or equal subtrees, all leaf lengths, chains around the limits of 128 levels and 256 cells, Merkle, pruned and library cells, stored hashes",
  "Sharing, several roots and unusual options interact: sizes are accumulated in one place and written in another, and only particular graphs make them disagree.",
  ["src/boc/ser.rs", "src/boc/mod.rs", "src/boc/de.rs"],
  [("ser::BocHeader", "src/boc/ser.rs"), ("Boc::encode, encode_pair, encode_with_cache", "src/boc/mod.rs")],
  "boc_encode", {
      "be_leaf": H("lengths 0..40, multiples of 8 and 1 more, 1015..1023, arbitrary data", "every length"),
      "be_dag": H("all graphs of 1..4 nodes (0..3 references), equal or distinct cells, pruned leaf, one or two roots, with or without checksum", "1..5 nodes"),
      "be_exotic": H("Merkle proof, update, library, pruned branches; stored hashes in any one cell; with and without hashes"),
      "be_roots": H("1..4 roots out of 4 related cells; reused cache, cleared header"),
      "be_deep": H("chains of 127..258 cells, plain or sharing", "also 1001 cells"),
      "be_twins": H("one leaf as two or three roots"),
      "be_writer": H("a graph of three cells, a writer that fails after each number of bytes, three step sizes"),
      "be_many": H("trees of 999 to 2001 cells (concrete)", "also 2600 cells"),
  }, assumptions=["hash maps inside the encoder are run with a constant hasher, so that every lookup is decided by equality", "graphs use concrete data, so that equality of cells is decided by real SHA-256"])

P("C11", "Integer types keep their bounds, wire format and arithmetic exactly",
  "Every variable-length integer (24, 56, 120 and 248 bits) is stored as the smallest byte count followed by the bytes and loads back equal from exactly those bits, the announced bit length and exact size are what is written, and a value too large is refused with nothing written; 9, 12 and 15 bit integers and split depths (1..30) accept exactly their range. Checked, saturating and plain arithmetic, comparison, shifts and decimal text agree with exact arithmetic on the numbers; text in a radix of 2, 8, 10 or 16 is read into a 248 bit number or, if larger, refused, and a failed in-place operation leaves the value unchanged.",
  ["inputs"],
  "all values for storing, loading, comparing, adding, subtracting and shifting; all products up to 32 bits; products and quotients of wider types of numbers with a few arbitrary bits by 16 constants; up to 5 arbitrary decimal digits; text in radix 2, 8, 10, 16 of the lengths around the greatest number",
  "Carries between the two halves of a 248 bit number, values just above the representable maximum, and lengths on a byte boundary are where hand-written arithmetic fails; unit tests sample a handful of them.",
  ["src/num/mod.rs", "src/num/varuint248.rs"],
  [("VarUint24, VarUint56, Tokens, Uint9..15, SplitDepth", "src/num/mod.rs"), ("VarUint248", "src/num/varuint248.rs")],
  "num", {
      "nu_store_small": H("all values of three types, at three offsets"),
      "nu_store_248": H("all 256 bit values, at three offsets"),
      "nu_load": H("all lengths and bits, window exact, shorter or longer"),
      "nu_fixed": H("all 16 bit values"),
      "nu_ops_small": H("all pairs of values (VarUint24, Uint9, Uint12, Uint15)"),
      "nu_ops_56": H("all pairs of which the second is below 64 or a multiple of 2^60"),
      "nu_ops_tokens": H("all pairs"),
      "nu_div_small": H("all dividends by eight constants"),
      "nu_mul_tokens": H("eight arbitrary bits at 4 positions in zeros or ones, times seven constants, both orders", "at 8 positions"),
      "nu_248_add": H("all pairs"),
      "nu_248_sub": H("all pairs"),
      "nu_248_shift": H("all values, all shifts below 256"),
      "nu_248_lz": H("all values"),
      "nu_248_mul": H("eight arbitrary bits at 8 positions in zeros or ones, times seven constants, both orders", "at 16 positions, 16 constants"),
      "nu_248_mul_max": H("products of powers of two around 2^248"),
      "nu_248_div": H("three arbitrary bits at 4 positions in zeros or ones, by three constants", "eight bits at 16 positions, 16 constants"),
      "nu_dec_print": H("0..4 arbitrary digits alone or after a one, one digit after 36 and 78 fixed ones", "0..4 digits after each"),
      "nu_radix": H("radix 2, 8, 10, 16, numbers of the lengths around 2^248 with any first digit, zeros or the greatest digit, any last character; any last digit below 2^248", "also 15, 17, 36"),
      "nu_dec_parse": H("all ASCII strings of up to 4 characters", "up to 6 characters"),
  })

P("C12", "Merkle proofs and updates vouch for the original and lead to the new tree",
  "A Merkle proof built from a tree and a filter keeps exactly the cells the filter includes (whole subtrees where asked for, leaves always unless big cells are pruned), replaces every skipped subtree by a pruned branch carrying exactly that subtree's hashes and depths at the right level, and has the original root's hash and depth; a proof for one cell contains that cell and a missing cell or a skipped root is refused. Proof and update cells load back exactly when their stored hashes and depths match their children. A Merkle update built from an old and a new tree applies to the old tree, and to no other, and yields exactly the new tree; applying an inconsistent update either fails or yields the promised hash; the removed-cells map counts exactly the references each old cell loses. This includes cells shared between branches and Merkle proofs, updates and pruned branches inside the trees.",
  ["inputs"],
  "all graphs of up to 4 cells with up to 2 references and shared subtrees, every action for every cell, ordinary or with one Merkle or pruned cell inside; all one-byte changes of proof and update cells",
  "Proof building walks the tree with an explicit stack, a cache of processed cells and level arithmetic; whether a cell is kept or pruned at the right level depends on where else it occurs, which no sampled tree exercises.",
  ["src/merkle/proof.rs", "src/merkle/update.rs", "src/merkle/pruned_branch.rs", "src/merkle/mod.rs"],
  [("MerkleProofBuilder, BuilderImpl", "src/merkle/proof.rs"), ("MerkleUpdate::apply, create, compute_removed_cells", "src/merkle/update.rs"), ("make_pruned_branch", "src/merkle/pruned_branch.rs")],
  "merkle", {
      "mk_proof": H("all graphs of 2..4 ordinary cells, every action for every cell, big cells, any root", "2..5 cells"),
      "mk_proof_exotic": H("graphs of 3..4 cells with a Merkle proof, update or pruned branch inside, skip or include", "3..5 cells, also whole subtrees"),
      "mk_load": H("proof and update cells with and without levels, every change of every one byte, ordinary cells"),
      "mk_path": H("all graphs of 2..4 cells with up to 3 references, every target", "2..5 cells"),
      "mk_update": H("all old trees of 3..4 cells, every visited set, new trees of up to two new cells over old ones"),
      "mk_update_exotic": H("old trees of 3 cells with one Merkle or pruned cell inside", "3..4 cells"),
      "mk_hostile": H("pruned branches for four cells at three levels, four old parts"),
      "mk_removed": H("old trees of 3..4 cells, same or new root reusing any cell"),
      "mk_removed_exotic": H("old trees of 3..4 cells with one Merkle or pruned cell inside, any cell reused directly or inside a new Merkle proof", "3..5 cells"),
      "mk_removed_hidden": H("old trees of 4 cells in which a removed cell refers to a cell kept only inside an unchanged subtree (known finding C12-1)"),
  }, assumptions=["graphs use concrete data, so that equality of cells is decided by real SHA-256", "the rayon (parallel) builders are not part of the tested feature set and not encoded"])

P("C13", "A usage tree records exactly the touched cells and is otherwise transparent",
  "A usage tree records a cell exactly when it was loaded (in on-load mode) or when its data was accessed (in data-access mode), through whichever handle: owned and borrowed children, slices and virtualized views. Tracked cells have the same data, children, hashes, depths and descriptors as the originals, keep working after the tree is gone, and untracking them yields originals that record nothing more. Proofs built from a usage tree as a filter include exactly what was touched, and explicitly added subtrees are kept whole.",
  ["histories"],
  "every sequence of three operations on tracked cells of every graph of 2..3 cells, in both modes",
  "Tracked cells wrap children lazily and cache them; whether an access is recorded depends on the order and kind of earlier accesses.",
  ["src/cell/usage_tree.rs", "src/merkle/mod.rs"],
  [("UsageTree, UsageTreeWithSubtrees, UsageCell", "src/cell/usage_tree.rs"), ("impl MerkleFilter for UsageTree", "src/merkle/mod.rs")],
  "usage", {
      "us_track": H("graphs of 2..3 cells, both modes, every sequence of 3 out of 7 operations on any held cell", "4 operations"),
      "us_subtrees": H("chain of 3 cells, every subtree"),
      "us_touch": H("graphs of 2..4 cells, both modes, a whole subtree touched at any cell"),
  }, assumptions=["graphs use concrete data", "one thread"])

P("C14", "Augmented dictionaries keep every aggregate in step with their entries",
  "An augmented dictionary is after every update (set, replace, add, remove, sorted batches, building from sorted entries, splitting by a prefix, merging siblings) the canonical tree of its entries, in which each fork carries the aggregate of exactly its left and right branch in that order and the root aggregate equals the topmost one; an empty dictionary has the default aggregate. Removal returns the removed aggregate and value, a failing aggregation is reported and changes nothing, splitting and merging invert each other, and search by aggregate follows the callback's choices to exactly the entry they lead to. Storing, loading and loading from an inlined root consume exactly the dictionary; iteration and lookup see exactly the entries.",
  ["histories", "inputs"],
  "every dictionary over 3 bit keys followed by every operation, every history of three operations on 2 bit keys, every pair of changes over 3 bit keys, every batch over 2 bit keys, 16 bit keys of eight patterns",
  "Aggregates are recomputed along a path while rebuilding; a stale, swapped or misread aggregate only shows for certain shapes of the tree and non-commutative sums, while tests use OR and saturating sums.",
  ["src/dict/aug.rs", "src/dict/mod.rs", "src/dict/ops/insert.rs", "src/dict/ops/remove.rs", "src/dict/ops/modify.rs", "src/dict/ops/build.rs", "src/dict/ops/find.rs", "src/dict/ops/split_merge.rs"],
  [("AugDict", "src/dict/aug.rs"), ("rebuild_aug_dict_from_stack, split_aug_edge, make_leaf_with_extra", "src/dict/mod.rs"), ("aug_dict_insert", "src/dict/ops/insert.rs"), ("aug_dict_modify_from_sorted_iter", "src/dict/ops/modify.rs"), ("aug_dict_find_by_extra", "src/dict/ops/find.rs")],
  "aug", {
      "au_step": H("every dictionary over 3 bit keys, arbitrary 8 bit extras (some with a child cell), one operation of five on any key", "two operations"),
      "au_grow": H("every sequence of 3 operations on 2 bit keys", "4 operations"),
      "au_wide": H("up to three of eight 16 bit patterns, any operation on any of them"),
      "au_bulk": H("every dictionary over 3 bit keys (fixed distinct extras), up to 2 changes", "arbitrary extras, up to 3 changes"),
      "au_bulk2": H("every dictionary over 2 bit keys, every batch"),
      "au_build": H("every dictionary over 3 bit keys from a slice and a tree map; stored, loaded, inlined"),
      "au_split": H("every dictionary over 3 bit keys, every prefix of 0..2 bits"),
      "au_find": H("dictionaries of up to 3 entries, arbitrary extras, two searches", "up to 4 entries"),
      "au_iter": H("every dictionary over 3 bit keys, four orders, every lookup"),
      "au_fail": H("every dictionary over 3 bit keys, failure at any of the first three aggregations"),
  }, assumptions=["the aggregate is 8 bits combined by rotation and exclusive or (not commutative, not associative) plus an optional child cell"])

MODELS = "tycho-types/sync,tycho-types/models"

P("C15", "Addresses and messages keep their wire format, sizes and layout rules",
  "Standard and variable addresses with and without anycast, external addresses, internal and external message infos (strict and relaxed), state inits, message envelopes, intermediate addresses and inbound and outbound message descriptions are stored exactly as their TL-B schemes say and load back as the same value, consuming exactly their encoding; truncated encodings, wrong tags, wrong address classes and invalid anycast depths or prefix lengths are refused. Reported sizes (bit_len, exact_size, layout sizes) equal the bits and references actually stored. A message without a given layout uses the first of plain, body in a cell, init in a cell, both in cells that fits, every message that fits some layout is stored, and a loaded message has the same info, init, body and layout. Address prefixes, workchains and dictionary keys follow from the stored bits, and the fees and exported value of a message description follow from its envelope and the message inside. The messages, envelopes, transactions and reimports a message description, envelope or enqueued message gives access to are those in its cells, or none for the kinds that have none.",
  ["inputs"],
  "arbitrary field values; anycast depths 0, 1, 8, 13, 30, all prefix lengths up to 33; variable addresses of 0..511 bits in eight lengths; token amounts of 0, 1 and 15 bytes; all state init shapes; message bodies around every size limit with 0..4 references in every layout",
  "Sizes decide where the parts of a message go, and only messages at the exact limit of a cell show a size that is off by a bit; tests load a few recorded messages.",
  ["src/models/message/mod.rs", "src/models/message/address.rs", "src/models/message/envelope.rs", "src/models/message/in_message.rs", "src/models/message/out_message.rs", "src/models/account/mod.rs"],
  [("BaseMessage, MessageLayout, MsgInfo, RelaxedMsgInfo", "src/models/message/mod.rs"), ("IntAddr, StdAddr, VarAddr, ExtAddr, Anycast", "src/models/message/address.rs"), ("MsgEnvelope, IntermediateAddr", "src/models/message/envelope.rs"), ("InMsg, ImportFees", "src/models/message/in_message.rs"), ("OutMsg, EnqueuedMsg", "src/models/message/out_message.rs"), ("StateInit", "src/models/account/mod.rs")],
  "msg", {
      "ms_addr": H("anycast depths 0, 1, 8, 13, 30; variable addresses of 0, 1, 7, 8, 63, 65, 256, 511 bits"),
      "ms_addr_parse": H("all inputs of 0, 1, 2, 3, 8, 12, 44, 60, 266, 267, 268, 280, 301 bits (long ones: standard addresses, or variable ones without anycast in 280 bits)"),
      "ms_addr_key": H("all standard addresses, all 267 bit keys"),
      "ms_anycast": H("all prefixes of 0..33 bits"),
      "ms_info": H("all three kinds and both relaxed ones, several address kinds, token lengths 0, 1, 15 bytes", "also 8 bytes"),
      "ms_info_bad": H("one info of each kind cut at 24 positions; all wrong address classes", "cut everywhere"),
      "ms_state_init": H("all 32 shapes, arbitrary values, cut"),
      "ms_tight": H("message infos of all kinds (address and external address lengths 0, 1 and 2 of each sort), addresses, amounts, rewrite prefixes; put after so many bits that they exactly fill the cell, or are one bit too long"),
      "ms_layout": H("all info sizes up to 1020 bits and 1 reference, all bodies, all state init shapes"),
      "ms_message": H("three infos, three inits, six body sizes around the limits, 0..4 body references, whole or part of a cell, all layouts"),
      "ms_envelope": H("all pairs of intermediate addresses, arbitrary values"),
      "ms_inter": H("all prefix lengths, all tags"),
      "ms_descr": H("all four inbound and five outbound kinds, all wrong tags"),
      "ms_fees": H("arbitrary amounts of fixed lengths, every kind"),
      "ms_parts": H("every kind of description, envelopes and enqueued messages; two messages, envelopes and a transaction with arbitrary addresses, flags and times"),
  }, features=MODELS)

P("C16", "Currency collections add, subtract and clamp exactly, and aggregates sum them",
  "Adding and subtracting currency collections computes every amount exactly, fails on any overflow or underflow (leaving the target of an assignment unchanged), drops extra currencies whose result is zero and leaves the others alone; clamping takes the smaller amount of every currency; normalizing removes exactly the zero amounts. Collections built from lists, hash maps and tree maps hold exactly the given amounts in any order. Collections and the aggregates built from them (import fees, depth and balance, shard fees, old block times) are stored as their TL-B schemes say, load back the same, report their exact size, refuse invalid split depths, and two aggregates combine field by field: sums of amounts, maximum of depths and times, or of flags, failing on overflow.",
  ["inputs"],
  "token amounts and extra amounts arbitrary near zero and near the maximum, all overlaps of two collections over up to three currencies",
  "Overflow, zero results and missing currencies interact in one loop over a dictionary that is being changed; tests cover a few combinations.",
  ["src/models/currency.rs", "src/models/message/in_message.rs", "src/models/shard/shard_accounts.rs", "src/models/shard/shard_extra.rs", "src/models/block/block_extra.rs"],
  [("CurrencyCollection, ExtraCurrencyCollection", "src/models/currency.rs"), ("ImportFees", "src/models/message/in_message.rs"), ("DepthBalanceInfo", "src/models/shard/shard_accounts.rs"), ("KeyMaxLt", "src/models/shard/shard_extra.rs"), ("ShardFeeCreated", "src/models/block/block_extra.rs")],
  "currency", {
      "cu_add": H("one and two currencies; zero, any one-byte amount, any of the 256 largest", "two and three currencies"),
      "cu_sub": H("as for addition", "two and three currencies"),
      "cu_clamp": H("two and two currencies with one in common", "two and three"),
      "cu_from": H("up to three currencies, every order"),
      "cu_tokens": H("all token amounts below 2^120"),
      "cu_coll": H("tokens near zero or near the maximum, up to one extra currency each"),
      "cu_wire": H("tokens of 0, 1, 15 bytes, with and without extra currencies, all split depths, cut"),
      "cu_aggregate": H("as for collections; fees and times arbitrary"),
  }, features=MODELS)

P("C17", "Accounts, transactions and phases keep their wire format and read back equal",
  "Storage statistics, storage info, account states and accounts (present or absent), shard accounts, every phase of a transaction with every combination of optional parts, ordinary and tick-tock descriptions, hash updates and whole transactions are stored exactly in their documented encoding, load back equal consuming exactly that encoding, and truncated or wrongly tagged encodings are refused; a shard account loads the account it was made from and a transaction its description, its inbound message and its outbound messages in the order of their indices, ending at the first broken one; the status of an account follows from its state; the storage use of an account is the number of distinct cells and of bits in its stored part, refused past the limit.",
  ["inputs"],
  "arbitrary field values; amounts and counters of fixed byte lengths between 0 and 15 with arbitrary value bits below the top one; all combinations of optional parts listed per harness; up to three outbound messages",
  "Each record has optional parts whose combinations and truncations tests, which load a few recorded blocks, never visit.",
  ["src/models/account/mod.rs", "src/models/transaction/mod.rs", "src/models/transaction/phases.rs"],
  [("Account, ShardAccount, StorageInfo, StorageUsed", "src/models/account/mod.rs"), ("Transaction, TxInfo, HashUpdate", "src/models/transaction/mod.rs"), ("ComputePhase, ActionPhase, BouncePhase", "src/models/transaction/phases.rs")],
  "tx", {
      "tx_small": H("all kinds, arbitrary values"),
      "tx_phases": H("all phases, four lengths per optional amount, all optional parts"),
      "tx_compute_cell": H("cut at 25 positions", "cut everywhere"),
      "tx_info": H("all 32 and 4 combinations of parts"),
      "tx_info_bad": H("cut at 24 positions; all wrong tags", "cut everywhere"),
      "tx_account": H("four address kinds, four states, with and without extras"),
      "tx_account_none": H("the absent account"),
      "tx_shard_account": H("absent or three states; cut"),
      "tx_storage_used": H("three states, up to four cells below the root with sharing, 16 balance lengths, limits 0..6"),
      "tx_wire": H("arbitrary values, with and without messages, both descriptions"),
      "tx_wire_bad": H("cut at 24 positions and in the message cell; all wrong tags", "cut everywhere"),
      "tx_messages": H("up to three outbound messages in any position, one broken, inbound absent, valid or broken"),
  }, features=MODELS)

P("C18", "Shards split, merge and relate exactly, and shard trees list what was built",
  "A shard is valid exactly when its prefix has at most 60 bits and a masterchain shard is full; splitting, merging, the opposite shard, parents, ancestors, intersection and containment of accounts and addresses agree with the bits of the prefixes for every pair of shards; shards, block ids and shard descriptions keep their encoding, load back equal and are refused when truncated or wrongly tagged. A tree of shard descriptions is built from a set of shards, in any order, exactly when they cover each workchain once without overlap; every listing of it (keys, raw, descriptions, latest blocks, over one or all workchains) yields exactly those shards in order, and a broken or too deep tree ends the listing with one error.",
  ["inputs"],
  "all shards and pairs of shards of all lengths with arbitrary bits and workchains (masterchain shards only full); all trees of depth 2 in one workchain and of depth 1 in two; all sets of shards of depth 2 with at most one repeated; broken nodes of five kinds in three places; trees of depth 59 to 61",
  "The relations of shards are arithmetic on prefixes of any length, and tests try a few short ones.",
  ["src/models/block/block_id.rs", "src/models/block/shard_hashes.rs", "src/models/block/block_extra.rs"],
  [("ShardIdent, BlockId, BlockIdShort", "src/models/block/block_id.rs"), ("ShardHashes, WorkchainShardHashes, ShardDescription, ShardsTreeRawIter", "src/models/block/shard_hashes.rs")],
  "shard", {
      "sh_new": H("all workchains and prefixes"),
      "sh_family": H("all lengths, all bits"),
      "sh_pair": H("eight lengths of the first shard, all of the second, all bits", "all pairs"),
      "sh_contains": H("all lengths, all accounts"),
      "sh_contains_var": H("variable addresses of 8, 31, 64, 300 bits"),
      "sh_load": H("all 104 bit inputs except masterchain shards that are not full, cut"),
      "sh_block_id": H("lengths 0, 1, 30, 60, arbitrary values, cut"),
      "sh_descr": H("arbitrary values, no split or merge, split, merge; cut"),
      "sh_descr_other": H("the older form, all wrong tags, reserved flags"),
      "sh_tree": H("all trees of depth 2 in one workchain, of depth 1 in two, fed in any rotation and reversed", "depth 3 in one"),
      "sh_build_bad": H("all sets of the seven shards of depth 2, any one repeated"),
      "sh_iter_bad": H("five kinds of broken nodes in three places, workchains before and after"),
      "sh_deep": H("depths 59, 60, 61"),
  }, features=MODELS)

P("C19", "Network configuration keeps its encoding and rules through every accessor",
  "Every configuration parameter record (minting, proposals, versions, burning, workchains, storage, gas, limits, forwarding prices, catchain, consensus, validators and validator sets, size limits and the others) is stored exactly in its documented encoding, loads back equal consuming exactly that encoding, and truncated or wrongly tagged encodings and values outside its rules are refused; older forms load as the newer value they mean. Every accessor of the configuration sets and reads exactly its own parameter, with the documented defaults for absent ones, and leaves all others alone. Forwarding, storage and gas fees and the burnt part of fees are the exact rounded products of their prices; a validator subset is drawn from the set exactly as the documented generator says, and its short hash covers the members in order.",
  ["inputs"],
  "arbitrary field values of fixed lengths; sets of one to three validators with total weights up to 2^64; up to three drawn members from fixed generator seeds; fees with arbitrary sizes and times and a few prices and denominators each; all parameters 0 to 50",
  "Each parameter has its own encoding, older forms and rules, and tests load the one configuration of a real network.",
  ["src/models/config/mod.rs", "src/models/config/params.rs"],
  [("BlockchainConfig, BlockchainConfigParams", "src/models/config/mod.rs"), ("ValidatorSet, MsgForwardPrices, GasLimitsPrices, StoragePrices, WorkchainDescription, ConsensusConfig", "src/models/config/params.rs")],
  "config", {
      "cf_small": H("ten records, arbitrary values"),
      "cf_valid": H("burning, limits and consensus records with values inside and outside their rules"),
      "cf_workchain": H("arbitrary splits, flags and values; both formats"),
      "cf_forms": H("old and new forms of catchain, consensus and gas records, all flags"),
      "cf_fees": H("arbitrary cells, bits, gas and times; a few constant prices each"),
      "cf_burn": H("arbitrary fees; numerators and denominators from a few constants"),
      "cf_validator": H("all three forms, arbitrary values, all wrong tags"),
      "cf_set": H("one to three validators of arbitrary weights, both forms", "one to four"),
      "cf_set_bad": H("missing indices, wrong tags, cut"),
      "cf_subset": H("one to three validators, up to three drawn, fixed seeds, arbitrary weights for one draw", "one to four"),
      "cf_mc_subset": H("sets of 1 to 4 validators with arbitrary weights, 1 to 4 of them masterchain ones, three catchain numbers"),
      "cf_prng": H("24 numbers each from three shards, three catchain numbers and five seeds, arbitrary ranges"),
      "cf_short_hash": H("zero or one member of arbitrary value"),
      "cf_params": H("all accessors of the parameters"),
  }, features=MODELS, assumptions=["SHA-512 runs as real code on concrete seeds; CRC-32C of short hashes runs as real code"])

P("C20", "Blocks, shard states and action lists keep their wire format and parts",
  "Blocks, block infos, value flows, block extras, account blocks, masterchain block extras, block proofs and signatures, unsplit and split shard states, library descriptions, masterchain state extras and their parts (validator info, previous blocks, creator stats) and output actions are stored exactly in their documented encoding, with references in their documented order, load back equal consuming exactly that encoding, and truncated or wrongly tagged encodings, blocks without a number and unknown state flags are refused. The parts loaded from a block or state are those stored in it; the previous blocks of a block are one, or two after a merge; a value flow is valid exactly when its inputs and outputs are equal in every currency; the iterator of output actions yields the actions newest first and ends at the first broken one; the listed capabilities are exactly the known ones set, in order. The weight of a set of signatures is that of the listed validators that signed, each counted once, and a wrong signature of a listed validator is refused.",
  ["inputs"],
  "arbitrary field values; all combinations of flags and optional parts listed per harness; token amounts of one byte, extra currencies in any one amount; dictionaries of at most two entries; lists of up to three actions",
  "Which optional parts are present decides the order of the references, and the recorded blocks of the tests have only a few combinations.",
  ["src/models/block/mod.rs", "src/models/block/block_extra.rs", "src/models/block/block_proof.rs", "src/models/shard/mod.rs", "src/models/shard/shard_extra.rs", "src/models/vm/out_actions.rs", "src/models/global_version.rs"],
  [("Block, BlockInfo, PrevBlockRef, ValueFlow", "src/models/block/mod.rs"), ("BlockExtra, AccountBlock, McBlockExtra", "src/models/block/block_extra.rs"), ("BlockProof, BlockSignatures", "src/models/block/block_proof.rs"), ("ShardState, ShardStateUnsplit, LibDescr", "src/models/shard/mod.rs"), ("McStateExtra", "src/models/shard/shard_extra.rs"), ("OutAction, OutActionsRevIter", "src/models/vm/out_actions.rs"), ("GlobalCapabilities", "src/models/global_version.rs")],
  "block", {
      "bk_info": H("arbitrary values and flags, with and without each reference and the software version, four shards"),
      "bk_prev": H("arbitrary references, one or two"),
      "bk_block": H("without and with zero to two queue updates; cut; wrong tags"),
      "bk_parts": H("arbitrary values in three parts"),
      "bk_flow": H("both forms, extra currencies in any one of the ten amounts; cut; wrong tags"),
      "bk_validate": H("ten amounts of one byte, near zero and near the maximum"),
      "bk_flow_extra": H("one extra currency on any input and any output"),
      "bk_extra": H("arbitrary values, with and without the masterchain part"),
      "bk_account": H("one transaction, arbitrary account and sum"),
      "bk_mc_extra": H("four combinations of optional parts"),
      "bk_small": H("eight small records, arbitrary values"),
      "st_state": H("all optional parts, four shards; cut; wrong tags"),
      "st_split": H("both forms of a state"),
      "st_lib": H("zero to two publishers; cut"),
      "st_mc": H("four combinations of optional parts, wrong stats tags, unknown flags"),
      "caps": H("every byte of the mask arbitrary, the others all clear or all set"),
      "oa_action": H("all actions, arbitrary values; cut; wrong tags"),
      "oa_list": H("up to three actions, one broken in four ways in any position"),
      "bk_signatures": H("up to 3 validators with arbitrary weights, up to 3 signatures of four keys, valid or of other data; ed25519 executed on concrete keys"),
      "bk_verify": H("four lengths of data, 32 changed bits of one signature"),
  }, features=MODELS + ",ed")

P("C21", "Text forms print what a value holds; only well-formed text is read back",
  "Hashes (hex, 0x-prefixed hex, base64), standard addresses (raw form and the friendly base64 and URL-safe base64 forms with flags and CRC-16), external addresses, shard identifiers, block ids, bit strings (hex with completion tag, binary; as bit string, builder, cell and slice window) and bounded integers print exactly the documented text. Parsing accepts exactly the well-formed texts of the documented syntax - every other text, of whatever length and characters, is refused without a panic - and yields the value the text denotes, so what was printed is read back; the format switches of the address parser are obeyed.",
  ["inputs"],
  "all hashes and prefixes printed; all replacements of two or three characters of a text at several places; all bit strings up to 34 bits, all texts of bit strings up to 3 characters; all lengths of hash texts",
  "Tests parse a handful of constants; a wrong digit class, an unchecked length, a padding that is let through or a slice at a character boundary needs a text nobody writes down.",
  ["src/cell/mod.rs", "src/models/message/address.rs", "src/models/block/block_id.rs", "src/util.rs", "src/crc.rs", "src/num/mod.rs"],
  [("HashBytes::from_str, fmt_hex", "src/cell/mod.rs"), ("StdAddr::from_str, from_str_ext, DisplayBase64StdAddr, ExtAddr", "src/models/message/address.rs"), ("Bitstring", "src/util.rs"), ("crc_16", "src/crc.rs"), ("BlockId, ShardIdent", "src/models/block/block_id.rs")],
  "text", {
      "tf_hash_print": H("any hash, four forms"),
      "tf_hash_parse": H("hex, prefixed hex, base64 of two hashes, any three characters at four places"),
      "tf_hash_odd": H("every length 0..70 of zeros; one character of 2, 3 or 4 bytes anywhere"),
      "tf_std_print": H("any address, six workchains"),
      "tf_std_parse": H("four workchains, any two characters at five places, four endings"),
      "tf_b64_print": H("any workchain or any byte at four places of an address, all flags", "any byte of the address"),
      "tf_b64_back": H("any workchain or any byte at two places, all flags", "any byte of the address"),
      "tf_b64_parse": H("both alphabets, any character at four places together with any character near the checksum"),
      "tf_format": H("all switches, texts with and without special characters, raw texts of every length"),
      "tf_ext_print": H("0..40 arbitrary bits"),
      "tf_ext_parse": H("0..4, 127..129, 255..257 digits, any two characters at the end, any first character, with and without tag"),
      "tf_bits_print": H("0..34 arbitrary bits (binary: 0..18), four carriers, windows at 0..9"),
      "tf_bits_parse": H("any text of 0..3 ASCII characters, with and without tag", "0..4 characters"),
      "tf_shard_print": H("six workchains, any prefix"),
      "tf_shard_parse": H("five texts, any two characters at four places"),
      "tf_block_print": H("three workchains and numbers, any hashes"),
      "tf_block_parse": H("five shapes, any two characters at eight places"),
      "tf_num": H("largest value and one above of five types, any first or last character"),
      "tf_crc": H("any 0..3 bytes"),
      "tf_crc_long": H("34 bytes, any value at any one place"),
  }, features=MODELS + ",tycho-types/base64", note="")

P("C22", "Big integers are stored and read exactly at every width",
  "CellBuilder::store_bigint / store_biguint write exactly the requested number of bits: the two's complement (signed) or plain binary (unsigned, non-negative) form of the number extended to that width, at any bit offset, and refuse (leaving the builder as it was) a number that needs more bits than requested or than the cell has left, however large it is; the truncating forms store the low bits of it. BigIntExt::bitsize is the smallest such width. CellSlice::load_bigint / load_biguint return the number those bits mean and consume exactly them, and refuse to read more than there is. Variable length numbers (store_var_bigint / store_var_biguint and their loaders) are a length in bytes and the shortest such form; numbers longer than the length field can say are refused, and so are lengths beyond the slice.",
  ["inputs"],
  "numbers of 28 sizes from 0 to 257 bits with arbitrary contents, both signs, five widths around the size, two bit offsets; powers of two of 1024 to 131072 bits; length fields of up to 16 bits",
  "Tests store a few constants; an extension at an odd width, a sign lost at a machine word boundary or a truncated bit count needs a particular pair of size and width.",
  ["src/util.rs", "src/cell/builder.rs", "src/cell/slice.rs"],
  [("store_bigint, store_biguint, store_var_bigint, store_var_biguint", "src/cell/builder.rs"), ("load_bigint, load_biguint, load_var_bigint, load_var_biguint", "src/cell/slice.rs"), ("BigIntExt::bitsize, has_correct_sign", "src/util.rs")],
  "bigint", {
      "bg_int": H("28 sizes, both signs, five widths, one of three offsets each", "28 sizes, both signs, five widths, two offsets"),
      "bg_uint": H("28 sizes, five widths, two offsets, both types, with and without sign"),
      "bg_trunc": H("28 sizes, both signs, seven widths"),
      "bg_full": H("cells filled to two bits around the end"),
      "bg_huge": H("five powers of two beyond a cell, six widths"),
      "bg_var": H("28 sizes, both signs, length fields of several widths"),
      "bg_read": H("any bits at any of several widths"),
      "bg_var_read": H("any length field of up to 16 bits, truncated data"),
  }, features="tycho-types/sync,bigint", note="")

P("C23", "ABI values encode to the documented layout and decode back",
  "For ABI 1.0, 2.0, 2.1, 2.2 and 2.3, AbiValue::make_cell / tuple_to_cell / named_tuple_to_cell store integers of fixed and variable width, bool, cells, addresses, token amounts, bytes, fixed bytes, strings, tuples, arrays, fixed arrays, maps, optionals and references as the ABI specification lays them out: in order, an item that does not fit (by actual size up to 2.1, by the largest size of its type from 2.2) goes to the next cell of the chain, whose reference is the last one of the full cell; large array, map and optional values are stored in their own cells. AbiValue::load / load_tuple of that encoding return equal values and leave nothing unread. A number that does not fit its type is not encoded; what follows a value, a truncated encoding, strings that are not UTF-8, byte sequences ending in the middle of a byte, fixed bytes of another length, arrays with missing or misnumbered items are refused, without a panic. max_bits / max_refs of a type and has_type / get_type / check_type agree with the layout.",
  ["inputs"],
  "integers of 12 widths, variable length numbers of 7 types and 5 lengths, bytes up to 255, arrays of up to 5 items, maps of up to 3 entries over five key types, optionals / references / tuples nested three levels deep, sequences of up to 8 values; contents symbolic; all five ABI versions (1.0, 2.1 and 2.2 for sequences)",
  "The layout depends on how much of the cell the previous values took in each version, so an off-by-one shows only for particular sequences; tests have a few contracts.",
  ["src/abi/value/ser.rs", "src/abi/value/de.rs", "src/abi/value/mod.rs", "src/abi/ty.rs"],
  [("AbiSerializer", "src/abi/value/ser.rs"), ("AbiValue::load*", "src/abi/value/de.rs"), ("AbiValue: has_type, get_type, check_type, make_cell, tuple_to_cell", "src/abi/value/mod.rs"), ("AbiType::max_bits, max_refs, max_size", "src/abi/ty.rs")],
  "abi", {
      "ab_int": H("12 widths, signed and unsigned, three positions of the first significant bit, any contents"),
      "ab_var": H("7 types, 5 lengths, both signs"),
      "ab_plain": H("bool, cell, four kinds of addresses, token amounts of 0, 1, 8, 15 bytes"),
      "ab_bytes": H("9 lengths around cell boundaries, bytes / fixed bytes / string"),
      "ab_utf8": H("any 1 to 3 bytes"),
      "ab_edge": H("16 items that fill a cell, leave one bit, or miss by one, alone or with all that is left; after 0 to 4 cells, with or without a value after; all five versions"),
      "ab_seq": H("up to 4 cells, four fillings of bits, two of 13 items", "three of 15 items"),
      "ab_nest": H("7 inner values in 6 outer ones, alone or between others at three offsets"),
      "ab_array": H("up to 5 items of 7 kinds, both array types"),
      "ab_array_bad": H("up to 3 items, wrong first key, a gap, six declared lengths"),
      "ab_item_bad": H("array items, references, optionals that are one bit too long or too short"),
      "ab_map": H("up to 3 entries, 5 key types, 5 value kinds"),
      "ab_cut": H("14 items cut at up to 12 bit positions and at every reference"),
  }, features="tycho-types/sync,abi", note="")

P("C24", "ABI calls, events and contract data: ids, bodies, signing",
  "Function::compute_function_id and Event::compute_event_id are the first 32 bits of SHA-256 of the signature text `name(inputs)(outputs)vN` (events without outputs; ABI 1.x lists the headers before the inputs), with the top bit cleared for inputs and events and set for outputs. encode_internal_input, encode_output and the event counterpart are that id followed by the values laid out as ABI values; encode_external puts the signature place, the headers in their declared order (time, expire, public key), the id and the values (the id before the headers in 1.x), leaves room for the signature (the address from 2.3), and the hash to sign is that of the body without the signature, prefixed with the destination address from 2.3 on. with_signature / fill_signature / with_fake_signature / without_signature keep everything else; bodies built without a signature have the values in the same cells. The expiration defaults to the time in seconds plus 60 and saturates. Decoding returns equal values, and refuses another id, other types and (unless partial) leftovers. Messages built from them carry the body, the given destination, value, bounce flag and state init. Contract::encode_fields / decode_fields, encode_init_data / decode_init_data / update_init_data store and read fields and the initial data dictionary, refuse unknown and missing fields and change nothing else. find_function_by_id / find_event_by_id find exactly the function or event with that id. sign makes a valid signature over the hash to sign, with the big-endian signature identifier, if any, in front.",
  ["inputs"],
  "seven argument lists of up to 5 values (with every kind of value), all five ABI versions, any ids, times and expirations, six header lists, an absent key or the default one; one signing key",
  "Tests decode a few recorded messages; a header order, a signature place or a layout that depends on the version and the size of the arguments is sampled by one case each.",
  ["src/abi/contract.rs", "src/abi/value/ser.rs", "src/abi/value/de.rs"],
  [("Function, Event, ExternalInput, UnsignedBody, UnsignedExternalMessage, Contract", "src/abi/contract.rs"), ("AbiHeader::load, skip", "src/abi/value/de.rs"), ("write_header_value, reserve_headers", "src/abi/value/ser.rs")],
  "abi_fn", {
      "fn_id": H("7 argument lists for inputs and outputs, any subset of headers"),
      "fn_body": H("7 argument lists, any id, inputs / outputs / events, encoded and decoded"),
      "fn_refuse": H("any two ids, one bit after the values, one value more or less"),
      "fn_external": H("7 argument lists, six header lists, any time, expiration and address, three kinds of signature"),
      "fn_unsigned": H("7 argument lists, a given or default expiration, bodies and messages"),
      "fn_headers": H("all header kinds loaded and skipped"),
      "fn_message": H("7 argument lists, external and internal messages"),
      "fn_data": H("7 argument lists, any subset of up to 3 initial values given"),
      "fn_ways": H("7 argument lists: prefixes of longer slices, builders, setters, unnamed values, what is signed"),
      "fn_sign": H("one key and message, five ABI versions, four signature identifiers, ed25519 executed"),
      "fn_find": H("up to 3 functions and events, any id"),
  }, features="tycho-types/sync,abi", note="ed25519 is executed on concrete keys and hashes only; elsewhere signatures are opaque bytes.")

P("C25", "ABI types as text, contract descriptions, Rust values as ABI values",
  "The text of AbiType, PlainAbiType, AbiHeaderType and AbiVersion is the one of the ABI specification (uint8, map(uint8,(bool,cell)), bool[2], optional(..), ref(..), `gram`), NamedAbiType is described in JSON as name, type (tuples abbreviated) and components, and reading a text or a description back gives an equal type; widths, sizes and versions out of range and texts that name no type are refused, as are components missing for a tuple or given for something else. A contract description gives the version, headers, functions, events, initial data and fields it lists, explicit ids as given and the others computed. make_default_value is the zero value of its type; has_type / check_type / get_type / display_type agree with the text of the type, and ignore_name compares everything but names. Rust integers, bool, hashes, addresses, token amounts, cells, bytes, strings, options, tuples, arrays, maps and derived structs have the ABI types documented for them; as_abi / into_abi give their value, from_abi gives it back and refuses values of other types or out of range.",
  ["inputs"],
  "types nested three levels deep (14 leaves, 10 combinators); any two printable characters (three in the thorough tier) between 16 beginnings and 5 ends; numbers of up to 5 digits; Rust values of 30 types, contents symbolic; contract descriptions with every combination of optional parts",
  "Texts are an open set: tests read the ABI files of a few contracts and never a text that is almost a type.",
  ["src/abi/ty.rs", "src/abi/traits.rs", "src/abi/value/mod.rs", "src/abi/mod.rs", "src/abi/contract.rs", "abi-proc/src/lib.rs"],
  [("AbiType, PlainAbiType, AbiHeaderType, NamedAbiType: FromStr, Display, Serialize, Deserialize, flatten", "src/abi/ty.rs"), ("WithAbiType, IntoAbi, FromAbi and plain forms", "src/abi/traits.rs"), ("make_default_value, has_type, get_type, constructors", "src/abi/value/mod.rs"), ("Deserialize for Contract", "src/abi/contract.rs")],
  "abi_ty", {
      "at_text": H("14 leaves under up to two of 10 combinators"),
      "at_default": H("the same types"),
      "at_pairs": H("28 values against 28 types"),
      "at_names": H("13 leaves, renamed and changed"),
      "at_sizes": H("seven kinds of types with any two sizes, alone and inside of six others"),
      "at_parse": H("16 beginnings, up to two characters, 5 ends", "up to three characters"),
      "at_number": H("5 sized types, up to 5 digits", "up to 6 digits"),
      "at_words": H("header names with any character replaced or cut; versions of up to 5 characters", "versions of up to 7 characters"),
      "at_rust": H("21 kinds of Rust values"),
      "at_range": H("any 33-bit number against narrower types"),
      "at_made": H("9 kinds of composed Rust values"),
      "at_contract": H("four versions, three header lists, optional parts"),
  }, features="tycho-types/sync,abi", note="serde_json runs as real code; its byte searches (memchr) are plain loops instead of vector code.")

P("C26", "Composed values, lazy values, tree statistics and small cell types are exact",
  "Every integer type, bool, hashes and nonzero integers are stored as their plain big-endian bits; an optional value is a bit and the value; tuples are their parts in order; Box, Arc, Rc and references are what they point to; slices and builders are stored as their own bits and references; each loads back equal, truncated encodings are refused, and exact_size is what is stored. A Lazy value is the cell holding the value: it loads it back, is equal exactly when the cells are, accepts only the right kind of cell (ordinary or exotic). compute_unique_stats / StorageStat count every distinct cell (by hash) once with its bits - over several trees and slices, a slice contributing its own bits but no cell - and give up exactly when the limit of cells is exceeded; with the stats feature a cell's stats() counts every occurrence. Sums and differences of statistics and sizes saturate as documented. Iterators over children go from both ends, with peeking, and count what is left. LevelMask, CellDescriptor and CellType decode and encode exactly the bits of the cell format; a library cell is the tag and the hash.",
  ["inputs"],
  "tuples of two to six parts with optional cells; all values of 15 plain types; slices of up to 20 bits and 3 references with every window end; all graphs of 2..4 cells with up to two references each, some of equal contents, every limit; every pair of descriptor bytes, masks and levels; every order of taking up to 4 children from both ends",
  "A repeated index in a tuple of five, a cell counted twice only when it is shared through equal contents, or a limit off by one are not visible in round trips of a few models.",
  ["src/cell/mod.rs", "src/cell/slice.rs", "src/cell/builder.rs", "src/cell/lazy.rs"],
  [("impl_load_for_tuples, impl_store_for_tuples, ExactSize", "src/cell/slice.rs"), ("Store for plain values, build_library", "src/cell/builder.rs"), ("Lazy, LazyExotic", "src/cell/lazy.rs"), ("StorageStat, CellTreeStats, RefsIter, LevelMask, CellDescriptor, CellType, Size", "src/cell/mod.rs")],
  "values", {
      "va_tuple": H("two to six parts, nested and empty tuples"),
      "va_plain": H("all values of 15 types, alone and optional, cut"),
      "va_pointer": H("three kinds of pointers and references"),
      "va_slice": H("six lengths, 0..3 references, windows, every suffix up to 24 bits and 4 references"),
      "va_lazy": H("several values, ordinary and exotic cells"),
      "va_parse": H("any 9 bits followed by nothing, a bit or a reference"),
      "va_stats": H("all graphs of 2..4 cells with up to two references, some of equal contents, every limit", "2..5 cells"),
      "va_stats_sum": H("all graphs of 3 cells, two additions of any cell or slice"),
      "va_cell_stats": H("all graphs of 3 cells"),
      "va_ops": H("all statistics and sizes"),
      "va_children": H("0..4 children, every order of taking from both ends"),
      "va_descr": H("all descriptor bytes, masks, levels"),
      "va_type": H("all bytes"),
      "va_library": H("any hash, all masks"),
  }, features=MODELS + ",tycho-types/stats", note="Graphs use concrete data, so that equality of cells is decided by real SHA-256.")

P("C27", "Typed and raw dictionaries act as the sorted map of their keys and values",
  "Every method of Dict<K, V> and RawDict<N> does what its name says to the sorted map the dictionary stands for: lookups (typed, raw, owned), next / previous key with and without the key itself, least and greatest key in unsigned and signed order, set / replace / add with their answers, removal of a key or a bound with the removed value, many changes at once, building from sorted slices and maps, splitting (also by a prefix), merging, loading from an inlined root, storing and loading. Iterators over entries, keys, values, owned entries and unions of two dictionaries yield exactly the entries in the chosen order (signed, reversed, in either order of the switches), copies go on independently, and a value that does not load is reported once and ends the iteration. Copies of a dictionary are not changed. Keys of every type are stored as exactly their bits and read back.",
  ["inputs", "histories"],
  "every dictionary over 2 bit keys with any 9 bit values (concrete values for unions and many changes in the quick tier), every key and every method once; all values of 21 key types",
  "The methods are thin wrappers that differ only in a flag; a wrong flag (least for greatest, inclusive for exclusive) needs a dictionary in which the difference shows, and tests call a few of them.",
  ["src/dict/typed.rs", "src/dict/raw.rs", "src/dict/mod.rs", "src/num/mod.rs", "src/models/message/address.rs", "src/models/block/block_extra.rs"],
  [("Dict, Iter, Keys, Values, UnionIter", "src/dict/typed.rs"), ("RawDict, RawIter, RawOwnedIter, RawKeys, RawValues, RawOwnedValues, UnionRawIter", "src/dict/raw.rs"), ("DictKey, StoreDictKey, LoadDictKey", "src/dict/mod.rs")],
  "dict_typed", {
      "dt_get": H("every dictionary, every key, both orders"),
      "dt_iter": H("every dictionary, both orders, both directions"),
      "dt_change": H("every dictionary, every key, nine kinds of changes, any new value"),
      "dt_bulk": H("every dictionary, every list of up to four changes (fixed values), every prefix", "any values"),
      "dt_union": H("every pair of dictionaries (fixed values)", "any values"),
      "dt_bad": H("every dictionary with one short value"),
      "dt_raw_get": H("every dictionary, every key, both orders"),
      "dt_raw_iter": H("every dictionary, five iterators, both orders, both directions"),
      "dt_raw_change": H("every dictionary, every key, eleven kinds of changes, any new value"),
      "dt_raw_bulk": H("every dictionary"),
      "dt_keys": H("all values of 21 key types"),
  }, features=MODELS, note="RawDict::get_subdict is not claimed.")

P("C28", "JSON, binary and text forms of values, cells and bags of cells read back",
  "With serde enabled, every value of the types below is written as JSON without an error and reads back as an equal value: hashes (64 hexadecimal characters), bounded integers, token amounts and 248-bit numbers (decimal strings), standard and external addresses, shards and block ids, capabilities and versions, currency collections, dictionaries, values behind references, state inits, accounts in every state (absent, uninitialised, active, frozen), storage statistics, shard accounts, messages of all kinds (owned and relaxed, with and without state, body, layout and extra currencies), transaction descriptions and all their phases, transactions, block references, block infos, value flows, Merkle proofs and updates, all configuration parameters alone and inside a configuration, validator sets. Hashes, numbers, addresses, shards, currency, dictionaries, configurations, lazies, cells, state inits and storage statistics also read back from the compact binary form. Texts that are not a number, are out of the range of the type or not a hash of 64 digits, lists of cells of a wrong length, empty lists where one entry is required and validator sets that are empty, overflow or carry a wrong sum are refused. A text reads the same with characters escaped, from a stream and from a parsed tree. Types that are only written (in and out messages, envelopes and hop addresses, shard descriptions, signatures, fees) are written with every field once under its name. The hexadecimal and base64 texts of a bag of cells are those of its bytes, and such a text with any character replaced is read exactly as the bytes it stands for are, or refused if it stands for none; cells, lists, arrays and maps of cells are written in JSON as base64 of their bags. Not claimed: JSON of variable-length addresses and addresses with anycast, the binary form of tagged enumerations.",
  ["inputs"],
  "all replacements of one character of texts of hashes and bags, of up to three characters of an amount; values of each type over all their optional parts and variants with some digits, flags and hash bytes arbitrary",
  "A variant, an optional part or a key type that is written in a form that is not read back (an internally tagged newtype of a string, integer keys inside of a tagged enumeration) needs a combination of parts that no test writes.",
  ["src/boc/mod.rs", "src/cell/mod.rs", "src/cell/lazy.rs", "src/dict/typed.rs", "src/num/mod.rs", "src/num/varuint248.rs", "src/util.rs", "src/models/account/mod.rs", "src/models/currency.rs", "src/models/message/mod.rs", "src/models/transaction/mod.rs", "src/models/config/mod.rs", "src/models/config/params.rs", "src/models/global_version.rs", "src/models/shard/mod.rs"],
  [("Boc, BocRepr, SerdeBoc", "src/boc/mod.rs"), ("HashBytes::{serialize,deserialize}", "src/cell/mod.rs"), ("Lazy::{serialize,deserialize}", "src/cell/lazy.rs"), ("Dict::{serialize,deserialize}", "src/dict/typed.rs"), ("BlockchainConfigParams::{serialize,deserialize}", "src/models/config/mod.rs"), ("ValidatorSet::deserialize", "src/models/config/params.rs")],
  "json", {
      "js_hash": H("any three bytes at three places"),
      "js_hash_text": H("any character at four places, 62..66 characters"),
      "js_num": H("seven types, some digits arbitrary; any text of up to three characters as an amount"),
      "js_addr": H("four workchains and any two bytes; five external addresses"),
      "js_shard": H("four workchains, five depths, any eight bits of the prefix; block ids"),
      "js_caps": H("nine sets of capabilities, statuses, kinds"),
      "js_small": H("currency collections, storage statistics and other small structures"),
      "js_cell": H("five trees; lists, arrays and maps of cells"),
      "js_bag_text": H("any character at four places of the hexadecimal and base64 text of a bag"),
      "js_dict": H("dictionaries of four types with up to three entries, lazies, Merkle proofs and updates"),
      "js_account": H("three states with all optional parts, some digits and bytes arbitrary"),
      "js_shard_account": H("absent account and three states"),
      "js_message": H("three kinds, three states, four bodies, three layouts"),
      "js_relaxed": H("both kinds, with and without a source"),
      "js_tx_info": H("ordinary and tick-tock, all phases and their kinds, flags arbitrary"),
      "js_tx": H("with and without messages, all statuses"),
      "js_block": H("block infos with all optional parts, value flows"),
      "js_config": H("all parameters that have a type; others by number"),
      "js_escaped": H("ten types, first or last character escaped, from a stream and from a tree"),
      "js_written": H("nine types, all variants"),
      "js_set_bad": H("wrong, missing and overflowing sums, no validators"),
  }, features=MODELS + ",json")


P("C29", "Cells and usage trees behave alike in the single-threaded build",
  "Without the feature `sync` (cells shared by `Rc`, usage trees without locks) the guarantees are the same: every cell has the descriptor, level mask, hashes, depths and statistics of an independent model, including exotic and virtualized cells; dropping cells in any order frees exactly those that nothing refers to, once, without recursion over deep trees; a usage tree records exactly the cells that were touched, is transparent otherwise, and untracking gives back the originals.",
  ["histories", "inputs"],
  "the shapes of cells of C04, every order of releases of C05, every history of C13, each in a build without `sync`",
  "This build has its own reference counting, its own usage tree and its own storage of cells; the tests are only run with `sync`.",
  ["src/cell/cell_impl/rc.rs", "src/cell/cell_impl/mod.rs", "src/cell/usage_tree.rs", "src/cell/mod.rs"],
  [("Cell, CellInner", "src/cell/cell_impl/rc.rs"), ("usage tree state and cells of the single-threaded build", "src/cell/usage_tree.rs")],
  None, None, parts=[
      {"module": "usage", "dir": "usage_rc", "features": "tycho-types/models", "harnesses": {
          "us_track": H("graphs of 2..3 cells, both modes, every sequence of 3 out of 7 operations on any held cell", "4 operations"),
          "us_subtrees": H("chain of 3 cells, every subtree"),
      "us_touch": H("graphs of 2..4 cells, both modes, a whole subtree touched at any cell"),
      }},
      {"module": "cell_drop", "dir": "cell_drop_rc", "features": "tycho-types/models", "harnesses": {
          "cd_dag": H("graphs of up to 4 cells with shared children, every order of releases"),
          "cd_deep": H("chains of hundreds of cells", thorough_only=True),
          "cd_tree": H("trees of up to 3 levels"),
      }},
      {"module": "cell_repr", "dir": "cell_repr_rc", "features": "tycho-types/models", "harnesses": {
          "ce_leaf": H("all 1024 lengths of data in steps, arbitrary last byte"),
          "ce_tree": H("two levels of cells"),
          "ce_merkle": H("Merkle proofs and updates over two children"),
          "ce_exotic": H("pruned branches with every mask, library references"),
          "ce_virtual": H("virtualized cells of every level"),
      }},
  ], assumptions=["one thread"])

P("C30", "The layout of tycho networks keeps its wire format, rules and lookups",
  "With the feature `tycho`, block infos, blocks, block extras, shard descriptions, unsplit shard states, masterchain state extras, consensus and genesis infos, queue updates, block signatures, positions of processed messages (with their ranges and partitions) and the configs of collation and consensus are stored exactly as their schemes say and load back as the same value, consuming exactly their encoding; truncated encodings, wrong tags, unknown flags and a block number of zero are refused. Block infos, block extras, shard descriptions, states and message execution params of the older form load with the missing fields at their defaults, and params are written in the older form exactly when it can hold them; the consensus info is left out exactly for the zerostate. One genesis overrides another exactly if its round is not lower and its time is later. Config parameters 28 and 29 are set and read as their types.",
  ["inputs"],
  "arbitrary field values, every combination of optional parts, dictionaries of up to two entries at each place",
  "The feature changes the layout of most top level structures and is off in the tests; a field in the wrong place only shows when nothing else reads it back.",
  ["src/models/block/mod.rs", "src/models/block/block_extra.rs", "src/models/block/block_proof.rs", "src/models/block/shard_hashes.rs", "src/models/shard/mod.rs", "src/models/shard/shard_extra.rs", "src/models/config/params.rs", "src/models/config/mod.rs"],
  [("Block, BlockInfo, OutMsgQueueUpdates", "src/models/block/mod.rs"), ("BlockSignatures", "src/models/block/block_proof.rs"), ("ShardDescription", "src/models/block/shard_hashes.rs"), ("ShardStateUnsplit, ProcessedUptoInfo", "src/models/shard/mod.rs"), ("McStateExtra, ConsensusInfo, GenesisInfo", "src/models/shard/shard_extra.rs"), ("CollationConfig, MsgsExecutionParams, WorkUnitsParams, ConsensusConfig", "src/models/config/params.rs")],
  "tycho", {
      "ty_info": H("both forms, all flags and references, four shards"),
      "ty_block": H("arbitrary queue updates"),
      "ty_extra": H("both forms, with and without a masterchain part"),
      "ty_descr": H("both forms, all flags, three kinds of planned changes; listed among the shards"),
      "ty_state": H("both forms, all optional parts"),
      "ty_mc": H("zerostate or any consensus info, three sets of optional parts, any unknown flags"),
      "ty_small": H("consensus and genesis infos, queue updates, block signatures, shard keys"),
      "ty_upto": H("externals, internals, partitions and ranges, dictionaries of up to two entries"),
      "ty_config": H("both configs, both forms of the execution params, all work units"),
      "ty_params": H("both parameters, set and read"),
  }, features=MODELS + ",tycho-types/tycho")

P("C31", "Operations given a cell context build, load and fail through that context",
  "Setting, replacing, adding, removing, bulk changes, lookups, searches for bounds and neighbours, splits and merges of plain dictionaries, changes of augmented ones, storing models, making and applying Merkle proofs and updates, and decoding bags of cells, given the caller's cell context, have the result they have without one, and every new cell of the result is built by that context. When the context refuses any one of its calls, the operation returns that error (a decoder: a decoding error) without further calls, the dictionary it was to change and its total are as before, and no memory is lost. Lookups, searches, splits and changes of single entries of a plain dictionary whose root or branches are library references the context resolves give, the value of a removed entry included, what they give for the dictionary those references stand for.",
  ["inputs", "fault_sequences"],
  "dictionaries of 4-bit keys with 0 to 4 entries of arbitrary bytes, any key, every set of libraries among the root and its branches; a refusal at each of the first 12 calls; trees of up to 6 cells, six kinds of values",
  "The tests only ever use the default context, which never refuses and resolves nothing; virtual machines pass one that counts gas and can refuse at any call.",
  ["src/cell/cell_context.rs", "src/dict/ops/insert.rs", "src/dict/ops/remove.rs", "src/dict/ops/get.rs", "src/dict/ops/find.rs", "src/dict/ops/split_merge.rs", "src/dict/ops/modify.rs", "src/dict/aug.rs", "src/merkle/proof.rs", "src/merkle/update.rs", "src/boc/de.rs", "src/models/message/mod.rs"],
  [("CellContext", "src/cell/cell_context.rs"), ("dict_insert, dict_insert_owned", "src/dict/ops/insert.rs"), ("dict_remove_owned, dict_remove_bound_owned", "src/dict/ops/remove.rs"), ("MerkleProofBuilder, MerkleUpdateBuilder", "src/merkle/proof.rs")],
  "ctx", {
      "cx_query": H("nine questions, five dictionaries, every set of libraries"),
      "cx_change": H("thirteen changes, five dictionaries, every set of libraries"),
      "cx_refuse": H("26 operations, five dictionaries, a refusal at each call"),
      "cx_aug": H("nine changes, up to four entries, a refusal at each call"),
      "cx_store": H("six kinds of values, a refusal at each call"),
      "cx_tree": H("proofs, updates and bags of a tree of four cells, a refusal at each call"),
  }, features=MODELS)

