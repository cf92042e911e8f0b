"""Per-property design notes: specification, oracle, reach. gen.py renders them into DESIGN.md."""
D = {
"C01": ("Model `Bits` (a vector of single bits, harness/vp.rs): every store is `append` on the model; the builder's raw cell must equal the model bit for bit, completion tag included, and the verdict must equal `len + n <= 1023` computed in u32.",
        "One run per fill level, width and value class decides all 2^64 values at once; the wrap-around of `bits + self.bit_len` (fixed) needed a width nobody writes in a test."),
"C02": ("The same bit model indexed at `start + offset`; success exactly when the range fits into the window. The window itself, the offset and the u16/u8 sizes are symbolic.",
        "Found the two wrap-arounds and the out-of-window read of `get_raw` (fixed)."),
"C03": ("Bit-string comparison, prefix, suffix, common prefix and leading/trailing scans written over `Vec<u8>` of bits; the slices have independent symbolic windows.",
        "The masks at both unaligned ends are all exercised at once."),
"C04": ("The representation hash is recomputed by an independent encoder (d1, d2, data with completion tag, depths, hashes) with the same SHA stub; level masks, depths and hashes per level are computed from the TON definition.",
        "Exotic kinds, every level mask and malformed exotic data (lengths, masks, depths) as symbolic bytes."),
"C05": ("The engine owns the heap: double frees, use after free, leaks and reads outside allocations are violations of their own; `heap_live()` says how many allocations are left. The oracle is the set of cells reachable from the handles still held.",
        "Deep and shared graphs, every order of drops (`pick`)."),
"C06": ("Sorted map of up to 5 symbolic keys; the tree is compared with the one an independent canonical writer (`dict_model.rs`: shortest label form, forks only where keys differ) builds from the map.",
        "Label choice (short/long/same) depends on the key width and the common prefix: all of them are covered."),
"C07": ("The same sorted map; lookups, ordered neighbours, signed order, prefix lookups, all iterator kinds in both directions.",
        "Ordered searches with signed keys and misses between entries need particular key pairs."),
"C08": ("Bulk operations (build from sorted entries, modify from a list, split, merge, set operations) against the fold of single updates in the model.",
        "Half-merged results and errors on only one side."),
"C09": ("An independent BOC parser over the same symbolic bytes decides accept/reject and the resulting cells; engine-level memory safety, no panic, bounded allocations.",
        "Header fields, indices, cell descriptors, reference numbers are symbolic within templates of bag layouts."),
"C10": ("An independent reader of the bag; minimal sizes, each distinct cell once, children after parents, checksum over all bytes, decode gives the same roots; announced sizes equal written sizes.",
        "All option combinations times graph shapes."),
"C11": ("Wide-integer model over bytes/u128 limbs; range, round trip, wire form (length prefix + big-endian bytes), arithmetic with overflow verdicts.",
        "Carries between halves and the 248-bit bound need particular operands."),
"C12": ("Virtualised proof tree must be the original with pruned branches exactly where allowed: same virtual hash, kept cells the same content; updates applied to the old root give the new one; altered proofs are refused.",
        "All include-sets over graph shapes with sharing, nested Merkle cells."),
"C13": ("Recorded set of touched cells = model set from the operations performed; transparent reads; both modes, sub-trees.", "All operation sequences of bounded length."),
"C14": ("Aggregate is non-commutative, so that order mistakes show; the tree is rebuilt by the model after each step, aggregates included.", "Every set/add/remove/modify history of bounded length over symbolic keys."),
"C15": ("Byte-level wire model `W` (harness/wire.rs) of every address and message kind from the TL-B text; load(model) = value, store(value) = model, cut inputs refused, other tags refused; layout rules (`init`/`body` either) recomputed.", "Optional parts times sizes times fill levels."),
"C16": ("Map of currency id to amount; add/sub/checked/clamped versions per id; aggregated sums in augmented dictionaries.", "Carries, clamps and missing entries on each side."),
"C17": ("Wire model of accounts, states, storage info, transactions, all phases; storage statistics recomputed over the cell set.", "Every optional part and phase kind with symbolic fields."),
"C18": ("A shard is (workchain, bit string); relations recomputed on bit strings; shard trees from a list of leaves by an independent writer.", "All 2^60 prefixes at every depth at once."),
"C19": ("Wire model of every configuration parameter of the default feature set, of the accessors (parameter numbers, get/set round trip), validity rules; validator subset choice re-derived independently.", "Optional tags, version variants, bounds of every rule."),
"C20": ("Wire model of blocks, block info, extra, value flow, shard state (split/unsplit), McStateExtra, out actions, import/export descriptions, message queue parts; hash-only accessors against the real parse.", "Each optional part, tag, and flag as a case; the rest symbolic."),
"C21": ("Parsers and printers written over bytes in the harness (`unhex`, `unb64`, bitwise CRC, decimal/hex integers with sign rules), no tables; arbitrary ASCII characters are placed into texts, so that accept/reject is compared as well as the value.", "Found: base64 hashes with `==` are accepted as 31 bytes, a 66-byte text with a wide character panics, the format switches did not tell the alphabets apart."),
"C22": ("Numbers are built from their own two's complement bits, so that the expected field is those bits extended to the width; what is loaded is compared with a number built from the same bits by num-bigint.", "Found: the bit count of huge numbers was truncated to 16 bits (2^65536 was stored as 0), and a length field above 13 bits overflowed."),
"C23": ("A generator (`abi_gen.rs`) makes a value together with its type, its type text and a list of items (bits, references, largest size); one function lays items out into a chain of cells for a version. The real encoder must give that chain, and the real decoder must give the value back from it.", "Found and repaired: five defects (see below), among them a panic / allocation abort for a declared length of 2^32-1 and VarInt values that changed sign."),
"C24": ("The same generator; headers, ids and signature places are further items. Ids are compared with SHA-256 of a signature text built by the harness.", "Found and repaired: four defects (ABI 1.x signing dropped the payload; 1.x headers before the id; an overflow in the default expiration; the empty signature was counted twice)."),
"C25": ("Types are generated together with their full text, their abbreviated text, their components in JSON and their zero value; texts with symbolic characters are read by a parser written over bytes in the harness.", "A leading plus sign in numbers is left out (Rust's integer parser accepts it)."),
"C26": ("The wire model of C15 for values made of values; a list of distinct hashes for statistics; masks and descriptors recomputed bit by bit.", "Reading the code by mutation showed these impls had no check: every arity, kind and byte is now a case."),
"C27": ("A list of present values by two bit key, ordered by an independent rank; the canonical tree of the model is compared with the root after every change, and every iterator with the list.", "All 16 dictionaries (256 pairs) times all methods: wrappers differ only in flags, so two bits are enough to tell any two of them apart."),
"C29": ("The models of C04, C05 and C13.", "The same harnesses are compiled against a build of the crate without `sync`, where other code implements cells and usage trees."),
"C30": ("A bit by bit model of each TL-B scheme (W in harness/wire.rs), compared with the stored cell and read back.", "All fields are arbitrary at once because serialisers are straight-line code; optional parts are combined in full."),
"C31": ("The same operation without a context, and a context of the harness that resolves, counts, remembers and refuses.", "The number of the refused call and the set of cells that are libraries are case-split, keys and values are symbolic; the cells of the result are compared by address with the old cells and with those the context has built."),
"C28": ("Reading back what was written, against equality of the value; independent hexadecimal, base64 and decimal writers for the text itself; the text of a bag with one character replaced is judged by decoding the changed bytes with the binary decoder (C09). serde_json and bincode are executed symbolically together with the crate.", "Every variant and optional part is combined inside of every place where it can occur (tagged enumerations buffer their contents, where keys and numbers read differently), which is how the defects fixed here show; the rest of a value is fixed, because these forms do not depend on it."),
}
