// Shard identifiers, block ids and the tree of shard descriptions.
use crate::vp::*;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;
use tycho_types::models::*;
use tycho_types::num::*;
const TOP: bool = true;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/wire.rs"));
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/msg_gen.rs"));

fn mask(len: u64) -> u64 {
    if len == 0 { 0 } else { !0u64 << (64 - len) }
}
/// Workchain, number of bits and bits (left aligned) of a shard.
#[derive(Clone, Copy)]
struct M {
    wc: i32,
    len: u64,
    bits: u64,
}
fn any_model(len: u64) -> M {
    let bits = any_u64("bits");
    assume(bits & !mask(len) == 0);
    let wc = any_u32("workchain") as i32;
    assume(wc != -1 || len == 0);
    M { wc, len, bits }
}
impl M {
    fn prefix(&self) -> u64 {
        self.bits | 1 << (63 - self.len)
    }
    fn ident(&self) -> ShardIdent {
        must(ShardIdent::new(self.wc, self.prefix()).ok_or(()), "a valid shard is refused")
    }
    fn same(&self, s: &ShardIdent, msg: &'static str) {
        check(s.workchain() == self.wc, msg);
        check(s.prefix() == self.prefix(), msg);
    }
}
fn any_descr(w: &mut W, at: u64, tag: u8) -> ShardDescription {
    w.u(tag as u128, 4);
    let (seqno, reg_mc_seqno) = (any_u32("seqno"), any_u32("reg"));
    let (start_lt, end_lt) = (any_u64("start"), any_u64("end"));
    w.u(seqno as u128, 32).u(reg_mc_seqno as u128, 32).u(start_lt as u128, 64).u(end_lt as u128, 64);
    let root: [u8; 32] = any_bytes("root");
    let file: [u8; 32] = any_bytes("file");
    let f = any_u8("flags") & 0xf8;
    w.by(&root, 256).by(&file, 256).u(f as u128, 8);
    let cc = any_u32("cc");
    let shard = any_u64("shard");
    let min = any_u32("min");
    let utime = any_u32("utime");
    w.u(cc as u128, 32).u(shard as u128, 64).u(min as u128, 32).u(utime as u128, 32);
    w.bit(at != 0);
    let split_merge_at = (at != 0).then(|| {
        let (t, i) = (any_u32("at"), any_u32("interval"));
        w.bit(at == 2).u(t as u128, 32).u(i as u128, 32);
        if at == 2 {
            FutureSplitMerge::Merge { merge_utime: t, interval: i }
        } else {
            FutureSplitMerge::Split { split_utime: t, interval: i }
        }
    });
    let mut c = W::new();
    let fees = any_tokens_n(&mut c, 1, "fees");
    c.bit(false);
    let created = any_tokens_n(&mut c, 2, "created");
    c.bit(true).cell(&tiny(5));
    if tag == 0xa {
        w.sub(c);
    } else {
        w.join(&c);
    }
    ShardDescription {
        seqno,
        reg_mc_seqno,
        start_lt,
        end_lt,
        root_hash: HashBytes(root),
        file_hash: HashBytes(file),
        before_split: f & 0x80 != 0,
        before_merge: f & 0x40 != 0,
        want_split: f & 0x20 != 0,
        want_merge: f & 0x10 != 0,
        nx_cc_updated: f & 0x08 != 0,
        next_catchain_seqno: cc,
        next_validator_shard: shard,
        min_ref_mc_seqno: min,
        gen_utime: utime,
        split_merge_at,
        fees_collected: CurrencyCollection::new(fees.into_inner()),
        funds_created: CurrencyCollection { tokens: created, other: ExtraCurrencyCollection::from_raw(Some(tiny(5))) },
    }
}
/// A description without optional parts and with one symbolic field.
fn small_descr(w: &mut W, seqno: u32) -> ShardDescription {
    w.u(0xa, 4).u(seqno as u128, 32).u(0, 32 + 64 + 64).u(0, 256);
    w.by(&[seqno as u8; 32], 256).u(0, 8 + 32).u(0, 64 + 64).bit(false);
    let mut c = W::new();
    c.u(0, 10);
    w.sub(c);
    ShardDescription {
        seqno,
        reg_mc_seqno: 0,
        start_lt: 0,
        end_lt: 0,
        root_hash: HashBytes([0; 32]),
        file_hash: HashBytes([seqno as u8; 32]),
        before_split: false,
        before_merge: false,
        want_split: false,
        want_merge: false,
        nx_cc_updated: false,
        next_catchain_seqno: 0,
        next_validator_shard: 0,
        min_ref_mc_seqno: 0,
        gen_utime: 0,
        split_merge_at: None,
        fees_collected: CurrencyCollection::ZERO,
        funds_created: CurrencyCollection::ZERO,
    }
}
/// Leaves (as prefixes) and the encoded tree for a shape: every inner node is picked.
fn any_tree(prefix: u64, tag: u64, depth: u64, leaves: &mut Vec<(u64, ShardDescription)>) -> W {
    let mut w = W::new();
    if depth > 0 && any_bool("fork") {
        w.bit(true);
        let half = tag >> 1;
        let l = any_tree(prefix - half, half, depth - 1, leaves);
        let r = any_tree(prefix + half, half, depth - 1, leaves);
        w.sub(l).sub(r);
    } else {
        w.bit(false);
        let n = leaves.len() as u32 + 7;
        let d = small_descr(&mut w, n);
        leaves.push((prefix, d));
    }
    w
}
fn exotic() -> Cell {
    // a library cell
    let mut b = CellBuilder::new();
    must(b.store_u8(2), "library");
    must(b.store_u256(&HashBytes([1; 32])), "library");
    b.set_exotic(true);
    must(b.build(), "library")
}

harnesses! {
    /// Which prefixes are shards.
    fn sh_new() {
        let wc = any_u32("workchain") as i32;
        let p = any_u64("prefix");
        // the tag, the lowest set bit, leaves at most 60 bits above it
        let valid = (p != 0) & (p & 7 == 0) & ((wc != -1) | (p == 1 << 63));
        match ShardIdent::new(wc, p) {
            Some(s) => {
                check(valid, "an invalid shard is accepted");
                check(s.workchain() == wc && s.prefix() == p, "a new shard has different parts");
                check(s.is_full() == (p == 1 << 63), "is_full");
                check(s.is_masterchain() == (wc == -1), "is_masterchain");
                reach("valid");
            }
            None => {
                check(!valid, "a valid shard is refused");
                reach("invalid");
            }
        }
        let full = ShardIdent::new_full(wc);
        check(full.workchain() == wc && full.prefix() == 1 << 63 && full.is_full() && full.prefix_len() == 0, "new_full");
        check(ShardIdent::MASTERCHAIN == ShardIdent::new_full(-1) && ShardIdent::BASECHAIN == ShardIdent::new_full(0), "named shards");
        check(ShardIdent::default() == ShardIdent::MASTERCHAIN, "default shard");
    }

    /// Split, merge, opposite and parents of every shard.
    fn sh_family() {
        let len = pick(60, "len");
        let m = any_model(len);
        let s = m.ident();
        check(s.prefix_len() as u64 == len, "wrong prefix length");
        check(s.is_full() == (len == 0), "is_full");
        check(s.can_split() == (len < 60), "can_split");
        let last = len > 0 && m.bits >> (64 - len.max(1)) & 1 != 0;
        check(s.is_right_child() == last && s.is_left_child() != last, "left or right child");
        match s.merge() {
            None => check(len == 0, "a shard is not merged"),
            Some(p) => {
                check(len > 0, "the full shard is merged");
                M { len: len - 1, bits: m.bits & mask(len - 1), ..m }.same(&p, "a shard merges into the wrong parent");
                check(p.is_parent_of(&s) && s.is_child_of(&p) && p.is_ancestor_of(&s) && p.intersects(&s), "a parent is not recognised");
                check(!s.is_parent_of(&p) && !p.is_child_of(&s) && !s.is_ancestor_of(&p), "a child is taken for the parent");
            }
        }
        match s.opposite() {
            None => check(len == 0, "a shard has no opposite"),
            Some(o) => {
                check(len > 0, "the full shard has an opposite");
                M { bits: m.bits ^ 1 << (64 - len), ..m }.same(&o, "a shard has the wrong opposite");
                check(!o.intersects(&s), "opposite shards intersect");
                check(o.merge() == s.merge() && o.opposite() == Some(s), "opposite shards are not siblings");
            }
        }
        if m.wc != -1 {
            match s.split() {
                None => check(len == 60, "a shard is not split"),
                Some((l, r)) => {
                    check(len < 60, "the deepest shard is split");
                    M { len: len + 1, ..m }.same(&l, "a shard splits into the wrong left child");
                    M { len: len + 1, bits: m.bits | 1 << (63 - len), ..m }.same(&r, "a shard splits into the wrong right child");
                    check(l.is_left_child() && r.is_right_child(), "left or right child");
                    check(l.merge() == Some(s) && r.merge() == Some(s), "children do not merge back");
                    check(l.opposite() == Some(r) && s.is_parent_of(&l) && s.is_parent_of(&r), "children are not siblings");
                    check(l < s && s < r, "children are out of order");
                    reach("split");
                }
            }
        }
        let mut w = W::new();
        w.u(len as u128, 8).u(m.wc as u32 as u128, 32).u(m.bits as u128, 64);
        wire(&s, &w);
        check(ShardIdent::BITS as usize == w.b.len(), "size of a shard");
        if len == 0 {
            reach("full");
        }
    }

    /// Relations of two shards.
    fn sh_pair() {
        let a = if thorough() { pick(60, "len a") } else { [0u64, 1, 2, 7, 8, 33, 59, 60][pick(7, "len a") as usize] };
        let b = any_upto(60, "len b");
        let m = any_model(a);
        let bits = any_u64("bits b");
        let mb = if b == 0 { 0 } else { !0u64 << (64 - b) };
        assume(bits & !mb == 0);
        let wc = any_u32("workchain b") as i32;
        assume(wc != -1 || b == 0);
        let n = M { wc, len: b, bits };
        let (x, y) = (m.ident(), n.ident());
        let same = m.wc == n.wc;
        let diff = m.bits ^ n.bits;
        let above = same & (a <= b) & (diff & mask(a) == 0);
        let below = same & (b <= a) & (diff & mb == 0);
        check(x.is_ancestor_of(&y) == above, "is_ancestor_of");
        check(y.is_ancestor_of(&x) == below, "is_ancestor_of");
        check(x.intersects(&y) == (above | below), "intersects");
        check(y.intersects(&x) == (above | below), "intersects");
        check(x.is_parent_of(&y) == (above & (a + 1 == b)), "is_parent_of");
        check(x.is_child_of(&y) == (below & (b + 1 == a)), "is_child_of");
        check((x == y) == (above & below), "equality of shards");
        let less = m.wc < n.wc || same & (m.prefix() < n.prefix());
        check((x < y) == less, "order of shards");
        reach("pair");
    }

    /// Which accounts a shard contains.
    fn sh_contains() {
        let m = any_model(pick(60, "len"));
        let s = m.ident();
        let a: [u8; 32] = any_bytes("account");
        let mut first = 0u64;
        for i in 0..8 {
            first = first << 8 | a[i] as u64;
        }
        let inside = (first ^ m.bits) & mask(m.len) == 0;
        check(s.contains_account(&HashBytes(a)) == inside, "contains_account");
        let wc = any_u8("wc") as i8;
        let std = StdAddr::new(wc, HashBytes(a));
        let here = inside & (wc as i32 == m.wc);
        check(s.contains_address(&std) == here, "contains_address of a standard address");
        check(s.contains_address(&IntAddr::Std(std)) == here, "contains_address of an address");
        if m.len < 60 && m.wc != -1 {
            let (l, r) = must(s.split().ok_or(()), "a shard is not split");
            let (i, j) = (l.contains_account(&HashBytes(a)), r.contains_account(&HashBytes(a)));
            check(!(i & j) & ((i | j) == inside), "children do not partition the accounts of a shard");
        }
        reach("contains");
    }

    /// Variable addresses in shards.
    fn sh_contains_var() {
        let m = any_model([0u64, 1, 7, 8, 9, 31, 60][pick(6, "len") as usize]);
        let mut w = W::new();
        let v = any_var(&mut w, 0, [8usize, 31, 64, 300][pick(3, "bits") as usize]);
        let mut first = 0u64;
        for i in 0..8 {
            first = first << 8 | v.address.get(i).copied().unwrap_or(0) as u64;
        }
        let here = (first ^ m.bits) & mask(m.len) == 0 && v.workchain == m.wc;
        check(m.ident().contains_address(&v) == here, "contains_address of a variable address");
        reach("var");
    }

    /// Any bits read as a shard or a block id.
    fn sh_load() {
        let mut w = W::new();
        let len = any_u8("len");
        let wc = any_u32("wc") as i32;
        let p = any_u64("prefix");
        w.u(len as u128, 8).u(wc as u32 as u128, 32).u(p as u128, 64);
        let c = w.build();
        let r = c.parse::<ShardIdent>();
        if len > 60 {
            check(r.is_err(), "a shard that is too deep is accepted");
            reach("deep");
        } else {
            assume(wc != -1 || len == 0);
            let len = conc(len as u64);
            let s = must(r, "a shard is not loaded");
            let m = M { wc, len, bits: p & mask(len) };
            m.same(&s, "a different shard is loaded");
            let mut x = W::new();
            x.u(len as u128, 8).u(wc as u32 as u128, 32).u(m.bits as u128, 64);
            wire_store(&s, &x);
            reach("loaded");
        }
        wire_cut::<ShardIdent>(&w);
    }

    /// Block ids.
    fn sh_block_id() {
        let m = any_model([0u64, 1, 30, 60][pick(3, "len") as usize]);
        let mut w = W::new();
        w.u(m.len as u128, 8).u(m.wc as u32 as u128, 32).u(m.bits as u128, 64);
        let seqno = any_u32("seqno");
        let root: [u8; 32] = any_bytes("root");
        let file: [u8; 32] = any_bytes("file");
        w.u(seqno as u128, 32).by(&root, 256).by(&file, 256);
        let id = BlockId { shard: m.ident(), seqno, root_hash: HashBytes(root), file_hash: HashBytes(file) };
        wire(&id, &w);
        check(BlockId::BITS as usize == w.b.len(), "size of a block id");
        check(id.is_masterchain() == (m.wc == -1), "is_masterchain of a block id");
        let s = id.as_short_id();
        check(s == BlockIdShort { shard: m.ident(), seqno } && s == BlockIdShort::from((m.ident(), seqno)), "short id");
        check(s.is_masterchain() == id.is_masterchain(), "is_masterchain of a short id");
        check(<(ShardIdent, u32)>::from(s) == (m.ident(), seqno), "short id");
        let k = any_u32("step");
        let up = (seqno as u64 + k as u64).min(u32::MAX as u64) as u32;
        let down = (seqno as i64 - k as i64).max(0) as u32;
        check(s.saturating_add(k) == BlockIdShort { seqno: up, ..s }, "saturating_add");
        check(s.saturating_sub(k) == BlockIdShort { seqno: down, ..s }, "saturating_sub");
        check(s.saturating_next() == s.saturating_add(1) && s.saturating_prev() == s.saturating_sub(1), "next and previous");
        wire_cut::<BlockId>(&w);
        // as a dictionary key
        let full = ShardIdentFull { workchain: m.wc, prefix: m.prefix() };
        let x = ShardIdentFull::from(m.ident());
        check(x.workchain == full.workchain && x.prefix == full.prefix, "a full shard ident differs");
        check(ShardIdent::try_from(full).ok() == Some(m.ident()), "a full shard ident does not convert back");
        reach("block id");
    }

    /// Shard descriptions.
    fn sh_descr() {
        let mut w = W::new();
        let d = any_descr(&mut w, pick(2, "at"), 0xa);
        wire(&d, &w);
        let s = ShardIdent::BASECHAIN;
        check(
            d.as_block_id(s) == BlockId { shard: s, seqno: d.seqno, root_hash: d.root_hash, file_hash: d.file_hash },
            "block id of a description",
        );
        if let Some(x) = d.split_merge_at {
            let mut e = W::new();
            let (m, t, i) = match x {
                FutureSplitMerge::Split { split_utime, interval } => (false, split_utime, interval),
                FutureSplitMerge::Merge { merge_utime, interval } => (true, merge_utime, interval),
            };
            e.bit(m).u(t as u128, 32).u(i as u128, 32);
            wire(&x, &e);
        }
        wire_cut::<ShardDescription>(&w);
        reach("description");
    }

    /// Descriptions of the older form, wrong tags and flags.
    fn sh_descr_other() {
        let mut w = W::new();
        let d = any_descr(&mut w, 0, 0xb);
        match pick(2, "kind") {
            0 => {
                let l: ShardDescription = wire_load(&w);
                check(l == d, "a description of the older form loads differently");
                reach("older");
            }
            1 => {
                let t = any_u8("tag") & 15;
                assume(t != 0xa && t != 0xb);
                let mut x = W::new();
                x.u(t as u128, 4);
                x.b.append(&w.b.0[4..]);
                x.r = w.r.clone();
                wire_bad::<ShardDescription>(&x, "a wrong description tag is accepted");
                reach("tag");
            }
            _ => {
                let f = any_u8("reserved") & 3;
                assume(f != 0);
                let at = 4 + 64 + 128 + 512;
                let mut x = w.clone();
                x.b.0[at + 6] = f >> 1;
                x.b.0[at + 7] = f & 1;
                wire_bad::<ShardDescription>(&x, "reserved flags are accepted");
                reach("reserved");
            }
        }
    }

    /// Trees of every shape are built from their shards in any order and read back in order.
    fn sh_tree() {
        let wc = any_u32("workchain") as i32;
        let wcs = if any_bool("two") { vec![0i32, 5] } else { vec![[0, 1, 0x7fffffff][pick(2, "wc") as usize]] };
        let _ = wc;
        let mut all = Vec::new();
        let mut trees = Vec::new();
        for &wc in &wcs {
            let mut leaves = Vec::new();
            let w = any_tree(1 << 63, 1 << 63, if wcs.len() > 1 { 1 } else if thorough() { 3 } else { 2 }, &mut leaves);
            trees.push((wc, w, all.len(), leaves.len()));
            for (p, d) in leaves {
                all.push((must(ShardIdent::new(wc, p).ok_or(()), "a valid shard is refused"), d));
            }
        }
        let k = pick(all.len() as u64 - 1, "rotate") as usize;
        let mut order: Vec<_> = all.iter().map(|(a, b)| (a, b)).collect();
        order.rotate_left(k);
        if any_bool("reverse") {
            order.reverse();
        }
        let h = must(ShardHashes::from_shards(order), "a complete set of shards is refused");
        let got: Result<Vec<_>, Error> = h.iter().collect();
        let got = must(got, "shards are not listed");
        check(got.len() == all.len(), "a wrong number of shards is listed");
        for (a, b) in all.iter().zip(&got) {
            check(a == b, "different shards are listed");
        }
        for (a, b) in all.iter().zip(h.latest_blocks()) {
            check(must(b, "blocks are not listed") == a.1.as_block_id(a.0), "different latest blocks are listed");
        }
        check(h.latest_blocks().count() == all.len(), "a wrong number of latest blocks");
        for (a, b) in all.iter().zip(h.raw_iter()) {
            let (s, mut v) = must(b, "raw shards are not listed");
            check(s == a.0 && ShardDescription::load_from(&mut v).as_ref() == Ok(&a.1), "different raw shards are listed");
        }
        check(h.raw_iter().count() == all.len(), "a wrong number of raw shards");
        let mut d = Dict::<i32, Cell>::new();
        for (wc, w, from, n) in &trees {
            let t = must(must(h.get_workchain_shards(*wc), "get").ok_or(()), "a workchain is lost");
            check(t.workchain() == *wc, "a tree has the wrong workchain");
            w.check(t.root(), "a tree is stored differently");
            let part = &all[*from..*from + *n];
            check(t.keys().count() == *n && t.raw_values().count() == *n && t.iter().count() == *n, "a wrong number of shards");
            check(t.raw_iter().count() == *n && t.latest_blocks().count() == *n, "a wrong number of shards");
            for (i, a) in part.iter().enumerate() {
                check(t.keys().nth(i) == Some(Ok(a.0)), "different keys are listed");
                check(t.iter().nth(i) == Some(Ok(a.clone())), "different shards are listed");
                check(t.latest_blocks().nth(i) == Some(Ok(a.1.as_block_id(a.0))), "different latest blocks are listed");
            }
            must(d.set(*wc, t.into_root()), "set");
        }
        check(*h.as_dict() == d && ShardHashes::from_dict(d.clone()) == h, "the dictionary of trees differs");
        for q in [0i32, 1, 5, 6, -1] {
            check(h.get_workchain_shards(q).map(|x| x.is_some()) == Ok(wcs.contains(&q)), "a workchain from nothing");
        }
        let mut w = W::new();
        w.bit(true).cell(d.root().as_ref().unwrap());
        wire(&h, &w);
        reach("tree");
    }

    /// Only complete sets of disjoint shards make a tree.
    fn sh_build_bad() {
        const P: [u64; 7] = [0x2, 0x4, 0x6, 0x8, 0xa, 0xc, 0xe];
        let set = pick(127, "set");
        let twice = pick(7, "twice");
        let wc = 3;
        let mut w = W::new();
        let d = small_descr(&mut w, 1);
        let mut ids = Vec::new();
        for i in 0..7 {
            if set >> i & 1 != 0 {
                let s = must(ShardIdent::new(wc, P[i] << 60).ok_or(()), "a valid shard is refused");
                ids.push(s);
                if twice == i as u64 {
                    ids.push(s);
                }
            }
        }
        let dup = twice < 7 && set >> twice & 1 != 0;
        // full; L R; LL LR R; L RL RR; LL LR RL RR
        let ok = !dup && matches!(set, 0b0001000 | 0b0100010 | 0b0100101 | 0b1010010 | 0b1010101);
        let r = ShardHashes::from_shards(ids.iter().map(|s| (s, &d)));
        if set == 0 {
            check(r.as_ref().map(|x| x.as_dict().is_empty()) == Ok(true), "no shards");
        } else if ok {
            check(r.is_ok(), "a complete set of shards is refused");
            reach("complete");
        } else {
            check(r.is_err(), "an incomplete or overlapping set of shards is accepted");
            reach("refused");
        }
    }

    /// A broken node ends the listing with one error, also when workchains follow.
    fn sh_iter_bad() {
        // tree: fork(LEAF, fork(LEAF, X)) or (X, LEAF), or X alone
        let leaf = |n: u32| {
            let mut w = W::new();
            w.bit(false);
            small_descr(&mut w, n);
            w.build()
        };
        let node = |a: &Cell, b: &Cell| {
            let mut w = W::new();
            w.bit(true).cell(a).cell(b);
            w.build()
        };
        let bad = match pick(4, "bad") {
            0 => Cell::default(),
            1 => exotic(),
            2 => {
                // a fork with one branch
                let mut w = W::new();
                w.bit(true).cell(&leaf(9));
                w.build()
            }
            3 => {
                // a fork without branches
                let mut w = W::new();
                w.bit(true);
                w.build()
            }
            _ => {
                // a leaf without contents
                let mut w = W::new();
                w.bit(false);
                w.build()
            }
        };
        let kind = bad.bit_len() == 1 && bad.reference_count() == 0 && bad.data()[0] & 0x80 == 0;
        let one = bad.reference_count() == 1;
        let (tree, before) = match pick(2, "at") {
            0 => (bad, 0),
            1 => (node(&bad, &leaf(1)), 0),
            _ => (node(&leaf(1), &node(&leaf(2), &bad)), 2),
        };
        let before = before + one as usize;
        let t = WorkchainShardHashesIter::new(2, tree.as_ref());
        let mut n = 0;
        let mut t2 = t;
        loop {
            match t2.next() {
                Some(Ok(_)) => n += 1,
                Some(Err(_)) => break,
                None => {
                    check(false, "a broken tree is listed without an error");
                    return;
                }
            }
        }
        check(n == before, "a broken tree lists a wrong number of shards");
        check(t2.next().is_none(), "the listing goes on after an error");
        let mut d = Dict::<i32, Cell>::new();
        must(d.set(1, leaf(1)), "set");
        must(d.set(2, tree), "set");
        must(d.set(3, leaf(3)), "set");
        let h = ShardHashes::from_dict(d);
        let mut it = h.iter();
        for _ in 0..before + 1 {
            check(matches!(it.next(), Some(Ok(_))), "a shard before the broken one is lost");
        }
        check(matches!(it.next(), Some(Err(_))), "a broken tree is listed without an error");
        check(it.next().is_none(), "the listing goes on after an error");
        let mut it = h.latest_blocks();
        for _ in 0..before + 1 {
            check(matches!(it.next(), Some(Ok(_))), "a block before the broken one is lost");
        }
        check(matches!(it.next(), Some(Err(_))), "a broken tree is listed without an error");
        check(it.next().is_none(), "the listing goes on after an error");
        if !kind {
            let mut it = h.raw_iter();
            for _ in 0..before + 1 {
                check(matches!(it.next(), Some(Ok(_))), "a shard before the broken one is lost");
            }
            check(matches!(it.next(), Some(Err(_))), "a broken tree is listed without an error");
            check(it.next().is_none(), "the listing goes on after an error");
        }
        reach("broken");
    }

    /// Trees are at most 60 deep.
    fn sh_deep() {
        let depth = [59u64, 60, 61][pick(2, "depth") as usize];
        let right = any_bool("right");
        let leaf = |n: u32| {
            let mut w = W::new();
            w.bit(false);
            small_descr(&mut w, n);
            w.build()
        };
        let mut t = leaf(1);
        let l = leaf(2);
        for _ in 0..depth {
            let mut w = W::new();
            w.bit(true);
            if right {
                w.cell(&l).cell(&t);
            } else {
                w.cell(&t).cell(&l);
            }
            t = w.build();
        }
        let mut it = WorkchainShardsTreeKeysIter::new(4, t.as_ref());
        let mut n = 0u64;
        let mut last = 0u64;
        loop {
            match it.next() {
                None => break,
                Some(Ok(s)) => {
                    check(ShardIdent::new(4, s.prefix()) == Some(s) && s.workchain() == 4, "an invalid shard is listed");
                    check(s.prefix() > last, "shards are out of order");
                    last = s.prefix();
                    n += 1;
                }
                Some(Err(_)) => {
                    check(depth > 60, "a tree of the largest depth is refused");
                    check(it.next().is_none(), "the listing goes on after an error");
                    reach("too deep");
                    return;
                }
            }
        }
        check(depth <= 60 && n == depth + 1, "a tree that is too deep is accepted");
        reach("deep");
    }
}
