// Values made of values (tuples, options, pointers), lazily loaded cells, statistics of cell
// trees, iteration over children, and the small helper types around cells.
use crate::vp::*;
use std::num::{NonZeroU16, NonZeroU32, NonZeroU8};
use std::rc::Rc;
use std::sync::Arc;
use tycho_types::cell::*;
use tycho_types::error::Error;
use tycho_types::models::*;
use tycho_types::num::*;
const TOP: bool = true;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/wire.rs"));

/// The value, its encoding, and the announced size.
fn sized<T: Store + ExactSize + for<'a> Load<'a> + PartialEq>(v: &T, w: &W) {
    wire(v, w);
    let s = v.exact_size();
    check(s.bits as usize == w.b.len() && s.refs as usize == w.r.len(), "exact size");
    check(s == (Size { bits: w.b.len() as u16, refs: w.r.len() as u8 }), "exact size");
}
fn any_hash(w: &mut W, name: &'static str) -> HashBytes {
    let b = any_bytes::<32>(name);
    w.by(&b, 256);
    HashBytes(b)
}
fn cell_part(w: &mut W, tag: u8) -> Cell {
    let c = tiny(tag);
    w.cell(&c);
    c
}
fn opt_part(w: &mut W, tag: u8) -> Option<Cell> {
    let v = if pick(1, "present") == 1 { Some(tiny(tag)) } else { None };
    w.opt_cell(&v);
    v
}
fn any9(w: &mut W, name: &'static str) -> Uint9 {
    let v = any_u16(name) & 511;
    w.u(v as u128, 9);
    Uint9::new(v)
}

/// A small directed acyclic graph: every cell refers to up to `refs` earlier cells; the last is the
/// root. `twins` gives two cells of equal contents (distinct allocations).
fn graph(n: usize, refs: u64) -> Vec<Cell> {
    let mut out: Vec<Cell> = Vec::new();
    for i in 0..n {
        let mut b = CellBuilder::new();
        let twin = i > 0 && pick(1, "twin") == 1;
        let tag = if twin { i as u8 - 1 } else { i as u8 };
        must(b.store_raw(&[tag; 4], 9 + 3 * tag as u16), "graph");
        let k = if i == 0 { 0 } else { pick(refs, "children") };
        for _ in 0..k {
            must(b.store_reference(out[pick(i as u64 - 1, "child") as usize].clone()), "graph");
        }
        out.push(must(b.build(), "graph"));
    }
    out
}
/// Distinct cells (by representation hash) below and including `c`, in any order.
fn distinct(c: &DynCell, seen: &mut Vec<(HashBytes, u64)>) {
    if seen.iter().any(|(h, _)| h == c.repr_hash()) {
        return;
    }
    seen.push((*c.repr_hash(), c.bit_len() as u64));
    for i in 0..c.reference_count() {
        distinct(must(c.reference(i).ok_or(()), "child"), seen);
    }
}
fn totals(seen: &[(HashBytes, u64)]) -> (u64, u64) {
    (seen.iter().map(|(_, b)| *b).sum(), seen.len() as u64)
}

fn any_hash_t(w: &mut W) -> HashBytes {
    any_hash(w, "hash")
}
fn any_u16_t(w: &mut W) -> u16 {
    let v = any_u16("number");
    w.u(v as u128, 16);
    v
}
fn nonzero<T: for<'a> Load<'a>>(x: u128, n: usize, get: fn(T) -> u128) {
    let mut w = W::new();
    w.u(x, n);
    let c = w.build();
    match c.parse::<T>() {
        Ok(v) => {
            check(x != 0 && get(v) == x, "a nonzero number");
        }
        Err(_) => {
            check(x == 0, "a nonzero number is refused");
        }
    }
}

harnesses! {
    /// Tuples: their parts in order.
    fn va_tuple() {
        let mut w = W::new();
        match pick(5, "arity") {
            0 => {
                let v = (any9(&mut w, "a"), cell_part(&mut w, 1));
                sized(&v, &w);
                reach("two");
            }
            1 => {
                let v = (any_hash_t(&mut w), any_u16_t(&mut w), opt_part(&mut w, 2));
                wire(&v, &w);
                reach("three");
            }
            2 => {
                let v = (any9(&mut w, "a"), cell_part(&mut w, 1), any9(&mut w, "b"), opt_part(&mut w, 2));
                sized(&v, &w);
                wire_cut::<(Uint9, Cell, Uint9, Option<Cell>)>(&w);
                reach("four");
            }
            3 => {
                let v = (any9(&mut w, "a"), any9(&mut w, "b"), any9(&mut w, "c"), opt_part(&mut w, 2), cell_part(&mut w, 1));
                sized(&v, &w);
                reach("five");
            }
            4 => {
                let v = (cell_part(&mut w, 3), any9(&mut w, "a"), any9(&mut w, "b"), any9(&mut w, "c"), opt_part(&mut w, 2), cell_part(&mut w, 1));
                sized(&v, &w);
                wire_cut::<(Cell, Uint9, Uint9, Uint9, Option<Cell>, Cell)>(&w);
                reach("six");
            }
            _ => {
                sized(&(), &w);
                let v = ((any9(&mut w, "a"), ()), (opt_part(&mut w, 1), any9(&mut w, "b")));
                sized(&v, &w);
                reach("nested");
            }
        }
    }

    /// Every integer type, booleans and hashes as they are.
    fn va_plain() {
        fn one<T: Store + for<'a> Load<'a> + PartialEq>(v: T, x: u128, n: usize) {
            let mut w = W::new();
            w.u(x, n);
            wire(&v, &w);
            wire_cut::<T>(&w);
            let mut o = W::new();
            o.bit(true).u(x, n);
            wire(&Some(v), &o);
            let mut o = W::new();
            o.bit(false);
            wire(&None::<T>, &o);
        }
        let x = any_u128("value");
        match pick(14, "type") {
            0 => one(x & 1 == 1, x & 1, 1),
            1 => one(x as u8, x, 8),
            2 => one(x as i8, x, 8),
            3 => one(x as u16, x, 16),
            4 => one(x as i16, x, 16),
            5 => one(x as u32, x, 32),
            6 => one(x as i32, x, 32),
            7 => one(x as u64, x, 64),
            8 => one(x as i64, x, 64),
            9 => one(x, x, 128),
            10 => one(x as i128, x, 128),
            11 => {
                let mut w = W::new();
                let v = any_hash(&mut w, "hash");
                wire(&v, &w);
                wire_cut::<HashBytes>(&w);
            }
            12 => nonzero::<NonZeroU8>(x & 0xff, 8, |v| v.get() as u128),
            13 => nonzero::<NonZeroU16>(x & 0xffff, 16, |v| v.get() as u128),
            _ => nonzero::<NonZeroU32>(x & 0xffff_ffff, 32, |v| v.get() as u128),
        }
        reach("done");
    }

    /// Pointers are what they point to.
    fn va_pointer() {
        let mut w = W::new();
        let v = (any9(&mut w, "a"), opt_part(&mut w, 1));
        match pick(3, "kind") {
            0 => sized(&Box::new(v), &w),
            1 => sized(&Arc::new(v), &w),
            2 => sized(&Rc::new(v), &w),
            _ => {
                let r = &v;
                wire_store(&r, &w);
                check(r.exact_size() == v.exact_size(), "size of a reference");
                let mut v2 = v.clone();
                check((&mut v2).exact_size() == v.exact_size(), "size of a reference");
                check((&&v).exact_size() == v.exact_size(), "size of a reference");
                reach("reference");
            }
        }
        reach("done");
    }

    /// Slices, builders and parts of cells as values; sizes.
    fn va_slice() {
        let n = [0usize, 1, 5, 8, 13, 20][pick(5, "bits") as usize];
        let refs = pick(3, "refs") as usize;
        let mut w = W::new();
        let raw = any_bytes::<3>("raw");
        w.by(&raw, n);
        for i in 0..refs {
            w.cell(&tiny(i as u8));
        }
        let c = w.build();
        let cut = pick(2, "cut");
        let (a, z) = (pick(2, "from") as usize * 3, pick(1, "refs.from") as usize);
        if a > n || z > refs {
            return;
        }
        let mut s = must(c.as_slice(), "slice");
        must(s.skip_first(a as u16, z as u8), "skip");
        if cut == 1 && a + 1 <= n {
            must(s.skip_last(1, 0), "skip");
        }
        let mut e = W::new();
        for i in a..n - (cut == 1 && a + 1 <= n) as usize {
            e.bit(w.b.0[i] == 1);
        }
        for i in z..refs {
            e.cell(&tiny(i as u8));
        }
        wire_store(&s, &e);
        check(s.exact_size().bits as usize == e.b.len() && s.exact_size().refs as usize == e.r.len(), "size of a slice");
        let parts: CellSliceParts = (s.range(), c.clone());
        check(parts.exact_size() == s.exact_size(), "size of slice parts");
        wire_store(&e.builder(), &e);
        // loading a slice takes all that is left
        let mut t = s;
        let got = must(CellSlice::load_from(&mut t), "remaining");
        check(t.size_bits() == 0 && t.size_refs() == 0, "loading a slice leaves something");
        check(got == s, "loading a slice");
        // suffixes
        let (sb, sr) = (any_upto(24, "suffix.bits") as u16, pick(4, "suffix.refs") as u8);
        let sb = conc(sb as u64) as u16;
        let mut t = s;
        match t.load_suffix(sb, sr) {
            Ok(x) => {
                check(sb as usize <= e.b.len() && sr as usize <= e.r.len(), "too long a suffix");
                let at = (e.b.len() - sb as usize, e.r.len() - sr as usize);
                let mut l = e.clone();
                l.b.0.truncate(at.0);
                l.r.truncate(at.1);
                let mut r = W::new();
                r.b.0.extend_from_slice(&e.b.0[at.0..]);
                r.r.extend(e.r[at.1..].iter().cloned());
                wire_store(&x, &r);
                wire_store(&t, &l);
                reach("suffix");
            }
            Err(_) => {
                check(sb as usize > e.b.len() || sr as usize > e.r.len(), "a suffix is refused");
                check(t == s, "a refused suffix moves the slice");
                reach("no suffix");
            }
        }
        let mut it = s.references();
        let mut it2 = s.into_references();
        for i in z..refs {
            check(it.next().map(|c| *c.repr_hash()) == Some(*tiny(i as u8).repr_hash()), "references of a slice");
            check(it2.next().is_some(), "references of a slice");
        }
        check(it.next().is_none() && it2.next().is_none(), "references of a slice");
    }

    /// A lazily loaded value is the cell that holds it.
    fn va_lazy() {
        type T = (Uint9, Option<Cell>);
        let mut w = W::new();
        let v: T = (Uint9::new(conc(any_upto(2, "a")) as u16 * 200), opt_part(&mut W::new(), 1));
        w.u(v.0.into_inner() as u128, 9).opt_cell(&v.1);
        let c = w.build();
        let l = must(Lazy::<T>::new(&v), "lazy");
        check(l.inner() == &c && l == c && c == l && l == &c, "cell of a lazy value");
        check(must(l.load(), "load") == v, "value of a lazy value");
        check(*l.repr_hash() == *c.repr_hash(), "hash of a lazy value");
        let mut o = W::new();
        o.cell(&c);
        sized(&l, &o);
        let raw = must(Lazy::<T>::from_raw(c.clone()), "lazy");
        check(raw == l && raw.clone() == l, "lazy values of the same cell");
        check(l.cast_ref::<T>().inner() == &c, "casting");
        let mut m = l.clone();
        let v2: T = (Uint9::new(7), None);
        must(m.set(&v2), "set");
        check(must(m.load(), "load") == v2 && must(l.load(), "load") == v, "setting a lazy value");
        check(m != l || v == v2, "different lazy values are equal");
        check(l.into_inner() == c, "inner cell");
        reach("ordinary");
        // exotic cells
        let mut b = CellBuilder::new();
        b.set_exotic(true);
        must(b.store_u8(2), "library");
        must(b.store_u256(c.repr_hash()), "library");
        let lib = must(b.build(), "library");
        check(matches!(Lazy::<T>::from_raw(lib.clone()), Err(Error::UnexpectedExoticCell)), "an exotic cell is accepted");
        check(matches!(LazyExotic::<T>::from_raw(c.clone()), Err(Error::UnexpectedOrdinaryCell)), "an ordinary cell is accepted");
        check(must(LazyExotic::<T>::from_raw(lib.clone()), "exotic").into_inner() == lib, "exotic lazy value");
        let mut o = W::new();
        o.cell(&lib);
        wire_bad::<Lazy<T>>(&o, "an exotic cell is loaded");
        // a cell that does not hold the value is found when it is loaded
        let bad = must(Lazy::<T>::from_raw(tiny(1)), "lazy");
        check(bad.load().is_err(), "a short cell is loaded");
        check(LazyExotic::<T>::from_raw(tiny(1)).is_err(), "an ordinary cell is accepted");
    }

    /// Parsing a cell loads the value at its beginning.
    fn va_parse() {
        let mut w = W::new();
        let v = any9(&mut w, "a");
        let extra = pick(2, "extra");
        let c = {
            let mut x = w.clone();
            if extra == 1 {
                x.bit(any_bool("more"));
            }
            if extra == 2 {
                x.cell(&tiny(1));
            }
            x.build()
        };
        check(c.parse::<Uint9>() == Ok(v), "parsing a cell");
        reach("done");
    }

    /// Unique cells and their bits, within a limit.
    fn va_stats() {
        let n = 2 + pick(if thorough() { 3 } else { 2 }, "cells") as usize;
        let g = graph(n, 2);
        let root = g[n - 1].as_ref();
        let mut seen = Vec::new();
        distinct(root, &mut seen);
        let (bits, cells) = totals(&seen);
        let want = CellTreeStats { bit_count: bits, cell_count: cells };
        check(root.compute_unique_stats(usize::MAX) == Some(want), "statistics of a tree");
        let limit = pick(n as u64, "limit");
        let r = root.compute_unique_stats(limit as usize);
        if limit >= cells {
            check(r == Some(want), "statistics within the limit");
            reach("within");
        } else {
            check(r.is_none(), "the limit is exceeded");
            reach("exceeded");
        }
        // slices: their own bits, no cell for the root
        let mut s = must(root.as_slice(), "slice");
        let k = pick(s.size_refs() as u64, "skip") as u8;
        must(s.skip_first(2, k), "skip");
        let mut seen = Vec::new();
        for i in k..root.reference_count() {
            distinct(must(root.reference(i).ok_or(()), "child"), &mut seen);
        }
        let (bits, cells) = totals(&seen);
        let want = CellTreeStats { bit_count: bits + root.bit_len() as u64 - 2, cell_count: cells };
        check(s.compute_unique_stats(usize::MAX) == Some(want), "statistics of a slice");
        let r = s.compute_unique_stats(limit as usize);
        check(r == if limit >= cells { Some(want) } else { None }, "statistics of a slice within the limit");
    }

    /// Several trees added together count shared cells once.
    fn va_stats_sum() {
        let n = 3;
        let g = graph(n, 2);
        let mut st = StorageStat::unlimited();
        let mut seen = Vec::new();
        let mut own = 0;
        for _ in 0..2 {
            let i = pick(n as u64 - 1, "added") as usize;
            if pick(1, "as slice") == 1 {
                let s = must(g[i].as_slice(), "slice");
                check(st.add_slice(&s), "added");
                own += s.size_bits() as u64;
                for c in g[i].references() {
                    distinct(c, &mut seen);
                }
            } else {
                check(st.add_cell(g[i].as_ref()), "added");
                distinct(g[i].as_ref(), &mut seen);
            }
            let (bits, cells) = totals(&seen);
            check(st.stats() == CellTreeStats { bit_count: bits + own, cell_count: cells }, "statistics of several trees");
        }
        reach("done");
    }

    /// Statistics are kept per cell as well: how often every cell below is met.
    fn va_cell_stats() {
        fn walk(c: &DynCell, r: &mut (u64, u64)) {
            r.0 += c.bit_len() as u64;
            r.1 += 1;
            for i in 0..c.reference_count() {
                walk(must(c.reference(i).ok_or(()), "child"), r);
            }
        }
        let g = graph(3, 2);
        let mut r = (0, 0);
        walk(g[2].as_ref(), &mut r);
        check(g[2].stats() == CellTreeStats { bit_count: r.0, cell_count: r.1 }, "statistics of a cell");
        reach("done");
    }

    /// Arithmetic of statistics and sizes.
    fn va_ops() {
        let a = CellTreeStats { bit_count: any_u64("a"), cell_count: any_u64("b") };
        let b = CellTreeStats { bit_count: any_u64("c"), cell_count: any_u64("d") };
        let add = |x: u64, y: u64| (x as u128 + y as u128).min(u64::MAX as u128) as u64;
        let sub = |x: u64, y: u64| (x as i128 - y as i128).max(0) as u64;
        let sum = CellTreeStats { bit_count: add(a.bit_count, b.bit_count), cell_count: add(a.cell_count, b.cell_count) };
        let dif = CellTreeStats { bit_count: sub(a.bit_count, b.bit_count), cell_count: sub(a.cell_count, b.cell_count) };
        check(a + b == sum, "sums of statistics");
        check(a - b == dif, "differences of statistics");
        let mut x = a;
        x += b;
        check(x == sum, "sums of statistics");
        let mut x = a;
        x -= b;
        check(x == dif, "differences of statistics");
        check([a, b].into_iter().sum::<CellTreeStats>() == sum, "sums of statistics");
        let s = Size { bits: any_u16("bits") & 0x7fff, refs: any_u8("refs") & 0x7f };
        let t = Size { bits: any_u16("bits") & 0x7fff, refs: any_u8("refs") & 0x7f };
        let both = Size { bits: s.bits + t.bits, refs: s.refs + t.refs };
        check(s + t == both && both - t == s, "sums of sizes");
                check(s.is_zero() == (s.bits == 0 && s.refs == 0), "empty size");
        check(s.fits_into_cell() == (s.bits <= 1023 && s.refs <= 4), "sizes that fit");
        let conv = CellTreeStats::from(s);
        check(conv.bit_count == s.bits as u64 && conv.cell_count == s.refs as u64, "size as statistics");
        check(a + s == a + conv, "sum of statistics and size");
        let mut x = a;
        x += s;
        check(x == a + conv, "sum of statistics and size");
        let mut x = a;
        x -= s;
        check(x == a - conv, "difference of statistics and size");
        let l = Size { bits: any_u16("bits"), refs: any_u8("refs") };
        let r = Size { bits: any_u16("bits"), refs: any_u8("refs") };
        let add = l.saturating_add(r);
        check(add.bits as u32 == (l.bits as u32 + r.bits as u32).min(65535), "saturating sum");
        check(add.refs as u32 == (l.refs as u32 + r.refs as u32).min(255), "saturating sum");
        let sub = l.saturating_sub(r);
        check(sub.bits as i32 == (l.bits as i32 - r.bits as i32).max(0), "saturating difference");
        check(sub.refs as i32 == (l.refs as i32 - r.refs as i32).max(0), "saturating difference");
        reach("done");
    }

    /// Children from both ends.
    fn va_children() {
        let n = pick(4, "children") as usize;
        let kids: Vec<Cell> = (0..n).map(|i| tiny(i as u8)).collect();
        let mut b = CellBuilder::new();
        for k in &kids {
            must(b.store_reference(k.clone()), "child");
        }
        let c = must(b.build(), "cell");
        let mut it = c.references();
        let mut own = c.references().cloned();
        check(core::ptr::eq(it.cell(), c.as_ref()) && core::ptr::eq(own.cell(), c.as_ref()), "parent");
        let (mut lo, mut hi) = (0, n);
        for _ in 0..n + 1 {
            check(it.len() == hi - lo && own.len() == hi - lo, "children left");
            check(it.size_hint() == (hi - lo, Some(hi - lo)), "children left");
            let next = if lo < hi { Some(&kids[lo]) } else { None };
            check(it.peek() == next.map(|c| c.as_ref()), "next child");
            check(it.peek_cloned().as_ref() == next && own.peek().as_ref() == next, "next child");
            let prev = if lo > 0 { Some(&kids[lo - 1]) } else { None };
            check(it.peek_prev() == prev.map(|c| c.as_ref()), "previous child");
            check(it.peek_prev_cloned().as_ref() == prev && own.peek_prev().as_ref() == prev, "previous child");
            check(it.clone().count() == hi - lo && own.clone().count() == hi - lo, "children left");
            if pick(1, "end") == 1 {
                let last = if lo < hi { Some(&kids[hi - 1]) } else { None };
                check(it.next_back() == last.map(|c| c.as_ref()), "last child");
                check(own.next_back().as_ref() == last, "last child");
                if lo < hi {
                    hi -= 1;
                }
            } else {
                check(it.next() == next.map(|c| c.as_ref()), "first child");
                check(own.next().as_ref() == next, "first child");
                if lo < hi {
                    lo += 1;
                }
            }
        }
        for i in 0..6 {
            check(c.reference(i).is_some() == ((i as usize) < n), "child by number");
            check(c.reference_cloned(i).as_ref() == kids.get(i as usize), "child by number");
        }
        reach("done");
    }

    /// Level masks, descriptors and types of cells.
    fn va_descr() {
        let m = any_u8("mask") & 7;
        let l = LevelMask::new(m);
        let bits = [m & 1, m >> 1 & 1, m >> 2 & 1];
        check(l.to_byte() == m && u8::from(l) == m && l == m && l.is_empty() == (m == 0), "level mask");
        check(l.level() == bits[0] + bits[1] + bits[2], "number of levels");
        let k = pick(3, "level") as usize;
        check(LevelMask::from_level(k as u8) == (1u8 << k) - 1, "mask of a level");
        let below: u8 = bits[..k].iter().sum();
        check(l.hash_index(k as u8) == below, "hash index");
        check(l.contains(k as u8) == (k == 0 || bits[k - 1] == 1), "level in a mask");
        check(l.virtualize(k as u8) == m >> k, "virtualized mask");
        let o = any_u8("other") & 7;
        check((l | LevelMask::new(o)) == m | o, "union of masks");
        let (d1, d2) = (any_u8("d1"), any_u8("d2"));
        let d = CellDescriptor { d1, d2 };
        let (refs, exotic, mask) = (d1 & 7, d1 & 8 != 0, d1 >> 5);
        let level = (mask & 1) + (mask >> 1 & 1) + (mask >> 2 & 1);
        check(d.reference_count() == refs && d.is_exotic() == exotic && d.store_hashes() == (d1 & 16 != 0), "descriptor");
        check(d.level_mask() == mask && d.is_aligned() == (d2 & 1 == 0), "descriptor");
        check(d.byte_len() as u16 == (d2 as u16 + 1) / 2, "length of the data");
        check(d.is_absent() == (d1 == 15), "absent cell");
        let pruned = exotic && refs == 0 && mask != 0;
        check(d.is_pruned_branch() == pruned, "pruned branch");
        check(d.is_library() == (exotic && refs == 0 && mask == 0), "library cell");
        check(d.is_merkle() == (exotic && refs != 0), "merkle cell");
        check(d.hash_count() == if pruned { 1 } else { level + 1 }, "number of hashes");
        let t = if !exotic {
            CellType::Ordinary
        } else if refs == 0 {
            if mask == 0 { CellType::LibraryReference } else { CellType::PrunedBranch }
        } else if refs == 1 {
            CellType::MerkleProof
        } else {
            CellType::MerkleUpdate
        };
        check(d.cell_type() == t, "type of a cell");
        let mask2 = LevelMask::new(any_u8("mask") & 7);
        let r = conc(any_upto(4, "refs")) as u8;
        check(CellDescriptor::compute_d1(mask2, exotic, r) == mask2.to_byte() << 5 | (exotic as u8) << 3 | r, "first byte");
        let n = any_upto(1023, "bits") as u16;
        check(CellDescriptor::compute_d2(n) as u16 == n / 8 + n.div_ceil(8), "second byte");
        reach("done");
    }

    /// The byte of every cell type.
    fn va_type() {
        let b = any_u8("byte");
        let want = match b {
            0xff => Some(CellType::Ordinary),
            1 => Some(CellType::PrunedBranch),
            2 => Some(CellType::LibraryReference),
            3 => Some(CellType::MerkleProof),
            4 => Some(CellType::MerkleUpdate),
            _ => None,
        };
        check(CellType::from_byte(b) == want, "type of a byte");
        check(CellType::from_byte_exotic(b) == want.filter(|t| *t != CellType::Ordinary), "exotic type of a byte");
        if let Some(t) = want {
            check(t.to_byte() == b && u8::from(t) == b, "byte of a type");
            check(t.is_exotic() == (b != 0xff), "exotic types");
            check(t.is_merkle() == (b == 3 || b == 4), "merkle types");
            check(t.is_pruned_branch() == (b == 1) && t.is_library() == (b == 2), "types");
            reach("known");
        } else {
            reach("unknown");
        }
    }

    /// Library cells and the level iterator.
    fn va_library() {
        let h = any_bytes::<32>("hash");
        let c = CellBuilder::build_library(&HashBytes(h));
        let mut w = W::new();
        w.u(2, 8).by(&h, 256);
        w.check(c.as_ref(), "library cell");
        check(c.is_exotic() && c.cell_type() == CellType::LibraryReference && c.level() == 0, "library cell");
        let m = pick(7, "mask") as u8;
        let mut it = LevelMask::new(m).into_iter();
        for l in 0..4u8 {
            if l == 0 || m >> (l - 1) & 1 == 1 {
                check(it.next() == Some(l), "levels of a mask");
            }
        }
        check(it.next().is_none() && it.is_empty(), "levels of a mask");
        reach("done");
    }
}

