// Decoding of bags of cells from arbitrary bytes against an independent parser of the format.
use crate::vp::*;
use tycho_types::boc::*;
use tycho_types::cell::*;

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/boc_model.rs"));

/// Header bytes followed by `body`.
fn header(tag: u64, rs: usize, os: usize, idx: bool, crc: bool, cells: usize, roots: &[u32], absent: usize, total: u64) -> Vec<u8> {
    let mut v = Vec::new();
    match tag {
        0 => {
            v.extend_from_slice(&[0xb5, 0xee, 0x9c, 0x72]);
            v.push(rs as u8 | (idx as u8) << 7 | (crc as u8) << 6);
        }
        1 => {
            v.extend_from_slice(&[0x68, 0xff, 0x65, 0xf3]);
            v.push(rs as u8);
        }
        _ => {
            v.extend_from_slice(&[0xac, 0xc3, 0xa7, 0x28]);
            v.push(rs as u8);
        }
    }
    v.push(os as u8);
    for x in [cells, roots.len(), absent] {
        v.extend_from_slice(&(x as u32).to_be_bytes()[4 - rs..]);
    }
    v.extend_from_slice(&total.to_be_bytes()[8 - os..]);
    if tag == 0 {
        for r in roots {
            v.extend_from_slice(&r.to_be_bytes()[4 - rs..]);
        }
    }
    v
}

/// The real decoders against the parser.
fn judge(v: &[u8]) {
    judge_as(v, 1);
    judge_as(v, 2);
}
fn judge_as(v: &[u8], roots: usize) {
    let want = parse(v).and_then(|p| if p.roots.len() == roots { assemble(&p) } else { None });
    let got = if roots == 1 {
        Boc::decode(v).ok().map(|c| [c].to_vec())
    } else {
        Boc::decode_pair(v).ok().map(|(a, b)| [a, b].to_vec())
    };
    match (want, got) {
        (Some(w), Some(g)) => {
            for (w, g) in w.iter().zip(&g) {
                check(w.same(g.as_ref()), "decoded cell");
            }
            reach("accepted");
        }
        (None, None) => reach("refused"),
        (w, _) => check(false, if w.is_some() { "valid bag of cells is refused" } else { "invalid bag of cells is accepted" }),
    }
}

harnesses! {
fn bd_raw() {
    // nothing but arbitrary bytes
    let n = pick(if thorough() { 24 } else { 18 }, "length") as usize;
    let mut v = any_bytes::<24>("bytes");
    let t = pick(3, "tag");
    if t == 2 {
        return;
    }
    const TAGS: [u32; 3] = [0xb5ee9c72, 0x68ff65f3, 0xacc3a728];
    if t < 3 {
        v[..4].copy_from_slice(&TAGS[t as usize].to_be_bytes());
    } else {
        let x = be(&v[..4]) as u32;
        assume(x != TAGS[0] && x != TAGS[1] && x != TAGS[2]);
    }
    // the sizes of the numbers that follow are split into cases
    let f = pick(8, "number size") as u8;
    if f < 8 {
        v[4] = if t == 0 { v[4] & 0xf8 | f } else { f };
    } else {
        assume(if t == 0 { v[4] & 7 == 0 } else { v[4] >= 8 });
    }
    let o = pick(9, "offset size") as u8;
    if o < 9 { v[5] = o } else { assume(v[5] >= 9) }
    // so are the counts of cells and of roots
    let (f, o) = (f as usize, o as usize);
    if (1..=4).contains(&f) && (1..=8).contains(&o) && n >= 6 + 2 * f {
        for (at, max) in [(6, 3), (6 + f, 3)] {
            let c = pick(max + 1, "count");
            if c <= max {
                v[at..at + f].copy_from_slice(&(c as u32).to_be_bytes()[4 - f..]);
            } else {
                assume(be(&v[at..at + f]) > max);
            }
        }
    }
    // checksums are the subject of bd_crc
    assume(t != 0 || v[4] & 0x40 == 0);
    judge(&v[..n]);
}

fn bd_cells() {
    // a sound header of each kind; up to three cells with arbitrary descriptors, data and references
    let n = 1 + pick(2, "cells") as usize;
    let few = n == 1 || thorough();
    let rs = 1 + pick(if few { 3 } else { 0 }, "ref size") as usize;
    let tag = if few { pick(1, "tag") } else { 0 };
    let idx = tag == 1 || few && any_bool("index");
    let mut body = Vec::new();
    let mut left = if n < 3 { 2 } else { 1 };
    for i in 0..n {
        // arbitrary flags for one cell, a few for each of more
        let refs = pick(if n == 1 { 5 } else if i + 1 < n { 2 } else { 1 }, "refs") as u8;
        let d1 = refs | if n == 1 || n == 2 && i == 1 {
            (pick(31, "flags") as u8) << 3
        } else {
            [0, 8, 0x20, 0x10][pick(if i == 1 { 0 } else { 3 }, "flags") as usize]
        };
        let bytes = pick(if left > 2 { 2 } else { left }, "bytes");
        left -= bytes;
        let half = bytes > 0 && any_bool("half");
        body.push(d1);
        body.push((bytes * 2) as u8 - half as u8);
        if d1 & 16 != 0 {
            body.extend_from_slice(&[7u8; 34 * 4][..34 * (1 + conc((d1 >> 5).count_ones() as u64) as usize)]);
            reach("hashes");
        }
        for _ in 0..bytes {
            body.push(any_u8("data"));
        }
        for _ in 0..refs.min(4) {
            // itself, any later cell, or beyond
            let r = i as u64 + pick((n - i) as u64, "ref");
            for k in 0..rs {
                body.push(if k + 1 < rs { if few && r >= n as u64 { any_u8("high") } else { 0 } } else { r as u8 });
            }
        }
    }
    let wrong = if n == 1 { pick(2, "size") } else { 0 };
    let total = (body.len() as u64 + wrong).wrapping_sub(if wrong == 2 { 3 } else { 0 });
    let roots = if tag == 0 && n < 3 && any_bool("two") { [pick(n as u64, "root") as u32, pick(n as u64, "root") as u32].to_vec() } else { [0].to_vec() };
    if wrong != 0 && roots.len() > 1 {
        return;
    }
    let mut v = header(tag, rs, 2, idx, false, n, &roots, 0, total);
    if idx {
        v.extend(core::iter::repeat_n(0x55, n * 2));
    }
    v.extend_from_slice(&body);
    judge_as(&v, roots.len());
}

fn bd_cut() {
    // a sound bag of cells is refused when anything is cut off; what follows it is ignored
    let tag = pick(2, "tag");
    let crc = tag == 2 || tag == 0 && any_bool("crc");
    let rs = 1 + pick(3, "ref size") as usize;
    let os = 1 + pick(7, "offset size") as usize;
    let idx = tag != 0 || any_bool("index");
    let b = any_u8("data");
    let mut body = [2, 2, b].to_vec();
    for _ in 0..2 {
        body.extend_from_slice(&1u32.to_be_bytes()[4 - rs..]);
    }
    body.extend_from_slice(&[0, 1, b | 1]);
    let mut v = header(tag, rs, os, idx, crc, 2, &[0], 0, body.len() as u64);
    if idx {
        v.extend(core::iter::repeat_n(0, 2 * os));
    }
    v.extend_from_slice(&body);
    if crc {
        let c = crc32(&v).to_le_bytes();
        v.extend_from_slice(&c);
    }
    let n = v.len();
    v.push(any_u8("after"));
    let k = pick(n as u64 + 1, "length") as usize;
    // short copies sit in an allocation of their own, so that reading past the end is noticed
    let w = v[..k].to_vec();
    match Boc::decode(&w) {
        Ok(c) => {
            check(k >= n, "a truncated bag of cells is accepted");
            check(c.data() == [b] && c.reference_count() == 2, "root");
            check(c.reference(0).is_some_and(|c| c.data() == [b | 1]), "child");
            reach("accepted");
        }
        Err(_) => {
            check(k < n, "valid bag of cells is refused");
            reach("refused");
        }
    }
}

fn bd_crc() {
    // the checksum is the checksum of all that precedes it; any change of one byte is noticed
    let tag = if any_bool("generic") { 0 } else { 2 };
    let data: [u8; 3] = if any_bool("zeros") { [0; 3] } else { *b"\x5a\xff\x80" };
    let body = [1, 6, data[0], data[1], data[2], 1, 0, 1, data[0] | 1];
    let mut v = header(tag, 1, 1, tag == 2, true, 2, &[0], 0, 9);
    if tag == 2 {
        v.extend_from_slice(&[5, 8]);
    }
    v.extend_from_slice(&body);
    let n = v.len();
    let c = crc32(&v).to_le_bytes();
    if any_bool("in checksum") {
        let diff: [u8; 4] = any_bytes("difference");
        let same = u32::from_be_bytes(diff) == 0;
        for i in 0..4 {
            v.push(c[i] ^ diff[i]);
        }
        check(Boc::decode(&v).is_ok() == same, "checksum accepted exactly when right");
        if same { reach("right") } else { reach("wrong") }
    } else {
        v.extend_from_slice(&c);
        let at = pick(n as u64 - 1, "at") as usize;
        // the format of the header decides whether there is a checksum
        if at < 5 {
            return;
        }
        let diff = any_u8("difference");
        assume(diff != 0);
        v[at] ^= diff;
        check(Boc::decode(&v).is_err(), "corruption is noticed");
        reach("corrupted");
    }
}

fn bd_steps() {
    // header first, cells later: limits on the number of roots, slices of cells, cells by index
    let n = 1 + pick(3, "cells") as usize;
    let rs = 1 + pick(3, "ref size") as usize;
    let mut body = Vec::new();
    let mut slices = Vec::new();
    let mut cells: Vec<Cell> = Vec::new();
    for i in 0..n {
        let start = body.len();
        let last = i + 1 == n;
        body.extend_from_slice(&[!last as u8, 2, i as u8 + 1]);
        if !last {
            body.extend_from_slice(&(i as u32 + 1).to_be_bytes()[4 - rs..]);
        }
        slices.push((start, body.len()));
    }
    for i in (0..n).rev() {
        let mut b = CellBuilder::new();
        check(b.store_u8(i as u8 + 1).is_ok(), "store");
        if let Some(c) = cells.last() {
            check(b.store_reference(c.clone()).is_ok(), "store");
        }
        match b.build() {
            Ok(c) => cells.push(c),
            Err(_) => check(false, "build"),
        }
    }
    cells.reverse();
    let k = 1 + pick(if n > 2 { 2 } else { n as u64 - 1 }, "roots") as usize;
    let mut roots = Vec::new();
    for _ in 0..k {
        roots.push(pick(n as u64 - 1, "root") as u32);
    }
    let v = header(0, rs, 2, false, false, n, &roots, 0, body.len() as u64);
    let at = v.len();
    let mut v = v;
    v.extend_from_slice(&body);
    let mut opts = de::Options::default();
    if pick(1, "min") == 1 {
        opts.min_roots = Some(any_u64("min roots") as usize);
    }
    if pick(1, "max") == 1 {
        // the default limit of roots is above what is built here
        opts.max_roots = Some(any_u64("max roots") as usize);
    }
    if pick(2, "exact") == 2 {
        let e = any_u64("exact") as usize;
        opts = de::Options::exact(e);
        check(opts.min_roots == Some(e) && opts.max_roots == Some(e), "exact number of roots");
    }
    let fits = opts.min_roots.is_none_or(|m| m <= k) && opts.max_roots.is_none_or(|m| m >= k);
    let h = match de::BocHeader::decode(&v, &opts) {
        Ok(h) => {
            check(fits, "limit of roots is not kept");
            h
        }
        Err(_) => {
            check(!fits, "number of roots within the limits is refused");
            reach("limited");
            return;
        }
    };
    check(h.ref_size() == rs && h.roots() == roots && h.cells().len() == n, "header");
    for (c, (a, b)) in h.cells().iter().zip(&slices) {
        check(*c == &v[at + a..at + b], "slice of a cell");
    }
    let Ok(p) = h.finalize(Cell::empty_context()) else {
        check(false, "cells are refused");
        return;
    };
    for (i, c) in cells.iter().enumerate() {
        check(matches!(p.get(i as u32), Some(x) if x.repr_hash() == c.repr_hash() && x.data() == c.data()), "cell by its index");
    }
    let i = any_u32("index");
    assume(i >= n as u32);
    check(p.get(i).is_none(), "no cell has an index out of range");
    reach("assembled");
}

fn bd_full() {
    // one or two cells of any size, with stored hashes in any of them
    let n = 1 + pick(1, "cells") as usize;
    let rs = 1 + 3 * pick(1, "ref size") as usize;
    let mut body = Vec::new();
    for i in 0..n {
        let hashes = pick(1, "hashes") == 1;
        let len = if n == 1 { pick(128, "bytes") } else { [0, 60, 93, 100, 127, 128][pick(5, "bytes") as usize] } as usize;
        let half = len > 0 && (len == 128 || pick(1, "half") == 1);
        let more = (i + 1 < n) as u8;
        body.extend_from_slice(&[more | (hashes as u8) << 4, (2 * len - half as usize) as u8]);
        if hashes {
            body.extend_from_slice(&[7; 34]);
        }
        for k in 0..len {
            body.push(if k + 1 == len && half { 0x41 << 1 } else { k as u8 | 1 });
        }
        if more == 1 {
            body.extend_from_slice(&1u32.to_be_bytes()[4 - rs..]);
        }
    }
    let mut v = header(0, rs, 2, false, false, n, &[0], 0, body.len() as u64);
    v.extend_from_slice(&body);
    check(parse(&v).is_some(), "the bag is sound");
    judge_as(&v, 1);
}
}
