// Builder stores: bit-exact appends, atomic failure, capacity exactly 1023 bits / 4 refs.
use crate::vp::*;
use tycho_types::cell::*;
use tycho_types::prelude::*;

const MAX: usize = 1023;

/// Arbitrary existing content: `n` bits, of which the last up to 24 are arbitrary.
fn prefix(b: &mut CellBuilder, m: &mut Bits, n: usize) {
    let k = n.min(24);
    let z = n - k;
    m.fill(0, z);
    check(b.store_zeros(z as u16).is_ok(), "zeros fit");
    let p: [u8; 3] = any_bytes("pre");
    m.bytes(&p, k);
    let mut v = 0u64;
    for i in 0..3 {
        v = v << 8 | p[i] as u64;
    }
    if k > 0 {
        check(b.store_uint(v >> (24 - k), k as u16).is_ok(), "prefix fits");
    }
}

fn verify(b: &CellBuilder, m: &Bits, ok: bool, before: usize, added: usize) {
    check(ok == (before + added <= MAX), "a store succeeds exactly when the bits fit into 1023");
    check(b.size_bits() as usize == m.len(), "bit length after the store");
    check(b.spare_capacity_bits() as usize == MAX - m.len(), "spare capacity");
    m.check_raw(&b.raw_data()[..], "builder bits after the store");
    let s = b.as_data_slice();
    check(s.size_bits() as usize == m.len(), "slice length");
}

/// start lengths: every alignment near 0, and around the capacity for the width `w`
fn start(w: usize) -> usize {
    if any_bool("near_end") {
        let back = pick(9, "back") as usize; // before = 1023 - w + 3 - back
        let base = (MAX + 3).saturating_sub(w + back);
        base.min(MAX)
    } else {
        pick(24, "start") as usize
    }
}

fn one_op(b: &mut CellBuilder, m: &mut Bits, before: usize, op: u64) {
    macro_rules! ap {
        ($n:expr, $r:expr, $add:expr) => {{
            let n: usize = $n;
            let r = $r.is_ok();
            if r {
                $add;
            }
            verify(b, m, r, before, n);
        }};
    }
    match op {
        0 => { let v = any_bool("v"); ap!(1, b.store_bit(v), m.fill(v as u8, 1)) }
        1 => ap!(1, b.store_bit_zero(), m.fill(0, 1)),
        2 => ap!(1, b.store_bit_one(), m.fill(1, 1)),
        3 => { let v = any_u8("v"); ap!(8, b.store_u8(v), m.uint(v as u128, 8)) }
        4 => { let v = any_u16("v"); ap!(16, b.store_u16(v), m.uint(v as u128, 16)) }
        5 => { let v = any_u32("v"); ap!(32, b.store_u32(v), m.uint(v as u128, 32)) }
        6 => { let v = any_u64("v"); ap!(64, b.store_u64(v), m.uint(v as u128, 64)) }
        7 => { let v = any_u128("v"); ap!(128, b.store_u128(v), m.uint(v, 128)) }
        8 => { let v: [u8; 32] = any_bytes("v"); ap!(256, b.store_u256(HashBytes::wrap(&v)), m.bytes(&v, 256)) }
        _ => unreachable!(),
    }
}
const W: [usize; 9] = [1, 1, 1, 8, 16, 32, 64, 128, 256];

harnesses! {
fn st_fixed() {
    let op = pick(8, "op");
    let n = start(W[op as usize]);
    let mut b = CellBuilder::new();
    let mut m = Bits::new();
    prefix(&mut b, &mut m, n);
    one_op(&mut b, &mut m, n, op);
    reach("end");
}
fn st_uint() {
    let bits = pick(70, "bits") as usize;
    let n = start(bits);
    let mut b = CellBuilder::new();
    let mut m = Bits::new();
    prefix(&mut b, &mut m, n);
    let v = any_u64("v");
    let r = b.store_uint(v, bits as u16).is_ok();
    if r {
        m.uint(v as u128, bits);
    }
    verify(&b, &m, r, n, bits);
    reach("end");
}
fn st_small() {
    let bits = pick(10, "bits") as usize;
    let n = start(bits);
    let mut b = CellBuilder::new();
    let mut m = Bits::new();
    prefix(&mut b, &mut m, n);
    let v = any_u8("v");
    let r = b.store_small_uint(v, bits as u16).is_ok();
    if r {
        m.uint(v as u128, bits);
    }
    verify(&b, &m, r, n, bits);
    reach("end");
}
fn st_raw() {
    // `len` bytes, `bits` may exceed 8 * len: then zero padded (as high bits)
    let len = pick(4, "len") as usize;
    let bits = pick(len as u64 * 8 + 18, "bits") as usize;
    let n = start(bits);
    let mut b = CellBuilder::new();
    let mut m = Bits::new();
    prefix(&mut b, &mut m, n);
    let v: [u8; 4] = any_bytes("v");
    let prep = any_bool("prepend");
    let r = if prep { b.prepend_raw(&v[..len], bits as u16) } else { b.store_raw(&v[..len], bits as u16) }.is_ok();
    if r {
        let mut a = Bits::new();
        if bits > len * 8 {
            a.fill(0, bits - len * 8);
            a.bytes(&v[..len], len * 8);
        } else {
            a.bytes(&v[..len], bits);
        }
        if prep {
            a.append(&m.0);
            m = a;
            reach("prepended");
        } else {
            m.append(&a.0);
        }
    }
    verify(&b, &m, r, n, bits);
    reach("end");
}
fn st_seq() {
    // stores after a rewind see clean space; two stores in a row concatenate
    let n = pick(17, "start") as usize;
    let mut b = CellBuilder::new();
    let mut m = Bits::new();
    prefix(&mut b, &mut m, n);
    let v = any_u32("v");
    check(b.store_u32(v).is_ok(), "fits");
    m.uint(v as u128, 32);
    let back = pick(52, "back") as usize;
    let r = b.rewind_bits(back as u16).is_ok();
    check(r == (back <= n + 32), "rewind succeeds exactly when there are that many bits");
    if r {
        m.0.truncate(n + 32 - back);
    }
    let l = m.len();
    verify(&b, &m, true, l, 0);
    let ones = any_bool("ones");
    let w = any_u16("w");
    if ones {
        check(b.store_ones(13).is_ok(), "fits");
        m.fill(1, 13);
    } else {
        check(b.store_zeros(13).is_ok(), "fits");
        m.fill(0, 13);
    }
    check(b.store_u16(w).is_ok(), "fits");
    m.uint(w as u128, 16);
    let l = m.len();
    verify(&b, &m, true, l, 0);
    reach("end");
}
fn st_huge() {
    // any requested width at all, any fill level: no wrap-around of the capacity check
    let before = any_u16("before");
    assume(before <= 1023);
    let bits = any_u16("bits");
    let mut b = CellBuilder::new();
    check(b.store_zeros(before).is_ok(), "zeros fit");
    let fits = before as u32 + bits as u32 <= MAX as u32;
    check(b.has_capacity(bits, 0) == fits, "has_capacity");
    check(b.has_capacity_bits(bits) == fits, "has_capacity_bits");
    let op = pick(2, "op");
    assume(!fits);
    let r = match op {
        0 => b.store_zeros(bits).is_ok(),
        1 => b.store_uint(any_u64("v"), bits).is_ok(),
        _ => b.store_small_uint(any_u8("v"), bits).is_ok(),
    };
    check(!r, "a store that does not fit is rejected");
    check(b.size_bits() == before, "a rejected store leaves the length alone");
    reach("end");
}
fn st_huge_raw() {
    let before = pick(2, "before") as u16 * 511;
    let bits = any_u16("bits");
    assume(before as u32 + bits as u32 > MAX as u32);
    let mut b = CellBuilder::new();
    check(b.store_zeros(before).is_ok(), "zeros fit");
    let v: [u8; 2] = any_bytes("v");
    let r = if any_bool("prepend") { b.prepend_raw(&v, bits) } else { b.store_raw(&v, bits) }.is_ok();
    check(!r, "a raw store that does not fit is rejected");
    check(b.size_bits() == before, "a rejected store leaves the length alone");
    reach("end");
}
fn st_refs() {
    let k = pick(6, "refs");
    let mut b = CellBuilder::new();
    for i in 0..k {
        check(b.has_capacity(0, 1) == (i < 4), "room for a reference");
        let r = b.store_reference(Cell::empty_cell()).is_ok();
        check(r == (i < 4), "a fifth reference is rejected");
        check(b.size_refs() as u64 == (i + 1).min(4), "reference count");
    }
    let extra = any_u8("extra");
    check(b.has_capacity(0, extra) == (k.min(4) + extra as u64 <= 4), "has_capacity for references");
    reach("end");
}
fn st_slice() {
    // store_slice / store_builder: any window of a cell, appended at any alignment
    let d: [u8; 5] = any_bytes("d");
    let n = pick(17, "start") as usize;
    let mut src = CellBuilder::new();
    check(src.store_raw(&d, 37).is_ok(), "fits");
    check(src.store_reference(Cell::empty_cell()).is_ok(), "fits");
    let a = pick(9, "a") as usize;
    let l = pick(28, "l") as usize;
    let mut b = CellBuilder::new();
    let mut m = Bits::new();
    prefix(&mut b, &mut m, n);
    let mut all = Bits::new();
    all.bytes(&d, 37);
    let mut s = src.as_full_slice();
    check(s.skip_first(a as u16, 0).is_ok(), "window");
    check(s.only_first(l as u16, 1).is_ok(), "window");
    check(b.store_slice(s).is_ok(), "fits");
    m.append(&all.0[a..a + l]);
    check(b.size_refs() == 1, "references are copied");
    let t = m.len();
    verify(&b, &m, true, t, 0);
    check(b.store_slice_data(s).is_ok(), "fits");
    m.append(&all.0[a..a + l]);
    check(b.size_refs() == 1, "no references copied");
    check(b.store_builder(&src).is_ok(), "fits");
    m.append(&all.0);
    check(b.size_refs() == 2, "references are copied");
    let t = m.len();
    verify(&b, &m, true, t, 0);
    reach("end");
}
fn st_parts() {
    // builders taken apart and put together, cleared, made of raw data or of a cell
    let d: [u8; 5] = any_bytes("d");
    let n = pick(37, "n") as usize;
    let k = pick(4, "refs") as usize;
    let exotic = any_bool("exotic");
    let kids: Vec<Cell> = (0..4).map(kid).collect();
    let mut m = Bits::new();
    m.bytes(&d, n);
    let mut b = CellBuilder::new();
    check(b.store_raw(&d, n as u16).is_ok(), "fits");
    for c in &kids[..k] {
        check(b.store_reference(c.clone()).is_ok(), "fits");
    }
    b.set_exotic(exotic);
    check(b.size() == Size { bits: n as u16, refs: k as u8 }, "builder size");
    check(b.spare_capacity() == Size { bits: (MAX - n) as u16, refs: 4 - k as u8 }, "spare capacity");
    check(b.spare_capacity_refs() == 4 - k as u8, "spare capacity of references");
    let t = b.as_bitstring();
    check(t.bit_len as usize == n, "bit string length");
    m.check_raw(t.bytes, "bit string");
    let f = b.as_full_slice();
    check(f.size() == b.size() && f.references().zip(&kids).all(|(a, c)| a == c.as_ref()), "references of a builder slice");
    check(b.as_data_slice().size() == Size { bits: n as u16, refs: 0 }, "a data slice has no references");
    let same = |b: &CellBuilder, msg: &'static str| {
        check(b.is_exotic() == exotic && b.references() == &kids[..k], msg);
        verify(b, &m, true, n, 0);
    };
    match pick(5, "op") {
        0 => {
            let (x, data, refs) = b.into_parts();
            check(x == exotic && data.size_bits() as usize == n, "parts of a builder");
            m.check_raw(data.raw_data(), "data of a builder");
            check(refs.len() == k && refs.is_empty() == (k == 0), "reference count");
            check(refs.iter().eq(&kids[..k]), "references of a builder");
            let mask = kids[..k].iter().fold(0, |a, c| a | c.level_mask().to_byte());
            check(refs.compute_level_mask().to_byte() == mask, "level mask of references");
            same(&CellBuilder::from_parts(x, data, refs), "a builder made of its parts");
            reach("parts");
        }
        1 => {
            let mut refs = CellRefsBuilder::default();
            for i in 0..5 {
                check(refs.store_reference(kids[3 - i % 4].clone()).is_ok() == (i < 4), "a fifth reference is rejected");
            }
            check(refs.iter().eq(kids.iter().rev()), "references in order");
            b.set_references(refs);
            let (x, data, refs) = b.into_parts();
            check(refs.into_iter().eq(kids.iter().rev().cloned()), "references taken in order");
            let mut refs = CellRefsBuilder::default();
            for c in kids.iter().rev() {
                check(refs.store_reference(c.clone()).is_ok(), "fits");
            }
            let mut old = CellRefsBuilder::default();
            check(old.store_reference(kids[2].clone()).is_ok(), "fits");
            let mut b = CellBuilder::from_parts(x, data, old);
            b.set_references(refs);
            check(b.references().iter().eq(kids.iter().rev()), "replaced references");
            check(!b.has_capacity(0, 1) && b.store_reference(kids[0].clone()).is_err(), "a fifth reference is rejected");
            check(b.is_exotic() == exotic, "replacing references changes the kind");
            verify(&b, &m, true, n, 0);
            reach("replaced");
        }
        2 => {
            b.clear_bits();
            let v = any_u16("v");
            let mut m = Bits::new();
            verify(&b, &m, true, 0, 0);
            check(b.store_bit_zero().is_ok() && b.store_u16(v).is_ok(), "fits");
            m.fill(0, 1);
            m.uint(v as u128, 16);
            verify(&b, &m, true, 1, 16);
            check(b.references() == &kids[..k] && b.is_exotic() == exotic, "clearing bits keeps the references");
            reach("cleared");
        }
        3 => {
            let w = pick(50, "width") as usize;
            let a = CellBuilder::from_raw_data(&d, w as u16);
            let c = CellDataBuilder::from_raw_data(&d, w as u16);
            let mut m = Bits::new();
            m.fill(0, w.saturating_sub(40));
            m.bytes(&d, w.min(40));
            match (a, c) {
                (Ok(a), Ok(c)) => {
                    check(!a.is_exotic() && a.size_refs() == 0, "a builder made of data");
                    verify(&a, &m, true, w, 0);
                    check(c.size_bits() as usize == w, "data length");
                    m.check_raw(c.raw_data(), "data");
                }
                _ => check(false, "a builder made of data"),
            }
            let h = any_u16("huge");
            assume(h > 1023);
            check(CellBuilder::from_raw_data(&d, h).is_err() && CellDataBuilder::from_raw_data(&d, h).is_err(), "more data than a cell has");
            reach("raw");
        }
        4 => {
            b.set_exotic(false);
            let Ok(c) = b.clone().build() else { return check(false, "build") };
            check(CellBuilder::build_from_ext(b.as_full_slice(), Cell::empty_context()).is_ok_and(|x| x == c), "a cell made of a slice");
            check(b.build_ext(Cell::empty_context()).is_ok_and(|x| x == c), "a cell built in a context");
            let p = pick(9, "start") as usize;
            let mut r = CellBuilder::new();
            let mut m2 = Bits::new();
            prefix(&mut r, &mut m2, p);
            check(r.store_cell_data(&c).is_ok(), "fits");
            m2.append(&m.0);
            verify(&r, &m2, true, p, n);
            check(r.size_refs() == 0, "cell data come without references");
            reach("cell");
        }
        _ => {
            let h: [u8; 32] = any_bytes("hash");
            let mut m = Bits::new();
            m.uint(2, 8);
            m.bytes(&h, 256);
            for c in [CellBuilder::build_library(&HashBytes(h)), CellBuilder::build_library_ext(&HashBytes(h), Cell::empty_context())] {
                check(c.is_exotic() && c.cell_type() == CellType::LibraryReference && c.bit_len() == 264 && c.reference_count() == 0, "a library reference");
                m.check_raw(c.data(), "data of a library reference");
            }
            reach("library");
        }
    }
}
}

/// Four different cells, two of them with a level.
fn kid(i: u8) -> Cell {
    let mut b = CellBuilder::new();
    let ok = match i {
        1 | 3 => {
            b.set_exotic(true);
            b.store_u8(1).is_ok() && b.store_u8(i).is_ok() && (0..i.count_ones()).all(|j| b.store_u256(&HashBytes([i + j as u8; 32])).is_ok()) && (0..i.count_ones()).all(|_| b.store_u16(7).is_ok())
        }
        _ => b.store_u8(i).is_ok(),
    };
    check(ok, "fits");
    match b.build() {
        Ok(c) => c,
        Err(_) => {
            check(false, "a child is not built");
            Cell::empty_cell()
        }
    }
}
