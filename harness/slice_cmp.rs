// Slice comparisons and scans agree with their bit string meaning, for any alignment.
use crate::vp::*;
use std::cmp::Ordering;
use tycho_types::cell::*;

fn cell(d: &[u8], n: usize, refs: u64) -> Cell {
    let mut b = CellBuilder::new();
    check(b.store_raw(d, n as u16).is_ok(), "fits");
    for i in 0..refs {
        let mut x = CellBuilder::new();
        check(x.store_u8(i as u8).is_ok(), "fits");
        match x.build() {
            Ok(c) => check(b.store_reference(c).is_ok(), "fits"),
            Err(_) => check(false, "build"),
        }
    }
    match b.build() {
        Ok(c) => c,
        Err(_) => {
            check(false, "build");
            unreachable!()
        }
    }
}
fn window<'a>(c: &'a Cell, a: usize, l: usize) -> CellSlice<'a> {
    let mut s = CellSlice::new_allow_exotic(c.as_ref());
    check(s.skip_first(a as u16, 0).is_ok() && s.only_first(l as u16, 0).is_ok(), "window");
    s
}
/// The bits as zero padded bytes, with arbitrary bits around them: `a` before, the rest after.
fn place(x: &[u8], a: usize, around: &[u8; 10]) -> [u8; 10] {
    let mut m = Bits::new();
    let mut r = Bits::new();
    r.bytes(around, 80);
    m.append(&r.0[..a]);
    m.append(x);
    let n = m.len();
    m.append(&r.0[n..]);
    let mut o = [0u8; 10];
    for i in 0..10 {
        o[i] = m.byte(i);
    }
    o
}

const LENS: [usize; 14] = [0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 24, 31, 33, 40];

/// Two windows with arbitrary bits; `k` is the length of their common prefix (every pair of bit
/// strings has exactly one).
fn two(lens: &[usize], f: impl Fn(CellSlice<'_>, CellSlice<'_>, &[u8], &[u8], usize)) {
    let (a, b) = (pick(8, "a") as usize, if thorough() { pick(8, "b") as usize } else { [0, 3, 7, 8][pick(3, "b") as usize] });
    let l = lens[pick(lens.len() as u64 - 1, "l") as usize];
    let m = match pick(3, "rel") {
        0 => l,
        1 => l + 1,
        2 => l + 10,
        _ => l.saturating_sub(3),
    };
    let d: [u8; 10] = any_bytes("d");
    let e: [u8; 10] = any_bytes("e");
    let mut x = Bits::new();
    x.bytes(&d[..8], l);
    let k = pick(l.min(m) as u64, "k") as usize;
    let mut y = Bits::new();
    y.bytes(&e[..8], m);
    y.0[..k].copy_from_slice(&x.0[..k]);
    if k < l.min(m) {
        y.0[k] = x.0[k] ^ 1;
    }
    let tail = if any_bool("tail") { 5 } else { 0 };
    let c1 = cell(&place(&x.0, a, &any_bytes("p")), a + l + tail, 0);
    let c2 = cell(&place(&y.0, b, &any_bytes("q")), b + m + tail, 0);
    f(window(&c1, a, l), window(&c2, b, m), &x.0, &y.0, k);
}

harnesses! {
fn cmp_lex() {
    two(if thorough() { &LENS } else { &[0, 1, 7, 8, 9, 31, 32, 33] }, |s, t, x, y, k| {
        let diff = k < x.len().min(y.len());
        match s.lex_cmp(&t) {
            Ok(o) => {
                let want = if !diff {
                    x.len().cmp(&y.len())
                } else if y[k] == 1 {
                    Ordering::Less
                } else {
                    Ordering::Greater
                };
                check(o == want, "lexicographic order of the bits, then length");
            }
            Err(_) => check(false, "comparison of intact slices succeeds"),
        }
        check(s.contents_eq(&t) == Ok(!diff && x.len() == y.len()), "equal exactly when the bits are equal");
        check(s.is_data_prefix_of(&t) == Ok(!diff && x.len() <= y.len()), "prefix");
        reach("end");
    });
}
fn cmp_suffix() {
    // y is z followed by x with the bit `k` places before the end flipped (k == len: intact)
    let (a, b) = (pick(8, "a") as usize, if thorough() { pick(8, "b") as usize } else { [0, 3, 7, 8][pick(3, "b") as usize] });
    let lens = [0, 1, 5, 8, 9, 16, 17, 33];
    let l = lens[pick(7, "l") as usize];
    let z = pick(3, "z") as usize * 3;
    let k = pick(l as u64, "k") as usize;
    let d: [u8; 10] = any_bytes("d");
    let e: [u8; 10] = any_bytes("e");
    let (mut x, mut y) = (Bits::new(), Bits::new());
    x.bytes(&d, l);
    y.bytes(&e, z + l);
    // bits after the flipped one are equal, bits before it arbitrary
    for i in 0..k {
        y.0[z + l - 1 - i] = x.0[l - 1 - i];
    }
    if k < l {
        y.0[z + l - 1 - k] = x.0[l - 1 - k] ^ 1;
    }
    let c1 = cell(&place(&x.0, a, &any_bytes("p")), a + l, 0);
    let c2 = cell(&place(&y.0, b, &any_bytes("q")), b + z + l + 3, 0);
    let (s, t) = (window(&c1, a, l), window(&c2, b, z + l));
    check(s.is_data_suffix_of(&t) == Ok(k == l), "suffix exactly when the last bits are equal");
    check(t.is_data_suffix_of(&s) == Ok(k == l && z == 0), "a longer slice is no suffix");
    reach("end");
}
fn cmp_lcp() {
    two(if thorough() { &LENS } else { &[0, 1, 7, 8, 9, 16, 17, 24] }, |s, t, x, y, k| {
        let p = s.longest_common_data_prefix(&t);
        check(p.size_bits() as usize == k, "length of the common prefix");
        check(p.offset_bits() == s.offset_bits() && p.size_refs() == 0, "the prefix is a subslice of the first slice");
        let r = s.strip_data_prefix(&t);
        check(r.is_some() == (k == y.len()), "a prefix is stripped exactly when it is one");
        if let Some(r) = r {
            check(r.size_bits() as usize == x.len() - y.len(), "stripped length");
            check(r.offset_bits() as usize == s.offset_bits() as usize + y.len(), "stripped offset");
            reach("stripped");
        }
        reach("end");
    });
}
fn cmp_scan() {
    // windows whose leading (trailing) run is `at` long, anything behind (before) it
    let a = pick(8, "a") as usize;
    let l = [0usize, 1, 2, 6, 7, 8, 9, 15, 16, 17, 23, 40, 63, 64, 65, 66][pick(15, "l") as usize];
    let bit = any_bool("bit");
    let at = pick(l as u64, "at") as usize;
    let trailing = any_bool("trailing");
    let mut x = Bits::new();
    x.bytes(&any_bytes::<10>("d"), l);
    for i in 0..=at.min(l.saturating_sub(1)) {
        if l > 0 {
            let i2 = if trailing { l - 1 - i } else { i };
            x.0[i2] = if i < at { bit as u8 } else { !bit as u8 };
        }
    }
    let tail = if any_bool("tail") { 3 } else { 0 };
    let c = cell(&place(&x.0, a, &any_bytes("p")), a + l + tail, 0);
    let s = window(&c, a, l);
    if trailing {
        check(s.count_trailing(bit) == Ok(at as u16), "number of trailing bits");
    } else {
        check(s.count_leading(bit) == Ok(at as u16), "number of leading bits");
    }
    let u = s.test_uniform();
    if l == 0 {
        check(u.is_none(), "an empty slice is not uniform");
    } else if at == l {
        check(u == Some(bit), "uniform");
        reach("uniform");
    } else if at > 0 {
        check(u.is_none(), "not uniform");
    }
    reach("end");
}
fn cmp_scan_long() {
    // windows of up to 300 bits, uniform but for one bit at an arbitrary place (or none)
    let a = pick(8, "a") as usize;
    let l = [64usize, 71, 72, 127, 128, 129, 200, 255, 256, 290][pick(9, "l") as usize];
    let bit = any_bool("bit");
    let at = pick(l as u64, "at") as usize; // at == l: none
    let mut d = [if bit { 0xff } else { 0u8 }; 40];
    if at < l {
        d[(a + at) / 8] ^= 0x80 >> ((a + at) % 8);
    }
    // whatever surrounds the window
    let around = any_bool("around");
    for i in (0..a).chain(a + l..a + l + 9) {
        if around {
            d[i / 8] ^= 0x80 >> (i % 8);
        }
    }
    let c = cell(&d, a + l + 9, 0);
    let s = window(&c, a, l);
    check(s.count_leading(bit) == Ok(at as u16), "leading run");
    check(s.count_leading(!bit) == Ok((at == 0) as u16), "leading run of the other bit");
    check(s.count_trailing(bit) == Ok(if at == l { l } else { l - 1 - at } as u16), "trailing run");
    check(s.count_trailing(!bit) == Ok((at == l - 1) as u16), "trailing run of the other bit");
    check(s.test_uniform() == if at == l { Some(bit) } else { None }, "uniform");
    reach("end");
}
fn cmp_refs() {
    // contents_eq looks at every reference in the two windows
    let (k1, k2) = (pick(3, "k1"), pick(3, "k2"));
    let d: [u8; 1] = any_bytes("d");
    let mut b1 = CellBuilder::new();
    let mut b2 = CellBuilder::new();
    let mut same = k1 == k2;
    check(b1.store_u8(d[0]).is_ok() && b2.store_u8(d[0]).is_ok(), "fits");
    let mk = |v: u8| {
        let mut x = CellBuilder::new();
        check(x.store_u8(v).is_ok(), "fits");
        x.build()
    };
    for i in 0..k1.max(k2) {
        let (u, v) = (any_u8("u"), any_u8("v"));
        if i < k1 {
            if let Ok(c) = mk(u) {
                check(b1.store_reference(c).is_ok(), "fits");
            }
        }
        if i < k2 {
            if let Ok(c) = mk(v) {
                check(b2.store_reference(c).is_ok(), "fits");
            }
        }
        same &= u == v;
    }
    let (Ok(c1), Ok(c2)) = (b1.build(), b2.build()) else { return check(false, "build") };
    let s = CellSlice::new_allow_exotic(c1.as_ref());
    let t = CellSlice::new_allow_exotic(c2.as_ref());
    check(s.contents_eq(&t) == Ok(same), "equal exactly when data and references are");
    check(s.without_references().contents_eq(&t.without_references()) == Ok(true), "data only");
    reach("end");
}
}
