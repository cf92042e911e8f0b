// Slice reads: exact bits, confined to the window, fail exactly when the window is too short.
use crate::vp::*;
use tycho_types::cell::*;

const NB: usize = 43;

/// A cell with `n` arbitrary data bits and `refs` references, with its model.
fn cell(n: usize, refs: u64) -> (Cell, Bits) {
    let d: [u8; NB] = any_bytes("d");
    let mut b = CellBuilder::new();
    check(b.store_raw(&d, n as u16).is_ok(), "fits");
    for _ in 0..refs {
        check(b.store_reference(Cell::empty_cell()).is_ok(), "fits");
    }
    let mut m = Bits::new();
    m.bytes(&d, n);
    match b.build() {
        Ok(c) => (c, m),
        Err(_) => {
            check(false, "build");
            unreachable!()
        }
    }
}

/// window `a..e` of the cell
fn window<'a>(c: &'a Cell, a: usize, e: usize) -> CellSlice<'a> {
    let mut s = CellSlice::new_allow_exotic(c.as_ref());
    check(s.only_first(e as u16, 0).is_ok(), "window end");
    check(s.skip_first(a as u16, 0).is_ok(), "window start");
    check(s.size_bits() as usize == e - a && s.offset_bits() as usize == a, "window size");
    s
}

fn same(m: &Bits, a: usize, n: usize, got: u128) -> bool {
    m.int(a, a + n) == got
}

harnesses! {
fn rd_fixed() {
    // every width, at a relative offset, in a window [a, e) that may be too short by up to 9 bits
    let w = [1usize, 8, 16, 32, 64, 128, 256][pick(6, "w") as usize];
    let a = pick(9, "a") as usize;
    let o = pick(9, "o") as usize;
    let slack = pick(12, "slack") as usize; // e = a + o + w - 9 + slack
    let e = (a + o + w + slack).saturating_sub(9);
    assume(e >= a);
    let total = e + if any_bool("more") { 17 } else { 0 };
    assume(total <= NB * 8);
    let (c, m) = cell(total, 0);
    let s = window(&c, a, e);
    let fits = a + o + w <= e;
    let p = a + o;
    let o = o as u16;
    macro_rules! t {
        ($get:ident, $load:ident, $conv:expr) => {{
            let r = s.$get(o);
            check(r.is_ok() == fits, "a read succeeds exactly when the window has the bits");
            if let Ok(v) = &r {
                let f: fn(_) -> u128 = $conv;
                check(same(&m, p, w, f(*v)), "value read");
                reach("read");
            }
            let mut l = s;
            check(l.skip_first(o, 0).is_ok() == (p <= e), "skip");
            if p <= e {
                let r2 = l.$load();
                check(r2.is_ok() == fits, "a load succeeds exactly when the window has the bits");
                if let (Ok(x), Ok(y)) = (&r, &r2) {
                    check(x == y, "load reads what get reads");
                    check(l.offset_bits() as usize == p + w, "load advances by the width");
                } else {
                    check(l.offset_bits() as usize == p, "a failed load does not advance");
                }
                check(l.range().size_bits() as usize == e - l.offset_bits() as usize, "the end stays");
            }
        }};
    }
    match w {
        1 => t!(get_bit, load_bit, |v: bool| v as u128),
        8 => t!(get_u8, load_u8, |v: u8| v as u128),
        16 => t!(get_u16, load_u16, |v: u16| v as u128),
        32 => t!(get_u32, load_u32, |v: u32| v as u128),
        64 => t!(get_u64, load_u64, |v: u64| v as u128),
        128 => t!(get_u128, load_u128, |v: u128| v),
        _ => {
            let r = s.get_u256(o);
            check(r.is_ok() == fits, "a read succeeds exactly when the window has the bits");
            if let Ok(v) = &r {
                let mut x = Bits::new();
                x.append(&m.0[p..p + 256]);
                x.check_raw(&v.0, "value read");
                reach("read256");
            }
            let mut l = s;
            if p <= e {
                check(l.skip_first(o, 0).is_ok(), "skip");
                let r2 = l.load_u256();
                check(r2.is_ok() == fits, "a load succeeds exactly when the window has the bits");
                if let (Ok(x), Ok(y)) = (&r, &r2) {
                    check(x == y, "load reads what get reads");
                }
                check(l.offset_bits() as usize == if fits { p + w } else { p }, "load advances by the width");
            }
        }
    }
    reach("end");
}
fn rd_uint() {
    // 0..=66 bits, all alignments, windows that end early
    let w = pick(66, "w") as usize;
    let a = pick(8, "a") as usize;
    let o = pick(8, "o") as usize;
    let cut = pick(3, "cut") as usize; // the window is short by `cut` bits (0: exact; 3: two spare bits)
    let e = if cut == 3 { a + o + w + 2 } else { (a + o + w).saturating_sub(cut) };
    assume(e >= a);
    let (c, m) = cell(e + 3, 0);
    let s = window(&c, a, e);
    let p = a + o;
    let fits = w == 0 || (w <= 64 && p + w <= e);
    let r = s.get_uint(o as u16, w as u16);
    check(r.is_ok() == fits, "get_uint succeeds exactly when the window has the bits");
    if let Ok(v) = r {
        if w > 0 {
            check(same(&m, p, w, v as u128), "get_uint value");
        } else {
            check(v == 0, "no bits");
        }
        reach("uint");
    }
    let fits8 = w == 0 || (w <= 8 && p + w <= e);
    let r8 = s.get_small_uint(o as u16, w as u16);
    check(r8.is_ok() == fits8, "get_small_uint succeeds exactly when the window has the bits");
    if let Ok(v) = r8 {
        if w > 0 {
            check(same(&m, p, w, v as u128), "get_small_uint value");
        }
        reach("small");
    }
    if p <= e {
        let mut l = s;
        check(l.skip_first(o as u16, 0).is_ok(), "skip");
        let mut k = l;
        let r2 = l.load_uint(w as u16);
        check(r2.is_ok() == fits, "load_uint");
        if let (Ok(x), Ok(y)) = (&r, &r2) {
            check(x == y, "load_uint reads what get_uint reads");
        }
        check(l.offset_bits() as usize == if fits { p + w } else { p }, "load_uint advances");
        let r2 = k.load_small_uint(w as u16);
        check(r2.is_ok() == fits8, "load_small_uint");
        if let (Ok(x), Ok(y)) = (&r8, &r2) {
            check(x == y, "load_small_uint reads what get_small_uint reads");
        }
        check(k.offset_bits() as usize == if fits8 { p + w } else { p }, "load_small_uint advances");
    }
    reach("end");
}
fn rd_raw() {
    let w = pick(30, "w") as usize;
    let a = pick(8, "a") as usize;
    let o = pick(9, "o") as usize;
    let cut = pick(3, "cut") as usize;
    let e = if cut == 3 { a + o + w + 2 } else { (a + o + w).saturating_sub(cut) };
    assume(e >= a);
    let tail = if any_bool("tail") { 9 } else { 0 };
    let (c, m) = cell(e + tail, 0);
    let s = window(&c, a, e);
    let p = a + o;
    let mut buf = [0xa5u8; 5];
    let tl = w.div_ceil(8);
    // the target may be too small
    let cap = tl + pick(1, "spare") as usize;
    let cap = if any_bool("small") && tl > 0 { tl - 1 } else { cap };
    let fits = w == 0 || (p + w <= e && cap >= tl);
    {
        let r = s.get_raw(o as u16, &mut buf[..cap], w as u16);
        check(r.is_ok() == fits, "get_raw succeeds exactly when window and target have the room");
        if let Ok(t) = r {
            check(t.len() == tl, "get_raw returns the smallest subslice");
            let mut x = Bits::new();
            if w > 0 {
                x.append(&m.0[p..p + w]);
            }
            x.check_raw(t, "get_raw bits (zero padded)");
            reach("raw");
        }
    }
    for i in tl..5 {
        check(buf[i] == 0xa5, "bytes past the target are untouched");
    }
    if p <= e {
        let mut l = s;
        check(l.skip_first(o as u16, 0).is_ok(), "skip");
        let mut buf2 = [0xa5u8; 5];
        let r = l.load_raw(&mut buf2[..cap], w as u16).map(|t| t.len());
        check(r.is_ok() == fits, "load_raw");
        if r.is_ok() {
            let mut d = 0;
            for i in 0..tl {
                d |= buf[i] ^ buf2[i];
            }
            check(d == 0, "load_raw reads what get_raw reads");
        }
        check(l.offset_bits() as usize == if fits { p + w } else { p }, "load_raw advances");
    }
    reach("end");
}
fn rd_range() {
    // window arithmetic for every 16 bit size and every window of every cell size
    let (n, a, e) = (any_u16("n"), any_u16("a"), any_u16("e"));
    assume(n <= 1023 && a <= e && e <= n);
    let (ra, re) = (any_u8("ra"), any_u8("re"));
    assume(ra <= re && re <= 4);
    let mut b = CellBuilder::new();
    check(b.store_zeros(conc((n > 0) as u64) as u16 * n).is_ok(), "fits");
    for _ in 0..4 {
        check(b.store_reference(Cell::empty_cell()).is_ok(), "fits");
    }
    let s0 = b.as_full_slice();
    let mut r = s0.range();
    check(r.only_first(e, re).is_ok(), "window end");
    check(r.skip_first(a, ra).is_ok(), "window start");
    let bits = any_u16("bits");
    let refs = any_u8("refs");
    let (wb, wr) = ((e - a) as u32, (re - ra) as u32);
    let fits = bits as u32 <= wb && refs as u32 <= wr;
    check(r.has_remaining(bits, refs) == fits, "has_remaining");
    let is = |x: &CellSliceRange, a: u32, e: u32, ra: u32, re: u32| {
        x.offset_bits() as u32 == a && x.size_bits() as u32 == e - a && x.offset_refs() as u32 == ra && x.size_refs() as u32 == re - ra
    };
    let (a, e, ra, re, bits32, refs32) = (a as u32, e as u32, ra as u32, re as u32, bits as u32, refs as u32);
    let mut x = r;
    let op = pick(6, "op");
    let (ok, rest, part) = match op {
        0 => (x.skip_first(bits, refs).is_ok(), x, None),
        1 => (x.only_first(bits, refs).is_ok(), x, None),
        2 => (x.skip_last(bits, refs).is_ok(), x, None),
        3 => (x.only_last(bits, refs).is_ok(), x, None),
        4 => { let p = x.split_prefix(bits, refs); (p.is_ok(), x, p.ok()) }
        5 => { let p = x.split_suffix(bits, refs); (p.is_ok(), x, p.ok()) }
        _ => {
            let p = r.get_prefix(bits, refs);
            check(is(&p, a, a + bits32.min(wb), ra, ra + refs32.min(wr)), "get_prefix");
            (fits, r, None)
        }
    };
    check(ok == fits, "a window operation succeeds exactly when the size fits");
    if !ok {
        check(is(&rest, a, e, ra, re), "a failed window operation changes nothing");
        reach("refused");
    } else {
        match op {
            0 => check(is(&rest, a + bits32, e, ra + refs32, re), "skip_first"),
            1 => check(is(&rest, a, a + bits32, ra, ra + refs32), "only_first"),
            2 => check(is(&rest, a, e - bits32, ra, re - refs32), "skip_last"),
            3 => check(is(&rest, e - bits32, e, re - refs32, re), "only_last"),
            4 => {
                check(is(&rest, a + bits32, e, ra + refs32, re), "split_prefix rest");
                check(is(&part.unwrap(), a, a + bits32, ra, ra + refs32), "split_prefix part");
            }
            5 => {
                check(is(&rest, a, e - bits32, ra, re - refs32), "split_suffix rest");
                check(is(&part.unwrap(), e - bits32, e, re - refs32, re), "split_suffix part");
            }
            _ => {}
        }
        reach("done");
    }
}
fn rd_any_offset() {
    // any 16 bit offset and width at all: in range exactly when offset + width fits the window,
    // and no access outside the cell's data
    let len = pick(2, "len") as usize * 8 + 5;
    let (c, m) = cell(len + 8, 0);
    let a = pick(7, "a") as usize;
    let s = window(&c, a, a + len - 1);
    let (mut o, mut w) = (any_u16("o"), any_u16("w"));
    let win = len as u32 - 1;
    let mut buf = [0u8; 4];
    let op = pick(8, "op");
    assume(w > 0 && w <= [1, 8, 16, 32, 64, 256, 64, 8, 32][op as usize] && (op >= 6 || w == 1));
    if o as u32 + w as u32 <= win {
        (o, w) = (conc(o as u64) as u16, conc(w as u64) as u16);
    }
    let (width, ok) = match op {
        0 => (1, s.get_bit(o).is_ok()),
        1 => (8, s.get_u8(o).is_ok()),
        2 => (16, s.get_u16(o).is_ok()),
        3 => (32, s.get_u32(o).is_ok()),
        4 => (64, s.get_u64(o).is_ok()),
        5 => (256, s.get_u256(o).is_ok()),
        6 => {
            let r = s.get_uint(o, w);
            if let Ok(v) = r {
                let w = w as usize;
                check(same(&m, a + o as usize, w, v as u128), "value");
                reach("read");
            }
            (w as u32, r.is_ok())
        }
        7 => {
            (w as u32, s.get_small_uint(o, w).is_ok())
        }
        _ => {
            (w as u32, s.get_raw(o, &mut buf, w).is_ok())
        }
    };
    check(ok == (o as u32 + width <= win), "in range exactly when the window holds the bits");
    reach("end");
}
fn rd_rest() {
    // the rest of a slice at once, and what is left
    let d: [u8; 4] = any_bytes("d");
    let k = pick(4, "k") as u8;
    let mut b = CellBuilder::new();
    check(b.store_raw(&d, 32).is_ok(), "fits");
    for i in 0..k {
        let mut cb = CellBuilder::new();
        check(cb.store_u8(i).is_ok(), "fits");
        let Ok(c) = cb.build() else { return check(false, "build") };
        check(b.store_reference(c).is_ok(), "fits");
    }
    let Ok(c) = b.build() else { return check(false, "build") };
    let (a, n) = (any_u8("a") as u16, any_u8("n") as u16);
    let (ra, rn) = (any_u8("ra"), any_u8("rn"));
    assume(a + n <= 32 && ra <= 4 && rn <= 4 && ra + rn <= k);
    let mut s = CellSlice::new_allow_exotic(c.as_ref());
    check(s.skip_first(a, ra).is_ok() && s.only_first(n, rn).is_ok(), "window");
    check(s.is_data_empty() == (n == 0) && s.is_refs_empty() == (rn == 0) && s.is_empty() == (n == 0 && rn == 0), "an empty window");
    let r = s.range();
    check(r.is_data_empty() == (n == 0) && r.is_refs_empty() == (rn == 0) && r.is_empty() == (n == 0 && rn == 0), "an empty range");
    check(s.is_full() == (n == 32 && rn == k), "an untouched window");
    let whole = s.load_remaining();
    check(whole.range() == r, "the rest of a slice");
    check(s.is_empty() && s.size_bits() == 0 && s.size_refs() == 0, "nothing is left after the rest");
    check(s.load_bit().is_err() && s.load_reference().is_err() && s.load_uint(1).is_err(), "a read behind the rest");
    check(whole.cell() == c.as_ref(), "cell of the rest");
    reach("end");
}
fn rd_refs() {
    let k = pick(4, "k");
    let mut b = CellBuilder::new();
    for i in 0..k {
        let mut cb = CellBuilder::new();
        check(cb.store_u8(i as u8).is_ok(), "fits");
        let Ok(c) = cb.build() else { return check(false, "build") };
        check(b.store_reference(c).is_ok(), "fits");
    }
    let Ok(c) = b.build() else { return check(false, "build") };
    let ra = pick(4, "ra");
    let re = pick(4, "re");
    assume(ra <= re && re <= k);
    let mut s = CellSlice::new_allow_exotic(c.as_ref());
    check(s.only_first(0, re as u8).is_ok() && s.skip_first(0, ra as u8).is_ok(), "window");
    let i = any_u8("i");
    let inside = (i as u64) < re - ra;
    let id = |c: &DynCell| c.data()[0] as u64;
    let op = pick(2, "op");
    let got = match op {
        0 => s.get_reference(i).ok().map(|c| id(c)),
        1 => s.get_reference_cloned(i).ok().map(|c| id(c.as_ref())),
        _ => s.get_reference_as_slice(i).ok().map(|c| c.get_u8(0).unwrap_or(0xff) as u64),
    };
    check(got.is_some() == inside, "a reference is there exactly when it is inside the window");
    if let Some(x) = got {
        check(x == ra + i as u64, "the right reference");
        reach("got");
    }
    let mut n = ra;
    for c in s.references() {
        check(id(c) == n, "references in order");
        n += 1;
    }
    check(n == re, "the iterator ends with the window");
    let mut l = s;
    let mut n = ra;
    loop {
        let r = match op {
            0 => l.load_reference().ok().map(|c| id(c)),
            1 => l.load_reference_cloned().ok().map(|c| id(c.as_ref())),
            _ => l.load_reference_as_slice().ok().map(|c| c.get_u8(0).unwrap_or(0xff) as u64),
        };
        match r {
            Some(x) => {
                check(x == n, "loads in order");
                n += 1;
                check(l.size_refs() as u64 == re - n, "refs left");
            }
            None => break,
        }
    }
    check(n == re, "loads end with the window");
    reach("end");
}
}
