// Big integers in builders and slices.
use crate::vp::*;
use num_bigint::{BigInt, BigUint, Sign};
use tycho_types::cell::*;
use tycho_types::util::BigIntExt;

/// Bytes of a bit string of at least `b.len()` bits, sign extended at the front.
fn extend(b: &Bits, n: usize, sign: u8) -> Bits {
    let mut r = Bits::new();
    r.fill(sign, n - b.len());
    r.append(&b.0);
    r
}
fn to_bytes(b: &Bits) -> Vec<u8> {
    (0..b.len().div_ceil(8)).map(|i| b.byte(i)).collect()
}
/// A number whose minimal signed form has exactly `n` bits, with that form.
fn any_int(n: usize, neg: bool) -> (BigInt, Bits) {
    let mut d = [0u8; 130];
    any_into(&mut d[..n.div_ceil(8)], "number");
    let mut b = Bits::new();
    b.bytes(&d, n);
    if n == 0 {
        return (BigInt::ZERO, b);
    }
    b.0[0] = neg as u8;
    if n > 1 {
        b.0[1] = !neg as u8;
    }
    let ext = extend(&b, n.div_ceil(8) * 8, neg as u8);
    (BigInt::from_signed_bytes_be(&to_bytes(&ext)), b)
}
/// A number of exactly `n` bits.
fn any_uint(n: usize) -> (BigUint, Bits) {
    let mut d = [0u8; 130];
    any_into(&mut d[..n.div_ceil(8)], "number");
    let mut b = Bits::new();
    b.bytes(&d, n);
    if n > 0 {
        b.0[0] = 1;
    }
    let ext = extend(&b, n.div_ceil(8) * 8, 0);
    (BigUint::from_bytes_be(&to_bytes(&ext)), b)
}
/// Interesting sizes: all small ones, around machine words, large ones.
fn any_size(name: &'static str) -> usize {
    const S: [usize; 28] = [0, 1, 2, 3, 7, 8, 9, 16, 31, 33, 56, 57, 63, 64, 65, 66, 71, 72, 73, 127, 128, 129, 130, 192, 193, 255, 256, 257];
    S[pick(S.len() as u64 - 1, name) as usize]
}
fn filled(n: usize) -> (CellBuilder, Bits) {
    let mut b = CellBuilder::new();
    let mut m = Bits::new();
    for i in 0..n {
        let bit = (i * 5 + i / 7) % 3 == 1;
        let _ = b.store_bit(bit);
        m.fill(bit as u8, 1);
    }
    (b, m)
}
fn bits_of(b: &CellBuilder, m: &Bits, msg: &'static str) {
    check(b.size_bits() as usize == m.len(), msg);
    m.check_raw(b.raw_data(), msg);
}

harnesses! {
    // Signed, at any width.
    fn bg_int() {
        let n = any_size("size");
        let neg = n > 0 && pick(1, "negative") == 1;
        assume(n != 1 || neg);
        let (x, t) = any_int(n, neg);
        check(x.bitsize(true) as usize == n, "signed size");
        check(x.has_correct_sign(true) && x.has_correct_sign(false) == !neg, "sign");
        let from = if thorough() { [0usize, 3][pick(1, "from") as usize] } else { n % 3 };
        let w = match pick(4, "width") { 0 => n, 1 => n + 1, 2 => n + 7, 3 => n + 64, _ => if n > 0 { n - 1 } else { 5 } };
        let (mut b, mut m) = filled(from);
        match b.store_bigint(&x, w as u16, true) {
            Ok(()) => {
                check(w >= n, "a number that does not fit is stored");
                m.append(&extend(&t, w, neg as u8).0);
                bits_of(&b, &m, "stored number");
                let c = match b.build() { Ok(c) => c, Err(_) => { check(false, "build"); return; } };
                let mut s = match c.as_slice() { Ok(s) => s, Err(_) => { check(false, "slice"); return; } };
                check(s.skip_first(from as u16, 0).is_ok(), "skip");
                let mut u = s;
                match s.load_bigint(w as u16, true) {
                    Ok(y) => { check(y == x && s.size_bits() == 0, "read back"); reach("back"); }
                    Err(_) => check(false, "read back"),
                }
                if !neg {
                    match u.load_bigint(w as u16, false) {
                        Ok(y) => check(y == x, "read back as unsigned"),
                        Err(_) => check(false, "read back as unsigned"),
                    }
                }
                check(u.load_bigint(w as u16 + 1, true).is_err(), "more than there is");
            }
            Err(_) => { reach("refused"); check(w < n, "a number that fits is refused"); bits_of(&b, &m, "nothing stored"); }
        }
    }
    // Unsigned, at any width.
    fn bg_uint() {
        let n = any_size("size");
        let (x, t) = any_uint(n);
        check(x.bitsize(false) as usize == n && x.bitsize(true) as usize == n + (n > 0) as usize, "size");
        let from = [0usize, 5][pick(1, "from") as usize];
        let w = match pick(4, "width") { 0 => n, 1 => n + 1, 2 => n + 9, 3 => n + 65, _ => if n > 0 { n - 1 } else { 3 } };
        let signed = pick(1, "signed") == 1;
        let big = pick(1, "bigint") == 1;
        let (mut b, mut m) = filled(from);
        let need = n + (signed && n > 0) as usize;
        let res = if big { b.store_bigint(&BigInt::from_biguint(Sign::Plus, x.clone()), w as u16, signed) } else { b.store_biguint(&x, w as u16, signed) };
        match res {
            Ok(()) => {
                check(w >= need, "a number that does not fit is stored");
                m.append(&extend(&t, w, 0).0);
                bits_of(&b, &m, "stored number");
                let c = match b.build() { Ok(c) => c, Err(_) => { check(false, "build"); return; } };
                let mut s = match c.as_slice() { Ok(s) => s, Err(_) => { check(false, "slice"); return; } };
                check(s.skip_first(from as u16, 0).is_ok(), "skip");
                match s.load_biguint(w as u16) {
                    Ok(y) => { check(y == x && s.size_bits() == 0, "read back"); reach("back"); }
                    Err(_) => check(false, "read back"),
                }
                check(s.load_biguint(1).is_err(), "more than there is");
            }
            Err(_) => { reach("refused"); check(w < need, "a number that fits is refused"); bits_of(&b, &m, "nothing stored"); }
        }
    }
    // The low bits of a number, however large.
    fn bg_trunc() {
        let n = any_size("size");
        let neg = n > 0 && pick(1, "negative") == 1;
        assume(n != 1 || neg);
        let (x, t) = any_int(n, neg);
        let w = match pick(6, "width") { 0 => 0, 1 => 1, 2 => n / 2, 3 => n.saturating_sub(1), 4 => n + 9, 5 => 64.min(n), _ => (n / 8 * 8).min(128) };
        let signed = neg || pick(1, "signed") == 1;
        let big = neg || pick(1, "bigint") == 1;
        let (mut b, mut m) = filled(n % 3);
        let r = if big { b.store_bigint_truncate(&x, w as u16, signed) } else { b.store_biguint_truncate(x.magnitude(), w as u16) };
        check(r.is_ok(), "low bits are not stored");
        let all = if w > n { extend(&t, w, neg as u8) } else { t };
        m.append(&all.0[all.len() - w..]);
        bits_of(&b, &m, "low bits");
        reach("low bits");
        let left = 1023 - b.size_bits();
        check(b.store_bigint_truncate(&x, left + 1, signed).is_err() && b.store_biguint_truncate(x.magnitude(), left + 1).is_err(), "more bits than a cell has");
        bits_of(&b, &m, "nothing stored");
    }
    // Capacity, and numbers beyond any cell.
    fn bg_full() {
        let (x, t) = any_uint([200usize, 300][pick(1, "size") as usize]);
        let n = t.len();
        let fill = 1023 - n as u64 - 2 + pick(4, "over");
        let (mut b, mut m) = filled(fill as usize);
        let ok = if pick(1, "bigint") == 1 { b.store_bigint(&BigInt::from(x.clone()), n as u16, false).is_ok() } else { b.store_biguint(&x, n as u16, false).is_ok() };
        check(ok == (fill as usize + n <= 1023), "capacity");
        if ok { m.append(&t.0); reach("fits"); } else { reach("full"); }
        bits_of(&b, &m, "data");
    }
    fn bg_huge() {
        let bits = [1024u64, 65535, 65536, 65537, 131072][pick(4, "bits") as usize];
        let x = BigUint::from(1u8) << bits;
        let neg = pick(1, "negative") == 1;
        let y = BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, x.clone());
        let mut b = CellBuilder::new();
        let w = [0u16, 1, 2, 64, 256, 1023][pick(5, "width") as usize];
        check(b.store_biguint(&x, w, false).is_err(), "a huge number is stored");
        check(b.store_bigint(&y, w, true).is_err(), "a huge number is stored");
        check(b.store_var_biguint(&x, 5).is_err() && b.store_var_bigint(&y, 5, true).is_err(), "a huge number is stored");
        check(b.size_bits() == 0, "nothing stored");
        reach("huge");
    }
    // Variable length: length in bytes, then the number.
    fn bg_var() {
        let n = any_size("size");
        let signed = pick(1, "signed") == 1;
        let neg = n > 0 && signed && pick(1, "negative") == 1;
        assume(!signed || n != 1 || neg);
        let len_bits = [1usize, 2, 4, 5, 6][pick(4, "length field") as usize];
        let (x, t) = if signed { any_int(n, neg) } else { let (x, t) = any_uint(n); (BigInt::from(x), t) };
        let bytes = n.div_ceil(8);
        let fits = bytes < 1 << len_bits;
        let (mut b, mut m) = filled(2);
        let big = signed || pick(1, "bigint") == 1;
        let res = if big { b.store_var_bigint(&x, len_bits as u16, signed) } else { b.store_var_biguint(x.magnitude(), len_bits as u16) };
        check(res.is_ok() == fits, "fits");
        if !fits {
            bits_of(&b, &m, "nothing stored");
            reach("refused");
            return;
        }
        m.uint(bytes as u128, len_bits);
        m.append(&extend(&t, bytes * 8, neg as u8).0);
        bits_of(&b, &m, "stored number");
        let c = match b.build() { Ok(c) => c, Err(_) => { check(false, "build"); return; } };
        let mut s = match c.as_slice() { Ok(s) => s, Err(_) => { check(false, "slice"); return; } };
        check(s.skip_first(2, 0).is_ok(), "skip");
        let y = if big { s.load_var_bigint(len_bits as u16, signed).ok() } else { s.load_var_biguint(len_bits as u16).ok().map(BigInt::from) };
        check(y == Some(x) && s.size_bits() == 0, "read back");
        reach("back");
    }
    // Reading arbitrary data: every bit string is a number.
    fn bg_read() {
        let w = any_size("width");
        let mut d = [0u8; 40];
        any_into(&mut d[..w.div_ceil(8)], "data");
        // One path per position of the first bit that decides the size would be too many: fix it.
        let lead = pick(2, "lead") as usize;
        let mut t = Bits::new();
        t.bytes(&d, w);
        let s0 = pick(1, "first") as u8;
        for i in 0..w.min(lead + 1) { t.0[i] = s0; }
        if w > lead + 1 { t.0[lead + 1] = 1 - s0; }
        let mut b = CellBuilder::new();
        check(b.store_raw(&to_bytes(&t), w as u16).is_ok(), "store");
        let c = match b.build() { Ok(c) => c, Err(_) => { check(false, "build"); return; } };
        let mut s = match c.as_slice() { Ok(s) => s, Err(_) => { check(false, "slice"); return; } };
        let ext = |sign| BigInt::from_signed_bytes_be(&to_bytes(&extend(&t, w.div_ceil(8) * 8 + 8, sign)));
        if pick(1, "signed") == 1 {
            match s.load_bigint(w as u16, true) {
                Ok(y) => { check(y == ext(if w > 0 { s0 } else { 0 }), "signed value"); reach("signed"); }
                Err(_) => check(false, "signed value"),
            }
        } else {
            match s.load_bigint(w as u16, false) {
                Ok(y) => { check(y == ext(0), "unsigned value"); reach("unsigned"); }
                Err(_) => check(false, "unsigned value"),
            }
        }
        check(s.size_bits() == 0, "consumed");
    }
    // The length field of a variable-length number says more than there is.
    fn bg_var_read() {
        let len_bits = pick(20, "length field") as u16;
        let have = pick(3, "bytes") as usize;
        let mut b = CellBuilder::new();
        let mut d = [0u8; 3];
        any_into(&mut d, "length");
        check(b.store_raw(&d, len_bits).is_ok(), "store");
        let mut l = Bits::new();
        l.bytes(&d, len_bits as usize);
        let len = l.int(0, len_bits as usize);
        check(b.store_raw(&[0x81, 0x02, 0x03], have as u16 * 8).is_ok(), "store");
        let c = match b.build() { Ok(c) => c, Err(_) => { check(false, "build"); return; } };
        let mut s = match c.as_slice() { Ok(s) => s, Err(_) => { check(false, "slice"); return; } };
        let signed = pick(1, "signed") == 1;
        let r = if signed { s.load_var_bigint(len_bits, true).ok() } else { s.load_var_biguint(len_bits).ok().map(BigInt::from) };
        check(r.is_some() == (len <= have as u128), "length");
        if let Some(x) = r {
            let k = conc(len as u64) as usize;
            let all = [0x81u8, 0x02, 0x03];
            let want = if signed { BigInt::from_signed_bytes_be(&all[..k]) } else { BigInt::from_bytes_be(Sign::Plus, &all[..k]) };
            check(x == want, "value");
            reach("read");
        } else { reach("short"); }
    }
}
