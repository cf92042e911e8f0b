// Text forms: hex, base64, addresses, block ids, shards, bit strings, numbers; CRC-16.
use crate::vp::*;
use std::fmt::Write as _;
use std::str::FromStr;
use tycho_types::cell::*;
use tycho_types::models::*;
use tycho_types::num::*;
use tycho_types::util::Bitstring;

/// 1 if `a < b` (both below 128), without a branch.
fn lt(a: u8, b: u8) -> u8 {
    a.wrapping_sub(b) >> 7
}
/// Hex digit of a nibble, without a table.
fn hx(n: u8, upper: bool) -> u8 {
    let gap = if upper { 7 } else { 39 };
    b'0' + n + gap * lt(9, n)
}
fn hex_of(b: &[u8], upper: bool) -> Vec<u8> {
    let mut r = Vec::with_capacity(b.len() * 2);
    for x in b {
        r.push(hx(x >> 4, upper));
        r.push(hx(x & 15, upper));
    }
    r
}
fn unhex(c: u8) -> Option<u8> {
    if c >= b'0' && c <= b'9' {
        Some(c - b'0')
    } else if c >= b'a' && c <= b'f' {
        Some(c - b'a' + 10)
    } else if c >= b'A' && c <= b'F' {
        Some(c - b'A' + 10)
    } else {
        None
    }
}
fn unhex_all(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    let mut r = vec![];
    for i in 0..s.len() / 2 {
        r.push(unhex(s[2 * i])? << 4 | unhex(s[2 * i + 1])?);
    }
    Some(r)
}
/// Value of a base64 digit.
fn unb64(c: u8, url: bool) -> Option<u8> {
    let (c62, c63) = if url { (b'-', b'_') } else { (b'+', b'/') };
    if c >= b'A' && c <= b'Z' {
        Some(c - b'A')
    } else if c >= b'a' && c <= b'z' {
        Some(c - b'a' + 26)
    } else if c >= b'0' && c <= b'9' {
        Some(c - b'0' + 52)
    } else if c == c62 {
        Some(62)
    } else if c == c63 {
        Some(63)
    } else {
        None
    }
}
fn b64_digit(v: u8, url: bool) -> u8 {
    let (c62, c63) = if url { (b'-', b'_') } else { (b'+', b'/') };
    // 'A' + v, then the distances between the ranges.
    let mut r = b'A'.wrapping_add(v);
    r = r.wrapping_add(lt(25, v) * (b'a' - b'Z' - 1));
    r = r.wrapping_sub(lt(51, v) * (b'z' - b'0' + 1));
    r = r.wrapping_add(lt(61, v).wrapping_mul(c62.wrapping_sub(b'9' + 1)));
    r.wrapping_add(lt(62, v).wrapping_mul(c63.wrapping_sub(c62 + 1)))
}
fn b64_of(b: &[u8], url: bool) -> Vec<u8> {
    let mut bits = Bits::new();
    bits.bytes(b, b.len() * 8);
    while bits.len() % 6 != 0 {
        bits.0.push(0);
    }
    let mut r = vec![];
    for i in 0..bits.len() / 6 {
        r.push(b64_digit(bits.int(6 * i, 6 * i + 6) as u8, url));
    }
    while r.len() % 4 != 0 {
        r.push(b'=');
    }
    r
}
/// Strict decoding of `n` bytes.
fn unb64_all(s: &[u8], n: usize, url: bool) -> Option<Vec<u8>> {
    if s.len() != n.div_ceil(3) * 4 {
        return None;
    }
    let digits = (n * 8).div_ceil(6);
    let mut bits = Bits::new();
    for c in &s[..digits] {
        bits.uint(unb64(*c, url)? as u128, 6);
    }
    for c in &s[digits..] {
        if *c != b'=' {
            return None;
        }
    }
    for b in &bits.0[n * 8..] {
        if *b != 0 {
            return None;
        }
    }
    Some((0..n).map(|i| bits.byte(i)).collect())
}
/// CRC-16/XMODEM, one bit at a time.
fn crc(b: &[u8]) -> u16 {
    let mut r = 0u16;
    for x in b {
        r ^= (*x as u16) << 8;
        for _ in 0..8 {
            let top = 0u16.wrapping_sub(r >> 15);
            r = r << 1 ^ top & 0x1021;
        }
    }
    r
}
fn same(got: &[u8], want: &[u8], msg: &'static str) {
    check(got.len() == want.len(), msg);
    let mut d = 0;
    for i in 0..want.len() {
        d |= got[i] ^ want[i];
    }
    check(d == 0, msg);
}
fn fixed(seed: u8) -> [u8; 32] {
    let mut r = [0; 32];
    for i in 0..32 {
        r[i] = (i as u8).wrapping_mul(29).wrapping_add(seed) ^ 0x5a;
    }
    r
}
/// A workchain and an address of which one byte is arbitrary.
fn one_byte(seed: u8, few: &[usize]) -> (i8, [u8; 32]) {
    let (mut wc, mut h) = (-1i8, fixed(seed));
    let n = if thorough() { 32 } else { few.len() as u64 };
    let at = pick(n, "at") as usize;
    if at == 0 {
        wc = any_u8("byte") as i8;
    } else {
        h[if n == 32 { at - 1 } else { few[at - 1] }] = any_u8("byte");
    }
    (wc, h)
}
/// Replaces `n` characters at `at` by arbitrary ASCII.
fn wild(s: &mut [u8], at: usize, n: usize) {
    let n = n.min(s.len() - at);
    let mut c = [0u8; 8];
    any_into(&mut c[..n], "chars");
    for i in 0..n {
        assume(c[i] < 0x80);
        s[at + i] = c[i];
    }
}
fn text(s: &[u8]) -> &str {
    // Only called with ASCII or whole characters.
    unsafe { std::str::from_utf8_unchecked(s) }
}
fn show<T: std::fmt::Display>(v: &T) -> String {
    let mut s = String::with_capacity(512);
    let _ = write!(s, "{v}");
    s
}
/// Decimal digits of a concrete number.
fn dec(v: i64) -> Vec<u8> {
    let mut r = vec![];
    let mut x = v.unsigned_abs();
    while x > 0 || r.is_empty() {
        r.push(b'0' + (x % 10) as u8);
        x /= 10;
    }
    if v < 0 {
        r.push(b'-');
    }
    r.reverse();
    r
}
/// A decimal number as Rust's integers read it: optional sign, digits only.
fn undec(s: &[u8], min: i64, max: i64) -> Option<i64> {
    let (neg, d) = match s {
        [b'-', d @ ..] if min < 0 => (true, d),
        [b'+', d @ ..] => (false, d),
        d => (false, d),
    };
    if d.is_empty() {
        return None;
    }
    let mut r = 0i64;
    for c in d {
        if *c < b'0' || *c > b'9' {
            return None;
        }
        r = r.checked_mul(10)?.checked_add((*c - b'0') as i64)?;
    }
    let r = if neg { -r } else { r };
    if r < min || r > max { None } else { Some(r) }
}
fn unhex64(s: &[u8]) -> Option<u64> {
    let d = match s {
        [b'+', d @ ..] => d,
        d => d,
    };
    if d.is_empty() {
        return None;
    }
    let mut r = 0u64;
    for c in d {
        if r >> 60 != 0 {
            return None;
        }
        r = r << 4 | unhex(*c)? as u64;
    }
    Some(r)
}
fn split<'a>(s: &'a [u8]) -> Vec<&'a [u8]> {
    let mut r = vec![];
    let mut from = 0;
    for i in 0..s.len() {
        if s[i] == b':' {
            r.push(&s[from..i]);
            from = i + 1;
        }
    }
    r.push(&s[from..]);
    r
}
fn shard_of(wc: &[u8], pfx: &[u8]) -> Option<(i32, u64)> {
    let wc = undec(wc, i32::MIN as i64, i32::MAX as i64)? as i32;
    let p = unhex64(pfx)?;
    if p == 0 || p & 0x7 != 0 || wc == -1 && p != 1 << 63 {
        return None;
    }
    Some((wc, p))
}
const WCS: [i32; 6] = [-1, 0, 7, 123456789, i32::MIN, i32::MAX];
fn any_prefix(wc: i32) -> u64 {
    if wc == -1 {
        return 1 << 63;
    }
    let v = any_u64("prefix");
    assume(v != 0 && v & 7 == 0);
    v
}
/// The text of a bit string: hex digits, completed by a one and zeros and an underscore if the
/// length is no multiple of four.
fn bits_hex(b: &Bits, upper: bool) -> Vec<u8> {
    let mut b = b.clone();
    let tag = b.len() % 4 != 0;
    if tag {
        b.0.push(1);
        while b.len() % 4 != 0 {
            b.0.push(0);
        }
    }
    let mut r = vec![];
    for i in 0..b.len() / 4 {
        r.push(hx(b.int(4 * i, 4 * i + 4) as u8, upper));
    }
    if tag {
        r.push(b'_');
    }
    r
}
fn unbits(s: &[u8]) -> Option<Bits> {
    if s.len() > 256 {
        return None;
    }
    let (d, tag) = match s {
        [d @ .., b'_'] => (d, true),
        d => (d, false),
    };
    let mut b = Bits::new();
    for c in d {
        b.uint(unhex(*c)? as u128, 4);
    }
    if tag {
        while let Some(0) = b.0.last() {
            b.0.pop();
        }
        b.0.pop();
    }
    Some(b)
}

harnesses! {
    // Every hash prints as 64 lower or upper case digits.
    fn tf_hash_print() {
        let h: [u8; 32] = any_bytes("hash");
        let v = HashBytes(h);
        let mut s = String::with_capacity(80);
        match pick(3, "form") {
            0 => { let _ = write!(s, "{v}"); same(s.as_bytes(), &hex_of(&h, false), "display"); }
            1 => { let _ = write!(s, "{v:x}"); same(s.as_bytes(), &hex_of(&h, false), "lower hex"); }
            2 => { let _ = write!(s, "{v:X}"); same(s.as_bytes(), &hex_of(&h, true), "upper hex"); }
            _ => { let _ = write!(s, "{v:?}"); same(s.as_bytes(), &hex_of(&h, false), "debug"); }
        }
        reach("printed");
    }
    // Hex with and without prefix, base64: two arbitrary characters anywhere.
    fn tf_hash_parse() {
        let b = fixed(pick(1, "seed") as u8 * 77);
        let form = pick(2, "form");
        let mut s = match form {
            0 => hex_of(&b, false),
            1 => [&b"0x"[..], &hex_of(&b, true)].concat(),
            _ => b64_of(&b, false),
        };
        let n = s.len();
        let at = match pick(3, "where") { 0 => 0, 1 => 2, 2 => n / 2 - 1, _ => n - 3 };
        wild(&mut s, at, 3);
        let want = match form {
            0 => unhex_all(&s),
            1 => unhex_all(&s[2..]),
            _ => unb64_all(&s, 32, false),
        };
        match (HashBytes::from_str(text(&s)), want) {
            (Ok(h), Some(w)) => { reach("accepted"); same(&h.0, &w, "parsed hash"); }
            (Err(_), None) => reach("refused"),
            (Ok(_), None) => check(false, "a malformed hash is accepted"),
            (Err(_), Some(_)) => check(false, "a well-formed hash is refused"),
        }
    }
    // Any other length, and characters of several bytes anywhere.
    fn tf_hash_odd() {
        if pick(1, "case") == 0 {
            let n = pick(70, "length") as usize;
            let s = vec![b'0'; n];
            match HashBytes::from_str(text(&s)) {
                Ok(h) => { reach("length"); check(n == 64 || n == 66 || n == 44 && false, "length"); same(&h.0, &[0; 32], "value"); }
                Err(_) => { reach("other"); check(n != 64 && n != 66, "zeros are refused"); }
            }
        } else {
            let n = [44, 64, 66][pick(2, "length") as usize];
            let mut s = vec![b'1'; n];
            let ch = ["\u{e9}", "\u{20ac}", "\u{1f600}"][pick(2, "char") as usize].as_bytes();
            let at = pick((n - ch.len()) as u64, "at") as usize;
            s[at..at + ch.len()].copy_from_slice(ch);
            let ok = HashBytes::from_str(text(&s)).is_ok();
            // The two characters before the digits are not looked at.
            check(!ok || n == 66 && at + ch.len() <= 2, "not ASCII");
            reach("wide");
        }
    }
    // The raw form of an address.
    fn tf_std_print() {
        let h: [u8; 32] = any_bytes("address");
        let wc = [-128i8, -1, 0, 1, 99, 127][pick(5, "workchain") as usize];
        let a = StdAddr::new(wc, HashBytes(h));
        let want = [&dec(wc as i64)[..], b":", &hex_of(&h, false)].concat();
        same(show(&a).as_bytes(), &want, "address");
        same(show(&IntAddr::Std(a)).as_bytes(), &want, "internal address");
        reach("printed");
    }
    fn tf_std_parse() {
        let b = fixed(3);
        let wc = [-128i64, -1, 0, 42][pick(3, "workchain") as usize];
        let mut s = [&dec(wc)[..], b":", &hex_of(&b, false)].concat();
        let n = s.len();
        let tail = pick(3, "tail");
        if tail == 1 { s.push(b':'); } else if tail == 2 { s.pop(); } else if tail == 3 { s.push(b'0'); }
        let at = match pick(4, "where") { 0 => 0, 1 => 2, 2 => 3, 3 => n / 2, _ => n - 3 };
        wild(&mut s, at, 2);
        let p = split(&s);
        let want = if p.len() == 2 {
            match (undec(p[0], -128, 127), if p[1].len() == 64 { unhex_all(p[1]) } else { None }) {
                (Some(wc), Some(h)) => Some((wc, h)),
                _ => None,
            }
        } else { None };
        let int = pick(1, "int") == 1;
        let got = if int {
            match IntAddr::from_str(text(&s)) { Ok(IntAddr::Std(a)) => Some(a), Ok(_) => { check(false, "kind"); None } Err(_) => None }
        } else {
            StdAddr::from_str(text(&s)).ok()
        };
        match (got, want) {
            (Some(a), Some((wc, h))) => {
                reach("accepted");
                check(a.workchain as i64 == wc && a.anycast.is_none(), "workchain");
                same(&a.address.0, &h, "address");
            }
            (None, None) => reach("refused"),
            (Some(_), None) => check(false, "a malformed address is accepted"),
            (None, Some(_)) => check(false, "a well-formed address is refused"),
        }
    }
    // The friendly form: flags, workchain, checksum, alphabet.
    fn tf_b64_print() {
        let (wc, h) = one_byte(9, &[0, 1, 17, 31]);
        let a = StdAddr::new(wc, HashBytes(h));
        let (testnet, url, bounceable) = (pick(1, "testnet") == 1, pick(1, "url") == 1, pick(1, "bounceable") == 1);
        let mut raw = vec![if bounceable { 0x11u8 } else { 0x51 } | if testnet { 0x80 } else { 0 }, wc as u8];
        raw.extend_from_slice(&h);
        let c = tycho_types::crc::crc_16(&raw);
        raw.extend_from_slice(&c.to_be_bytes());
        let want = b64_of(&raw, url);
        let d = DisplayBase64StdAddr { addr: &a, flags: Base64StdAddrFlags { testnet, base64_url: url, bounceable } };
        let got = show(&d);
        same(got.as_bytes(), &want, "friendly address");
        if !testnet {
            let d = if url { a.display_base64_url(bounceable) } else { a.display_base64(bounceable) };
            same(show(&d).as_bytes(), &want, "friendly address, short cut");
        }
        reach("printed");
    }
    // Printed addresses are read back with their flags.
    fn tf_b64_back() {
        let (wc, h) = one_byte(11, &[16, 31]);
        let a = StdAddr::new(wc, HashBytes(h));
        let k = pick(7, "flags");
        let flags = Base64StdAddrFlags { testnet: k & 1 != 0, base64_url: k & 2 != 0, bounceable: k & 4 != 0 };
        let s = show(&DisplayBase64StdAddr { addr: &a, flags });
        match StdAddr::from_str_ext(&s, StdAddrFormat::any()) {
            Ok((b, f)) => {
                check(b.workchain == wc && b.anycast.is_none(), "workchain");
                same(&b.address.0, &h, "address");
                check(f.testnet == flags.testnet && f.bounceable == flags.bounceable, "flags");
                let special = s.as_bytes().iter().any(|c| *c == b'-' || *c == b'_');
                check(f.base64_url == special, "alphabet");
                check(!special || flags.base64_url, "alphabet of the text");
                reach("read");
            }
            Err(_) => check(false, "a printed address is refused"),
        }
    }
    // Arbitrary characters in the friendly form.
    fn tf_b64_parse() {
        let h = fixed(40);
        let mut raw = vec![0x11u8, 0xff];
        raw.extend_from_slice(&h);
        let c = crc(&raw);
        raw.extend_from_slice(&c.to_be_bytes());
        let url = pick(1, "url") == 1;
        let mut s = b64_of(&raw, url);
        match pick(3, "where") {
            0 => wild(&mut s, 0, 1),
            1 => wild(&mut s, 20, 1),
            2 => wild(&mut s, 44, 1),
            _ => wild(&mut s, 47, 1),
        }
        wild(&mut s, 46, 1);
        let special = s.iter().any(|c| *c == b'-' || *c == b'_');
        let want = match unb64_all(&s, 36, special) {
            Some(r) if r[34] == (crc(&r[..34]) >> 8) as u8 && r[35] == crc(&r[..34]) as u8 => Some(r),
            _ => None,
        };
        match (StdAddr::from_str_ext(text(&s), StdAddrFormat::any()), want) {
            (Ok((a, f)), Some(r)) => {
                reach("accepted");
                check(a.workchain as u8 == r[1], "workchain");
                same(&a.address.0, &r[2..34], "address");
                check(f.testnet == (r[0] & 0x80 != 0) && f.bounceable == (r[0] & 0x40 == 0) && f.base64_url == special, "flags");
            }
            (Err(_), None) => reach("refused"),
            (Ok(_), None) => check(false, "a malformed friendly address is accepted"),
            (Err(_), Some(_)) => check(false, "a well-formed friendly address is refused"),
        }
    }
    // Only the allowed forms are accepted.
    fn tf_format() {
        let k = pick(7, "allowed");
        let format = StdAddrFormat { allow_raw: k & 1 != 0, allow_base64: k & 2 != 0, allow_base64_url: k & 4 != 0 };
        // A text with special characters in the friendly form, and one without.
        let special = pick(1, "special") == 1;
        let h = if special { [0xff; 32] } else { [0; 32] };
        let a = StdAddr::new([0i8, -1, -128, 100][pick(3, "workchain") as usize], HashBytes(h));
        let form = pick(2, "form");
        let s = match form {
            0 => show(&a),
            1 => show(&a.display_base64(true)),
            _ => show(&a.display_base64_url(true)),
        };
        let plain = !s.as_bytes().iter().any(|c| *c == b'-' || *c == b'_' || *c == b'+' || *c == b'/');
        let ok = match form {
            0 => format.allow_raw,
            _ if plain => format.allow_base64 || format.allow_base64_url,
            1 => format.allow_base64,
            _ => format.allow_base64_url,
        };
        match StdAddr::from_str_ext(&s, format) {
            Ok((b, _)) => { reach("accepted"); check(ok, "a form that is not allowed is accepted"); check(b == a, "address"); }
            Err(_) => { reach("refused"); check(!ok, "an allowed form is refused"); }
        }
        if form != 0 && plain { reach("plain"); }
    }
    // External addresses.
    fn tf_ext_print() {
        let n = pick(40, "bits") as u16;
        let d: [u8; 5] = any_bytes("data");
        let data = d[..(n as usize).div_ceil(8)].to_vec();
        let mut b = Bits::new();
        b.bytes(&d, n as usize);
        let a = match ExtAddr::new(n, data) { Some(a) => a, None => { check(false, "external address"); return; } };
        let s = show(&a);
        same(s.as_bytes(), &[&b":"[..], &bits_hex(&b, false)].concat(), "external address");
        reach("printed");
    }
    fn tf_ext_parse() {
        let n = [0usize, 1, 2, 3, 4, 127, 128, 129, 255, 256, 257][pick(10, "chars") as usize];
        let mut s = vec![b':'];
        for i in 0..n {
            s.push(hx((i * 7 + 1) as u8 & 15, i % 2 == 0));
        }
        let k = pick(2, "where");
        if k == 0 { wild(&mut s, 0, 1); } else if n >= 2 { wild(&mut s, n - 1, 2); } else if n == 1 { wild(&mut s, 1, 1); }
        if k == 2 { s.push(b'_'); }
        let want = if s[0] == b':' { unbits(&s[1..]) } else { None };
        let want = match want { Some(b) if b.len() <= 511 => Some(b), _ => None };
        match (ExtAddr::from_str(text(&s)), want) {
            (Ok(a), Some(b)) => {
                reach("accepted");
                check(a.data_bit_len.into_inner() as usize == b.len(), "length");
                check(a.data.len() == b.len().div_ceil(8), "bytes");
                let mut d = 0;
                for i in 0..a.data.len() { d |= a.data[i] ^ b.byte(i); }
                check(d == 0, "data");
            }
            (Err(_), None) => reach("refused"),
            (Ok(_), None) => check(false, "a malformed external address is accepted"),
            (Err(_), Some(_)) => check(false, "a well-formed external address is refused"),
        }
    }
    // Bit strings: hex and binary, through all the types which print them.
    fn tf_bits_print() {
        let n = pick(34, "bits") as usize;
        let d: [u8; 5] = any_bytes("data");
        let mut b = Bits::new();
        b.bytes(&d, n);
        let form = pick(2, "form");
        assume(form != 2 || n <= 18);
        let bin: Vec<u8> = b.0.iter().map(|x| b'0' + x).collect();
        let want = match form { 0 => bits_hex(&b, false), 1 => bits_hex(&b, true), _ => bin };
        let mut s = String::with_capacity(128);
        let mut cb = CellBuilder::new();
        check(cb.store_raw(&d, n as u16).is_ok(), "store");
        match pick(3, "through") {
            0 => {
                let v = Bitstring { bytes: &d, bit_len: n as u16 };
                let _ = match form { 0 => write!(s, "{v}"), 1 => write!(s, "{v:X}"), _ => write!(s, "{v:b}") };
            }
            1 => {
                let v = cb.display_data();
                let _ = match form { 0 => write!(s, "{v:x}"), 1 => write!(s, "{v:X}"), _ => write!(s, "{v:b}") };
            }
            2 => {
                let c = match cb.build() { Ok(c) => c, Err(_) => { check(false, "build"); return; } };
                let v = c.as_ref().display_data();
                let _ = match form { 2 => write!(s, "{v:b}"), _ => write!(s, "{v}") };
                if form == 1 { same(s.as_bytes(), &bits_hex(&b, false), "cell data"); return; }
            }
            _ => {
                // A window of a longer slice.
                let mut l = CellBuilder::new();
                let skip = pick(9, "skip") as u16;
                check(l.store_zeros(skip).is_ok() && l.store_slice(cb.as_data_slice()).is_ok() && l.store_uint(0x2d, 6).is_ok(), "store");
                let c = match l.build() { Ok(c) => c, Err(_) => { check(false, "build"); return; } };
                let mut sl = match c.as_slice() { Ok(s) => s, Err(_) => { check(false, "slice"); return; } };
                check(sl.skip_first(skip, 0).is_ok() && sl.skip_last(6, 0).is_ok(), "window");
                let v = sl.display_data();
                let _ = match form { 0 => write!(s, "{v}"), 1 => write!(s, "{v:X}"), _ => write!(s, "{v:b}") };
            }
        }
        same(s.as_bytes(), &want, "bit string");
        reach("printed");
    }
    fn tf_bits_parse() {
        let n = pick(if thorough() { 4 } else { 3 }, "chars") as usize;
        let mut s = vec![b'0'; n];
        if n > 0 { wild(&mut s, 0, n); }
        if pick(1, "tag") == 1 { s.push(b'_'); }
        match (Bitstring::from_hex_str(text(&s)), unbits(&s)) {
            (Ok((d, len)), Some(b)) => {
                reach("accepted");
                check(len as usize == b.len() && d.len() == b.len().div_ceil(8), "length");
                let mut x = 0;
                for i in 0..d.len() { x |= d[i] ^ b.byte(i); }
                check(x == 0, "bits");
            }
            (Err(_), None) => reach("refused"),
            (Ok(_), None) => check(false, "a malformed bit string is accepted"),
            (Err(_), Some(_)) => check(false, "a well-formed bit string is refused"),
        }
    }
    // Shards and block ids.
    fn tf_shard_print() {
        let wc = WCS[pick(5, "workchain") as usize];
        let p = any_prefix(wc);
        let s = match ShardIdent::new(wc, p) { Some(s) => s, None => { check(false, "shard"); return; } };
        let want = [&dec(wc as i64)[..], b":", &hex_of(&p.to_be_bytes(), false)].concat();
        let mut t = String::with_capacity(64);
        if pick(1, "debug") == 1 { let _ = write!(t, "{s:?}"); } else { let _ = write!(t, "{s}"); }
        same(t.as_bytes(), &want, "shard");
        let seqno = [0u32, 1, 98765, u32::MAX][pick(3, "seqno") as usize];
        let id = BlockIdShort { shard: s, seqno };
        same(show(&id).as_bytes(), &[&want[..], b":", &dec(seqno as i64)].concat(), "short id");
        reach("printed");
    }
    fn tf_shard_parse() {
        let k = pick(4, "text");
        let mut s: Vec<u8> = match k {
            0 => b"0:8000000000000000".to_vec(),
            1 => b"-1:8000000000000000".to_vec(),
            2 => b"2147483647:0000000000000018".to_vec(),
            3 => b"-2147483648:f8".to_vec(),
            _ => b"11:00c800000000000000:".to_vec(),
        };
        let n = s.len();
        let at = match pick(3, "where") { 0 => 0, 1 => 1, 2 => n / 2, _ => n - 2 };
        wild(&mut s, at, 2);
        let p = split(&s);
        // What follows the second colon is not looked at.
        let want = if p.len() >= 2 { shard_of(p[0], p[1]) } else { None };
        match (ShardIdent::from_str(text(&s)), want) {
            (Ok(x), Some((wc, p))) => { reach("accepted"); check(x.workchain() == wc && x.prefix() == p, "shard"); }
            (Err(_), None) => reach("refused"),
            (Ok(_), None) => check(false, "a malformed shard is accepted"),
            (Err(_), Some(_)) => check(false, "a well-formed shard is refused"),
        }
    }
    fn tf_block_print() {
        let (root, file): ([u8; 32], [u8; 32]) = (any_bytes("root"), any_bytes("file"));
        let wc = WCS[pick(2, "workchain") as usize];
        let shard = match ShardIdent::new(wc, 1 << 63) { Some(s) => s, None => { check(false, "shard"); return; } };
        let seqno = [0u32, 98765, u32::MAX][pick(2, "seqno") as usize];
        let id = BlockId { shard, seqno, root_hash: HashBytes(root), file_hash: HashBytes(file) };
        let want = [&dec(wc as i64)[..], b":8000000000000000:", &dec(seqno as i64), b":", &hex_of(&root, false), b":", &hex_of(&file, false)].concat();
        same(show(&id).as_bytes(), &want, "block id");
        reach("printed");
    }
    fn tf_block_parse() {
        let (root, file) = (fixed(1), fixed(2));
        let mut s = [&b"-1:8000000000000000:4294967295:"[..], &hex_of(&root, false), b":", &hex_of(&file, true)].concat();
        let n = s.len();
        match pick(4, "shape") {
            0 => {}
            1 => s.push(b':'),
            2 => { s.pop(); }
            3 => { s.truncate(95); }
            _ => { s = [&b"5:c:+7:"[..], &s[31..]].concat(); }
        }
        let at = match pick(7, "where") { 0 => 0, 1 => 2, 2 => 4, 3 => 18, 4 => 29, 5 => 60, 6 => 94, _ => n - 3 };
        if at < s.len() { wild(&mut s, at, 2); }
        let p = split(&s);
        let want = if p.len() == 5 {
            let h = |x: &[u8]| if x.len() == 64 { unhex_all(x) } else { None };
            match (shard_of(p[0], p[1]), undec(p[2], 0, u32::MAX as i64), h(p[3]), h(p[4])) {
                (Some(s), Some(n), Some(r), Some(f)) => Some((s, n, r, f)),
                _ => None,
            }
        } else { None };
        match (BlockId::from_str(text(&s)), want) {
            (Ok(x), Some((sh, n, r, f))) => {
                reach("accepted");
                check(x.shard.workchain() == sh.0 && x.shard.prefix() == sh.1, "shard");
                check(x.seqno as i64 == n, "seqno");
                same(&x.root_hash.0, &r, "root hash");
                same(&x.file_hash.0, &f, "file hash");
            }
            (Err(_), None) => reach("refused"),
            (Ok(_), None) => check(false, "a malformed block id is accepted"),
            (Err(_), Some(_)) => check(false, "a well-formed block id is refused"),
        }
    }
    // Decimal numbers of bounded types.
    fn tf_num() {
        let k = pick(4, "type");
        let max: u64 = [4095, 511, 32767, (1 << 24) - 1, (1 << 56) - 1][k as usize];
        let mut s = dec(max as i64 + pick(1, "above") as i64);
        let n = s.len();
        let at = match pick(1, "where") { 0 => 0, _ => n - 1 };
        wild(&mut s, at, 1);
        let want = undec(&s, 0, max as i64).map(|x| x as u64);
        let t = text(&s);
        let got = match k {
            0 => Uint12::from_str(t).ok().map(|x| x.into_inner() as u64),
            1 => Uint9::from_str(t).ok().map(|x| x.into_inner() as u64),
            2 => Uint15::from_str(t).ok().map(|x| x.into_inner() as u64),
            3 => VarUint24::from_str(t).ok().map(|x| x.into_inner() as u64),
            _ => VarUint56::from_str(t).ok().map(|x| x.into_inner()),
        };
        check(got == want, "number");
        if got.is_some() { reach("accepted"); } else { reach("refused"); }
    }
    // The table-driven CRC is the bitwise one.
    fn tf_crc() {
        let n = pick(3, "bytes") as usize;
        let b: [u8; 3] = any_bytes("data");
        check(tycho_types::crc::crc_16(&b[..n]) == crc(&b[..n]), "crc");
        reach("short");
    }
    fn tf_crc_long() {
        let mut b = [0u8; 34];
        for i in 0..34 { b[i] = (i * 37) as u8 ^ 0x6c; }
        let at = pick(33, "at") as usize;
        b[at] = any_u8("byte");
        check(tycho_types::crc::crc_16(&b) == crc(&b), "crc");
        reach("long");
    }
}
