// Integer types: wire format, bounds, exact arithmetic, decimal text.
use crate::vp::*;
use tycho_types::cell::*;
use tycho_types::num::*;

/// 256-bit number as 32-bit limbs (least significant first): an independent model.
#[derive(Clone, Copy, PartialEq, Eq)]
struct W([u32; 16]);
impl W {
    fn of(hi: u128, lo: u128) -> W {
        let mut w = [0u32; 16];
        for i in 0..4 {
            w[i] = (lo >> (32 * i)) as u32;
            w[4 + i] = (hi >> (32 * i)) as u32;
        }
        W(w)
    }
    fn v(x: &VarUint248) -> W {
        let (h, l) = x.into_words();
        W::of(h, l)
    }
    fn add(&self, o: &W) -> W {
        let mut r = [0u32; 16];
        let mut c = 0u64;
        for i in 0..16 {
            let s = self.0[i] as u64 + o.0[i] as u64 + c;
            r[i] = s as u32;
            c = s >> 32;
        }
        W(r)
    }
    /// two's complement difference
    fn sub(&self, o: &W) -> (W, bool) {
        let mut r = [0u32; 16];
        let mut bor = 0u64;
        for i in 0..16 {
            let s = (self.0[i] as u64).wrapping_sub(o.0[i] as u64).wrapping_sub(bor);
            r[i] = s as u32;
            bor = s >> 63;
        }
        (W(r), bor != 0)
    }
    fn shl(&self, n: usize) -> W {
        let (k, b) = (n / 32, n % 32);
        let mut r = [0u32; 16];
        for i in k..16 {
            let mut x = self.0[i - k] << b;
            if b > 0 && i > k {
                x |= self.0[i - k - 1] >> (32 - b);
            }
            r[i] = x;
        }
        W(r)
    }
    /// The product with a constant: one shift per edge of its runs of ones.
    fn times(&self, kh: u128, kl: u128) -> W {
        let bit = |i: usize| if i < 128 { kl >> i & 1 } else if i < 256 { kh >> (i - 128) & 1 } else { 0 };
        let mut r = W([0; 16]);
        for i in 0..257 {
            let below = if i == 0 { 0 } else { bit(i - 1) };
            if bit(i) == 0 && below == 1 {
                r = r.add(&self.shl(i));
            } else if bit(i) == 1 && below == 0 {
                r = r.sub(&self.shl(i)).0;
            }
        }
        r
    }
    fn lt(&self, o: &W) -> bool {
        self.sub(o).1
    }
    /// the low 256 bits
    fn low(&self) -> (u128, u128) {
        let mut h = 0u128;
        let mut l = 0u128;
        for i in 0..4 {
            l |= (self.0[i] as u128) << (32 * i);
            h |= (self.0[4 + i] as u128) << (32 * i);
        }
        (h, l)
    }
    fn top_zero(&self, bits: usize) -> bool {
        let mut ok = true;
        for i in 0..16 {
            if i * 32 >= bits {
                ok &= self.0[i] == 0;
            } else if i * 32 + 32 > bits {
                ok &= self.0[i] >> (bits - i * 32) == 0;
            }
        }
        ok
    }
}

/// 8 arbitrary bits across a multiple of 16, of an otherwise all-zero or all-one number.
fn window(words: usize, bits: u32) -> (u128, u128) {
    let step = if thorough() { 1 } else if bits < 8 { 4 } else { 2 };
    let at = 16 * step * pick(words as u64 / step as u64 - 1, "at") as usize;
    let at = if at == 0 { 0 } else { at - 4 };
    let fill = [0, u128::MAX][pick(1, "fill") as usize];
    let w = any_u8("w") as u128;
    let (mut h, mut l) = (fill, fill);
    if at < 128 {
        l = l & !(255 << at) | w << at;
    }
    if at == 124 {
        h = h & !15 | w >> 4;
    } else if at >= 128 {
        h = h & !(255 << (at - 128)) | w << (at - 128);
    }
    if bits < 8 {
        assume(w >> bits == 0);
    }
    if words == 8 { (0, l) } else { (h, l) }
}

fn any_248(name: &'static str) -> VarUint248 {
    let b: [u8; 32] = any_bytes(name);
    let mut h = [0; 16];
    let mut l = [0; 16];
    l.copy_from_slice(&b[..16]);
    h.copy_from_slice(&b[16..]);
    VarUint248::from_words(u128::from_le_bytes(h), u128::from_le_bytes(l))
}

/// Storing writes `len_bits` bits of the smallest byte count, then the bytes.
fn stored<T: Store + ExactSize + PartialEq + for<'a> Load<'a>>(v: &T, hi: u128, lo: u128, len_bits: usize, max: u64, bit_len: Option<u16>) {
    let used = pick(2, "used") as u16 * 7;
    let mut b = CellBuilder::new();
    check(b.store_zeros(used).is_ok(), "room");
    let before = b.size_bits();
    let r = v.store_into(&mut b, Cell::empty_context());
    // number of bytes, by search
    let mut bytes = 0u64;
    for i in 0..32 {
        let byte = if i < 16 { (lo >> (8 * i)) as u8 } else { (hi >> (8 * (i - 16))) as u8 };
        if byte != 0 {
            bytes = i as u64 + 1;
        }
    }
    let bytes = conc(bytes);
    if bytes > max {
        check(r.is_err(), "a value that is too large is refused");
        check(bit_len.is_none(), "no bit length for a value that is too large");
        check(b.size_bits() == before, "nothing is written by a failed store");
        reach("too large");
        return;
    }
    check(r.is_ok(), "stored");
    let mut m = Bits::new();
    m.fill(0, used as usize);
    m.uint(bytes as u128, len_bits);
    let n = bytes as usize * 8;
    if n > 128 {
        m.uint(hi, n - 128);
        m.uint(lo, 128);
    } else {
        m.uint(lo, n);
    }
    m.check_raw(b.raw_data(), "the value as written");
    check(b.size_bits() as usize == m.len(), "size written");
    check(bit_len == Some(m.len() as u16 - used), "announced bit length");
    let es = v.exact_size();
    check(es.bits == m.len() as u16 - used && es.refs == 0, "exact size");
    check(b.store_u8(0x5a).is_ok(), "room");
    let Ok(c) = b.build() else { return check(false, "build") };
    let mut s = CellSlice::new_allow_exotic(c.as_ref());
    check(s.skip_first(used, 0).is_ok(), "skip");
    match T::load_from(&mut s) {
        Ok(x) => check(x == *v, "loading gives the value back"),
        Err(_) => check(false, "loads"),
    }
    check(s.size_bits() == 8, "loading takes exactly the written bits");
    reach("round trip");
}

/// Loading arbitrary bits: the value the bits mean, or an error if there are too few.
fn loaded<T: for<'a> Load<'a>>(len_bits: usize, max: usize, words: fn(&T) -> (u128, u128)) {
    let d: [u8; 33] = any_bytes("d");
    let bytes = pick(max as u64, "bytes") as usize;
    let total = [len_bits - 1, len_bits, len_bits + bytes * 8, (len_bits + bytes * 8).saturating_sub(1), len_bits + bytes * 8 + 3][pick(4, "total") as usize];
    let mut b = CellBuilder::new();
    let mut m = Bits::new();
    m.uint(bytes as u128, len_bits);
    check(b.store_uint(bytes as u64, len_bits as u16).is_ok(), "room");
    check(b.store_raw(&d, (max * 8 + 3) as u16).is_ok(), "room");
    m.bytes(&d, max * 8 + 3);
    let Ok(c) = b.build() else { return check(false, "build") };
    let mut s = CellSlice::new_allow_exotic(c.as_ref());
    check(s.only_first(total as u16, 0).is_ok(), "cut");
    let r = T::load_from(&mut s);
    let need = len_bits + bytes * 8;
    check(r.is_ok() == (total >= need), "loads exactly when the bits are there");
    if let Ok(x) = r {
        let n = bytes * 8;
        let (h, l) = words(&x);
        let lo = if n > 128 { m.int(need - 128, need) } else { m.int(len_bits, need) };
        let hi = if n > 128 { m.int(len_bits, need - 128) } else { 0 };
        check(h == hi && l == lo, "value loaded");
        check(s.size_bits() as usize == total - need, "loading takes exactly the value");
        reach("loaded");
    }
}

macro_rules! small_ops {
    ($t:ident, $inner:ty, $wide:ty, $any:ident, $small:expr) => {{
        let (x, y) = ($any("x"), $any("y"));
        let (a, b) = ($t::new(x), $t::new(y));
        let max = $t::MAX.into_inner() as $wide;
        check(a.is_valid() == (x as $wide <= max), "validity");
        check(a.is_zero() == (x == 0) && a.into_inner() == x, "value kept");
        check((a < b) == (x < y) && (a == b) == (x == y), "order");
        let m = [$t::MIN, $t::ZERO, $t::ONE, $t::MAX];
        check(m[0].into_inner() == 0 && m[1].into_inner() == 0 && m[2].into_inner() == 1, "constants");
        let add = x as $wide + y as $wide;
        let sub = if x >= y { Some(x as $wide - y as $wide) } else { None };
        let fit = |v: $wide| if v <= max { Some(v) } else { None };
        let val = |v: Option<$t>| v.map(|v| v.into_inner() as $wide);
        check(val(a.checked_add(b)) == fit(add), "checked sum");
        check(a.saturating_add(b).into_inner() as $wide == fit(add).unwrap_or(max), "saturating sum");
        check(val(a.checked_sub(b)) == sub.and_then(fit), "checked difference");
        let ss = match sub { Some(v) => fit(v).unwrap_or(max), None => 0 };
        check(a.saturating_sub(b).into_inner() as $wide == ss, "saturating difference");
        check(<$inner>::from(a) == x, "conversion out");
        match $t::try_from(x) {
            Ok(v) => check(x as $wide <= max && v.into_inner() == x, "conversion in"),
            Err(_) => check(x as $wide > max, "conversion refused only above the maximum"),
        }
        if fit(add).is_some() {
            check((a + b).into_inner() as $wide == add && (a + y).into_inner() as $wide == add, "sum");
            let mut c = a;
            c += b;
            check(c.into_inner() as $wide == add, "sum assigned");
            let mut c = a;
            c += y;
            check(c.into_inner() as $wide == add, "sum assigned");
            reach("sum");
        }
        if let Some(sub) = sub {
            check((a - b).into_inner() as $wide == sub && (a - y).into_inner() as $wide == sub, "difference");
            let mut c = a;
            c -= b;
            check(c.into_inner() as $wide == sub, "difference assigned");
        }
        assume($small(x, y));
        // the product fits the primitive type, and the integer type
        let p = x as $wide * y as $wide;
        let low = p as $inner;
        let fits = p >> <$inner>::BITS == 0 && low as $wide <= max;
        let (cm, sm) = (a.checked_mul(b), a.saturating_mul(b));
        check(cm.is_some() == fits, "checked product exists exactly if it fits");
        check(sm.into_inner() == if fits { low } else { $t::MAX.into_inner() }, "saturating product");
        if let Some(v) = cm {
            check(v.into_inner() == low, "checked product");
        }
        if fits {
            check((a * b).into_inner() == low && (a * y).into_inner() == low, "product");
        }
    }};
}

macro_rules! try_ops {
    ($t:ident, $any:ident) => {{
        let (x, y) = ($any("x"), $any("y"));
        let (a, b) = ($t::new(x), $t::new(y));
        macro_rules! one {
            ($f:ident, $g:ident) => {{
                let mut c = a;
                let r = c.$f(b);
                match a.$g(b) {
                    Some(v) => check(r.is_ok() && c == v, "assigned"),
                    None => check(r.is_err() && c == a, "a failed operation keeps the value"),
                }
            }};
        }
        match pick(2, "op") {
            0 => one!(try_add_assign, checked_add),
            1 => one!(try_sub_assign, checked_sub),
            _ => one!(try_mul_assign, checked_mul),
        }
    }};
}

/// Divisors with long carries, all-one limbs and limb boundaries.
fn constant(i: u64) -> (u128, u128) {
    match i {
        0 => (0, 1),
        1 => (0, 10),
        2 => (0, 10000),
        3 => (0, u64::MAX as u128),
        4 => (0, 1 << 64),
        5 => (0, (1 << 64) + 1),
        6 => (0, u128::MAX),
        7 => (1, 0),
        8 => (1, 1),
        9 => (0, 1 << 127),
        10 => (1, u128::MAX),
        11 => (1 << 60, 3),
        12 => ((1 << 120) - 1, u128::MAX),
        13 => (1 << 119, 0),
        14 => ((1 << 64) - 1, 0),
        _ => (0x8000_0000_0000_0001, 0x8000_0000_0000_0000_ffff_ffff_ffff_ffff),
    }
}

fn dec(mut v: u64) -> u8 {
    v %= 10;
    b'0' + v as u8
}

harnesses! {
fn nu_store_small() {
    match pick(2, "type") {
        0 => {
            let x = any_u32("x");
            let v = VarUint24::new(x);
            check(v.unwrap_bit_len() == v.bit_len().unwrap_or(VarUint24::MAX_BITS), "bit length or the maximum");
            stored(&v, 0, x as u128, 2, 3, v.bit_len());
        }
        1 => {
            let x = any_u64("x");
            let v = VarUint56::new(x);
            check(v.unwrap_bit_len() == v.bit_len().unwrap_or(VarUint56::MAX_BITS), "bit length or the maximum");
            stored(&v, 0, x as u128, 3, 7, v.bit_len());
        }
        _ => {
            let x = any_u128("x");
            let v = Tokens::new(x);
            check(v.unwrap_bit_len() == v.bit_len().unwrap_or(Tokens::MAX_BITS), "bit length or the maximum");
            stored(&v, 0, x, 4, 15, v.bit_len());
        }
    }
}
fn nu_store_248() {
    let v = any_248("x");
    let (h, l) = v.into_words();
    stored(&v, h, l, 5, 31, v.bit_len());
}
fn nu_load() {
    match pick(3, "type") {
        0 => loaded::<VarUint24>(2, 3, |x| (0, x.into_inner() as u128)),
        1 => loaded::<VarUint56>(3, 7, |x| (0, x.into_inner() as u128)),
        2 => loaded::<Tokens>(4, 15, |x| (0, x.into_inner())),
        _ => loaded::<VarUint248>(5, 31, |x| x.into_words()),
    }
}
fn nu_fixed() {
    // 9, 12, 15 bit integers and the split depth
    macro_rules! t {
        ($t:ident, $n:expr) => {{
            let x = any_u16("x");
            let v = $t::new(x);
            check(v.is_valid() == ((x as u32) < 1 << $n), "validity");
            let mut b = CellBuilder::new();
            check(b.store_bit_one().is_ok(), "room");
            let r = v.store_into(&mut b, Cell::empty_context());
            check(r.is_ok() == v.is_valid(), "only values that fit are stored");
            check(v.exact_size().bits == $n, "exact size");
            let mut k = CellDataBuilder::new();
            let rk = tycho_types::dict::StoreDictKey::store_into_data(&v, &mut k);
            check(rk.is_ok() == v.is_valid(), "only keys that fit are stored");
            if r.is_ok() {
                let mut m = Bits::new();
                m.uint(1, 1);
                m.uint(x as u128, $n);
                m.check_raw(b.raw_data(), "the value as written");
                check(b.size_bits() == 1 + $n, "size written");
                check(<$t as tycho_types::dict::LoadDictKey>::load_from_data(&k) == Some(v), "key read back");
                let Ok(c) = b.build() else { return check(false, "build") };
                let mut s = CellSlice::new_allow_exotic(c.as_ref());
                check(s.skip_first(1, 0).is_ok(), "skip");
                check(matches!($t::load_from(&mut s), Ok(y) if y == v) && s.is_empty(), "round trip");
                reach("fixed");
            } else {
                check(b.size_bits() == 1, "nothing is written by a failed store");
            }
        }};
    }
    match pick(3, "type") {
        0 => t!(Uint9, 9),
        1 => t!(Uint12, 12),
        2 => t!(Uint15, 15),
        _ => {
            let x = any_u16("x");
            if x < 256 {
                match SplitDepth::new(x as u8) {
                    Ok(d) => {
                        check(x >= 1 && x <= 30, "depths are 1 to 30");
                        check(d.into_bit_len() == x, "depth kept");
                        let mut b = CellBuilder::new();
                        check(d.store_into(&mut b, Cell::empty_context()).is_ok(), "stored");
                        let mut m = Bits::new();
                        m.uint(x as u128, 5);
                        m.check_raw(b.raw_data(), "the depth as written");
                        check(b.size_bits() == 5 && d.exact_size().bits == 5, "size");
                    }
                    Err(_) => check(x == 0 || x > 30, "depths are 1 to 30"),
                }
            }
            check(SplitDepth::from_bit_len(x).is_ok() == (x >= 1 && x <= 30), "depths are 1 to 30");
            let mut b = CellBuilder::new();
            check(b.store_small_uint(x as u8 & 31, 5).is_ok(), "room");
            let Ok(c) = b.build() else { return check(false, "build") };
            let mut s = CellSlice::new_allow_exotic(c.as_ref());
            match SplitDepth::load_from(&mut s) {
                Ok(d) => check(d.into_bit_len() == x & 31 && x & 31 != 0 && x & 31 != 31, "depth loaded"),
                Err(_) => check(x & 31 == 0 || x & 31 == 31, "depth refused"),
            }
            reach("depth");
        }
    }
}
fn nu_ops_small() {
    match pick(3, "type") {
        0 => small_ops!(VarUint24, u32, u64, any_u32, |_, _| true),
        1 => small_ops!(Uint9, u16, u32, any_u16, |_, _| true),
        2 => small_ops!(Uint12, u16, u32, any_u16, |_, _| true),
        _ => small_ops!(Uint15, u16, u32, any_u16, |_, _| true),
    }
}
fn nu_ops_56() {
    small_ops!(VarUint56, u64, u128, any_u64, |_, y: u64| if pick(1, "high") == 0 { y < 64 } else { y << 4 == 0 })
}
fn nu_ops_tokens() {
    let (x, y) = (any_u128("x"), any_u128("y"));
    let (a, b) = (Tokens::new(x), Tokens::new(y));
    let max = (1u128 << 120) - 1;
    check(Tokens::MAX.into_inner() == max, "maximum");
    check(a.is_valid() == (x <= max), "validity");
    let fit = |v: Option<u128>| v.filter(|v| *v <= max);
    let (s, over) = (x.wrapping_add(y), x > !y);
    let sum = if over { None } else { Some(s) };
    let sub = if x >= y { Some(x.wrapping_sub(y)) } else { None };
    let val = |v: Option<Tokens>| v.map(|v| v.into_inner());
    check(val(a.checked_add(b)) == fit(sum), "checked sum");
    check(a.saturating_add(b).into_inner() == fit(sum).unwrap_or(max), "saturating sum");
    check(val(a.checked_sub(b)) == fit(sub), "checked difference");
    check(a.saturating_sub(b).into_inner() == match sub { Some(v) => fit(Some(v)).unwrap_or(max), None => 0 }, "saturating difference");
    match Tokens::try_from(x) {
        Ok(v) => check(x <= max && v.into_inner() == x, "conversion in"),
        Err(_) => check(x > max, "conversion refused only above the maximum"),
    }
    check((a < b) == (x < y) && (a == b) == (x == y), "order");
    if fit(sum).is_some() {
        check((a + b).into_inner() == s && (a + y).into_inner() == s, "sum");
        reach("sum");
    }
    if let Some(sub) = sub {
        check((a - b).into_inner() == sub && (a - y).into_inner() == sub, "difference");
    }
    try_ops!(VarUint56, any_u64);
}
fn nu_div_small() {
    // by constants; the dividend is arbitrary
    macro_rules! t {
        ($t:ident, $any:ident, $inner:ty) => {{
            let x = $any("x");
            let y = [0 as $inner, 1, 2, 3, 7, 10, 256, 300][pick(7, "y") as usize];
            match $t::new(x).checked_div($t::new(y)) {
                None => check(y == 0 || x / y > $t::MAX.into_inner(), "a quotient that fits is computed"),
                Some(q) => {
                    check(q.is_valid() && q.into_inner() == x / y, "quotient");
                    check(($t::new(x) / $t::new(y)) == q && ($t::new(x) / y) == q, "quotient");
                    reach("quotient");
                }
            }
            let mut c = $t::new(x);
            match c.try_div_assign($t::new(y)) {
                Ok(()) => check(Some(c) == $t::new(x).checked_div($t::new(y)), "assigned"),
                Err(_) => check(c.into_inner() == x, "a failed division keeps the value"),
            }
        }};
    }
    match pick(2, "type") {
        0 => t!(VarUint24, any_u32, u32),
        1 => t!(VarUint56, any_u64, u64),
        _ => t!(Tokens, any_u128, u128),
    }
}
fn nu_mul_tokens() {
    // 8 arbitrary bits times a constant, both orders
    let (_, x) = window(8, 8);
    let (_, k) = constant(pick(6, "k"));
    let p = W::of(0, x).times(0, k);
    let max = (1u128 << 120) - 1;
    let fits = p.top_zero(120);
    for (a, b) in [(x, k), (k, x)] {
        let r = Tokens::new(a).checked_mul(Tokens::new(b));
        check(r.is_some() == fits, "a product that fits is computed");
        if let Some(v) = r {
            check(v.into_inner() == p.low().1, "product");
            reach("product");
        }
        let s = Tokens::new(a).saturating_mul(Tokens::new(b)).into_inner();
        check(s == if fits { p.low().1 } else { max }, "saturating product");
    }
}
fn nu_248_add() {
    let (a, b) = (any_248("a"), any_248("b"));
    let (wa, wb) = (W::v(&a), W::v(&b));
    check(a.is_valid() == wa.top_zero(248), "validity");
    check(a.is_zero() == wa.top_zero(0), "zero");
    check((a < b) == wa.lt(&wb) && (a == b) == (wa == wb), "order");
    let s = wa.add(&wb);
    let fits = s.top_zero(248);
    let r = a.checked_add(&b);
    check(r.is_some() == fits, "checked sum exists exactly if it fits");
    if let Some(r) = r {
        check(W::v(&r) == s, "checked sum");
        reach("sum");
    }
    let sat = a.saturating_add(&b);
    check(if fits { W::v(&sat) == s } else { sat == VarUint248::MAX }, "saturating sum");
    let want = s.low();
    check((a + b).into_words() == want && (a + &b).into_words() == want, "sum");
    let mut c = a;
    c += &b;
    check(c.into_words() == want, "sum assigned");
    let (_, bl) = b.into_words();
    check((a + bl).into_words() == wa.add(&W::of(0, bl)).low(), "sum with a primitive");
    check((a == bl) == (a.into_words() == (0, bl)) && (a < bl) == wa.lt(&W::of(0, bl)), "compared with a primitive");
}
fn nu_248_sub() {
    let (a, b) = (any_248("a"), any_248("b"));
    let (wa, wb) = (W::v(&a), W::v(&b));
    let (d, neg) = wa.sub(&wb);
    let r = a.checked_sub(&b);
    check(r.is_some() == (!neg && d.top_zero(248)), "checked difference exists exactly if it fits");
    if let Some(r) = r {
        check(W::v(&r) == d, "checked difference");
        reach("difference");
    }
    let sat = a.saturating_sub(&b);
    check(if neg { sat.is_zero() } else if d.top_zero(248) { W::v(&sat) == d } else { sat == VarUint248::MAX }, "saturating difference");
    check((a - b).into_words() == d.low() && (a - &b).into_words() == d.low(), "difference");
    let mut c = a;
    c -= &b;
    check(c.into_words() == d.low(), "difference assigned");
    let (_, bl) = b.into_words();
    check((a - bl).into_words() == wa.sub(&W::of(0, bl)).0.low(), "difference with a primitive");
    check(VarUint248::MAX.into_words() == (u128::MAX >> 8, u128::MAX), "maximum");
    check(VarUint248::MIN.is_zero() && VarUint248::ZERO.is_zero() && VarUint248::ONE.into_words() == (0, 1), "minimum");
}
fn nu_248_shift() {
    let a = any_248("a");
    let n = pick(255, "n") as usize;
    let mut m = Bits::new();
    let (h, l) = a.into_words();
    m.uint(h, 128);
    m.uint(l, 128);
    let mut sl = Bits(m.0[n..].to_vec());
    sl.fill(0, n);
    let mut sr = Bits::zeros(n);
    sr.append(&m.0[..256 - n]);
    let f = |b: &Bits| (b.int(0, 128), b.int(128, 256));
    check((a << n).into_words() == f(&sl) && (a << n as u32).into_words() == f(&sl) && (a << n as i32).into_words() == f(&sl), "left shift");
    check((a >> n).into_words() == f(&sr) && (a >> n as u32).into_words() == f(&sr) && (a >> n as i32).into_words() == f(&sr), "right shift");
    reach("shift");
}
fn nu_248_lz() {
    let a = any_248("a");
    let w = W::v(&a);
    let n = a.leading_zeros();
    check(n <= 256 && w.top_zero(256 - n as usize), "leading bits are zero");
    let n = conc(n as u64) as usize;
    check(w.top_zero(256 - n), "leading bits are zero");
    if n < 256 {
        check(!w.top_zero(255 - n), "the next bit is one");
        reach("bit");
    }
}
fn nu_248_mul() {
    // 8 arbitrary bits times a constant, both orders
    let (ah, al) = window(16, 8);
    let a = VarUint248::from_words(ah, al);
    let i = pick(15, "k");
    assume(thorough() || [3, 5, 6, 8, 11, 12, 15].contains(&i));
    let (kh, kl) = constant(i);
    let k = VarUint248::from_words(kh, kl);
    let wa = W::v(&a);
    let p = wa.times(kh, kl);
    let fits = p.top_zero(248);
    let (x, y) = if pick(1, "swap") == 0 { (a, k) } else { (k, a) };
    check((x * y).into_words() == p.low() && (x * &y).into_words() == p.low(), "product");
    assume(a.is_valid());
    let r = x.checked_mul(&y);
    check(r.is_some() || !fits, "a product that fits is computed");
    if let Some(r) = r {
        check(W::v(&r) == p, "checked product");
        reach("product");
    }
    let s = x.saturating_mul(&y);
    if fits {
        check(W::v(&s) == p, "saturating product");
    } else if r.is_none() {
        check(s == VarUint248::MAX, "saturating product");
    }
}
fn nu_248_mul_max() {
    // 2^i * 2^j
    let (i, j) = (pick(127, "i"), 120 + pick(127, "j"));
    let (i, j) = if pick(1, "swap") == 0 { (i, j) } else { (j, i) };
    let r = (VarUint248::ONE << i as usize).checked_mul(&(VarUint248::ONE << j as usize));
    check(r.is_none() || i + j < 248, "a checked product is at most the maximum");
    reach("power");
}
fn nu_248_div() {
    // a few arbitrary bits among zeros or ones, divided by the constant k
    let i = pick(15, "k");
    assume(thorough() || [2, 6, 15].contains(&i));
    let (kh, kl) = constant(i);
    let k = VarUint248::from_words(kh, kl);
    let (ah, al) = window(16, if thorough() { 8 } else { 3 });
    let a = VarUint248::from_words(ah, al);
    let (q, r) = (W::v(&(a / k)), W::v(&(a % k)));
    check(r.lt(&W::v(&k)), "the remainder is smaller than the divisor");
    check(q.times(kh, kl).add(&r) == W::v(&a), "quotient and remainder");
    reach("division");
}
fn nu_dec_print() {
    // k arbitrary digits, optionally below a fixed run of digits
    let lead = ["", "1", "340282366920938463463374607431768211", "170141183460469231731687303715884105728999"][pick(3, "lead") as usize];
    let k = pick(if thorough() || lead.len() < 2 { 4 } else { 1 }, "k") as usize;
    let digits: [u8; 5] = any_bytes("digits");
    let mut text = Vec::from(lead.as_bytes());
    let mut v = W::of(0, 0);
    for c in lead.bytes() {
        v = v.shl(3).add(&v.shl(1)).add(&W::of(0, (c - b'0') as u128));
    }
    for i in 0..k {
        assume(digits[i] < 10);
        if i == 0 && lead.is_empty() && k > 1 {
            assume(digits[i] > 0);
        }
        text.push(b'0' + digits[i]);
        v = v.shl(3).add(&v.shl(1)).add(&W::of(0, digits[i] as u128));
    }
    assume(!text.is_empty());
    let (h, l) = v.low();
    let n = VarUint248::from_words(h, l);
    check(n.to_string().as_bytes() == &text[..], "printed");
    match std::str::from_utf8(&text).map(|s| s.parse::<VarUint248>()) {
        Ok(Ok(x)) => check(x == n, "parsed"),
        _ => check(false, "a decimal number parses"),
    }
    reach("print");
}
fn nu_radix() {
    // leading digits of every size, a run of equal digits, any last character
    let radix = [10u32, 16, 2, 8, 15, 17, 36][pick(if thorough() { 6 } else { 3 }, "radix") as usize];
    let digit = |d: u32| if d < 10 { b'0' + d as u8 } else { b'a' + (d - 10) as u8 };
    // the numbers of digits around 2^248 and 2^256
    let full = [75usize, 62, 248, 83, 64, 61, 48][[10u32, 16, 2, 8, 15, 17, 36].iter().position(|r| *r == radix).unwrap()];
    let n = [full - 1, full, full + 1, full + 2, full + 3, 3][pick(5, "length") as usize];
    let mut text = Vec::new();
    text.push(digit(pick(radix as u64 - 1, "first") as u32));
    let fill = digit([0, radix - 1][pick(1, "fill") as usize]);
    if radix == 10 && pick(1, "near") == 1 {
        // 2^248 = 452312848583266388373324160190187140051835877600158453279131187530910662656
        text.clear();
        text.extend_from_slice(b"45231284858326638837332416019018714005183587760015845327913118753091066265");
    } else {
        while text.len() + 1 < n {
            text.push(fill);
        }
    }
    let last = any_u8("last");
    assume(last < 128);
    text.push(last);
    let val = |c: u8| match c {
        b'0'..=b'9' => (c - b'0') as u32,
        b'a'..=b'z' => (c - b'a') as u32 + 10,
        b'A'..=b'Z' => (c - b'A') as u32 + 10,
        _ => 255,
    };
    let mut v = W::of(0, 0);
    for c in &text {
        v = v.times(0, radix as u128).add(&W::of(0, val(*c) as u128));
    }
    let ok = val(last) < radix && v.top_zero(248);
    let Ok(s) = std::str::from_utf8(&text) else { return };
    match VarUint248::from_str_radix(s, radix) {
        Ok(x) => {
            check(ok, "only numbers that fit parse");
            check(W::v(&x) == v, "parsed value");
            reach("parsed");
        }
        Err(_) => {
            check(!ok, "a number that fits parses");
            reach("refused");
        }
    }
}
fn nu_dec_parse() {
    // arbitrary bytes
    let n = pick(if thorough() { 6 } else { 4 }, "n") as usize;
    let d: [u8; 6] = any_bytes("d");
    let mut v = 0u128;
    let mut ok = n > 0;
    for i in 0..n {
        assume(d[i] < 128);
        if i == 0 && d[0] == b'+' {
            ok &= n > 1;
            continue;
        }
        let digit = d[i] >= b'0' && d[i] <= b'9';
        ok &= digit;
        v = v * 10 + (d[i].wrapping_sub(b'0')) as u128;
    }
    let Ok(s) = std::str::from_utf8(&d[..n]) else { return };
    match s.parse::<VarUint248>() {
        Ok(x) => {
            check(ok, "only decimal numbers parse");
            check(x.into_words() == (0, v), "parsed value");
            reach("parsed");
        }
        Err(_) => check(!ok, "decimal numbers parse"),
    }
}
}
