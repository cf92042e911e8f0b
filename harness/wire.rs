// Wire model: an expected TL-B encoding written down independently of the crate, and the
// generic store/load checks against it.
#[derive(Clone)]
pub enum R {
    C(Cell),
    S(W),
}
#[derive(Clone, Default)]
pub struct W {
    pub b: Bits,
    pub r: Vec<R>,
}
#[allow(dead_code)]
impl W {
    pub fn new() -> W {
        W::default()
    }
    pub fn bit(&mut self, v: bool) -> &mut W {
        self.b.0.push(v as u8);
        self
    }
    pub fn u(&mut self, v: u128, n: usize) -> &mut W {
        self.b.uint(v, n);
        self
    }
    pub fn by(&mut self, b: &[u8], n: usize) -> &mut W {
        self.b.bytes(b, n);
        self
    }
    pub fn cell(&mut self, c: &Cell) -> &mut W {
        self.r.push(R::C(c.clone()));
        self
    }
    pub fn sub(&mut self, w: W) -> &mut W {
        self.r.push(R::S(w));
        self
    }
    pub fn join(&mut self, w: &W) -> &mut W {
        self.b.append(&w.b.0);
        self.r.extend(w.r.iter().cloned());
        self
    }
    /// A variable length integer of exactly `bytes` significant bytes.
    pub fn vu(&mut self, v: u128, bytes: usize, len_bits: usize) -> &mut W {
        self.u(bytes as u128, len_bits).u(v, bytes * 8)
    }
    pub fn opt_cell(&mut self, c: &Option<Cell>) -> &mut W {
        self.bit(c.is_some());
        if let Some(c) = c {
            self.cell(c);
        }
        self
    }
    pub fn fits(&self) -> bool {
        self.b.len() <= 1023 && self.r.len() <= 4
    }
    pub fn builder(&self) -> CellBuilder {
        let mut b = CellBuilder::new();
        let n = self.b.len();
        let mut raw = Vec::with_capacity(128);
        for i in 0..n.div_ceil(8) {
            raw.push(self.b.byte(i));
        }
        must(b.store_raw(&raw, n as u16), "wire model does not fit");
        for r in &self.r {
            let c = match r {
                R::C(c) => c.clone(),
                R::S(w) => w.build(),
            };
            must(b.store_reference(c), "wire model does not fit");
        }
        b
    }
    pub fn build(&self) -> Cell {
        must(self.builder().build(), "wire model")
    }
    /// Exactly this encoding, nothing else.
    pub fn check(&self, c: &DynCell, msg: &'static str) {
        check(c.bit_len() as usize == self.b.len(), msg);
        check(c.reference_count() as usize == self.r.len(), msg);
        let (n, raw) = (self.b.len(), c.data());
        check(raw.len() == n.div_ceil(8), msg);
        let mut diff = 0;
        for i in 0..raw.len() {
            // the last byte may carry a completion tag
            let mask = if i * 8 + 8 > n { 0xffu8 << (i * 8 + 8 - n) } else { 0xff };
            diff |= (raw[i] ^ self.b.byte(i)) & mask;
        }
        check(diff == 0, msg);
        for (i, r) in self.r.iter().enumerate() {
            let ch = must(c.reference(i as u8).ok_or(()), msg);
            match r {
                R::C(e) => check(core::ptr::eq(ch, e.as_ref()) || ch == e.as_ref(), msg),
                R::S(w) => w.check(ch, msg),
            }
        }
    }
}

fn must<T, E>(r: Result<T, E>, msg: &'static str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => {
            check(false, msg);
            assume(false);
            unreachable!()
        }
    }
}

/// A token amount of 0, 1, 8 or 15 bytes (arbitrary within the length, with the top bit set if TOP).
#[allow(dead_code)]
fn any_tokens(w: &mut W, name: &'static str) -> Tokens {
    let n = [0usize, 1, 15, 8][pick(if thorough() { 3 } else { 2 }, name) as usize];
    any_tokens_n(w, n, name)
}
#[allow(dead_code)]
fn any_tokens_n(w: &mut W, n: usize, name: &'static str) -> Tokens {
    let v = if n == 0 {
        0
    } else {
        let v = any_u128(name) & (u128::MAX >> (128 - 8 * n));
        assume(if TOP { v >> (8 * n - 1) == 1 } else { v >> (8 * (n - 1)) != 0 });
        v
    };
    w.vu(v, n, 4);
    Tokens::new(v)
}
/// A small distinct cell.
#[allow(dead_code)]
fn tiny(tag: u8) -> Cell {
    let mut b = CellBuilder::new();
    must(b.store_u8(tag), "tiny");
    must(b.build(), "tiny")
}

/// `v` is stored as `w` (or refused when `w` does not fit) and `w` loads as `v`, leaving what follows.
#[allow(dead_code)]
fn wire<T: Store + for<'a> Load<'a> + PartialEq>(v: &T, w: &W) {
    wire_store(v, w);
    if w.fits() {
        let got: T = wire_load(w);
        check(got == *v, "a value loads as a different one");
    }
}
#[allow(dead_code)]
fn wire_store<T: Store>(v: &T, w: &W) {
    let c = CellBuilder::build_from(v);
    if !w.fits() {
        check(c.is_err(), "an oversized value is stored");
        return;
    }
    let c = must(c, "a value is not stored");
    w.check(c.as_ref(), "a value is stored differently");
}
#[allow(dead_code)]
fn wire_load<T: for<'a> Load<'a>>(w: &W) -> T {
    let mut x = w.clone();
    let room = x.b.len() < 1021;
    if room {
        x.u(0b101, 3);
    }
    let refs = x.r.len() < 4;
    if refs {
        x.cell(&tiny(0xee));
    }
    let c = x.build();
    let mut s = must(c.as_slice(), "slice");
    let v = must(T::load_from(&mut s), "a stored value does not load");
    check(s.size_bits() == if room { 3 } else { 0 }, "loading consumes a wrong number of bits");
    check(s.size_refs() == refs as u8, "loading consumes a wrong number of references");
    if room {
        check(s.get_small_uint(0, 3) == Ok(0b101), "loading leaves the wrong bits");
    }
    v
}
/// Every proper prefix of `w` (bits or references cut off) is refused.
#[allow(dead_code)]
fn wire_cut<T: for<'a> Load<'a>>(w: &W) {
    let n = w.b.len();
    let k = w.r.len();
    if any_bool("cut.refs") {
        if k == 0 {
            return;
        }
        let mut x = w.clone();
        x.r.truncate(pick(k as u64 - 1, "cut.at") as usize);
        let c = x.build();
        check(c.parse::<T>().is_err(), "an encoding with missing references is accepted");
    } else {
        if n == 0 {
            return;
        }
        let step = if thorough() { 1 } else { n.div_ceil(24) };
        let mut x = w.clone();
        x.b.0.truncate(n - 1 - pick(((n - 1) / step) as u64, "cut.at") as usize * step);
        let c = x.build();
        check(c.parse::<T>().is_err(), "a truncated encoding is accepted");
    }
}
/// Bits that are no encoding are refused.
#[allow(dead_code)]
fn wire_bad<T: for<'a> Load<'a>>(w: &W, msg: &'static str) {
    let c = w.build();
    check(c.parse::<T>().is_err(), msg);
}
