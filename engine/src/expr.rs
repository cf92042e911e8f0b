//! Hash-consed bit-vector expressions (width 1..=128) with eager simplification.
//! Every rewrite is an identity of fixed-width two's complement arithmetic.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy)]
pub struct Info {
    pub kz: u128,
    pub ko: u128,
    pub lo: u128,
    pub hi: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    /// Variables below a node, as a bit set of ids modulo 128.
    pub vmask: Vec<u128>,
    table: Vec<u32>,
    mask: usize,
    ext_memo: FxMap<(E, u16, u16), E>,
    vars_memo: FxMap<E, std::rc::Rc<Vec<u32>>>,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            CTX = Box::into_raw(Box::new(Ctx::new()));
        }
        &mut *CTX
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn hash_node(n: &Node) -> u64 {
    let mut h = Fx::default();
    h.write_u64(n.op as u64 | (n.w as u64) << 8 | (n.a as u64) << 32);
    h.write_u64(n.b as u64 | (n.c as u64) << 32);
    h.write_u64(n.k as u64);
    h.write_u64((n.k >> 64) as u64);
    let x = h.finish();
    x ^ (x >> 29)
}

impl Ctx {
    pub fn new() -> Self {
        let cap = 1 << 16;
        let mut c = Ctx {
            nodes: Vec::new(),
            info: Vec::new(),
            vmask: vec![0],
            table: vec![u32::MAX; cap],
            mask: cap - 1,
            ext_memo: Default::default(),
            vars_memo: Default::default(),
        };
        // node 0 is reserved so that 0 can mean "no expression"
        c.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 7 });
        c.info.push(Info { kz: 0, ko: 0, lo: 0, hi: 1 });
        c
    }

    fn raw(&mut self, n: Node) -> E {
        let h = hash_node(&n) as usize;
        let mut i = h & self.mask;
        loop {
            let t = self.table[i];
            if t == u32::MAX {
                break;
            }
            if self.nodes[t as usize] == n {
                return t;
            }
            i = (i + 1) & self.mask;
        }
        let id = self.nodes.len() as u32;
        let inf = self.compute_info(&n);
        self.nodes.push(n);
        self.info.push(inf);
        let vm = match n.op {
            Op::Var => 1u128 << (n.k & 127),
            Op::Const => 0,
            _ => self.vmask[n.a as usize] | self.vmask[n.b as usize] | self.vmask[n.c as usize],
        };
        self.vmask.push(vm);
        self.table[i] = id;
        if self.nodes.len() * 2 > self.table.len() {
            let cap = self.table.len() * 2;
            self.mask = cap - 1;
            self.table = vec![u32::MAX; cap];
            for (id, n) in self.nodes.iter().enumerate().skip(1) {
                let mut i = hash_node(n) as usize & self.mask;
                while self.table[i] != u32::MAX {
                    i = (i + 1) & self.mask;
                }
                self.table[i] = id as u32;
            }
        }
        id
    }

    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    #[inline]
    fn inf(&self, e: E) -> Info {
        self.info[e as usize]
    }

    fn compute_info(&self, n: &Node) -> Info {
        let w = n.w as u32;
        let m = mask(w);
        let mut kz = 0u128;
        let mut ko = 0u128;
        let mut lo = 0u128;
        let mut hi = m;
        let ia = |x: E| self.info[x as usize];
        match n.op {
            Op::Const => {
                return Info { kz: !n.k & m, ko: n.k, lo: n.k, hi: n.k };
            }
            Op::Var => {}
            Op::And => {
                let (a, b) = (ia(n.a), ia(n.b));
                kz = a.kz | b.kz;
                ko = a.ko & b.ko;
                hi = a.hi.min(b.hi);
            }
            Op::Or => {
                let (a, b) = (ia(n.a), ia(n.b));
                kz = a.kz & b.kz;
                ko = a.ko | b.ko;
                lo = a.lo.max(b.lo);
            }
            Op::Xor => {
                let (a, b) = (ia(n.a), ia(n.b));
                kz = (a.kz & b.kz) | (a.ko & b.ko);
                ko = (a.kz & b.ko) | (a.ko & b.kz);
            }
            Op::Not => {
                let a = ia(n.a);
                kz = a.ko;
                ko = a.kz;
                lo = !a.hi & m;
                hi = !a.lo & m;
            }
            Op::Add => {
                let (a, b) = (ia(n.a), ia(n.b));
                if let (Some(l), Some(h)) = (a.lo.checked_add(b.lo), a.hi.checked_add(b.hi)) {
                    if h <= m {
                        lo = l;
                        hi = h;
                    } else if l > m {
                        // both wrap exactly once
                        if w < 128 {
                            lo = l & m;
                            hi = h & m;
                            if lo > hi || h - l > m {
                                lo = 0;
                                hi = m;
                            }
                        }
                    }
                }
                // low bits: trailing zeros of both
                let tz = (!a.kz).trailing_zeros().min((!b.kz).trailing_zeros()).min(w);
                kz |= mask(tz);
            }
            Op::Sub => {
                let (a, b) = (ia(n.a), ia(n.b));
                if a.lo >= b.hi {
                    lo = a.lo - b.hi;
                    hi = a.hi - b.lo;
                }
                let tz = (!a.kz).trailing_zeros().min((!b.kz).trailing_zeros()).min(w);
                kz |= mask(tz);
            }
            Op::Mul => {
                let (a, b) = (ia(n.a), ia(n.b));
                if let Some(h) = a.hi.checked_mul(b.hi) {
                    if h <= m {
                        lo = a.lo * b.lo;
                        hi = h;
                    }
                }
                let tz = ((!a.kz).trailing_zeros() + (!b.kz).trailing_zeros()).min(w);
                kz |= mask(tz);
            }
            Op::UDiv => {
                let (a, b) = (ia(n.a), ia(n.b));
                if b.lo > 0 {
                    lo = a.lo / b.hi;
                    hi = a.hi / b.lo;
                }
            }
            Op::URem => {
                let (a, b) = (ia(n.a), ia(n.b));
                if b.lo > 0 {
                    hi = (b.hi - 1).min(a.hi);
                }
            }
            Op::Shl => {
                let (a, b) = (ia(n.a), ia(n.b));
                let tz = (!a.kz).trailing_zeros() as u128 + b.lo;
                kz |= mask(tz.min(w as u128) as u32);
            }
            Op::LShr => {
                let (a, b) = (ia(n.a), ia(n.b));
                if b.lo < w as u128 {
                    hi = a.hi >> b.lo;
                } else {
                    hi = 0;
                }
                if b.hi < w as u128 {
                    lo = a.lo >> b.hi;
                }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {}
            Op::Ite => {
                let (a, b) = (ia(n.b), ia(n.c));
                kz = a.kz & b.kz;
                ko = a.ko & b.ko;
                lo = a.lo.min(b.lo);
                hi = a.hi.max(b.hi);
            }
            Op::Concat => {
                let (a, b) = (ia(n.a), ia(n.b));
                let bw = self.w(n.b);
                kz = a.kz << bw | b.kz;
                ko = a.ko << bw | b.ko;
                lo = a.lo << bw | b.lo;
                hi = a.hi << bw | b.hi;
            }
            Op::Extract => {
                let a = ia(n.a);
                let l = n.k as u32;
                kz = (a.kz >> l) & m;
                ko = (a.ko >> l) & m;
                if (a.hi >> l) <= m {
                    lo = a.lo >> l;
                    hi = a.hi >> l;
                }
            }
            Op::ZExt => {
                let a = ia(n.a);
                kz = a.kz | (m & !mask(self.w(n.a)));
                ko = a.ko;
                lo = a.lo;
                hi = a.hi;
            }
            Op::SExt => {
                let a = ia(n.a);
                let aw = self.w(n.a);
                let top = m & !mask(aw);
                kz = a.kz;
                ko = a.ko;
                if a.kz >> (aw - 1) & 1 == 1 {
                    kz |= top;
                    lo = a.lo;
                    hi = a.hi;
                } else if a.ko >> (aw - 1) & 1 == 1 {
                    ko |= top;
                }
            }
            Op::AShr => {}
            Op::SDiv | Op::SRem => {}
        }
        kz &= m;
        ko &= m;
        // combine
        lo = lo.max(ko);
        hi = hi.min(m & !kz);
        // leading zeros from hi
        if hi < m {
            let lz = 128 - hi.leading_zeros();
            kz |= m & !mask(lz);
        }
        Info { kz, ko, lo, hi }
    }

    pub fn k(&mut self, w: u32, v: u128) -> E {
        self.raw(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, w: u32, id: u32) -> E {
        self.raw(Node { op: Op::Var, w: w as u16, a: 0, b: 0, c: 0, k: id as u128 })
    }
    pub fn tru(&mut self) -> E {
        self.k(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.k(1, 0)
    }

    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let e = self.raw(Node { op, w: w as u16, a, b, c, k });
        let i = self.inf(e);
        if op != Op::Const && i.lo == i.hi {
            return self.k(w, i.lo);
        }
        if op != Op::Const && (i.kz | i.ko) == mask(w) {
            return self.k(w, i.ko);
        }
        e
    }

    pub fn fold(op: Op, w: u32, a: u128, b: u128, bw: u32) -> u128 {
        let m = mask(w);
        match op {
            Op::Add => a.wrapping_add(b) & m,
            Op::Sub => a.wrapping_sub(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    (x.wrapping_div(y) as u128) & m
                }
            }
            Op::SRem => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    a
                } else {
                    (x.wrapping_rem(y) as u128) & m
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let x = sext128(a, w);
                ((if b >= w as u128 { x >> 127 } else { x >> b }) as u128) & m
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sext128(a, bw) < sext128(b, bw)) as u128,
            Op::Sle => (sext128(a, bw) <= sext128(b, bw)) as u128,
            Op::Concat => a << bw | b,
            _ => unreachable!(),
        }
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        match op {
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::UDiv => self.udiv(a, b),
            Op::URem => self.urem(a, b),
            Op::SDiv | Op::SRem => {
                let w = self.w(a);
                if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
                    return self.k(w, Self::fold(op, w, x, y, w));
                }
                self.mk(op, w, a, b, 0, 0)
            }
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Ule => self.ule(a, b),
            Op::Slt => self.slt(a, b),
            Op::Sle => self.sle(a, b),
            _ => unreachable!(),
        }
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.k(w, x.wrapping_add(y)),
            (Some(_), None) => return self.add(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                let n = self.n(a);
                if n.op == Op::Add {
                    if let Some(z) = self.cv(n.b) {
                        let c = self.k(w, y.wrapping_add(z));
                        return self.add(n.a, c);
                    }
                }
                if w == 1 {
                    return self.not(a);
                }
                return self.mk(Op::Add, w, a, b, 0, 0);
            }
            _ => {}
        }
        // push constants outward
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Add && self.cv(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add && self.cv(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        // (x - y) + y = x
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Op::Add, w, a, b, 0, 0)
    }

    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.k(w, 0);
        }
        if let Some(y) = self.cv(b) {
            let c = self.k(w, (!y).wrapping_add(1));
            return self.add(a, c);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Add && self.cv(na.b).is_some() {
            let s = self.sub(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add {
            if let Some(y) = self.cv(nb.b) {
                let s = self.sub(a, nb.a);
                let c = self.k(w, (!y).wrapping_add(1));
                return self.add(s, c);
            }
            if nb.a == a {
                let z = self.k(w, 0);
                return self.sub(z, nb.b);
            }
            if nb.b == a {
                let z = self.k(w, 0);
                return self.sub(z, nb.a);
            }
        }
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        // x - (x - y) = y
        if nb.op == Op::Sub && nb.a == a {
            return nb.b;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }

    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.k(w, x.wrapping_mul(y)),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) if y.is_power_of_two() => {
                let s = self.k(w, y.trailing_zeros() as u128);
                return self.shl(a, s);
            }
            (None, Some(y)) => {
                let n = self.n(a);
                if n.op == Op::Mul {
                    if let Some(z) = self.cv(n.b) {
                        let c = self.k(w, y.wrapping_mul(z));
                        return self.mul(n.a, c);
                    }
                }
                return self.mk(Op::Mul, w, a, b, 0, 0);
            }
            _ => {}
        }
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Op::Mul, w, a, b, 0, 0)
    }

    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.k(w, Self::fold(Op::UDiv, w, x, y, w)),
            (None, Some(1)) => return a,
            (None, Some(y)) if y.is_power_of_two() => {
                let s = self.k(w, y.trailing_zeros() as u128);
                return self.lshr(a, s);
            }
            (None, Some(y)) if y != 0 => {
                // narrow when the dividend is small
                let hi = self.inf(a).hi;
                let need = (128 - hi.leading_zeros()).max(128 - y.leading_zeros()).max(1);
                if need < w {
                    let x = self.extract(a, need - 1, 0);
                    let c = self.k(need, y);
                    let d = self.mk(Op::UDiv, need, x, c, 0, 0);
                    return self.zext(d, w);
                }
            }
            _ => {}
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.k(w, Self::fold(Op::URem, w, x, y, w)),
            (None, Some(y)) if y.is_power_of_two() => {
                let s = self.k(w, y - 1);
                return self.and(a, s);
            }
            (None, Some(y)) if y != 0 => {
                let hi = self.inf(a).hi;
                if hi < y {
                    return a;
                }
                let need = (128 - hi.leading_zeros()).max(128 - y.leading_zeros()).max(1);
                if need < w {
                    let x = self.extract(a, need - 1, 0);
                    let c = self.k(need, y);
                    let d = self.mk(Op::URem, need, x, c, 0, 0);
                    return self.zext(d, w);
                }
            }
            _ => {}
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let n = self.n(a);
        match n.op {
            Op::Const => self.k(w, !n.k),
            Op::Not => n.a,
            Op::Ult if w == 1 => self.ule(n.b, n.a),
            Op::Ule if w == 1 => self.ult(n.b, n.a),
            Op::Slt if w == 1 => self.sle(n.b, n.a),
            Op::Sle if w == 1 => self.slt(n.b, n.a),
            Op::Concat => {
                let x = self.not(n.a);
                let y = self.not(n.b);
                self.concat(x, y)
            }
            Op::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
                let x = self.not(n.b);
                let y = self.not(n.c);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Op::Not, w, a, 0, 0, 0),
        }
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.k(w, x & y),
            (Some(_), None) => return self.and(b, a),
            (None, Some(y)) => {
                if y == 0 {
                    return b;
                }
                let m = mask(w);
                if y == m {
                    return a;
                }
                let inf = self.inf(a);
                if (!inf.kz & m) & !y == 0 {
                    return a; // every possibly-set bit is kept
                }
                if (!inf.kz & m) & y == 0 {
                    return self.k(w, 0);
                }
                // contiguous mask -> extract + zero padding
                let lo = y.trailing_zeros();
                let t = y >> lo;
                if (t & t.wrapping_add(1)) == 0 {
                    let len = 128 - t.leading_zeros();
                    let x = self.extract(a, lo + len - 1, lo);
                    let x = if lo > 0 {
                        let z = self.k(lo, 0);
                        self.concat(x, z)
                    } else {
                        x
                    };
                    return self.zext(x, w);
                }
                let n = self.n(a);
                if n.op == Op::And {
                    if let Some(z) = self.cv(n.b) {
                        let c = self.k(w, y & z);
                        return self.and(n.a, c);
                    }
                }
                if n.op == Op::Concat {
                    return self.split_bitwise(Op::And, a, b);
                }
                if n.op == Op::ZExt {
                    let aw = self.w(n.a);
                    let c = self.k(aw, y);
                    let r = self.and(n.a, c);
                    return self.zext(r, w);
                }
                if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
                    let x = self.and(n.b, b);
                    let y = self.and(n.c, b);
                    return self.ite(n.a, x, y);
                }
                return self.mk(Op::And, w, a, b, 0, 0);
            }
            _ => {}
        }
        let (na, nb) = (self.n(a), self.n(b));
        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
            return self.k(w, 0);
        }
        if na.op == Op::And && (na.a == b || na.b == b) {
            return a;
        }
        if nb.op == Op::And && (nb.a == a || nb.b == a) {
            return b;
        }
        if w == 1 {
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return b;
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return a;
            }
        }
        let (ia, ib) = (self.inf(a), self.inf(b));
        let m = mask(w);
        if (!ia.kz & m) & (!ib.kz & m) == 0 {
            return self.k(w, 0);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b)
            || na.op == Op::Concat && nb.op == Op::ZExt
            || na.op == Op::ZExt && nb.op == Op::Concat
        {
            return self.split_bitwise(Op::And, a, b);
        }
        if na.op == Op::ZExt || nb.op == Op::ZExt {
            let (z, o) = if na.op == Op::ZExt { (na, b) } else { (nb, a) };
            let zw = self.w(z.a);
            let o2 = self.extract(o, zw - 1, 0);
            let r = self.and(z.a, o2);
            return self.zext(r, w);
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Op::And, w, a, b, 0, 0)
    }

    /// Apply a bitwise operator piecewise along the structure of whichever operand is a concat.
    fn split_bitwise(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        let at = if na.op == Op::Concat {
            self.w(na.b)
        } else if nb.op == Op::Concat {
            self.w(nb.b)
        } else if na.op == Op::ZExt {
            self.w(na.a)
        } else {
            self.w(nb.a)
        };
        let ah = self.extract(a, w - 1, at);
        let al = self.extract(a, at - 1, 0);
        let bh = self.extract(b, w - 1, at);
        let bl = self.extract(b, at - 1, 0);
        let h = self.bin(op, ah, bh);
        let l = self.bin(op, al, bl);
        self.concat(h, l)
    }

    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let m = mask(w);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.k(w, x | y),
            (Some(_), None) => return self.or(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == m => return b,
            (None, Some(y)) => {
                let i = self.inf(a);
                if y & !i.ko == 0 {
                    return a;
                }
                let n = self.n(a);
                if n.op == Op::Or {
                    if let Some(z) = self.cv(n.b) {
                        let c = self.k(w, y | z);
                        return self.or(n.a, c);
                    }
                }
                // split at the boundary of the constant's run of ones/zeros
                let lo = y.trailing_zeros();
                if lo > 0 {
                    let h = self.extract(a, w - 1, lo);
                    let l = self.extract(a, lo - 1, 0);
                    let c = self.k(w - lo, y >> lo);
                    let h2 = self.or(h, c);
                    return self.concat(h2, l);
                }
                let ones = (!y).trailing_zeros().min(w);
                if ones < w {
                    let h = self.extract(a, w - 1, ones);
                    let c = self.k(w - ones, y >> ones);
                    let h2 = self.or(h, c);
                    let l = self.k(ones, mask(ones));
                    return self.concat(h2, l);
                }
                return self.mk(Op::Or, w, a, b, 0, 0);
            }
            _ => {}
        }
        let (na, nb) = (self.n(a), self.n(b));
        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
            return self.k(w, m);
        }
        if na.op == Op::Or && (na.a == b || na.b == b) {
            return a;
        }
        if nb.op == Op::Or && (nb.a == a || nb.b == a) {
            return b;
        }
        if w == 1 {
            if na.op == Op::And && (na.a == b || na.b == b) {
                return b;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return a;
            }
        }
        if w > 1 {
            let (ia, ib) = (self.inf(a), self.inf(b));
            let (pa, pb) = (!ia.kz & m, !ib.kz & m); // possibly-set bits
            if pa & pb == 0 {
                // disjoint: if separated by a cut point, concat
                for (x, px, y, py) in [(a, pa, b, pb), (b, pb, a, pa)] {
                    let cut = px.trailing_zeros();
                    if cut > 0 && cut < w && py >> cut == 0 {
                        let h = self.extract(x, w - 1, cut);
                        let l = self.extract(y, cut - 1, 0);
                        return self.concat(h, l);
                    }
                }
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b)
                || na.op == Op::Concat && (nb.op == Op::ZExt || pa & pb == 0)
                || nb.op == Op::Concat && (na.op == Op::ZExt || pa & pb == 0)
                || na.op == Op::ZExt && nb.op == Op::ZExt
            {
                return self.split_bitwise(Op::Or, a, b);
            }
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Op::Or, w, a, b, 0, 0)
    }

    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.k(w, 0);
        }
        let m = mask(w);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.k(w, x ^ y),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == m => return self.not(a),
            (None, Some(y)) => {
                let n = self.n(a);
                if n.op == Op::Xor {
                    if let Some(z) = self.cv(n.b) {
                        let c = self.k(w, y ^ z);
                        return self.xor(n.a, c);
                    }
                }
                if n.op == Op::Concat {
                    return self.split_bitwise(Op::Xor, a, b);
                }
                return self.mk(Op::Xor, w, a, b, 0, 0);
            }
            _ => {}
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Not && nb.op == Op::Not {
            return self.xor(na.a, nb.a);
        }
        if na.op == Op::Not {
            let x = self.xor(na.a, b);
            return self.not(x);
        }
        if nb.op == Op::Not {
            let x = self.xor(a, nb.a);
            return self.not(x);
        }
        if na.op == Op::Xor && na.a == b {
            return na.b;
        }
        if na.op == Op::Xor && na.b == b {
            return na.a;
        }
        if nb.op == Op::Xor && nb.a == a {
            return nb.b;
        }
        if nb.op == Op::Xor && nb.b == a {
            return nb.a;
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b)
            || na.op == Op::ZExt && nb.op == Op::ZExt
        {
            return self.split_bitwise(Op::Xor, a, b);
        }
        let (ia, ib) = (self.inf(a), self.inf(b));
        if (!ia.kz & m) & (!ib.kz & m) == 0 {
            return self.or(a, b);
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Op::Xor, w, a, b, 0, 0)
    }

    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.k(w, 0);
            }
            let s = s as u32;
            let x = self.extract(a, w - 1 - s, 0);
            let z = self.k(s, 0);
            return self.concat(x, z);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.k(w, 0);
            }
            let x = self.extract(a, w - 1, s as u32);
            return self.zext(x, w);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            let s = s.min(w as u128 - 1) as u32;
            let x = self.extract(a, w - 1, s);
            return self.sext(x, w);
        }
        if self.inf(a).kz >> (w - 1) & 1 == 1 {
            return self.lshr(a, b);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        debug_assert!(aw < w, "zext {} to {}", aw, w);
        match n.op {
            Op::Const => self.k(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Op::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        if n.op == Op::Const {
            return self.k(w, sext128(n.k, aw) as u128);
        }
        if self.inf(a).kz >> (aw - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        if self.w(a) == w {
            return a;
        }
        self.extract(a, w - 1, 0)
    }

    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        debug_assert!(hi < aw && lo <= hi, "extract {hi}:{lo} of {aw}");
        if lo == 0 && hi + 1 == aw {
            return a;
        }
        let w = hi - lo + 1;
        {
            let i = self.inf(a);
            let m = mask(w);
            let z = (i.kz >> lo) & m;
            let o = (i.ko >> lo) & m;
            if z | o == m {
                return self.k(w, o);
            }
        }
        match n.op {
            Op::Const => return self.k(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, hi + n.k as u32, lo + n.k as u32),
            Op::Concat => {
                let bw = self.w(n.b);
                if hi < bw {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= bw {
                    return self.extract(n.a, hi - bw, lo - bw);
                }
                let h = self.extract(n.a, hi - bw, 0);
                let l = self.extract(n.b, bw - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.k(w, 0);
                }
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                let x = self.extract(n.a, iw - 1, lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo < iw {
                    let x = self.extract(n.a, iw - 1, lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, iw - 1, iw - 1);
                return self.sext(x, w);
            }
            _ => {}
        }
        if let Some(r) = self.ext_memo.get(&(a, hi as u16, lo as u16)) {
            return *r;
        }
        let r = match n.op {
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                self.bin(n.op, x, y)
            }
            Op::Not => {
                let x = self.extract(n.a, hi, lo);
                self.not(x)
            }
            Op::Ite => {
                let x = self.extract(n.b, hi, lo);
                let y = self.extract(n.c, hi, lo);
                self.ite(n.a, x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                self.bin(n.op, x, y)
            }
            Op::Add | Op::Sub | Op::Mul if hi + 1 < aw => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                let s = self.bin(n.op, x, y);
                if self.n(s).op == n.op {
                    self.mk(Op::Extract, w, s, 0, 0, lo as u128)
                } else {
                    self.extract(s, hi, lo)
                }
            }
            _ => self.mk(Op::Extract, w, a, 0, 0, lo as u128),
        };
        self.ext_memo.insert((a, hi as u16, lo as u16), r);
        r
    }

    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let (aw, bw) = (na.w as u32, nb.w as u32);
        let w = aw + bw;
        assert!(w <= 128, "concat too wide: {w}");
        if na.op == Op::Const && nb.op == Op::Const {
            return self.k(w, na.k << bw | nb.k);
        }
        if na.op == Op::Const && na.k == 0 {
            return self.zext(b, w);
        }
        if na.op == Op::ZExt {
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        if na.op == Op::Concat {
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k as u32 == nb.k as u32 + bw {
            return self.extract(na.a, na.k as u32 + aw - 1, nb.k as u32);
        }
        // adjacent low part being the whole of the same term
        if na.op == Op::Extract && na.a == b && na.k as u32 == bw {
            // cannot happen (b whole, extract above it)
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.concat(na.b, nb.b);
            let y = self.concat(na.c, nb.c);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Concat {
            let h = self.n(nb.a);
            let hw = h.w as u32;
            // merge a with head of b
            if na.op == Op::Const && h.op == Op::Const {
                let m = self.k(aw + hw, na.k << hw | h.k);
                return self.concat(m, nb.b);
            }
            if na.op == Op::Extract && h.op == Op::Extract && na.a == h.a && na.k as u32 == h.k as u32 + hw {
                let m = self.extract(na.a, na.k as u32 + aw - 1, h.k as u32);
                return self.concat(m, nb.b);
            }
            if na.op == Op::Ite && h.op == Op::Ite && na.a == h.a {
                let x = self.concat(na.b, h.b);
                let y = self.concat(na.c, h.c);
                let m = self.ite(na.a, x, y);
                return self.concat(m, nb.b);
            }
        }
        self.mk(Op::Concat, w, a, b, 0, 0)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ia, ib) = (self.inf(a), self.inf(b));
        if ia.hi < ib.lo || ib.hi < ia.lo || (ia.kz & ib.ko) != 0 || (ia.ko & ib.kz) != 0 {
            return self.fls();
        }
        if self.cv(a).is_some() {
            if self.cv(b).is_some() {
                return self.fls();
            }
            return self.eq(b, a);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const {
            let y = nb.k;
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::ZExt => {
                    let iw = self.w(na.a);
                    if y > mask(iw) {
                        return self.fls();
                    }
                    let c = self.k(iw, y);
                    return self.eq(na.a, c);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    if sext128(y & mask(iw), iw) as u128 & mask(w) != y {
                        return self.fls();
                    }
                    let c = self.k(iw, y);
                    return self.eq(na.a, c);
                }
                Op::Concat => {
                    let bw = self.w(na.b);
                    let ch = self.k(w - bw, y >> bw);
                    let cl = self.k(bw, y);
                    let h = self.eq(na.a, ch);
                    let l = self.eq(na.b, cl);
                    return self.and(h, l);
                }
                Op::Add => {
                    if let Some(z) = self.cv(na.b) {
                        let c = self.k(w, y.wrapping_sub(z));
                        return self.eq(na.a, c);
                    }
                }
                Op::Sub => {
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(z) = self.cv(na.a) {
                        let c = self.k(w, z.wrapping_sub(y));
                        return self.eq(na.b, c);
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.cv(na.b) {
                        let c = self.k(w, y ^ z);
                        return self.eq(na.a, c);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Not => {
                    let c = self.k(w, !y);
                    return self.eq(na.a, c);
                }
                Op::Ite => {
                    let (t, f) = (self.cv(na.b), self.cv(na.c));
                    if t.is_some() || f.is_some() {
                        let x = self.eq(na.b, b);
                        let z = self.eq(na.c, b);
                        return self.ite(na.a, x, z);
                    }
                }
                _ => {}
            }
        } else {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (x, y) = (self.w(na.a), self.w(nb.a));
                let m = x.max(y);
                let p = self.zext(na.a, m);
                let q = self.zext(nb.a, m);
                return self.eq(p, q);
            }
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat || nb.op == Op::Concat {
                let at = if na.op == Op::Concat { self.w(na.b) } else { self.w(nb.b) };
                let ah = self.extract(a, w - 1, at);
                let al = self.extract(a, at - 1, 0);
                let bh = self.extract(b, w - 1, at);
                let bl = self.extract(b, at - 1, 0);
                // only split when it exposes structure on both sides
                if nb.op == Op::Concat && na.op == Op::Concat
                    || nb.op == Op::ZExt
                    || na.op == Op::ZExt
                {
                    let h = self.eq(ah, bh);
                    let l = self.eq(al, bl);
                    return self.and(h, l);
                }
            }
            if na.op == Op::Add && nb.op == Op::Add {
                if na.b == nb.b {
                    return self.eq(na.a, nb.a);
                }
                if na.a == nb.a {
                    return self.eq(na.b, nb.b);
                }
            }
            if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
                let x = self.eq(na.b, nb.b);
                let y = self.eq(na.c, nb.c);
                return self.ite(na.a, x, y);
            }
            if na.op == Op::Ite && (na.b == b || na.c == b) {
                let x = self.eq(na.b, b);
                let y = self.eq(na.c, b);
                return self.ite(na.a, x, y);
            }
            if nb.op == Op::Ite && (nb.b == a || nb.c == a) {
                let x = self.eq(nb.b, a);
                let y = self.eq(nb.c, a);
                return self.ite(nb.a, x, y);
            }
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
        }
        let (a, b) = if nb.op != Op::Const && a > b { (b, a) } else { (a, b) };
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        let (ia, ib) = (self.inf(a), self.inf(b));
        if ia.hi < ib.lo {
            return self.tru();
        }
        if ia.lo >= ib.hi {
            return self.fls();
        }
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if w == 1 {
            let x = self.not(a);
            return self.and(x, b);
        }
        if nb.op == Op::Const {
            if nb.k == 1 {
                let z = self.k(w, 0);
                return self.eq(a, z);
            }
            if nb.k == mask(w) {
                return self.ne(a, b);
            }
            if na.op == Op::ZExt {
                let iw = self.w(na.a);
                // nb.k <= ia.hi <= mask(iw) here
                let c = self.k(iw, nb.k);
                return self.ult(na.a, c);
            }
            if na.op == Op::Concat {
                let bw = self.w(na.b);
                if nb.k & mask(bw) == 0 {
                    let c = self.k(w - bw, nb.k >> bw);
                    return self.ult(na.a, c);
                }
            }
            if na.op == Op::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
                let x = self.ult(na.b, b);
                let y = self.ult(na.c, b);
                return self.ite(na.a, x, y);
            }
        } else if na.op == Op::Const {
            if na.k == 0 {
                return self.ne(b, a);
            }
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                let c = self.k(iw, na.k);
                return self.ult(c, nb.a);
            }
            if nb.op == Op::Concat {
                let bw = self.w(nb.b);
                if na.k & mask(bw) == mask(bw) {
                    let c = self.k(w - bw, na.k >> bw);
                    return self.ult(c, nb.a);
                }
            }
            if nb.op == Op::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
                let x = self.ult(a, nb.b);
                let y = self.ult(a, nb.c);
                return self.ite(nb.a, x, y);
            }
        } else if na.op == Op::ZExt && nb.op == Op::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            let p = self.zext(na.a, m);
            let q = self.zext(nb.a, m);
            return self.ult(p, q);
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let (ia, ib) = (self.inf(a), self.inf(b));
        if ia.hi <= ib.lo {
            return self.tru();
        }
        if ia.lo > ib.hi {
            return self.fls();
        }
        let w = self.w(a);
        // a <= c  <=>  a < c+1 ; c <= b <=> c-1 < b
        if let Some(c) = self.cv(b) {
            let k = self.k(w, c + 1);
            return self.ult(a, k);
        }
        if let Some(c) = self.cv(a) {
            let k = self.k(w, c - 1);
            return self.ult(k, b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if w == 1 {
            let x = self.not(a);
            return self.or(x, b);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            let p = self.zext(na.a, m);
            let q = self.zext(nb.a, m);
            return self.ule(p, q);
        }
        self.mk(Op::Ule, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.k(1, Self::fold(Op::Slt, 1, x, y, w));
        }
        if a == b {
            return self.fls();
        }
        let (ia, ib) = (self.inf(a), self.inf(b));
        let s = 1u128 << (w - 1);
        if ia.kz & s != 0 && ib.kz & s != 0 {
            return self.ult(a, b);
        }
        if ia.ko & s != 0 && ib.ko & s != 0 {
            return self.ult(a, b);
        }
        if ia.kz & s != 0 && ib.ko & s != 0 {
            return self.fls();
        }
        if ia.ko & s != 0 && ib.kz & s != 0 {
            return self.tru();
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, w - 1);
        }
        if self.cv(a) == Some(mask(w)) {
            let x = self.extract(b, w - 1, w - 1);
            return self.not(x);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.k(1, Self::fold(Op::Sle, 1, x, y, w));
        }
        if a == b {
            return self.tru();
        }
        let (ia, ib) = (self.inf(a), self.inf(b));
        let s = 1u128 << (w - 1);
        if ia.kz & s != 0 && ib.kz & s != 0 || ia.ko & s != 0 && ib.ko & s != 0 {
            return self.ule(a, b);
        }
        if ia.kz & s != 0 && ib.ko & s != 0 {
            return self.fls();
        }
        if ia.ko & s != 0 && ib.kz & s != 0 {
            return self.tru();
        }
        if self.cv(a) == Some(0) {
            let x = self.extract(b, w - 1, w - 1);
            return self.not(x);
        }
        if self.cv(b) == Some(mask(w)) {
            return self.extract(a, w - 1, w - 1);
        }
        self.mk(Op::Sle, 1, a, b, 0, 0)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.cv(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let x = self.not(c);
                    return self.and(x, b);
                }
                (None, Some(1)) => {
                    let x = self.not(c);
                    return self.or(x, a);
                }
                (None, Some(0)) => return self.and(c, a),
                _ => {}
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite {
            if na.a == c {
                return self.ite(c, na.b, b);
            }
            if na.c == b {
                // ite(c, ite(d, x, b), b)
                let cd = self.and(c, na.a);
                return self.ite(cd, na.b, b);
            }
        }
        if nb.op == Op::Ite {
            if nb.a == c {
                return self.ite(c, a, nb.c);
            }
            if nb.b == a {
                let cd = self.or(c, nb.a);
                return self.ite(cd, a, nb.c);
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        if na.op == Op::ZExt && nb.op == Op::Const && nb.k <= mask(self.w(na.a)) {
            let iw = self.w(na.a);
            let kk = self.k(iw, nb.k);
            let x = self.ite(c, na.a, kk);
            return self.zext(x, w);
        }
        if nb.op == Op::ZExt && na.op == Op::Const && na.k <= mask(self.w(nb.a)) {
            let iw = self.w(nb.a);
            let kk = self.k(iw, na.k);
            let x = self.ite(c, kk, nb.a);
            return self.zext(x, w);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    /// The set of variables an expression depends on (sorted).
    pub fn vars(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vars_memo.get(&e) {
            return v.clone();
        }
        let mut seen: FxSet<E> = Default::default();
        let mut out: Vec<u32> = vec![];
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.n(x);
            match n.op {
                Op::Var => out.push(n.k as u32),
                Op::Const => {}
                _ => {
                    st.push(n.a);
                    if n.b != 0 {
                        st.push(n.b)
                    }
                    if n.c != 0 {
                        st.push(n.c)
                    }
                }
            }
        }
        out.sort_unstable();
        let r = std::rc::Rc::new(out);
        self.vars_memo.insert(e, r.clone());
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            _ if depth == 0 => format!("#{}", e),
            Op::Extract => format!("{}[{}:{}]", self.show(n.a, depth - 1), n.k as u32 + n.w as u32 - 1, n.k),
            _ => {
                let mut s = format!("({:?}:{} {}", n.op, n.w, self.show(n.a, depth - 1));
                if n.b != 0 {
                    s += &format!(" {}", self.show(n.b, depth - 1));
                }
                if n.c != 0 {
                    s += &format!(" {}", self.show(n.c, depth - 1));
                }
                s + ")"
            }
        }
    }
}

/// A (partial) assignment of the input variables; missing variables are 0.
#[derive(Default)]
pub struct Model {
    pub vals: FxMap<u32, u128>,
    memo: std::cell::RefCell<FxMap<E, u128>>,
}

impl Model {
    pub fn with(vals: FxMap<u32, u128>) -> Model {
        Model { vals, memo: Default::default() }
    }
    pub fn eval(&self, e: E) -> u128 {
        let c = cx();
        let n = c.n(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return self.vals.get(&(n.k as u32)).copied().unwrap_or(0),
            _ => {}
        }
        let mut memo = self.memo.borrow_mut();
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let mut st: Vec<E> = vec![e];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = c.n(x);
            let w = n.w as u32;
            let get = |m: &FxMap<E, u128>, y: E| -> Option<u128> {
                let q = c.n(y);
                match q.op {
                    Op::Const => Some(q.k),
                    Op::Var => Some(self.vals.get(&(q.k as u32)).copied().unwrap_or(0)),
                    _ => m.get(&y).copied(),
                }
            };
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => self.vals.get(&(n.k as u32)).copied().unwrap_or(0),
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => {
                    let Some(a) = get(&memo, n.a) else {
                        st.push(n.a);
                        continue;
                    };
                    match n.op {
                        Op::Not => !a & mask(w),
                        Op::Extract => (a >> (n.k as u32)) & mask(w),
                        Op::ZExt => a,
                        _ => sext128(a, c.w(n.a)) as u128 & mask(w),
                    }
                }
                Op::Ite => {
                    let Some(cc) = get(&memo, n.a) else {
                        st.push(n.a);
                        continue;
                    };
                    let t = if cc == 1 { n.b } else { n.c };
                    let Some(v) = get(&memo, t) else {
                        st.push(t);
                        continue;
                    };
                    v
                }
                _ => {
                    let a = get(&memo, n.a);
                    let b = get(&memo, n.b);
                    match (a, b) {
                        (Some(a), Some(b)) => {
                            let bw = if n.op == Op::Concat { c.w(n.b) } else { c.w(n.a) };
                            Ctx::fold(n.op, w, a, b, bw)
                        }
                        _ => {
                            if a.is_none() {
                                st.push(n.a)
                            }
                            if b.is_none() {
                                st.push(n.b)
                            }
                            continue;
                        }
                    }
                }
            };
            memo.insert(x, v);
            st.pop();
        }
        memo[&e]
    }
}
