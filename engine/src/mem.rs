//! Byte-addressed object memory with copy-on-write sharing between path states.
use crate::expr::*;
use crate::range::Facts;
use std::rc::Rc;

pub const SHIFT: u32 = 20;
pub const SLOT: u64 = 1 << SHIFT;
pub const HEAP0: u64 = 0x1_0000_0000;
pub const STACK0: u64 = 0x4000_0000_0000;
pub const FUNC0: u64 = 0x2000_0000_0000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Const,
    Global,
    Heap,
    Stack,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub kind: Kind,
    pub align: u64,
    pub data: Vec<u8>,
    /// empty, or one entry per byte: 0 = concrete (see data), else `E | index << 32`:
    /// byte `index` of the wider term `E`
    pub sym: Vec<u64>,
    /// later writes at symbolic positions, oldest first; they override `data`/`sym`
    pub log: Vec<W>,
}

/// A write whose position or length is symbolic.  `lo..end` bounds the bytes it may touch.
#[derive(Clone)]
pub enum W {
    Store { off: E, n: u32, val: E, lo: u64, end: u64 },
    Copy { doff: E, len: E, src: Rc<Obj>, soff: E, lo: u64, end: u64 },
    Fill { off: E, len: E, b: E, lo: u64, end: u64 },
}

impl W {
    fn span(&self) -> (u64, u64) {
        match self {
            W::Store { lo, end, .. } | W::Copy { lo, end, .. } | W::Fill { lo, end, .. } => (*lo, *end),
        }
    }
    fn shift(&self, delta: u64) -> W {
        let c = cx();
        let k = c.k(64, delta as u128);
        let mut w = self.clone();
        match &mut w {
            W::Store { off, lo, end, .. } | W::Fill { off, lo, end, .. } => {
                *off = c.add(*off, k);
                *lo = lo.wrapping_add(delta);
                *end = end.wrapping_add(delta);
            }
            W::Copy { doff, lo, end, .. } => {
                *doff = c.add(*doff, k);
                *lo = lo.wrapping_add(delta);
                *end = end.wrapping_add(delta);
            }
        }
        w
    }
}

pub fn select_tree(fx: &Facts, off: E, max: u64, leaf: &mut dyn FnMut(u64) -> E) -> E {
    let c = cx();
    let inf = c.info[off as usize];
    let r = fx.range(off);
    let lo = (r.0.min(u64::MAX as u128) as u64).min(max);
    let hi = (r.1.min(u64::MAX as u128) as u64).min(max);
    if lo == hi {
        return leaf(lo);
    }
    fn go(off: E, inf: &Info, bit: i32, base: u64, lo: u64, hi: u64, leaf: &mut dyn FnMut(u64) -> E) -> Option<E> {
        // all candidate offsets share bits above `bit` with base
        let span = if bit < 0 { 0 } else { (1u64 << (bit + 1)) - 1 };
        if base > hi || base + span < lo {
            return None;
        }
        if bit < 0 {
            return Some(leaf(base));
        }
        let m = 1u128 << bit;
        if inf.kz & m != 0 {
            return go(off, inf, bit - 1, base, lo, hi, leaf);
        }
        if inf.ko & m != 0 {
            return go(off, inf, bit - 1, base | 1 << bit, lo, hi, leaf);
        }
        let z = go(off, inf, bit - 1, base, lo, hi, leaf);
        let o = go(off, inf, bit - 1, base | 1 << bit, lo, hi, leaf);
        match (z, o) {
            (Some(z), Some(o)) => {
                if z == o {
                    return Some(z);
                }
                let b = cx().extract(off, bit as u32, bit as u32);
                Some(cx().ite(b, o, z))
            }
            (x, None) => x,
            (None, x) => x,
        }
    }
    let bits = 64 - hi.leading_zeros() as i32;
    // bits above `bits` are zero for every in-range offset
    go(off, &inf, bits - 1, 0, lo, hi, leaf).unwrap_or_else(|| leaf(lo))
}

impl Obj {
    #[inline]
    pub fn overlaps(&self, lo: u64, end: u64) -> bool {
        self.log.iter().any(|w| {
            let (l, e) = w.span();
            l < end && lo < e
        })
    }
    /// Forgets logged writes that a complete overwrite of `lo..end` makes invisible.
    fn bury(&mut self, lo: u64, end: u64) {
        if !self.log.is_empty() {
            self.log.retain(|w| {
                let (l, e) = w.span();
                !(lo <= l && e <= end)
            });
        }
    }

    /// `n` bytes (n <= 16) at any offset.
    pub fn read(&self, fx: &Facts, off: E, n: u32) -> E {
        if let Some(k) = cx().cv(off) {
            let k = k as u64;
            if !self.overlaps(k, k.saturating_add(n as u64)) {
                return self.base(k, n);
            }
        }
        self.read_log(fx, off, n, self.log.len())
    }

    fn base(&self, k: u64, n: u32) -> E {
        if k.saturating_add(n as u64) > self.size() {
            return cx().k(n * 8, 0);
        }
        self.read_e(k as usize, n as usize)
    }

    fn read_log(&self, fx: &Facts, off: E, n: u32, top: usize) -> E {
        let c = cx();
        let r = fx.range(off);
        for t in (0..top).rev() {
            let w = &self.log[t];
            let (lo, end) = w.span();
            if r.1.saturating_add(n as u128) <= lo as u128 || r.0 >= end as u128 {
                continue;
            }
            match w {
                W::Store { off: wo, n: wn, val, .. } => {
                    let d = c.sub(off, *wo);
                    let dr = fx.range(d);
                    if dr.0 >= *wn as u128 && dr.1 <= (1u128 << 64) - n as u128 {
                        continue;
                    }
                    if let Some(k) = c.cv(d) {
                        if k + n as u128 <= *wn as u128 {
                            return c.extract(*val, (k as u32 + n) * 8 - 1, k as u32 * 8);
                        }
                    }
                    if n == 1 {
                        let mut e = self.read_log(fx, off, 1, t);
                        for j in 0..*wn {
                            let kj = c.k(64, j as u128);
                            let q = c.eq(d, kj);
                            let b = c.extract(*val, j * 8 + 7, j * 8);
                            e = match fx.truth(q) {
                                Some(true) => return b,
                                Some(false) => e,
                                None => c.ite(q, b, e),
                            };
                        }
                        return e;
                    }
                }
                W::Copy { doff: wo, len, .. } | W::Fill { off: wo, len, .. } => {
                    let d = c.sub(off, *wo);
                    let dr = fx.range(d);
                    let inr = c.ult(d, *len);
                    let tr = fx.truth(inr);
                    if tr == Some(false) && dr.1 <= (1u128 << 64) - n as u128 {
                        continue;
                    }
                    let whole = if n == 1 {
                        tr == Some(true)
                    } else {
                        tr == Some(true) && {
                            let k = c.k(64, n as u128 - 1);
                            let last = c.add(d, k);
                            let q = c.ult(last, *len);
                            fx.truth(q) == Some(true)
                        }
                    };
                    if whole || n == 1 {
                        let x = match w {
                            W::Copy { src, soff, .. } => {
                                let i = c.add(d, *soff);
                                src.read(fx, i, n)
                            }
                            W::Fill { b, .. } => {
                                let mut e = *b;
                                for _ in 1..n {
                                    e = c.concat(*b, e);
                                }
                                e
                            }
                            _ => unreachable!(),
                        };
                        if whole {
                            return x;
                        }
                        let rest = self.read_log(fx, off, 1, t);
                        return c.ite(inr, x, rest);
                    }
                }
            }
            // partial overlap: byte by byte
            let mut e = self.read_log(fx, off, 1, t + 1);
            for j in 1..n {
                let kj = c.k(64, j as u128);
                let oj = c.add(off, kj);
                let b = self.read_log(fx, oj, 1, t + 1);
                e = c.concat(b, e);
            }
            return e;
        }
        if let Some(k) = c.cv(off) {
            return self.base(k as u64, n);
        }
        if n as u64 > self.size() {
            return c.k(n * 8, 0);
        }
        select_tree(fx, off, self.size() - n as u64, &mut |i| self.read_e(i as usize, n as usize))
    }

    pub fn write(&mut self, fx: &Facts, off: E, n: u32, val: E) {
        let c = cx();
        if let Some(k) = c.cv(off) {
            let k = k as u64;
            let end = k + n as u64;
            self.bury(k, end);
            if !self.overlaps(k, end) {
                self.write_e(k as usize, n as usize, val);
            } else {
                self.log.push(W::Store { off, n, val, lo: k, end });
            }
            return;
        }
        let r = fx.range(off);
        let lo = r.0.min(self.size() as u128) as u64;
        let end = (r.1.saturating_add(n as u128)).min(self.size() as u128) as u64;
        if let Some(W::Store { off: o, n: m, .. }) = self.log.last() {
            if *o == off && *m <= n {
                self.log.pop();
            }
        }
        self.log.push(W::Store { off, n, val, lo, end });
    }

    pub fn copy_in(&mut self, fx: &Facts, doff: E, len: E, src: &Rc<Obj>, soff: E) {
        let c = cx();
        if let (Some(d), Some(n), Some(s)) = (c.cv(doff), c.cv(len), c.cv(soff)) {
            let (d, n, s) = (d as u64, n as u64, s as u64);
            self.bury(d, d + n);
            let inner = src.log.iter().all(|w| {
                let (l, e) = w.span();
                (s <= l && e <= s + n) || e <= s || l >= s + n
            });
            if inner && !self.overlaps(d, d + n) {
                let (ds, ss, nn) = (d as usize, s as usize, n as usize);
                self.data[ds..ds + nn].copy_from_slice(&src.data[ss..ss + nn]);
                if !src.sym.is_empty() {
                    if self.sym.is_empty() {
                        self.sym = vec![0; self.data.len()];
                    }
                    self.sym[ds..ds + nn].copy_from_slice(&src.sym[ss..ss + nn]);
                } else if !self.sym.is_empty() {
                    self.sym[ds..ds + nn].iter_mut().for_each(|x| *x = 0);
                }
                for w in &src.log {
                    let (l, e) = w.span();
                    if s <= l && e <= s + n {
                        self.log.push(w.shift(d.wrapping_sub(s)));
                    }
                }
                return;
            }
            if n <= 16 {
                let v = src.read(fx, soff, n as u32);
                self.write(fx, doff, n as u32, v);
                return;
            }
            self.log.push(W::Copy { doff, len, src: src.clone(), soff, lo: d, end: d + n });
            return;
        }
        let (lo, end) = self.touch(fx, doff, len);
        self.log.push(W::Copy { doff, len, src: src.clone(), soff, lo, end });
    }

    pub fn fill(&mut self, fx: &Facts, off: E, len: E, b: E) {
        let c = cx();
        if let (Some(k), Some(n)) = (c.cv(off), c.cv(len)) {
            let (k, n) = (k as u64, n as u64);
            self.bury(k, k + n);
            if !self.overlaps(k, k + n) {
                for j in k..k + n {
                    self.set_byte(j as usize, b);
                }
                return;
            }
        }
        let (lo, end) = self.touch(fx, off, len);
        self.log.push(W::Fill { off, len, b, lo, end });
    }

    fn touch(&self, fx: &Facts, off: E, len: E) -> (u64, u64) {
        let (r, l) = (fx.range(off), fx.range(len));
        let sz = self.size() as u128;
        let lo = r.0.min(sz) as u64;
        let end = r.1.saturating_add(l.1).min(sz) as u64;
        (lo, end)
    }

    pub fn size(&self) -> u64 {
        self.data.len() as u64
    }
    #[inline]
    pub fn is_conc(&self, off: usize, n: usize) -> bool {
        (self.sym.is_empty() || self.sym[off..off + n].iter().all(|e| *e == 0)) && (self.log.is_empty() || !self.overlaps(off as u64, (off + n) as u64))
    }
    fn base_conc(&self, off: usize, n: usize) -> bool {
        self.sym.is_empty() || self.sym[off..off + n].iter().all(|e| *e == 0)
    }
    fn byte(&self, i: usize) -> E {
        if !self.sym.is_empty() && self.sym[i] != 0 {
            let x = self.sym[i];
            let (e, j) = (x as u32, (x >> 32) as u32);
            cx().extract(e, j * 8 + 7, j * 8)
        } else {
            cx().k(8, self.data[i] as u128)
        }
    }
    fn set_byte(&mut self, i: usize, e: E) {
        match cx().cv(e) {
            Some(v) => {
                self.data[i] = v as u8;
                if !self.sym.is_empty() {
                    self.sym[i] = 0;
                }
            }
            None => {
                if self.sym.is_empty() {
                    self.sym = vec![0; self.data.len()];
                }
                self.sym[i] = e as u64;
            }
        }
    }
    /// little-endian integer of n <= 16 bytes
    fn read_e(&self, off: usize, n: usize) -> E {
        if self.base_conc(off, n) {
            let mut v = 0u128;
            for j in (0..n).rev() {
                v = v << 8 | self.data[off + j] as u128;
            }
            return cx().k(n as u32 * 8, v);
        }
        let c = cx();
        let s = &self.sym[off..off + n];
        // the whole of one term
        if s[0] != 0 && s[0] >> 32 == 0 && c.w(s[0] as u32) == n as u32 * 8 {
            let e = s[0] as u32;
            let inf = c.info[e as usize];
            let same = (0..n).all(|j| {
                if s[j] == 0 {
                    let sh = 8 * j;
                    (inf.kz | inf.ko) >> sh & 255 == 255 && (inf.ko >> sh) as u8 == self.data[off + j]
                } else {
                    s[j] == e as u64 | (j as u64) << 32
                }
            });
            if same {
                return e;
            }
        }
        // maximal runs
        let mut out: E = 0;
        let mut j = 0;
        while j < n {
            let mut k = j + 1;
            let part = if s[j] == 0 {
                c.k(8, self.data[off + j] as u128)
            } else {
                let e = s[j] as u32;
                let i0 = (s[j] >> 32) as u32;
                while k < n && s[k] == e as u64 | ((i0 as u64 + (k - j) as u64) << 32) {
                    k += 1;
                }
                c.extract(e, (i0 + (k - j) as u32) * 8 - 1, i0 * 8)
            };
            out = if out == 0 { part } else { c.concat(part, out) };
            j = k;
        }
        out
    }
    fn write_e(&mut self, off: usize, n: usize, e: E) {
        let c = cx();
        if let Some(v) = c.cv(e) {
            for j in 0..n {
                self.data[off + j] = (v >> (8 * j)) as u8;
            }
            if !self.sym.is_empty() {
                for j in 0..n {
                    self.sym[off + j] = 0;
                }
            }
            return;
        }
        if self.sym.is_empty() {
            self.sym = vec![0; self.data.len()];
        }
        let inf = c.info[e as usize];
        for j in 0..n {
            if (inf.kz | inf.ko) >> (8 * j) & 255 == 255 {
                self.data[off + j] = (inf.ko >> (8 * j)) as u8;
                self.sym[off + j] = 0;
            } else {
                self.sym[off + j] = e as u64 | (j as u64) << 32;
            }
        }
    }
}

type Page = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    pages: Vec<Rc<Page>>,
    next: u64,
    pub stack: Vec<Rc<Obj>>,
    pub heap_live: u64,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { pages: vec![], next: 0, stack: vec![], heap_live: 0 }
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind, fill: u8) -> Result<u64, String> {
        if size > SLOT - 4096 {
            return Err(format!("allocation of {size} bytes exceeds the engine's object limit"));
        }
        let idx = self.next;
        self.next += 1;
        let base = HEAP0 + (idx << SHIFT);
        let o = Obj { base, kind, align, data: vec![fill; size as usize], sym: vec![], log: vec![] };
        let pg = (idx >> 6) as usize;
        if pg >= self.pages.len() {
            self.pages.push(Rc::new(vec![None; 64]));
        }
        Rc::make_mut(&mut self.pages[pg])[(idx & 63) as usize] = Some(Rc::new(o));
        if kind == Kind::Heap {
            self.heap_live += 1;
        }
        Ok(base)
    }
    pub fn push_stack(&mut self, size: u64) -> u64 {
        let base = STACK0 + ((self.stack.len() as u64) << SHIFT);
        self.stack.push(Rc::new(Obj { base, kind: Kind::Stack, align: 16, data: vec![0xA5; size as usize], sym: vec![], log: vec![] }));
        base
    }
    pub fn pop_stack(&mut self, to: usize) {
        self.stack.truncate(to);
    }
    pub fn find(&self, addr: u64) -> Option<&Rc<Obj>> {
        if addr >= STACK0 {
            return self.stack.get(((addr - STACK0) >> SHIFT) as usize);
        }
        if addr < HEAP0 {
            return None;
        }
        let idx = (addr - HEAP0) >> SHIFT;
        self.pages.get((idx >> 6) as usize)?[(idx & 63) as usize].as_ref()
    }
    pub fn find_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        if addr >= STACK0 {
            return self.stack.get_mut(((addr - STACK0) >> SHIFT) as usize).map(Rc::make_mut);
        }
        if addr < HEAP0 {
            return None;
        }
        let idx = (addr - HEAP0) >> SHIFT;
        let p = self.pages.get_mut((idx >> 6) as usize)?;
        Rc::make_mut(p)[(idx & 63) as usize].as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, addr: u64) {
        let idx = (addr - HEAP0) >> SHIFT;
        if let Some(p) = self.pages.get_mut((idx >> 6) as usize) {
            Rc::make_mut(p)[(idx & 63) as usize] = None;
        }
        self.heap_live -= 1;
    }
}
