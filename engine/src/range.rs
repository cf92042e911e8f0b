//! Path-sensitive interval analysis: cheap facts that discharge most bounds conditions
//! without a solver query.  Sound over-approximation: every value the term can take on
//! the path lies within the returned interval.
use crate::expr::*;
use std::cell::RefCell;
use std::rc::Rc;

pub type Iv = (u128, u128);

#[derive(Clone, Default)]
pub struct Facts {
    f: Rc<FxMap<E, Iv>>,
    memo: Rc<RefCell<FxMap<E, Iv>>>,
    /// Input bytes whose bits are partly or fully determined: (known bits, their values).
    bits: Rc<FxMap<E, (u128, u128)>>,
    pinned: u128,
    rmemo: Rc<RefCell<FxMap<E, E>>>,
}

impl Facts {
    /// Records that the width-1 term `c` is true.
    pub fn assume(&mut self, c: E) {
        let mut todo: Vec<(E, Iv)> = vec![];
        self.derive(c, true, &mut todo);
        if todo.is_empty() {
            return;
        }
        let mut changed = false;
        while let Some((e, (lo, hi))) = todo.pop() {
            let old = self.range(e);
            let (nlo, nhi) = (old.0.max(lo), old.1.min(hi));
            if nlo > nhi || (nlo, nhi) == old {
                continue;
            }
            let m = Rc::make_mut(&mut self.f);
            m.insert(e, (nlo, nhi));
            changed = true;
            self.memo = Default::default();
            if nlo == nhi {
                self.pin(e, nlo);
            }
            self.down(e, (nlo, nhi), &mut todo);
        }
        let _ = changed;
    }

    fn pin(&mut self, e: E, v: u128) {
        let c = cx();
        let n = c.n(e);
        let (x, m, b) = match n.op {
            Op::Var => (e, mask(n.w as u32), v),
            Op::Extract if c.n(n.a).op == Op::Var => (n.a, mask(n.w as u32) << n.k, v << n.k),
            _ => return,
        };
        let old = self.bits.get(&x).copied().unwrap_or((0, 0));
        let all = mask(c.w(x));
        if old.0 == all || old.0 | m == old.0 {
            return;
        }
        let new = (old.0 | m, old.1 | b);
        Rc::make_mut(&mut self.bits).insert(x, new);
        if new.0 == all {
            self.pinned |= c.vmask[x as usize];
            self.rmemo = Default::default();
        }
    }

    /// The term with every input byte that is determined on this path replaced by its value.
    pub fn reduce(&self, e: E) -> E {
        let c = cx();
        if c.vmask[e as usize] & self.pinned == 0 {
            return e;
        }
        if let Some(r) = self.rmemo.borrow().get(&e) {
            return *r;
        }
        let n = c.n(e);
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => e,
            Op::Var => match self.bits.get(&e) {
                Some((m, v)) if *m == mask(w) => c.k(w, *v),
                _ => e,
            },
            Op::Not => {
                let a = self.reduce(n.a);
                c.not(a)
            }
            Op::Extract => {
                let a = self.reduce(n.a);
                c.extract(a, n.k as u32 + w - 1, n.k as u32)
            }
            Op::ZExt => {
                let a = self.reduce(n.a);
                c.zext(a, w)
            }
            Op::SExt => {
                let a = self.reduce(n.a);
                c.sext(a, w)
            }
            Op::Concat => {
                let (a, b) = (self.reduce(n.a), self.reduce(n.b));
                c.concat(a, b)
            }
            Op::Ite => {
                let q = self.reduce(n.a);
                match c.cv(q) {
                    Some(1) => self.reduce(n.b),
                    Some(_) => self.reduce(n.c),
                    None => {
                        let (a, b) = (self.reduce(n.b), self.reduce(n.c));
                        c.ite(q, a, b)
                    }
                }
            }
            op => {
                let (a, b) = (self.reduce(n.a), self.reduce(n.b));
                c.bin(op, a, b)
            }
        };
        self.rmemo.borrow_mut().insert(e, r);
        r
    }

    /// Propagates an interval of a term to its operands.
    fn down(&self, e: E, (lo, hi): Iv, out: &mut Vec<(E, Iv)>) {
        let c = cx();
        let n = c.n(e);
        let w = n.w as u32;
        match n.op {
            Op::ZExt => out.push((n.a, (lo, hi))),
            Op::Concat => {
                let bw = c.w(n.b);
                out.push((n.a, (lo >> bw, hi >> bw)));
                if lo >> bw == hi >> bw {
                    out.push((n.b, (lo & mask(bw), hi & mask(bw))));
                }
            }
            Op::Add => {
                let (x, k) = if let Some(k) = c.cv(n.b) {
                    (n.a, k)
                } else if let Some(k) = c.cv(n.a) {
                    (n.b, k)
                } else {
                    let (ra, rb) = (self.range(n.a), self.range(n.b));
                    if let Some(s) = ra.1.checked_add(rb.1) {
                        if s <= mask(w) {
                            // no wrap
                            out.push((n.a, (lo.saturating_sub(rb.1), hi.saturating_sub(rb.0))));
                            out.push((n.b, (lo.saturating_sub(ra.1), hi.saturating_sub(ra.0))));
                        }
                    }
                    return;
                };
                let (l, h) = (lo.wrapping_sub(k) & mask(w), hi.wrapping_sub(k) & mask(w));
                if l <= h {
                    out.push((x, (l, h)));
                }
            }
            Op::Sub => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                if ra.0 >= rb.1 {
                    // no wrap: a = r + b
                    out.push((n.a, (lo.saturating_add(rb.0), hi.saturating_add(rb.1))));
                    out.push((n.b, (ra.0.saturating_sub(hi), ra.1.saturating_sub(lo))));
                }
            }
            Op::LShr => {
                if let Some(k) = c.cv(n.b) {
                    if k < w as u128 {
                        let h = (hi << k) | mask(k as u32);
                        out.push((n.a, (lo << k, if hi << k >> k == hi { h } else { mask(w) })));
                    }
                }
            }
            Op::Extract => {
                let k = n.k as u32;
                let aw = c.w(n.a);
                if k + w == aw {
                    out.push((n.a, (lo << k, hi << k | if k == 0 { 0 } else { mask(k) })));
                } else if k == 0 {
                    let r = self.range(n.a);
                    if r.1 <= mask(w) {
                        out.push((n.a, (lo, hi)));
                    }
                }
            }
            Op::Ite => {
                let t = self.truth(n.a);
                if t == Some(true) {
                    out.push((n.b, (lo, hi)));
                } else if t == Some(false) {
                    out.push((n.c, (lo, hi)));
                } else {
                    let (ra, rb) = (self.range(n.b), self.range(n.c));
                    if ra.1 < lo || ra.0 > hi {
                        self.derive(n.a, false, out);
                        out.push((n.c, (lo, hi)));
                    } else if rb.1 < lo || rb.0 > hi {
                        self.derive(n.a, true, out);
                        out.push((n.b, (lo, hi)));
                    }
                }
            }
            _ if w == 1 && lo == hi => self.derive(e, lo == 1, out),
            _ => {}
        }
    }

    fn derive(&self, c: E, v: bool, out: &mut Vec<(E, Iv)>) {
        let n = cx().n(c);
        let k = v as u128;
        out.push((c, (k, k)));
        match n.op {
            Op::Not => self.derive(n.a, !v, out),
            Op::And if v && n.w == 1 => {
                self.derive(n.a, true, out);
                self.derive(n.b, true, out);
            }
            Op::Or if !v && n.w == 1 => {
                self.derive(n.a, false, out);
                self.derive(n.b, false, out);
            }
            Op::And if n.w == 1 => {
                if self.truth(n.a) == Some(true) {
                    self.derive(n.b, false, out)
                } else if self.truth(n.b) == Some(true) {
                    self.derive(n.a, false, out)
                }
            }
            Op::Or if n.w == 1 => {
                if self.truth(n.a) == Some(false) {
                    self.derive(n.b, true, out)
                } else if self.truth(n.b) == Some(false) {
                    self.derive(n.a, true, out)
                }
            }
            Op::Eq => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                if v {
                    out.push((n.a, rb));
                    out.push((n.b, ra));
                } else {
                    // a boundary value can be cut off
                    for (x, r, o) in [(n.a, ra, rb), (n.b, rb, ra)] {
                        if o.0 == o.1 {
                            if r.0 == o.0 && r.0 < r.1 {
                                out.push((x, (r.0 + 1, r.1)));
                            } else if r.1 == o.0 && r.0 < r.1 {
                                out.push((x, (r.0, r.1 - 1)));
                            }
                        }
                    }
                }
            }
            Op::Ult | Op::Ule => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                let strict = (n.op == Op::Ult) == v;
                // v: a < b (strict) or a <= b;   !v: b <= a or b < a
                let (x, rx, y, ry) = if v { (n.a, ra, n.b, rb) } else { (n.b, rb, n.a, ra) };
                let s = strict as u128;
                if ry.1 >= s {
                    out.push((x, (rx.0, ry.1 - s)));
                }
                out.push((y, (rx.0.saturating_add(s), ry.1)));
            }
            _ => {}
        }
    }

    pub fn truth(&self, e: E) -> Option<bool> {
        let r = self.range(e);
        if r.0 == r.1 {
            Some(r.0 == 1)
        } else {
            None
        }
    }

    pub fn range(&self, e: E) -> Iv {
        let c = cx();
        let n = c.n(e);
        if n.op == Op::Const {
            return (n.k, n.k);
        }
        if let Some(r) = self.memo.borrow().get(&e) {
            return *r;
        }
        let w = n.w as u32;
        let m = mask(w);
        let inf = c.info[e as usize];
        let mut r = (inf.lo, inf.hi);
        let calc: Iv = match n.op {
            Op::ZExt => self.range(n.a),
            Op::SExt => {
                let iw = c.w(n.a);
                let ra = self.range(n.a);
                if ra.1 >> (iw - 1) == 0 {
                    ra
                } else if ra.0 >> (iw - 1) == 1 {
                    (ra.0 | (m & !mask(iw)), ra.1 | (m & !mask(iw)))
                } else {
                    (0, m)
                }
            }
            Op::Concat => {
                let bw = c.w(n.b);
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                (ra.0 << bw | rb.0, ra.1 << bw | rb.1)
            }
            Op::Extract => {
                let ra = self.range(n.a);
                let (l, h) = (ra.0 >> n.k, ra.1 >> n.k);
                if h <= m {
                    (l, h)
                } else if l >> w == h >> w {
                    (l & m, h & m)
                } else {
                    (0, m)
                }
            }
            Op::Add => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                match (ra.0.checked_add(rb.0), ra.1.checked_add(rb.1)) {
                    (Some(l), Some(h)) => {
                        if w < 128 && l >> w == h >> w || w == 128 {
                            (l & m, h & m)
                        } else {
                            (0, m)
                        }
                    }
                    _ => (0, m),
                }
            }
            Op::Sub => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                if ra.0 >= rb.1 || ra.1 < rb.0 {
                    (ra.0.wrapping_sub(rb.1) & m, ra.1.wrapping_sub(rb.0) & m)
                } else {
                    (0, m)
                }
            }
            Op::Mul => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                match ra.1.checked_mul(rb.1) {
                    Some(h) if h <= m => (ra.0 * rb.0, h),
                    _ => (0, m),
                }
            }
            Op::UDiv => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                if rb.0 > 0 {
                    (ra.0 / rb.1, ra.1 / rb.0)
                } else {
                    (0, m)
                }
            }
            Op::URem => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                if rb.0 > 0 {
                    if ra.1 < rb.0 {
                        ra
                    } else {
                        (0, ra.1.min(rb.1 - 1))
                    }
                } else {
                    (0, m)
                }
            }
            Op::And => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                if w == 1 {
                    (ra.0 & rb.0, ra.1 & rb.1)
                } else {
                    (0, ra.1.min(rb.1))
                }
            }
            Op::Or => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                if w == 1 {
                    (ra.0 | rb.0, ra.1 | rb.1)
                } else {
                    let x = ra.1 | rb.1;
                    let b = 128 - x.leading_zeros();
                    (ra.0.max(rb.0), if b == 0 { 0 } else { mask(b) })
                }
            }
            Op::Xor if w == 1 => match (self.truth(n.a), self.truth(n.b)) {
                (Some(x), Some(y)) => ((x ^ y) as u128, (x ^ y) as u128),
                _ => (0, 1),
            },
            Op::Not => {
                let ra = self.range(n.a);
                (m - ra.1, m - ra.0)
            }
            Op::Shl => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                if rb.1 < w as u128 && (ra.1 << rb.1) >> rb.1 == ra.1 && ra.1 << rb.1 <= m {
                    (ra.0 << rb.0, ra.1 << rb.1)
                } else {
                    (0, m)
                }
            }
            Op::LShr => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                (if rb.1 >= 128 { 0 } else { ra.0 >> rb.1 }, if rb.0 >= 128 { 0 } else { ra.1 >> rb.0 })
            }
            Op::Eq => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                if ra.1 < rb.0 || rb.1 < ra.0 {
                    (0, 0)
                } else if ra.0 == ra.1 && ra == rb {
                    (1, 1)
                } else {
                    (0, 1)
                }
            }
            Op::Ult | Op::Ule => {
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                let (t, f) = if n.op == Op::Ult { (ra.1 < rb.0, ra.0 >= rb.1) } else { (ra.1 <= rb.0, ra.0 > rb.1) };
                if t {
                    (1, 1)
                } else if f {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Slt | Op::Sle => {
                let aw = c.w(n.a);
                let flip = 1u128 << (aw - 1);
                let (ra, rb) = (self.range(n.a), self.range(n.b));
                let sgn = |r: Iv| -> Option<Iv> {
                    if r.0 & flip == r.1 & flip {
                        Some((r.0 ^ flip, r.1 ^ flip))
                    } else {
                        None
                    }
                };
                match (sgn(ra), sgn(rb)) {
                    (Some(x), Some(y)) => {
                        let (t, f) = if n.op == Op::Slt { (x.1 < y.0, x.0 >= y.1) } else { (x.1 <= y.0, x.0 > y.1) };
                        if t {
                            (1, 1)
                        } else if f {
                            (0, 0)
                        } else {
                            (0, 1)
                        }
                    }
                    _ => (0, 1),
                }
            }
            Op::Ite => match self.truth(n.a) {
                Some(true) => self.range(n.b),
                Some(false) => self.range(n.c),
                None => {
                    let (ra, rb) = (self.range(n.b), self.range(n.c));
                    (ra.0.min(rb.0), ra.1.max(rb.1))
                }
            },
            _ => (0, m),
        };
        r = (r.0.max(calc.0), r.1.min(calc.1));
        if let Some(f) = self.f.get(&e) {
            r = (r.0.max(f.0), r.1.min(f.1));
        }
        if r.0 > r.1 {
            // contradictory facts: an infeasible combination; stay sound by widening
            r = (inf.lo, inf.hi);
        }
        self.memo.borrow_mut().insert(e, r);
        r
    }
}
