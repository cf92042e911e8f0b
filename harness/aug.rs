// Augmented dictionaries: every fork and the root carry the aggregate of exactly what is below.
use crate::vp::*;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/dict_model.rs"));
use std::ops::ControlFlow;
use std::sync::atomic::{AtomicU32, Ordering as O};

/// An integer key of `B` bits.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct K<const B: u16>(u64);
impl<const B: u16> DictKey for K<B> {
    const BITS: u16 = B;
}
impl<const B: u16> StoreDictKey for K<B> {
    fn store_into_data(&self, d: &mut CellDataBuilder) -> Result<(), Error> {
        d.store_uint(self.0, B)
    }
}
impl<const B: u16> LoadDictKey for K<B> {
    fn load_from_data(d: &CellDataBuilder) -> Option<Self> {
        d.as_data_slice().get_uint(0, B).ok().map(K)
    }
}

/// The aggregate is neither commutative nor associative nor idempotent; it may have a child cell.
#[derive(Clone, Copy, PartialEq, Eq, Default, Debug)]
struct Ex {
    n: u8,
    m: Option<u8>,
}
fn small(m: u8) -> Cell {
    let mut b = CellBuilder::new();
    must(b.store_u8(m));
    must(b.build())
}
impl Ex {
    fn comb(l: Ex, r: Ex) -> Ex {
        Ex {
            n: l.n.rotate_left(1) ^ r.n.rotate_left(3) ^ 0x5a,
            m: match (l.m, r.m) {
                (Some(a), Some(b)) => Some(a.wrapping_mul(3).wrapping_add(b.wrapping_mul(5)).wrapping_add(1)),
                (a, None) => a,
                (None, b) => b,
            },
        }
    }
    fn put(&self, b: &mut Bits, refs: &mut Vec<Cell>) {
        b.uint(self.n as u128, 8);
        b.uint(self.m.is_some() as u128, 1);
        if let Some(m) = self.m {
            refs.push(small(m));
        }
    }
}
impl Store for Ex {
    fn store_into(&self, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
        b.store_u8(self.n)?;
        b.store_bit(self.m.is_some())?;
        match self.m {
            Some(m) => b.store_reference(small(m)),
            None => Ok(()),
        }
    }
}
impl<'a> Load<'a> for Ex {
    fn load_from(s: &mut CellSlice<'a>) -> Result<Self, Error> {
        Ok(Ex { n: s.load_u8()?, m: if s.load_bit()? { Some(s.load_reference_as_slice()?.load_u8()?) } else { None } })
    }
}
impl ExactSize for Ex {
    fn exact_size(&self) -> Size {
        Size { bits: 9, refs: self.m.is_some() as u8 }
    }
}
static FAIL: AtomicU32 = AtomicU32::new(u32::MAX);
impl AugDictExtra for Ex {
    fn comp_add(l: &mut CellSlice, r: &mut CellSlice, b: &mut CellBuilder, cx: &dyn CellContext) -> Result<(), Error> {
        match FAIL.load(O::Relaxed) {
            0 => return Err(Error::Cancelled),
            u32::MAX => {}
            x => FAIL.store(x - 1, O::Relaxed),
        }
        let l = Ex::load_from(l)?;
        let r = Ex::load_from(r)?;
        Ex::comb(l, r).store_into(b, cx)
    }
}
/// A value of 8 bits with an optional child.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct V(u8, Option<u8>);
impl Store for V {
    fn store_into(&self, b: &mut CellBuilder, cx: &dyn CellContext) -> Result<(), Error> {
        Ex { n: self.0, m: self.1 }.store_into(b, cx)
    }
}
impl<'a> Load<'a> for V {
    fn load_from(s: &mut CellSlice<'a>) -> Result<Self, Error> {
        let e = Ex::load_from(s)?;
        Ok(V(e.n, e.m))
    }
}
type M = Vec<(Vec<u8>, (Ex, V))>;
type D<const B: u16> = AugDict<K<B>, Ex, V>;

fn full(e: &Ex, v: &V) -> Val {
    let mut bits = Bits::new();
    let mut refs = Vec::new();
    e.put(&mut bits, &mut refs);
    Ex { n: v.0, m: v.1 }.put(&mut bits, &mut refs);
    Val { bits, refs }
}
fn entries(m: &M) -> Entries {
    m.iter().map(|(k, (e, v))| (k.clone(), full(e, v))).collect()
}
/// The aggregate of entries which share their first `at` bits, with the canonical tree if wanted.
fn agg(m: &[(Vec<u8>, (Ex, V))], at: usize) -> Ex {
    if m.len() == 1 {
        return m[0].1.0;
    }
    let mut l = at;
    while m[0].0[l] == m[m.len() - 1].0[l] {
        l += 1;
    }
    let i = m.iter().position(|x| x.0[l] == 1).unwrap_or(0);
    Ex::comb(agg(&m[..i], l + 1), agg(&m[i..], l + 1))
}
/// Builds the canonical tree of the entries from `at`.
fn make(m: &[(Vec<u8>, (Ex, V))], at: usize) -> Cell {
    let n = m[0].0.len();
    let (a, z) = (&m[0].0, &m[m.len() - 1].0);
    let mut l = at;
    while l < n && a[l] == z[l] {
        l += 1;
    }
    let mut b = label(&a[at..l], n - at);
    let mut refs = Vec::new();
    if l == n {
        let v = full(&m[0].1.0, &m[0].1.1);
        b.append(&v.bits.0);
        refs = v.refs;
    } else {
        let i = m.iter().position(|x| x.0[l] == 1).unwrap_or(0);
        refs.push(make(&m[..i], l + 1));
        refs.push(make(&m[i..], l + 1));
        agg(m, at).put(&mut b, &mut refs);
    }
    let mut c = from_bits(&b);
    for r in refs {
        must(c.store_reference(r));
    }
    must(c.build())
}
/// Asserts that the tree under `c` is the canonical one.
fn check_aug(c: &DynCell, m: &[(Vec<u8>, (Ex, V))], at: usize, msg: &'static str) -> Ex {
    let n = m[0].0.len();
    let (a, z) = (&m[0].0, &m[m.len() - 1].0);
    let mut l = at;
    while l < n && a[l] == z[l] {
        l += 1;
    }
    let mut want = label(&a[at..l], n - at);
    let s = CellSlice::new_allow_exotic(c);
    if l == n {
        let v = full(&m[0].1.0, &m[0].1.1);
        want.append(&v.bits.0);
        check_same(&s, &want, 0, &v.refs, msg);
        return m[0].1.0;
    }
    let i = m.iter().position(|x| x.0[l] == 1).unwrap_or(0);
    let (Some(left), Some(right)) = (c.reference(0), c.reference(1)) else {
        check(false, msg);
        return Ex::default();
    };
    let e = Ex::comb(check_aug(left, &m[..i], l + 1, msg), check_aug(right, &m[i..], l + 1, msg));
    let mut refs = Vec::new();
    e.put(&mut want, &mut refs);
    check_same(&s, &want, 2, &refs, msg);
    e
}
fn check_same(s: &CellSlice<'_>, want: &Bits, skip: u8, refs: &[Cell], msg: &'static str) {
    check(s.size_bits() as usize == want.len() && s.size_refs() == skip + refs.len() as u8, msg);
    let mut raw = [0u8; 128];
    let d = must(s.get_raw(0, &mut raw, s.size_bits()));
    let mut x = 0;
    for i in 0..d.len() {
        x |= d[i] ^ want.byte(i);
    }
    check(x == 0, msg);
    for (i, r) in refs.iter().enumerate() {
        check(matches!(s.get_reference(skip + i as u8), Ok(c) if c.repr_hash() == r.repr_hash()), msg);
    }
}
fn check_dict<const B: u16>(d: &D<B>, m: &M, msg: &'static str) {
    check(d.is_empty() == m.is_empty(), msg);
    match d.dict().root() {
        None => {
            check(m.is_empty(), msg);
            check(*d.root_extra() == Ex::default(), "the aggregate of an empty dictionary");
        }
        Some(c) => {
            check(!m.is_empty(), msg);
            let e = check_aug(c.as_ref(), m, 0, msg);
            check(*d.root_extra() == e, "the aggregate of the root");
        }
    }
}
fn make_dict<const B: u16>(m: &M) -> D<B> {
    let root = if m.is_empty() { None } else { Some(make(m, 0)) };
    AugDict::from_parts(Dict::from_raw(root), if m.is_empty() { Ex::default() } else { agg(m, 0) })
}
fn item(k: u64, n: u8, v: u8) -> (Ex, V) {
    let k = k as u8;
    (Ex { n, m: (k % 3 == 1).then_some(k + 1) }, V(v, (k % 4 == 1).then_some(k)))
}
fn state(n: usize, subset: u64) -> M {
    state_of(n, subset, any_bytes("extras"))
}
fn state_of(n: usize, subset: u64, ex: [u8; 8]) -> M {
    (0..1u64 << n).filter(|k| subset >> k & 1 == 1).map(|k| (key_bits(k, n), item(k, ex[k as usize], 0x80 + k as u8))).collect()
}
fn at(m: &M, k: &[u8]) -> Option<usize> {
    m.iter().position(|x| x.0 == k)
}
fn put_m(m: &mut M, k: &[u8], v: (Ex, V)) {
    match at(m, k) {
        Some(i) => m[i].1 = v,
        None => {
            let i = m.iter().position(|x| less(k, &x.0, false)).unwrap_or(m.len());
            m.insert(i, (k.to_vec(), v));
        }
    }
}

/// One operation on a dictionary, on the model too.
fn step<const B: u16>(d: &mut D<B>, m: &mut M, k: u64, new: (Ex, V), op: u64) {
    let kb = key_bits(k, B as usize);
    let had = at(m, &kb);
    match op {
        0 => {
            check(matches!(d.set(K::<B>(k), new.0, new.1), Ok(true)), "set");
            put_m(m, &kb, new);
        }
        1 => {
            let r = must(d.replace(K::<B>(k), new.0, new.1));
            check(r == had.is_some(), "replaced");
            if let Some(i) = had {
                m[i].1 = new;
            }
        }
        2 => {
            let r = must(d.add(K::<B>(k), new.0, new.1));
            check(r == had.is_none(), "added");
            if had.is_none() {
                put_m(m, &kb, new);
            }
        }
        3 => {
            let r = must(d.remove(K::<B>(k)));
            check(r == had.map(|i| m[i].1), "the removed value");
            if let Some(i) = had {
                m.remove(i);
                reach("removed");
            }
        }
        _ => {
            let r = must(d.remove_raw(K::<B>(k)));
            check(r.is_some() == had.is_some(), "removed");
            if let (Some(p), Some(i)) = (r, had) {
                let v = full(&m[i].1.0, &m[i].1.1);
                check_same(&must(CellSlice::apply(&p)), &v.bits, 0, &v.refs, "the removed value");
                m.remove(i);
            }
        }
    }
}

harnesses! {
fn au_step() {
    // every dictionary over 3 bit keys, one operation (thorough: two)
    let mut m = state(3, pick(255, "subset"));
    let mut d = make_dict::<3>(&m);
    let new: [u8; 2] = any_bytes("new");
    for i in 0..if thorough() { 2 } else { 1 } {
        let k = pick(7, "key");
        step(&mut d, &mut m, k, item(k + 1, new[i], i as u8), pick(4, "op"));
        check_dict(&d, &m, "the dictionary after an update");
    }
}
fn au_grow() {
    // from nothing, every sequence of three operations on 2 bit keys
    let mut m = M::new();
    let mut d = D::<2>::new();
    let new: [u8; 4] = any_bytes("new");
    for i in 0..if thorough() { 4 } else { 3 } {
        let k = pick(3, "key");
        step(&mut d, &mut m, k, item(k + i as u64, new[i], i as u8), pick(3, "op"));
        check_dict(&d, &m, "the dictionary after an update");
    }
}
fn au_wide() {
    // 16 bit keys: every kind of label
    const P: [u64; 8] = [0, 1, 0x00ff, 0x5555, 0x7fff, 0x8000, 0xfffe, 0xffff];
    let mut m = M::new();
    let mut from = 0;
    for i in 0..3 {
        let k = from + pick(8 - from, "k");
        if k >= 8 {
            break;
        }
        put_m(&mut m, &key_bits(P[k as usize], 16), item(i, 10 * i as u8, i as u8));
        from = k + 1;
    }
    let mut d = make_dict::<16>(&m);
    let k = P[pick(7, "key") as usize];
    step(&mut d, &mut m, k, item(4, any_u8("new"), 9), pick(4, "op"));
    check_dict(&d, &m, "the dictionary after an update");
}
fn au_bulk() {
    // every dictionary over 3 bit keys, two changes at once
    let fixed = [0x11, 0x9a, 0x37, 0xc0, 0x52, 0xee, 0x81, 0x6d];
    let mut m = state_of(3, pick(255, "subset"), if thorough() { any_bytes("extras") } else { fixed });
    let mut d = make_dict::<3>(&m);
    let new: [u8; 8] = any_bytes("new");
    let mut ops = Vec::new();
    let mut from = 0;
    for _ in 0..if thorough() { 3 } else { 2 } {
        let k = from + pick(8 - from, "k");
        if k >= 8 {
            break;
        }
        ops.push((K::<3>(k), any_bool("set").then(|| item(k + 1, new[k as usize], k as u8))));
        from = k + 1;
    }
    let before = m.clone();
    let r = must(d.modify_with_sorted_iter(ops.clone()));
    for (k, v) in &ops {
        let kb = key_bits(k.0, 3);
        match v {
            Some(v) => put_m(&mut m, &kb, *v),
            None => m.retain(|x| x.0 != kb),
        }
    }
    check_dict(&d, &m, "the dictionary after a bulk update");
    check(r || m == before, "a change is announced");
    if ops.len() == 2 {
        reach("two changes");
    }
}
fn au_bulk2() {
    // every dictionary over 2 bit keys, every batch
    let mut m = state(2, pick(15, "subset"));
    let mut d = make_dict::<2>(&m);
    let new: [u8; 4] = any_bytes("new");
    let mut ops = Vec::new();
    for k in 0..4u64 {
        match pick(2, "op") {
            0 => {}
            1 => ops.push((K::<2>(k), Some(item(k + 1, new[k as usize], k as u8)))),
            _ => ops.push((K::<2>(k), None)),
        }
    }
    let before = m.clone();
    let r = must(d.modify_with_sorted_iter(ops.clone()));
    for (k, v) in &ops {
        let kb = key_bits(k.0, 2);
        match v {
            Some(v) => put_m(&mut m, &kb, *v),
            None => m.retain(|x| x.0 != kb),
        }
    }
    check_dict(&d, &m, "the dictionary after a bulk update");
    check(r || m == before, "a change is announced");
}
fn au_build() {
    let m = state(3, pick(255, "subset"));
    let list: Vec<_> = m.iter().map(|(k, (e, v))| (K::<3>(k.iter().fold(0, |a, b| a * 2 + *b as u64)), *e, *v)).collect();
    let d = if pick(1, "tree") == 0 {
        must(D::<3>::try_from_sorted_slice(&list))
    } else {
        let t: std::collections::BTreeMap<_, _> = list.iter().map(|(k, e, v)| (*k, (*e, *v))).collect();
        must(D::<3>::try_from_btree(&t))
    };
    check_dict(&d, &m, "a built dictionary");
    // storing and loading
    let mut b = CellBuilder::new();
    must(b.store_bit_one());
    must(d.store_into(&mut b, Cell::empty_context()));
    must(b.store_bit_one());
    let size = d.exact_size();
    check(b.size_bits() == size.bits + 2 && b.size_refs() == size.refs, "exact size");
    let c = must(b.build());
    let mut s = must(c.as_slice());
    must(s.load_bit());
    let x = must(D::<3>::load_from(&mut s));
    check(s.size_bits() == 1 && s.size_refs() == 0, "exactly the dictionary is loaded");
    check(x == d, "a stored dictionary loads back");
    check_dict(&x, &m, "a stored dictionary loads back");
    // a dictionary as the contents of a cell, followed by something else
    if let Some(root) = d.dict().root() {
        let mut b = CellBuilder::new();
        must(b.store_slice(must(root.as_slice())));
        must(b.store_uint(5, 3));
        let extra = b.size_refs() < 4;
        if extra {
            must(b.store_reference(Cell::empty_cell()));
        }
        let c = must(b.build());
        let mut s = must(c.as_slice());
        let x = must(D::<3>::load_from_root_ext(&mut s, Cell::empty_context()));
        check(s.size_bits() == 3 && s.size_refs() == extra as u8, "exactly the dictionary is loaded");
        check_dict(&x, &m, "a dictionary loaded from its root");
        reach("inline");
    }
    // a wrong aggregate is repaired
    let mut x = AugDict::from_parts(d.dict().clone(), Ex { n: 77, m: Some(1) });
    must(x.update_root_extra());
    check_dict(&x, &m, "a recomputed root");
}
fn au_split() {
    // splitting at a prefix of the common prefix, and merging back
    let m = state(3, pick(255, "subset"));
    let d = make_dict::<3>(&m);
    let n = pick(2, "prefix bits") as usize;
    let p = pick((1 << n) - 1, "prefix");
    let pre = key_bits(p, n);
    let fits = m.iter().all(|x| x.0[..n] == pre[..]);
    let kc = must(key_cell(&pre).build());
    let r = d.split_by_prefix(&must(kc.as_slice()));
    if !fits {
        check(r.is_err(), "a prefix that is not common is refused");
        return;
    }
    let Ok((l, r)) = r else { return check(m.is_empty() && n > 0, "split") };
    let (ml, mr): (M, M) = m.iter().cloned().partition(|x| x.0[n] == 0);
    check_dict(&l, &ml, "the left half");
    check_dict(&r, &mr, "the right half");
    let x = must(l.merge_with_right_sibling(&r));
    check_dict(&x, &m, "halves merge back");
    if !ml.is_empty() && !mr.is_empty() {
        check(r.merge_with_right_sibling(&l).is_err(), "siblings in the wrong order are refused");
        reach("merged");
    }
}
fn au_find() {
    // following the extras down to a leaf
    struct Max;
    impl SearchByExtra<Ex> for Max {
        fn on_edge(&mut self, l: &Ex, r: &Ex) -> ControlFlow<(), Branch> {
            ControlFlow::Continue(if l.n >= r.n { Branch::Left } else { Branch::Right })
        }
        fn on_leaf(&mut self, e: &Ex) -> bool {
            e.n & 1 == 0
        }
    }
    struct Stop;
    impl SearchByExtra<Ex> for Stop {
        fn on_edge(&mut self, l: &Ex, r: &Ex) -> ControlFlow<(), Branch> {
            if l.n & 3 == 3 {
                ControlFlow::Break(())
            } else {
                ControlFlow::Continue(if r.n & 3 == 3 { Branch::Right } else { Branch::Left })
            }
        }
    }
    fn walk<'a>(m: &'a [(Vec<u8>, (Ex, V))], at: usize, stop: bool) -> Option<&'a (Vec<u8>, (Ex, V))> {
        if m.len() < 2 {
            return m.first().filter(|x| stop || x.1.0.n & 1 == 0);
        }
        let mut l = at;
        while m[0].0[l] == m[m.len() - 1].0[l] {
            l += 1;
        }
        let i = m.iter().position(|x| x.0[l] == 1).unwrap_or(0);
        let (a, b) = (agg(&m[..i], l + 1), agg(&m[i..], l + 1));
        let left = if stop {
            if a.n & 3 == 3 {
                return None;
            }
            b.n & 3 != 3
        } else {
            a.n >= b.n
        };
        walk(if left { &m[..i] } else { &m[i..] }, l + 1, stop)
    }
    let m = state(3, pick(255, "subset"));
    assume(m.len() <= if thorough() { 4 } else { 3 });
    let d = make_dict::<3>(&m);
    let stop = pick(1, "stop") == 1;
    let r = if stop { must(d.find_by_extra(Stop)) } else { must(d.find_by_extra(Max)) };
    let want = walk(&m, 0, stop);
    match (r, want) {
        (Some((k, e, v)), Some(w)) => {
            check(key_bits(k.0, 3) == w.0 && (e, v) == w.1, "the entry found by extra");
            reach("found");
        }
        (None, None) => reach("nothing"),
        _ => check(false, "search by extra"),
    }
}
fn au_iter() {
    let m = state(3, pick(255, "subset"));
    let d = make_dict::<3>(&m);
    let rev = pick(1, "reversed") == 1;
    let signed = pick(1, "signed") == 1;
    let mut want = m.clone();
    if signed {
        want.sort_by_key(|x| (1 - x.0[0], x.0.clone()));
    }
    if rev {
        want.reverse();
    }
    let mut it = d.iter();
    if rev {
        it = it.reversed();
    }
    if signed {
        it = it.signed();
    }
    let mut n = 0;
    for x in it {
        let (k, e, v) = must(x);
        check(n < want.len() && key_bits(k.0, 3) == want[n].0 && (e, v) == want[n].1, "iteration");
        n += 1;
    }
    check(n == m.len(), "everything is visited");
    for k in 0..8 {
        let w = at(&m, &key_bits(k, 3)).map(|i| m[i].1);
        check(must(d.get(K::<3>(k))) == w, "lookup");
        check(must(d.contains_key(K::<3>(k))) == w.is_some(), "lookup");
    }
    let vals: Vec<_> = d.values().map(must).collect();
    check(vals.iter().zip(&m).all(|(a, b)| *a == b.1) && vals.len() == m.len(), "values");
    let keys: Vec<_> = d.keys().map(|k| key_bits(must(k).0, 3)).collect();
    check(keys.iter().zip(&m).all(|(a, b)| *a == b.0) && keys.len() == m.len(), "keys");
    reach("done");
}
fn au_fail() {
    // a failing aggregation is reported and changes nothing
    let m = state(3, pick(255, "subset"));
    let mut d = make_dict::<3>(&m);
    FAIL.store(pick(2, "at") as u32, O::Relaxed);
    let k = pick(7, "key");
    let new = item(k + 1, 5, 5);
    let r = match pick(2, "op") {
        0 => d.set(K::<3>(k), new.0, new.1).map(|_| ()),
        1 => d.remove(K::<3>(k)).map(|_| ()),
        _ => d.modify_with_sorted_iter([(K::<3>(k), Some(new)), (K::<3>(7), None)]).map(|_| ()),
    };
    FAIL.store(u32::MAX, O::Relaxed);
    match r {
        Ok(()) => reach("no failure"),
        Err(e) => {
            check(e == Error::Cancelled, "the error is passed on");
            check_dict(&d, &m, "a failed update changes nothing");
            reach("failure");
        }
    }
}
}
