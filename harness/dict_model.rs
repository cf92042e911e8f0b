// Reference model of dictionaries: a sorted list of (key, value) and the canonical hashmap tree
// that represents it, written from the format (hml_short / hml_long / hml_same labels).
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;

/// A stored value: bits and references.
#[derive(Clone)]
pub struct Val {
    pub bits: Bits,
    pub refs: Vec<Cell>,
}
impl Val {
    pub fn u8(b: u8) -> Self {
        let mut bits = Bits::new();
        bits.uint(b as u128, 8);
        Val { bits, refs: Vec::new() }
    }
}
impl Store for Val {
    fn store_into(&self, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
        let raw: Vec<u8> = (0..self.bits.len().div_ceil(8)).map(|i| self.bits.byte(i)).collect();
        b.store_raw(&raw, self.bits.len() as u16)?;
        for r in &self.refs {
            b.store_reference(r.clone())?;
        }
        Ok(())
    }
}
/// Keys are bit vectors (concrete or symbolic), entries are sorted by key.
pub type Entries = Vec<(Vec<u8>, Val)>;

/// The canonical label: the shortest of the three encodings (`same` only for uniform labels).
pub fn label(l: &[u8], max: usize) -> Bits {
    let n = l.len();
    let mut k = 0; // bits needed to write any length up to max
    while max >> k != 0 {
        k += 1;
    }
    let mut uniform = true;
    for i in 1..n {
        uniform &= l[i] == l[0];
    }
    let mut b = Bits::new();
    let short = 2 * n + 2;
    let long = 2 + k + n;
    let same = 3 + k;
    if n > 0 && same < short && same < long && uniform {
        b.uint(0b110 | l[0] as u128, 3);
        b.uint(n as u128, k);
    } else if short <= long {
        b.uint(0, 1);
        b.fill(1, n);
        b.uint(0, 1);
        b.append(l);
    } else {
        b.uint(0b10, 2);
        b.uint(n as u128, k);
        b.append(l);
    }
    b
}

pub fn lcp(e: &[(Vec<u8>, Val)], from: usize) -> usize {
    let a = &e[0].0;
    let z = &e[e.len() - 1].0;
    let mut i = from;
    while i < a.len() && a[i] == z[i] {
        i += 1;
    }
    i - from
}

fn same_bits(s: &CellSlice<'_>, want: &Bits) -> bool {
    if s.size_bits() as usize != want.len() {
        return false;
    }
    let mut raw = [0u8; 128];
    let n = s.size_bits();
    match s.get_raw(0, &mut raw, n) {
        Ok(r) => {
            let mut d = 0;
            for i in 0..r.len() {
                d |= r[i] ^ want.byte(i);
            }
            d == 0
        }
        Err(_) => false,
    }
}
pub fn check_val(s: &CellSlice<'_>, v: &Val, msg: &'static str) {
    check(s.size_refs() as usize == v.refs.len(), msg);
    check(same_bits(s, &v.bits), msg);
    for i in 0..v.refs.len() {
        match s.get_reference(i as u8) {
            Ok(r) => check(std::ptr::eq(r.data().as_ptr(), v.refs[i].data().as_ptr()) && r == v.refs[i].as_ref(), msg),
            Err(_) => check(false, msg),
        }
    }
}

/// Asserts that the tree under `c` is the canonical representation of the entries (all of which
/// share their first `at` bits), `extra` giving the fork bits after the label.
pub fn check_edge(c: &DynCell, e: &[(Vec<u8>, Val)], at: usize, msg: &'static str) {
    let n = e[0].0.len();
    let l = lcp(e, at);
    let mut want = label(&e[0].0[at..at + l], n - at);
    let s = CellSlice::new_allow_exotic(c);
    if at + l == n {
        let v = &e[0].1;
        want.append(&v.bits.0);
        check_val(&s, &Val { bits: want, refs: v.refs.clone() }, msg);
    } else {
        check(s.size_refs() == 2 && same_bits(&s, &want), msg);
        let mut m = 0;
        while e[m].0[at + l] == 0 {
            m += 1;
        }
        match (c.reference(0), c.reference(1)) {
            (Some(a), Some(b)) => {
                check_edge(a, &e[..m], at + l + 1, msg);
                check_edge(b, &e[m..], at + l + 1, msg);
            }
            _ => check(false, msg),
        }
    }
}
pub fn check_tree(root: &Option<Cell>, e: &Entries, msg: &'static str) {
    match root {
        None => check(e.is_empty(), msg),
        Some(c) => {
            check(!e.is_empty(), msg);
            check_edge(c.as_ref(), e, 0, msg);
        }
    }
}

fn must<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check(false, "model construction");
            unreachable!()
        }
    }
}
pub fn from_bits(b: &Bits) -> CellBuilder {
    let mut r = CellBuilder::new();
    let raw: Vec<u8> = (0..b.len().div_ceil(8)).map(|i| b.byte(i)).collect();
    must(r.store_raw(&raw, b.len() as u16));
    r
}
pub fn make_edge(e: &[(Vec<u8>, Val)], at: usize) -> Cell {
    let n = e[0].0.len();
    let l = lcp(e, at);
    let mut b = label(&e[0].0[at..at + l], n - at);
    if at + l == n {
        b.append(&e[0].1.bits.0);
        let mut c = from_bits(&b);
        for r in &e[0].1.refs {
            must(c.store_reference(r.clone()));
        }
        must(c.build())
    } else {
        let mut m = 0;
        while e[m].0[at + l] == 0 {
            m += 1;
        }
        let mut c = from_bits(&b);
        must(c.store_reference(make_edge(&e[..m], at + l + 1)));
        must(c.store_reference(make_edge(&e[m..], at + l + 1)));
        must(c.build())
    }
}
/// The canonical dictionary of the entries, built without the crate's dictionary code.
pub fn make_tree(e: &Entries) -> Option<Cell> {
    if e.is_empty() { None } else { Some(make_edge(e, 0)) }
}

pub fn key_bits(k: u64, n: usize) -> Vec<u8> {
    (0..n).rev().map(|i| (k >> i) as u8 & 1).collect()
}
/// Compares two keys; `signed` orders two's complement integers.
pub fn less(a: &[u8], b: &[u8], signed: bool) -> bool {
    for i in 0..a.len() {
        if a[i] != b[i] {
            return if i == 0 && signed { a[i] > b[i] } else { a[i] < b[i] };
        }
    }
    false
}
pub fn find(e: &Entries, k: &[u8]) -> Option<usize> {
    (0..e.len()).find(|&i| e[i].0 == k)
}
pub fn put(e: &mut Entries, k: &[u8], v: Val) {
    match find(e, k) {
        Some(i) => e[i].1 = v,
        None => {
            let i = (0..e.len()).find(|&i| less(k, &e[i].0, false)).unwrap_or(e.len());
            e.insert(i, (k.to_vec(), v));
        }
    }
}
/// A slice holding the key bits.
pub fn key_cell(k: &[u8]) -> CellBuilder {
    from_bits(&Bits(k.to_vec()))
}
/// The entry next to `k` in the given direction, if any.
pub fn neighbour(e: &Entries, k: &[u8], next: bool, inclusive: bool, signed: bool) -> Option<usize> {
    let mut best: Option<usize> = None;
    for i in 0..e.len() {
        let x = &e[i].0;
        let eq = x.as_slice() == k;
        let ok = if eq { inclusive } else { less(k, x, signed) == next };
        if ok {
            best = match best {
                Some(j) if less(x, &e[j].0, signed) != next => Some(j),
                _ => Some(i),
            };
        }
    }
    best
}
pub fn check_key(b: &CellDataBuilder, k: &[u8], msg: &'static str) {
    check(b.size_bits() as usize == k.len(), msg);
    Bits(k.to_vec()).check_raw(b.raw_data(), msg);
}
