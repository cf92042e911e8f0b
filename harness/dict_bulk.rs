// Building, bulk modification, splitting and merging of dictionaries against one-by-one semantics.
use crate::vp::*;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/dict_model.rs"));

/// An integer key of `B` bits.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct K<const B: u16>(u64);
impl<const B: u16> DictKey for K<B> {
    const BITS: u16 = B;
}
impl<const B: u16> StoreDictKey for K<B> {
    fn store_into_data(&self, d: &mut CellDataBuilder) -> Result<(), Error> {
        d.store_uint(self.0, B)
    }
}
impl<const B: u16> LoadDictKey for K<B> {
    fn load_from_data(d: &CellDataBuilder) -> Option<Self> {
        d.as_data_slice().get_uint(0, B).ok().map(K)
    }
}

fn val(b: u8, k: u64) -> Val {
    let mut v = Val::u8(b);
    for _ in 0..k % 3 {
        v.refs.push(Cell::empty_cell());
    }
    v
}
fn any_state(n: usize, subset: u64, name: &'static str) -> Entries {
    let vals: [u8; 16] = any_bytes(name);
    let mut e = Entries::new();
    for k in 0..1u64 << n {
        if subset >> k & 1 != 0 {
            e.push((key_bits(k, n), val(vals[k as usize], k)));
        }
    }
    e
}

/// Applies the changes in bulk and one by one.
fn modify<const B: u16>(mut e: Entries, ops: &[(u64, Option<Val>)], fail_at: Option<usize>) {
    let n = B as usize;
    let mut root = make_tree(&e);
    let r = dict_modify_from_sorted_iter(
        &mut root,
        ops.iter().enumerate(),
        |(_, (k, _))| K::<B>(*k),
        |(i, (_, v))| if fail_at == Some(i) { Err(Error::Cancelled) } else { Ok(v.clone()) },
        Cell::empty_context(),
    );
    if let Some(at) = fail_at {
        if at < ops.len() {
            check(matches!(r, Err(Error::Cancelled)), "error reported");
            check_tree(&root, &e, "a failed modification changes nothing");
            return;
        }
    }
    for (k, v) in ops {
        let k = key_bits(*k, n);
        match v {
            Some(v) => put(&mut e, &k, v.clone()),
            None => e.retain(|x| x.0 != k),
        }
    }
    match r {
        Ok(_) => check_tree(&root, &e, "dictionary after bulk modification"),
        Err(_) => check(false, "bulk modification failed"),
    }
}

harnesses! {
fn db_build() {
    let e = any_state(3, pick(255, "subset"), "vals");
    let mut list: Vec<(K<3>, Val)> = Vec::new();
    for (k, v) in &e {
        let x = (k[0] as u64) << 2 | (k[1] as u64) << 1 | k[2] as u64;
        list.push((K(x), v.clone()));
    }
    // a duplicate of one of the keys is skipped
    let dup = any_bool("dup") && !list.is_empty();
    if dup {
        let at = pick(list.len() as u64 - 1, "at") as usize;
        let k = list[at].0;
        list.insert(at + 1, (k, Val::u8(0xaa)));
    }
    match RawDict::<3>::try_from_sorted_slice(&list) {
        Ok(d) => check_tree(d.root(), &e, "built dictionary"),
        Err(_) => check(false, "build failed"),
    }
    if list.len() > 1 && !dup {
        let i = pick(list.len() as u64 - 2, "swap") as usize;
        list.swap(i, i + 1);
        check(matches!(RawDict::<3>::try_from_sorted_slice(&list), Err(Error::InvalidData)), "unsorted input is refused");
        reach("unsorted");
    }
    if e.len() == 8 { reach("full") }
}

fn db_build_wide() {
    // 1..4 keys of 16 bits
    const P: [u64; 11] = [0, 1, 2, 0x00ff, 0x0100, 0x5555, 0x7fff, 0x8000, 0xfff0, 0xfffe, 0xffff];
    let mut list: Vec<(K<16>, Val)> = Vec::new();
    let mut e = Entries::new();
    let mut from = 0;
    for _ in 0..4 {
        let i = from + pick(11 - from, "k");
        if i >= 11 {
            break;
        }
        let v = Val::u8(any_u8("v"));
        put(&mut e, &key_bits(P[i as usize], 16), v.clone());
        list.push((K(P[i as usize]), v));
        from = i + 1;
    }
    match RawDict::<16>::try_from_sorted_slice(&list) {
        Ok(d) => check_tree(d.root(), &e, "built dictionary"),
        Err(_) => check(false, "build failed"),
    }
    if e.len() == 4 { reach("four") }
}

fn db_modify2() {
    // every dictionary over 2 bit keys, every combination of keep, set and remove
    let e = any_state(2, pick(15, "subset"), "vals");
    let new: [u8; 4] = any_bytes("new");
    let mut ops = Vec::new();
    for k in 0..4 {
        match pick(2, "op") {
            0 => {}
            1 => ops.push((k, Some(val(new[k as usize], k + 1)))),
            _ => ops.push((k, None)),
        }
    }
    if ops.len() == 4 { reach("all keys") }
    let fail = if any_bool("fail") { Some(pick(3, "fail at") as usize) } else { None };
    modify::<2>(e, &ops, fail);
}

fn db_modify3() {
    // every dictionary over 3 bit keys, up to two (thorough: three) changes
    let mut e = any_state(3, pick(255, "subset"), "vals");
    if !thorough() {
        // db_modify2 covers the interplay with equal values
        for (i, x) in e.iter_mut().enumerate() {
            x.1.bits = Val::u8(0x80 + i as u8).bits;
        }
    }
    let new: [u8; 8] = if thorough() { any_bytes("new") } else { [1, 2, 3, 4, 5, 6, 7, 8] };
    let mut ops = Vec::new();
    let mut from = 0;
    for _ in 0..if thorough() { 3 } else { 2 } {
        let k = from + pick(8 - from, "k");
        if k >= 8 {
            break;
        }
        ops.push((k, if any_bool("set") { Some(val(new[k as usize], k + 1)) } else { None }));
        from = k + 1;
    }
    if ops.len() > 1 { reach("two changes") }
    modify::<3>(e, &ops, None);
}

fn db_modify3_all() {
    let e = any_state(3, pick(255, "subset"), "vals");
    let new: [u8; 8] = any_bytes("new");
    let mut ops = Vec::new();
    for k in 0..8 {
        match pick(2, "op") {
            0 => {}
            1 => ops.push((k, Some(val(new[k as usize], k + 1)))),
            _ => ops.push((k, None)),
        }
    }
    if ops.len() == 8 { reach("all keys") }
    modify::<3>(e, &ops, None);
}

fn db_modify_wide() {
    const P: [u64; 8] = [0, 1, 0x00ff, 0x5555, 0x7fff, 0x8000, 0xfffe, 0xffff];
    // any three or fewer of the keys present, any two changed
    let mut e = Entries::new();
    let mut from = 0;
    for i in 0..3 {
        let k = from + pick(8 - from, "k");
        if k >= 8 {
            break;
        }
        put(&mut e, &key_bits(P[k as usize], 16), Val::u8(i));
        from = k + 1;
    }
    let mut ops = Vec::new();
    let mut from = 0;
    for _ in 0..2 {
        let k = from + pick(8 - from, "c");
        if k >= 8 {
            break;
        }
        ops.push((P[k as usize], if any_bool("set") { Some(Val::u8(any_u8("new"))) } else { None }));
        from = k + 1;
    }
    if ops.len() > 1 && e.len() == 3 { reach("two changes of three") }
    modify::<16>(e, &ops, None);
}

fn db_split() {
    let n = 3;
    let e = any_state(n, pick(255, "subset"), "vals");
    let root = make_tree(&e);
    let ctx = Cell::empty_context();
    let l = pick(3, "prefix length") as usize;
    let p = key_bits(pick((1 << l) - 1, "prefix"), l);
    let pc = key_cell(&p);
    let all = e.iter().all(|x| x.0[..l] == p[..]);
    match dict_split_by_prefix(root.as_ref(), n as u16, &pc.as_data_slice(), ctx) {
        Ok((a, b)) => {
            check(all, "split by a prefix of all keys");
            if l < n {
                let mut left = e.clone();
                left.retain(|x| x.0[l] == 0);
                let mut right = e.clone();
                right.retain(|x| x.0[l] == 1);
                check_tree(&a, &left, "left half");
                check_tree(&b, &right, "right half");
                match dict_merge_siblings(&a, &b, n as u16, ctx) {
                    Ok(m) => check_tree(&m, &e, "merged back"),
                    Err(_) => check(false, "halves do not merge"),
                }
                reach("split");
            } else {
                check(e.is_empty(), "nothing to split by");
            }
        }
        Err(_) => {
            check(!e.is_empty() && (!all || l == n), "split refused");
            reach("refused");
        }
    }
    if l == 0 {
        match dict_split_raw(root.as_ref(), n as u16, ctx) {
            Ok(s) => {
                if e.is_empty() || lcp(&e, 0) > 0 {
                    check(s.remaining_bit_len == 3, "unsplit key length");
                    let first = e.first().map(|x| x.0[0]);
                    check_tree(&s.left_branch, if first == Some(0) { &e } else { const { &Entries::new() } }, "left");
                    check_tree(&s.right_branch, if first == Some(1) { &e } else { const { &Entries::new() } }, "right");
                } else {
                    check(s.remaining_bit_len == 2, "split key length");
                    let m = e.iter().filter(|x| x.0[0] == 0).count();
                    match (&s.left_branch, &s.right_branch) {
                        (Some(a), Some(b)) => {
                            check_edge(a.as_ref(), &e[..m], 1, "left branch");
                            check_edge(b.as_ref(), &e[m..], 1, "right branch");
                            reach("raw split");
                        }
                        _ => check(false, "branches"),
                    }
                }
            }
            Err(_) => check(false, "raw split failed"),
        }
    }
}

fn db_siblings() {
    // any two dictionaries: merged exactly when they are the two sides of one fork
    let n = if thorough() { 3 } else { 2 };
    let a = any_state(n, pick((1 << (1 << n)) - 1, "a"), "va");
    let b = any_state(n, pick((1 << (1 << n)) - 1, "b"), "vb");
    let (ra, rb) = (make_tree(&a), make_tree(&b));
    let ctx = Cell::empty_context();
    let r = dict_merge_siblings(&ra, &rb, n as u16, ctx);
    if a.is_empty() || b.is_empty() {
        match r {
            Ok(m) => check_tree(&m, if a.is_empty() { &b } else { &a }, "one side"),
            Err(_) => check(false, "merge failed"),
        }
        return;
    }
    let mut all = a.clone();
    all.extend_from_slice(&b);
    let ok = {
        // all keys share a prefix, after which all of a go left and all of b go right
        let l = lcp(&[a[0].clone(), b[b.len() - 1].clone()], 0);
        l < n && a.iter().all(|x| x.0[..l] == a[0].0[..l] && x.0[l] == 0) && b.iter().all(|x| x.0[..l] == a[0].0[..l] && x.0[l] == 1)
    };
    match r {
        Ok(m) => {
            check(ok, "only siblings are merged");
            check_tree(&m, &all, "merged siblings");
            reach("merged");
        }
        Err(_) => {
            check(!ok, "siblings are merged");
            reach("refused");
        }
    }
}

fn db_merge() {
    // any two dictionaries: the union, the right side wins
    let n = if thorough() { 3 } else { 2 };
    let mut a = any_state(n, pick((1 << (1 << n)) - 1, "a"), "va");
    let b = any_state(n, pick((1 << (1 << n)) - 1, "b"), "vb");
    let mut ra = make_tree(&a);
    let rb = make_tree(&b);
    let r = dict_merge(&mut ra, &rb, n as u16, Cell::empty_context());
    for (k, v) in &b {
        put(&mut a, k, v.clone());
    }
    check(r.is_ok(), "merge failed");
    check_tree(&ra, &a, "merged dictionary");
    if a.len() == 1 << n { reach("full") }
}

fn db_load_root() {
    // a dictionary inlined in a larger slice: exactly its root is taken
    let e = any_state(3, pick(255, "subset"), "vals");
    if e.is_empty() {
        reach("empty");
        return;
    }
    let root = match make_tree(&e) { Some(r) => r, None => return };
    let pre = pick(3, "pre") as usize;
    let mut d = Bits::new();
    d.bytes(&any_bytes::<1>("pre"), pre);
    let leaf = e.len() == 1;
    let mut b = from_bits(&d);
    let after = if leaf { 0 } else { 5 };
    must(b.store_slice(CellSlice::new_allow_exotic(root.as_ref())));
    must(b.store_zeros(after));
    if !leaf {
        must(b.store_reference(Cell::empty_cell()));
    }
    let c = must(b.build());
    let mut s = CellSlice::new_allow_exotic(c.as_ref());
    check(s.skip_first(pre as u16, 0).is_ok(), "prefix");
    match RawDict::<3>::load_from_root_ext(&mut s, Cell::empty_context()) {
        Ok(r) => {
            check_tree(r.root(), &e, "dictionary loaded from an inlined root");
            check(s.size_bits() == after && s.size_refs() == if leaf { 0 } else { 1 }, "the rest is left");
            reach("loaded");
        }
        Err(_) => check(false, "load failed"),
    }
}
}
