// Dictionary updates: map semantics and canonical form after every operation.
use crate::vp::*;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/dict_model.rs"));

const N: usize = 3;

/// An arbitrary dictionary over 3 bit keys: any subset of the keys, arbitrary values.
fn any_state(n: usize, subset: u64) -> Entries {
    let vals: [u8; 16] = any_bytes("vals");
    let leaf = Cell::empty_cell();
    let mut e = Entries::new();
    for k in 0..1u64 << n {
        if subset >> k & 1 != 0 {
            let mut v = Val::u8(vals[k as usize]);
            // leaf values have 0..2 references of their own
            for _ in 0..k % 3 {
                v.refs.push(leaf.clone());
            }
            e.push((key_bits(k, n), v));
        }
    }
    e
}
fn new_val() -> Val {
    let mut v = Val { bits: Bits::new(), refs: Vec::new() };
    v.bits.bytes(&any_bytes::<2>("new"), 13);
    v.refs.push(Cell::empty_cell());
    v
}

fn step(n: usize, subset: u64) {
    let mut e = any_state(n, subset);
    let before = make_tree(&e);
    let mut root = before.clone();
    let ctx = Cell::empty_context();
    let op = pick(5, "op");
    if op < 4 {
        let k = key_bits(pick((1 << n) - 1, "key"), n);
        let kc = key_cell(&k);
        let mut ks = kc.as_data_slice();
        let at = find(&e, &k);
        if op < 3 {
            let mode = [SetMode::Set, SetMode::Replace, SetMode::Add][op as usize];
            let v = new_val();
            let changed = match op {
                0 => true,
                1 => at.is_some(),
                _ => at.is_none(),
            };
            match dict_insert(&mut root, &mut ks, n as u16, &v, mode, ctx) {
                Ok(r) => check(r == changed, "insert reports whether it changed the dictionary"),
                Err(_) => check(false, "insert failed"),
            }
            let old = e.clone();
            if changed {
                put(&mut e, &k, v.clone());
            }
            check_tree(&root, &e, "dictionary after insert");
            // the variant which also returns the previous value
            let mut root2 = before.clone();
            let mut ks = kc.as_data_slice();
            match dict_insert_owned(&mut root2, &mut ks, n as u16, &v, mode, ctx) {
                Ok((r, prev)) => {
                    check(r == changed, "insert reports whether it changed the dictionary");
                    match prev {
                        // with `Add`, an existing value is reported as well
                        Some((range, cell)) => match (at, range.apply(&cell)) {
                            (Some(i), Ok(s)) => check_val(&s, &old[i].1, "previous value"),
                            _ => check(false, "previous value of a missing key"),
                        },
                        None => check(at.is_none(), "previous value reported"),
                    }
                }
                Err(_) => check(false, "insert failed"),
            }
            check_tree(&root2, &e, "dictionary after insert");
            if op == 0 { reach("set") } else if op == 1 { reach("replace") } else { reach("add") }
        } else {
            match dict_remove_owned(&mut root, &mut ks, n as u16, false, ctx) {
                Ok(Some((range, cell))) => match (at, range.apply(&cell)) {
                    (Some(i), Ok(s)) => {
                        check_val(&s, &e[i].1, "removed value");
                        e.remove(i);
                        reach("remove");
                    }
                    _ => check(false, "removed a missing key"),
                },
                Ok(None) => check(at.is_none(), "key not found"),
                Err(_) => check(false, "remove failed"),
            }
            check_tree(&root, &e, "dictionary after remove");
        }
    } else {
        let bound = if op == 4 { DictBound::Min } else { DictBound::Max };
        let signed = any_bool("signed");
        let mut at = None;
        for i in 0..e.len() {
            at = match at {
                Some(j) if less(&e[i].0, &e[j as usize].0, signed) != (op == 4) => Some(j),
                _ => Some(i),
            };
        }
        match dict_remove_bound_owned(&mut root, n as u16, bound, signed, ctx) {
            Ok(Some((key, (range, cell)))) => match (at, range.apply(&cell)) {
                (Some(i), Ok(s)) => {
                    check_key(&key, &e[i].0, "removed bound key");
                    check_val(&s, &e[i].1, "removed bound value");
                    e.remove(i);
                    reach("remove bound");
                }
                _ => check(false, "removed a bound of an empty dictionary"),
            },
            Ok(None) => check(at.is_none(), "bound not found"),
            Err(_) => check(false, "remove bound failed"),
        }
        check_tree(&root, &e, "dictionary after remove bound");
    }
}

harnesses! {
fn dm_step3() {
    step(3, pick(255, "subset"));
}
fn dm_step4() {
    // all dictionaries of up to four 4 bit keys
    let mut s = 0;
    let mut from = 0;
    for _ in 0..4 {
        let k = from + pick(16 - from, "next");
        if k >= 16 {
            break;
        }
        s |= 1 << k;
        from = k + 1;
    }
    step(4, s);
}

fn dm_wide() {
    // long keys: the three label encodings at every split position
    const W: [usize; 14] = [1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64];
    const P: [u64; 5] = [0, u64::MAX, 0x5555_5555_5555_5555, 0xff00_ff00_ff00_ff00, 0x0000_0001_0000_0001];
    let n = W[pick(13, "n") as usize];
    let m = if n == 64 { u64::MAX } else { (1 << n) - 1 };
    let pat = |name| P[pick(4, name) as usize] & m;
    let a = pat("a");
    // b agrees with a up to bit i, then differs and follows another pattern
    let i = pick(n as u64 - 1, "i") as usize;
    let low = if n - i - 1 == 0 { 0 } else { u64::MAX >> (64 - (n - i - 1)) };
    let b = (a & m & !(low << 1 | 1)) | (!a & (low.wrapping_add(1))) | (pat("b") & low);
    let (a, b) = (key_bits(a, n), key_bits(b, n));
    let ctx = Cell::empty_context();
    let mut root = None;
    let mut e = Entries::new();
    let (va, vb) = (Val::u8(any_u8("va")), Val::u8(any_u8("vb")));
    for (k, v) in [(&a, &va), (&b, &vb)] {
        let kc = key_cell(k);
        check(matches!(dict_insert(&mut root, &mut kc.as_data_slice(), n as u16, v, SetMode::Add, ctx), Ok(true)), "inserted");
        put(&mut e, k, v.clone());
        check_tree(&root, &e, "dictionary after insert");
    }
    for (k, v) in [(&a, &va), (&b, &vb)] {
        let kc = key_cell(k);
        match dict_get(root.as_ref(), n as u16, kc.as_data_slice(), ctx) {
            Ok(Some(s)) => check_val(&s, v, "value"),
            _ => check(false, "key lost"),
        }
    }
    let (k, v) = if any_bool("which") { (&a, &va) } else { (&b, &vb) };
    let kc = key_cell(k);
    match dict_remove_owned(&mut root, &mut kc.as_data_slice(), n as u16, false, ctx) {
        Ok(Some((range, cell))) => match range.apply(&cell) {
            Ok(s) => check_val(&s, v, "removed value"),
            Err(_) => check(false, "removed range"),
        },
        _ => check(false, "not removed"),
    }
    e.retain(|x| &x.0 != k);
    check_tree(&root, &e, "dictionary after remove");
    check(matches!(dict_get(root.as_ref(), n as u16, kc.as_data_slice(), ctx), Ok(None)), "removed key is gone");
    if n == 64 { reach("64 bit keys") }
    reach("done");
}

fn dm_three() {
    // two forks: removing any of three keys joins labels around a fork
    const W: [usize; 8] = [4, 5, 6, 7, 8, 9, 16, 33];
    let n = W[pick(if thorough() { 7 } else { 5 }, "n") as usize];
    let i = pick(n as u64 - 2, "i") as usize;
    let j = i + 1 + pick((n - i - 2) as u64, "j") as usize;
    let fill = |k: &mut Vec<u8>, to: usize, p: u64| {
        while k.len() < to {
            k.push(if p == 2 { k.len() as u8 & 1 } else { p as u8 });
        }
    };
    let x = any_bool("x") as u8;
    let y = any_bool("y") as u8;
    let mut a = Vec::new();
    fill(&mut a, i, pick(2, "prefix"));
    let mut b = a.clone();
    a.push(x);
    b.push(1 - x);
    fill(&mut a, n, x as u64);
    fill(&mut b, j, pick(2, "middle"));
    let mut c = b.clone();
    b.push(y);
    c.push(1 - y);
    let z = pick(2, "rest");
    fill(&mut b, n, z);
    fill(&mut c, n, 1 - z.min(1));
    let keys = [a, b, c];
    let mut e = Entries::new();
    for (i, k) in keys.iter().enumerate() {
        put(&mut e, k, Val::u8(i as u8 + 1));
    }
    let mut root = make_tree(&e);
    let at = pick(2, "which") as usize;
    let kc = key_cell(&keys[at]);
    match dict_remove_owned(&mut root, &mut kc.as_data_slice(), n as u16, false, Cell::empty_context()) {
        Ok(Some((range, cell))) => match range.apply(&cell) {
            Ok(s) => check_val(&s, &Val::u8(at as u8 + 1), "removed value"),
            Err(_) => check(false, "removed range"),
        },
        _ => check(false, "not removed"),
    }
    e.retain(|x| x.0 != keys[at]);
    check_tree(&root, &e, "dictionary after remove");
    // and back again
    let v = Val::u8(at as u8 + 1);
    put(&mut e, &keys[at], v.clone());
    check(matches!(dict_insert(&mut root, &mut kc.as_data_slice(), n as u16, &v, SetMode::Add, Cell::empty_context()), Ok(true)), "inserted");
    check_tree(&root, &e, "dictionary after insert");
    reach("done");
}

fn dm_symkey() {
    // two keys with arbitrary bits which differ first at bit i
    const W: [usize; 6] = [2, 6, 9, 12, 16, 20];
    let n = W[pick(if thorough() { 5 } else { 4 }, "n") as usize];
    let mut a = Bits::new();
    a.bytes(&any_bytes::<3>("a"), n);
    let mut b = Bits::new();
    b.bytes(&any_bytes::<3>("b"), n);
    let i = pick(n as u64 - 1, "i") as usize;
    for j in 0..i {
        b.0[j] = a.0[j];
    }
    let first = any_bool("first") as u8;
    a.0[i] = first;
    b.0[i] = 1 - first;
    let ctx = Cell::empty_context();
    let mut root = None;
    let (va, vb) = (Val::u8(any_u8("va")), Val::u8(any_u8("vb")));
    let (ka, kb) = (from_bits(&a), from_bits(&b));
    check(matches!(dict_insert(&mut root, &mut ka.as_data_slice(), n as u16, &va, SetMode::Set, ctx), Ok(true)), "inserted");
    check(matches!(dict_insert(&mut root, &mut kb.as_data_slice(), n as u16, &vb, SetMode::Add, ctx), Ok(true)), "inserted");
    let c = match &root { Some(c) => c, None => { check(false, "empty"); return } };
    // fork at the common prefix, the smaller key on the left
    let mut want = label(&a.0[..i], n);
    check_val(&CellSlice::new_allow_exotic(c.as_ref()).get_prefix(1023, 0), &Val { bits: core::mem::take(&mut want), refs: vec![] }, "fork label");
    let (l, r) = if first == 0 { ((&a, &va), (&b, &vb)) } else { ((&b, &vb), (&a, &va)) };
    for (j, (k, v)) in [l, r].into_iter().enumerate() {
        let mut want = label(&k.0[i + 1..], n - i - 1);
        want.append(&v.bits.0);
        match c.reference(j as u8) {
            Some(x) => check_val(&CellSlice::new_allow_exotic(x), &Val { bits: want, refs: vec![] }, "leaf"),
            None => check(false, "leaf missing"),
        }
    }
    match dict_get(root.as_ref(), n as u16, ka.as_data_slice(), ctx) {
        Ok(Some(s)) => check_val(&s, &va, "value"),
        _ => check(false, "key lost"),
    }
    // removing one leaves the canonical single leaf
    let mut one = root.clone();
    match dict_remove_owned(&mut one, &mut kb.as_data_slice(), n as u16, false, ctx) {
        Ok(Some((range, cell))) => match range.apply(&cell) {
            Ok(s) => check_val(&s, &vb, "removed value"),
            Err(_) => check(false, "removed range"),
        },
        _ => check(false, "not removed"),
    }
    let mut want = label(&a.0, n);
    want.append(&va.bits.0);
    match &one {
        Some(x) => check_val(&CellSlice::new_allow_exotic(x.as_ref()), &Val { bits: want, refs: vec![] }, "single leaf"),
        None => check(false, "emptied"),
    }
    reach("done");
}

fn dm_overflow() {
    // values near the capacity of a leaf: rejected exactly when label and value do not fit
    let n = 32usize;
    let a = key_bits(0x8000_0001, n);
    let b = key_bits([0x8000_0000u64, 0x8100_0001, 0x0000_0001][pick(2, "b") as usize], n);
    let len = 970 + pick(53, "len") as usize;
    let vb = Val { bits: Bits::zeros(len), refs: vec![Cell::empty_cell(); pick(4, "refs") as usize] };
    let mut e = Entries::new();
    put(&mut e, &a, Val::u8(1));
    let ctx = Cell::empty_context();
    let mut root = make_tree(&e);
    let kb = key_cell(&b);
    let mut e2 = e.clone();
    put(&mut e2, &b, vb.clone());
    let l = lcp(&e2, 0);
    let fits = label(&b[l + 1..], n - l - 1).len() + len <= 1023;
    match dict_insert(&mut root, &mut kb.as_data_slice(), n as u16, &vb, SetMode::Set, ctx) {
        Ok(x) => {
            check(x && fits, "inserted exactly when it fits");
            check_tree(&root, &e2, "dictionary after insert");
            // removing the small entry lengthens the label of the large one
            let ka = key_cell(&a);
            let room = label(&b, n).len() + len <= 1023;
            match dict_remove_owned(&mut root, &mut ka.as_data_slice(), n as u16, false, ctx) {
                Ok(x) => {
                    check(x.is_some() && room, "removed exactly when the merged label fits");
                    e2.retain(|x| x.0 == b);
                    check_tree(&root, &e2, "dictionary after remove");
                    reach("removed");
                }
                Err(_) => {
                    check(!room, "remove failed");
                    check_tree(&root, &e2, "dictionary after a failed remove");
                    reach("remove rejected");
                }
            }
        }
        Err(err) => {
            check(!fits && err == Error::CellOverflow, "rejected exactly when it does not fit");
            check_tree(&root, &e, "dictionary after a failed insert");
            reach("rejected");
        }
    }
}

fn dm_badkey() {
    // keys of any other length are refused and change nothing
    let e = any_state(3, pick(255, "subset"));
    let mut root = make_tree(&e);
    let len = [0usize, 1, 2, 4, 5, 17][pick(5, "len") as usize];
    let mut k = Bits::new();
    k.bytes(&any_bytes::<3>("k"), len);
    let kc = from_bits(&k);
    let ctx = Cell::empty_context();
    let v = Val::u8(1);
    check(dict_insert(&mut root, &mut kc.as_data_slice(), 3, &v, SetMode::Set, ctx).is_err(), "insert");
    check(dict_insert_owned(&mut root, &mut kc.as_data_slice(), 3, &v, SetMode::Set, ctx).is_err(), "insert owned");
    check(dict_remove_owned(&mut root, &mut kc.as_data_slice(), 3, false, ctx).is_err(), "remove");
    check(dict_get(root.as_ref(), 3, kc.as_data_slice(), ctx).is_err(), "get");
    check(dict_get_owned(root.as_ref(), 3, kc.as_data_slice(), ctx).is_err(), "get owned");
    check(dict_find_owned(root.as_ref(), 3, kc.as_data_slice(), DictBound::Max, true, false, ctx).is_err(), "find");
    check_tree(&root, &e, "unchanged");
    reach("refused");
}
}
