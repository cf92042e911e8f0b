// Dictionary lookups, ordered searches and iteration against a sorted map; hostile and pruned trees.
use crate::vp::*;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/dict_model.rs"));

fn any_state(n: usize, subset: u64, name: &'static str) -> Entries {
    let vals: [u8; 16] = any_bytes(name);
    let leaf = Cell::empty_cell();
    let mut e = Entries::new();
    for k in 0..1u64 << n {
        if subset >> k & 1 != 0 {
            let mut v = Val::u8(vals[k as usize]);
            for _ in 0..k % 3 {
                v.refs.push(leaf.clone());
            }
            e.push((key_bits(k, n), v));
        }
    }
    e
}
fn ordered(e: &Entries, signed: bool, reversed: bool) -> Vec<usize> {
    let mut r: Vec<usize> = Vec::new();
    for i in 0..e.len() {
        let mut at = r.len();
        for (p, &j) in r.iter().enumerate() {
            if less(&e[i].0, &e[j].0, signed) != reversed {
                at = p;
                break;
            }
        }
        r.insert(at, i);
    }
    r
}
fn parts_val(p: &CellSliceParts, v: &Val, msg: &'static str) {
    match p.0.apply(&p.1) {
        Ok(s) => check_val(&s, v, msg),
        Err(_) => check(false, msg),
    }
}
fn entry(r: Result<Option<(CellDataBuilder, CellSliceParts)>, Error>, want: Option<usize>, e: &Entries, msg: &'static str) {
    match (r, want) {
        (Ok(None), None) => {}
        (Ok(Some((k, v))), Some(i)) => {
            check_key(&k, &e[i].0, msg);
            parts_val(&v, &e[i].1, msg);
        }
        _ => check(false, msg),
    }
}

/// Arbitrary data bits, 0..=max of them.
fn junk(max: u64, refs: &[Cell]) -> Cell {
    let n = pick(max, "n") as usize;
    let d: [u8; 4] = any_bytes("junk");
    let mut b = Bits::new();
    b.bytes(&d, n);
    let mut c = from_bits(&b);
    for r in refs {
        must(c.store_reference(r.clone()));
    }
    must(c.build())
}

harnesses! {
fn dq_get() {
    let n = 3;
    let e = any_state(n, pick(255, "subset"), "vals");
    let root = make_tree(&e);
    let d = RawDict::<3>::from(root);
    check(d.is_empty() == e.is_empty(), "emptiness");
    for k in 0..8 {
        let k = key_bits(k, n);
        let kc = key_cell(&k);
        let ks = kc.as_data_slice();
        let at = find(&e, &k);
        match d.get(ks) {
            Ok(None) => check(at.is_none(), "get misses a key"),
            Ok(Some(s)) => match at {
                Some(i) => check_val(&s, &e[i].1, "value"),
                None => check(false, "get finds a missing key"),
            },
            Err(_) => check(false, "get failed"),
        }
        match d.get_owned(ks) {
            Ok(None) => check(at.is_none(), "get misses a key"),
            Ok(Some(p)) => match at {
                Some(i) => parts_val(&p, &e[i].1, "value"),
                None => check(false, "get finds a missing key"),
            },
            Err(_) => check(false, "get failed"),
        }
        check(matches!(d.contains_key(ks), Ok(x) if x == at.is_some()), "contains");
        for signed in [false, true] {
            entry(d.get_next_owned(ks, signed), neighbour(&e, &k, true, false, signed), &e, "next key");
            entry(d.get_prev_owned(ks, signed), neighbour(&e, &k, false, false, signed), &e, "previous key");
            entry(d.get_or_next_owned(ks, signed), neighbour(&e, &k, true, true, signed), &e, "key or next");
            entry(d.get_or_prev_owned(ks, signed), neighbour(&e, &k, false, true, signed), &e, "key or previous");
        }
    }
    for signed in [false, true] {
        let o = ordered(&e, signed, false);
        for (first, bound) in [(true, DictBound::Min), (false, DictBound::Max)] {
            let want = if first { o.first() } else { o.last() }.copied();
            entry(d.get_bound_owned(bound, signed), want, &e, "bound");
            match (d.get_bound(bound, signed), want) {
                (Ok(None), None) => {}
                (Ok(Some((k, s))), Some(i)) => {
                    check_key(&k, &e[i].0, "bound key");
                    check_val(&s, &e[i].1, "bound value");
                }
                _ => check(false, "bound"),
            }
        }
    }
    if e.len() == 8 { reach("full") }
    if e.is_empty() { reach("empty") }
}

fn dq_iter() {
    let n = 3;
    let e = any_state(n, pick(255, "subset"), "vals");
    let root = make_tree(&e);
    for (reversed, signed) in [(false, false), (true, false), (false, true), (true, true)] {
        let o = ordered(&e, signed, reversed);
        let mut m = 0;
        let it = RawIter::new_ext(&root, n as u16, reversed, signed);
        for x in it.clone() {
            match (x, o.get(m)) {
                (Ok((k, s)), Some(&i)) => {
                    check_key(&k, &e[i].0, "key in order");
                    check_val(&s, &e[i].1, "value in order (iter)");
                }
                _ => check(false, "iteration"),
            }
            m += 1;
        }
        check(m == o.len(), "every entry once");
        let mut it = it;
        for &i in &o {
            match it.next_owned(&root) {
                Some(Ok((k, p))) => {
                    check_key(&k, &e[i].0, "key in order");
                    parts_val(&p, &e[i].1, "value in order (owned iter)");
                }
                _ => check(false, "owned iteration"),
            }
        }
        check(it.next_owned(&root).is_none(), "end");
        let mut m = 0;
        for x in RawKeys::new_ext(&root, n as u16, reversed, signed) {
            match (x, o.get(m)) {
                (Ok(k), Some(&i)) => check_key(&k, &e[i].0, "key in order"),
                _ => check(false, "keys"),
            }
            m += 1;
        }
        check(m == o.len(), "every key once");
        let mut m = 0;
        for x in RawValues::new_ext(&root, n as u16, reversed, signed) {
            match (x, o.get(m)) {
                (Ok(s), Some(&i)) => check_val(&s, &e[i].1, "value in order (values)"),
                _ => check(false, "values"),
            }
            m += 1;
        }
        check(m == o.len(), "every value once");
        let mut m = 0;
        for x in RawOwnedValues::new_ext(&root, n as u16, reversed, signed) {
            match (x, o.get(m)) {
                (Ok(p), Some(&i)) => parts_val(&p, &e[i].1, "value in order (owned values)"),
                _ => check(false, "owned values"),
            }
            m += 1;
        }
        check(m == o.len(), "every value once");
    }
    if e.len() == 8 { reach("full") }
}

fn dq_union() {
    let n = 2;
    let n3 = thorough();
    let n = if n3 { 3 } else { n };
    let a = any_state(n, pick(if n3 { 255 } else { 15 }, "a"), "va");
    let b = any_state(n, pick(if n3 { 255 } else { 15 }, "b"), "vb");
    let (ra, rb) = (make_tree(&a), make_tree(&b));
    let reversed = any_bool("reversed");
    let signed = any_bool("signed");
    let mut all = a.clone();
    for x in &b {
        put(&mut all, &x.0, x.1.clone());
    }
    let o = ordered(&all, signed, reversed);
    let mut m = 0;
    for x in UnionRawIter::new_ext(&ra, &rb, n as u16, reversed, signed) {
        match (x, o.get(m)) {
            (Ok((k, l, r)), Some(&i)) => {
                check_key(&k, &all[i].0, "key in order");
                match (l, find(&a, &all[i].0)) {
                    (Some(s), Some(j)) => check_val(&s, &a[j].1, "left value"),
                    (l, j) => check(l.is_none() && j.is_none(), "left presence"),
                }
                match (r, find(&b, &all[i].0)) {
                    (Some(s), Some(j)) => check_val(&s, &b[j].1, "right value"),
                    (l, j) => check(l.is_none() && j.is_none(), "right presence"),
                }
            }
            _ => check(false, "union"),
        }
        m += 1;
    }
    check(m == o.len(), "every key once");
    if m > 3 { reach("four keys") }
    reach("done");
}

fn dq_wide_find() {
    // wider keys: three entries, any query; the neighbours in both orders
    let n = 12;
    const K: [u64; 8] = [0, 1, 0x7ff, 0x800, 0xfff, 0x5a5, 0x5a4, 0xa5a];
    let mut e = Entries::new();
    let mut from = 0;
    for i in 0..3 {
        from += pick(7 - from, "k");
        put(&mut e, &key_bits(K[from as usize], n), Val::u8(i));
    }
    let root = make_tree(&e);
    // one bit of one of the keys changed, or one of the other patterns
    let q = K[pick(7, "q") as usize] ^ (1 << if thorough() { pick(n as u64, "flip") } else { [0, 1, 5, 10, 11, 12][pick(5, "flip") as usize] } & 0xfff);
    let k = key_bits(q, n);
    let kc = key_cell(&k);
    let signed = any_bool("signed");
    let d = RawDict::<12>::from(root);
    let ks = kc.as_data_slice();
    entry(d.get_next_owned(ks, signed), neighbour(&e, &k, true, false, signed), &e, "next key");
    entry(d.get_prev_owned(ks, signed), neighbour(&e, &k, false, false, signed), &e, "previous key");
    entry(d.get_or_next_owned(ks, signed), neighbour(&e, &k, true, true, signed), &e, "key or next");
    entry(d.get_or_prev_owned(ks, signed), neighbour(&e, &k, false, true, signed), &e, "key or previous");
    reach("done");
}

fn dq_hostile() {
    // a root with arbitrary contents: nothing panics, iteration ends, what it yields can be looked up
    let n = [1u16, 2, 3, 9][pick(3, "key bits") as usize];
    let deep = any_bool("deep");
    let kids: Vec<Cell> = if deep { let g = junk(3, &[]); vec![g.clone(), g] } else { vec![] };
    let t = thorough() as u64;
    let l = junk(if deep { 3 } else { 5 + t }, &kids);
    let r = junk(if deep { 2 } else { 3 + t }, &[]);
    let k = if deep { 2 } else { pick(3, "refs") as usize };
    let refs = [l, r.clone(), r];
    let c = junk(if deep { 4 + t } else { 7 + 2 * t }, &refs[..k]);
    let root = Some(c);
    let ctx = Cell::empty_context();
    let mut m = 0;
    let mut failed = false;
    for x in RawIter::new(&root, n) {
        m += 1;
        check(m < 16, "iteration ends");
        match x {
            Ok((key, s)) => {
                check(!failed, "nothing after an error");
                check(key.size_bits() == n, "key length");
                match dict_get(root.as_ref(), n, key.as_data_slice(), ctx) {
                    Ok(Some(t)) => check(s.range() == t.range() && s.contents_eq(&t).unwrap_or(false), "iterated entry can be looked up"),
                    _ => check(false, "iterated entry is missing"),
                }
                reach("entry");
            }
            Err(_) => {
                failed = true;
                reach("error");
            }
        }
    }
    let mut v = 0;
    for x in RawValues::new(&root, n) {
        v += 1;
        check(v < 16, "iteration ends");
        let _ = x;
    }
    check(v == m, "values and entries agree");
    reach("done");
}

fn dq_hostile_find() {
    let n = [1u16, 2, 3, 9][pick(3, "key bits") as usize];
    let l = junk(5, &[]);
    let k = pick(2, "refs") as usize;
    let refs = [l.clone(), l];
    let c = junk(if thorough() { 9 } else { 7 }, &refs[..k]);
    let root = Some(c);
    let ctx = Cell::empty_context();
    let q = from_bits(&Bits({ let d: [u8; 2] = any_bytes("q"); let mut b = Bits::new(); b.bytes(&d, n as usize); b.0 }));
    let ks = q.as_data_slice();
    let ok = match pick(7, "op") {
        0 => dict_get(root.as_ref(), n, ks, ctx).is_ok(),
        1 => dict_get_owned(root.as_ref(), n, ks, ctx).is_ok(),
        2 => dict_find_owned(root.as_ref(), n, ks, DictBound::Max, false, false, ctx).is_ok(),
        3 => dict_find_owned(root.as_ref(), n, ks, DictBound::Min, true, true, ctx).is_ok(),
        4 => dict_find_bound(root.as_ref(), n, DictBound::Min, any_bool("signed"), ctx).is_ok(),
        5 => dict_find_bound_owned(root.as_ref(), n, DictBound::Max, any_bool("signed"), ctx).is_ok(),
        6 => RawIter::new_ext(&root, n, true, true).all(|x| x.is_ok()),
        _ => RawKeys::new_ext(&root, n, false, true).all(|x| x.is_ok()),
    };
    if ok { reach("accepted") } else { reach("rejected") }
}

fn dq_hostile_mut() {
    let n = [1u16, 2, 3, 9][pick(3, "key bits") as usize];
    let l = junk(5, &[]);
    let k = pick(2, "refs") as usize;
    let refs = [l.clone(), l];
    let c = junk(if thorough() { 9 } else { 7 }, &refs[..k]);
    let root = Some(c);
    let ctx = Cell::empty_context();
    let q = from_bits(&Bits({ let d: [u8; 2] = any_bytes("q"); let mut b = Bits::new(); b.bytes(&d, n as usize); b.0 }));
    let mut ks = q.as_data_slice();
    let mut r = root.clone();
    let ok = match pick(4, "op") {
        0 => dict_insert(&mut r, &mut ks, n, &Val::u8(1), SetMode::Set, ctx).is_ok(),
        1 => dict_insert(&mut r, &mut ks, n, &Val::u8(1), SetMode::Add, ctx).is_ok(),
        2 => dict_remove_owned(&mut r, &mut ks, n, false, ctx).is_ok(),
        3 => dict_remove_bound_owned(&mut r, n, DictBound::Min, any_bool("signed"), ctx).is_ok(),
        _ => {
            let e = CellSlice::default();
            match dict_split_by_prefix(root.as_ref(), n, &e, ctx) {
                Ok(_) => true,
                Err(_) => false,
            }
        }
    };
    if ok {
        reach("accepted");
    } else {
        check(r == root, "a failed operation changes nothing");
        reach("rejected");
    }
}

fn dq_pruned() {
    // one subtree is replaced by a pruned branch: lookups elsewhere still work, lookups inside fail
    let n = 3;
    let mut e = any_state(n, pick(255, "subset"), "vals");
    let full = make_tree(&e);
    let root = match full { Some(c) if e.len() > 1 => c, _ => { reach("no fork"); return } };
    let side = pick(1, "side") as u8;
    let l = lcp(&e, 0);
    let mut b = CellBuilder::new();
    let mut d = Bits::new();
    d.uint(0x0101, 16);
    d.bytes(&any_bytes::<32>("hash"), 256);
    d.uint(1, 16);
    let mut pb = from_bits(&d);
    pb.set_exotic(true);
    let pb = must(pb.build());
    must(b.store_slice_data(CellSlice::new_allow_exotic(root.as_ref())));
    for i in 0..2u8 {
        if i == side {
            must(b.store_reference(pb.clone()));
        } else {
            must(b.store_reference(root.reference_cloned(i).unwrap()));
        }
    }
    let root = Some(must(b.build()));
    let ctx = Cell::empty_context();
    for k in 0..8 {
        let k = key_bits(k, n);
        let kc = key_cell(&k);
        let mut inside = k[l] == side;
        for i in 0..l {
            inside &= k[i] == e[0].0[i];
        }
        match (dict_get(root.as_ref(), n as u16, kc.as_data_slice(), ctx), find(&e, &k)) {
            (Err(_), _) => check(inside, "lookup fails only inside the pruned part"),
            (Ok(Some(s)), Some(i)) => {
                check(!inside, "lookup inside the pruned part fails");
                check_val(&s, &e[i].1, "value");
            }
            (Ok(None), None) => check(!inside, "lookup inside the pruned part fails"),
            _ => check(false, "wrong lookup result"),
        }
        // replacing a value elsewhere works and keeps the pruned branch
        if !inside && find(&e, &k).is_some() {
            let mut r = root.clone();
            let v = Val::u8(7);
            check(matches!(dict_insert(&mut r, &mut kc.as_data_slice(), n as u16, &v, SetMode::Replace, ctx), Ok(true)), "replace next to a pruned branch");
            match r.as_ref().and_then(|c| c.reference_cloned(side)) {
                Some(x) => check(x == pb, "pruned branch kept"),
                None => check(false, "pruned branch lost"),
            }
            check(matches!(dict_get(r.as_ref(), n as u16, kc.as_data_slice(), ctx), Ok(Some(s)) if { check_val(&s, &v, "replaced"); true }), "replaced");
        }
    }
    // iteration yields the entries before the pruned part, then one error
    let mut it = RawIter::new(&root, n as u16);
    if side == 1 {
        e.retain(|x| x.0[l] == 0);
        for x in &e {
            match it.next() {
                Some(Ok((k, s))) => { check_key(&k, &x.0, "key"); check_val(&s, &x.1, "value") }
                _ => check(false, "entry before the pruned part"),
            }
        }
    }
    check(matches!(it.next(), Some(Err(_))), "pruned part reported");
    check(it.next().is_none(), "end");
    reach("done");
}
}
