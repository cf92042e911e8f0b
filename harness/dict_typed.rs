// Dict<K, V> and RawDict<N>: every method against a sorted list of keys and values; key types.
use crate::vp::*;
use std::collections::BTreeMap;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;
use tycho_types::models::*;
use tycho_types::num::*;
const TOP: bool = true;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/wire.rs"));
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/dict_w.rs"));

/// A two bit key.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct K2(u8);
impl DictKey for K2 {
    const BITS: u16 = 2;
}
impl StoreDictKey for K2 {
    fn store_into_data(&self, data: &mut CellDataBuilder) -> Result<(), Error> {
        data.store_small_uint(self.0, 2)
    }
}
impl LoadDictKey for K2 {
    fn load_from_data(data: &CellDataBuilder) -> Option<Self> {
        Some(K2(data.raw_data()[0] >> 6))
    }
}
type D = Dict<K2, Uint9>;
/// Present values by key.
type M = [Option<u16>; 4];

fn any_model(name: &'static str) -> M {
    let set = pick(15, name);
    let mut m = [None; 4];
    for k in 0..4 {
        if set >> k & 1 == 1 {
            m[k] = Some(any_u16("value") & 511);
        }
    }
    m
}
/// The same with distinct fixed values in the quick tier.
fn fixed_model(name: &'static str, base: u16) -> M {
    if thorough() {
        return any_model(name);
    }
    let set = pick(15, name);
    let mut m = [None; 4];
    for k in 0..4 {
        if set >> k & 1 == 1 {
            m[k] = Some(base + k as u16);
        }
    }
    m
}
fn val_w(v: u16) -> W {
    let mut w = W::new();
    w.u(v as u128, 9);
    w
}
fn entries(m: &M) -> Vec<(Vec<u8>, W)> {
    (0..4).filter_map(|k| m[k].map(|v| (key_w(k as u128, 2), val_w(v)))).collect()
}
/// The dictionary of the model, built from its documented form.
fn root(m: &M) -> Option<Cell> {
    let e = entries(m);
    if e.is_empty() { None } else { Some(dict_w(&e, 0).build()) }
}
fn same(r: &Option<Cell>, m: &M, msg: &'static str) {
    let e = entries(m);
    match r {
        None => check(e.is_empty(), msg),
        Some(c) => {
            check(!e.is_empty(), msg);
            if !e.is_empty() {
                dict_w(&e, 0).check(c.as_ref(), msg);
            }
        }
    }
}
/// Position of a key in (un)signed order.
fn rank(k: usize, signed: bool) -> usize {
    if signed { k ^ 2 } else { k }
}
fn order(m: &M, signed: bool, reversed: bool) -> Vec<(usize, u16)> {
    let mut r: Vec<(usize, u16)> = (0..4).map(|p| rank(p, signed)).filter_map(|k| m[k].map(|v| (k, v))).collect();
    if reversed {
        r.reverse();
    }
    r
}
fn next_of(m: &M, k: usize, signed: bool, up: bool, inclusive: bool) -> Option<(usize, u16)> {
    let at = rank(k, signed);
    let o = order(m, signed, !up);
    o.into_iter().find(|(x, _)| {
        let p = rank(*x, signed);
        p == at && inclusive || up && p > at || !up && p < at
    })
}
fn entry(r: Result<Option<(K2, Uint9)>, Error>, want: Option<(usize, u16)>, msg: &'static str) {
    let r = must(r, msg);
    check(r.is_some() == want.is_some(), msg);
    if let (Some((k, v)), Some((x, y))) = (r, want) {
        check(k.0 as usize == x && v.into_inner() == y, msg);
    }
}
fn slice_val(s: &CellSlice<'_>, v: u16, msg: &'static str) {
    check(s.size_bits() == 9 && s.size_refs() == 0, msg);
    check(s.get_uint(0, 9) == Ok(v as u64), msg);
}
fn parts_val(p: &CellSliceParts, v: u16, msg: &'static str) {
    let s = must(p.0.apply(&p.1), msg);
    slice_val(&s, v, msg);
}
fn key_is(k: &CellDataBuilder, x: usize, msg: &'static str) {
    check(k.size_bits() == 2 && k.raw_data()[0] >> 6 == x as u8, msg);
}
fn key(k: usize) -> Cell {
    let mut b = CellBuilder::new();
    must(b.store_small_uint(k as u8, 2), "key");
    must(b.build(), "key")
}
fn raw_entry(r: Result<Option<(CellDataBuilder, CellSliceParts)>, Error>, want: Option<(usize, u16)>, msg: &'static str) {
    let r = must(r, msg);
    check(r.is_some() == want.is_some(), msg);
    if let (Some((k, v)), Some((x, y))) = (r, want) {
        key_is(&k, x, msg);
        parts_val(&v, y, msg);
    }
}
fn raw_slice_entry(r: Result<Option<(CellDataBuilder, CellSlice<'_>)>, Error>, want: Option<(usize, u16)>, msg: &'static str) {
    let r = must(r, msg);
    check(r.is_some() == want.is_some(), msg);
    if let (Some((k, v)), Some((x, y))) = (r, want) {
        key_is(&k, x, msg);
        slice_val(&v, y, msg);
    }
}
fn bound(up: bool) -> DictBound {
    if up { DictBound::Max } else { DictBound::Min }
}

harnesses! {
    /// Lookups and ordered searches in a typed dictionary.
    fn dt_get() {
        let m = any_model("set");
        let d = D::from_raw(root(&m));
        check(d.is_empty() == entries(&m).is_empty() && *d.root() == root(&m), "root of a dictionary");
        let k = pick(3, "key") as usize;
        let q = K2(k as u8);
        check(d.contains_key(q) == Ok(m[k].is_some()), "key present");
        check(d.contains_key(&q) == Ok(m[k].is_some()), "key present");
        check(d.get(q) == Ok(m[k].map(Uint9::new)) && d.get(&q) == Ok(m[k].map(Uint9::new)), "value of a key");
        let raw = must(d.get_raw(q), "raw value");
        check(raw.is_some() == m[k].is_some(), "raw value");
        if let (Some(s), Some(v)) = (raw, m[k]) {
            slice_val(&s, v, "raw value");
        }
        let raw = must(d.get_raw_owned(q), "raw value");
        check(raw.is_some() == m[k].is_some(), "raw value");
        if let (Some(s), Some(v)) = (raw, m[k]) {
            parts_val(&s, v, "raw value");
        }
        for signed in [false, true] {
            entry(d.get_next(q, signed), next_of(&m, k, signed, true, false), "next key");
            entry(d.get_prev(q, signed), next_of(&m, k, signed, false, false), "previous key");
            entry(d.get_or_next(q, signed), next_of(&m, k, signed, true, true), "key or the next");
            entry(d.get_or_prev(q, signed), next_of(&m, k, signed, false, true), "key or the previous");
            let first = order(&m, signed, false).first().copied();
            let last = order(&m, signed, true).first().copied();
            entry(d.get_min(signed), first, "least key");
            entry(d.get_max(signed), last, "greatest key");
            for up in [false, true] {
                let r = must(d.get_bound_raw(bound(up), signed), "bound");
                let want = if up { last } else { first };
                check(r.is_some() == want.is_some(), "bound");
                if let (Some((x, s)), Some((y, v))) = (r, want) {
                    check(x.0 as usize == y, "bound");
                    slice_val(&s, v, "bound");
                }
            }
        }
        reach("done");
    }

    /// Iteration over a typed dictionary.
    fn dt_iter() {
        let m = any_model("set");
        let d = D::from_raw(root(&m));
        let (signed, reversed) = (pick(1, "signed") == 1, pick(1, "reversed") == 1);
        let o = order(&m, signed, reversed);
        let (mut a, mut b, mut c) = (d.iter(), d.keys(), d.values());
        let (mut x, mut y, mut z) = (d.raw_iter(), d.raw_keys(), d.raw_values());
        // the two switches in either order
        if signed {
            a = a.signed();
            x = x.signed();
            z = z.signed();
        }
        if reversed {
            (a, b, c, x, y, z) = (a.reversed(), b.reversed(), c.reversed(), x.reversed(), y.reversed(), z.reversed());
        }
        if signed {
            b = b.signed();
            c = c.signed();
            y = y.signed();
        }
        check(x.is_signed() == signed && x.is_reversed() == reversed, "switches");
        check(y.is_signed() == signed && y.is_reversed() == reversed, "switches");
        check(z.is_signed() == signed && z.is_reversed() == reversed, "switches");
        let copies = (a.clone().count(), b.clone().count(), c.clone().count());
        check(copies == (o.len(), o.len(), o.len()), "copies of iterators");
        for (k, v) in o {
            check(a.next() == Some(Ok((K2(k as u8), Uint9::new(v)))), "entries in order");
            check(b.next() == Some(Ok(K2(k as u8))), "keys in order");
            check(c.next() == Some(Ok(Uint9::new(v))), "values in order");
            match x.next() {
                Some(Ok((kk, vv))) => {
                    key_is(&kk, k, "raw entries in order");
                    slice_val(&vv, v, "raw entries in order");
                }
                _ => check(false, "raw entries in order"),
            }
            match y.next() {
                Some(Ok(kk)) => key_is(&kk, k, "raw keys in order"),
                _ => check(false, "raw keys in order"),
            }
            match z.next() {
                Some(Ok(vv)) => slice_val(&vv, v, "raw values in order"),
                _ => check(false, "raw values in order"),
            }
        }
        check(a.next().is_none() && b.next().is_none() && c.next().is_none(), "end of the entries");
        check(x.next().is_none() && y.next().is_none() && z.next().is_none(), "end of the entries");
        reach("done");
    }

    /// Changing a typed dictionary.
    fn dt_change() {
        let mut m = any_model("set");
        let mut d = D::from_raw(root(&m));
        let old = d.clone();
        let k = pick(3, "key") as usize;
        let q = K2(k as u8);
        let v = any_u16("new") & 511;
        let had = m[k];
        let before = m;
        match pick(8, "change") {
            0 => {
                check(d.set(q, Uint9::new(v)) == Ok(true), "set");
                m[k] = Some(v);
                reach("set");
            }
            1 => {
                check(d.replace(&q, &Uint9::new(v)) == Ok(had.is_some()), "replace");
                if had.is_some() {
                    m[k] = Some(v);
                }
                reach("replace");
            }
            2 => {
                check(d.add(q, &Uint9::new(v)) == Ok(had.is_none()), "add");
                if had.is_none() {
                    m[k] = Some(v);
                }
                reach("add");
            }
            3 => {
                check(d.remove(q) == Ok(had.map(Uint9::new)), "remove");
                m[k] = None;
                reach("remove");
            }
            4 => {
                let r = must(d.remove_raw(&q), "remove");
                check(r.is_some() == had.is_some(), "remove");
                if let (Some(p), Some(v)) = (r, had) {
                    parts_val(&p, v, "removed value");
                }
                m[k] = None;
            }
            n => {
                let (signed, up) = (k & 1 == 1, k & 2 == 2);
                let want = order(&m, signed, if n == 5 { false } else if n == 6 { true } else { up }).first().copied();
                let r = must(match n {
                    5 => d.remove_min_raw(signed),
                    6 => d.remove_max_raw(signed),
                    _ => d.remove_bound_raw(bound(up), signed),
                }, "remove bound");
                check(r.is_some() == want.is_some(), "removed bound");
                if let (Some((x, p)), Some((y, v))) = (r, want) {
                    check(x.0 as usize == y, "removed bound");
                    parts_val(&p, v, "removed bound");
                    m[y] = None;
                }
                reach("bound");
            }
        }
        same(d.root(), &m, "a changed dictionary");
        same(old.root(), &before, "a copy of the dictionary changes");
        check((d == old) == (*d.root() == *old.root()), "equal dictionaries");
        same(&d.into_root(), &m, "root of the dictionary");
    }

    /// Many changes at once, building, splitting, merging and storing.
    fn dt_bulk() {
        let op = pick(5, "operation");
        let m = if op == 1 { fixed_model("set", 17) } else { any_model("set") };
        let d = D::from_raw(root(&m));
        match op {
            0 => {
                let list: Vec<(K2, Uint9)> = order(&m, false, false).into_iter().map(|(k, v)| (K2(k as u8), Uint9::new(v))).collect();
                same(must(D::try_from_sorted_slice(&list), "slice").root(), &m, "dictionary of a slice");
                let map: BTreeMap<K2, Uint9> = list.into_iter().collect();
                same(must(D::try_from_btree(&map), "map").root(), &m, "dictionary of a map");
                reach("build");
            }
            1 => {
                let mut list = Vec::new();
                let mut n = m;
                let what = pick(80, "changes");
                let mut w = what;
                for k in 0..4u8 {
                    match w % 3 {
                        0 => {}
                        1 => {
                            list.push((K2(k), None));
                            n[k as usize] = None;
                        }
                        _ => {
                            let v = if thorough() { any_u16("new") & 511 } else { 300 + k as u16 };
                            list.push((K2(k), Some(Uint9::new(v))));
                            n[k as usize] = Some(v);
                        }
                    }
                    w /= 3;
                }
                let mut e = d.clone();
                must(e.modify_with_sorted_iter(list.clone()), "changes");
                same(e.root(), &n, "many changes");
                let mut e = d.clone();
                must(e.modify_with_sorted_iter_ext(list, |(k, _)| *k, |(_, v)| Ok(v), Cell::empty_context()), "changes");
                same(e.root(), &n, "many changes");
                same(d.root(), &m, "a copy of the dictionary changes");
                reach("modify");
            }
            2 => {
                let (mut l, mut r) = ([None; 4], [None; 4]);
                l[..2].copy_from_slice(&m[..2]);
                r[2..].copy_from_slice(&m[2..]);
                let (a, b) = must(d.split(), "split");
                same(a.root(), &l, "left half");
                same(b.root(), &r, "right half");
                same(must(a.merge_with_right_sibling(&b), "merge").root(), &m, "merged halves");
                reach("split");
            }
            3 => {
                let p = pick(1, "prefix") as usize;
                let c = {
                    let mut b = CellBuilder::new();
                    must(b.store_bit(p == 1), "prefix");
                    must(b.build(), "prefix")
                };
                let s = must(c.as_slice(), "prefix");
                let (mut l, mut r) = ([None; 4], [None; 4]);
                l[2 * p] = m[2 * p];
                r[2 * p + 1] = m[2 * p + 1];
                match d.split_by_prefix(&s) {
                    Ok((a, b)) => {
                        same(a.root(), &l, "left part of a prefix");
                        same(b.root(), &r, "right part of a prefix");
                        reach("split by prefix");
                    }
                    Err(_) => check(m[2 - 2 * p].is_some() || m[3 - 2 * p].is_some(), "splitting is refused"),
                }
            }
            4 => {
                let mut w = W::new();
                dict_e(&mut w, &entries(&m));
                wire(&d, &w);
                check(d.exact_size() == (Size { bits: 1, refs: w.r.len() as u8 }), "size of a dictionary");
                wire_cut::<D>(&w);
                let r = RawDict::<2>::from(root(&m));
                wire(&r, &w);
                check(r.exact_size() == d.exact_size(), "size of a dictionary");
                reach("store");
            }
            _ => {
                if let Some(c) = root(&m) {
                    let mut s = must(c.as_slice(), "root");
                    let e = must(D::load_from_root_ext(&mut s, Cell::empty_context()), "inlined root");
                    same(e.root(), &m, "inlined root");
                    check(s.size_bits() == 0 && s.size_refs() == 0, "inlined root");
                    reach("inlined");
                }
                check(D::from(root(&m)) == d && D::from_raw(root(&m)) == d, "dictionary of a root");
                check(D::new() == D::default() && D::new().is_empty(), "empty dictionary");
            }
        }
    }

    /// Two dictionaries side by side.
    fn dt_union() {
        let (a, b) = (fixed_model("left", 17), fixed_model("right", 300));
        let (x, y) = (D::from_raw(root(&a)), D::from_raw(root(&b)));
        let (signed, reversed) = (pick(1, "signed") == 1, pick(1, "reversed") == 1);
        let (mut t, mut r) = (x.iter_union(&y), x.raw_iter_union(&y));
        let (rx, ry) = (RawDict::<2>::from(root(&a)), RawDict::<2>::from(root(&b)));
        let mut p = rx.iter_union(&ry);
        if signed {
            (t, r, p) = (t.signed(), r.signed(), p.signed());
        }
        if reversed {
            (t, r, p) = (t.reversed(), r.reversed(), p.reversed());
        }
        let mut ks: Vec<usize> = (0..4).map(|p| rank(p, signed)).filter(|k| a[*k].is_some() || b[*k].is_some()).collect();
        if reversed {
            ks.reverse();
        }
        for k in ks {
            check(t.next() == Some(Ok((K2(k as u8), a[k].map(Uint9::new), b[k].map(Uint9::new)))), "union in order");
            for it in [&mut r, &mut p] {
                match it.next() {
                    Some(Ok((kk, u, v))) => {
                        key_is(&kk, k, "raw union in order");
                        check(u.is_some() == a[k].is_some() && v.is_some() == b[k].is_some(), "raw union in order");
                        if let (Some(s), Some(v)) = (u, a[k]) {
                            slice_val(&s, v, "raw union in order");
                        }
                        if let (Some(s), Some(v)) = (v, b[k]) {
                            slice_val(&s, v, "raw union in order");
                        }
                    }
                    _ => check(false, "raw union in order"),
                }
            }
        }
        check(t.next().is_none() && r.next().is_none() && p.next().is_none(), "end of the union");
        reach("done");
    }

    /// Values that do not load are reported once and end the iteration.
    fn dt_bad() {
        let mut m = any_model("set");
        let bad = pick(3, "bad") as usize;
        m[bad] = Some(0);
        let mut e: Vec<(Vec<u8>, W)> = Vec::new();
        for k in 0..4 {
            if let Some(v) = m[k] {
                let mut w = val_w(v);
                if k == bad {
                    w.b.0.truncate(8);
                }
                e.push((key_w(k as u128, 2), w));
            }
        }
        let d = D::from_raw(Some(dict_w(&e, 0).build()));
        let k = pick(3, "key") as usize;
        check(d.get(K2(k as u8)).is_err() == (k == bad), "a short value is loaded");
        check(d.contains_key(K2(k as u8)) == Ok(m[k].is_some()), "key present");
        let mut it = d.iter();
        let mut vs = d.values();
        for (k, v) in order(&m, false, false) {
            if k == bad {
                check(matches!(it.next(), Some(Err(_))) && matches!(vs.next(), Some(Err(_))), "a short value is loaded");
                check(it.next().is_none() && vs.next().is_none(), "iteration goes on after an error");
                break;
            }
            check(it.next() == Some(Ok((K2(k as u8), Uint9::new(v)))), "entries in order");
            check(vs.next() == Some(Ok(Uint9::new(v))), "values in order");
        }
        check(d.keys().count() == e.len(), "keys are loaded without values");
        let mut f = d.clone();
        check(f.remove(K2(bad as u8)).is_err(), "a short value is loaded");
        reach("done");
    }

    /// Lookups and searches in a raw dictionary.
    fn dt_raw_get() {
        let m = any_model("set");
        let d = RawDict::<2>::from(root(&m));
        let k = pick(3, "key") as usize;
        let kc = key(k);
        let q = must(kc.as_slice(), "key");
        let cx = Cell::empty_context();
        check(d.contains_key(q) == Ok(m[k].is_some()), "key present");
        for r in [must(d.get(q), "value"), must(d.get_ext(q, cx), "value")] {
            check(r.is_some() == m[k].is_some(), "value of a key");
            if let (Some(s), Some(v)) = (r, m[k]) {
                slice_val(&s, v, "value of a key");
            }
        }
        for r in [must(d.get_owned(q), "value"), must(d.get_owned_ext(q, cx), "value")] {
            check(r.is_some() == m[k].is_some(), "value of a key");
            if let (Some(s), Some(v)) = (r, m[k]) {
                parts_val(&s, v, "value of a key");
            }
        }
        for signed in [false, true] {
            raw_entry(d.get_next_owned(q, signed), next_of(&m, k, signed, true, false), "next key");
            raw_entry(d.get_prev_owned(q, signed), next_of(&m, k, signed, false, false), "previous key");
            raw_entry(d.get_or_next_owned(q, signed), next_of(&m, k, signed, true, true), "key or the next");
            raw_entry(d.get_or_prev_owned(q, signed), next_of(&m, k, signed, false, true), "key or the previous");
            let first = order(&m, signed, false).first().copied();
            let last = order(&m, signed, true).first().copied();
            raw_slice_entry(d.get_min(signed), first, "least key");
            raw_slice_entry(d.get_max(signed), last, "greatest key");
            raw_entry(d.get_min_owned(signed), first, "least key");
            raw_entry(d.get_max_owned(signed), last, "greatest key");
            for up in [false, true] {
                let want = if up { last } else { first };
                raw_slice_entry(d.get_bound(bound(up), signed), want, "bound");
                raw_slice_entry(d.get_bound_ext(bound(up), signed, cx), want, "bound");
                raw_entry(d.get_bound_owned(bound(up), signed), want, "bound");
                raw_entry(d.get_bound_owned_ext(bound(up), signed, cx), want, "bound");
            }
        }
        reach("done");
    }

    /// Iteration over a raw dictionary.
    fn dt_raw_iter() {
        let m = any_model("set");
        let d = RawDict::<2>::from(root(&m));
        check(d.is_empty() == root(&m).is_none() && *d.root() == root(&m), "root of a dictionary");
        let (signed, reversed) = (pick(1, "signed") == 1, pick(1, "reversed") == 1);
        let o = order(&m, signed, reversed);
        let (mut a, mut b, mut c, mut e, mut f) = (d.iter(), d.keys(), d.values(), d.iter_owned(), d.values_owned());
        if reversed {
            (a, b, c, e, f) = (a.reversed(), b.reversed(), c.reversed(), e.reversed(), f.reversed());
        }
        if signed {
            (a, b, c, e, f) = (a.signed(), b.signed(), c.signed(), e.signed(), f.signed());
        }
        check(a.is_signed() == signed && a.is_reversed() == reversed, "switches");
        check(b.is_signed() == signed && b.is_reversed() == reversed, "switches");
        check(c.is_signed() == signed && c.is_reversed() == reversed, "switches");
        check(e.is_signed() == signed && e.is_reversed() == reversed, "switches");
        check(f.is_signed() == signed && f.is_reversed() == reversed, "switches");
        for (k, v) in o {
            match (a.next(), b.next(), c.next(), e.next(), f.next()) {
                (Some(Ok((k1, v1))), Some(Ok(k2)), Some(Ok(v2)), Some(Ok((k3, v3))), Some(Ok(v4))) => {
                    key_is(&k1, k, "raw entries");
                    key_is(&k2, k, "raw keys");
                    key_is(&k3, k, "owned raw entries");
                    slice_val(&v1, v, "raw entries");
                    slice_val(&v2, v, "raw values");
                    parts_val(&v3, v, "owned raw entries");
                    parts_val(&v4, v, "owned raw values");
                }
                _ => check(false, "raw entries in order"),
            }
        }
        check(a.next().is_none() && b.next().is_none() && c.next().is_none() && e.next().is_none() && f.next().is_none(), "end of the entries");
        reach("done");
    }

    /// Changing a raw dictionary.
    fn dt_raw_change() {
        let mut m = any_model("set");
        let mut d = RawDict::<2>::from(root(&m));
        let k = pick(3, "key") as usize;
        let kc = key(k);
        let q = must(kc.as_slice(), "key");
        let v = any_u16("new") & 511;
        let had = m[k];
        let cx = Cell::empty_context();
        match pick(10, "change") {
            n @ 0..=1 => {
                let u = Uint9::new(v);
                check(if n == 0 { d.set(q, u) } else { d.set_ext(q, &u, cx) } == Ok(true), "set");
                m[k] = Some(v);
            }
            n @ 2..=3 => {
                let u = Uint9::new(v);
                check(if n == 2 { d.replace(q, u) } else { d.replace_ext(q, &u, cx) } == Ok(had.is_some()), "replace");
                if had.is_some() {
                    m[k] = Some(v);
                }
            }
            n @ 4..=5 => {
                let u = Uint9::new(v);
                check(if n == 4 { d.add(q, u) } else { d.add_ext(q, &u, cx) } == Ok(had.is_none()), "add");
                if had.is_none() {
                    m[k] = Some(v);
                }
            }
            6 => {
                let r = must(d.remove(q), "remove");
                check(r.is_some() == had.is_some(), "remove");
                if let (Some(p), Some(v)) = (r, had) {
                    parts_val(&p, v, "removed value");
                }
                m[k] = None;
            }
            n => {
                let (signed, up) = (k & 1 == 1, k & 2 == 2);
                let want = order(&m, signed, match n { 7 => false, 8 => true, _ => up }).first().copied();
                let r = match n {
                    7 => d.remove_min(signed),
                    8 => d.remove_max(signed),
                    9 => d.remove_bound(bound(up), signed),
                    _ => d.remove_bound_ext(bound(up), signed, cx),
                };
                raw_entry(r, want, "removed bound");
                if let Some((y, _)) = want {
                    m[y] = None;
                }
                reach("bound");
            }
        }
        same(d.root(), &m, "a changed dictionary");
        same(&d.into_root(), &m, "root of the dictionary");
        reach("done");
    }

    /// Building, splitting a raw dictionary.
    fn dt_raw_bulk() {
        let m = any_model("set");
        let d = RawDict::<2>::from(root(&m));
        let (mut l, mut r) = ([None; 4], [None; 4]);
        match pick(2, "operation") {
            0 => {
                let list: Vec<(K2, Uint9)> = order(&m, false, false).into_iter().map(|(k, v)| (K2(k as u8), Uint9::new(v))).collect();
                same(must(RawDict::<2>::try_from_sorted_slice(&list), "slice").root(), &m, "dictionary of a slice");
                let map: BTreeMap<K2, Uint9> = list.into_iter().collect();
                same(must(RawDict::<2>::try_from_btree(&map), "map").root(), &m, "dictionary of a map");
                if let Some(c) = root(&m) {
                    let mut s = must(c.as_slice(), "root");
                    let e = must(RawDict::<2>::load_from_root_ext(&mut s, Cell::empty_context()), "inlined root");
                    same(e.root(), &m, "inlined root");
                }
                check(RawDict::<2>::new() == RawDict::<2>::default(), "empty dictionary");
            }
            1 => {
                l[..2].copy_from_slice(&m[..2]);
                r[2..].copy_from_slice(&m[2..]);
                let (a, b) = must(d.split(), "split");
                same(a.root(), &l, "left half");
                same(b.root(), &r, "right half");
            }
            _ => {
                let c = {
                    let mut b = CellBuilder::new();
                    must(b.store_bit(true), "prefix");
                    must(b.build(), "prefix")
                };
                l[2] = m[2];
                r[3] = m[3];
                match d.split_by_prefix(&must(c.as_slice(), "prefix")) {
                    Ok((a, b)) => {
                        same(a.root(), &l, "left part of a prefix");
                        same(b.root(), &r, "right part of a prefix");
                    }
                    Err(_) => check(m[0].is_some() || m[1].is_some(), "splitting is refused"),
                }
            }
        }
        reach("done");
    }

    /// Keys of every type: their bits, and back.
    fn dt_keys() {
        fn one<K: StoreDictKey + LoadDictKey + PartialEq>(k: K, w: &W) {
            check(K::BITS as usize == w.b.len() && <&K as DictKey>::BITS == K::BITS, "width of a key");
            let mut b = CellDataBuilder::new();
            must(k.store_into_data(&mut b), "key");
            check(b.size_bits() as usize == w.b.len(), "bits of a key");
            for i in 0..w.b.len().div_ceil(8) {
                check(b.raw_data()[i] == w.b.byte(i), "bits of a key");
            }
            match K::load_from_data(&b) {
                Some(x) => check(x == k, "key of its bits"),
                None => check(false, "a key is refused"),
            }
            let mut c = CellDataBuilder::new();
            must((&k).store_into_data(&mut c), "key");
            check(c.raw_data() == b.raw_data(), "bits of a key");
        }
        let mut w = W::new();
        let x = any_u128("key");
        let bytes = any_bytes::<32>("bytes");
        match pick(20, "type") {
            0 => one(x & 1 == 1, w.u(x, 1)),
            1 => one(x as u8, w.u(x, 8)),
            2 => one(x as i8, w.u(x, 8)),
            3 => one(x as u16, w.u(x, 16)),
            4 => one(x as i16, w.u(x, 16)),
            5 => one(x as u32, w.u(x, 32)),
            6 => one(x as i32, w.u(x, 32)),
            7 => one(x as u64, w.u(x, 64)),
            8 => one(x as i64, w.u(x, 64)),
            9 => one(x, w.u(x, 128)),
            10 => one(x as i128, w.u(x, 128)),
            11 => one::<[u8; 16]>(bytes[..16].try_into().unwrap(), w.by(&bytes, 128)),
            12 => one::<[u8; 20]>(bytes[..20].try_into().unwrap(), w.by(&bytes, 160)),
            13 => one(bytes, w.by(&bytes, 256)),
            14 => one(HashBytes(bytes), w.by(&bytes, 256)),
            15 => one((x as u64, (x >> 64) as u32), w.u(x, 64).u(x >> 64, 32)),
            16 => one(Uint9::new(x as u16 & 511), w.u(x, 9)),
            17 => one(Uint12::new(x as u16 & 4095), w.u(x, 12)),
            18 => one(Uint15::new(x as u16 & 32767), w.u(x, 15)),
            19 => {
                let a = StdAddr::new(x as i8, HashBytes(bytes));
                one(a, w.u(4, 3).u(x, 8).by(&bytes, 256));
            }
            _ => {
                let s = ShardIdentFull { workchain: x as i32, prefix: (x >> 64) as u64 };
                w.u(x, 32).u(x >> 64, 64);
                let mut b = CellDataBuilder::new();
                must(s.store_into_data(&mut b), "key");
                check(ShardIdentFull::BITS == 96 && b.size_bits() == 96, "width of a key");
                for i in 0..12 {
                    check(b.raw_data()[i] == w.b.byte(i), "bits of a key");
                }
                match ShardIdentFull::load_from_data(&b) {
                    Some(k) => check(k.workchain == s.workchain && k.prefix == s.prefix, "key of its bits"),
                    None => check(false, "a key is refused"),
                }
            }
        }
        reach("done");
    }
}
