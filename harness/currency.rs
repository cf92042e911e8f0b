// Currency collections and the aggregates built from them.
use crate::vp::*;
use std::collections::{BTreeMap, HashMap};
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;
use tycho_types::models::*;
use tycho_types::num::*;
const TOP: bool = false;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/wire.rs"));

/// A 248 bit amount as high and low halves.
type A = (u128, u128);
const HI: u128 = (1 << 120) - 1;
fn add(a: A, b: A) -> Option<A> {
    let (lo, c) = a.1.overflowing_add(b.1);
    let hi = a.0 + b.0 + c as u128;
    (hi <= HI).then_some((hi, lo))
}
fn sub(a: A, b: A) -> Option<A> {
    if a < b {
        return None;
    }
    let (lo, c) = a.1.overflowing_sub(b.1);
    Some((a.0 - b.0 - c as u128, lo))
}
const IDS: [u32; 4] = [0, 0x80000001, 0xffffffff, 5];
/// Amounts by position in `IDS`.
type Model = [Option<A>; 4];

/// Zero, a small amount or an amount near the maximum.
fn any_amount(name: &'static str) -> A {
    match pick(2, name) {
        0 => (0, 0),
        1 => {
            let v = any_u8(name);
            assume(v != 0);
            (0, v as u128)
        }
        _ => (HI, u128::MAX - any_u8(name) as u128),
    }
}
/// Amounts of the currencies in `ids` (a bit mask).
fn any_model(ids: u8, name: &'static str) -> Model {
    let mut m: Model = [None; 4];
    for i in 0..4 {
        if ids >> i & 1 != 0 && any_bool(name) {
            m[i] = Some(any_amount(name));
        }
    }
    m
}
fn val(a: A) -> VarUint248 {
    VarUint248::from_words(a.0, a.1)
}
fn coll(m: &Model) -> ExtraCurrencyCollection {
    let mut d = Dict::<u32, VarUint248>::new();
    for i in 0..4 {
        if let Some(a) = m[i] {
            must(d.set(IDS[i], val(a)), "set");
        }
    }
    ExtraCurrencyCollection::from(d)
}
fn same(c: &ExtraCurrencyCollection, m: &Model, msg: &'static str) {
    let mut n = 0;
    for e in c.as_dict().iter() {
        let (k, v) = must(e, msg);
        let mut ok = false;
        for i in 0..4 {
            if IDS[i] == k {
                ok = m[i].is_some_and(|a| val(a) == v);
            }
        }
        check(ok, msg);
        n += 1;
    }
    check(n == m.iter().flatten().count(), msg);
    check(c.is_empty() == (n == 0), msg);
}
fn map2(a: &Model, b: &Model, f: impl Fn(A, A) -> Option<A>) -> Option<Model> {
    let mut r = *a;
    for i in 0..4 {
        if let Some(y) = b[i] {
            r[i] = match f(a[i].unwrap_or((0, 0)), y)? {
                (0, 0) => None,
                v => Some(v),
            };
        }
    }
    Some(r)
}
fn clamp(a: &Model, b: &Model) -> Model {
    let mut r = *a;
    for i in 0..4 {
        r[i] = match (a[i], b[i]) {
            (Some(x), Some(y)) => Some(x.min(y)),
            (Some((0, 0)), None) => Some((0, 0)),
            _ => None,
        };
    }
    r
}
fn any_tok(name: &'static str) -> u128 {
    let v = any_u128(name);
    assume(v < 1 << 120);
    v
}
fn tok(v: u128) -> Tokens {
    Tokens::new(v)
}
/// A currency collection with up to one extra currency, its encoding, and the amounts.
fn any_small(name: &'static str) -> (CurrencyCollection, Cur) {
    any_small_with(name, any_bool(name))
}
fn any_small_with(name: &'static str, extra: bool) -> (CurrencyCollection, Cur) {
    let (base, x) = (pick(1, name), any_u8(name));
    let t = if base == 0 { x as u128 } else { (1 << 120) - 1 - x as u128 };
    let mut m: Model = [None; 4];
    if extra {
        m[1] = Some(any_amount(name));
    }
    (CurrencyCollection { tokens: tok(t), other: coll(&m) }, Cur { t, m })
}
/// Small amounts of exactly 8 significant bits only (to bound the number of encodings).
fn lean(c: &Cur) -> bool {
    c.t >= 128 && c.m.iter().flatten().all(|a| *a >= (0, 128))
}
#[derive(Clone, Copy)]
struct Cur {
    t: u128,
    m: Model,
}
fn cur_add(a: &Cur, b: &Cur) -> Option<Cur> {
    let t = a.t + b.t;
    if t >= 1 << 120 {
        return None;
    }
    Some(Cur { t, m: map2(&a.m, &b.m, add)? })
}
fn same_cur(c: &CurrencyCollection, m: &Cur, msg: &'static str) {
    check(c.tokens == tok(m.t), msg);
    same(&c.other, &m.m, msg);
}
fn comp<T: AugDictExtra + Store + for<'a> Load<'a>>(a: &T, b: &T) -> Result<T, Error> {
    let a = must(CellBuilder::build_from(a), "aggregate");
    let b = must(CellBuilder::build_from(b), "aggregate");
    let mut r = CellBuilder::new();
    T::comp_add(&mut must(a.as_slice(), "slice"), &mut must(b.as_slice(), "slice"), &mut r, Cell::empty_context())?;
    let c = must(r.build(), "aggregate");
    let mut s = must(c.as_slice(), "slice");
    let v = must(T::load_from(&mut s), "an aggregate does not load");
    check(s.is_empty(), "an aggregate has something after it");
    Ok(v)
}

harnesses! {
    fn cu_add() {
        let (a, b) = (any_model(if thorough() { 0b0011 } else { 0b0001 }, "a"), any_model(if thorough() { 0b0111 } else { 0b0011 }, "b"));
        let (x, y) = (coll(&a), coll(&b));
        let want = map2(&a, &b, add);
        match (x.checked_add(&y), want) {
            (Ok(r), Some(w)) => { same(&r, &w, "sum of extra currencies"); reach("sum"); }
            (Err(e), None) => { check(e == Error::IntOverflow, "overflow of extra currencies"); reach("overflow"); }
            _ => check(false, "a sum of extra currencies is refused or overflows unnoticed"),
        }
        same(&x, &a, "operands change");
        same(&y, &b, "operands change");
    }
    fn cu_sub() {
        let (a, b) = (any_model(if thorough() { 0b0011 } else { 0b0001 }, "a"), any_model(if thorough() { 0b0111 } else { 0b0011 }, "b"));
        let (x, y) = (coll(&a), coll(&b));
        match (x.checked_sub(&y), map2(&a, &b, sub)) {
            (Ok(r), Some(w)) => { same(&r, &w, "difference of extra currencies"); reach("difference"); }
            (Err(e), None) => { check(e == Error::IntOverflow, "underflow of extra currencies"); reach("underflow"); }
            _ => check(false, "a difference of extra currencies is refused or underflows unnoticed"),
        }
    }
    fn cu_clamp() {
        let (a, b) = (any_model(0b0011, "a"), any_model(if thorough() { 0b0111 } else { 0b0101 }, "b"));
        let (x, y) = (coll(&a), coll(&b));
        let r = must(x.checked_clamp(&y), "clamping fails");
        same(&r, &clamp(&a, &b), "clamped extra currencies");
        let mut n = a;
        for v in n.iter_mut() {
            if *v == Some((0, 0)) { *v = None; }
        }
        same(&must(x.normalized(), "normalizing fails"), &n, "normalized extra currencies");
        let mut z = x.clone();
        must(z.normalize(), "normalizing fails");
        same(&z, &n, "normalized extra currencies");
        reach("clamp");
    }
    fn cu_from() {
        let m = any_model(0b0111, "m");
        let ord: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        let o = ord[pick(5, "order") as usize];
        let list: Vec<(u32, VarUint248)> = o.iter().filter_map(|&i| m[i].map(|a| (IDS[i], val(a)))).collect();
        same(&must(ExtraCurrencyCollection::try_from_iter(list.iter().cloned()), "from a list"), &m, "collection from a list");
        let b: BTreeMap<u32, VarUint248> = list.iter().cloned().collect();
        same(&must(ExtraCurrencyCollection::try_from(&b), "from a tree map"), &m, "collection from a tree map");
        same(&must(ExtraCurrencyCollection::try_from(b), "from a tree map"), &m, "collection from a tree map");
        let h: HashMap<u32, VarUint248, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>> = list.iter().cloned().collect();
        same(&must(ExtraCurrencyCollection::try_from(&h), "from a hash map"), &m, "collection from a hash map");
        same(&must(ExtraCurrencyCollection::try_from(h), "from a hash map"), &m, "collection from a hash map");
        let c = must(ExtraCurrencyCollection::try_from_iter(list), "from a list");
        let d: Dict<u32, VarUint248> = c.clone().into();
        check(d == coll(&m).into_dict() && d == *c.as_dict(), "dictionary of a collection");
        reach("from");
    }
    fn cu_tokens() {
        let (a, b) = (any_tok("a"), any_tok("b"));
        let other = if any_bool("other") { ExtraCurrencyCollection::from_raw(Some(tiny(1))) } else { ExtraCurrencyCollection::new() };
        let x = CurrencyCollection { tokens: tok(a), other: other.clone() };
        let mut s = x.clone();
        let r = s.try_add_assign_tokens(tok(b));
        check(r.is_ok() == (a + b < 1 << 120), "token overflow");
        check(s.tokens == tok(if r.is_ok() { a + b } else { a }) && s.other == other, "sum of tokens");
        let mut s = x.clone();
        let r = s.try_sub_assign_tokens(tok(b));
        check(r.is_ok() == (a >= b), "token underflow");
        check(s.tokens == tok(if r.is_ok() { a - b } else { a }) && s.other == other, "difference of tokens");
        check(x.is_zero() == (a == 0 && other.is_empty()), "is_zero");
        check(CurrencyCollection::new(a).tokens == tok(a) && CurrencyCollection::new(a).other.is_empty(), "new");
        check(CurrencyCollection::from(tok(a)) == CurrencyCollection::new(a), "from tokens");
        check(CurrencyCollection::default() == CurrencyCollection::ZERO && CurrencyCollection::ZERO.is_zero(), "zero");
        reach("tokens");
    }
    fn cu_coll() {
        let ((x, a), (y, b)) = (any_small("a"), any_small("b"));
        match (x.checked_add(&y), cur_add(&a, &b)) {
            (Ok(r), Some(w)) => { same_cur(&r, &w, "sum of collections"); reach("sum"); }
            (Err(_), None) => reach("overflow"),
            _ => check(false, "a sum of collections is refused or overflows unnoticed"),
        }
        let d = if a.t < b.t { None } else { map2(&a.m, &b.m, sub).map(|m| Cur { t: a.t - b.t, m }) };
        let mut z = x.clone();
        match (x.checked_sub(&y), d) {
            (Ok(r), Some(w)) => {
                same_cur(&r, &w, "difference of collections");
                must(z.try_sub_assign(&y), "assigned difference");
                same_cur(&z, &w, "assigned difference");
                reach("difference");
            }
            (Err(_), None) => {
                check(z.try_sub_assign(&y).is_err(), "assigned difference");
                same_cur(&z, &a, "a failed operation changes its target");
                reach("underflow");
            }
            _ => check(false, "a difference of collections is refused or underflows unnoticed"),
        }
        let mut z = x.clone();
        let r = z.try_add_assign(&y);
        same_cur(&z, &match (r, cur_add(&a, &b)) { (Ok(()), Some(w)) => w, _ => a }, "assigned sum");
        same_cur(&must(x.checked_clamp(&y), "clamp"), &Cur { t: a.t.min(b.t), m: clamp(&a.m, &b.m) }, "clamped collections");
    }
    /// Encodings of collections and aggregates.
    fn cu_wire() {
        let mut w = W::new();
        let cc = |w: &mut W| {
            let tokens = any_tokens(w, "tokens");
            let c = any_bool("extra").then(|| tiny(7));
            w.opt_cell(&c);
            CurrencyCollection { tokens, other: ExtraCurrencyCollection::from_raw(c) }
        };
        match pick(4, "kind") {
            0 => {
                let c = cc(&mut w);
                check(c.bit_len() as usize == w.b.len(), "bit length of a collection");
                let s = c.exact_size();
                check(s.bits as usize == w.b.len() && s.refs as usize == w.r.len(), "size of a collection");
                let o = c.other.exact_size();
                check(o.bits == 1 && o.refs as usize == w.r.len(), "size of extra currencies");
                wire(&c, &w);
                wire_cut::<CurrencyCollection>(&w);
            }
            1 => {
                let d = any_u8("depth") & 31;
                w.u(d as u128, 5);
                let balance = cc(&mut w);
                let v = DepthBalanceInfo { split_depth: d, balance };
                if d <= 30 {
                    wire(&v, &w);
                    wire_cut::<DepthBalanceInfo>(&w);
                    reach("depth");
                } else {
                    check(!v.is_valid() && CellBuilder::build_from(&v).is_err(), "an invalid split depth is stored");
                    wire_bad::<DepthBalanceInfo>(&w, "an invalid split depth is loaded");
                    reach("bad depth");
                }
            }
            2 => {
                let (k, lt) = (any_bool("key"), any_u64("lt"));
                w.bit(k).u(lt as u128, 64);
                wire(&KeyMaxLt { has_key_block: k, max_end_lt: lt }, &w);
                wire_cut::<KeyMaxLt>(&w);
            }
            3 => {
                let fees = cc(&mut w);
                let create = cc(&mut w);
                wire(&ShardFeeCreated { fees, create }, &w);
                wire_cut::<ShardFeeCreated>(&w);
            }
            _ => {
                let fees_collected = any_tokens(&mut w, "fees");
                let value_imported = cc(&mut w);
                wire(&ImportFees { fees_collected, value_imported }, &w);
                wire_cut::<ImportFees>(&w);
                reach("fees");
            }
        }
    }
    /// Aggregates are combined field by field.
    fn cu_aggregate() {
        match pick(4, "kind") {
            0 => {
                let ((x, a), (y, b)) = (any_small("a"), any_small("b"));
                match (comp(&x, &y), cur_add(&a, &b)) {
                    (Ok(r), Some(w)) => same_cur(&r, &w, "aggregate of currencies"),
                    (Err(_), None) => reach("overflow"),
                    _ => check(false, "aggregate of currencies"),
                }
            }
            1 => {
                let ((x, a), (y, b)) = (any_small_with("a", true), any_small_with("b", thorough()));
                let (d, e) = (any_upto(30, "d") as u8, any_upto(30, "e") as u8);
                match (comp(&DepthBalanceInfo { split_depth: d, balance: x }, &DepthBalanceInfo { split_depth: e, balance: y }), cur_add(&a, &b)) {
                    (Ok(r), Some(w)) => {
                        same_cur(&r.balance, &w, "aggregate of balances");
                        check(r.split_depth == if d > e { d } else { e }, "aggregate of split depths");
                        reach("balances");
                    }
                    (Err(_), None) => (),
                    _ => check(false, "aggregate of balances"),
                }
            }
            2 => {
                let (k, l) = (any_bool("k"), any_bool("l"));
                let (m, n) = (any_u64("m"), any_u64("n"));
                let r = must(comp(&KeyMaxLt { has_key_block: k, max_end_lt: m }, &KeyMaxLt { has_key_block: l, max_end_lt: n }), "aggregate of old blocks");
                check(r.has_key_block == (k | l) && r.max_end_lt == if m > n { m } else { n }, "aggregate of old blocks");
                reach("lt");
            }
            3 => {
                let ((x, a), (y, b)) = (any_small_with("a", true), any_small_with("b", thorough()));
                assume(thorough() || lean(&a) && lean(&b));
                let (p, q) = ((any_u8("p") | 128) as u128, (any_u8("q") | 128) as u128);
                let (u, v) = (Cur { t: p, m: [None; 4] }, Cur { t: q, m: [None; 4] });
                let swap = any_bool("swap");
                let mk = |c: CurrencyCollection, t: u128| {
                    let t = CurrencyCollection::new(t);
                    if swap { ShardFeeCreated { fees: t, create: c } } else { ShardFeeCreated { fees: c, create: t } }
                };
                match (comp(&mk(x, p), &mk(y, q)), cur_add(&a, &b)) {
                    (Ok(r), Some(w)) => {
                        let (c, t) = if swap { (r.create, r.fees) } else { (r.fees, r.create) };
                        same_cur(&c, &w, "aggregate of shard fees");
                        same_cur(&t, &cur_add(&u, &v).unwrap(), "aggregate of shard fees");
                        reach("shard fees");
                    }
                    (Err(_), None) => (),
                    _ => check(false, "aggregate of shard fees"),
                }
            }
            _ => {
                let ((x, a), (y, b)) = (any_small_with("a", true), any_small_with("b", thorough()));
                assume(thorough() || lean(&a) && lean(&b));
                let base = if any_bool("big") { (1u128 << 120) - 300 } else { 0 };
                let (p, q) = (base + (any_u8("p") | 128) as u128, (any_u8("q") | 128) as u128);
                let ok = p + q < 1 << 120;
                let l = ImportFees { fees_collected: tok(p), value_imported: x };
                let r = ImportFees { fees_collected: tok(q), value_imported: y };
                match (comp(&l, &r), cur_add(&a, &b)) {
                    (Ok(r), Some(w)) if ok => {
                        same_cur(&r.value_imported, &w, "aggregate of imported values");
                        check(r.fees_collected == tok(p + q), "aggregate of fees");
                        reach("import");
                    }
                    (Err(_), w) => check(w.is_none() || !ok, "aggregate of import fees"),
                    _ => check(false, "aggregate of import fees"),
                }
            }
        }
        // defaults
        check(DepthBalanceInfo::default() == DepthBalanceInfo { split_depth: 0, balance: CurrencyCollection::ZERO }, "default aggregate");
        check(KeyMaxLt::default() == KeyMaxLt { has_key_block: false, max_end_lt: 0 }, "default aggregate");
        check(ImportFees::default() == ImportFees { fees_collected: Tokens::ZERO, value_imported: CurrencyCollection::ZERO }, "default aggregate");
    }
}
