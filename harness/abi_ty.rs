// ABI types, versions and header names as text; contract descriptions; Rust values as ABI values.
use crate::vp::*;
use bytes::Bytes;
use num_bigint::{BigInt, BigUint};
use sha2::Digest;
use std::collections::BTreeMap;
use std::num::NonZeroU8;
use std::str::FromStr;
use std::sync::Arc;
use tycho_types::abi::*;
use tycho_types::cell::*;
use tycho_types::models::*;
use tycho_types::num::*;

const TOP: bool = true;
include!("wire.rs");
include!("dict_w.rs");
include!("abi_gen.rs");

/// A type, its text, its short text, its components.
#[derive(Clone)]
struct T {
    t: AbiType,
    full: String,
    short: String,
    comps: Option<String>,
    plain: Option<PlainAbiType>,
    default: AbiValue,
}
fn nz(n: u8) -> NonZeroU8 {
    NonZeroU8::new(n).unwrap_or(NonZeroU8::MIN)
}
fn leaf(t: AbiType, s: String, plain: Option<PlainAbiType>, default: AbiValue) -> T {
    T { t, full: s.clone(), short: s, comps: None, plain, default }
}
fn json(name: &str, t: &T) -> String {
    match &t.comps {
        None => format!("{{\"name\":\"{name}\",\"type\":\"{}\"}}", t.short),
        Some(c) => format!("{{\"name\":\"{name}\",\"type\":\"{}\",\"components\":[{c}]}}", t.short),
    }
}
fn tuple_t(items: &[(&str, T)]) -> T {
    T {
        t: AbiType::Tuple(items.iter().map(|(n, t)| NamedAbiType { name: Arc::from(*n), ty: t.t.clone() }).collect()),
        full: format!("({})", items.iter().map(|x| x.1.full.as_str()).collect::<Vec<_>>().join(",")),
        short: "tuple".into(),
        comps: Some(items.iter().map(|(n, t)| json(n, t)).collect::<Vec<_>>().join(",")),
        plain: None,
        default: AbiValue::Tuple(items.iter().map(|(n, t)| NamedAbiValue { name: Arc::from(*n), value: t.default.clone() }).collect()),
    }
}
fn wrap(t: T, f: impl Fn(&str) -> String, ty: impl Fn(Arc<AbiType>) -> AbiType, default: impl Fn(&T) -> AbiValue) -> T {
    T { default: default(&t), full: f(&t.full), short: f(&t.short), comps: t.comps, plain: None, t: ty(Arc::new(t.t)) }
}
fn any_leaf(i: u64) -> T {
    let uint = |n: u16| leaf(AbiType::Uint(n), format!("uint{n}"), Some(PlainAbiType::Uint(n)), AbiValue::Uint(n, BigUint::from(0u8)));
    let int = |n: u16| leaf(AbiType::Int(n), format!("int{n}"), Some(PlainAbiType::Int(n)), AbiValue::Int(n, BigInt::from(0)));
    match i {
        0 => uint(8),
        1 => leaf(AbiType::Bool, "bool".into(), Some(PlainAbiType::Bool), AbiValue::Bool(false)),
        2 => leaf(AbiType::Address, "address".into(), Some(PlainAbiType::Address), AbiValue::Address(Box::new(IntAddr::Std(StdAddr::new(0, HashBytes::ZERO))))),
        3 => int(7),
        4 => uint(256),
        5 => int(65535),
        6 => leaf(AbiType::VarUint(nz(16)), "varuint16".into(), None, AbiValue::VarUint(nz(16), BigUint::from(0u8))),
        7 => leaf(AbiType::VarInt(nz(255)), "varint255".into(), None, AbiValue::VarInt(nz(255), BigInt::from(0))),
        8 => leaf(AbiType::Cell, "cell".into(), None, AbiValue::Cell(Cell::default())),
        9 => leaf(AbiType::Bytes, "bytes".into(), None, AbiValue::Bytes(Bytes::new())),
        10 => leaf(AbiType::FixedBytes(3), "fixedbytes3".into(), None, AbiValue::FixedBytes(Bytes::from_static(&[0; 3]))),
        11 => leaf(AbiType::String, "string".into(), None, AbiValue::String(String::new())),
        12 => leaf(AbiType::Token, "gram".into(), None, AbiValue::Token(Tokens::ZERO)),
        _ => tuple_t(&[]),
    }
}
fn any_outer(i: u64, t: T) -> T {
    let keys = [(PlainAbiType::Uint(256), "uint256"), (PlainAbiType::Int(3), "int3"), (PlainAbiType::Bool, "bool"), (PlainAbiType::Address, "address")];
    match i {
        0 => wrap(t, |s| format!("{s}[]"), AbiType::Array, |t| AbiValue::Array(Arc::new(t.t.clone()), vec![])),
        1 => wrap(t, |s| format!("{s}[2]"), |x| AbiType::FixedArray(x, 2), |t| AbiValue::FixedArray(Arc::new(t.t.clone()), vec![t.default.clone(), t.default.clone()])),
        2 => wrap(t, |s| format!("optional({s})"), AbiType::Optional, |t| AbiValue::Optional(Arc::new(t.t.clone()), None)),
        3 => wrap(t, |s| format!("ref({s})"), AbiType::Ref, |t| AbiValue::Ref(Box::new(t.default.clone()))),
        k @ 4..=7 => {
            let (k, name) = keys[k as usize - 4];
            wrap(t, |s| format!("map({name},{s})"), |x| AbiType::Map(k, x), |t| AbiValue::Map(k, Arc::new(t.t.clone()), BTreeMap::new()))
        }
        8 => tuple_t(&[("a", t)]),
        _ => tuple_t(&[("first", t.clone()), ("b", any_leaf(0)), ("third", t)]),
    }
}
fn any_type() -> T {
    let t = any_leaf(pick(13, "leaf"));
    match pick(2, "depth") {
        0 => t,
        1 => any_outer(pick(9, "outer"), t),
        _ => any_outer(pick(9, "outer"), any_outer(pick(9, "inner"), t)),
    }
}
fn parse(name: &str, ty: &str, comps: Option<&str>) -> Result<NamedAbiType, ()> {
    let s = match comps {
        None => format!("{{\"name\":\"{name}\",\"type\":\"{ty}\"}}"),
        Some(c) => format!("{{\"components\":[{c}],\"name\":\"{name}\",\"type\":\"{ty}\"}}"),
    };
    serde_json::from_str(&s).map_err(|_| ())
}
/// What a short type text means.
fn number(s: &[u8], max: u128) -> Option<u128> {
    if s.is_empty() { return None; }
    let mut n = 0u128;
    for c in s {
        if !(*c >= b'0' && *c <= b'9') { return None; }
        n = n * 10 + (*c - b'0') as u128;
        if n > max { return None; }
    }
    Some(n)
}
fn after<'a>(s: &'a [u8], p: &str) -> Option<&'a [u8]> {
    if s.len() >= p.len() && &s[..p.len()] == p.as_bytes() { Some(&s[p.len()..]) } else { None }
}
fn plain(s: &[u8]) -> Option<PlainAbiType> {
    if s == b"bool" { return Some(PlainAbiType::Bool); }
    if s == b"address" { return Some(PlainAbiType::Address); }
    if let Some(n) = after(s, "uint") { return number(n, 65535).map(|n| PlainAbiType::Uint(n as u16)); }
    if let Some(n) = after(s, "int") { return number(n, 65535).map(|n| PlainAbiType::Int(n as u16)); }
    None
}
fn short(s: &[u8]) -> Option<AbiType> {
    if s.last() == Some(&b']') {
        let mut at = s.len() - 1;
        loop {
            if at == 0 { return None; }
            at -= 1;
            if s[at] == b'[' { break; }
        }
        let n = &s[at + 1..s.len() - 1];
        let len = if n.is_empty() { None } else { Some(number(n, usize::MAX as u128)? as usize) };
        let t = Arc::new(short(&s[..at])?);
        return Some(match len { None => AbiType::Array(t), Some(n) => AbiType::FixedArray(t, n) });
    }
    if let Some(p) = plain(s) { return Some(match p { PlainAbiType::Uint(n) => AbiType::Uint(n), PlainAbiType::Int(n) => AbiType::Int(n), PlainAbiType::Bool => AbiType::Bool, PlainAbiType::Address => AbiType::Address }); }
    for (name, t) in [("cell", AbiType::Cell), ("bytes", AbiType::Bytes), ("string", AbiType::String), ("gram", AbiType::Token), ("token", AbiType::Token), ("tuple", AbiType::Tuple(Arc::from(Vec::new())))] {
        if s == name.as_bytes() { return Some(t); }
    }
    let size = |s: &[u8]| number(s, 255).and_then(|n| NonZeroU8::new(n as u8));
    if let Some(n) = after(s, "varuint") { return size(n).map(AbiType::VarUint); }
    if let Some(n) = after(s, "varint") { return size(n).map(AbiType::VarInt); }
    if let Some(n) = after(s, "fixedbytes") { return number(n, usize::MAX as u128).map(|n| AbiType::FixedBytes(n as usize)); }
    let inner = |p: &str| after(s, p).filter(|x| x.last() == Some(&b')')).map(|x| &x[..x.len() - 1]);
    if let Some(x) = inner("optional(") { return Some(AbiType::Optional(Arc::new(short(x)?))); }
    if let Some(x) = inner("ref(") { return Some(AbiType::Ref(Arc::new(short(x)?))); }
    if let Some(x) = inner("map(") {
        let at = x.iter().position(|c| *c == b',')?;
        return Some(AbiType::Map(plain(&x[..at])?, Arc::new(short(&x[at + 1..])?)));
    }
    None
}
fn has_tuple(t: &AbiType) -> bool {
    match t {
        AbiType::Tuple(_) => true,
        AbiType::Array(t) | AbiType::FixedArray(t, _) | AbiType::Map(_, t) | AbiType::Optional(t) | AbiType::Ref(t) => has_tuple(t),
        _ => false,
    }
}
/// Printable characters other than a quote, a backslash and a plus.
fn any_text(n: usize, name: &'static str) -> Vec<u8> {
    let mut s = vec![0u8; n];
    any_into(&mut s, name);
    for c in &s {
        assume((*c >= 0x20) & (*c < 0x7f) & (*c != b'"') & (*c != b'\\') & (*c != b'+'));
    }
    s
}
fn text(s: &[u8]) -> &str {
    std::str::from_utf8(s).unwrap_or("")
}
/// A Rust value is this ABI value and comes back from it.
fn rust<X: WithAbiType + IntoAbi + FromAbi + Clone + PartialEq>(x: X, t: &str, v: AbiValue) {
    check(X::abi_type().to_string() == t, "ABI type of a Rust type");
    check(x.as_abi() == v && x.clone().into_abi() == v, "ABI value of a Rust value");
    check(v.has_type(&X::abi_type()), "ABI value of a Rust value has its type");
    check(matches!(X::from_abi(v.clone()), Ok(y) if y == x), "Rust value of an ABI value");
    for other in [AbiValue::Uint(11, BigUint::from(0u8)), AbiValue::Int(11, BigInt::from(0)), AbiValue::Bool(true), AbiValue::String("1".into()), AbiValue::Tuple(vec![AbiValue::Bool(true).named("a"), AbiValue::Bool(true).named("b"), AbiValue::Bool(true).named("c"), AbiValue::Bool(true).named("d")]), AbiValue::VarUint(nz(17), BigUint::from(1u8)), AbiValue::Cell(Cell::default())] {
        let same = match (&other, &v) { (AbiValue::Bool(_), AbiValue::Bool(_)) | (AbiValue::String(_), AbiValue::String(_)) | (AbiValue::Cell(_), AbiValue::Cell(_)) => true, _ => false };
        check(same || X::from_abi(other).is_err(), "a Rust value of another ABI type");
    }
}
fn plain_rust<X: WithPlainAbiType + IntoPlainAbi + FromPlainAbi + FromAbi + Clone + PartialEq>(x: X, t: &str, v: PlainAbiValue) {
    rust(x.clone(), t, v.clone().into());
    check(X::plain_abi_type().to_string() == t && AbiType::from(X::plain_abi_type()) == X::abi_type(), "plain ABI type of a Rust type");
    check(v.has_type(&X::plain_abi_type()), "type of a plain value");
    check(x.as_plain_abi() == v && x.clone().into_plain_abi() == v, "plain ABI value of a Rust value");
    check(matches!(X::from_plain_abi(v.clone()), Ok(y) if y == x), "Rust value of a plain ABI value");
    check(X::from_plain_abi(PlainAbiValue::Uint(11, BigUint::from(0u8))).is_err() && X::from_plain_abi(PlainAbiValue::Int(11, BigInt::from(0))).is_err(), "a Rust value of another plain ABI type");
}

#[derive(IntoAbi, FromAbi, WithAbiType, Clone, PartialEq)]
struct Named<T> {
    first: u8,
    #[abi(name = "other")]
    second: T,
    third: Option<u16>,
}

harnesses! {
    // Types are printed, described in JSON and read back.
    fn at_text() {
        let t = any_type();
        check(t.t.to_string() == t.full, "text of a type");
        let n = NamedAbiType { name: Arc::from("some name"), ty: t.t.clone() };
        check(matches!(serde_json::to_string(&n), Ok(s) if s == json("some name", &t)), "description of a type");
        check(parse("some name", &t.short, t.comps.as_deref()) == Ok(n.clone()), "a description is read as another type");
        // components are given for tuples, and for nothing else
        check(parse("n", &t.short, if t.comps.is_some() { None } else { Some("") }).is_err(), "components of a type");
        check(t.t.as_plain() == t.plain, "plain type");
        if let Some(p) = t.plain {
            check(p.to_string() == t.full && PlainAbiType::from_str(&t.full).ok() == Some(p) && AbiType::from(p) == t.t, "plain type");
            let bits = match p { PlainAbiType::Uint(n) | PlainAbiType::Int(n) => n, PlainAbiType::Bool => 1, PlainAbiType::Address => 267 };
            check(p.key_bits() == bits, "bits of a key");
            reach("plain");
        } else { reach("other"); }
        // flattened
        match &t.t {
            AbiType::Tuple(items) => {
                check(t.t.clone().flatten().collect::<Vec<_>>() == items.iter().map(|x| x.ty.clone()).collect::<Vec<_>>(), "items of a tuple");
                check(n.clone().flatten().collect::<Vec<_>>() == items.to_vec(), "items of a tuple");
            }
            x => {
                check(t.t.clone().flatten().collect::<Vec<_>>() == [x.clone()], "items of another type");
                check(n.clone().flatten().collect::<Vec<_>>() == [n.clone()], "items of another type");
            }
        }
    }
    // Default values.
    fn at_default() {
        let t = any_type();
        let v = t.t.make_default_value();
        check(v == t.default, "default value");
        check(v.has_type(&t.t) && v.get_type().to_string() == t.full && v.display_type().to_string() == t.full, "type of a default value");
        let n = NamedAbiType { name: Arc::from("x"), ty: t.t.clone() }.make_default_value();
        check(&*n.name == "x" && n.value == v && n.check_type(&t.t).is_ok(), "named default value");
        reach("default");
    }
    // A value has the types that read the same.
    fn at_pairs() {
        let v = AbiVersion::V2_2;
        let make = |i: u64| match i {
            k @ 0..=13 => any_item(k, v),
            14 => g_tuple(vec![g_uint(8, "a"), g_cell(1)]),
            15 => g_tuple(vec![g_uint(8, "a"), g_bool("b")]),
            16 => g_tuple(vec![g_uint(8, "a")]),
            17 => g_array(BOOL, &[g_bool("a"), g_bool("a")], true, v),
            18 => g_array(BOOL, &[g_bool("a")], true, v),
            19 => g_ref(g_uint(8, "a"), v),
            20 => g_ref(g_bool("a"), v),
            21 => g_bytes(BK::Fixed, 2, v, "a"),
            22 => g_bytes(BK::Fixed, 3, v, "a"),
            23 => g_map(PlainAbiType::Uint(8), (&AbiType::Cell, "cell"), &[], v),
            24 => g_map(PlainAbiType::Int(8), BOOL, &[], v),
            25 => g_var(16, 1, true, false, "a"),
            26 => g_var(16, 1, false, false, "a"),
            _ => g_opt(g_bool("a"), false, v),
        };
        let (a, b) = (make(pick(27, "value")), make(pick(27, "type")));
        let same = a.s == b.s;
        check(a.t.to_string() == a.s && a.v.display_type().to_string() == a.s && a.v.get_type() == a.t, "type of a value");
        check(a.v.has_type(&b.t) == same && a.v.check_type(&b.t).is_ok() == same, "a value has a type");
        let n = a.v.clone().named("x");
        check(n.check_type(&b.t).is_ok() == same, "a value has a type");
        let ts = [b.t.clone().named("y")];
        check(NamedAbiValue::have_types(&[n.clone()], &ts) == same && NamedAbiValue::check_types(&[n.clone()], &ts).is_ok() == same, "values have types");
        check(!NamedAbiValue::have_types(&[], &ts) && NamedAbiValue::check_types(&[n.clone(), n], &ts).is_err(), "number of values");
        check((a.t == b.t) == same && (a.t.ignore_name() == b.t.ignore_name()) == same, "equal types");
        if same { reach("same"); } else { reach("different"); }
    }
    // Names do not matter if they are to be ignored.
    fn at_names() {
        let t = any_leaf(pick(12, "leaf"));
        let make = |a: &str, b: &str| any_outer(2, tuple_t(&[(a, t.clone()), (b, any_leaf(1))]));
        let (x, y, z) = (make("a", "b"), make("a", "c"), any_outer(2, tuple_t(&[("a", t.clone()), ("b", any_leaf(2))])));
        check(x.t != y.t && x.t.ignore_name() == y.t.ignore_name() && x.t.ignore_name() != z.t.ignore_name(), "names of a type");
        let f = |a: &str, b: &str, c: bool| AbiValue::Ref(Box::new(AbiValue::Tuple(vec![t.default.clone().named(a), AbiValue::Bool(c).named(b)])));
        let c = any_bool("bool");
        let (x, y, z) = (f("a", "b", c), f("b", "a", c), f("a", "b", !c));
        check(x != y && x.ignore_name() == y.ignore_name() && x.ignore_name() != z.ignore_name(), "names of a value");
        check(x.get_type().ignore_name() == y.get_type().ignore_name(), "names of a type");
        reach("names");
    }
    // Types and values of any sizes: equal exactly if the sizes are.
    fn at_sizes() {
        struct Rec(Vec<u8>);
        impl std::hash::Hasher for Rec {
            fn write(&mut self, b: &[u8]) { self.0.extend(b); }
            fn finish(&self) -> u64 { 0 }
        }
        let hash = |t: &AbiType| { let mut r = Rec(Vec::new()); std::hash::Hash::hash(t.ignore_name(), &mut r); r.0 };
        let (n, m) = (any_u16("n"), any_u16("m"));
        assume((n != 0) & (m != 0));
        let k = pick(6, "kind");
        if k == 2 || k == 3 { assume((n < 256) & (m < 256)); }
        let make = |n: u16| match k {
            0 => (AbiType::Uint(n), AbiValue::Uint(n, BigUint::from(1u8))),
            1 => (AbiType::Int(n), AbiValue::Int(n, BigInt::from(-1))),
            2 => (AbiType::VarUint(nz(n as u8)), AbiValue::VarUint(nz(n as u8), BigUint::from(1u8))),
            3 => (AbiType::VarInt(nz(n as u8)), AbiValue::VarInt(nz(n as u8), BigInt::from(-1))),
            4 => (AbiType::FixedBytes(n as usize), AbiValue::Bool(true)),
            5 => (AbiType::FixedArray(Arc::new(AbiType::Bool), n as usize), AbiValue::Bool(true)),
            _ => (AbiType::Map(PlainAbiType::Uint(n), Arc::new(AbiType::Cell)), AbiValue::Map(PlainAbiType::Uint(n), Arc::new(AbiType::Cell), BTreeMap::new())),
        };
        let o = pick(6, "outer");
        let outer = |name: &'static str, (t, v): (AbiType, AbiValue)| match o {
            0 => (t, v),
            1 => (AbiType::Array(Arc::new(t.clone())), AbiValue::Array(Arc::new(t), vec![v])),
            2 => (AbiType::FixedArray(Arc::new(t.clone()), 1), AbiValue::FixedArray(Arc::new(t), vec![v])),
            3 => (AbiType::Map(PlainAbiType::Bool, Arc::new(t.clone())), AbiValue::Map(PlainAbiType::Bool, Arc::new(t), BTreeMap::from([(PlainAbiValue::Bool(true), v)]))),
            4 => (AbiType::Optional(Arc::new(t.clone())), AbiValue::Optional(Arc::new(t), Some(Box::new(v)))),
            5 => (AbiType::Ref(Arc::new(t)), AbiValue::Ref(Box::new(v))),
            _ => (AbiType::Tuple(Arc::from(vec![t.named(name)])), AbiValue::Tuple(vec![v.named(name)])),
        };
        let ((a, x), (b, y)) = (outer("p", make(n)), outer("q", make(m)));
        let same = n == m;
        check((a.ignore_name() == b.ignore_name()) == same, "equal types");
        check((a == b) == (same & (o != 6)), "equal types");
        check((hash(&a) == hash(&b)) == same, "hash of a type");
        check(hash(&a.clone()) == hash(&a), "hash of a type");
        if k != 4 && k != 5 {
            check(x.has_type(&a) & (x.has_type(&b) == same), "type of a value");
            check((x.ignore_name() == y.ignore_name()) == same, "equal values");
            check((x == y) == (same & (o != 6)), "equal values");
        }
        if same { reach("same"); } else { reach("different"); }
    }
    // Any text after a known beginning.
    fn at_parse() {
        const HEAD: [&str; 16] = ["", "u", "uint", "int", "varuint", "varint", "fixedbytes", "bool[", "optional(", "ref(", "map(", "map(uint8", "map(bool,int", "optional(uint", "uint8[1", "tuple"];
        const TAIL: [&str; 5] = ["", ")", "]", ",cell)", ")[]"];
        let mut s = HEAD[pick(15, "head") as usize].as_bytes().to_vec();
        s.extend(any_text(pick(if thorough() { 3 } else { 2 }, "length") as usize, "text"));
        s.extend(TAIL[pick(4, "tail") as usize].as_bytes());
        let want = short(&s);
        let got = parse("n", text(&s), None);
        let need = match &want { Some(t) => has_tuple(t), None => false };
        match (&want, &got) {
            (Some(t), Ok(g)) if !need => { check(&g.ty == t && &*g.name == "n", "a text is read as another type"); reach("type"); }
            (Some(_), _) => check(need && got.is_err(), "a type is refused"),
            (None, g) => { check(g.is_err(), "a text of no type is accepted"); reach("no type"); }
        }
        if need {
            check(matches!(parse("n", text(&s), Some("")), Ok(g) if Some(&g.ty) == want.as_ref()), "a type with components is refused");
            reach("tuple");
        }
        check(PlainAbiType::from_str(text(&s)).ok() == plain(&s), "a text is read as another plain type");
    }
    // Numbers inside of types.
    fn at_number() {
        const HEAD: [&str; 5] = ["uint", "int", "varuint", "varint", "fixedbytes"];
        let k = pick(4, "head") as usize;
        let n = 1 + pick(if thorough() { 5 } else { 4 }, "digits") as usize;
        let mut d = vec![0u8; n];
        any_into(&mut d, "digit");
        for c in &d { assume((*c >= b'0') & (*c <= b'9')); }
        let mut s = HEAD[k].as_bytes().to_vec();
        s.extend(&d);
        let mut x = 0u64;
        for c in &d { x = x * 10 + (*c - b'0') as u64; }
        let ok = match k { 0 | 1 => x <= 65535, 2 | 3 => (x >= 1) & (x <= 255), _ => true };
        let got = parse("n", text(&s), None);
        check(got.is_ok() == ok, "size of a type");
        if let Ok(g) = got {
            check(match g.ty {
                AbiType::Uint(n) => k == 0 && n as u64 == x,
                AbiType::Int(n) => k == 1 && n as u64 == x,
                AbiType::VarUint(n) => k == 2 && n.get() as u64 == x,
                AbiType::VarInt(n) => k == 3 && n.get() as u64 == x,
                AbiType::FixedBytes(n) => k == 4 && n as u64 == x,
                _ => false,
            }, "size of a type");
            reach("size");
        } else { reach("no size"); }
    }
    // Header names and versions.
    fn at_words() {
        for (h, s) in [(AbiHeaderType::Time, "time"), (AbiHeaderType::Expire, "expire"), (AbiHeaderType::PublicKey, "pubkey")] {
            check(h.to_string() == s && AbiHeaderType::from_str(s).ok() == Some(h), "name of a header");
            let q = format!("\"{s}\"");
            check(matches!(serde_json::to_string(&h), Ok(x) if x == q) && matches!(serde_json::from_str::<AbiHeaderType>(&q), Ok(x) if x == h), "name of a header");
        }
        let n = pick(7, "length") as usize;
        let mut s = ["time", "expire", "pubkey"][pick(2, "word") as usize].as_bytes().to_vec();
        s.resize(n, b'e');
        if n > 0 {
            s[pick(n as u64 - 1, "at") as usize] = any_u8("character") & 0x7f;
        }
        let got = AbiHeaderType::from_str(text(&s)).ok();
        let want = if s == b"time" { Some(AbiHeaderType::Time) } else if s == b"expire" { Some(AbiHeaderType::Expire) } else if s == b"pubkey" { Some(AbiHeaderType::PublicKey) } else { None };
        check(got == want, "name of a header");
        if got.is_some() { reach("header"); } else { reach("no header"); }
        // Versions.
        if n > 0 { return; }
        let (a, b) = (1 + pick(2, "major") as usize, pick(if thorough() { 3 } else { 2 }, "minor") as usize);
        if !thorough() && a + b > 4 { return; }
        let s = any_text(a + 1 + b, "version");
        let at = s.iter().position(|c| *c == b'.');
        let want = at.and_then(|at| Some(AbiVersion::new(number(&s[..at], 255)? as u8, number(&s[at + 1..], 255)? as u8)));
        let got = AbiVersion::from_str(text(&s)).ok();
        check(got == want, "version");
        if let Some(v) = got {
            reach("version");
            check(AbiVersion::from_str(&v.to_string()).ok() == Some(v), "text of a version");
        } else { reach("no version"); }
    }
    // Rust values.
    fn at_rust() {
        let u = |n: u16, x: u128| PlainAbiValue::Uint(n, BigUint::from(x));
        let i = |n: u16, x: i128| PlainAbiValue::Int(n, BigInt::from(x));
        let mut a = [0u8; 32];
        a[..2].copy_from_slice(&any_bytes::<2>("address"));
        a[31] = any_u8("address end");
        let addr = StdAddr::new(any_u8("workchain") as i8, HashBytes(a));
        match pick(20, "type") {
            0 => { let x = any_u8("value"); plain_rust(x, "uint8", u(8, x as u128)) }
            1 => { let x = any_u16("value"); plain_rust(x, "uint16", u(16, x as u128)) }
            2 => { let x = any_u32("value"); plain_rust(x, "uint32", u(32, x as u128)) }
            3 => { let x = any_u64("value"); plain_rust(x, "uint64", u(64, x as u128)) }
            4 => { let x = any_u128("value"); plain_rust(x, "uint128", u(128, x)) }
            5 => { let x = any_u8("value") as i8; plain_rust(x, "int8", i(8, x as i128)) }
            6 => { let x = any_u16("value") as i16; plain_rust(x, "int16", i(16, x as i128)) }
            7 => { let x = any_u32("value") as i32; plain_rust(x, "int32", i(32, x as i128)) }
            8 => { let x = any_u64("value") as i64; plain_rust(x, "int64", i(64, x as i128)) }
            9 => { let x = any_u128("value") as i128; plain_rust(x, "int128", i(128, x)) }
            10 => { let x = any_bool("value"); plain_rust(x, "bool", PlainAbiValue::Bool(x)) }
            11 => plain_rust(HashBytes(a), "uint256", PlainAbiValue::Uint(256, BigUint::from_bytes_be(&a))),
            12 => plain_rust(addr.clone(), "address", PlainAbiValue::Address(Box::new(IntAddr::Std(addr)))),
            13 => plain_rust(IntAddr::Std(addr.clone()), "address", PlainAbiValue::Address(Box::new(IntAddr::Std(addr)))),
            14 => { let x = any_u32("value") & 0xff_ffff; rust(VarUint24::new(x), "varuint4", AbiValue::VarUint(nz(4), BigUint::from(x))) }
            15 => { let x = any_u64("value") & 0xff_ffff_ffff_ffff; rust(VarUint56::new(x), "varuint8", AbiValue::VarUint(nz(8), BigUint::from(x))) }
            16 => {
                let x = any_u64("value") as u128;
                rust(Tokens::new(x), "gram", AbiValue::Token(Tokens::new(x)));
                check(matches!(Tokens::from_abi(AbiValue::VarUint(nz(16), BigUint::from(x))), Ok(t) if t == Tokens::new(x)), "tokens");
            }
            17 => { let x = tiny(any_u8("value")); rust(x.clone(), "cell", AbiValue::Cell(x)) }
            18 => {
                let x = any_bytes::<3>("value").to_vec();
                rust(x.clone(), "bytes", AbiValue::Bytes(Bytes::from(x.clone())));
                rust(Bytes::from(x.clone()), "bytes", AbiValue::Bytes(Bytes::from(x.clone())));
                check(<[u8]>::as_abi(&x) == AbiValue::Bytes(Bytes::from(x.clone())), "bytes");
                let f = AbiValue::FixedBytes(Bytes::from(x.clone()));
                check([x[0], x[1], x[2]].as_abi() == f && [x[0], x[1], x[2]].into_abi() == f && <[u8; 3]>::abi_type() == AbiType::FixedBytes(3), "fixed bytes");
                check(matches!(Vec::<u8>::from_abi(f), Ok(y) if y == x), "fixed bytes");
            }
            19 => { rust("text".to_string(), "string", AbiValue::String("text".into())); check("text".as_abi() == AbiValue::String("text".into()), "text"); }
            _ => {
                // Uint types that are only written.
                let x = any_u16("value");
                if let Some(y) = pick(3, "width").checked_sub(1) {
                    let n = [9u16, 12, 15][y as usize];
                    let x = x & (1 << n) - 1;
                    let v = AbiValue::from(u(n, x as u128));
                    let (a, b, t) = match y { 0 => (Uint9::new(x).as_abi(), Uint9::new(x).into_plain_abi(), Uint9::abi_type()), 1 => (Uint12::new(x).as_abi(), Uint12::new(x).into_plain_abi(), Uint12::abi_type()), _ => (Uint15::new(x).as_abi(), Uint15::new(x).into_plain_abi(), Uint15::abi_type()) };
                    check(a == v && AbiValue::from(b) == v && t == AbiType::Uint(n), "small numbers");
                } else {
                    let d = 1 + (x % 30) as u8;
                    if let Ok(s) = SplitDepth::new(d) {
                        check(s.as_abi() == AbiValue::from(u(5, d as u128)) && SplitDepth::abi_type() == AbiType::Uint(5), "split depth");
                    }
                }
            }
        }
        reach("value");
    }
    // Rust values that do not fit.
    fn at_range() {
        let signed = pick(1, "signed") == 1;
        let neg = signed && pick(1, "negative") == 1;
        let x = any_u32("value");
        if signed {
            let n = if neg { -(BigInt::from(x) + BigInt::from(1)) } else { BigInt::from(x) };
            let m = if neg { -(x as i64) - 1 } else { x as i64 };
            check(i8::from_abi(AbiValue::Int(8, n.clone())).ok() == i8::try_from(m).ok(), "range");
            check(i16::from_plain_abi(PlainAbiValue::Int(16, n.clone())).ok() == i16::try_from(m).ok(), "range");
            check(i32::from_abi(AbiValue::Int(32, n)).ok() == i32::try_from(m).ok(), "range");
            reach("signed");
        } else {
            let n = BigUint::from(x);
            check(u8::from_abi(AbiValue::Uint(8, n.clone())).ok() == u8::try_from(x).ok(), "range");
            check(u16::from_plain_abi(PlainAbiValue::Uint(16, n.clone())).ok() == u16::try_from(x).ok(), "range");
            check(u32::from_abi(AbiValue::Uint(32, n)).ok() == Some(x), "range");
            reach("unsigned");
        }
    }
    // Rust values made of others.
    fn at_made() {
        let (x, y, z) = (any_u8("x"), any_u16("y"), any_bool("z"));
        let (vx, vy, vz) = (AbiValue::uint(8, x), AbiValue::uint(16, y), AbiValue::Bool(z));
        let (tx, ty) = (Arc::new(AbiType::Uint(8)), Arc::new(AbiType::Uint(16)));
        match pick(8, "kind") {
            0 => { let some = pick(1, "some") == 1; rust(some.then_some(x), "optional(uint8)", AbiValue::Optional(tx, some.then(|| Box::new(vx)))) }
            1 => rust((x, y, z), "(uint8,uint16,bool)", AbiValue::Tuple(vec![vx.named("value0"), vy.named("value1"), vz.named("value2")])),
            2 => { let n = pick(2, "n") as usize; rust(vec![y; n], "uint16[]", AbiValue::Array(ty.clone(), vec![vy.clone(); n])); check(matches!(Vec::<u16>::from_abi(AbiValue::FixedArray(ty, vec![vy; n])), Ok(v) if v == vec![y; n]), "array"); }
            3 => { check([y, 3].as_abi() == AbiValue::FixedArray(ty.clone(), vec![vy.clone(), AbiValue::uint(16, 3u8)]) && [y, 3].into_abi() == AbiValue::FixedArray(ty, vec![vy, AbiValue::uint(16, 3u8)]) && <[u16; 2]>::abi_type().to_string() == "uint16[2]", "fixed array"); }
            4 => rust(BTreeMap::from([(3u8, y), (200, 7)]), "map(uint8,uint16)", AbiValue::Map(PlainAbiType::Uint(8), ty, BTreeMap::from([(PlainAbiValue::Uint(8, BigUint::from(3u8)), vy), (PlainAbiValue::Uint(8, BigUint::from(200u8)), AbiValue::uint(16, 7u8))]))),
            5 => { check(matches!(Box::<u8>::from_abi(vx.clone()), Ok(b) if *b == x) && matches!(Arc::<u8>::from_abi(vx.clone()), Ok(b) if *b == x) && Box::<u8>::abi_type() == *tx && Arc::new(x).as_abi() == vx && Box::new(x).into_abi() == vx, "boxed"); }
            6 => {
                let s = Named { first: x, second: (y, z), third: Some(y) };
                let v = AbiValue::Tuple(vec![vx.named("first"), AbiValue::Tuple(vec![vy.clone().named("value0"), vz.named("value1")]).named("other"), AbiValue::Optional(ty, Some(Box::new(vy))).named("third")]);
                let t = Named::<(u16, bool)>::abi_type();
                check(matches!(&t, AbiType::Tuple(i) if i.len() == 3 && &*i[0].name == "first" && &*i[1].name == "other" && &*i[2].name == "third"), "names of fields");
                rust(s, "(uint8,(uint16,bool),optional(uint16))", v);
            }
            7 => rust((), "()", AbiValue::Tuple(vec![])),
            _ => {
                // what the constructors make
                check(AbiValue::array([x]) == AbiValue::Array(tx.clone(), vec![vx.clone()]) && AbiValue::fixedarray([x]) == AbiValue::FixedArray(tx.clone(), vec![vx.clone()]), "array");
                check(AbiValue::optional(Some(x)) == AbiValue::Optional(tx.clone(), Some(Box::new(vx.clone()))) && AbiValue::optional(None::<u8>) == AbiValue::Optional(tx.clone(), None), "optional");
                check(AbiValue::reference(x) == AbiValue::Ref(Box::new(vx.clone())) && AbiValue::map([(x, y)]) == AbiValue::Map(PlainAbiType::Uint(8), ty.clone(), BTreeMap::from([(PlainAbiValue::Uint(8, BigUint::from(x)), vy.clone())])), "map");
                check(AbiValue::varuint(5, x) == AbiValue::VarUint(nz(5), BigUint::from(x)) && AbiValue::varint(5, -1) == AbiValue::VarInt(nz(5), BigInt::from(-1)) && AbiValue::int(4, -3) == AbiValue::Int(4, BigInt::from(-3)), "numbers");
                check(AbiValue::unnamed_tuple([vx.clone(), vy.clone()]) == AbiValue::tuple([("value0", vx.clone()), ("value1", vy.clone())]), "tuple");
                check(AbiType::unnamed_tuple([AbiType::Bool]) == AbiType::tuple([("value0", AbiType::Bool)]), "tuple");
                check(AbiType::map(PlainAbiType::Bool, AbiType::Cell).to_string() == "map(bool,cell)" && AbiType::fixedarray(AbiType::Bool, 7).to_string() == "bool[7]" && AbiType::varint(9).to_string() == "varint9", "types");
            }
        }
        reach("made");
    }
    // Descriptions of contracts.
    fn at_contract() {
        let v = [(1u8, 0u8), (2, 0), (2, 2), (2, 3)][pick(3, "version") as usize];
        let ver = AbiVersion::new(v.0, v.1);
        let old = v.1 == 0 && pick(1, "old") == 1;
        let hs = [vec![], vec![AbiHeaderType::Time], vec![AbiHeaderType::PublicKey, AbiHeaderType::Expire]][pick(2, "headers") as usize].clone();
        let given = pick(1, "id given") == 1;
        let more = pick(1, "more") == 1;
        let ht = hs.iter().map(|h| format!("\"{h}\"")).collect::<Vec<_>>().join(",");
        let id = if given { ",\"id\":\"0x92345678\"" } else { "" };
        let s = format!(
            "{{{}{}\"header\":[{ht}],\"functions\":[{{\"name\":\"run\",\"inputs\":[{{\"name\":\"x\",\"type\":\"uint8\"}},{{\"name\":\"y\",\"type\":\"tuple\",\"components\":[{{\"name\":\"z\",\"type\":\"bool\"}}]}}],\"outputs\":[{{\"name\":\"r\",\"type\":\"cell\"}}]{id}}},{{\"name\":\"stop\"}}]{}}}",
            if old || pick(1, "both") == 1 { format!("\"ABI version\":{},", v.0) } else { String::new() },
            if old { String::new() } else { format!("\"version\":\"{}.{}\",", v.0, v.1) },
            if more { format!(",\"events\":[{{\"name\":\"done\",\"inputs\":[{{\"name\":\"x\",\"type\":\"uint8\"}}]{id}}}],\"data\":[{{\"key\":7,\"name\":\"k\",\"type\":\"address\"}}],\"fields\":[{{\"name\":\"f\",\"type\":\"bytes\"}}]") } else { String::new() },
        );
        let k: Contract = match serde_json::from_str(&s) { Ok(k) => k, Err(_) => { check(false, "a contract is not read"); return; } };
        check(k.abi_version == ver && *k.headers == *hs, "version and headers");
        let ins = [AbiType::Uint(8).named("x"), AbiType::Tuple(Arc::from(vec![AbiType::Bool.named("z")])).named("y")];
        let outs = [AbiType::Cell.named("r")];
        check(k.functions.len() == 2 && k.events.len() == more as usize && k.init_data.len() == more as usize && k.fields.len() == more as usize, "parts of a contract");
        let hash = |t: String| { let h: [u8; 32] = sha2::Sha256::digest(t.as_bytes()).into(); u32::from_be_bytes([h[0], h[1], h[2], h[3]]) };
        let mut first: Vec<String> = if v.0 == 1 { hs.iter().map(|h| h.to_string()).collect() } else { vec![] };
        let stop = hash(format!("stop({})()v{}", first.join(","), v.0));
        first.push("uint8,(bool)".into());
        let run = hash(format!("run({})(cell)v{}", first.join(","), v.0));
        match k.functions.get("run") {
            Some(f) => {
                check(&*f.name == "run" && f.abi_version == ver && *f.headers == *hs && *f.inputs == ins && *f.outputs == outs, "function");
                check(if given { f.input_id == 0x92345678 && f.output_id == 0x92345678 } else { f.input_id == run & 0x7fff_ffff && f.output_id == run | 0x8000_0000 }, "id of a function");
            }
            None => check(false, "function"),
        }
        match k.functions.get("stop") {
            Some(f) => check(f.inputs.is_empty() && f.outputs.is_empty() && f.input_id == stop & 0x7fff_ffff && f.output_id == stop | 0x8000_0000, "id of a function"),
            None => check(false, "function"),
        }
        if more {
            match k.events.get("done") {
                Some(e) => check(&*e.name == "done" && e.abi_version == ver && *e.inputs == ins[..1] && e.id == if given { 0x92345678 } else { hash(format!("done(uint8)v{}", v.0)) & 0x7fff_ffff }, "event"),
                None => check(false, "event"),
            }
            check(matches!(k.init_data.get("k"), Some((7, t)) if *t == AbiType::Address.named("k")) && *k.fields == [AbiType::Bytes.named("f")], "data");
            reach("more");
        } else { reach("less"); }
        // No version; a bad id.
        check(serde_json::from_str::<Contract>("{\"functions\":[]}").is_err(), "no version");
        check(serde_json::from_str::<Contract>("{\"version\":\"2.2\",\"functions\":[{\"name\":\"a\",\"id\":\"12345678\"}]}").is_err(), "id without 0x");
    }
}
