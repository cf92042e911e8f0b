// Generators of ABI values with their layout (included after wire.rs and dict_w.rs).
/// What is placed into a cell at once: its bits and references, and the most its type can take.
#[derive(Clone)]
struct Item {
    w: W,
    max: (usize, usize),
}
/// A value with its type and its items.
#[derive(Clone)]
struct G {
    v: AbiValue,
    t: AbiType,
    /// the type in the signature of a function
    s: String,
    items: Vec<Item>,
}
fn total(items: &[Item]) -> (usize, usize) {
    items.iter().fold((0, 0), |a, i| (a.0 + i.max.0, a.1 + i.max.1))
}
fn by_max(v: AbiVersion) -> bool {
    v.major > 2 || v.major == 2 && v.minor >= 2
}
fn need(i: &Item, v: AbiVersion) -> (usize, usize) {
    if by_max(v) { i.max } else { (i.w.b.len(), i.w.r.len()) }
}
/// The chain of cells: an item goes to the next cell if it does not fit; the last reference of a
/// cell is kept for the next cell unless (ABI 2) everything left fits into this one.
fn lay_from(items: &[Item], v: AbiVersion, start: (usize, usize)) -> W {
    lay_more(items, v, start, &W::new())
}
/// The same with `more` in the last cell.
fn lay_more(items: &[Item], v: AbiVersion, start: (usize, usize), more: &W) -> W {
    let mut cells = vec![W::new()];
    let mut cur = start;
    for (i, item) in items.iter().enumerate() {
        let n = need(item, v);
        let later = items[i + 1..].iter().map(|x| need(x, v)).fold((0, 0), |a, x| (a.0 + x.0, a.1 + x.1));
        let room = (1023 - cur.0, 4 - cur.1);
        let fits = n.0 <= room.0 && n.1 <= room.1;
        let last_ref = n.1 > 0 && n.1 == room.1;
        if !fits || last_ref && (v.major == 1 || later.1 > 0 || later.0 + n.0 > room.0) {
            cells.push(W::new());
            cur = (0, 0);
        }
        let k = cells.len() - 1;
        cells[k].join(&item.w);
        cur = (cur.0 + n.0, cur.1 + n.1);
    }
    let mut w = cells.pop().unwrap();
    w.join(more);
    while let Some(mut p) = cells.pop() {
        p.sub(w);
        w = p;
    }
    w
}
fn lay(items: &[Item], v: AbiVersion) -> W {
    lay_from(items, v, (0, 0))
}
fn atom(v: AbiValue, t: AbiType, s: impl Into<String>, w: W, max: (usize, usize)) -> G {
    G { v, t, s: s.into(), items: vec![Item { w, max }] }
}
fn ver(five: bool) -> AbiVersion {
    const V: [AbiVersion; 5] = [AbiVersion::V1_0, AbiVersion::V2_1, AbiVersion::V2_2, AbiVersion::V2_0, AbiVersion::V2_3];
    V[pick(if five { 4 } else { 2 }, "version") as usize]
}
/// The values are stored as the model says and read back.
fn round(gs: &[G], v: AbiVersion) {
    let vs: Vec<AbiValue> = gs.iter().map(|g| g.v.clone()).collect();
    let ts: Vec<AbiType> = gs.iter().map(|g| g.t.clone()).collect();
    let items: Vec<Item> = gs.iter().flat_map(|g| g.items.iter().cloned()).collect();
    let w = lay(&items, v);
    let c = must(AbiValue::tuple_to_cell(&vs, v), "values are not encoded");
    w.check(c.as_ref(), "values are encoded differently");
    let c = w.build();
    let mut s = must(c.as_slice(), "slice");
    let got = must(AbiValue::load_tuple(&ts, v, &mut s), "encoded values do not load");
    check(got == vs, "values load as different ones");
    for g in gs {
        check(g.v.has_type(&g.t), "type");
    }
}
/// One value, with the whole cell and followed by something else.
fn single(g: &G, v: AbiVersion) {
    let w = lay(&g.items, v);
    let c = must(g.v.make_cell(v), "a value is not encoded");
    w.check(c.as_ref(), "a value is encoded differently");
    let c = w.build();
    let mut s = must(c.as_slice(), "slice");
    check(must(AbiValue::load(&g.t, v, &mut s), "an encoded value does not load") == g.v, "a value loads as a different one");
    check(g.v.has_type(&g.t) && g.v.get_type() == g.t && g.v.check_type(&g.t).is_ok(), "type");
    let m = g.t.max_size();
    check((m.bit_count as usize, m.cell_count as usize) == total(&g.items), "largest size of the type");
    check(g.t.max_bits() == total(&g.items).0 && g.t.max_refs() == total(&g.items).1, "largest size of the type");
    // More bits, if the encoding ends in its own cell.
    if w.b.len() < 1000 && w.r.len() <= g.items.iter().map(|i| i.w.r.len()).sum() {
        let mut x = w.clone();
        x.u(0b101, 3);
        let c = x.build();
        check(AbiValue::load(&g.t, v, &mut must(c.as_slice(), "slice")).is_err(), "what follows a value is ignored");
        let mut s = must(c.as_slice(), "slice");
        check(must(AbiValue::load_partial(&g.t, v, &mut s), "partial") == g.v, "partial value");
        check(s.size_bits() == 3 && s.get_small_uint(0, 3) == Ok(0b101), "the rest of a partial value");
    }
}

// === values ===
fn g_cell(tag: u8) -> G {
    let c = tiny(tag);
    let mut w = W::new();
    w.cell(&c);
    atom(AbiValue::Cell(c), AbiType::Cell, "cell", w, (0, 1))
}
fn g_bool(name: &'static str) -> G {
    let b = any_bool(name);
    let mut w = W::new();
    w.bit(b);
    atom(AbiValue::Bool(b), AbiType::Bool, "bool", w, (1, 0))
}
/// `n` bits with the first one set and, for small ones, the rest arbitrary.
fn g_uint(n: usize, name: &'static str) -> G {
    let mut d = vec![0u8; n.div_ceil(8)];
    let k = d.len();
    if n > 64 {
        for (i, x) in d.iter_mut().enumerate() {
            *x = (i * 37 + 11) as u8;
        }
        d[k - 1] = any_u8(name);
    } else {
        any_into(&mut d, name);
    }
    let mut w = W::new();
    let pad = k * 8 - n;
    d[0] &= 0xff >> pad;
    d[0] |= 0x80 >> pad;
    let mut b = Bits::new();
    b.bytes(&d, k * 8);
    w.b.append(&b.0[pad..]);
    atom(AbiValue::Uint(n as u16, BigUint::from_bytes_be(&d)), AbiType::Uint(n as u16), format!("uint{n}"), w, (n, 0))
}
fn g_token(n: usize, name: &'static str) -> G {
    let mut w = W::new();
    let t = any_tokens_n(&mut w, n, name);
    atom(AbiValue::Token(t), AbiType::Token, "gram", w, (124, 0))
}
fn len_bits(size: u8) -> usize {
    let mut k = 0;
    while (size as usize - 1) >> k != 0 {
        k += 1;
    }
    k
}
/// A variable length number of `n` bytes in its shortest form, neg: negative.
fn g_var(size: u8, n: usize, signed: bool, neg: bool, name: &'static str) -> G {
    let mut d = vec![0u8; n.max(1)];
    any_into(&mut d[..n], name);
    if signed {
        // shortest: the first nine bits are not all equal
        if n == 1 {
            d[0] = d[0] & 0x7f | if neg { 0x80 } else { 0 };
        } else if n > 1 {
            if pick(1, "edge") == 1 {
                d[0] = if neg { 0xff } else { 0 };
                d[1] = d[1] & 0x7f | if neg { 0 } else { 0x80 };
            } else {
                d[0] = d[0] & 0x3f | if neg { 0x80 } else { 0x40 };
            }
        }
    } else if n > 0 {
        d[0] |= 0x80;
    }
    let lb = len_bits(size);
    let mut w = W::new();
    w.u(d.len() as u128, lb).by(&d, d.len() * 8);
    let max = (lb + 8 * (size as usize - 1), 0);
    let z = NonZeroU8::new(size).unwrap();
    if signed {
        atom(AbiValue::VarInt(z, BigInt::from_signed_bytes_be(&d)), AbiType::VarInt(z), format!("varint{size}"), w, max)
    } else {
        atom(AbiValue::VarUint(z, BigUint::from_bytes_be(&d)), AbiType::VarUint(z), format!("varuint{size}"), w, max)
    }
}
fn g_addr(kind: u64) -> G {
    let mut w = W::new();
    let mut h = [0x5au8; 32];
    h[31] = any_u8("address");
    let wc = any_u8("workchain");
    let a = match kind {
        0 => {
            w.u(0b100, 3).u(wc as u128, 8).by(&h, 256);
            IntAddr::Std(StdAddr::new(wc as i8, HashBytes(h)))
        }
        1 => {
            let p = Anycast { depth: must(SplitDepth::new(5), "depth"), rewrite_prefix: vec![0xa8] };
            w.u(0b101, 3).u(5, 5).u(0b10101, 5).u(wc as u128, 8).by(&h, 256);
            IntAddr::Std(StdAddr { anycast: Some(Box::new(p)), workchain: wc as i8, address: HashBytes(h) })
        }
        _ => {
            let n = if kind == 2 { 256 } else { 77 };
            w.u(0b110, 3).u(n as u128, 9).u(wc as u128, 32).by(&h, n);
            let mut d = h.to_vec();
            d.truncate(n.div_ceil(8));
            if n == 77 {
                d[9] &= 0xf8;
            }
            IntAddr::Var(VarAddr { anycast: None, address_len: Uint9::new(n as u16), workchain: wc as i32, address: d })
        }
    };
    atom(AbiValue::Address(Box::new(a)), AbiType::Address, "address", w, (591, 0))
}
/// Bytes in cells of 127; ABI 1 puts the rest into the first cell, ABI 2 into the last one.
fn bytes_w(d: &[u8], v: AbiVersion) -> W {
    let head = if v.major == 1 && d.len() % 127 != 0 { d.len() % 127 } else { d.len().min(127) };
    let mut w = W::new();
    w.by(&d[..head], head * 8);
    if d.len() > head {
        w.sub(bytes_w(&d[head..], v));
    }
    w
}
#[derive(Clone, Copy, PartialEq)]
enum BK {
    Bytes,
    Fixed,
    Str,
}
fn g_bytes(kind: BK, n: usize, v: AbiVersion, name: &'static str) -> G {
    let mut d: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    for i in [0, 126, 127, n.wrapping_sub(1)] {
        if i < n {
            let x = any_u8(name);
            d[i] = if kind == BK::Str { x & 0x7f } else { x };
        }
    }
    let mut w = W::new();
    w.sub(bytes_w(&d, v));
    match kind {
        BK::Bytes => atom(AbiValue::Bytes(Bytes::from(d)), AbiType::Bytes, "bytes", w, (0, 1)),
        BK::Fixed => atom(AbiValue::FixedBytes(Bytes::from(d)), AbiType::FixedBytes(n), format!("fixedbytes{n}"), w, (0, 1)),
        BK::Str => atom(AbiValue::String(String::from_utf8(d).unwrap_or_default()), AbiType::String, "string", w, (0, 1)),
    }
}
fn named(i: usize) -> &'static str {
    ["a", "b", "c", "d", "e", "f"][i]
}
fn g_tuple(gs: Vec<G>) -> G {
    let t = AbiType::Tuple(gs.iter().enumerate().map(|(i, g)| g.t.clone().named(named(i))).collect::<Vec<_>>().into());
    let v = AbiValue::Tuple(gs.iter().enumerate().map(|(i, g)| g.v.clone().named(named(i))).collect());
    let s = format!("({})", gs.iter().map(|g| g.s.as_str()).collect::<Vec<_>>().join(","));
    G { v, t, s, items: gs.into_iter().flat_map(|g| g.items).collect() }
}
/// In place if the type always fits (with the bit), in its own cell otherwise.
fn g_opt(g: G, some: bool, v: AbiVersion) -> G {
    let m = total(&g.items);
    let inline = m.0 < 1023 && m.1 < 4;
    let mut w = W::new();
    w.bit(some);
    if some {
        let x = lay(&g.items, v);
        if inline {
            w.join(&x);
        } else {
            w.sub(x);
        }
    }
    let (s, t) = (format!("optional({})", g.s), Arc::new(g.t));
    atom(AbiValue::Optional(t.clone(), some.then(|| Box::new(g.v))), AbiType::Optional(t), s, w, if inline { (m.0 + 1, m.1) } else { (1, 1) })
}
fn g_ref(g: G, v: AbiVersion) -> G {
    let mut w = W::new();
    w.sub(lay(&g.items, v));
    let s = format!("ref({})", g.s);
    atom(AbiValue::Ref(Box::new(g.v)), AbiType::Ref(Arc::new(g.t)), s, w, (0, 1))
}
/// A dictionary value: in place if the largest value and key fit into a leaf.
fn leaf_w(g: &G, key: usize, v: AbiVersion) -> W {
    let x = lay(&g.items, v);
    if 12 + key + total(&g.items).0 <= 1023 {
        x
    } else {
        let mut w = W::new();
        w.sub(x);
        w
    }
}
fn g_array(t: (&AbiType, &str), gs: &[G], fixed: bool, v: AbiVersion) -> G {
    let mut w = W::new();
    if !fixed {
        w.u(gs.len() as u128, 32);
    }
    let e: Vec<_> = gs.iter().enumerate().map(|(i, g)| (key_w(i as u128, 32), leaf_w(g, 32, v))).collect();
    dict_e(&mut w, &e);
    let (t, s) = (Arc::new(t.0.clone()), t.1);
    let vs = gs.iter().map(|g| g.v.clone()).collect();
    if fixed {
        atom(AbiValue::FixedArray(t.clone(), vs), AbiType::FixedArray(t, gs.len()), format!("{s}[{}]", gs.len()), w, (1, 1))
    } else {
        atom(AbiValue::Array(t.clone(), vs), AbiType::Array(t), format!("{s}[]"), w, (33, 1))
    }
}
fn key_len(k: PlainAbiType) -> usize {
    match k {
        PlainAbiType::Uint(n) | PlainAbiType::Int(n) => n as usize,
        PlainAbiType::Bool => 1,
        PlainAbiType::Address => 267,
    }
}
/// Entries sorted by the bits of the key.
fn g_map(k: PlainAbiType, t: (&AbiType, &str), gs: &[(PlainAbiValue, Vec<u8>, G)], v: AbiVersion) -> G {
    let e: Vec<_> = gs.iter().map(|(_, b, g)| (b.clone(), leaf_w(g, key_len(k), v))).collect();
    let mut w = W::new();
    dict_e(&mut w, &e);
    let (t, s) = (Arc::new(t.0.clone()), t.1);
    let s = format!("map({},{s})", match k { PlainAbiType::Uint(n) => format!("uint{n}"), PlainAbiType::Int(n) => format!("int{n}"), PlainAbiType::Bool => "bool".into(), PlainAbiType::Address => "address".to_string() });
    let m: BTreeMap<_, _> = gs.iter().map(|(p, _, g)| (p.clone(), g.v.clone())).collect();
    atom(AbiValue::Map(k, t.clone(), m), AbiType::Map(k, t), s, w, (1, 1))
}
const BOOL: (&AbiType, &str) = (&AbiType::Bool, "bool");
/// A small value of one of several kinds.
fn any_item(i: u64, v: AbiVersion) -> G {
    match i {
        0 => g_cell(0x11),
        1 => g_uint(8, "u8"),
        2 => g_uint(250, "u250"),
        3 => g_opt(g_cell(0x22), true, v),
        4 => g_opt(g_cell(0x22), false, v),
        5 => g_token(1, "token"),
        6 => g_map(PlainAbiType::Uint(8), BOOL, &[], v),
        7 => g_array(BOOL, &[g_bool("item")], false, v),
        8 => g_var(32, 1, true, true, "varint"),
        9 => g_addr(0),
        10 => g_array(BOOL, &[g_bool("item")], true, v),
        11 => g_opt(g_tuple(vec![g_cell(0x33), g_uint(700, "u700"), g_cell(0x34), g_cell(0x35)]), true, v),
        12 => g_tuple(vec![g_cell(0x44), g_uint(600, "u600")]),
        13 => g_ref(g_uint(8, "inner"), v),
        14 => g_bytes(BK::Bytes, 1, v, "byte"),
        // too large to be in place
        _ => g_opt(g_tuple(vec![g_cell(0x66), g_uint(1000, "u1000"), g_cell(0x67), g_cell(0x68), g_cell(0x69)]), true, v),
    }
}
