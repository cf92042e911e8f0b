// Generators of messages and addresses with their encodings (included after wire.rs).
/// Arbitrary bits in a byte vector, zero padded, appended to `w`.
#[allow(dead_code)]
fn any_bits(w: &mut W, n: usize, name: &'static str) -> Vec<u8> {
    let mut d = vec![0u8; n.div_ceil(8)];
    any_into(&mut d, name);
    if n % 8 != 0 {
        *d.last_mut().unwrap() &= 0xffu8 << (8 - n % 8);
    }
    w.by(&d, n);
    d
}
#[allow(dead_code)]
fn any_anycast(w: &mut W, depth: usize) -> Option<Box<Anycast>> {
    w.bit(depth > 0);
    if depth == 0 {
        return None;
    }
    w.u(depth as u128, 5);
    Some(Box::new(Anycast {
        depth: must(SplitDepth::new(depth as u8), "depth"),
        rewrite_prefix: any_bits(w, depth, "anycast"),
    }))
}
#[allow(dead_code)]
fn any_std(w: &mut W, depth: usize) -> StdAddr {
    w.u(0b10, 2);
    let anycast = any_anycast(w, depth);
    let wc = any_u8("workchain");
    let a: [u8; 32] = any_bytes("address");
    w.u(wc as u128, 8).by(&a, 256);
    StdAddr { anycast, workchain: wc as i8, address: HashBytes(a) }
}
#[allow(dead_code)]
fn any_var(w: &mut W, depth: usize, len: usize) -> VarAddr {
    w.u(0b11, 2);
    let anycast = any_anycast(w, depth);
    let wc = any_u32("workchain");
    w.u(len as u128, 9).u(wc as u128, 32);
    VarAddr { anycast, address_len: Uint9::new(len as u16), workchain: wc as i32, address: any_bits(w, len, "address") }
}
/// Standard, standard with anycast, or variable address.
#[allow(dead_code)]
fn any_int(w: &mut W, kind: u64) -> IntAddr {
    match kind {
        0 => IntAddr::Std(any_std(w, 0)),
        1 => IntAddr::Std(any_std(w, 30)),
        2 => IntAddr::Var(any_var(w, 0, 9)),
        _ => IntAddr::Var(any_var(w, 5, 511)),
    }
}
#[allow(dead_code)]
fn any_ext(w: &mut W, len: Option<usize>) -> Option<ExtAddr> {
    match len {
        None => {
            w.u(0, 2);
            None
        }
        Some(n) => {
            w.u(0b01, 2).u(n as u128, 9);
            let d = any_bits(w, n, "ext");
            let a = ExtAddr::new(n as u16, d);
            Some(must(a.ok_or(()), "an external address is refused"))
        }
    }
}
#[allow(dead_code)]
fn any_cc(w: &mut W) -> CurrencyCollection {
    let tokens = any_tokens(w, "tokens");
    let other = any_bool("extra");
    w.bit(other);
    let other = if other {
        let c = tiny(0xcc);
        w.cell(&c);
        ExtraCurrencyCollection::from_raw(Some(c))
    } else {
        ExtraCurrencyCollection::new()
    };
    CurrencyCollection { tokens, other }
}
#[allow(dead_code)]
fn any_int_info(w: &mut W, src: u64, dst: u64) -> IntMsgInfo {
    let f = any_u8("flags") & 7;
    w.u(0, 1).u(f as u128, 3);
    let src = any_int(w, src);
    let dst = any_int(w, dst);
    let value = any_cc(w);
    let ihr_fee = any_tokens_n(w, 1, "ihr");
    let fwd_fee = any_tokens_n(w, 3, "fwd");
    let (lt, at) = (any_u64("lt"), any_u32("at"));
    w.u(lt as u128, 64).u(at as u128, 32);
    IntMsgInfo {
        ihr_disabled: f & 4 != 0,
        bounce: f & 2 != 0,
        bounced: f & 1 != 0,
        src,
        dst,
        value,
        ihr_fee,
        fwd_fee,
        created_lt: lt,
        created_at: at,
    }
}
#[allow(dead_code)]
fn relax(i: &IntMsgInfo, src: Option<IntAddr>) -> RelaxedIntMsgInfo {
    RelaxedIntMsgInfo {
        ihr_disabled: i.ihr_disabled,
        bounce: i.bounce,
        bounced: i.bounced,
        src,
        dst: i.dst.clone(),
        value: i.value.clone(),
        ihr_fee: i.ihr_fee,
        fwd_fee: i.fwd_fee,
        created_lt: i.created_lt,
        created_at: i.created_at,
    }
}
#[allow(dead_code)]
fn size(s: Size, w: &W, msg: &'static str) {
    check(s.bits as usize == w.b.len(), msg);
    check(s.refs as usize == w.r.len(), msg);
}
#[allow(dead_code)]
fn any_state(w: &mut W, mask: u8) -> StateInit {
    let split_depth = if mask & 1 != 0 {
        let d = any_u8("split") & 31;
        assume(d >= 1 && d <= 30);
        w.bit(true).u(d as u128, 5);
        Some(must(SplitDepth::new(d), "split depth"))
    } else {
        w.bit(false);
        None
    };
    let special = if mask & 2 != 0 {
        let s = any_u8("special") & 3;
        w.bit(true).u(s as u128, 2);
        Some(SpecialFlags { tick: s & 2 != 0, tock: s & 1 != 0 })
    } else {
        w.bit(false);
        None
    };
    let code = (mask & 4 != 0).then(|| tiny(1));
    let data = (mask & 8 != 0).then(|| tiny(2));
    let lib = (mask & 16 != 0).then(|| tiny(3));
    w.opt_cell(&code).opt_cell(&data).opt_cell(&lib);
    StateInit { split_depth, special, code, data, libraries: Dict::from_raw(lib) }
}
