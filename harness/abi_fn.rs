// ABI functions, events and contract data.
use crate::vp::*;
use bytes::Bytes;
use num_bigint::{BigInt, BigUint};
use sha2::Digest;
use std::collections::BTreeMap;
use std::num::NonZeroU8;
use std::sync::Arc;
use tycho_types::abi::*;
use tycho_types::cell::*;
use tycho_types::models::*;
use tycho_types::num::*;

const TOP: bool = true;
include!("wire.rs");
include!("dict_w.rs");
include!("abi_gen.rs");

fn types(gs: &[G]) -> Vec<NamedAbiType> {
    gs.iter().enumerate().map(|(i, g)| g.t.clone().named(named(i))).collect()
}
fn values(gs: &[G]) -> Vec<NamedAbiValue> {
    gs.iter().enumerate().map(|(i, g)| g.v.clone().named(named(i))).collect()
}
fn texts(gs: &[G]) -> String {
    gs.iter().map(|g| g.s.as_str()).collect::<Vec<_>>().join(",")
}
fn flat(gs: &[G]) -> Vec<Item> {
    gs.iter().flat_map(|g| g.items.iter().cloned()).collect()
}
fn id_of(text: &str) -> u32 {
    let h: [u8; 32] = sha2::Sha256::digest(text.as_bytes()).into();
    u32::from_be_bytes([h[0], h[1], h[2], h[3]])
}
fn id_item(id: u32) -> Item {
    let mut w = W::new();
    w.u(id as u128, 32);
    Item { w, max: (32, 0) }
}
/// A few argument lists.
fn any_args(v: AbiVersion, name: &'static str) -> Vec<G> {
    match pick(6, name) {
        0 => vec![],
        1 => vec![g_uint(8, "u8")],
        2 => vec![g_cell(1), g_cell(2), g_cell(3), g_cell(4), g_bool("b")],
        3 => vec![g_uint(250, "u250"), g_addr(0), g_token(1, "t"), g_uint(250, "u250b")],
        4 => vec![g_opt(g_cell(1), true, v), g_array(BOOL, &[g_bool("i")], false, v), g_tuple(vec![g_cell(2), g_uint(600, "u600")])],
        5 => vec![g_cell(1), g_cell(2), g_map(PlainAbiType::Uint(8), BOOL, &[], v), g_cell(3)],
        _ => vec![g_var(16, 1, true, true, "v"), g_bytes(BK::Str, 5, v, "s"), g_array(BOOL, &[], true, v), g_ref(g_uint(8, "r"), v)],
    }
}
fn same(a: &[NamedAbiValue], b: &[NamedAbiValue]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.name == y.name && x.value == y.value)
}
harnesses! {
    // Identifiers come from the signature.
    fn fn_id() {
        let v = ver(true);
        let ins = any_args(v, "inputs");
        let outs = any_args(v, "outputs");
        let mut headers = vec![];
        for (i, h) in [AbiHeaderType::Time, AbiHeaderType::Expire, AbiHeaderType::PublicKey].into_iter().enumerate() {
            if pick(1, "header") == 1 { headers.push((h, ["time", "expire", "pubkey"][i])); }
        }
        let hs: Vec<_> = headers.iter().map(|h| h.0).collect();
        let mut first: Vec<&str> = if v.major == 1 { headers.iter().map(|h| h.1).collect() } else { vec![] };
        let t = texts(&ins);
        if !t.is_empty() { first.push(&t); }
        let text = format!("some_name({})({})v{}", first.join(","), texts(&outs), v.major);
        let id = id_of(&text);
        let f = Function::builder(v, "some_name").with_headers(hs.clone()).with_inputs(types(&ins)).with_outputs(types(&outs)).build();
        check(f.display_signature().to_string() == text, "signature");
        check(Function::compute_function_id(v, "some_name", &hs, &types(&ins), &types(&outs)) == id, "function id");
        check(f.input_id == id & 0x7fff_ffff && f.output_id == id | 0x8000_0000, "ids of a function");
        let g = Function::builder(v, "some_name").with_inputs(types(&ins)).with_id(0x9234_5678).build();
        check(g.input_id == 0x9234_5678 && g.output_id == 0x9234_5678, "given id");
        let text = format!("some_name({t})v{}", v.major);
        let e = Event::builder(v, "some_name").with_inputs(types(&ins)).build();
        check(e.display_signature().to_string() == text, "signature");
        check(Event::compute_event_id(v, "some_name", &types(&ins)) == id_of(&text), "event id");
        check(e.id == id_of(&text) & 0x7fff_ffff, "event id");
        reach("id");
    }
    // Internal bodies: the id, then the values.
    fn fn_body() {
        let v = ver(true);
        let gs = any_args(v, "values");
        let vs = values(&gs);
        let id = any_u32("id");
        let kind = pick(2, "kind");
        let f = Function::builder(v, "f").with_headers([AbiHeaderType::Time]).with_id(id);
        let mut items = vec![id_item(id)];
        items.extend(flat(&gs));
        let w = lay(&items, v);
        let c = w.build();
        let s = must(c.as_slice(), "slice");
        let (stored, loaded) = match kind {
            0 => { let f = f.with_inputs(types(&gs)).build(); (f.encode_internal_input(&vs), f.decode_internal_input(s)) }
            1 => { let f = f.with_outputs(types(&gs)).build(); (f.encode_output(&vs), f.decode_output(s)) }
            _ => { let e = Event::builder(v, "e").with_id(id).with_inputs(types(&gs)).build(); (e.encode_internal_input(&vs), e.decode_internal_input(s)) }
        };
        w.check(must(must(stored, "a body is not encoded").build(), "build").as_ref(), "a body is encoded differently");
        check(same(&must(loaded, "an encoded body does not load"), &vs), "a body loads as other values");
        reach("body");
    }
    // A wrong id, wrong types, something after the values.
    fn fn_refuse() {
        let v = ver(false);
        let gs = any_args(v, "values");
        let (id, other) = (any_u32("id"), any_u32("other id"));
        let kind = pick(2, "kind");
        let f = Function::builder(v, "f").with_id(id);
        let mut items = vec![id_item(other)];
        items.extend(flat(&gs));
        let more = pick(1, "more") == 1;
        let mut x = W::new();
        if more { x.u(1, 1); }
        let w = lay_more(&items, v, (0, 0), &x);
        let c = w.build();
        let s = must(c.as_slice(), "slice");
        let (ts, vs) = (types(&gs), values(&gs));
        let wrong: Vec<NamedAbiValue> = vs.iter().cloned().chain([AbiValue::Bool(true).named("z")]).collect();
        let fewer: Vec<NamedAbiValue> = vs.iter().skip(1).cloned().collect();
        let (loaded, part, stored) = match kind {
            0 => { let f = f.with_inputs(ts).build(); (f.decode_internal_input(s), f.decode_internal_input_ext(&mut s.clone(), true), [f.encode_internal_input(&wrong), f.encode_internal_input(&fewer)]) }
            1 => { let f = f.with_outputs(ts).build(); (f.decode_output(s), f.decode_output_ext(&mut s.clone(), true), [f.encode_output(&wrong), f.encode_output(&fewer)]) }
            _ => { let e = Event::builder(v, "e").with_id(id).with_inputs(ts).build(); (e.decode_internal_input(s), e.decode_internal_input_ext(&mut s.clone(), true), [e.encode_internal_input(&wrong), e.encode_internal_input(&fewer)]) }
        };
        check(loaded.is_ok() == (id == other && !more), "a body of something else is accepted");
        check(part.is_ok() == (id == other), "a body of something else is accepted");
        let [wrong, fewer] = stored;
        check(wrong.is_err() && (gs.is_empty() || fewer.is_err()), "values of other types are encoded");
        reach("refused");
    }
    // External bodies: the signature, headers, the id, the values.
    fn fn_external() {
        let v = ver(true);
        let gs = any_args(v, "values");
        let vs = values(&gs);
        let id = any_u32("id");
        let (time, expire) = (any_u64("time"), any_u32("expire"));
        let key = ed25519_dalek::VerifyingKey::default();
        let with_key = pick(1, "key") == 1;
        let mut headers = vec![];
        let mut hi = vec![];
        let order = [0u8, 3, 1, 4, 5, 2][pick(if gs.len() < 4 { 5 } else { 1 }, "headers") as usize];
        let list: &[u8] = match order { 0 => &[], 1 => &[0], 2 => &[0, 1], 3 => &[2, 0, 1], 4 => &[1, 2], _ => &[2] };
        for h in list {
            let mut w = W::new();
            match h {
                0 => { headers.push(AbiHeaderType::Time); w.u(time as u128, 64); hi.push(Item { w, max: (64, 0) }); }
                1 => { headers.push(AbiHeaderType::Expire); w.u(expire as u128, 32); hi.push(Item { w, max: (32, 0) }); }
                _ => {
                    headers.push(AbiHeaderType::PublicKey);
                    w.bit(with_key);
                    if with_key { w.by(key.as_bytes(), 256); }
                    hi.push(Item { w, max: (257, 0) });
                }
            }
        }
        let f = Function::builder(v, "f").with_id(id).with_headers(headers).with_inputs(types(&gs)).build();
        let mut items = vec![];
        if v.major == 1 { items.push(id_item(id)); }
        items.extend(hi);
        if v.major != 1 { items.push(id_item(id)); }
        items.extend(flat(&gs));
        let at_2_3 = v == AbiVersion::V2_3;
        let w = lay_from(&items, v, if v.major == 1 { (0, 1) } else if at_2_3 { (591, 0) } else { (513, 0) });
        let mut a = [7u8; 32];
        a[3] = any_u8("address");
        let addr = StdAddr::new(any_u8("workchain") as i8, HashBytes(a));
        let mut e = f.encode_external(&vs).with_time(time).with_expire_at(expire);
        if with_key { e = e.with_pubkey(&key); }
        if at_2_3 { check(e.build_input().is_err(), "no address to sign"); }
        let body = must(e.with_address(&addr).build_input(), "an external body is not encoded");
        check(body.expire_at == expire && body.abi_version == v, "expiration time");
        w.check(body.payload.as_ref(), "an external body is encoded differently");
        // What is signed.
        let mut t = W::new();
        if at_2_3 { t.u(0b100, 3).u(addr.workchain as u8 as u128, 8).by(&a, 256); }
        t.join(&w);
        check(body.hash == *t.build().repr_hash(), "what is signed");
        // With a signature, a fake one and none.
        let mut sig = [0x33u8; 64];
        sig[0] = any_u8("signature");
        sig[63] = any_u8("signature end");
        let mut t = W::new();
        let got = match if gs.is_empty() || list.len() == 2 { pick(2, "signature") } else { 0 } {
            0 => {
                if v.major == 1 { let mut x = W::new(); x.by(&sig, 512); t.sub(x); } else { t.bit(true).by(&sig, 512); }
                body.with_signature(&ed25519_dalek::Signature::from_bytes(&sig))
            }
            1 => {
                if v.major == 1 { let mut x = W::new(); x.by(&[0; 64], 512); t.sub(x); } else { t.bit(true).by(&[0; 64], 512); }
                body.with_fake_signature()
            }
            _ => {
                if v.major == 1 { t.sub(W::new()); } else { t.bit(false); }
                body.without_signature()
            }
        };
        t.join(&w);
        t.check(must(got, "a body is not signed").as_ref(), "a signed body is encoded differently");
        let c = t.build();
        check(same(&must(f.decode_external_input(must(c.as_slice(), "slice")), "an external body does not load"), &vs), "an external body loads as other values");
        reach("external");
    }
    // Without a place for a signature.
    fn fn_unsigned() {
        let v = ver(true);
        let gs = any_args(v, "values");
        let vs = values(&gs);
        let given = pick(1, "expire given") == 1;
        let time = if given { any_u64("time") } else {
            const FROM: [u64; 4] = [0, 1_700_000_000_000, 4_294_967_236_000 - 1000, u64::MAX - 0xffff];
            FROM[pick(3, "time from") as usize] + any_u16("time") as u64
        };
        let (expire, id) = (any_u32("expire"), any_u32("id"));
        let f = Function::builder(v, "f").with_id(id).with_headers([AbiHeaderType::PublicKey, AbiHeaderType::Time, AbiHeaderType::Expire]).with_inputs(types(&gs)).build();
        let mut e = f.encode_external(&vs).with_time(time);
        if given { e = e.with_expire_at(expire); }
        let addr = StdAddr::new(0, HashBytes([9; 32]));
        let (at, c) = if pick(1, "message") == 1 {
            let (at, m) = must(e.build_message_without_signature(&addr), "an unsigned message");
            check(matches!(&m.info, MsgInfo::ExtIn(i) if i.dst == IntAddr::Std(addr)) && m.init.is_none(), "destination");
            reach("message");
            (at, must(CellBuilder::build_from(CellSlice::apply_allow_exotic(&m.body)), "body"))
        } else {
            must(e.build_input_without_signature(), "an unsigned body is not encoded")
        };
        let want = if given { expire as u64 } else { (time / 1000 + 60).min(u32::MAX as u64) };
        check(at as u64 == want, "expiration time");
        check(same(&must(f.decode_external_input(must(c.as_slice(), "slice")), "an unsigned body does not load"), &vs), "an unsigned body loads as other values");
        // The same place for values as with a signature.
        let mut items = vec![];
        let mut w = W::new();
        if v.major == 1 { w.sub(W::new()); } else { w.bit(false); }
        items.push(Item { max: (w.b.len(), w.r.len()), w });
        if v.major == 1 { items.push(id_item(id)); }
        for (x, n) in [(0, 1), (time as u128, 64), (want as u128, 32)] {
            let mut w = W::new();
            w.u(x, n);
            items.push(Item { w, max: (if n == 1 { 257 } else { n }, 0) });
        }
        if v.major != 1 { items.push(id_item(id)); }
        items.extend(flat(&gs));
        lay_from(&items, v, if v.major == 1 { (0, 0) } else if v == AbiVersion::V2_3 { (590, 0) } else { (512, 0) }).check(c.as_ref(), "an unsigned body is encoded differently");
        // Nothing signed.
        let mut s = must(c.as_slice(), "slice");
        if v.major == 1 {
            check(s.load_u32() == Ok(f.input_id), "id");
            let r = must(s.load_reference(), "signature");
            check(r.bit_len() == 0 && r.reference_count() == 0, "signature");
        } else {
            check(s.load_bit() == Ok(false), "signature");
        }
        check(s.load_bit() == Ok(false) && s.load_u64() == Ok(time) && s.load_u32() == Ok(at), "headers");
        reach("unsigned");
    }
    // Headers by themselves.
    fn fn_headers() {
        let (time, expire) = (any_u64("time"), any_u32("expire"));
        let key = ed25519_dalek::VerifyingKey::default();
        let with_key = pick(1, "key") == 1;
        let mut w = W::new();
        w.bit(with_key);
        if with_key { w.by(key.as_bytes(), 256); }
        w.u(time as u128, 64).u(expire as u128, 32).u(0b101, 3);
        let c = w.build();
        let mut s = must(c.as_slice(), "slice");
        if pick(1, "skip") == 1 {
            check(AbiHeader::skip_all(&[AbiHeaderType::PublicKey, AbiHeaderType::Time, AbiHeaderType::Expire], &mut s).is_ok(), "skip");
            reach("skipped");
        } else {
            let k = must(AbiHeader::load(AbiHeaderType::PublicKey, &mut s), "key");
            check(match &k { AbiHeader::PublicKey(k) => k.as_ref().map(|k| *k.as_bytes()) == with_key.then(|| *key.as_bytes()), _ => false }, "key");
            check(k.has_type(&AbiHeaderType::PublicKey) && !k.has_type(&AbiHeaderType::Time), "type");
            check(matches!(must(AbiHeader::load(AbiHeaderType::Time, &mut s), "time"), AbiHeader::Time(t) if t == time), "time");
            check(matches!(must(AbiHeader::load(AbiHeaderType::Expire, &mut s), "expire"), AbiHeader::Expire(t) if t == expire), "expire");
            reach("loaded");
        }
        check(s.size_bits() == 3 && s.get_small_uint(0, 3) == Ok(0b101), "what follows the headers");
        check(AbiHeader::load(AbiHeaderType::Expire, &mut s).is_err() && AbiHeader::skip(AbiHeaderType::Time, &mut s).is_err(), "no header");
    }
    // Messages made from bodies.
    fn fn_message() {
        let v = ver(true);
        let gs = any_args(v, "values");
        let vs = values(&gs);
        let id = any_u32("id");
        let f = Function::builder(v, "f").with_id(id).with_inputs(types(&gs)).build();
        let mut a = [7u8; 32];
        a[3] = any_u8("address");
        let addr = StdAddr::new(any_u8("workchain") as i8, HashBytes(a));
        let init = StateInit { code: Some(tiny(0xc0)), ..Default::default() };
        let with_init = pick(1, "init") == 1;
        if pick(1, "external") == 1 {
            let sig = [0x44u8; 64];
            let m = must(f.encode_external(&vs).with_time(1).with_expire_at(2).build_message(&addr), "an external message");
            check(m.dst == addr && m.expire_at() == 2, "message");
            let body = must(m.body.fill_signature(Some(&sig)), "body");
            let m = if with_init { m.with_state_init(init.clone()) } else { m };
            let m = must(if pick(1, "fill") == 1 { m.fill_signature(Some(&sig)) } else { m.with_signature(&ed25519_dalek::Signature::from_bytes(&sig)) }, "a signed message");
            match &m.info {
                MsgInfo::ExtIn(i) => check(i.dst == IntAddr::Std(addr) && i.src.is_none() && i.import_fee.is_zero(), "message info"),
                _ => check(false, "message info"),
            }
            check(m.init == with_init.then_some(init), "initial state");
            check(m.body.0.is_full(m.body.1.as_ref()) && m.body.1 == body, "message body");
            reach("external");
        } else {
            let value = Tokens::new(any_u64("value") as u128 | 1 << 63);
            let bounce = any_bool("bounce");
            let m = must(f.encode_internal_message(&vs, IntAddr::Std(addr.clone()), value, bounce, with_init.then_some(&init)), "an internal message");
            match &m.info {
                RelaxedMsgInfo::Int(i) => {
                    check(i.dst == IntAddr::Std(addr) && i.src.is_none() && i.bounce == bounce && !i.bounced && i.ihr_disabled, "message info");
                    check(i.value == CurrencyCollection::from(value) && i.ihr_fee.is_zero() && i.fwd_fee.is_zero() && i.created_lt == 0 && i.created_at == 0, "message info");
                }
                _ => check(false, "message info"),
            }
            check(m.init == with_init.then_some(init), "initial state");
            let mut items = vec![id_item(id)];
            items.extend(flat(&gs));
            check(m.body.0.is_full(m.body.1.as_ref()), "message body");
            lay(&items, v).check(m.body.1.as_ref(), "message body");
            reach("internal");
        }
    }
    // The fields of a contract and its initial data.
    fn fn_data() {
        let v = ver(false);
        let gs = any_args(v, "values");
        let (ts, vs) = (types(&gs), values(&gs));
        let mut k = Contract { abi_version: v, headers: Arc::from(Vec::new()), functions: Default::default(), events: Default::default(), init_data: Default::default(), fields: Arc::from(ts.clone()) };
        let w = lay(&flat(&gs), v);
        w.check(must(must(k.encode_fields(&vs), "fields").build(), "build").as_ref(), "fields are encoded differently");
        let c = w.build();
        check(same(&must(k.decode_fields(must(c.as_slice(), "slice")), "fields"), &vs), "fields load as other values");
        let fewer: Vec<NamedAbiValue> = vs.iter().skip(1).cloned().collect();
        check(gs.is_empty() || k.encode_fields(&fewer).is_err(), "fields are missing");
        // Initial data: every other value is given, the rest has its default; 0 is the key.
        let key = ed25519_dalek::VerifyingKey::default();
        let n = gs.len().min(3);
        for (i, t) in ts.iter().take(n).enumerate() { k.init_data.insert(t.name.clone(), (i as u64 * 5 + 1, t.clone())); }
        let given = pick((1 << n) - 1, "given");
        let mut e = vec![];
        let mut kw = W::new();
        kw.by(key.as_bytes(), 256);
        e.push((key_w(0, 64), kw.clone()));
        let mut some = vec![];
        for i in 0..n {
            let d = if given >> i & 1 == 1 { some.push(vs[i].clone()); lay(&gs[i].items, v) } else {
                let d = ts[i].make_default_value();
                check(d.value.has_type(&gs[i].t), "type of the default value");
                let mut w = W::new();
                let c = must(d.value.make_cell(v), "default value");
                w.by(c.data(), c.bit_len() as usize);
                for r in c.references().cloned() { w.cell(&r); }
                w
            };
            e.push((key_w(i as u128 * 5 + 1, 64), d));
        }
        let mut w = W::new();
        dict_e(&mut w, &e);
        let full = w.build();
        // A value with its label does not always fit into a leaf.
        let fits = e.iter().all(|x| x.1.b.len() < 900);
        if !fits { return; }
        let got = must(k.encode_init_data(&key, &some), "initial data");
        w.check(got.as_ref(), "initial data is encoded differently");
        let back = must(k.decode_init_data(full.as_ref()), "initial data does not load");
        check(back.len() == n && some.iter().all(|x| back.contains(x)), "initial data loads as other values");
        let stranger = AbiValue::Bool(true).named("stranger");
        check(k.encode_init_data(&key, &[stranger.clone()]).is_err() && k.update_init_data(None, &[stranger], &full).is_err(), "an unknown field is stored");
        // Updates replace the given values only.
        let empty = CellBuilder::build_from(false).unwrap_or_default();
        let upd = must(k.update_init_data(None, &some, &empty), "update");
        let mut w = W::new();
        let part: Vec<_> = (0..n).filter(|i| given >> i & 1 == 1).map(|i| e[i + 1].clone()).collect();
        dict_e(&mut w, &part);
        w.check(upd.as_ref(), "an update of initial data");
        let mut w = W::new();
        let part: Vec<_> = [(key_w(0, 64), kw)].into_iter().chain(part).collect();
        dict_e(&mut w, &part);
        w.check(must(k.update_init_data(Some(&key), &[], &upd), "update").as_ref(), "an update of the key");
        check(part.len() == n + 1 || k.decode_init_data(upd.as_ref()).is_err(), "missing initial data is accepted");
        reach("data");
    }
    // The other ways to the same bodies: prefixes of a slice, setters, unnamed values.
    fn fn_ways() {
        let v = ver(true);
        let gs = any_args(v, "values");
        let vs = values(&gs);
        let ts = types(&gs);
        let id = any_u32("id");
        let more = pick(1, "more") == 1;
        let mut x = W::new();
        if more { x.u(5, 3); }
        match pick(5, "way") {
            0 => {
                let c = lay_more(&flat(&gs), v, (0, 0), &x).build();
                let s = must(c.as_slice(), "slice");
                check(same(&must(NamedAbiValue::load_tuple_partial(&ts, v, &mut s.clone()), "a prefix does not load"), &vs), "a prefix loads as other values");
                let (us, uv): (Vec<AbiType>, Vec<AbiValue>) = gs.iter().map(|g| (g.t.clone(), g.v.clone())).unzip();
                check(must(AbiValue::load_tuple_partial(&us, v, &mut s.clone()), "a prefix does not load") == uv, "a prefix loads as other values");
                check(NamedAbiValue::load_tuple(&ts, v, &mut s.clone()).is_ok() != more && AbiValue::load_tuple(&us, v, &mut s.clone()).is_ok() != more, "what follows the values is ignored");
                let k = Contract { abi_version: v, headers: Arc::from(Vec::new()), functions: Default::default(), events: Default::default(), init_data: Default::default(), fields: Arc::from(ts) };
                check(same(&must(k.decode_fields_ext(&mut s.clone(), true), "fields of a longer slice"), &vs), "fields of a longer slice");
                check(k.decode_fields_ext(&mut s.clone(), false).is_ok() != more && k.decode_fields(s).is_ok() != more, "what follows the fields is ignored");
                reach("prefix");
            }
            1 => {
                let w = lay(&flat(&gs), v);
                let uv: Vec<AbiValue> = gs.iter().map(|g| g.v.clone()).collect();
                for b in [AbiValue::tuple_to_builder(&uv, v), NamedAbiValue::tuple_to_builder(&vs, v)] {
                    w.check(must(must(b, "values are not encoded").build(), "build").as_ref(), "values are encoded differently");
                }
                if let [g] = &gs[..] {
                    for b in [g.v.make_builder(v), vs[0].make_builder(v)] {
                        w.check(must(must(b, "a value is not encoded").build(), "build").as_ref(), "a value is encoded differently");
                    }
                    reach("one value");
                }
                reach("builder");
            }
            2 => {
                let mut items = vec![id_item(id)];
                items.extend(flat(&gs));
                let b = must(Function::encode_internal_msg_body(v, id, &vs), "a body is not encoded");
                lay(&items, v).check(must(b.build(), "build").as_ref(), "a body is encoded differently");
                reach("body");
            }
            3 => {
                // Signed bodies with something behind them, and setters.
                let f = Function::builder(v, "f").with_id(id).with_headers([AbiHeaderType::Time, AbiHeaderType::Expire, AbiHeaderType::PublicKey]).with_inputs(ts).build();
                let key = ed25519_dalek::VerifyingKey::default();
                let addr = StdAddr::new(any_u8("workchain") as i8, HashBytes([8; 32]));
                let (time, expire) = (any_u64("time"), any_u32("expire"));
                let mut e = f.encode_external(&vs);
                e.set_time(time);
                e.set_expire_at(expire);
                e.set_pubkey(&key);
                e.set_address(&addr);
                let a = must(e.build_input(), "an external body is not encoded");
                let e = f.encode_external(&vs).with_time(time).with_expire_at(expire).with_pubkey(&key).with_address(&addr);
                let b = must(e.build_input(), "an external body is not encoded");
                check(a.payload == b.payload && a.hash == b.hash && a.expire_at == b.expire_at, "setters");
                let m = must(e.build_message(&addr), "a message is not encoded");
                let init = StateInit { code: Some(tiny(0xc0)), ..Default::default() };
                let mut d = a.with_dst(addr.clone());
                check(d.dst == m.dst && d.body.payload == m.body.payload && d.body.hash == m.body.hash && d.init.is_none(), "a message made from a body");
                d.set_state_init(Some(init.clone()));
                check(d.init == Some(init), "initial state");
                d.set_state_init(None);
                let (x, y) = (must(d.without_signature(), "message"), must(m.without_signature(), "message"));
                check(x.info == y.info && x.body == y.body && x.init.is_none() && y.init.is_none(), "unsigned messages");
                let c = must(b.without_signature(), "body");
                check(x.body.0.is_full(x.body.1.as_ref()) && x.body.1 == c, "unsigned messages");
                let s = must(c.as_slice(), "slice");
                check(same(&must(f.decode_external_input_ext(&mut s.clone(), false), "an external body does not load"), &vs), "an external body loads as other values");
                if more && c.bit_len() < 1000 && c.reference_count() == 0 {
                    let mut b = CellBuilder::new();
                    check(b.store_slice(s).is_ok() && b.store_small_uint(5, 3).is_ok(), "room");
                    let c = must(b.build(), "build");
                    let s = must(c.as_slice(), "slice");
                    check(same(&must(f.decode_external_input_ext(&mut s.clone(), true), "a longer body does not load"), &vs), "a longer body loads as other values");
                    check(f.decode_external_input_ext(&mut s.clone(), false).is_err() && f.decode_external_input(s).is_err(), "what follows a body is ignored");
                    reach("longer");
                }
                reach("setters");
            }
            4 => {
                let us: Vec<AbiType> = gs.iter().map(|g| g.t.clone()).collect();
                let f = Function::builder(v, "f").with_unnamed_outputs(us.clone()).with_unnamed_inputs(us.clone()).build();
                check(f.outputs.iter().map(|t| &t.ty).eq(us.iter()) && f.inputs.iter().map(|t| &t.ty).eq(us.iter()), "unnamed values");
                let g = Function::builder(v, "f").with_outputs(ts.clone()).with_inputs(ts).build();
                check(f.input_id == g.input_id && f.output_id == g.output_id, "identifiers depend on names");
                let named: Vec<NamedAbiValue> = gs.iter().zip(f.outputs.iter()).map(|(g, t)| g.v.clone().named(&*t.name)).collect();
                let mut items = vec![id_item(f.output_id)];
                items.extend(flat(&gs));
                let w = lay(&items, v);
                w.check(must(must(f.encode_output(&named), "an answer is not encoded").build(), "build").as_ref(), "an answer is encoded differently");
                reach("unnamed");
            }
            _ => {
                let data = [any_u8("data"); 3];
                let sig_id = any_u32("signature id") as i32;
                let mut want = sig_id.to_be_bytes().to_vec();
                want.extend_from_slice(&data);
                check(*extend_signature_with_id(&data, Some(sig_id)) == want[..] && *extend_signature_with_id(&data, None) == data[..], "what is signed");
                reach("extended");
            }
        }
    }
    // Signatures are made over the hash, with the signature identifier in front.
    fn fn_sign() {
        use ed25519_dalek::Verifier;
        let v = ver(true);
        let f = Function::builder(v, "f").with_id(7).with_inputs([AbiType::Bool.named("a")]).build();
        let vs = [AbiValue::Bool(true).named("a")];
        let addr = StdAddr::new(0, HashBytes([8; 32]));
        let key = ed25519_dalek::SigningKey::from_bytes(&[5; 32]);
        let id = [None, Some(0), Some(0x01020304), Some(-2)][pick(3, "signature id") as usize];
        let e = f.encode_external(&vs).with_time(1).with_expire_at(2).with_address(&addr);
        let body = must(e.build_input(), "body");
        let mut to_sign = id.map(|x: i32| x.to_be_bytes().to_vec()).unwrap_or_default();
        to_sign.extend_from_slice(body.hash.as_slice());
        let payload = body.payload.clone();
        let c = if pick(1, "message") == 1 {
            let m = must(must(e.build_message(&addr), "message").sign(&key, id), "a message is not signed");
            check(m.body.0.is_full(m.body.1.as_ref()), "body");
            reach("message");
            m.body.1
        } else {
            reach("body");
            must(body.sign(&key, id), "a body is not signed")
        };
        let mut s = must(c.as_slice(), "slice");
        let mut sig = [0u8; 64];
        if v.major == 1 {
            let r = must(s.load_reference(), "signature");
            check(r.bit_len() == 512, "signature");
            sig.copy_from_slice(&r.data()[..64]);
        } else {
            check(s.load_bit() == Ok(true) && s.load_raw(&mut sig, 512).is_ok(), "signature");
        }
        check(s.contents_eq(&must(payload.as_slice(), "slice")) == Ok(true), "signed body");
        check(key.verifying_key().verify(&to_sign, &ed25519_dalek::Signature::from_bytes(&sig)).is_ok(), "the signature is not valid");
        let s = sign_with_signature_id(&key, payload.repr_hash().as_slice(), id);
        let mut to_sign = id.map(|x: i32| x.to_be_bytes().to_vec()).unwrap_or_default();
        to_sign.extend_from_slice(payload.repr_hash().as_slice());
        check(key.verifying_key().verify(&to_sign, &s).is_ok(), "the signature is not valid");
    }
    // Functions and events are found by their id.
    fn fn_find() {
        let v = AbiVersion::V2_2;
        let mut k = Contract { abi_version: v, headers: Arc::from(Vec::new()), functions: Default::default(), events: Default::default(), init_data: Default::default(), fields: Arc::from(Vec::new()) };
        let names = ["one", "two", "three"];
        let n = pick(3, "functions") as usize;
        for name in &names[..n] {
            k.functions.insert(Arc::from(*name), Function::builder(v, *name).with_unnamed_inputs([AbiType::Bool]).build());
            k.events.insert(Arc::from(*name), Event::builder(v, *name).build());
        }
        let id = any_u32("id");
        let input = pick(1, "input") == 1;
        let want: Vec<_> = names[..n].iter().filter(|x| {
            let f = id_of(&format!("{x}(bool)()v2"));
            id == if input { f & 0x7fff_ffff } else { f | 0x8000_0000 }
        }).collect();
        match k.find_function_by_id(id, input) {
            Some(f) => { check(want.len() == 1 && **want[0] == *f.name, "function by id"); reach("found"); }
            None => check(want.is_empty(), "function by id"),
        }
        let want: Vec<_> = names[..n].iter().filter(|x| id == id_of(&format!("{x}()v2")) & 0x7fff_ffff).collect();
        match k.find_event_by_id(id) {
            Some(f) => { check(want.len() == 1 && **want[0] == *f.name, "event by id"); reach("event"); }
            None => check(want.is_empty(), "event by id"),
        }
    }
}
