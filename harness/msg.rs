// Addresses and messages: wire format, sizes and layouts.
use crate::vp::*;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::models::*;
use tycho_types::num::*;
const TOP: bool = false;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/wire.rs"));

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/msg_gen.rs"));

harnesses! {
    /// Standard and variable addresses with and without anycast.
    fn ms_addr() {
        let depth = [0usize, 1, 8, 13, 30][pick(4, "depth") as usize];
        let mut w = W::new();
        let first8 = |a: &[u8]| {
            let mut p = 0u64;
            for i in 0..8 {
                p = p << 8 | a.get(i).copied().unwrap_or(0) as u64;
            }
            p
        };
        if any_bool("std") {
            let a = any_std(&mut w, depth);
            check(a.bit_len() as usize == w.b.len(), "bit_len of a standard address");
            check(a.is_masterchain() == (a.workchain == -1), "is_masterchain of a standard address");
            check(a.prefix() == first8(&a.address.0), "prefix of a standard address");
            wire(&a, &w);
            let i = IntAddr::from(a.clone());
            check(i.bit_len() as usize == w.b.len() && i.prefix() == a.prefix(), "an address changes when wrapped");
            check(i.workchain() == a.workchain as i32 && i.is_masterchain() == a.is_masterchain(), "an address changes when wrapped");
            check(i.as_std() == Some(&a) && i.as_var().is_none() && *i.anycast() == a.anycast, "an address changes when wrapped");
            check(Addr::workchain(&a) == a.workchain as i32 && Addr::prefix(&i) == a.prefix(), "an address changes when wrapped");
            wire(&i, &w);
            if depth == 0 {
                check(StdAddr::from((a.workchain, a.address)) == a && IntAddr::from((a.workchain, a.address)) == i, "address from parts");
                reach("std");
            } else {
                reach("anycast");
            }
        } else {
            let len = [0usize, 1, 7, 8, 63, 65, 256, 511][pick(7, "len") as usize];
            let a = any_var(&mut w, depth, len);
            check(a.bit_len() as usize == w.b.len(), "bit_len of a variable address");
            check(a.is_masterchain() == (a.workchain == -1), "is_masterchain of a variable address");
            check(a.prefix() == first8(&a.address), "prefix of a variable address");
            let i = IntAddr::from(a.clone());
            check(i.bit_len() as usize == w.b.len() && i.prefix() == a.prefix() && i.workchain() == a.workchain, "an address changes when wrapped");
            check(i.as_var() == Some(&a) && i.as_std().is_none() && *i.anycast() == a.anycast, "an address changes when wrapped");
            wire_store(&a, &w);
            wire(&i, &w);
            let c = w.build();
            check(c.parse::<StdAddr>().is_err(), "a variable address is read as a standard one");
            reach("var");
        }
    }

    /// Any bits read as an address: only what the format allows, and written back the same.
    fn ms_addr_parse() {
        let n = [0usize, 1, 2, 3, 8, 12, 44, 60, 266, 267, 268, 280, 301][pick(12, "bits") as usize];
        let mut w = W::new();
        any_bits(&mut w, n, "data");
        if n > 200 {
            // long variable addresses: without anycast, and of any length in one case only
            let (var, any) = (w.b.0[1], w.b.0[2]);
            assume(var == 0 || any == 0 && n == 280);
        }
        let b = w.b.0.clone();
        let at = |i: usize| conc(b[i] as u64) as u8;
        // model: Some((kind, used))
        let model = || {
            if n < 1 || at(0) == 0 || n < 3 {
                return None;
            }
            let var = at(1) == 1;
            let mut p = 3;
            if at(2) == 1 {
                if n < 8 {
                    return None;
                }
                let d = conc(w.b.int(3, 8) as u64) as usize;
                if d == 0 || d > 30 {
                    return None;
                }
                p = 8 + d;
            }
            if var {
                if n < p + 41 {
                    return None;
                }
                let l = w.b.int(p, p + 9) as usize;
                if p + 41 + l > n {
                    return None;
                }
                Some((true, p + 41 + conc(l as u64) as usize))
            } else if n < p + 264 {
                None
            } else {
                Some((false, p + 264))
            }
        };
        let m = model();
        let c = w.build();
        let mut s = must(c.as_slice(), "slice");
        let r = IntAddr::load_from(&mut s);
        let mut s2 = must(c.as_slice(), "slice");
        let r2 = StdAddr::load_from(&mut s2);
        match m {
            None => {
                check(r.is_err() && r2.is_err(), "bits that are no address are accepted");
                reach("refused");
            }
            Some((var, used)) => {
                let a = must(r, "a valid address is refused");
                check(s.size_bits() as usize == n - used, "an address consumes a wrong number of bits");
                let mut e = w.clone();
                e.b.0.truncate(used);
                wire_store(&a, &e);
                check(a.as_var().is_some() == var, "an address is read as the wrong kind");
                if var {
                    check(r2.is_err(), "a variable address is read as a standard one");
                    reach("variable");
                } else {
                    check(r2.as_ref().ok() == a.as_std() && s2.size_bits() as usize == n - used, "a standard address is read differently");
                    reach("standard");
                }
            }
        }
    }

    /// Standard addresses as dictionary keys.
    fn ms_addr_key() {
        let mut w = W::new();
        let a = any_std(&mut w, if any_bool("anycast") { 7 } else { 0 });
        let mut d = CellDataBuilder::new();
        let r = a.store_into_data(&mut d);
        if a.anycast.is_some() {
            check(r.is_err(), "an address with anycast is used as a key");
            reach("anycast");
        } else {
            must(r, "an address is refused as a key");
            check(d.size_bits() as usize == w.b.len() && w.b.len() == <StdAddr as DictKey>::BITS as usize, "an address key has a wrong length");
            w.b.check_raw(d.raw_data(), "an address key has wrong bits");
            check(StdAddr::load_from_data(&d) == Some(a), "an address key is read differently");
            // any other leading bits are no standard address without anycast
            let mut w2 = W::new();
            let raw = any_bits(&mut w2, 267, "key");
            let mut d2 = CellDataBuilder::new();
            must(d2.store_raw(&raw, 267), "key");
            let k = StdAddr::load_from_data(&d2);
            check(k.is_some() == (raw[0] >> 5 == 0b100), "key tags");
            if let Some(k) = k {
                check(k.anycast.is_none(), "a key has anycast");
                check(k.workchain as u8 as u128 == w2.b.int(3, 11), "a key is read with the wrong workchain");
                let mut eq = true;
                for i in 0..32 {
                    eq &= k.address.0[i] as u128 == w2.b.int(11 + 8 * i, 19 + 8 * i);
                }
                check(eq, "a key is read with the wrong address");
                reach("any key");
            }
            reach("key");
        }
    }

    /// Anycast prefixes taken from slices.
    fn ms_anycast() {
        let n = pick(33, "len") as usize;
        let mut w = W::new();
        let d = any_bits(&mut w, n, "prefix");
        let c = w.build();
        let r = Anycast::from_slice(&must(c.as_slice(), "slice"));
        if n == 0 || n > 30 {
            check(r.is_err(), "an anycast prefix of an invalid length is accepted");
            reach("refused");
        } else {
            let a = must(r, "an anycast prefix is refused");
            check(a.depth.into_bit_len() as usize == n && a.rewrite_prefix == d, "an anycast prefix is read differently");
            let mut x = W::new();
            x.u(n as u128, 5).join(&w);
            check(a.bit_len() as usize == x.b.len(), "bit_len of an anycast prefix");
            wire(&a, &x);
            reach("anycast");
        }
    }

    /// Information of every kind of message, strict and relaxed.
    fn ms_info() {
        let mut w = W::new();
        match pick(4, "kind") {
            0 => {
                let kinds = [(0, 0), (1, 0), (2, 1), (0, 2)][pick(3, "addrs") as usize];
                let i = any_int_info(&mut w, kinds.0, kinds.1);
                check(i.bit_len() as usize == w.b.len(), "size of an internal message info");
                let m = MsgInfo::from(i.clone());
                check(m.ty() == MsgType::Int && m.is_internal() && !m.is_external_in() && !m.is_external_out(), "message type");
                size(m.exact_size(), &w, "size of an internal message info");
                wire(&m, &w);
                let r = RelaxedMsgInfo::from(i.clone());
                check(r == RelaxedMsgInfo::Int(relax(&i, Some(i.src.clone()))), "a message info changes when relaxed");
                size(r.exact_size(), &w, "size of a relaxed internal message info");
                wire(&r, &w);
                reach("int");
            }
            1 => {
                w.u(0b10, 2);
                let src = any_ext(&mut w, [None, Some(0), Some(13), Some(511)][pick(3, "src") as usize]);
                let dst = any_int(&mut w, pick(2, "dst"));
                let import_fee = any_tokens(&mut w, "fee");
                let i = ExtInMsgInfo { src, dst, import_fee };
                let m = MsgInfo::ExtIn(i.clone());
                check(m.ty() == MsgType::ExtIn && !m.is_internal() && m.is_external_in() && !m.is_external_out(), "message type");
                size(m.exact_size(), &w, "size of an inbound message info");
                wire(&m, &w);
                wire_bad::<RelaxedMsgInfo>(&w, "an inbound message is read as relaxed");
                reach("in");
            }
            2 => {
                w.u(0b11, 2);
                let src = any_int(&mut w, pick(2, "src"));
                let dst = any_ext(&mut w, [None, Some(0), Some(13), Some(511)][pick(3, "dst") as usize]);
                let (lt, at) = (any_u64("lt"), any_u32("at"));
                w.u(lt as u128, 64).u(at as u128, 32);
                let i = ExtOutMsgInfo { src, dst, created_lt: lt, created_at: at };
                let m = MsgInfo::ExtOut(i.clone());
                check(m.ty() == MsgType::ExtOut && !m.is_internal() && !m.is_external_in() && m.is_external_out(), "message type");
                size(m.exact_size(), &w, "size of an outbound message info");
                wire(&m, &w);
                let r = RelaxedMsgInfo::from(i);
                size(r.exact_size(), &w, "size of a relaxed outbound message info");
                wire(&r, &w);
                reach("out");
            }
            3 => {
                // no source: relaxed only
                let f = any_u8("flags") & 7;
                w.u(0, 1).u(f as u128, 3).u(0, 2);
                let dst = any_int(&mut w, pick(2, "dst"));
                let value = any_cc(&mut w);
                let ihr_fee = any_tokens_n(&mut w, 0, "ihr");
                let fwd_fee = any_tokens_n(&mut w, 2, "fwd");
                let (lt, at) = (any_u64("lt"), any_u32("at"));
                w.u(lt as u128, 64).u(at as u128, 32);
                let i = RelaxedIntMsgInfo {
                    ihr_disabled: f & 4 != 0, bounce: f & 2 != 0, bounced: f & 1 != 0,
                    src: None, dst, value, ihr_fee, fwd_fee, created_lt: lt, created_at: at,
                };
                let r = RelaxedMsgInfo::from(i);
                size(r.exact_size(), &w, "size of a relaxed internal message info");
                wire(&r, &w);
                wire_bad::<MsgInfo>(&w, "a message without a source is read as strict");
                reach("relaxed int");
            }
            _ => {
                w.u(0b11, 2).u(0, 2);
                let dst = any_ext(&mut w, [None, Some(256)][pick(1, "dst") as usize]);
                let (lt, at) = (any_u64("lt"), any_u32("at"));
                w.u(lt as u128, 64).u(at as u128, 32);
                let r = RelaxedMsgInfo::from(RelaxedExtOutMsgInfo { src: None, dst, created_lt: lt, created_at: at });
                size(r.exact_size(), &w, "size of a relaxed outbound message info");
                wire(&r, &w);
                wire_bad::<MsgInfo>(&w, "a message without a source is read as strict");
                reach("relaxed out");
            }
        }
    }

    /// Truncated message infos and addresses of the wrong class.
    fn ms_info_bad() {
        let mut w = W::new();
        match pick(3, "kind") {
            0 => {
                any_int_info(&mut w, 0, 0);
                wire_cut::<MsgInfo>(&w);
            }
            1 => {
                w.u(0b10, 2);
                any_ext(&mut w, Some(20));
                any_int(&mut w, 0);
                any_tokens_n(&mut w, 1, "fee");
                wire_cut::<MsgInfo>(&w);
            }
            2 => {
                w.u(0b11, 2);
                any_int(&mut w, 0);
                any_ext(&mut w, None);
                w.u(any_u64("lt") as u128, 64).u(5, 32);
                wire_cut::<MsgInfo>(&w);
                reach("out");
            }
            _ => {
                // an external address where an internal one belongs and the other way round
                let cls = any_u8("class") & 3;
                let kind = pick(2, "msg");
                match kind {
                    0 => {
                        w.u(0, 4).u(cls as u128, 2);
                        assume(cls < 2);
                    }
                    1 => {
                        w.u(0b10, 2).u(cls as u128, 2);
                        assume(cls >= 2);
                    }
                    _ => {
                        w.u(0b11, 2).u(cls as u128, 2);
                        assume(cls == 1);
                    }
                }
                w.u(any_u128("x"), 128).u(any_u128("y"), 128).u(any_u128("z"), 128);
                w.u(0, 300);
                wire_bad::<MsgInfo>(&w, "an address of the wrong class is accepted");
                if kind != 1 && cls != 0 {
                    wire_bad::<RelaxedMsgInfo>(&w, "an address of the wrong class is accepted");
                }
                reach("class");
            }
        }
    }

    /// The initial state of an account.
    fn ms_state_init() {
        let mask = pick(31, "fields") as u8;
        let mut w = W::new();
        let s = any_state(&mut w, mask);
        size(s.exact_size(), &w, "size of a state init");
        check(s.bit_len() as usize == w.b.len() && s.reference_count() as usize == w.r.len(), "size of a state init");
        wire(&s, &w);
        wire_cut::<StateInit>(&w);
        reach("state");
    }

    /// The layout chosen for any sizes is the first of plain, body, init, both that fits.
    fn ms_layout() {
        let mut w = W::new();
        let init = if any_bool("init") {
            let m = pick(31, "fields") as u8;
            Some(any_state(&mut w, m))
        } else {
            None
        };
        let info = Size { bits: any_u16("info.bits"), refs: any_u8("info.refs") };
        let body = Size { bits: any_u16("body.bits"), refs: any_u8("body.refs") };
        assume(info.bits <= 1020 && info.refs <= 1 && body.bits <= 1023 && body.refs <= 4);
        let (ib, ir) = (w.b.len() as u32, w.r.len() as u32);
        let base = info.bits as u32 + 2 + init.is_some() as u32;
        let full = |i: bool, b: bool| {
            let bits = base + if i { 0 } else { ib } + if b { 0 } else { body.bits as u32 };
            let refs = info.refs as u32 + if i { 1 } else { ir } + if b { 1 } else { body.refs as u32 };
            (bits, refs)
        };
        let fits = |s: (u32, u32)| s.0 <= 1023 && s.1 <= 4;
        let want = if fits(full(false, false)) {
            (false, false)
        } else if fits(full(false, true)) {
            (false, true)
        } else if fits(full(true, false)) && init.is_some() {
            (true, false)
        } else {
            (true, true)
        };
        let (l, s) = MessageLayout::compute(info, init.as_ref(), body);
        let e = full(want.0, want.1);
        if fits(e) {
            check(l.body_to_cell == want.1, "the layout puts the body in the wrong place");
            check(init.is_none() || l.init_to_cell == want.0, "the layout puts the init in the wrong place");
            check(s.bits as u32 == e.0 && s.refs as u32 == e.1, "the layout promises a wrong size");
            reach("fits");
        }
        for k in 0..4u8 {
            let (i, b) = (k & 1 != 0, k & 2 != 0);
            let s = MessageLayout { init_to_cell: i, body_to_cell: b }.compute_full_size(info, init.as_ref(), body);
            let e = full(i && init.is_some(), b);
            check(s.bits as u32 == e.0 && s.refs as u32 == e.1, "the size of a layout is wrong");
        }
        check(MessageLayout::plain() == MessageLayout { init_to_cell: false, body_to_cell: false }, "plain layout");
    }

    /// Message infos and addresses which exactly fill a cell, and those which are one bit too long.
    fn ms_tight() {
        let over = pick(1, "over") as usize;
        let mut w = W::new();
        let tight = |v: &dyn Store, w: &W| {
            let mut b = CellBuilder::new();
            let n = 1023 - w.b.len() + over;
            must(b.store_zeros(n as u16), "zeros");
            let r = v.store_into(&mut b, Cell::empty_context());
            check(r.is_ok() == (over == 0), "what exactly fills a cell is refused, or what does not fit is stored");
            if over == 0 {
                let mut e = W::new();
                e.b = Bits::zeros(n);
                e.join(w);
                e.check(must(b.build(), "a full builder").as_ref(), "a value at the end of a cell is stored differently");
            }
        };
        let ext = [None, Some(0), Some(13)][pick(2, "ext") as usize];
        let k = pick(2, "int");
        match pick(5, "what") {
            0 => {
                w.u(0b10, 2);
                let src = any_ext(&mut w, ext);
                let dst = any_int(&mut w, k);
                tight(&MsgInfo::ExtIn(ExtInMsgInfo { src, dst, import_fee: any_tokens_n(&mut w, 1, "fee") }), &w);
                reach("in");
            }
            1 => {
                w.u(0b11, 2);
                let src = any_int(&mut w, k);
                let dst = any_ext(&mut w, ext);
                w.u(7, 64).u(9, 32);
                let i = ExtOutMsgInfo { src, dst, created_lt: 7, created_at: 9 };
                tight(&MsgInfo::ExtOut(i.clone()), &w);
                tight(&RelaxedMsgInfo::from(i), &w);
                reach("out");
            }
            2 => {
                let i = any_int_info(&mut w, k, 0);
                assume(w.r.is_empty());
                tight(&MsgInfo::Int(i), &w);
                reach("int");
            }
            3 => {
                let a = any_int(&mut w, k);
                tight(&a, &w);
                if let IntAddr::Std(a) = &a {
                    tight(a, &w);
                }
                if let IntAddr::Var(a) = &a {
                    tight(a, &w);
                }
                reach("address");
            }
            4 => {
                tight(&any_tokens_n(&mut w, 3, "tokens"), &w);
                reach("tokens");
            }
            _ => {
                w.u(5, 5).u(0b10110, 5);
                let mut x = W::new();
                x.u(0b10110, 5);
                let c = x.build();
                let a = must(Anycast::from_slice(&must(c.as_slice(), "slice")), "anycast");
                tight(&a, &w);
                reach("anycast");
            }
        }
    }

    /// Whole messages in every layout, around the size limits.
    fn ms_message() {
        let mut wi = W::new();
        let info = match pick(2, "kind") {
            0 => {
                let f = any_u8("flags") & 7;
                w_int(&mut wi, f)
            }
            1 => {
                wi.u(0b10, 2);
                let src = any_ext(&mut wi, None);
                let dst = any_int(&mut wi, 0);
                MsgInfo::ExtIn(ExtInMsgInfo { src, dst, import_fee: any_tokens_n(&mut wi, 1, "fee") })
            }
            _ => {
                wi.u(0b11, 2);
                let src = any_int(&mut wi, 0);
                let dst = any_ext(&mut wi, Some(300));
                wi.u(7, 64).u(9, 32);
                MsgInfo::ExtOut(ExtOutMsgInfo { src, dst, created_lt: 7, created_at: 9 })
            }
        };
        let mut ws = W::new();
        let init = match pick(2, "init") {
            0 => None,
            1 => Some(any_state(&mut ws, 0b01100)),
            _ => Some(any_state(&mut ws, 0b11111)),
        };
        let have = init.is_some() as usize;
        let room = 1023 - wi.b.len() - 2 - have;
        let bits = [0, room - ws.b.len() - 1, room - ws.b.len(), room - ws.b.len() + 1, room, room + 1][pick(5, "body.bits") as usize];
        let refs = pick(4, "body.refs") as usize;
        let mut wb = W::new();
        if bits > 0 {
            wb.u(any_u8("body") as u128, bits.min(8));
            for i in 8..bits {
                wb.b.0.push((i % 3 == 0) as u8);
            }
        }
        for i in 0..refs {
            wb.cell(&tiny(0x50 + i as u8));
        }
        // the body is a whole cell, or a part of one
        let part = any_bool("part");
        let parts: CellSliceParts = if part && bits <= 1000 && refs < 4 {
            let mut x = W::new();
            x.u(0b11001, 5).cell(&tiny(0x77)).join(&wb).u(0b01, 2);
            let c = x.build();
            let mut r = CellSliceRange::full(c.as_ref());
            must(r.skip_first(5, 1), "range");
            must(r.skip_last(2, 0), "range");
            (r, c)
        } else {
            wb.build().into()
        };
        let lay = pick(4, "layout");
        let layout = (lay > 0).then(|| MessageLayout { init_to_cell: (lay - 1) & 1 != 0, body_to_cell: (lay - 1) & 2 != 0 });
        let compose = |i: bool, b: bool| {
            let mut w = wi.clone();
            if init.is_some() {
                w.bit(true).bit(i);
                if i { w.sub(ws.clone()); } else { w.join(&ws); }
            } else {
                w.bit(false);
            }
            w.bit(b);
            if b { w.sub(wb.clone()); } else { w.join(&wb); }
            w
        };
        let (i, b) = match layout {
            // without an init, there is nothing to put aside
            Some(l) => (l.init_to_cell && init.is_some(), l.body_to_cell),
            None => {
                let order: &[(bool, bool)] = if init.is_some() { &[(false, false), (false, true), (true, false), (true, true)] } else { &[(false, false), (false, true)] };
                *must(order.iter().find(|o| compose(o.0, o.1).fits()).ok_or(()), "no layout")
            }
        };
        let w = compose(i, b);
        let m = OwnedMessage { info: info.clone(), init: init.clone(), body: parts, layout };
        let c = CellBuilder::build_from(&m);
        if !w.fits() {
            check(c.is_err(), "an oversized message is stored");
            reach("oversized");
            return;
        }
        let c = must(c, "a message is not stored");
        w.check(c.as_ref(), "a message is stored differently");
        check(m.ty() == info.ty(), "message type");
        let l = must(c.parse::<OwnedMessage>(), "a stored message does not load");
        check(l.info == info && l.init == init, "a message loads differently");
        check(l.layout == Some(MessageLayout { init_to_cell: i, body_to_cell: b }), "a message loads with another layout");
        let body = must(l.body.0.apply(&l.body.1), "body");
        check_slice(&wb, &body, "a message body loads differently");
        let l = must(c.parse::<Message<'_>>(), "a stored message does not load");
        check(l.info == info && l.init == init, "a message loads differently");
        check_slice(&wb, &l.body, "a message body loads differently");
        // storing what was loaded gives the same cell
        w.check(must(CellBuilder::build_from(&l), "a loaded message is not stored").as_ref(), "a loaded message is stored differently");
        let r = c.parse::<RelaxedMessage<'_>>();
        check(r.is_ok() == !info.is_external_in(), "relaxed reading of a message");
        if lay == 0 { reach("auto layout"); } else { reach("fixed layout"); }
    }

    /// Message envelopes and intermediate addresses.
    fn ms_envelope() {
        let mut w = W::new();
        w.u(4, 4);
        let c1 = pick(2, "cur");
        let c2 = pick(2, "next");
        let cur_addr = inter(&mut w, c1);
        let next_addr = inter(&mut w, c2);
        let fee = any_tokens(&mut w, "fee");
        let msg = tiny(9);
        w.cell(&msg);
        let mut e = MsgEnvelope { cur_addr, next_addr, fwd_fee_remaining: fee, message: must(Lazy::from_raw(msg.clone()), "lazy") };
        wire(&e, &w);
        wire_cut::<MsgEnvelope>(&w);
        check(e.message_hash() == msg.repr_hash(), "envelope message hash");
        let t = Tokens::new(any_u64("take") as u128);
        let ok = e.collect_fee(t);
        check(ok == (t <= fee), "collecting more fees than there are");
        check(e.fwd_fee_remaining == if ok { Tokens::new(fee.into_inner() - t.into_inner()) } else { fee }, "collected fees");
        reach("envelope");
    }
    fn ms_inter() {
        let mut w = W::new();
        let n = any_u8("bits");
        let a = IntermediateAddrRegular::with_dest_bits(n);
        let b = IntermediateAddrRegular::with_src_bits(n);
        check(a.is_some() == (n <= 96) && b.is_some() == (n <= 96), "prefix lengths above 96");
        if let (Some(a), Some(b)) = (a, b) {
            check(a.use_dest_bits() == n && a.use_src_bits() == 96 - n && b.use_src_bits() == n && b.use_dest_bits() == 96 - n, "prefix lengths");
            reach("ok");
        }
        w.u(0, 1).u((n & 127) as u128, 7);
        let r = w.build();
        let r = r.parse::<IntermediateAddr>();
        check(r.is_ok() == (n & 127 <= 96), "prefix lengths above 96 load");
        if let Ok(r) = r {
            check(r.workchain().is_none() && r.address_prefix().is_none(), "parts of a regular address");
        }
        let mut t = W::new();
        t.u(any_u8("tag") as u128 & 15, 4);
        assume(t.b.int(0, 4) != 4);
        t.u(0, 20).cell(&tiny(1));
        wire_bad::<MsgEnvelope>(&t, "an envelope with a wrong tag is accepted");
        check(IntermediateAddr::FULL_DEST_SAME_WORKCHAIN == IntermediateAddr::Regular(IntermediateAddrRegular::with_dest_bits(96).unwrap()), "constants");
        check(IntermediateAddr::FULL_SRC_SAME_WORKCHAIN == IntermediateAddr::Regular(IntermediateAddrRegular::with_src_bits(96).unwrap()), "constants");
    }

    /// Inbound and outbound message descriptions, and the fees they account for.
    fn ms_descr() {
        let mut w = W::new();
        let (a, b, c) = (tiny(1), tiny(2), tiny(3));
        match pick(11, "kind") {
            0 => {
                w.u(0b000, 3).cell(&a).cell(&b);
                let m = InMsg::External(InMsgExternal { in_msg: lz(&a), transaction: lz(&b) });
                wire(&m, &w);
                wire_cut::<InMsg>(&w);
                check(m.transaction_cell().as_ref() == Some(&b) && m.in_msg_envelope_cell().is_none() && m.out_msg_envelope_cell().is_none(), "parts of an inbound message");
                check(must(m.load_msg_cell(), "msg") == a, "parts of an inbound message");
                check(must(m.compute_fees(), "fees") == ImportFees::default(), "fees of an external message");
            }
            k @ 1..=2 => {
                w.u(if k == 1 { 0b011 } else { 0b100 }, 3).cell(&a).cell(&b);
                let fwd_fee = any_tokens(&mut w, "fee");
                let f = InMsgFinal { in_msg_envelope: lz(&a), transaction: lz(&b), fwd_fee };
                let m = if k == 1 { InMsg::Immediate(f) } else { InMsg::Final(f) };
                wire(&m, &w);
                wire_cut::<InMsg>(&w);
                check(m.transaction_cell().as_ref() == Some(&b) && m.in_msg_envelope_cell().as_ref() == Some(&a) && m.out_msg_envelope_cell().is_none(), "parts of an inbound message");
            }
            3 => {
                w.u(0b101, 3).cell(&a).cell(&b);
                let transit_fee = any_tokens(&mut w, "fee");
                let m = InMsg::Transit(InMsgTransit { in_msg_envelope: lz(&a), out_msg_envelope: lz(&b), transit_fee });
                wire(&m, &w);
                wire_cut::<InMsg>(&w);
                check(m.transaction_cell().is_none() && m.in_msg_envelope_cell().as_ref() == Some(&a) && m.out_msg_envelope_cell().as_ref() == Some(&b), "parts of an inbound message");
            }
            4 => {
                w.u(0b000, 3).cell(&a).cell(&b);
                let m = OutMsg::External(OutMsgExternal { out_msg: lz(&a), transaction: lz(&b) });
                wire(&m, &w);
                wire_cut::<OutMsg>(&w);
                check(m.transaction_cell().as_ref() == Some(&b) && m.out_msg_envelope_cell().is_none() && m.reimport_msg_cell().is_none(), "parts of an outbound message");
                check(must(m.compute_exported_value(), "value") == CurrencyCollection::ZERO, "exported value");
            }
            5 => {
                w.u(0b001, 3).cell(&a).cell(&b);
                let m = OutMsg::New(OutMsgNew { out_msg_envelope: lz(&a), transaction: lz(&b) });
                wire(&m, &w);
                check(m.transaction_cell().as_ref() == Some(&b) && m.out_msg_envelope_cell().as_ref() == Some(&a) && m.reimport_msg_cell().is_none(), "parts of an outbound message");
            }
            6 => {
                w.u(0b010, 3).cell(&a).cell(&b).cell(&c);
                let m = OutMsg::Immediate(OutMsgImmediate { out_msg_envelope: lz(&a), transaction: lz(&b), reimport: lz(&c) });
                wire(&m, &w);
                check(m.transaction_cell().as_ref() == Some(&b) && m.out_msg_envelope_cell().as_ref() == Some(&a) && m.reimport_msg_cell().as_ref() == Some(&c), "parts of an outbound message");
            }
            7 => {
                w.u(0b100, 3).cell(&a).cell(&b);
                let m = OutMsg::DequeueImmediate(OutMsgDequeueImmediate { out_msg_envelope: lz(&a), reimport: lz(&b) });
                wire(&m, &w);
                check(m.transaction_cell().is_none() && m.out_msg_envelope_cell().as_ref() == Some(&a) && m.reimport_msg_cell().as_ref() == Some(&b), "parts of an outbound message");
            }
            8 => {
                let h: [u8; 32] = any_bytes("hash");
                let (wc, p, lt) = (any_u32("wc"), any_u64("pfx"), any_u64("lt"));
                w.u(0b1101, 4).by(&h, 256).u(wc as u128, 32).u(p as u128, 64).u(lt as u128, 64);
                let m = OutMsg::DequeueShort(OutMsgDequeueShort { msg_env_hash: HashBytes(h), next_workchain: wc as i32, next_addr_pfx: p, import_block_lt: lt });
                wire(&m, &w);
                wire_cut::<OutMsg>(&w);
                check(m.transaction_cell().is_none() && m.out_msg_envelope_cell().is_none() && m.reimport_msg_cell().is_none(), "parts of an outbound message");
            }
            9 => {
                let lt = any_u64("lt");
                w.u(lt as u128, 64).cell(&a);
                wire(&EnqueuedMsg { enqueued_lt: lt, out_msg_envelope: lz(&a) }, &w);
                let mut f = W::new();
                let fees_collected = any_tokens(&mut f, "fees");
                let value_imported = any_cc(&mut f);
                wire(&ImportFees { fees_collected, value_imported }, &f);
                wire_cut::<ImportFees>(&f);
            }
            10 => {
                let t = any_u8("tag") & 7;
                w.u(t as u128, 3).u(any_u8("x") as u128, 8).u(0, 400).cell(&a).cell(&b).cell(&c);
                assume(t != 0b000 && t != 0b011 && t != 0b100 && t != 0b101);
                wire_bad::<InMsg>(&w, "an inbound message with a wrong tag is accepted");
            }
            _ => {
                let t = any_u8("tag") & 7;
                let x = any_u8("x");
                w.u(t as u128, 3).u(x as u128, 8).u(0, 420).cell(&a).cell(&b).cell(&c);
                assume(t == 0b011 || t == 0b101 || t == 0b111 || (t == 0b110 && x < 128));
                wire_bad::<OutMsg>(&w, "an outbound message with a wrong tag is accepted");
                reach("tags");
            }
        }
    }

    /// The parts a message description leads to: messages, envelopes, transactions, reimports.
    fn ms_parts() {
        let (a, ai) = int_msg(77, 1);
        let (b, bi) = int_msg(88, 2);
        let (ea, eav) = envelope(&a, 5);
        let (eb, ebv) = envelope(&b, 6);
        let (t, tv) = transaction();
        let fee = Tokens::new(3);
        let im = InMsg::Final(InMsgFinal { in_msg_envelope: lz(&eb), transaction: lz(&t), fwd_fee: fee });
        let re = must(CellBuilder::build_from(&im), "an inbound message is not stored");
        let kind = pick(10, "kind");
        if kind < 4 {
            let (x, xi) = ext_in();
            let m = match kind {
                0 => InMsg::External(InMsgExternal { in_msg: lz(&x), transaction: lz(&t) }),
                1 => InMsg::Immediate(InMsgFinal { in_msg_envelope: lz(&ea), transaction: lz(&t), fwd_fee: fee }),
                2 => InMsg::Final(InMsgFinal { in_msg_envelope: lz(&ea), transaction: lz(&t), fwd_fee: fee }),
                _ => InMsg::Transit(InMsgTransit { in_msg_envelope: lz(&ea), out_msg_envelope: lz(&eb), transit_fee: fee }),
            };
            let (mc, mi) = if kind == 0 { (&x, MsgInfo::ExtIn(xi.clone())) } else { (&a, MsgInfo::Int(ai.clone())) };
            check(must(m.load_msg_cell(), "no message") == *mc, "message of an inbound message");
            is_msg(&must(m.load_msg(), "no message"), &mi, mc);
            is_owned(&must(m.load_msg_owned(), "no message"), &mi, mc);
            let env = (kind > 0).then(|| eav.clone());
            check(m.load_in_msg_envelope() == Ok(env.clone()) && m.in_msg_envelope_cell() == env.map(|_| ea.clone()), "envelope of an inbound message");
            let env = (kind == 3).then(|| ebv.clone());
            check(m.load_out_msg_envelope() == Ok(env.clone()) && m.out_msg_envelope_cell() == env.map(|_| eb.clone()), "new envelope of an inbound message");
            let tx = (kind < 3).then(|| tv.clone());
            check(m.load_transaction() == Ok(tx.clone()) && m.transaction_cell() == tx.map(|_| t.clone()), "transaction of an inbound message");
            match &m {
                InMsg::External(e) => {
                    check(e.load_in_msg_info() == Ok(xi), "info of an external message");
                    is_msg(&must(e.load_in_msg(), "no message"), &mi, mc);
                    is_owned(&must(e.load_in_msg_owned(), "no message"), &mi, mc);
                    check(e.load_transaction() == Ok(tv), "transaction of an external message");
                    let e = InMsgExternal { in_msg: lz(&a), transaction: lz(&t) };
                    check(e.load_in_msg_info().is_err(), "an internal message as an external one");
                    reach("external");
                }
                InMsg::Immediate(e) | InMsg::Final(e) => {
                    check(e.load_in_msg_info() == Ok(ai), "info of an executed message");
                    is_msg(&must(e.load_in_msg(), "no message"), &mi, mc);
                    is_owned(&must(e.load_in_msg_owned(), "no message"), &mi, mc);
                    check(e.load_in_msg_cell() == Ok(a), "message of an executed message");
                    check(e.load_in_msg_envelope() == Ok(eav) && e.in_msg_envelope_hash() == ea.repr_hash(), "envelope of an executed message");
                    check(e.load_transaction() == Ok(tv), "transaction of an executed message");
                    let (ex, _) = envelope(&x, 1);
                    let e = InMsgFinal { in_msg_envelope: lz(&ex), transaction: lz(&t), fwd_fee: fee };
                    check(e.load_in_msg_info().is_err(), "an external message as an internal one");
                    reach("executed");
                }
                InMsg::Transit(e) => {
                    is_msg(&must(e.load_in_msg(), "no message"), &mi, mc);
                    is_owned(&must(e.load_in_msg_owned(), "no message"), &mi, mc);
                    let bi = MsgInfo::Int(bi);
                    is_msg(&must(e.load_out_msg(), "no message"), &bi, &b);
                    is_owned(&must(e.load_out_msg_owned(), "no message"), &bi, &b);
                    check(e.load_in_msg_cell() == Ok(a) && e.load_out_msg_cell() == Ok(b), "messages of a transit message");
                    check(e.load_in_msg_envelope() == Ok(eav) && e.in_msg_envelope_hash() == ea.repr_hash(), "envelope of a transit message");
                    check(e.load_out_msg_envelope() == Ok(ebv) && e.out_msg_envelope_hash() == eb.repr_hash(), "new envelope of a transit message");
                    reach("transit");
                }
            }
            return;
        }
        if kind < 9 {
            let (x, xi) = ext_out();
            let m = match kind {
                4 => OutMsg::External(OutMsgExternal { out_msg: lz(&x), transaction: lz(&t) }),
                5 => OutMsg::New(OutMsgNew { out_msg_envelope: lz(&ea), transaction: lz(&t) }),
                6 => OutMsg::Immediate(OutMsgImmediate { out_msg_envelope: lz(&ea), transaction: lz(&t), reimport: lz(&re) }),
                7 => OutMsg::DequeueImmediate(OutMsgDequeueImmediate { out_msg_envelope: lz(&ea), reimport: lz(&re) }),
                _ => OutMsg::DequeueShort(OutMsgDequeueShort { msg_env_hash: *ea.repr_hash(), next_workchain: 0, next_addr_pfx: 1, import_block_lt: 2 }),
            };
            let (mc, mi) = if kind == 4 { (&x, MsgInfo::ExtOut(xi.clone())) } else { (&a, MsgInfo::Int(ai.clone())) };
            match (must(m.load_message(), "no message"), must(m.load_message_owned(), "no message")) {
                (Some(m), Some(o)) => {
                    check(kind != 8, "message of a dequeued message");
                    is_msg(&m, &mi, mc);
                    is_owned(&o, &mi, mc);
                }
                (None, None) => check(kind == 8, "message of an outbound message"),
                _ => check(false, "message of an outbound message"),
            }
            let env = matches!(kind, 5..=7).then(|| eav.clone());
            check(m.load_out_msg_envelope() == Ok(env.clone()) && m.out_msg_envelope_cell() == env.map(|_| ea.clone()), "envelope of an outbound message");
            let tx = (kind < 7).then(|| tv.clone());
            check(m.load_transaction() == Ok(tx.clone()) && m.transaction_cell() == tx.map(|_| t.clone()), "transaction of an outbound message");
            let r = matches!(kind, 6..=7).then(|| im.clone());
            check(m.load_reimport_msg() == Ok(r.clone()) && m.reimport_msg_cell() == r.map(|_| re.clone()), "reimport of an outbound message");
            match &m {
                OutMsg::External(e) => {
                    check(e.load_out_msg_info() == Ok(xi), "info of an external message");
                    is_msg(&must(e.load_out_msg(), "no message"), &mi, mc);
                    is_owned(&must(e.load_out_msg_owned(), "no message"), &mi, mc);
                    check(e.load_transaction() == Ok(tv), "transaction of an external message");
                    let e = OutMsgExternal { out_msg: lz(&a), transaction: lz(&t) };
                    check(e.load_out_msg_info().is_err(), "an internal message as an external one");
                    reach("external out");
                }
                OutMsg::New(e) => {
                    check(e.load_out_msg_info() == Ok(ai), "info of a new message");
                    is_msg(&must(e.load_out_msg(), "no message"), &mi, mc);
                    is_owned(&must(e.load_out_msg_owned(), "no message"), &mi, mc);
                    check(e.load_out_msg_envelope() == Ok(eav) && e.load_transaction() == Ok(tv), "parts of a new message");
                    reach("new");
                }
                OutMsg::Immediate(e) => {
                    check(e.load_out_msg_info() == Ok(ai), "info of an immediate message");
                    is_msg(&must(e.load_out_msg(), "no message"), &mi, mc);
                    is_owned(&must(e.load_out_msg_owned(), "no message"), &mi, mc);
                    check(e.load_out_msg_envelope() == Ok(eav) && e.load_transaction() == Ok(tv) && e.load_reimport_msg() == Ok(im), "parts of an immediate message");
                    reach("immediate");
                }
                OutMsg::DequeueImmediate(e) => {
                    check(e.load_out_msg_info() == Ok(ai), "info of a dequeued message");
                    is_msg(&must(e.load_out_msg(), "no message"), &mi, mc);
                    is_owned(&must(e.load_out_msg_owned(), "no message"), &mi, mc);
                    check(e.load_out_msg_envelope() == Ok(eav) && e.load_reimport_msg() == Ok(im), "parts of a dequeued message");
                    reach("dequeued");
                }
                OutMsg::DequeueShort(_) => reach("short"),
            }
            return;
        }
        if kind == 9 {
            let e = must(ea.parse::<MsgEnvelope>(), "an envelope is not loaded");
            check(e.load_message_info() == Ok(ai.clone()) && e.message_hash() == a.repr_hash(), "message of an envelope");
            let ai = MsgInfo::Int(ai);
            is_msg(&must(e.load_message(), "no message"), &ai, &a);
            is_owned(&must(e.load_message_owned(), "no message"), &ai, &a);
            let (x, _) = ext_out();
            check(envelope(&x, 1).1.load_message_info().is_err(), "an external message as an internal one");
            reach("envelope parts");
            return;
        }
        // an enqueued message is of either kind
        let out = any_bool("out");
        let (m, mi, lt) = if out {
            let (x, xi) = ext_out();
            let lt = xi.created_lt;
            (x, MsgInfo::ExtOut(xi), lt)
        } else {
            let lt = ai.created_lt;
            (a, MsgInfo::Int(ai), lt)
        };
        let (env, _) = envelope(&m, 9);
        let q = EnqueuedMsg { enqueued_lt: 5, out_msg_envelope: lz(&env) };
        check(q.load_out_msg_info() == Ok(mi.clone()) && q.load_created_lt() == Ok(lt), "info of an enqueued message");
        is_msg(&must(q.load_out_msg(), "no message"), &mi, &m);
        is_owned(&must(q.load_out_msg_owned(), "no message"), &mi, &m);
        let (x, _) = ext_in();
        let (env, _) = envelope(&x, 9);
        let q = EnqueuedMsg { enqueued_lt: 5, out_msg_envelope: lz(&env) };
        check(q.load_created_lt().is_err(), "creation time of an inbound message");
        reach("enqueued");
    }

    /// Fees and exported values follow from the envelope and the message inside.
    fn ms_fees() {
        let mut wm = W::new();
        let f = any_u8("flags") & 7;
        let (v, ihr, fwd) = (any_u64("value") as u128, any_u32("ihr") as u128, any_u32("fwd") as u128);
        // fixed lengths, so that the encodings have one shape
        assume(v >> 56 != 0 && ihr >> 24 != 0 && fwd >> 24 != 0);
        let extra = any_bool("extra");
        let int = any_bool("internal");
        let xc = tiny(0xcc);
        if int {
            wm.u(0, 1).u(f as u128, 3);
            any_std(&mut wm, 0);
            any_std(&mut wm, 0);
            wm.vu(v, 8, 4).bit(extra);
            if extra {
                wm.cell(&xc);
            }
            wm.vu(ihr, 4, 4).vu(fwd, 4, 4).u(77, 64).u(88, 32).u(0, 2);
        } else {
            let out = any_bool("out");
            wm.u(if out { 0b11 } else { 0b10 }, 2);
            if out {
                any_std(&mut wm, 0);
                any_ext(&mut wm, None);
                wm.u(77, 64).u(88, 32);
            } else {
                any_ext(&mut wm, None);
                any_std(&mut wm, 0);
                wm.u(0, 4);
            }
            wm.u(0, 2);
        }
        let remaining = any_u32("remaining") as u128;
        assume(remaining >> 24 != 0);
        let mut we = W::new();
        we.u(4, 4);
        inter(&mut we, 0);
        inter(&mut we, 0);
        we.vu(remaining, 4, 4).sub(wm.clone());
        let env = we.build();
        let tx = tiny(5);
        let fee = any_u32("fee") as u128;
        let other = ExtraCurrencyCollection::from_raw(extra.then(|| xc.clone()));
        let total = CurrencyCollection { tokens: Tokens::new(v + ihr + remaining), other: other.clone() };
        let kind = pick(3, "kind");
        if kind == 3 {
            let m = OutMsg::New(OutMsgNew { out_msg_envelope: lz(&env), transaction: lz(&tx) });
            let r = m.compute_exported_value();
            check(r.is_ok() == int, "exported value of a message that is not internal");
            if int {
                check(r == Ok(total), "exported value");
                reach("exported");
            }
            let q = EnqueuedMsg { enqueued_lt: 5, out_msg_envelope: lz(&env) };
            if int {
                check(q.load_created_lt() == Ok(77), "creation time of an enqueued message");
            }
            return;
        }
        let m = match kind {
            0 => InMsg::Immediate(InMsgFinal { in_msg_envelope: lz(&env), transaction: lz(&tx), fwd_fee: Tokens::new(fee) }),
            1 => InMsg::Final(InMsgFinal { in_msg_envelope: lz(&env), transaction: lz(&tx), fwd_fee: Tokens::new(fee) }),
            _ => InMsg::Transit(InMsgTransit { in_msg_envelope: lz(&env), out_msg_envelope: lz(&env), transit_fee: Tokens::new(fee) }),
        };
        let want = match kind {
            0 => Some(ImportFees { fees_collected: Tokens::new(fwd), value_imported: CurrencyCollection::ZERO }),
            1 => (fee == remaining).then(|| ImportFees { fees_collected: Tokens::new(remaining), value_imported: total }),
            _ => (fee <= remaining).then(|| ImportFees { fees_collected: Tokens::new(fee), value_imported: total }),
        };
        match (int, want, m.compute_fees()) {
            (true, Some(w), Ok(r)) => {
                check(r == w, "fees of an inbound message");
                reach("fees");
            }
            (true, None, Err(_)) => reach("inconsistent"),
            (false, _, Err(_)) => reach("not internal"),
            _ => check(false, "fees of an inbound message are computed or refused wrongly"),
        }
        check(must(m.load_msg_cell(), "msg") == wm.build(), "message of an inbound message");
    }
}

fn w_int(w: &mut W, f: u8) -> MsgInfo {
    w.u(0, 1).u(f as u128, 3);
    let src = any_int(w, 0);
    let dst = any_int(w, 0);
    let extra = any_bool("extra");
    w.vu(300, 2, 4).bit(extra);
    let c = tiny(0xcc);
    if extra {
        w.cell(&c);
    }
    w.u(0, 4).vu(5, 1, 4).u(11, 64).u(13, 32);
    MsgInfo::Int(IntMsgInfo {
        ihr_disabled: f & 4 != 0,
        bounce: f & 2 != 0,
        bounced: f & 1 != 0,
        src,
        dst,
        value: CurrencyCollection { tokens: Tokens::new(300), other: ExtraCurrencyCollection::from_raw(extra.then_some(c)) },
        ihr_fee: Tokens::new(0),
        fwd_fee: Tokens::new(5),
        created_lt: 11,
        created_at: 13,
    })
}
fn inter(w: &mut W, kind: u64) -> IntermediateAddr {
    match kind {
        0 => {
            let n = any_u8("use_dest_bits");
            assume(n <= 96);
            w.u(0, 1).u(n as u128, 7);
            IntermediateAddr::Regular(must(IntermediateAddrRegular::with_dest_bits(n).ok_or(()), "regular"))
        }
        1 => {
            let (wc, p) = (any_u8("wc"), any_u64("pfx"));
            w.u(0b10, 2).u(wc as u128, 8).u(p as u128, 64);
            let a = IntermediateAddr::Simple(IntermediateAddrSimple { workchain: wc as i8, address_prefix: p });
            check(a.workchain() == Some(wc as i8 as i32) && a.address_prefix() == Some(p), "parts of a simple address");
            a
        }
        _ => {
            let (wc, p) = (any_u32("wc"), any_u64("pfx"));
            w.u(0b11, 2).u(wc as u128, 32).u(p as u128, 64);
            let a = IntermediateAddr::Ext(IntermediateAddrExt { workchain: wc as i32, address_prefix: p });
            check(a.workchain() == Some(wc as i32) && a.address_prefix() == Some(p), "parts of an extended address");
            a
        }
    }
}
fn check_slice(w: &W, s: &CellSlice<'_>, msg: &'static str) {
    let mut b = CellBuilder::new();
    must(b.store_slice(s), msg);
    w.check(must(b.build(), msg).as_ref(), msg);
}
fn lz<T>(c: &Cell) -> Lazy<T> {
    must(Lazy::from_raw(c.clone()), "lazy")
}
/// An internal message with a body of one bit and one reference.
fn int_msg(lt: u64, tag: u8) -> (Cell, IntMsgInfo) {
    let mut w = W::new();
    let f = any_u8("flags") & 7;
    w.u(0, 1).u(f as u128, 3);
    let src = any_int(&mut w, 0);
    let dst = any_int(&mut w, 0);
    let at = any_u32("at");
    w.vu(300 + lt as u128, 2, 4).bit(false).u(0, 4).vu(tag as u128, 1, 4).u(lt as u128, 64).u(at as u128, 32);
    w.u(0, 1).bit(tag == 1).cell(&tiny(tag));
    let i = IntMsgInfo {
        ihr_disabled: f & 4 != 0,
        bounce: f & 2 != 0,
        bounced: f & 1 != 0,
        src,
        dst,
        value: CurrencyCollection { tokens: Tokens::new(300 + lt as u128), other: ExtraCurrencyCollection::new() },
        ihr_fee: Tokens::ZERO,
        fwd_fee: Tokens::new(tag as u128),
        created_lt: lt,
        created_at: at,
    };
    (w.build(), i)
}
fn ext_in() -> (Cell, ExtInMsgInfo) {
    let mut w = W::new();
    w.u(0b1000, 4);
    let dst = any_int(&mut w, 0);
    w.vu(9, 1, 4).u(0, 1).bit(true).cell(&tiny(3));
    (w.build(), ExtInMsgInfo { src: None, dst, import_fee: Tokens::new(9) })
}
fn ext_out() -> (Cell, ExtOutMsgInfo) {
    let mut w = W::new();
    w.u(0b11, 2);
    let src = any_int(&mut w, 0);
    let (lt, at) = (any_u64("out.lt"), any_u32("out.at"));
    w.u(0, 2).u(lt as u128, 64).u(at as u128, 32).u(0, 1).bit(false).cell(&tiny(4));
    (w.build(), ExtOutMsgInfo { src, dst: None, created_lt: lt, created_at: at })
}
fn envelope(m: &Cell, fee: u8) -> (Cell, MsgEnvelope) {
    let mut w = W::new();
    w.u(4, 4).u(fee as u128, 8).u(96, 8).vu(fee as u128, 1, 4).cell(m);
    let reg = |n| IntermediateAddr::Regular(must(IntermediateAddrRegular::with_dest_bits(n).ok_or(()), "regular"));
    (w.build(), MsgEnvelope { cur_addr: reg(fee), next_addr: reg(96), fwd_fee_remaining: Tokens::new(fee as u128), message: lz(m) })
}
fn transaction() -> (Cell, Transaction) {
    let (lt, now) = (any_u64("tx.lt"), any_u32("tx.now"));
    let mut w = W::new();
    w.u(0b0111, 4).u(0, 256).u(lt as u128, 64).u(0, 256).u(0, 64).u(now as u128, 32).u(0, 15).u(0b1010, 4);
    let mut m = W::new();
    m.u(0, 2);
    w.sub(m).u(0, 5).cell(&tiny(6)).cell(&tiny(7));
    let t = Transaction {
        account: HashBytes([0; 32]),
        lt,
        prev_trans_hash: HashBytes([0; 32]),
        prev_trans_lt: 0,
        now,
        out_msg_count: Uint15::new(0),
        orig_status: AccountStatus::Active,
        end_status: AccountStatus::Active,
        in_msg: None,
        out_msgs: Dict::new(),
        total_fees: CurrencyCollection::ZERO,
        state_update: lz(&tiny(6)),
        info: lz(&tiny(7)),
    };
    (w.build(), t)
}
/// A loaded message is the one in the cell: same info, no state, same body.
fn is_msg(m: &Message<'_>, i: &MsgInfo, c: &Cell) {
    check(m.info == *i && m.init.is_none(), "info of a loaded message");
    body(m.body.size_bits(), m.body.size_refs(), m.body.get_reference_cloned(0), c);
}
fn is_owned(m: &OwnedMessage, i: &MsgInfo, c: &Cell) {
    check(m.info == *i && m.init.is_none(), "info of a loaded message");
    let (range, cell) = &m.body;
    let s = must(range.apply(cell), "a body outside of its cell");
    body(s.size_bits(), s.size_refs(), s.get_reference_cloned(0), c);
}
fn body(bits: u16, refs: u8, r: Result<Cell, tycho_types::error::Error>, c: &Cell) {
    let own = must(c.reference_cloned(0).ok_or(()), "a message has its body");
    // in a cell of its own, the body is that cell
    let to_cell = c.as_ref().bit_len() > 0 && {
        let n = c.as_ref().bit_len();
        c.as_slice_allow_exotic().get_bit(n - 1) == Ok(true)
    };
    if to_cell {
        check(bits == own.bit_len() && refs == own.reference_count(), "body of a loaded message");
    } else {
        check(bits == 0 && refs == 1 && r == Ok(own), "body of a loaded message");
    }
}
