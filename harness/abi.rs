// ABI values against an independent layout model.
use crate::vp::*;
use bytes::Bytes;
use num_bigint::{BigInt, BigUint};
use std::collections::BTreeMap;
use std::num::NonZeroU8;
use std::sync::Arc;
use tycho_types::abi::*;
use tycho_types::cell::*;
use tycho_types::models::*;
use tycho_types::num::*;

const TOP: bool = true;
include!("wire.rs");
include!("dict_w.rs");

include!("abi_gen.rs");

harnesses! {
    // Numbers of fixed width.
    fn ab_int() {
        const N: [usize; 12] = [1, 7, 8, 9, 32, 63, 64, 65, 127, 128, 129, 256];
        let n = N[pick(11, "bits") as usize];
        let v = ver(true);
        let mut d = vec![0u8; n.div_ceil(8)];
        any_into(&mut d, "number");
        let pad = d.len() * 8 - n;
        // A few positions of the first significant bit.
        let mut b = Bits::new();
        b.bytes(&d, d.len() * 8);
        let mut b = Bits(b.0[pad..].to_vec());
        let first = pick(1, "first") as u8;
        let lead = pick(2, "lead") as usize;
        for i in 0..n.min(lead + 1) { b.0[i] = first; }
        if n > lead + 1 { b.0[lead + 1] = 1 - first; }
        let signed = pick(1, "signed") == 1;
        let mut e = Bits::new();
        e.fill(if signed { first } else { 0 }, pad);
        e.append(&b.0);
        let raw: Vec<u8> = (0..d.len()).map(|i| e.byte(i)).collect();
        let mut w = W::new();
        w.b.append(&b.0);
        let g = if signed {
            atom(AbiValue::Int(n as u16, BigInt::from_signed_bytes_be(&raw)), AbiType::Int(n as u16), format!("int{n}"), w, (n, 0))
        } else {
            atom(AbiValue::Uint(n as u16, BigUint::from_bytes_be(&raw)), AbiType::Uint(n as u16), format!("uint{n}"), w, (n, 0))
        };
        single(&g, v);
        // One bit more than the type has.
        if signed {
            let x = BigInt::from_signed_bytes_be(&raw);
            let over = if first == 1 { x - (BigInt::from(1) << n) } else { x + (BigInt::from(1) << (n - 1)) };
            check(AbiValue::Int(n as u16, over).make_cell(v).is_err(), "a number that does not fit is encoded");
            reach("signed");
        } else {
            let over = BigUint::from_bytes_be(&raw) + (BigUint::from(1u8) << n);
            check(AbiValue::Uint(n as u16, over).make_cell(v).is_err(), "a number that does not fit is encoded");
            reach("unsigned");
        }
    }
    // Numbers of variable width.
    fn ab_var() {
        let size = [16u8, 32, 3, 2, 5, 255, 128][pick(6, "size") as usize];
        let signed = pick(1, "signed") == 1;
        let max = size as usize - 1;
        let n = match pick(4, "bytes") { 0 => 0, 1 => 1, 2 => 2.min(max), 3 => max.min(9), _ => if max < 120 { max } else { 31 } };
        let neg = signed && n > 0 && pick(1, "negative") == 1;
        let v = ver(true);
        let g = g_var(size, n, signed, neg, "number");
        single(&g, v);
        reach("number");
        // One byte more than the type has.
        let z = NonZeroU8::new(size).unwrap();
        let big = BigUint::from(1u8) << (8 * max);
        check(AbiValue::VarUint(z, big.clone()).make_cell(v).is_err(), "a long number is encoded");
        check(AbiValue::VarInt(z, BigInt::from(big.clone()) >> 1).make_cell(v).is_err(), "a long number is encoded");
        check(AbiValue::VarInt(z, -(BigInt::from(big) >> 1u8) - BigInt::from(1u8)).make_cell(v).is_err(), "a long number is encoded");
    }
    // The other plain values.
    fn ab_plain() {
        let v = ver(true);
        let g = match pick(9, "kind") {
            0 => g_bool("bool"),
            1 => g_cell(0x77),
            k @ 2..=5 => g_addr(k - 2),
            k => g_token([0usize, 1, 8, 15][k as usize - 6], "token"),
        };
        single(&g, v);
        reach("plain");
    }
    // Bytes and strings.
    fn ab_bytes() {
        const N: [usize; 9] = [0, 1, 2, 126, 127, 128, 253, 254, 255];
        let v = ver(true);
        let n = N[pick(8, "length") as usize];
        let kind = [BK::Bytes, BK::Fixed, BK::Str][pick(2, "kind") as usize];
        let g = g_bytes(kind, n, v, "byte");
        single(&g, v);
        let mut x = lay(&g.items, v);
        if kind == BK::Fixed {
            let c = x.build();
            check(AbiValue::load(&AbiType::FixedBytes(n + 1), v, &mut must(c.as_slice(), "slice")).is_err(), "length of fixed bytes");
            if n > 0 {
                check(AbiValue::load(&AbiType::FixedBytes(n - 1), v, &mut must(c.as_slice(), "slice")).is_err(), "length of fixed bytes");
            }
            reach("fixed");
        }
        // A cell with a part of a byte.
        if let R::S(s) = &mut x.r[0] {
            if n < 127 {
                s.u(1, 1 + pick(6, "part") as usize);
            }
        }
        if n < 127 {
            let c = x.build();
            check(AbiValue::load(&g.t, v, &mut must(c.as_slice(), "slice")).is_err(), "a part of a byte is accepted");
            reach("part");
        }
    }
    // Strings are UTF-8.
    fn ab_utf8() {
        let v = AbiVersion::V2_1;
        let n = 1 + pick(2, "bytes") as usize;
        let mut d = [0u8; 3];
        any_into(&mut d[..n], "byte");
        let mut s = W::new();
        s.by(&d, n * 8);
        let mut w = W::new();
        w.sub(s);
        let c = w.build();
        let got = AbiValue::load(&AbiType::String, v, &mut must(c.as_slice(), "slice"));
        // one, two or three byte sequences only
        let cont = |b: u8| b >> 6 == 2;
        let one = |d: &[u8]| d[0] < 0x80;
        let two = |d: &[u8]| (d[0] >= 0xc2) & (d[0] < 0xe0) & cont(d[1]);
        let three = |d: &[u8]| (d[0] >> 4 == 0xe) & cont(d[1]) & cont(d[2]) & !((d[0] == 0xe0) & (d[1] < 0xa0)) & !((d[0] == 0xed) & (d[1] >= 0xa0));
        let ok = match n {
            1 => one(&d),
            2 => (one(&d) & one(&d[1..])) | two(&d),
            _ => (one(&d) & ((one(&d[1..]) & one(&d[2..])) | two(&d[1..]))) | (two(&d) & one(&d[2..])) | three(&d),
        };
        check(got.is_ok() == ok, "UTF-8");
        if let Ok(AbiValue::String(x)) = got {
            check(x.as_bytes() == &d[..n], "text");
            reach("text");
        } else { reach("no text"); }
    }
    // Sequences: some cells, some bits, then any items.
    fn ab_seq() {
        let v = ver(false);
        let mut gs = Vec::new();
        for i in 0..pick(4, "cells") { gs.push(g_cell(0xa0 + i as u8)); }
        match pick(3, "bits") {
            0 => {}
            1 => gs.push(g_uint(900, "u900")),
            2 => gs.push(g_uint(1022, "u1022")),
            _ => gs.push(g_uint(773, "u773")),
        }
        let n = if thorough() { 14 } else { 12 };
        for _ in 0..2 { gs.push(any_item(pick(n, "item"), v)); }
        if thorough() { if let k @ 1.. = pick(7, "third") { gs.push(any_item(k - 1, v)); } }
        round(&gs, v);
        reach("sequence");
    }
    // Values that fill a cell to its last bit, and those that miss by one bit.
    fn ab_edge() {
        let v = ver(true);
        let g = any_item(pick(15, "item"), v);
        // what the first of its items needs, all of them, or all that is left
        let after = pick(1, "after") as usize;
        let bits: usize = match pick(2, "of") {
            0 => need(&g.items[0], v).0,
            k => g.items.iter().map(|i| need(i, v).0).sum::<usize>() + after * (k as usize - 1),
        };
        let over = pick(2, "over") as usize;
        let fill = 1022 + over - bits.min(1000);
        let mut gs = Vec::new();
        let cells = pick(4, "cells");
        for i in 0..cells.min(3) { gs.push(g_cell(0xb0 + i as u8)); }
        if fill > 1023 { gs.push(g_uint(1, "first")); gs.push(g_uint(1022, "filler")); }
        else { gs.push(g_uint(fill, "filler")); }
        if cells == 4 { gs.push(g_cell(0xb8)); }
        gs.push(g);
        if after == 1 { gs.push(g_bool("after")); }
        round(&gs, v);
        reach("edge");
    }
    // Nested values.
    fn ab_nest() {
        let v = ver(true);
        let inner = match pick(6, "inner") {
            0 => g_tuple(vec![g_uint(8, "x"), g_cell(1), g_tuple(vec![g_bool("y"), g_token(1, "z")])]),
            1 => g_tuple(vec![g_cell(1), g_cell(2), g_cell(3), g_cell(4), g_cell(5), g_uint(16, "x")]),
            2 => g_tuple(vec![g_uint(1000, "x"), g_uint(22, "y"), g_cell(1)]),
            3 => g_tuple(vec![g_uint(1000, "x"), g_uint(23, "y"), g_cell(1)]),
            4 => g_tuple(vec![g_cell(1), g_cell(2), g_cell(3), g_addr(0), g_addr(2)]),
            5 => g_bytes(BK::Bytes, 130, v, "bytes"),
            _ => g_tuple(vec![g_cell(1), g_opt(g_var(16, 1, true, false, "x"), true, v), g_cell(3), g_array(BOOL, &[], true, v)]),
        };
        let g = match pick(5, "outer") {
            0 => g_opt(inner, true, v),
            1 => g_opt(inner, false, v),
            2 => g_ref(inner, v),
            3 => g_opt(g_opt(inner, true, v), true, v),
            4 => g_ref(g_opt(inner, true, v), v),
            _ => g_tuple(vec![g_ref(inner, v), g_bool("flag")]),
        };
        if pick(1, "alone") == 1 {
            single(&g, v);
            reach("alone");
        } else {
            let before = [0usize, 500, 1023][pick(2, "before") as usize];
            let mut gs = vec![];
            if before > 0 { gs.push(g_uint(before, "before")); }
            gs.push(g);
            match pick(2, "after") { 0 => gs.push(g_cell(9)), 1 => gs.push(g_uint(8, "after")), _ => {} }
            round(&gs, v);
            reach("among others");
        }
    }
    // Arrays.
    fn ab_array() {
        let v = ver(true);
        let n = [0usize, 1, 2, 3, 5][pick(4, "length") as usize];
        let kind = pick(6, "items");
        let make = |i: usize| match kind {
            0 => g_bool("item"),
            1 => g_uint(8, "item"),
            2 => g_cell(i as u8),
            3 => g_tuple(vec![g_uint(979, "item"), g_cell(i as u8)]),
            4 => g_tuple(vec![g_uint(980, "item"), g_cell(i as u8)]),
            5 => g_tuple(vec![g_cell(1), g_cell(2), g_uint(900, "item"), g_cell(3), g_uint(300, "item"), g_cell(i as u8)]),
            _ => g_bytes(BK::Bytes, i, v, "item"),
        };
        let t = make(0);
        let gs: Vec<G> = (0..n).map(make).collect();
        let g = g_array((&t.t, &t.s), &gs, pick(1, "fixed") == 1, v);
        single(&g, v);
        reach("array");
    }
    // Arrays that are not what they say.
    fn ab_array_bad() {
        let v = ver(true);
        let fixed = pick(1, "fixed") == 1;
        let n = pick(3, "items") as usize;
        let first = pick(2, "first") as usize;
        let skip = pick(2, "skip") as usize;
        let len = match pick(5, "length") { 4 => 0x1_0000_0000u64 - 1, 5 => 0x7fff_ffff, k => k };
        assume(!fixed || len < 10);
        let e: Vec<_> = (0..n).map(|i| {
            let mut w = W::new();
            w.u(0x41 + i as u128, 8);
            (key_w((first + i + (i > 1) as usize * skip) as u128, 32), w)
        }).collect();
        let mut w = W::new();
        if !fixed { w.u(len as u128, 32); }
        dict_e(&mut w, &e);
        let t = Arc::new(AbiType::Uint(8));
        let t = if fixed { AbiType::FixedArray(t, len as usize) } else { AbiType::Array(t) };
        let c = w.build();
        let got = AbiValue::load(&t, v, &mut must(c.as_slice(), "slice"));
        let good = len <= n as u64 && (len == 0 || first == 0) && (len < 3 || skip == 0);
        check(got.is_ok() == good, "array length");
        if let Ok(AbiValue::Array(_, x) | AbiValue::FixedArray(_, x)) = got {
            check(x.len() as u64 == len, "number of items");
            for (i, x) in x.iter().enumerate() { check(*x == AbiValue::uint(8, 0x41u8 + i as u8), "item"); }
            reach("good");
        } else { reach("bad"); }
    }
    // Array items must be complete and nothing else.
    fn ab_item_bad() {
        let v = ver(false);
        let extra = pick(2, "extra");
        let mut i = W::new();
        i.u(0x41, if extra == 1 { 9 } else if extra == 2 { 7 } else { 8 });
        let mut w = W::new();
        match pick(3, "kind") {
            0 => { w.u(1, 32); dict_e(&mut w, &[(key_w(0, 32), i)]); let c = w.build();
                check(AbiValue::load(&AbiType::Array(Arc::new(AbiType::Uint(8))), v, &mut must(c.as_slice(), "slice")).is_ok() == (extra == 0), "array item"); reach("array"); }
            1 => { dict_e(&mut w, &[(key_w(0, 32), i)]); let c = w.build();
                check(AbiValue::load(&AbiType::FixedArray(Arc::new(AbiType::Uint(8)), 1), v, &mut must(c.as_slice(), "slice")).is_ok() == (extra == 0), "array item"); }
            2 => { w.sub(i); let c = w.build();
                check(AbiValue::load(&AbiType::Ref(Arc::new(AbiType::Uint(8))), v, &mut must(c.as_slice(), "slice")).is_ok() == (extra == 0), "referenced value"); reach("ref"); }
            _ => { w.bit(true).join(&i); let c = w.build();
                check(AbiValue::load(&AbiType::Optional(Arc::new(AbiType::Uint(8))), v, &mut must(c.as_slice(), "slice")).is_ok() == (extra == 0), "optional value"); }
        }
    }
    // Maps.
    fn ab_map() {
        let v = ver(true);
        let n = pick(3, "length") as usize;
        let kind = pick(4, "values");
        let make = |i: usize| match kind {
            0 => g_bool("item"),
            1 => g_cell(i as u8),
            2 => g_tuple(vec![g_uint(700, "item"), g_cell(i as u8)]),
            3 => g_tuple(vec![g_uint(1000, "item"), g_cell(i as u8)]),
            _ => g_tuple(vec![g_cell(1), g_addr(0), g_addr(1), g_cell(i as u8)]),
        };
        let t = make(0);
        let (k, keys): (PlainAbiType, Vec<(PlainAbiValue, Vec<u8>)>) = match pick(4, "keys") {
            0 => (PlainAbiType::Uint(8), [0u8, 5, 200].iter().map(|x| (PlainAbiValue::Uint(8, BigUint::from(*x)), key_w(*x as u128, 8))).collect()),
            1 => (PlainAbiType::Int(16), [3i16, -300, -1].iter().map(|x| (PlainAbiValue::Int(16, BigInt::from(*x)), key_w(*x as u16 as u128, 16))).collect()),
            2 => (PlainAbiType::Bool, [false, true].iter().map(|x| (PlainAbiValue::Bool(*x), vec![*x as u8])).collect()),
            3 => (PlainAbiType::Uint(256), [1u8, 2, 3].iter().map(|x| (PlainAbiValue::Uint(256, BigUint::from(*x) << 128), { let mut b = vec![0; 120]; b.extend(key_w(*x as u128, 8)); b.resize(256, 0); b })).collect()),
            _ => (PlainAbiType::Address, [0i8, 7, -1].iter().map(|x| {
                let a = StdAddr::new(*x, HashBytes([*x as u8; 32]));
                let mut b = vec![1, 0, 0];
                b.extend(key_w(*x as u8 as u128, 8));
                for _ in 0..32 { b.extend(key_w(*x as u8 as u128, 8)); }
                (PlainAbiValue::Address(Box::new(IntAddr::Std(a))), b)
            }).collect()),
        };
        let gs: Vec<_> = keys.into_iter().take(n).enumerate().map(|(i, (p, b))| (p, b, make(i))).collect();
        let g = g_map(k, (&t.t, &t.s), &gs, v);
        single(&g, v);
        reach("map");
    }
    // Nothing short of the whole encoding loads.
    fn ab_cut() {
        let v = ver(false);
        let k = pick(13, "item");
        let g = any_item(k, v);
        let w = lay(&g.items, v);
        let n = w.b.len();
        let mut x = w.clone();
        if pick(1, "refs") == 1 {
            if w.r.is_empty() { return; }
            x.r.truncate(pick(w.r.len() as u64 - 1, "at") as usize);
        } else {
            if n == 0 { return; }
            let step = n.div_ceil(12);
            x.b.0.truncate(n - 1 - pick(((n - 1) / step) as u64, "at") as usize * step);
        }
        // a missing end is looked for in the next cell: leave none
        if x.b.len() == 0 && !x.r.is_empty() { return; }
        let c = x.build();
        check(AbiValue::load(&g.t, v, &mut must(c.as_slice(), "slice")).is_err(), "a part of a value is accepted");
        reach("cut");
    }
}
