// Config parameters: encodings, limits, fees, validator sets and subsets, the parameter dictionary.
use crate::vp::*;
use std::num::{NonZeroU16, NonZeroU32};
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::models::*;
use tycho_types::num::*;
const TOP: bool = true;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/wire.rs"));
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/msg_gen.rs"));
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/dict_w.rs"));

fn f8(w: &mut W, n: &'static str) -> u8 {
    let v = any_u8(n);
    w.u(v as u128, 8);
    v
}
fn f16(w: &mut W, n: &'static str) -> u16 {
    let v = any_u16(n);
    w.u(v as u128, 16);
    v
}
fn f32(w: &mut W, n: &'static str) -> u32 {
    let v = any_u32(n);
    w.u(v as u128, 32);
    v
}
fn f64(w: &mut W, n: &'static str) -> u64 {
    let v = any_u64(n);
    w.u(v as u128, 64);
    v
}
fn fhash(w: &mut W, n: &'static str) -> HashBytes {
    let v: [u8; 32] = any_bytes(n);
    w.by(&v, 256);
    HashBytes(v)
}
fn tagged(tag: u8) -> W {
    let mut w = W::new();
    w.u(tag as u128, 8);
    w
}
/// Exact encoding; or cut; or any other tag in the first byte.
fn full<T: Store + for<'a> Load<'a> + PartialEq>(v: &T, w: &W, tags: &[u8]) {
    match pick(2, "mode") {
        0 => {
            wire(v, w);
            reach("exact");
        }
        1 => wire_cut::<T>(w),
        _ => {
            if tags.is_empty() {
                return;
            }
            let t = any_u8("tag");
            for k in tags {
                assume(t != *k);
            }
            let mut x = w.clone();
            for i in 0..8 {
                x.b.0[i] = t >> (7 - i) & 1;
            }
            wire_bad::<T>(&x, "a wrong tag is accepted");
            reach("tag");
        }
    }
}





fn sat_add(a: u128, b: u128) -> u128 {
    a.checked_add(b).unwrap_or(u128::MAX)
}
fn ceil16(v: u128) -> u128 {
    if v & 0xffff != 0 { (v >> 16) + 1 } else { v >> 16 }
}

fn any_validator(w: &mut W, form: u64, weight: u64) -> ValidatorDescription {
    w.u([0x53, 0x73, 0x93][form as usize], 8).u(0x8e81278a, 32);
    let public_key = fhash(w, "key");
    w.u(weight as u128, 64);
    let adnl_addr = (form > 0).then(|| fhash(w, "adnl"));
    let mc_seqno_since = if form > 1 { f32(w, "since") } else { 0 };
    ValidatorDescription { public_key, weight, adnl_addr, mc_seqno_since, prev_total_weight: 0 }
}
/// A set of `n` validators with dictionary keys `keys`.
fn set_head(v2: bool, total: u16, main: u16, weight: u64) -> (W, u32, u32) {
    let mut w = tagged(if v2 { 0x12 } else { 0x11 });
    let (since, until) = (f32(&mut w, "since"), f32(&mut w, "until"));
    w.u(total as u128, 16).u(main as u128, 16);
    if v2 {
        w.u(weight as u128, 64);
    }
    (w, since, until)
}

/// Random numbers for the first draws: SHA-512 of 32 zero bytes, shard prefix, workchain, seqno.
const BAG: &[(ShardIdent, u32, [u64; 4])] = &[
    (ShardIdent::BASECHAIN, 10, [0xd1ce458fcdac2856, 0xacc2942255a03e73, 0x62281bd88de1081e, 0x3b0dfd8b946f46a9]),
    (ShardIdent::BASECHAIN, 11, [0x8e2319060abb53b8, 0x8fbabd9cb9e133f0, 0xef99cdee05c84132, 0x41ca8dd364270166]),
    (ShardIdent::BASECHAIN, 4294967294, [0x21bbb73984ec0827, 0x7d17655ee1a284b3, 0x5d6afaf910397232, 0xace1137b484c871a]),
    (ShardIdent::MASTERCHAIN, 10, [0x5b40c04ba3f53b2a, 0xd5d580c5b6542e2f, 0x2b0de82a541b4336, 0xf5e10c05f391e9db]),
    (ShardIdent::MASTERCHAIN, 7, [0x6b6a395439c70edc, 0x7c0e13dce3619e52, 0x73c21ff47f014dc2, 0x285359eef7fa1051]),
    (ShardIdent::MASTERCHAIN, 16909060, [0xacc08624f6178b62, 0x3d675d241510d472, 0x7c970639a73862cd, 0xdebe304a20047946]),
];
fn a_set(n: usize, main: u16, arbitrary: bool) -> ValidatorSet {
    let mut total_weight = 0u64;
    let mut list = Vec::new();
    for i in 0..n {
        let weight = if arbitrary {
            let w = any_u8("weight");
            assume(w != 0);
            (w as u64) << if thorough() { 53 } else { 0 }
        } else {
            [1, 3, 1000, 1 << 60][pick(3, "weight") as usize]
        };
        list.push(ValidatorDescription {
            public_key: HashBytes([i as u8 + 1; 32]),
            weight,
            adnl_addr: if i == 1 { None } else { Some(HashBytes([i as u8 + 0x81; 32])) },
            mc_seqno_since: i as u32,
            prev_total_weight: total_weight,
        });
        total_weight += weight;
    }
    ValidatorSet { utime_since: 1, utime_until: 2, main: NonZeroU16::new(main).unwrap(), total_weight, list }
}
fn crc(mut c: u32, data: &[u8]) -> u32 {
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = c >> 1 ^ 0x82f63b78 & (c & 1).wrapping_neg();
        }
    }
    c
}
fn short_hash(list: &[ValidatorDescription], seqno: u32) -> u32 {
    let mut c = crc(!0, &0x901660edu32.to_le_bytes());
    c = crc(c, &seqno.to_le_bytes());
    c = crc(c, &(list.len() as u32).to_le_bytes());
    for v in list {
        c = crc(c, &v.public_key.0);
        c = crc(c, &v.weight.to_le_bytes());
        c = crc(c, &v.adnl_addr.unwrap_or_default().0);
    }
    !c
}

/// A config with its address and some unrelated parameters next to `id`, but without `id`.
fn start(id: u32) -> BlockchainConfigParams {
    let mut c = BlockchainConfig::new_empty(HashBytes([0xc0; 32])).params;
    for i in near(id) {
        must(c.set_raw(i, tiny(i as u8)), "a raw parameter is not set");
    }
    if id != 0 {
        check(c.contains_raw(id) == Ok(false), "an absent parameter is found");
        check(c.get_raw_cell(id) == Ok(None) && c.get_raw_cell_ref(id).is_ok_and(|x| x.is_none()) && c.get_raw(id).is_ok_and(|x| x.is_none()), "an absent parameter is found");
        check(c.remove(id) == Ok(None), "an absent parameter is removed");
    }
    c
}
fn near(id: u32) -> Vec<u32> {
    // the neighbours that share the accessors are left out
    vec![6, 13, if id == 30 { 26 } else { 30 }, id ^ 64]
}
/// `id` holds exactly `w`, everything else is untouched; removing works for all but 0.
fn after<'a, P: KnownConfigParam<'a>>(mut c: BlockchainConfigParams, id: u32, w: &W) {
    check(P::ID == id, "wrong parameter id");
    check(c.contains_raw(id) == Ok(true), "a parameter is missing");
    let cell = must(must(c.get_raw_cell(id), "raw").ok_or(()), "a parameter is missing");
    w.check(cell.as_ref(), "a parameter is stored differently");
    w.check(must(must(c.get_raw_cell_ref(id), "raw").ok_or(()), "a parameter is missing"), "a parameter is stored differently");
    let mut want = near(id);
    want.push(0);
    if id != 0 {
        want.push(id);
    }
    want.sort();
    let mut got = Vec::new();
    for e in c.as_dict().iter() {
        let (k, v) = must(e, "entry");
        if k != id && k != 0 {
            check(v == tiny(k as u8), "another parameter is changed");
        }
        got.push(k);
    }
    check(got == want, "wrong parameters in the config");
    let removed = must(c.remove(id), "removed");
    check(removed.is_some() == (id != 0), "wrong result of a removal");
    check(c.contains_raw(id) == Ok(id == 0), "a parameter is still there");
    reach("after");
}
fn typed<P: for<'a> KnownConfigParam<'a, Value = V>, V: PartialEq>(id: u32, v: V, w: &W) {
    let mut c = start(id);
    must(c.set::<P>(&v), "a parameter is not set");
    check(c.get::<P>().is_ok_and(|x| x.is_some_and(|x| x == v)), "a parameter reads back differently");
    check(c.contains::<P>() == Ok(true), "a parameter is missing");
    after::<P>(c, id, w);
}

harnesses! {
    fn cf_small() {
        match pick(9, "kind") {
            0 => {
                let mut w = tagged(1);
                let mint_at = f32(&mut w, "at");
                let delta = any_cc(&mut w);
                full(&MintOnceConfig { mint_at, delta }, &w, &[1]);
            }
            1 => {
                let mut w = tagged(0x36);
                let v = ConfigProposalSetup {
                    min_total_rounds: f8(&mut w, "a"),
                    max_total_rounds: f8(&mut w, "b"),
                    min_wins: f8(&mut w, "c"),
                    max_losses: f8(&mut w, "d"),
                    min_store_sec: f32(&mut w, "e"),
                    max_store_sec: f32(&mut w, "f"),
                    bit_price: f32(&mut w, "g"),
                    cell_price: f32(&mut w, "h"),
                };
                if any_bool("voting") {
                    let mut o = tagged(0x91);
                    o.sub(w.clone());
                    let mut z = tagged(0x36);
                    z.u(0x01020304, 32).u(5, 32).u(6, 32).u(7, 32).u(8, 32);
                    o.sub(z);
                    let other = ConfigProposalSetup { min_total_rounds: 1, max_total_rounds: 2, min_wins: 3, max_losses: 4, min_store_sec: 5, max_store_sec: 6, bit_price: 7, cell_price: 8 };
                    let s = ConfigVotingSetup { normal_params: must(Lazy::new(&v), "lazy"), critical_params: must(Lazy::new(&other), "lazy") };
                    wire_store(&s, &o);
                    let got: ConfigVotingSetup = wire_load(&o);
                    check(got.normal_params.load() == Ok(v), "wrong normal params");
                    check(got.critical_params.load() == Ok(other), "wrong critical params");
                    wire_cut::<ConfigVotingSetup>(&o);
                    reach("voting");
                } else {
                    full(&v, &w, &[0x36]);
                }
            }
            2 => {
                let mut w = tagged(0x6b);
                let v = BlockCreationRewards { masterchain_block_fee: any_tokens(&mut w, "mc"), basechain_block_fee: any_tokens(&mut w, "base") };
                full(&v, &w, &[0x6b]);
            }
            3 => {
                let mut w = W::new();
                let v = ElectionTimings {
                    validators_elected_for: f32(&mut w, "a"),
                    elections_start_before: f32(&mut w, "b"),
                    elections_end_before: f32(&mut w, "c"),
                    stake_held_for: f32(&mut w, "d"),
                };
                full(&v, &w, &[]);
            }
            4 => {
                let mut w = W::new();
                let v = ValidatorCountParams { max_validators: f16(&mut w, "a"), max_main_validators: f16(&mut w, "b"), min_validators: f16(&mut w, "c") };
                full(&v, &w, &[]);
            }
            5 => {
                let mut w = W::new();
                let v = ValidatorStakeParams {
                    min_stake: any_tokens(&mut w, "min"),
                    max_stake: any_tokens(&mut w, "max"),
                    min_total_stake: any_tokens(&mut w, "total"),
                    max_stake_factor: f32(&mut w, "factor"),
                };
                full(&v, &w, &[]);
            }
            6 => {
                let mut w = tagged(0xcc);
                let v = StoragePrices {
                    utime_since: f32(&mut w, "since"),
                    bit_price_ps: f64(&mut w, "bit"),
                    cell_price_ps: f64(&mut w, "cell"),
                    mc_bit_price_ps: f64(&mut w, "mbit"),
                    mc_cell_price_ps: f64(&mut w, "mcell"),
                };
                full(&v, &w, &[0xcc]);
            }
            7 => {
                let mut w = tagged(0xea);
                let v = MsgForwardPrices {
                    lump_price: f64(&mut w, "lump"),
                    bit_price: f64(&mut w, "bit"),
                    cell_price: f64(&mut w, "cell"),
                    ihr_price_factor: f32(&mut w, "ihr"),
                    first_frac: f16(&mut w, "first"),
                    next_frac: f16(&mut w, "next"),
                };
                full(&v, &w, &[0xea]);
            }
            8 => {
                let mut w = tagged(2);
                let v = SizeLimitsConfig {
                    max_msg_bits: f32(&mut w, "a"),
                    max_msg_cells: f32(&mut w, "b"),
                    max_library_cells: f32(&mut w, "c"),
                    max_vm_data_depth: f16(&mut w, "d"),
                    max_ext_msg_size: f32(&mut w, "e"),
                    max_ext_msg_depth: f16(&mut w, "f"),
                    max_acc_state_cells: f32(&mut w, "g"),
                    max_acc_state_bits: f32(&mut w, "h"),
                    max_acc_public_libraries: f32(&mut w, "i"),
                    defer_out_queue_size_limit: f32(&mut w, "j"),
                };
                full(&v, &w, &[2]);
            }
            _ => {
                let mut w = tagged(0xc4);
                let v = GlobalVersion { version: f32(&mut w, "version"), capabilities: GlobalCapabilities::from(f64(&mut w, "caps")) };
                full(&v, &w, &[0xc4]);
            }
        }
    }
    /// Values that have to be well-formed to be stored or loaded.
    fn cf_valid() {
        match pick(3, "kind") {
            0 => {
                let mut w = tagged(1);
                let some = any_bool("some");
                w.bit(some);
                let blackhole_addr = some.then(|| fhash(&mut w, "addr"));
                let (num, den) = (any_u32("num"), any_u32("den"));
                w.u(num as u128, 32).u(den as u128, 32);
                if den == 0 {
                    wire_bad::<BurningConfig>(&w, "a zero denominator is accepted");
                    reach("zero");
                    return;
                }
                let v = BurningConfig { blackhole_addr, fee_burn_num: num, fee_burn_denom: NonZeroU32::new(den).unwrap() };
                check(v.is_valid() == (num <= den), "wrong validity");
                if num <= den {
                    full(&v, &w, &[1]);
                } else {
                    check(CellBuilder::build_from(&v).is_err(), "an invalid config is stored");
                    wire_bad::<BurningConfig>(&w, "an invalid config is accepted");
                    reach("more");
                }
            }
            1 => {
                let mut w = tagged(0x5d);
                let mut part = |name: &'static str| {
                    w.u(0xc3, 8);
                    let v = BlockParamLimits { underload: f32(&mut w, name), soft_limit: f32(&mut w, name), hard_limit: f32(&mut w, name) };
                    (v, v.underload <= v.soft_limit && v.soft_limit <= v.hard_limit)
                };
                let (bytes, a) = part("bytes");
                let (gas, b) = part("gas");
                let (lt_delta, c) = part("lt");
                check(bytes.is_valid() == a, "wrong validity");
                let v = BlockLimits { bytes, gas, lt_delta };
                if a && b && c {
                    full(&v, &w, &[0x5d]);
                } else {
                    check(CellBuilder::build_from(&v).is_err(), "invalid limits are stored");
                    wire_bad::<BlockLimits>(&w, "invalid limits are accepted");
                    reach("limits");
                }
            }
            2 => {
                let mut w = tagged(0xc3);
                let v = BlockParamLimits { underload: f32(&mut w, "u"), soft_limit: f32(&mut w, "s"), hard_limit: f32(&mut w, "h") };
                assume(v.underload <= v.soft_limit && v.soft_limit <= v.hard_limit);
                full(&v, &w, &[0xc3]);
            }
            _ => {
                let mut w = W::new();
                let (a, b, c) = (any_u16("min") & 0xfff, any_u16("max") & 0xfff, any_u16("step") & 0xfff);
                let id = any_u32("id");
                w.u(0, 4).u(a as u128, 12).u(b as u128, 12).u(c as u128, 12).u(id as u128, 32);
                let good = a >= 64 && a <= b && b <= 1023 && c <= 1023;
                if !good || id == 0 {
                    wire_bad::<WorkchainFormat>(&w, "an invalid format is accepted");
                    reach("bad format");
                    if id == 0 {
                        return;
                    }
                }
                let e = WorkchainFormatExtended { min_addr_len: Uint12::new(a), max_addr_len: Uint12::new(b), addr_len_step: Uint12::new(c), workchain_type_id: NonZeroU32::new(id).unwrap() };
                let v = WorkchainFormat::Extended(e);
                check(e.is_valid() == good && v.is_valid() == good && !v.is_basic(), "wrong validity");
                if good {
                    wire(&v, &w);
                    let n = any_u16("n");
                    let want = n >= a && n <= b && (n == a || n == b || c != 0 && (n - a) % c == 0);
                    check(e.check_addr_len(n) == want, "wrong address length check");
                    reach("format");
                } else {
                    check(CellBuilder::build_from(&v).is_err(), "an invalid format is stored");
                }
            }
        }
    }
    fn cf_workchain() {
        let basic = any_bool("basic");
        let mut w = tagged(0xa6);
        let enabled_since = f32(&mut w, "since");
        let (actual_min_split, min_split, max_split) = (f8(&mut w, "actual"), f8(&mut w, "min"), f8(&mut w, "max"));
        let flags = any_u16("flags");
        w.u(flags as u128, 16);
        let zerostate_root_hash = fhash(&mut w, "root");
        let zerostate_file_hash = fhash(&mut w, "file");
        let version = f32(&mut w, "version");
        let format = if basic {
            w.u(1, 4);
            WorkchainFormat::Basic(WorkchainFormatBasic { vm_version: f32(&mut w, "vm") as i32, vm_mode: f64(&mut w, "mode") })
        } else {
            w.u(0, 4).u(64, 12).u(512, 12).u(7, 12).u(9, 32);
            WorkchainFormat::Extended(WorkchainFormatExtended { min_addr_len: Uint12::new(64), max_addr_len: Uint12::new(512), addr_len_step: Uint12::new(7), workchain_type_id: NonZeroU32::new(9).unwrap() })
        };
        let v = WorkchainDescription {
            enabled_since,
            actual_min_split,
            min_split,
            max_split,
            active: flags & 0x4000 != 0,
            accept_msgs: flags & 0x2000 != 0,
            zerostate_root_hash,
            zerostate_file_hash,
            version,
            format,
        };
        let good = min_split <= max_split && max_split <= 60;
        check(v.is_valid() == good, "wrong validity");
        if !good {
            check(CellBuilder::build_from(&v).is_err(), "an invalid description is stored");
            wire_bad::<WorkchainDescription>(&w, "invalid split depths are accepted");
            reach("split");
        } else if flags & 0x1fff != 0 || (flags & 0x8000 != 0) != basic {
            wire_bad::<WorkchainDescription>(&w, "wrong flags are accepted");
            reach("flags");
        } else {
            full(&v, &w, &[0xa6]);
        }
    }
    /// Records with several forms.
    fn cf_forms() {
        match pick(2, "kind") {
            0 => {
                let old = any_bool("old");
                let mut w = tagged(if old { 0xc1 } else { 0xc2 });
                let f = if old { 0 } else { f8(&mut w, "flags") };
                let v = CatchainConfig {
                    isolate_mc_validators: f & 2 != 0,
                    shuffle_mc_validators: f & 1 != 0,
                    mc_catchain_lifetime: f32(&mut w, "a"),
                    shard_catchain_lifetime: f32(&mut w, "b"),
                    shard_validators_lifetime: f32(&mut w, "c"),
                    shard_validators_num: f32(&mut w, "d"),
                };
                if f > 3 {
                    wire_bad::<CatchainConfig>(&w, "reserved flags are accepted");
                    reach("catchain flags");
                } else if old {
                    let got: CatchainConfig = wire_load(&w);
                    check(got == v, "an old config loads as a different one");
                    wire_cut::<CatchainConfig>(&w);
                } else {
                    full(&v, &w, &[0xc1, 0xc2]);
                }
            }
            1 => {
                let old = any_bool("old");
                let mut w = tagged(if old { 0xd6 } else { 0xd7 });
                let f = if old { 0 } else { f8(&mut w, "flags") };
                let rc = any_u32("candidates");
                if old {
                    w.u(rc as u128, 32);
                } else {
                    w.u(rc as u8 as u128, 8);
                }
                let mut rest = W::new();
                let mut g = |n| f32(&mut rest, n);
                let v = ConsensusConfig {
                    new_catchain_ids: f & 1 != 0,
                    round_candidates: NonZeroU32::new(rc.max(1)).unwrap(),
                    next_candidate_delay_ms: g("a"),
                    consensus_timeout_ms: g("b"),
                    fast_attempts: g("c"),
                    attempt_duration: g("d"),
                    catchain_max_deps: g("e"),
                    max_block_bytes: g("f"),
                    max_collated_bytes: g("g"),
                };
                w.join(&rest);
                if f > 1 || if old { rc == 0 } else { rc as u8 == 0 } {
                    wire_bad::<ConsensusConfig>(&w, "a wrong config is accepted");
                    reach("consensus bad");
                } else if old {
                    let got: ConsensusConfig = wire_load(&w);
                    check(got == v, "an old config loads as a different one");
                    wire_cut::<ConsensusConfig>(&w);
                } else if rc > 255 {
                    check(CellBuilder::build_from(&v).is_err(), "too many candidates are stored");
                    reach("candidates");
                } else {
                    full(&v, &w, &[0xd6, 0xd7]);
                }
            }
            _ => {
                let form = pick(3, "form");
                let mut v = GasLimitsPrices::default();
                let mut w = W::new();
                if form & 1 == 0 {
                    w.u(0xd1, 8);
                    v.flat_gas_limit = f64(&mut w, "flat");
                    v.flat_gas_price = f64(&mut w, "flat");
                }
                w.u(if form & 2 == 0 { 0xde } else { 0xdd }, 8);
                v.gas_price = f64(&mut w, "price");
                v.gas_limit = f64(&mut w, "limit");
                if form & 2 == 0 {
                    v.special_gas_limit = f64(&mut w, "special");
                }
                v.gas_credit = f64(&mut w, "credit");
                v.block_gas_limit = f64(&mut w, "block");
                v.freeze_due_limit = f64(&mut w, "freeze");
                v.delete_due_limit = f64(&mut w, "delete");
                if form == 0 {
                    full(&v, &w, &[0xd1, 0xdd, 0xde]);
                } else {
                    let mut got: GasLimitsPrices = wire_load(&w);
                    if form & 2 != 0 {
                        got.special_gas_limit = 0;
                    }
                    check(got == v, "other gas prices are loaded");
                    wire_cut::<GasLimitsPrices>(&w);
                }
                reach("gas");
            }
        }
    }
    fn cf_fees() {
        // one factor is arbitrary, the others are a few
        const C: [u64; 5] = [0, 1, 1 << 63, u64::MAX, 0x1_0003];
        let few = |n| C[pick(if thorough() { 4 } else { 3 }, n) as usize];
        let side = any_bool("side");
        let second = pick(1, "second") == 1;
        let at = |sym: bool| if !sym {
            [(0, 7), (3, 5), (u64::MAX, u64::MAX)][pick(2, "fixed") as usize]
        } else if side {
            (any_u64("n"), few("price"))
        } else {
            let f = few("n");
            (f, any_u64("price"))
        };
        match pick(3, "kind") {
            0 => {
                let mc = any_bool("mc");
                let (bit_count, bp) = at(!second);
                let (cell_count, cp) = at(second);
                let (op, oq) = (any_u64("other"), any_u64("other"));
                let p = if mc {
                    StoragePrices { utime_since: 0, bit_price_ps: op, cell_price_ps: oq, mc_bit_price_ps: bp, mc_cell_price_ps: cp }
                } else {
                    StoragePrices { utime_since: 0, bit_price_ps: bp, cell_price_ps: cp, mc_bit_price_ps: op, mc_cell_price_ps: oq }
                };
                // time is zero or a power of two
                let delta = [0u64, 1, 1 << 20, 1 << 63][pick(3, "delta") as usize];
                let one = sat_add(cell_count as u128 * cp as u128, bit_count as u128 * bp as u128);
                let want = if delta == 0 {
                    0
                } else if delta > 1 && one >> (128 - delta.trailing_zeros()) != 0 {
                    u128::MAX
                } else {
                    one << delta.trailing_zeros()
                };
                check(p.compute_storage_fee(mc, delta, CellTreeStats { bit_count, cell_count }).into_inner() == ceil16(want), "wrong storage fee");
                reach("storage");
            }
            1 => {
                let (bit_count, bp) = at(!second);
                let (cell_count, cp) = at(second);
                let p = MsgForwardPrices { lump_price: any_u64("lump"), bit_price: bp, cell_price: cp, ihr_price_factor: 0, first_frac: 0, next_frac: 0 };
                let v = sat_add(cell_count as u128 * cp as u128, bit_count as u128 * bp as u128);
                check(p.compute_fwd_fee(CellTreeStats { bit_count, cell_count }).into_inner() == p.lump_price as u128 + ceil16(v), "wrong forward fee");
                reach("forward");
            }
            2 => {
                let (used, price) = at(true);
                let p = GasLimitsPrices { gas_price: price, flat_gas_limit: if side { any_u64("limit") } else { [0, 1000, u64::MAX - 1][pick(2, "limit") as usize] }, flat_gas_price: any_u64("flat"), ..Default::default() };
                let extra = if used > p.flat_gas_limit { ceil16((used - p.flat_gas_limit) as u128 * price as u128) } else { 0 };
                check(p.compute_gas_fee(used).into_inner() == p.flat_gas_price as u128 + extra, "wrong gas fee");
                reach("gas");
            }
            _ => {
                let (f, g) = ([0u16, 1, 0x5555, 0x8000, u16::MAX][pick(4, "first") as usize], [u16::MAX, 3][pick(1, "next") as usize]);
                let p = MsgForwardPrices { lump_price: 1, bit_price: 1, cell_price: 1, ihr_price_factor: 1, first_frac: f, next_frac: g };
                let t = any_u128("total") >> 16;
                check(p.get_first_part(Tokens::new(t)).into_inner() == t * f as u128 >> 16, "wrong first part");
                check(p.get_next_part(Tokens::new(t)).into_inner() == t * g as u128 >> 16, "wrong next part");
                reach("parts");
            }
        }
    }
    fn cf_burn() {
        // tokens * num / denom, with few symbolic bits in the factors
        let num = [0u32, 1, 3, 0x8000_0000, u32::MAX][pick(4, "num") as usize];
        let den = [1u32, 2, 3, 0x8000_0000, u32::MAX][pick(4, "den") as usize];
        let c = BurningConfig { blackhole_addr: None, fee_burn_num: num, fee_burn_denom: NonZeroU32::new(den).unwrap() };
        let few = if any_bool("few") { conc((any_u8("tokens") & 0x1f) as u64) << 7 | 1 } else { (any_u8("tokens") & 0x3f) as u64 };
        let t = (few as u128) << if few >> 7 != 0 { 108 } else { [0, 56][pick(1, "shift") as usize] };
        let got = c.compute_burned_fees(Tokens::new(t));
        if num > den {
            check(got.is_err(), "more than everything is burned");
            reach("more");
            return;
        }
        let got = must(got, "fees are not burned").into_inner();
        // got = floor(t * num / den): t * num < 2^152, so compare in two parts
        let (q, r) = (t / den as u128, t % den as u128);
        check(got == q * num as u128 + r * num as u128 / den as u128, "wrong burned fees");
        check(got <= t, "more than everything is burned");
        reach("burned");
    }
    fn cf_validator() {
        let form = pick(2, "form");
        let mut w = W::new();
        let v = any_validator(&mut w, form, any_u64("weight"));
        if form < 2 || v.mc_seqno_since != 0 {
            full(&v, &w, &[0x53, 0x73, 0x93]);
            reach("validator");
        } else {
            let got: ValidatorDescription = wire_load(&w);
            check(got == v, "another validator is loaded");
            reach("since 0");
        }
        let x = any_u32("pubkey tag");
        assume(x != 0x8e81278a);
        let mut bad = w.clone();
        for i in 0..32 {
            bad.b.0[8 + i] = (x >> (31 - i) & 1) as u8;
        }
        wire_bad::<ValidatorDescription>(&bad, "a wrong key tag is accepted");
    }
    fn cf_set() {
        let n = 1 + pick(if thorough() { 3 } else { 2 }, "n") as usize;
        let v2 = any_bool("v2");
        let mut list = Vec::new();
        let mut entries = Vec::new();
        let mut total_weight = Some(0u64);
        for i in 0..n {
            let mut e = W::new();
            let weight = any_u64("weight");
            let mut d = any_validator(&mut e, if i == 0 { pick(1, "form") } else { 1 }, weight);
            d.prev_total_weight = total_weight.unwrap_or(0);
            total_weight = total_weight.and_then(|t| t.checked_add(weight));
            list.push(d);
            entries.push((key_w(i as u128, 16), e));
        }
        let main = any_u16("main");
        let declared = any_u64("total weight");
        let (mut w, since, until) = set_head(v2, n as u16, main, declared);
        if v2 {
            dict_e(&mut w, &entries);
        } else {
            w.join(&dict_w(&entries, 0));
        }
        let good = main != 0 && main as usize <= n && total_weight.is_some() && (!v2 || Some(declared) == total_weight);
        if !good {
            wire_bad::<ValidatorSet>(&w, "a wrong validator set is accepted");
            reach("bad set");
            return;
        }
        let v = ValidatorSet { utime_since: since, utime_until: until, main: NonZeroU16::new(main).unwrap(), total_weight: total_weight.unwrap(), list };
        if v2 {
            wire(&v, &w);
            reach("set");
        } else {
            let c = w.build();
            check(c.parse::<ValidatorSet>() == Ok(v), "another validator set is loaded");
            reach("old set");
        }
    }
    fn cf_set_bad() {
        // keys with a gap or none at all; then the wrong tag and the cuts
        let kind = pick(3, "kind");
        let keys: &[u128] = match kind {
            0 => &[1, 2],
            1 => &[0, 2],
            2 => &[],
            _ => &[0, 1],
        };
        let mut entries = Vec::new();
        for k in keys {
            let mut e = W::new();
            any_validator(&mut e, 0, 5);
            entries.push((key_w(*k, 16), e));
        }
        let (mut w, ..) = set_head(true, 2, 1, 5 * keys.len() as u64);
        dict_e(&mut w, &entries);
        if kind == 3 {
            if any_bool("tag") {
                let t = any_u8("t");
                assume(t != 0x12 && t != 0x11);
                for i in 0..8 {
                    w.b.0[i] = t >> (7 - i) & 1;
                }
                wire_bad::<ValidatorSet>(&w, "a wrong tag is accepted");
            } else {
                wire_cut::<ValidatorSet>(&w);
            }
        } else {
            wire_bad::<ValidatorSet>(&w, "a set with wrong indices is accepted");
        }
        reach("bad");
    }
    fn cf_subset() {
        let (shard, seqno, rnd) = BAG[pick(BAG.len() as u64 - 1, "draw") as usize];
        let n = 1 + pick(if thorough() { 3 } else { 2 }, "n") as usize;
        let isolate_mc_validators = any_bool("isolate");
        let main = 1 + if isolate_mc_validators || shard.is_masterchain() { pick(2, "main") as u16 } else { 0 };
        let num = pick(3, "num") as u32;
        // with one draw among few, arbitrary weights; with more, one of four each
        let set = a_set(n, main, num < 2 && (n < 3 || thorough()) || shard.is_masterchain());
        let cc = CatchainConfig {
            isolate_mc_validators,
            shuffle_mc_validators: any_bool("shuffle"),
            mc_catchain_lifetime: 0,
            shard_catchain_lifetime: 0,
            shard_validators_lifetime: 0,
            shard_validators_num: num,
        };
        let got = set.compute_subset(shard, &cc, seqno);
        let mut want = Vec::new();
        if shard.is_masterchain() {
            let k = n.min(main as usize);
            let mut idx: Vec<usize> = Vec::new();
            for i in 0..k {
                let j = if cc.shuffle_mc_validators { ((i as u128 + 1) * rnd[i] as u128 >> 64) as usize } else { i };
                idx.push(i);
                idx.swap(i, j);
            }
            for i in idx {
                want.push(set.list[i].clone());
            }
            reach("masterchain");
        } else {
            let from = if cc.isolate_mc_validators { main as usize } else { 0 };
            if from > 0 && n <= from {
                check(got.is_none(), "a shard subset without shard validators");
                reach("nobody");
                return;
            }
            // draw without replacement, by weight
            let mut left: Vec<usize> = (from..n).collect();
            for d in 0..left.len().min(cc.shard_validators_num as usize) {
                let mut total = 0u64;
                for i in &left {
                    total += set.list[*i].weight;
                }
                let mut p = (total as u128 * rnd[d] as u128 >> 64) as u64;
                let mut at = 0;
                while p >= set.list[left[at]].weight {
                    p -= set.list[left[at]].weight;
                    at += 1;
                }
                let v = &set.list[left.remove(at)];
                want.push(ValidatorDescription { public_key: v.public_key, weight: 1, adnl_addr: v.adnl_addr, mc_seqno_since: 0, prev_total_weight: 0 });
            }
            reach("shard");
        }
        let (list, hash) = must(got.ok_or(()), "no subset");
        check(list.len() == want.len(), "a subset of a wrong size");
        for (a, b) in list.iter().zip(&want) {
            check(a == b, "a wrong validator is chosen");
        }
        check(hash == short_hash(&want, seqno), "a wrong short hash");
    }
    /// The random numbers behind validator subsets: eight per hash, the seed counts up.
    fn cf_prng() {
        let (wc, prefix) = [(0, 1 << 63), (-1, 1 << 63), (5, 0x1234_5678_9abc_def8u64)][pick(2, "shard") as usize];
        let shard = must(ShardIdent::new(wc, prefix).ok_or(()), "shard");
        let seqno = [0, 77, u32::MAX - 1][pick(2, "seqno") as usize];
        let mut seed = [0u8; 32];
        let kind = pick(4, "seed");
        match kind {
            0 => {}
            1 => seed[31] = 0xfe,
            2 => seed[30..].fill(0xff),
            3 => seed.fill(0xff),
            _ => seed.copy_from_slice(&core::array::from_fn::<u8, 32, _>(|i| i as u8 * 7)),
        }
        let mut r = if kind == 0 { ValidatorSetPRNG::new(shard, seqno) } else { ValidatorSetPRNG::with_seed(shard, seqno, &seed) };
        for _ in 0..3 {
            let mut d = seed.to_vec();
            d.extend_from_slice(&prefix.to_be_bytes());
            d.extend_from_slice(&(wc as i32).to_be_bytes());
            d.extend_from_slice(&seqno.to_be_bytes());
            let h: [u8; 64] = {
                use sha2::Digest;
                sha2::Sha512::digest(&d).into()
            };
            for i in 0..8 {
                let mut x = [0u8; 8];
                x.copy_from_slice(&h[i * 8..i * 8 + 8]);
                let x = u64::from_be_bytes(x);
                if i % 2 == 0 {
                    check(r.next_u64() == x, "a random number");
                } else {
                    let range = any_u32("range") as u64;
                    check(r.next_ranged(range) == (range as u128 * x as u128 >> 64) as u64, "a random number in a range");
                }
            }
            for b in seed.iter_mut().rev() {
                *b = b.wrapping_add(1);
                if *b != 0 {
                    break;
                }
            }
        }
        reach("random");
    }
    /// Masterchain subsets by themselves.
    fn cf_mc_subset() {
        let (_, seqno, rnd) = BAG[3 + pick(2, "draw") as usize];
        let n = 1 + pick(3, "n") as usize;
        let main = 1 + pick(3, "main") as u16;
        let set = a_set(n, main, true);
        let shuffle = any_bool("shuffle");
        let k = n.min(main as usize);
        let mut idx: Vec<usize> = Vec::new();
        for i in 0..k {
            let j = if shuffle { ((i as u128 + 1) * rnd[i] as u128 >> 64) as usize } else { i };
            idx.push(i);
            idx.swap(i, j);
        }
        let (list, hash) = must(set.compute_mc_subset(seqno, shuffle).ok_or(()), "no subset");
        check(list.len() == k && list.iter().zip(&idx).all(|(a, i)| *a == set.list[*i]), "a wrong validator is chosen");
        check(hash == short_hash(&list, seqno), "a wrong short hash");
        reach("subset");
    }
    fn cf_short_hash() {
        let n = pick(1, "n") as usize;
        let mut list = Vec::new();
        for _ in 0..n {
            let some = any_bool("some");
            list.push(ValidatorDescription { public_key: HashBytes(any_bytes("key")), weight: any_u64("weight"), adnl_addr: some.then(|| HashBytes(any_bytes("adnl"))), mc_seqno_since: 3, prev_total_weight: 4 });
        }
        let seqno = any_u32("seqno");
        check(ValidatorSet::compute_subset_hash_short(&list, seqno) == short_hash(&list, seqno), "a wrong short hash");
        reach("hash");
    }

    /// Every accessor uses its own parameter and leaves the others alone.
    fn cf_params() {
        let a = any_u32("value");
        let h = |x: u8| HashBytes([x; 32]);
        let hw = |x: u8| {
            let mut w = W::new();
            w.by(&[x; 32], 256);
            w
        };
        let keys = |ks: &[u32]| {
            let e: Vec<_> = ks.iter().map(|k| (key_w(*k as u128, 32), W::new())).collect();
            dict_w(&e, 0)
        };
        macro_rules! plain {
            ($p:ident, $id:expr, $v:expr, $w:expr, $set:ident, $get:ident) => {{
                let v = $v;
                let mut c = start($id);
                check(c.$get().is_err(), "an absent parameter is found");
                check(c.$set(&v) == Ok(true), "a parameter is not set");
                check(c.$get().as_ref() == Ok(&v), "a parameter reads back differently");
                after::<$p>(c, $id, &$w);
                let mut c = start($id);
                check(c.set::<$p>(&v) == Ok(true), "a parameter is not set");
                check(c.get::<$p>() == Ok(Some(v)), "a parameter reads back differently");
                after::<$p>(c, $id, &$w);
            }};
        }
        let t = |tag: u128, n: usize| {
            let mut w = W::new();
            w.u(tag, n);
            w
        };
        match pick(25, "param") {
            0 => plain!(ConfigParam1, 1, h(1), hw(1), set_elector_address, get_elector_address),
            1 => {
                // minter, with the config itself as the default
                let mut c = start(2);
                check(c.get_minter_address() == Ok(h(0xc0)), "wrong default minter");
                check(c.set_minter_address(&h(2)) == Ok(true) && c.get_minter_address() == Ok(h(2)), "wrong minter");
                after::<ConfigParam2>(c, 2, &hw(2));
                // fee collector, with the elector as the default
                let mut c = start(3);
                check(c.get_fee_collector_address().is_err(), "a fee collector without elector");
                check(c.set_elector_address(&h(1)) == Ok(true), "elector");
                check(c.get_fee_collector_address() == Ok(h(1)), "wrong default fee collector");
                check(c.remove(1).is_ok(), "removed");
                check(c.set_fee_collector_address(&h(3)) == Ok(true) && c.get_fee_collector_address() == Ok(h(3)), "wrong fee collector");
                after::<ConfigParam3>(c, 3, &hw(3));
                reach("defaults");
            }
            2 => {
                let mut w = t(1, 8);
                w.bit(false).u(1, 32).u(2, 32);
                plain!(ConfigParam5, 5, BurningConfig { blackhole_addr: None, fee_burn_num: 1, fee_burn_denom: NonZeroU32::new(2).unwrap() }, w, set_burning_config, get_burning_config);
            }
            3 => {
                let mut w = t(0xc4, 8);
                w.u(a as u128, 32).u(5, 64);
                plain!(ConfigParam8, 8, GlobalVersion { version: a, capabilities: GlobalCapabilities::from(5) }, w, set_global_version, get_global_version);
            }
            4 => {
                let critical = any_bool("critical");
                let id = if critical { 10 } else { 9 };
                let mut c = start(id);
                let ks = [9u32, 0, 77];
                check(if critical { c.set_critical_params(&ks) } else { c.set_mandatory_params(&ks) } == Ok(true), "not set");
                let got = must(if critical { c.get_critical_params() } else { c.get_mandatory_params() }, "not found");
                let mut l = Vec::new();
                for k in got.keys() {
                    l.push(must(k, "key"));
                }
                check(l == [0, 9, 77], "wrong parameters");
                let w = keys(&[0, 9, 77]);
                if critical { after::<ConfigParam10>(c, 10, &w) } else { after::<ConfigParam9>(c, 9, &w) }
                let mut c = start(id);
                check(if critical { c.set_critical_params(&[]) } else { c.set_mandatory_params(&[]) }.is_err(), "an empty list is stored");
                reach("lists");
            }
            5 => {
                let d = WorkchainDescription {
                    enabled_since: a, actual_min_split: 0, min_split: 1, max_split: 2, active: true, accept_msgs: true,
                    zerostate_root_hash: h(1), zerostate_file_hash: h(2), version: 3, format: WorkchainFormat::Basic(WorkchainFormatBasic { vm_version: -1, vm_mode: 0 }),
                };
                let mut e = t(0xa6, 8);
                e.u(a as u128, 32).u(0x000102, 24).u(0xe000, 16).by(&[1; 32], 256).by(&[2; 32], 256).u(3, 32).u(1, 4).u(0xffff_ffff, 32).u(0, 64);
                let mut dict = Dict::<i32, WorkchainDescription>::new();
                must(dict.set(0, &d), "dict");
                must(dict.set(-3, &d), "dict");
                let mut w = W::new();
                dict_e(&mut w, &[(key_w(0, 32), e.clone()), (key_w(0xffff_fffd, 32), e)]);
                plain!(ConfigParam12, 12, dict, w, set_workchains, get_workchains);
            }
            6 => {
                let v = BlockCreationRewards { masterchain_block_fee: Tokens::new(17), basechain_block_fee: Tokens::new(3) };
                let mut w = t(0x6b, 8);
                w.vu(17, 1, 4).vu(3, 1, 4);
                let mut c = start(14);
                check(c.set_block_creation_rewards(&v) == Ok(true), "set");
                check(c.get_block_creation_reward(true) == Ok(Tokens::new(17)) && c.get_block_creation_reward(false) == Ok(Tokens::new(3)), "wrong reward");
                plain!(ConfigParam14, 14, v, w, set_block_creation_rewards, get_block_creation_rewards);
            }
            7 => {
                let v = ElectionTimings { validators_elected_for: a, elections_start_before: 2, elections_end_before: 3, stake_held_for: 4 };
                let mut w = t(a as u128, 32);
                w.u(2, 32).u(3, 32).u(4, 32);
                plain!(ConfigParam15, 15, v, w, set_election_timings, get_election_timings);
            }
            8 => {
                let v = ValidatorCountParams { max_validators: a as u16, max_main_validators: 2, min_validators: 3 };
                let mut w = t(a as u16 as u128, 16);
                w.u(2, 16).u(3, 16);
                plain!(ConfigParam16, 16, v, w, set_validator_count_params, get_validator_count_params);
            }
            9 => {
                let v = ValidatorStakeParams { min_stake: Tokens::new(1), max_stake: Tokens::new(2), min_total_stake: Tokens::new(3), max_stake_factor: a };
                let mut w = W::new();
                w.vu(1, 1, 4).vu(2, 1, 4).vu(3, 1, 4).u(a as u128, 32);
                plain!(ConfigParam17, 17, v, w, set_validator_stake_params, get_validator_stake_params);
            }
            10 => {
                let p = |x| StoragePrices { utime_since: x, bit_price_ps: 1, cell_price_ps: 2, mc_bit_price_ps: 3, mc_cell_price_ps: 4 };
                let e = |x: u32| {
                    let mut w = t(0xcc, 8);
                    w.u(x as u128, 32).u(1, 64).u(2, 64).u(3, 64).u(4, 64);
                    w
                };
                let mut c = start(18);
                check(c.get_storage_prices().is_err() && c.set_storage_prices(&[]).is_err(), "no prices");
                check(c.set_storage_prices(&[p(a), p(9)]) == Ok(true), "prices are not set");
                let got = must(c.get_storage_prices(), "prices");
                check(got.get(0) == Ok(Some(p(a))) && got.get(1) == Ok(Some(p(9))) && got.get(2) == Ok(None), "wrong prices");
                after::<ConfigParam18>(c, 18, &dict_w(&[(key_w(0, 32), e(a)), (key_w(1, 32), e(9))], 0));
            }
            11 => {
                let mut c = start(19);
                check(c.get_global_id().is_err() && c.set_global_id(a as i32) == Ok(true) && c.get_global_id() == Ok(a as i32), "wrong global id");
                after::<ConfigParam19>(c, 19, &t(a as u128, 32));
            }
            12 => {
                let mc = any_bool("mc");
                let id = if mc { 20 } else { 21 };
                let v = GasLimitsPrices { gas_price: 1, gas_limit: 2, special_gas_limit: 3, gas_credit: 4, block_gas_limit: 5, freeze_due_limit: 6, delete_due_limit: 7, flat_gas_limit: 8, flat_gas_price: a as u64 };
                let mut w = t(0xd1, 8);
                w.u(8, 64).u(a as u128, 64).u(0xde, 8);
                for i in 1..8 {
                    w.u(i, 64);
                }
                let mut c = start(id);
                check(c.set_gas_prices(mc, &v) == Ok(true) && c.get_gas_prices(mc) == Ok(v) && c.get_gas_prices(!mc).is_err(), "wrong gas prices");
                if mc { after::<ConfigParam20>(c, id, &w) } else { after::<ConfigParam21>(c, id, &w) }
            }
            13 => {
                let mc = any_bool("mc");
                let id = if mc { 22 } else { 23 };
                let l = |x| BlockParamLimits { underload: x, soft_limit: x + 1, hard_limit: x + 2 };
                let v = BlockLimits { bytes: l(1), gas: l(4), lt_delta: l(7) };
                let mut w = t(0x5d, 8);
                for i in [1u128, 4, 7] {
                    w.u(0xc3, 8).u(i, 32).u(i + 1, 32).u(i + 2, 32);
                }
                let mut c = start(id);
                check(c.set_block_limits(mc, &v) == Ok(true) && c.get_block_limits(mc) == Ok(v) && c.get_block_limits(!mc).is_err(), "wrong block limits");
                if mc { after::<ConfigParam22>(c, id, &w) } else { after::<ConfigParam23>(c, id, &w) }
            }
            14 => {
                let mc = any_bool("mc");
                let id = if mc { 24 } else { 25 };
                let v = MsgForwardPrices { lump_price: 1, bit_price: 2, cell_price: 3, ihr_price_factor: a, first_frac: 5, next_frac: 6 };
                let mut w = t(0xea, 8);
                w.u(1, 64).u(2, 64).u(3, 64).u(a as u128, 32).u(5, 16).u(6, 16);
                let mut c = start(id);
                check(c.set_msg_forward_prices(mc, &v) == Ok(true) && c.get_msg_forward_prices(mc) == Ok(v) && c.get_msg_forward_prices(!mc).is_err(), "wrong forward prices");
                if mc { after::<ConfigParam24>(c, id, &w) } else { after::<ConfigParam25>(c, id, &w) }
            }
            15 => {
                let v = CatchainConfig { isolate_mc_validators: false, shuffle_mc_validators: true, mc_catchain_lifetime: a, shard_catchain_lifetime: 2, shard_validators_lifetime: 3, shard_validators_num: 4 };
                let mut w = t(0xc201, 16);
                w.u(a as u128, 32).u(2, 32).u(3, 32).u(4, 32);
                plain!(ConfigParam28, 28, v, w, set_catchain_config, get_catchain_config);
            }
            16 => {
                let v = ConsensusConfig { new_catchain_ids: true, round_candidates: NonZeroU32::new(3).unwrap(), next_candidate_delay_ms: a, consensus_timeout_ms: 2, fast_attempts: 3, attempt_duration: 4, catchain_max_deps: 5, max_block_bytes: 6, max_collated_bytes: 7 };
                let mut w = t(0xd70103, 24);
                w.u(a as u128, 32);
                for i in 2..8 {
                    w.u(i, 32);
                }
                plain!(ConfigParam29, 29, v, w, set_consensus_config, get_consensus_config);
            }
            17 => {
                let mut c = start(31);
                check(c.get_fundamental_addresses().is_err(), "an absent parameter is found");
                check(c.set_fundamental_addresses(&[h(9), h(4)]) == Ok(true), "addresses are not set");
                let got = must(c.get_fundamental_addresses(), "addresses");
                check(got.contains_key(h(4)) == Ok(true) && got.contains_key(h(9)) == Ok(true) && got.contains_key(h(5)) == Ok(false), "wrong addresses");
                let k = |x: u8| key_w(0x01010101_01010101_01010101_01010101u128 * x as u128, 128).repeat(2);
                let mut w = W::new();
                dict_e(&mut w, &[(k(4), W::new()), (k(9), W::new())]);
                after::<ConfigParam31>(c, 31, &w);
            }
            18 => {
                let v = SizeLimitsConfig { max_msg_bits: a, max_msg_cells: 2, max_library_cells: 3, max_vm_data_depth: 4, max_ext_msg_size: 5, max_ext_msg_depth: 6, max_acc_state_cells: 7, max_acc_state_bits: 8, max_acc_public_libraries: 9, defer_out_queue_size_limit: 10 };
                let mut w = t(2, 8);
                w.u(a as u128, 32).u(2, 32).u(3, 32).u(4, 16).u(5, 32).u(6, 16).u(7, 32).u(8, 32).u(9, 32).u(10, 32);
                plain!(ConfigParam43, 43, v, w, set_size_limits, get_size_limits);
            }
            19 => typed::<ConfigParam0, _>(0, h(5), &hw(5)),
            20 => typed::<ConfigParam4, _>(4, h(5), &hw(5)),
            21 => {
                let mut w = W::new();
                w.bit(true).cell(&tiny(5));
                typed::<ConfigParam7, _>(7, ExtraCurrencyCollection::from_raw(Some(tiny(5))), &w);
            }
            22 => {
                let v = MintOnceConfig { mint_at: a, delta: CurrencyCollection::new(9) };
                let mut w = t(1, 8);
                w.u(a as u128, 32).vu(9, 1, 4).bit(false);
                typed::<ConfigParam50, _>(50, v, &w);
            }
            23 => {
                // validator sets: the temporary one wins
                let which = pick(2, "set");
                let (plain, temp) = [(32, 33), (34, 35), (36, 37)][which as usize];
                let set = |x: u32| {
                    let mut e = t(0x53, 8);
                    e.u(0x8e81278a, 32).by(&[1; 32], 256).u(5, 64);
                    let mut w = t(0x12, 8);
                    w.u(x as u128, 32).u(2, 32).u(1, 16).u(1, 16).u(5, 64);
                    dict_e(&mut w, &[(key_w(0, 16), e)]);
                    w.build()
                };
                let (has_plain, has_temp) = (any_bool("plain"), any_bool("temp"));
                let mut c = start(0);
                // sets of the other kinds are never used
                for i in 32..38 {
                    if i != plain && i != temp {
                        must(c.set_raw(i, set(99)), "set");
                    }
                }
                if has_plain {
                    must(c.set_raw(plain, set(7)), "set");
                }
                if has_temp {
                    must(c.set_raw(temp, set(8)), "set");
                }
                let got = match which {
                    0 => {
                        check(c.contains_prev_validator_set() == Ok(has_plain || has_temp), "previous set");
                        must(c.get_previous_validator_set(), "previous set")
                    }
                    1 => c.get_current_validator_set().ok(),
                    _ => {
                        check(c.contains_next_validator_set() == Ok(has_plain || has_temp), "next set");
                        must(c.get_next_validator_set(), "next set")
                    }
                };
                let want = if has_temp { Some(8) } else if has_plain { Some(7) } else { None };
                check(got.map(|s| s.utime_since) == want, "the wrong validator set");
                reach("sets");
            }
            24 => {
                // a parameter that does not parse is an error, not an absent one
                let mut c = start(0);
                must(c.set_raw(8, tiny(0)), "set");
                check(c.get_global_version().is_err() && c.contains::<ConfigParam8>() == Ok(true), "a broken parameter");
                must(c.set_raw(2, tiny(0)), "set");
                check(c.get_minter_address().is_err(), "a broken minter falls back");
                must(c.set_raw(35, tiny(0)), "set");
                check(c.get_current_validator_set().is_err(), "a broken set falls back");
                reach("broken");
            }
            _ => {
                // the whole config: an address and a reference to the non-empty dictionary
                let c = BlockchainConfig::new_empty(h(7));
                let mut w = hw(7);
                w.sub(dict_w(&[(key_w(0, 32), { let mut e = W::new(); e.sub(hw(7)); e })], 0));
                wire(&c, &w);
                wire_cut::<BlockchainConfig>(&w);
                check(c.get::<ConfigParam0>() == Ok(Some(h(7))), "the address of an empty config");
                reach("config");
            }
        }
    }
}
