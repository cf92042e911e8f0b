// JSON and binary (serde) forms, and texts of bags of cells.
use crate::vp::*;
use std::num::{NonZeroU16, NonZeroU32};
use tycho_types::boc::*;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::merkle::*;
use tycho_types::models::*;
use tycho_types::num::*;

/// A number of three digits with some of them arbitrary.
fn num(name: &'static str) -> u8 {
    120 + any_upto(7, name) as u8
}
fn n16(name: &'static str) -> u16 {
    30_300 + any_upto(7, name) as u16
}
fn n32(name: &'static str) -> u32 {
    3_000_000_300 + any_upto(7, name) as u32
}
fn n64(name: &'static str) -> u64 {
    10_000_000_000_000_000_400 + any_upto(7, name)
}
fn tokens(name: &'static str) -> Tokens {
    match pick(2, name) {
        0 => Tokens::ZERO,
        1 => Tokens::new(60 + any_upto(7, "small") as u128),
        _ => Tokens::new((1 << 120) - 1),
    }
}
fn hash(name: &'static str) -> HashBytes {
    let mut h = [0x3c; 32];
    any_into(&mut h[14..16], name);
    HashBytes(h)
}
fn plain_hash(x: u8) -> HashBytes {
    HashBytes(std::array::from_fn(|i| x ^ (i as u8).wrapping_mul(41)))
}
fn cell(x: u8, bits: u16) -> Cell {
    let mut b = CellBuilder::new();
    b.store_raw(&[x; 128], bits).unwrap();
    b.build().unwrap()
}
fn tree(x: u8) -> Cell {
    let mut b = CellBuilder::new();
    b.store_raw(&[x, 0x35], 13).unwrap();
    b.store_reference(cell(x ^ 1, 0)).unwrap();
    b.store_reference(cell(x ^ 3, 9)).unwrap();
    b.build().unwrap()
}
fn b64(d: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i > c.len() { '=' } else { A[(n >> (18 - 6 * i) & 63) as usize] as char });
        }
    }
    s
}
fn hexs(d: &[u8]) -> String {
    let mut s = String::new();
    for b in d {
        for x in [b >> 4, b & 15] {
            s.push(char::from(if x < 10 { b'0' + x } else { b'a' + x - 10 }));
        }
    }
    s
}
fn must<T, E>(r: Result<T, E>, msg: &'static str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check(false, msg);
            unreachable!()
        }
    }
}
fn like<T>(_: &T, x: T) -> T {
    x
}
/// The JSON text of a value; it reads back as the same value.
macro_rules! js {
    ($v:expr) => {{
        let v = $v;
        let s = must(serde_json::to_string(&v), "not written as JSON");
        let got = like(&v, must(serde_json::from_str(&s), "JSON does not read back"));
        check(got == v, "JSON reads back as another value");
        s
    }};
}
/// The same for the binary form.
macro_rules! bin {
    ($v:expr) => {{
        let v = $v;
        let s = must(bincode::serialize(&v), "not written in binary");
        let got = like(&v, must(bincode::deserialize(&s), "binary form does not read back"));
        check(got == v, "binary form reads back as another value");
    }};
}
macro_rules! both {
    ($v:expr) => {{
        let v = $v;
        bin!(v.clone());
        js!(v)
    }};
}
fn quoted(s: &str) -> String {
    format!("\"{s}\"")
}
fn currency(x: u64) -> CurrencyCollection {
    let mut c = CurrencyCollection::new(77);
    if x > 0 {
        c.other.as_dict_mut().set(7, VarUint248::new(500)).unwrap();
    }
    if x > 1 {
        c.other.as_dict_mut().set(u32::MAX, VarUint248::from_words(1 << 119, 3)).unwrap();
    }
    c
}
fn state_init() -> StateInit {
    let mut s = StateInit::default();
    if pick(1, "depth") == 1 {
        s.split_depth = Some(SplitDepth::new(17).unwrap());
    }
    if let k @ 1.. = pick(2, "special") {
        s.special = Some(SpecialFlags { tick: k == 1, tock: k == 2 });
    }
    match pick(3, "cells") {
        1 => s.code = Some(tree(5)),
        2 => s.data = Some(tree(6)),
        3 => {
            s.code = Some(tree(8));
            s.data = Some(Cell::empty_cell());
            s.libraries.set(plain_hash(1), SimpleLib { public: true, root: tree(1) }).unwrap();
            s.libraries.set(plain_hash(2), SimpleLib { public: false, root: tree(2) }).unwrap();
        }
        _ => {}
    }
    s
}
fn std_addr(x: u8) -> IntAddr {
    IntAddr::Std(StdAddr::new(if x & 1 == 1 { -1 } else { 0 }, plain_hash(x)))
}
fn ext_addr() -> Option<ExtAddr> {
    match pick(2, "ext") {
        0 => None,
        1 => Some(ExtAddr::new(16, vec![0xa5, 0x5a]).unwrap()),
        _ => Some(ExtAddr::new(256, vec![0x77; 32]).unwrap()),
    }
}
fn msg_info(kind: u64) -> MsgInfo {
    match kind {
        0 => MsgInfo::Int(IntMsgInfo {
            ihr_disabled: any_bool("ihr"),
            bounce: any_bool("bounce"),
            bounced: any_bool("bounced"),
            src: std_addr(1),
            dst: std_addr(2),
            value: currency(pick(2, "currency")),
            ihr_fee: Tokens::new(5),
            fwd_fee: Tokens::new(6_000_000_000),
            created_lt: n64("lt"),
            created_at: n32("at"),
        }),
        1 => MsgInfo::ExtIn(ExtInMsgInfo { src: ext_addr(), dst: std_addr(3), import_fee: tokens("fee") }),
        _ => MsgInfo::ExtOut(ExtOutMsgInfo { src: std_addr(4), dst: ext_addr(), created_lt: n64("lt"), created_at: n32("at") }),
    }
}
fn same_slice(a: &CellSliceParts, b: &CellSliceParts) -> bool {
    a.0.apply(&a.1).unwrap().contents_eq(&b.0.apply(&b.1).unwrap()).unwrap()
}
fn storage_stat() -> StorageInfo {
    StorageInfo {
        used: StorageUsed { cells: VarUint56::new(45), bits: VarUint56::new((1 << 56) - 1) },
        storage_extra: if pick(1, "extra") == 1 { StorageExtra::DictHash(hash("extra hash")) } else { StorageExtra::None },
        last_paid: n32("paid"),
        due_payment: (pick(1, "due") == 1).then(|| Tokens::new(4)),
    }
}
fn block_ref(x: u8) -> BlockRef {
    BlockRef { end_lt: 4_000_000_000_000_000_000 + x as u64, seqno: 90 + x as u32, root_hash: plain_hash(x), file_hash: plain_hash(x ^ 0x80) }
}
fn used_short() -> StorageUsedShort {
    StorageUsedShort { cells: VarUint56::new(1), bits: VarUint56::new(1000) }
}
fn compute(kind: u64) -> ComputePhase {
    match kind {
        0..=3 => ComputePhase::Skipped(SkippedComputePhase {
            reason: [ComputePhaseSkipReason::NoState, ComputePhaseSkipReason::BadState, ComputePhaseSkipReason::NoGas, ComputePhaseSkipReason::Suspended][kind as usize],
        }),
        _ => ComputePhase::Executed(ExecutedComputePhase {
            success: kind == 5 || any_bool("success"),
            msg_state_used: kind == 4 && any_bool("state used"),
            account_activated: kind == 5 || any_bool("activated"),
            gas_fees: Tokens::new(1000),
            gas_used: VarUint56::new(1 << 40),
            gas_limit: VarUint56::new(7),
            gas_credit: (kind == 5).then(|| VarUint24::new(0xff_ffff)),
            mode: -7,
            exit_code: -14,
            exit_arg: (kind == 5).then_some(i32::MIN),
            vm_steps: n32("steps"),
            vm_init_state_hash: plain_hash(7),
            vm_final_state_hash: plain_hash(9),
        }),
    }
}
fn action(full: bool) -> ActionPhase {
    ActionPhase {
        success: any_bool("success"),
        valid: any_bool("valid"),
        no_funds: any_bool("no funds"),
        status_change: [AccountStatusChange::Unchanged, AccountStatusChange::Frozen, AccountStatusChange::Deleted][pick(2, "change") as usize],
        total_fwd_fees: full.then(|| Tokens::new(8)),
        total_action_fees: full.then(|| Tokens::new(9)),
        result_code: -5,
        result_arg: full.then_some(i32::MAX),
        total_actions: 1,
        special_actions: 2,
        skipped_actions: 3,
        messages_created: n16("created"),
        action_list_hash: hash("list"),
        total_message_size: used_short(),
    }
}
fn bounce(k: u64) -> Option<BouncePhase> {
    Some(match k {
        0 => return None,
        1 => BouncePhase::NegativeFunds,
        2 => BouncePhase::NoFunds(NoFundsBouncePhase { msg_size: used_short(), req_fwd_fees: Tokens::new(3) }),
        _ => BouncePhase::Executed(ExecutedBouncePhase { msg_size: used_short(), msg_fees: Tokens::new(4), fwd_fees: Tokens::new(5) }),
    })
}
fn storage(due: bool) -> StoragePhase {
    StoragePhase {
        storage_fees_collected: Tokens::new(12),
        storage_fees_due: due.then(|| Tokens::new(13)),
        status_change: AccountStatusChange::Frozen,
    }
}
fn validators(n: u8) -> ValidatorSet {
    let mut total = 0;
    let list = (0..n)
        .map(|i| {
            let v = ValidatorDescription {
                public_key: plain_hash(i),
                weight: 1 << (40 + i),
                adnl_addr: (i & 1 == 1).then(|| plain_hash(i ^ 0x40)),
                mc_seqno_since: 0,
                prev_total_weight: total,
            };
            total += v.weight;
            v
        })
        .collect();
    ValidatorSet { utime_since: 3_000_000_301, utime_until: 3_000_000_302, main: NonZeroU16::new(n as u16).unwrap(), total_weight: total, list }
}
fn gas() -> GasLimitsPrices {
    GasLimitsPrices {
        gas_price: n64("a"),
        gas_limit: n64("b"),
        special_gas_limit: n64("c"),
        gas_credit: n64("d"),
        block_gas_limit: n64("e"),
        freeze_due_limit: n64("f"),
        delete_due_limit: n64("g"),
        flat_gas_limit: n64("h"),
        flat_gas_price: n64("i"),
    }
}
fn limits() -> BlockParamLimits {
    BlockParamLimits { underload: 1, soft_limit: n32("soft"), hard_limit: 3 }
}
fn proposal(x: u8) -> ConfigProposalSetup {
    ConfigProposalSetup {
        min_total_rounds: x,
        max_total_rounds: 2,
        min_wins: 3,
        max_losses: 4,
        min_store_sec: 5,
        max_store_sec: 6,
        bit_price: 7,
        cell_price: 8,
    }
}
fn workchain(basic: bool) -> WorkchainDescription {
    WorkchainDescription {
        enabled_since: 3,
        actual_min_split: 1,
        min_split: 2,
        max_split: 60,
        active: any_bool("active"),
        accept_msgs: any_bool("accept"),
        zerostate_root_hash: plain_hash(4),
        zerostate_file_hash: plain_hash(5),
        version: 9,
        format: if basic {
            WorkchainFormat::Basic(WorkchainFormatBasic { vm_version: -1, vm_mode: u64::MAX })
        } else {
            WorkchainFormat::Extended(WorkchainFormatExtended {
                min_addr_len: Uint12::new(64),
                max_addr_len: Uint12::new(1023),
                addr_len_step: Uint12::new(8),
                workchain_type_id: NonZeroU32::new(5).unwrap(),
            })
        },
    }
}
fn storage_prices(x: u64) -> StoragePrices {
    StoragePrices { utime_since: x as u32, bit_price_ps: x + 1, cell_price_ps: u64::MAX, mc_bit_price_ps: x + 3, mc_cell_price_ps: x + 4 }
}
/// A value alone, then as a parameter of a configuration.
macro_rules! param {
    ($p:ty, $v:expr) => {{
        let v = $v;
        js!(v.clone());
        in_config!($p, &v);
    }};
}
fn text<T: serde::Serialize>(v: &T) -> String {
    must(serde_json::to_string(v), "not written as JSON")
}
/// The text of a structure with these fields.
fn obj(f: &[(&str, String)]) -> String {
    let mut s = String::from("{");
    for (i, (k, v)) in f.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&quoted(k));
        s.push(':');
        s.push_str(v);
    }
    s.push('}');
    s
}
fn lz<T>(c: &Cell) -> Lazy<T> {
    Lazy::from_raw(c.clone()).unwrap()
}
fn envelope(cur: IntermediateAddr) -> MsgEnvelope {
    MsgEnvelope { cur_addr: cur, next_addr: IntermediateAddr::FULL_SRC_SAME_WORKCHAIN, fwd_fee_remaining: Tokens::new(9), message: lz(&tree(2)) }
}
fn envelope_text(e: &MsgEnvelope) -> String {
    obj(&[
        ("cur_addr", text(&e.cur_addr)),
        ("next_addr", text(&e.next_addr)),
        ("fwd_fee_remaining", quoted("9")),
        ("message", quoted(&hexs(&tree(2).repr_hash().0))),
    ])
}
fn with_tag(tag: &str, s: &str) -> String {
    format!("{{\"ty\":\"{tag}\",{}", &s[1..])
}

fn new_params() -> BlockchainConfigParams {
    BlockchainConfig::new_empty(plain_hash(6)).params
}
macro_rules! in_config {
    ($p:ty, $v:expr) => {{
        let mut c = new_params();
        must(c.set::<$p>($v), "parameter is not stored");
        js!(c.clone());
        bin!(c);
    }};
}

harnesses! {
    // Hashes: 64 lower case characters; nothing else but upper case is read.
    fn js_hash() {
        let mut h = [0x9e; 32];
        let at = [0usize, 15, 29][pick(2, "at") as usize];
        any_into(&mut h[at..at + 3], "bytes");
        let v = HashBytes(h);
        let s = both!(v);
        check(s == quoted(&hexs(&h)), "text of a hash");
        reach("hash");
    }
    fn js_hash_text() {
        let mut t: Vec<u8> = hexs(&plain_hash(0x31).0).into_bytes();
        let at = [0usize, 1, 30, 63][pick(3, "at") as usize];
        let c = any_u8("character");
        assume((c >= 0x20) & (c < 0x7f) & (c != b'"') & (c != b'\\'));
        t[at] = c;
        match pick(4, "length") {
            1 => { t.pop(); }
            2 => t.push(b'0'),
            3 => { t.pop(); t.pop(); }
            4 => { t.push(b'0'); t.push(b'0'); }
            _ => {}
        }
        let n = t.len();
        let s = quoted(std::str::from_utf8(&t).unwrap());
        let got = serde_json::from_str::<HashBytes>(&s);
        let (dig, low, up) = ((c >= b'0') & (c <= b'9'), (c >= b'a') & (c <= b'f'), (c >= b'A') & (c <= b'F'));
        check(got.is_ok() == ((n == 64) & (dig | low | up)), "text of a hash");
        if let Ok(h) = got {
            let x = if c <= b'9' { c - b'0' } else { (c & 0x1f) + 9 };
            let y = h.0[at / 2];
            check((if at & 1 == 0 { y >> 4 } else { y & 15 }) == x, "digit");
            reach("text");
        } else { reach("no text"); }
    }
    // Numbers.
    fn js_num() {
        match pick(6, "type") {
            0 => {
                let x = n32("x") >> 8;
                check(both!(VarUint24::new(x)) == x.to_string(), "VarUint24");
                check(serde_json::from_str::<VarUint24>("16777215").is_ok_and(|x| x == VarUint24::MAX), "greatest");
                check(serde_json::from_str::<VarUint24>("16777216").is_err(), "too great");
            }
            1 => {
                let x = n64("x") >> 8;
                check(both!(VarUint56::new(x)) == x.to_string(), "VarUint56");
                check(serde_json::from_str::<VarUint56>("72057594037927935").is_ok_and(|x| x == VarUint56::MAX), "greatest");
                check(serde_json::from_str::<VarUint56>("72057594037927936").is_err(), "too great");
            }
            2 => {
                let x = tokens("x");
                check(both!(x) == quoted(&x.into_inner().to_string()), "Tokens");
                let max = (1u128 << 120) - 1;
                check(serde_json::from_str::<Tokens>(&quoted(&(max + 1).to_string())).is_err(), "too great");
                check(serde_json::from_str::<Tokens>("5").is_err(), "a plain number");
                check(serde_json::from_str::<Tokens>("\"\"").is_err(), "nothing");
            }
            3 => {
                let x = [VarUint248::ZERO, VarUint248::new(60 + any_upto(7, "small") as u128), VarUint248::MAX, VarUint248::from_words(1, 0)][pick(3, "x") as usize];
                check(both!(x) == quoted(&x.to_string()), "VarUint248");
                check(serde_json::from_str::<VarUint248>("\"452312848583266388373324160190187140051835877600158453279131187530910662656\"").is_err(), "2^248");
            }
            4 => {
                let x = n16("x") >> 6;
                check(both!(Uint9::new(x)) == x.to_string(), "Uint9");
                check(serde_json::from_str::<Uint9>("512").is_err() && serde_json::from_str::<Uint9>("511").is_ok(), "9 bits");
                check(both!(Uint12::new(x << 3 | 1)) == (x << 3 | 1).to_string(), "Uint12");
                check(serde_json::from_str::<Uint12>("4096").is_err() && serde_json::from_str::<Uint12>("4095").is_ok(), "12 bits");
                check(both!(Uint15::new(x << 6 | 1)) == (x << 6 | 1).to_string(), "Uint15");
                check(serde_json::from_str::<Uint15>("32768").is_err() && serde_json::from_str::<Uint15>("32767").is_ok(), "15 bits");
            }
            5 => {
                let x = 1 + pick(29, "x") as u8;
                check(both!(SplitDepth::new(x).unwrap()) == x.to_string(), "SplitDepth");
                check(serde_json::from_str::<SplitDepth>("0").is_err() && serde_json::from_str::<SplitDepth>("31").is_err(), "depth");
            }
            _ => {
                // a token amount of up to three characters
                let n = 1 + pick(2, "n") as usize;
                let mut t = [0u8; 3];
                any_into(&mut t[..n], "text");
                for c in &t[..n] { assume((*c >= 0x20) & (*c < 0x7f) & (*c != b'"') & (*c != b'\\')); }
                let t = &t[..n];
                let got = serde_json::from_str::<Tokens>(&quoted(std::str::from_utf8(t).unwrap()));
                // a sign is part of the text of a number in Rust
                let t = if n > 1 && t[0] == b'+' { &t[1..] } else { t };
                let mut ok = true;
                let mut v = 0u128;
                for c in t { ok &= (*c >= b'0') & (*c <= b'9'); v = v * 10 + (c & 15) as u128; }
                check(got.is_ok() == ok, "text of an amount");
                if let Ok(x) = got { check(x.into_inner() == v, "amount"); reach("amount"); }
            }
        }
        reach("number");
    }
    // Addresses, shards, capabilities, small enumerations.
    fn js_addr() {
        match pick(1, "type") {
            0 => {
                let a = StdAddr::new([0i8, -1, 127, -128][pick(3, "workchain") as usize], hash("hash"));
                let t = quoted(&format!("{}:{}", a.workchain, hexs(&a.address.0)));
                check(both!(a.clone()) == t, "address");
                check(both!(IntAddr::Std(a)) == t, "address");
            }
            _ => {
                let k = pick(4, "bits");
                let x = ExtAddr::new([0u16, 8, 16, 256, 504][k as usize], vec![0xa7; [0usize, 1, 2, 32, 63][k as usize]]).unwrap();
                check(both!(x.clone()) == quoted(&x.to_string()), "external address");
            }
        }
        reach("address");
    }
    fn js_shard() {
        let d = pick(4, "depth") * 15;
        let mut p = if d == 60 { (any_u8("prefix") as u64) << 32 | 0x1230 } else { (any_u8("prefix") as u64) << 56 };
        p = if d == 0 { 0 } else { p & (u64::MAX << (64 - d)) };
        p |= 1 << (63 - d);
        let s = ShardIdent::new([0, -1, i32::MAX, i32::MIN][pick(3, "workchain") as usize], p);
        let Some(s) = s else { check(d != 0, "shard"); return; };
        check(both!(s) == quoted(&format!("{}:{}", s.workchain(), hexs(&p.to_be_bytes()))), "shard");
        both!(BlockIdShort { shard: s, seqno: 5 });
        both!(BlockId { shard: s, seqno: 6, root_hash: plain_hash(1), file_hash: plain_hash(2) });
        reach("shard");
    }
    fn js_caps() {
        match pick(1, "type") {
            0 => {
                let mut g = GlobalCapabilities::default();
                let k = pick(8, "first");
                for (i, x) in [GlobalCapability::CapIhrEnabled, GlobalCapability::CapCreateStatsEnabled, GlobalCapability::CapBounceMsgBody, GlobalCapability::CapReportVersion,
                    GlobalCapability::CapShortDequeue, GlobalCapability::CapMbppEnabled, GlobalCapability::CapFastStorageStat, GlobalCapability::CapSignatureWithId,
                    GlobalCapability::CapFullBodyInBounced, GlobalCapability::CapStorageFeeToTvm, GlobalCapability::CapBounceAfterFailedAction, GlobalCapability::CapFastFinality].into_iter().enumerate() {
                    if (i as u64 + k) % 3 != 0 { g |= x; }
                }
                both!(g);
                both!(GlobalVersion { version: n32("version"), capabilities: g });
                check(js!(GlobalCapabilities::default()) == "[]", "no capabilities");
            }
            _ => {
                both!([AccountStatus::Uninit, AccountStatus::Frozen, AccountStatus::Active, AccountStatus::NotExists][pick(3, "status") as usize]);
                both!([AccountStatusChange::Unchanged, AccountStatusChange::Frozen, AccountStatusChange::Deleted][pick(2, "change") as usize]);
                both!([TickTock::Tick, TickTock::Tock][pick(1, "kind") as usize]);
                both!([CellType::Ordinary, CellType::PrunedBranch, CellType::LibraryReference, CellType::MerkleProof, CellType::MerkleUpdate][pick(4, "cell") as usize]);
            }
        }
        reach("capability");
    }
    fn js_small() {
        match pick(1, "type") {
            0 => {
                both!(currency(pick(2, "currency")));
                both!(currency(pick(2, "currency")).other);
                both!(HashUpdate { old: hash("old"), new: hash("new") });
                both!(GenesisInfo { start_round: n32("round"), genesis_millis: n64("millis") });
                both!(ImportFees { fees_collected: tokens("fees"), value_imported: currency(1) });
            }
            _ => {
                both!(StorageUsed { cells: VarUint56::new(3), bits: VarUint56::new(n32("bits") as u64) });
                both!(used_short());
                both!(storage_stat());
                both!(MessageLayout { init_to_cell: any_bool("init"), body_to_cell: any_bool("body") });
                both!(SpecialFlags { tick: any_bool("tick"), tock: any_bool("tock") });
            }
        }
        reach("small");
    }
    // Cells and bags of cells.
    fn js_cell() {
        let c = match pick(4, "cell") {
            0 => Cell::empty_cell(),
            1 => cell(0xa5, 7),
            2 => cell(0x3c, 1023),
            3 => tree(9),
            _ => {
                let mut b = CellBuilder::new();
                for i in 0..4 { b.store_reference(tree(i)).unwrap(); }
                b.build().unwrap()
            }
        };
        let raw = Boc::encode(&c);
        check(Boc::encode_hex(&c) == hexs(&raw), "hex");
        check(Boc::encode_base64(&c) == b64(&raw), "base64");
        check(serde_json::to_string(c.as_ref()).unwrap() == quoted(&b64(&raw)), "JSON of a cell");
        check(Boc::decode_hex(hexs(&raw)).unwrap() == c, "hex does not read back");
        check(Boc::decode_hex(hexs(&raw).to_uppercase()).unwrap() == c, "hex does not read back");
        check(Boc::decode_base64(b64(&raw)).unwrap() == c, "base64 does not read back");
        let v = SerdeBoc::from(c.clone());
        let s = serde_json::to_string(&v).unwrap();
        check(s == quoted(&b64(&raw)), "JSON of a cell");
        check(serde_json::from_str::<SerdeBoc<Cell>>(&s).unwrap().into_inner() == c, "JSON of a cell does not read back");
        let d = bincode::serialize(&v).unwrap();
        check(bincode::deserialize::<SerdeBoc<Cell>>(&d).unwrap().into_inner() == c, "binary form of a cell does not read back");
        // collections of cells
        let l = SerdeBoc::from(vec![Some(c.clone()), None, Some(tree(3))]);
        let s = serde_json::to_string(&l).unwrap();
        check(s == format!("[\"{}\",null,\"{}\"]", b64(&raw), b64(&Boc::encode(tree(3)))), "JSON of a list of cells");
        let got = serde_json::from_str::<SerdeBoc<Vec<Option<Cell>>>>(&s).unwrap().into_inner();
        check(got == [Some(c.clone()), None, Some(tree(3))], "list of cells");
        let got = serde_json::from_str::<SerdeBoc<[Option<Cell>; 3]>>(&s).unwrap().into_inner();
        check(got == [Some(c.clone()), None, Some(tree(3))], "array of cells");
        check(serde_json::from_str::<SerdeBoc<[Option<Cell>; 2]>>(&s).is_err() && serde_json::from_str::<SerdeBoc<[Option<Cell>; 4]>>(&s).is_err(), "length of an array");
        let m = std::collections::BTreeMap::from([(4u32, c.clone()), (9, tree(3))]);
        let s = serde_json::to_string(&SerdeBoc::from(m.clone())).unwrap();
        check(serde_json::from_str::<SerdeBoc<std::collections::BTreeMap<u32, Cell>>>(&s).unwrap().into_inner() == m, "map of cells");
        // any value
        let x = plain_hash(0x72);
        let raw = BocRepr::encode(&x).unwrap();
        check(BocRepr::encode_hex(&x).unwrap() == hexs(&raw) && BocRepr::encode_base64(&x).unwrap() == b64(&raw), "text of a value");
        check(BocRepr::decode_hex::<HashBytes, _>(hexs(&raw)).unwrap() == x, "value does not read back");
        check(BocRepr::decode_base64::<HashBytes, _>(b64(&raw)).unwrap() == x, "value does not read back");
        reach("cell");
    }
    // One character of the text of a bag is arbitrary: it is read exactly as its bytes are.
    fn js_bag_text() {
        let c = tree(9);
        let raw = Boc::encode(&c);
        let c8 = any_u8("character");
        assume((c8 >= 0x20) & (c8 < 0x7f) & (c8 != b'"') & (c8 != b'\\'));
        if pick(1, "hex") == 1 {
            let mut t = hexs(&raw).into_bytes();
            let at = [0usize, 9, t.len() / 2 + 1, t.len() - 1][pick(3, "at") as usize];
            t[at] = c8;
            let (dig, low, up) = ((c8 >= b'0') & (c8 <= b'9'), (c8 >= b'a') & (c8 <= b'f'), (c8 >= b'A') & (c8 <= b'F'));
            let got = Boc::decode_hex(&t);
            if dig | low | up {
                let x = if c8 <= b'9' { c8 - b'0' } else { (c8 & 0x1f) + 9 };
                let mut r = raw.clone();
                r[at / 2] = if at & 1 == 0 { r[at / 2] & 15 | x << 4 } else { r[at / 2] & 0xf0 | x };
                match (got, Boc::decode(&r)) {
                    (Ok(a), Ok(b)) => { check(a == b, "another cell"); reach("hex"); }
                    (a, b) => { check(a.is_err() == b.is_err(), "text is read unlike its bytes"); reach("bad hex"); }
                }
            } else {
                check(got.is_err(), "not a digit");
            }
        } else {
            let mut t = b64(&raw).into_bytes();
            let n = t.len();
            let at = [0usize, 11, n / 2 + 1, n - 5][pick(3, "at") as usize];
            t[at] = c8;
            let s = String::from_utf8(t).unwrap();
            let got = Boc::decode_base64(&s);
            let json = serde_json::from_str::<SerdeBoc<Cell>>(&quoted(&s));
            check(json.is_ok() == got.is_ok(), "JSON is read unlike its text");
            let (up, low, dig) = ((c8 >= b'A') & (c8 <= b'Z'), (c8 >= b'a') & (c8 <= b'z'), (c8 >= b'0') & (c8 <= b'9'));
            if up | low | dig | (c8 == b'+') | (c8 == b'/') {
                let x = if up { c8 - b'A' } else if low { c8 - b'a' + 26 } else if dig { c8 - b'0' + 52 } else if c8 == b'+' { 62 } else { 63 };
                let mut r = raw.clone();
                let i = at / 4 * 3;
                match at % 4 {
                    0 => r[i] = r[i] & 3 | x << 2,
                    1 => { r[i] = r[i] & 0xfc | x >> 4; r[i + 1] = r[i + 1] & 15 | x << 4; }
                    2 => { r[i + 1] = r[i + 1] & 0xf0 | x >> 2; r[i + 2] = r[i + 2] & 0x3f | x << 6; }
                    _ => r[i + 2] = r[i + 2] & 0xc0 | x,
                }
                match (got, Boc::decode(&r)) {
                    (Ok(a), Ok(b)) => { check(a == b, "another cell"); reach("base64"); }
                    (a, b) => { check(a.is_err() == b.is_err(), "text is read unlike its bytes"); reach("bad base64"); }
                }
            } else {
                check(got.is_err(), "not a digit");
            }
        }
    }
    // Dictionaries and values behind references.
    fn js_dict() {
        let n = pick(3, "n");
        match pick(5, "type") {
            0 => {
                let mut d = Dict::<u32, u16>::new();
                for i in 0..n { d.set(i as u32 * 1_000_000_007, i as u16 * 7919).unwrap(); }
                let s = both!(d);
                check((s == "{}") == (n == 0), "entries");
            }
            1 => {
                let mut d = Dict::<HashBytes, Tokens>::new();
                for i in 0..n { d.set(plain_hash(i as u8), Tokens::new(i as u128)).unwrap(); }
                both!(d);
            }
            2 => {
                let mut d = Dict::<i16, VarUint248>::new();
                for i in 0..n { d.set(5 - 9 * i as i16, VarUint248::new(i as u128)).unwrap(); }
                both!(d);
            }
            3 => {
                let mut d = Dict::<u8, Dict<u8, bool>>::new();
                for i in 0..n {
                    let mut e = Dict::new();
                    for j in 0..i { e.set(j as u8, j & 1 == 1).unwrap(); }
                    d.set(i as u8, e).unwrap();
                }
                both!(d);
            }
            4 => {
                let l = Lazy::new(&HashUpdate { old: plain_hash(n as u8), new: plain_hash(7) }).unwrap();
                let s = both!(l.clone());
                check(s == js!(l.load().unwrap()), "a value behind a reference is written differently");
            }
            _ => {
                let c = tree(n as u8);
                let p = MerkleProof { hash: *c.repr_hash(), depth: c.repr_depth(), cell: c.clone() };
                both!(p);
                let c2 = tree(n as u8 ^ 0x55);
                both!(MerkleUpdate {
                    old_hash: *c.repr_hash(), new_hash: *c2.repr_hash(), old_depth: c.repr_depth(), new_depth: c2.repr_depth(), old: c, new: c2
                });
            }
        }
        reach("dict");
    }
    // Accounts.
    fn js_account() {
        let state = match pick(2, "state") {
            0 => AccountState::Uninit,
            1 => AccountState::Active(state_init()),
            _ => AccountState::Frozen(hash("frozen")),
        };
        js!(state.clone());
        if let AccountState::Active(s) = &state { both!(s.clone()); reach("active"); }
        let a = Account { address: std_addr(2), storage_stat: storage_stat(), last_trans_lt: n64("lt"), balance: currency(pick(1, "balance")), state };
        js!(a.clone());
        js!(OptionalAccount(Some(a)));
        js!(OptionalAccount(None));
        reach("account");
    }
    fn js_shard_account() {
        let a = (pick(1, "some") == 1).then(|| Account {
            address: std_addr(2),
            storage_stat: StorageInfo { used: Default::default(), storage_extra: StorageExtra::DictHash(plain_hash(2)), last_paid: 7, due_payment: Some(Tokens::new(5)) },
            last_trans_lt: 77,
            balance: currency(2),
            state: [AccountState::Uninit, AccountState::Active(StateInit { code: Some(tree(1)), ..Default::default() }), AccountState::Frozen(plain_hash(3))][pick(2, "state") as usize].clone(),
        });
        both!(ShardAccount { account: Lazy::new(&OptionalAccount(a)).unwrap(), last_trans_hash: hash("last"), last_trans_lt: n64("lt") });
        reach("account");
    }
    // Messages.
    fn js_message() {
        let info = msg_info(pick(2, "kind"));
        js!(info.clone());
        let init = match pick(2, "init") {
            0 => None,
            1 => Some(StateInit::default()),
            _ => Some(StateInit { code: Some(tree(1)), data: Some(tree(2)), split_depth: Some(SplitDepth::new(3).unwrap()), ..Default::default() }),
        };
        let body: CellSliceParts = match pick(3, "body") {
            3 => {
                let mut b = CellBuilder::new();
                b.store_u16(7).unwrap();
                for i in 0..4 { b.store_reference(cell(i, 8)).unwrap(); }
                b.build().unwrap().into()
            }
            0 => Cell::empty_cell().into(),
            1 => tree(4).into(),
            _ => {
                // a part of a cell
                let c = tree(5);
                let mut s = c.as_slice().unwrap();
                s.skip_first(3, 1).unwrap();
                (s.range(), c.clone())
            }
        };
        let layout = match pick(2, "layout") {
            0 => None,
            k => Some(MessageLayout { init_to_cell: k == 1, body_to_cell: k == 2 }),
        };
        let m = OwnedMessage { info, init, body, layout };
        let s = must(serde_json::to_string(&m), "not written as JSON");
        let g = must(serde_json::from_str::<OwnedMessage>(&s), "JSON does not read back");
        check(g.info == m.info && g.init == m.init && g.layout == m.layout && same_slice(&g.body, &m.body), "JSON reads back as another message");
        if m.layout.is_none() {
            let d = must(bincode::serialize(&m), "not written in binary");
            let g = must(bincode::deserialize::<OwnedMessage>(&d), "binary form does not read back");
            check(g.info == m.info && g.init == m.init && same_slice(&g.body, &m.body), "binary form reads back as another message");
        }
        reach("message");
    }
    fn js_relaxed() {
        let src = (pick(1, "src") == 1).then(|| std_addr(1));
        let info = if pick(1, "kind") == 1 {
            RelaxedMsgInfo::Int(RelaxedIntMsgInfo {
                ihr_disabled: any_bool("ihr"), bounce: any_bool("bounce"), bounced: any_bool("bounced"),
                src, dst: std_addr(2), value: currency(pick(2, "currency")), ihr_fee: tokens("ihr fee"), fwd_fee: tokens("fwd fee"),
                created_lt: n64("lt"), created_at: n32("at"),
            })
        } else {
            RelaxedMsgInfo::ExtOut(RelaxedExtOutMsgInfo { src, dst: ext_addr(), created_lt: n64("lt"), created_at: n32("at") })
        };
        js!(info.clone());
        let m = OwnedRelaxedMessage { info, init: None, body: tree(1).into(), layout: None };
        let s = must(serde_json::to_string(&m), "not written as JSON");
        let g = must(serde_json::from_str::<OwnedRelaxedMessage>(&s), "JSON does not read back");
        check(g.info == m.info && g.init.is_none() && g.layout.is_none() && same_slice(&g.body, &m.body), "JSON reads back as another message");
        reach("relaxed");
    }
    // Transactions.
    fn js_tx_info() {
        let t = pick(4, "mode");
        let ordinary = t < 3;
        let c = compute(if t == 0 { pick(5, "compute") } else { 5 });
        js!(c.clone());
        let a = match if t == 1 { 1 + pick(1, "action") } else { 0 } { 0 => None, k => Some(action(k == 1)) };
        if let Some(a) = &a { js!(a.clone()); }
        let b = bounce(if t == 2 { pick(3, "bounce") } else { 0 });
        js!(b.clone());
        let s = storage(any_bool("due"));
        js!(s.clone());
        let i = if ordinary {
            TxInfo::Ordinary(OrdinaryTxInfo {
                credit_first: any_bool("credit first"),
                storage_phase: (t != 1).then_some(s),
                credit_phase: (t != 2).then(|| CreditPhase { due_fees_collected: (t == 0).then(|| Tokens::new(3)), credit: currency(t) }),
                compute_phase: c, action_phase: a, aborted: any_bool("aborted"), bounce_phase: b, destroyed: any_bool("destroyed"),
            })
        } else {
            TxInfo::TickTock(TickTockTxInfo {
                kind: [TickTock::Tick, TickTock::Tock][t as usize - 3], storage_phase: s, compute_phase: c, action_phase: a,
                aborted: any_bool("aborted"), destroyed: any_bool("destroyed"),
            })
        };
        js!(i);
        reach("info");
    }
    fn js_tx() {
        let msg = |k: u64| {
            let info = match k {
                0 => MsgInfo::ExtIn(ExtInMsgInfo { src: None, dst: std_addr(3), import_fee: Tokens::new(1) }),
                _ => MsgInfo::ExtOut(ExtOutMsgInfo { src: std_addr(4), dst: Some(ExtAddr::new(8, vec![5]).unwrap()), created_lt: 5 + k, created_at: 6 }),
            };
            CellBuilder::build_from(OwnedMessage { info, init: None, body: tree(k as u8).into(), layout: None }).unwrap()
        };
        let mut out = Dict::<Uint15, Cell>::new();
        let n = pick(2, "out");
        for i in 0..n { out.set(Uint15::new(i as u16 * 300), msg(1 + i)).unwrap(); }
        let info = TxInfo::TickTock(TickTockTxInfo {
            kind: TickTock::Tock, storage_phase: storage(true), compute_phase: ComputePhase::Skipped(SkippedComputePhase { reason: ComputePhaseSkipReason::NoGas }),
            action_phase: None, aborted: true, destroyed: false,
        });
        let all = [AccountStatus::Uninit, AccountStatus::Frozen, AccountStatus::Active, AccountStatus::NotExists];
        js!(Transaction {
            account: hash("account"), lt: n64("lt"), prev_trans_hash: plain_hash(1), prev_trans_lt: 9, now: n32("now"), out_msg_count: Uint15::new(n as u16),
            orig_status: all[pick(3, "orig") as usize], end_status: all[pick(3, "end") as usize],
            in_msg: (pick(1, "in") == 1).then(|| msg(0)), out_msgs: out, total_fees: currency(1),
            state_update: Lazy::new(&HashUpdate { old: plain_hash(2), new: plain_hash(3) }).unwrap(), info: Lazy::new(&info).unwrap(),
        });
        reach("tx");
    }
    // Blocks.
    fn js_block() {
        js!(block_ref(1));
        let prev = if pick(1, "merge") == 1 { PrevBlockRef::AfterMerge { left: block_ref(1), right: block_ref(2) } } else { PrevBlockRef::Single(block_ref(3)) };
        js!(prev.clone());
        let mut b = BlockInfo {
            version: n32("version"), after_merge: matches!(prev, PrevBlockRef::AfterMerge { .. }), before_split: any_bool("before split"), after_split: any_bool("after split"),
            want_split: any_bool("want split"), want_merge: any_bool("want merge"), key_block: any_bool("key"), flags: 1, seqno: n32("seqno"), vert_seqno: 0,
            shard: ShardIdent::new(0, 0x4000_0000_0000_0000).unwrap(), gen_utime: 8, start_lt: n64("start"), end_lt: 9, gen_validator_list_hash_short: 10,
            gen_catchain_seqno: 11, min_ref_mc_seqno: 12, prev_key_block_seqno: 13,
            gen_software: GlobalVersion { version: 14, capabilities: GlobalCapabilities::from([GlobalCapability::CapReportVersion]) },
            master_ref: (pick(1, "master") == 1).then(|| Lazy::new(&block_ref(4)).unwrap()), prev_ref: CellBuilder::build_from(&prev).unwrap(), prev_vert_ref: None,
            ..Default::default()
        };
        if pick(1, "vert") == 1 { b.vert_seqno = 1; b.prev_vert_ref = Some(Lazy::new(&block_ref(5)).unwrap()); }
        js!(b);
        let f = |x| currency(x);
        js!(ValueFlow {
            from_prev_block: f(0), to_next_block: f(1), imported: f(2), exported: CurrencyCollection::new(1), fees_collected: CurrencyCollection::new(2),
            burned: CurrencyCollection::new(3), fees_imported: CurrencyCollection::new(4), recovered: CurrencyCollection::new(5),
            created: CurrencyCollection::new(6), minted: CurrencyCollection::new(7),
        });
        reach("block");
    }
    // Configuration parameters, alone and in a configuration.
    fn js_config() {
        match pick(18, "parameter") {
            0 => { param!(ConfigParam0, plain_hash(1)); param!(ConfigParam1, plain_hash(2)); param!(ConfigParam2, plain_hash(3)); param!(ConfigParam3, plain_hash(4)); param!(ConfigParam4, plain_hash(5)); }
            1 => param!(ConfigParam5, BurningConfig { blackhole_addr: (pick(1, "some") == 1).then(|| plain_hash(1)), fee_burn_num: 3, fee_burn_denom: NonZeroU32::new(7).unwrap() }),
            2 => param!(ConfigParam7, currency(pick(2, "currency")).other),
            3 => param!(ConfigParam8, GlobalVersion { version: 5, capabilities: GlobalCapabilities::from([GlobalCapability::CapShortDequeue]) }),
            4 => {
                let mut d = Dict::<u32, ()>::new();
                for i in 0..=pick(2, "n") { d.set(i as u32 * 77, ()).unwrap(); }
                in_config!(ConfigParam9, &d);
                in_config!(ConfigParam10, &d);
                check(serde_json::from_str::<BlockchainConfigParams>("{\"9\":[]}").is_err(), "an empty list");
            }
            5 => param!(ConfigParam11, ConfigVotingSetup { normal_params: Lazy::new(&proposal(1)).unwrap(), critical_params: Lazy::new(&proposal(9)).unwrap() }),
            6 => {
                let w = workchain(pick(1, "basic") == 1);
                js!(w.clone());
                // hashed: no arbitrary flags
                let w = WorkchainDescription { active: true, accept_msgs: false, ..w };
                let mut d = Dict::<i32, WorkchainDescription>::new();
                for i in 0..pick(2, "n") { d.set(-(i as i32), w.clone()).unwrap(); }
                param!(ConfigParam12, d);
            }
            7 => param!(ConfigParam14, BlockCreationRewards { masterchain_block_fee: Tokens::new(5), basechain_block_fee: Tokens::new(1 << 100) }),
            8 => {
                param!(ConfigParam15, ElectionTimings { validators_elected_for: 1, elections_start_before: 2, elections_end_before: 3, stake_held_for: u32::MAX });
                param!(ConfigParam16, ValidatorCountParams { max_validators: 9, max_main_validators: 8, min_validators: 7 });
                param!(ConfigParam17, ValidatorStakeParams { min_stake: Tokens::new(1), max_stake: Tokens::new(2), min_total_stake: Tokens::new(2), max_stake_factor: 4 });
            }
            9 => {
                let mut d = Dict::<u32, StoragePrices>::new();
                for i in 0..=pick(2, "n") { d.set(i as u32, storage_prices(i)).unwrap(); }
                param!(ConfigParam18, d);
                check(serde_json::from_str::<BlockchainConfigParams>("{\"18\":{}}").is_err(), "an empty list");
            }
            10 => { in_config!(ConfigParam19, &-5); in_config!(ConfigParam19, &i32::MAX); }
            11 => {
                js!(gas());
                js!(BlockLimits { bytes: limits(), gas: limits(), lt_delta: limits() });
                js!(MsgForwardPrices { lump_price: n64("lump"), bit_price: n64("bit"), cell_price: n64("cell"), ihr_price_factor: n32("ihr"), first_frac: n16("first"), next_frac: n16("next") });
                js!(proposal(num("rounds")));
            }
            12 => {
                let g = GasLimitsPrices { gas_price: 1, gas_limit: 2, special_gas_limit: 3, gas_credit: 4, block_gas_limit: 5, freeze_due_limit: 6, delete_due_limit: 7, flat_gas_limit: 8, flat_gas_price: 9 };
                in_config!(ConfigParam20, &g);
                in_config!(ConfigParam21, &g);
                let l = |x| BlockParamLimits { underload: x, soft_limit: x + 1, hard_limit: x + 2 };
                let l = BlockLimits { bytes: l(1), gas: l(5), lt_delta: l(9) };
                in_config!(ConfigParam22, &l);
                in_config!(ConfigParam23, &l);
                let p = MsgForwardPrices { lump_price: 1, bit_price: 2, cell_price: 3, ihr_price_factor: 4, first_frac: 5, next_frac: 6 };
                in_config!(ConfigParam24, &p);
                in_config!(ConfigParam25, &p);
            }
            13 => param!(ConfigParam28, CatchainConfig {
                isolate_mc_validators: false, shuffle_mc_validators: pick(1, "shuffle") == 1, mc_catchain_lifetime: 1, shard_catchain_lifetime: 2, shard_validators_lifetime: 3, shard_validators_num: 4,
            }),
            14 => param!(ConfigParam29, ConsensusConfig {
                new_catchain_ids: pick(1, "new ids") == 1, round_candidates: NonZeroU32::new(3).unwrap(), next_candidate_delay_ms: 1, consensus_timeout_ms: 2, fast_attempts: 4,
                attempt_duration: 5, catchain_max_deps: 6, max_block_bytes: 7, max_collated_bytes: 8,
            }),
            15 => {
                let mut d = Dict::<HashBytes, ()>::new();
                for i in 0..pick(2, "n") { d.set(plain_hash(i as u8), ()).unwrap(); }
                in_config!(ConfigParam31, &d);
            }
            16 => {
                js!(validators(1 + pick(2, "n") as u8));
                let v = ValidatorSet { utime_since: 5, utime_until: 6, ..validators(1 + pick(2, "n") as u8) };
                match pick(2, "set") {
                    0 => { in_config!(ConfigParam32, &v); in_config!(ConfigParam33, &v); }
                    1 => { in_config!(ConfigParam34, &v); in_config!(ConfigParam35, &v); }
                    _ => { in_config!(ConfigParam36, &v); in_config!(ConfigParam37, &v); }
                }
            }
            17 => {
                param!(ConfigParam43, SizeLimitsConfig {
                    max_msg_bits: 1, max_msg_cells: 2, max_library_cells: 3, max_vm_data_depth: 4, max_ext_msg_size: 5, max_ext_msg_depth: 6,
                    max_acc_state_cells: 7, max_acc_state_bits: 8, max_acc_public_libraries: 9, defer_out_queue_size_limit: 10,
                });
                param!(ConfigParam50, MintOnceConfig { mint_at: 4, delta: currency(2) });
            }
            _ => {
                // parameters without a type of their own, several at once
                let mut c = new_params();
                for k in [6u32, 13, 1000, u32::MAX] { c.set_raw(k, tree(k as u8)).unwrap(); }
                c.set::<ConfigParam0>(&plain_hash(6)).unwrap();
                js!(c.clone());
                js!(BlockchainConfig { address: plain_hash(6), params: c });
            }
        }
        reach("config");
    }
    // A text reads the same when a character is escaped, from a stream and from a parsed tree.
    fn js_escaped() {
        fn all<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(v: T) {
            let s = text(&v);
            let n = s.len();
            check(serde_json::from_reader::<_, T>(s.as_bytes()).is_ok_and(|x| x == v), "from a stream");
            check(must(serde_json::from_str::<serde_json::Value>(&s), "JSON").to_string().len() == n, "JSON");
            check(serde_json::from_value::<T>(serde_json::from_str(&s).unwrap()).is_ok_and(|x| x == v), "from a tree");
            let at = if pick(1, "end") == 1 { n - 2 } else { 1 };
            let t = format!("{}\\u{:04x}{}", &s[..at], s.as_bytes()[at], &s[at + 1..]);
            check(serde_json::from_str::<T>(&t).is_ok_and(|x| x == v), "escaped");
        }
        let c = tree(3);
        match pick(9, "type") {
            0 => all(hash("hash")),
            1 => all(tokens("tokens")),
            2 => all(VarUint248::from_words(1, 7)),
            3 => all(StdAddr::new(-1, hash("hash"))),
            4 => all(IntAddr::Std(StdAddr::new(-1, plain_hash(4)))),
            5 => all(ExtAddr::new(16, vec![5, 6]).unwrap()),
            6 => all(ShardIdent::BASECHAIN),
            7 => all(AccountStatus::Active),
            8 => all(Lazy::<HashBytes>::new(&plain_hash(5)).unwrap()),
            _ => {
                let s = text(&SerdeBoc::from(c.clone()));
                check(serde_json::from_reader::<_, SerdeBoc<Cell>>(s.as_bytes()).is_ok_and(|x| x.into_inner() == c), "from a stream");
                check(serde_json::from_value::<SerdeBoc<Cell>>(serde_json::from_str(&s).unwrap()).is_ok_and(|x| x.into_inner() == c), "from a tree");
                let t = s.replace('t', "\\u0074").replace('/', "\\/");
                check(serde_json::from_str::<SerdeBoc<Cell>>(&t).is_ok_and(|x| x.into_inner() == c), "escaped");
            }
        }
        reach("escaped");
    }
    // What is only written: every field once, under its name.
    fn js_written() {
        let f = |x: u64| x.to_string();
        let b = |x: bool| String::from(if x { "true" } else { "false" });
        match pick(4, "type") {
            0 => {
                let at = match pick(2, "at") {
                    0 => None,
                    1 => Some(FutureSplitMerge::Split { split_utime: n32("time"), interval: 5 }),
                    _ => Some(FutureSplitMerge::Merge { merge_utime: 6, interval: n32("interval") }),
                };
                let d = ShardDescription {
                    seqno: 1, reg_mc_seqno: 2, start_lt: 3, end_lt: n64("end"), root_hash: plain_hash(1), file_hash: hash("file"),
                    before_split: any_bool("before split"), before_merge: any_bool("before merge"), want_split: any_bool("want split"), want_merge: any_bool("want merge"), nx_cc_updated: any_bool("updated"),
                    next_catchain_seqno: 4, next_validator_shard: 1 << 63, min_ref_mc_seqno: 5, gen_utime: 6, split_merge_at: at,
                    fees_collected: currency(1), funds_created: currency(0),
                };
                let a = match at {
                    None => String::from("null"),
                    Some(FutureSplitMerge::Split { split_utime, interval }) => obj(&[("ty", quoted("Split")), ("split_utime", f(split_utime as u64)), ("interval", f(interval as u64))]),
                    Some(FutureSplitMerge::Merge { merge_utime, interval }) => obj(&[("ty", quoted("Merge")), ("merge_utime", f(merge_utime as u64)), ("interval", f(interval as u64))]),
                };
                check(text(&d) == obj(&[
                    ("seqno", f(1)), ("reg_mc_seqno", f(2)), ("start_lt", f(3)), ("end_lt", f(d.end_lt)), ("root_hash", quoted(&hexs(&plain_hash(1).0))), ("file_hash", quoted(&hexs(&d.file_hash.0))),
                    ("before_split", b(d.before_split)), ("before_merge", b(d.before_merge)), ("want_split", b(d.want_split)), ("want_merge", b(d.want_merge)), ("nx_cc_updated", b(d.nx_cc_updated)),
                    ("next_catchain_seqno", f(4)), ("next_validator_shard", f(1 << 63)), ("min_ref_mc_seqno", f(5)), ("gen_utime", f(6)), ("split_merge_at", a),
                    ("fees_collected", text(&currency(1))), ("funds_created", obj(&[("tokens", quoted("77")), ("other", String::from("{}"))])),
                ]), "shard description");
            }
            1 => {
                let p = (any_u8("prefix") as u64) << 56 | 0x12_3456_789a;
                let (a, t) = match pick(2, "kind") {
                    0 => {
                        let n = pick(96, "bits") as u8;
                        let a = IntermediateAddrRegular::with_dest_bits(n).unwrap();
                        (IntermediateAddr::Regular(a), obj(&[("ty", quoted("Regular")), ("use_dest_bits", f(n as u64))]))
                    }
                    1 => {
                        let a = IntermediateAddrSimple { workchain: -1, address_prefix: p };
                        let t = text(&a);
                        let x = t.strip_prefix("{\"workchain\":-1,\"address_prefix\":\"").and_then(|t| t.strip_suffix("\"}"));
                        check(x.is_some_and(|x| u64::from_str_radix(x, 16) == Ok(p)), "prefix");
                        (IntermediateAddr::Simple(a), with_tag("Simple", &t))
                    }
                    _ => {
                        let a = IntermediateAddrExt { workchain: i32::MIN, address_prefix: p };
                        let t = text(&a);
                        let x = t.strip_prefix("{\"workchain\":-2147483648,\"address_prefix\":\"").and_then(|t| t.strip_suffix("\"}"));
                        check(x.is_some_and(|x| u64::from_str_radix(x, 16) == Ok(p)), "prefix");
                        (IntermediateAddr::Ext(a), with_tag("Ext", &t))
                    }
                };
                check(text(&a) == t, "address");
                let e = envelope(a);
                check(text(&e) == envelope_text(&e), "envelope");
            }
            2 => {
                let (c1, c2) = (tree(1), tree(2));
                let (h1, h2) = (quoted(&hexs(&c1.repr_hash().0)), quoted(&hexs(&c2.repr_hash().0)));
                let (e1, e2) = (envelope(IntermediateAddr::FULL_SRC_SAME_WORKCHAIN), envelope(IntermediateAddr::FULL_DEST_SAME_WORKCHAIN));
                let (l1, l2) = (Lazy::new(&e1).unwrap(), Lazy::new(&e2).unwrap());
                let (t1, t2) = (envelope_text(&e1), envelope_text(&e2));
                let fee = tokens("fee");
                let fees = quoted(&fee.into_inner().to_string());
                let fin = InMsgFinal { in_msg_envelope: l1.clone(), transaction: lz(&c2), fwd_fee: fee };
                let fin_text = obj(&[("in_msg_envelope", t1.clone()), ("transaction", h2.clone()), ("fwd_fee", fees.clone())]);
                let (v, t) = match pick(3, "kind") {
                    0 => {
                        let v = InMsgExternal { in_msg: lz(&c1), transaction: lz(&c2) };
                        (InMsg::External(v), with_tag("External", &obj(&[("in_msg", h1.clone()), ("transaction", h2.clone())])))
                    }
                    1 => (InMsg::Immediate(fin), with_tag("Immediate", &fin_text)),
                    2 => (InMsg::Final(fin), with_tag("Final", &fin_text)),
                    _ => (
                        InMsg::Transit(InMsgTransit { in_msg_envelope: l1.clone(), out_msg_envelope: l2.clone(), transit_fee: fee }),
                        with_tag("Transit", &obj(&[("in_msg_envelope", t1.clone()), ("out_msg_envelope", t2.clone()), ("transit_fee", fees)])),
                    ),
                };
                check(text(&v) == t, "inbound message");
            }
            3 => {
                let (c1, c2) = (tree(1), tree(2));
                let (h1, h2) = (quoted(&hexs(&c1.repr_hash().0)), quoted(&hexs(&c2.repr_hash().0)));
                let e = envelope(IntermediateAddr::FULL_DEST_SAME_WORKCHAIN);
                let (l, t1) = (Lazy::new(&e).unwrap(), envelope_text(&e));
                let i = InMsg::External(InMsgExternal { in_msg: lz(&c1), transaction: lz(&c2) });
                let it = with_tag("External", &obj(&[("in_msg", h1.clone()), ("transaction", h2.clone())]));
                let i = Lazy::new(&i).unwrap();
                let (v, t) = match pick(4, "kind") {
                    0 => (OutMsg::External(OutMsgExternal { out_msg: lz(&c1), transaction: lz(&c2) }), with_tag("External", &obj(&[("out_msg", h1), ("transaction", h2)]))),
                    1 => (OutMsg::New(OutMsgNew { out_msg_envelope: l.clone(), transaction: lz(&c2) }), with_tag("New", &obj(&[("out_msg_envelope", t1.clone()), ("transaction", h2)]))),
                    2 => (
                        OutMsg::Immediate(OutMsgImmediate { out_msg_envelope: l.clone(), transaction: lz(&c2), reimport: i }),
                        with_tag("Immediate", &obj(&[("out_msg_envelope", t1.clone()), ("transaction", h2), ("reimport", it)])),
                    ),
                    3 => (
                        OutMsg::DequeueImmediate(OutMsgDequeueImmediate { out_msg_envelope: l.clone(), reimport: i }),
                        with_tag("DequeueImmediate", &obj(&[("out_msg_envelope", t1.clone()), ("reimport", it)])),
                    ),
                    _ => (
                        OutMsg::DequeueShort(OutMsgDequeueShort { msg_env_hash: plain_hash(4), next_workchain: -1, next_addr_pfx: n64("prefix"), import_block_lt: 8 }),
                        String::new(),
                    ),
                };
                if let OutMsg::DequeueShort(x) = &v {
                    check(text(&v) == with_tag("DequeueShort", &obj(&[
                        ("msg_env_hash", quoted(&hexs(&plain_hash(4).0))), ("next_workchain", String::from("-1")), ("next_addr_pfx", f(x.next_addr_pfx)), ("import_block_lt", f(8)),
                    ])), "dequeued message");
                } else {
                    check(text(&v) == t, "outbound message");
                }
                let q = EnqueuedMsg { enqueued_lt: n64("lt"), out_msg_envelope: l };
                check(text(&q) == obj(&[("enqueued_lt", f(q.enqueued_lt)), ("out_msg_envelope", t1)]), "enqueued message");
            }
            _ => {
                let mut g = [0x5a; 64];
                let at = [0usize, 30, 61][pick(2, "at") as usize];
                any_into(&mut g[at..at + 3], "signature");
                let s = BlockSignature { node_id_short: plain_hash(3), signature: Signature(g) };
                check(text(&s) == obj(&[("node_id_short", quoted(&hexs(&plain_hash(3).0))), ("signature", quoted(&b64(&g)))]), "signature");
                let c = ShardFeeCreated { fees: currency(1), create: currency(0) };
                check(text(&c) == obj(&[("fees", text(&currency(1))), ("create", text(&currency(0)))]), "fees");
            }
        }
        reach("written");
    }
    // A validator set whose sum is wrong or that is empty is refused.
    fn js_set_bad() {
        let mut v = validators(2);
        v.utime_since = 1;
        v.utime_until = 2;
        let good = serde_json::to_string(&v).unwrap();
        check(serde_json::from_str::<ValidatorSet>(&good).is_ok(), "set");
        let sum = v.total_weight;
        v.total_weight = match pick(3, "sum") { 0 => 0, 1 => sum + 1, 2 => sum - 1, _ => 1 };
        let s = serde_json::to_string(&v).unwrap();
        match serde_json::from_str::<ValidatorSet>(&s) {
            Ok(g) => { check(v.total_weight == 0 && g.total_weight == sum && g.list == v.list, "a wrong sum is accepted"); reach("no sum"); }
            Err(_) => { check(v.total_weight != 0, "a set without a sum"); reach("bad sum"); }
        }
        v.total_weight = 0;
        v.list[1].weight = u64::MAX;
        check(serde_json::from_str::<ValidatorSet>(&serde_json::to_string(&v).unwrap()).is_err(), "the sum overflows");
        v.list.clear();
        check(serde_json::from_str::<ValidatorSet>(&serde_json::to_string(&v).unwrap()).is_err(), "an empty set");
    }
}
