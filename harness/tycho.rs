// The layout of blocks, states and config of networks with the `tycho` consensus.
use crate::vp::*;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::merkle::*;
use tycho_types::models::*;
use tycho_types::num::*;
const TOP: bool = true;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/wire.rs"));
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/msg_gen.rs"));
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/dict_w.rs"));

fn f8(w: &mut W, n: &'static str) -> u8 {
    let v = any_u8(n);
    w.u(v as u128, 8);
    v
}
fn f32(w: &mut W, n: &'static str) -> u32 {
    let v = any_u32(n);
    w.u(v as u128, 32);
    v
}
fn f64(w: &mut W, n: &'static str) -> u64 {
    let v = any_u64(n);
    w.u(v as u128, 64);
    v
}
fn fbit(w: &mut W, n: &'static str) -> bool {
    let v = any_bool(n);
    w.bit(v);
    v
}
fn fhash(w: &mut W, n: &'static str) -> HashBytes {
    let h: [u8; 32] = any_bytes(n);
    w.by(&h, 256);
    HashBytes(h)
}
fn lead(tag: u128, n: usize) -> W {
    let mut w = W::new();
    w.u(tag, n);
    w
}
fn lazy<T>(tag: u8) -> Lazy<T> {
    must(Lazy::from_raw(tiny(tag)), "lazy")
}
/// Exact encoding; or cut; or any other tag of `n` bits.
fn full<T: Store + for<'a> Load<'a> + PartialEq>(v: &T, w: &W, n: usize, tags: &[u128]) {
    match pick(2, "mode") {
        0 => {
            wire(v, w);
            reach("exact");
        }
        1 => wire_cut::<T>(w),
        _ => other_tag::<T>(w, n, tags),
    }
}
/// As `full`, for types without equality.
fn full_ne<T: Store + for<'a> Load<'a>>(v: &T, w: &W, n: usize, tags: &[u128]) {
    match pick(2, "mode") {
        0 => {
            wire_store(v, w);
            wire_store(&wire_load::<T>(w), w);
            reach("exact again");
        }
        1 => wire_cut::<T>(w),
        _ => other_tag::<T>(w, n, tags),
    }
}
fn other_tag<T: for<'a> Load<'a>>(w: &W, n: usize, tags: &[u128]) {
    if n == 0 {
        return;
    }
    let t = any_u32("tag") as u128 & ((1 << n) - 1);
    for k in tags {
        assume(t != *k);
    }
    let mut x = w.clone();
    for i in 0..n {
        x.b.0[i] = (t >> (n - 1 - i) & 1) as u8;
    }
    wire_bad::<T>(&x, "a wrong tag is accepted");
    reach("tag");
}
fn any_shard(w: &mut W) -> ShardIdent {
    let len = [64usize, 0, 1, 60][pick(3, "shard") as usize];
    if len == 64 {
        w.u(0, 8).u(u32::MAX as u128, 32).u(0, 64);
        return ShardIdent::MASTERCHAIN;
    }
    let wc = any_u32("workchain");
    assume(wc != u32::MAX);
    let p = if len == 0 { 0 } else { any_u64("prefix") & (u64::MAX << (64 - len)) };
    w.u(len as u128, 8).u(wc as u128, 32).u(p as u128, 64);
    must(ShardIdent::new(wc as i32, p | 1 << (63 - len)).ok_or(()), "a shard is refused")
}
fn any_ref(w: &mut W) -> BlockRef {
    BlockRef { end_lt: f64(w, "lt"), seqno: f32(w, "seqno"), root_hash: fhash(w, "root"), file_hash: fhash(w, "file") }
}
/// A concrete reference.
fn a_ref(x: u8) -> (BlockRef, W) {
    let mut w = W::new();
    w.u(x as u128 * 7, 64).u(x as u128, 32).by(&[x; 32], 256).by(&[x ^ 0xff; 32], 256);
    (BlockRef { end_lt: x as u64 * 7, seqno: x as u32, root_hash: HashBytes([x; 32]), file_hash: HashBytes([x ^ 0xff; 32]) }, w)
}
/// Tokens of one byte, maybe with a raw dictionary of extra currencies `tag`.
fn a_cc(w: &mut W, tag: u8, extra: bool) -> CurrencyCollection {
    let tokens = any_tokens_n(w, 1, "tokens");
    let other = extra.then(|| tiny(tag));
    w.opt_cell(&other);
    CurrencyCollection { tokens, other: ExtraCurrencyCollection::from_raw(other) }
}
fn an_update() -> (MerkleUpdate, Cell) {
    let v = MerkleUpdate::default();
    let c = must(CellBuilder::build_from(&v), "an update is not stored");
    (v, c)
}
/// One entry of an augmented dictionary, root node.
fn aug_one(key: &[u8], extra: &W, value: &W) -> W {
    let mut w = W::new();
    w.b.append(&label_w(key, key.len()).0);
    w.join(extra).join(value);
    w
}


fn f16(w: &mut W, n: &'static str) -> u16 {
    let v = any_u16(n);
    w.u(v as u128, 16);
    v
}
fn a_genesis(w: &mut W) -> GenesisInfo {
    GenesisInfo { start_round: f32(w, "round"), genesis_millis: f64(w, "millis") }
}
fn a_consensus(w: &mut W) -> ConsensusInfo {
    ConsensusInfo {
        vset_switch_round: f32(w, "switch"),
        prev_vset_switch_round: f32(w, "prev switch"),
        genesis_info: a_genesis(w),
        prev_shuffle_mc_validators: fbit(w, "shuffle"),
    }
}
fn a_msgs(w: &mut W, tag: u8) -> MsgsExecutionParams {
    w.u(tag as u128, 8);
    let buffer_limit = f32(w, "buffer");
    let (group_limit, group_vert_size, externals_expire_timeout, open_ranges_limit) = (f16(w, "g"), f16(w, "v"), f16(w, "e"), f16(w, "o"));
    let (i, e) = (f32(w, "int"), f32(w, "ext"));
    let mut group_slots_fractions = Dict::<u16, u8>::new();
    let mut entries = Vec::new();
    for k in [1u16, 700].into_iter().take(pick(2, "slots") as usize) {
        let mut x = W::new();
        let v = f8(&mut x, "slot");
        must(group_slots_fractions.set(k, v), "set");
        entries.push((key_w(k as u128, 16), x));
    }
    if entries.is_empty() {
        w.bit(false);
    } else {
        dict_e(w, &entries);
    }
    // the older form is written when it can hold the value
    let range_messages_limit = if tag > 0 { f32(w, "range") } else { 0 };
    assume(tag == 0 || range_messages_limit != 0);
    MsgsExecutionParams {
        buffer_limit, group_limit, group_vert_size, externals_expire_timeout, open_ranges_limit,
        par_0_int_msgs_count_limit: i,
        par_0_ext_msgs_count_limit: e,
        group_slots_fractions,
        range_messages_limit,
    }
}
fn a_units(w: &mut W) -> WorkUnitsParams {
    w.u(0, 8).u(0, 8);
    let prepare = WorkUnitsParamsPrepare {
        fixed_part: f32(w, "a"),
        msgs_stats: f16(w, "b"),
        remaning_msgs_stats: f16(w, "c"),
        read_ext_msgs: f16(w, "d"),
        read_int_msgs: f16(w, "e"),
        read_new_msgs: f16(w, "f"),
        add_to_msg_groups: f16(w, "g"),
    };
    w.u(0, 8);
    let execute = WorkUnitsParamsExecute {
        prepare: f32(w, "a"),
        execute: f16(w, "b"),
        execute_err: f16(w, "c"),
        execute_delimiter: f32(w, "d"),
        serialize_enqueue: f16(w, "e"),
        serialize_dequeue: f16(w, "f"),
        insert_new_msgs: f16(w, "g"),
        subgroup_size: f16(w, "h"),
    };
    w.u(0, 8);
    let finalize = WorkUnitsParamsFinalize {
        build_transactions: f16(w, "a"),
        build_accounts: f16(w, "b"),
        build_in_msg: f16(w, "c"),
        build_out_msg: f16(w, "d"),
        serialize_min: f32(w, "e"),
        serialize_accounts: f16(w, "f"),
        serialize_msg: f16(w, "g"),
        state_update_min: f32(w, "h"),
        state_update_accounts: f16(w, "i"),
        state_update_msg: f16(w, "j"),
        create_diff: f16(w, "k"),
        serialize_diff: f16(w, "l"),
        apply_diff: f16(w, "m"),
        diff_tail_len: f16(w, "n"),
    };
    WorkUnitsParams { prepare, execute, finalize }
}
fn a_collation(w: &mut W) -> CollationConfig {
    w.u(0xa6, 8);
    CollationConfig {
        shuffle_mc_validators: fbit(w, "shuffle"),
        mc_block_min_interval_ms: f32(w, "min"),
        empty_sc_block_interval_ms: f32(w, "empty"),
        max_uncommitted_chain_length: f8(w, "chain"),
        wu_used_to_import_next_anchor: f64(w, "wu"),
        msgs_exec_params: a_msgs(w, 1),
        work_units_params: a_units(w),
    }
}
fn a_config(w: &mut W) -> ConsensusConfig {
    w.u(0xd8, 8);
    ConsensusConfig {
        clock_skew_millis: f16(w, "a"),
        payload_batch_bytes: f32(w, "b"),
        commit_history_rounds: f16(w, "c"),
        deduplicate_rounds: f16(w, "d"),
        max_consensus_lag_rounds: f16(w, "e"),
        payload_buffer_bytes: f32(w, "f"),
        broadcast_retry_millis: f16(w, "g"),
        download_retry_millis: f16(w, "h"),
        download_peers: f8(w, "i"),
        download_tasks: f16(w, "j"),
        sync_support_rounds: f16(w, "k"),
    }
}
fn a_pair(w: &mut W) -> (u32, u64) {
    (f32(w, "anchor"), f64(w, "offset"))
}
/// A dictionary with none, one or both of two keys, and its entries.
fn two<K: StoreDictKey, V: Store>(w: &mut W, keys: [(K, Vec<u8>); 2], mut value: impl FnMut(&mut W) -> V) -> Dict<K, V> {
    let mut d = Dict::<K, V>::new();
    let mut entries = Vec::new();
    for (k, b) in keys.into_iter().take(pick(2, "entries") as usize) {
        let mut x = W::new();
        let v = value(&mut x);
        must(d.set(k, &v), "set");
        entries.push((b, x));
    }
    if entries.is_empty() {
        w.bit(false);
    } else {
        dict_e(w, &entries);
    }
    d
}
fn shard_keys() -> [(ShardIdentFull, Vec<u8>); 2] {
    [(0i32, 1u64 << 63), (-1, 1u64 << 63)].map(|(workchain, prefix)| (ShardIdentFull { workchain, prefix }, key_w((workchain as u32 as u128) << 64 | prefix as u128, 96)))
}
fn num_keys() -> [(u32, Vec<u8>); 2] {
    [5u32, 0x9000_0000].map(|k| (k, key_w(k as u128, 32)))
}
fn a_range(w: &mut W) -> ExternalsRange {
    w.u(0, 8);
    ExternalsRange { from: a_pair(w), to: a_pair(w), chain_time: f64(w, "time"), skip_offset: f32(w, "skip"), processed_offset: f32(w, "processed") }
}
fn a_shard_range(w: &mut W) -> ShardRange {
    w.u(0, 8);
    ShardRange { from: f64(w, "from"), to: f64(w, "to") }
}
fn an_int_range(w: &mut W) -> InternalsRange {
    w.u(0, 8);
    InternalsRange { skip_offset: f32(w, "skip"), processed_offset: f32(w, "processed"), shards: two(w, shard_keys(), a_shard_range) }
}
fn externals(w: &mut W) -> ExternalsProcessedUpto {
    w.u(0, 8);
    ExternalsProcessedUpto { processed_to: a_pair(w), ranges: two(w, num_keys(), a_range) }
}
fn internals(w: &mut W) -> InternalsProcessedUpto {
    w.u(0, 8);
    InternalsProcessedUpto { processed_to: two(w, shard_keys(), |x| (f64(x, "lt"), fhash(x, "hash"))), ranges: two(w, num_keys(), an_int_range) }
}

harnesses! {
    fn ty_info() {
        let old = pick(1, "old") == 1;
        let f = any_u8("packed");
        let (mref, vref) = (any_bool("master"), any_bool("vertical"));
        let f = (f & 0x7e) | (mref as u8) << 7 | vref as u8;
        let soft = any_bool("software");
        let flags = any_u8("flags") & !1 | soft as u8;
        let mut w = lead(if old { 0x9bc7a987 } else { 0x9bc7a988 }, 32);
        let version = f32(&mut w, "version");
        w.u(f as u128, 8).u(flags as u128, 8);
        let (seqno, vert_seqno) = (f32(&mut w, "seqno"), f32(&mut w, "vert"));
        let shard = any_shard(&mut w);
        let gen_utime = f32(&mut w, "utime");
        let gen_utime_ms = if old { 0 } else { f16(&mut w, "ms") };
        let (start_lt, end_lt) = (f64(&mut w, "start"), f64(&mut w, "end"));
        let (a, b, c, d) = (f32(&mut w, "a"), f32(&mut w, "b"), f32(&mut w, "c"), f32(&mut w, "d"));
        let gen_software = if soft {
            w.u(0xc4, 8);
            GlobalVersion { version: f32(&mut w, "gen"), capabilities: GlobalCapabilities::new(f64(&mut w, "caps")) }
        } else {
            GlobalVersion::default()
        };
        if mref {
            w.cell(&tiny(1));
        }
        w.cell(&tiny(2));
        if vref {
            w.cell(&tiny(3));
        }
        let v = BlockInfo {
            version,
            after_merge: f & 0x40 != 0,
            before_split: f & 0x20 != 0,
            after_split: f & 0x10 != 0,
            want_split: f & 8 != 0,
            want_merge: f & 4 != 0,
            key_block: f & 2 != 0,
            flags,
            seqno,
            vert_seqno,
            shard,
            gen_utime,
            gen_utime_ms,
            start_lt,
            end_lt,
            gen_validator_list_hash_short: a,
            gen_catchain_seqno: b,
            min_ref_mc_seqno: c,
            prev_key_block_seqno: d,
            gen_software,
            master_ref: mref.then(|| lazy(1)),
            prev_ref: tiny(2),
            prev_vert_ref: vref.then(|| lazy(3)),
        };
        if seqno == 0 || vref && vert_seqno == 0 {
            wire_bad::<BlockInfo>(&w, "a block without a number is accepted");
            reach("no number");
        } else if old {
            check(wire_load::<BlockInfo>(&w) == v, "a block info of the older form loads differently");
            reach("older");
        } else {
            full(&v, &w, 32, &[0x9bc7a987, 0x9bc7a988]);
        }
    }
    fn ty_block() {
        let (update, ucell) = an_update();
        let mut w = lead(0x11ef55bb, 32);
        let global_id = f32(&mut w, "id") as i32;
        w.cell(&tiny(1)).cell(&tiny(2));
        let mut x = W::new();
        x.cell(&ucell).u(1, 4);
        let out_msg_queue_updates = OutMsgQueueUpdates { diff_hash: fhash(&mut x, "diff"), tail_len: f32(&mut x, "tail") };
        w.sub(x);
        w.cell(&tiny(4));
        let v = Block {
            global_id,
            info: lazy(1),
            value_flow: lazy(2),
            state_update: must(LazyExotic::new(&update), "lazy"),
            out_msg_queue_updates,
            extra: lazy(4),
        };
        check(v.load_state_update() == Ok(update), "another state update is loaded");
        full(&v, &w, 32, &[0x11ef55bb]);
    }
    fn ty_extra() {
        let old = pick(1, "old") == 1;
        let mut w = lead(if old { 0x4a33f6fd } else { 0x4a33f6fc }, 32);
        let custom = any_bool("custom");
        w.cell(&tiny(1)).cell(&tiny(2)).cell(&tiny(3));
        let v = BlockExtra {
            in_msg_description: lazy(1),
            out_msg_description: lazy(2),
            account_blocks: lazy(3),
            rand_seed: fhash(&mut w, "seed"),
            created_by: fhash(&mut w, "by"),
            custom: custom.then(|| lazy(4)),
        };
        w.opt_cell(&custom.then(|| tiny(4)));
        if old {
            let l: BlockExtra = wire_load(&w);
            check(l.rand_seed == v.rand_seed && l.created_by == v.created_by && l.custom == v.custom && l.in_msg_description == v.in_msg_description
                && l.out_msg_description == v.out_msg_description && l.account_blocks == v.account_blocks, "an extra of the older form loads differently");
            reach("older");
        } else {
            full_ne(&v, &w, 32, &[0x4a33f6fd, 0x4a33f6fc]);
        }
    }
    fn ty_descr() {
        let old = pick(1, "old") == 1;
        let at = pick(2, "at");
        let mut w = lead(if old { 0xb } else { 0xa }, 4);
        let (seqno, reg_mc_seqno) = (f32(&mut w, "seqno"), f32(&mut w, "reg"));
        let (start_lt, end_lt) = (f64(&mut w, "start"), f64(&mut w, "end"));
        let (root_hash, file_hash) = (fhash(&mut w, "root"), fhash(&mut w, "file"));
        let low = pick(1, "reserved") == 1;
        let f = if low { any_u8("flags") } else { any_u8("flags") & 0xfc };
        assume(!low || f & 3 != 0);
        w.u(f as u128, 8);
        let next_catchain_seqno = f32(&mut w, "cc");
        let ext_processed_to_anchor_id = f32(&mut w, "anchor");
        let (min_ref_mc_seqno, gen_utime) = (f32(&mut w, "min"), f32(&mut w, "utime"));
        w.bit(at != 0);
        let split_merge_at = (at != 0).then(|| {
            w.bit(at == 2);
            let (t, interval) = (f32(&mut w, "at"), f32(&mut w, "interval"));
            if at == 2 { FutureSplitMerge::Merge { merge_utime: t, interval } } else { FutureSplitMerge::Split { split_utime: t, interval } }
        });
        let mut c = W::new();
        let fees_collected = a_cc(&mut c, 5, false);
        let funds_created = a_cc(&mut c, 6, true);
        if old { w.join(&c); } else { w.sub(c); }
        let v = ShardDescription {
            seqno, reg_mc_seqno, start_lt, end_lt, root_hash, file_hash,
            before_split: f & 0x80 != 0,
            before_merge: f & 0x40 != 0,
            want_split: f & 0x20 != 0,
            want_merge: f & 0x10 != 0,
            nx_cc_updated: f & 0x08 != 0,
            top_sc_block_updated: f & 0x04 != 0,
            next_catchain_seqno,
            ext_processed_to_anchor_id,
            min_ref_mc_seqno, gen_utime, split_merge_at, fees_collected, funds_created,
        };
        if low {
            wire_bad::<ShardDescription>(&w, "reserved flags are accepted");
            reach("reserved");
            return;
        }
        let id = v.as_block_id(ShardIdent::BASECHAIN);
        check(id.seqno == seqno && id.root_hash == root_hash && id.file_hash == file_hash && id.shard == ShardIdent::BASECHAIN, "id of a described block");
        if old {
            check(wire_load::<ShardDescription>(&w) == v, "a description of the older form loads differently");
            reach("older");
            return;
        }
        // as a leaf of the shards of a workchain
        if pick(1, "listed") == 1 {
            let s = must(ShardHashes::from_shards([(&ShardIdent::BASECHAIN, &v)]), "a shard is not listed");
            let mut e = W::new();
            e.bit(false).join(&w);
            let root = must(s.as_dict().get(0).map_err(drop).and_then(|x| x.ok_or(())), "a workchain is lost");
            e.check(root.as_ref(), "a described shard is stored differently");
            let got: Vec<_> = s.latest_blocks().collect();
            check(got.len() == 1 && got[0] == Ok(id), "latest blocks");
            reach("listed");
            return;
        }
        full(&v, &w, 4, &[0xa, 0xb]);
    }
    fn ty_state() {
        let old = pick(1, "old") == 1;
        let (m, c, l) = (any_bool("master"), any_bool("custom"), any_bool("libraries"));
        let mut w = lead(if old { 0x9023afe2 } else { 0x9023aeee }, 32);
        let global_id = f32(&mut w, "id") as i32;
        let shard_ident = any_shard(&mut w);
        let (seqno, vert_seqno, gen_utime) = (f32(&mut w, "seqno"), f32(&mut w, "vert"), f32(&mut w, "utime"));
        let gen_utime_ms = if old { 0 } else { f16(&mut w, "ms") };
        let gen_lt = f64(&mut w, "lt");
        let min_ref_mc_seqno = f32(&mut w, "min");
        w.cell(&tiny(1));
        let before_split = fbit(&mut w, "split");
        w.cell(&tiny(2));
        let mut x = W::new();
        let (overload_history, underload_history) = (f64(&mut x, "over"), f64(&mut x, "under"));
        let total_balance = a_cc(&mut x, 3, c);
        let total_validator_fees = a_cc(&mut x, 4, l);
        let libs = l.then(|| tiny(5));
        x.opt_cell(&libs);
        x.bit(m);
        let master_ref = m.then(|| any_ref(&mut x));
        w.sub(x);
        w.opt_cell(&c.then(|| tiny(6)));
        let v = ShardStateUnsplit {
            global_id, shard_ident, seqno, vert_seqno, gen_utime, gen_utime_ms, gen_lt, min_ref_mc_seqno,
            processed_upto: lazy(1),
            before_split,
            accounts: lazy(2),
            overload_history, underload_history, total_balance, total_validator_fees,
            libraries: Dict::from_raw(libs),
            master_ref,
            custom: c.then(|| lazy(6)),
        };
        if old {
            check(wire_load::<ShardStateUnsplit>(&w) == v, "a state of the older form loads differently");
            reach("older");
        } else {
            full(&v, &w, 32, &[0x9023aeee, 0x9023afe2]);
        }
    }
    fn ty_mc() {
        let (last, stats) = [(false, false), (true, true), (true, false)][pick(2, "with") as usize];
        let zero = pick(1, "zerostate") == 1;
        let mut i = W::new();
        let consensus_info = if zero { ConsensusInfo::ZEROSTATE } else { a_consensus(&mut i) };
        check(consensus_info.is_zerostate() == (consensus_info == ConsensusInfo::default()), "zerostate");
        assume(zero || !consensus_info.is_zerostate());
        let mut w = lead(0xcc26, 16);
        let sh = stats.then(|| tiny(1));
        w.opt_cell(&sh);
        let config = BlockchainConfig { address: fhash(&mut w, "config"), params: BlockchainConfigParams::from_raw(tiny(2)) };
        w.cell(&tiny(2));
        let bad = pick(1, "bad flags") == 1;
        let own = stats as u16 | (!zero as u16) << 2;
        let flags = if bad { any_u16("flags") } else { own };
        assume(!bad || flags >> 3 != 0);
        let mut x = lead(flags as u128, 16);
        let validator_info = ValidatorInfo { validator_list_hash_short: f32(&mut x, "hash"), catchain_seqno: f32(&mut x, "cc"), nx_cc_updated: fbit(&mut x, "nx") };
        x.bit(false).bit(false).u(0, 64);
        let after_key_block = fbit(&mut x, "after");
        x.bit(last);
        let last_key_block = last.then(|| any_ref(&mut x));
        let st = (stats && last).then(|| tiny(4));
        if stats {
            x.u(0x17, 8).opt_cell(&st);
        }
        x.join(&i);
        w.sub(x);
        let global_balance = a_cc(&mut w, 5, stats);
        if bad {
            wire_bad::<McStateExtra>(&w, "unknown flags are accepted");
            reach("flags");
            return;
        }
        let v = McStateExtra {
            shards: ShardHashes::from_dict(Dict::from_raw(sh)),
            config,
            validator_info,
            consensus_info,
            prev_blocks: AugDict::new(),
            after_key_block,
            last_key_block,
            block_create_stats: stats.then(|| Dict::from_raw(st)),
            global_balance,
        };
        let l: McStateExtra = wire_load(&w);
        check(l.consensus_info == consensus_info, "another consensus info is loaded");
        full_ne(&v, &w, 16, &[0xcc26]);
    }
    fn ty_small() {
        let mut w = W::new();
        match pick(4, "what") {
            0 => {
                let v = a_consensus(&mut w);
                full(&v, &w, 0, &[]);
                reach("consensus");
            }
            1 => {
                let (a, b) = (a_genesis(&mut w), a_genesis(&mut W::new()));
                wire(&a, &w);
                check(a.overrides(&b) == (a.start_round >= b.start_round && a.genesis_millis > b.genesis_millis), "a later genesis");
                check(!a.overrides(&a), "a genesis overrides itself");
                reach("genesis");
            }
            2 => {
                w.u(1, 4);
                let v = OutMsgQueueUpdates { diff_hash: fhash(&mut w, "diff"), tail_len: f32(&mut w, "tail") };
                full(&v, &w, 4, &[1]);
                reach("updates");
            }
            3 => {
                w.u(0x12, 8);
                let validator_info = ValidatorBaseInfo { validator_list_hash_short: f32(&mut w, "hash"), catchain_seqno: f32(&mut w, "cc") };
                let consensus_info = a_consensus(&mut w);
                let (signature_count, total_weight) = (f32(&mut w, "count"), f64(&mut w, "weight"));
                let root = any_bool("signatures").then(|| tiny(3));
                w.opt_cell(&root);
                let v = BlockSignatures { validator_info, consensus_info, signature_count, total_weight, signatures: Dict::from_raw(root) };
                full_ne(&v, &w, 8, &[0x12]);
                reach("signatures");
            }
            _ => {
                let k = ShardIdentFull { workchain: any_u32("workchain") as i32, prefix: any_u64("prefix") };
                let mut d = Dict::<ShardIdentFull, u8>::new();
                must(d.set(&k, 7), "set");
                let got: Vec<_> = d.keys().collect();
                check(got.len() == 1 && got[0].as_ref().is_ok_and(|g| g.workchain == k.workchain && g.prefix == k.prefix), "a shard key is read differently");
                check(d.get(&k) == Ok(Some(7)), "a shard key is not found");
                reach("key");
            }
        }
    }
    fn ty_upto() {
        let mut w = W::new();
        match pick(5, "what") {
            0 => full_ne(&externals(&mut w), &w, 8, &[0]),
            1 => full_ne(&internals(&mut w), &w, 8, &[0]),
            2 => {
                w.u(0, 8);
                let keys = [3u16, 0x8001].map(|k| (k, key_w(k as u128, 16)));
                let partitions = two(&mut w, keys, |x| {
                    x.u(0, 8);
                    let (mut e, mut i) = (W::new(), W::new());
                    let p = ProcessedUptoPartition {
                        externals: ExternalsProcessedUpto { processed_to: { e.u(0, 8); a_pair(&mut e) }, ranges: { e.bit(false); Dict::new() } },
                        internals: InternalsProcessedUpto { processed_to: { i.u(0, 8).bit(false); Dict::new() }, ranges: { i.bit(false); Dict::new() } },
                    };
                    x.join(&e).join(&i);
                    p
                });
                let p = any_bool("params").then(|| tiny(7));
                w.opt_cell(&p);
                let v = ProcessedUptoInfo { partitions, msgs_exec_params: p.map(|c| must(Lazy::from_raw(c), "lazy")) };
                full_ne(&v, &w, 8, &[0]);
                reach("info");
            }
            3 => full_ne(&a_range(&mut w), &w, 8, &[0]),
            4 => full_ne(&an_int_range(&mut w), &w, 8, &[0]),
            _ => full_ne(&a_shard_range(&mut w), &w, 8, &[0]),
        }
    }
    fn ty_config() {
        let mut w = W::new();
        match pick(4, "what") {
            0 => {
                let v = a_config(&mut w);
                full(&v, &w, 8, &[0xd8]);
                reach("consensus");
            }
            1 => {
                let v = a_collation(&mut w);
                full(&v, &w, 8, &[0xa6]);
                reach("collation");
            }
            2 => {
                let v = a_msgs(&mut w, 1);
                full(&v, &w, 8, &[0, 1]);
                reach("messages");
            }
            3 => {
                let v = a_msgs(&mut w, 0);
                if pick(1, "cut") == 1 {
                    wire_cut::<MsgsExecutionParams>(&w);
                    return;
                }
                wire(&v, &w);
                // the newer form of the same value
                w.b.0[7] = 1;
                w.u(0, 32);
                check(wire_load::<MsgsExecutionParams>(&w) == v, "params of another form load differently");
                reach("older");
            }
            _ => {
                let v = a_units(&mut w);
                full(&v, &w, 8, &[0]);
                // the tag of a part
                let at = [8usize, 8 + 136, 8 + 136 + 168][pick(2, "part") as usize];
                let t = any_u8("part tag");
                assume(t != 0);
                for i in 0..8 {
                    w.b.0[at + i] = t >> (7 - i) & 1;
                }
                wire_bad::<WorkUnitsParams>(&w, "a wrong tag of a part is accepted");
                reach("units");
            }
        }
    }
    fn ty_params() {
        let mut c = BlockchainConfigParams::from_raw(must(CellBuilder::build_from(Dict::<u32, u8>::new()).map(|_| {
            let mut d = Dict::<u32, Cell>::new();
            must(d.set(0, must(CellBuilder::build_from(HashBytes([5; 32])), "cell")), "set");
            must(d.into_root().ok_or(()), "root")
        }), "config"));
        let (mut wl, mut wn) = (W::new(), W::new());
        let v = a_collation(&mut wl);
        let n = a_config(&mut wn);
        check(c.get_collation_config().is_err() && c.get_consensus_config().is_err(), "missing params are made up");
        must(c.set_collation_config(&v), "a param is not set");
        must(c.set_consensus_config(&n), "a param is not set");
        check(c.get_collation_config() == Ok(v.clone()) && c.get_consensus_config() == Ok(n.clone()), "params are read differently");
        check(c.get::<ConfigParam28>() == Ok(Some(v)) && c.get::<ConfigParam29>() == Ok(Some(n)), "params are read differently");
        wl.check(must(must(c.get_raw_cell(28), "raw").ok_or(()), "a param is lost").as_ref(), "a param is stored differently");
        wn.check(must(must(c.get_raw_cell(29), "raw").ok_or(()), "a param is lost").as_ref(), "a param is stored differently");
        reach("params");
    }
}
