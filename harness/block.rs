// Blocks, shard states and their parts: wire format, the rules on loading, the values read from them.
use crate::vp::*;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::merkle::*;
use tycho_types::models::*;
use tycho_types::num::*;
const TOP: bool = true;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/wire.rs"));
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/msg_gen.rs"));
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/dict_w.rs"));

fn f8(w: &mut W, n: &'static str) -> u8 {
    let v = any_u8(n);
    w.u(v as u128, 8);
    v
}
fn f32(w: &mut W, n: &'static str) -> u32 {
    let v = any_u32(n);
    w.u(v as u128, 32);
    v
}
fn f64(w: &mut W, n: &'static str) -> u64 {
    let v = any_u64(n);
    w.u(v as u128, 64);
    v
}
fn fbit(w: &mut W, n: &'static str) -> bool {
    let v = any_bool(n);
    w.bit(v);
    v
}
fn fhash(w: &mut W, n: &'static str) -> HashBytes {
    let h: [u8; 32] = any_bytes(n);
    w.by(&h, 256);
    HashBytes(h)
}
fn lead(tag: u128, n: usize) -> W {
    let mut w = W::new();
    w.u(tag, n);
    w
}
fn lazy<T>(tag: u8) -> Lazy<T> {
    must(Lazy::from_raw(tiny(tag)), "lazy")
}
/// Exact encoding; or cut; or any other tag of `n` bits.
fn full<T: Store + for<'a> Load<'a> + PartialEq>(v: &T, w: &W, n: usize, tags: &[u128]) {
    match pick(2, "mode") {
        0 => {
            wire(v, w);
            reach("exact");
        }
        1 => wire_cut::<T>(w),
        _ => other_tag::<T>(w, n, tags),
    }
}
/// As `full`, for types without equality.
fn full_ne<T: Store + for<'a> Load<'a>>(v: &T, w: &W, n: usize, tags: &[u128]) {
    match pick(2, "mode") {
        0 => {
            wire_store(v, w);
            wire_store(&wire_load::<T>(w), w);
            reach("exact again");
        }
        1 => wire_cut::<T>(w),
        _ => other_tag::<T>(w, n, tags),
    }
}
fn other_tag<T: for<'a> Load<'a>>(w: &W, n: usize, tags: &[u128]) {
    if n == 0 {
        return;
    }
    let t = any_u32("tag") as u128 & ((1 << n) - 1);
    for k in tags {
        assume(t != *k);
    }
    let mut x = w.clone();
    for i in 0..n {
        x.b.0[i] = (t >> (n - 1 - i) & 1) as u8;
    }
    wire_bad::<T>(&x, "a wrong tag is accepted");
    reach("tag");
}
fn any_shard(w: &mut W) -> ShardIdent {
    let len = [64usize, 0, 1, 60][pick(3, "shard") as usize];
    if len == 64 {
        w.u(0, 8).u(u32::MAX as u128, 32).u(0, 64);
        return ShardIdent::MASTERCHAIN;
    }
    let wc = any_u32("workchain");
    assume(wc != u32::MAX);
    let p = if len == 0 { 0 } else { any_u64("prefix") & (u64::MAX << (64 - len)) };
    w.u(len as u128, 8).u(wc as u128, 32).u(p as u128, 64);
    must(ShardIdent::new(wc as i32, p | 1 << (63 - len)).ok_or(()), "a shard is refused")
}
fn any_ref(w: &mut W) -> BlockRef {
    BlockRef { end_lt: f64(w, "lt"), seqno: f32(w, "seqno"), root_hash: fhash(w, "root"), file_hash: fhash(w, "file") }
}
/// A concrete reference.
fn a_ref(x: u8) -> (BlockRef, W) {
    let mut w = W::new();
    w.u(x as u128 * 7, 64).u(x as u128, 32).by(&[x; 32], 256).by(&[x ^ 0xff; 32], 256);
    (BlockRef { end_lt: x as u64 * 7, seqno: x as u32, root_hash: HashBytes([x; 32]), file_hash: HashBytes([x ^ 0xff; 32]) }, w)
}
/// Tokens of one byte, maybe with a raw dictionary of extra currencies `tag`.
fn a_cc(w: &mut W, tag: u8, extra: bool) -> CurrencyCollection {
    let tokens = any_tokens_n(w, 1, "tokens");
    let other = extra.then(|| tiny(tag));
    w.opt_cell(&other);
    CurrencyCollection { tokens, other: ExtraCurrencyCollection::from_raw(other) }
}
fn an_update() -> (MerkleUpdate, Cell) {
    let v = MerkleUpdate::default();
    let c = must(CellBuilder::build_from(&v), "an update is not stored");
    (v, c)
}
/// One entry of an augmented dictionary, root node.
fn aug_one(key: &[u8], extra: &W, value: &W) -> W {
    let mut w = W::new();
    w.b.append(&label_w(key, key.len()).0);
    w.join(extra).join(value);
    w
}

harnesses! {
    fn bk_info() {
        let f = any_u8("packed");
        // the references of the block: the masterchain, the vertical one
        let (mref, vref) = (any_bool("master"), any_bool("vertical"));
        let f = (f & 0x7e) | (mref as u8) << 7 | vref as u8;
        let soft = any_bool("software");
        let flags = any_u8("flags") & !1 | soft as u8;
        let mut w = lead(0x9bc7a987, 32);
        let version = f32(&mut w, "version");
        w.u(f as u128, 8).u(flags as u128, 8);
        let (seqno, vert_seqno) = (f32(&mut w, "seqno"), f32(&mut w, "vert"));
        let shard = any_shard(&mut w);
        let gen_utime = f32(&mut w, "utime");
        let (start_lt, end_lt) = (f64(&mut w, "start"), f64(&mut w, "end"));
        let (a, b, c, d) = (f32(&mut w, "a"), f32(&mut w, "b"), f32(&mut w, "c"), f32(&mut w, "d"));
        let gen_software = if soft {
            w.u(0xc4, 8);
            GlobalVersion { version: f32(&mut w, "gen"), capabilities: GlobalCapabilities::new(f64(&mut w, "caps")) }
        } else {
            GlobalVersion::default()
        };
        if mref {
            w.cell(&tiny(1));
        }
        w.cell(&tiny(2));
        if vref {
            w.cell(&tiny(3));
        }
        let mut v = BlockInfo {
            version,
            after_merge: f & 0x40 != 0,
            before_split: f & 0x20 != 0,
            after_split: f & 0x10 != 0,
            want_split: f & 8 != 0,
            want_merge: f & 4 != 0,
            key_block: f & 2 != 0,
            flags,
            seqno,
            vert_seqno,
            shard,
            gen_utime,
            start_lt,
            end_lt,
            gen_validator_list_hash_short: a,
            gen_catchain_seqno: b,
            min_ref_mc_seqno: c,
            prev_key_block_seqno: d,
            gen_software,
            master_ref: mref.then(|| lazy(1)),
            prev_ref: tiny(2),
            prev_vert_ref: vref.then(|| lazy(3)),
        };
        if seqno == 0 || vref && vert_seqno == 0 {
            wire_bad::<BlockInfo>(&w, "a block without a number is accepted");
            reach("no number");
            return;
        }
        match pick(3, "mode") {
            0 => {
                wire(&v, &w);
                reach("info");
            }
            1 => wire_cut::<BlockInfo>(&w),
            2 => other_tag::<BlockInfo>(&w, 32, &[0x9bc7a987]),
            _ => {
                let g = GlobalVersion { version: 9, capabilities: GlobalCapabilities::new(5) };
                v.set_gen_software(Some(g));
                check(v.gen_software == g && v.flags == flags | 1, "the software is not set");
                v.set_gen_software(None);
                check(v.gen_software == GlobalVersion::default() && v.flags == flags & !1, "the software is not removed");
                check(v.load_master_ref().is_err() == mref, "a broken masterchain reference");
                reach("software");
            }
        }
    }
    fn bk_prev() {
        let mut w = W::new();
        let r = any_ref(&mut w);
        let (other, ow) = a_ref(9);
        let mut v = BlockInfo::default();
        match pick(3, "mode") {
            0 => {
                full(&r, &w, 0, &[]);
                let id = r.as_block_id(ShardIdent::BASECHAIN);
                check(id.shard == ShardIdent::BASECHAIN && id.seqno == r.seqno && id.root_hash == r.root_hash && id.file_hash == r.file_hash, "a wrong block id");
                let d = Block::build_data_for_sign(&id);
                check(d[..4] == [0x70, 0x6e, 0x0b, 0xc5] && d[4..36] == r.root_hash.0 && d[36..] == r.file_hash.0, "wrong data to sign");
            }
            1 => {
                v.after_merge = false;
                let p = PrevBlockRef::Single(r.clone());
                v.set_prev_ref(&p);
                w.check(v.prev_ref.as_ref(), "the previous block is stored differently");
                wire_store(&p, &w);
                check(v.load_prev_ref() == Ok(p), "another previous block is loaded");
                v.set_prev_ref_single(&other);
                ow.check(v.prev_ref.as_ref(), "the previous block is stored differently");
                v.after_merge = true;
                check(v.load_prev_ref().is_err(), "one previous block after a merge");
                reach("single");
            }
            2 => {
                v.after_merge = true;
                let right = any_bool("right");
                let (left, right, lw, rw) = if right { (other, r, ow, w) } else { (r, other, w, ow) };
                let mut m = W::new();
                m.sub(lw).sub(rw);
                v.set_prev_ref_after_merge(&left, &right);
                m.check(v.prev_ref.as_ref(), "the previous blocks are stored differently");
                let p = PrevBlockRef::AfterMerge { left, right };
                let mut x = BlockInfo::default();
                x.set_prev_ref(&p);
                check(x.prev_ref == v.prev_ref, "the previous blocks are stored differently");
                wire_store(&p, &m);
                check(v.load_prev_ref() == Ok(p), "other previous blocks are loaded");
                v.after_merge = false;
                check(v.load_prev_ref().is_err(), "two previous blocks without a merge");
                reach("merge");
            }
            _ => {
                // master reference and the default
                v.master_ref = Some(must(Lazy::new(&r), "lazy"));
                check(v.load_master_ref() == Ok(Some(r)), "another masterchain block is loaded");
                v.master_ref = None;
                check(v.load_master_ref() == Ok(None), "a masterchain block is made up");
                let zero = BlockRef { end_lt: 0, seqno: 0, root_hash: HashBytes::ZERO, file_hash: HashBytes::ZERO };
                check(v.load_prev_ref() == Ok(PrevBlockRef::Single(zero)), "wrong default");
                reach("master");
            }
        }
    }
    fn bk_block() {
        let n = pick(3, "updates"); // none, no entry, one, two
        let (update, ucell) = an_update();
        let mut w = lead(if n == 0 { 0x11ef55aa } else { 0x11ef55bb }, 32);
        let global_id = f32(&mut w, "id") as i32;
        w.cell(&tiny(1)).cell(&tiny(2));
        let mut dict = Dict::<u32, LazyExotic<MerkleUpdate>>::new();
        if n == 0 {
            w.cell(&ucell);
        } else {
            let mut x = W::new();
            x.cell(&ucell);
            let mut e = Vec::new();
            for k in [3u32, 0x8000_0001].into_iter().take(n as usize - 1) {
                let mut v = W::new();
                v.cell(&ucell);
                e.push((key_w(k as u128, 32), v));
                must(dict.set(k, must(LazyExotic::<MerkleUpdate>::from_raw(ucell.clone()), "lazy")), "set");
            }
            dict_e(&mut x, &e);
            w.sub(x);
        }
        w.cell(&tiny(4));
        let v = Block {
            global_id,
            info: lazy(1),
            value_flow: lazy(2),
            state_update: must(LazyExotic::new(&update), "lazy"),
            out_msg_queue_updates: (n > 0).then_some(dict),
            extra: lazy(4),
        };
        check(v.load_state_update() == Ok(update), "another state update is loaded");
        check(v.load_info().is_err() && v.load_value_flow().is_err() && v.load_extra().is_err(), "broken parts are loaded");
        full(&v, &w, 32, &[0x11ef55aa, 0x11ef55bb]);
    }
    fn bk_parts() {
        // the parts of a block are those stored in it
        let mut i = BlockInfo::default();
        i.seqno = 1 + (any_u32("seqno") >> 1);
        let mut f = ValueFlow::default();
        f.minted.tokens = Tokens::new(any_u8("minted") as u128);
        let mut e = BlockExtra::default();
        e.rand_seed = HashBytes(any_bytes("seed"));
        let v = Block {
            global_id: 5,
            info: must(Lazy::new(&i), "lazy"),
            value_flow: must(Lazy::new(&f), "lazy"),
            state_update: must(LazyExotic::new(&MerkleUpdate::default()), "lazy"),
            out_msg_queue_updates: None,
            extra: must(Lazy::new(&e), "lazy"),
        };
        check(v.load_info() == Ok(i), "another block info is loaded");
        check(v.load_value_flow() == Ok(f), "another value flow is loaded");
        let x = must(v.load_extra(), "the extra is not loaded");
        check(x.rand_seed == e.rand_seed && x.created_by == e.created_by, "another extra is loaded");
        check(x.load_custom().is_ok_and(|c| c.is_none()), "a masterchain part is made up");
        check(x.load_in_msg_description().is_ok_and(|d| d.is_empty()), "inbound messages are made up");
        check(x.load_out_msg_description().is_ok_and(|d| d.is_empty()), "outbound messages are made up");
        check(x.account_blocks.load().is_ok_and(|d| d.is_empty()), "account blocks are made up");
        reach("parts");
    }
    fn bk_flow() {
        let burned = any_bool("burned");
        let at = pick(10, "extra"); // which amount has extra currencies; 10: none
        let zero_extra = at == 5 && any_bool("zero tokens");
        let mut w = lead(if burned { 0x3ebf98b7 } else { 0xb8e48dfb }, 32);
        let mut p = W::new();
        let mut q = W::new();
        let from_prev_block = a_cc(&mut p, 0, at == 0);
        let to_next_block = a_cc(&mut p, 1, at == 1);
        let imported = a_cc(&mut p, 2, at == 2);
        let exported = a_cc(&mut p, 3, at == 3);
        w.sub(p);
        let fees_collected = a_cc(&mut w, 4, at == 4);
        let b = if !burned {
            CurrencyCollection::ZERO
        } else if zero_extra {
            w.u(0, 4);
            w.opt_cell(&Some(tiny(5)));
            CurrencyCollection { tokens: Tokens::ZERO, other: ExtraCurrencyCollection::from_raw(Some(tiny(5))) }
        } else {
            a_cc(&mut w, 5, at == 5)
        };
        let fees_imported = a_cc(&mut q, 6, at == 6);
        let recovered = a_cc(&mut q, 7, at == 7);
        let created = a_cc(&mut q, 8, at == 8);
        let minted = a_cc(&mut q, 9, at == 9);
        w.sub(q);
        let v = ValueFlow {
            from_prev_block, to_next_block, imported, exported, fees_collected, burned: b, fees_imported, recovered, created, minted,
        };
        full(&v, &w, 32, &[0x3ebf98b7, 0xb8e48dfb]);
    }
    fn bk_validate() {
        let t = |n: &'static str| any_u8(n) as u128;
        let top = any_bool("top");
        let big = if top { (1u128 << 120) - 256 } else { 0 };
        let v = [t("0"), t("1"), t("2"), t("3"), t("4"), t("5"), t("6"), t("7"), t("8"), t("9")];
        let c = |x: u128| CurrencyCollection::new(x);
        let f = ValueFlow {
            from_prev_block: c(v[0] + big),
            to_next_block: c(v[1] + big),
            imported: c(v[2]),
            exported: c(v[3]),
            fees_collected: c(v[4]),
            burned: c(v[5]),
            fees_imported: c(v[6]),
            recovered: c(v[7]),
            created: c(v[8]),
            minted: c(v[9]),
        };
        let a = big + v[0] + v[2] + v[6] + v[7] + v[8] + v[9];
        let b = big + v[1] + v[3] + v[4] + v[5];
        let r = f.validate();
        if a >> 120 != 0 || b >> 120 != 0 {
            check(r.is_err(), "an overflowing flow is judged");
            reach("overflow");
        } else {
            check(r == Ok(a == b), "a wrong judgement of a flow");
            reach("judged");
        }
    }
    fn bk_flow_extra() {
        // extra currencies are balanced too
        let mut i = ExtraCurrencyCollection::new();
        let mut o = ExtraCurrencyCollection::new();
        let (a, b) = (any_u8("in"), any_u8("out"));
        assume(a != 0 && b != 0);
        let (k, l) = (pick(1, "k") as u32, pick(1, "l") as u32);
        must(i.as_dict_mut().set(k, VarUint248::new(a as u128)), "set");
        must(o.as_dict_mut().set(l, VarUint248::new(b as u128)), "set");
        let mut f = ValueFlow::default();
        let i = CurrencyCollection { tokens: Tokens::ZERO, other: i };
        let o = CurrencyCollection { tokens: Tokens::ZERO, other: o };
        match pick(5, "in") {
            0 => f.from_prev_block = i,
            1 => f.imported = i,
            2 => f.fees_imported = i,
            3 => f.created = i,
            4 => f.minted = i,
            _ => f.recovered = i,
        }
        match pick(3, "out") {
            0 => f.to_next_block = o,
            1 => f.exported = o,
            2 => f.fees_collected = o,
            _ => f.burned = o,
        }
        check(f.validate() == Ok(a == b && k == l), "a wrong judgement of extra currencies");
        reach("judged");
    }
    fn bk_extra() {
        let mut w = lead(0x4a33f6fd, 32);
        let custom = any_bool("custom");
        w.cell(&tiny(1)).cell(&tiny(2)).cell(&tiny(3));
        let v = BlockExtra {
            in_msg_description: lazy(1),
            out_msg_description: lazy(2),
            account_blocks: lazy(3),
            rand_seed: fhash(&mut w, "seed"),
            created_by: fhash(&mut w, "by"),
            custom: custom.then(|| lazy(4)),
        };
        w.opt_cell(&custom.then(|| tiny(4)));
        full_ne(&v, &w, 32, &[0x4a33f6fd]);
    }
    fn bk_account() {
        let mut w = lead(5, 4);
        let account = fhash(&mut w, "account");
        let key = 0x8000_0000_0000_0100u64;
        let mut e = W::new();
        let cc = a_cc(&mut e, 7, any_bool("extra"));
        let mut x = W::new();
        x.cell(&tiny(1));
        w.join(&aug_one(&key_w(key as u128, 64), &e, &x));
        w.cell(&tiny(2));
        let mut transactions = AugDict::new();
        if any_bool("none") {
            let v = AccountBlock { account, transactions, state_update: lazy(2) };
            check(CellBuilder::build_from(&v).is_err(), "an account block without transactions is stored");
            reach("none");
            return;
        }
        must(transactions.set(key, &cc, lazy::<Transaction>(1)), "set");
        let v = AccountBlock { account, transactions, state_update: lazy(2) };
        if pick(1, "load") == 1 {
            let got: AccountBlock = wire_load(&w);
            check(got.account == account && got.transactions == v.transactions && got.state_update == v.state_update, "another account block is loaded");
            check(*got.transactions.root_extra() == cc, "a wrong sum of an account block");
            reach("loaded");
        }
        full_ne(&v, &w, 4, &[5]);
    }
    fn bk_mc_extra() {
        let with = pick(3, "with");
        let (fees, sigs, recover, mint, config) = [(false, false, false, false, false), (true, true, true, true, true), (false, true, true, false, true), (true, false, false, true, false)][with as usize];
        let mut w = lead(0xcca5, 16);
        w.bit(config);
        // one workchain
        let mut sw = W::new();
        sw.cell(&tiny(1));
        let mut shards = Dict::<i32, Cell>::new();
        if fees {
            must(shards.set(0, tiny(1)), "set");
            dict_e(&mut w, &[(key_w(0, 32), sw)]);
        } else {
            w.bit(false);
        }
        let mut fd = ShardFees::new();
        if fees {
            let id = ShardIdentFull { workchain: -3, prefix: 0x8000_0000_0000_0001 };
            let mut e = W::new();
            let x = ShardFeeCreated { fees: a_cc(&mut e, 2, false), create: a_cc(&mut e, 3, false) };
            must(fd.set(id, &x, &x), "set");
            let mut key = key_w((-3i32) as u32 as u128, 32);
            key.extend(key_w(0x8000_0000_0000_0001, 64));
            w.bit(true).sub(aug_one(&key, &e, &e)).join(&e);
        } else {
            w.bit(false).u(0, 10);
        }
        let mut x = W::new();
        let mut sd = Dict::<u16, BlockSignature>::new();
        if sigs {
            let mut e = W::new();
            let node_id_short = fhash(&mut e, "node");
            let s: [u8; 64] = any_bytes("signature");
            e.u(5, 4).by(&s, 512);
            must(sd.set(77, BlockSignature { node_id_short, signature: Signature(s) }), "set");
            dict_e(&mut x, &[(key_w(77, 16), e)]);
        } else {
            x.bit(false);
        }
        x.opt_cell(&recover.then(|| tiny(4))).opt_cell(&mint.then(|| tiny(5)));
        w.sub(x);
        let c = config.then(|| BlockchainConfig { address: fhash(&mut w, "config"), params: BlockchainConfigParams::from_raw(tiny(6)) });
        if config {
            w.cell(&tiny(6));
        }
        let v = McBlockExtra {
            shards: ShardHashes::from_dict(shards),
            fees: fd,
            prev_block_signatures: sd,
            recover_create_msg: recover.then(|| lazy(4)),
            mint_msg: mint.then(|| lazy(5)),
            config: c,
        };
        check(v.load_recover_create_msg().is_err() == recover && v.load_mint_msg().is_err() == mint, "broken messages are loaded");
        full_ne(&v, &w, 16, &[0xcca5]);
    }
    // The weight of the listed validators that signed, each counted once.
    fn bk_signatures() {
        use ed25519_dalek::{Signer, SigningKey};
        let keys: Vec<SigningKey> = (1..=4u8).map(|i| SigningKey::from_bytes(&[i * 7; 32])).collect();
        // the key tag of the public schema and the key
        let id = |k: &SigningKey| {
            use sha2::Digest;
            let mut h = sha2::Sha256::new();
            h.update([0xc6, 0xb4, 0x13, 0x48]);
            h.update(k.verifying_key().as_bytes());
            let h: [u8; 32] = h.finalize().into();
            HashBytes(h)
        };
        let data = b"what the validators sign";
        let n = pick(3, "validators") as usize;
        let list: Vec<ValidatorDescription> = keys[..n].iter().map(|k| ValidatorDescription {
            public_key: HashBytes(*k.verifying_key().as_bytes()),
            weight: any_u32("weight") as u64,
            adnl_addr: None,
            mc_seqno_since: 0,
            prev_total_weight: 0,
        }).collect();
        let mut dict = Dict::<u16, BlockSignature>::new();
        let mut signed = [false; 4];
        let mut bad = false;
        for i in 0..pick(3, "signatures") {
            // one of four validators, or a wrong signature of the first one
            let who = pick(4, "signer") as usize;
            let k = &keys[who % 4];
            let mut s = k.sign(data).to_bytes();
            if who == 4 {
                s = if i == 0 { k.sign(b"something else").to_bytes() } else { keys[1].sign(data).to_bytes() };
                bad |= n > 0;
            }
            signed[who % 4] = true;
            must(dict.set(i as u16 * 3, BlockSignature { node_id_short: id(k), signature: Signature(s) }), "set");
        }
        match dict.check_signatures(&list, data) {
            Ok(w) => {
                check(!bad, "a wrong signature is accepted");
                let want: u64 = (0..n).filter(|i| signed[*i]).map(|i| list[i].weight).sum();
                check(w == want, "weight of the signatures");
                reach("signed");
            }
            Err(_) => {
                check(bad, "valid signatures are refused");
                reach("refused");
            }
        }
    }
    fn bk_verify() {
        use ed25519_dalek::{Signer, SigningKey};
        let k = SigningKey::from_bytes(&[9; 32]);
        let mut v = ValidatorDescription { public_key: HashBytes(*k.verifying_key().as_bytes()), weight: 1, adnl_addr: None, mc_seqno_since: 0, prev_total_weight: 0 };
        let n = pick(3, "length") as usize;
        let data = &[1u8, 2, 3][..n];
        let s = k.sign(data).to_bytes();
        check(v.verify_signature(data, &Signature(s)), "a valid signature is refused");
        let mut t = s;
        t[[0usize, 31, 32, 62][pick(3, "byte") as usize]] ^= 1 << pick(7, "bit");
        check(!v.verify_signature(data, &Signature(t)), "a changed signature is accepted");
        check(!v.verify_signature(&[1, 2, 3, 4], &Signature(s)), "a signature of other data is accepted");
        v.public_key.0 = *SigningKey::from_bytes(&[8; 32]).verifying_key().as_bytes();
        check(!v.verify_signature(data, &Signature(s)), "a signature of another key is accepted");
        reach("verified");
    }
    fn bk_small() {
        match pick(7, "kind") {
            0 => {
                let mut w = W::new();
                let v = ShardIdentFull { workchain: f32(&mut w, "wc") as i32, prefix: f64(&mut w, "prefix") };
                full_ne(&v, &w, 0, &[]);
                let s = ShardIdent::try_from(v.clone());
                check(s.as_ref().ok() == ShardIdent::new(v.workchain, v.prefix).as_ref(), "another shard");
                if let Ok(s) = s {
                    let b = ShardIdentFull::from(s);
                    check(b.workchain == v.workchain && b.prefix == v.prefix, "another full shard");
                    reach("shard");
                }
            }
            1 => {
                let mut w = W::new();
                let v = ShardFeeCreated { fees: any_cc(&mut w), create: any_cc(&mut w) };
                full(&v, &w, 0, &[]);
            }
            2 => {
                let mut w = W::new();
                let node_id_short = fhash(&mut w, "node");
                let s: [u8; 64] = any_bytes("signature");
                w.u(5, 4).by(&s, 512);
                full_ne(&BlockSignature { node_id_short, signature: Signature(s) }, &w, 0, &[]);
                let mut w = lead(5, 4);
                w.by(&s, 512);
                full(&Signature(s), &w, 4, &[5]);
            }
            3 => {
                let (a, b) = (any_bool("signatures"), any_bool("signed"));
                let mut w = lead(0xc3, 8);
                let shard = any_shard(&mut w);
                let proof_for = BlockId { shard, seqno: f32(&mut w, "seqno"), root_hash: fhash(&mut w, "root"), file_hash: fhash(&mut w, "file") };
                w.cell(&tiny(1));
                let mut signatures = None;
                w.bit(a);
                if a {
                    let bad = any_bool("bad");
                    let mut x = lead(if bad { 0x12 } else { 0x11 }, 8);
                    let validator_info = ValidatorBaseInfo { validator_list_hash_short: f32(&mut x, "hash"), catchain_seqno: f32(&mut x, "cc") };
                    let (signature_count, total_weight) = (f32(&mut x, "count"), f64(&mut x, "weight"));
                    let d = b.then(|| tiny(2));
                    x.opt_cell(&d);
                    w.sub(x);
                    if bad {
                        wire_bad::<BlockProof>(&w, "wrong signatures are accepted");
                        return;
                    }
                    signatures = Some(BlockSignatures { validator_info, signature_count, total_weight, signatures: Dict::from_raw(d) });
                }
                full_ne(&BlockProof { proof_for, root: tiny(1), signatures }, &w, 8, &[0xc3]);
                reach("proof");
            }
            4 => {
                let mut w = W::new();
                let v = ValidatorInfo { validator_list_hash_short: f32(&mut w, "hash"), catchain_seqno: f32(&mut w, "cc"), nx_cc_updated: fbit(&mut w, "nx") };
                full(&v, &w, 0, &[]);
            }
            5 => {
                let mut w = W::new();
                let v = KeyBlockRef { is_key_block: fbit(&mut w, "key"), block_ref: any_ref(&mut w) };
                full(&v, &w, 0, &[]);
            }
            6 => {
                let mut w = W::new();
                let v = KeyMaxLt { has_key_block: fbit(&mut w, "key"), max_end_lt: f64(&mut w, "lt") };
                full(&v, &w, 0, &[]);
            }
            _ => {
                let mut w = lead(4, 4);
                let mut c = || {
                    BlockCounters { updated_at: f32(&mut w, "at"), total: f64(&mut w, "total"), cnt2048: f64(&mut w, "2048"), cnt65536: f64(&mut w, "65536") }
                };
                let v = CreatorStats { mc_blocks: c(), shard_blocks: c() };
                full(&v, &w, 4, &[4]);
            }
        }
    }
    fn st_state() {
        let (m, c, l) = (any_bool("master"), any_bool("custom"), any_bool("libraries"));
        let mut w = lead(0x9023afe2, 32);
        let global_id = f32(&mut w, "id") as i32;
        let shard_ident = any_shard(&mut w);
        let (seqno, vert_seqno, gen_utime) = (f32(&mut w, "seqno"), f32(&mut w, "vert"), f32(&mut w, "utime"));
        let gen_lt = f64(&mut w, "lt");
        let min_ref_mc_seqno = f32(&mut w, "min");
        w.cell(&tiny(1));
        let before_split = fbit(&mut w, "split");
        w.cell(&tiny(2));
        let mut x = W::new();
        let (overload_history, underload_history) = (f64(&mut x, "over"), f64(&mut x, "under"));
        let total_balance = a_cc(&mut x, 3, c);
        let total_validator_fees = a_cc(&mut x, 4, l);
        let libs = l.then(|| tiny(5));
        x.opt_cell(&libs);
        x.bit(m);
        let master_ref = m.then(|| any_ref(&mut x));
        w.sub(x);
        w.opt_cell(&c.then(|| tiny(6)));
        let mut v = ShardStateUnsplit {
            global_id, shard_ident, seqno, vert_seqno, gen_utime, gen_lt, min_ref_mc_seqno,
            out_msg_queue_info: tiny(1),
            before_split,
            accounts: lazy(2),
            overload_history, underload_history, total_balance, total_validator_fees,
            libraries: Dict::from_raw(libs),
            master_ref,
            custom: c.then(|| lazy(6)),
        };
        if pick(2, "wrapped") == 0 {
            // either form
            let s = ShardState::Unsplit(v.clone());
            wire(&s, &w);
            reach("unsplit");
            check(v.load_custom().is_err() == c && v.load_accounts().is_err(), "broken parts are loaded");
            must(v.set_custom(None), "custom");
            check(v.custom.is_none() && v.load_custom().is_ok_and(|x| x.is_none()), "a masterchain part is kept");
            return;
        }
        full(&v, &w, 32, &[0x9023afe2]);
    }
    fn st_split() {
        let mut w = lead(0x5f327da5, 32);
        w.cell(&tiny(1)).cell(&tiny(2));
        let v = ShardStateSplit { left: lazy(1), right: lazy(2) };
        match pick(1, "wrapped") {
            0 => full(&v, &w, 32, &[0x5f327da5]),
            _ => {
                wire(&ShardState::Split(v), &w);
                other_tag::<ShardState>(&w, 32, &[0x5f327da5, 0x9023afe2]);
                check(CellBuilder::new().build().is_ok_and(|c| c.parse::<ShardState>().is_err()), "an empty state is accepted");
                reach("split");
            }
        }
    }
    fn st_lib() {
        let n = pick(2, "publishers");
        let mut d = Dict::<HashBytes, ()>::new();
        let mut e = Vec::new();
        for x in [0x01u8, 0x80].into_iter().take(n as usize) {
            must(d.set(HashBytes([x; 32]), ()), "set");
            let mut k = Vec::new();
            for _ in 0..32 {
                k.extend(key_w(x as u128, 8));
            }
            e.push((k, W::new()));
        }
        let v = LibDescr { lib: tiny(1), publishers: d };
        if n == 0 {
            check(CellBuilder::build_from(&v).is_err(), "a library without publishers is stored");
            reach("none");
            return;
        }
        let mut w = lead(0, 2);
        w.cell(&tiny(1)).join(&dict_w(&e, 0));
        if pick(1, "mode") == 1 {
            wire_cut::<LibDescr>(&w);
            other_tag::<LibDescr>(&w, 2, &[0]);
            return;
        }
        // the dictionary takes the rest of the cell
        wire_store(&v, &w);
        check(w.build().parse::<LibDescr>() == Ok(v), "another library is loaded");
        reach("library");
    }
    fn st_mc() {
        let (last, stats, blocks, extra) = [(false, false, false, false), (true, true, true, true), (true, false, true, false), (false, true, false, true)][pick(3, "with") as usize];
        let mut w = lead(0xcc26, 16);
        // shards
        let sh = stats.then(|| tiny(1));
        w.opt_cell(&sh);
        let config = BlockchainConfig { address: fhash(&mut w, "config"), params: BlockchainConfigParams::from_raw(tiny(2)) };
        w.cell(&tiny(2));
        let mut x = lead(stats as u128, 16);
        let validator_info = ValidatorInfo { validator_list_hash_short: f32(&mut x, "hash"), catchain_seqno: f32(&mut x, "cc"), nx_cc_updated: fbit(&mut x, "nx") };
        let mut prev_blocks = AugDict::<u32, KeyMaxLt, KeyBlockRef>::new();
        if blocks {
            let mut e = W::new();
            let k = KeyMaxLt { has_key_block: fbit(&mut e, "key"), max_end_lt: f64(&mut e, "lt") };
            let mut y = W::new();
            let b = KeyBlockRef { is_key_block: fbit(&mut y, "is key"), block_ref: any_ref(&mut y) };
            must(prev_blocks.set(1000u32, k, &b), "set");
            x.bit(true).sub(aug_one(&key_w(1000, 32), &e, &y)).join(&e);
        } else {
            x.bit(false).bit(false).u(0, 64);
        }
        let after_key_block = fbit(&mut x, "after");
        x.bit(last);
        let last_key_block = last.then(|| any_ref(&mut x));
        let st = (stats && blocks).then(|| tiny(4));
        let tag = if stats && pick(1, "stats tag") == 1 { any_u8("stats") } else { 0x17 };
        if stats {
            x.u(tag as u128, 8).opt_cell(&st);
        }
        let plain = x.clone();
        w.sub(x);
        let global_balance = a_cc(&mut w, 5, extra);
        if tag != 0x17 {
            wire_bad::<McStateExtra>(&w, "wrong block stats are accepted");
            reach("stats tag");
            return;
        }
        if any_bool("flags") {
            // unknown flags
            let f = any_u16("flags");
            assume(f >> 2 != 0);
            let mut p = plain;
            for i in 0..16 {
                p.b.0[i] = (f >> (15 - i) & 1) as u8;
            }
            let i = w.r.iter().position(|r| matches!(r, R::S(_))).unwrap();
            w.r[i] = R::S(p);
            wire_bad::<McStateExtra>(&w, "unknown flags are accepted");
            reach("flags");
            return;
        }
        let v = McStateExtra {
            shards: ShardHashes::from_dict(Dict::from_raw(sh)),
            config,
            validator_info,
            prev_blocks,
            after_key_block,
            last_key_block,
            block_create_stats: stats.then(|| Dict::from_raw(st)),
            global_balance,
        };
        let mut s = ShardStateUnsplit::default();
        if any_bool("inside") {
            for _ in 0..2 {
                must(s.set_custom(Some(&v)), "custom");
                let c = must(s.custom.as_ref().ok_or(()), "a masterchain part is lost");
                w.check(c.inner().as_ref(), "a masterchain part is stored differently");
                let got = must(must(s.load_custom(), "custom").ok_or(()), "a masterchain part is lost");
                check(got.global_balance == v.global_balance && got.validator_info == v.validator_info, "another masterchain part is loaded");
            }
            reach("inside");
            return;
        }
        full_ne(&v, &w, 16, &[0xcc26]);
    }
    fn caps() {
        let k = pick(7, "byte");
        let x = pick(255, "caps") << (8 * k);
        let x = if pick(1, "rest") == 1 { x | !(0xff << (8 * k)) } else { x };
        let c = GlobalCapabilities::new(x);
        check(c.into_inner() == x && c == x && u64::from(c) == x && GlobalCapabilities::from(x) == c, "other capabilities");
        check(c.len() == x.count_ones() as usize && c.is_empty() == (x == 0), "wrong number of capabilities");
        let known: u64 = 0x1_ffff_ffff & !(1 << 15);
        let (lo, hi) = c.iter().size_hint();
        let mut n = 0;
        let mut rest = x & known;
        let mut again = GlobalCapabilities::default();
        for k in c {
            let b = k as u64;
            check(b == rest & rest.wrapping_neg(), "capabilities out of order");
            rest &= !b;
            check(c.contains(k), "a listed capability is not contained");
            again |= k;
            n += 1;
        }
        check(rest == 0, "a capability is not listed");
        check(again == x & known, "other capabilities are collected");
        check(lo <= n && hi.is_none_or(|h| h >= n), "a wrong size hint");
        check(c.iter().collect::<GlobalCapabilities>() == again, "other capabilities are collected");
        let g = GlobalVersion { version: any_u32("version"), capabilities: c };
        let mut w = lead(0xc4, 8);
        w.u(g.version as u128, 32).u(x as u128, 64);
        wire(&g, &w);
        reach("caps");
    }
    fn oa_action() {
        match pick(4, "kind") {
            0 => {
                let mut w = lead(0x0ec3c86d, 32);
                let mode = SendMsgFlags::from_bits_retain(f8(&mut w, "mode"));
                w.cell(&tiny(1));
                full_ne(&OutAction::SendMsg { mode, out_msg: lazy(1) }, &w, 0, &[]);
            }
            1 => {
                let mut w = lead(0xad4de08e, 32);
                w.cell(&tiny(1));
                full_ne(&OutAction::SetCode { new_code: tiny(1) }, &w, 32, &[0x0ec3c86d, 0xad4de08e, 0x36e6b809, 0x26fa1dd4]);
            }
            2 => {
                let mut w = lead(0x36e6b809, 32);
                let mode = ReserveCurrencyFlags::from_bits_retain(f8(&mut w, "mode"));
                let value = any_cc(&mut w);
                full_ne(&OutAction::ReserveCurrency { mode, value }, &w, 0, &[]);
            }
            _ => {
                let mut w = lead(0x26fa1dd4, 32);
                let m = any_u8("mode") >> 1;
                let mode = ChangeLibraryMode::from_bits_retain(m);
                let hash = any_bool("hash");
                w.u(m as u128, 7).bit(!hash);
                let lib = if hash {
                    LibRef::Hash(fhash(&mut w, "lib"))
                } else {
                    w.cell(&tiny(1));
                    LibRef::Cell(tiny(1))
                };
                let v = OutAction::ChangeLibrary { mode, lib };
                if any_bool("load") {
                    let got: OutAction = wire_load(&w);
                    match (&got, &v) {
                        (OutAction::ChangeLibrary { mode: a, lib: LibRef::Hash(x) }, OutAction::ChangeLibrary { mode: b, lib: LibRef::Hash(y) }) => check(a == b && x == y, "another action is loaded"),
                        (OutAction::ChangeLibrary { mode: a, lib: LibRef::Cell(x) }, OutAction::ChangeLibrary { mode: b, lib: LibRef::Cell(y) }) => check(a == b && x == y, "another action is loaded"),
                        _ => check(false, "another action is loaded"),
                    }
                }
                full_ne(&v, &w, 0, &[]);
            }
        }
    }
    fn oa_list() {
        // newest first; a broken entry ends the list
        let n = pick(3, "n");
        let bad = pick(3, "bad"); // the broken position from the end of the list, if below n
        let kind = pick(3, "kind");
        let mut cell = Cell::default();
        for i in 0..n {
            let mut w = W::new();
            w.cell(&cell);
            if i == bad {
                match kind {
                    0 => w.u(any_u32("tag") as u128 & 0xff, 32),
                    1 => w.u(0xad4de08e, 31),
                    2 => w.u(0xad4de08e, 32), // no code
                    _ => {
                        w.r.clear(); // bits, but no list
                        w.u(0xad4de08e, 32)
                    }
                };
            } else {
                w.u(0xad4de08e, 32).cell(&tiny(i as u8));
            }
            cell = w.build();
        }
        let mut left = n;
        let mut it = OutActionsRevIter::new(must(cell.as_slice(), "slice"));
        let mut seen = 0;
        for _ in 0..n + 2 {
            let Some(a) = it.next() else { break };
            seen += 1;
            check(left > 0, "an action is made up");
            left -= 1;
            if left == bad {
                check(a.is_err(), "a broken action is listed");
                left = 0;
                reach("broken");
            } else {
                match a {
                    Ok(OutAction::SetCode { new_code }) => check(new_code == tiny(left as u8), "a wrong action is listed"),
                    _ => check(false, "an action is not listed"),
                }
            }
        }
        check(left == 0 && it.next().is_none() && it.next().is_none(), "the list does not end");
        check(seen == if bad < n { n - bad } else { n }, "a wrong number of actions");
        reach("listed");
    }
}
