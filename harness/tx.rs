// Accounts, transactions and their phases: wire format; the messages and statuses read from them.
use crate::vp::*;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;
use tycho_types::models::*;
use tycho_types::num::*;
const TOP: bool = true;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/wire.rs"));
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/msg_gen.rs"));

/// A variable length number of 56 bits (3 bit length) with exactly `n` bytes.
fn any_vu56(w: &mut W, n: usize, name: &'static str) -> VarUint56 {
    let v = if n == 0 { 0 } else { any_u64(name) & (u64::MAX >> (64 - 8 * n)) };
    if n > 0 {
        assume(v >> (8 * n - 1) == 1);
    }
    w.vu(v as u128, n, 3);
    VarUint56::new(v)
}
fn any_vu24(w: &mut W, n: usize, name: &'static str) -> VarUint24 {
    let v = if n == 0 { 0 } else { any_u32(name) & (u32::MAX >> (32 - 8 * n)) };
    if n > 0 {
        assume(v >> (8 * n - 1) == 1);
    }
    w.vu(v as u128, n, 2);
    VarUint24::new(v)
}
fn any_opt_tokens(w: &mut W, n: Option<usize>, name: &'static str) -> Option<Tokens> {
    w.bit(n.is_some());
    n.map(|n| any_tokens_n(w, n, name))
}
fn any_hash(w: &mut W, name: &'static str) -> HashBytes {
    let h: [u8; 32] = any_bytes(name);
    w.by(&h, 256);
    HashBytes(h)
}
fn any_used(w: &mut W, a: usize, b: usize) -> StorageUsedShort {
    StorageUsedShort { cells: any_vu56(w, a, "cells"), bits: any_vu56(w, b, "bits") }
}
fn any_change(w: &mut W, kind: u64) -> AccountStatusChange {
    match kind {
        0 => {
            w.bit(false);
            AccountStatusChange::Unchanged
        }
        1 => {
            w.u(0b10, 2);
            AccountStatusChange::Frozen
        }
        _ => {
            w.u(0b11, 2);
            AccountStatusChange::Deleted
        }
    }
}
fn any_status(w: &mut W, kind: u64) -> AccountStatus {
    let (t, s) = [
        (0b00, AccountStatus::Uninit),
        (0b01, AccountStatus::Frozen),
        (0b10, AccountStatus::Active),
        (0b11, AccountStatus::NotExists),
    ][kind as usize];
    w.u(t, 2);
    s
}
fn any_storage_phase(w: &mut W, due: Option<usize>, change: u64) -> StoragePhase {
    StoragePhase {
        storage_fees_collected: any_tokens_n(w, 3, "collected"),
        storage_fees_due: any_opt_tokens(w, due, "due"),
        status_change: any_change(w, change),
    }
}
fn any_credit_phase(w: &mut W, due: Option<usize>) -> CreditPhase {
    CreditPhase { due_fees_collected: any_opt_tokens(w, due, "due"), credit: any_cc(w) }
}
fn any_skipped(w: &mut W, kind: u64) -> SkippedComputePhase {
    let (t, n, reason) = [
        (0b00, 2, ComputePhaseSkipReason::NoState),
        (0b01, 2, ComputePhaseSkipReason::BadState),
        (0b10, 2, ComputePhaseSkipReason::NoGas),
        (0b110, 3, ComputePhaseSkipReason::Suspended),
    ][kind as usize];
    w.u(t, n);
    SkippedComputePhase { reason }
}
/// `credit`: bytes of the gas credit; `arg`: with an exit argument.
fn any_executed(w: &mut W, credit: Option<usize>, arg: bool) -> ExecutedComputePhase {
    let f = any_u8("flags") & 7;
    w.bit(true).u(f as u128, 3);
    let gas_fees = any_tokens_n(w, 2, "gas_fees");
    let mut s = W::new();
    let gas_used = any_vu56(&mut s, 7, "gas_used");
    let gas_limit = any_vu56(&mut s, 1, "gas_limit");
    s.bit(credit.is_some());
    let gas_credit = credit.map(|n| any_vu24(&mut s, n, "credit"));
    let mode = any_u8("mode");
    let code = any_u32("code");
    s.u(mode as u128, 8).u(code as u128, 32).bit(arg);
    let exit_arg = arg.then(|| {
        let v = any_u32("arg");
        s.u(v as u128, 32);
        v as i32
    });
    let vm_steps = any_u32("steps");
    s.u(vm_steps as u128, 32);
    let a = any_hash(&mut s, "init");
    let b = any_hash(&mut s, "final");
    w.sub(s);
    ExecutedComputePhase {
        success: f & 4 != 0,
        msg_state_used: f & 2 != 0,
        account_activated: f & 1 != 0,
        gas_fees,
        gas_used,
        gas_limit,
        gas_credit,
        mode: mode as i8,
        exit_code: code as i32,
        exit_arg,
        vm_steps,
        vm_init_state_hash: a,
        vm_final_state_hash: b,
    }
}
fn any_compute(w: &mut W, executed: bool, credit: Option<usize>, arg: bool) -> ComputePhase {
    if executed {
        ComputePhase::Executed(any_executed(w, credit, arg))
    } else {
        w.bit(false);
        ComputePhase::Skipped(any_skipped(w, if arg { 3 } else { 1 }))
    }
}
/// `opts`: bit 0 forward fees, 1 action fees, 2 result argument.
fn any_action(w: &mut W, opts: u64, change: u64) -> ActionPhase {
    let f = any_u8("action.flags") & 7;
    w.u(f as u128, 3);
    let status_change = any_change(w, change);
    let total_fwd_fees = any_opt_tokens(w, (opts & 1 != 0).then_some(1), "fwd");
    let total_action_fees = any_opt_tokens(w, (opts & 2 != 0).then_some(15), "act");
    let code = any_u32("result");
    w.u(code as u128, 32).bit(opts & 4 != 0);
    let result_arg = (opts & 4 != 0).then(|| {
        let v = any_u32("result.arg");
        w.u(v as u128, 32);
        v as i32
    });
    let mut n = [0u16; 4];
    for x in &mut n {
        *x = any_u16("count");
        w.u(*x as u128, 16);
    }
    let action_list_hash = any_hash(w, "list");
    ActionPhase {
        success: f & 4 != 0,
        valid: f & 2 != 0,
        no_funds: f & 1 != 0,
        status_change,
        total_fwd_fees,
        total_action_fees,
        result_code: code as i32,
        result_arg,
        total_actions: n[0],
        special_actions: n[1],
        skipped_actions: n[2],
        messages_created: n[3],
        action_list_hash,
        total_message_size: any_used(w, 1, 2),
    }
}
fn any_bounce(w: &mut W, kind: u64) -> BouncePhase {
    match kind {
        0 => {
            w.u(0b00, 2);
            BouncePhase::NegativeFunds
        }
        1 => {
            w.u(0b01, 2);
            BouncePhase::NoFunds(NoFundsBouncePhase { msg_size: any_used(w, 1, 7), req_fwd_fees: any_tokens_n(w, 4, "req") })
        }
        _ => {
            w.bit(true);
            BouncePhase::Executed(ExecutedBouncePhase {
                msg_size: any_used(w, 2, 0),
                msg_fees: any_tokens_n(w, 1, "msg"),
                fwd_fees: any_tokens_n(w, 2, "bounce.fwd"),
            })
        }
    }
}
fn any_state_of(w: &mut W, kind: u64) -> AccountState {
    match kind {
        0 => {
            w.u(0b00, 2);
            AccountState::Uninit
        }
        1 => {
            w.u(0b01, 2);
            AccountState::Frozen(any_hash(w, "frozen"))
        }
        2 => {
            w.bit(true);
            AccountState::Active(any_state(w, 0b01100))
        }
        _ => {
            w.bit(true);
            AccountState::Active(any_state(w, 0b11011))
        }
    }
}
fn any_info(w: &mut W, extra: bool, due: Option<usize>) -> StorageInfo {
    let used = StorageUsed { cells: any_vu56(w, 1, "cells"), bits: any_vu56(w, 2, "bits") };
    w.u(extra as u128, 3);
    let storage_extra = if extra { StorageExtra::DictHash(any_hash(w, "dict")) } else { StorageExtra::None };
    let last_paid = any_u32("paid");
    w.u(last_paid as u128, 32);
    StorageInfo { used, storage_extra, last_paid, due_payment: any_opt_tokens(w, due, "due") }
}
fn any_account(w: &mut W, addr: u64, state: u64, extra: bool) -> Account {
    let address = any_int(w, addr);
    let storage_stat = any_info(w, extra, extra.then_some(2));
    let last_trans_lt = any_u64("lt");
    w.u(last_trans_lt as u128, 64);
    let tokens = any_tokens_n(w, 5, "balance");
    w.bit(extra);
    let other = if extra {
        let c = tiny(9);
        w.cell(&c);
        ExtraCurrencyCollection::from_raw(Some(c))
    } else {
        ExtraCurrencyCollection::new()
    };
    Account { address, storage_stat, last_trans_lt, balance: CurrencyCollection { tokens, other }, state: any_state_of(w, state) }
}
fn opt<T>(w: &mut W, on: bool, f: impl FnOnce(&mut W) -> T) -> Option<T> {
    w.bit(on);
    on.then(|| f(w))
}
/// `m`: bit 0 storage, 1 credit, 2 compute executed, 3 action, 4 bounce.
fn any_ordinary(w: &mut W, m: u64) -> OrdinaryTxInfo {
    let f = any_u8("tx.flags") & 7;
    w.u(0, 4).bit(f & 4 != 0);
    let storage_phase = opt(w, m & 1 != 0, |w| any_storage_phase(w, Some(1), 1));
    let credit_phase = opt(w, m & 2 != 0, |w| any_credit_phase(w, None));
    let compute_phase = any_compute(w, m & 4 != 0, None, true);
    let action_phase = opt(w, m & 8 != 0, |w| {
        let mut s = W::new();
        let a = any_action(&mut s, 5, 2);
        w.sub(s);
        a
    });
    w.bit(f & 2 != 0);
    let bounce_phase = opt(w, m & 16 != 0, |w| any_bounce(w, 2));
    w.bit(f & 1 != 0);
    OrdinaryTxInfo {
        credit_first: f & 4 != 0,
        storage_phase,
        credit_phase,
        compute_phase,
        action_phase,
        aborted: f & 2 != 0,
        bounce_phase,
        destroyed: f & 1 != 0,
    }
}
fn any_ticktock(w: &mut W, m: u64) -> TickTockTxInfo {
    let f = any_u8("tx.flags") & 7;
    w.u(0b001, 3).bit(f & 4 != 0);
    let storage_phase = any_storage_phase(w, None, 0);
    let compute_phase = any_compute(w, m & 1 != 0, Some(3), false);
    let action_phase = opt(w, m & 2 != 0, |w| {
        let mut s = W::new();
        let a = any_action(&mut s, 2, 0);
        w.sub(s);
        a
    });
    w.bit(f & 2 != 0).bit(f & 1 != 0);
    TickTockTxInfo {
        kind: if f & 4 != 0 { TickTock::Tock } else { TickTock::Tick },
        storage_phase,
        compute_phase,
        action_phase,
        aborted: f & 2 != 0,
        destroyed: f & 1 != 0,
    }
}

harnesses! {
    /// Small records and enums.
    fn tx_small() {
        let mut w = W::new();
        match pick(7, "kind") {
            0 => {
                let (a, b) = [(0, 7), (1, 1), (7, 0), (4, 2)][pick(3, "bytes") as usize];
                let v = any_used(&mut w, a, b);
                wire(&v, &w);
                wire(&StorageUsed { cells: v.cells, bits: v.bits }, &w);
                wire_cut::<StorageUsed>(&w);
                reach("used");
            }
            1 => {
                let extra = any_bool("extra");
                let v = any_info(&mut w, extra, [None, Some(0), Some(15)][pick(2, "due") as usize]);
                wire(&v, &w);
                wire(&v.storage_extra, &{
                    let mut x = W::new();
                    x.u(extra as u128, 3);
                    if let StorageExtra::DictHash(h) = &v.storage_extra {
                        x.by(&h.0, 256);
                    }
                    x
                });
                wire_cut::<StorageInfo>(&w);
                reach("info");
            }
            2 => {
                let t = any_u8("tag") & 7;
                assume(t > 1);
                w.u(t as u128, 3).u(0, 256);
                wire_bad::<StorageExtra>(&w, "a wrong storage extra tag is accepted");
                reach("extra tag");
            }
            3 => {
                let v = any_status(&mut w, pick(3, "status"));
                wire(&v, &w);
                check(AccountStatus::BITS == 2, "status bits");
                wire_cut::<AccountStatus>(&w);
                reach("status");
            }
            4 => {
                let v = any_change(&mut w, pick(2, "change"));
                wire(&v, &w);
                wire_cut::<AccountStatusChange>(&w);
                reach("change");
            }
            5 => {
                let v = any_skipped(&mut w, pick(3, "skip"));
                wire(&v, &w);
                wire(&v.reason, &w);
                wire_cut::<ComputePhaseSkipReason>(&w);
                let mut x = W::new();
                x.u(0b111, 3);
                wire_bad::<ComputePhaseSkipReason>(&x, "a wrong skip reason is accepted");
                reach("skip");
            }
            6 => {
                let t = any_bool("tock");
                w.bit(t);
                wire(&if t { TickTock::Tock } else { TickTock::Tick }, &w);
                let f = any_u8("special") & 3;
                let mut x = W::new();
                x.u(f as u128, 2);
                wire(&SpecialFlags { tick: f & 2 != 0, tock: f & 1 != 0 }, &x);
                reach("ticktock");
            }
            _ => {
                w.u(0x72, 8);
                let v = HashUpdate { old: any_hash(&mut w, "old"), new: any_hash(&mut w, "new") };
                wire(&v, &w);
                wire_cut::<HashUpdate>(&w);
                let t = any_u8("tag");
                assume(t != 0x72);
                let mut x = W::new();
                x.u(t as u128, 8).by(&v.old.0, 256).by(&v.new.0, 256);
                wire_bad::<HashUpdate>(&x, "a wrong hash update tag is accepted");
                reach("hash update");
            }
        }
    }

    /// Phases with every combination of optional parts.
    fn tx_phases() {
        let mut w = W::new();
        match pick(4, "kind") {
            0 => {
                let due = [None, Some(0), Some(1), Some(15)][pick(3, "due") as usize];
                let v = any_storage_phase(&mut w, due, pick(2, "change"));
                wire(&v, &w);
                wire_cut::<StoragePhase>(&w);
                reach("storage");
            }
            1 => {
                let due = [None, Some(0), Some(1), Some(15)][pick(3, "due") as usize];
                let v = any_credit_phase(&mut w, due);
                wire(&v, &w);
                wire_cut::<CreditPhase>(&w);
                reach("credit");
            }
            2 => {
                let credit = [None, Some(0), Some(1), Some(3)][pick(3, "credit") as usize];
                let v = any_compute(&mut w, any_bool("executed"), credit, any_bool("arg"));
                wire(&v, &w);
                wire_cut::<ComputePhase>(&w);
                reach("compute");
            }
            3 => {
                let v = any_action(&mut w, pick(7, "opts"), pick(2, "change"));
                wire(&v, &w);
                wire_cut::<ActionPhase>(&w);
                reach("action");
            }
            _ => {
                let v = any_bounce(&mut w, pick(2, "bounce"));
                wire(&v, &w);
                wire_cut::<BouncePhase>(&w);
                reach("bounce");
            }
        }
    }

    /// The cell an executed compute phase refers to, cut short.
    fn tx_compute_cell() {
        let mut w = W::new();
        let v = any_executed(&mut w, Some(2), true);
        let mut good = W::new();
        good.b = w.b.clone();
        let R::S(inner) = w.r[0].clone() else { unreachable!() };
        good.sub(inner.clone());
        wire(&ComputePhase::Executed(v), &good);
        let n = inner.b.len();
        let mut x = inner;
        x.b.0.truncate(n - 1 - pick(if thorough() { n as u64 - 1 } else { 24 }, "cut") as usize * if thorough() { 1 } else { n / 25 });
        let mut bad = W::new();
        bad.b = w.b.clone();
        bad.sub(x);
        wire_bad::<ComputePhase>(&bad, "a truncated compute phase is accepted");
        reach("cut");
    }

    /// Ordinary and tick-tock descriptions.
    fn tx_info() {
        let mut w = W::new();
        if any_bool("ordinary") {
            let v = any_ordinary(&mut w, pick(31, "parts"));
            wire(&TxInfo::Ordinary(v.clone()), &w);
            check(TxInfo::from(v.clone()) == TxInfo::Ordinary(v.clone()), "info from an ordinary description");
            let mut x = W::new();
            x.b.append(&w.b.0[4..]);
            x.r = w.r.clone();
            wire(&v, &x);
            reach("ordinary");
        } else {
            let v = any_ticktock(&mut w, pick(3, "parts"));
            wire(&TxInfo::TickTock(v.clone()), &w);
            check(TxInfo::from(v.clone()) == TxInfo::TickTock(v.clone()), "info from a tick-tock description");
            let mut x = W::new();
            x.b.append(&w.b.0[3..]);
            x.r = w.r.clone();
            wire(&v, &x);
            reach("ticktock");
        }
    }

    /// Truncated or wrongly tagged descriptions.
    fn tx_info_bad() {
        let mut w = W::new();
        match pick(2, "kind") {
            0 => {
                any_ordinary(&mut w, 31);
                wire_cut::<TxInfo>(&w);
                reach("ordinary cut");
            }
            1 => {
                any_ticktock(&mut w, 3);
                wire_cut::<TxInfo>(&w);
                reach("ticktock cut");
            }
            _ => {
                any_ordinary(&mut w, 0);
                let t = any_u8("tag") & 15;
                assume(t != 0 && t >> 1 != 1);
                let mut x = W::new();
                x.u(t as u128, 4);
                x.b.append(&w.b.0[4..]);
                x.u(0, 200);
                x.cell(&tiny(1));
                wire_bad::<TxInfo>(&x, "a wrong description tag is accepted");
                reach("tag");
            }
        }
    }

    /// Accounts in all states, present or absent.
    fn tx_account() {
        let mut w = W::new();
        let state = pick(3, "state");
        let addr = pick(3, "address");
        let extra = any_bool("extra");
        let v = any_account(&mut w, addr, state, extra);
        wire(&v, &w);
        let status = [AccountStatus::Uninit, AccountStatus::Frozen, AccountStatus::Active, AccountStatus::Active][state as usize];
        check(v.state.status() == status, "status of an account state");
        let mut x = W::new();
        x.bit(true);
        x.join(&w);
        let o = OptionalAccount::from(v.clone());
        check(o == OptionalAccount(Some(v.clone())), "an account changes when wrapped");
        check(o.status() == status && o.last_trans_lt() == v.last_trans_lt, "an account changes when wrapped");
        check(*o.balance() == v.balance && o.state() == Some(&v.state), "an account changes when wrapped");
        wire(&o, &x);
        reach("account");
        if state == 2 {
            if addr == 0 && !extra {
                wire_cut::<OptionalAccount>(&x);
                reach("cut");
            }
        }
    }

    /// An absent account.
    fn tx_account_none() {
        let o = OptionalAccount::EMPTY;
        let mut w = W::new();
        w.bit(false);
        wire(&o, &w);
        check(o.status() == AccountStatus::NotExists, "status of an absent account");
        check(o.last_trans_lt() == 0 && *o.balance() == CurrencyCollection::ZERO && o.state().is_none(), "an absent account has contents");
        check(OptionalAccount::default() == o, "default account");
        reach("none");
    }

    /// Shard accounts: the lazily loaded account and its last transaction.
    fn tx_shard_account() {
        let some = any_bool("some");
        let mut a = W::new();
        a.bit(some);
        let acc = some.then(|| any_account(&mut a, 0, pick(2, "state"), false));
        let mut w = W::new();
        w.sub(a);
        let account = must(Lazy::new(&OptionalAccount(acc.clone())), "lazy account");
        let h = any_hash(&mut w, "hash");
        let lt = any_u64("lt");
        w.u(lt as u128, 64);
        let v = ShardAccount { account, last_trans_hash: h, last_trans_lt: lt };
        wire(&v, &w);
        check(must(v.load_account(), "a stored account is not loaded") == acc, "a shard account loads a different account");
        let l: ShardAccount = wire_load(&w);
        check(must(l.load_account(), "a stored account is not loaded") == acc, "a shard account loads a different account");
        wire_cut::<ShardAccount>(&w);
        reach("shard account");
    }

    /// Storage usage: unique cells and bits of the stored part of an account.
    fn tx_storage_used() {
        let leaf = |t: u8| {
            let mut b = CellBuilder::new();
            must(b.store_u8(t), "leaf");
            must(b.build(), "leaf")
        };
        let over = |t: u8, c: &Cell, d: &Cell| {
            let mut b = CellBuilder::new();
            must(b.store_u16(t as u16), "node");
            must(b.store_reference(c.clone()), "node");
            must(b.store_reference(d.clone()), "node");
            must(b.build(), "node")
        };
        let (x, y) = (leaf(pick(1, "x") as u8), leaf(pick(1, "y") as u8));
        let code = over(7, &x, &y);
        let data = match pick(2, "data") {
            0 => code.clone(),
            1 => x.clone(),
            _ => over(8, &y, &code),
        };
        let same = x.repr_hash() == y.repr_hash();
        let state = pick(2, "state");
        let bytes = pick(15, "bytes") as usize;
        let tokens = if bytes == 0 { 0 } else { 0x80u128 << (8 * bytes - 8) };
        // (cells, bits) of the root and what it refers to
        let mut cells = 1u64;
        let mut bits = 64 + 4 + 8 * bytes as u64 + 1;
        let state = match state {
            0 => {
                bits += 2;
                AccountState::Uninit
            }
            1 => {
                bits += 2 + 256;
                AccountState::Frozen(HashBytes([3; 32]))
            }
            _ => {
                bits += 1 + 5;
                // code, x and y
                cells += 1 + if same { 1 } else { 2 };
                bits += 16 + if same { 8 } else { 16 };
                if data.bit_len() == 16 && data.repr_hash() != code.repr_hash() {
                    cells += 1;
                    bits += 16;
                }
                AccountState::Active(StateInit { code: Some(code), data: Some(data), ..Default::default() })
            }
        };
        let account = Account {
            address: IntAddr::Std(StdAddr::new(any_u8("workchain") as i8, HashBytes([1; 32]))),
            storage_stat: StorageInfo::default(),
            last_trans_lt: pick(1, "lt"),
            balance: CurrencyCollection::new(tokens),
            state,
        };
        let limit = pick(6, "limit") as usize;
        let r = StorageUsed::compute(&account, limit);
        if (limit as u64) < cells {
            check(r == Err(Error::Cancelled), "storage use is computed past its limit");
            reach("limit");
        } else {
            let r = must(r, "storage use is not computed");
            check(r.cells.into_inner() == cells, "storage use counts a wrong number of cells");
            check(r.bits.into_inner() == bits, "storage use counts a wrong number of bits");
            reach("computed");
        }
    }

    /// Transactions.
    fn tx_wire() {
        let mut w = W::new();
        w.u(0b0111, 4);
        let account = any_hash(&mut w, "account");
        let lt = any_u64("lt");
        w.u(lt as u128, 64);
        let prev_trans_hash = any_hash(&mut w, "prev");
        let prev_trans_lt = any_u64("prev.lt");
        let now = any_u32("now");
        let n = any_u16("count") & 0x7fff;
        w.u(prev_trans_lt as u128, 64).u(now as u128, 32).u(n as u128, 15);
        let s = pick(3, "status");
        let orig_status = any_status(&mut w, s);
        let end_status = any_status(&mut w, 3 - s);
        let in_msg = any_bool("in").then(|| tiny(1));
        let out = any_bool("out").then(|| tiny(2));
        let mut m = W::new();
        m.opt_cell(&in_msg).opt_cell(&out);
        w.sub(m);
        let total_fees = any_cc(&mut w);
        let mut u = W::new();
        u.u(0x72, 8);
        let update = HashUpdate { old: any_hash(&mut u, "old"), new: any_hash(&mut u, "new") };
        w.sub(u);
        let mut i = W::new();
        let info = if any_bool("ordinary") {
            TxInfo::Ordinary(any_ordinary(&mut i, 20))
        } else {
            TxInfo::TickTock(any_ticktock(&mut i, 0))
        };
        w.sub(i);
        let v = Transaction {
            account,
            lt,
            prev_trans_hash,
            prev_trans_lt,
            now,
            out_msg_count: Uint15::new(n),
            orig_status,
            end_status,
            in_msg,
            out_msgs: Dict::from_raw(out),
            total_fees,
            state_update: must(Lazy::new(&update), "lazy update"),
            info: must(Lazy::new(&info), "lazy info"),
        };
        wire(&v, &w);
        let l: Transaction = wire_load(&w);
        check(must(l.load_info(), "a stored description is not loaded") == info, "a transaction loads a different description");
        check(must(l.state_update.load(), "a stored update is not loaded") == update, "a transaction loads a different state update");
        reach("transaction");
    }

    /// Truncated and wrongly tagged transactions.
    fn tx_wire_bad() {
        let mut w = W::new();
        let t = any_u8("tag") & 15;
        w.u(t as u128, 4);
        any_hash(&mut w, "account");
        w.u(any_u64("lt") as u128, 64);
        any_hash(&mut w, "prev");
        w.u(any_u64("plt") as u128, 64).u(any_u32("now") as u128, 32).u(any_u16("count") as u128 & 0x7fff, 15);
        any_status(&mut w, 1);
        any_status(&mut w, 2);
        let mut m = W::new();
        m.opt_cell(&Some(tiny(1))).opt_cell(&Some(tiny(2)));
        let cut = any_bool("cut messages");
        if cut {
            if any_bool("bits") {
                m.b.0.truncate(pick(1, "keep") as usize);
            } else {
                m.r.truncate(pick(1, "keep") as usize);
            }
        }
        w.sub(m);
        any_tokens_n(&mut w, 3, "fees");
        w.bit(true).cell(&tiny(3)).cell(&tiny(4)).cell(&tiny(5));
        if t != 0b0111 {
            wire_bad::<Transaction>(&w, "a wrong transaction tag is accepted");
            reach("tag");
        } else if cut {
            wire_bad::<Transaction>(&w, "a transaction with truncated messages is accepted");
            reach("messages");
        } else {
            wire_cut::<Transaction>(&w);
            reach("cut");
        }
    }

    /// Inbound message and outbound messages, in order.
    fn tx_messages() {
        let ids = [0u16, 3, 0x7fff];
        let present = pick(7, "present");
        let mut out = Dict::<Uint15, Cell>::new();
        let msg = |k: u8, bad: bool| -> (W, Option<ExtInMsgInfo>) {
            let mut w = W::new();
            if bad {
                w.u(0b1, 1);
                return (w, None);
            }
            // external inbound message without state and with an empty body
            w.u(0b10, 2).u(0b00, 2);
            let dst = any_std(&mut w, 0);
            let fee = any_tokens_n(&mut w, k as usize + 1, "fee");
            w.bit(false).bit(false);
            (w, Some(ExtInMsgInfo { src: None, dst: IntAddr::Std(dst), import_fee: fee }))
        };
        let bad_at = pick(3, "bad");
        let mut expect = Vec::new();
        for k in [2usize, 0, 1] {
            if present >> k & 1 != 0 {
                let (w, info) = msg(k as u8, bad_at == k as u64);
                must(out.set(Uint15::new(ids[k]), w.build()), "set");
                expect.push((k, info));
            }
        }
        expect.sort_by_key(|e| e.0);
        let (inw, ininfo) = msg(3, bad_at == 3 && present == 0);
        let in_msg = any_bool("in").then(|| inw.build());
        let tx = Transaction {
            account: HashBytes([0; 32]),
            lt: 0,
            prev_trans_hash: HashBytes([0; 32]),
            prev_trans_lt: 0,
            now: 0,
            out_msg_count: Uint15::new(0),
            orig_status: AccountStatus::Active,
            end_status: AccountStatus::Active,
            in_msg: in_msg.clone(),
            out_msgs: out,
            total_fees: CurrencyCollection::ZERO,
            state_update: Lazy::from_raw(tiny(1)).unwrap_or_else(|_| unreachable!()),
            info: Lazy::from_raw(tiny(2)).unwrap_or_else(|_| unreachable!()),
        };
        match (in_msg, ininfo) {
            (None, _) => check(matches!(tx.load_in_msg(), Ok(None)), "an inbound message from nothing"),
            (Some(_), None) => {
                check(tx.load_in_msg().is_err(), "a broken inbound message is accepted");
                reach("bad in");
            }
            (Some(_), Some(i)) => {
                let m = must(must(tx.load_in_msg(), "an inbound message is not loaded").ok_or(()), "an inbound message is lost");
                check(m.info == MsgInfo::ExtIn(i), "a different inbound message is loaded");
                check(m.init.is_none() && m.body.is_empty(), "a different inbound message is loaded");
                reach("in");
            }
        }
        let mut it = tx.iter_out_msgs();
        for (_, e) in expect {
            let got = must(it.next().ok_or(()), "an outbound message is lost");
            match e {
                None => {
                    check(got.is_err(), "a broken outbound message is accepted");
                    check(it.next().is_none(), "the iteration goes on after an error");
                    reach("bad out");
                    return;
                }
                Some(i) => {
                    let m = must(got, "an outbound message is not loaded");
                    check(m.info == MsgInfo::ExtIn(i), "outbound messages are out of order");
                    check(m.init.is_none() && m.body.is_empty(), "a different outbound message is loaded");
                }
            }
        }
        check(it.next().is_none(), "an outbound message from nothing");
        reach("all out");
    }
}
