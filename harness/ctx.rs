// Operations on cells and dictionaries that are given the caller's cell context: libraries resolved by
// it, refusals at any point, and every new cell built by it.
use crate::vp::*;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/dict_model.rs"));
use std::cell::{Cell as Slot, RefCell};
use tycho_types::boc::Boc;
use tycho_types::merkle::*;
use tycho_types::models::*;
use tycho_types::num::*;

/// Resolves the library cell with the hash `[i; 32]` to `real[i]`, refuses the call number `refuse`
/// and remembers the cells it has built.
struct Ctx {
    real: Vec<Cell>,
    refuse: u64,
    calls: Slot<u64>,
    keep: bool,
    built: RefCell<Vec<Cell>>,
}
impl Ctx {
    fn new(real: Vec<Cell>, refuse: u64, keep: bool) -> Self {
        Ctx { real, refuse, calls: Slot::new(0), keep, built: RefCell::new(Vec::new()) }
    }
    fn step(&self) -> Result<(), Error> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if n == self.refuse { Err(Error::Cancelled) } else { Ok(()) }
    }
    fn find(&self, c: &DynCell) -> Option<&Cell> {
        if c.cell_type() != CellType::LibraryReference {
            return None;
        }
        let mut raw = [0u8; 33];
        let s = CellSlice::new_allow_exotic(c);
        must(s.get_raw(0, &mut raw, 264));
        self.real.get(raw[1] as usize)
    }
}
impl CellContext for Ctx {
    fn finalize_cell(&self, parts: CellParts<'_>) -> Result<Cell, Error> {
        self.step()?;
        let c = Cell::empty_context().finalize_cell(parts)?;
        if self.keep {
            self.built.borrow_mut().push(c.clone());
        }
        Ok(c)
    }
    fn load_cell(&self, cell: Cell, mode: LoadMode) -> Result<Cell, Error> {
        self.step()?;
        match self.find(cell.as_ref()) {
            Some(c) if mode.resolve() => Ok(c.clone()),
            _ => Ok(cell),
        }
    }
    fn load_dyn_cell<'s: 'a, 'a>(&'s self, cell: &'a DynCell, mode: LoadMode) -> Result<&'a DynCell, Error> {
        self.step()?;
        match self.find(cell) {
            Some(c) if mode.resolve() => Ok(c.as_ref()),
            _ => Ok(cell),
        }
    }
}

fn addr(c: &DynCell) -> usize {
    c as *const DynCell as *const u8 as usize
}
fn collect(c: &DynCell, out: &mut Vec<usize>) {
    out.push(addr(c));
    for r in c.references() {
        collect(r, out);
    }
}
/// Every cell below `c` is an old one, or was built by the context.
fn check_built(c: &DynCell, old: &[usize], x: &Ctx, msg: &'static str) {
    let a = addr(c);
    if old.contains(&a) {
        return;
    }
    let ours = x.built.borrow().iter().any(|b| addr(b.as_ref()) == a);
    check(ours || a == addr(Cell::empty_cell_ref()), msg);
    for r in c.references() {
        check_built(r, old, x, msg);
    }
}
/// The tree with its libraries replaced by what they stand for.
fn expand(c: &DynCell, x: &Ctx) -> Cell {
    let c = match x.find(c) {
        Some(c) => c.as_ref(),
        None => c,
    };
    let mut b = CellBuilder::new();
    b.set_exotic(c.is_exotic());
    must(b.store_cell_data(c));
    for r in c.references() {
        must(b.store_reference(expand(r, x)));
    }
    must(b.build())
}
fn same_cell(a: &DynCell, b: &DynCell) -> bool {
    a.bit_len() == b.bit_len()
        && a.cell_type() == b.cell_type()
        && a.reference_count() == b.reference_count()
        && {
            let mut d = 0;
            for (x, y) in a.data().iter().zip(b.data()) {
                d |= x ^ y;
            }
            d == 0
        }
        && a.references().zip(b.references()).all(|(x, y)| same_cell(x, y))
}
fn same_root(a: &Option<Cell>, b: &Option<Cell>, x: &Ctx) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same_cell(a.as_ref(), expand(b.as_ref(), x).as_ref()),
        _ => false,
    }
}

const N: u16 = 4;
/// The dictionaries all operations start from.
fn state(i: u64) -> Entries {
    let vals: [u8; 4] = any_bytes("values");
    let keys: &[u64] = match i {
        0 => &[],
        1 => &[5],
        2 => &[1, 9],
        3 => &[0, 3, 12],
        _ => &[2, 3, 8, 15],
    };
    keys.iter().zip(vals).map(|(k, v)| (key_bits(*k, N as usize), Val::u8(v))).collect()
}
fn num_cell(k: u64, n: u16) -> Cell {
    let mut b = CellBuilder::new();
    must(b.store_uint(k, n));
    must(b.build())
}
/// What an operation answered: plain numbers and dictionaries.
#[derive(Default)]
struct Out {
    n: Vec<u64>,
    roots: Vec<Option<Cell>>,
}
impl Out {
    fn slice(&mut self, s: Option<CellSlice<'_>>) {
        match s {
            None => self.n.push(0),
            Some(s) => {
                self.n.push(1 + s.size_bits() as u64 + 1024 * s.size_refs() as u64);
                self.n.push(must(s.get_u8(0)) as u64);
            }
        }
    }
    fn parts(&mut self, p: Option<CellSliceParts>) {
        match p {
            None => self.n.push(0),
            Some((range, cell)) => {
                let s = must(range.apply(&cell));
                self.slice(Some(s));
            }
        }
    }
    fn key(&mut self, k: &CellDataBuilder) {
        self.n.push(must(k.as_data_slice().get_uint(0, N)));
        self.n.push(k.size_bits() as u64);
    }
}
/// A change of a dictionary.
fn change(op: u64, root: &mut Option<Cell>, k: u64, v: u8, x: &dyn CellContext) -> Result<Out, Error> {
    if op >= 7 {
        return typed(op - 7, root, k, v, x);
    }
    let key = num_cell(k, N);
    let s = must(key.as_slice());
    let mut d = RawDict::<N>::from(root.take());
    let mut o = Out::default();
    let r = match op {
        0 => d.set_ext(s, &v, x).map(|r| o.n.push(r as u64)),
        1 => d.replace_ext(s, &v, x).map(|r| o.n.push(r as u64)),
        2 => d.add_ext(s, &v, x).map(|r| o.n.push(r as u64)),
        3 => d.remove_ext(s, x).map(|r| o.parts(r)),
        4 => {
            let bound = if k & 1 == 0 { DictBound::Min } else { DictBound::Max };
            d.remove_bound_ext(bound, k & 2 != 0, x).map(|r| match r {
                None => o.n.push(0),
                Some((key, p)) => {
                    o.key(&key);
                    o.parts(Some(p));
                }
            })
        }
        5 => {
            let mut s = s;
            let mode = match v & 3 {
                0 => SetMode::Set,
                1 => SetMode::Replace,
                _ => SetMode::Add,
            };
            let mut r = d.into_root();
            let got = dict_insert_owned(&mut r, &mut s, N, &v, mode, x);
            d = RawDict::from(r);
            got.map(|(c, p)| {
                o.n.push(c as u64);
                o.parts(p);
            })
        }
        _ => {
            let mut r = d.into_root();
            let list = [(k, Some(v)), (k + 2, None), (15, Some(7))];
            let list = if k < 13 { &list[..] } else { &list[..1] };
            let got = dict_modify_from_sorted_iter(&mut r, list.iter(), |(k, _)| Key(*k), |(_, v)| Ok(*v), x);
            d = RawDict::from(r);
            got.map(|c| o.n.push(c as u64))
        }
    };
    *root = d.into_root();
    r.map(|()| o)
}
/// The same changes through the typed dictionary.
fn typed(op: u64, root: &mut Option<Cell>, k: u64, v: u8, x: &dyn CellContext) -> Result<Out, Error> {
    let mut d = Dict::<Key, u8>::from_raw(root.take());
    let mut o = Out::default();
    let r = match op {
        0 => d.set_ext(Key(k), v, x).map(|r| o.n.push(r as u64)),
        1 => d.replace_ext(Key(k), v, x).map(|r| o.n.push(r as u64)),
        2 => d.add_ext(Key(k), v, x).map(|r| o.n.push(r as u64)),
        3 => d.remove_raw_ext(Key(k), x).map(|r| o.parts(r)),
        4 => {
            let bound = if k & 1 == 0 { DictBound::Min } else { DictBound::Max };
            d.remove_bound_raw_ext(bound, k & 2 != 0, x).map(|r| match r {
                None => o.n.push(0),
                Some((key, p)) => {
                    o.n.push(key.0);
                    o.parts(Some(p));
                }
            })
        }
        _ => {
            let list = [(k, Some(v)), (15, None)];
            d.modify_with_sorted_iter_ext(list[..1 + (k < 15) as usize].iter(), |(k, _)| Key(*k), |(_, v)| Ok(*v), x).map(|c| o.n.push(c as u64))
        }
    };
    *root = d.into_root();
    r.map(|()| o)
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Key(u64);
impl DictKey for Key {
    const BITS: u16 = N;
}
impl StoreDictKey for Key {
    fn store_into_data(&self, d: &mut CellDataBuilder) -> Result<(), Error> {
        d.store_uint(self.0, N)
    }
}
impl LoadDictKey for Key {
    fn load_from_data(d: &CellDataBuilder) -> Option<Self> {
        d.as_data_slice().get_uint(0, N).ok().map(Key)
    }
}
/// A question to a dictionary.
fn query(op: u64, t: u64, root: &Option<Cell>, k: u64, x: &dyn CellContext) -> Result<Out, Error> {
    let key = num_cell(k, N);
    let s = must(key.as_slice());
    let d = RawDict::<N>::from(root.clone());
    let mut o = Out::default();
    let (signed, bound) = (k & 2 != 0, if k & 1 == 0 { DictBound::Min } else { DictBound::Max });
    match op {
        0 => o.slice(d.get_ext(s, x)?),
        1 => o.parts(d.get_owned_ext(s, x)?),
        2 => {
            if let Some((key, v)) = d.get_bound_ext(bound, signed, x)? {
                o.key(&key);
                o.slice(Some(v));
            }
        }
        3 => {
            if let Some((key, v)) = d.get_bound_owned_ext(bound, signed, x)? {
                o.key(&key);
                o.parts(Some(v));
            }
        }
        4 => {
            let to = if t & 1 == 0 { DictBound::Max } else { DictBound::Min };
            let (inclusive, signed) = (t & 2 != 0, t & 4 != 0);
            if let Some((key, v)) = dict_find_owned(root.as_ref(), N, s, to, inclusive, signed, x)? {
                o.key(&key);
                o.parts(Some(v));
            }
        }
        5 => {
            let (a, b) = d.split_ext(x)?;
            o.roots = vec![a.into_root(), b.into_root()];
        }
        7 => {
            let (a, b) = must(d.split());
            if a.root().is_some() && b.root().is_some() {
                o.roots = vec![dict_merge_siblings(a.root(), b.root(), N, x)?];
            }
        }
        9 => {
            let (a, b) = must(d.split());
            let (a, b) = (Dict::<Key, u8>::from_raw(a.into_root()), Dict::<Key, u8>::from_raw(b.into_root()));
            if !a.is_empty() && !b.is_empty() {
                o.roots = vec![a.merge_with_right_sibling_ext(&b, x)?.into_root()];
            }
        }
        10 => {
            if let Some(c) = root {
                o.roots = vec![Dict::<Key, u8>::load_from_root_ext(&mut must(c.as_slice()), x)?.into_root()];
            }
        }
        11 => {
            let (a, b) = Dict::<Key, u8>::from_raw(root.clone()).split_ext(x)?;
            o.roots = vec![a.into_root(), b.into_root()];
        }
        12 => {
            let p = num_cell(k >> 2, 2);
            let (a, b) = Dict::<Key, u8>::from_raw(root.clone()).split_by_prefix_ext(&must(p.as_slice()), x)?;
            o.roots = vec![a.into_root(), b.into_root()];
        }
        8 => {
            if let Some(c) = root {
                o.roots = vec![RawDict::<N>::load_from_root_ext(&mut must(c.as_slice()), x)?.into_root()];
            }
        }
        _ => {
            let p = num_cell(k >> 2, 2);
            let (a, b) = d.split_by_prefix_ext(&must(p.as_slice()), x)?;
            o.roots = vec![a.into_root(), b.into_root()];
        }
    }
    Ok(o)
}
/// The dictionary with some of its cells moved into libraries: bit 0 the root, bits 1 and 2 its branches.
fn libraries(root: &Option<Cell>, which: u64, real: &mut Vec<Cell>) -> Option<Cell> {
    let mut lib = |c: Cell| {
        real.push(c);
        CellBuilder::build_library(&HashBytes([real.len() as u8 - 1; 32]))
    };
    let mut c = root.clone()?;
    if c.reference_count() == 2 {
        let mut b = CellBuilder::new();
        must(b.store_cell_data(c.as_ref()));
        for i in 0..2u8 {
            let r = c.reference_cloned(i).unwrap();
            must(b.store_reference(if which >> (i + 1) & 1 != 0 { lib(r) } else { r }));
        }
        c = must(b.build());
    }
    Some(if which & 1 != 0 { lib(c) } else { c })
}

/// An augmentation: a sum, with a child cell when it is odd.
#[derive(Default, Clone, Copy, PartialEq, Eq, Debug)]
struct Sum(u32);
impl Store for Sum {
    fn store_into(&self, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
        b.store_u32(self.0)
    }
}
impl<'a> Load<'a> for Sum {
    fn load_from(s: &mut CellSlice<'a>) -> Result<Self, Error> {
        s.load_u32().map(Sum)
    }
}
impl AugDictExtra for Sum {
    fn comp_add(l: &mut CellSlice, r: &mut CellSlice, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
        b.store_u32(l.load_u32()?.wrapping_add(r.load_u32()?))
    }
}
fn aug(n: u64, vals: &[u8]) -> AugDict<Key, Sum, u8> {
    let mut d = AugDict::new();
    for i in 0..n {
        must(d.set(Key(i * 5), Sum(vals[i as usize] as u32), vals[i as usize]));
    }
    d
}
fn aug_change(op: u64, d: &mut AugDict<Key, Sum, u8>, k: u64, v: u8, x: &dyn CellContext) -> Result<u64, Error> {
    match op {
        0 => d.set_ext(Key(k), Sum(v as u32), v, x).map(|b| b as u64),
        1 => d.replace_ext(Key(k), Sum(v as u32), v, x).map(|b| b as u64),
        2 => d.add_ext(Key(k), Sum(v as u32), v, x).map(|b| b as u64),
        3 => match d.remove_raw_ext(Key(k), x)? {
            None => Ok(0),
            Some((range, cell)) => {
                let s = must(range.apply(&cell));
                check(s.size_bits() == 40 && s.size_refs() == 0, "what is removed");
                Ok(1 + must(s.get_uint(0, 40)))
            }
        },
        4 => {
            let list = [(k, Some((Sum(v as u32), v))), (15, None)];
            d.modify_with_sorted_iter_ext(list[..1 + (k < 15) as usize].iter(), |(k, _)| Key(*k), |(_, v)| Ok(*v), x).map(|b| b as u64)
        }
        5 => {
            let (a, b) = d.split_ext(x)?;
            *d = if k & 1 != 0 { a } else { b };
            Ok(2)
        }
        7 => {
            let p = num_cell(k & 1, 1);
            let (a, b) = d.split_by_prefix_ext(&must(p.as_slice()), x)?;
            *d = if k & 2 != 0 { a } else { b };
            Ok(5)
        }
        8 => {
            if let Some(c) = d.dict().root() {
                *d = AugDict::load_from_root_ext(&mut must(c.as_slice()), x)?;
            }
            Ok(6)
        }
        _ => {
            let (a, b) = d.split()?;
            if a.is_empty() || b.is_empty() {
                return Ok(3);
            }
            // as siblings, the halves keep the whole key
            *d = a.merge_with_right_sibling_ext(&b, x)?;
            Ok(4)
        }
    }
}
/// A value that is stored with at least one new cell, and the number of new cells.
fn model(what: u64) -> (Box<dyn Store>, u64) {
    let mut c = CellBuilder::new();
    must(c.store_u32(any_u32("body")));
    must(c.store_reference(num_cell(3, 7)));
    let body = must(c.build());
    let phase = || ActionPhase {
        success: true,
        valid: any_bool("valid"),
        no_funds: false,
        status_change: AccountStatusChange::Unchanged,
        total_fwd_fees: None,
        total_action_fees: Some(Tokens::new(1 << 119)),
        result_code: any_u32("code") as i32,
        result_arg: None,
        total_actions: 1,
        special_actions: 0,
        skipped_actions: 0,
        messages_created: 1,
        action_list_hash: HashBytes([1; 32]),
        total_message_size: StorageUsedShort::ZERO,
    };
    let compute = || ComputePhase::Executed(ExecutedComputePhase {
        success: true,
        msg_state_used: any_bool("state used"),
        account_activated: false,
        gas_fees: Tokens::ZERO,
        gas_used: VarUint56::new(1 << 55),
        gas_limit: VarUint56::ZERO,
        gas_credit: None,
        mode: 0,
        exit_code: any_u32("exit") as i32,
        exit_arg: None,
        vm_steps: 3,
        vm_init_state_hash: HashBytes([2; 32]),
        vm_final_state_hash: HashBytes([3; 32]),
    });
    let storage = StoragePhase { storage_fees_collected: Tokens::ZERO, storage_fees_due: None, status_change: AccountStatusChange::Unchanged };
    match what {
        0 => {
            let init = any_bool("init in a cell");
            let m = OwnedMessage {
                info: MsgInfo::ExtIn(ExtInMsgInfo { src: None, dst: IntAddr::Std(StdAddr::new(0, HashBytes([7; 32]))), import_fee: Tokens::ZERO }),
                init: Some(StateInit::default()),
                body: CellSliceParts::from(body.clone()),
                layout: Some(MessageLayout { init_to_cell: init, body_to_cell: true }),
            };
            (Box::new(m), if init { 1 } else { 0 })
        }
        1 => (Box::new(ValueFlow { exported: CurrencyCollection::new(any_u64("exported") as u128 | 1 << 119), ..Default::default() }), 2),
        2 => (
            Box::new(TickTockTxInfo {
                kind: TickTock::Tick,
                storage_phase: storage,
                compute_phase: compute(),
                action_phase: Some(phase()),
                aborted: false,
                destroyed: any_bool("destroyed"),
            }),
            2,
        ),
        3 => (
            Box::new(OrdinaryTxInfo {
                credit_first: true,
                storage_phase: Some(storage),
                credit_phase: None,
                compute_phase: compute(),
                action_phase: Some(phase()),
                aborted: false,
                bounce_phase: None,
                destroyed: any_bool("destroyed"),
            }),
            2,
        ),
        4 => (
            Box::new(BlockProof {
                proof_for: BlockId { shard: ShardIdent::MASTERCHAIN, seqno: any_u32("seqno"), root_hash: HashBytes([1; 32]), file_hash: HashBytes([2; 32]) },
                root: body,
                signatures: Some(BlockSignatures {
                    validator_info: ValidatorBaseInfo { validator_list_hash_short: 1, catchain_seqno: 2 },
                    signature_count: 3,
                    total_weight: any_u64("weight"),
                    signatures: Dict::new(),
                }),
            }),
            1,
        ),
        _ => (
            Box::new(McStateExtra {
                shards: ShardHashes::from_dict(Dict::new()),
                config: BlockchainConfig::new_empty(HashBytes([any_u8("config"); 32])),
                validator_info: ValidatorInfo { validator_list_hash_short: 1, catchain_seqno: 2, nx_cc_updated: any_bool("updated") },
                prev_blocks: AugDict::new(),
                after_key_block: false,
                last_key_block: None,
                block_create_stats: None,
                global_balance: CurrencyCollection::new(1 << 119),
            }),
            1,
        ),
    }
}
struct Only(Vec<HashBytes>);
impl MerkleFilter for Only {
    fn check(&self, h: &HashBytes) -> FilterAction {
        if self.0.contains(h) { FilterAction::Include } else { FilterAction::Skip }
    }
}
fn leaf(v: u8, r: &[&Cell]) -> Cell {
    let mut b = CellBuilder::new();
    must(b.store_u8(v));
    for r in r {
        must(b.store_reference((*r).clone()));
    }
    must(b.build())
}

harnesses! {
    /// Every question about a dictionary some cells of which are libraries has the answer of the plain one.
    fn cx_query() {
        let e = state(pick(4, "dictionary"));
        let plain = make_tree(&e);
        let mut real = Vec::new();
        let lib = libraries(&plain, pick(7, "libraries"), &mut real);
        let k = any_upto(15, "key");
        let op = [0, 1, 2, 3, 4, 5, 6, 11, 12][pick(8, "question") as usize];
        let t = if op == 4 { pick(7, "search") } else { 0 };
        let x = Ctx::new(real, u64::MAX, true);
        match ((query(op, t, &plain, k, Cell::empty_context()), query(op, t, &lib, k, &x)), op) {
            ((Ok(a), Ok(b)), _) => {
                check(a.n == b.n, "libraries change the answer");
                check(a.roots.len() == b.roots.len(), "libraries change the parts");
                for (p, l) in a.roots.iter().zip(&b.roots) {
                    check(same_root(p, l, &x), "libraries change the parts");
                }
                reach("answered");
            }
            ((Err(a), Err(b)), _) => {
                check(a == b && (op == 6 || op == 12), "an unexpected error");
                reach("refused");
            }
            _ => check(false, "libraries change the outcome"),
        }
    }
    /// Every change of a dictionary some cells of which are libraries is the change of the plain one, and
    /// all new cells are built by the context.
    fn cx_change() {
        let e = state(pick(4, "dictionary"));
        let mut plain = make_tree(&e);
        let mut real = Vec::new();
        let mut lib = libraries(&plain, pick(7, "libraries"), &mut real);
        let (k, v) = (any_upto(15, "key"), any_u8("value"));
        let op = pick(12, "change");
        // bulk changes do not look behind libraries
        assume(op != 6 && op != 12 || real.is_empty());
        let x = Ctx::new(real, u64::MAX, true);
        let mut old = Vec::new();
        for c in lib.iter().chain(&x.real) {
            collect(c.as_ref(), &mut old);
        }
        let a = change(op, &mut plain, k, v, Cell::empty_context());
        let b = change(op, &mut lib, k, v, &x);
        match (a, b) {
            (Ok(a), Ok(b)) => {
                check(a.n == b.n, "libraries change the answer");
                check(same_root(&plain, &lib, &x), "libraries change the result");
                if let Some(c) = &lib {
                    check_built(c.as_ref(), &old, &x, "a cell is built behind the back of the context");
                }
                reach("changed");
            }
            _ => check(false, "a change fails"),
        }
    }
    /// A refusal of the context, at whatever call, is reported and leaves the dictionary as it was.
    fn cx_refuse() {
        let e = state(pick(4, "dictionary"));
        let mut root = make_tree(&e);
        let (k, v) = (any_upto(15, "key"), any_u8("value"));
        let op = pick(25, "operation");
        let t = if op == 17 { pick(7, "search") } else { 0 };
        let before = root.as_ref().map(|c| addr(c.as_ref()));
        let x = Ctx::new(Vec::new(), pick(11, "call"), false);
        let live = heap_live();
        let failed = {
            let r = if op < 13 { change(op, &mut root, k, v, &x) } else { query(op - 13, t, &root, k, &x) };
            match r {
                Ok(o) => {
                    check(x.calls.get() <= x.refuse, "a refusal is ignored");
                    if (20..24).contains(&op) {
                        check(o.roots.iter().all(|r| same_root(&root, r, &x)), "another dictionary");
                    }
                    false
                }
                Err(e) => {
                    check(e == Error::Cancelled && x.calls.get() == x.refuse + 1 || (op == 19 || op == 25) && e == Error::CellUnderflow, "another error");
                    true
                }
            }
        };
        if failed {
            check(root.as_ref().map(|c| addr(c.as_ref())) == before, "a refused change is kept");
            check_tree(&root, &e, "a refused change spoils the dictionary");
            check(heap_live() == live, "a refusal leaks memory");
            reach("refused");
        } else {
            check(x.calls.get() < 12, "more calls than the harness refuses");
            reach("done");
        }
    }
    /// Changes of augmented dictionaries with a context: as without one, built by it, and undone when it refuses.
    fn cx_aug() {
        let vals: [u8; 4] = any_bytes("values");
        let n = pick(3, "entries");
        let (mut plain, mut d) = (aug(n, &vals), aug(n, &vals));
        let (k, v, op) = (any_upto(15, "key"), any_u8("value"), pick(8, "change"));
        let refuse = pick(11, "call");
        let x = Ctx::new(Vec::new(), refuse, true);
        let mut old = Vec::new();
        if let Some(c) = d.dict().root() {
            collect(c.as_ref(), &mut old);
        }
        let before = (d.dict().root().as_ref().map(|c| addr(c.as_ref())), *d.root_extra());
        match aug_change(op, &mut d, k, v, &x) {
            Ok(r) => {
                check(x.calls.get() <= refuse, "a refusal is ignored");
                let p = aug_change(op, &mut plain, k, v, Cell::empty_context());
                check(p == Ok(r), "the context changes the answer");
                check(plain.root_extra() == d.root_extra(), "the context changes the total");
                check(same_root(plain.dict().root(), d.dict().root(), &x), "the context changes the result");
                if let (true, Some(c)) = (op < 6 || op > 6, d.dict().root()) {
                    check_built(c.as_ref(), &old, &x, "a cell is built behind the back of the context");
                }
                reach("changed");
            }
            Err(e) if x.calls.get() > refuse => {
                check(e == Error::Cancelled && x.calls.get() == refuse + 1, "another error");
                let after = (d.dict().root().as_ref().map(|c| addr(c.as_ref())), *d.root_extra());
                check(before == after, "a refused change is kept");
                reach("refused");
            }
            Err(e) => {
                check(op == 7 && aug_change(op, &mut plain, k, v, Cell::empty_context()) == Err(e), "an unexpected error");
                reach("failed");
            }
        }
    }
    /// Values stored with a context: the same cells as without one, all new ones built by it, its refusals reported.
    fn cx_store() {
        let (m, new) = model(pick(5, "value"));
        let plain = must(CellBuilder::build_from(&*m));
        let refuse = pick(4, "call");
        let x = Ctx::new(Vec::new(), refuse, true);
        match pick(1, "how") {
            0 => match CellBuilder::build_from_ext(&*m, &x) {
                Ok(c) => {
                    check(x.calls.get() == new + 1 && x.calls.get() <= refuse, "a cell is built behind the back of the context");
                    check(same_cell(plain.as_ref(), c.as_ref()), "the context changes the value");
                    reach("stored");
                }
                Err(e) => {
                    check(e == Error::Cancelled && refuse <= new && x.calls.get() == refuse + 1, "another error");
                    reach("refused");
                }
            },
            _ => {
                let mut b = CellBuilder::new();
                match m.store_into(&mut b, &x) {
                    Ok(()) => {
                        check(x.calls.get() == new && x.calls.get() <= refuse, "a cell is built behind the back of the context");
                        check(same_cell(plain.as_ref(), must(b.build()).as_ref()), "the context changes the value");
                    }
                    Err(e) => check(e == Error::Cancelled && refuse < new && x.calls.get() == refuse + 1, "another error"),
                }
            }
        }
    }
    /// Proofs, updates and bags of cells made with a context: as without one, built by it, its refusals reported.
    fn cx_tree() {
        let vals: [u8; 3] = any_bytes("data");
        let (a, b) = (leaf(1, &[]), leaf(vals[0] | 2, &[&leaf(3, &[])]));
        let root = leaf(4, &[&a, &b]);
        let next = leaf(5, &[&a, &leaf(6, &[&b])]);
        let refuse = pick(9, "call");
        let x = Ctx::new(Vec::new(), refuse, true);
        let live = heap_live();
        let mut old = Vec::new();
        collect(root.as_ref(), &mut old);
        collect(next.as_ref(), &mut old);
        let used = if pick(1, "second branch is used") == 1 { b.clone() } else { a.clone() };
        let filter = Only(vec![*root.repr_hash(), *next.repr_hash(), *used.repr_hash()]);
        let (got, plain): (Result<Cell, Error>, Cell) = match pick(5, "what") {
            0 => (
                MerkleProof::create(root.as_ref(), &filter).build_ext(&x).map(|p| p.cell),
                must(MerkleProof::create(root.as_ref(), &filter).build()).cell,
            ),
            1 => (
                MerkleProof::create(root.as_ref(), &filter).build_raw_ext(&x),
                must(MerkleProof::create(root.as_ref(), &filter).build_raw_ext(Cell::empty_context())),
            ),
            2 => (
                MerkleProof::create(root.as_ref(), &filter).track_pruned_branches().build_raw_ext(&x).map(|(c, pruned)| {
                    // the pruned branches are those of the unused child
                    let other = if addr(used.as_ref()) == addr(a.as_ref()) { &b } else { &a };
                    check(pruned.contains(root.repr_hash()) == false, "the root is reported as pruned");
                    check(pruned.len() <= 2 && pruned.iter().all(|h| *h == other.repr_hash() || !filter.0.contains(h)), "a used cell is reported as pruned");
                    c
                }),
                must(MerkleProof::create(root.as_ref(), &filter).build_raw_ext(Cell::empty_context())),
            ),
            3 => (
                MerkleUpdate::create(root.as_ref(), next.as_ref(), &filter).build_ext(&x).map(|u| u.new),
                must(MerkleUpdate::create(root.as_ref(), next.as_ref(), &filter).build()).new,
            ),
            4 => {
                let u = must(MerkleUpdate::create(root.as_ref(), next.as_ref(), &filter).build());
                (u.apply_ext(&root, &x), next.clone())
            }
            _ => {
                let data = Boc::encode(&root);
                old.clear();
                (
                    // the decoder has errors of its own
                    Boc::decode_ext(&data, &x).map_err(|_| Error::Cancelled),
                    root.clone(),
                )
            }
        };
        match got {
            Ok(c) => {
                check(x.calls.get() <= refuse, "a refusal is ignored");
                check(same_cell(plain.as_ref(), c.as_ref()), "the context changes the result");
                check_built(c.as_ref(), &old, &x, "a cell is built behind the back of the context");
                reach("built");
            }
            Err(e) => {
                check(e == Error::Cancelled && x.calls.get() == refuse + 1, "another error");
                x.built.borrow_mut().clear();
                reach("refused");
            }
        }
        let _ = live;
    }
}
