//! Symbolic interpreter: path states, forking, memory resolution, instructions.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::solver::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    V(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Null,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    UMax,
    UMin,
    SMax,
    SMin,
    Abs,
    AddCarry,
    SubBorrow,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UCmp,
    SCmp,
    Expect,
    IsConst,
    Trap,
    Ident,
    ObjSize,
    RedOr,
    RedAnd,
    RedAdd,
    Panic,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    VpAny,
    VpAssume,
    VpAssert,
    VpReach,
    VpConc,
    VpSha,
    VpHeap,
    VpAllowPanic,
    VpMode,
    VpNote,
    VpIsConst,
    VpTier,
    VpSplit,
}

pub enum Callee {
    F(u32),
    I(Intr),
    Ind(Opnd),
    Asm,
}

pub struct Edge {
    pub target: u32,
    pub moves: Vec<(u32, Opnd)>,
}

pub enum Inst {
    Alloca { d: u32, size: u64, n: Option<Opnd> },
    Load { d: u32, ty: Ty, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: i64, idx: Vec<(u32, Opnd, u64)> },
    Bin { d: u32, op: Bin, w: u32, lanes: u32, a: Opnd, b: Opnd },
    Icmp { d: u32, pred: Pred, w: u32, lanes: u32, a: Opnd, b: Opnd },
    Cast { d: u32, k: Cast, from: Ty, to: Ty, a: Opnd },
    Select { d: u32, cvec: bool, c: Opnd, ty: Ty, a: Opnd, b: Opnd },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    Call { d: Option<u32>, rty: Ty, callee: Callee, args: Vec<Opnd>, atys: Vec<Ty>, normal: Option<u32> },
    ExtractValue { d: u32, a: Opnd, path: Vec<u32> },
    InsertValue { d: u32, a: Opnd, v: Opnd, path: Vec<u32> },
    ExtractElement { d: u32, a: Opnd, i: Opnd },
    InsertElement { d: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, a: Opnd, b: Opnd, ety: Ty, mask: Vec<Option<u32>> },
    AtomicRmw { d: u32, op: String, ty: Ty, p: Opnd, v: Opnd },
    CmpXchg { d: u32, ty: Ty, p: Opnd, old: Opnd, new: Opnd },
    Freeze { d: u32, a: Opnd },
    Nop,
    Unsupported(String),
}

pub struct Func {
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
    pub sp: usize,
}

#[derive(Clone)]
pub struct Input {
    pub name: String,
    pub first: u32,
    pub len: u32,
}

#[derive(Clone)]
pub struct ShaCall {
    pub ins: Rc<Vec<E>>,
    pub out: [u32; 8],
    pub symbolic: bool,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: Rc<FxMap<E, bool>>,
    pub model: Rc<Model>,
    pub inputs: Rc<Vec<Input>>,
    pub nvars: u32,
    pub sha: Rc<Vec<ShaCall>>,
    pub nsha: u32,
    pub insts: u64,
    pub allow_panic: bool,
    /// Split the path on the result of every symbolic bit count.
    pub split: bool,
    pub depth: u32,
    pub facts: crate::range::Facts,
}

pub enum Stop {
    Done,
    Assume,
    PanicAllowed,
    Violation { kind: String, msg: String },
    Inconclusive(String),
}

#[derive(Default, Clone)]
pub struct Counters {
    pub paths: u64,
    pub assume_pruned: u64,
    pub panics_allowed: u64,
    pub violations: u64,
    pub insts: u64,
    pub forks: u64,
    pub asserts_sym: u64,
    pub asserts_conc: u64,
    pub mem_sym: u64,
    pub by_facts: u64,
    pub obligations: u64,
}

pub struct Opts {
    pub max_insts: u64,
    pub trace: bool,
    pub deadline: std::time::Instant,
    pub concrete: Option<Vec<Vec<u8>>>,
    pub tier: u64,
}

pub struct Exec {
    pub m: &'static Module,
    pub funcs: Vec<Option<&'static Func>>,
    pub gaddr: FxMap<u64, ()>,
    pub gmap: std::collections::HashMap<String, u64>,
    pub base_mem: Mem,
    pub solver: Solver,
    pub work: Vec<State>,
    pub cnt: Counters,
    pub incon: std::collections::BTreeMap<String, u64>,
    pub reach: std::collections::BTreeMap<String, u64>,
    pub covered: Vec<bool>,
    pub opts: Opts,
    pub pcvars: FxMap<E, Rc<Vec<u64>>>,
    pub notes_out: Vec<String>,
}

type R<T> = Result<T, Stop>;

fn viol<T>(kind: &str, msg: String) -> R<T> {
    Err(Stop::Violation { kind: kind.into(), msg })
}
fn incon<T>(m: impl Into<String>) -> R<T> {
    Err(Stop::Inconclusive(m.into()))
}

#[inline]
pub fn to_e(v: &Val, w: u32) -> E {
    match v {
        Val::C(k) => cx().k(w, *k as u128),
        Val::S(e) => *e,
        Val::Agg(_) => panic!("aggregate used as scalar"),
    }
}
#[inline]
pub fn from_e(e: E) -> Val {
    let n = cx().n(e);
    if n.op == Op::Const && n.w <= 64 {
        Val::C(n.k as u64)
    } else {
        Val::S(e)
    }
}
pub fn mkc(w: u32, v: u128) -> Val {
    if w <= 64 {
        Val::C((v & mask(w)) as u64)
    } else {
        Val::S(cx().k(w, v))
    }
}
pub fn cval128(v: &Val) -> Option<u128> {
    match v {
        Val::C(k) => Some(*k as u128),
        Val::S(e) => cx().cv(*e),
        _ => None,
    }
}
pub fn zero(ty: &Ty) -> Val {
    match ty {
        Ty::Int(w) => mkc(*w, 0),
        Ty::Ptr | Ty::Float(_) | Ty::Void | Ty::Other => Val::C(0),
        _ => Val::Agg(Rc::new((0..ty.nfields()).map(|i| zero(ty.field(i))).collect())),
    }
}

fn classify(name: &str) -> Option<Intr> {
    use Intr::*;
    if let Some(r) = name.strip_prefix("llvm.") {
        let starts = |p: &str| r.starts_with(p);
        return Some(if starts("lifetime") || starts("assume") || starts("experimental.noalias") || starts("dbg") || starts("donothing")
            || starts("prefetch") || starts("x86.sse2.pause") || starts("invariant") || starts("fake.use")
        {
            Nop
        } else if starts("memcpy") || starts("memmove") {
            Memcpy
        } else if starts("memset") {
            Memset
        } else if starts("ctpop") {
            Ctpop
        } else if starts("ctlz") {
            Ctlz
        } else if starts("cttz") {
            Cttz
        } else if starts("bswap") {
            Bswap
        } else if starts("bitreverse") {
            Bitrev
        } else if starts("fshl") {
            Fshl
        } else if starts("fshr") {
            Fshr
        } else if starts("umax") {
            UMax
        } else if starts("umin") {
            UMin
        } else if starts("smax") {
            SMax
        } else if starts("smin") {
            SMin
        } else if starts("abs") {
            Abs
        } else if starts("x86.addcarry") {
            AddCarry
        } else if starts("x86.subborrow") {
            SubBorrow
        } else if starts("uadd.with") {
            UAddO
        } else if starts("usub.with") {
            USubO
        } else if starts("umul.with") {
            UMulO
        } else if starts("sadd.with") {
            SAddO
        } else if starts("ssub.with") {
            SSubO
        } else if starts("smul.with") {
            SMulO
        } else if starts("uadd.sat") {
            UAddSat
        } else if starts("usub.sat") {
            USubSat
        } else if starts("sadd.sat") {
            SAddSat
        } else if starts("ssub.sat") {
            SSubSat
        } else if starts("ucmp") {
            UCmp
        } else if starts("scmp") {
            SCmp
        } else if starts("expect") {
            Expect
        } else if starts("is.constant") {
            IsConst
        } else if starts("trap") || starts("ubsantrap") {
            Trap
        } else if starts("threadlocal.address") || starts("launder") || starts("strip") || starts("ssa.copy") {
            Ident
        } else if starts("objectsize") {
            ObjSize
        } else if starts("vector.reduce.or") {
            RedOr
        } else if starts("vector.reduce.and") {
            RedAnd
        } else if starts("vector.reduce.add") {
            RedAdd
        } else {
            return None;
        });
    }
    Some(match name {
        "bcmp" => Bcmp,
        "memcmp" => Memcmp,
        "strlen" => Strlen,
        // no environment variable is set
        "getenv" => Null,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        // thread-local destructors never run: the one thread does not end
        "__cxa_thread_atexit_impl" => Nop,
        "abort" | "_exit" | "exit" => Trap,
        "vp_alloc" => Alloc,
        "vp_alloc_zeroed" => AllocZ,
        "vp_dealloc" => Dealloc,
        "vp_realloc" => Realloc,
        "vp_any_bytes" => VpAny,
        "vp_assume" => VpAssume,
        "vp_assert" => VpAssert,
        "vp_reach" => VpReach,
        "vp_concretize" => VpConc,
        "vp_sha256_block" => VpSha,
        "vp_heap_live" => VpHeap,
        "vp_allow_panic" => VpAllowPanic,
        "vp_symbolic_mode" => VpMode,
        "vp_note" => VpNote,
        "vp_is_const" => VpIsConst,
        "vp_tier" => VpTier,
        "vp_split" => VpSplit,
        _ => {
            if name.contains("no_alloc_shim_is_unstable") {
                Nop
            } else if name.contains("4core9panicking")
                || name.contains("rust_begin_unwind")
                || name.contains("13unwrap_failed")
                || name.contains("13expect_failed")
                || name.contains("18handle_alloc_error")
                || name.contains("17capacity_overflow")
                || name.contains("3std9panicking")
                || name.contains("3std7process5abort")
                || name.contains("_fail_rt")
                || name.contains("slice_index_fail")
                || name.contains("slice_error_fail")
                || name.contains("panic_already_borrowed")
                || name.contains("panic_already_mutably_borrowed")
                || name.contains("5alloc7raw_vec12handle_error")
            {
                Panic
            } else {
                return None;
            }
        }
    })
}

impl Exec {
    pub fn new(m: &'static Module, opts: Opts, rlimit: u32) -> Exec {
        let mut x = Exec {
            m,
            funcs: (0..m.funcs.len()).map(|_| None).collect(),
            gaddr: Default::default(),
            gmap: Default::default(),
            base_mem: Mem::new(),
            solver: Solver::new(rlimit),
            work: vec![],
            cnt: Default::default(),
            incon: Default::default(),
            reach: Default::default(),
            covered: vec![false; m.funcs.len()],
            opts,
            pcvars: Default::default(),
            notes_out: vec![],
        };
        // lay out globals
        for g in &m.globals {
            let k = if g.constant { Kind::Const } else { Kind::Global };
            match x.base_mem.alloc(g.ty.size(), g.align, k, 0) {
                Ok(a) => {
                    x.gmap.insert(g.name.clone(), a);
                }
                Err(_) => {} // too large: unsupported if ever referenced
            }
        }
        for (n, v) in &m.aliases {
            if let PVal::Global(t) = v {
                if let Some(a) = x.gmap.get(t).copied() {
                    x.gmap.insert(n.clone(), a);
                }
            }
        }
        for g in &m.globals {
            let Some(a) = x.gmap.get(&g.name).copied() else { continue };
            if let Some(init) = &g.init {
                let mut buf = vec![0u8; g.ty.size() as usize];
                x.init_bytes(&g.ty, init, &mut buf, 0);
                let o = x.base_mem.find_mut(a).unwrap();
                o.data = buf;
            }
        }
        x
    }

    fn init_bytes(&self, ty: &Ty, v: &PVal, buf: &mut [u8], off: usize) {
        match v {
            PVal::Zero | PVal::Undef => {}
            PVal::Str(s) => buf[off..off + s.len()].copy_from_slice(s),
            PVal::Agg(l) => {
                for (i, (t, x)) in l.iter().enumerate() {
                    self.init_bytes(t, x, buf, off + ty.field_off(i) as usize);
                }
            }
            PVal::Splat(b) => {
                for i in 0..ty.nfields() {
                    self.init_bytes(&b.0, &b.1, buf, off + ty.field_off(i) as usize);
                }
            }
            _ => {
                let x = self.cval(ty, v);
                let k = cval128(&x).unwrap_or(0);
                let n = ty.store_size() as usize;
                for j in 0..n {
                    buf[off + j] = (k >> (8 * j)) as u8;
                }
            }
        }
    }

    fn sym_addr(&self, n: &str) -> u64 {
        if let Some(a) = self.gmap.get(n) {
            return *a;
        }
        if let Some(f) = self.m.fidx.get(n) {
            return FUNC0 + *f as u64 * 16;
        }
        0xdead_0000
    }

    fn cval(&self, ty: &Ty, v: &PVal) -> Val {
        match v {
            PVal::Reg(_) => unreachable!(),
            PVal::Int(k) => match ty {
                Ty::Int(w) => mkc(*w, *k),
                _ => Val::C(*k as u64),
            },
            PVal::Zero | PVal::Undef | PVal::Meta => zero(ty),
            PVal::Global(n) => Val::C(self.sym_addr(n)),
            PVal::Agg(l) => Val::Agg(Rc::new(l.iter().map(|(t, x)| self.cval(t, x)).collect())),
            PVal::Splat(b) => {
                let x = self.cval(&b.0, &b.1);
                Val::Agg(Rc::new(vec![x; ty.nfields()]))
            }
            PVal::Str(s) => Val::Agg(Rc::new(s.iter().map(|b| Val::C(*b as u64)).collect())),
            PVal::GepC(b, off) => {
                let Val::C(x) = self.cval(&Ty::Ptr, b) else { panic!("const gep base") };
                Val::C(x.wrapping_add(*off as u64))
            }
            PVal::BinC(k, t, a, b) => {
                let w = t.bits();
                let a = cval128(&self.cval(t, a)).unwrap();
                let b = cval128(&self.cval(t, b)).unwrap();
                let op = match *k {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    _ => Op::Xor,
                };
                mkc(w, Ctx::fold(op, w, a, b, w))
            }
            PVal::CastC(_, f, t, a) => {
                let a = cval128(&self.cval(f, a)).unwrap();
                mkc(t.bits(), a)
            }
        }
    }

    fn opnd(&self, ty: &Ty, v: &PVal) -> Opnd {
        match v {
            PVal::Reg(r) => Opnd::R(*r),
            _ => Opnd::V(self.cval(ty, v)),
        }
    }

    pub fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize] {
            return f;
        }
        let p = self.m.parse_func(id);
        let mut starts = vec![0u32; p.blocks.len()];
        let mut n = 0u32;
        for (b, insts) in p.blocks.iter().enumerate() {
            starts[b] = n;
            n += insts.iter().filter(|i| !matches!(i, PInst::Phi { .. })).count() as u32;
        }
        let mut code = Vec::with_capacity(n as usize);
        let mut edges: Vec<Edge> = vec![];
        let lanes = |t: &Ty| -> (u32, u32) {
            match t {
                Ty::Vec(n, e) => (e.bits(), *n),
                _ => (t.bits(), 0),
            }
        };
        for (b, insts) in p.blocks.iter().enumerate() {
            for i in insts {
                let mut edge = |to: u32, x: &Exec| -> u32 {
                    let mut moves = vec![];
                    for pi in &p.blocks[to as usize] {
                        if let PInst::Phi { d, ty, inc } = pi {
                            if let Some((v, _)) = inc.iter().find(|(_, l)| *l == b as u32) {
                                moves.push((*d, x.opnd(ty, v)));
                            } else {
                                panic!("phi without a value for its predecessor in {}", p.params.len());
                            }
                        } else {
                            break;
                        }
                    }
                    edges.push(Edge { target: starts[to as usize], moves });
                    edges.len() as u32 - 1
                };
                let ptr = Ty::Ptr;
                let o = match i {
                    PInst::Phi { .. } => continue,
                    PInst::Alloca { d, size, n } => Inst::Alloca { d: *d, size: *size, n: n.as_ref().map(|(t, v)| self.opnd(t, v)) },
                    PInst::Load { d, ty, p } => Inst::Load { d: *d, ty: ty.clone(), p: self.opnd(&ptr, p) },
                    PInst::Store { ty, v, p } => Inst::Store { ty: ty.clone(), v: self.opnd(ty, v), p: self.opnd(&ptr, p) },
                    PInst::Gep { d, base, off, idx } => Inst::Gep {
                        d: *d,
                        base: self.opnd(&ptr, base),
                        off: *off,
                        idx: idx.iter().map(|(w, v, s)| (*w, self.opnd(&Ty::Int(*w), v), *s)).collect(),
                    },
                    PInst::Bin { d, op, ty, a, b } => {
                        if let Ty::Float(_) = ty {
                            Inst::Unsupported("float".into())
                        } else {
                            let (w, l) = lanes(ty);
                            Inst::Bin { d: *d, op: *op, w, lanes: l, a: self.opnd(ty, a), b: self.opnd(ty, b) }
                        }
                    }
                    PInst::Icmp { d, pred, ty, a, b } => {
                        let (w, l) = lanes(ty);
                        Inst::Icmp { d: *d, pred: *pred, w, lanes: l, a: self.opnd(ty, a), b: self.opnd(ty, b) }
                    }
                    PInst::Cast { d, k, from, to, a } => {
                        Inst::Cast { d: *d, k: *k, from: from.clone(), to: to.clone(), a: self.opnd(from, a) }
                    }
                    PInst::Select { d, cty, c, ty, a, b } => Inst::Select {
                        d: *d,
                        cvec: matches!(cty, Ty::Vec(..)),
                        c: self.opnd(cty, c),
                        ty: ty.clone(),
                        a: self.opnd(ty, a),
                        b: self.opnd(ty, b),
                    },
                    PInst::Br(l) => Inst::Br(edge(*l, self)),
                    PInst::CondBr(c, t, f) => {
                        let a = edge(*t, self);
                        let b = edge(*f, self);
                        Inst::CondBr(self.opnd(&Ty::Int(1), c), a, b)
                    }
                    PInst::Switch { ty, v, def, cases } => {
                        let dd = edge(*def, self);
                        let cs = cases.iter().map(|(k, l)| (*k, edge(*l, self))).collect();
                        Inst::Switch { w: ty.bits(), v: self.opnd(ty, v), def: dd, cases: cs }
                    }
                    PInst::Ret(v) => Inst::Ret(v.as_ref().map(|(t, v)| self.opnd(t, v))),
                    PInst::Unreachable => Inst::Unreachable,
                    PInst::Call { d, rty, callee, args, normal, asm } => {
                        let c = if *asm {
                            Callee::Asm
                        } else {
                            match callee {
                                PVal::Global(n) => {
                                    if let Some(i) = classify(n) {
                                        Callee::I(i)
                                    } else if let Some(f) = self.m.fidx.get(n) {
                                        Callee::F(*f)
                                    } else {
                                        Callee::Asm
                                    }
                                }
                                v => Callee::Ind(self.opnd(&Ty::Ptr, v)),
                            }
                        };
                        let nm = normal.map(|l| edge(l, self));
                        Inst::Call {
                            d: *d,
                            rty: rty.clone(),
                            callee: c,
                            args: args.iter().map(|(t, v)| self.opnd(t, v)).collect(),
                            atys: args.iter().map(|(t, _)| t.clone()).collect(),
                            normal: nm,
                        }
                    }
                    PInst::ExtractValue { d, ty, a, path } => Inst::ExtractValue { d: *d, a: self.opnd(ty, a), path: path.clone() },
                    PInst::InsertValue { d, ty, a, v, path } => {
                        let mut t = ty;
                        for p in path {
                            t = t.field(*p as usize);
                        }
                        Inst::InsertValue { d: *d, a: self.opnd(ty, a), v: self.opnd(t, v), path: path.clone() }
                    }
                    PInst::ExtractElement { d, ty, a, i } => Inst::ExtractElement { d: *d, a: self.opnd(ty, a), i: self.opnd(&Ty::Int(64), i) },
                    PInst::InsertElement { d, ty, a, v, i } => Inst::InsertElement {
                        d: *d,
                        a: self.opnd(ty, a),
                        v: self.opnd(ty.field(0), v),
                        i: self.opnd(&Ty::Int(64), i),
                    },
                    PInst::Shuffle { d, ty, a, b, mask } => {
                        Inst::Shuffle { d: *d, a: self.opnd(ty, a), b: self.opnd(ty, b), ety: ty.field(0).clone(), mask: mask.clone() }
                    }
                    PInst::AtomicRmw { d, op, ty, p, v } => {
                        Inst::AtomicRmw { d: *d, op: op.clone(), ty: ty.clone(), p: self.opnd(&ptr, p), v: self.opnd(ty, v) }
                    }
                    PInst::CmpXchg { d, ty, p, old, new } => {
                        Inst::CmpXchg { d: *d, ty: ty.clone(), p: self.opnd(&ptr, p), old: self.opnd(ty, old), new: self.opnd(ty, new) }
                    }
                    PInst::Freeze { d, a } => match a {
                        PVal::Reg(r) => Inst::Freeze { d: *d, a: Opnd::R(*r) },
                        _ => Inst::Freeze { d: *d, a: Opnd::V(Val::C(0)) },
                    },
                    PInst::Nop => Inst::Nop,
                    PInst::Unsupported(s) => Inst::Unsupported(s.clone()),
                };
                code.push(o);
            }
        }
        let f: &'static Func = Box::leak(Box::new(Func { id, nregs: p.nregs, params: p.params, code, edges }));
        self.funcs[id as usize] = Some(f);
        f
    }

    pub fn fname(&self, id: u32) -> &str {
        &self.m.funcs[id as usize].name
    }

    pub fn start(&mut self, harness: &str) -> Result<(), String> {
        let Some(id) = self.m.fidx.get(harness).copied() else { return Err(format!("no function {harness}")) };
        if self.m.funcs[id as usize].body.is_none() {
            return Err(format!("{harness} has no body"));
        }
        let f = self.func(id);
        self.covered[id as usize] = true;
        let st = State {
            frames: vec![Frame { f, pc: 0, regs: vec![Val::C(0); f.nregs as usize], ret: None, normal: None, sp: 0 }],
            mem: self.base_mem.clone(),
            pc: vec![],
            known: Rc::new(Default::default()),
            model: Rc::new(Model::default()),
            inputs: Rc::new(vec![]),
            nvars: 1,
            sha: Rc::new(vec![]),
            nsha: 0,
            insts: 0,
            allow_panic: false,
            split: true,
            depth: 0,
            facts: Default::default(),
        };
        self.work.push(st);
        Ok(())
    }

    // ---------------------------------------------------------------- constraints

    fn pcset(&mut self, e: E) -> Rc<Vec<u64>> {
        if let Some(v) = self.pcvars.get(&e) {
            return v.clone();
        }
        let vs = cx().vars(e);
        let mut b = vec![];
        for v in vs.iter() {
            let i = (*v >> 6) as usize;
            if b.len() <= i {
                b.resize(i + 1, 0u64);
            }
            b[i] |= 1 << (v & 63);
        }
        let r = Rc::new(b);
        self.pcvars.insert(e, r.clone());
        r
    }

    /// Some(model) if pc && c is satisfiable, None if not.
    fn feasible(&mut self, st: &State, c: E) -> R<Option<Rc<Model>>> {
        match cx().cv(c) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(st.model.clone())),
            None => {}
        }
        if self.solver.refuted(c, |e| st.known.get(&e) == Some(&true)) {
            return Ok(None);
        }
        let mut acc: Vec<u64> = (*self.pcset(c)).clone();
        let mut rest: Vec<(E, Rc<Vec<u64>>)> = Vec::with_capacity(st.pc.len());
        for e in &st.pc {
            rest.push((*e, self.pcset(*e)));
        }
        let mut slice = vec![c];
        loop {
            let mut changed = false;
            rest.retain(|(e, b)| {
                if b.iter().zip(acc.iter()).any(|(x, y)| x & y != 0) {
                    slice.push(*e);
                    if acc.len() < b.len() {
                        acc.resize(b.len(), 0);
                    }
                    for (i, x) in b.iter().enumerate() {
                        if acc[i] | x != acc[i] {
                            acc[i] |= x;
                        }
                    }
                    changed = true;
                    false
                } else {
                    true
                }
            });
            if !changed {
                break;
            }
        }
        match self.solver.check(&slice) {
            Res::Unsat => Ok(None),
            Res::Unknown => incon("solver gave no answer within its resource limit"),
            Res::Sat(vals) => {
                let mut v = st.model.vals.clone();
                for (k, x) in vals {
                    v.insert(k, x);
                }
                let m = Model::with(v);
                Ok(Some(Rc::new(m)))
            }
        }
    }

    fn learn(&mut self, st: &mut State, c: E, v: bool) {
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, v);
        let nc = cx().not(c);
        k.insert(nc, !v);
    }

    fn add_pc(&mut self, st: &mut State, c: E) {
        let n = cx().n(c);
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            self.learn(st, c, true);
            return;
        }
        if n.op == Op::Not {
            let m = cx().n(n.a);
            if m.op == Op::Or && m.w == 1 {
                let x = cx().not(m.a);
                let y = cx().not(m.b);
                self.add_pc(st, x);
                self.add_pc(st, y);
                self.learn(st, c, true);
                return;
            }
        }
        if n.op == Op::Const {
            return;
        }
        if st.known.get(&c) == Some(&true) && st.pc.contains(&c) {
            return;
        }
        st.pc.push(c);
        st.facts.assume(c);
        self.learn(st, c, true);
    }

    /// Truth of `c` on this path.  When both values are possible the path is split: a clone that will
    /// re-execute the current instruction with `c` false (resp. true) is queued.
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        let c = st.facts.reduce(c);
        if let Some(v) = cx().cv(c) {
            return Ok(v == 1);
        }
        if let Some(v) = st.known.get(&c) {
            return Ok(*v);
        }
        if let Some(v) = st.facts.truth(c) {
            self.cnt.by_facts += 1;
            return Ok(v);
        }
        let v = st.model.eval(c) == 1;
        let nc = cx().not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.feasible(st, other)? {
            None => {
                self.learn(st, c, v);
                st.facts.assume(mine);
                Ok(v)
            }
            Some(m) => {
                if self.opts.concrete.is_some() {
                    return incon("symbolic decision in concrete mode");
                }
                let mut o = st.clone();
                o.model = m;
                o.depth += 1;
                self.add_pc(&mut o, other);
                self.cnt.forks += 1;
                self.work.push(o);
                st.depth += 1;
                self.add_pc(st, mine);
                Ok(v)
            }
        }
    }

    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        let e = match v {
            Val::C(k) => return Ok(*k),
            Val::S(e) => *e,
            _ => return incon("concretize aggregate"),
        };
        if let Some(k) = cx().cv(e) {
            return Ok(k as u64);
        }
        let r = st.facts.range(e);
        if r.0 == r.1 {
            return Ok(r.0 as u64);
        }
        loop {
            let k = st.model.eval(e);
            let kk = cx().k(w, k);
            let c = cx().eq(e, kk);
            if self.decide(st, c)? {
                return Ok(k as u64);
            }
            // the model disagrees with a recorded fact: only possible if eval said true
            return incon("concretize: inconsistent model");
        }
    }

    // ---------------------------------------------------------------- memory

    /// Returns (object base, offset).  Splits paths / reports violations for bad pointers.
    fn resolve(&mut self, st: &mut State, p: &Val, n: u64, write: bool) -> R<(u64, Val)> {
        match p {
            Val::C(a) => {
                let a = *a;
                match st.mem.find(a) {
                    Some(o) if a >= o.base && a - o.base + n <= o.size() => {
                        if write && o.kind == Kind::Const {
                            return viol("memory", format!("write to constant memory at {a:#x}"));
                        }
                        Ok((o.base, Val::C(a - o.base)))
                    }
                    Some(o) => viol(
                        "memory",
                        format!("{} of {n} bytes at offset {} of a {:?} object of {} bytes", if write { "write" } else { "read" }, a.wrapping_sub(o.base) as i64, o.kind, o.size()),
                    ),
                    None => viol("memory", format!("{} of {n} bytes through an invalid pointer {a:#x}", if write { "write" } else { "read" })),
                }
            }
            Val::S(e) => {
                let a = st.model.eval(*e) as u64;
                let Some(o) = st.mem.find(a).cloned() else {
                    return viol("memory", format!("{} of {n} bytes through an invalid pointer {a:#x}", if write { "write" } else { "read" }));
                };
                let c = cx();
                let b = c.k(64, o.base as u128);
                let off = c.sub(*e, b);
                if n > o.size() {
                    return viol("memory", format!("access of {n} bytes to a {:?} object of {} bytes", o.kind, o.size()));
                }
                let lim = c.k(64, (o.size() - n) as u128);
                let inb = c.ule(off, lim);
                let ro = st.facts.range(off);
                if ro.0 == ro.1 && ro.1 <= (o.size() - n) as u128 && !(write && o.kind == Kind::Const) {
                    return Ok((o.base, Val::C(ro.0 as u64)));
                }
                self.cnt.mem_sym += 1;
                if !self.decide(st, inb)? {
                    return viol(
                        "memory",
                        format!("{} of {n} bytes at offset {} of a {:?} object of {} bytes", if write { "write" } else { "read" }, a.wrapping_sub(o.base) as i64, o.kind, o.size()),
                    );
                }
                if write && o.kind == Kind::Const {
                    return viol("memory", format!("write to constant memory at {a:#x}"));
                }
                Ok((o.base, from_e(off)))
            }
            _ => incon("aggregate pointer"),
        }
    }

    fn load_int(&mut self, st: &mut State, p: &Val, n: u64) -> R<E> {
        let (base, mut off) = self.resolve(st, p, n, false)?;
        if let Val::S(oe) = off {
            let r = st.facts.range(oe);
            if r.1 - r.0 > 4200 {
                off = Val::C(self.concretize(st, &off, 64)?);
            }
        }
        let oe = to_e(&off, 64);
        let e = st.mem.find(base).unwrap().read(&st.facts, oe, n as u32);
        Ok(st.facts.reduce(e))
    }

    fn store_int(&mut self, st: &mut State, p: &Val, n: u64, e: E) -> R<()> {
        let (base, off) = self.resolve(st, p, n, true)?;
        let oe = to_e(&off, 64);
        st.mem.find_mut(base).unwrap().write(&st.facts, oe, n as u32, e);
        Ok(())
    }

    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr => {
                let w = ty.bits();
                let n = ty.store_size();
                // fast concrete path
                if let Val::C(a) = p {
                    if n <= 8 {
                        if let Some(o) = st.mem.find(*a) {
                            let off = a.wrapping_sub(o.base);
                            if off.saturating_add(n) <= o.size() && o.is_conc(off as usize, n as usize) {
                                let mut b = [0u8; 8];
                                b[..n as usize].copy_from_slice(&o.data[off as usize..(off + n) as usize]);
                                return Ok(Val::C(u64::from_le_bytes(b) & mask(w) as u64));
                            }
                        }
                    }
                }
                if n > 16 {
                    return incon(format!("load of i{w}"));
                }
                let e = self.load_int(st, p, n)?;
                Ok(from_e(cx().trunc(e, w)))
            }
            Ty::Float(w) => {
                let e = self.load_int(st, p, (*w / 8) as u64)?;
                Ok(from_e(e))
            }
            Ty::Void | Ty::Other => Ok(Val::C(0)),
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let bytes = ty.store_size();
                if bytes > 16 {
                    return incon("load of wide bit vector");
                }
                let e = self.load_int(st, p, bytes)?;
                let w = t.bits();
                Ok(Val::Agg(Rc::new((0..*n).map(|i| from_e(cx().extract(e, i * w + w - 1, i * w))).collect())))
            }
            _ => {
                let mut v = vec![];
                for i in 0..ty.nfields() {
                    let q = self.ptr_add(p, ty.field_off(i));
                    v.push(self.load(st, &q, ty.field(i))?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
        }
    }

    fn ptr_add(&self, p: &Val, o: u64) -> Val {
        match p {
            Val::C(a) => Val::C(a.wrapping_add(o)),
            _ => {
                let k = cx().k(64, o as u128);
                from_e(cx().add(to_e(p, 64), k))
            }
        }
    }

    fn store(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.bits();
                let n = ty.store_size();
                if let (Val::C(a), Val::C(k)) = (p, v) {
                    if n <= 8 {
                        if let Some(o) = st.mem.find(*a) {
                            let off = a.wrapping_sub(o.base);
                            if off.saturating_add(n) <= o.size() && o.kind != Kind::Const && o.log.is_empty() {
                                let o = st.mem.find_mut(*a).unwrap();
                                let off = off as usize;
                                let n = n as usize;
                                o.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                                if !o.sym.is_empty() {
                                    o.sym[off..off + n].iter_mut().for_each(|x| *x = 0);
                                }
                                return Ok(());
                            }
                        }
                    }
                }
                if n > 16 {
                    return incon(format!("store of i{w}"));
                }
                let e = cx().zext(to_e(v, w), n as u32 * 8);
                self.store_int(st, p, n, e)
            }
            Ty::Void | Ty::Other => Ok(()),
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let bytes = ty.store_size();
                let e = self.bits_of(v, &Ty::Vec(*n, t.clone()))?;
                let e = cx().zext(e, bytes as u32 * 8);
                self.store_int(st, p, bytes, e)
            }
            _ => {
                let Val::Agg(l) = v else { return incon("store of non-aggregate") };
                for i in 0..ty.nfields() {
                    let q = self.ptr_add(p, ty.field_off(i));
                    self.store(st, &q, ty.field(i), &l[i])?;
                }
                Ok(())
            }
        }
    }

    fn bits_of(&self, v: &Val, ty: &Ty) -> R<E> {
        match ty {
            Ty::Vec(n, t) => {
                let Val::Agg(l) = v else { return incon("vector expected") };
                if *n * t.bits() > 128 {
                    return incon("vector wider than 128 bits used as an integer");
                }
                let mut e = to_e(&l[0], t.bits());
                for i in 1..*n as usize {
                    e = cx().concat(to_e(&l[i], t.bits()), e);
                }
                Ok(e)
            }
            _ => Ok(to_e(v, ty.bits())),
        }
    }
    fn from_bits(&self, e: E, ty: &Ty) -> Val {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                Val::Agg(Rc::new((0..*n).map(|i| from_e(cx().extract(e, i * w + w - 1, i * w))).collect()))
            }
            _ => from_e(e),
        }
    }

    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, len: &Val) -> R<()> {
        if let Val::S(le) = len {
            // bound the length by the objects involved; otherwise enumerate its values
            let le = *le;
            let da = match d {
                Val::C(a) => *a,
                Val::S(e) => st.model.eval(*e) as u64,
                _ => return incon("memcpy ptr"),
            };
            let sa = match s {
                Val::C(a) => *a,
                Val::S(e) => st.model.eval(*e) as u64,
                _ => return incon("memcpy ptr"),
            };
            let ok = matches!((st.mem.find(da), st.mem.find(sa)), (Some(a), Some(b)) if a.size() <= 600 && b.size() <= 600);
            if !ok {
                let n = self.concretize(st, len, 64)?;
                return self.memcpy(st, d, s, &Val::C(n));
            }
            let c = cx();
            let z = c.k(64, 0);
            let is0 = c.eq(le, z);
            if self.decide(st, is0)? {
                return Ok(());
            }
            let (db, doff) = self.resolve(st, d, 1, true)?;
            let (sb, soff) = self.resolve(st, s, 1, false)?;
            let so = st.mem.find(sb).unwrap().clone();
            let ds = st.mem.find(db).unwrap().size();
            let (doe, soe) = (to_e(&doff, 64), to_e(&soff, 64));
            let kd = c.k(64, ds as u128);
            let ks = c.k(64, so.size() as u128);
            let rd = c.sub(kd, doe);
            let rs = c.sub(ks, soe);
            let ok1 = c.ule(le, rd);
            if !self.decide(st, ok1)? {
                return viol("memory", "copy past the end of the destination object".into());
            }
            let ok2 = c.ule(le, rs);
            if !self.decide(st, ok2)? {
                return viol("memory", "copy past the end of the source object".into());
            }
            st.mem.find_mut(db).unwrap().copy_in(&st.facts, doe, le, &so, soe);
            return Ok(());
        }
        let Val::C(n) = *len else { return incon("memcpy len") };
        if n == 0 {
            return Ok(());
        }
        let (sb, so) = self.resolve(st, s, n, false)?;
        let (db, doff) = self.resolve(st, d, n, true)?;
        let (soe, doe) = (to_e(&so, 64), to_e(&doff, 64));
        let src = st.mem.find(sb).unwrap().clone();
        let ne = cx().k(64, n as u128);
        st.mem.find_mut(db).unwrap().copy_in(&st.facts, doe, ne, &src, soe);
        Ok(())
    }

    fn memset(&mut self, st: &mut State, d: &Val, v: &Val, len: &Val) -> R<()> {
        if let Val::S(le) = len {
            let le = *le;
            let da = match d {
                Val::C(a) => *a,
                Val::S(e) => st.model.eval(*e) as u64,
                _ => return incon("memset ptr"),
            };
            let ok = matches!(st.mem.find(da), Some(a) if a.size() <= 600);
            if !ok {
                let n = self.concretize(st, len, 64)?;
                return self.memset(st, d, v, &Val::C(n));
            }
            let c = cx();
            let z = c.k(64, 0);
            let is0 = c.eq(le, z);
            if self.decide(st, is0)? {
                return Ok(());
            }
            let (db, doff) = self.resolve(st, d, 1, true)?;
            let ds = st.mem.find(db).unwrap().size();
            let doe = to_e(&doff, 64);
            let kd = c.k(64, ds as u128);
            let rd = c.sub(kd, doe);
            let ok1 = c.ule(le, rd);
            if !self.decide(st, ok1)? {
                return viol("memory", "fill past the end of the destination object".into());
            }
            let b = to_e(v, 8);
            st.mem.find_mut(db).unwrap().fill(&st.facts, doe, le, b);
            return Ok(());
        }
        let Val::C(n) = *len else { return incon("memset len") };
        if n == 0 {
            return Ok(());
        }
        let (db, off) = self.resolve(st, d, n, true)?;
        let b = to_e(v, 8);
        let oe = to_e(&off, 64);
        let ne = cx().k(64, n as u128);
        st.mem.find_mut(db).unwrap().fill(&st.facts, oe, ne, b);
        Ok(())
    }

    /// bytes of a concrete-length region
    fn region(&mut self, st: &mut State, p: &Val, n: u64) -> R<Vec<E>> {
        let mut v = Vec::with_capacity(n as usize);
        if n == 0 {
            return Ok(v);
        }
        let (b, off) = self.resolve(st, p, n, false)?;
        match off {
            Val::C(o) => {
                let obj = st.mem.find(b).unwrap();
                for i in 0..n {
                    let k = cx().k(64, (o + i) as u128);
                    v.push(obj.read(&st.facts, k, 1));
                }
            }
            _ => {
                for i in 0..n {
                    let q = self.ptr_add(p, i);
                    v.push(self.load_int(st, &q, 1)?);
                }
            }
        }
        Ok(v)
    }

    fn conc_bytes(&mut self, st: &mut State, p: &Val, n: u64) -> Option<Vec<u8>> {
        let v = self.region(st, p, n).ok()?;
        v.iter().map(|e| cx().cv(*e).map(|x| x as u8)).collect()
    }

    fn str_at(&mut self, st: &mut State, p: &Val, n: &Val) -> String {
        match n {
            Val::C(k) if *k < 4096 => {
                self.conc_bytes(st, p, *k).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_else(|| "<symbolic>".into())
            }
            _ => "<?>".into(),
        }
    }

    // ---------------------------------------------------------------- scalar ops

    fn bin1(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w) as u64;
            let r = match op {
                Bin::Add => x.wrapping_add(y) & m,
                Bin::Sub => x.wrapping_sub(y) & m,
                Bin::Mul => x.wrapping_mul(y) & m,
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                Bin::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => Ctx::fold(Op::AShr, w, x as u128, y as u128, w) as u64,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if y == 0 {
                        return viol("ub", "division by zero".into());
                    }
                    let o = match op {
                        Bin::UDiv => Op::UDiv,
                        Bin::URem => Op::URem,
                        Bin::SDiv => Op::SDiv,
                        _ => Op::SRem,
                    };
                    Ctx::fold(o, w, x as u128, y as u128, w) as u64
                }
            };
            return Ok(Val::C(r));
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
        };
        Ok(from_e(cx().bin(o, x, y)))
    }

    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext128(x as u128, w), sext128(y as u128, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            };
            return Val::C(r as u64);
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        let c = cx();
        from_e(match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => c.ne(x, y),
            Pred::Ugt => c.ult(y, x),
            Pred::Uge => c.ule(y, x),
            Pred::Ult => c.ult(x, y),
            Pred::Ule => c.ule(x, y),
            Pred::Sgt => c.slt(y, x),
            Pred::Sge => c.sle(y, x),
            Pred::Slt => c.slt(x, y),
            Pred::Sle => c.sle(x, y),
        })
    }

    /// Halves of a 256-bit integer (the only width over 128 that is handled).
    fn halves(v: &Val) -> (E, E) {
        match v {
            Val::Agg(l) => (to_e(&l[0], 128), to_e(&l[1], 128)),
            x => (to_e(x, 128), cx().k(128, 0)),
        }
    }
    fn join(lo: E, hi: E) -> Val {
        Val::Agg(Rc::new(vec![from_e(lo), from_e(hi)]))
    }
    fn wide_cast(&self, k: Cast, fw: u32, tw: u32, a: &Val) -> R<Val> {
        match k {
            Cast::ZExt if fw <= 128 && tw == 256 => {
                let lo = cx().zext(to_e(a, fw), 128);
                Ok(Self::join(lo, cx().k(128, 0)))
            },
            Cast::Trunc if fw == 256 && tw <= 128 => Ok(from_e(cx().trunc(Self::halves(a).0, tw))),
            _ => incon("cast of an integer wider than 128 bits"),
        }
    }
    fn wide_bin(&self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        let ((al, ah), (bl, bh)) = (Self::halves(a), Self::halves(b));
        let c = cx();
        let zero = |e: E| cval128(&from_e(e)) == Some(0);
        match op {
            _ if w != 256 => {}
            Bin::Mul if zero(ah) && zero(bh) => {
                let k64 = c.k(128, 64);
                let low = |e: E| {
                    let t = cx().trunc(e, 64);
                    cx().zext(t, 128)
                };
                let high = |e: E| cx().lshr(e, k64);
                let add = |x: E, y: E| cx().add(x, y);
                let mul = |x: E, y: E| cx().mul(x, y);
                let (a0, a1, b0, b1) = (low(al), high(al), low(bl), high(bl));
                let (p00, p01, p10, p11) = (mul(a0, b0), mul(a0, b1), mul(a1, b0), mul(a1, b1));
                let mid = add(add(high(p00), low(p01)), low(p10));
                let shifted = cx().shl(mid, k64);
                let lo = cx().or(shifted, low(p00));
                let hi = add(add(p11, high(p01)), add(high(p10), high(mid)));
                return Ok(Self::join(lo, hi));
            }
            Bin::LShr if zero(bh) => {
                if let Some(n @ 128..256) = cval128(&from_e(bl)) {
                    let (n, z) = (c.k(128, n - 128), c.k(128, 0));
                    return Ok(Self::join(c.lshr(ah, n), z));
                }
            }
            _ => {}
        }
        incon("arithmetic on integers wider than 128 bits")
    }

    fn cast1(&self, k: Cast, fw: u32, tw: u32, a: &Val) -> Val {
        if let Val::C(x) = a {
            return match k {
                Cast::Trunc | Cast::Bit => mkc(tw, *x as u128),
                Cast::ZExt => mkc(tw, *x as u128),
                Cast::SExt => mkc(tw, sext128(*x as u128, fw) as u128),
            };
        }
        let e = to_e(a, fw);
        from_e(match k {
            Cast::Trunc => cx().trunc(e, tw),
            Cast::Bit => e,
            Cast::ZExt => cx().zext(e, tw),
            Cast::SExt => cx().sext(e, tw),
        })
    }

    fn select(&mut self, st: &mut State, c: &Val, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        let ce = match c {
            Val::C(k) => return Ok(if *k == 1 { a.clone() } else { b.clone() }),
            Val::S(e) => *e,
            _ => return incon("select cond"),
        };
        if let Some(v) = st.known.get(&ce).copied().or_else(|| st.facts.truth(ce)) {
            return Ok(if v { a.clone() } else { b.clone() });
        }
        match ty {
            Ty::Int(w) => Ok(from_e(cx().ite(ce, to_e(a, *w), to_e(b, *w)))),
            Ty::Ptr => {
                if let (Val::C(x), Val::C(y)) = (a, b) {
                    if x == y {
                        return Ok(a.clone());
                    }
                    // pointers into one object stay symbolic, otherwise split
                    let same = match (st.mem.find(*x), st.mem.find(*y)) {
                        (Some(p), Some(q)) => p.base == q.base,
                        _ => false,
                    };
                    if same {
                        return Ok(from_e(cx().ite(ce, to_e(a, 64), to_e(b, 64))));
                    }
                }
                Ok(if self.decide(st, ce)? { a.clone() } else { b.clone() })
            }
            _ => Ok(if self.decide(st, ce)? { a.clone() } else { b.clone() }),
        }
    }

    // ---------------------------------------------------------------- main step

    fn edge(&self, st: &mut State, e: u32) {
        let fr = st.frames.last_mut().unwrap();
        let ed = &fr.f.edges[e as usize];
        match ed.moves.len() {
            0 => {}
            1 => {
                let (d, o) = &ed.moves[0];
                let v = match o {
                    Opnd::R(r) => fr.regs[*r as usize].clone(),
                    Opnd::V(v) => v.clone(),
                };
                fr.regs[*d as usize] = v;
            }
            _ => {
                let vals: Vec<Val> = ed
                    .moves
                    .iter()
                    .map(|(_, o)| match o {
                        Opnd::R(r) => fr.regs[*r as usize].clone(),
                        Opnd::V(v) => v.clone(),
                    })
                    .collect();
                for ((d, _), v) in ed.moves.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.pc = ed.target;
    }

    pub fn run_path(&mut self, st: &mut State, budget: u64) -> Result<bool, Stop> {
        let mut n = 0u64;
        loop {
            self.step(st)?;
            n += 1;
            st.insts += 1;
            if st.frames.is_empty() {
                self.cnt.insts += n;
                return Ok(true);
            }
            if n >= budget {
                self.cnt.insts += n;
                return Ok(false);
            }
            if st.insts > self.opts.max_insts {
                self.cnt.insts += n;
                return incon("per-path instruction budget exhausted");
            }
        }
    }

    #[inline]
    fn get(fr: &Frame, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => fr.regs[*r as usize].clone(),
            Opnd::V(v) => v.clone(),
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let inst = &f.code[fr.pc as usize];
        macro_rules! v {
            ($o:expr) => {
                Self::get(st.frames.last().unwrap(), $o)
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let x = $v;
                let fr = st.frames.last_mut().unwrap();
                fr.regs[$d as usize] = x;
                fr.pc += 1;
            }};
        }
        match inst {
            Inst::Alloca { d, size, n } => {
                let mut s = *size;
                if let Some(n) = n {
                    let k = v!(n);
                    s *= self.concretize(st, &k, 64)?;
                }
                if st.mem.stack.len() > 200_000 {
                    return viol("stack", "stack depth exceeded 200000 live slots (unbounded recursion)".into());
                }
                let a = st.mem.push_stack(s);
                set!(*d, Val::C(a));
            }
            Inst::Load { d, ty, p } => {
                let p = v!(p);
                let x = self.load(st, &p, ty)?;
                set!(*d, x);
            }
            Inst::Store { ty, v, p } => {
                let p = v!(p);
                let x = v!(v);
                self.store(st, &p, ty, &x)?;
                st.frames.last_mut().unwrap().pc += 1;
            }
            Inst::Gep { d, base, off, idx } => {
                let b = v!(base);
                let mut conc = match &b {
                    Val::C(a) => Some(a.wrapping_add(*off as u64)),
                    _ => None,
                };
                if let Some(mut a) = conc {
                    for (w, o, s) in idx {
                        match v!(o) {
                            Val::C(k) => a = a.wrapping_add((sext128(k as u128, *w) as u64).wrapping_mul(*s)),
                            _ => {
                                conc = None;
                                break;
                            }
                        }
                    }
                    if conc.is_some() {
                        set!(*d, Val::C(a));
                        return Ok(());
                    }
                }
                if let Val::Agg(_) = b {
                    return incon("vector of pointers");
                }
                let c = cx();
                let ko = c.k(64, *off as u64 as u128);
                let mut e = c.add(to_e(&b, 64), ko);
                for (w, o, s) in idx {
                    let x = v!(o);
                    let xe = to_e(&x, *w);
                    let xe = if *w < 64 { c.sext(xe, 64) } else { c.trunc(xe, 64) };
                    let ks = c.k(64, *s as u128);
                    let t = c.mul(xe, ks);
                    e = c.add(e, t);
                }
                set!(*d, from_e(e));
            }
            Inst::Bin { d, op, w, lanes, a, b } => {
                let (x, y) = (v!(a), v!(b));
                let r = if *w > 128 {
                    if *lanes != 0 {
                        return incon("vector of wide integers");
                    }
                    self.wide_bin(*op, *w, &x, &y)?
                } else if *lanes == 0 {
                    self.bin1(*op, *w, &x, &y)?
                } else {
                    let (Val::Agg(x), Val::Agg(y)) = (x, y) else { return incon("vector op") };
                    let mut r = vec![];
                    for i in 0..*lanes as usize {
                        r.push(self.bin1(*op, *w, &x[i], &y[i])?);
                    }
                    Val::Agg(Rc::new(r))
                };
                set!(*d, r);
            }
            Inst::Icmp { d, pred, w, lanes, a, b } => {
                let (x, y) = (v!(a), v!(b));
                if *w > 128 {
                    return incon("comparison of integers wider than 128 bits");
                }
                let r = if *lanes == 0 {
                    self.icmp1(*pred, *w, &x, &y)
                } else {
                    let (Val::Agg(x), Val::Agg(y)) = (x, y) else { return incon("vector op") };
                    Val::Agg(Rc::new((0..*lanes as usize).map(|i| self.icmp1(*pred, *w, &x[i], &y[i])).collect()))
                };
                set!(*d, r);
            }
            Inst::Cast { d, k, from, to, a } => {
                let x = v!(a);
                let r = match (from, to) {
                    (Ty::Vec(..), _) | (_, Ty::Vec(..)) => {
                        if *k == Cast::Bit {
                            let e = self.bits_of(&x, from)?;
                            self.from_bits(e, to)
                        } else {
                            let Val::Agg(l) = x else { return incon("vector cast") };
                            let (fw, tw) = (from.field(0).bits(), to.field(0).bits());
                            Val::Agg(Rc::new(l.iter().map(|v| self.cast1(*k, fw, tw, v)).collect()))
                        }
                    }
                    _ if from.bits().max(to.bits()) > 128 => self.wide_cast(*k, from.bits(), to.bits(), &x)?,
                    _ => self.cast1(*k, from.bits(), to.bits(), &x),
                };
                set!(*d, r);
            }
            Inst::Select { d, cvec, c, ty, a, b } => {
                let (c, a, b) = (v!(c), v!(a), v!(b));
                let r = if *cvec {
                    let (Val::Agg(c), Val::Agg(a), Val::Agg(b)) = (c, a, b) else { return incon("vector select") };
                    let mut r = vec![];
                    for i in 0..c.len() {
                        r.push(self.select(st, &c[i], ty.field(0), &a[i], &b[i])?);
                    }
                    Val::Agg(Rc::new(r))
                } else {
                    self.select(st, &c, ty, &a, &b)?
                };
                set!(*d, r);
            }
            Inst::Br(e) => self.edge(st, *e),
            Inst::CondBr(c, t, f) => {
                let take = match v!(c) {
                    Val::C(k) => k == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return incon("branch"),
                };
                self.edge(st, if take { *t } else { *f });
            }
            Inst::Switch { w, v, def, cases } => {
                match v!(v) {
                    Val::C(k) => {
                        let e = cases.iter().find(|(c, _)| *c == k as u128).map(|x| x.1).unwrap_or(*def);
                        self.edge(st, e);
                    }
                    Val::S(x) => {
                        // group the cases by target, most likely (per model) first is unnecessary
                        let c = cx();
                        let mv = st.model.eval(x);
                        let hit = cases.iter().find(|(k, _)| *k == mv).map(|y| y.1);
                        let target = hit.unwrap_or(*def);
                        // condition for going to `target`
                        let cond = if hit.is_some() && target != *def {
                            let mut o = c.fls();
                            for (k, t) in cases {
                                if f.edges[*t as usize].target == f.edges[target as usize].target && same_moves(f, *t, target) {
                                    let kk = c.k(*w, *k);
                                    let q = c.eq(x, kk);
                                    o = c.or(o, q);
                                }
                            }
                            o
                        } else {
                            let mut o = c.tru();
                            for (k, _) in cases {
                                let kk = c.k(*w, *k);
                                let q = c.ne(x, kk);
                                o = c.and(o, q);
                            }
                            o
                        };
                        if self.decide(st, cond)? {
                            self.edge(st, target);
                        } else {
                            return incon("switch: inconsistent model");
                        }
                    }
                    _ => return incon("switch"),
                }
            }
            Inst::Ret(v) => {
                let x = v.as_ref().map(|o| v!(o));
                let fr = st.frames.pop().unwrap();
                st.mem.pop_stack(fr.sp);
                if st.frames.is_empty() {
                    return Ok(());
                }
                if let (Some(d), Some(x)) = (fr.ret, x) {
                    st.frames.last_mut().unwrap().regs[d as usize] = x;
                }
                match fr.normal {
                    Some(e) => self.edge(st, e),
                    None => st.frames.last_mut().unwrap().pc += 1,
                }
            }
            Inst::Unreachable => return viol("ub", "reached an `unreachable` instruction".into()),
            Inst::Call { d, rty, callee, args, atys, normal } => {
                match callee {
                    Callee::I(i) => {
                        let a: Vec<Val> = args.iter().map(|o| v!(o)).collect();
                        let r = self.intrinsic(st, *i, &a, atys, rty)?;
                        if let Some(d) = d {
                            st.frames.last_mut().unwrap().regs[*d as usize] = r;
                        }
                        match normal {
                            Some(e) => self.edge(st, *e),
                            None => st.frames.last_mut().unwrap().pc += 1,
                        }
                    }
                    Callee::Asm => {
                        // only empty `black_box`-style assembly is understood
                        if args.len() <= 1 && *rty == Ty::Void {
                            st.frames.last_mut().unwrap().pc += 1;
                        } else {
                            return incon("inline assembly");
                        }
                    }
                    _ => {
                        let id = match callee {
                            Callee::F(id) => *id,
                            Callee::Ind(o) => {
                                let p = v!(o);
                                let a = self.concretize(st, &p, 64)?;
                                if a < FUNC0 || a >= FUNC0 + self.m.funcs.len() as u64 * 16 {
                                    return viol("memory", format!("indirect call through {a:#x}"));
                                }
                                let id = ((a - FUNC0) / 16) as u32;
                                if let Some(i) = classify(self.fname(id)) {
                                    let a: Vec<Val> = args.iter().map(|o| v!(o)).collect();
                                    let r = self.intrinsic(st, i, &a, atys, rty)?;
                                    if let Some(d) = d {
                                        st.frames.last_mut().unwrap().regs[*d as usize] = r;
                                    }
                                    match normal {
                                        Some(e) => self.edge(st, *e),
                                        None => st.frames.last_mut().unwrap().pc += 1,
                                    }
                                    return Ok(());
                                }
                                id
                            }
                            _ => unreachable!(),
                        };
                        if self.m.funcs[id as usize].body.is_none() {
                            return incon(format!("call to external function {}", self.fname(id)));
                        }
                        if st.frames.len() > 20_000 {
                            return viol("stack", "call depth exceeded 20000 frames (unbounded recursion)".into());
                        }
                        let g = self.func(id);
                        self.covered[id as usize] = true;
                        let mut regs = vec![Val::C(0); g.nregs as usize];
                        for (i, p) in g.params.iter().enumerate() {
                            if i < args.len() {
                                regs[*p as usize] = v!(&args[i]);
                            }
                        }
                        let sp = st.mem.stack.len();
                        st.frames.push(Frame { f: g, pc: 0, regs, ret: *d, normal: *normal, sp });
                    }
                }
            }
            Inst::ExtractValue { d, a, path } => {
                let mut x = v!(a);
                for p in path {
                    let Val::Agg(l) = x else { return incon("extractvalue") };
                    x = l[*p as usize].clone();
                }
                set!(*d, x);
            }
            Inst::InsertValue { d, a, v, path } => {
                let x = v!(a);
                let y = v!(v);
                fn ins(x: &Val, y: Val, path: &[u32]) -> Val {
                    if path.is_empty() {
                        return y;
                    }
                    let Val::Agg(l) = x else { panic!("insertvalue") };
                    let mut l2 = (**l).clone();
                    l2[path[0] as usize] = ins(&l[path[0] as usize], y, &path[1..]);
                    Val::Agg(Rc::new(l2))
                }
                set!(*d, ins(&x, y, path));
            }
            Inst::ExtractElement { d, a, i } => {
                let (x, i) = (v!(a), v!(i));
                let k = self.concretize(st, &i, 64)?;
                let Val::Agg(l) = x else { return incon("extractelement") };
                set!(*d, l[k as usize].clone());
            }
            Inst::InsertElement { d, a, v, i } => {
                let (x, y, i) = (v!(a), v!(v), v!(i));
                let k = self.concretize(st, &i, 64)?;
                let Val::Agg(l) = x else { return incon("insertelement") };
                let mut l2 = (*l).clone();
                l2[k as usize] = y;
                set!(*d, Val::Agg(Rc::new(l2)));
            }
            Inst::Shuffle { d, a, b, ety, mask } => {
                let (Val::Agg(x), Val::Agg(y)) = (v!(a), v!(b)) else { return incon("shuffle") };
                let r = mask
                    .iter()
                    .map(|m| match m {
                        None => zero(ety),
                        Some(k) => {
                            let k = *k as usize;
                            if k < x.len() {
                                x[k].clone()
                            } else {
                                y[k - x.len()].clone()
                            }
                        }
                    })
                    .collect();
                set!(*d, Val::Agg(Rc::new(r)));
            }
            Inst::AtomicRmw { d, op, ty, p, v } => {
                let (p, x) = (v!(p), v!(v));
                let w = ty.bits();
                let old = self.load(st, &p, ty)?;
                let new = match op.as_str() {
                    "add" => self.bin1(Bin::Add, w, &old, &x)?,
                    "sub" => self.bin1(Bin::Sub, w, &old, &x)?,
                    "and" => self.bin1(Bin::And, w, &old, &x)?,
                    "or" => self.bin1(Bin::Or, w, &old, &x)?,
                    "xor" => self.bin1(Bin::Xor, w, &old, &x)?,
                    "xchg" => x,
                    _ => return incon(format!("atomicrmw {op}")),
                };
                self.store(st, &p, ty, &new)?;
                set!(*d, old);
            }
            Inst::CmpXchg { d, ty, p, old, new } => {
                let (p, o, n) = (v!(p), v!(old), v!(new));
                let cur = self.load(st, &p, ty)?;
                let w = ty.bits();
                let eq = self.icmp1(Pred::Eq, w, &cur, &o);
                let ok = match eq {
                    Val::C(k) => k == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => unreachable!(),
                };
                if ok {
                    self.store(st, &p, ty, &n)?;
                }
                set!(*d, Val::Agg(Rc::new(vec![cur, Val::C(ok as u64)])));
            }
            Inst::Freeze { d, a } => {
                let x = v!(a);
                set!(*d, x);
            }
            Inst::Nop => st.frames.last_mut().unwrap().pc += 1,
            Inst::Unsupported(s) => return incon(format!("unsupported instruction {s}")),
        }
        Ok(())
    }

    fn lanewise(&mut self, ty: &Ty, a: &[Val], f: &mut dyn FnMut(&mut Exec, u32, &[Val]) -> R<Val>) -> R<Val> {
        match ty {
            Ty::Vec(n, t) => {
                let mut r = vec![];
                for i in 0..*n as usize {
                    let xs: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::Agg(l) => l[i].clone(),
                            o => o.clone(),
                        })
                        .collect();
                    r.push(f(self, t.bits(), &xs)?);
                }
                Ok(Val::Agg(Rc::new(r)))
            }
            _ => f(self, ty.bits(), a),
        }
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, a: &[Val], atys: &[Ty], rty: &Ty) -> R<Val> {
        let c = cx();
        match i {
            Intr::Nop => Ok(zero(rty)),
            Intr::Memcpy => {
                self.memcpy(st, &a[0], &a[1], &a[2])?;
                Ok(a[0].clone())
            }
            Intr::Memset => {
                let v = match &atys[1] {
                    Ty::Int(8) => a[1].clone(),
                    t => self.cast1(Cast::Trunc, t.bits(), 8, &a[1]),
                };
                self.memset(st, &a[0], &v, &a[2])?;
                Ok(a[0].clone())
            }
            Intr::Bcmp | Intr::Memcmp => {
                let n = self.concretize(st, &a[2], 64)?;
                let x = self.region(st, &a[0], n)?;
                let y = self.region(st, &a[1], n)?;
                if i == Intr::Bcmp {
                    let mut e = c.tru();
                    for (p, q) in x.iter().zip(&y) {
                        let t = c.eq(*p, *q);
                        e = c.and(e, t);
                        if c.cv(e) == Some(0) {
                            break;
                        }
                    }
                    let z = c.k(32, 0);
                    let o = c.k(32, 1);
                    Ok(from_e(c.ite(e, z, o)))
                } else {
                    // sign of the first differing byte
                    let mut r = c.k(32, 0);
                    let m1 = c.k(32, 0xffff_ffff);
                    let p1 = c.k(32, 1);
                    for (p, q) in x.iter().zip(&y).rev() {
                        let lt = c.ult(*p, *q);
                        let s = c.ite(lt, m1, p1);
                        let t = c.eq(*p, *q);
                        r = c.ite(t, r, s);
                    }
                    Ok(from_e(r))
                }
            }
            Intr::Null => Ok(Val::C(0)),
            Intr::Strlen => {
                let Val::C(p) = a[0] else { return incon("strlen") };
                let mut n = 0;
                loop {
                    let e = self.load_int(st, &Val::C(p + n), 1)?;
                    match c.cv(e) {
                        Some(0) => return Ok(Val::C(n)),
                        Some(_) => n += 1,
                        None => return incon("strlen of symbolic bytes"),
                    }
                }
            }
            Intr::Ctpop => self.lanewise(rty, &a[..1], &mut |_, w, a| {
                if let Some(k) = cval128(&a[0]) {
                    return Ok(mkc(w, k.count_ones() as u128));
                }
                let e = to_e(&a[0], w);
                // sum of bits, narrow adder tree
                let mut terms: Vec<E> = (0..w).map(|i| c.extract(e, i, i)).collect();
                while terms.len() > 1 {
                    let mut n = vec![];
                    for ch in terms.chunks(2) {
                        if ch.len() == 2 {
                            let tw = c.w(ch[0]).max(c.w(ch[1])) + 1;
                            let x = c.zext(ch[0], tw);
                            let y = c.zext(ch[1], tw);
                            n.push(c.add(x, y));
                        } else {
                            n.push(ch[0]);
                        }
                    }
                    terms = n;
                }
                let t = terms[0];
                Ok(from_e(if c.w(t) < w { c.zext(t, w) } else { c.trunc(t, w) }))
            }),
            Intr::Ctlz | Intr::Cttz if st.split && matches!(a[0], Val::S(_)) => {
                // one path per count, each pinning the bits that determine it
                let Val::S(e) = a[0] else { unreachable!() };
                let w = c.w(e);
                let k = st.model.eval(e);
                let r = if i == Intr::Ctlz { if k == 0 { w } else { k.leading_zeros() - (128 - w) } } else if k == 0 { w } else { k.trailing_zeros() };
                let mut cond = c.tru();
                for j in 0..r {
                    let p = if i == Intr::Ctlz { w - 1 - j } else { j };
                    let b = c.extract(e, p, p);
                    let nb = c.not(b);
                    cond = c.and(cond, nb);
                }
                if r < w {
                    let p = if i == Intr::Ctlz { w - 1 - r } else { r };
                    let b = c.extract(e, p, p);
                    cond = c.and(cond, b);
                }
                if self.decide(st, cond)? {
                    return Ok(mkc(w, r as u128));
                }
                incon("ctlz split: inconsistent model")
            }
            Intr::Ctlz | Intr::Cttz => self.lanewise(rty, &a[..1], &mut |_, w, a| {
                if let Some(k) = cval128(&a[0]) {
                    let r = if i == Intr::Ctlz {
                        if k == 0 {
                            w
                        } else {
                            k.leading_zeros() - (128 - w)
                        }
                    } else if k == 0 {
                        w
                    } else {
                        k.trailing_zeros()
                    };
                    return Ok(mkc(w, r as u128));
                }
                let e = to_e(&a[0], w);
                let mut r = c.k(w, w as u128);
                if i == Intr::Ctlz {
                    for j in 0..w {
                        let b = c.extract(e, j, j);
                        let k = c.k(w, (w - 1 - j) as u128);
                        r = c.ite(b, k, r);
                    }
                } else {
                    for j in (0..w).rev() {
                        let b = c.extract(e, j, j);
                        let k = c.k(w, j as u128);
                        r = c.ite(b, k, r);
                    }
                }
                Ok(from_e(r))
            }),
            Intr::Bswap | Intr::Bitrev => self.lanewise(rty, &a[..1], &mut |_, w, a| {
                let e = to_e(&a[0], w);
                let step = if i == Intr::Bswap { 8 } else { 1 };
                let mut r = c.extract(e, step - 1, 0);
                let mut j = step;
                while j < w {
                    let b = c.extract(e, j + step - 1, j);
                    r = c.concat(r, b);
                    j += step;
                }
                Ok(from_e(r))
            }),
            Intr::Fshl | Intr::Fshr => self.lanewise(rty, &a[..3], &mut |_, w, a| {
                let (x, y, s) = (to_e(&a[0], w), to_e(&a[1], w), to_e(&a[2], w));
                let wm = c.k(w, w as u128);
                let s = c.urem(s, wm);
                if let Some(k) = c.cv(s) {
                    let k = k as u32;
                    if k == 0 {
                        return Ok(from_e(if i == Intr::Fshl { x } else { y }));
                    }
                    let k = if i == Intr::Fshl { k } else { w - k };
                    let h = c.extract(x, w - 1 - k, 0);
                    let l = c.extract(y, w - 1, w - k);
                    return Ok(from_e(c.concat(h, l)));
                }
                let z = c.k(w, 0);
                let inv = c.sub(wm, s);
                let is0 = c.eq(s, z);
                let r = if i == Intr::Fshl {
                    let h = c.shl(x, s);
                    let l = c.lshr(y, inv);
                    let o = c.or(h, l);
                    c.ite(is0, x, o)
                } else {
                    let h = c.shl(x, inv);
                    let l = c.lshr(y, s);
                    let o = c.or(h, l);
                    c.ite(is0, y, o)
                };
                Ok(from_e(r))
            }),
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => { let fx = st.facts.clone(); self.lanewise(rty, &a[..2], &mut |_, w, a| {
                let (x, y) = (to_e(&a[0], w), to_e(&a[1], w));
                let lt = match i {
                    Intr::UMax | Intr::UMin => c.ult(x, y),
                    _ => c.slt(x, y),
                };
                Ok(from_e(match i {
                    Intr::UMax | Intr::SMax => fite(&fx, lt, y, x),
                    _ => fite(&fx, lt, x, y),
                }))
            }) }
            Intr::Abs => self.lanewise(rty, &a[..1], &mut |_, w, a| {
                let x = to_e(&a[0], w);
                let z = c.k(w, 0);
                let n = c.sub(z, x);
                let s = c.slt(x, z);
                Ok(from_e(c.ite(s, n, x)))
            }),
            // {carry, result} of x + y + carry or x - y - borrow
            Intr::AddCarry | Intr::SubBorrow => {
                let w = rty.field(1).bits();
                let cin = to_e(&a[0], 8);
                let z = c.k(8, 0);
                let cin = c.ne(cin, z);
                let cin = c.zext(cin, w + 1);
                let (x, y) = (to_e(&a[1], w), to_e(&a[2], w));
                let (x, y) = (c.zext(x, w + 1), c.zext(y, w + 1));
                let op = if i == Intr::AddCarry { Op::Add } else { Op::Sub };
                let s = c.bin(op, x, y);
                let s = c.bin(op, s, cin);
                let r = c.extract(s, w - 1, 0);
                let t = c.extract(s, w, w);
                let t = c.zext(t, 8);
                Ok(Val::Agg(Rc::new(vec![from_e(t), from_e(r)])))
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let w = rty.field(0).bits();
                let (x, y) = (to_e(&a[0], w), to_e(&a[1], w));
                let (r, o) = match i {
                    Intr::UAddO => {
                        let r = c.add(x, y);
                        (r, c.ult(r, x))
                    }
                    Intr::USubO => (c.sub(x, y), c.ult(x, y)),
                    Intr::UMulO => {
                        let r = c.mul(x, y);
                        let (ix, iy) = (st.facts.range(x), st.facts.range(y));
                        let noov = ix.1.checked_mul(iy.1).map_or(false, |h| h <= mask(w));
                        let o = if noov {
                            c.fls()
                        } else if 2 * w <= 128 {
                            let x2 = c.zext(x, 2 * w);
                            let y2 = c.zext(y, 2 * w);
                            let p = c.mul(x2, y2);
                            let h = c.extract(p, 2 * w - 1, w);
                            let z = c.k(w, 0);
                            c.ne(h, z)
                        } else if let (Some(p), Some(q)) = (c.cv(x), c.cv(y)) {
                            c.k(1, p.checked_mul(q).map_or(true, |h| h > mask(w)) as u128)
                        } else if let Some(q) = c.cv(y) {
                            // x * q overflows iff x > max / q
                            let m = c.k(w, mask(w) / q.max(1));
                            c.ult(m, x)
                        } else if let Some(q) = c.cv(x) {
                            let m = c.k(w, mask(w) / q.max(1));
                            c.ult(m, y)
                        } else {
                            // by halves: x = a*2^h + b, y = d*2^h + e
                            let h = w / 2;
                            let (xa, xb) = (c.extract(x, w - 1, h), c.extract(x, h - 1, 0));
                            let (ya, yb) = (c.extract(y, w - 1, h), c.extract(y, h - 1, 0));
                            let z = c.k(h, 0);
                            let (nx, ny) = (c.ne(xa, z), c.ne(ya, z));
                            let both = c.and(nx, ny);
                            let (xa, xb) = (c.zext(xa, w), c.zext(xb, w));
                            let (ya, yb) = (c.zext(ya, w), c.zext(yb, w));
                            let (p, q) = (c.mul(xa, yb), c.mul(xb, ya));
                            let cross = c.or(p, q); // one of them is zero
                            let low = c.mul(xb, yb);
                            let ch = c.extract(cross, w - 1, h);
                            let o1 = c.ne(ch, z);
                            let lh = c.extract(low, w - 1, h);
                            let cl = c.extract(cross, h - 1, 0);
                            let sum = c.add(lh, cl);
                            let o2 = c.ult(sum, lh);
                            let o = c.or(both, o1);
                            c.or(o, o2)
                        };
                        (r, o)
                    }
                    Intr::SAddO | Intr::SSubO => {
                        if w >= 128 {
                            return incon("128-bit signed overflow arithmetic");
                        }
                        let (x2, y2) = (c.sext(x, w + 1), c.sext(y, w + 1));
                        let op = if i == Intr::SAddO { Op::Add } else { Op::Sub };
                        let s = c.bin(op, x2, y2);
                        let r = c.extract(s, w - 1, 0);
                        let t = c.extract(s, w, w);
                        let t2 = c.extract(s, w - 1, w - 1);
                        (r, c.ne(t, t2))
                    }
                    _ => {
                        if 2 * w > 128 {
                            return incon("wide signed multiplication");
                        }
                        let (x2, y2) = (c.sext(x, 2 * w), c.sext(y, 2 * w));
                        let p = c.mul(x2, y2);
                        let r = c.extract(p, w - 1, 0);
                        let rs = c.sext(r, 2 * w);
                        (r, c.ne(p, rs))
                    }
                };
                Ok(Val::Agg(Rc::new(vec![from_e(r), from_e(o)])))
            }
            Intr::UAddSat | Intr::USubSat => self.lanewise(rty, &a[..2], &mut |_, w, a| {
                let (x, y) = (to_e(&a[0], w), to_e(&a[1], w));
                Ok(from_e(if i == Intr::UAddSat {
                    let r = c.add(x, y);
                    let o = c.ult(r, x);
                    let m = c.k(w, mask(w));
                    c.ite(o, m, r)
                } else {
                    let r = c.sub(x, y);
                    let o = c.ult(x, y);
                    let m = c.k(w, 0);
                    c.ite(o, m, r)
                }))
            }),
            Intr::SAddSat | Intr::SSubSat => incon("signed saturating arithmetic"),
            Intr::UCmp | Intr::SCmp => {
                let w = atys[0].bits();
                let rw = rty.bits();
                let (x, y) = (to_e(&a[0], w), to_e(&a[1], w));
                let lt = if i == Intr::UCmp { c.ult(x, y) } else { c.slt(x, y) };
                let eq = c.eq(x, y);
                let m1 = c.k(rw, mask(rw));
                let z = c.k(rw, 0);
                let p1 = c.k(rw, 1);
                let t = c.ite(eq, z, p1);
                Ok(from_e(c.ite(lt, m1, t)))
            }
            Intr::Expect | Intr::Ident => Ok(a[0].clone()),
            Intr::IsConst => Ok(Val::C(0)),
            Intr::Trap => viol("abort", "trap/abort executed".into()),
            Intr::ObjSize => Ok(mkc(rty.bits(), u128::MAX)),
            Intr::RedOr | Intr::RedAnd | Intr::RedAdd => {
                let Val::Agg(l) = &a[0] else { return incon("reduce") };
                let w = rty.bits();
                let mut e = to_e(&l[0], w);
                for x in &l[1..] {
                    let x = to_e(x, w);
                    e = match i {
                        Intr::RedOr => c.or(e, x),
                        Intr::RedAnd => c.and(e, x),
                        _ => c.add(e, x),
                    };
                }
                Ok(from_e(e))
            }
            Intr::Panic => {
                if st.allow_panic {
                    return Err(Stop::PanicAllowed);
                }
                let mut msg = String::from("panic");
                let fr = st.frames.last().unwrap();
                if let Inst::Call { callee: Callee::F(id), .. } = &fr.f.code[fr.pc as usize] {
                    msg = format!("panic in {}", self.fname(*id));
                }
                // first plausible Location / message pointers among the arguments
                for x in a.iter().rev() {
                    if let Val::C(p) = x {
                        if let Some(o) = st.mem.find(*p) {
                            if o.kind == Kind::Const && o.size() == 24 && *p == o.base {
                                let fp = u64::from_le_bytes(o.data[0..8].try_into().unwrap());
                                let fl = u64::from_le_bytes(o.data[8..16].try_into().unwrap());
                                let ln = u32::from_le_bytes(o.data[16..20].try_into().unwrap());
                                if let Some(fo) = st.mem.find(fp) {
                                    if fl <= fo.size() {
                                        let name = String::from_utf8_lossy(&fo.data[..fl as usize]).into_owned();
                                        msg += &format!(" at {name}:{ln}");
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                viol("panic", msg)
            }
            Intr::Alloc | Intr::AllocZ => {
                let n = self.concretize(st, &a[0], 64)?;
                let al = self.concretize(st, &a[1], 64)?;
                match st.mem.alloc(n, al, Kind::Heap, if i == Intr::Alloc { 0xA5 } else { 0 }) {
                    Ok(p) => Ok(Val::C(p)),
                    Err(m) => incon(m),
                }
            }
            Intr::Dealloc => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[1], 64)?;
                let al = self.concretize(st, &a[2], 64)?;
                self.check_free(st, p, n, al)?;
                st.mem.free(p);
                Ok(Val::C(0))
            }
            Intr::Realloc => {
                // (ptr, old_size, align, new_size)
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[1], 64)?;
                let al = self.concretize(st, &a[2], 64)?;
                let m = self.concretize(st, &a[3], 64)?;
                self.check_free(st, p, n, al)?;
                let q = match st.mem.alloc(m, al, Kind::Heap, 0xA5) {
                    Ok(q) => q,
                    Err(e) => return incon(e),
                };
                self.memcpy(st, &Val::C(q), &Val::C(p), &Val::C(n.min(m)))?;
                st.mem.free(p);
                Ok(Val::C(q))
            }
            Intr::VpAny => {
                let n = self.concretize(st, &a[1], 64)?;
                let name = if a.len() >= 4 { self.str_at(st, &a[2], &a[3]) } else { String::new() };
                let first = st.nvars;
                let conc = self.opts.concrete.as_ref().map(|v| v.get(st.inputs.len()).cloned().unwrap_or_default());
                let (b, off) = if n == 0 { (0, Val::C(0)) } else { self.resolve(st, &a[0], n, true)? };
                let Val::C(off) = off else { return incon("vp_any into symbolic address") };
                if n > 0 {
                    let o = st.mem.find_mut(b).unwrap();
                    for j in 0..n {
                        let e = match &conc {
                            Some(d) => c.k(8, d.get(j as usize).copied().unwrap_or(0) as u128),
                            None => c.var(8, first + j as u32),
                        };
                        let k = c.k(64, (off + j) as u128);
                        o.write(&st.facts, k, 1, e);
                    }
                }
                st.nvars += n as u32;
                Rc::make_mut(&mut st.inputs).push(Input { name, first, len: n as u32 });
                Ok(Val::C(0))
            }
            Intr::VpAssume => {
                let ok = match &a[0] {
                    Val::C(k) => *k == 1,
                    Val::S(e) => {
                        let e = *e;
                        if let Some(v) = st.known.get(&e) {
                            *v
                        } else if st.model.eval(e) == 1 {
                            self.add_pc(st, e);
                            true
                        } else {
                            match self.feasible(st, e)? {
                                None => false,
                                Some(m) => {
                                    st.model = m;
                                    self.add_pc(st, e);
                                    true
                                }
                            }
                        }
                    }
                    _ => return incon("assume"),
                };
                if ok {
                    Ok(Val::C(0))
                } else {
                    Err(Stop::Assume)
                }
            }
            Intr::VpAssert => {
                let msg = self.str_at(st, &a[1], &a[2]);
                self.cnt.obligations += 1;
                match &a[0] {
                    Val::C(k) => {
                        self.cnt.asserts_conc += 1;
                        if *k != 1 {
                            return viol("assert", msg);
                        }
                        Ok(Val::C(0))
                    }
                    Val::S(e) => {
                        let e = *e;
                        self.cnt.asserts_sym += 1;
                        if let Some(v) = st.known.get(&e).copied().or_else(|| st.facts.truth(e)) {
                            if v {
                                return Ok(Val::C(0));
                            }
                            return viol("assert", msg);
                        }
                        let ne = c.not(e);
                        if st.model.eval(e) == 0 {
                            self.add_pc(st, ne);
                            return viol("assert", msg);
                        }
                        match self.feasible(st, ne)? {
                            None => {
                                self.learn(st, e, true);
                                Ok(Val::C(0))
                            }
                            Some(m) => {
                                st.model = m;
                                self.add_pc(st, ne);
                                viol("assert", msg)
                            }
                        }
                    }
                    _ => incon("assert"),
                }
            }
            Intr::VpReach => {
                let msg = self.str_at(st, &a[0], &a[1]);
                *self.reach.entry(msg).or_insert(0) += 1;
                Ok(Val::C(0))
            }
            Intr::VpNote => {
                let msg = self.str_at(st, &a[0], &a[1]);
                let s = match &a[2] {
                    Val::C(k) => format!("{msg} = {k:#x}"),
                    Val::S(e) => format!("{msg} = {} [model {:#x}]", c.show(*e, 6), st.model.eval(*e)),
                    _ => msg,
                };
                if self.opts.trace {
                    eprintln!("note: {s}");
                }
                if self.opts.concrete.is_some() {
                    self.notes_out.push(s);
                }
                Ok(Val::C(0))
            }
            Intr::VpConc => {
                let v = self.concretize(st, &a[0], 64)?;
                Ok(Val::C(v))
            }
            Intr::VpIsConst => Ok(Val::C(matches!(a[0], Val::C(_)) as u64)),
            Intr::VpSplit => {
                if let Val::C(k) = a[0] {
                    st.split = k != 0;
                }
                Ok(Val::C(0))
            }
            Intr::VpTier => Ok(Val::C(self.opts.tier)),
            Intr::VpHeap => Ok(Val::C(st.mem.heap_live)),
            Intr::VpAllowPanic => {
                if let Val::C(k) = a[0] {
                    st.allow_panic = k != 0;
                }
                Ok(Val::C(0))
            }
            Intr::VpMode => Ok(Val::C(1)),
            Intr::VpSha => {
                // (state: *mut [u32; 8], block: *const u8)
                let mut ins: Vec<E> = vec![];
                for j in 0..8 {
                    let q = self.ptr_add(&a[0], j * 4);
                    ins.push(self.load_int(st, &q, 4)?);
                }
                ins.extend(self.region(st, &a[1], 64)?);
                let symbolic = ins.iter().any(|e| c.cv(*e).is_none());
                let tab = st.sha.clone();
                let mut out: Option<[u32; 8]> = None;
                // identical term
                for t in tab.iter().rev() {
                    if *t.ins == ins {
                        out = Some(t.out);
                        break;
                    }
                }
                if out.is_none() {
                    for t in tab.iter().rev() {
                        if !symbolic && !t.symbolic {
                            continue;
                        }
                        let mut e = c.tru();
                        for (x, y) in ins.iter().zip(t.ins.iter()) {
                            let q = c.eq(*x, *y);
                            e = c.and(e, q);
                            if c.cv(e) == Some(0) {
                                break;
                            }
                        }
                        if c.cv(e) == Some(0) {
                            continue;
                        }
                        if self.decide(st, e)? {
                            out = Some(t.out);
                            break;
                        }
                    }
                }
                let out = match out {
                    Some(o) => o,
                    None => {
                        let mut s = [0u32; 8];
                        let mut blk = [0u8; 64];
                        if symbolic {
                            // a fresh digest of an ideal (collision-free) hash
                            s = [0x76707379, 1, 2, 3, 4, 5, 6, 7];
                            blk[..4].copy_from_slice(&st.nsha.to_le_bytes());
                            st.nsha += 1;
                        } else {
                            for j in 0..8 {
                                s[j] = c.cv(ins[j]).unwrap() as u32;
                            }
                            for j in 0..64 {
                                blk[j] = c.cv(ins[8 + j]).unwrap() as u8;
                            }
                        }
                        crate::sha::compress(&mut s, &blk);
                        Rc::make_mut(&mut st.sha).push(ShaCall { ins: Rc::new(ins), out: s, symbolic });
                        s
                    }
                };
                for j in 0..8 {
                    let q = self.ptr_add(&a[0], j * 4);
                    let e = c.k(32, out[j as usize] as u128);
                    self.store_int(st, &q, 4, e)?;
                }
                Ok(Val::C(0))
            }
        }
    }

    fn check_free(&mut self, st: &State, p: u64, n: u64, al: u64) -> R<()> {
        match st.mem.find(p) {
            Some(o) if o.kind == Kind::Heap && o.base == p => {
                if o.size() != n || o.align != al {
                    return viol("memory", format!("deallocation with layout (size {n}, align {al}) of an object allocated with (size {}, align {})", o.size(), o.align));
                }
                Ok(())
            }
            _ => viol("memory", format!("deallocation of an invalid or already freed pointer {p:#x}")),
        }
    }
}

fn fite(fx: &crate::range::Facts, c: E, a: E, b: E) -> E {
    match fx.truth(c) {
        Some(true) => a,
        Some(false) => b,
        None => cx().ite(c, a, b),
    }
}

fn same_moves(f: &Func, a: u32, b: u32) -> bool {
    let (x, y) = (&f.edges[a as usize].moves, &f.edges[b as usize].moves);
    x.len() == y.len()
        && x.iter().zip(y).all(|(p, q)| {
            p.0 == q.0
                && match (&p.1, &q.1) {
                    (Opnd::R(a), Opnd::R(b)) => a == b,
                    (Opnd::V(Val::C(a)), Opnd::V(Val::C(b))) => a == b,
                    (Opnd::V(Val::S(a)), Opnd::V(Val::S(b))) => a == b,
                    _ => false,
                }
        })
}
