//! Z3 back end (loaded with dlopen), bit-vector queries with assumption literals.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type Z = *mut c_void;

extern "C" {
    fn dlopen(p: *const c_char, f: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}

macro_rules! api {
    ($($n:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($n: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: *mut c_void) -> Api {
                Api { $($n: {
                    let s = CString::new(stringify!($n)).unwrap();
                    let p = dlsym(h, s.as_ptr());
                    if p.is_null() { panic!("z3 symbol {} missing", stringify!($n)); }
                    std::mem::transmute(p)
                },)* }
            }
        }
    };
}

api! {
    Z3_mk_config: fn() -> Z;
    Z3_set_param_value: fn(Z, *const c_char, *const c_char);
    Z3_mk_context_rc: fn(Z) -> Z;
    Z3_del_context: fn(Z);
    Z3_mk_solver_for_logic: fn(Z, Z) -> Z;
    Z3_mk_string_symbol: fn(Z, *const c_char) -> Z;
    Z3_mk_int_symbol: fn(Z, c_int) -> Z;
    Z3_solver_inc_ref: fn(Z, Z);
    Z3_solver_dec_ref: fn(Z, Z);
    Z3_solver_assert: fn(Z, Z, Z);
    Z3_solver_check_assumptions: fn(Z, Z, c_uint, *const Z) -> c_int;
    Z3_solver_get_unsat_core: fn(Z, Z) -> Z;
    Z3_ast_vector_inc_ref: fn(Z, Z);
    Z3_ast_vector_dec_ref: fn(Z, Z);
    Z3_ast_vector_size: fn(Z, Z) -> c_uint;
    Z3_ast_vector_get: fn(Z, Z, c_uint) -> Z;
    Z3_solver_get_model: fn(Z, Z) -> Z;
    Z3_solver_set_params: fn(Z, Z, Z);
    Z3_mk_params: fn(Z) -> Z;
    Z3_params_inc_ref: fn(Z, Z);
    Z3_params_set_uint: fn(Z, Z, Z, c_uint);
    Z3_model_inc_ref: fn(Z, Z);
    Z3_model_dec_ref: fn(Z, Z);
    Z3_model_get_const_interp: fn(Z, Z, Z) -> Z;
    Z3_get_app_decl: fn(Z, Z) -> Z;
    Z3_to_app: fn(Z, Z) -> Z;
    Z3_get_numeral_string: fn(Z, Z) -> *const c_char;
    Z3_inc_ref: fn(Z, Z);
    Z3_dec_ref: fn(Z, Z);
    Z3_mk_bv_sort: fn(Z, c_uint) -> Z;
    Z3_mk_bool_sort: fn(Z) -> Z;
    Z3_mk_const: fn(Z, Z, Z) -> Z;
    Z3_mk_numeral: fn(Z, *const c_char, Z) -> Z;
    Z3_mk_unsigned_int64: fn(Z, u64, Z) -> Z;
    Z3_mk_true: fn(Z) -> Z;
    Z3_mk_false: fn(Z) -> Z;
    Z3_mk_not: fn(Z, Z) -> Z;
    Z3_mk_and: fn(Z, c_uint, *const Z) -> Z;
    Z3_mk_or: fn(Z, c_uint, *const Z) -> Z;
    Z3_mk_xor: fn(Z, Z, Z) -> Z;
    Z3_mk_eq: fn(Z, Z, Z) -> Z;
    Z3_mk_ite: fn(Z, Z, Z, Z) -> Z;
    Z3_mk_implies: fn(Z, Z, Z) -> Z;
    Z3_mk_bvadd: fn(Z, Z, Z) -> Z;
    Z3_mk_bvsub: fn(Z, Z, Z) -> Z;
    Z3_mk_bvmul: fn(Z, Z, Z) -> Z;
    Z3_mk_bvudiv: fn(Z, Z, Z) -> Z;
    Z3_mk_bvurem: fn(Z, Z, Z) -> Z;
    Z3_mk_bvsdiv: fn(Z, Z, Z) -> Z;
    Z3_mk_bvsrem: fn(Z, Z, Z) -> Z;
    Z3_mk_bvand: fn(Z, Z, Z) -> Z;
    Z3_mk_bvor: fn(Z, Z, Z) -> Z;
    Z3_mk_bvxor: fn(Z, Z, Z) -> Z;
    Z3_mk_bvnot: fn(Z, Z) -> Z;
    Z3_mk_bvshl: fn(Z, Z, Z) -> Z;
    Z3_mk_bvlshr: fn(Z, Z, Z) -> Z;
    Z3_mk_bvashr: fn(Z, Z, Z) -> Z;
    Z3_mk_bvult: fn(Z, Z, Z) -> Z;
    Z3_mk_bvule: fn(Z, Z, Z) -> Z;
    Z3_mk_bvslt: fn(Z, Z, Z) -> Z;
    Z3_mk_bvsle: fn(Z, Z, Z) -> Z;
    Z3_mk_concat: fn(Z, Z, Z) -> Z;
    Z3_mk_extract: fn(Z, c_uint, c_uint, Z) -> Z;
    Z3_mk_zero_ext: fn(Z, c_uint, Z) -> Z;
    Z3_mk_sign_ext: fn(Z, c_uint, Z) -> Z;
    Z3_get_full_version: fn() -> *const c_char;
    Z3_set_error_handler: fn(Z, *mut c_void);
}

static mut API: *const Api = std::ptr::null();
fn api() -> &'static Api {
    unsafe {
        if API.is_null() {
            let mut h = std::ptr::null_mut();
            let env = std::env::var("VPSYM_Z3").unwrap_or_default();
            for p in [
                env.as_str(),
                "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
                "/usr/lib/x86_64-linux-gnu/libz3.so",
                "libz3.so",
                "libz3.so.4",
            ] {
                if p.is_empty() {
                    continue;
                }
                let s = CString::new(p).unwrap();
                h = dlopen(s.as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            if h.is_null() {
                panic!("cannot load libz3");
            }
            API = Box::into_raw(Box::new(Api::load(h)));
        }
        &*API
    }
}

pub fn z3_version() -> String {
    unsafe { std::ffi::CStr::from_ptr((api().Z3_get_full_version)()).to_string_lossy().into_owned() }
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub core_hits: u64,
    pub time_ns: u64,
    pub max_ns: u64,
    pub fresh: u64,
    pub bad_models: u64,
}

pub enum Res {
    Sat(FxMap<u32, u128>),
    Unsat,
    Unknown,
}

pub struct Solver {
    cores: FxMap<E, Vec<Vec<E>>>,
    ctx: Z,
    s: Z,
    bv: Vec<Z>,
    bl: Vec<Z>,
    lit: FxMap<E, Z>,
    /// depth of the chain of associative binary operators below a term: z3's API walks such
    /// chains on every construction, so they are cut with no-op terms
    chain: Vec<u8>,
    vars: FxMap<u32, (Z, u32)>,
    since: u32,
    pub stats: Stats,
    cache: FxMap<Vec<E>, Option<std::rc::Rc<FxMap<u32, u128>>>>,
    rlimit: u32,
    /// budget of the incremental solver; what it cannot decide within goes to a fresh one
    small: u32,
    slow_ns: u64,
}

unsafe extern "C" fn on_err(_c: Z, e: c_int) {
    eprintln!("z3 error code {e}");
    std::process::exit(97);
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            bv: vec![],
            bl: vec![],
            lit: Default::default(),
            chain: vec![],
            vars: Default::default(),
            since: 0,
            stats: Default::default(),
            cache: Default::default(),
            cores: Default::default(),
            rlimit,
            small: std::env::var("VPSYM_SMALL").ok().and_then(|x| x.parse().ok()).unwrap_or(400_000),
            slow_ns: std::env::var("VPSYM_SLOW").ok().and_then(|x| x.parse::<u64>().ok()).map(|x| x * 1_000_000).unwrap_or(u64::MAX),
        };
        s.reset();
        s
    }

    fn reset(&mut self) {
        let a = api();
        unsafe {
            if !self.ctx.is_null() {
                (a.Z3_del_context)(self.ctx);
            }
            let cfg = (a.Z3_mk_config)();
            self.ctx = (a.Z3_mk_context_rc)(cfg);
            (a.Z3_set_error_handler)(self.ctx, on_err as *mut c_void);
            let l = CString::new("QF_BV").unwrap();
            let sy = (a.Z3_mk_string_symbol)(self.ctx, l.as_ptr());
            self.s = (a.Z3_mk_solver_for_logic)(self.ctx, sy);
            (a.Z3_solver_inc_ref)(self.ctx, self.s);
            self.limit(self.s, self.rlimit.min(self.small));
        }
        self.bv.clear();
        self.bl.clear();
        self.lit.clear();
        self.chain.clear();
        self.vars.clear();
        self.since = 0;
    }

    fn limit(&self, s: Z, n: u32) {
        let a = api();
        if n > 0 {
            unsafe {
                let p = (a.Z3_mk_params)(self.ctx);
                (a.Z3_params_inc_ref)(self.ctx, p);
                let r = CString::new("rlimit").unwrap();
                let rs = (a.Z3_mk_string_symbol)(self.ctx, r.as_ptr());
                (a.Z3_params_set_uint)(self.ctx, p, rs, n);
                (a.Z3_solver_set_params)(self.ctx, s, p);
            }
        }
    }

    fn keep(&self, z: Z) -> Z {
        unsafe { (api().Z3_inc_ref)(self.ctx, z) };
        z
    }

    fn get(v: &[Z], e: E) -> Z {
        v.get(e as usize).copied().unwrap_or(std::ptr::null_mut())
    }
    fn put(v: &mut Vec<Z>, e: E, z: Z) {
        if v.len() <= e as usize {
            v.resize(e as usize + 1, std::ptr::null_mut());
        }
        v[e as usize] = z;
    }

    fn depth(&mut self, a: E, b: E) -> u8 {
        1 + self.chain.get(a as usize).copied().unwrap_or(0).max(self.chain.get(b as usize).copied().unwrap_or(0))
    }
    fn set_depth(&mut self, e: E, d: u8) {
        if self.chain.len() <= e as usize {
            self.chain.resize(e as usize + 1, 0);
        }
        self.chain[e as usize] = d;
    }

    /// Boolean translation of a width-1 term.
    fn tb(&mut self, e: E) -> Z {
        let z = Self::get(&self.bl, e);
        if !z.is_null() {
            return z;
        }
        let a = api();
        let n = cx().n(e);
        let c = self.ctx;
        debug_assert_eq!(n.w, 1);
        let z = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        (a.Z3_mk_true)(c)
                    } else {
                        (a.Z3_mk_false)(c)
                    }
                }
                Op::Not => {
                    let x = self.tb(n.a);
                    (a.Z3_mk_not)(c, x)
                }
                Op::And => {
                    let v = [self.tb(n.a), self.tb(n.b), self.keep((a.Z3_mk_true)(c))];
                    (a.Z3_mk_and)(c, 3, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.tb(n.a), self.tb(n.b), self.keep((a.Z3_mk_false)(c))];
                    (a.Z3_mk_or)(c, 3, v.as_ptr())
                }
                Op::Xor => {
                    let (x, y) = (self.tb(n.a), self.tb(n.b));
                    let q = self.keep((a.Z3_mk_eq)(c, x, y));
                    (a.Z3_mk_not)(c, q)
                }
                Op::Ite => {
                    let (x, y, w) = (self.tb(n.a), self.tb(n.b), self.tb(n.c));
                    (a.Z3_mk_ite)(c, x, y, w)
                }
                Op::Eq if cx().w(n.a) == 1 => {
                    let (x, y) = (self.tb(n.a), self.tb(n.b));
                    (a.Z3_mk_eq)(c, x, y)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (x, y) = (self.tv(n.a), self.tv(n.b));
                    match n.op {
                        Op::Eq => (a.Z3_mk_eq)(c, x, y),
                        Op::Ult => (a.Z3_mk_bvult)(c, x, y),
                        Op::Ule => (a.Z3_mk_bvule)(c, x, y),
                        Op::Slt => (a.Z3_mk_bvslt)(c, x, y),
                        _ => (a.Z3_mk_bvsle)(c, x, y),
                    }
                }
                _ => {
                    let x = self.tv(e);
                    let one = self.keep((a.Z3_mk_unsigned_int64)(c, 1, (a.Z3_mk_bv_sort)(c, 1)));
                    (a.Z3_mk_eq)(c, x, one)
                }
            }
        };
        let z = self.keep(z);
        Self::put(&mut self.bl, e, z);
        z
    }

    fn tv(&mut self, e: E) -> Z {
        let z = Self::get(&self.bv, e);
        if !z.is_null() {
            return z;
        }
        let a = api();
        let n = cx().n(e);
        let c = self.ctx;
        let w = n.w as c_uint;
        let z = unsafe {
            match n.op {
                Op::Const => {
                    let sort = (a.Z3_mk_bv_sort)(c, w);
                    if n.k <= u64::MAX as u128 {
                        (a.Z3_mk_unsigned_int64)(c, n.k as u64, sort)
                    } else {
                        let s = CString::new(n.k.to_string()).unwrap();
                        (a.Z3_mk_numeral)(c, s.as_ptr(), sort)
                    }
                }
                Op::Var => {
                    let sort = (a.Z3_mk_bv_sort)(c, w);
                    let sy = (a.Z3_mk_int_symbol)(c, n.k as c_int);
                    let z = (a.Z3_mk_const)(c, sy, sort);
                    self.vars.insert(n.k as u32, (z, n.w as u32));
                    z
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.tb(e);
                    let sort = (a.Z3_mk_bv_sort)(c, 1);
                    let o = self.keep((a.Z3_mk_unsigned_int64)(c, 1, sort));
                    let zz = self.keep((a.Z3_mk_unsigned_int64)(c, 0, sort));
                    (a.Z3_mk_ite)(c, b, o, zz)
                }
                Op::Ite => {
                    let b = self.tb(n.a);
                    let (x, y) = (self.tv(n.b), self.tv(n.c));
                    (a.Z3_mk_ite)(c, b, x, y)
                }
                Op::Not => {
                    let x = self.tv(n.a);
                    (a.Z3_mk_bvnot)(c, x)
                }
                Op::Extract => {
                    let x = self.tv(n.a);
                    (a.Z3_mk_extract)(c, n.k as c_uint + w - 1, n.k as c_uint, x)
                }
                Op::ZExt => {
                    let x = self.tv(n.a);
                    (a.Z3_mk_zero_ext)(c, w - cx().w(n.a), x)
                }
                Op::SExt => {
                    let x = self.tv(n.a);
                    (a.Z3_mk_sign_ext)(c, w - cx().w(n.a), x)
                }
                _ => {
                    let (x, y) = (self.tv(n.a), self.tv(n.b));
                    let f = match n.op {
                        Op::Add => a.Z3_mk_bvadd,
                        Op::Sub => a.Z3_mk_bvsub,
                        Op::Mul => a.Z3_mk_bvmul,
                        Op::UDiv => a.Z3_mk_bvudiv,
                        Op::URem => a.Z3_mk_bvurem,
                        Op::SDiv => a.Z3_mk_bvsdiv,
                        Op::SRem => a.Z3_mk_bvsrem,
                        Op::And => a.Z3_mk_bvand,
                        Op::Or => a.Z3_mk_bvor,
                        Op::Xor => a.Z3_mk_bvxor,
                        Op::Shl => a.Z3_mk_bvshl,
                        Op::LShr => a.Z3_mk_bvlshr,
                        Op::AShr => a.Z3_mk_bvashr,
                        Op::Concat => a.Z3_mk_concat,
                        _ => unreachable!(),
                    };
                    let z = f(c, x, y);
                    if matches!(n.op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Concat) {
                        let d = self.depth(n.a, n.b);
                        if d >= 6 {
                            let z = self.keep(z);
                            (a.Z3_mk_extract)(c, w - 1, 0, z)
                        } else {
                            self.set_depth(e, d);
                            z
                        }
                    } else {
                        z
                    }
                }
            }
        };
        let z = self.keep(z);
        Self::put(&mut self.bv, e, z);
        z
    }

    /// Is `c` refuted by an unsatisfiable core seen before, all of whose other members hold here?
    pub fn refuted(&mut self, c: E, holds: impl Fn(E) -> bool) -> bool {
        if let Some(v) = self.cores.get(&c) {
            if v.iter().any(|k| k.iter().all(|e| holds(*e))) {
                self.stats.core_hits += 1;
                return true;
            }
        }
        false
    }

    fn fresh_solver(&mut self, key: &[E]) -> Z {
        self.stats.fresh += 1;
        let a = api();
        unsafe {
            let l = CString::new("QF_BV").unwrap();
            let sy = (a.Z3_mk_string_symbol)(self.ctx, l.as_ptr());
            let s = (a.Z3_mk_solver_for_logic)(self.ctx, sy);
            (a.Z3_solver_inc_ref)(self.ctx, s);
            self.limit(s, self.rlimit);
            for &e in key {
                let b = self.tb(e);
                (a.Z3_solver_assert)(self.ctx, s, b);
            }
            s
        }
    }

    fn values(&self, used: Z, need: &FxSet<u32>) -> FxMap<u32, u128> {
        let a = api();
        let mut vals: FxMap<u32, u128> = Default::default();
        unsafe {
            let m = (a.Z3_solver_get_model)(self.ctx, used);
            (a.Z3_model_inc_ref)(self.ctx, m);
            for &v in need {
                let (z, _) = self.vars[&v];
                let d = (a.Z3_get_app_decl)(self.ctx, (a.Z3_to_app)(self.ctx, z));
                let x = (a.Z3_model_get_const_interp)(self.ctx, m, d);
                let val = if x.is_null() {
                    0
                } else {
                    std::ffi::CStr::from_ptr((a.Z3_get_numeral_string)(self.ctx, x)).to_str().unwrap().parse::<u128>().unwrap()
                };
                vals.insert(v, val);
            }
            (a.Z3_model_dec_ref)(self.ctx, m);
        }
        vals
    }

    /// Is the conjunction of `cs` satisfiable?  `cs` need not be sorted.
    pub fn check(&mut self, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r {
                None => Res::Unsat,
                Some(m) => Res::Sat((**m).clone()),
            };
        }
        if self.since > 400 {
            self.reset();
        }
        self.since += 1;
        let t0 = std::time::Instant::now();
        let a = api();
        let mut lits: Vec<Z> = vec![];
        let mut need: FxSet<u32> = Default::default();
        for &e in &key {
            for v in cx().vars(e).iter() {
                need.insert(*v);
            }
            let l = match self.lit.get(&e) {
                Some(l) => *l,
                None => unsafe {
                    let b = self.tb(e);
                    let sy = (a.Z3_mk_string_symbol)(self.ctx, CString::new(format!("p{e}")).unwrap().as_ptr());
                    let l = self.keep((a.Z3_mk_const)(self.ctx, sy, (a.Z3_mk_bool_sort)(self.ctx)));
                    let im = self.keep((a.Z3_mk_implies)(self.ctx, l, b));
                    (a.Z3_solver_assert)(self.ctx, self.s, im);
                    (a.Z3_dec_ref)(self.ctx, im);
                    self.lit.insert(e, l);
                    l
                },
            };
            lits.push(l);
        }
        let mut r = unsafe { (a.Z3_solver_check_assumptions)(self.ctx, self.s, lits.len() as c_uint, lits.as_ptr()) };
        let mut fresh = None;
        if r == 0 {
            // a fresh solver has nothing but this query in it, and preprocesses it
            let s = self.fresh_solver(&key);
            r = unsafe { (a.Z3_solver_check_assumptions)(self.ctx, s, 0, std::ptr::null()) };
            fresh = Some(s);
        }
        let mut vals: FxMap<u32, u128> = Default::default();
        if r == 1 {
            vals = self.values(fresh.unwrap_or(self.s), &need);
            let m = Model::with(vals.clone());
            if key.iter().any(|e| m.eval(*e) != 1) {
                // z3 4.8 may lose clauses of a query cut off by its resource limit: the answer of the
                // incremental solver is not used, and neither is the solver
                self.stats.bad_models += 1;
                if fresh.is_none() {
                    self.reset();
                    fresh = Some(self.fresh_solver(&key));
                    r = unsafe { (a.Z3_solver_check_assumptions)(self.ctx, fresh.unwrap(), 0, std::ptr::null()) };
                    if r == 1 {
                        vals = self.values(fresh.unwrap(), &need);
                        let m = Model::with(vals.clone());
                        if key.iter().any(|e| m.eval(*e) != 1) {
                            r = 0;
                        }
                    }
                } else {
                    r = 0;
                }
            }
        }
        let out = match r {
            1 => {
                self.stats.sat += 1;
                self.cache.insert(key, Some(std::rc::Rc::new(vals.clone())));
                Res::Sat(vals)
            }
            -1 => {
                self.stats.unsat += 1;
                // remember which constraints refuted the query
                if fresh.is_none() {
                    unsafe {
                    let v = (a.Z3_solver_get_unsat_core)(self.ctx, self.s);
                    (a.Z3_ast_vector_inc_ref)(self.ctx, v);
                    let n = (a.Z3_ast_vector_size)(self.ctx, v);
                    let mut core: Vec<E> = vec![];
                    let mut ok = true;
                    for i in 0..n {
                        let l = (a.Z3_ast_vector_get)(self.ctx, v, i);
                        match lits.iter().position(|x| *x == l) {
                            Some(k) => core.push(key[k]),
                            None => ok = false,
                        }
                    }
                    (a.Z3_ast_vector_dec_ref)(self.ctx, v);
                    let t = cs[0];
                    if ok && core.contains(&t) {
                        core.retain(|x| *x != t);
                        let cv = self.cores.entry(t).or_default();
                        if cv.len() < 24 {
                            cv.push(core);
                        }
                    }
                }
                }
                self.cache.insert(key, None);
                Res::Unsat
            }
            _ => {
                self.stats.unknown += 1;
                self.reset();
                Res::Unknown
            }
        };
        if let Some(s) = fresh {
            if !matches!(out, Res::Unknown) {
                unsafe { (a.Z3_solver_dec_ref)(self.ctx, s) };
            }
        }
        let dt = t0.elapsed().as_nanos() as u64;
        self.stats.queries += 1;
        self.stats.time_ns += dt;
        self.stats.max_ns = self.stats.max_ns.max(dt);
        if dt > self.slow_ns {
            let k = match &out {
                Res::Sat(_) => "sat",
                Res::Unsat => "unsat",
                _ => "unknown",
            };
            eprintln!("slow query {} ms {k}:", dt / 1_000_000);
            for e in cs {
                let mut s = cx().show(*e, 12);
                s.truncate(1500);
                eprintln!("    {s}");
            }
        }
        out
    }
}
