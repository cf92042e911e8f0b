//! Replays a solver counterexample (or a sample input) against the real crate.
//! usage: vpnative HARNESS INPUTS TIER      (INPUTS: comma separated hex, one item per `vp_any` call)
//!        vpnative --batch HARNESS FILE TIER  (one input line per run, all in this process)
#[path = "../../harness/vp.rs"]
#[macro_use]
pub mod vp;
/// The harness module of the property being checked.
pub mod m {
    include!(env!("VP_MODULE"));
}

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

static LIVE: AtomicU64 = AtomicU64::new(0);
static TRACK: AtomicBool = AtomicBool::new(false);
static BAD_LAYOUT: AtomicU64 = AtomicU64::new(0);

// a side table of live blocks, so that a free with the wrong layout (or of a block that is
// not live) is seen
const SLOTS: usize = 1 << 16;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut TAB: [(usize, usize, usize); SLOTS] = [(0, 0, 0); SLOTS];

struct A;
fn locked<R>(f: impl FnOnce(&mut [(usize, usize, usize); SLOTS]) -> R) -> R {
    while LOCK.swap(true, SeqCst) {}
    let r = f(unsafe { &mut *std::ptr::addr_of_mut!(TAB) });
    LOCK.store(false, SeqCst);
    r
}
fn slot(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48
}
fn add(p: usize, l: Layout) {
    locked(|t| {
        let mut i = slot(p);
        for _ in 0..SLOTS {
            if t[i].0 <= 1 {
                t[i] = (p, l.size(), l.align());
                return;
            }
            i = (i + 1) % SLOTS;
        }
    })
}
fn del(p: usize, l: Layout) {
    locked(|t| {
        let mut i = slot(p);
        for _ in 0..SLOTS {
            if t[i].0 == p {
                if t[i].1 != l.size() || t[i].2 != l.align() {
                    BAD_LAYOUT.fetch_add(1, SeqCst);
                }
                t[i] = (1, 0, 0);
                return;
            }
            if t[i].0 == 0 {
                break;
            }
            i = (i + 1) % SLOTS;
        }
        BAD_LAYOUT.fetch_add(1, SeqCst);
    })
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        LIVE.fetch_add(1, SeqCst);
        add(p as usize, l);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, SeqCst);
        del(p as usize, l);
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static GLOBAL: A = A;

#[derive(Default)]
struct Run {
    inputs: Vec<Vec<u8>>,
    at: usize,
    notes: Vec<String>,
    allow_panic: bool,
    base: u64,
    base_bad: u64,
    batch: bool,
    tier: u64,
}
thread_local! { static RUN: RefCell<Run> = RefCell::new(Run::default()); }

struct Abort(String);
fn finish(outcome: String) -> ! {
    let batch = RUN.with(|r| r.borrow().batch);
    if batch {
        std::panic::resume_unwind(Box::new(Abort(outcome)));
    }
    report(&outcome);
    std::process::exit(0)
}
fn report(outcome: &str) {
    RUN.with(|r| {
        let r = r.borrow();
        println!("OUTCOME {}\t{}", outcome.replace(['\n', '\t'], " "), r.notes.join("\t"));
    })
}

#[unsafe(no_mangle)]
extern "C" fn vp_any_bytes(p: *mut u8, n: usize, _name: *const u8, _nl: usize) {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let at = r.at;
        r.at += 1;
        let d = r.inputs.get(at).cloned().unwrap_or_default();
        for i in 0..n {
            unsafe { *p.add(i) = d.get(i).copied().unwrap_or(0) }
        }
    })
}
// These unwind through an `extern "C"` boundary in batch mode, hence "C-unwind".
#[unsafe(no_mangle)]
extern "C-unwind" fn vp_assume(c: bool) {
    if !c {
        finish("assume".into())
    }
}
fn msg(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
#[unsafe(no_mangle)]
extern "C-unwind" fn vp_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        finish(format!("violation:assert:{}", msg(p, n)))
    }
}
#[unsafe(no_mangle)]
extern "C" fn vp_reach(_p: *const u8, _n: usize) {}
#[unsafe(no_mangle)]
extern "C" fn vp_concretize(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
extern "C" fn vp_heap_live() -> u64 {
    RUN.with(|r| LIVE.load(SeqCst).wrapping_sub(r.borrow().base))
}
#[unsafe(no_mangle)]
extern "C" fn vp_allow_panic(v: u64) {
    RUN.with(|r| r.borrow_mut().allow_panic = v != 0)
}
#[unsafe(no_mangle)]
extern "C" fn vp_symbolic_mode() -> u64 {
    0
}
#[unsafe(no_mangle)]
extern "C" fn vp_split(_: u64) {}
#[unsafe(no_mangle)]
extern "C" fn vp_tier() -> u64 {
    RUN.with(|r| r.borrow().tier)
}
#[unsafe(no_mangle)]
extern "C" fn vp_note(p: *const u8, n: usize, v: u64) {
    RUN.with(|r| {
        let live = LIVE.load(SeqCst);
        r.borrow_mut().notes.push(format!("{} = {:#x}", msg(p, n), v));
        // the note itself does not count as a live block of the code under test
        r.borrow_mut().base += LIVE.load(SeqCst).wrapping_sub(live);
    })
}

fn one(f: extern "C-unwind" fn(), line: &str, batch: bool, tier: u64) {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        *r = Run {
            inputs: line.split(',').map(|h| (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect()).collect(),
            batch,
            tier,
            ..Default::default()
        };
        r.notes.reserve(4096);
        r.base = LIVE.load(SeqCst);
        r.base_bad = BAD_LAYOUT.load(SeqCst);
    });
    let res = std::panic::catch_unwind(|| f());
    let bad = RUN.with(|r| BAD_LAYOUT.load(SeqCst) != r.borrow().base_bad);
    let out = match res {
        _ if bad => "violation:memory:free with a layout or address that is not that of a live block".into(),
        Ok(()) => "ok".into(),
        Err(e) => match e.downcast::<Abort>() {
            Ok(a) => a.0,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let allowed = RUN.with(|r| r.borrow().allow_panic);
                if allowed { "panic".into() } else { format!("violation:panic:{m}") }
            }
        },
    };
    report(&out);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (batch, rest) = if a[1] == "--batch" { (true, &a[2..]) } else { (false, &a[1..]) };
    TRACK.store(true, SeqCst);
    let tier: u64 = rest.get(2).map(|s| s.parse().unwrap()).unwrap_or(0);
    let f = m::TABLE
        .iter()
        .find(|(n, _)| *n == rest[0])
        .map(|x| x.1)
        .expect("no such harness");
    std::panic::set_hook(Box::new(move |i| {
        if std::env::var_os("VP_VERBOSE").is_some() {
            eprintln!("{i}");
        }
    }));
    if batch {
        let data = std::fs::read_to_string(&rest[1]).unwrap();
        for l in data.lines() {
            one(f, l, true, tier);
        }
    } else {
        let line = std::fs::read_to_string(&rest[1]).map(|s| s.trim().to_string()).unwrap_or(rest[1].clone());
        one(f, &line, false, tier);
    }
}
