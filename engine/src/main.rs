//! vpsym: symbolic execution of rustc-emitted LLVM IR, decided by z3.
mod exec;
mod expr;
mod ll;
mod mem;
mod range;
mod sha;
mod solver;

use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[repr(C)]
struct Shared {
    active: AtomicI32,
    jobs: i32,
    crashed: AtomicU64,
    viol: [AtomicU64; 256],
    samples: [AtomicU64; 256],
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn emit(out: &std::path::Path, line: String) {
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(out).expect("open results");
    let mut b = line.into_bytes();
    b.push(b'\n');
    f.write_all(&b).expect("write results");
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

struct Cfg {
    out: std::path::PathBuf,
    harness: String,
    hidx: usize,
    max_viol: u64,
    t0: Instant,
    verbose: bool,
    seed: u64,
}

fn stack_names(x: &Exec, st: &State) -> Vec<String> {
    st.frames.iter().rev().take(24).map(|f| x.fname(f.f.id).to_string()).collect()
}

/// Randomises the inputs of a sampled path as far as its path condition allows.
fn spread(st: &mut State, seed: u64) {
    let mut r = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
    let mut next = || {
        r = r.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = r;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    };
    let t0 = Instant::now();
    let ins = st.inputs.clone();
    for i in ins.iter() {
        let step = if i.len <= 8 { i.len.max(1) } else { 4 };
        let mut at = 0;
        while at < i.len {
            if t0.elapsed() > Duration::from_millis(40) {
                return;
            }
            let mut vals = st.model.vals.clone();
            for j in at..(at + step).min(i.len) {
                vals.insert(i.first + j, (next() & 0xff) as u128);
            }
            let m = expr::Model::with(vals);
            if st.pc.iter().all(|c| m.eval(*c) == 1) {
                st.model = m.into();
            }
            at += step;
        }
    }
}

fn inputs_json(st: &State) -> String {
    let ins: Vec<String> = st
        .inputs
        .iter()
        .map(|i| {
            let b: Vec<u8> = (0..i.len).map(|j| st.model.vals.get(&(i.first + j)).copied().unwrap_or(0) as u8).collect();
            format!("{{\"name\":{},\"hex\":\"{}\"}}", esc(&i.name), hex(&b))
        })
        .collect();
    ins.join(",")
}

fn worker(x: &mut Exec, cfg: &Cfg, sh: &Shared) {
    let mut kids: Vec<i32> = vec![];
    let mut last_fork = Instant::now();
    let mut stopped = false;
    let mut cur: Option<State> = None;
    let mut ended = 0u64;
    loop {
        if sh.viol[cfg.hidx].load(SeqCst) >= cfg.max_viol {
            stopped = true;
            break;
        }
        if Instant::now() > x.opts.deadline {
            let n = x.work.len() as u64 + cur.is_some() as u64;
            if n > 0 {
                *x.incon.entry("time budget exhausted with unexplored states".into()).or_insert(0) += n;
            }
            break;
        }
        if cur.is_none() {
            // widen the frontier while other workers are idle
            cur = if sh.active.load(SeqCst) < sh.jobs && !x.work.is_empty() && x.work.len() < 24 { Some(x.work.remove(0)) } else { x.work.pop() };
        }
        let Some(mut st) = cur.take() else { break };
        let res = x.run_path(&mut st, 20_000);
        if matches!(res, Ok(true) | Err(Stop::Done) | Err(Stop::PanicAllowed)) {
            ended += 1;
            if (ended < 3 || ended.is_power_of_two()) && sh.samples[cfg.hidx].fetch_add(1, SeqCst) < 48 && st.pc.iter().all(|c| st.model.eval(*c) == 1) {
                spread(&mut st, cfg.seed.wrapping_add(ended).wrapping_add(std::process::id() as u64));
                emit(&cfg.out, format!("{{\"t\":\"path\",\"h\":{},\"inputs\":[{}]}}", esc(&cfg.harness), inputs_json(&st)));
            }
        }
        match res {
            Ok(false) => {
                cur = Some(st);
            }
            Ok(true) => x.cnt.paths += 1,
            Err(Stop::Done) => x.cnt.paths += 1,
            Err(Stop::Assume) => x.cnt.assume_pruned += 1,
            Err(Stop::PanicAllowed) => x.cnt.panics_allowed += 1,
            Err(Stop::Inconclusive(m)) => {
                let mut key = m;
                if let Some(f) = st.frames.last() {
                    key += &format!(" [in {}]", x.fname(f.f.id));
                }
                if cfg.verbose && !x.incon.contains_key(&key) {
                    eprintln!("inconclusive: {key}\n   {}", stack_names(x, &st).join("\n   "));
                }
                *x.incon.entry(key).or_insert(0) += 1;
            }
            Err(Stop::Violation { kind, msg }) => {
                let bad = st.pc.iter().any(|c| st.model.eval(*c) != 1);
                if bad {
                    if std::env::var("VPSYM_BAD").is_ok() {
                        eprintln!("BAD {msg}: pc {} ", st.pc.len());
                        for (i, c) in st.pc.iter().enumerate() {
                            if st.model.eval(*c) != 1 {
                                eprintln!("   [{i}] {}", expr::cx().show(*c, 12).chars().take(1500).collect::<String>());
                            }
                        }
                    }
                    *x.incon.entry(format!("model does not satisfy the path condition ({kind}: {msg})")).or_insert(0) += 1;
                } else {
                    x.cnt.violations += 1;
                    sh.viol[cfg.hidx].fetch_add(1, SeqCst);
                    let stack: Vec<String> = stack_names(x, &st).iter().map(|s| esc(s)).collect();
                    emit(
                        &cfg.out,
                        format!(
                            "{{\"t\":\"viol\",\"h\":{},\"kind\":{},\"msg\":{},\"ideal_hash\":{},\"stack\":[{}],\"inputs\":[{}]}}",
                            esc(&cfg.harness),
                            esc(&kind),
                            esc(&msg),
                            st.nsha > 0,
                            stack.join(","),
                            inputs_json(&st)
                        ),
                    );
                }
            }
        }
        // share work
        if x.work.len() + cur.is_some() as usize >= 2 && last_fork.elapsed() > Duration::from_millis(25) {
            let a = sh.active.load(SeqCst);
            if a < sh.jobs && sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_ok() {
                let n = x.work.len();
                let give = ((n + 1) / 2).max(1).min(n);
                let pid = unsafe { fork() };
                if pid == 0 {
                    unsafe { prctl(1, 9, 0, 0, 0) };
                    kids.clear();
                    x.work.truncate(give);
                    cur = None;
                    x.cnt = Default::default();
                    x.incon.clear();
                    x.reach.clear();
                    x.solver.stats = Default::default();
                    last_fork = Instant::now();
                } else if pid > 0 {
                    x.work.drain(..give);
                    kids.push(pid);
                    last_fork = Instant::now();
                } else {
                    sh.active.fetch_sub(1, SeqCst);
                }
            }
        }
    }
    // report
    let c = &x.cnt;
    let s = &x.solver.stats;
    let map = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    let cov: Vec<String> = x.covered.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i.to_string()).collect();
    emit(
        &cfg.out,
        format!(
            "{{\"t\":\"end\",\"h\":{},\"stopped\":{},\"paths\":{},\"pruned\":{},\"panics_allowed\":{},\"violations\":{},\"insts\":{},\"forks\":{},\"asserts_sym\":{},\"asserts_conc\":{},\"mem_sym\":{},\"obligations\":{},\"by_facts\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"core_hits\":{},\"solver_ns\":{},\"max_query_ns\":{},\"wall_ms\":{},\"incon\":{{{}}},\"reach\":{{{}}},\"cov\":[{}]}}",
            esc(&cfg.harness), stopped, c.paths, c.assume_pruned, c.panics_allowed, c.violations, c.insts, c.forks, c.asserts_sym, c.asserts_conc,
            c.mem_sym, c.obligations, c.by_facts, s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.core_hits, s.time_ns, s.max_ns, cfg.t0.elapsed().as_millis(),
            map(&x.incon), map(&x.reach), cov.join(",")
        ),
    );
    sh.active.fetch_sub(1, SeqCst);
    for k in kids {
        wait_kid(k, sh);
    }
}

fn wait_kid(k: i32, sh: &Shared) {
    let mut s = 0i32;
    unsafe {
        loop {
            let r = waitpid(k, &mut s, 0);
            if r == k || r < 0 {
                break;
            }
        }
    }
    if s != 0 {
        sh.crashed.fetch_add(1, SeqCst);
        sh.active.fetch_sub(1, SeqCst);
    }
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: vpsym run MODULE.ll [--jobs N] [--time SECONDS] [--rlimit N] [--max-insts N] [--max-viol N] --out FILE HARNESS...\n       vpsym conc MODULE.ll --inputs FILE --out FILE HARNESS");
        std::process::exit(2);
    }
    let mode = args[1].clone();
    let mut i = 3;
    let mut jobs = 8;
    let mut time = 60.0f64;
    let mut rlimit = 40_000_000u32;
    let mut max_insts = 400_000_000u64;
    let mut max_viol = 4;
    let mut out = std::path::PathBuf::from("/dev/stdout");
    let mut inputs = String::new();
    let mut hs: Vec<String> = vec![];
    let mut tier = 0u64;
    let mut seed = 1u64;
    let mut trace = false;
    let mut verbose = false;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--jobs" => jobs = nx().parse().unwrap(),
            "--time" => time = nx().parse().unwrap(),
            "--rlimit" => rlimit = nx().parse().unwrap(),
            "--max-insts" => max_insts = nx().parse().unwrap(),
            "--max-viol" => max_viol = nx().parse().unwrap(),
            "--out" => out = nx().into(),
            "--inputs" => inputs = nx(),
            "--tier" => tier = nx().parse().unwrap(),
            "--seed" => seed = nx().parse().unwrap(),
            "--trace" => trace = true,
            "-v" => verbose = true,
            _ => hs.push(a.to_string()),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read(&args[2]).expect("read module");
    let m: &'static ll::Module = Box::leak(Box::new(ll::Module::parse(text)));
    if verbose {
        eprintln!("parsed in {:?}: {} functions", t0.elapsed(), m.funcs.len());
    }
    let deadline = t0 + Duration::from_secs_f64(time);

    if mode == "conc" {
        let data = std::fs::read_to_string(&inputs).expect("read inputs");
        for line in data.lines() {
            let ins: Vec<Vec<u8>> = line
                .split(',')
                .map(|h| (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect())
                .collect();
            let mut x = Exec::new(m, Opts { max_insts, trace, deadline, concrete: Some(ins), tier }, rlimit);
            x.start(&hs[0]).expect("start");
            let mut st = x.work.pop().unwrap();
            let r = loop {
                match x.run_path(&mut st, 1 << 30) {
                    Ok(false) => continue,
                    Ok(true) | Err(Stop::Done) => break "ok".to_string(),
                    Err(Stop::Assume) => break "assume".into(),
                    Err(Stop::PanicAllowed) => break "panic".into(),
                    Err(Stop::Violation { kind, .. }) => break format!("violation:{kind}"),
                    Err(Stop::Inconclusive(m)) => break format!("inconclusive:{m}"),
                }
            };
            let notes: Vec<String> = x.notes_out.iter().map(|n| esc(n)).collect();
            emit(&out, format!("{{\"t\":\"conc\",\"h\":{},\"r\":{},\"notes\":[{}],\"forks\":{},\"insts\":{}}}", esc(&hs[0]), esc(&r), notes.join(","), x.cnt.forks, x.cnt.insts));
        }
        return;
    }

    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 65536, 3, 0x21, -1, 0);
        let s = p as *mut Shared;
        (*s).jobs = jobs;
        &*s
    };
    let mut kids = vec![];
    for (hidx, h) in hs.iter().enumerate() {
        loop {
            let a = sh.active.load(SeqCst);
            if a < jobs && sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_ok() {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            let cfg = Cfg { out: out.clone(), harness: h.clone(), hidx, max_viol, t0: Instant::now(), verbose, seed };
            let mut x = Exec::new(m, Opts { max_insts, trace, deadline, concrete: None, tier }, rlimit);
            if let Err(e) = x.start(h) {
                x.incon.insert(e, 1);
            }
            worker(&mut x, &cfg, sh);
            unsafe { _exit(0) };
        }
        kids.push(pid);
    }
    for k in kids {
        wait_kid(k, sh);
    }
    let names: Vec<String> = m.funcs.iter().map(|f| esc(&f.name)).collect();
    emit(&out, format!("{{\"t\":\"final\",\"crashed\":{},\"z3\":{},\"wall_ms\":{},\"funcs\":[{}]}}", sh.crashed.load(SeqCst), esc(&solver::z3_version()), t0.elapsed().as_millis(), names.join(",")));
}

fn main() {
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    if t.join().is_err() {
        std::process::exit(3);
    }
}
