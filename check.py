#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--keep] [--only HARNESS]

Decides one property by symbolic execution of the real code (rustc's LLVM IR of /repo,
regenerated now) and z3.  Exit 0: held on everything within the stated bounds.  Exit 1 with
a VIOLATION line: a counterexample that was reproduced against the native build of /repo.
Exit 3: no answer (a counterexample that does not reproduce, solver unknowns, time out ...).
"""
import collections, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from registry import PROPS  # noqa: E402

REPO = "/repo"
ENGINE = f"{VERIF}/engine/target/release/vpsym"
TARGET = f"{VERIF}/target"
SYM_FLAGS = '-C no-vectorize-loops -C no-vectorize-slp --cfg curve25519_dalek_backend="serial"'


class NoAnswer(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def repo_hash():
    """Hash of everything in /repo that can influence a build of the crate."""
    h = hashlib.sha256()
    files = []
    for top in ("src", "proc", "abi-proc"):
        for d, ds, fs in os.walk(f"{REPO}/{top}"):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in fs]
    files += [f"{REPO}/{f}" for f in ("Cargo.toml", "build.rs") if os.path.exists(f"{REPO}/{f}")]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def stamp(tdir, want, pkgdir):
    """cargo decides freshness by mtime; a content stamp makes that independent of clocks."""
    p = f"{tdir}/.repo-hash"
    try:
        have = open(p).read()
    except OSError:
        have = None
    if have != want and os.path.isdir(tdir):
        for prof in os.listdir(tdir):
            fp = f"{tdir}/{prof}/.fingerprint"
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith(("tycho-types", "vpsym-harness", "vpnative")):
                        shutil.rmtree(f"{fp}/{n}", ignore_errors=True)
    os.makedirs(tdir, exist_ok=True)
    with open(p, "w") as f:
        f.write(want)


def build_engine():
    if os.path.exists(ENGINE):
        src = max(os.stat(os.path.join(f"{VERIF}/engine/src", f)).st_mtime for f in os.listdir(f"{VERIF}/engine/src"))
        if src <= os.stat(ENGINE).st_mtime:
            return
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=f"{VERIF}/engine", env=env(), capture_output=True, text=True)
    if r.returncode:
        raise NoAnswer("engine does not build:\n" + r.stderr[-3000:])


def module_path(part):
    return f"{VERIF}/harness/{part['module']}.rs"


def feat_dir(part):
    return part.get("dir", part["module"])


def sym_build(part, rh, wait=True):
    tdir = f"{TARGET}/sym/{feat_dir(part)}"
    stamp(tdir, rh, None)
    cmd = ["cargo", "rustc", "--offline", "--locked", "--profile", "sym", "--target-dir", tdir]
    if part.get("features"):
        cmd += ["--features", part["features"]]
    cmd += ["--", "--emit=llvm-ir,link"]
    return subprocess.Popen(cmd, cwd=f"{VERIF}/sym", env=env(RUSTFLAGS=SYM_FLAGS, VP_MODULE=module_path(part)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def native_build(part, rh, profile):
    """profile: dev (debug assertions and overflow checks on), release, asan."""
    tdir = f"{TARGET}/native/{feat_dir(part)}"
    if profile == "asan":
        tdir += "-asan"
    stamp(tdir, rh, None)
    cmd = ["cargo", "build", "--offline", "--locked", "--target-dir", tdir]
    e = env(VP_MODULE=module_path(part))
    if profile == "release":
        cmd.append("--release")
    if profile == "asan":
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        e = env(VP_MODULE=module_path(part), RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=address")
    if part.get("features"):
        cmd += ["--features", part["features"]]
    return subprocess.Popen(cmd, cwd=f"{VERIF}/native", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def native_bin(part, profile):
    tdir = f"{TARGET}/native/{feat_dir(part)}"
    return {
        "dev": f"{tdir}/debug/vpnative",
        "release": f"{tdir}/release/vpnative",
        "asan": f"{tdir}-asan/x86_64-unknown-linux-gnu/debug/vpnative",
    }[profile]


def done(p, what):
    out, _ = p.communicate()
    if p.returncode:
        raise NoAnswer(f"{what} failed:\n{out[-4000:]}")


def inputs_line(v):
    return ",".join(i["hex"] for i in v["inputs"])


def run_native(part, profile, harness, line, tier, timeout=60):
    """-> (outcome, notes, log)"""
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", VP_VERBOSE="1")

    def lim():
        if profile != "asan":
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            # unbounded recursion (more than 20000 frames in the engine) must fail here too
            resource.setrlimit(resource.RLIMIT_STACK, (1 << 20, 1 << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    try:
        r = subprocess.run([native_bin(part, profile), harness, line or ",", str(tier)], capture_output=True, text=True, errors="replace", timeout=timeout, env=e, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return "violation:hang: no result within %d s" % timeout, [], ""
    if "AddressSanitizer" in r.stderr:
        m = re.search(r"ERROR: AddressSanitizer: (.*)", r.stderr)
        return "violation:memory:" + (m.group(1) if m else "AddressSanitizer report"), [], r.stderr[-6000:]
    for l in r.stdout.splitlines():
        if l.startswith("OUTCOME "):
            f = l[8:].split("\t")
            return f[0], f[1:], r.stderr[-3000:]
    return f"violation:crash: exit status {r.returncode}", [], r.stderr[-3000:]


_DM = {}


def demangle_all(names):
    names = [n for n in names if n not in _DM]
    if names:
        try:
            o = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(names) + "\n", capture_output=True, text=True, timeout=60).stdout.splitlines()
        except (OSError, subprocess.TimeoutExpired):
            o = []
        for n, d in zip(names, o if len(o) == len(names) else names):
            _DM[n] = re.sub(r"\[[0-9a-f]{8,}\]", "", d)


def demangle(n):
    demangle_all([n])
    return _DM[n]


def labels(part, h):
    src = open(module_path(part)).read()
    m = re.search(r"fn\s+%s\s*\(\)\s*\{" % h, src)
    if not m:
        raise NoAnswer(f"no harness {h} in {part['module']}")
    nxt = re.search(r"\n\s*fn\s+\w+\s*\(\)\s*\{", src[m.end():])
    body = src[m.end(): m.end() + nxt.start()] if nxt else src[m.end():]
    return sorted(set(re.findall(r'\breach\(\s*"([^"]+)"\s*\)', body)))


def engine(part, hs, tier, budget, seed, jobs, opts, out):
    ll = f"{TARGET}/sym/{feat_dir(part)}/sym/deps/vpharness.ll"
    if os.path.exists(out):
        os.remove(out)
    cmd = [ENGINE, "run", ll, "--jobs", str(jobs), "--time", str(budget), "--tier", str(tier), "--seed", str(seed), "--out", out] + opts + hs
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        log, _ = p.communicate(timeout=budget + 45)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        log, _ = p.communicate()
        log += "\nkilled: over its time budget"
    recs = []
    if os.path.exists(out):
        for l in open(out):
            try:
                recs.append(json.loads(l))
            except ValueError:
                recs.append({"t": "bad"})
    return recs, log, p.returncode


SUM = ("paths", "pruned", "panics_allowed", "violations", "insts", "forks", "asserts_sym", "asserts_conc", "mem_sym", "obligations", "by_facts", "queries", "sat", "unsat", "unknown", "cache_hits", "solver_ns")


def setup():
    build_engine()
    rh = repo_hash()
    parts = {}
    for p in PROPS.values():
        for q in p["parts"]:
            parts[feat_dir(q)] = q
    todo = [(f, q) for q in parts.values() for f in (lambda q: sym_build(q, rh), lambda q: native_build(q, rh, "dev"))]
    run = []
    bad = 0
    while todo or run:
        while todo and len(run) < 6:
            f, q = todo.pop(0)
            p = f(q)
            # drain the pipe so that the build cannot block on it
            run.append((p, q["module"]))
        p, n = run.pop(0)
        try:
            done(p, n)
        except NoAnswer as e:
            print(f"setup: {e}")
            bad += 1
    return 1 if bad else 0


def main():
    t0 = time.time()
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        return setup()
    if not args:
        print(__doc__)
        return 2
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = False
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
        elif a == "--keep":
            keep = True
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tnum = 1 if tier == "thorough" else 0
    prop = PROPS[pid]
    jobs = min(8, os.cpu_count() or 1)
    rh = repo_hash()
    known = [k for k in json.load(open(f"{VERIF}/known_findings.json"))["findings"] if k["property"] == pid]
    work = f"{VERIF}/replays/{pid}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)

    build_engine()
    problems, violations, knowns = [], [], collections.OrderedDict()
    tot = collections.Counter()
    per, funcs, maxq, samples = [], set(), 0, []
    val_runs = val_bad = 0
    budget_all = prop.get("time", (300, 3000))[tnum]

    builds = []
    for part in prop["parts"]:
        builds.append((sym_build(part, rh), native_build(part, rh, "dev")))
    for part, (bs, bn) in zip(prop["parts"], builds):
        try:
            done(bs, f"symbolic build of {part['module']}")
        except NoAnswer:
            bn.kill()
            raise
        hs = [h for h in part["harnesses"] if not (isinstance(part["harnesses"], dict) and part["harnesses"][h].get("thorough_only") and not tnum)]
        if only:
            hs = [h for h in hs if h == only]
            if not hs:
                continue
        left = max(20, budget_all - (time.time() - t0))
        recs, log, rc = engine(part, hs, tnum, left, seed, jobs, prop.get("engine_opts", []), f"{work}/{part['module']}.jsonl")
        fin = [r for r in recs if r["t"] == "final"]
        if rc != 0 or not fin or fin[0]["crashed"]:
            problems.append(f"{part['module']}: the engine did not finish cleanly (exit {rc}): {log[-1500:]}")
        names = fin[0]["funcs"] if fin else []
        z3v = fin[0]["z3"] if fin else "?"
        done(bn, f"native build of {part['module']}")
        rel_built = False
        asan_built = False
        for h in hs:
            c, inc, rch = collections.Counter(), collections.Counter(), collections.Counter()
            ends = [r for r in recs if r["t"] == "end" and r["h"] == h]
            hmax = 0
            stopped = False
            wall = 0
            for r in ends:
                for k in SUM:
                    c[k] += r[k]
                inc.update(r["incon"])
                rch.update(r["reach"])
                hmax = max(hmax, r["max_query_ns"])
                wall = max(wall, r["wall_ms"])
                stopped |= r["stopped"]
                funcs.update(names[i] for i in r["cov"] if i < len(names))
            maxq = max(maxq, hmax)
            tot.update(c)
            viols = [r for r in recs if r["t"] == "viol" and r["h"] == h]
            need = labels(part, h)
            missing = [l for l in need if not rch.get(l)]
            # counterexamples: one per (kind, message), replayed natively
            seen = collections.OrderedDict()
            for v in viols:
                seen.setdefault((v["kind"], v["msg"]), []).append(v)
            nviol = 0
            for (kind, msg), vs in seen.items():
                repro = None
                for v in vs[:3]:
                    line = inputs_line(v)
                    tries = []
                    o, n, lg = run_native(part, "dev", h, line, tnum)
                    tries.append(("dev", o))
                    if not o.startswith("violation"):
                        if not rel_built:
                            done(native_build(part, rh, "release"), "native release build")
                            rel_built = True
                        o, n, lg = run_native(part, "release", h, line, tnum)
                        tries.append(("release", o))
                    if not o.startswith("violation") and kind not in ("assert", "panic"):
                        if not asan_built:
                            done(native_build(part, rh, "asan"), "native ASan build")
                            asan_built = True
                        o, n, lg = run_native(part, "asan", h, line, tnum)
                        tries.append(("asan", o))
                    if o.startswith("violation"):
                        repro = (v, tries, o, lg)
                        break
                if repro is None:
                    problems.append(f"{h}: counterexample does not reproduce natively ({kind}: {msg}; native: {tries}; inputs {inputs_line(vs[0])[:300]})")
                    continue
                v, tries, o, lg = repro
                kf = next((k for k in known if k["harness"] == h and re.search(k["match"], f"{kind}: {msg} | {o}")), None)
                if kf:
                    knowns.setdefault(kf["id"], kf["what"])
                    continue
                nviol += 1
                fn = f"{work}/{h}-{nviol}.json"
                with open(fn, "w") as f:
                    json.dump({
                        "property": pid, "harness": h, "module": part["module"], "kind": kind, "message": msg,
                        "native": tries, "outcome": o, "inputs": v["inputs"], "stack": [demangle(s) for s in v["stack"]],
                        "replay": f"cd {VERIF}/native && RUSTUP_TOOLCHAIN=stable VP_MODULE={module_path(part)} cargo run --offline --target-dir {TARGET}/native/{feat_dir(part)} --features {part.get('features', '')} -- {h} {inputs_line(v)} {tnum}",
                        "log": lg,
                    }, f, indent=1)
                violations.append((h, kind, msg, fn, o))
            # known findings are re-checked even if the exploration did not meet them
            if not violations:
                for k, n in inc.items():
                    problems.append(f"{h}: {n} state(s) undecided: {k}")
                if not ends:
                    problems.append(f"{h}: no result")
                if stopped and not knowns:
                    problems.append(f"{h}: stopped early")
                if missing and not nviol:
                    problems.append(f"{h}: vacuous? never reached {missing}")
            # translator validation: sampled solver paths through the engine (concretely) and the native build
            sam = [inputs_line(r) for r in recs if r["t"] == "path" and r["h"] == h]
            sam = list(dict.fromkeys(sam))[:24]
            nval = 0
            if sam:
                fi, fo = f"{work}/{h}.in", f"{work}/{h}.conc"
                with open(fi, "w") as f:
                    f.write("\n".join(s or "," for s in sam) + "\n")
                if os.path.exists(fo):
                    os.remove(fo)
                ll = f"{TARGET}/sym/{feat_dir(part)}/sym/deps/vpharness.ll"
                try:
                    subprocess.run([ENGINE, "conc", ll, "--tier", str(tnum), "--inputs", fi, "--out", fo, h], capture_output=True, timeout=120)
                    nat = subprocess.run([native_bin(part, "dev"), "--batch", h, fi, str(tnum)], capture_output=True, text=True, errors="replace", timeout=120)
                    got = [json.loads(l) for l in open(fo)]
                    nl = [l[8:].split("\t") for l in nat.stdout.splitlines() if l.startswith("OUTCOME ")]
                    if len(got) != len(sam) or len(nl) != len(sam):
                        problems.append(f"{h}: translator validation incomplete ({len(got)}, {len(nl)} of {len(sam)}): {nat.stderr[-500:]}")
                    for s, g, n in zip(sam, got, nl):
                        r = g["r"]
                        a = (r.split(":")[0], g["notes"])
                        b = (n[0].split(":")[0], [x for x in n[1:] if x])
                        if r.startswith("inconclusive"):
                            problems.append(f"{h}: concrete run inconclusive: {r}")
                        elif a != b:
                            val_bad += 1
                            if b[0] == "violation" and not violations:
                                # the native build itself violates the property on a sampled input
                                kf = next((k for k in known if k["harness"] == h and re.search(k["match"], n[0])), None)
                                if kf:
                                    knowns.setdefault(kf["id"], kf["what"])
                                    continue
                            problems.append(f"{h}: engine and native build disagree on {s[:200]}: {r} {g['notes'][:6]} vs {n[:7]}")
                        nval += 1
                except subprocess.TimeoutExpired:
                    problems.append(f"{h}: translator validation timed out")
                if len(samples) < 6:
                    samples.append({"harness": h, "inputs": sam[-1][:400]})
            val_runs += nval
            info = part["harnesses"][h] if isinstance(part["harnesses"], dict) else {}
            per.append({
                "harness": h, "bound": info.get("bound_thorough", info.get("bound", "")) if tnum else info.get("bound", ""),
                "paths": c["paths"], "allowed_panics": c["panics_allowed"], "assumption_pruned": c["pruned"],
                "obligations_symbolic": c["asserts_sym"], "obligations_concrete": c["asserts_conc"], "memory_obligations": c["mem_sym"],
                "queries": c["queries"], "unsat": c["unsat"], "sat": c["sat"], "unknown": c["unknown"],
                "solver_s": round(c["solver_ns"] / 1e9, 2), "max_query_s": round(hmax / 1e9, 3), "wall_s": round(wall / 1e3, 2),
                "undecided": dict(inc), "reached": dict(rch), "validated": nval,
            })

    for k in known:
        part = next((p for p in prop["parts"] if k["harness"] in p["harnesses"]), None)
        if part and k["id"] not in knowns and k.get("inputs") is not None and not only:
            o, _, _ = run_native(part, "dev", k["harness"], k["inputs"], tnum)
            if o.startswith("violation") and re.search(k["match"], o):
                knowns[k["id"]] = k["what"]
    demangle_all(list(funcs))
    fl = sorted({demangle(f) for f in funcs})
    mine = [f for f in fl if "tycho_types" in f]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["forks"] + tot["pruned"],
            "transitions": tot["insts"],
            "traces_validated_against_impl": val_runs,
            "samples": samples or [{"note": "no completed path"}],
            "paths_completed": tot["paths"],
            "obligations_decided_by_solver_or_interval": tot["asserts_sym"] + tot["mem_sym"],
            "obligations_concrete_on_their_path": tot["asserts_conc"],
            "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"],
            "branches_decided_by_interval_facts": tot["by_facts"], "query_cache_hits": tot["cache_hits"],
            "solver_s": round(tot["solver_ns"] / 1e9, 2), "max_query_s": round(maxq / 1e9, 3),
            "solver": f"z3 {z3v}" if per else "", "functions_encoded": len(fl), "functions_of_the_crate": len(mine),
            "function_names": [f[:120] for f in mine][:260],
            "harnesses": per, "repo_hash": rh,
            "problems": [p[:300] for p in problems][:20],
            "exhaustive_within_bounds": not problems,
        },
        "assumptions": prop.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    txt = json.dumps(ev, indent=1)
    while len(txt) > 60000 and ev["coverage"]["function_names"]:
        ev["coverage"]["function_names"] = ev["coverage"]["function_names"][: len(ev["coverage"]["function_names"]) // 2]
        txt = json.dumps(ev, indent=1)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        f.write(txt)
    for p in per:
        print(f"{p['harness']}: paths {p['paths']}, queries {p['queries']} (unsat {p['unsat']}), solver {p['solver_s']} s, max {p['max_query_s']} s, wall {p['wall_s']} s, validated {p['validated']}, undecided {sum(p['undecided'].values())}")
    for k, w in knowns.items():
        print(f"KNOWN-FINDING: property={pid} {w}")
    if not violations and not keep and not problems:
        shutil.rmtree(work, ignore_errors=True)
    if violations:
        for h, kind, msg, fn, o in violations:
            print(f"  {h}: {kind}: {msg} -> native: {o}")
        print(f"VIOLATION property={pid} replay={violations[0][3]}")
        return 1
    if problems:
        for p in problems:
            print("PROBLEM " + p)
        return 3
    print(f"OK property={pid} {tot['paths']} paths, {tot['queries']} queries, {ev['wall_s']} s")
    return 0


COMMON = [
    "rustc's LLVM IR (opt-level 1, overflow checks and debug assertions on) and the vpsym translation of it to bit-vectors; sampled paths are re-run concretely through the engine and the native build and must agree",
    "z3's unsat answers",
    "SHA-256's compression function is an uninterpreted collision-free function where its input is symbolic (exact where concrete); ahash is replaced by a constant hasher, crc32c by a bitwise implementation; allocation never fails",
]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print(f"NO ANSWER: {e}")
        sys.exit(3)
