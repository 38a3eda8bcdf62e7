//! Supervisor, workers, minimisation, replay, evidence.
use crate::rt::*;
use crate::rt::{arena, inst, sched};
use crate::scn::{Scn, SCNS};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}
const EXIT_VIOLATION: i32 = 70;

// ---------------------------------------------------------------- process set-up

pub fn install_altstack() {
    unsafe {
        let sz = 256 << 10;
        let p = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&ss, std::ptr::null_mut());
    }
}
static mut RUN_TICKS: u32 = 0;
static mut HANG_TICKS: u32 = 25;
unsafe extern "C" fn on_fault(sig: i32, info: *mut libc::siginfo_t, _uc: *mut libc::c_void) {
    let _o = arena::out_lib();
    let addr = (*info).si_addr() as usize;
    let place = if arena::in_range(addr) {
        "in the library's heap".to_string()
    } else if crate::scn::guard::in_guard(addr) {
        "outside the archive's bytes".to_string()
    } else {
        "at an unmapped address".to_string()
    };
    let name = match sig {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGBUS => "SIGBUS",
        libc::SIGABRT => "abort",
        libc::SIGILL => "SIGILL",
        _ => "signal",
    };
    // the default action if reporting itself faults
    libc::signal(sig, libc::SIG_DFL);
    violation("memory-fault", format!("{name}, access {place}"))
}
unsafe extern "C" fn on_tick(_s: i32, _i: *mut libc::siginfo_t, _uc: *mut libc::c_void) {
    RUN_TICKS += 1;
    if RUN_TICKS > HANG_TICKS {
        let _o = arena::out_lib();
        libc::signal(libc::SIGPROF, libc::SIG_IGN);
        violation("non-termination", format!("a run used more than {HANG_TICKS} s of processor time"));
    }
}
fn setup_process() {
    unsafe {
        let per = libc::personality(0xffff_ffff);
        if per >= 0 && per & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var("SIM_ASLR").is_err() {
            libc::personality((per | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong);
            std::env::set_var("SIM_ASLR", "off");
            let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
            let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
            ptrs.push(std::ptr::null());
            let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
            libc::execv(exe.as_ptr(), ptrs.as_ptr());
        }
        // all simulated threads share one processor: exactly one runs anyway
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
            let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
            if let Ok(w) = std::env::var("SIM_CPU") {
                if let (Ok(w), false) = (w.parse::<usize>(), cpus.is_empty()) {
                    let mut one: libc::cpu_set_t = std::mem::zeroed();
                    libc::CPU_SET(cpus[w % cpus.len()], &mut one);
                    libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
                }
            }
        }
    }
    install_panic_hook();
    arena::init();
    crate::scn::guard::init();
    install_altstack();
    crate::scn::warm();
    sched::init_pool(crate::scn::warm);
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_fault as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = sched::on_trap as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_tick as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_RESTART;
        libc::sigaction(libc::SIGPROF, &sa, std::ptr::null_mut());
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 1, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: 1, tv_usec: 0 },
        };
        setitimer(2, &it, std::ptr::null_mut());
    }
}

// ---------------------------------------------------------------- one run

static mut OUT: Option<PathBuf> = None;
static mut CUR: (u64, u64) = (0, 0);
#[allow(static_mut_refs)]
fn report(kind: &'static str, detail: String) -> ! {
    let c = ctx();
    let mut d = std::mem::take(&mut c.draws);
    let n = d.len();
    while d.last() == Some(&0) {
        d.pop();
    }
    let v = json!({
        "violation": true, "kind": kind, "detail": detail, "index": unsafe { CUR.0 }, "run_seed": unsafe { CUR.1 },
        "draws": d, "ndraws": n, "spans": c.all_spans(n), "hash": format!("{:016x}", c.hash), "trace": c.trace,
        "fired": fired_map(&c.fired), "sim_time_ns": c.sim_time,
    });
    unsafe {
        if let Some(p) = &OUT {
            let _ = std::fs::write(p, serde_json::to_vec(&v).unwrap());
        } else {
            eprintln!("{kind}: {detail}");
        }
        libc::_exit(EXIT_VIOLATION)
    }
}
fn fired_map(f: &[u64]) -> Value {
    let mut m = Map::new();
    for (i, n) in f.iter().enumerate() {
        if *n > 0 {
            m.insert(FAULT_NAMES[i].into(), json!(n));
        }
    }
    Value::Object(m)
}

pub fn one_run(scn: &Scn, src: Source, trace: bool) {
    unsafe { RUN_TICKS = 0 };
    reset(src, trace);
    inst::reset();
    sched::reset();
    let reuse = chance(1, 3);
    if reuse {
        ctx().fired[F::address_reuse as usize] += 1;
    }
    arena::reset(reuse);
    if let Err(p) = std::panic::catch_unwind(scn.run) {
        let _o = out_lib();
        let injected = p.is::<Injected>();
        let m = ctx().panic_msg.take().unwrap_or_default();
        std::mem::forget(p);
        if injected {
            violation("unexpected-injection", "an injected failure came up where none was armed".into());
        }
        violation("panic", m);
    }
    disarm();
    if !ctx().forgive_leaks {
        inst::finish();
    }
    arena::finish(!ctx().forgive_leaks);
}

pub fn run_seed(master: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(0x1234_5678, master);
    for b in prop.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, idx)
}

// ---------------------------------------------------------------- worker

#[allow(static_mut_refs)]
pub fn worker(args: &[String]) -> i32 {
    let scn = find(&args[0]);
    let p = |i: usize| args[i].parse::<u64>().unwrap();
    let (master, start, stride, total, budget) = (p(1), p(2), p(3), p(4), p(5));
    let out = PathBuf::from(&args[6]);
    setup_process();
    unsafe { OUT = Some(out.clone()) };
    set_reporter(report);
    let t0 = Instant::now();
    let (mut runs, mut draws, mut cbs, mut points, mut switches, mut simt, mut nontriv) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut allocs = 0u64;
    let mut fired_t = vec![0u64; F::_COUNT as usize];
    let mut runs_with = vec![0u64; F::_COUNT as usize];
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: Vec<(u64, u64, bool)> = Vec::new();
    let mut samples = Vec::new();
    let mut peak_draws = 0usize;
    let mut i = start;
    let mut truncated = false;
    while i < total {
        if runs & 15 == 0 && t0.elapsed().as_millis() as u64 > budget {
            truncated = true;
            break;
        }
        let seed = run_seed(master, scn.id, i);
        unsafe { CUR = (i, seed) };
        if runs & 63 == 0 {
            let _ = std::fs::write(out.with_extension("cur"), i.to_string());
        }
        let trace = start == 0 && samples.len() < 3 && runs > 2;
        one_run(scn, Source::Seed(seed), trace);
        let c = ctx();
        runs += 1;
        draws += c.draws.len() as u64;
        peak_draws = peak_draws.max(c.draws.len());
        cbs += c.callbacks;
        let (pt, sw) = sched::stats();
        points += pt;
        switches += sw;
        simt += c.sim_time;
        allocs += arena::a().allocs;
        nontriv += c.nontrivial as u64;
        for (k, n) in c.fired.iter().enumerate() {
            fired_t[k] += n;
            runs_with[k] += (*n > 0) as u64;
        }
        for (k, n) in c.probes.iter() {
            *probes.entry(k).or_insert(0) += n;
        }
        hashes.push((i, c.hash, c.nontrivial));
        if trace && c.nontrivial && c.trace.len() > 3 {
            let mut t: Vec<String> = c.trace.iter().take(60).cloned().collect();
            if c.trace.len() > 60 {
                t.push(format!("... {} more lines", c.trace.len() - 60));
            }
            samples.push(json!({"run_index": i, "run_seed": format!("{:016x}", seed), "faults": fired_map(&c.fired), "trace": t}));
        }
        i += stride;
    }
    let mut hb = Vec::with_capacity(hashes.len() * 17);
    for (i, h, n) in hashes {
        hb.extend_from_slice(&i.to_le_bytes());
        hb.extend_from_slice(&h.to_le_bytes());
        hb.push(n as u8);
    }
    std::fs::write(out.with_extension("h"), hb).unwrap();
    let v = json!({
        "violation": false, "runs": runs, "draws": draws, "callbacks": cbs, "points": points, "switches": switches,
        "sim_time_ns": simt, "allocs": allocs, "nontrivial": nontriv, "fired": fired_map(&fired_t), "runs_with": fired_map(&runs_with),
        "probes": probes, "samples": samples, "truncated": truncated, "elapsed_ms": t0.elapsed().as_millis() as u64, "peak_draws": peak_draws,
    });
    std::fs::write(&out, serde_json::to_vec(&v).unwrap()).unwrap();
    0
}

/// run one recorded list of draws in this fresh process
#[allow(static_mut_refs)]
pub fn exec(args: &[String]) -> i32 {
    let scn = find(&args[0]);
    let draws: Vec<u64> = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
    let out = PathBuf::from(&args[2]);
    let trace = args.get(3).map(|s| s == "trace").unwrap_or(false);
    setup_process();
    unsafe {
        HANG_TICKS = 12;
        OUT = Some(out.clone())
    };
    set_reporter(report);
    one_run(scn, Source::Replay(draws), trace);
    let v = json!({"violation": false, "hash": format!("{:016x}", ctx().hash)});
    std::fs::write(&out, serde_json::to_vec(&v).unwrap()).unwrap();
    0
}

fn find(id: &str) -> &'static Scn {
    SCNS.iter().find(|s| s.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

// ---------------------------------------------------------------- supervisor

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
fn scratch() -> PathBuf {
    let p = verif_dir().join("work").join(format!("{}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    p
}
fn self_cmd() -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.stdin(Stdio::null());
    c
}
fn nworkers() -> usize {
    std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
    })
}

enum Outcome {
    Clean,
    Violation(Value),
    Broken(String),
}
fn read_json(p: &Path) -> Option<Value> {
    std::fs::read(p).ok().and_then(|b| serde_json::from_slice(&b).ok())
}

struct Exec {
    dir: PathBuf,
    n: usize,
    count: u64,
}
impl Exec {
    /// run candidates in parallel; return for each the violation, if any
    fn run(&mut self, prop: &str, cands: &[Vec<u64>], trace: bool) -> Vec<Option<Value>> {
        let mut kids: Vec<(Child, PathBuf, Instant)> = Vec::new();
        for (k, c) in cands.iter().enumerate() {
            self.n += 1;
            self.count += 1;
            let df = self.dir.join(format!("d{}.json", self.n));
            let of = self.dir.join(format!("o{}.json", self.n));
            std::fs::write(&df, serde_json::to_vec(c).unwrap()).unwrap();
            let ch = self_cmd()
                .args(["exec", prop, df.to_str().unwrap(), of.to_str().unwrap(), if trace { "trace" } else { "quiet" }])
                .env("SIM_CPU", k.to_string())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            kids.push((ch, of, Instant::now()));
        }
        let mut res = Vec::new();
        for (mut ch, of, t) in kids {
            let st = loop {
                match ch.try_wait() {
                    Ok(Some(s)) => break Some(s),
                    Ok(None) if t.elapsed() > Duration::from_secs(40) => {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        break None;
                    }
                    _ => std::thread::sleep(Duration::from_micros(300)),
                }
            };
            let v = read_json(&of);
            let _ = std::fs::remove_file(&of);
            let r = match (st, v) {
                (Some(_), Some(v)) if v["violation"] == true => Some(v),
                (Some(s), None) if s.code().is_none() => {
                    use std::os::unix::process::ExitStatusExt;
                    Some(json!({"violation": true, "kind": "crash", "detail": format!("killed by signal {}", s.signal().unwrap_or(0)), "draws": [], "spans": [], "hash": "", "trace": []}))
                }
                _ => None,
            };
            res.push(r);
        }
        res
    }
}

fn u64s(v: &Value) -> Vec<u64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default()
}
fn spans_of(v: &Value) -> Vec<(usize, usize)> {
    v.as_array()
        .map(|a| a.iter().map(|x| (x[0].as_u64().unwrap_or(0) as usize, x[1].as_u64().unwrap_or(0) as usize)).collect())
        .unwrap_or_default()
}
fn trim(mut d: Vec<u64>) -> Vec<u64> {
    while d.last() == Some(&0) {
        d.pop();
    }
    d
}
fn cost(d: &[u64]) -> (usize, u128) {
    (d.len(), d.iter().map(|x| *x as u128).sum())
}

fn minimise(prop: &str, first: &Value, ex: &mut Exec, limit: Duration) -> (Vec<u64>, Value) {
    let kind = first["kind"].as_str().unwrap_or("").to_string();
    let par = nworkers();
    let t0 = Instant::now();
    let mut best = first.clone();
    let mut d = u64s(&first["draws"]);
    // deterministic replay of the unminimised run first
    let accept = |cands: Vec<Vec<u64>>, d: &mut Vec<u64>, best: &mut Value, ex: &mut Exec| -> bool {
        let cands: Vec<Vec<u64>> = cands.into_iter().filter(|c| cost(c) < cost(d)).collect();
        for ch in cands.chunks(par) {
            if t0.elapsed() > limit {
                return false;
            }
            let rs = ex.run(prop, ch, false);
            let mut win: Option<(Vec<u64>, Value)> = None;
            for (c, r) in ch.iter().zip(rs) {
                if let Some(v) = r {
                    if v["kind"] == kind.as_str() {
                        let nd = if v["draws"].as_array().map(|a| a.is_empty()).unwrap_or(true) { c.clone() } else { trim(u64s(&v["draws"])) };
                        let nd = if cost(&nd) <= cost(c) { nd } else { c.clone() };
                        if win.as_ref().map(|w| cost(&nd) < cost(&w.0)).unwrap_or(true) {
                            win = Some((nd, v));
                        }
                    }
                }
            }
            if let Some((nd, v)) = win {
                if cost(&nd) < cost(d) {
                    *d = nd;
                    *best = v;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = cost(&d);
        // shorten the tail
        loop {
            let mut c = Vec::new();
            let n = d.len();
            for k in [2usize, 4, 8, 16, 32] {
                if n / k > 0 {
                    c.push(trim(d[..n - n / k].to_vec()));
                }
            }
            if n > 0 {
                c.push(trim(d[..n - 1].to_vec()));
            }
            if !accept(c, &mut d, &mut best, ex) {
                break;
            }
        }
        // delete and zero spans, long ones first
        for zero in [false, true] {
            loop {
                let mut sp = spans_of(&best["spans"]);
                sp.retain(|(a, b)| a < b && *a < d.len());
                sp.sort_by_key(|(a, b)| (std::cmp::Reverse(b - a), *a));
                sp.dedup();
                let mut c = Vec::new();
                for (a, b) in sp {
                    let b = b.min(d.len());
                    let mut n = d.clone();
                    if zero {
                        if n[a..b].iter().all(|x| *x == 0) {
                            continue;
                        }
                        n[a..b].fill(0);
                    } else {
                        n.drain(a..b);
                    }
                    c.push(trim(n));
                }
                if !accept(c, &mut d, &mut best, ex) {
                    break;
                }
            }
        }
        // windows
        for w in [8usize, 4, 2, 1] {
            let mut again = true;
            while again {
                let mut c = Vec::new();
                for a in 0..d.len().saturating_sub(w - 1) {
                    let mut n = d.clone();
                    n.drain(a..a + w);
                    c.push(trim(n));
                }
                again = accept(c, &mut d, &mut best, ex);
            }
        }
        // single values
        let mut again = true;
        while again {
            let mut c = Vec::new();
            for i in 0..d.len() {
                for nv in [0, d[i] / 2, d[i].wrapping_sub(1)] {
                    if nv < d[i] {
                        let mut n = d.clone();
                        n[i] = nv;
                        c.push(trim(n));
                    }
                }
            }
            again = accept(c, &mut d, &mut best, ex);
        }
        if cost(&d) >= before || t0.elapsed() > limit {
            break;
        }
    }
    (d, best)
}

fn kill_all(kids: &mut [(Child, PathBuf, bool)]) {
    for (c, _, _) in kids.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
    }
}

pub fn check(prop: &str) -> i32 {
    let scn = find(prop);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let thorough = tier == "thorough";
    let env_u = |n: &str| std::env::var(n).ok().and_then(|s| s.parse::<u64>().ok());
    let total = env_u("SIM_RUNS").unwrap_or(if thorough { scn.thorough } else { scn.quick });
    let budget_s = env_u("SIM_BUDGET").unwrap_or(if thorough { 780 } else { 150 });
    println!("property={prop} tier={tier} seed={seed} runs={total}");
    let dir = scratch();
    let nw = nworkers();
    let mut kids: Vec<(Child, PathBuf, bool)> = Vec::new();
    for w in 0..nw {
        let of = dir.join(format!("w{w}.json"));
        let ch = self_cmd()
            .args(["worker", prop, &seed.to_string(), &w.to_string(), &nw.to_string(), &total.to_string(), &(budget_s * 1000).to_string(), of.to_str().unwrap()])
            .env("SIM_CPU", w.to_string())
            .spawn()
            .unwrap();
        kids.push((ch, of, false));
    }
    let mut outcome = Outcome::Clean;
    'outer: loop {
        let mut all = true;
        for i in 0..kids.len() {
            if kids[i].2 {
                continue;
            }
            match kids[i].0.try_wait().unwrap() {
                None => all = false,
                Some(st) => {
                    kids[i].2 = true;
                    let v = read_json(&kids[i].1);
                    match (st.code(), v) {
                        (Some(0), Some(_)) => {}
                        (Some(EXIT_VIOLATION), Some(v)) if v["violation"] == true => {
                            outcome = Outcome::Violation(v);
                            break 'outer;
                        }
                        (code, _) => {
                            let cur = std::fs::read_to_string(kids[i].1.with_extension("cur")).unwrap_or_default();
                            outcome = Outcome::Broken(format!("worker {i} ended with {code:?} / {st:?} near run {cur}"));
                            break 'outer;
                        }
                    }
                }
            }
        }
        if all {
            break;
        }
        if t0.elapsed() > Duration::from_secs(budget_s + 60) {
            outcome = Outcome::Broken("a worker stopped responding".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    let mut ex = Exec { dir: dir.clone(), n: 0, count: 0 };
    let code;
    let mut violations = 0;
    let mut extra = json!(null);
    if !matches!(outcome, Outcome::Clean) {
        kill_all(&mut kids);
    }
    match outcome {
        Outcome::Clean => code = 0,
        Outcome::Broken(m) => {
            // did the library kill the process? re-run the neighbourhood one seed at a time
            eprintln!("harness: {m}");
            code = 2;
        }
        Outcome::Violation(v) => {
            violations = 1;
            let (d, best) = minimise(prop, &v, &mut ex, Duration::from_secs(env_u("SIM_SHRINK").unwrap_or(45)));
            let full = ex.run(prop, &[d.clone()], true).pop().flatten();
            let same = full.as_ref().map(|f| f["kind"] == v["kind"]).unwrap_or(false);
            // if minimisation ended in something that does not replay, fall back to the original run
            let (d, fin) = if same { (d, full.unwrap()) } else {
                let od = u64s(&v["draws"]);
                let f = ex.run(prop, &[od.clone()], true).pop().flatten().unwrap_or(v.clone());
                (od, f)
            };
            let _ = best;
            let rdir = verif_dir().join("replays");
            std::fs::create_dir_all(&rdir).unwrap();
            let path = rdir.join(format!("{prop}-{:016x}.json", v["run_seed"].as_u64().unwrap_or(0)));
            let rep = json!({
                "property": prop, "kind": fin["kind"], "detail": fin["detail"], "verif_seed": seed, "run_index": v["index"],
                "run_seed": v["run_seed"], "original_draws": v["ndraws"], "draws": d, "hash": fin["hash"], "faults": fin["fired"],
                "minimisation_runs": ex.count, "trace": fin["trace"],
            });
            std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
            println!("{}: {}", fin["kind"].as_str().unwrap_or(""), fin["detail"].as_str().unwrap_or(""));
            println!("  run {} seed {} ({} choices, {} after minimisation in {} runs)", v["index"], v["run_seed"], v["ndraws"], d.len(), ex.count);
            if let Some(t) = fin["trace"].as_array() {
                for l in t.iter().take(60) {
                    println!("  | {}", l.as_str().unwrap_or(""));
                }
            }
            println!("VIOLATION property={prop} replay={}", path.display());
            extra = json!({"kind": fin["kind"], "detail": fin["detail"], "replay": path.display().to_string()});
            code = 1;
        }
    }
    write_evidence(scn, tier, seed, total, nw, &kids, violations, extra, t0);
    let _ = std::fs::remove_dir_all(&dir);
    if code == 0 {
        println!("property={prop}: held on every simulated run ({:.1} s)", t0.elapsed().as_secs_f64());
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(scn: &Scn, tier: &str, seed: u64, total: u64, nw: usize, kids: &[(Child, PathBuf, bool)], violations: i64, extra: Value, t0: Instant) {
    let mut sum: BTreeMap<&str, u64> = BTreeMap::new();
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut runs_with: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut distinct_all: HashSet<u64> = HashSet::new();
    let mut hash_of: BTreeMap<u64, u64> = BTreeMap::new();
    let mut truncated = false;
    let mut peak = 0;
    for (_, p, _) in kids {
        let Some(v) = read_json(p) else { continue };
        if v["violation"] == true {
            continue;
        }
        for k in ["runs", "draws", "callbacks", "points", "switches", "sim_time_ns", "allocs", "nontrivial"] {
            *sum.entry(k).or_insert(0) += v[k].as_u64().unwrap_or(0);
        }
        peak = peak.max(v["peak_draws"].as_u64().unwrap_or(0));
        truncated |= v["truncated"] == true;
        for (src, dst) in [("fired", &mut fired), ("runs_with", &mut runs_with), ("probes", &mut probes)] {
            for (k, n) in v[src].as_object().into_iter().flatten() {
                *dst.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
        }
        samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
        if let Ok(b) = std::fs::read(p.with_extension("h")) {
            for r in b.chunks_exact(17) {
                let i = u64::from_le_bytes(r[0..8].try_into().unwrap());
                let h = u64::from_le_bytes(r[8..16].try_into().unwrap());
                distinct_all.insert(h);
                if r[16] == 1 {
                    distinct.insert(h);
                }
                if i < 400 {
                    hash_of.insert(i, h);
                }
            }
        }
    }
    // determinism: the first runs again, in one other process
    let mut recheck = json!(null);
    if violations == 0 && !hash_of.is_empty() {
        let of = kids[0].1.with_file_name("again.json");
        let n = 200.min(total);
        let st = self_cmd()
            .args(["worker", scn.id, &seed.to_string(), "0", "1", &n.to_string(), "60000", of.to_str().unwrap()])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        if st.map(|s| s.success()).unwrap_or(false) {
            if let Ok(b) = std::fs::read(of.with_extension("h")) {
                let (mut same, mut diff) = (0, 0);
                for r in b.chunks_exact(17) {
                    let i = u64::from_le_bytes(r[0..8].try_into().unwrap());
                    let h = u64::from_le_bytes(r[8..16].try_into().unwrap());
                    match hash_of.get(&i) {
                        Some(x) if *x == h => same += 1,
                        Some(_) => diff += 1,
                        None => {}
                    }
                }
                recheck = json!({"runs_repeated_in_another_process": same + diff, "identical_event_hash": same, "different": diff});
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let runs = sum.get("runs").copied().unwrap_or(0);
    let ev = json!({
        "property": scn.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct.len(),
            "rule": scn.rule,
            "samples": samples,
            "runs_planned": total, "stopped_by_time_budget": truncated, "workers": nw,
            "runs_per_hour": if wall > 0.0 { (runs as f64 / wall * 3600.0) as u64 } else { 0 },
            "distinct_executions": distinct_all.len(),
            "distinct_executions_measure": "64-bit hash over every choice drawn (workload, schedule, fault) and every observed outcome of a run",
            "simulated_time_s": sum.get("sim_time_ns").copied().unwrap_or(0) as f64 / 1e9,
            "choices_drawn": sum.get("draws"), "largest_run_choices": peak,
            "caller_callbacks": sum.get("callbacks"), "library_allocations": sum.get("allocs"),
            "scheduling_points": sum.get("points"), "thread_switches": sum.get("switches"),
            "faults_fired": fired, "runs_with_fault": runs_with, "probes": probes,
            "real_components": scn.real, "simulated_components": scn.stub,
            "determinism_recheck": recheck,
            "violation": extra,
        },
        "assumptions": scn.assumes,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", scn.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
}

pub fn replay(path: &str) -> i32 {
    let Some(v) = read_json(Path::new(path)) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let prop = v["property"].as_str().unwrap_or("").to_string();
    find(&prop);
    let dir = scratch();
    let mut ex = Exec { dir: dir.clone(), n: 0, count: 0 };
    let r = ex.run(&prop, &[u64s(&v["draws"])], true).pop().flatten();
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Some(r) => {
            for l in r["trace"].as_array().into_iter().flatten() {
                println!("  | {}", l.as_str().unwrap_or(""));
            }
            println!("{}: {}", r["kind"].as_str().unwrap_or(""), r["detail"].as_str().unwrap_or(""));
            println!("same event hash as recorded: {}", r["hash"] == v["hash"]);
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => {
            println!("property={prop}: the recorded run shows no violation on this tree");
            0
        }
    }
}

/// run the same seeds in many processes with different partitions and compare the event hashes
pub fn determinism(prop: &str, seeds: u64) -> i32 {
    let dir = scratch();
    let mut seen: BTreeMap<u64, u64> = BTreeMap::new();
    let (mut same, mut diff) = (0u64, 0u64);
    for (round, parts) in [1u64, 3, 7].iter().enumerate() {
        let mut kids = Vec::new();
        for w in 0..*parts {
            let of = dir.join(format!("r{round}w{w}.json"));
            let ch = self_cmd()
                .args(["worker", prop, "1", &w.to_string(), &parts.to_string(), &seeds.to_string(), "600000", of.to_str().unwrap()])
                .env("SIM_CPU", (w + round as u64).to_string())
                .spawn()
                .unwrap();
            kids.push((ch, of));
        }
        for (mut c, of) in kids {
            let st = c.wait().unwrap();
            if !st.success() {
                println!("worker failed: {st:?}");
                diff += 1;
                continue;
            }
            for r in std::fs::read(of.with_extension("h")).unwrap().chunks_exact(17) {
                let i = u64::from_le_bytes(r[0..8].try_into().unwrap());
                let h = u64::from_le_bytes(r[8..16].try_into().unwrap());
                match seen.get(&i) {
                    None => {
                        seen.insert(i, h);
                    }
                    Some(x) if *x == h => same += 1,
                    Some(_) => {
                        if diff < 5 {
                            println!("run {i} differs");
                        }
                        diff += 1
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("{prop}: {} seeds, {same} repeats identical, {diff} different", seen.len());
    (diff > 0) as i32
}
