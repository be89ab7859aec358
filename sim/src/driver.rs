//! Forks runs, collects statistics, minimises and replays violations, writes evidence.
use crate::props::{Prop, PROPS};
use crate::rng::{hash_str, mix, Rng};
use crate::shared::{self, sh, Shared, CTR_NAMES, NCTR, SHARED};
use gsim_core::nursery;
use crate::sim;
use serde_json::{json, Map, Value};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Held,
    Skip,
    Unclear(String),
    Viol(String, String),
}
pub struct RunInfo {
    pub out: Out,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub decisions: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub checks: u64,
    pub ctr: [u64; NCTR],
    pub dev: Option<Vec<(u64, u32)>>,
    pub real_s: f64,
}

pub fn verif_dir() -> String {
    std::env::var("GSIM_VERIF").unwrap_or_else(|_| {
        let exe = std::env::current_exe().unwrap();
        // <verif>/target/{,fine/,py/}release/gsim
        let t = exe.ancestors().find(|a| a.file_name().is_some_and(|n| n == "target"));
        t.unwrap_or_else(|| exe.ancestors().nth(2).unwrap()).parent().unwrap().to_string_lossy().into_owned()
    })
}

pub fn scratch_base() -> String {
    for d in ["/dev/shm", "/tmp"] {
        if std::fs::metadata(d).map(|m| m.is_dir()).unwrap_or(false) {
            let t = format!("{}/gsim-probe-{}", d, std::process::id());
            if std::fs::create_dir(&t).is_ok() {
                let _ = std::fs::remove_dir(&t);
                return d.to_string();
            }
        }
    }
    "/tmp".into()
}

static mut SCRATCH: String = String::new();
#[allow(static_mut_refs)]
pub fn scratch() -> &'static str {
    unsafe { &SCRATCH }
}
fn make_scratch() {
    // always of the same length
    let p = format!("{}/gsim-{:08}-{:04x}", scratch_base(), std::process::id(), mix(std::process::id() as u64) & 0xffff);
    std::fs::create_dir_all(&p).unwrap();
    unsafe { SCRATCH = p };
}
fn clear_scratch() {
    // only ever the directory made above
    if let Ok(rd) = std::fs::read_dir(scratch()) {
        for e in rd.flatten() {
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}
fn drop_scratch() {
    clear_scratch();
    let _ = std::fs::remove_dir(scratch());
}

/// A run, in its own process.
pub fn child(slot: &'static mut nursery::Slot, prop: usize, dir: &'static str, spec: &'static str) -> ! {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &nocore);
        SHARED = &mut slot.sh;
        SCRATCH = dir.to_string();
    }
    let prop = &PROPS[prop];
    let spec: Value = serde_json::from_str(spec).expect("a scenario");
    let spec = &spec;
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        sh().set_panic(&format!("{} at {}", msg, loc));
        if std::env::var_os("GSIM_BT").is_some() { sim::quiet(|| eprintln!("{}", std::backtrace::Backtrace::force_capture())); }
    }));
    crate::io::set_root(scratch());
    crate::mem::clear();
    sim::start(&spec["sched"]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.run)(spec)));
    sim::stop();
    crate::mem::publish();
    if r.is_err() {
        let p = sh().get_panic();
        sim::die(&panic_class("panic", &p), &p);
    }
    sh().outcome.compare_exchange(0, 1, SeqCst, SeqCst).ok();
    unsafe { libc::_exit(0) }
}
pub fn panic_class(kind: &str, p: &str) -> String {
    // message without numbers, so that minimisation keeps the same kind of panic
    let s: String = p.split(" at ").next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
    format!("{}: {}", kind, s.replace('\n', " "))
}

static CPU: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
static SLOT: AtomicU32 = AtomicU32::new(nursery::SLOTS as u32 - 1);
/// which of the forking processes this one uses
fn slot() -> usize {
    SLOT.load(SeqCst) as usize
}
fn use_slot(i: usize) {
    SLOT.store(i as u32, SeqCst);
    unsafe { SHARED = &mut nursery::slot(i).sh };
}
/// processor time a process has used
fn cpu_ms(pid: libc::pid_t) -> i64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let clock = (!(pid as libc::c_int) << 3) | 2;
    unsafe { sim::raw(libc::SYS_clock_gettime, clock as usize, &mut t as *mut _ as usize, 0, 0, 0, 0) };
    t.tv_sec * 1000 + t.tv_nsec / 1_000_000
}
/// processor time after which a run counts as hanging (a livelock is found much earlier, by its number of steps)
pub const HANG_S: u64 = 30;

pub fn fork_run(prop: &Prop, spec: &Value, limit_s: u64) -> RunInfo {
    clear_scratch();
    sh().reset();
    let t0 = Instant::now();
    let mut killed = false;
    let i = slot();
    let index = PROPS.iter().position(|p| p.id == prop.id).unwrap();
    let mut started = nursery::ask(i, index, CPU.load(SeqCst), scratch(), &spec.to_string());
    let mut status = libc::SIGKILL; // without a verdict
    while started {
        if let Some(st) = nursery::wait(i) {
            status = st;
            started = false;
        } else if let Some(pid) = nursery::pid(i) {
            if !killed && (cpu_ms(pid) > limit_s as i64 * 1000 || t0.elapsed().as_secs() > limit_s * 4) {
                killed = true;
                unsafe { libc::kill(pid, libc::SIGKILL) };
            }
        }
    }
    let s = sh();
    let out = if killed {
        Out::Viol("hang".into(), format!("did not finish within {} s of processor time (without deciding anything)", limit_s))
    } else if libc::WIFSIGNALED(status) {
        let sig = libc::WTERMSIG(status);
        let p = s.get_panic();
        if sig == libc::SIGKILL {
            Out::Unclear("killed from outside".into())
        } else {
            Out::Viol(panic_class(&format!("crash signal {}", sig), &p), format!("process died with signal {}; last panic: {}", sig, p))
        }
    } else {
        match (libc::WEXITSTATUS(status), s.outcome.load(SeqCst)) {
            (0, 1) => Out::Held,
            (_, 3) => Out::Skip,
            (77, 2) => {
                let v: Value = serde_json::from_str(&s.get_msg()).unwrap_or(Value::Null);
                let c = v["class"].as_str().unwrap_or("?").to_string();
                let d = v["detail"].as_str().unwrap_or("?").to_string();
                if c == "harness" {
                    Out::Unclear(d)
                } else {
                    Out::Viol(c, d)
                }
            }
            (c, _) => Out::Viol("exit".into(), format!("process ended itself with code {}", c)),
        }
    };
    let mut ctr = [0u64; NCTR];
    for i in 0..NCTR {
        ctr[i] = s.ctr[i].load(Relaxed);
    }
    RunInfo {
        out,
        steps: s.steps.load(Relaxed),
        switches: s.switches.load(Relaxed),
        preemptions: s.preemptions.load(Relaxed),
        decisions: s.decisions.load(Relaxed),
        sim_ns: s.sim_ns.load(Relaxed).saturating_sub(1_000_000_000_000),
        hash: s.event_hash.load(Relaxed),
        checks: s.oracle_checks.load(Relaxed),
        ctr,
        dev: s.deviations(),
        real_s: t0.elapsed().as_secs_f64(),
    }
}

pub fn spec_for(prop: &Prop, seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let sched = sim::gen_sched(&mut r);
    let mut v = (prop.gen)(&mut r);
    if v["sched"].is_null() {
        v["sched"] = sched;
    }
    v
}
pub fn run_seed(base: u64, prop: &Prop, k: u64) -> u64 {
    mix(base ^ mix(hash_str(prop.id) ^ k.wrapping_mul(0x9e3779b97f4a7c15))) >> 8
}

// ------------------------------------------------------------------ worker statistics in shared memory
#[repr(C)]
struct Stat {
    runs: AtomicU64,
    held: AtomicU64,
    skipped: AtomicU64,
    unclear: AtomicU64,
    nontrivial: AtomicU64,
    steps: AtomicU64,
    switches: AtomicU64,
    preemptions: AtomicU64,
    decisions: AtomicU64,
    sim_ns: AtomicU64,
    checks: AtomicU64,
    recheck: AtomicU64,
    recheck_bad: AtomicU64,
    unrepro: AtomicU64,
    known: AtomicU64,
    max_ms: AtomicU64,
    ctr: [AtomicU64; NCTR],
    viol: AtomicU32,
    viol_seed: AtomicU64,
}
struct Board {
    stop: AtomicU32,
    st: [Stat; 64],
}
fn map_board() -> &'static Board {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Board>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Board)
    }
}
fn pin(i: usize) {
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &all)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[i % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
        CPU.store(cpus[i % cpus.len()] as i32, SeqCst);
    }
}
fn ncpu() -> usize {
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all) != 0 {
            return 4;
        }
        libc::CPU_COUNT(&all).max(1) as usize
    }
}

pub struct Known {
    property: String,
    class: String,
    spec: Value, // the failing input: a complete scenario
    pub what: String,
}
fn known_findings() -> Vec<Known> {
    let p = format!("{}/known_findings.json", verif_dir());
    let v: Value = std::fs::read_to_string(&p).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|f| Known {
                    property: f["property"].as_str().unwrap_or("").into(),
                    class: f["class"].as_str().unwrap_or("").into(),
                    spec: f["spec"].clone(),
                    what: f["what"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}
fn is_known(k: &[Known], prop: &Prop, spec: &Value, class: &str) -> bool {
    let strip = |v: &Value| {
        let mut v = v.clone();
        if let Some(o) = v.as_object_mut() {
            o.remove("sched");
        }
        v
    };
    k.iter().any(|f| f.property == prop.id && f.class == class && strip(&f.spec) == strip(spec))
}

fn worker(prop: &Prop, base: u64, i: usize, n: usize, deadline: Instant, board: &Board, out: &str, limit: u64) {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    use_slot(i);
    pin(i);
    make_scratch();
    let st = &board.st[i];
    let known = known_findings();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut k = i as u64;
    while Instant::now() < deadline && board.stop.load(SeqCst) == 0 {
        let seed = run_seed(base, prop, k);
        k += n as u64;
        let spec = spec_for(prop, seed);
        let r = fork_run(prop, &spec, limit);
        st.runs.fetch_add(1, Relaxed);
        st.steps.fetch_add(r.steps, Relaxed);
        st.switches.fetch_add(r.switches, Relaxed);
        st.preemptions.fetch_add(r.preemptions, Relaxed);
        st.decisions.fetch_add(r.decisions, Relaxed);
        st.sim_ns.fetch_add(r.sim_ns.min(1 << 50), Relaxed);
        st.checks.fetch_add(r.checks, Relaxed);
        st.max_ms.fetch_max((r.real_s * 1000.0) as u64, Relaxed);
        let mut faults = 0;
        for c in 0..NCTR {
            if r.ctr[c] > 0 {
                st.ctr[c].fetch_add(r.ctr[c], Relaxed);
                faults += r.ctr[c];
            }
        }
        match &r.out {
            Out::Held => {
                st.held.fetch_add(1, Relaxed);
                let h = mix(r.hash ^ mix(hash_str(&strip_sched(&spec))));
                scheds.insert(r.hash);
                if (r.preemptions > 0 || faults > 0) && r.checks > 0 {
                    if hashes.insert(h) {
                        st.nontrivial.fetch_add(1, Relaxed);
                    }
                    if samples.len() < 2 && spec.to_string().len() < 3000 {
                        samples.push(json!({"seed": seed, "spec": spec, "steps": r.steps, "preemptions": r.preemptions,
                            "event_hash": format!("{:016x}", r.hash), "oracle_checks": r.checks}));
                    }
                }
            }
            Out::Skip => {
                st.skipped.fetch_add(1, Relaxed);
            }
            Out::Unclear(_) => {
                st.unclear.fetch_add(1, Relaxed);
            }
            Out::Viol(c, _) => {
                if is_known(&known, prop, &spec, c) {
                    st.known.fetch_add(1, Relaxed);
                } else {
                    // (a hang takes too long to confirm here)
                    if c != "hang" && !(0..2).any(|_| same(&fork_run(prop, &spec, limit).out, c)) {
                        st.recheck_bad.fetch_add(1, Relaxed);
                        st.unrepro.fetch_add(1, Relaxed);
                        continue;
                    }
                    st.viol_seed.store(seed, SeqCst);
                    st.viol.store(1, SeqCst);
                    board.stop.store(1, SeqCst);
                    break;
                }
            }
        }
        // the simulator itself must be deterministic: same seed, same execution
        if st.runs.load(Relaxed) % 64 == 7 {
            let r2 = fork_run(prop, &spec, limit);
            st.recheck.fetch_add(1, Relaxed);
            if r2.hash != r.hash || r2.out != r.out || r2.decisions != r.decisions {
                st.recheck_bad.fetch_add(1, Relaxed);
            }
        }
    }
    let mut bytes = Vec::new();
    for h in &scheds {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(format!("{}.{}.sched", out, i), bytes);
    let mut bytes = Vec::new();
    for h in &hashes {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(format!("{}.{}.hash", out, i), bytes);
    let _ = std::fs::write(format!("{}.{}.edges", out, i), &sh().edges[..crate::mem::num_edges()]);
    let _ = std::fs::write(format!("{}.{}.samples", out, i), Value::Array(samples).to_string());
    drop_scratch();
}
fn strip_sched(v: &Value) -> String {
    let mut v = v.clone();
    if let Some(o) = v.as_object_mut() {
        o.remove("sched");
    }
    v.to_string()
}

// ------------------------------------------------------------------ minimisation
fn same(out: &Out, class: &str) -> bool {
    matches!(out, Out::Viol(c, _) if c == class)
}
fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                if k == "sched" || k == "seed" {
                    continue;
                }
                at.push(k.clone());
                out.push(at.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                out.push(at.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn get_mut<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c {
            Value::Object(o) => o.get_mut(k)?,
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(c)
}
fn variants(v: &Value) -> Vec<Value> {
    match v {
        Value::Array(a) if !a.is_empty() => {
            let mut r = vec![];
            let n = a.len();
            let mut size = n;
            while size >= 1 {
                let mut s = 0;
                while s < n && r.len() < 40 {
                    let e = (s + size).min(n);
                    let mut x = a[..s].to_vec();
                    x.extend_from_slice(&a[e..]);
                    r.push(Value::Array(x));
                    s += size;
                }
                size /= 2;
            }
            r
        }
        Value::Number(x) if x.is_u64() => {
            let x = x.as_u64().unwrap();
            let mut r = vec![];
            for c in [0, 1, 2, x / 2, x.saturating_sub(x / 4), x.saturating_sub(1)] {
                if c < x && !r.contains(&json!(c)) {
                    r.push(json!(c));
                }
            }
            r
        }
        Value::Number(x) if x.is_f64() && x.as_f64() != Some(0.0) => vec![json!(0.0)],
        Value::Bool(true) => vec![json!(false)],
        _ => vec![],
    }
}
pub fn minimise(prop: &Prop, spec: &Value, class: &str, budget_s: f64, limit: u64) -> (Value, u64) {
    let t0 = Instant::now();
    let mut best = spec.clone();
    let mut tries = 0u64;
    if class == "hang" {
        return (best, 0);
    }
    {
        let mut progress = true;
        while progress && t0.elapsed().as_secs_f64() < budget_s * 0.6 {
            progress = false;
            let mut ps = vec![];
            paths(&best, &mut vec![], &mut ps);
            'p: for p in ps {
                let Some(old) = get_mut(&mut best.clone(), &p).map(|x| x.clone()) else { continue };
                for nv in variants(&old) {
                    if t0.elapsed().as_secs_f64() > budget_s * 0.6 {
                        break 'p;
                    }
                    for ds in 0..3u64 {
                        let mut cand = best.clone();
                        *get_mut(&mut cand, &p).unwrap() = nv.clone();
                        let s0 = cand["sched"]["seed"].as_u64().unwrap_or(1);
                        cand["sched"]["seed"] = json!(s0 + ds);
                        tries += 1;
                        if same(&fork_run(prop, &cand, limit).out, class) {
                            best = cand;
                            progress = true;
                            continue 'p;
                        }
                    }
                }
            }
        }
    }
    // make the schedule explicit and reduce it
    let r = fork_run(prop, &best, limit);
    if let (true, Some(dev)) = (same(&r.out, class), r.dev) {
        let mut cur = dev;
        let with = |d: &[(u64, u32)]| {
            let mut c = best.clone();
            c["sched"]["dev"] = Value::Array(d.iter().map(|(a, b)| json!([a, b])).collect());
            c
        };
        if same(&fork_run(prop, &with(&cur), limit).out, class) {
            let mut chunk = cur.len();
            while chunk >= 1 {
                let mut i = 0;
                let mut any = false;
                while i < cur.len() && t0.elapsed().as_secs_f64() < budget_s {
                    let e = (i + chunk).min(cur.len());
                    let mut c = cur[..i].to_vec();
                    c.extend_from_slice(&cur[e..]);
                    tries += 1;
                    if same(&fork_run(prop, &with(&c), limit).out, class) {
                        cur = c;
                        any = true;
                    } else {
                        i = e;
                    }
                }
                if t0.elapsed().as_secs_f64() >= budget_s {
                    break;
                }
                if chunk == 1 && !any {
                    break;
                }
                chunk = if chunk == 1 { 1 } else { chunk / 2 };
            }
            best = with(&cur);
        }
    }
    (best, tries)
}

fn write_replay(prop: &Prop, seed: u64, base: u64, class: &str, detail: &str, spec: &Value, hash: u64, tries: u64) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:x}.json", dir, prop.id, seed);
    let v = json!({"property": prop.id, "verif_seed": base, "run_seed": seed, "class": class, "detail": detail,
        "event_hash": format!("{:016x}", hash), "spec": spec, "instrumented": fine(), "minimisation_runs": tries,
        "how": "gsim replay <this file>; spec.sched.dev lists the schedule/fault decisions that differ from the default as [decision index, choice]"});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

// ------------------------------------------------------------------ check
/// The properties that depend on thread interleavings, and the part of their time spent on preemption between
/// individual memory accesses.
const FINE: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C16", "C17", "C18", "C19", "C21", "C22", "C23",
];
const FINE_SHARE: f64 = 0.35;
pub fn fine() -> bool {
    crate::mem::num_edges() > 0
}
pub fn fine_exe() -> String {
    format!("{}/target/fine/release/gsim", verif_dir())
}
pub fn check(prop: &Prop) -> i32 {
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER") {
        Ok(t) if t == "thorough" => "thorough",
        _ => "quick",
    };
    let mut secs = if tier == "quick" { prop.quick_s } else { prop.thorough_s };
    if let Ok(s) = std::env::var("GSIM_SECS") {
        secs = s.parse().unwrap_or(secs);
    }
    let fine = fine();
    let mut fine_part = Value::Null;
    if !fine && FINE.contains(&prop.id) && std::env::var_os("GSIM_CALIBRATE").is_none() {
        // the first part of the time goes to the instrumented build, which preempts between memory accesses
        let part = format!("{}/target/fine-{}-{}.json", verif_dir(), prop.id, std::process::id());
        let o = std::process::Command::new(fine_exe())
            .args(["check", prop.id])
            .env("GSIM_SECS", format!("{}", secs * FINE_SHARE))
            .env("GSIM_EVIDENCE", &part)
            .env_remove("GSIM_REEXEC")
            .output()
            .expect("cannot run the instrumented build");
        print!("{}", String::from_utf8_lossy(&o.stdout));
        eprint!("{}", String::from_utf8_lossy(&o.stderr));
        let text = std::fs::read_to_string(&part).unwrap_or_default();
        let _ = std::fs::remove_file(&part);
        match o.status.code() {
            Some(0) => {}
            Some(1) => {
                let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
                let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), prop.id), text);
                return 1;
            }
            c => {
                println!("the instrumented build gave no answer ({:?})", c);
                return 2;
            }
        }
        fine_part = serde_json::from_str::<Value>(&text).map(|v| v["coverage"].clone()).unwrap_or(Value::Null);
        if let Some(o) = fine_part.as_object_mut() {
            for k in ["samples", "rule", "real_components", "stubbed_components"] {
                o.remove(k);
            }
        }
        secs *= 1.0 - FINE_SHARE;
    }
    let t0 = Instant::now();
    let jobs: usize = std::env::var("GSIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(ncpu).clamp(1, nursery::SLOTS - 1);
    let limit = HANG_S;
    let board = map_board();
    let out = format!("{}/gsim-out-{}", scratch_base(), std::process::id());
    let deadline = t0 + std::time::Duration::from_secs_f64(secs);
    let mut pids = vec![];
    for i in 0..jobs {
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                worker(prop, base, i, jobs, deadline, board, &out, limit);
                libc::_exit(0);
            }
            pids.push(pid);
        }
    }
    for p in pids {
        unsafe {
            let mut s = 0;
            libc::waitpid(p, &mut s, 0);
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let st = &board.st[..jobs];
    let sum = |f: fn(&Stat) -> &AtomicU64| st.iter().map(|s| f(s).load(SeqCst)).sum::<u64>();

    // violations: reproduce, minimise, replay
    use_slot(nursery::SLOTS - 1);
    make_scratch();
    let mut reported = 0;
    let mut unreproduced = 0;
    let mut lines = vec![];
    let known = known_findings();
    // every listed finding is tried again; its input may only fail the way it is listed
    let mut known_lines = vec![];
    for k in known.iter().filter(|k| k.property == prop.id) {
        let r = fork_run(prop, &k.spec, limit);
        match &r.out {
            Out::Viol(c, _) if *c == k.class => known_lines.push(format!("KNOWN-FINDING: property={} {}", prop.id, k.what)),
            Out::Viol(c, d) if reported == 0 => {
                let path = write_replay(prop, 0, base, c, d, &k.spec, r.hash, 0);
                println!("violated: {} [{}] {} (the input of a known finding failed in another way)", prop.id, c, d);
                lines.push(format!("VIOLATION property={} replay={}", prop.id, path));
                reported += 1;
            }
            o => println!("the known finding \"{}\" did not show: {:?}", k.what, o),
        }
    }
    for s in st {
        if s.viol.load(SeqCst) == 0 || reported > 0 {
            continue;
        }
        let seed = s.viol_seed.load(SeqCst);
        let spec = spec_for(prop, seed);
        let mut first = None;
        for _ in 0..2 {
            let r = fork_run(prop, &spec, limit);
            if let Out::Viol(c, d) = r.out {
                first = Some((c, d));
                break;
            }
        }
        let Some((class, detail)) = first else {
            unreproduced += 1;
            continue;
        };
        let (min, tries) = minimise(prop, &spec, &class, 60.0, limit);
        let r = fork_run(prop, &min, limit);
        let (use_spec, r) = if same(&r.out, &class) { (min, r) } else { (spec.clone(), fork_run(prop, &spec, limit)) };
        let d = match &r.out {
            Out::Viol(_, d) => d.clone(),
            _ => detail.clone(),
        };
        if is_known(&known, prop, &use_spec, &class) && is_known(&known, prop, &spec, &class) {
            continue;
        }
        let path = write_replay(prop, seed, base, &class, &d, &use_spec, r.hash, tries);
        // the replay file must reproduce exactly
        let (ok, exact) = replay_file(&path, false);
        if !ok {
            unreproduced += 1;
            continue;
        }
        println!("violated: {} [{}] {}", prop.id, class, d.chars().take(1500).collect::<String>());
        println!("run seed {} (VERIF_SEED={}), minimised with {} runs, replay exact: {}", seed, base, tries, exact);
        lines.push(format!("VIOLATION property={} replay={}", prop.id, path));
        reported += 1;
    }
    drop_scratch();

    // evidence
    let mut sched_all: HashSet<u64> = HashSet::new();
    let mut hash_all: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut edges = vec![false; crate::mem::num_edges()];
    for i in 0..jobs {
        for (suffix, set) in [("sched", &mut sched_all), ("hash", &mut hash_all)] {
            let p = format!("{}.{}.{}", out, i, suffix);
            if let Ok(b) = std::fs::read(&p) {
                for c in b.chunks_exact(8) {
                    set.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
            let _ = std::fs::remove_file(&p);
        }
        let p = format!("{}.{}.edges", out, i);
        if let Ok(b) = std::fs::read(&p) {
            for (e, x) in edges.iter_mut().zip(b) {
                *e |= x != 0;
            }
        }
        let _ = std::fs::remove_file(&p);
        let p = format!("{}.{}.samples", out, i);
        if let Ok(s) = std::fs::read_to_string(&p) {
            if let Ok(Value::Array(a)) = serde_json::from_str(&s) {
                if samples.len() < 3 {
                    samples.extend(a.into_iter().take(1));
                }
            }
        }
        let _ = std::fs::remove_file(&p);
    }
    let runs = sum(|s| &s.runs);
    let mut faults = Map::new();
    for (i, n) in CTR_NAMES.iter().enumerate() {
        let c: u64 = st.iter().map(|s| s.ctr[i].load(SeqCst)).sum();
        if c > 0 {
            faults.insert(n.to_string(), json!(c));
        }
    }
    let mut ev = json!({
        "property": prop.id, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": hash_all.len(),
            "oracle": prop.level,
            "rule": format!("{} A run is non-trivial when at least one preemption or fault happened and at least one oracle comparison was made; distinct by (scenario, hash of the whole scheduling/event sequence).", prop.rule),
            "samples": samples,
            "runs_held": sum(|s| &s.held),
            "runs_not_applicable": sum(|s| &s.skipped),
            "runs_without_verdict": sum(|s| &s.unclear),
            "runs_matching_known_findings": sum(|s| &s.known),
            "seeds_per_hour": (runs as f64 / explore_s * 3600.0) as u64,
            "scheduling_steps": sum(|s| &s.steps),
            "decisions": sum(|s| &s.decisions),
            "context_switches": sum(|s| &s.switches),
            "distinct_interleavings": sched_all.len(),
            "interleaving_measure": "FNV hash over every context switch, block and exit (task, step number)",
            "simulated_seconds": sum(|s| &s.sim_ns) as f64 / 1e9,
            "oracle_comparisons": sum(|s| &s.checks),
            "events_and_faults_injected": faults,
            "determinism_rechecks": sum(|s| &s.recheck),
            "determinism_mismatches": sum(|s| &s.recheck_bad),
            "violations_not_reproduced": unreproduced + sum(|s| &s.unrepro),
            "slowest_run_ms": st.iter().map(|s| s.max_ms.load(SeqCst)).max().unwrap_or(0),
            "real_components": prop.real,
            "stubbed_components": prop.stub,
            "workers": jobs,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": reported,
    });
    if fine {
        ev["coverage"]["code_edges_reached"] = json!(edges.iter().filter(|x| **x).count());
        ev["coverage"]["code_edges_instrumented"] = json!(edges.len());
        ev["coverage"]["code_edges_measure"] =
            json!("LLVM edge counters in granne and in everything compiled into gsim with it (the scenarios of all properties included)");
    } else if !fine_part.is_null() {
        ev["coverage"]["memory_access_preemption_part"] = fine_part;
    }
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = std::env::var("GSIM_EVIDENCE").unwrap_or(format!("{}/{}.json", dir, prop.id));
    std::fs::write(path, serde_json::to_string_pretty(&ev).unwrap()).expect("cannot write evidence");
    println!(
        "{}: {} runs ({} held, {} n/a, {} unclear), {} distinct non-trivial, {} distinct interleavings, {} oracle comparisons, {:.1} s",
        prop.id, runs, sum(|s| &s.held), sum(|s| &s.skipped), sum(|s| &s.unclear), hash_all.len(), sched_all.len(), sum(|s| &s.checks), explore_s
    );
    for l in &known_lines {
        println!("{}", l);
    }
    for l in &lines {
        println!("{}", l);
    }
    if reported > 0 {
        return 1;
    }
    if runs == 0 || sum(|s| &s.held) == 0 {
        println!("no run finished: the check gives no answer");
        return 2;
    }
    0
}

/// (reproduced, exactly the same execution)
pub fn replay_file(path: &str, verbose: bool) -> (bool, bool) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    let prop = find(v["property"].as_str().unwrap());
    if unsafe { SHARED.is_null() } {
        use_slot(nursery::SLOTS - 1);
        make_scratch();
    }
    let r = fork_run(prop, &v["spec"], HANG_S);
    let class = v["class"].as_str().unwrap();
    let exact = format!("{:016x}", r.hash) == v["event_hash"].as_str().unwrap_or("");
    if verbose {
        println!("{:?}", r.out);
        println!("event hash {:016x}, recorded {}", r.hash, v["event_hash"]);
    }
    (same(&r.out, class), exact)
}
pub fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}
pub fn init_single() {
    use_slot(nursery::SLOTS - 1);
    make_scratch();
    pin(0);
}
pub fn done_single() {
    drop_scratch();
}
#[allow(dead_code)]
pub fn unused(_: &Shared) {
    shared::checked(0)
}
