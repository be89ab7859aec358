//! The scheduler: every thread of a run is a real OS thread, exactly one of which holds the baton.
//! All blocking and yielding of the real std / rayon / parking_lot code arrives here through the libc
//! symbols defined below; every decision comes from one seeded (or replayed) stream.
use crate::rng::Rng;
use crate::shared::{count, sh, MAX_DEV};
use serde_json::{json, Value};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::*};

// ------------------------------------------------------------------ raw system calls
#[inline]
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
pub unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub unsafe fn real<T: Copy>(name: &'static [u8]) -> T {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const libc::c_char);
    assert!(!p.is_null());
    std::mem::transmute_copy(&p)
}

// ------------------------------------------------------------------ state
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Blocked,
    Done,
}
type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
pub struct Task {
    id: usize,
    baton: AtomicU32,
    st: St,
    futex: usize,
    join_on: usize,
    since: u64,
    deadline: u64,
    timed_out: bool,
    prio: i64,
    held_until: u64,
    ptid: libc::pthread_t,
    start: Option<Start>,
    arg: *mut libc::c_void,
    label: String,
}
#[derive(Clone, Debug)]
enum Policy {
    Seq,
    Rand { p: f64 },
    Pct { changes: Vec<u64> },
    Stall { p: f64, victim: usize, from: u64, len: u64 },
    Burst { p: f64, period: u64 },
}
pub struct Sim {
    on: bool,
    tasks: Vec<Box<Task>>,
    cur: usize,
    rng: Rng,
    pol: Policy,
    replay: Option<Vec<(u64, u32)>>,
    rp: usize,
    idx: u64,
    next_preempt: u64,
    steps: u64,
    clock: u64,
    frozen: bool,
    jumpy: f64,
    spurious: f64,
    wake_random: bool,
    hold: f64,
    hold_len: u64,
    low_prio: i64,
    timed: usize,
    seq: u64,
    cap1: u64,
    cap2: u64,
    hash: u64,
    key: libc::pthread_key_t,
}
static mut SIM: *mut Sim = std::ptr::null_mut();
thread_local! { static CUR: Cell<usize> = const { Cell::new(usize::MAX) }; }

#[inline]
fn cur() -> usize {
    CUR.with(|c| c.get())
}
#[inline]
fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
/// Is the calling thread a simulated one inside a running simulation?
#[inline(never)]
pub fn active() -> bool {
    unsafe { !SIM.is_null() && (*SIM).on && cur() != usize::MAX }
}

/// End the run with a violation, from anywhere.
pub fn die(class: &str, detail: &str) -> ! {
    publish();
    let s = sh();
    if s.outcome.load(SeqCst) == 0 {
        s.set_msg(&json!({"class": class, "detail": detail}).to_string());
        s.outcome.store(2, SeqCst);
    }
    unsafe { libc::_exit(77) }
}
#[inline(never)]
pub fn publish() {
    unsafe {
        if SIM.is_null() {
            return;
        }
        let m = &*SIM;
        let s = sh();
        s.decisions.store(m.idx, Relaxed);
        s.steps.store(m.steps, Relaxed);
        s.sim_ns.store(m.clock, Relaxed);
        s.event_hash.store(m.hash, Relaxed);
        s.tasks.store(m.tasks.len() as u64, Relaxed);
    }
}

/// thread that is about to end: what the C library still does for it must not depend on real time
static GONE: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
unsafe fn wait_gone() {
    let tid = GONE.swap(0, SeqCst);
    if tid != 0 {
        let pid = raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as usize;
        while raw(libc::SYS_tgkill, pid, tid as usize, 0, 0, 0, 0) == 0 {
            raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        }
    }
}

extern "C" fn task_gone(p: *mut libc::c_void) {
    // last thing a simulated thread does (after its thread-local destructors)
    let id = p as usize - 1;
    let m = sim();
    m.tasks[id].st = St::Done;
    CUR.with(|c| c.set(usize::MAX));
    for t in m.tasks.iter_mut() {
        if t.st == St::Blocked && t.join_on == id + 1 {
            t.st = St::Run;
            t.join_on = 0;
        }
    }
    if m.on && m.cur == id {
        m.event(id, 9);
        let to = m.pick_forced(false);
        GONE.store(unsafe { raw(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) } as i32, SeqCst);
        m.hand_over(to);
    }
}

fn parse_policy(s: &Value, rng: &mut Rng) -> Policy {
    let p = s["p"].as_f64().unwrap_or(0.1);
    match s["kind"].as_str().unwrap_or("rand") {
        "seq" => Policy::Seq,
        "pct" => {
            let d = s["d"].as_u64().unwrap_or(3);
            let h = s["horizon"].as_u64().unwrap_or(2000).max(1);
            let mut changes: Vec<u64> = (0..d).map(|_| rng.next() % h).collect();
            changes.sort();
            Policy::Pct { changes }
        }
        "stall" => Policy::Stall {
            p,
            victim: s["victim"].as_u64().unwrap_or(1) as usize,
            from: s["from"].as_u64().unwrap_or(0),
            len: s["len"].as_u64().unwrap_or(1000),
        },
        "burst" => Policy::Burst { p, period: s["period"].as_u64().unwrap_or(200).max(1) },
        _ => Policy::Rand { p },
    }
}

/// A random scheduling policy (swarm testing: each run gets its own).
#[inline(never)]
pub fn gen_sched(r: &mut Rng) -> Value {
    let fine = r.chance(0.85) && crate::mem::num_edges() > 0;
    let mut v = match r.below(12) {
        0 => json!({"kind":"seq"}),
        1 | 2 => json!({"kind":"rand","p":0.5}),
        3 => json!({"kind":"rand","p":1.0}),
        4 | 5 => json!({"kind":"rand","p":0.1}),
        6 => json!({"kind":"rand","p":0.02}),
        7 | 8 => json!({"kind":"pct","d":r.range(1,8),"horizon": 1u64 << r.range(5,16)}),
        9 | 10 => {
            json!({"kind":"stall","p":r.pick(&[0.5,0.1,0.03]),"victim":r.range(0,5),"from":r.small(0,5000),"len":r.small(50,100000)})
        }
        _ => json!({"kind":"burst","p":0.7,"period":r.small(20,2000)}),
    };
    v["seed"] = json!(r.next() >> 16);
    if fine {
        // also preempt between individual accesses to shared memory
        v["mem"] = json!(r.pick(&[100u64, 1000, 1000, 10_000, 100_000]));
    }
    if r.chance(0.3) {
        // threads get stalled right after taking a lock
        v["hold"] = json!(r.pick(&[0.005, 0.05, 0.3, 1.0]));
        v["hold_len"] = json!(r.pick(&[20u64, 200, 2000]));
    }
    if r.chance(0.15) {
        v["spurious"] = json!(r.pick(&[0.02, 0.3]));
    }
    if r.chance(0.3) {
        v["wake_random"] = json!(true);
    }
    match r.below(6) {
        0 => v["frozen"] = json!(true),
        1 => v["jumpy"] = json!(r.pick(&[0.05, 0.5])),
        _ => {}
    }
    v
}

/// Turns the calling thread into task 0 of a simulation.
#[inline(never)]
pub fn start(sched: &Value) {
    unsafe {
        assert!(SIM.is_null());
        let mut rng = Rng::new(sched["seed"].as_u64().unwrap_or(1));
        let pol = parse_policy(sched, &mut rng);
        let replay = sched["dev"].as_array().map(|a| {
            a.iter().map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap() as u32)).collect::<Vec<_>>()
        });
        let mut key: libc::pthread_key_t = 0;
        assert_eq!(0, libc::pthread_key_create(&mut key, Some(std::mem::transmute(task_gone as extern "C" fn(_)))));
        let m = Box::new(Sim {
            on: true,
            tasks: Vec::new(),
            cur: 0,
            rng,
            pol,
            replay,
            rp: 0,
            idx: 0,
            next_preempt: 0,
            steps: 0,
            clock: 1_000_000_000_000,
            frozen: sched["frozen"].as_bool().unwrap_or(false),
            jumpy: sched["jumpy"].as_f64().unwrap_or(0.0),
            spurious: sched["spurious"].as_f64().unwrap_or(0.0),
            wake_random: sched["wake_random"].as_bool().unwrap_or(false),
            hold: sched["hold"].as_f64().unwrap_or(0.0),
            hold_len: sched["hold_len"].as_u64().unwrap_or(100),
            low_prio: 0,
            timed: 0,
            seq: 0,
            cap1: sched["cap1"].as_u64().unwrap_or(3_000_000),
            cap2: sched["cap2"].as_u64().unwrap_or(9_000_000),
            hash: 0xcbf29ce484222325,
            key,
        });
        if m.frozen {
            count("clock_frozen_run");
        }
        SIM = Box::into_raw(m);
        crate::mem::own_stack(1 << 20);
        crate::mem::start(sched["mem"].as_u64().unwrap_or(0), sched["seed"].as_u64().unwrap_or(1));
        let t = sim().new_task();
        sim().tasks[t].ptid = libc::pthread_self();
        CUR.with(|c| c.set(0));
        sim().arm();
    }
}

#[inline(never)]
pub fn stop() {
    sim().on = false;
    publish();
}
/// Runs `f` without preemption or faults (for oracles and set-up inside a run).
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let was = set_on(false);
    let r = f();
    set_on(was);
    r
}
#[inline(never)]
fn set_on(on: bool) -> bool {
    unsafe { !SIM.is_null() && std::mem::replace(&mut (*SIM).on, on) }
}
/// Logical time stamp for histories (strictly increasing).
#[inline(never)]
pub fn stamp() -> u64 {
    let m = sim();
    m.seq += 1;
    m.seq
}
/// Threads that have not ended.
#[inline(never)]
pub fn alive() -> usize {
    sim().tasks.iter().filter(|t| t.st != St::Done).count()
}
#[inline(never)]
pub fn steps() -> u64 {
    sim().steps
}
pub fn label(s: impl Into<String>) {
    label_(s.into())
}
#[inline(never)]
fn label_(s: String) {
    let c = cur();
    if c != usize::MAX {
        sim().tasks[c].label = s;
    }
}
/// A decision for the I/O layer: true with probability p (false when minimised away).
#[inline(never)]
pub fn chance(p: f64) -> bool {
    p > 0.0 && active() && sim().decide(2, |m| (m.rng.f() < p) as u32) == 1
}
/// A decision in 0..n, 0 = the ordinary thing.
#[inline(never)]
pub fn choose(n: u32) -> u32 {
    if n <= 1 || !active() {
        return 0;
    }
    sim().decide(n, |m| m.rng.below(n as usize) as u32)
}

impl Sim {
    fn new_task(&mut self) -> usize {
        let id = self.tasks.len();
        let prio = if self.replay.is_some() { 0 } else { (self.rng.next() >> 40) as i64 + 1 };
        self.tasks.push(Box::new(Task {
            id,
            baton: AtomicU32::new(0),
            st: St::Run,
            futex: 0,
            join_on: 0,
            since: 0,
            deadline: 0,
            timed_out: false,
            prio,
            held_until: 0,
            ptid: 0,
            start: None,
            arg: std::ptr::null_mut(),
            label: String::new(),
        }));
        id
    }
    fn event(&mut self, a: usize, kind: u64) {
        self.hash = (self.hash ^ (a as u64 * 31 + kind + (self.steps << 8))).wrapping_mul(0x100000001b3);
    }
    fn arm(&mut self) {
        let p = match &self.pol {
            Policy::Seq => {
                self.next_preempt = u64::MAX;
                return;
            }
            Policy::Rand { p } | Policy::Stall { p, .. } => *p,
            Policy::Burst { p, period } => {
                if (self.steps / *period) % 3 == 0 {
                    *p
                } else {
                    1.0 / *period as f64
                }
            }
            Policy::Pct { .. } => {
                self.next_preempt = 0;
                return;
            }
        };
        let u = self.rng.f().max(1e-12);
        let gap = if p >= 1.0 { 0.0 } else { (u.ln() / (1.0 - p).ln()).floor() };
        self.next_preempt = self.idx + gap as u64;
    }
    fn decide(&mut self, n: u32, gen: impl FnOnce(&mut Self) -> u32) -> u32 {
        let i = self.idx;
        self.idx += 1;
        let v = match &self.replay {
            Some(d) => {
                while self.rp < d.len() && d[self.rp].0 < i {
                    self.rp += 1;
                }
                if self.rp < d.len() && d[self.rp].0 == i {
                    d[self.rp].1 % n
                } else {
                    0
                }
            }
            None => gen(self).min(n - 1),
        };
        if v != 0 {
            let s = sh();
            let k = s.ndev.load(Relaxed) as usize;
            if k < MAX_DEV {
                s.dev[k] = (i, v);
                s.ndev.store(k as u32 + 1, Relaxed);
            } else {
                s.dev_overflow.store(1, Relaxed);
            }
        }
        v
    }
    /// runnable tasks other than the current one, in cyclic order after it
    fn others(&self) -> Vec<usize> {
        let n = self.tasks.len();
        (1..n).map(|k| (self.cur + k) % n).filter(|&t| self.tasks[t].st == St::Run).collect()
    }
    fn fire_timers(&mut self) {
        if self.timed == 0 {
            return;
        }
        let now = self.clock;
        for t in self.tasks.iter_mut() {
            if t.st == St::Blocked && t.deadline != 0 && t.deadline <= now {
                t.st = St::Run;
                t.deadline = 0;
                t.timed_out = true;
                t.futex = 0;
                self.timed -= 1;
                count("timeout_fired");
            }
        }
    }
    fn step(&mut self) {
        self.steps += 1;
        crate::mem::progress();
        if !self.frozen {
            self.clock += 200;
        }
        if self.steps >= self.cap1 {
            if self.steps == self.cap1 {
                // faults and unfair scheduling stop here: everything has to finish under fair scheduling
                self.pol = Policy::Rand { p: 0.05 };
                self.spurious = 0.0;
                self.jumpy = 0.0;
                self.frozen = false;
                self.arm();
            }
            if self.steps >= self.cap2 {
                let d = self.describe();
                die("no-progress", &format!("not finished after {} further steps of fair scheduling: {}", self.cap2 - self.cap1, d));
            }
        }
        if self.timed > 0 {
            self.fire_timers();
        }
    }
    fn describe(&self) -> String {
        self.tasks
            .iter()
            .filter(|t| t.st != St::Done)
            .map(|t| {
                let why = match t.st {
                    St::Run => "runnable".to_string(),
                    _ if t.join_on > 0 => format!("joining task {}", t.join_on - 1),
                    _ => "blocked on a lock or condition".to_string(),
                };
                format!("task {} [{}] {}", t.id, t.label, why)
            })
            .collect::<Vec<_>>()
            .join("; ")
    }
    fn gen_pick(&mut self, o: &[usize]) -> u32 {
        // index into o
        if self.hold > 0.0 {
            let ok: Vec<usize> = (0..o.len()).filter(|&k| self.tasks[o[k]].held_until <= self.steps).collect();
            if !ok.is_empty() && ok.len() < o.len() {
                let sub: Vec<usize> = ok.iter().map(|&k| o[k]).collect();
                return ok[self.gen_pick_of(&sub) as usize] as u32;
            }
        }
        self.gen_pick_of(o)
    }
    fn gen_pick_of(&mut self, o: &[usize]) -> u32 {
        if let Policy::Pct { .. } = self.pol {
            return (0..o.len()).max_by_key(|&k| self.tasks[o[k]].prio).unwrap() as u32;
        }
        if let Policy::Seq = self.pol {
            return 0;
        }
        if let Policy::Stall { victim, from, len, .. } = self.pol {
            if self.steps >= from && self.steps < from + len {
                let ok: Vec<usize> = (0..o.len()).filter(|&k| o[k] != victim).collect();
                if !ok.is_empty() {
                    if ok.len() < o.len() {
                        count("thread_stall");
                    }
                    return ok[self.rng.below(ok.len())] as u32;
                }
            }
        }
        self.rng.below(o.len()) as u32
    }
    /// The current task cannot (or must not) continue: choose another one.
    fn pick_forced(&mut self, can_stay: bool) -> usize {
        loop {
            self.fire_timers();
            let o = self.others();
            if o.is_empty() {
                if can_stay {
                    return self.cur;
                }
                // nobody can run: let time pass up to the next deadline
                if let Some(d) = self.tasks.iter().filter(|t| t.st == St::Blocked && t.deadline != 0).map(|t| t.deadline).min() {
                    self.clock = self.clock.max(d);
                    self.fire_timers();
                    if self.tasks[self.cur].st == St::Run {
                        return self.cur;
                    }
                    continue;
                }
                let d = self.describe();
                die("deadlock", &format!("no thread can run: {}", d));
            }
            let n = o.len() as u32;
            let k = if n == 1 { 0 } else { self.decide(n, |m| m.gen_pick(&o)) };
            return o[k as usize];
        }
    }
    fn hand_over(&mut self, to: usize) {
        self.event(to, 1);
        sh().switches.fetch_add(1, Relaxed);
        self.cur = to;
        let t: *const Task = &*self.tasks[to];
        unsafe {
            (*t).baton.store(1, SeqCst);
            raw(libc::SYS_futex, &(*t).baton as *const _ as usize, libc::FUTEX_WAKE as usize | 128, 1, 0, 0, 0);
        }
    }
    fn switch(&mut self, to: usize) {
        let me = self.cur;
        if to == me {
            return;
        }
        let t: *const Task = &*self.tasks[me];
        self.hand_over(to);
        unsafe { wait_baton(t) }
    }
    fn maybe_preempt(&mut self, holding: bool) {
        // a thread that has just taken a lock is stalled while it holds it
        let mut forced = false;
        if holding && self.hold > 0.0 && self.replay.is_none() && self.steps < self.cap1 && self.rng.f() < self.hold {
            self.tasks[self.cur].held_until = self.steps + 1 + self.rng.below(2 * self.hold_len as usize) as u64;
            count("lock_holder_stall");
            forced = true;
        }
        // fast path: nothing scheduled for this decision index
        let pct = matches!(self.pol, Policy::Pct { .. });
        match &self.replay {
            None if !pct && !forced && self.idx < self.next_preempt => {
                self.idx += 1;
                return;
            }
            Some(d) => {
                while self.rp < d.len() && d[self.rp].0 < self.idx {
                    self.rp += 1;
                }
                if self.rp >= d.len() || d[self.rp].0 != self.idx {
                    self.idx += 1;
                    return;
                }
            }
            _ => {}
        }
        let o = self.others();
        if o.is_empty() {
            self.idx += 1;
            if self.replay.is_none() && !pct {
                self.arm();
            }
            return;
        }
        let k = self.decide(o.len() as u32 + 1, |m| {
            if forced {
                m.gen_pick(&o) + 1
            } else if pct {
                let steps = m.steps;
                let mut change = false;
                if let Policy::Pct { changes } = &mut m.pol {
                    while changes.first().map_or(false, |c| *c <= steps) {
                        changes.remove(0);
                        change = true;
                    }
                }
                if change {
                    m.low_prio -= 1;
                    m.tasks[m.cur].prio = m.low_prio;
                    count("pct_priority_change");
                }
                let best = m.gen_pick(&o) as usize;
                if m.tasks[o[best]].prio > m.tasks[m.cur].prio {
                    best as u32 + 1
                } else {
                    0
                }
            } else {
                m.arm();
                let v = m.gen_pick(&o) + 1;
                // a stalled victim must not be chosen just because nobody else is runnable
                if let Policy::Stall { victim, from, len, .. } = m.pol {
                    if m.steps >= from && m.steps < from + len && o[v as usize - 1] == victim {
                        count("thread_stall");
                        return 0;
                    }
                }
                v
            }
        });
        if k > 0 {
            sh().preemptions.fetch_add(1, Relaxed);
            count("thread_preemption");
            self.switch(o[k as usize - 1]);
        }
    }
    fn block(&mut self) {
        // the current task's state is already set to Blocked
        let me = self.cur;
        self.seq += 1;
        self.tasks[me].since = self.seq;
        let to = self.pick_forced(false);
        if to != me {
            self.switch(to);
        }
    }
    fn yield_now(&mut self) {
        self.step();
        if let Policy::Pct { .. } = self.pol {
            self.low_prio -= 1;
            let c = self.cur;
            self.tasks[c].prio = self.low_prio;
        }
        let to = self.pick_forced(true);
        self.switch(to);
    }
}
unsafe fn wait_baton(t: *const Task) {
    while (*t).baton.load(SeqCst) == 0 {
        raw(libc::SYS_futex, &(*t).baton as *const _ as usize, libc::FUTEX_WAIT as usize | 128, 0, 0, 0, 0);
    }
    (*t).baton.store(0, SeqCst);
    wait_gone();
}

/// A thread that touched shared memory: preempt it if `preempt`, or let others run if it seems to spin.
pub(crate) fn mem_point(spinning: bool) {
    if !active() || std::thread::panicking() {
        return;
    }
    let m = sim();
    if spinning {
        return m.yield_now();
    }
    let o = m.others();
    if o.is_empty() {
        return;
    }
    let k = m.decide(o.len() as u32 + 1, |m| m.gen_pick(&o) + 1);
    if k > 0 {
        sh().preemptions.fetch_add(1, Relaxed);
        count("memory_access_preemption");
        m.switch(o[k as usize - 1]);
    }
}
/// Preemption point.
#[inline(never)]
pub fn point() {
    if active() && !std::thread::panicking() {
        let m = sim();
        m.step();
        m.maybe_preempt(false);
    }
}
#[no_mangle]
pub extern "C" fn gsim_yield(kind: u32, _addr: usize) {
    if active() && !std::thread::panicking() {
        let m = sim();
        m.step();
        m.maybe_preempt(kind == 4);
    }
}
/// Spinning or idle: let somebody else run.
#[inline(never)]
pub fn yield_now() {
    if active() && !std::thread::panicking() {
        sim().yield_now()
    }
}

// ------------------------------------------------------------------ futex
unsafe fn futex_wait(addr: usize, val: u32, deadline: u64) -> isize {
    let m = sim();
    m.step();
    if (*(addr as *const AtomicU32)).load(SeqCst) != val {
        return -(libc::EAGAIN as isize);
    }
    if m.spurious > 0.0 {
        let p = m.spurious;
        if m.decide(2, |m| (m.rng.f() < p) as u32) == 1 {
            count("spurious_futex_wakeup");
            m.yield_now();
            return if m.clock & 256 == 0 { 0 } else { -(libc::EINTR as isize) };
        }
    }
    let c = m.cur;
    {
        let t = &mut m.tasks[c];
        t.st = St::Blocked;
        t.futex = addr;
        t.timed_out = false;
        t.deadline = deadline;
    }
    if deadline != 0 {
        m.timed += 1;
    }
    m.event(c, 3);
    m.block();
    let m = sim();
    let t = &mut m.tasks[c];
    if t.timed_out {
        return -(libc::ETIMEDOUT as isize);
    }
    0
}
unsafe fn futex_wake(addr: usize, n: usize) -> isize {
    let m = sim();
    let mut woken = 0;
    while woken < n {
        let mut w: Vec<(u64, usize)> =
            m.tasks.iter().filter(|t| t.st == St::Blocked && t.futex == addr).map(|t| (t.since, t.id)).collect();
        if w.is_empty() {
            break;
        }
        w.sort();
        let k = if m.wake_random && w.len() > 1 && n < w.len() + woken {
            let k = m.decide(w.len() as u32, |m| m.rng.below(w.len()) as u32);
            if k > 0 {
                count("wake_order_permuted");
            }
            k as usize
        } else {
            0
        };
        let t = &mut m.tasks[w[k].1];
        t.st = St::Run;
        t.futex = 0;
        if t.deadline != 0 {
            t.deadline = 0;
            m.timed -= 1;
        }
        woken += 1;
    }
    if woken > 0 && !std::thread::panicking() {
        m.step();
        m.maybe_preempt(false);
    }
    woken as isize
}
unsafe fn ts_ns(p: usize) -> u64 {
    let t = &*(p as *const libc::timespec);
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
const REALTIME_BASE: u64 = 1_700_000_000_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == libc::SYS_futex && active() {
        let op = b as i32 & 127;
        let flags = b as i32;
        let m = sim();
        match op {
            libc::FUTEX_WAIT => {
                let dl = if d == 0 { 0 } else { m.clock + ts_ns(d).max(1) };
                return ret(futex_wait(a, c as u32, dl));
            }
            libc::FUTEX_WAIT_BITSET => {
                let dl = if d == 0 {
                    0
                } else {
                    let t = ts_ns(d);
                    (if flags & libc::FUTEX_CLOCK_REALTIME != 0 { t.saturating_sub(REALTIME_BASE) } else { t }).max(1)
                };
                return ret(futex_wait(a, c as u32, dl));
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => return ret(futex_wake(a, c)),
            _ => die("harness", &format!("unsupported futex operation {}", op)),
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

// ------------------------------------------------------------------ threads
extern "C" fn tramp(p: *mut libc::c_void) -> *mut libc::c_void {
    let t = p as *mut Task;
    unsafe {
        wait_baton(t);
        crate::mem::own_stack(0);
        CUR.with(|c| c.set((*t).id));
        libc::pthread_setspecific(sim().key, ((*t).id + 1) as *const libc::c_void);
        ((*t).start.unwrap())((*t).arg)
    }
}
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32;
type Join = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: Start,
    arg: *mut libc::c_void,
) -> i32 {
    let f: Create = real(b"pthread_create\0");
    if !active() {
        return f(th, attr, start, arg);
    }
    let m = sim();
    let id = m.new_task();
    m.tasks[id].start = Some(start);
    m.tasks[id].arg = arg;
    let p: *mut Task = &mut *m.tasks[id];
    let r = f(th, attr, tramp, p as *mut libc::c_void);
    if r != 0 {
        m.tasks[id].st = St::Done;
        return r;
    }
    m.tasks[id].ptid = *th;
    m.step();
    m.maybe_preempt(false);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, out: *mut *mut libc::c_void) -> i32 {
    let f: Join = real(b"pthread_join\0");
    if active() {
        let m = sim();
        let target = m.tasks.iter().rposition(|t| t.ptid == th && t.id != m.cur); // ids of detached threads are reused
        if let Some(id) = target {
            if m.tasks[id].st != St::Done {
                let c = m.cur;
                m.tasks[c].st = St::Blocked;
                m.tasks[c].join_on = id + 1;
                m.event(c, 4);
                m.block();
            }
            // pthread ids are reused: forget this one
            sim().tasks[id].ptid = 0;
        }
    }
    f(th, out)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if active() {
        if !std::thread::panicking() {
            sim().yield_now();
        }
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    0
}

// ------------------------------------------------------------------ time and randomness
unsafe fn sleep_until(dl: u64) {
    let m = sim();
    m.step();
    let c = m.cur;
    m.tasks[c].st = St::Blocked;
    m.tasks[c].futex = 0;
    m.tasks[c].deadline = dl.max(1);
    m.timed += 1;
    m.event(c, 5);
    m.block();
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if active() {
        let d = sim().clock + ts_ns(req as usize);
        sleep_until(d);
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if active() {
        let t = ts_ns(req as usize);
        let d = if flags & 1 != 0 {
            if clk == libc::CLOCK_REALTIME { t.saturating_sub(REALTIME_BASE) } else { t }
        } else {
            sim().clock + t
        };
        sleep_until(d);
        return 0;
    }
    -(raw(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if active() {
        let m = sim();
        if m.jumpy > 0.0 {
            let p = m.jumpy;
            let k = m.decide(4, |m| if m.rng.f() < p { 1 + m.rng.below(3) as u32 } else { 0 });
            if k > 0 {
                count("clock_jump");
                m.clock += [1_000_000u64, 3_000_000_000, 86_400_000_000_000][k as usize - 1];
            }
        }
        let t = if clk == libc::CLOCK_REALTIME { m.clock + REALTIME_BASE } else { m.clock };
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    if !SIM.is_null() {
        // an oracle at work: the time stands still
        let t = if clk == libc::CLOCK_REALTIME { sim().clock + REALTIME_BASE } else { sim().clock };
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    if crate::nursery::in_run() {
        let s = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for (i, b) in s.iter_mut().enumerate() {
            *b = (i as u8).wrapping_mul(151).wrapping_add(43);
        }
        return len as isize;
    }
    ret(raw(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0))
}
