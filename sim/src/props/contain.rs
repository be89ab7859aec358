//! C22 (offline part), C23, C24: what goes wrong, or takes long, in one operation does not spread.
use super::prelude::*;
use crate::elems::{hostile, stall};
use std::fs::File;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

fn path(f: &str) -> String {
    format!("{}/{}", crate::driver::scratch(), f)
}

// ------------------------------------------------------------------ C22: failed offline builds
pub fn gen_offline(r: &mut Rng) -> Value {
    let lossless = r.chance(0.6);
    let n = r.small(1, 70);
    let mut data = if lossless { gen_distinct(r, 1, 2) } else { gen_data(r, 1, 2) };
    data["n"] = json!(n);
    let cfg = if lossless {
        json!({"nn": 2 * n + 2, "ms": n + r.below(20), "lm": gen_lm(r), "reins": r.chance(0.4), "progress": r.chance(0.2)})
    } else {
        gen_cfg(r)
    };
    let span = r.pick(&[10usize, 100, 1000, 10_000, 40_000]);
    json!({"kind": gen_any_kind(r), "data": data, "cfg": cfg, "workers": r.range(1, 4), "first": r.below(n + 1),
        "offline": (0..r.range(1, 3)).map(|_| json!((0..r.range(1, 3)).map(|_| r.below(span)).collect::<Vec<_>>())).collect::<Vec<_>>(),
        "beside": r.chance(0.4), "panics": []})
}
fn judge<K: Kind>(bu: &GranneBuilder<K::C>, cfg: &Cfg, d: &Data, n: usize) {
    ensure(bu.len() == n, "count", || format!("{} elements indexed instead of {}", bu.len(), n));
    check_sizes(bu, cfg, d.n, n);
    check_elements::<K>(bu.get_elements(), d, d.n);
    sim::quiet(|| {
        let g = G::of(bu);
        must(well_formed(&g, &|_| cfg.nn), "malformed");
        if lossless::<K>(bu.get_elements(), cfg, d.n) {
            must(symmetric(&g), "lost-link");
            must(connected(&g), "lost-element");
        }
    });
    for q in 0..3 {
        let q = K::query(d, q);
        let res = bu.get_index().search(&q, n.max(1), n.max(1));
        sim::quiet(|| must(truthful(&res, n.max(1), n.max(1), n, &|i| K::dist(&K::vec_of(&bu.get_elements().get(i)), &K::vec_of(&q))), "search"));
    }
}
fn lossless<K: Kind>(c: &K::C, cfg: &Cfg, n: usize) -> bool {
    cfg.nn >= 2 * n && cfg.ms >= n && super::build::distinct::<K>(c)
}
/// builds, again and again until nothing panics
fn stubborn<K: Kind>(s: &Value, d: &Data, cfg: &Cfg) -> GranneBuilder<K::C> {
    let els = sim::quiet(|| K::make(d, d.n));
    let mut bu = GranneBuilder::new(cfg.build(), els);
    let first = u(s, "first").min(d.n);
    for k in [first, d.n] {
        let mut tries = 0;
        loop {
            let r = catch_unwind(AssertUnwindSafe(|| bu.build_partial(k)));
            if r.is_ok() {
                break;
            }
            count("operation_panicked");
            tries += 1;
            ensure(tries < 20, "spurious-failure", || "a build panicked more often than the elements did".into());
            // whatever is left is an index
            sim::quiet(|| must(well_formed(&G::of(&bu), &|_| cfg.nn), "malformed"));
        }
        ensure(bu.len() == k, "count", || format!("{} elements indexed instead of {}", bu.len(), k));
    }
    bu
}
pub fn offline<K: Kind>(s: &Value) {
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    if d.n > 3000 {
        skip()
    }
    pool(u(s, "workers").max(1));
    let other = Data { seed: d.seed ^ 0x5a5a, ..d.clone() };
    let rounds: Vec<Vec<u64>> = s["offline"].as_array().unwrap().iter().map(|x| x.as_array().unwrap().iter().filter_map(|y| y.as_u64()).collect()).collect();
    for at in &rounds {
        hostile::arm(at);
        // another build may be going on in the same pool
        let beside = if b(s, "beside") {
            let (other, s) = (other.clone(), s.clone());
            Some(std::thread::spawn(move || {
                let bu = stubborn::<K>(&s, &other, &cfg);
                (bu, other)
            }))
        } else {
            None
        };
        let bu = stubborn::<K>(s, &d, &cfg);
        let beside = beside.map(|h| h.join().unwrap_or_else(|_| fail("panic", crate::shared::sh().get_panic())));
        // a search that panics
        let q = K::query(&d, 7);
        if catch_unwind(AssertUnwindSafe(|| bu.get_index().search(&q, 5, 5))).is_err() {
            count("operation_panicked");
        }
        hostile::disarm();
        judge::<K>(&bu, &cfg, &d, d.n);
        if let Some((bu, other)) = beside {
            judge::<K>(&bu, &cfg, &other, d.n);
        }
    }
}

// ------------------------------------------------------------------ C23
fn gen_c23(r: &mut Rng) -> Value {
    let max = r.range(2, 60);
    let mut s = super::rw::gen_rw(r, [1, 0, 0, 0, 0, 0, 0, 0, 0], 4);
    s["max"] = json!(max);
    s["n0"] = json!(r.below(max));
    s["data"]["zeros"] = json!(0.0);
    s["cfg"]["nn"] = json!(r.small(1, 30));
    s["cfg"]["ms"] = json!(r.small(1, 40));
    let m = s.as_object_mut().unwrap();
    m.remove("threads");
    m.remove("on_pool");
    let names = ["search", "search", "len", "get", "read"];
    s["what"] = json!(r.pick(&["save", "save", "insert"]));
    s["at"] = json!(if s["what"] == "save" { r.below(40) } else { r.below(20) });
    s["sizes"] = json!((0..r.range(1, 3)).map(|_| r.range(1, 20)).collect::<Vec<_>>());
    s["others"] = json!((0..r.below(3)).map(|_| r.pick(&["insert", "save"])).collect::<Vec<_>>());
    s["readers"] = json!((0..r.range(1, 3)).map(|_| (0..r.range(1, 4)).map(|_| json!([r.pick(&names), r.below(100)])).collect::<Vec<_>>()).collect::<Vec<_>>());
    s
}
/// A device that gets stuck in one of its operations.
struct Stuck(u64, io::Dev);
impl Stuck {
    fn tick(&mut self) {
        if self.0 == 1 {
            count("stalled_device");
            stall::enter();
        }
        self.0 = self.0.saturating_sub(1);
    }
}
impl std::io::Write for Stuck {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.tick();
        self.1.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.tick();
        self.1.flush()
    }
}
impl std::io::Seek for Stuck {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.tick();
        self.1.seek(p)
    }
}
fn run_c23<K: Kind>(s: &Value) {
    let d = Data::of(&s["data"]);
    let mut cfg = Cfg::of(&s["cfg"]);
    let (n0, max) = (u(s, "n0"), u(s, "max"));
    if n0 > 500 || max > 500 {
        skip()
    }
    cfg.exp = Some(max);
    pool(u(s, "workers").max(1));
    let els = sim::quiet(|| K::make(&d, n0));
    let rb = Arc::new(RwGranneBuilder::new(GranneBuilder::new(cfg.build(), els), max, u(s, "pool").clamp(1, 8)));
    let saving = s["what"] == "save";
    let at = u(s, "at") as u64;
    let mut next = n0;
    let sizes: Vec<usize> = s["sizes"].as_array().unwrap().iter().filter_map(|x| x.as_u64()).map(|x| (x as usize).clamp(1, 50)).collect();
    // the operation that takes its time
    let slow = {
        let (rb, d) = (rb.clone(), d.clone());
        let sizes = sizes.clone();
        let first = next;
        next += sizes.iter().sum::<usize>();
        std::thread::spawn(move || {
            sim::label("slow operation");
            if saving {
                // the index and the elements go to the same slow disk
                let k = 1 + at / 2;
                let (mut i, mut e) = if at % 2 == 0 { (Stuck(k, io::Dev::default()), Stuck(0, io::Dev::default())) } else { (Stuck(0, io::Dev::default()), Stuck(k, io::Dev::default())) };
                if let Err(e) = rb.write(&mut i, &mut e) {
                    fail("save", format!("saving failed on a working medium: {}", e))
                }
            } else {
                stall::arm(at);
                let mut k = first;
                for n in sizes {
                    rb.insert_batch((k..k + n).map(|i| K::internal(&d, i)).collect());
                    k += n;
                }
            }
            stall::passed();
        })
    };
    // others that have to wait for it
    let mut waiting = vec![];
    for o in s["others"].as_array().unwrap() {
        let (rb, d) = (rb.clone(), d.clone());
        let save = o == "save";
        // a second insert may keep searches waiting
        if !save && !saving {
            continue;
        }
        let k = next;
        next += 1;
        waiting.push(std::thread::spawn(move || {
            stall::await_reached();
            sim::label("waiting for the slow operation");
            if save {
                let (mut i, mut e) = (io::Dev::default(), io::Dev::default());
                rb.write(&mut i, &mut e).unwrap_or_else(|e| fail("save", e.to_string()));
            } else {
                rb.insert(K::internal(&d, k));
            }
        }));
    }
    let bound = n0 + next;
    let readers: Vec<_> = s["readers"]
        .as_array()
        .unwrap()
        .iter()
        .map(|ops| {
            let (rb, d, ops) = (rb.clone(), d.clone(), ops.clone());
            std::thread::spawn(move || {
                stall::await_reached();
                sim::label("reader beside the slow operation");
                for op in ops.as_array().unwrap() {
                    let a = op[1].as_u64().unwrap_or(0) as usize;
                    match op[0].as_str().unwrap_or("") {
                        "search" => {
                            let (ms, k) = (1 + a % 17, 1 + a % 11);
                            let q = K::query(&d, a);
                            let res = rb.search(&q, ms, k);
                            count("queries");
                            let found: std::collections::HashMap<usize, Vec<f64>> = res.iter().map(|x| (x.0, K::vec_of(&rb.get_element(x.0)))).collect();
                            sim::quiet(|| must(truthful(&res, k, ms, bound, &|i| K::dist(&found[&i], &K::vec_of(&q))), "search"));
                        }
                        "get" => {
                            if rb.len() > 0 {
                                let _ = rb.get_element(a % rb.len());
                            }
                        }
                        "read" => {
                            let _ = rb.get_elements().len();
                        }
                        _ => {
                            let n = rb.len();
                            ensure(n >= n0 && n <= bound, "count", || format!("len() returned {}", n));
                        }
                    }
                }
            })
        })
        .collect();
    let mut bad = false;
    for r in readers {
        bad |= r.join().is_err();
    }
    // only now does the slow operation go on
    stall::open();
    bad |= slow.join().is_err();
    for w in waiting {
        bad |= w.join().is_err();
    }
    if bad {
        let p = crate::shared::sh().get_panic();
        fail(&crate::driver::panic_class("panic", &p), p)
    }
}
pub const C23: Prop = Prop {
    id: "C23",
    gen: gen_c23,
    run: |s| by_any_kind!(s, run_c23),
    rule: "One run = a concurrent builder in which a save (stuck in one operation of its device) or an insert (stuck where it begins to link an element) makes no progress until 1-3 reader threads have finished their searches and reads, with up to two more saves or inserts waiting behind it.",
    level: "the readers must finish while the slow operation stands still (a reader that waits for it is a deadlock), with truthful answers",
    ..super::rw::COMMON
};

// ------------------------------------------------------------------ C24
/// open files and mappings below the scratch directory
fn held() -> Vec<String> {
    sim::quiet(|| {
        let mut v = vec![];
        let root = crate::driver::scratch();
        for e in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if t.to_string_lossy().starts_with(root) {
                    v.push(format!("open file {}", t.file_name().unwrap().to_string_lossy()));
                }
            }
        }
        for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
            if let Some(k) = l.find(root) {
                v.push(format!("mapping of {}", &l[k + root.len()..]));
            }
        }
        v
    })
}
fn nothing_held(after: &str) {
    let h = held();
    ensure(h.is_empty(), "held", || format!("after {}: {}", after, h.join(", ")));
}
/// waits until no more threads than these are left
fn threads_gone(most: usize, after: &str) {
    for _ in 0..300 {
        if sim::alive() <= most {
            return;
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    fail("threads", format!("{} threads are still there after {}, {} before", sim::alive(), after, most))
}
fn gen_c24(r: &mut Rng) -> Value {
    let what = r.pick(&["load", "load", "load", "rw", "rw", "build", "job"]);
    if what == "job" {
        let mut v = super::parse::gen_c20(r);
        v["use"] = json!("job");
        return v;
    }
    let mut data = gen_data(r, 1, 150);
    if what != "load" {
        data["n"] = json!(if r.chance(0.3) { r.range(60, 150) } else { r.small(1, 40) });
    } else if u(&data, "n") > 40 {
        // more than rounding errors of the allocator
        data["dim"] = json!(r.range(20, 60));
    }
    let mut cfg = gen_cfg(r);
    cfg["ms"] = json!(r.small(1, 20));
    let op = r.pick(&["mmap", "mmap", "madvise", "write", "write", "seek", "flush", "open", "read", "sync"]);
    let fault = json!({"op": op, "nth": r.small(0, 30), "err": if op == "mmap" { "ENOMEM" } else { "EIO" }, "sticky": r.chance(0.3)});
    let mut plan = super::disk::gen_io(r);
    if r.chance(0.6) {
        plan["faults"] = json!([fault]);
    }
    json!({"use": what, "kind": gen_kind(r), "data": data, "cfg": cfg, "workers": r.range(1, 3), "io": plan, "pool": r.range(1, 4),
        "steps": (0..r.range(2, 8)).map(|_| r.below(1000)).collect::<Vec<_>>(), "cycles": r.chance(0.3), "faulty": r.chance(0.5)})
}
fn run_c24<K: Kind>(s: &Value) {
    if s["use"] == "job" {
        pool(u(s, "workers").max(1));
        let base = sim::alive();
        let job = super::parse::job_of(s);
        let f = &s["fault"];
        let mut plan = s["io"].clone();
        plan["faults"] = json!([{"op": f["op"], "nth": u(f, "at") % 40, "err": f["err"], "sticky": f["sticky"]}]);
        let mut grown = vec![0; 6];
        for k in 0..6 {
            let was = crate::heap::live();
            io::plan(&plan);
            if refused(&job) {
                count("operation_panicked");
            }
            io::heal();
            grown[k] = crate::heap::live() - was;
            nothing_held("the job");
        }
        checked(1);
        if grown.iter().all(|g| *g > 0) {
            fail("memory", format!("each repetition of the job leaves more memory in use: {:?} bytes", grown))
        }
        return threads_gone(base, "the job");
    }
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    if d.n > 1000 {
        skip()
    }
    pool(u(s, "workers").max(1));
    let steps: Vec<usize> = s["steps"].as_array().unwrap().iter().filter_map(|x| x.as_u64()).map(|x| x as usize).collect();
    let els = sim::quiet(|| K::make(&d, d.n));
    let mut bu = GranneBuilder::new(cfg.build(), els.clone());
    bu.build();
    let base = sim::alive();
    match s["use"].as_str().unwrap_or("") {
        "rw" => {
            io::plan(&s["io"]);
            let once = |x: usize| {
                let rb = RwGranneBuilder::new(GranneBuilder::new(cfg.build(), sim::quiet(|| K::make(&d, x % (d.n + 1)))), 2 * d.n, u(s, "pool").clamp(1, 8));
                rb.insert_batch((0..x % 7).map(|i| K::internal(&d, 100 + i)).collect());
                let (i, e) = (path("index"), path("elements"));
                let _ = rb.save_index_and_elements_to_disk(&i, &e);
                nothing_held("saving a concurrent builder");
                drop(rb);
                threads_gone(base, "dropping a concurrent builder");
            };
            for &x in &steps {
                once(x);
            }
            if b(s, "cycles") {
                // the simulator and rayon keep a little of every thread there was
                let spare = 4000 * (1 + u(s, "pool").clamp(1, 8) as i64);
                for &x in &steps[..steps.len().min(2)] {
                    let mut grown = vec![0; 5];
                    for k in 0..5 {
                        let was = crate::heap::live();
                        once(x);
                        grown[k] = crate::heap::live() - was;
                    }
                    checked(1);
                    if grown.iter().all(|g| *g > spare) {
                        fail("memory", format!("each concurrent builder leaves more memory in use: {:?} bytes", grown))
                    }
                }
            }
        }
        "build" => {
            for &x in &steps {
                io::plan(&s["io"]);
                let mut p = bu.get_index().len().min(x);
                p = p.max(1);
                let mut again = GranneBuilder::new(cfg.build(), els.clone());
                again.build_partial(p.min(d.n));
                let _ = File::create(path("index")).and_then(|mut f| again.write_index(&mut f));
                let _ = File::create(path("elements")).and_then(|mut f| again.write_elements(&mut f));
                nothing_held("saving an index");
                io::heal();
                drop(again);
                threads_gone(base, "a build");
            }
        }
        _ => {
            let bytes = save_index(&bu);
            let plain = sim::quiet(|| {
                let mut v = vec![];
                bu.write_elements(&mut v).unwrap();
                std::fs::write(path("i"), &bytes).unwrap();
                std::fs::write(path("e"), &v).unwrap();
                if K::name() == "sum" {
                    let mut w = vec![];
                    sum_base(&d).write_embeddings(&mut w).unwrap();
                    std::fs::write(path("w"), &w).unwrap();
                }
                v
            });
            io::plan(&s["io"]);
            let once = |x: usize| {
                let kept = File::open(path("i"));
                match x % 5 {
                    0 => {
                        if let Ok(f) = &kept {
                            if let Ok(b) = GranneBuilder::from_file(cfg.build(), f, els.clone()) {
                                let _ = b.get_index().search(&K::query(&d, x), 3, 3);
                            }
                        }
                    }
                    1 => {
                        if let Ok(f) = &kept {
                            if let Ok(ix) = unsafe { Granne::from_file(f, els.clone()) } {
                                let _ = ix.search(&K::query(&d, x), 3, 3);
                                let own = sim::quiet(|| G::of(&ix));
                                drop(own);
                            }
                        }
                    }
                    2 => {
                        // mapped elements, copied or changed
                        if let Ok(f) = File::open(path("e")) {
                            match K::name() {
                                "f32" => {
                                    if let Ok(e) = unsafe { angular::Vectors::from_file(&f) } {
                                        if x % 2 == 0 {
                                            let mut e = e.into_owned();
                                            e.push(&d.query(x).into());
                                        }
                                    }
                                }
                                "i8" => {
                                    if let Ok(e) = unsafe { angular_int::Vectors::from_file(&f) } {
                                        if x % 2 == 0 {
                                            let mut e = e.into_owned();
                                            e.push(&d.query(x).into());
                                        }
                                    }
                                }
                                _ => {
                                    if let Ok(g) = File::open(path("w")) {
                                        let _ = unsafe { embeddings::SumEmbeddings::from_files(&g, Some(&f)) };
                                    }
                                }
                            }
                        }
                    }
                    3 => {
                        // from memory, at any alignment
                        let shift = x / 5 % 8;
                        let _ = K::load(&d, &Buf::new(&plain, shift));
                        let index = Buf::new(&bytes, shift);
                        if x % 2 == 0 {
                            let ix = Granne::from_bytes(&index, els.clone());
                            let _ = ix.search(&K::query(&d, x), 3, 3);
                        } else {
                            let b = GranneBuilder::from_bytes(cfg.build(), &index, els.clone());
                            let _ = b.get_index().search(&K::query(&d, x), 3, 3);
                        }
                    }
                    _ => {
                        let _ = File::create(path("o")).and_then(|mut f| bu.write_index(&mut f));
                        let _ = File::create(path("p")).and_then(|mut f| bu.write_elements(&mut f));
                    }
                }
            };
            for &x in &steps {
                once(x);
                nothing_held("loading, searching and dropping");
            }
            threads_gone(base, "loading");
            if b(s, "cycles") {
                // memory does not grow with the number of times something is done
                io::heal();
                for &x in &steps {
                    // tables that grow once
                    for _ in 0..3 {
                        once(x);
                    }
                    let mut grown = vec![0; 8];
                    for k in 0..8 {
                        let was = crate::heap::live();
                        once(x);
                        grown[k] = crate::heap::live() - was;
                    }
                    checked(1);
                    if grown.iter().all(|g| *g > 0) {
                        fail("memory", format!("each repetition of step {} leaves more memory in use: {:?} bytes", x % 5, grown))
                    }
                }
                nothing_held("repeating");
            }
        }
    }
    drop(bu);
}
pub const C24: Prop = Prop {
    id: "C24",
    gen: gen_c24,
    run: |s| by_kind!(s, run_c24),
    rule: "One run = a sequence of loads (mapped, copied, into a builder), searches, saves, builds, concurrent builders or one data-preparation job, with I/O errors, and everything dropped again.",
    level: "open files, mappings, threads and (over repeated steps) heap of the process compared with those before",
    ..super::rw::COMMON
};
