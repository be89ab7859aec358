//! One scenario per property.
use crate::elems::*;
use crate::model::*;
use crate::rng::Rng;
use crate::shared::{checked, sh};
use crate::sim;
use granne::{BuildConfig, Index};
use serde_json::{json, Value};
use std::sync::atomic::Ordering::SeqCst;

mod build;
mod contain;
mod disk;
mod parse;
#[cfg(feature = "py")]
mod py;
mod reorder;
mod rw;
mod search;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng) -> Value,
    pub run: fn(&Value),
    pub quick_s: f64,
    pub thorough_s: f64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub const REAL: &[&str] = &[
    "granne (the crate in /repo, feature rw_granne, with debug assertions and overflow checks)",
    "rayon, rayon-core, crossbeam (real thread pools, work stealing, latches)",
    "parking_lot, parking_lot_core (real locks), std threads and locks",
    "stream-vbyte, serde_json, flate2, memmap, pbr",
];
pub const STUB: &[&str] = &[
    "thread scheduler, futex, thread start/join, sleep (simulated, seeded)",
    "clocks and OS randomness (simulated)",
    "lock_api (same code with a scheduling point at every lock and unlock)",
    "file system calls below the scratch directory and in-memory devices (fault plan in front of the real calls)",
];
pub const ASSUME: &[&str] = &[
    "threads interleave at lock operations, element accesses, futex calls, I/O calls and thread start/exit; where there is a memory_access_preemption_part, those of its runs also at loads and stores of granne; memory accesses of other crates between two such points are atomic in the simulation",
    "sequentially consistent memory (one thread runs at a time)",
];

pub static PROPS: &[Prop] = &[
    build::C01, build::C02, build::C03, build::C04, build::C05,
    search::C06,
    rw::C07, rw::C08, rw::C09, rw::C10, rw::C11,
    disk::C12, disk::C13, disk::C14, disk::C15,
    reorder::C16, reorder::C17, reorder::C18,
    parse::C19, parse::C20, parse::C21,
    rw::C22, contain::C23, contain::C24,
    disk::C32,
    #[cfg(feature = "py")]
    py::C33,
];

// ------------------------------------------------------------------ common pieces
pub fn fail(class: &str, d: impl AsRef<str>) -> ! {
    sim::die(class, d.as_ref())
}
pub fn must(o: Option<String>, class: &str) {
    checked(1);
    if let Some(d) = o {
        fail(class, d)
    }
}
pub fn ensure(ok: bool, class: &str, d: impl FnOnce() -> String) {
    checked(1);
    if !ok {
        fail(class, d())
    }
}
/// The scenario is not meaningful (only after minimisation).
pub fn skip() -> ! {
    sh().outcome.store(3, SeqCst);
    unsafe { libc::_exit(0) }
}
pub fn u(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or(0) as usize
}
pub fn b(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or(false)
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub nn: usize,
    pub ms: usize,
    pub lm: f32,
    pub reins: bool,
    pub progress: bool,
    pub exp: Option<usize>,
}
impl Cfg {
    pub fn of(v: &Value) -> Cfg {
        let c = Cfg {
            nn: u(v, "nn"),
            ms: u(v, "ms"),
            lm: v["lm"].as_f64().unwrap_or(0.0) as f32,
            reins: b(v, "reins"),
            progress: b(v, "progress"),
            exp: v["exp"].as_u64().map(|x| x as usize),
        };
        // the known limits of the file format are only crossed on purpose
        let (lo, hi) = if b(v, "wild") { (1.01, 1000) } else { (1.15, 254) };
        if c.nn < 1 || c.ms < 1 || c.lm < lo || c.nn > hi {
            skip()
        }
        c
    }
    pub fn build(&self) -> BuildConfig {
        let c = BuildConfig::new()
            .num_neighbors(self.nn)
            .max_search(self.ms)
            .layer_multiplier(self.lm)
            .reinsert_elements(self.reins)
            .show_progress(self.progress);
        match self.exp {
            Some(e) => c.expected_num_elements(e),
            None => c,
        }
    }
    pub fn sizes(&self, total: usize, k: usize) -> Vec<Vec<usize>> {
        layer_sizes(total.max(self.exp.unwrap_or(0)), self.lm as f64, k)
    }
}
pub fn gen_lm(r: &mut Rng) -> f64 {
    r.pick(&[1.25, 1.5, 2.0, 2.0, 2.5, 3.0, 3.0, 5.0, 5.0, 7.5, 10.0, 15.0, 20.0, 1000.0])
}
pub fn gen_cfg(r: &mut Rng) -> Value {
    json!({"nn": r.small(1, 30), "ms": r.small(1, 80), "lm": gen_lm(r), "reins": r.chance(0.5), "progress": r.chance(0.15)})
}
pub fn gen_kind(r: &mut Rng) -> &'static str {
    r.pick(&["f32", "f32", "i8", "sum"])
}
/// also elements of a type that is not granne's
pub fn gen_any_kind(r: &mut Rng) -> &'static str {
    r.pick(&["f32", "f32", "i8", "sum", "own"])
}
pub fn pool(workers: usize) {
    if workers < 1 || workers > 16 {
        skip()
    }
    rayon::ThreadPoolBuilder::new().num_threads(workers).build_global().expect("global pool");
}
/// Runs f with one worker thread, in the simulation.
pub fn single<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    let p = rayon::ThreadPoolBuilder::new().num_threads(1).build().expect("pool");
    p.install(f)
}
pub fn check_sizes(ix: &dyn LayerView, cfg: &Cfg, total: usize, k: usize) {
    let got = sim::quiet(|| sizes_of(ix));
    let want = cfg.sizes(total, k);
    ensure(want.contains(&got), "layer-sizes", || {
        format!("layer sizes {:?}, expected {:?} ({} elements of {}, multiplier {})", got, want[0], k, total, cfg.lm)
    });
}
pub fn check_elements<K: Kind>(c: &K::C, d: &Data, n: usize) {
    sim::quiet(|| {
        use granne::ElementContainer;
        ensure(c.len() == n, "elements", || format!("{} elements instead of {}", c.len(), n));
        for i in 0..n {
            ensure(K::content(c, i) == K::expect(d, i), "elements", || format!("element {} is not the one that was put there", i));
        }
    })
}
pub fn is_zero<K: Kind>(c: &K::C, i: usize) -> bool {
    use granne::ElementContainer;
    K::is_null(&c.get(i))
}
/// memory for one save
pub fn save_index(ix: &impl Index) -> Vec<u8> {
    sim::quiet(|| {
        let mut c = std::io::Cursor::new(Vec::new());
        ix.write_index(&mut c).expect("write to memory");
        c.into_inner()
    })
}
pub fn refused<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

/// Sometimes: another builder, with elements and a configuration of its own, that is built and searched at the same
/// time, by another thread on the same pool.
pub fn gen_company(r: &mut Rng) -> Value {
    if !r.chance(0.12) {
        return Value::Null;
    }
    let mut cfg = gen_cfg(r);
    cfg["progress"] = json!(false);
    json!({"data": gen_data(r, 1, 40), "cfg": cfg})
}
pub fn company<K: Kind>(s: &Value) -> impl FnOnce() {
    let h = s["company"].is_object().then(|| {
        let v = s["company"].clone();
        std::thread::spawn(move || {
            use granne::Builder;
            sim::label("company");
            let (d, cfg) = (Data::of(&v["data"]), Cfg::of(&v["cfg"]));
            let mut bu = granne::GranneBuilder::new(cfg.build(), sim::quiet(|| K::make(&d, d.n)));
            bu.build();
            ensure(bu.len() == d.n, "company-count", || format!("{} elements indexed instead of {}", bu.len(), d.n));
            check_sizes(&bu, &cfg, d.n, d.n);
            check_elements::<K>(bu.get_elements(), &d, d.n);
            sim::quiet(|| {
                let g = G::of(&bu);
                must(well_formed(&g, &|l| if l + 1 < g.0.len() { (cfg.nn / 2).max(1) } else { cfg.nn }), "company-malformed");
                let zeros: Vec<bool> = (0..d.n).map(|i| is_zero::<K>(bu.get_elements(), i)).collect();
                must(zeros_isolated(&g, &|i| zeros[i]), "company-zero-linked");
            });
            for i in 0..3 {
                let q = K::query(&d, i);
                let res = bu.get_index().search(&q, 10, 5);
                sim::quiet(|| {
                    use granne::ElementContainer;
                    let qv = K::vec_of(&q);
                    must(truthful(&res, 5, 10, d.n, &|i| K::dist(&K::vec_of(&bu.get_elements().get(i)), &qv)), "company-search");
                });
            }
            crate::shared::count("second_index_at_once");
        })
    });
    move || {
        if let Some(h) = h {
            h.join().unwrap_or_else(|_| fail("panic", sh().get_panic()));
        }
    }
}

#[macro_export]
macro_rules! by_kind {
    ($spec:expr, $f:ident) => {
        match $spec["kind"].as_str().unwrap_or("f32") {
            "i8" => $f::<I8>($spec),
            "sum" => $f::<Sum>($spec),
            _ => $f::<F32>($spec),
        }
    };
}
#[macro_export]
macro_rules! by_any_kind {
    ($spec:expr, $f:ident) => {
        if $spec["kind"] == "own" {
            $f::<Own>($spec)
        } else {
            by_kind!($spec, $f)
        }
    };
}
/// Common sets of imports for the scenario files
pub mod prelude {
    pub use super::*;
    pub use crate::{by_any_kind, by_kind};
    pub use crate::elems::*;
    pub use crate::model::*;
    pub use crate::rng::{mix, Rng};
    pub use crate::shared::{checked, count};
    pub use crate::{io, sim};
    pub use granne::*;
    pub use serde_json::{json, Value};
}
