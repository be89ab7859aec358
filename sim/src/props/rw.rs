//! C07 - C11: the concurrent builder.
use super::prelude::*;
use std::sync::Arc;

// ------------------------------------------------------------------ one history
struct Rec {
    thread: usize,
    inv: u64,
    resp: u64,
    what: What,
}
enum What {
    Insert { data: Vec<usize>, ids: Vec<usize> },
    Search { q: usize, ms: usize, k: usize, res: Vec<(usize, f32)> },
    Save { index: Vec<u8>, elements: Vec<u8> },
    FailedSave,
    Len(usize),
    Read(Vec<(usize, Vec<u8>)>),
    Get(usize, Vec<f64>),
    /// the operation panicked; what it may have left behind
    Panicked { items: Vec<Vec<u8>> },
}
struct Hist<K: Kind> {
    d: Data,
    cfg: Cfg,
    n0: usize,
    max: usize,
    /// most elements there can be: a builder may start with more than it accepts
    cap: usize,
    lossless: bool,
    recs: Vec<Rec>,
    /// data item stored under each id, where some insert claims it
    owner: Vec<Option<usize>>,
    rb: Arc<RwGranneBuilder<K::C>>,
}

fn save<K: Kind>(rb: &RwGranneBuilder<K::C>, to_files: bool, tag: usize) -> std::io::Result<(Vec<u8>, Vec<u8>)> {
    if to_files {
        let (i, e) = (format!("{}/i{}", crate::driver::scratch(), tag), format!("{}/e{}", crate::driver::scratch(), tag));
        rb.save_index_and_elements_to_disk(&i, &e)?;
        sim::quiet(|| Ok((std::fs::read(&i)?, std::fs::read(&e)?)))
    } else {
        let (mut i, mut e) = (io::Dev::default(), io::Dev::default());
        rb.write(&mut i, &mut e)?;
        Ok((i.data, e.data))
    }
}

/// One client: carries out its operations one after the other.
fn client<K: Kind>(rb: &RwGranneBuilder<K::C>, d: &Data, t: usize, ops: Vec<(Value, Vec<usize>)>, hostile: bool) -> Vec<Rec> {
    sim::label(format!("client {}", t));
    let mut out = vec![];
    for (j, (op, data)) in ops.into_iter().enumerate() {
        let a = op[1].as_u64().unwrap_or(0) as usize;
        let kind = op[0].as_str().unwrap_or("").to_string();
        sim::label(format!("client {} in {}", t, kind));
        let items: Vec<K::I> = data.iter().map(|&i| K::internal(d, i)).collect();
        let inv = sim::stamp();
        sim::point();
        let expect: Vec<Vec<u8>> = if hostile { data.iter().map(|&i| K::expect(d, i)).collect() } else { vec![] };
        let act = || match kind.as_str() {
            "ins" => {
                let r = rb.insert(items.into_iter().next().unwrap());
                What::Insert { data, ids: r.into_iter().collect() }
            }
            "batch" => What::Insert { ids: rb.insert_batch(items), data },
            "bad" => {
                // one element that does not belong in here, among others that do
                let mut items = items;
                items.insert(a.min(items.len()), K::bad(d));
                let ids = rb.insert_batch(items);
                // only refused as a whole, or if the builder is full before its turn comes
                ensure(ids.len() <= a.min(data.len()), "bad-accepted", || format!("an element of another kind was given id {:?}", ids.last()));
                What::Insert { ids, data }
            }
            "search" | "full" => {
                let (ms, k) = if kind == "full" {
                    (2 * rb_max(&op), 2 * rb_max(&op))
                } else {
                    (1 + a % 17, 1 + a % 11)
                };
                let res = rb.search(&K::query(d, a), ms, k);
                count("queries");
                What::Search { q: a, ms, k, res }
            }
            "save" | "savef" => match save::<K>(rb, kind == "savef", t * 1000 + j) {
                Ok((index, elements)) => What::Save { index, elements },
                Err(e) => fail("save", format!("saving failed on a working medium: {}", e)),
            },
            "badsave" => {
                // the medium fails; the builder has to go on
                let mut i = Broken(a as u64, io::Dev::default());
                let mut e = Broken(a as u64 * 2, io::Dev::default());
                let _ = rb.write(&mut i, &mut e);
                What::FailedSave
            }
            "len" => {
                let n = rb.len();
                let e = rb.is_empty();
                ensure(!(n > 0 && e), "ids", || "is_empty after len > 0".into());
                What::Len(n)
            }
            "read" => {
                let g = rb.get_elements();
                let n = g.len();
                sim::point();
                ensure(g.len() == n, "ids", || "elements changed while a guard was held".into());
                What::Read(sim::quiet(|| (0..n).map(|i| (i, K::content(&g, i))).collect()))
            }
            _ => {
                let n = rb.len();
                if n == 0 {
                    What::Len(0)
                } else {
                    let i = a % n;
                    let e = rb.get_element(i);
                    What::Get(i, K::vec_of(&e))
                }
            }
        };
        let what = if hostile {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(act)).unwrap_or_else(|_| {
                count("operation_panicked");
                let mut items = expect;
                if kind == "bad" {
                    items.push(K::bad_content(d));
                }
                What::Panicked { items }
            })
        } else {
            act()
        };
        sim::point();
        out.push(Rec { thread: t, inv, resp: sim::stamp(), what });
    }
    out
}

fn exec<K: Kind>(s: &Value) -> Hist<K> {
    let d = Data::of(&s["data"]);
    let mut cfg = Cfg::of(&s["cfg"]);
    let (n0, max) = (u(s, "n0"), u(s, "max"));
    if n0 > 5000 || max > 5000 {
        skip()
    }
    cfg.exp = Some(max);
    let cap = max.max(n0);
    let threads = s["threads"].as_array().unwrap().clone();
    // every inserted element is a different data item
    let mut next = n0;
    let mut plan: Vec<Vec<(Value, Vec<usize>)>> = vec![];
    for t in &threads {
        let mut p = vec![];
        for op in t.as_array().unwrap() {
            let k = match op[0].as_str().unwrap_or("") {
                "ins" => 1,
                "batch" => op[1].as_u64().unwrap_or(1) as usize,
                "bad" => op[2].as_u64().unwrap_or(1) as usize,
                _ => 0,
            };
            if op[0] == "bad" && (n0 == 0 || s["panics"].is_null() || K::name() == "sum") {
                skip()
            }
            p.push((op.clone(), (next..next + k).collect()));
            next += k;
        }
        plan.push(p);
    }
    let total = next;
    let all = sim::quiet(|| K::make(&d, total));
    let lossless = cfg.nn >= 2 * cap.min(total) + 1 && cfg.ms >= 2 * cap && sim::quiet(|| super::build::distinct::<K>(&all));
    pool(u(s, "workers").max(1));
    let els = sim::quiet(|| K::make(&d, n0));
    let prebuilt = b(s, "prebuilt");
    // the builder may have been configured for another number of elements before any was indexed
    let exp = match &s["exp0"] {
        Value::Number(e) if !prebuilt => e.as_u64().map(|e| (e as usize).min(max)),
        Value::Bool(_) if !prebuilt => None,
        _ => Some(max),
    };
    let mut bu = GranneBuilder::new(Cfg { exp, ..cfg }.build(), els);
    if prebuilt {
        bu.build_partial(n0 / 2);
    }
    let rb = Arc::new(RwGranneBuilder::new(bu, max, u(s, "pool").clamp(1, 8)));
    let mut recs = vec![];
    let mut bad = false;
    let hostile = !s["panics"].is_null();
    if hostile {
        hostile::arm(&s["panics"].as_array().unwrap().iter().filter_map(|x| x.as_u64()).collect::<Vec<_>>());
    }
    if b(s, "on_pool") {
        // clients that are tasks of the global rayon pool: a worker may take up one while it waits inside another
        let mut out: Vec<Vec<Rec>> = plan.iter().map(|_| vec![]).collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            rayon::scope(|sc| {
                for ((t, ops), slot) in plan.into_iter().enumerate().zip(out.iter_mut()) {
                    let (rb, d) = (&rb, &d);
                    sc.spawn(move |_| *slot = client::<K>(rb, d, t, ops, hostile));
                }
            })
        }));
        bad = r.is_err();
        recs.extend(out.into_iter().flatten());
    } else {
        let hs: Vec<_> = plan
            .into_iter()
            .enumerate()
            .map(|(t, ops)| {
                let (rb, d) = (rb.clone(), d.clone());
                std::thread::spawn(move || client::<K>(&rb, &d, t, ops, hostile))
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(r) => recs.extend(r),
                Err(_) => bad = true,
            }
        }
    }
    hostile::disarm();
    if bad {
        let p = crate::shared::sh().get_panic();
        fail(&crate::driver::panic_class("panic", &p), p)
    }
    recs.sort_by_key(|r| r.inv);
    let mut owner: Vec<Option<usize>> = (0..n0).map(Some).collect();
    for r in &recs {
        if let What::Insert { data, ids } = &r.what {
            for (x, id) in data.iter().zip(ids) {
                if owner.len() <= *id {
                    owner.resize((*id + 1).min(total + max + 1), None);
                }
                if *id < owner.len() {
                    owner[*id] = Some(*x);
                }
            }
        }
    }
    Hist { d, cfg, n0, max, cap, lossless, recs, owner, rb }
}
fn rb_max(op: &Value) -> usize {
    op[1].as_u64().unwrap_or(1).max(1) as usize
}
/// Fails after a number of operations.
struct Broken(u64, io::Dev);
impl Broken {
    fn tick(&mut self) -> std::io::Result<()> {
        if self.0 == 0 {
            count("io_eio");
            return Err(std::io::Error::from_raw_os_error(libc::EIO));
        }
        self.0 -= 1;
        Ok(())
    }
}
impl std::io::Write for Broken {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.tick()?;
        self.1.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.tick()?;
        self.1.flush()
    }
}
impl std::io::Seek for Broken {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.tick()?;
        self.1.seek(p)
    }
}

impl<K: Kind> Hist<K> {
    fn inserts(&self) -> impl Iterator<Item = (&Rec, &Vec<usize>, &Vec<usize>)> {
        self.recs.iter().filter_map(|r| match &r.what {
            What::Insert { data, ids } => Some((r, data, ids)),
            _ => None,
        })
    }
    /// what operations that panicked may have left behind
    fn left_behind(&self) -> impl Iterator<Item = (&Rec, &Vec<Vec<u8>>)> {
        self.recs.iter().filter_map(|r| match &r.what {
            What::Panicked { items } => Some((r, items)),
            _ => None,
        })
    }
    /// smallest and largest number of elements there can have been during [inv, resp]
    fn bounds(&self, inv: u64, resp: u64) -> (usize, usize) {
        let lo: usize = self.inserts().filter(|x| x.0.resp < inv).map(|x| x.2.len()).sum();
        let hi: usize = self.inserts().filter(|x| x.0.inv < resp).map(|x| x.2.len()).sum();
        let hi = hi + self.left_behind().filter(|x| x.0.inv < resp).map(|x| x.1.len()).sum::<usize>();
        (self.n0 + lo, self.n0 + hi)
    }
    fn dist(&self, q: usize, i: usize) -> f64 {
        let qv = K::vec_of(&K::query(&self.d, q));
        K::dist(&K::vec_of(&self.rb.get_element(i)), &qv)
    }

    // -------------------------------------------------------------- C07
    fn check_ids(&self) {
        let n = self.rb.len();
        let accepted: usize = self.inserts().map(|x| x.2.len()).sum();
        ensure(n <= self.cap, "capacity", || format!("{} elements, but the maximum is {}", n, self.max));
        let left: usize = self.left_behind().map(|x| x.1.len()).sum();
        ensure(n >= self.n0 + accepted && n <= self.n0 + accepted + left, "ids", || {
            format!("{} elements after {} initial and {} accepted ones, and at most {} of operations that panicked", n, self.n0, accepted, left)
        });
        let mut taken = vec![false; n];
        for (a, _, x) in self.inserts() {
            for (b, _, y) in self.inserts() {
                if a.resp < b.inv && !x.is_empty() && !y.is_empty() {
                    ensure(x[x.len() - 1] < y[0], "ids", || format!("ids {:?} were given out after ids {:?}", y, x));
                }
            }
        }
        for (r, data, ids) in self.inserts() {
            ensure(ids.len() <= data.len(), "ids", || format!("client {}: {} ids for {} elements", r.thread, ids.len(), data.len()));
            for w in ids.windows(2) {
                ensure(w[0] < w[1], "ids", || format!("client {}: the ids of a batch are not increasing: {:?}", r.thread, ids));
            }
            for (k, &id) in ids.iter().enumerate() {
                ensure(id < n && id >= self.n0, "ids", || format!("client {} got id {}, but there are {} elements, {} initial", r.thread, id, n, self.n0));
                ensure(!taken[id], "ids", || format!("id {} was given out twice", id));
                taken[id] = true;
                let e = self.rb.get_elements();
                ensure(K::content(&e, id) == K::expect(&self.d, data[k]), "elements", || {
                    format!("client {}: the element under id {} is not the one inserted there", r.thread, id)
                });
            }
            if ids.len() < data.len() {
                // refused: only when full
                let (_, hi) = self.bounds(r.inv, r.resp);
                ensure(hi >= self.max, "refused", || {
                    format!("client {}: {} of {} elements refused although at most {} of {} places were taken", r.thread, data.len() - ids.len(), data.len(), hi, self.max)
                });
            }
        }
        for i in 0..self.n0 {
            let e = self.rb.get_elements();
            ensure(K::content(&e, i) == K::expect(&self.d, i), "elements", || format!("initial element {} changed", i));
        }
        for r in &self.recs {
            match &r.what {
                What::Len(l) => {
                    let (lo, hi) = self.bounds(r.inv, r.resp);
                    ensure(*l >= lo && *l <= hi, "ids", || format!("len() returned {}, but it must be between {} and {}", l, lo, hi));
                }
                What::Read(v) => {
                    let (lo, hi) = self.bounds(r.inv, r.resp);
                    ensure(v.len() >= lo && v.len() <= hi, "ids", || format!("{} elements read, but there must be between {} and {}", v.len(), lo, hi));
                    let e = self.rb.get_elements();
                    for (i, c) in v {
                        ensure(&K::content(&e, *i) == c, "elements", || format!("element {} changed after it had been read", i));
                    }
                }
                What::Get(i, v) => {
                    ensure(&K::vec_of(&self.rb.get_element(*i)) == v, "elements", || format!("element {} changed after it had been read", i));
                }
                _ => {}
            }
        }
    }

    // -------------------------------------------------------------- C08
    fn check_search(&self, q: usize, ms: usize, k: usize, res: &[(usize, f32)], inv: u64, resp: u64) {
        let (_, hi) = self.bounds(inv, resp);
        let dist = |i: usize| self.dist(q, i);
        must(truthful(res, k, ms, hi.min(self.rb.len()), &dist), "search");
        // nothing whose insert had not even begun
        for (r, _, ids) in self.inserts() {
            if r.inv > resp {
                ensure(!res.iter().any(|x| ids.contains(&x.0)), "search", || "a search returned an element inserted later".into());
            }
        }
        if self.lossless && ms >= 2 * self.cap && k >= 2 * self.cap {
            let got: std::collections::HashSet<usize> = res.iter().map(|x| x.0).collect();
            for i in 0..self.n0 {
                ensure(got.contains(&i), "not-found", || format!("initial element {} is not found by an exhaustive search", i));
            }
            for (r, _, ids) in self.inserts() {
                if r.resp < inv {
                    for i in ids {
                        ensure(got.contains(i), "not-found", || {
                            format!("element {} whose insert had returned is not found by an exhaustive search, which returned {} results", i, res.len())
                        });
                    }
                }
            }
        }
    }
    fn check_searches(&self) {
        for r in &self.recs {
            if let What::Search { q, ms, k, res } = &r.what {
                self.check_search(*q, *ms, *k, res, r.inv, r.resp);
            }
        }
        let m = (2 * self.cap).max(1);
        for q in 500..503 {
            let res = self.rb.search(&K::query(&self.d, q), m, m);
            self.check_search(q, m, m, &res, u64::MAX - 1, u64::MAX);
            if self.lossless && self.left_behind().next().is_none() {
                must(exact_knn(&res, m, self.rb.len(), &|i| self.dist(q, i)), "not-found");
            }
        }
    }

    // -------------------------------------------------------------- C09
    fn load(&self, index: &[u8], elements: &[u8]) -> (G, K::C) {
        let els = K::load(&self.d, elements);
        let buf: &'static Buf = Box::leak(Box::new(aligned(index)));
        let ix = Granne::from_bytes(buf, els.clone());
        (G::of(&ix), els)
    }
    fn check_save(&self, index: &[u8], elements: &[u8], inv: u64, resp: u64) -> usize {
        let (g, els) = self.load(index, elements);
        let m = els.len();
        ensure(g.len() == m, "snapshot", || format!("{} elements saved, but {} in the index", m, g.len()));
        let (lo, hi) = self.bounds(inv, resp);
        ensure(m >= lo && m <= hi, "snapshot", || format!("{} elements saved, but there must be between {} and {}", m, lo, hi));
        for i in 0..m {
            let x = self.owner.get(i).copied().flatten();
            let right = x.map_or_else(
                || self.left_behind().any(|l| l.0.inv < resp && l.1.contains(&K::content(&els, i))),
                |x| K::content(&els, i) == K::expect(&self.d, x),
            );
            ensure(right, "snapshot", || format!("saved element {} is not the one inserted under that id", i));
        }
        for (r, _, ids) in self.inserts() {
            let inside = ids.iter().filter(|&&i| i < m).count();
            if r.resp < inv {
                ensure(inside == ids.len(), "snapshot", || format!("inserted before the save began, but not saved: {:?} (saved: {})", ids, m));
            }
            if r.inv > resp {
                ensure(inside == 0, "snapshot", || format!("inserted after the save, but saved: {:?}", ids));
            }
            ensure(inside == 0 || inside == ids.len(), "torn-batch", || format!("only {} of the {} elements of one batch are saved", inside, ids.len()));
        }
        must(well_formed(&g, &|_| self.cfg.nn), "malformed");
        if self.lossless && self.left_behind().next().is_none() {
            must(symmetric(&g), "lost-link");
            must(connected(&g), "lost-element");
        } else if self.lossless && m > 0 {
            let there = reach(&g.0[g.0.len() - 1], 0);
            for i in 0..m {
                let own = self.owner.get(i).copied().flatten().is_some();
                ensure(!own || there.contains(&i), "lost-element", || format!("element {}, whose insert had returned, cannot be reached in a saved index", i));
            }
        }
        m
    }
    fn check_saves(&self) {
        for r in &self.recs {
            if let What::Save { index, elements } = &r.what {
                self.check_save(index, elements, r.inv, r.resp);
            }
        }
        // saving changes nothing
        let a = save::<K>(&self.rb, false, 0).unwrap_or_else(|e| fail("save", e.to_string()));
        let b = save::<K>(&self.rb, true, 1).unwrap_or_else(|e| fail("save", e.to_string()));
        ensure(a == b, "snapshot", || "two saves of the idle builder differ".into());
        let n = self.check_save(&a.0, &a.1, u64::MAX - 1, u64::MAX);
        // and the files can be continued from
        let els = K::load(&self.d, &a.1);
        let mut bu = GranneBuilder::from_bytes(self.cfg.build(), &aligned(&a.0), els);
        ensure(bu.len() == n && bu.num_elements() == n, "snapshot", || "the saved files do not load into a builder".into());
        bu.push(K::internal(&self.d, 9999));
        let c = RwGranneBuilder::new(bu, self.cap + 2, 1);
        ensure(c.len() == n + 1, "snapshot", || "the saved files cannot be continued from".into());
    }

    // -------------------------------------------------------------- C22
    /// The builder still is what it was: everything that did not panic holds, and it can be filled up.
    fn check_contained(&mut self) {
        sim::quiet(|| {
            self.check_ids();
            self.check_searches();
        });
        for r in &self.recs {
            if let What::Save { index, elements } = &r.what {
                self.check_save(index, elements, r.inv, r.resp);
            }
        }
        let mut k = 5000;
        while self.rb.len() < self.max {
            let inv = sim::stamp();
            let id = self.rb.insert(K::internal(&self.d, k));
            ensure(id.is_some(), "refused", || format!("an element was refused at {} of {}", self.rb.len(), self.max));
            self.owner.resize(self.owner.len().max(id.unwrap() + 1), None);
            self.owner[id.unwrap()] = Some(k);
            self.recs.push(Rec { thread: 99, inv, resp: sim::stamp(), what: What::Insert { data: vec![k], ids: id.into_iter().collect() } });
            k += 1;
        }
        ensure(self.rb.insert(K::internal(&self.d, k)).is_none(), "capacity", || "an element was accepted by a full builder".into());
        sim::quiet(|| {
            // now with more elements
            self.lossless = self.cfg.nn >= 2 * self.cap + 1 && self.cfg.ms >= 2 * self.cap && super::build::distinct::<K>(&self.rb.get_elements());
            self.check_ids();
            self.check_searches();
        });
        self.check_saves();
    }

    // -------------------------------------------------------------- C11
    fn check_layers_of(&self, index: &[u8], elements: &[u8]) {
        let (g, els) = self.load(index, elements);
        let n = els.len();
        let got = g.sizes();
        let want = layer_sizes(self.cap, self.cfg.lm as f64, n);
        ensure(want.contains(&got), "layer-sizes", || {
            format!("layer sizes {:?} of a concurrent builder with {} of {} elements, offline {:?}", got, n, self.max, want[0])
        });
        must(well_formed(&g, &|_| self.cfg.nn), "malformed");
        let zero: Vec<bool> = (0..n).map(|i| is_zero::<K>(&els, i)).collect();
        must(zeros_isolated(&g, &|i| zero[i]), "zero-linked");
        if self.lossless {
            must(symmetric(&g), "lost-link");
            must(connected(&g), "lost-element");
        }
    }
    fn check_layers(&self) {
        for r in &self.recs {
            if let What::Save { index, elements } = &r.what {
                self.check_layers_of(index, elements);
            }
        }
        let (i, e) = save::<K>(&self.rb, false, 0).unwrap_or_else(|e| fail("save", e.to_string()));
        self.check_layers_of(&i, &e);
        // fill it up and compare with an offline build of the same elements
        let mut k = 5000;
        while self.rb.len() < self.max {
            ensure(self.rb.insert(K::internal(&self.d, k)).is_some(), "refused", || format!("an element was refused at {} of {}", self.rb.len(), self.max));
            k += 1;
        }
        ensure(self.rb.insert(K::internal(&self.d, k)).is_none(), "capacity", || "an element was accepted by a full builder".into());
        let (i, e) = save::<K>(&self.rb, false, 0).unwrap_or_else(|e| fail("save", e.to_string()));
        let (g, els) = self.load(&i, &e);
        let mut off = GranneBuilder::new(self.cfg.build(), els);
        single(|| off.build());
        let want = sizes_of(&off);
        ensure(g.sizes() == want, "layer-sizes", || format!("a full concurrent builder has layers {:?}, an offline build {:?}", g.sizes(), want));
    }
}

// ------------------------------------------------------------------ generation
/// weights: ins batch search full save len read get badsave
pub fn gen_rw(r: &mut Rng, w: [usize; 9], max_total: usize) -> Value {
    let many = r.chance(0.01);
    let lossless = !many && r.chance(0.6);
    let max = if r.chance(0.01) {
        0
    } else if many {
        r.range(max_total, 600)
    } else if r.chance(0.5) { r.small(1, max_total) } else { r.range(1, max_total.min(20)) };
    let n0 = match r.below(5) {
        0 | 1 => 0,
        2 => r.below(max + 1),
        3 => max - r.below(max.min(4) + 1),
        _ if r.chance(0.1) => max + 1 + r.below(5),
        _ => r.below(max.min(4) + 1),
    };
    let cap = max.max(n0);
    let mut data = if lossless { gen_distinct(r, 1, 2) } else { gen_data(r, 1, 2) };
    data["n"] = json!(0);
    let lm = r.pick(&[1.25, 1.5, 2.0, 2.0, 2.5, 3.0, 3.0, 5.0, 5.0, 10.0, 15.0, 1000.0]);
    let cfg = if lossless {
        json!({"nn": (2 * cap + 2 + r.below(5)).min(254), "ms": 2 * cap + r.below(20), "lm": lm, "reins": r.chance(0.3), "progress": r.chance(0.1)})
    } else {
        let mut c = gen_cfg(r);
        if many {
            c["nn"] = json!(r.range(1, 10));
            c["ms"] = json!(r.range(1, 10));
        }
        c["lm"] = json!(lm);
        c
    };
    let nt = r.pick(&[1usize, 2, 2, 2, 3, 3, 4]);
    let mut left = (cap - n0) + r.below(6);
    let sum: usize = w.iter().sum();
    let names = ["ins", "batch", "search", "full", "save", "len", "read", "get", "badsave"];
    let big_batches = many || r.chance(0.4);
    let threads: Vec<Value> = (0..nt)
        .map(|t| {
            let mut ops = vec![];
            for _ in 0..r.range(1, 7) {
                let mut x = r.below(sum);
                let mut k = 0;
                while x >= w[k] {
                    x -= w[k];
                    k += 1;
                }
                let name = names[k];
                match name {
                    "ins" if left > 0 => {
                        left -= 1;
                        ops.push(json!(["ins"]));
                    }
                    "batch" if left > 0 => {
                        let m = if big_batches { left } else { left.min(8) };
                        // also batches of nothing
                        let k = if r.chance(0.08) { 0 } else { r.range(1, m) };
                        left -= k;
                        ops.push(json!(["batch", k]));
                    }
                    "ins" | "batch" => ops.push(json!(["len"])),
                    "full" => ops.push(json!(["full", cap])),
                    "save" => ops.push(json!([r.pick(&["save", "save", "savef"])])),
                    "search" => ops.push(json!(["search", r.below(60)])),
                    "get" => ops.push(json!(["get", r.below(1000)])),
                    "badsave" => ops.push(json!(["badsave", r.below(8)])),
                    n => ops.push(json!([n])),
                }
            }
            let _ = t;
            json!(ops)
        })
        .collect();
    let on_pool = r.chance(0.2);
    json!({"kind": gen_any_kind(r), "data": data, "cfg": cfg, "n0": n0, "max": max, "pool": r.pick(&[1usize, 1, 2, 2, 3]),
        "workers": if on_pool { r.range(1, 3) } else { r.range(1, 2) }, "on_pool": on_pool,
        "prebuilt": r.chance(0.2),
        "exp0": match r.below(4) { 0 => json!(r.below(max + 1)), 1 => json!(false), _ => Value::Null }, "threads": threads})
}
pub const COMMON: Prop = Prop {
    id: "",
    gen: |_| json!({}),
    run: |_| (),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "",
    rule: "One run = one concurrent builder (0..max initial elements, 1-3 pool threads) used by 1-4 simulated client threads issuing inserts, batches, searches, reads, saves and failing saves; the recorded history is judged afterwards.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
fn run_c07<K: Kind>(s: &Value) {
    let h = exec::<K>(s);
    sim::quiet(|| h.check_ids())
}
fn run_c08<K: Kind>(s: &Value) {
    let h = exec::<K>(s);
    sim::quiet(|| h.check_searches())
}
fn run_c09<K: Kind>(s: &Value) {
    let h = exec::<K>(s);
    h.check_saves()
}
fn run_c10<K: Kind>(s: &Value) {
    let h = exec::<K>(s);
    checked(h.recs.len() as u64);
}
fn run_c11<K: Kind>(s: &Value) {
    let h = exec::<K>(s);
    h.check_layers()
}
fn run_c22<K: Kind>(s: &Value) {
    if !s["offline"].is_null() {
        return super::contain::offline::<K>(s);
    }
    let mut h = exec::<K>(s);
    h.check_contained()
}
fn gen_c22(r: &mut Rng) -> Value {
    if r.chance(0.3) {
        return super::contain::gen_offline(r);
    }
    let mut s = gen_rw(r, [5, 4, 2, 2, 2, 1, 1, 1, 1], 40);
    // places in the run where the element container panics
    let span = r.pick(&[10usize, 100, 1000, 10_000]);
    s["panics"] = json!((0..r.below(4)).map(|_| r.below(span)).collect::<Vec<_>>());
    // inserts that bring an element that does not belong there
    if u(&s, "n0") > 0 && s["kind"] != "sum" {
        for t in s["threads"].as_array_mut().unwrap() {
            for op in t.as_array_mut().unwrap() {
                if (op[0] == "ins" || op[0] == "batch") && r.chance(0.25) {
                    let k = if op[0] == "ins" { 0 } else { op[1].as_u64().unwrap_or(1) as usize };
                    *op = json!(["bad", r.below(k + 1), k]);
                }
            }
        }
    }
    s
}
pub const C22: Prop = Prop {
    id: "C22",
    gen: gen_c22,
    run: |s| by_any_kind!(s, run_c22),
    rule: "One run = a concurrent builder used by 1-4 client threads (or tasks of the global pool) while element accesses panic at up to three random points and some inserts bring an element of another kind, or one or two offline builds whose element accesses panic at random points.",
    level: "every operation that did not panic judged as in C07-C09, the builder filled up, searched and saved afterwards; offline builds built again and judged as in C01-C03",
    ..COMMON
};
pub const C07: Prop = Prop {
    id: "C07",
    gen: |r| gen_rw(r, [6, 5, 1, 0, 1, 1, 1, 1, 0], 60),
    run: |s| by_any_kind!(s, run_c07),
    level: "the recorded history of every client operation judged against unique dense ids, contents, capacity and refusal rules",
    ..COMMON
};
pub const C08: Prop = Prop {
    id: "C08",
    gen: |r| gen_rw(r, [5, 3, 2, 5, 1, 0, 0, 0, 0], 40),
    run: |s| by_any_kind!(s, run_c08),
    level: "every search answer in the recorded history compared with true distances and with the inserts completed before it",
    ..COMMON
};
pub const C09: Prop = Prop {
    id: "C09",
    gen: |r| gen_rw(r, [4, 5, 1, 0, 6, 0, 0, 0, 1], 40),
    run: |s| by_any_kind!(s, run_c09),
    level: "every saved pair of files loaded and judged against the recorded history (prefix, real-time order, batch atomicity, links)",
    ..COMMON
};
pub const C10: Prop = Prop {
    id: "C10",
    gen: |r| gen_rw(r, [4, 6, 2, 1, 4, 1, 1, 1, 1], 60),
    run: |s| by_any_kind!(s, run_c10),
    level: "no run may deadlock, panic, crash or fail to finish once faults and unfair scheduling stop",
    ..COMMON
};
pub const C11: Prop = Prop {
    id: "C11",
    gen: |r| gen_rw(r, [6, 6, 0, 0, 2, 0, 0, 0, 0], 60),
    run: |s| by_any_kind!(s, run_c11),
    level: "layer sizes and graphs of every save and of the filled builder compared with the reference formula and an offline build",
    ..COMMON
};
