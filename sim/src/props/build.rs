//! C01 - C05: building.
use super::prelude::*;
use std::sync::Arc;

// ------------------------------------------------------------------ C01
fn gen_steps(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = if r.chance(0.5) { vec![] } else { (0..r.range(1, 4)).map(|_| r.below(n + 1)).collect() };
    v.sort();
    v
}
fn gen_c01(r: &mut Rng) -> Value {
    let mut data = if r.chance(0.1) { gen_data(r, 0, 2) } else { gen_data(r, 0, 120) };
    if r.chance(0.003) {
        data["n"] = json!(r.range(450, 2500));
    } else if r.chance(0.03) {
        data["n"] = json!(r.range(120, 450));
    } else if r.chance(0.1) {
        // exact powers of the multiplier
        data["n"] = json!(r.pick(&[8usize, 9, 16, 25, 27, 32, 64, 81, 100, 125, 128]));
    }
    let n = u(&data, "n");
    let mut cfg = gen_cfg(r);
    if n > 450 {
        cfg["nn"] = json!(r.range(1, 8));
        cfg["ms"] = json!(r.range(1, 8));
    }
    if r.chance(0.3) {
        cfg["exp"] = json!(r.range(0, 2 * n + 3));
    } else if r.chance(0.15) {
        // only the first layers of an index of up to a billion elements
        cfg["exp"] = json!((n as f64 + 10f64.powf(r.range(20, 90) as f64 / 10.0)) as usize);
    }
    cfg["progress"] = json!(r.chance(0.3));
    json!({"kind": gen_any_kind(r), "data": data, "cfg": cfg, "workers": r.range(1, 4), "parts": gen_steps(r, n), "again": r.chance(0.2),
        "grow": r.chance(0.25), "company": gen_company(r)})
}
fn run_c01<K: Kind>(s: &Value) {
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    pool(u(s, "workers"));
    // "grow": the collection only ever has the elements asked for so far, the index is built after each addition
    let grow = b(s, "grow");
    let mut have = if grow { s["parts"][0].as_u64().unwrap_or(d.n as u64) as usize } else { d.n };
    if have > d.n {
        skip()
    }
    let company = company::<K>(s);
    let els = sim::quiet(|| K::make(&d, have));
    let mut bu = GranneBuilder::new(cfg.build(), els);
    let mut done = 0;
    let mut parts: Vec<usize> = s["parts"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    parts.push(d.n);
    for k in parts {
        if k < done || k > d.n {
            skip()
        }
        while have < k {
            bu.push(K::internal(&d, have));
            have += 1;
        }
        if grow {
            bu.build()
        } else {
            bu.build_partial(k)
        }
        done = k;
        ensure(bu.len() == k, "count", || format!("{} elements indexed instead of {}", bu.len(), k));
        ensure(bu.num_elements() == have, "count", || format!("num_elements {} instead of {}", bu.num_elements(), have));
        if !grow || cfg.exp == Some(d.n) {
            check_sizes(&bu, &cfg, d.n, k);
        }
    }
    if b(s, "again") {
        bu.build();
        ensure(bu.len() == d.n, "count", || format!("{} elements indexed instead of {}", bu.len(), d.n));
        if !grow {
            check_sizes(&bu, &cfg, d.n, d.n);
        }
    }
    check_elements::<K>(bu.get_elements(), &d, d.n);
    if d.n > 0 {
        // element i of the index is element i of the collection
        sim::quiet(|| {
            let ix = bu.get_index();
            for i in [0, d.n / 2, d.n - 1] {
                let (a, b) = (K::vec_of(&ix.get_element(i)), K::vec_of(&bu.get_elements().get(i)));
                ensure(a == b, "elements", || format!("index element {} differs from the collection's", i));
            }
        });
    }
    company();
}
pub const C01: Prop = Prop {
    id: "C01",
    gen: gen_c01,
    run: |s| by_any_kind!(s, run_c01),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "exhaustive reference formula for the structure over randomly explored schedules and inputs",
    rule: "One run = one build history (0-4 partial builds, then the full one) of one random collection and configuration on a pool of 1-4 simulated workers.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------------ C02
fn gen_c02(r: &mut Rng) -> Value {
    let mut data = gen_data(r, 1, 100);
    let mut cfg = gen_cfg(r);
    cfg["nn"] = json!(r.small(1, 12));
    if r.chance(0.01) {
        data["n"] = json!(r.range(100, 800));
        cfg["ms"] = json!(r.range(1, 15));
    }
    let n = u(&data, "n");
    cfg["progress"] = json!(false);
    let mode = r.pick(&["once", "once", "partial", "reload", "push"]);
    let mut steps = vec![];
    if mode != "once" {
        for _ in 0..r.range(1, 4) {
            steps.push(r.below(n + 1));
        }
        steps.sort();
    }
    if r.chance(0.2) {
        cfg["exp"] = json!(r.range(0, 2 * n));
    }
    json!({"kind": gen_any_kind(r), "data": data, "cfg": cfg, "workers": r.range(1, 4), "mode": mode, "steps": steps, "company": gen_company(r)})
}
fn wf<K: Kind>(bu: &GranneBuilder<K::C>, cfg: &Cfg, halved: bool) {
    sim::quiet(|| {
        let g = G::of(bu);
        let layers = g.0.len();
        let total_complete = halved;
        must(
            well_formed(&g, &|l| if total_complete && l + 1 < layers { (cfg.nn / 2).max(1) } else { cfg.nn }),
            "malformed",
        );
        let zeros: Vec<bool> = (0..g.len()).map(|i| is_zero::<K>(bu.get_elements(), i)).collect();
        must(zeros_isolated(&g, &|i| zeros[i]), "zero-linked");
    })
}
fn run_c02<K: Kind>(s: &Value) {
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    pool(u(s, "workers"));
    let mode = s["mode"].as_str().unwrap();
    let company = company::<K>(s);
    let start = if mode == "push" { 0 } else { d.n };
    let mut bu = GranneBuilder::new(cfg.build(), sim::quiet(|| K::make(&d, start)));
    let mut have = start;
    for k in s["steps"].as_array().unwrap() {
        let k = k.as_u64().unwrap() as usize;
        if k < bu.len() || k > d.n {
            skip()
        }
        if mode == "push" {
            while have < k {
                bu.push(K::internal(&d, have));
                have += 1;
            }
        }
        bu.build_partial(k);
        wf::<K>(&bu, &cfg, false);
        if mode == "reload" {
            let bytes = save_index(&bu);
            let els = bu.get_elements().clone();
            bu = GranneBuilder::from_bytes(cfg.build(), &aligned(&bytes), els);
        }
    }
    while have < d.n {
        bu.push(K::internal(&d, have));
        have += 1;
    }
    bu.build();
    wf::<K>(&bu, &cfg, mode == "once");
    company();
}
pub const C02: Prop = Prop {
    id: "C02",
    gen: gen_c02,
    run: |s| by_any_kind!(s, run_c02),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "every neighbor list of every layer checked after every build step, over randomly explored schedules and histories",
    rule: "One run = one build history (one go, partial, reloaded or pushed to) on 1-4 simulated workers.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------------ C03
fn gen_c03(r: &mut Rng) -> Value {
    let data = gen_distinct(r, 1, 50);
    let n = u(&data, "n");
    let extra = r.below(6);
    let one_layer = r.chance(0.3);
    let nn = if one_layer { n } else { 2 * n } + if r.chance(0.5) { 0 } else { extra };
    let lm = if one_layer { n as f64 + 1.5 } else { gen_lm(r) };
    json!({"kind": gen_any_kind(r), "data": data,
        "cfg": {"nn": nn.min(254), "ms": n + r.below(n + 2), "lm": lm, "reins": r.chance(0.4), "progress": r.chance(0.1)},
        "workers": r.range(2, 5), "queries": r.range(1, 4), "company": gen_company(r)})
}
/// all indexed elements pairwise clearly distinct and non-zero?
pub fn distinct<K: Kind>(c: &K::C) -> bool {
    let v: Vec<Vec<f64>> = (0..c.len()).map(|i| K::vec_of(&c.get(i))).collect();
    v.iter().all(|x| x.iter().any(|y| *y != 0.0)) && (0..v.len()).all(|i| (0..i).all(|j| K::dist(&v[i], &v[j]) > 1e-4))
}
pub fn lossless_checks<K: Kind>(g: &G, c: &K::C) {
    let _ = c;
    must(symmetric(g), "lost-link");
    must(connected(g), "lost-element");
}
fn run_c03<K: Kind>(s: &Value) {
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    // a multiplier above n: one layer only, whose lists are not halved
    if cfg.nn < 2 * d.n && !(cfg.nn >= d.n && cfg.lm as f64 > d.n as f64 + 1.0) || cfg.ms < d.n || d.n < 1 {
        skip()
    }
    let els = sim::quiet(|| K::make(&d, d.n));
    if !sim::quiet(|| distinct::<K>(&els)) {
        skip()
    }
    pool(u(s, "workers"));
    let company = company::<K>(s);
    let mut bu = GranneBuilder::new(cfg.build(), els);
    bu.build();
    sim::quiet(|| {
        let g = G::of(&bu);
        lossless_checks::<K>(&g, bu.get_elements());
        let ix = bu.get_index();
        for q in 0..u(s, "queries") {
            let q = K::query(&d, q);
            let qv = K::vec_of(&q);
            let dist = |i: usize| K::dist(&K::vec_of(&bu.get_elements().get(i)), &qv);
            for k in [1, d.n / 2 + 1, d.n] {
                let res = ix.search(&q, d.n, k);
                must(truthful(&res, k, d.n, d.n, &dist), "search");
                must(exact_knn(&res, k, d.n, &dist), "search");
            }
        }
    });
    company();
}
pub const C03: Prop = Prop {
    id: "C03",
    gen: gen_c03,
    run: |s| by_any_kind!(s, run_c03),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "complete graph symmetry/reachability and exact k-nearest-neighbor comparison over randomly explored schedules",
    rule: "One run = one parallel build (2-5 simulated workers) of distinct elements with room for every link, followed by exhaustive searches compared with brute force.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------------ C04
fn gen_c04(r: &mut Rng) -> Value {
    let total = r.small(1, 60);
    let lossless = r.chance(0.6);
    let data = {
        let mut x = if lossless { gen_distinct(r, 1, 2) } else { gen_data(r, 1, 2) };
        x["n"] = json!(total);
        x
    };
    let mut cfg = if lossless {
        json!({"nn": (2 * total + 2 + r.below(5)).min(254), "ms": 2 * total + r.below(20), "lm": gen_lm(r), "reins": r.chance(0.4), "progress": false})
    } else {
        gen_cfg(r)
    };
    if r.chance(0.6) {
        cfg["exp"] = json!(total);
    }
    let mut ops = vec![];
    for _ in 0..r.range(2, 12) {
        ops.push(match r.below(11) {
            0 | 1 | 2 => json!(["push", r.range(1, 1 + total / 2)]),
            3 | 4 => json!(["partial", r.below(1001)]),
            5 => json!(["build"]),
            6 => json!(["save", r.below(4)]),
            7 => json!(["crash"]),
            8 => json!(["reload"]),
            9 => json!(["search", r.below(50)]),
            _ => json!([r.pick(&["too_many", "too_few", "again"])]),
        });
    }
    json!({"kind": gen_any_kind(r), "data": data, "cfg": cfg, "workers": r.range(1, 4), "initial": r.below(total + 1), "ops": ops})
}
fn load_builder<K: Kind>(cfg: &Cfg, d: &Data, save: &Option<(Vec<u8>, Vec<u8>)>) -> GranneBuilder<K::C> {
    sim::quiet(|| match save {
        Some((ib, eb)) => GranneBuilder::from_bytes(cfg.build(), &aligned(ib), K::load(d, eb)),
        None => GranneBuilder::new(cfg.build(), K::empty(d)),
    })
}
fn run_c04<K: Kind>(s: &Value) {
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    let total = d.n;
    pool(u(s, "workers"));
    let lossless = cfg.nn >= 2 * total && cfg.ms >= 2 * total && total > 0 && sim::quiet(|| distinct::<K>(&K::make(&d, total)));
    if u(s, "initial") > total {
        skip()
    }
    let mut have = u(s, "initial");
    let mut done = 0usize;
    let mut bu = GranneBuilder::new(cfg.build(), sim::quiet(|| K::make(&d, have)));
    let mut saved: Option<(Vec<u8>, Vec<u8>)> = None;
    let mut saved_state = (0usize, 0usize);
    let mut saved_graph = G(vec![]);
    let verify = |bu: &GranneBuilder<K::C>, have: usize, done: usize| {
        ensure(bu.len() == done, "count", || format!("{} elements indexed instead of {}", bu.len(), done));
        ensure(bu.num_elements() == have, "count", || format!("{} elements instead of {}", bu.num_elements(), have));
        check_elements::<K>(bu.get_elements(), &d, have);
        sim::quiet(|| {
            let g = G::of(bu);
            must(well_formed(&g, &|_| cfg.nn), "malformed");
            for w in g.sizes().windows(2) {
                ensure(w[0] <= w[1], "layer-sizes", || format!("layer sizes decrease: {:?}", g.sizes()));
            }
            if lossless && done > 0 {
                must(symmetric(&g), "lost-link");
                must(connected(&g), "lost-element");
            }
        });
        if cfg.exp == Some(total) {
            check_sizes(bu, &cfg, total, done);
        }
    };
    let mut ops: Vec<Value> = s["ops"].as_array().unwrap().clone();
    ops.push(json!(["finish"]));
    for op in &ops {
        let a = op[1].as_u64().unwrap_or(0) as usize;
        match op[0].as_str().unwrap_or("") {
            "push" => {
                for _ in 0..a {
                    if have < total {
                        bu.push(K::internal(&d, have));
                        have += 1;
                    }
                }
            }
            "partial" => {
                let k = done + (have - done) * a.min(1000) / 1000;
                bu.build_partial(k);
                done = k;
            }
            "build" => {
                bu.build();
                done = have;
            }
            "save" => {
                // a save may be cut short by a crash; then the previous one counts
                let mut ei = io::Dev::default();
                let mut ee = io::Dev::default();
                sim::point();
                bu.write_elements(&mut ee).unwrap_or_else(|e| fail("save", e.to_string()));
                if a == 0 {
                    count("crash_point");
                } else {
                    bu.write_index(&mut ei).unwrap_or_else(|e| fail("save", e.to_string()));
                    saved = Some((ei.data, ee.data));
                    saved_state = (have, done);
                    saved_graph = sim::quiet(|| G::of(&bu).sets());
                }
            }
            "crash" | "reload" => {
                if op[0] == "reload" {
                    let mut c = vec![];
                    sim::quiet(|| bu.write_elements(&mut c)).unwrap();
                    saved = Some((save_index(&bu), c));
                    saved_state = (have, done);
                    saved_graph = sim::quiet(|| G::of(&bu).sets());
                }
                count("process_restart");
                bu = load_builder::<K>(&cfg, &d, &saved);
                have = saved_state.0;
                done = saved_state.1;
                sim::quiet(|| must(G::of(&bu).sets().diff(&saved_graph), "reload"));
            }
            "search" => {
                sim::quiet(|| {
                    let ix = bu.get_index();
                    let q = K::query(&d, a);
                    let qv = K::vec_of(&q);
                    let dist = |i: usize| K::dist(&K::vec_of(&bu.get_elements().get(i)), &qv);
                    let res = ix.search(&q, total.max(1), total.max(1));
                    must(truthful(&res, total.max(1), total.max(1), done, &dist), "search");
                    if lossless {
                        must(exact_knn(&res, total.max(1), done, &dist), "search");
                    }
                });
            }
            "too_many" | "too_few" | "again" => {
                let before = sim::quiet(|| G::of(&bu));
                let mut refusal = true;
                match op[0].as_str().unwrap() {
                    "too_many" => {
                        ensure(refused(|| bu.build_partial(have + 1 + a)), "not-refused", || "more elements than exist were asked for".into());
                    }
                    "too_few" if done > 1 => {
                        ensure(refused(|| bu.build_partial(done - 1)), "not-refused", || "fewer elements than indexed were asked for".into());
                    }
                    _ => {
                        bu.build_partial(done);
                        refusal = false;
                    }
                }
                sim::quiet(|| {
                    let now = G::of(&bu);
                    if refusal {
                        must(now.diff(&before), "changed");
                    } else if lossless {
                        must(now.sets().diff(&before.sets()), "changed");
                    } else {
                        ensure(now.sizes() == before.sizes(), "changed", || format!("layer sizes {:?} vs {:?}", now.sizes(), before.sizes()));
                    }
                });
            }
            "finish" => {
                while have < total {
                    bu.push(K::internal(&d, have));
                    have += 1;
                }
                bu.build();
                done = have;
                // nothing new to do: nothing changes
                let before = sim::quiet(|| G::of(&bu));
                bu.build();
                sim::quiet(|| must(G::of(&bu).diff(&before), "changed"));
            }
            _ => {}
        }
        verify(&bu, have, done);
    }
    if lossless {
        sim::quiet(|| {
            let ix = bu.get_index();
            let q = K::query(&d, 77);
            let qv = K::vec_of(&q);
            let dist = |i: usize| K::dist(&K::vec_of(&bu.get_elements().get(i)), &qv);
            must(exact_knn(&ix.search(&q, total, total), total, total, &dist), "search");
        });
    }
}
pub const C04: Prop = Prop {
    id: "C04",
    gen: gen_c04,
    run: |s| by_any_kind!(s, run_c04),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "reference model of (elements, indexed count, layer sizes, links) compared after every step of random histories with crashes",
    rule: "One run = one history of push / build / save / crash and restart / refused calls / searches, each parallel step under a random schedule.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------------ C05
fn gen_c05(r: &mut Rng) -> Value {
    let mut v = json!({"kind": r.pick(&["f32", "i8", "sum"]),
        "data": {"n": r.range(150, 400), "dim": r.range(5, 9), "seed": r.next() >> 20, "zeros": 0.0, "dups": 0.0},
        "cfg": {"nn": r.range(8, 20), "ms": r.range(15, 50), "lm": r.pick(&[3.0, 5.0, 10.0, 15.0]), "reins": r.chance(0.5), "progress": false},
        "workers": r.range(2, 5)});
    let cal = std::env::var("GSIM_CALIBRATE").unwrap_or_default();
    if if cal.is_empty() { r.chance(0.4) } else { !cal.ends_with('1') } {
        // the average of several builds that leave little room for losing anything
        v["builds"] = json!(8);
        v["workers"] = json!(5);
        v["data"]["n"] = json!(r.range(150, 200));
        v["cfg"]["nn"] = json!(r.range(8, 10));
        v["cfg"]["ms"] = json!(r.range(15, 20));
        v["cfg"]["reins"] = json!(false);
        let mut sched = sim::gen_sched(r);
        if r.chance(0.6) {
            sched["hold"] = json!(r.pick(&[0.3, 1.0]));
            sched["hold_len"] = json!(r.pick(&[20u64, 200]));
        }
        v["sched"] = sched;
    }
    if !cal.is_empty() {
        v["how"] = json!(cal.trim_end_matches('1'));
    } else {
        v["how"] = json!(r.pick(&["build", "build", "build", "build", "steps", "rw"]));
    }
    v["steps"] = json!((0..r.range(3, 12)).map(|_| r.below(1001)).collect::<Vec<_>>());
    v
}
/// A concurrent builder filled by several threads.
fn filled<K: Kind>(cfg: &Cfg, d: &Arc<Data>, threads: usize, steps: &[usize]) -> RwGranneBuilder<K::C> {
    let from = steps.first().map_or(0, |x| x % 20);
    let c = Cfg { exp: None, ..*cfg };
    let rb = Arc::new(RwGranneBuilder::new(GranneBuilder::new(c.build(), sim::quiet(|| K::make(d, from))), d.n, 1 + steps.len() % 3));
    let t: Vec<_> = (0..threads)
        .map(|k| {
            let (rb, d) = (rb.clone(), d.clone());
            let size = 1 + steps.get(k).map_or(0, |x| x % 4);
            std::thread::spawn(move || {
                let mine: Vec<usize> = (from..d.n).filter(|i| i % threads == k).collect();
                for b in mine.chunks(size) {
                    rb.insert_batch(b.iter().map(|i| K::internal(&d, *i)).collect());
                }
            })
        })
        .collect();
    for t in t {
        t.join().unwrap();
    }
    match Arc::try_unwrap(rb) {
        Ok(rb) => rb,
        Err(_) => fail("held", "a thread that is gone still holds the builder".to_string()),
    }
}
fn recall<K: Kind>(els: &K::C, d: &Data, search: &dyn Fn(&K::E, usize) -> Vec<(usize, f32)>) -> (f64, f64) {
    let vecs: Vec<Vec<f64>> = (0..d.n).map(|i| K::vec_of(&els.get(i))).collect();
    let (mut hit, mut all) = (0, 0);
    for q in 0..20 {
        let e = K::query(d, q);
        let qv = K::vec_of(&e);
        let mut t: Vec<f64> = vecs.iter().map(|v| ref_dist(v, &qv)).collect();
        t.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let res = search(&e, 10);
        hit += res.iter().filter(|r| r.1 as f64 <= t[9] + TOL).count();
        all += 10;
    }
    let mut own = 0;
    for i in 0..d.n {
        let e = els.get(i);
        let r = search(&e, 1);
        if r.first().map_or(false, |x| x.1 < 1e-3 && (x.0 == i || K::dist(&vecs[x.0], &vecs[i]) < 1e-3)) {
            own += 1;
        }
    }
    (hit as f64 / all as f64, own as f64 / d.n as f64)
}
fn run_c05<K: Kind>(s: &Value) {
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    if d.n < 150 || d.dim < 5 || cfg.nn < 8 || cfg.ms < 15 || cfg.lm < 3.0 {
        skip()
    }
    pool(u(s, "workers"));
    let builds = u(s, "builds").clamp(1, 20);
    let how = s["how"].as_str().unwrap_or("build");
    let mut steps: Vec<usize> = s["steps"].as_array().map_or(vec![], |a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as usize).collect());
    match how {
        "steps" => {
            steps.iter_mut().for_each(|x| *x = *x % 1001 * d.n / 1000);
            steps.sort()
        }
        "rw" => (),
        _ => steps.clear(),
    }
    let (mut rp, mut op, mut rs, mut os) = (0.0, 0.0, 0.0, 0.0);
    for k in 0..builds {
        let d = Data { seed: d.seed + k as u64, ..d.clone() };
        let els = sim::quiet(|| K::make(&d, d.n));
        let (r, o) = if how == "rw" {
            let rb = filled::<K>(&cfg, &Arc::new(d.clone()), u(s, "workers"), &steps);
            let els = rb.get_elements().clone();
            ensure(els.len() == d.n, "count", || format!("{} elements after inserting {}", els.len(), d.n));
            sim::quiet(|| recall::<K>(&els, &d, &|e, k| rb.search(e, 30, k)))
        } else {
            let mut par = GranneBuilder::new(cfg.build(), els.clone());
            for &x in &steps {
                par.build_partial(x);
            }
            par.build();
            sim::quiet(|| recall::<K>(par.get_elements(), &d, &|e, k| par.get_index().search(e, 30, k)))
        };
        let mut seq = GranneBuilder::new(cfg.build(), els);
        single(|| seq.build());
        sim::quiet(|| {
            rp += r / builds as f64;
            op += o / builds as f64;
            let (r, o) = recall::<K>(seq.get_elements(), &d, &|e, k| seq.get_index().search(e, 30, k));
            rs += r / builds as f64;
            os += o / builds as f64;
        });
    }
    if std::env::var_os("GSIM_CALIBRATE").is_some() {
        let line = format!("CAL {:.3} {:.3} {:.3} {:.3} {} {} {} {} {} {}\n", rp, rs, op, os, d.n, u(s, "workers"), s["sched"]["hold"], s["sched"]["hold_len"], cfg.lm, cfg.nn);
        unsafe { sim::raw(libc::SYS_write, 2, line.as_ptr() as usize, line.len(), 0, 0, 0) };
        return;
    }
    let [min_r, loss_r, min_s, loss_s] = if builds >= 8 { MEAN } else { ONE };
    ensure(rp >= min_r && rp >= rs - loss_r, "recall", || format!("recall of the parallel build {:.3}, of a single-threaded one {:.3}", rp, rs));
    ensure(op >= min_s && op >= os - loss_s, "recall", || {
        format!("{:.3} of the elements find themselves in the parallel build, {:.3} in a single-threaded one", op, os)
    });
}
/// least recall, greatest loss against the single-threaded build; the same for elements finding themselves
const ONE: [f64; 4] = [0.95, 0.05, 0.97, 0.03];
const MEAN: [f64; 4] = [0.96, 0.033, 0.965, 0.03];
pub const C05: Prop = Prop {
    id: "C05",
    gen: gen_c05,
    run: |s| by_kind!(s, run_c05),
    quick_s: 32.0,
    thorough_s: 900.0,
    level: "recall of every simulated parallel build compared with brute force and with a single-threaded build of the same data",
    rule: "One run = a parallel build of 150-400 random elements (pruned neighbor lists) on 2-5 simulated workers, 20 random queries and a self-query per element; thresholds: recall >= 0.95 and at most 0.05 below the single-threaded build, self-found >= 0.97 and at most 0.03 below; or several parallel builds of small settings, whose average has to reach recall 0.96, 0.033 below the single-threaded one, self-found 0.965, 0.03 below.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
