//! C16 - C18: reproducibility, progress reporting and reordering.
use super::disk::Store;
use super::prelude::*;
use granne::embeddings::compute_keys_for_reordering;
use std::fs::File;

fn path(f: &str) -> String {
    format!("{}/{}", crate::driver::scratch(), f)
}

// ------------------------------------------------------------------ C16
fn gen_c16(r: &mut Rng) -> Value {
    let mode = r.pick(&["repeat", "repeat", "repeat", "progress", "progress", "reorder"]);
    let hi = if r.chance(0.1) { 600 } else { 150 };
    let mut data = gen_data(r, 0, hi);
    if r.chance(0.1) {
        data["n"] = json!(r.below(4));
    }
    let n = u(&data, "n");
    let mut steps: Vec<usize> = (0..r.pick(&[0, 0, 1, 2, 3])).map(|_| r.below(n + 1)).collect();
    steps.sort();
    let mut cfg = gen_cfg(r);
    if r.chance(0.3) && !steps.is_empty() {
        cfg["exp"] = json!(n);
    }
    json!({"kind": gen_any_kind(r), "data": data, "cfg": cfg, "mode": mode, "steps": steps, "workers": if mode == "repeat" { 1 } else { r.range(2, 5) },
        "reload": r.chance(0.2), "idle": r.below(5)})
}
fn run_c16<K: Kind>(s: &Value) {
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    let els = sim::quiet(|| K::make(&d, d.n));
    let steps: Vec<usize> = s["steps"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).filter(|k| *k <= d.n).collect();
    if steps.windows(2).any(|w| w[0] > w[1]) {
        skip()
    }
    let make = |progress: bool| {
        let mut c = cfg;
        c.progress = progress;
        let mut bu = GranneBuilder::new(c.build(), els.clone());
        for &k in &steps {
            bu.build_partial(k);
            if b(s, "reload") {
                let bytes = save_index(&bu);
                bu = GranneBuilder::from_bytes(c.build(), &bytes, els.clone());
            }
        }
        bu.build();
        bu
    };
    let workers = u(s, "workers").max(1);
    pool(workers);
    match s["mode"].as_str().unwrap_or("") {
        "repeat" => {
            let first = save_index(&make(false));
            for k in 0..u(s, "idle").min(10) {
                std::thread::sleep(std::time::Duration::from_millis(1 + 700 * k as u64));
            }
            for progress in [true, false] {
                let again = save_index(&make(progress));
                ensure(again == first, "not-reproducible", || {
                    let at = first.iter().zip(&again).position(|(a, b)| a != b);
                    format!("building again{} gave a different index ({} vs {} bytes, first difference at {:?})", if progress { " with progress" } else { "" }, again.len(), first.len(), at)
                });
            }
        }
        "reorder" => {
            // progress while reordering, any number of threads
            let bu = make(false);
            let (bytes, want) = (save_index(&bu), sim::quiet(|| G::of(&bu)));
            let mut res = vec![];
            for progress in [false, true] {
                let buf: &'static Buf = Box::leak(Box::new(Buf::new(&bytes, 0)));
                let mut ix = Granne::from_bytes(buf, els.clone());
                let p = ix.reorder(progress);
                let keys: Vec<u64> = (0..want.len()).map(|i| mix(i as u64) % 7).collect();
                let q = ix.reorder_by_keys(&keys, progress);
                let mut e = vec![];
                sim::quiet(|| ix.write_elements(&mut e)).unwrap();
                res.push((p, q, save_index(&ix), e));
            }
            ensure(res[0] == res[1], "progress", || "reordering with progress gave a different result".into());
        }
        _ => {
            // with progress and many threads: it finishes, and nothing is wrong with the result
            let bu = make(true);
            check_sizes_done(&bu, &cfg, d.n, &steps);
            check_elements::<K>(bu.get_elements(), &d, d.n);
            sim::quiet(|| must(well_formed(&G::of(&bu), &|_| cfg.nn), "graph"));
        }
    }
}
fn check_sizes_done(ix: &dyn LayerView, cfg: &Cfg, n: usize, steps: &[usize]) {
    // only a build in one go, or one that knew the total, has layer sizes that depend on nothing else
    if steps.is_empty() || cfg.exp == Some(n) {
        check_sizes(ix, cfg, n, n);
    } else {
        let got = sim::quiet(|| sizes_of(ix));
        ensure(got.last().copied().unwrap_or(0) == n, "count", || format!("{:?} indexed of {}", got.last(), n));
    }
}
pub const C16: Prop = Prop {
    id: "C16",
    gen: gen_c16,
    run: |s| by_any_kind!(s, run_c16),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "byte comparison of repeated builds under frozen, jumping and advancing clocks, with and without progress; progress runs under random schedules must finish with a well-formed result",
    rule: "One run = one collection and build recipe (one go, or several partial builds with reloads) built three times by one worker at different simulated times, or built/reordered with progress by 2-5 workers.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------------ C17 / C18
fn gen_index(r: &mut Rng, big_p: f64) -> Value {
    let big = r.chance(big_p);
    let mut data = gen_data(r, 0, 200);
    let roll = r.below(10);
    if roll < 2 {
        data["n"] = json!(r.below(5));
    }
    let mut cfg = gen_cfg(r);
    cfg["progress"] = json!(false);
    cfg["ms"] = json!(r.small(1, 30));
    let kind = if big { "sum" } else { gen_kind(r) };
    let hand = if big {
        let n = r.pick(&[9_999usize, 10_000, 10_001, 12_345, 20_000, 20_001]);
        data["n"] = json!(n);
        data["dim"] = json!(2);
        data["dups"] = json!(0.0);
        match r.below(3) {
            0 => json!([n]),
            1 => json!([7, n]),
            _ => json!([3, 500, n]),
        }
    } else if r.chance(0.3) {
        // a graph with arbitrary lists
        let n = u(&data, "n");
        let mut l: Vec<usize> = (0..r.below(11)).map(|_| r.below(n + 1).max(1)).filter(|x| *x <= n).collect();
        l.push(n);
        l.sort();
        json!(l)
    } else {
        Value::Null
    };
    json!({"kind": kind, "data": data, "cfg": cfg, "hand": hand, "workers": r.range(1, 4),
        "excess": r.pick(&[0usize, 0, 0, 1, 3, 50]), "form": r.pick(&["memory", "bytes", "mmap"]),
        "mode": r.pick(&["sim", "keys", "keys", "embed"]), "keyspace": r.pick(&[1u64, 2, 5, 1000]), "rounds": r.range(1, 2)})
}
type Idx<K> = Granne<'static, <K as Kind>::C>;
/// The index of a run: built, or with handcrafted lists; plus the graph it has.
fn make_index<K: Store>(s: &Value) -> (Data, Idx<K>) {
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    let excess = u(s, "excess").min(100);
    if d.n > 30_000 {
        skip()
    }
    let els = sim::quiet(|| K::make(&d, d.n + excess));
    let form = s["form"].as_str().unwrap_or("memory");
    let bytes = if let Some(l) = s["hand"].as_array() {
        let sizes: Vec<usize> = l.iter().map(|x| x.as_u64().unwrap() as usize).filter(|x| *x > 0 && *x <= d.n).collect();
        if sizes.windows(2).any(|w| w[0] > w[1]) || (d.n > 0 && sizes.last() != Some(&d.n)) {
            skip()
        }
        let mut r = Rng::new(d.seed);
        let long = d.seed % 3 == 0;
        let g: Vec<Vec<Vec<u32>>> = sizes
            .iter()
            .map(|&n| {
                (0..n)
                    .map(|i| {
                        let most = if n > 1000 { 4 } else if long && r.chance(0.2) { 250 } else { 12 };
                        let mut v: Vec<u32> = (0..r.below(most)).map(|_| r.below(n) as u32).collect();
                        // a chain keeps everything reachable in most runs
                        if d.seed % 4 != 0 {
                            v.push(((i + 1) % n) as u32);
                            v.push(((i + n - 1) % n) as u32);
                        }
                        v.retain(|x| *x != i as u32);
                        v.sort();
                        v.dedup();
                        v
                    })
                    .collect()
            })
            .collect();
        encode_index(&g)
    } else {
        let mut bu = GranneBuilder::new(cfg.build(), els.clone());
        bu.build_partial(d.n);
        if form == "memory" {
            let b: &'static GranneBuilder<K::C> = Box::leak(Box::new(bu));
            return (d, b.get_index().to_owned());
        }
        save_index(&bu)
    };
    if form == "mmap" {
        let els = sim::quiet(|| {
            K::save(&els, &d);
            K::load_file().unwrap_or_else(|e| fail("load", e.to_string()))
        });
        sim::quiet(|| std::fs::write(path("ix"), &bytes)).unwrap();
        let f = File::open(path("ix")).unwrap();
        return (d, unsafe { Granne::from_file(&f, els) }.unwrap_or_else(|e| fail("load", e.to_string())));
    }
    let buf: &'static Buf = Box::leak(Box::new(Buf::new(&bytes, 0)));
    (d, Granne::from_bytes(buf, els))
}
fn contents<K: Kind>(c: &K::C) -> Vec<Vec<u8>> {
    (0..c.len()).map(|i| K::content(c, i)).collect()
}
fn copy<K: Kind>(ix: &Idx<K>) -> Idx<K> {
    let buf: &'static Buf = Box::leak(Box::new(Buf::new(&save_index(ix), 0)));
    Granne::from_bytes(buf, ix.get_elements().clone())
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Key(u64, String);
fn user_keys(s: &Value, d: &Data, n: usize, round: usize) -> Vec<Key> {
    let m = s["keyspace"].as_u64().unwrap_or(5).max(1);
    (0..n).map(|i| mix(d.seed ^ mix(i as u64 + 1000 * round as u64)) % m).map(|x| Key(x / 3, format!("{}", x))).collect()
}
/// one reordering as asked; the keys that were used, as ranks
fn reorder_once<K: Kind>(s: &Value, d: &Data, ix: &mut Idx<K>, round: usize) -> (Vec<usize>, Option<Vec<Key>>) {
    let n = ix.len();
    match s["mode"].as_str().unwrap_or("sim") {
        "sim" => (ix.reorder(false), None),
        _ => {
            let k = user_keys(s, d, n, round);
            (ix.reorder_by_keys(&k, false), Some(k))
        }
    }
}
fn check_reordered<K: Kind>(before: &G, old: &[Vec<u8>], ix: &Idx<K>, p: &[usize], keys: Option<&[Key]>) {
    let n = before.len();
    ensure(p.len() == n || p.len() == old.len(), "permutation", || format!("a permutation of {} for {} indexed of {} elements", p.len(), n, old.len()));
    let mut seen = vec![false; p.len()];
    for &x in p {
        ensure(x < p.len() && !seen[x], "permutation", || format!("not a permutation: {} is out of range or named twice", x));
        seen[x] = true;
    }
    ensure(p[n..].iter().enumerate().all(|(i, x)| *x == n + i), "permutation", || "elements that are not indexed were moved".into());
    let after = G::of(ix);
    ensure(after.sizes() == before.sizes(), "layers", || format!("layer sizes {:?}, before {:?}", after.sizes(), before.sizes()));
    let mut b = 0;
    for e in before.sizes() {
        for i in b..e {
            ensure(p[i] >= b && p[i] < e, "layers", || format!("the element now at {} comes from {}, outside its layer range {}..{}", i, p[i], b, e));
        }
        if let Some(k) = keys {
            for i in b + 1..e.max(b + 1) {
                ensure((&k[p[i - 1]], p[i - 1]) < (&k[p[i]], p[i]), "keys", || {
                    format!("positions {} and {} are out of order: keys {:?} (element {}) and {:?} (element {})", i - 1, i, k[p[i - 1]], p[i - 1], k[p[i]], p[i])
                });
            }
        }
        b = e;
    }
    let els = ix.get_elements();
    ensure(els.len() == old.len(), "elements", || format!("{} elements, before {}", els.len(), old.len()));
    for i in 0..old.len() {
        let from = if i < p.len() { p[i] } else { i };
        ensure(K::content(els, i) == old[from], "elements", || format!("element {} is not the old element {}", i, from));
    }
    let mut inv = vec![0; p.len()];
    for (i, &x) in p.iter().enumerate() {
        inv[x] = i;
    }
    let want = G(before.0.iter().map(|l| (0..l.len()).map(|i| l[p[i]].iter().map(|&x| if x < inv.len() { inv[x] } else { x }).collect()).collect()).collect()).sets();
    must(after.sets().diff(&want), "graph");
}
fn run_c17<K: Store>(s: &Value) {
    pool(u(s, "workers").max(1));
    let (d, mut ix) = make_index::<K>(s);
    for round in 0..u(s, "rounds").clamp(1, 3) {
        let (before, old) = sim::quiet(|| (G::of(&ix), contents::<K>(ix.get_elements())));
        let (p, keys) = if s["mode"] == "embed" {
            if let Some(e) = sum_of::<K>(&ix) {
                let k = compute_keys_for_reordering(e);
                let k: Vec<_> = k.into_iter().take(before.len()).collect();
                (ix.reorder_by_keys(&k, false), None)
            } else {
                reorder_once::<K>(s, &d, &mut ix, round)
            }
        } else {
            reorder_once::<K>(s, &d, &mut ix, round)
        };
        sim::quiet(|| check_reordered::<K>(&before, &old, &ix, &p, keys.as_deref()));
    }
}
fn sum_of<K: Kind>(ix: &Idx<K>) -> Option<&granne::embeddings::SumEmbeddings<'static>> {
    (ix.get_elements() as &dyn std::any::Any).downcast_ref::<SimEl<granne::embeddings::SumEmbeddings<'static>>>().map(|e| &e.0)
}
pub const C17: Prop = Prop {
    id: "C17",
    gen: |r| gen_index(r, 0.01),
    run: |s| by_kind!(s, run_c17),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "complete comparison of permutation, layer ranges, elements, key order and every neighbor list with the relabelled original, under random schedules",
    rule: "One run = one index (built or handcrafted, 0-12 layers, up to 20 001 elements, in memory/from bytes/mapped, possibly with more elements than indexed) reordered once or twice by 1-4 workers.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

fn run_c18<K: Store>(s: &Value) {
    pool(u(s, "workers").max(1));
    let (d, ix) = make_index::<K>(s);
    let before = sim::quiet(|| G::of(&ix));
    let old = copy::<K>(&ix);
    let n = before.len();
    // the same reordering by several workers under this schedule, and by one
    let mut many = copy::<K>(&ix);
    let mut one = copy::<K>(&ix);
    let (pm, p1);
    if s["mode"] == "embed" && sum_of::<K>(&ix).is_some() {
        let km = compute_keys_for_reordering(sum_of::<K>(&ix).unwrap());
        let k1 = single(|| compute_keys_for_reordering(sum_of::<K>(&ix).unwrap()));
        ensure(km.len() == ix.get_elements().len(), "keys", || format!("{} keys for {} elements", km.len(), ix.get_elements().len()));
        ensure(km == k1, "keys", || "the keys computed by several workers differ from those of one".into());
        sim::quiet(|| {
            // the words of an element, largest norm first, decide its place
            let e = sum_of::<K>(&ix).unwrap();
            let norm = |w: usize| d.word_vec(w).iter().map(|x| (*x as f64) * (*x as f64)).sum::<f64>().sqrt();
            let norms: Vec<f64> = (0..d.vocab()).map(norm).collect();
            let mut near: Vec<f64> = norms.clone();
            near.sort_by(|a, b| a.partial_cmp(b).unwrap());
            if near.windows(2).all(|w| w[1] - w[0] > 1e-5) {
                let key = |i: usize| {
                    let mut t = e.get_terms(i);
                    t.sort_by(|a, b| norms[*b].partial_cmp(&norms[*a]).unwrap());
                    t.truncate(8);
                    t.resize(8, 0);
                    t
                };
                let m = km.len().min(120);
                let ks: Vec<_> = (0..m).map(key).collect();
                for i in 1..m {
                    for j in [i - 1, i / 2, 0] {
                        ensure(ks[i].cmp(&ks[j]) == km[i].cmp(&km[j]), "keys", || format!("keys of elements {} {:?} and {} {:?} compare the wrong way", i, ks[i], j, ks[j]));
                    }
                }
            }
        });
        let (km, k1): (Vec<_>, Vec<_>) = (km.into_iter().take(n).collect(), k1.into_iter().take(n).collect());
        pm = many.reorder_by_keys(&km, false);
        p1 = single(|| one.reorder_by_keys(&k1, false));
    } else {
        pm = reorder_once::<K>(s, &d, &mut many, 0).0;
        p1 = single(|| reorder_once::<K>(s, &d, &mut one, 0).0);
    }
    ensure(pm == p1, "schedule-dependent", || {
        format!("the permutation differs between several workers and one, first at {:?}", pm.iter().zip(&p1).position(|(a, b)| a != b))
    });
    let bytes = save_index(&many);
    ensure(bytes == save_index(&one), "schedule-dependent", || "the reordered index differs between several workers and one".into());
    sim::quiet(|| {
        ensure(contents::<K>(many.get_elements()) == contents::<K>(one.get_elements()), "schedule-dependent", || "the reordered elements differ between several workers and one".into());
        ensure(contents::<K>(ix.get_elements()) == contents::<K>(old.get_elements()), "schedule-dependent", || "another index was changed".into());
        let mut eb = vec![];
        many.write_elements(&mut eb).unwrap_or_else(|e| fail("save", e.to_string()));
        let buf: &'static Buf = Box::leak(Box::new(Buf::new(&bytes, 0)));
        let back = Granne::from_bytes(buf, K::load(&d, &eb));
        must(G::of(&back).sets().diff(&G::of(&many).sets()), "reload");
        ensure(contents::<K>(back.get_elements()) == contents::<K>(many.get_elements()), "reload", || "the reordered elements differ after saving and loading".into());
        if n == 0 || n > 1000 {
            return;
        }
        let all = connected(&G(vec![before.0.last().unwrap().clone()])).is_none();
        // what can be reached from an entry point must not depend on which one it is
        let strongly = all && (0..n).all(|i| reach(before.0.last().unwrap(), i).len() == n);
        for q in 0..4 {
            let e = K::query(&d, q);
            let a = back.search(&e, n, n);
            must(same_answer(&a, &many.search(&e, n, n)), "reload");
            if strongly {
                for k in [1, n / 2, n] {
                    let a: Vec<(usize, f32)> = back.search(&e, n, k).iter().map(|x| (pm[x.0], x.1)).collect();
                    must(same_answer(&a, &old.search(&e, n, k)), "search");
                }
            }
        }
    });
}
pub const C18: Prop = Prop {
    id: "C18",
    gen: |r| {
        let mut v = gen_index(r, 0.006);
        v["workers"] = json!(r.range(2, 5));
        v
    },
    run: |s| by_kind!(s, run_c18),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "same reordering executed by 2-5 workers under a random schedule and by one worker, compared byte for byte; exhaustive searches before/after/reloaded compared",
    rule: "One run = one index reordered (by similarity, user keys or embedding keys) by several simulated workers and by one, saved, loaded and searched exhaustively.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
