//! C06: searching, alone and concurrently.
use super::prelude::*;
use std::sync::Arc;

fn gen(r: &mut Rng) -> Value {
    let mut data = if r.chance(0.07) { gen_data(r, 0, 1) } else { gen_data(r, 1, 120) };
    let mut cfg = gen_cfg(r);
    if r.chance(0.02) {
        data["n"] = json!(r.range(120, 900));
        cfg["nn"] = json!(r.range(2, 20));
        cfg["ms"] = json!(r.range(2, 20));
    }
    let n = u(&data, "n");
    cfg["progress"] = json!(false);
    let qs: Vec<Value> = (0..r.range(1, 8))
        .map(|_| {
            let k = r.pick(&[0, 1, 1, 2, 5, 10, n / 2, n, n + 5]);
            let budget = r.pick(&[1, 1, 2, 5, 10, 30, n / 2 + 1, n + 1, 2 * n + 1]);
            json!([r.below(1000), budget, k, r.chance(0.3)])
        })
        .collect();
    json!({"kind": gen_any_kind(r), "data": data, "cfg": cfg, "partial": r.chance(0.2),
        "form": r.pick(&["builder", "bytes", "file", "file", "bytes"]), "shift": r.pick(&[0usize, 0, 1, 3, 8, 13]),
        "threads": r.range(1, 4), "queries": qs, "company": gen_company(r)})
}
fn to_query<K: Kind>(d: &Data, els: &K::C, id: usize, own: bool) -> K::E {
    if own && els.len() > 0 {
        els.get(id % els.len())
    } else {
        K::query(d, id)
    }
}
/// The exhaustive answer is the ordered set of everything that can be reached from one of its members.
pub fn exhaustive_ok(g: &G, res: &[(usize, f32)]) -> Option<String> {
    let Some(bottom) = g.0.last() else {
        return if res.is_empty() { None } else { Some("results from an empty index".into()) };
    };
    if bottom.is_empty() {
        return None;
    }
    if res.is_empty() {
        return Some("no results from a non-empty index".into());
    }
    let ids: std::collections::HashSet<usize> = res.iter().map(|x| x.0).collect();
    for &i in &ids {
        for &n in &bottom[i] {
            if !ids.contains(&n) {
                return Some(format!("element {} was found but its neighbor {} was not", i, n));
            }
        }
    }
    if !ids.iter().any(|&e| reach(bottom, e) == ids) {
        return Some("the results are not the set of elements reachable from any one entry point".into());
    }
    None
}
type Idx<E> = Granne<'static, E>;

fn go<K: Kind>(s: &Value, d: &Data, ix: Arc<Idx<K::C>>, els: &K::C, n: usize)
where
    Idx<K::C>: Send + Sync,
{
    let g = sim::quiet(|| G::of(&*ix));
    ensure(g.len() == n, "count", || format!("index has {} elements instead of {}", g.len(), n));
    let mut qs: Vec<(K::E, usize, usize)> = vec![];
    for q in s["queries"].as_array().unwrap() {
        let budget = (q[1].as_u64().unwrap() as usize).max(1);
        qs.push((to_query::<K>(d, els, q[0].as_u64().unwrap() as usize, q[3].as_bool().unwrap_or(false)), budget, q[2].as_u64().unwrap() as usize));
    }
    // answers of a lone search
    let alone: Vec<Vec<(usize, f32)>> = sim::quiet(|| qs.iter().map(|(q, ms, k)| ix.search(q, *ms, *k)).collect());
    sim::quiet(|| {
        for ((q, ms, k), res) in qs.iter().zip(&alone) {
            let qv = K::vec_of(q);
            let dist = |i: usize| K::dist(&K::vec_of(&els.get(i)), &qv);
            must(truthful(res, *k, *ms, n, &dist), "search");
            if n > 0 && *k > 0 {
                ensure(!res.is_empty(), "search", || "no results from a non-empty index".into());
            }
            let full = ix.search(q, n.max(1), n.max(1));
            must(truthful(&full, n.max(1), n.max(1), n, &dist), "search");
            must(exhaustive_ok(&g, &full), "search");
            if *ms >= n {
                must(same_answer(res, &full[..full.len().min(*k)]), "search");
            }
        }
    });
    let company = company::<K>(s);
    let qs = Arc::new(qs);
    let alone = Arc::new(alone);
    let hs: Vec<_> = (0..u(s, "threads").min(8))
        .map(|t| {
            let (ix, qs, alone) = (ix.clone(), qs.clone(), alone.clone());
            std::thread::spawn(move || {
                sim::label(format!("searcher {}", t));
                for k in 0..qs.len() {
                    let k = (k + t) % qs.len();
                    let (q, ms, n) = &qs[k];
                    let res = ix.search(q, *ms, *n);
                    count("queries");
                    ensure(res.len() == alone[k].len() && res.iter().zip(&alone[k]).all(|(a, b)| a.0 == b.0 && a.1.to_bits() == b.1.to_bits()), "concurrent-search", || {
                        format!("a concurrent search returned {:?}, alone {:?}", res, alone[k])
                    });
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap_or_else(|_| fail("panic", crate::shared::sh().get_panic()));
    }
    company();
}
fn run<K: Kind>(s: &Value)
where
    Idx<K::C>: Send + Sync,
{
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    pool(1);
    let els = sim::quiet(|| K::make(&d, d.n));
    let mut bu = GranneBuilder::new(cfg.build(), els.clone());
    let n = if b(s, "partial") { d.n / 2 } else { d.n };
    bu.build_partial(n);
    match s["form"].as_str().unwrap_or("") {
        "builder" => {
            // the in-memory form (uncompressed lists)
            let b: &'static GranneBuilder<K::C> = Box::leak(Box::new(bu));
            let ix: Idx<K::C> = b.get_index().to_owned();
            go::<K>(s, &d, Arc::new(ix), &els, n);
        }
        "bytes" => {
            let bytes = save_index(&bu);
            let buf: &'static Buf = Box::leak(Box::new(Buf::new(&bytes, u(s, "shift"))));
            go::<K>(s, &d, Arc::new(Granne::from_bytes(buf, els.clone())), &els, n);
        }
        _ => {
            let p = format!("{}/index", crate::driver::scratch());
            sim::quiet(|| std::fs::write(&p, save_index(&bu))).unwrap();
            let f = std::fs::File::open(&p).unwrap();
            let ix = unsafe { Granne::from_file(&f, els.clone()) }.unwrap_or_else(|e| fail("load", e.to_string()));
            drop(f);
            go::<K>(s, &d, Arc::new(ix), &els, n);
        }
    }
}
pub const C06: Prop = Prop {
    id: "C06",
    gen,
    run: |s| by_any_kind!(s, run),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "reference oracle (true distances, order, closure under links, exhaustive reachability) and comparison with a lone search under random schedules",
    rule: "One run = one built index (in memory, from bytes at some alignment, or memory-mapped), 1-8 queries each issued by 1-4 simulated threads concurrently.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
