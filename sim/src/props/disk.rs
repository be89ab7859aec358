//! C12 - C15: saving and loading.
use super::prelude::*;
use crate::io::{Dev, Op, Trace};
use granne::embeddings::SumEmbeddings;
use std::fs::File;
use std::io::Write;

fn path(f: &str) -> String {
    format!("{}/{}", crate::driver::scratch(), f)
}
pub fn gen_io(r: &mut Rng) -> Value {
    json!({"short_p": r.pick(&[0.0, 0.0, 0.05, 0.5, 0.95]), "eintr_p": r.pick(&[0.0, 0.0, 0.05, 0.5])})
}
fn gen_n(r: &mut Rng, hi: usize) -> usize {
    if r.chance(0.3) {
        r.pick(&[0usize, 1, 2, 58, 59, 60, 61, 118, 119, 120, 121, 179, 180]).min(hi)
    } else {
        r.small(0, hi)
    }
}
/// A graph of `sizes` layers with arbitrary lists; ids may be anything below u32::MAX.
fn hand_graph(s: &Value) -> Vec<Vec<Vec<u32>>> {
    let mut r = Rng::new(s["seed"].as_u64().unwrap_or(1));
    let maxlen = u(s, "maxlen").clamp(1, 254);
    s["sizes"]
        .as_array()
        .unwrap()
        .iter()
        .map(|n| {
            let n = n.as_u64().unwrap() as usize;
            (0..n)
                .map(|_| {
                    let k = match r.below(4) {
                        0 => r.below(maxlen + 1),
                        1 => r.below(6).min(maxlen),
                        2 => r.pick(&[0, 1, 3, 4, 5, maxlen]).min(maxlen),
                        _ => r.small(0, maxlen),
                    };
                    let span: u64 = match r.below(6) {
                        0 => 255,
                        1 => 256,
                        2 => 65_536,
                        3 => 1 << 24,
                        4 => u32::MAX as u64 - 1,
                        _ => (k as u64 + 1) * (1 + r.below(1000) as u64),
                    };
                    let base = if r.chance(0.3) { r.next() % (u32::MAX as u64 - span) } else { 0 };
                    let mut v: Vec<u32> = (0..k).map(|_| (base + r.next() % span) as u32).collect();
                    v.sort();
                    v.dedup();
                    v
                })
                .collect()
        })
        .collect()
}
fn gen_hand(r: &mut Rng) -> Value {
    let layers = r.range(0, 4);
    let mut sizes: Vec<usize> = (0..layers).map(|_| gen_n(r, 130).max(1)).collect();
    sizes.sort();
    if layers == 0 && r.chance(0.5) {
        sizes = vec![r.range(1, 300)];
    }
    if r.chance(0.01) {
        // more nodes than fit into two bytes
        return json!({"seed": r.next() >> 20, "sizes": [r.range(1, 100), r.range(65_530, 66_600)], "maxlen": r.pick(&[1usize, 5])});
    }
    json!({"seed": r.next() >> 20, "sizes": sizes, "maxlen": r.pick(&[1usize, 3, 4, 5, 8, 30, 60, 254])})
}
fn to_g(h: &[Vec<Vec<u32>>]) -> G {
    G(h.iter().map(|l| l.iter().map(|n| n.iter().map(|x| *x as usize).collect()).collect()).collect())
}
fn dev_save(ix: &impl Index, off: usize) -> Dev {
    let mut d = Dev::new("index", off);
    ix.write_index(&mut d).unwrap_or_else(|e| fail("save", format!("saving failed on a working medium: {}", e)));
    d
}
/// writes the index to a file on the simulated disk
fn file_save(ix: &impl Index, p: &str, off: usize) -> Vec<u8> {
    let mut f = sim::quiet(|| File::create(p)).unwrap();
    if off > 0 {
        f.write_all(&vec![7u8; off]).unwrap();
    }
    ix.write_index(&mut f).unwrap_or_else(|e| fail("save", format!("saving failed on a working medium: {}", e)));
    drop(f);
    let all = sim::quiet(|| std::fs::read(p)).unwrap();
    ensure(all.len() >= off && all[..off].iter().all(|x| *x == 7), "save", || "bytes in front of the index changed".into());
    all[off..].to_vec()
}

// ------------------------------------------------------------------ C12
fn gen_c12(r: &mut Rng) -> Value {
    let hand = r.chance(0.45);
    let mut data = gen_data(r, 0, 200);
    data["n"] = json!(gen_n(r, 200));
    let mut cfg = gen_cfg(r);
    cfg["ms"] = json!(r.small(1, 30));
    cfg["progress"] = json!(false);
    if r.chance(0.05) {
        cfg["nn"] = json!(r.range(100, 254));
        data["n"] = json!(r.range(100, 300));
        cfg["ms"] = json!(300);
        cfg["reins"] = json!(false);
    }
    json!({"kind": gen_kind(r), "data": data, "cfg": cfg, "workers": r.range(1, 3), "hand": if hand { gen_hand(r) } else { Value::Null },
        "io": gen_io(r), "shift": r.below(9), "off": r.pick(&[0usize, 0, 1, 8, 1000, 5000, 9000]),
        "over": r.chance(0.3), "base": r.pick(&[0u64, 0, (1 << 32) - 3000, (1 << 40) + 17, 1 << 62]), "via": r.pick(&["dev", "dev", "file"]),
        "load": r.pick(&["bytes", "bytes", "mmap", "builder", "builder_file"]), "queries": r.range(0, 3)})
}
fn same_graph(ix: &dyn LayerView, want: &G, what: &str) {
    sim::quiet(|| must(G::of(ix).sets().diff(want).map(|d| format!("{}: {}", what, d)), "graph"))
}
/// save `ix`, load it as asked, compare, save the loaded one, compare bytes
fn round_trip<K: Kind>(s: &Value, ix: &impl Index, els: &K::C, cfg: &Cfg, want: &G) -> Option<Granne<'static, K::C>> {
    io::plan(&s["io"]);
    let off = u(s, "off");
    let save = |ix: &dyn Fn(bool) -> Vec<u8>| ix(s["via"] == "file");
    let bytes = save(&|file| {
        if file {
            file_save(ix, &path("a"), off)
        } else {
            let mut d = dev_save(ix, off);
            if b(s, "over") {
                // once more, onto older content
                count("overwritten_content");
                let len = d.data.len();
                let mut o = Dev { data: vec![0x5A; len + 700], base: s["base"].as_u64().unwrap_or(0), ..Dev::new("index", off) };
                ix.write_index(&mut o).unwrap_or_else(|e| fail("save", format!("saving failed on a working medium: {}", e)));
                ensure(o.data[..off].iter().all(|x| *x == 0x5A), "save", || "bytes in front of the index changed".into());
                ensure(o.data[off..len] == d.data[off..], "overwrite", || "an index written over older content differs from one written to an empty file".into());
                o.data[..off].fill(0xA5);
                o.data.truncate(len);
                d = o;
            }
            ensure(d.data[..off].iter().all(|x| *x == 0xA5), "save", || "bytes in front of the index changed".into());
            d.data[off..].to_vec()
        }
    });
    let len = want.len();
    let head = |n: usize, l: usize| {
        ensure(n == len, "graph", || format!("{} elements after loading, {} before", n, len));
        ensure(l == want.0.len(), "graph", || format!("{} layers after loading, {} before", l, want.0.len()));
    };
    let resave = |b: Vec<u8>| ensure(b == bytes, "rewrite", || format!("writing the loaded index gives different bytes ({} vs {})", b.len(), bytes.len()));
    match s["load"].as_str().unwrap_or("bytes") {
        "builder" | "builder_file" => {
            let bu = if s["load"] == "builder" {
                GranneBuilder::from_bytes(cfg.build(), &Buf::new(&bytes, u(s, "shift")), els.clone())
            } else {
                sim::quiet(|| std::fs::write(path("b"), &bytes)).unwrap();
                let f = File::open(path("b")).unwrap();
                GranneBuilder::from_file(cfg.build(), &f, els.clone()).unwrap_or_else(|e| fail("load", e.to_string()))
            };
            head(bu.len(), bu.num_layers());
            same_graph(&bu, want, "loaded into a builder");
            resave(dev_save(&bu, 0).data);
            let b: &'static GranneBuilder<K::C> = Box::leak(Box::new(bu));
            Some(b.get_index().to_owned())
        }
        l => {
            let ix = if l == "mmap" {
                sim::quiet(|| std::fs::write(path("b"), &bytes)).unwrap();
                let f = File::open(path("b")).unwrap();
                unsafe { Granne::from_file(&f, els.clone()) }.unwrap_or_else(|e| fail("load", e.to_string()))
            } else {
                count(if u(s, "shift") % 8 == 0 { "process_restart" } else { "unaligned_load" });
                let b: &'static Buf = Box::leak(Box::new(Buf::new(&bytes, u(s, "shift"))));
                Granne::from_bytes(b, els.clone())
            };
            head(ix.len(), ix.num_layers());
            same_graph(&ix, want, "loaded");
            resave(dev_save(&ix, 0).data);
            resave(file_save(&ix, &path("c"), 0));
            Some(ix)
        }
    }
}
fn run_c12<K: Kind>(s: &Value) {
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    if s["hand"].is_object() {
        // an index with arbitrary content, loaded from the documented format
        let h = hand_graph(&s["hand"]);
        let want = to_g(&h);
        let els = sim::quiet(|| K::make(&d, 0));
        let bytes: &'static Buf = Box::leak(Box::new(Buf::new(&encode_index(&h), u(s, "shift"))));
        let first = Granne::from_bytes(bytes, els.clone());
        same_graph(&first, &want, "read from an index file");
        // a builder must be able to hold the lists
        let mut cfg = cfg;
        cfg.nn = 254;
        let _ = round_trip::<K>(s, &first, &els, &cfg, &want);
        return;
    }
    pool(u(s, "workers").max(1));
    let els = sim::quiet(|| K::make(&d, d.n));
    let mut bu = GranneBuilder::new(cfg.build(), els.clone());
    bu.build();
    let want = sim::quiet(|| G::of(&bu).sets());
    if let Some(ix) = round_trip::<K>(s, &bu, &els, &cfg, &want) {
        sim::quiet(|| {
            let orig = bu.get_index();
            for q in 0..u(s, "queries") {
                let e = K::query(&d, q);
                let n = d.n.max(1);
                for (ms, k) in [(1, 1), (5, 3), (n, n)] {
                    if ms == n || (d.zeros == 0.0 && d.dups == 0.0) {
                        must(same_answer(&ix.search(&e, ms, k), &orig.search(&e, ms, k)), "search");
                    }
                }
            }
        });
    }
}
pub const C12: Prop = Prop {
    id: "C12",
    gen: gen_c12,
    run: |s| by_kind!(s, run_c12),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "complete comparison of every layer and list with an in-memory model, byte comparison of rewritten files, under short and interrupted I/O",
    rule: "One run = one index (built, or handcrafted with arbitrary lists and 32-bit ids in the documented format) saved to a simulated device or file at some offset with short/interrupted writes, loaded (bytes at any alignment, mapped, builder), compared, searched and saved again.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------------ C13
fn gen_c13(r: &mut Rng) -> Value {
    let mut data = gen_data(r, 0, 150);
    let what = r.pick(&["index", "index", "loaded", "elements", "embeddings", "rw", "rw", "rwfiles"]);
    if what == "elements" || what == "embeddings" {
        data["n"] = json!(r.small(0, 800));
    }
    let mut cfg = gen_cfg(r);
    cfg["ms"] = json!(r.small(1, 30));
    cfg["progress"] = json!(false);
    let mut op = r.pick(&["write", "write", "write", "seek", "flush"]);
    if what == "rwfiles" && r.chance(0.3) {
        op = r.pick(&["open", "sync"]);
    }
    let err = if op == "write" { r.pick(&["EIO", "ENOSPC", "ZERO", "EIO"]) } else { "EIO" };
    json!({"kind": gen_kind(r), "data": data, "cfg": cfg, "what": what, "via": r.pick(&["dev", "file"]),
        "op": op, "err": err, "at": r.below(1001), "last": r.chance(0.3), "sticky": r.chance(0.5), "io": gen_io(r), "threads": r.range(1, 3),
        "dest": if r.chance(0.4) { json!(r.below(2)) } else { Value::Null }})
}
/// Runs `save` on healthy storage first, then with one fault at some operation, then healed.
fn faulty(s: &Value, save: &mut dyn FnMut() -> std::io::Result<Vec<Vec<u8>>>) {
    io::plan(&json!({}));
    let want = save().unwrap_or_else(|e| fail("save", format!("saving failed on a working medium: {}", e)));
    let op = io::OPS.iter().find(|o| o.0 == s["op"]).map_or(Op::Write, |o| o.1);
    // some operation of this kind, often the last one, sometimes one that never comes; anywhere or
    // with only one of the destinations failing
    let faults = io::place(s);
    let mut plan = s["io"].clone();
    if op == Op::Write && b(s, "last") {
        // operations are only counted the same way without short transfers
        plan = json!({});
    }
    plan["faults"] = faults;
    io::plan(&plan);
    let r = save();
    let fired = io::fired();
    match &r {
        Ok(got) => {
            ensure(got == &want, "silent-failure", || {
                let l = |v: &Vec<Vec<u8>>| v.iter().map(|x| x.len()).collect::<Vec<_>>();
                format!("saving returned success although {} faults hit it; bytes written {:?}, complete {:?}", fired, l(got), l(&want))
            });
        }
        Err(e) => ensure(fired > 0, "spurious-error", || format!("saving failed without a fault: {}", e)),
    }
    // the medium works again
    io::plan(&json!({"short_p": s["io"]["short_p"], "eintr_p": s["io"]["eintr_p"]}));
    match save() {
        Ok(got) => ensure(got == want, "retry", || "saving again after a failure gives different content".into()),
        Err(e) => fail("retry", format!("saving again after a failure: {}", e)),
    }
}
fn run_c13<K: Kind>(s: &Value) {
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    let file = s["via"] == "file";
    pool(1);
    let what = s["what"].as_str().unwrap();
    if what == "rw" || what == "rwfiles" {
        if d.n > 60 {
            skip()
        }
        let mut c = cfg;
        c.exp = None;
        let rb = RwGranneBuilder::new(GranneBuilder::new(c.build(), sim::quiet(|| K::make(&d, d.n / 2))), d.n.max(1) + 1, 1);
        for i in d.n / 2..d.n {
            rb.insert(K::internal(&d, i));
        }
        faulty(s, &mut || {
            if what == "rw" {
                let (mut i, mut e) = (Dev::new("i", 0), Dev::new("e", 0));
                rb.write(&mut i, &mut e)?;
                Ok(vec![i.data, e.data])
            } else {
                rb.save_index_and_elements_to_disk(&path("i"), &path("e"))?;
                sim::quiet(|| Ok(vec![std::fs::read(path("i"))?, std::fs::read(path("e"))?]))
            }
        });
        ensure(rb.len() == d.n, "changed", || "the builder changed".into());
        ensure(rb.insert(K::internal(&d, d.n)) == Some(d.n), "changed", || "the builder does not accept elements after a failed save".into());
        return;
    }
    let els = sim::quiet(|| K::make(&d, d.n));
    fn with_dest(file: bool, f: &mut dyn FnMut(&mut Dest) -> std::io::Result<()>) -> std::io::Result<Vec<Vec<u8>>> {
        if file {
            let mut t = Dest::F(sim::quiet(|| File::create(path("x"))).unwrap());
            f(&mut t)?;
            drop(t);
            Ok(vec![sim::quiet(|| std::fs::read(path("x"))).unwrap()])
        } else {
            let mut t = Dest::D(Dev::new("x", 0));
            f(&mut t)?;
            match t {
                Dest::D(d) => Ok(vec![d.data]),
                _ => unreachable!(),
            }
        }
    }
    match what {
        "elements" => faulty(s, &mut || {
            with_dest(file, &mut |t| {
                els.write(t)?;
                Ok(())
            })
        }),
        "embeddings" => {
            let e = sum_base(&d);
            faulty(s, &mut || {
                with_dest(file, &mut |t| {
                    e.write_embeddings(t)?;
                    Ok(())
                })
            })
        }
        _ => {
            let mut bu = GranneBuilder::new(cfg.build(), els);
            sim::quiet(|| ());
            bu.build();
            let g = sim::quiet(|| G::of(&bu));
            if what == "loaded" {
                let bytes = save_index(&bu);
                let ix = Granne::from_bytes(&bytes, bu.get_elements().clone());
                faulty(s, &mut || with_dest(file, &mut |t| ix.write_index(t)));
                sim::quiet(|| must(G::of(&ix).sets().diff(&g.sets()), "changed"));
            } else {
                faulty(s, &mut || with_dest(file, &mut |t| bu.write_index(t)));
                sim::quiet(|| must(G::of(&bu).diff(&g), "changed"));
            }
        }
    }
}
enum Dest {
    F(File),
    D(Dev),
}
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self {
            Dest::F(f) => f.write(b),
            Dest::D(d) => d.write(b),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        match self {
            Dest::F(f) => f.flush(),
            Dest::D(d) => d.flush(),
        }
    }
}
impl std::io::Seek for Dest {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        match self {
            Dest::F(f) => f.seek(p),
            Dest::D(d) => d.seek(p),
        }
    }
}
pub const C13: Prop = Prop {
    id: "C13",
    gen: gen_c13,
    run: |s| by_kind!(s, run_c13),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "every save operation under a fault at a random (often the last) write, seek or flush; success is compared byte for byte with a fault-free save",
    rule: "One run = one save operation (index, loaded index, elements, embeddings, concurrent builder to devices or files) executed healthy, with one (possibly persistent) fault, and again healed.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------------ C14
fn gen_c14(r: &mut Rng) -> Value {
    let mut data = gen_data(r, 0, 150);
    let what = r.pick(&["index", "index", "loaded", "rw", "rw", "rwfiles", "rwagain", "rwtwice"]);
    if what.starts_with("rw") {
        data["n"] = json!(r.small(0, 60));
    }
    let mut cfg = gen_cfg(r);
    cfg["ms"] = json!(r.small(1, 30));
    cfg["progress"] = json!(false);
    json!({"kind": gen_kind(r), "data": data, "cfg": cfg, "what": what, "io": gen_io(r), "via": r.pick(&["dev", "file"]), "first": r.below(101),
        "crash": (0..r.range(4, 12)).map(|_| {
            let (at, x) = (r.below(1001), r.below(1001));
            json!([at, r.pick(&[Value::Null, json!(x)])])
        }).collect::<Vec<_>>()})
}
/// what is left at a crash after part of the trace
fn crash_points(s: &Value, t: &[Trace]) -> Vec<(usize, Option<usize>)> {
    let mut v: Vec<(usize, Option<usize>)> = vec![];
    let n = t.len();
    for c in s["crash"].as_array().unwrap() {
        let at = c[0].as_u64().unwrap_or(0) as usize;
        let ops = (n * at.min(1000) + 999) / 1000;
        let torn = match (c[1].as_u64(), ops.checked_sub(1).map(|k| &t[k])) {
            (Some(x), Some(Trace::Write(_, _, d))) => Some(d.len() * x.min(1000) as usize / 1000),
            _ => None,
        };
        v.push((ops, torn));
    }
    // and everything near the end, where a file starts to look complete
    for k in 0..5 {
        if n >= k {
            v.push((n - k, None));
            if n > k {
                if let Trace::Write(_, _, d) = &t[n - k - 1] {
                    for x in [1, d.len() / 2, d.len().saturating_sub(1)] {
                        v.push((n - k, Some(x)));
                    }
                }
            }
        }
    }
    v
}
fn run_c14<K: Kind>(s: &Value) {
    let d = Data::of(&s["data"]);
    let cfg = Cfg::of(&s["cfg"]);
    pool(1);
    io::plan(&s["io"]);
    let what = s["what"].as_str().unwrap();
    let els = sim::quiet(|| K::make(&d, d.n));
    let (iname, ename, trace);
    // what may be left behind: the index and, for the combined saves, the elements file that belongs to it
    let mut wants: Vec<(G, Vec<u8>)> = vec![];
    // operations of an earlier save
    let mut base = 0;
    if what.starts_with("rw") {
        if d.n > 60 {
            skip()
        }
        let mut c = cfg;
        c.exp = None;
        let rb = RwGranneBuilder::new(GranneBuilder::new(c.build(), sim::quiet(|| K::make(&d, d.n / 2))), d.n.max(1), 1);
        iname = if what == "rw" { "i".to_string() } else { path("i") };
        ename = if what == "rw" { "e".to_string() } else { path("e") };
        let mut snap = || {
            let (mut i0, mut e0) = (Dev::default(), Dev::default());
            rb.write(&mut i0, &mut e0).unwrap();
            let buf: &'static Buf = Box::leak(Box::new(aligned(&i0.data)));
            wants.push((sim::quiet(|| G::of(&Granne::from_bytes(buf, els.clone()))), e0.data));
        };
        let save = || rb.save_index_and_elements_to_disk(&iname, &ename).unwrap_or_else(|e| fail("save", e.to_string()));
        let first = if what == "rwagain" { d.n / 2 + (d.n - d.n / 2) * u(s, "first").min(100) / 100 } else { d.n };
        for i in d.n / 2..first {
            rb.insert(K::internal(&d, i));
        }
        if what == "rwagain" {
            // over what an earlier save has left
            snap();
            io::io().trace = Some(vec![]);
            save();
            base = io::io().trace.as_ref().unwrap().len();
            for i in first..d.n {
                rb.insert(K::internal(&d, i));
            }
        }
        let trace_so_far = io::io().trace.take();
        snap();
        io::io().trace = Some(trace_so_far.unwrap_or_default());
        match what {
            "rw" => rb.write(&mut Dev::new("i", 0), &mut Dev::new("e", 0)).unwrap_or_else(|e| fail("save", e.to_string())),
            "rwtwice" => std::thread::scope(|t| {
                // two threads that save to the same place at the same time
                t.spawn(save);
                save();
            }),
            _ => save(),
        }
        trace = io::io().trace.take().unwrap();
    } else {
        let mut bu = GranneBuilder::new(cfg.build(), els.clone());
        bu.build();
        wants.push((sim::quiet(|| G::of(&bu).sets()), vec![]));
        let bytes = save_index(&bu);
        let ix = Granne::from_bytes(&bytes, els.clone());
        iname = if s["via"] == "file" { path("i") } else { "i".to_string() };
        ename = String::new();
        io::io().trace = Some(vec![]);
        let r = match (s["via"] == "file", what == "loaded") {
            (true, true) => File::create(&iname).and_then(|mut f| ix.write_index(&mut f)),
            (true, false) => File::create(&iname).and_then(|mut f| bu.write_index(&mut f)),
            (false, true) => ix.write_index(&mut Dev::new("i", 0)),
            (false, false) => bu.write_index(&mut Dev::new("i", 0)),
        };
        r.unwrap_or_else(|e| fail("save", e.to_string()));
        trace = io::io().trace.take().unwrap();
    }
    sim::quiet(|| {
        let full = io::image(&trace, trace.len(), None);
        for (ops, torn) in crash_points(s, &trace[base..]) {
            let ops = base + ops;
            count("crash_point");
            if torn.is_some() {
                count("torn_write");
            }
            let img = io::image(&trace, ops, torn);
            let Some(ib) = img.get(&iname) else { continue };
            let buf: &'static Buf = Box::leak(Box::new(aligned(ib)));
            let loaded = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Granne::from_bytes(buf, els.clone()))).ok();
            let mapped = {
                std::fs::write(path("crashed"), ib).unwrap();
                let f = File::open(path("crashed")).unwrap();
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { Granne::from_file(&f, els.clone()) })).ok().and_then(|x| x.ok())
            };
            for ix in [loaded, mapped].into_iter().flatten() {
                // accepted: then it has to be a saved index
                let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| G::of(&ix)));
                let at = || {
                    let cut = torn.map_or(String::new(), |t| format!(", the last one cut to {} bytes", t));
                    let again = if base > 0 { " of the second save" } else { "" };
                    format!("crash after {} of {} operations{}{}", ops - base, trace.len() - base, again, cut)
                };
                let Ok(g) = g else { fail("partial-accepted", format!("{}: the file loads but cannot be read", at())) };
                let g = g.sets();
                let mut problem = None;
                let fits = wants.iter().any(|(want, e)| {
                    if let Some(x) = g.diff(&want.clone().sets()) {
                        problem.get_or_insert(("partial-accepted", format!("{}: the file loads as a different index: {}", at(), x)));
                        return false;
                    }
                    if !ename.is_empty() && img.get(&ename) != Some(e) {
                        let is = img.get(&ename).map_or(0, |x| x.len());
                        problem = Some(("elements-missing", format!("{}: the index loads, but the elements file is not the one that belongs to it ({} bytes, {} expected)", at(), is, e.len())));
                        return false;
                    }
                    true
                });
                checked(1);
                if let (false, Some((class, text))) = (fits, problem) {
                    fail(class, text)
                }
            }
        }
        // the complete files load
        let buf: &'static Buf = Box::leak(Box::new(aligned(&full[&iname])));
        must(G::of(&Granne::from_bytes(buf, els.clone())).sets().diff(&wants.last().unwrap().0.clone().sets()), "graph");
        if !ename.is_empty() {
            let e = K::load(&d, &full[&ename]);
            check_elements::<K>(&e, &d, d.n);
        }
    });
}
pub const C14: Prop = Prop {
    id: "C14",
    gen: gen_c14,
    run: |s| by_kind!(s, run_c14),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "disk images at random and at all late crash points (also inside a write) loaded and compared with the saved index",
    rule: "One run = one traced save (index, loaded index, concurrent builder) on a disk with short/interrupted writes; 25 or more crash images of it are loaded from bytes and mapped.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------------ C15
fn gen_c15(r: &mut Rng) -> Value {
    let mut data = gen_data(r, 0, 300);
    data["n"] = json!(gen_n(r, 300));
    let mut ops = vec![];
    for _ in 0..r.range(1, 7) {
        ops.push(match r.below(8) {
            0 => json!(["push", r.range(1, 5)]),
            1 => json!([r.pick(&["push", "extend"]), r.range(0, 5)]),
            2 => json!(["permute", r.next() >> 20]),
            3 => json!(["map"]),
            4 => json!(["bytes", r.below(9)]),
            5 => json!([r.pick(&["clone", "rebuild"]), r.below(4)]),
            6 => json!([r.pick(&["mapfail", "advfail", "emptyfile"])]),
            _ => json!(["dist"]),
        });
    }
    let mut kind = gen_kind(r);
    if r.chance(0.01) {
        // ids of words beyond two bytes
        kind = "sum";
        data["vocab"] = json!(r.range(65_530, 66_500));
        data["dim"] = json!(r.range(1, 2));
    } else if r.chance(0.01) {
        data["n"] = json!(r.range(300, 3000));
    } else if r.chance(0.002) {
        // more than a few of the pieces that are worked on in parallel
        kind = r.pick(&["sum", "sum", "f32"]);
        data["n"] = json!(r.range(20_000, 75_000));
        data["dim"] = json!(1);
        ops = vec![json!(["permute", r.next() >> 20])];
    }
    json!({"kind": kind, "data": data, "io": gen_io(r), "ops": ops})
}
/// What C15 needs from a container, for the three kinds.
pub trait Store: Kind {
    fn save(c: &Self::C, d: &Data) -> usize;
    fn load_file() -> std::io::Result<Self::C>;
    fn load_bytes(d: &Data, b: &'static [u8]) -> Self::C;
    fn shape(c: &Self::C, d: &Data, n: usize);
    /// the same elements by way of another constructor
    fn rebuild(c: Self::C, _how: usize) -> Self::C {
        c
    }
    /// adds these elements all at once, if that is possible
    fn extend(c: &mut Self::C, d: &Data, more: &[usize]) {
        more.iter().for_each(|x| c.push(Self::internal(d, *x)))
    }
}
fn write_counted(p: &str, f: &mut dyn FnMut(&mut Dest) -> std::io::Result<usize>) -> usize {
    // to a new file (an old one may still be mapped), and to a device behind other content
    let _ = sim::quiet(|| std::fs::remove_file(p));
    let mut t = Dest::F(sim::quiet(|| File::create(p)).unwrap());
    let n = f(&mut t).unwrap_or_else(|e| fail("save", format!("saving failed on a working medium: {}", e)));
    drop(t);
    let file = sim::quiet(|| std::fs::read(p)).unwrap();
    ensure(file.len() == n, "byte-count", || format!("{} bytes reported, {} written", n, file.len()));
    let mut t = Dest::D(Dev::new("x", 13));
    let n2 = f(&mut t).unwrap_or_else(|e| fail("save", format!("saving failed on a working medium: {}", e)));
    if let Dest::D(d) = t {
        ensure(d.data[13..] == file[..] && n2 == n, "save", || "saving twice gives different bytes".into());
    }
    n
}
macro_rules! vec_store {
    ($k:ty, $m:ident) => {
        impl Store for $k {
            fn save(c: &Self::C, _: &Data) -> usize {
                write_counted(&path("el"), &mut |t| c.0.write(t))
            }
            fn load_file() -> std::io::Result<Self::C> {
                let f = File::open(path("el"))?;
                Ok(SimEl(unsafe { granne::$m::Vectors::from_file(&f)? }))
            }
            fn load_bytes(_: &Data, b: &'static [u8]) -> Self::C {
                SimEl(granne::$m::Vectors::from_bytes(b))
            }
            fn rebuild(c: Self::C, how: usize) -> Self::C {
                if c.0.len() == 0 {
                    return c;
                }
                let dim = c.0.dim();
                SimEl(match how {
                    0 => granne::$m::Vectors::from_vec(c.0.as_slice().to_vec(), dim),
                    1 => granne::$m::Vectors::from_slice(Box::leak(c.0.as_slice().to_vec().into_boxed_slice()), dim),
                    2 => c.0.into_owned(),
                    _ => {
                        let v: &'static granne::$m::Vectors = Box::leak(Box::new(c.0));
                        v.borrow()
                    }
                })
            }
            fn extend(c: &mut Self::C, d: &Data, more: &[usize]) {
                let v: granne::$m::Vectors = more.iter().map(|x| Self::internal(d, *x)).collect();
                let shown = v.clone();
                c.0.extend(shown.borrow())
            }
            fn shape(c: &Self::C, d: &Data, n: usize) {
                ensure(c.0.len() == n, "elements", || format!("{} elements instead of {}", c.0.len(), n));
                ensure(ElementContainer::is_empty(&c.0) == (n == 0), "elements", || format!("is_empty with {} elements", n));
                if n > 0 {
                    ensure(c.0.dim() == d.dim, "elements", || format!("{} dimensions instead of {}", c.0.dim(), d.dim));
                    ensure(c.0.as_slice().len() == n * d.dim, "elements", || "wrong amount of data".into());
                }
            }
        }
    };
}
vec_store!(F32, angular);
vec_store!(I8, angular_int);
impl Store for Sum {
    fn save(c: &Self::C, _: &Data) -> usize {
        write_counted(&path("emb"), &mut |t| c.0.write_embeddings(t));
        write_counted(&path("el"), &mut |t| c.0.write(t))
    }
    fn load_file() -> std::io::Result<Self::C> {
        let (f, g) = (File::open(path("emb"))?, File::open(path("el"))?);
        Ok(SimEl(unsafe { SumEmbeddings::from_files(&f, Some(&g))? }))
    }
    fn load_bytes(d: &Data, b: &'static [u8]) -> Self::C {
        let e = SumEmbeddings::from_bytes(Default::default(), b);
        let mut s = e.clone();
        drop(e);
        for w in 0..d.vocab() {
            s.push_embedding(&d.word_vec(w));
        }
        SimEl(s)
    }
    fn shape(c: &Self::C, d: &Data, n: usize) {
        ensure(c.0.len() == n && ElementContainer::len(&c.0) == n, "elements", || format!("{} elements instead of {}", c.0.len(), n));
        ensure(ElementContainer::is_empty(&c.0) == (n == 0), "elements", || format!("is_empty with {} elements", n));
        ensure(c.0.num_embeddings() == d.vocab(), "elements", || format!("{} embeddings instead of {}", c.0.num_embeddings(), d.vocab()));
    }
}
fn run_c15<K: Store>(s: &Value) {
    let d = Data::of(&s["data"]);
    pool(1);
    io::plan(&s["io"]);
    let calm = json!({"short_p": s["io"]["short_p"], "eintr_p": s["io"]["eintr_p"]});
    let mut c = sim::quiet(|| K::make(&d, d.n));
    let mut model: Vec<usize> = (0..d.n).collect();
    let mut next = d.n;
    let verify = |c: &K::C, model: &[usize]| {
        sim::quiet(|| {
            K::shape(c, &d, model.len());
            for (i, &x) in model.iter().enumerate() {
                ensure(K::content(c, i) == K::expect(&d, x), "elements", || format!("element {} is not the one put there", i));
            }
        })
    };
    let save = |c: &K::C| {
        K::save(c, &d);
        sim::quiet(|| std::fs::read(path("el"))).unwrap()
    };
    let mut on_disk = save(&c);
    let mut mapped = false;
    let mut ops: Vec<Value> = s["ops"].as_array().unwrap().clone();
    ops.push(json!(["map"]));
    ops.push(json!(["dist"]));
    for op in &ops {
        let a = op[1].as_u64().unwrap_or(0) as usize;
        match op[0].as_str().unwrap_or("") {
            "push" => {
                for _ in 0..a.min(20) {
                    c.push(K::internal(&d, next));
                    model.push(next);
                    next += 1;
                }
            }
            "rebuild" => c = K::rebuild(c, a),
            "extend" => {
                let more: Vec<usize> = (next..next + a.min(20)).collect();
                next += more.len();
                K::extend(&mut c, &d, &more);
                model.extend(more);
            }
            "permute" => {
                let mut p: Vec<usize> = (0..model.len()).collect();
                Rng::new(a as u64).shuffle(&mut p);
                c.permute(&p);
                model = p.iter().map(|&i| model[i]).collect();
            }
            "map" => {
                on_disk = save(&c);
                io::plan(&calm);
                c = K::load_file().unwrap_or_else(|e| fail("load", e.to_string()));
                mapped = true;
            }
            "bytes" => {
                on_disk = save(&c);
                let buf: &'static Buf = Box::leak(Box::new(Buf::new(&on_disk, a)));
                count(if a % 8 == 0 { "process_restart" } else { "unaligned_load" });
                c = K::load_bytes(&d, buf);
            }
            "clone" => c = c.clone(),
            "mapfail" | "advfail" => {
                on_disk = save(&c);
                let op = if op[0] == "mapfail" { "mmap" } else { "madvise" };
                io::plan(&json!({"faults": [{"op": op, "nth": a % 2, "err": "ENOMEM", "sticky": true}]}));
                let r = K::load_file();
                if op == "mmap" && io::fired() > 0 {
                    ensure(r.is_err(), "load", || "a file that cannot be mapped was loaded".into());
                }
                if let Ok(c) = &r {
                    verify(c, &model);
                }
                drop(r);
                io::plan(&calm);
            }
            "emptyfile" => {
                let keep = save(&c);
                drop(sim::quiet(|| File::create(path("el"))).unwrap());
                ensure(K::load_file().is_err(), "load", || "an empty file was loaded".into());
                sim::quiet(|| std::fs::write(path("el"), &keep)).unwrap();
                on_disk = keep;
                mapped = false;
                c = K::load_file().unwrap_or_else(|e| fail("load", e.to_string()));
            }
            "dist" => sim::quiet(|| {
                let fresh = {
                    let mut f = K::empty(&d);
                    for &x in &model {
                        f.push(K::internal(&d, x));
                    }
                    f
                };
                let q = K::query(&d, a);
                let idx: Vec<usize> = (0..model.len().min(12)).collect();
                for &i in &idx {
                    let x = c.dist_to_element(i, &q).into_inner();
                    ensure(x.to_bits() == fresh.dist_to_element(i, &q).into_inner().to_bits(), "distance", || format!("distance of element {} differs from the same collection built in memory", i));
                    ensure(c.dists(i, &idx) == fresh.dists(i, &idx), "distance", || format!("distances of element {} differ from the same collection built in memory", i));
                }
            }),
            _ => {}
        }
        verify(&c, &model);
        let now = sim::quiet(|| std::fs::read(path("el"))).unwrap();
        ensure(now == on_disk, "file-changed", || format!("the file changed on disk (mapped: {})", mapped));
    }
    save(&c);
}
pub const C15: Prop = Prop {
    id: "C15",
    gen: gen_c15,
    run: |s| by_kind!(s, run_c15),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "model of the collection compared bit for bit after every step of random save/map/load/push/permute histories with I/O faults",
    rule: "One run = one history of pushes, permutations, saves with short/interrupted writes, loads (mapped, from bytes at any alignment) and mapping failures on one collection.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------------ C32
/// Files as earlier releases with the same serialization version wrote them, from an encoder of that format that
/// shares no code with the library.
pub trait Release: Store {
    fn files(d: &Data, n: usize) -> Vec<(&'static str, Vec<u8>)>;
}
impl Release for F32 {
    fn files(d: &Data, n: usize) -> Vec<(&'static str, Vec<u8>)> {
        let data: Vec<u8> = (0..n).flat_map(|i| Self::expect(d, i)).collect();
        vec![("el", encode_fixed(if n == 0 { 0 } else { d.dim }, &data))]
    }
}
impl Release for I8 {
    fn files(d: &Data, n: usize) -> Vec<(&'static str, Vec<u8>)> {
        let data: Vec<u8> = (0..n).flat_map(|i| Self::expect(d, i)).collect();
        vec![("el", encode_fixed(if n == 0 { 0 } else { d.dim }, &data))]
    }
}
impl Release for Sum {
    fn files(d: &Data, n: usize) -> Vec<(&'static str, Vec<u8>)> {
        let words: Vec<u8> = (0..d.vocab()).flat_map(|w| bytes_f32(&d.word_vec(w))).collect();
        let lists: Vec<Vec<usize>> = (0..n).map(|i| d.words(i)).collect();
        vec![("emb", encode_fixed(d.dim, &words)), ("el", encode_lists(&lists))]
    }
}
fn gen_c32(r: &mut Rng) -> Value {
    let mut data = gen_data(r, 0, 150);
    data["n"] = json!(gen_n(r, 150));
    let wild = r.chance(0.4);
    let mut kind = gen_kind(r);
    if r.chance(0.01) {
        kind = "sum";
        data["vocab"] = json!(r.range(65_530, 66_500));
        data["dim"] = json!(r.range(1, 2));
    }
    json!({"kind": kind, "data": data, "hand": if wild { gen_hand(r) } else { Value::Null }, "lists": r.next() >> 20, "layers": r.range(1, 4),
        "version": r.pick(&["0.2.0", "0.3.1", "0.4.2", "0.5.0", "0.5.1", "0.5.2"]), "style": r.below(3), "io": gen_io(r), "shift": r.below(9),
        "tail": r.chance(0.3), "push": r.below(4), "queries": r.range(1, 3), "workers": r.range(1, 3)})
}
/// layers over the first elements, every node linked along a ring and to random others
fn linked_graph(s: &Value, n: usize) -> Vec<Vec<Vec<u32>>> {
    let mut r = Rng::new(s["lists"].as_u64().unwrap_or(1));
    let mut sizes = vec![n];
    while sizes.len() < u(s, "layers") && *sizes.last().unwrap() > 1 {
        sizes.push(r.range(1, *sizes.last().unwrap() - 1));
    }
    sizes.reverse();
    if n == 0 {
        return vec![];
    }
    sizes
        .iter()
        .map(|&m| {
            (0..m)
                .map(|i| {
                    let mut v: Vec<u32> = (0..r.below(8)).map(|_| r.below(m) as u32).collect();
                    v.push(((i + 1) % m) as u32);
                    v.retain(|&x| x as usize != i);
                    v.sort();
                    v.dedup();
                    v
                })
                .collect()
        })
        .collect()
}
fn run_c32<K: Release>(s: &Value) {
    let d = Data::of(&s["data"]);
    pool(u(s, "workers").max(1));
    let wild = s["hand"].is_object();
    let h = if wild { hand_graph(&s["hand"]) } else { linked_graph(s, d.n) };
    let want = to_g(&h);
    let index = encode_release(&h, s["version"].as_str().unwrap_or("0.5.0"), u(s, "style"));
    sim::quiet(|| {
        for (f, b) in K::files(&d, d.n) {
            std::fs::write(path(f), b).unwrap();
        }
        std::fs::write(path("ix"), &index).unwrap();
    });
    io::plan(&s["io"]);
    // the elements, mapped and from bytes
    let els = K::load_file().unwrap_or_else(|e| fail("load", format!("elements of an earlier release: {}", e)));
    let raw = sim::quiet(|| std::fs::read(path("el"))).unwrap();
    let copy = K::load_bytes(&d, Box::leak(Box::new(Buf::new(&raw, u(s, "shift")))));
    for c in [&els, &copy] {
        sim::quiet(|| K::shape(c, &d, d.n));
        check_elements::<K>(c, &d, d.n);
    }
    // the index, by every way of loading one
    let head = |n: usize, l: usize| {
        ensure(n == want.len() && l == want.0.len(), "graph", || format!("{} elements in {} layers, written: {} in {}", n, l, want.len(), want.0.len()))
    };
    let mut bytes = index.clone();
    if b(s, "tail") {
        // files may be followed by other data
        bytes.extend(vec![0x5A; 77]);
    }
    let buf: &'static Buf = Box::leak(Box::new(Buf::new(&bytes, u(s, "shift"))));
    let a = Granne::from_bytes(buf, els.clone());
    let m = {
        let f = File::open(path("ix")).unwrap();
        unsafe { Granne::from_file(&f, copy.clone()) }.unwrap_or_else(|e| fail("load", format!("index of an earlier release: {}", e)))
    };
    count("process_restart");
    for ix in [&a, &m] {
        head(ix.len(), ix.num_layers());
        same_graph(ix, &want, "read from a file of an earlier release");
    }
    let cfg = BuildConfig::new().num_neighbors(254).max_search(10).show_progress(false);
    let bu = {
        let f = File::open(path("ix")).unwrap();
        GranneBuilder::from_file(cfg, &f, els.clone()).unwrap_or_else(|e| fail("load", format!("index of an earlier release: {}", e)))
    };
    head(bu.len(), bu.num_layers());
    same_graph(&bu, &want, "read into a builder from a file of an earlier release");
    drop(bu);
    if !wild && d.n > 0 {
        // every node is reachable, so an exhaustive search has to find every element that is not a zero vector
        sim::quiet(|| {
            for q in 0..u(s, "queries") {
                let e = K::query(&d, q);
                let all = a.search(&e, d.n + 1, d.n + 1);
                must(same_answer(&all, &m.search(&e, d.n + 1, d.n + 1)), "search");
                let mut ids: Vec<usize> = all.iter().map(|x| x.0).collect();
                ids.sort();
                ensure(ids == (0..d.n).collect::<Vec<_>>(), "search", || format!("{} of {} elements found by an exhaustive search", ids.len(), d.n));
                for &(i, x) in &all {
                    let y = els.dist_to_element(i, &e).into_inner();
                    ensure(x.to_bits() == y.to_bits(), "search", || format!("distance of element {} is {}, not {}", i, x, y));
                }
            }
        });
    }
    // a mapped file of an earlier release is extended in memory
    let mut c = els;
    for i in 0..u(s, "push").min(20) {
        c.push(K::internal(&d, d.n + i));
    }
    check_elements::<K>(&c, &d, d.n + u(s, "push").min(20));
    sim::quiet(|| {
        for (f, b) in K::files(&d, d.n) {
            ensure(std::fs::read(path(f)).unwrap() == b, "file-changed", || format!("the file {} changed", f));
        }
        ensure(std::fs::read(path("ix")).unwrap() == index, "file-changed", || "the index file changed".into());
    });
}
pub const C32: Prop = Prop {
    id: "C32",
    gen: gen_c32,
    run: |s| by_kind!(s, run_c32),
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "files from an independent encoder of serialization version 2 loaded by every route under short and interrupted I/O, complete comparison with what was encoded",
    rule: "One run = one index (arbitrary lists, or a connected graph over the elements) and its elements, encoded by the harness as an earlier release wrote them (several versions and metadata layouts), put on the simulated disk, loaded mapped, from bytes at any alignment and into a builder, compared completely, searched and extended.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
