//! C33: the Python bindings.  A Python interpreter runs inside the simulated process, the module is the real one of
//! /repo/py, and every call is compared with the corresponding call of the Rust library.
use super::disk::{gen_io, Release};
use super::prelude::*;
use cpython::{ObjectProtocol, PyClone, PyDict, PyList, PyObject, PyString, PyTuple, Python, PythonObject, ToPyObject};
use granne::embeddings::{compute_keys_for_reordering, parsing, SumEmbeddings};
use granne::{angular, angular_int, Dist};
use std::fs::File;
use std::path::Path;

fn path(f: &str) -> String {
    format!("{}/{}", crate::driver::scratch(), f)
}
fn read(f: &str) -> Vec<u8> {
    sim::quiet(|| std::fs::read(path(f))).unwrap_or_default()
}
extern "C" {
    static mut Py_NoSiteFlag: libc::c_int;
    static mut Py_IsolatedFlag: libc::c_int;
    static mut Py_IgnoreEnvironmentFlag: libc::c_int;
    static mut Py_DontWriteBytecodeFlag: libc::c_int;
    fn Py_InitializeEx(signals: libc::c_int);
    fn PyImport_AppendInittab(name: *const libc::c_char, f: unsafe extern "C" fn() -> *mut cpython::_detail::ffi::PyObject) -> libc::c_int;
}

/// asked for by rust-cpython, gone since Python 3.12, where every string is ready (never called)
#[no_mangle]
pub extern "C" fn _PyUnicode_Ready(_: *mut libc::c_void) -> libc::c_int {
    0
}

#[derive(Clone, Copy)]
struct M {
    py: Python<'static>,
    m: &'static PyObject,
}
type Kw<'a> = Vec<(&'a str, PyObject)>;
fn start() -> M {
    sim::quiet(|| unsafe {
        Py_NoSiteFlag = 1;
        Py_IsolatedFlag = 1;
        Py_IgnoreEnvironmentFlag = 1;
        Py_DontWriteBytecodeFlag = 1;
        PyImport_AppendInittab(b"granne\0".as_ptr() as _, granne_py::PyInit_granne);
        Py_InitializeEx(0);
        let py = Python::assume_gil_acquired();
        let m = py.import("granne").unwrap_or_else(|e| fail("import", format!("{:?}", e)));
        M { py, m: Box::leak(Box::new(m.into_object())) }
    })
}
impl M {
    /// obj.name(args, **kw): the value, or the exception
    fn call(&self, obj: &PyObject, name: &str, args: Vec<PyObject>, kw: Kw) -> Result<PyObject, String> {
        let py = self.py;
        let t = PyTuple::new(py, &args);
        let d = PyDict::new(py);
        for (k, v) in &kw {
            d.set_item(py, *k, v).unwrap();
        }
        let kw = if kw.is_empty() { None } else { Some(&d) };
        checked(1);
        obj.call_method(py, name, t, kw).map_err(|e| {
            let mut e = e;
            format!("{}: {}", e.get_type(py).name(py), e.instance(py).str(py).ok().and_then(|s| s.to_string(py).ok().map(|x| x.to_string())).unwrap_or_default())
        })
    }
    fn ok(&self, obj: &PyObject, name: &str, args: Vec<PyObject>, kw: Kw) -> PyObject {
        self.call(obj, name, args, kw).unwrap_or_else(|e| fail("raised", format!("{} raised {} (last panic: {})", name, e, sh().get_panic())))
    }
    fn get<T: for<'a> cpython::FromPyObject<'a>>(&self, o: &PyObject, what: &str) -> T {
        o.extract(self.py).unwrap_or_else(|e| fail("type", format!("{} returned something of another type: {:?}", what, e)))
    }
    fn int(&self, obj: &PyObject, name: &str, args: Vec<PyObject>) -> usize {
        self.get(&self.ok(obj, name, args, vec![]), name)
    }
    fn v(&self, x: impl ToPyObject) -> PyObject {
        x.into_py_object(self.py).into_object()
    }
    fn none(&self) -> PyObject {
        self.py.None()
    }
    /// a vector as a list, a tuple or a list with whole numbers as ints
    fn floats(&self, v: &[f32], r: &mut Rng) -> PyObject {
        let py = self.py;
        let style = r.below(4);
        let items: Vec<PyObject> = v
            .iter()
            .map(|&x| if style == 2 && x.fract() == 0.0 && x.abs() < 1e6 { self.v(x as i64) } else { self.v(x as f64) })
            .collect();
        match style {
            0 => PyTuple::new(py, &items).into_object(),
            _ => PyList::new(py, &items).into_object(),
        }
    }
    /// the last arguments that are given, some of them by name
    fn split<'a>(&self, r: &mut Rng, all: Vec<(&'a str, PyObject)>) -> (Vec<PyObject>, Kw<'a>) {
        let k = r.below(all.len() + 1);
        let mut args = vec![];
        let mut kw = vec![];
        for (i, (n, v)) in all.into_iter().enumerate() {
            if i < k {
                args.push(v)
            } else {
                kw.push((n, v))
            }
        }
        r.shuffle(&mut kw);
        (args, kw)
    }
    fn refuse(&self, obj: &PyObject, name: &str, args: Vec<PyObject>, kw: Kw, what: &str) {
        if let Ok(v) = self.call(obj, name, args, kw) {
            let v = v.repr(self.py).ok().and_then(|s| s.to_string(self.py).ok().map(|x| x.to_string())).unwrap_or_default();
            fail("not-refused", format!("{}: {} returned {}", what, name, v))
        }
    }
}

fn word(d: &Data, i: usize) -> String {
    let mut r = Rng::new(mix(d.seed ^ mix(i as u64 + 5)));
    format!("{}{}", r.pick(&["w", "rust", "Ünï", "日本", "a.b", "\"q\"", "back\\slash", "😀", "1,", "{}"]), i)
}
fn words_file(d: &Data) -> Vec<u8> {
    (0..d.vocab()).flat_map(|i| format!("{}\n", json!(word(d, i))).into_bytes()).collect()
}
fn sentence(d: &Data, ids: &[usize], r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(0.2) {
        s.push_str(" ");
    }
    for (k, &i) in ids.iter().enumerate() {
        if k > 0 {
            s.push_str(r.pick(&[" ", " ", "  ", "\t", "\n"]));
        }
        if r.chance(0.1) {
            s.push_str("unknown ");
        }
        s.push_str(&word(d, i));
    }
    s
}

// what the scenario needs from the three kinds of element
pub trait PyKind: Release {
    const TYPE: &'static str;
    fn element(m: &M_, d: &Data, i: usize, r: &mut Rng) -> PyObject;
    fn query_py(m: &M_, d: &Data, c: &Self::C, q: usize, r: &mut Rng) -> (PyObject, Self::E);
    fn internal_text(d: &Data, i: usize) -> Option<String>;
    fn reorder(ix: &mut Granne<'static, Self::C>) -> Vec<usize>;
    fn no_elements(d: &Data) -> Self::C {
        Self::empty(d)
    }
}
#[allow(non_camel_case_types)]
type M_ = dyn PyCalls;
pub trait PyCalls {
    fn floats(&self, v: &[f32], r: &mut Rng) -> PyObject;
    fn text(&self, s: &str) -> PyObject;
}
impl PyCalls for M {
    fn floats(&self, v: &[f32], r: &mut Rng) -> PyObject {
        M::floats(self, v, r)
    }
    fn text(&self, s: &str) -> PyObject {
        PyString::new(self.py, s).into_object()
    }
}
macro_rules! vec_kind {
    ($k:ty, $n:expr) => {
        impl PyKind for $k {
            const TYPE: &'static str = $n;
            fn element(m: &M_, d: &Data, i: usize, r: &mut Rng) -> PyObject {
                m.floats(&d.raw(i), r)
            }
            fn query_py(m: &M_, d: &Data, _: &Self::C, q: usize, r: &mut Rng) -> (PyObject, Self::E) {
                (m.floats(&d.query(q), r), d.query(q).into())
            }
            fn internal_text(_: &Data, _: usize) -> Option<String> {
                None
            }
            fn reorder(ix: &mut Granne<'static, Self::C>) -> Vec<usize> {
                ix.reorder(false)
            }
        }
    };
}
vec_kind!(F32, "angular");
vec_kind!(I8, "angular_int");
impl PyKind for Sum {
    const TYPE: &'static str = "embeddings";
    fn element(m: &M_, d: &Data, i: usize, r: &mut Rng) -> PyObject {
        m.text(&sentence(d, &d.words(i), r))
    }
    fn query_py(m: &M_, d: &Data, c: &Self::C, q: usize, r: &mut Rng) -> (PyObject, Self::E) {
        if r.chance(0.3) {
            return (m.floats(&d.query(q), r), d.query(q).into());
        }
        let ids = d.words(5000 + q);
        let s = sentence(d, &ids, r);
        (m.text(&s), c.0.create_embedding(&ids).into())
    }
    fn internal_text(d: &Data, i: usize) -> Option<String> {
        Some(d.words(i).iter().map(|&w| word(d, w)).collect::<Vec<_>>().join(" "))
    }
    fn reorder(ix: &mut Granne<'static, Self::C>) -> Vec<usize> {
        let keys = compute_keys_for_reordering(&ix.get_elements().0);
        ix.reorder_by_keys(&keys, false)
    }
}

fn gen_fault(r: &mut Rng) -> Value {
    if r.chance(0.6) {
        return Value::Null;
    }
    json!([{"op": r.pick(&["write", "write", "open", "lseek"]), "nth": r.small(0, 6), "err": r.pick(&["EIO", "ENOSPC"]), "sticky": r.chance(0.5)}])
}
fn gen_c33(r: &mut Rng) -> Value {
    let mode = r.pick(&["index", "index", "index", "index", "words", "prepare"]);
    let kind = gen_kind(r);
    let mut data = gen_data(r, 1, 60);
    let exact = r.chance(0.7);
    let mut cfg = gen_cfg(r);
    cfg["progress"] = json!(r.chance(0.3));
    let given = (0..5).map(|_| r.chance(0.5)).collect::<Vec<_>>();
    if !given[0] {
        cfg["lm"] = json!(15.0);
    }
    if !given[2] {
        cfg["nn"] = json!(30);
    }
    if !given[3] {
        cfg["ms"] = json!(200);
        data["n"] = json!(u(&data, "n").min(40));
    }
    if !given[4] {
        cfg["reins"] = json!(true);
    }
    let mut ops = vec![];
    for _ in 0..r.range(1, 6) {
        ops.push(match r.below(10) {
            0..=2 => json!(["append", r.range(1, 12)]),
            3 | 4 => json!(["partial", r.below(100)]),
            5 => json!(["build"]),
            6 => json!(["bad", r.below(12)]),
            7 => json!(["save", gen_fault(r)]),
            _ => json!(["look"]),
        });
    }
    let mut iops = vec![];
    for _ in 0..r.range(2, 9) {
        iops.push(match r.below(12) {
            0..=4 => json!(["search", r.below(1000)]),
            5 | 6 => json!(["look"]),
            7 => json!(["reorder"]),
            8 => json!(["bad", r.below(12)]),
            9 => json!(["save", gen_fault(r)]),
            _ => json!(["reload"]),
        });
    }
    json!({"mode": mode, "kind": kind, "data": data, "cfg": cfg, "given": given, "exp": r.chance(0.2), "workers": if exact { 1 } else { r.range(2, 4) },
        "start": r.pick(&["empty", "elements", "index"]), "ops": ops, "iops": iops, "io": gen_io(r), "salt": r.next() >> 20})
}

/// `py` saves under a fault plan: it raises, or the file is complete.
fn save_py(m: &M, o: &PyObject, name: &str, file: &str, fault: &Value, io: &Value, r: &mut Rng) -> Vec<u8> {
    let (args, kw) = m.split(r, vec![("path", m.v(path("probe")))]);
    io::plan(io);
    m.ok(o, name, args, kw);
    let whole = read("probe");
    let _ = sim::quiet(|| std::fs::remove_file(path(file)));
    if fault.is_array() {
        let mut p = io.clone();
        p["faults"] = fault.clone();
        io::plan(&p);
        let x = m.call(o, name, vec![m.v(path(file))], vec![]);
        let fired = io::fired() > 0;
        io::plan(io);
        match x {
            Ok(_) => ensure(read(file) == whole, "incomplete", || format!("{} returned normally, but the file is incomplete ({} of {} bytes)", name, read(file).len(), whole.len())),
            Err(e) => ensure(fired, "raised", || format!("{} raised {} without a fault", name, e)),
        }
    }
    let (args, kw) = m.split(r, vec![("path", m.v(path(file)))]);
    m.ok(o, name, args, kw);
    ensure(read(file) == whole, "save", || format!("{} twice gives different files", name));
    whole
}
/// everything an index tells, against the same index in Rust
fn same_index(m: &M, o: &PyObject, ix: &dyn LayerView, r: &mut Rng) {
    let g = sim::quiet(|| G::of(ix).sets());
    let same = |what: &str, a: usize, b: usize| ensure(a == b, "differs", || format!("{} is {} in Python, {} in Rust", what, a, b));
    same("len", o.len(m.py).unwrap_or_else(|e| fail("raised", format!("{:?}", e))), g.len());
    same("num_layers", m.int(o, "num_layers", vec![]), g.0.len());
    for l in 0..g.0.len() {
        let (a, kw) = m.split(r, vec![("layer", m.v(l))]);
        same("layer_len", m.get(&m.ok(o, "layer_len", a, kw), "layer_len"), g.0[l].len());
        let all = g.0[l].len() < 20 || r.chance(0.2);
        for i in (0..g.0[l].len()).filter(|_| all || r.chance(0.2)).collect::<Vec<_>>() {
            let last = l + 1 == g.0.len();
            let (a, kw) = match r.below(3) {
                0 if last => m.split(r, vec![("idx", m.v(i))]),
                1 if last => (vec![m.v(i)], vec![("layer", m.none())]),
                _ => m.split(r, vec![("idx", m.v(i)), ("layer", m.v(l))]),
            };
            let mut n: Vec<usize> = m.get(&m.ok(o, "get_neighbors", a, kw), "get_neighbors");
            n.sort();
            ensure(n == g.0[l][i], "differs", || format!("neighbors of {} in layer {} are {:?} in Python, {:?} in Rust", i, l, n, g.0[l][i]));
        }
    }
}
fn run_index<K: PyKind>(s: &Value, m: &M) {
    let d = Data::of(&s["data"]);
    let mut cfg = Cfg::of(&s["cfg"]);
    let given: Vec<bool> = s["given"].as_array().unwrap().iter().map(|x| x == true).collect();
    if given.len() < 5 {
        skip()
    }
    let r = &mut Rng::new(s["salt"].as_u64().unwrap_or(1));
    let sum = K::TYPE == "embeddings";
    let exact = u(s, "workers") == 1;
    if b(s, "exp") && given[1] {
        cfg.exp = Some(d.n + 10);
    }
    // omitted options have their documented defaults
    if (!given[0] && cfg.lm != 15.0) || (!given[2] && cfg.nn != 30) || (!given[3] && cfg.ms != 200) || (!given[4] && !cfg.reins) {
        skip()
    }
    let started = match s["start"].as_str().unwrap_or("") {
        "empty" => 0,
        _ => d.n,
    };
    sim::quiet(|| {
        for (f, bytes) in K::files(&d, started) {
            std::fs::write(path(f), bytes).unwrap();
        }
        std::fs::write(path("words"), words_file(&d)).unwrap();
    });
    io::plan(&s["io"]);
    let els = sim::quiet(|| K::make(&d, started));
    let mut twin = if s["start"] == "index" {
        let mut bu = GranneBuilder::new(cfg.build(), els.clone());
        single(|| bu.build_partial(d.n / 2));
        let bytes = save_index(&bu);
        sim::quiet(|| std::fs::write(path("ix0"), &bytes)).unwrap();
        GranneBuilder::from_bytes(cfg.build(), &bytes, els)
    } else {
        GranneBuilder::new(cfg.build(), els)
    };
    let mut total = started;
    // the builder in Python
    let upper = r.chance(0.2);
    let ty = if upper { K::TYPE.to_uppercase() } else { K::TYPE.to_string() };
    let mut kw: Kw = vec![];
    if started > 0 {
        kw.push(("elements_path", m.v(path("el"))));
    }
    if s["start"] == "index" {
        kw.push(("index_path", m.v(path("ix0"))));
    }
    if sum {
        kw.push(("embeddings_path", m.v(path("emb"))));
        kw.push(("words_path", m.v(path("words"))));
    }
    for (k, on, v) in [
        ("layer_multiplier", given[0], m.v(cfg.lm as f64)),
        ("expected_num_elements", cfg.exp.is_some(), m.v(cfg.exp.unwrap_or(0))),
        ("num_neighbors", given[2], m.v(cfg.nn)),
        ("max_search", given[3], m.v(cfg.ms)),
        ("reinsert_elements", given[4], m.v(cfg.reins)),
        ("show_progress", true, m.v(cfg.progress)),
    ] {
        if on {
            kw.push((k, v));
        }
    }
    r.shuffle(&mut kw);
    let bu = m.ok(m.m, "GranneBuilder", vec![m.v(ty)], kw);
    let mut built = if s["start"] == "index" { d.n / 2 } else { 0 };
    let refresh = |twin: &mut GranneBuilder<K::C>, total: usize| {
        // schedules differ: go on from what Python built
        let bytes = read("ix");
        *twin = GranneBuilder::from_bytes(cfg.build(), &bytes, sim::quiet(|| K::make(&d, total)));
    };
    let mut ops = s["ops"].as_array().unwrap().clone();
    ops.push(json!(["build"]));
    ops.push(json!(["save", Value::Null]));
    for op in &ops {
        let a = op[1].as_u64().unwrap_or(0) as usize;
        match op[0].as_str().unwrap_or("") {
            "append" => {
                for _ in 0..a.min(30) {
                    let (args, kw) = { let e = K::element(m, &d, total, r); m.split(r, vec![("element", e)]) };
                    m.ok(&bu, "append", args, kw);
                    twin.push(K::internal(&d, total));
                    total += 1;
                }
            }
            "partial" | "build" => {
                let k = if op[0] == "build" { total } else { built + a % (total - built + 1) };
                let (args, kw) = if op[0] == "build" { (vec![], vec![]) } else { m.split(r, vec![("num_elements", m.v(k))]) };
                m.ok(&bu, "build", args, kw);
                if exact {
                    if op[0] == "build" {
                        twin.build();
                    } else {
                        twin.build_partial(k);
                    }
                } else {
                    save_py(m, &bu, "save_index", "ix", &Value::Null, &s["io"], r);
                    refresh(&mut twin, total);
                    if built == 0 && (cfg.exp.is_none() || k == total) {
                        check_sizes(&twin, &cfg, total, k);
                    }
                }
                built = k;
            }
            "save" => {
                let ix = save_py(m, &bu, "save_index", "ix", &op[1], &s["io"], r);
                let el = save_py(m, &bu, "save_elements", "el1", &op[1], &s["io"], r);
                let want = K::files(&d, total);
                ensure(want.iter().any(|f| f.0 == "el" && f.1 == el), "elements", || format!("the saved elements ({} bytes) are not those that were appended", el.len()));
                if exact {
                    ensure(ix == save_index(&twin), "index", || "the saved index differs from that of a Rust builder with the same history".into());
                }
            }
            "bad" => {
                let big = total + 1 + a;
                match a {
                    0 => m.refuse(&bu, "build", vec![m.v(big)], vec![], "more elements than there are"),
                    1 => m.refuse(&bu, "append", vec![m.none()], vec![], "None as element"),
                    2 if !sum => m.refuse(&bu, "append", vec![m.v("text")], vec![], "text as vector"),
                    3 if sum => m.refuse(&bu, "append", vec![m.v(vec![0.5f64])], vec![], "vector as text"),
                    4 => m.refuse(&bu, "get_neighbors", vec![m.v(-1)], vec![], "negative index"),
                    5 => m.refuse(&bu, "save_index", vec![m.v(path("no/such/dir"))], vec![], "missing directory"),
                    6 => m.refuse(m.m, "GranneBuilder", vec![m.v("cosine")], vec![], "unknown element type"),
                    7 => m.refuse(m.m, "GranneBuilder", vec![m.v(K::TYPE)], vec![("elements_path", m.v(path("missing")))], "missing elements file"),
                    8 => m.refuse(&bu, "layer_len", vec![m.v(twin.num_layers() + a)], vec![], "layer that does not exist"),
                    9 => m.refuse(m.m, "GranneBuilder", vec![m.v(K::TYPE)], vec![("numneighbors", m.v(3))], "unknown option"),
                    _ => {}
                }
            }
            _ => {}
        }
        let n: usize = m.int(&bu, "num_elements", vec![]);
        ensure(n == total, "differs", || format!("{} elements in the builder instead of {}", n, total));
        if op[0] != "append" || twin.num_layers() > 0 {
            same_index(m, &bu, &twin, r);
        }
    }
    drop(twin);
    if total == 0 {
        return;
    }
    // the index in Python
    let load = |r: &mut Rng, ix: &str, el: &str| {
        let mut all = vec![
            ("index_path", m.v(path(ix))),
            ("element_type", m.v(if r.chance(0.2) { K::TYPE.to_uppercase() } else { K::TYPE.to_string() })),
            ("elements_path", m.v(path(el))),
        ];
        if sum {
            all.push(("embeddings_path", m.v(path("emb"))));
            all.push(("words_path", m.v(path("words"))));
        }
        let (args, kw) = m.split(r, all);
        m.ok(m.m, "Granne", args, kw)
    };
    let mut g = load(r, "ix", "el1");
    let fresh = || -> Granne<'static, K::C> {
        let bytes: &'static [u8] = Box::leak(read("ix").into_boxed_slice());
        let _ = sim::quiet(|| std::fs::copy(path("el1"), path("el")));
        Granne::from_bytes(bytes, K::load_file().unwrap())
    };
    let mut twin = fresh();
    let mut order: Vec<usize> = (0..total).collect();
    let mut iops = s["iops"].as_array().unwrap().clone();
    iops.push(json!(["look"]));
    for op in &iops {
        let a = op[1].as_u64().unwrap_or(0) as usize;
        match op[0].as_str().unwrap_or("") {
            "search" => {
                let (e, q) = K::query_py(m, &d, twin.get_elements(), a, r);
                let ms = if r.chance(0.7) { Some(r.small(1, 100)) } else { None };
                let k = if r.chance(0.7) { Some(r.small(0, 40)) } else { None };
                let (args, kw) = match (ms, k) {
                    (Some(x), Some(y)) => m.split(r, vec![("element", e), ("max_search", m.v(x)), ("num_elements", m.v(y))]),
                    (Some(x), None) => m.split(r, vec![("element", e), ("max_search", m.v(x))]),
                    (None, Some(y)) => (vec![e], vec![("num_elements", m.v(y))]),
                    _ => (vec![e], vec![]),
                };
                let got: Vec<(usize, f32)> = m.get(&m.ok(&g, "search", args, kw), "search");
                let want = sim::quiet(|| twin.search(&q, ms.unwrap_or(200), k.unwrap_or(10)));
                must(same_answer(&got, &want).map(|x| format!("max_search {:?} num_elements {:?}: {}", ms, k, x)), "search");
            }
            "look" => {
                same_index(m, &g, &twin, r);
                for i in 0..total {
                    if total > 15 && r.chance(0.7) {
                        continue;
                    }
                    let (args, kw) = m.split(r, vec![("idx", m.v(i))]);
                    let v: Vec<f64> = m.get(&m.ok(&g, "get_element", args, kw), "get_element");
                    ensure(v == sim::quiet(|| K::vec_of(&twin.get_element(i))), "element", || format!("element {} differs in Python", i));
                    let o = m.ok(&g, "get_internal_element", vec![m.v(i)], vec![]);
                    match K::internal_text(&d, order[i]) {
                        Some(t) => ensure(m.get::<String>(&o, "get_internal_element") == t, "element", || format!("the words of element {} are not {:?}", i, t)),
                        None => ensure(m.get::<Vec<f64>>(&o, "get_internal_element") == v, "element", || format!("internal element {} differs", i)),
                    }
                }
            }
            "reorder" => {
                let show = r.chance(0.3);
                let (args, kw) = m.split(r, vec![("show_progress", m.v(show))]);
                let p: Vec<usize> = m.get(&m.ok(&g, "reorder", args, kw), "reorder");
                let want = K::reorder(&mut twin);
                ensure(p == want, "reorder", || format!("reorder returned {:?} in Python, {:?} in Rust", p, want));
                order = (0..total).map(|i| order[p.get(i).copied().unwrap_or(i)]).collect();
            }
            "save" | "reload" => {
                // an own pair of names each time: the old files are mapped
                let (fi, fe) = (format!("ix.{}", r.next() >> 20), format!("el.{}", r.next() >> 20));
                let ix = save_py(m, &g, "save_index", &fi, &op[1], &s["io"], r);
                let el = save_py(m, &g, "save_elements", &fe, &op[1], &s["io"], r);
                ensure(ix == save_index(&twin), "index", || "the index saved by Python differs from the one saved by Rust".into());
                let mut c = std::io::Cursor::new(vec![]);
                sim::quiet(|| twin.get_elements().write(&mut c)).unwrap();
                ensure(el == c.into_inner(), "elements", || "the elements saved by Python differ from those saved by Rust".into());
                if op[0] == "reload" {
                    g = load(r, &fi, &fe);
                    count("process_restart");
                }
            }
            "bad" => match a {
                0 => m.refuse(&g, "get_element", vec![m.v(total + 1)], vec![], "index out of range"),
                1 => m.refuse(&g, "get_element", vec![m.v(-1)], vec![], "negative index"),
                2 => m.refuse(&g, "search", vec![m.none()], vec![], "None as element"),
                3 if !sum => m.refuse(&g, "search", vec![m.v("text")], vec![], "text as vector"),
                4 => m.refuse(&g, "layer_len", vec![m.v(twin.num_layers() + a)], vec![], "layer that does not exist"),
                5 => m.refuse(m.m, "Granne", vec![m.v(path("missing")), m.v(K::TYPE), m.v(path("el1"))], vec![], "missing index"),
                6 => m.refuse(m.m, "Granne", vec![m.v(path("ix")), m.v("cosine"), m.v(path("el1"))], vec![], "unknown element type"),
                7 if sum => m.refuse(m.m, "Granne", vec![m.v(path("ix")), m.v(K::TYPE), m.v(path("el1"))], vec![], "no embeddings"),
                8 => m.refuse(&g, "save_index", vec![m.v(path("no/such/dir"))], vec![], "missing directory"),
                9 => m.refuse(&g, "search", vec![], vec![("max_search", m.v(3))], "no element"),
                10 => m.refuse(&g, "get_internal_element", vec![m.v(total + 7)], vec![], "index out of range"),
                11 => m.refuse(&g, "get_neighbors", vec![m.v(0), m.v(twin.num_layers())], vec![], "layer that does not exist"),
                _ => {}
            },
            _ => {}
        }
    }
    for (f, bytes) in K::files(&d, started) {
        if f == "emb" {
            ensure(read(f) == bytes, "file-changed", || "the embeddings file changed".into());
        }
    }
}
/// the class Embeddings and compute_distance
fn run_words(s: &Value, m: &M) {
    let mut d = Data::of(&s["data"]);
    d.vocab = (d.n % 50).max(1);
    let r = &mut Rng::new(s["salt"].as_u64().unwrap_or(1));
    io::plan(&s["io"]);
    let mut names: Vec<String> = vec![];
    let mut twin = SumEmbeddings::new();
    let mut o = if r.chance(0.5) {
        sim::quiet(|| {
            std::fs::write(path("emb"), &<Sum as Release>::files(&d, 0)[0].1).unwrap();
            std::fs::write(path("words"), words_file(&d)).unwrap();
        });
        twin = sum_base(&d);
        names = (0..d.vocab()).map(|i| word(&d, i)).collect();
        let (args, kw) = m.split(r, vec![("embeddings_path", m.v(path("emb"))), ("words_path", m.v(path("words")))]);
        m.ok(m.m, "Embeddings", args, kw)
    } else {
        m.ok(m.m, "Embeddings", vec![], vec![])
    };
    let mut next = d.vocab();
    for step in 0..r.range(3, 25) {
        let input = |r: &mut Rng| -> (PyObject, Vec<usize>) {
            let n = names.len();
            if n == 0 {
                return (m.v(""), vec![]);
            }
            let ids: Vec<usize> = (0..r.below(5)).map(|_| r.below(n)).collect();
            match r.below(3) {
                0 => {
                    let i = r.below(n);
                    (m.v(i), vec![i])
                }
                1 => (m.v(ids.clone()), ids),
                _ => {
                    let mut t: Vec<String> = ids.iter().map(|&i| names[i].clone()).collect();
                    if r.chance(0.2) {
                        t.push("unknown".into());
                    }
                    (m.v(t.join(r.pick(&[" ", "  ", "\t"]))), ids)
                }
            }
        };
        match r.below(7) {
            0 | 1 => {
                // an embedding, sometimes under a name that is taken
                let taken = !names.is_empty() && r.chance(0.3);
                let name = if taken { names[r.below(names.len())].clone() } else { word(&d, next) };
                let v = d.word_vec(next);
                next += 1;
                let (args, kw) = { let e = m.floats(&v, r); m.split(r, vec![("embedding", e), ("word", m.v(name.clone()))]) };
                let done: bool = m.get(&m.ok(&o, "append", args, kw), "append");
                ensure(done != taken, "append", || format!("append returned {} for a word that is{} there", done, if taken { "" } else { " not" }));
                if !taken {
                    names.push(name);
                    twin.push_embedding(&v);
                }
            }
            2 => {
                let (a, ids) = input(r);
                let got: Vec<f32> = m.get(&m.ok(&o, "get_embedding", vec![a], vec![]), "get_embedding");
                let want = twin.create_embedding(&ids);
                ensure(bytes_f32(&got) == bytes_f32(&want), "embedding", || format!("embedding of {:?} is {:?}, in Rust {:?}", ids, got, want));
            }
            3 | 4 => {
                let (a, ia) = input(r);
                let rest: Vec<(PyObject, Vec<usize>)> = (0..r.below(4)).map(|_| input(r)).collect();
                let e = |i: &[usize]| angular::Vector::from(twin.create_embedding(i));
                if names.is_empty() {
                    continue;
                }
                let want: Vec<f32> = rest.iter().map(|x| e(&ia).dist(&e(&x.1)).into_inner()).collect();
                for (x, w) in rest.iter().zip(&want) {
                    let got: f32 = m.get(&m.ok(&o, "dist", vec![a.clone_ref(m.py), x.0.clone_ref(m.py)], vec![]), "dist");
                    ensure(got.to_bits() == w.to_bits(), "distance", || format!("dist is {} in Python, {} in Rust", got, w));
                }
                let l: Vec<PyObject> = rest.iter().map(|x| x.0.clone_ref(m.py)).collect();
                let (args, kw) = m.split(r, vec![("left_input", a), ("right_inputs", PyList::new(m.py, &l).into_object())]);
                let got: Vec<f32> = m.get(&m.ok(&o, "dists", args, kw), "dists");
                ensure(bytes_f32(&got) == bytes_f32(&want), "distance", || format!("dists are {:?} in Python, {:?} in Rust", got, want));
            }
            5 => {
                let (fe, fw) = (format!("e{}", step), format!("w{}", step));
                let (args, kw) = m.split(r, vec![("embeddings_path", m.v(path(&fe))), ("words_path", m.v(path(&fw)))]);
                m.ok(&o, "save", args, kw);
                let data: Vec<u8> = (0..names.len()).flat_map(|i| bytes_f32(&twin.create_embedding(&[i]))).collect();
                let width = if names.is_empty() { 0 } else { d.dim };
                ensure(read(&fe) == encode_fixed(width, &data), "save", || "the saved embeddings are not those of the collection".into());
                let lines: Vec<String> = String::from_utf8(read(&fw)).unwrap_or_default().lines().map(|l| serde_json::from_str(l).unwrap_or_default()).collect();
                ensure(lines == names, "save", || format!("the saved words are {:?}", lines));
                // on a medium that fails: it raises, or both files are complete
                if r.chance(0.4) {
                    let whole = (read(&fe), read(&fw));
                    let mut p = s["io"].clone();
                    p["faults"] = (0..20).map(|_| gen_fault(r)).find(|f| f.is_array()).unwrap_or(Value::Null);
                    io::plan(&p);
                    let x = m.call(&o, "save", vec![m.v(path(&fe)), m.v(path(&fw))], vec![]);
                    let fired = io::fired() > 0;
                    io::plan(&s["io"]);
                    match x {
                        Ok(_) => ensure((read(&fe), read(&fw)) == whole, "incomplete", || "save returned normally, but a file is incomplete".into()),
                        Err(e) => ensure(fired, "raised", || format!("save raised {} without a fault", e)),
                    }
                    let (args, kw) = m.split(r, vec![("embeddings_path", m.v(path(&fe))), ("words_path", m.v(path(&fw)))]);
                    m.ok(&o, "save", args, kw);
                    ensure((read(&fe), read(&fw)) == whole, "save", || "save twice gives different files".into());
                }
                o = m.ok(m.m, "Embeddings", vec![m.v(path(&fe)), m.v(path(&fw))], vec![]);
                count("process_restart");
            }
            _ => match r.below(5) {
                0 => m.refuse(&o, "get_embedding", vec![m.v(names.len() + 3)], vec![], "id that does not exist"),
                1 => m.refuse(&o, "get_embedding", vec![m.none()], vec![], "None"),
                2 => m.refuse(m.m, "Embeddings", vec![m.v(path("missing"))], vec![], "no words"),
                3 => m.refuse(m.m, "compute_distance", vec![m.v("cosine"), m.v(vec![1.0f64]), m.v(vec![1.0f64])], vec![], "unknown element type"),
                _ => {
                    let (x, y) = (d.raw(step), d.query(step));
                    let int = r.chance(0.5);
                    let want = if int {
                        angular_int::Vector::from(x.clone()).dist(&angular_int::Vector::from(y.clone()))
                    } else {
                        angular::Vector::from(x.clone()).dist(&angular::Vector::from(y.clone()))
                    }
                    .into_inner();
                    let (px, py) = (m.floats(&x, r), m.floats(&y, r));
                    let (args, kw) = m.split(r, vec![("element_type", m.v(if int { "angular_int" } else { "angular" })), ("a", px), ("b", py)]);
                    let got: f32 = m.get(&m.ok(m.m, "compute_distance", args, kw), "compute_distance");
                    ensure(got.to_bits() == want.to_bits(), "distance", || format!("compute_distance is {} in Python, {} in Rust", got, want));
                }
            },
        }
        let n = o.len(m.py).unwrap_or(usize::MAX);
        ensure(n == names.len(), "differs", || format!("{} embeddings in Python, {} appended", n, names.len()));
    }
}
/// parse_elements_and_save_to_disk and compute_embeddings_and_save_to_disk
fn run_prepare(s: &Value, m: &M) {
    let d = Data::of(&s["data"]);
    let r = &mut Rng::new(s["salt"].as_u64().unwrap_or(1));
    let lists: Vec<Vec<usize>> = (0..d.n).map(|i| d.words(i)).collect();
    sim::quiet(|| {
        let text: String = lists.iter().map(|l| format!("{}\n", json!(sentence(&d, l, r)))).collect();
        std::fs::write(path("text"), text).unwrap();
        std::fs::write(path("words"), words_file(&d)).unwrap();
        std::fs::write(path("emb"), &<Sum as Release>::files(&d, 0)[0].1).unwrap();
    });
    let fault = if s["iops"].as_array().map_or(false, |a| a.len() > 5) { gen_fault(r) } else { Value::Null };
    let mut plan = s["io"].clone();
    plan["faults"] = fault;
    let show = |r: &mut Rng| m.v(r.chance(0.3));
    // true: done, false: refused because of a fault
    let run = |name: &str, all: Vec<(&str, PyObject)>, r: &mut Rng| -> bool {
        let (args, kw) = m.split(r, all);
        io::plan(&plan);
        let x = m.call(m.m, name, args, kw);
        let fired = io::fired() > 0;
        io::plan(&s["io"]);
        if let Err(e) = &x {
            ensure(fired, "raised", || format!("{} raised {} without a fault (last panic: {})", name, e, sh().get_panic()));
        }
        x.is_ok()
    };
    let all = vec![("elements_path", m.v(path("text"))), ("words_path", m.v(path("words"))), ("output_path", m.v(path("out"))), ("show_progress", show(r))];
    if run("parse_elements_and_save_to_disk", all, r) {
        ensure(read("out") == encode_lists(&lists), "parse", || "the parsed elements are not those of the text".into());
    }
    sim::quiet(|| std::fs::write(path("out"), encode_lists(&lists))).unwrap();
    let all = vec![("elements_path", m.v(path("out"))), ("embeddings_path", m.v(path("emb"))), ("output_path", m.v(path("vec"))), ("show_progress", show(r))];
    if run("compute_embeddings_and_save_to_disk", all, r) {
        parsing::compute_embeddings_and_save_to_disk(Path::new(&path("out")), Path::new(&path("emb")), Path::new(&path("vec2")), false);
        ensure(read("vec") == read("vec2"), "vectors", || "the vectors differ from those computed by Rust".into());
        let v = unsafe { angular_int::Vectors::from_file(&File::open(path("vec")).unwrap()) }.unwrap();
        ensure(v.len() == lists.len(), "vectors", || format!("{} vectors for {} elements", v.len(), lists.len()));
    }
}
fn run_c33(s: &Value) {
    let m = start();
    pool(u(s, "workers").max(1));
    match s["mode"].as_str().unwrap_or("index") {
        "words" => run_words(s, &m),
        "prepare" => run_prepare(s, &m),
        _ => match s["kind"].as_str().unwrap_or("f32") {
            "i8" => run_index::<I8>(s, &m),
            "sum" => run_index::<Sum>(s, &m),
            _ => run_index::<F32>(s, &m),
        },
    }
}
pub const C33: Prop = Prop {
    id: "C33",
    gen: gen_c33,
    run: run_c33,
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "every result of every call of random Python call histories compared with the same history in Rust, with seeded schedules of the library's threads and I/O faults",
    rule: "One run = a CPython interpreter inside the simulated process and one history of calls of the module (builder, index, word embeddings, data preparation; arguments by position and by name, wrong arguments, I/O faults), each compared with the Rust call it stands for.",
    real: &[
        "the Python extension module of /repo/py, rust-cpython, CPython 3.12",
        "granne with debug assertions and overflow checks, rayon, parking_lot, std",
    ],
    stub: STUB,
    assumptions: ASSUME,
};
