//! C19 - C21: preparing data (text parsing, sharding, embedding computation).
use super::disk::gen_io;
use super::prelude::*;
use granne::angular_int;
use granne::embeddings::{parsing, SumEmbeddings};
use std::fs::File;
use std::io::Write;
use std::path::{Path, PathBuf};

fn path(f: &str) -> String {
    format!("{}/{}", crate::driver::scratch(), f)
}

// ------------------------------------------------------------------ text
fn word(seed: u64, i: usize) -> String {
    let mut r = Rng::new(mix(seed ^ mix(i as u64 + 5)));
    let base = r.pick(&["w", "rust", "Ünï", "日本", "a.b", "x-y", "\"q\"", "back\\slash", "UPPER", "😀"]);
    format!("{}{}", base, i)
}
fn json_text(r: &mut Rng, s: &str) -> String {
    if r.chance(0.15) {
        // every character escaped
        let mut o = String::from("\"");
        for u in s.encode_utf16() {
            o.push_str(&format!("\\u{:04x}", u));
        }
        o.push('"');
        return o;
    }
    serde_json::to_string(s).unwrap()
}
struct Text {
    bytes: Vec<u8>,
    lines: Vec<Vec<usize>>,
}
/// One part: lines of JSON strings and the word ids each stands for.
fn text(seed: u64, lines: usize, vocab: usize, flags: &Value) -> Text {
    let mut r = Rng::new(seed);
    let mut t = Text { bytes: vec![], lines: vec![] };
    let crlf = b(flags, "crlf");
    let wide = u(flags, "wide").max(1);
    for l in 0..lines {
        let mut ids = vec![];
        let mut s = String::new();
        if r.chance(0.3) {
            // up to the last colon nothing counts
            for _ in 0..r.range(1, 2) {
                if vocab > 0 && r.chance(0.7) {
                    s.push_str(&word(seed0(flags), r.below(vocab)));
                    s.push(' ');
                }
                s.push_str(r.pick(&["http", "id 7", "", "x y"]));
                s.push(':');
            }
        }
        let k = if r.chance(0.1) { 0 } else { r.below(wide + 1) };
        for i in 0..k {
            if i > 0 || r.chance(0.3) {
                s.push_str(r.pick(&[" ", " ", "  ", "\t", " \n "]));
            }
            if vocab > 0 && r.chance(0.8) {
                let w = r.below(vocab);
                s.push_str(&word(seed0(flags), w));
                ids.push(w);
            } else {
                s.push_str(&format!("unknown{}", r.below(50)));
            }
        }
        t.bytes.extend(json_text(&mut r, &s).into_bytes());
        if r.chance(0.05) {
            t.bytes.extend(b" ");
        }
        if l + 1 < lines || !b(flags, "unterminated") {
            t.bytes.extend(if crlf { &b"\r\n"[..] } else { &b"\n"[..] });
        }
        t.lines.push(ids);
    }
    t
}
fn seed0(v: &Value) -> u64 {
    v["seed"].as_u64().unwrap_or(1)
}
fn gz(data: &[u8], cut: &[usize]) -> Vec<u8> {
    // one member per piece
    let mut out = vec![];
    let mut from = 0;
    for &c in cut.iter().chain([&data.len()]) {
        let c = c.min(data.len()).max(from);
        let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(6));
        e.write_all(&data[from..c]).unwrap();
        out.extend(e.finish().unwrap());
        from = c;
    }
    out
}
fn gen_parts(r: &mut Rng) -> Value {
    let names = ["part-0", "part-1", "part-2", "part-10", "A", "B", "a", "b", "_", "00", "é", "part-0.1", "z.json", "part-1-old", "old.gz.txt", "part.gzip", "gz", "x.GZ"];
    let mut idx: Vec<usize> = (0..names.len()).collect();
    r.shuffle(&mut idx);
    let n = r.small(0, 6);
    let big = r.chance(0.08);
    Value::Array(
        (0..n)
            .map(|i| {
                let g = r.chance(0.4);
                json!({"name": format!("{}{}", names[idx[i]], if g { ".gz" } else { "" }), "lines": r.small(0, if big { 1500 } else { 40 }),
                    "gz": g, "members": r.pick(&[1, 1, 1, 2, 3]), "crlf": r.chance(0.15), "unterminated": r.chance(0.2), "salt": r.below(1 << 30)})
            })
            .collect(),
    )
}
fn gen_text(r: &mut Rng) -> Value {
    let dir = r.chance(0.75);
    let mut parts = gen_parts(r);
    if !dir {
        while parts.as_array().unwrap().is_empty() {
            parts = gen_parts(r);
        }
        parts = json!([parts[0]]);
    }
    json!({"seed": r.next() >> 20, "vocab": if r.chance(0.01) { r.range(65_530, 66_500) } else { r.small(0, 60) }, "wide": r.pick(&[1, 4, 12]), "dir": dir, "parts": parts, "progress": r.chance(0.25),
        "mode": r.pick(&["whole", "shards", "shards"]), "shards": r.pick(&[1, 2, 3, 4, 7, 20]), "out": r.pick(&["dir", "ext", "plain"]),
        "junk": r.chance(0.3), "workers": r.range(1, 5)})
}
struct Input {
    words: PathBuf,
    elements: PathBuf,
    want: Vec<Vec<usize>>,
    gzs: Vec<(PathBuf, Vec<usize>)>, // gz parts with the offsets where a member ends
    plain: Vec<PathBuf>,
}
/// Writes words and parts to the scratch directory.
fn make_input(s: &Value) -> Input {
    let vocab = u(s, "vocab").min(80_000);
    let mut w = vec![];
    let mut r = Rng::new(seed0(s));
    for i in 0..vocab {
        w.extend(json_text(&mut r, &word(seed0(s), i)).into_bytes());
        w.push(b'\n');
    }
    let words = PathBuf::from(path("words"));
    std::fs::write(&words, w).unwrap();
    let dir = PathBuf::from(path("in"));
    std::fs::create_dir_all(&dir).unwrap();
    let mut parts = vec![];
    let mut gzs = vec![];
    let mut plain = vec![];
    let mut list: Vec<Value> = s["parts"].as_array().unwrap().clone();
    if !b(s, "dir") {
        list.truncate(1);
        if list.is_empty() {
            skip()
        }
    }
    let mut names = std::collections::HashSet::new();
    for p in &list {
        let name = p["name"].as_str().unwrap_or("p").to_string();
        let is_gz = name.ends_with(".gz");
        if !names.insert(name.clone()) {
            skip()
        }
        let t = text(
            mix(seed0(s) ^ p["salt"].as_u64().unwrap_or(0)),
            u(p, "lines").min(3000),
            vocab,
            &json!({"seed": seed0(s), "wide": s["wide"], "crlf": p["crlf"], "unterminated": p["unterminated"]}),
        );
        let mut ends = vec![];
        let data = if is_gz {
            let m = u(p, "members").clamp(1, 5);
            let cut: Vec<usize> = (1..m).map(|k| t.bytes.len() * k / m).collect();
            let mut from = 0;
            let mut out = vec![];
            for c in cut.iter().chain([&t.bytes.len()]) {
                out.extend(gz(&t.bytes[from..*c], &[]));
                ends.push(out.len());
                from = *c;
            }
            out
        } else {
            t.bytes
        };
        let f = dir.join(&name);
        std::fs::write(&f, data).unwrap();
        if is_gz {
            gzs.push((f.clone(), ends));
        } else {
            plain.push(f.clone());
        }
        parts.push((name.into_bytes(), t.lines, f));
    }
    parts.sort_by(|a, b| a.0.cmp(&b.0));
    let elements = if b(s, "dir") { dir } else { parts[0].2.clone() };
    Input { words, elements, want: parts.into_iter().flat_map(|p| p.1).collect(), gzs, plain }
}
/// Output of one parsing run, as asked for.
fn outputs(s: &Value) -> (PathBuf, Vec<PathBuf>) {
    let shards = u(s, "shards").clamp(1, 100);
    let dir = PathBuf::from(path("out"));
    std::fs::create_dir_all(&dir).unwrap();
    if s["mode"] != "shards" {
        let f = dir.join("elements.bin");
        return (f.clone(), vec![f]);
    }
    let (given, name): (PathBuf, Box<dyn Fn(usize) -> String>) = match s["out"].as_str().unwrap_or("") {
        "dir" => (dir.clone(), Box::new(|i| format!("elements-{}.bin", i))),
        "ext" => (dir.join("el.dat"), Box::new(|i| format!("el-{}.dat", i))),
        _ => (dir.join("el"), Box::new(|i| format!("el-{}.bin", i))),
    };
    (given, (0..shards).map(|i| dir.join(name(i))).collect())
}
fn parse(s: &Value, inp: &Input, out: &Path) -> usize {
    if s["mode"] == "shards" {
        parsing::parse_elements_and_save_shards_to_disk(&inp.elements, &inp.words, out, u(s, "shards").clamp(1, 100), b(s, "progress"))
    } else {
        parsing::parse_elements_and_save_to_disk(&inp.elements, &inp.words, out, b(s, "progress"))
    }
}
/// What is in an elements file; `None` if it does not load.
fn read_elements(f: &Path) -> Option<Vec<Vec<usize>>> {
    let data = std::fs::read(f).ok()?;
    let r = std::panic::catch_unwind(|| {
        let buf: &'static Buf = Box::leak(Box::new(Buf::new(&data, 0)));
        let e = SumEmbeddings::from_bytes(Default::default(), buf);
        (0..e.len()).map(|i| e.get_terms(i)).collect::<Vec<_>>()
    });
    r.ok()
}
fn check_output(class: &str, files: &[PathBuf], want: &[Vec<usize>]) {
    let mut got = vec![];
    for f in files {
        match read_elements(f) {
            Some(e) => got.extend(e),
            None => fail(class, format!("output file {} is missing or damaged", f.file_name().unwrap().to_string_lossy())),
        }
    }
    checked(want.len() as u64);
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        fail(class, format!("{} elements instead of {}; element {} is {:?} instead of {:?}", got.len(), want.len(), at, got.get(at), want.get(at)));
    }
    checked(1);
}
fn junk(s: &Value, files: &[PathBuf]) {
    if b(s, "junk") {
        for f in files {
            std::fs::write(f, vec![0x3f; 40_000]).unwrap();
        }
    }
}

// ------------------------------------------------------------------ C19
fn gen_c19(r: &mut Rng) -> Value {
    let mut v = gen_text(r);
    v["io"] = gen_io(r);
    v["io"]["permute_dirs"] = json!(r.chance(0.6));
    v
}
fn run_c19(s: &Value) {
    pool(u(s, "workers").max(1));
    let inp = sim::quiet(|| make_input(s));
    let (out, files) = sim::quiet(|| outputs(s));
    sim::quiet(|| junk(s, &files));
    io::plan(&s["io"]);
    let n = parse(s, &inp, &out);
    sim::quiet(|| {
        ensure(n == inp.want.len(), "count", || format!("{} elements reported, {} lines given", n, inp.want.len()));
        check_output("elements", &files, &inp.want);
    });
    // the other way of calling it
    let w = parsing::parse_words(&inp.words);
    ensure(w.len() == u(s, "vocab").min(80_000), "words", || format!("{} words", w.len()));
    let e = parsing::parse_elements_in_directory_or_file(&inp.elements, &w, false);
    ensure(e.len() == inp.want.len(), "count", || format!("{} elements, {} lines given", e.len(), inp.want.len()));
    for (i, want) in inp.want.iter().enumerate() {
        let got: Vec<usize> = e.get(i).iter().map(|x| (*x).into()).collect();
        ensure(&got == want, "elements", || format!("element {} is {:?} instead of {:?}", i, got, want));
    }
}
pub const C19: Prop = Prop {
    id: "C19",
    gen: gen_c19,
    run: run_c19,
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "every element compared with a reference that knows which words went into which line, under random schedules, directory orders and short/interrupted I/O",
    rule: "One run = 0-6 parts (plain, gzip with 1-3 members, CRLF, unterminated, empty) parsed by 1-5 workers into one file or 1-20 shards over a disk with short and interrupted reads and writes.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------------ C20
pub fn gen_c20(r: &mut Rng) -> Value {
    let mut v = gen_text(r);
    v["job"] = json!(r.pick(&["parse", "parse", "parse", "embed"]));
    if v["parts"].as_array().unwrap().is_empty() || r.chance(0.3) {
        v["parts"].as_array_mut().unwrap().push(json!({"name": "extra.gz", "lines": r.small(1, 60), "members": r.pick(&[1, 2]), "salt": r.below(1 << 30)}));
    }
    let op = r.pick(&["read", "read", "write", "write", "write", "open", "mmap", "readdir", "damage", "damage"]);
    let err = match op {
        "write" => r.pick(&["EIO", "ENOSPC", "ENOSPC", "ZERO"]),
        "open" => r.pick(&["EMFILE", "EIO"]),
        "mmap" => "ENOMEM",
        _ => "EIO",
    };
    v["fault"] = json!({"op": op, "err": err, "at": r.below(1001), "last": r.chance(0.3), "sticky": r.chance(0.5),
        "dest": if r.chance(0.3) { json!(r.below(4)) } else { Value::Null },
        "how": r.pick(&["truncate", "truncate", "flip", "badline", "badword", "subdir", "badutf8", "empty"])});
    v["io"] = gen_io(r);
    v["io"]["permute_dirs"] = json!(r.chance(0.3));
    v["n"] = json!(r.pick(&[0usize, 1, 50, 99, 100, 101, 230, 1500]));
    v["dim"] = json!(r.pick(&[1, 3, 20]));
    v
}
/// Damages an input file; true if that cannot go unnoticed.
fn damage(s: &Value, inp: &Input) -> bool {
    let f = &s["fault"];
    let at = u(f, "at").min(1000);
    let how = f["how"].as_str().unwrap_or("");
    let text = |inp: &Input| if inp.plain.is_empty() { None } else { Some(inp.plain[at % inp.plain.len()].clone()) };
    match how {
        "truncate" | "flip" | "empty" => {
            if inp.gzs.is_empty() {
                skip()
            }
            let (p, ends) = &inp.gzs[at % inp.gzs.len()];
            let mut d = std::fs::read(p).unwrap();
            if how == "flip" {
                let k = if b(f, "last") { d.len() - 1 - at % 8 } else { (d.len() - 1) * at / 1000 };
                d[k] ^= 1 << (at % 8);
                count("io_corrupt_input");
                std::fs::write(p, d).unwrap();
                return false; // may hit a byte without meaning
            }
            let k = if how == "empty" { 0 } else if b(f, "last") { d.len() - 1 - at % 8 } else { (d.len() - 1) * at / 1000 };
            count("io_truncated_input");
            d.truncate(k);
            std::fs::write(p, d).unwrap();
            // cut between two members, a file is complete gzip data again
            if ends.contains(&k) {
                skip()
            }
            true
        }
        "badline" | "badutf8" => {
            let Some(p) = text(inp) else { skip() };
            let mut d = std::fs::read(&p).unwrap();
            let mut starts = vec![0];
            starts.extend(d.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1));
            let k = starts[at % starts.len()];
            let bad: &[u8] = if how == "badutf8" { b"\"\xff\xfe\"\n" } else { [&b"no json\n"[..], b"\"open\n", b"[1]\n", b"\n", b"17\n"][at % 5] };
            if k == d.len() && !d.is_empty() && d.last() != Some(&b'\n') {
                d.push(b'\n');
            }
            let k = k.min(d.len());
            d.splice(k..k, bad.iter().copied());
            count("io_corrupt_input");
            std::fs::write(&p, d).unwrap();
            true
        }
        "badword" => {
            let mut d = std::fs::read(&inp.words).unwrap();
            let mut starts = vec![0];
            starts.extend(d.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1));
            let k = starts[at % starts.len()];
            d.splice(k..k, b"word without quotes\n".iter().copied());
            count("io_corrupt_input");
            std::fs::write(&inp.words, d).unwrap();
            true
        }
        _ => {
            if !b(s, "dir") {
                skip()
            }
            std::fs::create_dir_all(inp.elements.join("zz")).unwrap();
            count("io_corrupt_input");
            true
        }
    }
}
/// The job of scenario `s`, to be run any number of times.
pub fn job_of(s: &Value) -> impl Fn() + '_ {
    let embed = s["job"] == "embed";
    let inp = if embed { None } else { Some(sim::quiet(|| make_input(s))) };
    if embed {
        sim::quiet(|| make_embed(s));
    }
    let out = if embed { PathBuf::from(path("vecs")) } else { sim::quiet(|| outputs(s)).0 };
    move || {
        if let Some(i) = &inp {
            parse(s, i, &out);
        } else {
            run_embed(b(s, "progress"));
        }
    }
}
pub fn run_c20(s: &Value) {
    pool(u(s, "workers").max(1));
    let embed = s["job"] == "embed";
    let damaging = s["fault"]["op"] == "damage";
    if embed && damaging {
        skip()
    }
    let inp = if embed { None } else { Some(sim::quiet(|| make_input(s))) };
    let vecs = if embed { Some(sim::quiet(|| make_embed(s))) } else { None };
    let (out, files) = if embed { (PathBuf::from(path("vecs")), vec![PathBuf::from(path("vecs"))]) } else { sim::quiet(|| outputs(s)) };
    let job = || {
        if let Some(i) = &inp {
            parse(s, i, &out);
        } else {
            run_embed(b(s, "progress"));
        }
    };
    let check = |class: &str| {
        sim::quiet(|| {
            if let Some(i) = &inp {
                check_output(class, &files, &i.want);
            } else {
                check_vecs(class, vecs.as_ref().unwrap(), u(s, "dim"));
            }
        })
    };
    // how much I/O there is without a fault
    io::plan(&json!({}));
    job();
    check("elements");
    let op = io::OPS.iter().find(|o| o.0 == s["fault"]["op"]).map(|o| o.1);
    let mut plan = s["io"].clone();
    if op.is_some() {
        let f = &s["fault"];
        if b(f, "last") {
            plan = json!({});
        }
        plan["faults"] = io::place(f);
    }
    sim::quiet(|| {
        for f in &files {
            if b(s, "junk") {
                std::fs::write(f, vec![0x3f; 40_000]).unwrap();
            } else {
                let _ = std::fs::remove_file(f);
            }
        }
    });
    let sure = damaging && sim::quiet(|| damage(s, inp.as_ref().unwrap()));
    io::plan(&plan);
    let ok = !refused(job);
    let fired = io::fired();
    io::heal();
    if ok {
        ensure(!sure, "silent-failure", || "the operation finished normally although its input was damaged".into());
        check("silent-failure");
    } else {
        ensure(fired > 0 || damaging, "spurious-failure", || format!("failed without a fault: {}", crate::shared::sh().get_panic()));
    }
    if !damaging {
        // the medium works again
        io::plan(&json!({"short_p": s["io"]["short_p"], "eintr_p": s["io"]["eintr_p"]}));
        job();
        check("retry");
    }
}
pub const C20: Prop = Prop {
    id: "C20",
    gen: gen_c20,
    run: run_c20,
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "one fault at any (often the last) read/write/open/map/directory operation or any damaged byte, the complete output compared with the reference whenever the operation returns",
    rule: "One run = one parsing, sharding or embedding job run on a healthy disk, then with one fault or damaged input, then again on the healed disk.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------------ C21
fn emb_data(s: &Value) -> Data {
    let dim = u(s, "dim").clamp(1, 300);
    Data { n: u(s, "n").min(5000), dim, seed: seed0(s), zeros: s["zeros"].as_f64().unwrap_or(0.1), dups: 0.0, clusters: 0, words: (s["words"].as_u64().unwrap_or(4) as usize).clamp(1, 100), vocab: u(s, "vocab").min(80_000) }
}
/// Writes elements and embeddings; returns the expected float sums.
fn make_embed(s: &Value) -> (SumEmbeddings<'static>, Vec<Vec<f64>>) {
    let d = emb_data(s);
    let mut e = sum_base(&d);
    let mut sums = vec![];
    for i in 0..d.n {
        let w = d.words(i);
        e.push(&w);
        let mut v = vec![0.0f64; d.dim];
        for x in w {
            for (a, b) in v.iter_mut().zip(d.word_vec(x)) {
                *a += b as f64;
            }
        }
        sums.push(v);
    }
    e.write_embeddings(&mut File::create(path("emb")).unwrap()).unwrap();
    granne::Writeable::write(&e, &mut File::create(path("el")).unwrap()).unwrap();
    (e, sums)
}
fn run_embed(progress: bool) {
    parsing::compute_embeddings_and_save_to_disk(Path::new(&path("el")), Path::new(&path("emb")), Path::new(&path("vecs")), progress);
}
fn check_vecs(class: &str, (e, sums): &(SumEmbeddings<'static>, Vec<Vec<f64>>), dim: usize) {
    let n = sums.len();
    let data = std::fs::read(path("vecs")).unwrap_or_else(|_| fail(class, "the output file is missing"));
    let v = match std::panic::catch_unwind(|| {
        let buf: &'static Buf = Box::leak(Box::new(Buf::new(&data, 0)));
        angular_int::Vectors::from_bytes(buf)
    }) {
        Ok(v) => v,
        Err(_) => fail(class, format!("the output file ({} bytes) does not load", data.len())),
    };
    if v.len() != n {
        fail(class, format!("{} vectors for {} elements", v.len(), n));
    }
    if n > 0 && v.dim() != dim {
        fail(class, format!("{} dimensions instead of {}", v.dim(), dim));
    }
    for i in 0..n {
        checked(1);
        let got = v.get_element(i);
        let want: angular_int::Vector = e.get_embedding(i).into();
        if got.as_slice() != want.as_slice() {
            fail(class, format!("vector {} is {:?} instead of {:?}", i, got.as_slice(), want.as_slice()));
        }
        let max = sums[i].iter().fold(0.0f64, |a, x| a.max(x.abs()));
        for (x, q) in sums[i].iter().zip(got.as_slice()) {
            let t = if max > 1e-3 { x * 127.0 / max } else if max == 0.0 { 0.0 } else { continue };
            if (t - *q as f64).abs() > 1.01 {
                fail(class, format!("vector {}: component {} instead of {:.2}", i, q, t));
            }
        }
    }
}
fn gen_c21(r: &mut Rng) -> Value {
    let n = r.pick(&[0usize, 1, 2, 3, 50, 99, 100, 101, 102, 150, 198, 199, 200, 201, 202, 299, 300, 301, 1000, 1500]);
    let n = if r.chance(0.4) { r.below(700) } else if r.chance(0.1) { r.range(700, 4000) } else { n };
    if r.chance(0.01) {
        return json!({"seed": r.next() >> 20, "n": r.below(120), "dim": r.pick(&[1, 2]), "words": 9, "vocab": r.range(65_530, 66_500), "zeros": 0.1,
            "progress": false, "junk": false, "workers": r.range(1, 3), "io": {}});
    }
    json!({"seed": r.next() >> 20, "n": n, "dim": r.pick(&[1, 2, 5, 20, 64]), "words": r.pick(&[4usize, 4, 9, 40]), "zeros": r.pick(&[0.0, 0.1, 0.5, 1.0]), "progress": r.chance(0.25), "junk": r.chance(0.3),
        "workers": r.range(1, 5), "io": gen_io(r)})
}
fn run_c21(s: &Value) {
    pool(u(s, "workers").max(1));
    let vecs = sim::quiet(|| make_embed(s));
    if b(s, "junk") {
        sim::quiet(|| std::fs::write(path("vecs"), vec![0x3f; 100_000])).unwrap();
    }
    io::plan(&s["io"]);
    run_embed(b(s, "progress"));
    sim::quiet(|| check_vecs("vectors", &vecs, emb_data(s).dim));
    // mapped, as a user would load it
    let f = File::open(path("vecs")).unwrap();
    let v = unsafe { angular_int::Vectors::from_file(&f) }.unwrap_or_else(|e| fail("vectors", e.to_string()));
    ensure(v.len() == vecs.1.len(), "vectors", || format!("{} vectors for {} elements", v.len(), vecs.1.len()));
}
pub const C21: Prop = Prop {
    id: "C21",
    gen: gen_c21,
    run: run_c21,
    quick_s: 20.0,
    thorough_s: 900.0,
    level: "every vector compared bit for bit with the per-element embedding and with an independent f64 sum, under random schedules and short/interrupted writes",
    rule: "One run = embeddings computed for 0-1500 elements (often around multiples of the chunk count) by 1-5 workers over a disk with short and interrupted writes.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
