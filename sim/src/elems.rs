//! Test data and element containers.  `SimEl` is the real container with a preemption point at every access.
use crate::rng::{mix, Rng};
use crate::sim::point;
use granne::embeddings::SumEmbeddings;
use granne::{angular, angular_int, ElementContainer, ExtendableElementContainer, Permutable, Writeable};
use ordered_float::NotNan;
use serde_json::{json, Value};

#[derive(Clone, Default)]
pub struct SimEl<E>(pub E);

/// The accesses (counted over all containers and threads) that panic, as user code might.
pub mod hostile {
    use crate::shared::count;
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    static AT: [AtomicU64; 4] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
    static N: AtomicU64 = AtomicU64::new(0);
    static ON: AtomicU64 = AtomicU64::new(0);
    /// from now on, the accesses with these numbers panic
    pub fn arm(at: &[u64]) {
        N.store(0, SeqCst);
        for k in 0..4 {
            AT[k].store(at.get(k).map_or(0, |x| x + 1), SeqCst);
        }
        ON.store(1, SeqCst);
    }
    pub fn disarm() {
        ON.store(0, SeqCst);
    }
    #[inline]
    pub(super) fn tick() {
        if ON.load(SeqCst) != 0 && crate::sim::active() {
            let n = N.fetch_add(1, SeqCst) + 1;
            if AT.iter().any(|a| a.load(SeqCst) == n) {
                count("container_panic");
                panic!("injected panic of the element container");
            }
        }
    }
}
fn access() {
    point();
    hostile::tick();
}
/// A distance computation that takes until somebody lets it go on.
pub mod stall {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    use std::sync::{Condvar, Mutex};
    #[derive(Default)]
    struct State {
        reached: bool,
        open: bool,
    }
    static STATE: Mutex<State> = Mutex::new(State { reached: false, open: false });
    static CHANGED: Condvar = Condvar::new();
    static LEFT: AtomicU64 = AtomicU64::new(0);
    /// the access after `n` others waits
    pub fn arm(n: u64) {
        LEFT.store(n + 1, SeqCst);
    }
    #[inline]
    pub(super) fn tick() {
        if LEFT.load(SeqCst) != 0 && crate::sim::active() && LEFT.fetch_sub(1, SeqCst) == 1 {
            crate::shared::count("stalled_insert");
            enter();
        }
    }
    /// waits until the gate is open
    pub fn enter() {
        let mut g = STATE.lock().unwrap();
        g.reached = true;
        CHANGED.notify_all();
        while !g.open {
            g = CHANGED.wait(g).unwrap();
        }
    }
    /// waits until somebody waits at the gate (or it is known that nobody ever will)
    pub fn await_reached() {
        let mut g = STATE.lock().unwrap();
        while !g.reached {
            g = CHANGED.wait(g).unwrap();
        }
    }
    pub fn open() {
        let mut g = STATE.lock().unwrap();
        g.open = true;
        CHANGED.notify_all();
    }
    /// the stalled operation is over
    pub fn passed() {
        LEFT.store(0, SeqCst);
        let mut g = STATE.lock().unwrap();
        g.reached = true;
        CHANGED.notify_all();
    }
}

impl<E: ElementContainer> ElementContainer for SimEl<E> {
    type Element = E::Element;
    fn get(&self, idx: usize) -> E::Element {
        access();
        self.0.get(idx)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn dist_to_element(&self, idx: usize, element: &E::Element) -> NotNan<f32> {
        access();
        self.0.dist_to_element(idx, element)
    }
    fn dist(&self, i: usize, j: usize) -> NotNan<f32> {
        access();
        // what linking an element begins with; later accesses may be under the lock of a node
        if i == j {
            stall::tick();
        }
        self.0.dist(i, j)
    }
    fn dists(&self, idx: usize, others: &[usize]) -> Vec<NotNan<f32>> {
        access();
        self.0.dists(idx, others)
    }
}
impl<E: ExtendableElementContainer> ExtendableElementContainer for SimEl<E> {
    type InternalElement = E::InternalElement;
    fn push(&mut self, e: E::InternalElement) {
        access();
        self.0.push(e)
    }
}
impl<E: Permutable> Permutable for SimEl<E> {
    fn permute(&mut self, p: &[usize]) {
        access();
        self.0.permute(p)
    }
}
impl<E: Writeable> Writeable for SimEl<E> {
    fn write<B: std::io::Write>(&self, b: &mut B) -> std::io::Result<usize> {
        access();
        self.0.write(b)
    }
}

/// {"n","dim","seed","zeros","dups","clusters"}: what the elements of a run look like
#[derive(Clone, Debug)]
pub struct Data {
    pub n: usize,
    pub dim: usize,
    pub seed: u64,
    pub zeros: f64,
    pub dups: f64,
    pub clusters: usize,
    /// most words a summed element has
    pub words: usize,
    /// number of word embeddings, if not a few hundred
    pub vocab: usize,
}
impl Data {
    pub fn of(v: &Value) -> Data {
        Data {
            n: v["n"].as_u64().unwrap_or(0) as usize,
            dim: (v["dim"].as_u64().unwrap_or(3) as usize).max(1),
            seed: v["seed"].as_u64().unwrap_or(1),
            zeros: v["zeros"].as_f64().unwrap_or(0.0),
            dups: v["dups"].as_f64().unwrap_or(0.0),
            clusters: v["clusters"].as_u64().unwrap_or(0) as usize,
            words: (v["words"].as_u64().unwrap_or(4) as usize).clamp(1, 1000),
            vocab: v["vocab"].as_u64().unwrap_or(0).min(80_000) as usize,
        }
    }
    /// raw float vector number i (any i)
    pub fn raw(&self, i: usize) -> Vec<f32> {
        let mut r = Rng::new(mix(self.seed ^ mix(i as u64 + 1)));
        let a = r.f();
        if a < self.zeros {
            return vec![0.0; self.dim];
        }
        if i > 0 && a < self.zeros + self.dups {
            return self.raw(r.below(i));
        }
        let scale = if r.chance(0.2) { [1e-3, 7.0, 1e4][r.below(3)] } else { 1.0 };
        let mut v: Vec<f32> = (0..self.dim).map(|_| (r.gauss() * scale) as f32).collect();
        if self.clusters > 0 {
            let mut c = Rng::new(mix(self.seed ^ 0xabcdef ^ r.below(self.clusters) as u64));
            for x in v.iter_mut() {
                *x = *x * 0.25 + (c.gauss() * scale) as f32;
            }
        }
        if v.iter().all(|x| *x == 0.0) {
            v[0] = 1.0;
        }
        v
    }
    pub fn query(&self, i: usize) -> Vec<f32> {
        Data { zeros: 0.0, dups: 0.0, ..self.clone() }.raw(1_000_000 + i)
    }
    /// ids of the words of summed element i
    pub fn words(&self, i: usize) -> Vec<usize> {
        let mut r = Rng::new(mix(self.seed ^ 0x77 ^ mix(i as u64 + 1)));
        let a = r.f();
        if a < self.zeros {
            return vec![];
        }
        if i > 0 && a < self.zeros + self.dups {
            return self.words(r.below(i));
        }
        let k = r.range(1, self.words);
        (0..k).map(|_| r.below(self.vocab())).collect()
    }
    pub fn vocab(&self) -> usize {
        if self.vocab > 0 {
            return self.vocab;
        }
        40 + (self.seed % 300) as usize
    }
    pub fn word_vec(&self, w: usize) -> Vec<f32> {
        let mut r = Rng::new(mix(self.seed ^ 0x99 ^ mix(w as u64 + 1)));
        (0..self.dim).map(|_| r.gauss() as f32).collect()
    }
}

/// The three element types of the library behind one interface.
pub trait Kind: 'static {
    type C: ElementContainer<Element = Self::E>
        + ExtendableElementContainer<InternalElement = Self::I>
        + Permutable
        + Writeable
        + Clone
        + Sync
        + Send
        + 'static;
    type E: Send + Sync + Clone + 'static;
    type I: Send + Sync + Clone + 'static;
    fn name() -> &'static str;
    fn empty(d: &Data) -> Self::C;
    fn internal(d: &Data, i: usize) -> Self::I;
    fn make(d: &Data, n: usize) -> Self::C {
        let mut c = Self::empty(d);
        for i in 0..n {
            c.push(Self::internal(d, i));
        }
        c
    }
    /// an element that cannot be stored or indexed beside the others
    fn bad(d: &Data) -> Self::I;
    fn bad_content(d: &Data) -> Vec<u8>;
    fn query(d: &Data, i: usize) -> Self::E;
    /// exact content of a stored element
    fn content(c: &Self::C, i: usize) -> Vec<u8>;
    /// exact content that data element i must have
    fn expect(d: &Data, i: usize) -> Vec<u8>;
    /// the vector a stored element stands for, as f64
    fn vec_of(e: &Self::E) -> Vec<f64>;
    fn load(d: &Data, bytes: &[u8]) -> Self::C;
    /// the distance that two elements have
    fn dist(a: &[f64], b: &[f64]) -> f64 {
        crate::model::ref_dist(a, b)
    }
    /// whether the element has no distance of zero to itself, and is not to be indexed
    fn is_null(e: &Self::E) -> bool {
        Self::vec_of(e).iter().all(|x| *x == 0.0)
    }
}

pub struct F32;
pub struct I8;
pub struct Sum;
/// A type of elements that is not granne's, with another distance.
pub struct Own;

#[derive(Clone, PartialEq)]
pub struct OwnEl(pub Vec<f32>);
impl granne::Dist<OwnEl> for OwnEl {
    fn dist(&self, other: &OwnEl) -> NotNan<f32> {
        let d: f64 = self.0.iter().zip(&other.0).map(|(a, b)| (*a as f64 - *b as f64).powi(2)).sum();
        NotNan::new(d.sqrt() as f32).unwrap()
    }
}
/// granne's implementation for `Vec<E>`, with what granne leaves to its user
#[derive(Clone, Default)]
pub struct OwnEls(pub Vec<OwnEl>);
impl ElementContainer for OwnEls {
    type Element = OwnEl;
    fn get(&self, idx: usize) -> OwnEl {
        ElementContainer::get(&self.0, idx)
    }
    fn len(&self) -> usize {
        ElementContainer::len(&self.0)
    }
    fn dist_to_element(&self, idx: usize, e: &OwnEl) -> NotNan<f32> {
        ElementContainer::dist_to_element(&self.0, idx, e)
    }
    fn dist(&self, i: usize, j: usize) -> NotNan<f32> {
        // the one for slices, here
        ElementContainer::dist(&&self.0[..], i, j)
    }
    fn dists(&self, idx: usize, others: &[usize]) -> Vec<NotNan<f32>> {
        if idx % 2 == 0 {
            ElementContainer::dists(&&self.0[..], idx, others)
        } else {
            ElementContainer::dists(&self.0, idx, others)
        }
    }
}
impl ExtendableElementContainer for OwnEls {
    type InternalElement = OwnEl;
    fn push(&mut self, e: OwnEl) {
        assert!(self.0.first().map_or(true, |x| x.0.len() == e.0.len()));
        self.0.push(e)
    }
}
impl Permutable for OwnEls {
    fn permute(&mut self, p: &[usize]) {
        assert_eq!(p.len(), self.0.len());
        self.0 = p.iter().map(|i| self.0[*i].clone()).collect();
    }
}
impl Writeable for OwnEls {
    fn write<B: std::io::Write>(&self, b: &mut B) -> std::io::Result<usize> {
        for e in &self.0 {
            b.write_all(&bytes_f32(&e.0))?;
        }
        Ok(self.0.iter().map(|e| 4 * e.0.len()).sum())
    }
}
impl Kind for Own {
    type C = SimEl<OwnEls>;
    type E = OwnEl;
    type I = OwnEl;
    fn name() -> &'static str {
        "own"
    }
    fn empty(_: &Data) -> Self::C {
        Default::default()
    }
    fn internal(d: &Data, i: usize) -> OwnEl {
        // on a coarse grid in some runs, where many distances are equal
        let grid = if d.seed % 4 == 0 && d.dups > 0.0 { 2.0 } else { 1e6 };
        OwnEl(d.raw(i).iter().map(|x| (0.3 * x.asinh() * grid).round() / grid).collect())
    }
    fn bad(d: &Data) -> OwnEl {
        OwnEl(vec![1.0; d.dim + 1])
    }
    fn bad_content(_: &Data) -> Vec<u8> {
        vec![]
    }
    fn query(d: &Data, i: usize) -> OwnEl {
        OwnEl(d.query(i).iter().map(|x| 0.3 * x.asinh()).collect())
    }
    fn content(c: &Self::C, i: usize) -> Vec<u8> {
        bytes_f32(&c.0 .0[i].0)
    }
    fn expect(d: &Data, i: usize) -> Vec<u8> {
        bytes_f32(&Self::internal(d, i).0)
    }
    fn vec_of(e: &OwnEl) -> Vec<f64> {
        e.0.iter().map(|x| *x as f64).collect()
    }
    fn load(d: &Data, bytes: &[u8]) -> Self::C {
        let f: Vec<f32> = bytes.chunks_exact(4).map(|x| f32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect();
        SimEl(OwnEls(f.chunks(d.dim).map(|x| OwnEl(x.to_vec())).collect()))
    }
    fn dist(a: &[f64], b: &[f64]) -> f64 {
        a.iter().zip(b).map(|(a, b)| (a - b).powi(2)).sum::<f64>().sqrt()
    }
    fn is_null(_: &OwnEl) -> bool {
        false
    }
}

pub fn bytes_f32(v: &[f32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect()
}
pub fn bytes_i8(v: &[i8]) -> Vec<u8> {
    v.iter().map(|x| *x as u8).collect()
}
pub fn bytes_ids(v: &[usize]) -> Vec<u8> {
    v.iter().flat_map(|x| (*x as u64).to_le_bytes()).collect()
}

impl Kind for F32 {
    type C = SimEl<angular::Vectors<'static>>;
    type E = angular::Vector<'static>;
    type I = angular::Vector<'static>;
    fn name() -> &'static str {
        "f32"
    }
    fn empty(_: &Data) -> Self::C {
        SimEl(angular::Vectors::new())
    }
    fn internal(d: &Data, i: usize) -> Self::I {
        d.raw(i).into()
    }
    fn bad(d: &Data) -> Self::I {
        vec![1.0f32; d.dim + 1].into()
    }
    fn bad_content(_: &Data) -> Vec<u8> {
        vec![] // cannot be stored at all
    }
    fn query(d: &Data, i: usize) -> Self::E {
        d.query(i).into()
    }
    fn content(c: &Self::C, i: usize) -> Vec<u8> {
        bytes_f32(c.0.get_element(i).as_slice())
    }
    fn expect(d: &Data, i: usize) -> Vec<u8> {
        bytes_f32(Self::internal(d, i).as_slice())
    }
    fn vec_of(e: &Self::E) -> Vec<f64> {
        e.as_slice().iter().map(|x| *x as f64).collect()
    }
    fn load(_: &Data, bytes: &[u8]) -> Self::C {
        SimEl(angular::Vectors::from_bytes(bytes).into_owned())
    }
}
impl Kind for I8 {
    type C = SimEl<angular_int::Vectors<'static>>;
    type E = angular_int::Vector<'static>;
    type I = angular_int::Vector<'static>;
    fn name() -> &'static str {
        "i8"
    }
    fn empty(_: &Data) -> Self::C {
        SimEl(angular_int::Vectors::new())
    }
    fn internal(d: &Data, i: usize) -> Self::I {
        d.raw(i).into()
    }
    fn bad(d: &Data) -> Self::I {
        vec![1.0f32; d.dim + 1].into()
    }
    fn bad_content(_: &Data) -> Vec<u8> {
        vec![] // cannot be stored at all
    }
    fn query(d: &Data, i: usize) -> Self::E {
        d.query(i).into()
    }
    fn content(c: &Self::C, i: usize) -> Vec<u8> {
        bytes_i8(c.0.get_element(i).as_slice())
    }
    fn expect(d: &Data, i: usize) -> Vec<u8> {
        bytes_i8(Self::internal(d, i).as_slice())
    }
    fn vec_of(e: &Self::E) -> Vec<f64> {
        e.as_slice().iter().map(|x| *x as f64).collect()
    }
    fn load(_: &Data, bytes: &[u8]) -> Self::C {
        SimEl(angular_int::Vectors::from_bytes(bytes).into_owned())
    }
}
/// the word embeddings of `d`
pub fn sum_base(d: &Data) -> SumEmbeddings<'static> {
    let mut s = SumEmbeddings::new();
    for w in 0..d.vocab() {
        s.push_embedding(&d.word_vec(w));
    }
    s
}
impl Kind for Sum {
    type C = SimEl<SumEmbeddings<'static>>;
    type E = angular::Vector<'static>;
    type I = Vec<usize>;
    fn name() -> &'static str {
        "sum"
    }
    fn empty(d: &Data) -> Self::C {
        SimEl(sum_base(d))
    }
    fn internal(d: &Data, i: usize) -> Self::I {
        d.words(i)
    }
    fn bad(d: &Data) -> Self::I {
        vec![d.vocab() + 7]
    }
    fn bad_content(d: &Data) -> Vec<u8> {
        bytes_ids(&Self::bad(d))
    }
    fn query(d: &Data, i: usize) -> Self::E {
        d.query(i).into()
    }
    fn content(c: &Self::C, i: usize) -> Vec<u8> {
        bytes_ids(&c.0.get_terms(i))
    }
    fn expect(d: &Data, i: usize) -> Vec<u8> {
        bytes_ids(&d.words(i))
    }
    fn vec_of(e: &Self::E) -> Vec<f64> {
        e.as_slice().iter().map(|x| *x as f64).collect()
    }
    fn load(d: &Data, bytes: &[u8]) -> Self::C {
        let e = SumEmbeddings::from_bytes(Default::default(), bytes);
        let mut s = sum_base(d);
        for i in 0..e.len() {
            s.push(e.get_terms(i));
        }
        SimEl(s)
    }
}

/// A copy of `b` at a 64-byte aligned address, plus `shift` bytes.
pub struct Buf {
    v: Vec<u8>,
    start: usize,
    len: usize,
}
impl Buf {
    pub fn new(b: &[u8], shift: usize) -> Buf {
        let mut v = vec![0u8; b.len() + 128 + shift];
        let a = v.as_ptr() as usize;
        let start = ((a + 63) & !63) - a + shift;
        v[start..start + b.len()].copy_from_slice(b);
        Buf { v, start, len: b.len() }
    }
}
impl std::ops::Deref for Buf {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.v[self.start..self.start + self.len]
    }
}
pub fn aligned(b: &[u8]) -> Buf {
    Buf::new(b, 0)
}

pub fn gen_data(r: &mut Rng, lo: usize, hi: usize) -> Value {
    let zeros = if r.chance(0.25) { r.pick(&[0.05, 0.3, 1.0]) } else { 0.0 };
    let dups = if r.chance(0.3) { r.pick(&[0.1, 0.5, 1.0]) } else { 0.0 };
    let mut v = json!({"n": r.small(lo, hi), "dim": r.range(1, 12), "seed": r.next() >> 20, "zeros": zeros, "dups": dups});
    if r.chance(0.25) {
        v["words"] = json!(r.pick(&[1, 9, 12, 30, 100]));
    }
    if r.chance(0.06) {
        v["dim"] = json!(r.range(13, 80));
    }
    if r.chance(0.3) {
        v["clusters"] = json!(r.range(1, 5));
    }
    v
}
/// All elements distinct and non-zero
pub fn gen_distinct(r: &mut Rng, lo: usize, hi: usize) -> Value {
    let mut v = json!({"n": r.small(lo, hi), "dim": r.range(6, 14), "seed": r.next() >> 20, "zeros": 0.0, "dups": 0.0});
    if r.chance(0.2) {
        v["clusters"] = json!(r.range(1, 4));
    }
    v
}
