//! Independent reference models.
use granne::Index;
use std::collections::{HashMap, HashSet, VecDeque};

/// Layer sizes of an index with `total` expected elements, `m` multiplier, built up to `k` elements: all
/// acceptable variants (floor/ceil of values that are within rounding error of an integer are ambiguous).
pub fn layer_sizes(total: usize, m: f64, k: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    for fe in [0.0, 1e-9, -1e-9] {
        for ce in [0.0, 1e-9, -1e-9] {
            let n = total as f64;
            let top = (n.ln() / m.ln() + fe).floor();
            let mut v = vec![];
            if k > 0 {
                let mut i = 0usize;
                loop {
                    let x = n / m.powf(top - i as f64);
                    let s = ((x * (1.0 + ce)).ceil() as usize).min(total);
                    v.push(s.min(k));
                    if s >= k {
                        break;
                    }
                    i += 1;
                    if i > 100_000 {
                        break;
                    }
                }
            }
            if !out.contains(&v) {
                out.push(v);
            }
        }
    }
    out
}
pub fn sizes_of(ix: &dyn LayerView) -> Vec<usize> {
    (0..ix.layers()).map(|l| ix.size(l)).collect()
}

/// What an index looks like from outside.
pub trait LayerView {
    fn layers(&self) -> usize;
    fn size(&self, layer: usize) -> usize;
    fn nbrs(&self, i: usize, layer: usize) -> Vec<usize>;
}
impl<T: Index> LayerView for T {
    fn layers(&self) -> usize {
        self.num_layers()
    }
    fn size(&self, layer: usize) -> usize {
        self.layer_len(layer)
    }
    fn nbrs(&self, i: usize, layer: usize) -> Vec<usize> {
        self.get_neighbors(i, layer)
    }
}

/// A plain copy of a graph: layers of neighbor lists.
#[derive(Clone, PartialEq, Debug)]
pub struct G(pub Vec<Vec<Vec<usize>>>);
impl G {
    pub fn of(ix: &dyn LayerView) -> G {
        G((0..ix.layers()).map(|l| (0..ix.size(l)).map(|i| ix.nbrs(i, l)).collect()).collect())
    }
    /// neighbor order is not part of the meaning
    pub fn sets(mut self) -> G {
        for l in self.0.iter_mut() {
            for n in l.iter_mut() {
                n.sort();
            }
        }
        self
    }
    pub fn len(&self) -> usize {
        self.0.last().map_or(0, |l| l.len())
    }
    pub fn sizes(&self) -> Vec<usize> {
        self.0.iter().map(|l| l.len()).collect()
    }
    /// first difference to `o`
    pub fn diff(&self, o: &G) -> Option<String> {
        if self.sizes() != o.sizes() {
            return Some(format!("layer sizes {:?} vs {:?}", self.sizes(), o.sizes()));
        }
        for (l, (a, b)) in self.0.iter().zip(&o.0).enumerate() {
            for i in 0..a.len() {
                if a[i] != b[i] {
                    return Some(format!("layer {} node {}: {:?} vs {:?}", l, i, a[i], b[i]));
                }
            }
        }
        None
    }
}

/// Well-formedness of all lists; `cap(layer)` = the largest allowed list.
pub fn well_formed(g: &G, cap: &dyn Fn(usize) -> usize) -> Option<String> {
    for (l, layer) in g.0.iter().enumerate() {
        for (i, ns) in layer.iter().enumerate() {
            let mut seen = HashSet::new();
            for &n in ns {
                if n >= layer.len() {
                    return Some(format!("layer {} node {}: neighbor {} does not exist (layer has {})", l, i, n, layer.len()));
                }
                if n == i {
                    return Some(format!("layer {} node {} is its own neighbor: {:?}", l, i, ns));
                }
                if !seen.insert(n) {
                    return Some(format!("layer {} node {}: neighbor {} twice: {:?}", l, i, n, ns));
                }
            }
            if ns.len() > cap(l) {
                return Some(format!("layer {} node {}: {} neighbors, allowed {}", l, i, ns.len(), cap(l)));
            }
        }
    }
    None
}
/// Elements flagged zero (except 0) are isolated.
pub fn zeros_isolated(g: &G, zero: &dyn Fn(usize) -> bool) -> Option<String> {
    for (l, layer) in g.0.iter().enumerate() {
        for (i, ns) in layer.iter().enumerate() {
            if i > 0 && zero(i) && !ns.is_empty() {
                return Some(format!("layer {}: zero element {} has neighbors {:?}", l, i, ns));
            }
            if let Some(z) = ns.iter().find(|&&n| n > 0 && zero(n)) {
                return Some(format!("layer {}: zero element {} is a neighbor of {}", l, z, i));
            }
        }
    }
    None
}
pub fn symmetric(g: &G) -> Option<String> {
    for (l, layer) in g.0.iter().enumerate() {
        let sets: Vec<HashSet<usize>> = layer.iter().map(|n| n.iter().copied().collect()).collect();
        for (i, ns) in layer.iter().enumerate() {
            for &n in ns {
                if !sets[n].contains(&i) {
                    return Some(format!("layer {}: link {} -> {} has no counterpart; {}: {:?}, {}: {:?}", l, i, n, i, ns, n, layer[n]));
                }
            }
        }
    }
    None
}
pub fn reach(layer: &[Vec<usize>], from: usize) -> HashSet<usize> {
    let mut seen = HashSet::new();
    let mut q = VecDeque::new();
    seen.insert(from);
    q.push_back(from);
    while let Some(i) = q.pop_front() {
        for &n in &layer[i] {
            if n < layer.len() && seen.insert(n) {
                q.push_back(n);
            }
        }
    }
    seen
}
/// every layer completely reachable from element 0
pub fn connected(g: &G) -> Option<String> {
    for (l, layer) in g.0.iter().enumerate() {
        if layer.is_empty() {
            continue;
        }
        let r = reach(layer, 0);
        if r.len() != layer.len() {
            let lost: Vec<usize> = (0..layer.len()).filter(|i| !r.contains(i)).take(5).collect();
            return Some(format!("layer {}: {} of {} elements cannot be reached, e.g. {:?}", l, layer.len() - r.len(), layer.len(), lost));
        }
    }
    None
}

/// 1 - cos in f64; zero vectors are at distance 1 from everything
pub fn ref_dist(a: &[f64], b: &[f64]) -> f64 {
    let dot: f64 = a.iter().zip(b).map(|(x, y)| x * y).sum();
    let na: f64 = a.iter().map(|x| x * x).sum();
    let nb: f64 = b.iter().map(|x| x * x).sum();
    if na == 0.0 || nb == 0.0 {
        return 1.0;
    }
    (1.0 - dot / (na.sqrt() * nb.sqrt())).max(0.0)
}
pub const TOL: f64 = 1e-5;

/// A search answer that cannot be wrong in itself: bounded, unique, valid, true distances, sorted.
pub fn truthful(res: &[(usize, f32)], k: usize, budget: usize, valid: usize, dist: &dyn Fn(usize) -> f64) -> Option<String> {
    if res.len() > k || res.len() > budget {
        return Some(format!("{} results for k={} and budget {}", res.len(), k, budget));
    }
    let mut seen = HashSet::new();
    let mut last = f32::NEG_INFINITY;
    for &(i, d) in res {
        if i >= valid {
            return Some(format!("result {} is not an indexed element (there are {})", i, valid));
        }
        if !seen.insert(i) {
            return Some(format!("result {} listed twice", i));
        }
        let t = dist(i);
        if !((d as f64 - t).abs() <= TOL) {
            return Some(format!("result {} has distance {} instead of {}", i, d, t));
        }
        if d < last {
            return Some(format!("results not in increasing order: {} after {}", d, last));
        }
        last = d;
    }
    None
}
/// `res` is the exact answer over all elements 0..n
pub fn exact_knn(res: &[(usize, f32)], k: usize, n: usize, dist: &dyn Fn(usize) -> f64) -> Option<String> {
    if res.len() != k.min(n) {
        return Some(format!("{} results instead of {}", res.len(), k.min(n)));
    }
    let mut all: Vec<f64> = (0..n).map(|i| dist(i)).collect();
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for (j, &(i, d)) in res.iter().enumerate() {
        if (d as f64 - all[j]).abs() > TOL {
            return Some(format!("rank {} is element {} at {}, but the true distance of that rank is {}", j, i, d, all[j]));
        }
    }
    None
}
/// Same answer, up to the order (and choice at the cut) of equal distances.
pub fn same_answer(a: &[(usize, f32)], b: &[(usize, f32)]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} vs {} results", a.len(), b.len()));
    }
    for (x, y) in a.iter().zip(b) {
        if x.1.to_bits() != y.1.to_bits() && (x.1 - y.1).abs() > 0.0 {
            return Some(format!("distances differ: {:?} vs {:?}", x, y));
        }
    }
    // ids per distance value must agree except at the last distance (cut)
    let group = |r: &[(usize, f32)]| {
        let mut m: HashMap<u32, Vec<usize>> = HashMap::new();
        for (i, d) in r {
            m.entry((d + 0.0).to_bits()).or_default().push(*i);
        }
        for v in m.values_mut() {
            v.sort();
        }
        m
    };
    let (ga, gb) = (group(a), group(b));
    let last = a.last().map(|x| (x.1 + 0.0).to_bits());
    for (d, v) in &ga {
        if Some(*d) == last {
            continue;
        }
        if gb.get(d) != Some(v) {
            return Some(format!("elements at distance {} differ: {:?} vs {:?}", f32::from_bits(*d), v, gb.get(d)));
        }
    }
    None
}

// ------------------------------------------------------------------ the on-disk index format, independently
/// stream-vbyte with scalar layout: control bytes first (2 bits per number), then little-endian data
fn svb(nums: &[u32]) -> Vec<u8> {
    let mut ctl = vec![0u8; (nums.len() + 3) / 4];
    let mut data = vec![];
    for (i, &x) in nums.iter().enumerate() {
        let n = if x < 1 << 8 { 1 } else if x < 1 << 16 { 2 } else if x < 1 << 24 { 3 } else { 4 };
        ctl[i / 4] |= ((n - 1) as u8) << (2 * (i % 4));
        data.extend_from_slice(&x.to_le_bytes()[..n]);
    }
    ctl.extend(data);
    ctl
}
pub fn encode_list(list: &[u32]) -> Vec<u8> {
    let mut l = list.to_vec();
    l.sort();
    let mut d: Vec<u32> = l.iter().enumerate().map(|(i, &x)| if i == 0 { x } else { x - l[i - 1] }).collect();
    let count = d.len();
    while d.len() < 4 {
        d.push(0);
    }
    let mut e = svb(&d);
    if e.len() >= 4 * count {
        e = d[..count].iter().flat_map(|x| x.to_le_bytes()).collect();
    }
    let mut out = vec![count as u8];
    out.extend(e);
    out
}
/// An index file with the given neighbor lists.
pub fn encode_index(layers: &[Vec<Vec<u32>>]) -> Vec<u8> {
    encode_release(layers, "0.5.0", 0)
}
/// The same as an earlier release wrote it: its version in the metadata, laid out in one of several ways.
pub fn encode_release(layers: &[Vec<Vec<u32>>], version: &str, style: usize) -> Vec<u8> {
    let mut body = vec![];
    let mut sizes = vec![];
    for l in layers {
        let mut offs = vec![0usize];
        let mut data = vec![];
        for n in l {
            data.extend(encode_list(n));
            offs.push(data.len());
        }
        let mut chunks = vec![];
        for c in offs.chunks(60) {
            chunks.extend_from_slice(&(c[0] as u64).to_le_bytes());
            for k in 0..60 {
                let d: u16 = if k >= c.len() {
                    u16::MAX
                } else if k == 0 {
                    0
                } else {
                    (c[k] - c[k - 1]) as u16
                };
                chunks.extend_from_slice(&d.to_le_bytes());
            }
        }
        sizes.push(8 + chunks.len() + data.len());
        body.extend_from_slice(&(chunks.len() as u64).to_le_bytes());
        body.extend(chunks);
        body.extend(data);
    }
    let counts: Vec<usize> = layers.iter().map(|l| l.len()).collect();
    let meta = serde_json::json!({"granne_version": version, "version": 2, "num_elements": counts.last().copied().unwrap_or(0),
        "num_layers": layers.len(), "num_neighbors": layers.last().and_then(|l| l.first()).map_or(0, |l| l.len()),
        "layer_counts": counts, "layer_sizes": sizes, "compressed": true});
    let meta = match style {
        1 => format!("{:#}", meta),
        2 => {
            // members in the order they were added
            let keys = ["granne_version", "version", "num_elements", "num_layers", "num_neighbors", "layer_counts", "layer_sizes", "compressed"];
            let m: Vec<String> = keys.iter().map(|k| format!("\"{}\":{}", k, meta[*k])).collect();
            format!("{{{}}}", m.join(","))
        }
        _ => meta.to_string(),
    };
    let mut out = format!("granne{}", meta).into_bytes();
    assert!(out.len() <= 1024);
    out.resize(1024, b' ');
    out.extend(body);
    out
}
/// A file of equally long vectors: width, then the numbers.
pub fn encode_fixed(width: usize, data: &[u8]) -> Vec<u8> {
    let mut out = (width as u64).to_le_bytes().to_vec();
    out.extend_from_slice(data);
    out
}
/// A file of word id lists: count, cumulative five-byte ends (starting with 0), three-byte ids.
pub fn encode_lists(lists: &[Vec<usize>]) -> Vec<u8> {
    let mut out = (lists.len() as u64).to_le_bytes().to_vec();
    let mut end = 0u64;
    out.extend_from_slice(&end.to_le_bytes()[..5]);
    for l in lists {
        end += l.len() as u64;
        out.extend_from_slice(&end.to_le_bytes()[..5]);
    }
    for l in lists {
        for &x in l {
            out.extend_from_slice(&(x as u32).to_le_bytes()[..3]);
        }
    }
    out
}
