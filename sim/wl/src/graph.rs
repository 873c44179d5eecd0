//! Random computation graphs: one description, evaluated by the library and by a small,
//! independent reference (forward values and reverse-mode gradients over plain f64 arrays).
use crate::gen::Gen;
use crate::num::Elem;
use rust_light::tensor::{functional, RcTensor, TensorLike};

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Leaf(usize),
    MatMul(usize, usize),
    /// third field: which of the library's operator forms is used
    Add(usize, usize, u8),
    Sub(usize, usize, u8),
    Neg(usize),
    Abs(usize),
    Relu(usize),
    Tanh(usize),
    Sum(usize),
    Dot(usize, usize),
}

#[derive(Clone, Debug)]
pub struct RefT {
    pub shape: Vec<usize>,
    pub data: Vec<f64>,
}
impl RefT {
    pub fn count(&self) -> usize {
        self.data.len()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Graph {
    pub nodes: Vec<Node>,
    pub vals: Vec<RefT>,
    /// values are small integers (sums and products of them are exact in f64)
    pub exact: Vec<bool>,
    pub nleaves: usize,
}

pub fn prod(s: &[usize]) -> usize {
    s.iter().product()
}

/// row-major index of `idx` (of the broadcast shape) into `shape`
fn bidx(idx: &[usize], shape: &[usize]) -> usize {
    let off = idx.len() - shape.len();
    let mut g = 0;
    for (i, &d) in shape.iter().enumerate() {
        g = g * d + if d == 1 { 0 } else { idx[off + i] };
    }
    g
}
pub fn unravel(mut k: usize, shape: &[usize]) -> Vec<usize> {
    let mut v = vec![0; shape.len()];
    for i in (0..shape.len()).rev() {
        v[i] = k % shape[i];
        k /= shape[i];
    }
    v
}
pub fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let mut r = vec![0; n];
    for i in 0..n {
        let x = if i + a.len() >= n { a[i + a.len() - n] } else { 1 };
        let y = if i + b.len() >= n { b[i + b.len() - n] } else { 1 };
        if x != y && x != 1 && y != 1 {
            return None;
        }
        r[i] = x.max(y);
    }
    Some(r)
}

pub fn ref_matmul(a: &RefT, b: &RefT) -> RefT {
    let (n, kk) = (b.shape[1], b.shape[0]);
    let rows = prod(&a.shape[..a.shape.len() - 1]);
    let mut data = vec![0.0; rows * n];
    for i in 0..rows {
        for j in 0..n {
            let mut s = 0.0;
            for k in 0..kk {
                s += a.data[i * kk + k] * b.data[k * n + j];
            }
            data[i * n + j] = s;
        }
    }
    let mut shape = a.shape.clone();
    *shape.last_mut().unwrap() = n;
    RefT { shape, data }
}

pub fn eval(n: &Node, v: &[RefT]) -> Option<RefT> {
    let map = |a: usize, f: fn(f64) -> f64| RefT { shape: v[a].shape.clone(), data: v[a].data.iter().map(|&x| f(x)).collect() };
    Some(match *n {
        Node::Leaf(_) => return None,
        Node::MatMul(a, b) => {
            if v[a].shape.len() != 2 || v[b].shape.len() != 2 || v[a].shape[1] != v[b].shape[0] {
                return None;
            }
            ref_matmul(&v[a], &v[b])
        }
        Node::Add(a, b, _) | Node::Sub(a, b, _) => {
            let s = bshape(&v[a].shape, &v[b].shape)?;
            let sg = if matches!(n, Node::Sub(..)) { -1.0 } else { 1.0 };
            let data = (0..prod(&s))
                .map(|k| {
                    let i = unravel(k, &s);
                    v[a].data[bidx(&i, &v[a].shape)] + sg * v[b].data[bidx(&i, &v[b].shape)]
                })
                .collect();
            RefT { shape: s, data }
        }
        Node::Neg(a) => map(a, |x| -x),
        Node::Abs(a) => map(a, f64::abs),
        Node::Relu(a) => map(a, |x| if x < 0.0 { 0.0 } else { x }),
        Node::Tanh(a) => map(a, f64::tanh),
        Node::Sum(a) => RefT { shape: vec![], data: vec![v[a].data.iter().sum()] },
        Node::Dot(a, b) => {
            if v[a].shape != v[b].shape {
                return None;
            }
            RefT { shape: vec![1], data: vec![v[a].data.iter().zip(&v[b].data).map(|(x, y)| x * y).sum()] }
        }
    })
}

impl Graph {
    pub fn leaf(&mut self, shape: Vec<usize>, data: Vec<f64>) -> usize {
        assert_eq!(prod(&shape), data.len());
        let k = self.nleaves;
        self.nleaves += 1;
        self.nodes.push(Node::Leaf(k));
        self.vals.push(RefT { shape, data });
        self.exact.push(true);
        self.nodes.len() - 1
    }
    pub fn leaf_gen(&mut self, g: &mut Gen, shape: Vec<usize>) -> usize {
        let d = (0..prod(&shape)).map(|_| g.value()).collect();
        self.leaf(shape, d)
    }
    /// add a node if it is well-shaped, numerically tame and away from kinks
    pub fn push(&mut self, n: Node) -> Option<usize> {
        let r = eval(&n, &self.vals)?;
        let limit = if matches!(n, Node::Sum(_)) { 1e12 } else { 1e7 };
        if r.data.iter().any(|x| !x.is_finite() || x.abs() > limit) {
            return None;
        }
        let exact = match n {
            Node::Leaf(_) => true,
            Node::Tanh(_) => false,
            Node::MatMul(a, b) | Node::Add(a, b, _) | Node::Sub(a, b, _) | Node::Dot(a, b) => self.exact[a] && self.exact[b],
            Node::Neg(a) | Node::Abs(a) | Node::Relu(a) | Node::Sum(a) => self.exact[a],
        };
        if let Node::Abs(a) | Node::Relu(a) = n {
            if self.vals[a].data.iter().any(|x| x.abs() < 1e-5) {
                return None; // not differentiable there
            }
        }
        if let Node::Tanh(a) = n {
            if self.vals[a].count() > 12 {
                return None; // the library expands a full jacobian: keep runs short
            }
        }
        self.nodes.push(n);
        self.vals.push(r);
        self.exact.push(exact);
        Some(self.nodes.len() - 1)
    }
    /// cost of evaluating and differentiating, roughly in spawned tasks
    pub fn cost(&self, n: &Node) -> usize {
        match *n {
            Node::MatMul(a, b) => {
                let (x, y) = (&self.vals[a].shape, &self.vals[b].shape);
                if x.len() == 2 && y.len() == 2 { x[0] * x[1] * y[1] } else { 0 }
            }
            _ => 0,
        }
    }
    /// gradients of all nodes for `root` (one element), seeded with 1
    pub fn grads(&self, root: usize) -> Vec<Option<Vec<f64>>> {
        let mut gr: Vec<Option<Vec<f64>>> = vec![None; self.nodes.len()];
        gr[root] = Some(vec![1.0; self.vals[root].count()]);
        for k in (0..=root).rev() {
            let Some(g) = gr[k].clone() else { continue };
            let v = &self.vals;
            let mut acc = |i: usize, d: Vec<f64>| match &mut gr[i] {
                Some(x) => x.iter_mut().zip(d).for_each(|(a, b)| *a += b),
                s => *s = Some(d),
            };
            let reduce = |i: usize, sg: f64| {
                let mut d = vec![0.0; v[i].count()];
                for (q, &x) in g.iter().enumerate() {
                    d[bidx(&unravel(q, &v[k].shape), &v[i].shape)] += sg * x;
                }
                d
            };
            match self.nodes[k] {
                Node::Leaf(_) => {}
                Node::MatMul(a, b) => {
                    let (m, kk, n) = (v[a].shape[0], v[a].shape[1], v[b].shape[1]);
                    let mut da = vec![0.0; m * kk];
                    let mut db = vec![0.0; kk * n];
                    for i in 0..m {
                        for j in 0..n {
                            for q in 0..kk {
                                da[i * kk + q] += g[i * n + j] * v[b].data[q * n + j];
                                db[q * n + j] += g[i * n + j] * v[a].data[i * kk + q];
                            }
                        }
                    }
                    acc(a, da);
                    acc(b, db);
                }
                Node::Add(a, b, _) => {
                    let (x, y) = (reduce(a, 1.0), reduce(b, 1.0));
                    acc(a, x);
                    acc(b, y);
                }
                Node::Sub(a, b, _) => {
                    let (x, y) = (reduce(a, 1.0), reduce(b, -1.0));
                    acc(a, x);
                    acc(b, y);
                }
                Node::Neg(a) => acc(a, g.iter().map(|x| -x).collect()),
                Node::Abs(a) => acc(a, g.iter().zip(&v[a].data).map(|(x, y)| if *y >= 0.0 { *x } else { -x }).collect()),
                Node::Relu(a) => acc(a, g.iter().zip(&v[a].data).map(|(x, y)| if *y < 0.0 { 0.0 } else { *x }).collect()),
                Node::Tanh(a) => acc(a, g.iter().zip(&v[a].data).map(|(x, y)| x * (1.0 - y.tanh() * y.tanh())).collect()),
                Node::Sum(a) => acc(a, vec![g[0]; v[a].count()]),
                Node::Dot(a, b) => {
                    acc(a, v[b].data.iter().map(|y| g[0] * y).collect());
                    acc(b, v[a].data.iter().map(|y| g[0] * y).collect());
                }
            }
        }
        gr
    }
    /// number of distinct paths from root to each node (how often the library's recursion visits it)
    pub fn paths(&self, root: usize) -> Vec<u64> {
        let mut p = vec![0u64; self.nodes.len()];
        p[root] = 1;
        for k in (0..=root).rev() {
            let c = p[k];
            for i in inputs(&self.nodes[k]) {
                p[i] = p[i].saturating_add(c);
            }
        }
        p
    }
    pub fn reaches(&self, root: usize) -> Vec<bool> {
        self.paths(root).iter().map(|&x| x > 0).collect()
    }
    /// every node that is used inside the differentiation of `root` only with exact values
    pub fn exact_under(&self, root: usize) -> bool {
        let r = self.reaches(root);
        (0..self.nodes.len()).all(|i| !r[i] || self.exact[i])
    }
    /// an upper bound on every number that computing or differentiating the roots once can produce,
    /// whatever the order of additions
    pub fn magnitude(&self, roots: &[usize]) -> f64 {
        let mut a = Graph { nodes: vec![], vals: vec![], exact: self.exact.clone(), nleaves: self.nleaves };
        for (i, n) in self.nodes.iter().enumerate() {
            let n = match *n {
                Node::Sub(a, b, f) => Node::Add(a, b, f),
                Node::Neg(a) => Node::Abs(a),
                ref n => n.clone(),
            };
            let v = match eval(&n, &a.vals) {
                Some(v) => v,
                None => RefT { shape: self.vals[i].shape.clone(), data: self.vals[i].data.iter().map(|x| x.abs()).collect() },
            };
            a.nodes.push(n);
            a.vals.push(v);
        }
        let mut m: f64 = a.vals.iter().flat_map(|v| &v.data).fold(0.0, |m, x| m.max(*x));
        let mut total = vec![0.0; a.nodes.len()];
        for &r in roots {
            for (i, g) in a.grads(r).iter().enumerate() {
                total[i] += g.iter().flatten().fold(0.0, |m: f64, x| m.max(*x));
            }
        }
        m = total.into_iter().fold(m, f64::max);
        m
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (i, n) in self.nodes.iter().enumerate() {
            s.push_str(&format!("n{}={:?}{:?}", i, n, self.vals[i].shape));
            if let Node::Leaf(_) = n {
                if self.vals[i].count() <= 6 {
                    s.push_str(&format!("{:?}", self.vals[i].data));
                }
            }
            s.push_str("; ");
        }
        s
    }
    pub fn leaf_nodes(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|&i| matches!(self.nodes[i], Node::Leaf(_))).collect()
    }
}
pub fn inputs(n: &Node) -> Vec<usize> {
    match *n {
        Node::Leaf(_) => vec![],
        Node::MatMul(a, b) | Node::Add(a, b, _) | Node::Sub(a, b, _) | Node::Dot(a, b) => vec![a, b],
        Node::Neg(a) | Node::Abs(a) | Node::Relu(a) | Node::Tanh(a) | Node::Sum(a) => vec![a],
    }
}

// ------------------------------------------------------------------ the library side
pub fn to_lib<T: Elem>(r: &RefT) -> RcTensor<T> {
    RcTensor::new(r.data.iter().map(|&x| T::from_f(x)).collect(), r.shape.clone())
}
/// one library tensor per leaf (in leaf order)
pub fn lib_leaves<T: Elem>(g: &Graph) -> Vec<RcTensor<T>> {
    g.leaf_nodes().iter().map(|&i| to_lib(&g.vals[i])).collect()
}

/// evaluate node `k` with the library, sharing already built nodes through `cache`
pub fn build<T: Elem>(g: &Graph, k: usize, leaves: &[RcTensor<T>], cache: &mut Vec<Option<RcTensor<T>>>) -> RcTensor<T> {
    if let Some(t) = &cache[k] {
        return t.clone();
    }
    let mut get = |i: usize| build(g, i, leaves, cache);
    let t = match g.nodes[k] {
        Node::Leaf(i) => leaves[i].clone(),
        Node::MatMul(a, b) => {
            let (x, y) = (get(a), get(b));
            x.bmm(&y)
        }
        Node::Add(a, b, form) => {
            let (x, y) = (get(a), get(b));
            match form {
                0 => &x + &y,
                _ => x + y,
            }
        }
        Node::Sub(a, b, form) => {
            let (x, y) = (get(a), get(b));
            match form {
                0 => &x - &y,
                1 => x - y,
                _ => x - &y,
            }
        }
        Node::Neg(a) => -&get(a),
        Node::Abs(a) => T::abs_t(&get(a)),
        Node::Relu(a) => T::relu_t(&get(a)),
        Node::Tanh(a) => T::tanh_t(&get(a)),
        Node::Sum(a) => get(a).sum(),
        Node::Dot(a, b) => {
            let (x, y) = (get(a), get(b));
            functional::dot(&x, &y)
        }
    };
    cache[k] = Some(t.clone());
    t
}

static SCALE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// numbers up to this magnitude take part in the computation (rounding errors scale with it)
pub fn set_scale(m: f64) {
    SCALE.store(m.to_bits(), std::sync::atomic::Ordering::Relaxed);
}
pub fn close(a: f64, b: f64, exact: bool) -> bool {
    if exact {
        a == b || (a.is_nan() && b.is_nan())
    } else {
        (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs())) + 1e-11 * f64::from_bits(SCALE.load(std::sync::atomic::Ordering::Relaxed))
    }
}

/// all elements of a tensor-like, read through its public accessor
pub fn read<T: Elem, V: TensorLike<Elem = T>>(t: &V) -> (Vec<usize>, Vec<f64>) {
    let shape = t.shape().to_vec();
    let n = prod(&shape);
    let data = (0..n)
        .map(|k| match TensorLike::get(t, &unravel(k, &shape)) {
            Ok(x) => x.to_f(),
            Err(e) => panic!("element {:?} of a tensor of shape {:?} cannot be read: {}", unravel(k, &shape), shape, e),
        })
        .collect();
    (shape, data)
}

/// None when it matches
pub fn diff<T: Elem, V: TensorLike<Elem = T>>(t: &V, shape: &[usize], data: &[f64], exact: bool) -> Option<String> {
    let (s, d) = read(t);
    if s != shape {
        return Some(format!("shape is {:?}, expected {:?}", s, shape));
    }
    for k in 0..d.len() {
        if !close(d[k], data[k], exact) {
            return Some(format!("element {:?} of shape {:?} is {}, expected {}", unravel(k, shape), shape, d[k], data[k]));
        }
    }
    None
}

// ------------------------------------------------------------------ generation
pub struct Mix {
    pub real: bool,
    pub matmul: bool,
    pub max_cost: usize,
}

/// add up to `n` random operations; candidates for operands are `pool`
pub fn grow(gr: &mut Graph, g: &mut Gen, pool: &mut Vec<usize>, n: usize, mix: &Mix) {
    let mut cost = 0;
    for _ in 0..n {
        let w: [usize; 9] = [3, if mix.matmul { 4 } else { 0 }, 2, 2, if mix.real { 1 } else { 0 }, if mix.real { 2 } else { 0 }, if mix.real { 2 } else { 0 }, 2, 2];
        let op = g.weighted(&w);
        let a = pool[pool.len() - 1 - g.below(pool.len())];
        let b0 = g.below(pool.len());
        let form = g.below(3) as u8;
        // the first compatible partner, starting at a chosen place
        let partner = |gr: &Graph, f: &dyn Fn(usize) -> Node| -> Option<Node> {
            (0..pool.len()).map(|i| f(pool[(b0 + i) % pool.len()])).find(|c| eval(c, &gr.vals).is_some())
        };
        let node = match op {
            0 => partner(gr, &|b| Node::Add(a, b, form)),
            1 => partner(gr, &|b| Node::MatMul(a, b)),
            2 => partner(gr, &|b| Node::Sub(a, b, form)),
            3 => Some(Node::Neg(a)),
            // (the derivative of tanh is a full matrix)
            4 => (gr.vals[a].count() <= 70).then_some(Node::Tanh(a)),
            5 => Some(Node::Abs(a)),
            6 => Some(Node::Relu(a)),
            7 => Some(Node::Sum(a)),
            _ => partner(gr, &|b| Node::Dot(a, b)),
        };
        if let Some(node) = node {
            let c = gr.cost(&node);
            if cost + c <= mix.max_cost && eval(&node, &gr.vals).map_or(true, |v| v.count() <= 5000) {
                if let Some(k) = gr.push(node) {
                    cost += c;
                    pool.push(k);
                }
            }
        }
    }
}

/// a one-element root on top of node k (with a recorded derivative)
pub fn root_of(gr: &mut Graph, g: &mut Gen, k: usize) -> usize {
    if gr.vals[k].count() == 1 && !matches!(gr.nodes[k], Node::Leaf(_)) && g.chance(1, 3) {
        return k;
    }
    gr.push(Node::Sum(k)).expect("sum")
}
