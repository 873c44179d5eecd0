//! Layers and networks: library objects and their reference description.
use crate::gen::Gen;
use crate::graph::{Graph, Node, RefT};
use crate::num::Elem;
use num::traits::real::Real;
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::{functional, RcTensor};

pub trait RElem: Elem + Real {}
impl<T: Elem + Real> RElem for T {}

#[derive(Clone, Debug)]
pub struct Spec {
    pub single: bool,
    pub dims: Vec<usize>,
    /// 0 none, 1 relu, 2 tanh, 3 absolute value, 4 relu after tanh
    pub acts: Vec<usize>,
    pub w: Vec<RefT>,
    pub b: Vec<RefT>,
}

pub enum Net<T: RElem> {
    Lin(Linear<T>),
    M1(Mlp<T, 1>),
    M2(Mlp<T, 2>),
    M3(Mlp<T, 3>),
    M4(Mlp<T, 4>),
    M5(Mlp<T, 5>),
}

pub fn gen_spec(g: &mut Gen, max_layers: usize, wide: bool) -> Spec {
    let layers = if max_layers == 3 && g.chance(1, 24) { g.range(4, 5) } else { g.range(1, max_layers) };
    let single = layers == 1 && g.below(2) == 0;
    let mut dims: Vec<usize> = (0..=layers).map(|_| g.range(1, 3)).collect();
    if layers > 3 {
        dims = dims.iter().map(|d| (*d).min(2)).collect();
    }
    if wide && g.chance(1, 6) {
        let k = g.below(dims.len());
        dims[k] = g.range(17, 40);
    }
    let mut acts = vec![];
    let (mut w, mut b) = (vec![], vec![]);
    for l in 0..layers {
        acts.push(g.weighted(&[5, 5, 5, 1, 1]));
        let shape = vec![dims[l], dims[l + 1]];
        w.push(RefT { data: (0..shape[0] * shape[1]).map(|_| g.value() / 8.0).collect(), shape });
        let shape = if g.below(2) == 0 { vec![1, dims[l + 1]] } else { vec![dims[l + 1]] };
        b.push(RefT { data: (0..dims[l + 1]).map(|_| g.value() / 8.0 + 1.0 / 64.0).collect(), shape });
    }
    Spec { single, dims, acts, w, b }
}

fn act<T: RElem>(k: usize) -> Option<fn(RcTensor<T>) -> RcTensor<T>> {
    match k {
        0 => None,
        1 => Some(functional::relu::<T>),
        2 => Some(functional::tanh::<T>),
        3 => Some(|t| t.abs()),
        _ => Some(|t| functional::relu(functional::tanh(t))),
    }
}

impl Spec {
    pub fn layers(&self) -> usize {
        self.acts.len()
    }
    pub fn values(&self) -> Vec<RefT> {
        self.w.iter().zip(&self.b).flat_map(|(w, b)| [w.clone(), b.clone()]).collect()
    }
    /// the library's model, over the given parameter tensors
    pub fn net<T: RElem>(&self, params: &[RcTensor<T>]) -> Net<T> {
        let l = |i: usize| Linear::new(params[2 * i].clone(), params[2 * i + 1].clone(), act::<T>(self.acts[i]));
        match self.layers() {
            1 if self.single => Net::Lin(l(0)),
            1 => Net::M1(Mlp::new([l(0)])),
            2 => Net::M2(Mlp::new([l(0), l(1)])),
            3 => Net::M3(Mlp::new([l(0), l(1), l(2)])),
            4 => Net::M4(Mlp::new([l(0), l(1), l(2), l(3)])),
            _ => Net::M5(Mlp::new([l(0), l(1), l(2), l(3), l(4)])),
        }
    }
    pub fn params<T: RElem>(&self) -> Vec<RcTensor<T>> {
        self.values().iter().map(crate::graph::to_lib).collect()
    }
    /// reference output node; parameters are nodes p (weights, bias, weights, bias, ...)
    pub fn forward(&self, gr: &mut Graph, p: &[usize], x: usize) -> Option<usize> {
        let mut cur = x;
        for i in 0..self.layers() {
            cur = gr.push(Node::MatMul(cur, p[2 * i]))?;
            cur = gr.push(Node::Add(cur, p[2 * i + 1], 0))?;
            cur = match self.acts[i] {
                0 => cur,
                1 => gr.push(Node::Relu(cur))?,
                2 => gr.push(Node::Tanh(cur))?,
                3 => gr.push(Node::Abs(cur))?,
                _ => {
                    let t = gr.push(Node::Tanh(cur))?;
                    gr.push(Node::Relu(t))?
                }
            };
        }
        Some(cur)
    }
}

impl<T: RElem> Net<T> {
    pub fn forward(&self, x: RcTensor<T>) -> RcTensor<T> {
        match self {
            Net::Lin(m) => m.forward(x),
            Net::M1(m) => m.forward(x),
            Net::M2(m) => m.forward(x),
            Net::M3(m) => m.forward(x),
            Net::M4(m) => m.forward(x),
            Net::M5(m) => m.forward(x),
        }
    }
    pub fn params(&self) -> Vec<RcTensor<T>> {
        match self {
            Net::Lin(m) => Module::params(m),
            Net::M1(m) => m.params(),
            Net::M2(m) => m.params(),
            Net::M3(m) => m.params(),
            Net::M4(m) => m.params(),
            Net::M5(m) => m.params(),
        }
    }
    /// replace a parameter through the public field of a layer; false if there is none
    pub fn assign(&mut self, bias: bool, t: RcTensor<T>) -> bool {
        match self {
            Net::Lin(m) => {
                *(if bias { &mut m.bias } else { &mut m.weights }) = t;
                true
            }
            _ => false,
        }
    }
    /// the parameters as the fields of a layer and its own iterator give them
    pub fn fields(&mut self) -> Option<[Vec<RcTensor<T>>; 2]> {
        match self {
            Net::Lin(m) => Some([vec![m.weights.clone(), m.bias.clone()], Linear::params(m).collect()]),
            _ => None,
        }
    }
    pub fn step(&mut self, lr: f64) {
        let s = RcTensor::scalar(T::from_f(lr));
        match self {
            Net::Lin(m) => sgd_step(m, s),
            Net::M1(m) => sgd_step(m, s),
            Net::M2(m) => sgd_step(m, s),
            Net::M3(m) => sgd_step(m, s),
            Net::M4(m) => sgd_step(m, s),
            Net::M5(m) => sgd_step(m, s),
        }
    }
}
