//! Scenarios about whole programs: reproducibility, independence, histories.
use crate::gen::Gen;
use crate::graph::*;
use crate::net::*;
use crate::num::{self, Elem, SimF};
use crate::scen::*;
use crate::topo::{self, guard, Ctx, Res};
use rust_light::tensor::{functional, RawTensor, RcTensor, SliceRange, TensorLike};
use std::sync::Mutex;

// ------------------------------------------------------------------ C16
/// a number with a full mantissa
fn rough(g: &mut Gen) -> f64 {
    let v = g.value();
    let w = 1.0 + g.below(97) as f64;
    v / (w * 3.0 + 7.1)
}
fn rough_t(g: &mut Gen, shape: Vec<usize>) -> RefT {
    RefT { data: (0..prod(&shape)).map(|_| rough(g)).collect(), shape }
}
enum Calc<T: RElem> {
    Product(RcTensor<T>, RcTensor<T>),
    ViewProduct(RcTensor<T>, RcTensor<T>),
    Network(Spec, Vec<RcTensor<T>>, RcTensor<T>),
    Dot(RcTensor<T>, RcTensor<T>),
    Loss(RcTensor<T>, RcTensor<T>, RcTensor<T>),
}
impl<T: RElem> Calc<T> {
    fn run(&self) -> Vec<RcTensor<T>> {
        match self {
            Calc::Product(a, b) => vec![a.bmm(b)],
            Calc::ViewProduct(a, b) => {
                let s = a.shape().to_vec();
                let v = a.view(s.iter().enumerate().map(|(d, &n)| SliceRange::new(if d == s.len() - 2 { n / 2 } else { 0 }, n)).collect());
                vec![v.bmm(b), a.bmm(&b.view(b.shape().iter().map(|&n| SliceRange::new(0, n)).collect()))]
            }
            Calc::Network(spec, p, x) => {
                let net = spec.net(p);
                let y = net.forward(x.clone());
                let s = y.sum();
                vec![y, s]
            }
            Calc::Dot(a, b) => vec![functional::dot(a, b)],
            Calc::Loss(a, b, t) => {
                let y = a.bmm(b);
                vec![T::abs_t(&(&y - t)).sum(), T::tanh_t(&y)]
            }
        }
    }
}
fn bits<T: RElem>(ts: &[RcTensor<T>]) -> Vec<(Vec<usize>, Vec<u64>)> {
    ts.iter()
        .map(|t| {
            let (s, d) = read(t);
            (s, d.into_iter().map(f64::to_bits).collect())
        })
        .collect()
}
pub fn c16(g: &mut Gen) -> R {
    match g.weighted(&[2, 2, 1]) {
        0 => c16t::<SimF>(g),
        1 => c16t::<f64>(g),
        _ => c16t::<f32>(g),
    }
}
fn c16t<T: RElem>(g: &mut Gen) -> R {
    let n = g.range(1, 3);
    let mut calcs: Vec<Calc<T>> = vec![];
    for _ in 0..n {
        let (m, mut k, n) = (g.range(1, 4), g.range(1, 12), g.range(1, 4));
        let (mut m, mut n) = (m, n);
        if g.chance(1, 5) {
            k = g.range(13, 140);
        }
        if g.chance(1, 60) {
            match g.below(4) {
                0 => k = g.range(141, 1100),
                1 => n = g.range(17, 70),
                2 => m = g.range(17, 70),
                _ => {
                    m = g.range(9, 17);
                    n = g.range(9, 17);
                    k = g.range(9, 33);
                }
            }
        }
        let left = if g.chance(1, 4) { vec![g.range(1, 3), m, k] } else { vec![m, k] };
        let c = match g.weighted(&[4, 2, 3, 2, 2]) {
            0 => Calc::Product(to_lib(&rough_t(g, left)), to_lib(&rough_t(g, vec![k, n]))),
            1 => Calc::ViewProduct(to_lib(&rough_t(g, left)), to_lib(&rough_t(g, vec![k, n]))),
            2 => {
                let mut spec = gen_spec(g, 3, true);
                for t in spec.w.iter_mut().chain(spec.b.iter_mut()) {
                    t.data.iter_mut().for_each(|x| *x = rough(g));
                }
                let r = g.range(1, 2);
                let x = to_lib(&rough_t(g, vec![r, spec.dims[0]]));
                let p = spec.params();
                Calc::Network(spec, p, x)
            }
            3 => Calc::Dot(to_lib(&rough_t(g, vec![k])), to_lib(&rough_t(g, vec![k]))),
            _ => Calc::Loss(to_lib(&rough_t(g, vec![m, k])), to_lib(&rough_t(g, vec![k, n])), to_lib(&rough_t(g, vec![m, n]))),
        };
        calcs.push(c);
    }
    let name = |c: &Calc<T>| match c {
        Calc::Product(a, b) => format!("product {:?} {:?}", a.shape(), b.shape()),
        Calc::ViewProduct(a, b) => format!("product of views {:?} {:?}", a.shape(), b.shape()),
        Calc::Network(s, _, x) => format!("network {:?} activations {:?} on {:?}", s.dims, s.acts, x.shape()),
        Calc::Dot(a, _) => format!("dot {:?}", a.shape()),
        Calc::Loss(a, b, _) => format!("absolute error of {:?} {:?}", a.shape(), b.shape()),
    };
    let ctxs: Vec<Ctx> = (0..g.range(1, 3))
        .map(|i| match g.below(4) {
            // pools larger than the usual ones
            0 => Ctx::Pool(g.range(4, 8)),
            1 => Ctx::Install(g.range(4, 8)),
            _ => topo::gen(g, i == 0),
        })
        .collect();
    let k = g.range(1, 4);
    let job: Vec<usize> = (0..k).map(|_| g.below(n)).collect();
    say(format!("{}: {:?}; contexts {:?}; callers compute {:?}", T::NAME, calcs.iter().map(name).collect::<Vec<_>>(), ctxs, job));
    if ctxs.len() > 1 {
        probe("different_pool_sizes_compared");
    }
    let base: Vec<_> = calcs.iter().map(|c| bits(&c.run())).collect();
    for ctx in ctxs {
        let rs = go(ctx, k, &|i| {
            let c = &calcs[job[i]];
            let got = c.run();
            simrt::atomically(|| {
                let now = bits(&got);
                if now != base[job[i]] {
                    return Some(format!("[bits] {} in context {:?} gave {:x?}, the first time it gave {:x?}", name(c), ctx, now, base[job[i]]));
                }
                None
            })
        });
        all_ok(rs)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
enum Job {
    Product(RefT, RefT),
    Graph(Graph, usize, usize),
    Train(Spec, Vec<RefT>, Vec<Vec<RefT>>),
    Gradient(Vec<usize>, Vec<f64>),
    /// a request that fits nothing
    Bad(usize),
}
pub fn c17(g: &mut Gen) -> R {
    let k = if g.chance(1, 8) { g.range(6, 8) } else { g.range(2, 5) };
    let mut jobs = vec![];
    for _ in 0..k {
        jobs.push(match g.weighted(&[4, 8, 4, 2, 1]) {
            4 => Job::Bad(g.below(5)),
            0 => {
                let (m, mut kk, n) = (g.range(1, 5), g.range(1, 5), g.range(1, 5));
                if g.chance(1, 6) {
                    kk = g.range(17, 60);
                }
                let b = g.below(3);
                let ls = if b == 0 { vec![m, kk] } else { vec![b, m, kk] };
                let mk = |g: &mut Gen, s: Vec<usize>| RefT { data: (0..prod(&s)).map(|_| g.value()).collect(), shape: s };
                let l = mk(g, ls);
                Job::Product(l, mk(g, vec![kk, n]))
            }
            1 => {
                let big = g.chance(1, 4);
                let (gr, root) = matmul_graph(g, true, big);
                if work(&gr, root) > 400 {
                    Job::Gradient(vec![2], vec![1.0])
                } else {
                    Job::Graph(gr, root, g.range(1, 2))
                }
            }
            2 => {
                let spec = gen_spec(g, 2, false);
                let steps = g.range(1, 3);
                let rows = g.range(1, 2);
                let xs: Vec<RefT> = (0..steps).map(|_| RefT { shape: vec![rows, spec.dims[0]], data: (0..rows * spec.dims[0]).map(|_| g.value() / 4.0).collect() }).collect();
                let mut vals = spec.values();
                let mut want = vec![];
                let mut fine = true;
                for x in &xs {
                    let mut gr = Graph::default();
                    let p: Vec<usize> = vals.iter().map(|v| gr.leaf(v.shape.clone(), v.data.clone())).collect();
                    let xi = gr.leaf(x.shape.clone(), x.data.clone());
                    match spec.forward(&mut gr, &p, xi).and_then(|o| gr.push(Node::Sum(o))) {
                        Some(root) => {
                            let gs = gr.grads(root);
                            for (v, &i) in vals.iter_mut().zip(&p) {
                                v.data.iter_mut().zip(gs[i].as_ref().unwrap()).for_each(|(a, b)| *a -= 0.25 * b);
                            }
                        }
                        None => fine = false,
                    }
                    want.push(vals.clone());
                }
                if fine && vals.iter().all(|v| v.data.iter().all(|x| x.abs() < 1e5)) {
                    Job::Train(spec, xs, want)
                } else {
                    Job::Gradient(vec![3], vec![1.0, 2.0])
                }
            }
            _ => {
                let s = vec![g.range(1, 5), g.range(1, 3)];
                Job::Gradient(s, (0..g.range(1, 4)).map(|_| g.value()).collect())
            }
        });
    }
    let ctx = topo::gen(g, true);
    let fault = g.below(3) == 2;
    let at = g.below(1000);
    let reps: Vec<usize> = (0..k).map(|_| 1 + g.weighted(&[3, 1])).collect();
    let mut d = String::new();
    for j in &jobs {
        d.push_str(&match j {
            Job::Product(a, b) => format!("product {:?} {:?}", a.shape, b.shape),
            Job::Graph(gr, root, n) => format!("{} backward passes from n{}: {}", n, root, gr.describe()),
            Job::Train(s, xs, _) => format!("{} training steps of {:?} activations {:?}", xs.len(), s.dims, s.acts),
            Job::Bad(k) => format!("request without a result {}", k),
            Job::Gradient(s, c) => format!("contributions {:?} to a tensor of shape {:?}", c, s),
        });
        d.push_str(" | ");
    }
    say(format!("{} callers that share nothing, context {:?}, repetitions {:?}, {}: {}", k, ctx, reps, if fault { format!("an element operation panics at {}/1000", at) } else { "no fault".into() }, d));
    let run = |i: usize| -> Option<String> {
        match &jobs[i] {
            Job::Product(a, b) => {
                let r = to_lib::<SimF>(a).bmm(&to_lib::<SimF>(b));
                let w = ref_matmul(a, b);
                simrt::atomically(|| diff(&r, &w.shape, &w.data, true))
            }
            Job::Graph(gr, root, n) => {
                let leaves = lib_leaves::<SimF>(gr);
                for _ in 0..*n {
                    build(gr, *root, &leaves, &mut vec![None; gr.nodes.len()]).backward();
                }
                simrt::atomically(|| {
                    let gs = gr.grads(*root);
                    let m = gr.magnitude(&[*root]) * 2.0;
                    let exact = gr.exact_under(*root) && m < SimF::LIMIT;
                    if !exact && m > 1e7 {
                        return None;
                    }
                    for (l, &i) in leaves.iter().zip(&gr.leaf_nodes()) {
                        let w = gs[i].as_ref().map(|v| scaled(v, &gr.vals[i].shape, *n as f64));
                        if let Err(m) = check_grad(&format!("leaf n{}", i), l, w.as_ref(), exact).and_then(|_| check_values("a leaf", l, &gr.vals[i], true)) {
                            return Some(m);
                        }
                    }
                    None
                })
            }
            Job::Train(spec, xs, want) => {
                let mut net = spec.net(&spec.params::<SimF>());
                for (s, x) in xs.iter().enumerate() {
                    net.forward(to_lib(x)).sum().backward();
                    net.step(0.25);
                    let ps = net.params();
                    let d = simrt::atomically(|| ps.iter().zip(&want[s]).enumerate().find_map(|(q, (p, w))| diff(p, &w.shape, &w.data, false).map(|m| format!("[params] parameter {} after step {}: {}", q, s, m))));
                    if d.is_some() {
                        return d;
                    }
                }
                None
            }
            Job::Bad(k) => {
                let of = |s: Vec<usize>| -> RcTensor<SimF> { RcTensor::new_with_filler(s, SimF(1.0)) };
                let r = guard(|| match k {
                    0 => drop(of(vec![2, 3]).bmm(&of(vec![2, 3]))),
                    1 => drop(&of(vec![2, 3]) + &of(vec![2, 2])),
                    2 => of(vec![2, 2]).bmm(&of(vec![2, 2])).backward(),
                    3 => of(vec![1]).backward(),
                    _ => drop(of(vec![2]).grad()),
                });
                if r == Res::Injected {
                    std::panic::panic_any(num::Injected);
                }
                if matches!(r, Res::Panicked(_)) { None } else { Some(format!("[accepted] the request was not refused: {:?}", r)) }
            }
            Job::Gradient(shape, cs) => {
                let t: RcTensor<SimF> = RcTensor::new_with_filler(shape.clone(), SimF(1.0));
                for (q, c) in cs.iter().enumerate() {
                    t.update_grad(RcTensor::new_with_filler(shape.clone(), SimF(*c)));
                    let now = grad_of(&t);
                    let want = RefT { shape: shape.clone(), data: vec![cs[..=q].iter().sum(); t.count()] };
                    let d = simrt::atomically(|| match &now {
                        None => Some("[grad] a gradient is absent after a contribution".to_string()),
                        Some(gr) => diff(gr, &want.shape, &want.data, true),
                    });
                    if d.is_some() {
                        return d;
                    }
                }
                t.zero_grad();
                grad_of(&t).map(|x| format!("[grad] a cleared gradient is {:?}", read(&x)))
            }
        }
    };
    let mut total = 0;
    if fault {
        let o = num::ops();
        for i in 0..k {
            if let Some(m) = run(i) {
                bad!("alone", "caller {} alone: {}", i, m);
            }
        }
        total = num::ops() - o;
        if total > 0 {
            num::arm(&[1 + total * at as u64 / 1000]);
        }
    }
    let rs = go(ctx, k, &|i| {
        for _ in 0..reps[i] {
            let r = run(i);
            if r.is_some() {
                return r;
            }
        }
        None
    });
    let fired = num::disarm();
    let mut failed = 0;
    for (i, r) in rs.into_iter().enumerate() {
        match r {
            Res::Ok(None) => {}
            Res::Ok(Some(m)) => bad!("influence", "caller {}: {}", i, m),
            Res::NotRun => bad!("lost", "caller {} never ran", i),
            r if fired == 0 => bad!("panic", "caller {} failed: {:?}", i, r),
            _ => failed += 1,
        }
    }
    if failed > fired as usize {
        bad!("collateral", "{} fault(s) made {} callers fail", fired, failed);
    }
    if fired > 0 && failed == 0 {
        // the failing operation may have been one of the checks' own reads: those do not count operations
        bad!("swallowed", "an element operation panicked but every caller succeeded");
    }
    if total > 0 && fired > 0 && failed < k {
        probe("caller_failed_while_others_succeeded");
    }
    Ok(())
}

// ------------------------------------------------------------------ C18
/// one call of a history
#[derive(Clone, Debug)]
enum Call {
    Leaf(usize),
    Compute(Node),
    Backward(usize),
    Clear(usize),
    Contribute(usize, f64),
    Copy(usize),
    Drop(usize),
    Step(usize),
    /// commuting calls that overlap
    Together(Vec<Call>),
    /// a backward pass during which an element operation panics
    Fails(usize, usize),
    /// a request without a defined result
    Refused(usize, usize, usize),
    /// a result without a history of its own: products by elements, what a view gives, operations on raw tensors
    Derive(usize, usize, usize, Vec<(usize, usize)>),
    /// questions about two tensors
    Ask(usize, usize, Vec<(usize, usize)>),
}
struct World {
    gr: Graph,
    lib: Vec<Option<RcTensor<SimF>>>,
    /// None: unknown (after a failure)
    grads: Vec<Option<Option<Vec<f64>>>>,
    exact: Vec<bool>,
}
pub fn c18(g: &mut Gen) -> R {
    let mut w = World { gr: Graph::default(), lib: vec![], grads: vec![], exact: vec![] };
    let spec = gen_spec(g, 2, false);
    let mut net: Option<Net<SimF>> = None;
    let mut net_nodes: Vec<usize> = vec![];
    let ncalls = g.range(4, 22);
    let mut scale = 1.0f64;
    let mut log = String::new();
    let (a, mut b) = (g.range(1, 3), g.range(1, 3));
    if g.chance(1, 20) {
        b = if g.chance(1, 3) { g.range(71, 700) } else { g.range(33, 70) };
        probe("operand_over_32_elements");
        simrt::allow_steps(20_000_000);
    }
    let mut first = true;
    for step in 0..ncalls {
        let alive: Vec<usize> = (0..w.lib.len()).filter(|&i| w.lib[i].is_some()).collect();
        let scalars: Vec<usize> = alive.iter().copied().filter(|&i| w.gr.vals[i].count() == 1 && !matches!(w.gr.nodes[i], Node::Leaf(_)) && work(&w.gr, i) < 160).collect();
        let room = w.gr.nodes.len() < 22;
        let kind = if alive.len() < 2 { 0 } else { g.weighted(&[2, if room { 8 } else { 0 }, 6, 2, 2, 1, 1, 1, 3, 1, 1, if room { 3 } else { 0 }, 1]) };
        let pick = |g: &mut Gen, v: &[usize]| v[v.len() - 1 - g.below(v.len())];
        let call = match kind {
            0 => Call::Leaf(g.below(6)),
            1 => {
                // reuse the operation generator of the graphs
                let mut tmp = w.gr.clone();
                let mut pool = alive.clone();
                let n0 = tmp.nodes.len();
                grow(&mut tmp, g, &mut pool, 1, &Mix { real: true, matmul: true, max_cost: 30 });
                if tmp.nodes.len() == n0 {
                    Call::Compute(Node::Sum(pick(g, &alive)))
                } else {
                    Call::Compute(tmp.nodes[n0].clone())
                }
            }
            2 if !scalars.is_empty() => Call::Backward(pick(g, &scalars)),
            2 => Call::Compute(Node::Sum(pick(g, &alive))),
            3 => Call::Clear(pick(g, &alive)),
            4 => Call::Contribute(pick(g, &alive), g.value()),
            5 => Call::Copy(pick(g, &alive)),
            6 => Call::Drop(pick(g, &alive)),
            7 => Call::Step(g.range(1, 3)),
            8 => {
                let n = g.range(2, 4);
                Call::Together(
                    (0..n)
                        .map(|_| if !scalars.is_empty() && g.below(3) < 2 { Call::Backward(pick(g, &scalars)) } else { Call::Contribute(pick(g, &alive), g.value()) })
                        .collect(),
                )
            }
            10 => Call::Refused(g.below(5), pick(g, &alive), pick(g, &alive)),
            11 | 12 => {
                let (what, i, j) = (g.below(14), pick(g, &alive), pick(g, &alive));
                // now and then every half-open range is a part of its dimension
                let whole = g.chance(1, 5);
                let range = (w.gr.vals[i].shape.iter())
                    .map(|&d| {
                        let lo = if whole { 0 } else { g.below(d) };
                        (lo, if whole { d } else { g.range(lo + 1, d) })
                    })
                    .collect();
                if kind == 11 { Call::Derive(what, i, j, range) } else { Call::Ask(i, j, range) }
            }
            _ if !scalars.is_empty() => Call::Fails(pick(g, &scalars), g.below(1000)),
            _ => Call::Clear(pick(g, &alive)),
        };
        let ctx = topo::gen(g, matches!(call, Call::Together(_)));
        log.push_str(&format!("{:?} in {:?}; ", call, ctx));
        if first {
            first = false;
        }
        simrt::describe(&format!("{}: {:?} in {:?}; ", step, call, ctx));
        match call {
            Call::Leaf(k) => {
                let s = match k {
                    0 => vec![a, b],
                    1 => vec![b, a],
                    2 => vec![b],
                    3 => vec![1, b],
                    4 => vec![a, a],
                    _ => vec![],
                };
                let i = w.gr.leaf_gen(g, s);
                let t = to_lib(&w.gr.vals[i]);
                w.add(t);
            }
            Call::Compute(n) => {
                let Some(i) = w.gr.push(n) else { continue };
                let lib = &w.lib;
                let gr = &w.gr;
                let out: Mutex<Option<RcTensor<SimF>>> = Mutex::new(None);
                let rs = go(ctx, 1, &|_| {
                    let t = apply(gr, i, lib);
                    *out.lock().unwrap() = Some(t);
                    None
                });
                all_ok(rs)?;
                let t = out.into_inner().unwrap().unwrap();
                check_values(&format!("new result n{}", i), &t, &w.gr.vals[i], w.gr.exact[i])?;
                w.add(t);
            }
            Call::Backward(_) | Call::Contribute(..) | Call::Together(_) => {
                let cs = match call {
                    Call::Together(v) => {
                        probe("calls_of_a_history_overlapped");
                        v
                    }
                    c => vec![c],
                };
                let lib = &w.lib;
                let vals = &w.gr.vals;
                let rs = go(ctx, cs.len(), &|q| {
                    match &cs[q] {
                        Call::Backward(i) => lib[*i].as_ref().unwrap().backward(),
                        Call::Contribute(i, v) => {
                            let s = vals[*i].shape.clone();
                            let c = RcTensor::new((0..prod(&s)).map(|e| SimF(v * (1 + e) as f64)).collect(), s);
                            lib[*i].as_ref().unwrap().update_grad(c)
                        }
                        _ => unreachable!(),
                    }
                    None
                });
                all_ok(rs)?;
                for c in &cs {
                    match c {
                        Call::Backward(i) => {
                            if w.gr.nodes[*i + 1..].iter().any(|n| inputs(n).contains(i)) {
                                probe("backward_from_an_inner_result");
                            }
                            scale = scale.max(w.gr.magnitude(&[*i]) * 20.0);
                            w.contribute_pass(*i)
                        }
                        Call::Contribute(i, v) => {
                            let n = w.gr.vals[*i].count();
                            w.contribute(*i, &(0..n).map(|e| v * (1 + e) as f64).collect::<Vec<_>>());
                        }
                        _ => unreachable!(),
                    }
                }
            }
            Call::Clear(i) => {
                let t = w.lib[i].clone().unwrap();
                all_ok(go(ctx, 1, &|_| {
                    t.zero_grad();
                    None
                }))?;
                w.grads[i] = Some(None);
                w.exact[i] = true;
            }
            Call::Copy(i) => {
                let t = w.lib[i].as_ref().unwrap().deep_clone();
                let v = w.gr.vals[i].clone();
                let e = w.gr.exact[i];
                let k = w.gr.leaf(v.shape, v.data);
                w.gr.exact[k] = e;
                check_values("a deep copy", &t, &w.gr.vals[k], e)?;
                w.add(t);
            }
            Call::Drop(i) => {
                let t = w.lib[i].take();
                let t = Mutex::new(t);
                go(ctx, 1, &|_| drop(t.lock().unwrap().take()));
            }
            Call::Step(n) => {
                probe("step_in_a_history");
                if net.is_none() {
                    let ps = spec.params::<SimF>();
                    for (v, p) in spec.values().into_iter().zip(&ps) {
                        let k = w.gr.leaf(v.shape, v.data);
                        w.gr.exact[k] = false;
                        w.add(p.clone());
                        net_nodes.push(k);
                    }
                    net = Some(spec.net(&ps));
                }
                let m = net.as_mut().unwrap();
                if net_nodes.iter().any(|&i| w.grads[i].is_none() || w.gr.vals[i].data.iter().any(|x| x.abs() > 100.0)) || w.gr.nodes.len() > 30 {
                    continue;
                }
                // n mini-batches, then a step
                for _ in 0..n {
                    let x = RefT { shape: vec![1, spec.dims[0]], data: (0..spec.dims[0]).map(|_| g.value() / 4.0).collect() };
                    let mut gr2 = w.gr.clone();
                    let xi = gr2.leaf(x.shape.clone(), x.data.clone());
                    let Some(root) = spec.forward(&mut gr2, &net_nodes, xi).and_then(|o| gr2.push(Node::Sum(o))) else { continue };
                    let mm = &*m;
                    all_ok(go(ctx, 1, &|_| {
                        mm.forward(to_lib(&x)).sum().backward();
                        None
                    }))?;
                    let gs = gr2.grads(root);
                    scale = scale.max(gr2.magnitude(&[root]) * 20.0);
                    for &i in &net_nodes {
                        w.contribute(i, gs[i].as_ref().unwrap());
                        w.exact[i] = false;
                    }
                }
                if net_nodes.iter().any(|&i| !matches!(w.grads[i], Some(Some(_)))) {
                    continue;
                }
                let r = guard(|| m.step(0.25));
                if !matches!(r, Res::Ok(())) {
                    bad!("panic", "a training step failed: {:?}", r);
                }
                let ps = m.params();
                let mut fresh = vec![];
                for (q, &i) in net_nodes.iter().enumerate() {
                    let gi = w.grads[i].clone().unwrap().unwrap();
                    let v = w.gr.vals[i].clone();
                    let data: Vec<f64> = v.data.iter().zip(&gi).map(|(a, b)| a - 0.25 * b).collect();
                    let k = w.gr.leaf(v.shape, data);
                    w.gr.exact[k] = false;
                    set_scale(scale);
                    check_values(&format!("parameter {} after a step", q), &ps[q], &w.gr.vals[k], false)?;
                    // carry on with the library's own rounding
                    w.gr.vals[k].data = read(&ps[q]).1;
                    w.add(ps[q].clone());
                    fresh.push(k);
                }
                net_nodes = fresh;
            }
            Call::Derive(what, i, j, range) => {
                let (a, b) = (w.lib[i].clone().unwrap(), w.lib[j].clone().unwrap());
                let (va, vb) = (w.gr.vals[i].clone(), w.gr.vals[j].clone());
                let Some(want) = derived(what, &va, &vb, &range) else { continue };
                if want.data.iter().any(|x| x.abs() > 1e6) || want.count() > 1000 {
                    continue;
                }
                probe("result_without_history");
                let out: Mutex<Option<RcTensor<SimF>>> = Mutex::new(None);
                all_ok(go(ctx, 1, &|_| {
                    let t = derive(what, &a, &b, &range);
                    *out.lock().unwrap() = Some(t);
                    None
                }))?;
                let t = out.into_inner().unwrap().unwrap();
                let exact = w.gr.exact[i] && (w.gr.exact[j] || !matches!(what, 0..=2 | 6..=8 | 11));
                check_values(&format!("derived result {} of n{} and n{}", what, i, j), &t, &want, exact)?;
                let k = w.gr.leaf(want.shape, want.data);
                w.gr.exact[k] = exact;
                w.add(t);
            }
            Call::Ask(i, j, range) => {
                let (a, b) = (w.lib[i].clone().unwrap(), w.lib[j].clone().unwrap());
                all_ok(go(ctx, 1, &|_| ask(&a, &b, &range)))?;
            }
            Call::Refused(what, i, j) => {
                let (a, b) = (w.lib[i].clone().unwrap(), w.lib[j].clone().unwrap());
                let (sa, sb) = (w.gr.vals[i].shape.clone(), w.gr.vals[j].shape.clone());
                let applies = match what {
                    0 => sa.len() == 2 && sb.len() == 2 && sa[1] != sb[0],
                    1 => bshape(&sa, &sb).is_none(),
                    2 => prod(&sa) != 1 || matches!(w.gr.nodes[i], Node::Leaf(_)),
                    3 => sa != sb,
                    _ => matches!(w.grads[i], Some(None)),
                };
                if !applies {
                    continue;
                }
                probe("request_refused");
                let rs = go(ctx, 1, &|_| match what {
                    0 => drop(a.bmm(&b)),
                    1 => drop(&a + &b),
                    2 => a.backward(),
                    3 => drop(functional::dot(&a, &b)),
                    _ => drop(a.grad()),
                });
                if !matches!(rs[0], Res::Panicked(_)) {
                    bad!("accepted", "request {} on n{} and n{} was not refused: {:?}", what, i, j, rs[0]);
                }
            }
            Call::Fails(i, at) => {
                let total = {
                    // on a separate copy of everything below
                    let l2 = w.copy_leaves();
                    let t = build(&w.gr, i, &l2, &mut vec![None; w.gr.nodes.len()]);
                    let o = num::ops();
                    t.backward();
                    num::ops() - o
                };
                if total == 0 {
                    continue;
                }
                let t = w.lib[i].clone().unwrap();
                num::arm(&[1 + total * at as u64 / 1000]);
                let rs = go(ctx, 1, &|_| t.backward());
                let fired = num::disarm();
                match (&rs[0], fired) {
                    (Res::Ok(()), 0) => w.contribute_pass(i),
                    (Res::Ok(()), _) => bad!("swallowed", "an element operation panicked but the backward pass succeeded"),
                    (r, 0) => bad!("panic", "a backward pass failed without a fault: {:?}", r),
                    _ => {
                        probe("call_failed_in_the_middle_of_a_history");
                        let p = w.gr.paths(i);
                        for q in 0..i {
                            if p[q] > 0 {
                                w.grads[q] = None;
                                if let Some(t) = &w.lib[q] {
                                    t.zero_grad();
                                    w.grads[q] = Some(None);
                                    w.exact[q] = true;
                                }
                            }
                        }
                    }
                }
            }
        }
        // now and then, look at everything
        if step + 1 == ncalls || g.below(4) == 0 {
            set_scale(scale);
            for i in 0..w.lib.len() {
                if let Some(t) = &w.lib[i] {
                    check_values(&format!("n{} after call {}", i, step), t, &w.gr.vals[i], w.gr.exact[i])?;
                    if let Some(want) = &w.grads[i] {
                        let want = want.as_ref().map(|v| scaled(v, &w.gr.vals[i].shape, 1.0));
                        check_grad(&format!("n{} after call {}", i, step), t, want.as_ref(), w.exact[i])?;
                    }
                }
            }
        }
    }
    Ok(())
}
impl World {
    fn add(&mut self, t: RcTensor<SimF>) {
        self.lib.push(Some(t));
        self.grads.push(Some(None));
        self.exact.push(true);
        assert_eq!(self.lib.len(), self.gr.nodes.len());
    }
    fn contribute(&mut self, i: usize, v: &[f64]) {
        if let Some(x) = &mut self.grads[i] {
            plus(x, v, 1.0);
            if v.iter().chain(x.iter().flatten()).any(|y| y.abs() > 1e14) {
                self.exact[i] = false;
            }
        }
    }
    /// what one backward pass from node `root` adds
    fn contribute_pass(&mut self, root: usize) {
        let gs = self.gr.grads(root);
        let exact = self.gr.exact_under(root) && self.gr.magnitude(&[root]) < 1e14;
        for (i, v) in gs.iter().enumerate() {
            if let (Some(v), true) = (v, i != root) {
                self.contribute(i, v);
                self.exact[i] &= exact;
            }
        }
    }
    fn copy_leaves(&self) -> Vec<RcTensor<SimF>> {
        self.gr.leaf_nodes().iter().map(|&i| to_lib(&self.gr.vals[i])).collect()
    }
}
fn part(range: &[(usize, usize)]) -> Vec<SliceRange> {
    range.iter().map(|&(lo, hi)| SliceRange::new(lo, hi)).collect()
}
/// the part of a that a view shows
fn seen(a: &RefT, range: &[(usize, usize)]) -> RefT {
    let shape: Vec<usize> = range.iter().map(|(lo, hi)| hi - lo).collect();
    let data = (0..a.count())
        .filter(|&k| unravel(k, &a.shape).iter().zip(range).all(|(&x, &(lo, hi))| lo <= x && x < hi))
        .map(|k| a.data[k])
        .collect();
    RefT { shape, data }
}
/// what `derive` has to give; None: not defined for these operands
fn derived(what: usize, a: &RefT, b: &RefT, range: &[(usize, usize)]) -> Option<RefT> {
    let by = |s: f64| scaled(&a.data, &a.shape, s);
    let one = |shape: Vec<usize>, x: f64| Some(RefT { shape, data: vec![x] });
    let pairs = |f: fn(f64, f64) -> f64| RefT { shape: a.shape.clone(), data: a.data.iter().zip(&b.data).map(|(x, y)| f(*x, *y)).collect() };
    let same = a.shape == b.shape;
    match what {
        0 | 1 => (b.shape.is_empty() && !a.shape.is_empty()).then(|| by(b.data[0])),
        2 => same.then(|| pairs(|x, y| x * y)),
        3 | 4 => Some(seen(a, range)),
        5 => one(vec![], seen(a, range).data.iter().sum()),
        6 => (a.shape.len() == 2 && b.shape.len() == 2 && range[1].1 - range[1].0 == b.shape[0]).then(|| ref_matmul(&seen(a, range), b)),
        7 => same.then_some(())
            .and_then(|_| one(vec![1], pairs(|x, y| x * y).data.iter().sum())),
        8 => (a.shape.len() == 2 && b.shape.len() == 2 && a.shape[1] == b.shape[0]).then(|| ref_matmul(a, b)),
        9 => Some(by(2.0)),
        10 => Some(by(-1.0)),
        11 => same.then(|| pairs(|x, y| x + y)),
        12 => one(vec![], a.data.iter().sum()),
        _ => Some(by(1.0)),
    }
}
fn derive(what: usize, a: &RcTensor<SimF>, b: &RcTensor<SimF>, range: &[(usize, usize)]) -> RcTensor<SimF> {
    let (ra, rb): (&RawTensor<SimF>, &RawTensor<SimF>) = (a, b);
    match what {
        0 => a * b,
        1 => b * a,
        2 => a.clone() * b,
        3 => a.view(part(range)).to_tensor(),
        4 => a.slice(part(range)).deep_clone(),
        5 => a.view(part(range)).sum(),
        6 => a.view(part(range)).bmm(b),
        7 => functional::dot_no_derivative(a, b),
        8 => TensorLike::bmm(ra, b).to_tensor(),
        9 => functional::generic_unary_op(a, |x| x + x).to_tensor(),
        10 => (-ra).to_tensor(),
        11 => (ra + rb).to_tensor(),
        12 => TensorLike::sum(ra).to_tensor(),
        _ => ra.deep_clone(),
    }
}
/// questions about tensors and views, answered against the elements themselves
fn ask(a: &RcTensor<SimF>, b: &RcTensor<SimF>, range: &[(usize, usize)]) -> Option<String> {
    let v = a.view(part(range));
    let (ra, rb): (&RawTensor<SimF>, &RawTensor<SimF>) = (a, b);
    let equal = [*a == *b, *ra == *rb, v == *b, v == *a, *a == a.deep_clone(), v == v.to_tensor()];
    let scalar = [a.is_scalar(), ra.is_scalar()];
    let counts = [a.count(), ra.count(), v.count(), v.to_tensor().count()];
    let firsts = [*a.get_first_elem(), *ra.get_first_elem(), *v.get_first_elem(), if a.shape().is_empty() { a.elem() } else { *a.get_first_elem() }];
    let fits = [a.same_shape(&b), a.broadcastable(b.shape())];
    let last: Vec<usize> = a.shape().iter().map(|d| d - 1).collect();
    let at = [a[&last], ra[&last]];
    // beyond the end in a dimension with more than one element
    let beyond = (0..last.len()).find(|&d| last[d] > 0).map(|d| {
        let mut idx = last.clone();
        idx[d] += 1;
        TensorLike::get(a, &idx).is_err() && TensorLike::get(ra, &idx).is_err()
    });
    let shown = format!("{}", a);
    simrt::atomically(|| {
        let (da, db) = (read(a), read(b));
        let dv = {
            let r = seen(&RefT { shape: da.0.clone(), data: da.1.clone() }, range);
            (r.shape, r.data)
        };
        let n = da.1.len();
        let want = [da == db, da == db, dv == db, dv == da, true, true];
        if equal != want {
            return Some(format!("[equal] {:?} and {:?} and the view {:?} compare as {:?}, expected {:?}", da, db, range, equal, want));
        }
        if scalar != [da.0.is_empty(); 2] {
            return Some(format!("[scalar] shape {:?}, is_scalar {:?}", da.0, scalar));
        }
        if counts != [n, n, dv.1.len(), dv.1.len()] {
            return Some(format!("[count] shape {:?}, view {:?}: counts {:?}", da.0, range, counts));
        }
        if firsts.iter().zip([da.1[0], da.1[0], dv.1[0], da.1[0]]).any(|(x, y)| x.to_f() != y) || at.iter().any(|x| x.to_f() != da.1[n - 1]) {
            return Some(format!("[element] of {:?}, view {:?}: first {:?}, last {:?}", da, range, firsts, at));
        }
        if fits != [da.0 == db.0, bshape(&da.0, &db.0).is_some()] {
            return Some(format!("[fits] {:?} and {:?}: same shape and broadcastable {:?}", da.0, db.0, fits));
        }
        if beyond == Some(false) {
            return Some(format!("[index] shape {:?}: an index beyond the end was answered", da.0));
        }
        if shown.matches(',').count() + 1 != n {
            return Some(format!("[shown] {} elements are shown as {}", n, shown));
        }
        None
    })
}
/// the library's result of node k from the library's operands
fn apply(gr: &Graph, k: usize, lib: &[Option<RcTensor<SimF>>]) -> RcTensor<SimF> {
    let mut cache: Vec<Option<RcTensor<SimF>>> = lib.to_vec();
    cache.push(None);
    build(gr, k, &[], &mut cache)
}

// ------------------------------------------------------------------ C19
/// requests without a defined result
const REFUSED: &[&str] = &[
    "product, inner dimensions differ",
    "product, right operand of rank 3",
    "product, right operand of rank 1",
    "product, left operand of rank 1",
    "batched product, inner dimensions differ",
    "dot product of different lengths",
    "sum of shapes that do not fit",
    "difference of shapes that do not fit",
    "element-wise product of different shapes",
    "backward from several elements",
    "backward from a leaf",
    "contribution that does not fit the gradient",
    "view beyond the end",
    "view of another rank",
    "list of the wrong length",
    "index out of range",
    "product of views, inner dimensions differ",
    "ragged nesting",
    "batch of the wrong width",
    "step without gradients",
    "reversed slice",
    "element of a tensor with several",
    "product, left operand of rank 4",
    "product, left operand of a single column",
    "product, right operand of a single row",
    "product of a view and a tensor, inner dimensions differ",
    "batch of rank 1 for a layer",
    "dot product of a matrix and its elements in a row",
    "empty nested list",
];
#[derive(Clone, Copy, Debug)]
enum Ask {
    Refused(usize, usize),
    Product,
    Backward,
    Contribute(i64),
    /// operands that fit, are used and dropped, then ones that do not fit (often at the same place)
    Passing(usize),
}
pub fn c19(g: &mut Gen) -> R {
    let (m, k, n) = (g.range(2, 4), g.range(2, 4), g.range(2, 4));
    let off = g.range(1, 2);
    let mk = |g: &mut Gen, s: Vec<usize>| RefT { data: (0..prod(&s)).map(|_| g.value()).collect(), shape: s };
    let va = mk(g, vec![m, k]);
    let vb = mk(g, vec![k, n]);
    let (a, b): (RcTensor<SimF>, RcTensor<SimF>) = (to_lib(&va), to_lib(&vb));
    let other_k = if g.chance(1, 2) { k + off } else { k - 1 };
    let c: RcTensor<SimF> = to_lib(&mk(g, vec![other_k, n]));
    let r3: RcTensor<SimF> = to_lib(&mk(g, vec![2, m, k]));
    let wide: RcTensor<SimF> = to_lib(&mk(g, vec![m, k + off]));
    let r4: RcTensor<SimF> = to_lib(&mk(g, vec![2, 1, m, k]));
    let (column, row): (RcTensor<SimF>, RcTensor<SimF>) = (to_lib(&mk(g, vec![m, 1])), to_lib(&mk(g, vec![1, n])));
    let (v, w): (RcTensor<SimF>, RcTensor<SimF>) = (to_lib(&mk(g, vec![k])), to_lib(&mk(g, vec![k + off])));
    let (bias, other_bias): (RcTensor<SimF>, RcTensor<SimF>) = (to_lib(&mk(g, vec![1, n])), to_lib(&mk(g, vec![n])));
    crate::warm::age(g, &[a.clone(), b.clone(), bias.clone(), other_bias.clone()])?;
    let spec = gen_spec(g, 3, false);
    let callers = if g.chance(1, 6) { g.range(5, 7) } else { g.range(1, 4) };
    let asks: Vec<Vec<Ask>> = (0..callers)
        .map(|_| {
            (0..if g.chance(1, 8) { g.range(8, 16) } else { g.range(1, 4) })
                .map(|_| match g.weighted(&[6, 2, 2, 2, 1]) {
                    4 => Ask::Passing(g.below(32)),
                    0 => Ask::Refused(g.below(REFUSED.len()), g.below(24)),
                    1 => Ask::Product,
                    2 => Ask::Backward,
                    _ => Ask::Contribute(g.range(1, 5) as i64),
                })
                .collect()
        })
        .collect();
    let ctx = topo::gen(g, true);
    say(format!("a {:?} b {:?} c {:?} wide {:?}; context {:?}; callers ask for {:?}", va.shape, vb.shape, c.shape(), wide.shape(), ctx,
        asks.iter().map(|l| l.iter().map(|q| match q { Ask::Refused(i, x) => format!("{} ({})", REFUSED[*i], x), q => format!("{:?}", q) }).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let want = ref_matmul(&va, &vb);
    let fits = |x: &RcTensor<SimF>| -> Option<String> { simrt::atomically(|| diff(x, &want.shape, &want.data, true)) };
    let part = |x: &RcTensor<SimF>, d: usize, from: usize, to: usize| {
        x.view(x.shape().iter().enumerate().map(|(i, &s)| if i == d { SliceRange::new(from, to) } else { SliceRange::new(0, s) }).collect())
    };
    // returns a description when the request was not refused
    // (`x` selects one of the ways to ask for it)
    let refused = |what: usize, x: usize| -> Option<String> {
        let (odd, x2) = (x % 2 == 1, x / 2);
        let r = guard(|| match what {
            0 => drop(a.bmm(&c)),
            1 => drop(a.bmm(&r3)),
            2 => drop(a.bmm(&v)),
            3 => drop(v.bmm(&b)),
            4 => drop(r3.bmm(&c)),
            5 => drop(if odd { functional::dot(&w, &v) } else { functional::dot(&v, &w) }),
            6 => drop(if odd { &wide + &a } else { &a + &wide }),
            7 => drop(if odd { &wide - &a } else { &a - &wide }),
            8 => drop(if odd { &wide * &a } else { &a * &wide }),
            9 => match x % 4 {
                0 => a.bmm(&b).backward(),
                1 => part(&a, 0, 0, 1).to_tensor().bmm(&b).backward(),
                2 => a.bmm(&part(&b, 1, 0, 1).to_tensor()).backward(),
                _ => (&a + &a).backward(),
            },
            10 => match x % 3 {
                0 => RcTensor::scalar(SimF(2.0)).backward(),
                1 => a.sum().deep_clone().backward(),
                _ => RcTensor::new_with_filler(vec![1, 1], SimF(2.0)).backward(),
            },
            11 => {
                let t: RcTensor<SimF> = RcTensor::new_with_filler(vec![k], SimF(1.0));
                t.update_grad(RcTensor::new_with_filler(vec![k], SimF(3.0)));
                let r = guard(|| t.update_grad(RcTensor::new_with_filler(vec![k + off], SimF(5.0))));
                match grad_of(&t) {
                    Some(g) if simrt::atomically(|| read(&g).1.iter().all(|x| *x == 3.0) && g.count() == k) => {}
                    g => panic_any_msg(format!("after a refused contribution the gradient is {:?}", g.map(|g| read(&g)))),
                }
                t.update_grad(RcTensor::new_with_filler(vec![k], SimF(4.0)));
                match grad_of(&t) {
                    Some(g) if simrt::atomically(|| read(&g).1.iter().all(|x| *x == 7.0) && g.count() == k) => {}
                    g => panic_any_msg(format!("a contribution after a refused one made the gradient {:?}", g.map(|g| read(&g)))),
                }
                if matches!(r, Res::Panicked(_)) {
                    panic!("refused");
                }
            }
            12 => drop(match x % 3 {
                0 => a.view(vec![SliceRange::new(0, m + off), SliceRange::new(0, k)]),
                1 => a.view(vec![SliceRange::new(0, 1), SliceRange::new(0, k + off)]),
                _ => a.view(vec![SliceRange::new(0, m - 1), SliceRange::new(off, k + off)]),
            }),
            13 => drop(if odd { a.view(vec![SliceRange::new(0, m)]) } else { a.view(vec![SliceRange::new(0, 1), SliceRange::new(0, m), SliceRange::new(0, k)]) }),
            14 => drop(RcTensor::new(vec![SimF(1.0); if odd { m * k + off } else { m * k - off }], vec![m, k])),
            15 => {
                let i = match x % 3 {
                    0 => vec![m - 1 + off, 0],
                    1 => vec![0, k - 1 + off],
                    _ => vec![m - 1, k],
                };
                if TensorLike::get(&a, &i).is_err() && TensorLike::get(&part(&a, 0, 0, m - 1), &if odd { vec![m - 1, 0] } else { vec![0, k] }).is_err()
                    && TensorLike::get(&part(&a, 1, 0, k - 1), &vec![0, k - 1]).is_err() {
                    let _ = a[&i];
                }
            }
            16 => drop(part(&a, 1, 0, k - 1).bmm(&part(&b, 0, 0, k))),
            17 => {
                let mut rows = vec![vec![1.0; k]; m];
                let odd_one = x2 % m;
                rows[odd_one].resize(if odd { k + off } else { k - 1 }, 2.0);
                drop(match x2 / 3 {
                    0 | 1 => RcTensor::<f64>::from(rows),
                    2 => RcTensor::<f64>::from(vec![vec![vec![1.0; k]; m], rows]),
                    _ => RcTensor::<f64>::from(vec![vec![vec![1.0; k]; m], vec![vec![1.0; k * m]; 1]]),
                })
            }
            18 => {
                let net = spec.net(&spec.params::<SimF>());
                drop(net.forward(RcTensor::new_with_filler(vec![1 + x % 3, if odd { spec.dims[0] + off } else { spec.dims[0] - 1 }], SimF(1.0))))
            }
            19 => {
                let ps = spec.params::<SimF>();
                let mut net = spec.net(&ps);
                let r = guard(|| net.step(0.5));
                let now = net.params();
                for (q, (p, old)) in now.iter().zip(&spec.values()).enumerate() {
                    if let Some(m) = simrt::atomically(|| diff(p, &old.shape, &old.data, true)) {
                        panic_any_msg(format!("parameter {} after a refused step: {}", q, m));
                    }
                }
                if matches!(r, Res::Panicked(_)) {
                    panic!("refused");
                }
            }
            20 => drop(SliceRange::new(off, 0)),
            21 => drop(a.elem()),
            22 => drop(match x % 3 {
                0 => r4.bmm(&b),
                1 => RcTensor::new_with_filler(vec![1, 1, m, k], SimF(1.0)).bmm(&b),
                _ => r4.view(vec![SliceRange::new(0, 1), SliceRange::new(0, 1), SliceRange::new(0, m), SliceRange::new(0, k)]).bmm(&b),
            }),
            23 => drop(column.bmm(&b)),
            24 => drop(a.bmm(&row)),
            25 => drop(part(&a, 1, 0, k - 1).bmm(&b)),
            26 => drop(spec.net(&spec.params::<SimF>()).forward(RcTensor::new_with_filler(vec![spec.dims[0]], SimF(1.0)))),
            27 => drop(functional::dot(&a, &RcTensor::new_with_filler(vec![m * k], SimF(1.0)))),
            _ => drop(RcTensor::<f64>::from(Vec::<Vec<f64>>::new())),
        });
        match r {
            Res::Panicked(m) if m.starts_with("[trace]") => Some(m),
            Res::Panicked(_) => None,
            r => Some(format!("[accepted] {} was not refused: {:?}", REFUSED[what], r)),
        }
    };
    let passing = |x: usize| -> Option<String> {
        let ones = |s: &[usize]| -> RcTensor<SimF> { RcTensor::new_with_filler(s.to_vec(), SimF(1.0)) };
        for _ in 0..1 + x / 16 {
            let kind = x % 4;
            let keep = if kind == 3 { 1 } else { x / 4 % 4 };
            // [shape, fitting shape, shape that does not fit]
            let (l, r, no_l, no_r) = match kind {
                0 => ([m, k], [k, n], [m, k + off], [k + off, n]),
                1 => ([m, k], [1, k], [m, k + off], [1, k + off]),
                _ => ([m, k], [m, k], [m, k + off], [m, k + off]),
            };
            let kept = (ones(&l), ones(&r));
            let ask = |l: &RcTensor<SimF>, r: &RcTensor<SimF>| match kind {
                0 => drop(l.bmm(r)),
                1 => drop(l + r),
                2 => drop(l * r),
                _ => l.update_grad(r.clone()),
            };
            let left = |s: &[usize; 2]| if keep == 1 { kept.0.clone() } else { ones(s) };
            let right = |s: &[usize; 2]| if keep == 2 { kept.1.clone() } else { ones(s) };
            {
                let (l, r) = (left(&l), right(&r));
                ask(&l, &r);
            }
            let (l, r) = (left(if keep == 1 || keep == 3 { &l } else { &no_l }), right(if keep == 2 || keep != 3 && keep != 1 { &r } else { &no_r }));
            let r_shape = r.shape().to_vec();
            match guard(|| ask(&l, &r)) {
                Res::Panicked(_) => {}
                r => return Some(format!("[accepted] operands of shapes {:?} and {:?} after fitting ones (request {}) were not refused: {:?}", l.shape(), r_shape, kind, r)),
            }
        }
        None
    };
    let run = |i: usize| -> Option<String> {
        for q in &asks[i] {
            let r = match *q {
                Ask::Refused(what, x) => {
                    probe("request_refused");
                    refused(what, x)
                }
                Ask::Product => fits(&a.bmm(&b)),
                Ask::Passing(x) => {
                    probe("request_refused");
                    passing(x)
                }
                Ask::Backward => {
                    (&a.bmm(&b) + &bias).sum().backward();
                    None
                }
                Ask::Contribute(v) => {
                    other_bias.update_grad(RcTensor::new_with_filler(vec![n], SimF(v as f64)));
                    None
                }
            };
            if r.is_some() {
                return r;
            }
        }
        None
    };
    all_ok(go(ctx, callers, &run))?;
    // nothing but what was granted has left a trace
    let all: Vec<Ask> = asks.iter().flatten().copied().collect();
    let passes = all.iter().filter(|q| matches!(q, Ask::Backward)).count() as f64;
    let sum: i64 = all.iter().map(|q| if let Ask::Contribute(v) = q { *v } else { 0 }).sum();
    let (mut ga, mut gb) = (vec![0.0; m * k], vec![0.0; k * n]);
    for i in 0..m {
        for q in 0..k {
            for j in 0..n {
                ga[i * k + q] += vb.data[q * n + j];
                gb[q * n + j] += va.data[i * k + q];
            }
        }
    }
    let some = |yes: bool, v: Vec<f64>, s: Vec<usize>, by: f64| yes.then(|| scaled(&v, &s, by));
    check_grad("a", &a, some(passes > 0.0, ga, vec![m, k], passes).as_ref(), true)?;
    check_grad("b", &b, some(passes > 0.0, gb, vec![k, n], passes).as_ref(), true)?;
    check_grad("the bias", &bias, some(passes > 0.0, vec![m as f64; n], vec![1, n], passes).as_ref(), true)?;
    check_grad("the other bias", &other_bias, some(sum > 0, vec![sum as f64; n], vec![n], 1.0).as_ref(), true)?;
    for (name, t) in [("c", &c), ("the batch", &r3), ("wide", &wide), ("v", &v), ("w", &w), ("the rank-4 tensor", &r4), ("the column", &column), ("the row", &row)] {
        check_grad(name, t, None, true)?;
    }
    check_values("a", &a, &va, true)?;
    check_values("b", &b, &vb, true)?;
    // and everything still works, for the same kind of callers
    all_ok(go(ctx, callers, &|_| {
        let t: RcTensor<SimF> = a.bmm(&b);
        fits(&t)
    }))
}
fn panic_any_msg(m: String) -> ! {
    panic!("[trace] {}", m)
}
