//! C20 (the work of a call stays within the call and within its caller's pool),
//! C21 (element operations may themselves use rayon and the library), and
//! C22 (a stalled caller holds up nobody outside its pool).
use crate::gen::Gen;
use crate::graph::*;
use crate::net::*;
use crate::num::{self, Elem, SimF};
use crate::scen::*;
use crate::tag::Tag;
use crate::topo::{self, Ctx, Res};
use rust_light::tensor::{RcTensor, SliceRange, TensorLike};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};

/// what an element operation found wrong, first come
static WRONG: Mutex<Option<String>> = Mutex::new(None);
fn wrong(s: String) {
    simrt::atomically(|| {
        let mut w = WRONG.lock().unwrap_or_else(|e| e.into_inner());
        if w.is_none() {
            *w = Some(s);
        }
    })
}

// ------------------------------------------------------------------ C20
const TAGS: usize = 4;
/// number of the tag whose element operations are users of rayon and the library themselves
pub const RE: usize = TAGS;
/// number of the tag whose element operations stall in the private pool
pub const STALL: usize = TAGS + 1;
static CALLS: [AtomicUsize; TAGS] = [const { AtomicUsize::new(0) }; TAGS];
static HOME: [AtomicU64; TAGS] = [const { AtomicU64::new(0) }; TAGS];
thread_local! {
    /// 0: no pool, 1: the global pool, 2: the private pool of this run
    static POOL: Cell<u64> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}
const OUTSIDE: u64 = 16;
pub fn mark(pool: u64) {
    POOL.with(|p| p.set(pool));
    simrt::no_spawn(true);
}

struct Inside(usize, bool);
impl Drop for Inside {
    fn drop(&mut self) {
        CALLS[self.0].fetch_sub(1, Relaxed);
        simrt::no_spawn(self.1);
    }
}
/// one call of the library by caller N
fn call<const N: usize, R>(f: impl FnOnce() -> R) -> R {
    if N >= TAGS {
        return f();
    }
    let here = POOL.with(|p| p.get());
    HOME[N].store(if here != 0 { here } else { OUTSIDE + simrt::me() as u64 }, Relaxed);
    CALLS[N].fetch_add(1, Relaxed);
    let _inside = Inside(N, simrt::no_spawn(true));
    f()
}

pub fn element_operation(n: usize) {
    if n == RE {
        return reenter();
    }
    if n == STALL {
        return stall();
    }
    simrt::atomically(|| {
        let here = POOL.with(|p| p.get());
        let home = HOME[n].load(Relaxed);
        let name = |p: u64| match p {
            0 => "a thread of its own making".to_string(),
            1 => "the global pool".to_string(),
            2 => "a private pool".to_string(),
            _ => "an outside thread".to_string(),
        };
        if CALLS[n].load(Relaxed) == 0 {
            wrong(format!("[late] an element operation of caller {} (called from {}) runs in {} although none of its calls is active", n, name(home), name(here)));
        } else if here == 0 && home >= OUTSIDE && OUTSIDE + simrt::me() as u64 != home {
            wrong(format!("[elsewhere] an element operation of caller {} (an outside thread) runs on a thread that is neither its own nor one of the global pool", n));
        } else if here == 0 && home < OUTSIDE {
            wrong(format!("[elsewhere] an element operation of caller {} (in {}) runs outside of every pool", n, name(home)));
        } else if here != 0 && here != home && !(home >= OUTSIDE && here == 1) {
            wrong(format!("[elsewhere] an element operation of caller {} (in {}) runs in {}", n, name(home), name(here)));
        }
        if home >= OUTSIDE && here == 1 {
            probe("work_of_an_outside_caller_on_the_global_pool");
        }
    })
}

enum Job {
    Product(RefT, RefT, bool),
    Graph(Graph, usize, usize),
    Train(Spec, RefT, usize),
    Gradient(Vec<usize>, usize),
    Refused(usize),
}
fn gen_job(g: &mut Gen) -> Job {
    match g.weighted(&[6, 6, 3, 1, 1]) {
        0 => {
            let (m, mut kk, mut n) = (g.range(1, 6), g.range(1, 6), g.range(1, 6));
            match g.weighted(&[6, 2, 2, 1]) {
                0 => {}
                1 => kk = g.range(17, 70),
                2 => n = g.range(17, 70),
                _ => {
                    kk = g.range(8, 20);
                    n = g.range(8, 20);
                }
            }
            let b = g.below(4);
            let view = g.chance(1, 4);
            let ls = if b == 0 { vec![b + 1, m, kk] } else if view || b == 1 { vec![m, kk] } else { vec![b, m, kk] };
            let ls = if view { vec![m, kk] } else { ls };
            let mk = |g: &mut Gen, s: Vec<usize>| RefT { data: (0..prod(&s)).map(|_| g.value()).collect(), shape: s };
            let l = mk(g, ls);
            Job::Product(l, mk(g, vec![kk, n]), view)
        }
        1 => {
            let big = g.chance(1, 4);
            let (gr, root) = matmul_graph(g, true, big);
            if work(&gr, root) > 1500 {
                Job::Gradient(vec![2], 1)
            } else {
                Job::Graph(gr, root, g.range(1, 2))
            }
        }
        2 => {
            let spec = gen_spec(g, 2, false);
            let rows = g.range(1, 2);
            let x = RefT { shape: vec![rows, spec.dims[0]], data: (0..rows * spec.dims[0]).map(|_| g.value() / 4.0).collect() };
            Job::Train(spec, x, g.range(1, 3))
        }
        3 => Job::Gradient(vec![g.range(1, 40), g.range(1, 3)], g.range(1, 4)),
        _ => Job::Refused(g.below(3)),
    }
}
/// the calls of one caller
fn work_of<const N: usize>(job: &Job) -> Option<String> {
    match job {
        Job::Product(a, b, view) => {
            let (l, r) = (to_lib::<Tag<N>>(a), to_lib::<Tag<N>>(b));
            let p = if *view {
                let v = l.view(a.shape.iter().map(|&d| SliceRange::new(0, d)).collect());
                call::<N, _>(|| v.bmm(&r))
            } else {
                call::<N, _>(|| l.bmm(&r))
            };
            let w = ref_matmul(a, b);
            simrt::atomically(|| diff(&p, &w.shape, &w.data, true))
        }
        Job::Graph(gr, root, n) => {
            let leaves = lib_leaves::<Tag<N>>(gr);
            for _ in 0..*n {
                let l = call::<N, _>(|| build(gr, *root, &leaves, &mut vec![None; gr.nodes.len()]));
                call::<N, _>(|| l.backward());
                call::<N, _>(|| drop(l));
            }
            simrt::atomically(|| {
                let gs = gr.grads(*root);
                let m = gr.magnitude(&[*root]) * 2.0;
                let exact = gr.exact_under(*root) && m < SimF::LIMIT;
                if !exact && m > 1e7 {
                    return None;
                }
                leaves.iter().zip(&gr.leaf_nodes()).find_map(|(l, &i)| {
                    let w = gs[i].as_ref().map(|v| scaled(v, &gr.vals[i].shape, *n as f64));
                    check_grad(&format!("leaf n{}", i), l, w.as_ref(), exact).err()
                })
            })
        }
        Job::Train(spec, x, steps) => {
            let mut net = spec.net(&spec.params::<Tag<N>>());
            for _ in 0..*steps {
                let out = call::<N, _>(|| net.forward(to_lib(x)).sum());
                call::<N, _>(|| out.backward());
                call::<N, _>(|| net.step(0.25));
            }
            None
        }
        Job::Gradient(shape, n) => {
            let t: RcTensor<Tag<N>> = RcTensor::new_with_filler(shape.clone(), Tag(1.0));
            for _ in 0..*n {
                call::<N, _>(|| t.update_grad(RcTensor::new_with_filler(shape.clone(), Tag(2.0))));
            }
            let want = RefT { shape: shape.clone(), data: vec![2.0 * *n as f64; t.count()] };
            let r = simrt::atomically(|| check_grad("the tensor", &t, Some(&want), true).err());
            call::<N, _>(|| t.zero_grad());
            r
        }
        Job::Refused(k) => {
            let of = |s: Vec<usize>| -> RcTensor<Tag<N>> { RcTensor::new_with_filler(s, Tag(1.0)) };
            let r = topo::guard(|| {
                call::<N, _>(|| match k {
                    0 => drop(of(vec![4, 3]).bmm(&of(vec![2, 5]))),
                    1 => of(vec![2, 2]).bmm(&of(vec![2, 2])).backward(),
                    _ => drop(&of(vec![2, 3]) + &of(vec![2, 2])),
                })
            });
            match r {
                Res::Injected => std::panic::panic_any(num::Injected),
                _ => None,
            }
        }
    }
}
fn tell(j: &Job) -> String {
    match j {
        Job::Product(a, b, v) => format!("product {:?} {:?}{}", a.shape, b.shape, if *v { " of a view" } else { "" }),
        Job::Graph(gr, root, n) => format!("{} backward passes from n{}: {}", n, root, gr.describe()),
        Job::Train(s, _, n) => format!("{} training steps of {:?} activations {:?}", n, s.dims, s.acts),
        Job::Gradient(s, n) => format!("{} contributions to a tensor of shape {:?}", n, s),
        Job::Refused(k) => format!("refused request {}", k),
    }
}
pub fn c20(g: &mut Gen) -> R {
    let k = g.range(1, TAGS);
    let jobs: Vec<Vec<Job>> = (0..k).map(|_| (0..g.range(1, 2)).map(|_| gen_job(g)).collect()).collect();
    let ctx = topo::gen(g, false);
    let fault = g.below(3) == 2;
    let at = g.below(1000);
    let d: Vec<String> = jobs.iter().map(|js| js.iter().map(tell).collect::<Vec<_>>().join(", then ")).collect();
    say(format!("{} callers, context {:?}, {}: {}", k, ctx, if fault { format!("an element operation panics at {}/1000", at) } else { "no fault".into() }, d.join(" | ")));
    // the global pool exists before the calls and its threads are known
    rayon::broadcast(|_| mark(1));
    topo::MARK_POOLS.store(true, Relaxed);
    let run = |i: usize| {
        jobs[i].iter().find_map(|j| match i {
            0 => work_of::<0>(j),
            1 => work_of::<1>(j),
            2 => work_of::<2>(j),
            _ => work_of::<3>(j),
        })
    };
    let mut total = 0;
    if fault {
        let o = num::ops();
        (0..k).for_each(|i| drop(run(i)));
        total = num::ops() - o;
        if total > 0 {
            num::arm(&[1 + total * at as u64 / 1000]);
        }
    }
    let base = simrt::live_buffers();
    if total == 0 && base.0 != 0 {
        bad!("harness", "{} buffers alive before the start", base.0);
    }
    let rs = go(ctx, k, &run);
    // no waiting here: what the calls started has ended with them
    let now = simrt::live_buffers();
    let ops = num::ops();
    simrt::quiesce();
    let late = num::ops() - ops;
    let fired = num::disarm();
    if let Some(w) = WRONG.lock().unwrap_or_else(|e| e.into_inner()).take() {
        return Err(w);
    }
    if late > 0 {
        bad!("late", "{} element operations ran after every call had returned", late);
    }
    if simrt::spawned_inside() > 0 {
        bad!("threads", "{} threads were created by the calls", simrt::spawned_inside());
    }
    let mut failed = 0;
    for (i, r) in rs.into_iter().enumerate() {
        match r {
            Res::Ok(None) => {}
            Res::Ok(Some(m)) => bad!("value", "caller {}: {}", i, m),
            Res::NotRun => bad!("lost", "caller {} never ran", i),
            r if fired == 0 => bad!("panic", "caller {} failed: {:?}", i, r),
            _ => failed += 1,
        }
    }
    if failed > 0 {
        probe("call_failed_in_the_middle_of_a_history");
    }
    if now.0 != 0 {
        bad!("held", "{} element buffers ({} bytes) were still alive when every call had returned and every tensor was dropped", now.0, now.1);
    }
    Ok(())
}

// ------------------------------------------------------------------ C21
static SEEN: AtomicU64 = AtomicU64::new(0);
static FIRST: AtomicU64 = AtomicU64::new(u64::MAX);
static EVERY: AtomicU64 = AtomicU64::new(1);
static LEFT: AtomicU64 = AtomicU64::new(0);
static KIND: AtomicUsize = AtomicUsize::new(0);
static SIDE: Mutex<Option<RcTensor<SimF>>> = Mutex::new(None);
static ADDED: AtomicU64 = AtomicU64::new(0);

/// an element operation of `Tag<RE>`: now and then it uses rayon or the library itself
fn reenter() {
    let kind = simrt::atomically(|| {
        let n = SEEN.fetch_add(1, Relaxed);
        let first = FIRST.load(Relaxed);
        if n < first || (n - first) % EVERY.load(Relaxed) != 0 || LEFT.load(Relaxed) == 0 || DEPTH.with(|d| d.get()) >= 3 {
            return None;
        }
        LEFT.fetch_sub(1, Relaxed);
        DEPTH.with(|d| d.set(d.get() + 1));
        probe("element_operation_used_the_pool");
        let k = KIND.load(Relaxed);
        Some(if k == 6 { n as usize % 6 } else { k })
    });
    let Some(kind) = kind else { return };
    struct Up;
    impl Drop for Up {
        fn drop(&mut self) {
            DEPTH.with(|d| d.set(d.get() - 1));
        }
    }
    let _up = Up;
    let of = |s: Vec<usize>, v: f64| -> RcTensor<SimF> { RcTensor::new_with_filler(s, SimF(v)) };
    match kind {
        0 => {
            for _ in 0..3 {
                rayon::yield_now();
            }
        }
        1 => drop(rayon::join(simrt::point, simrt::point)),
        2 => rayon::scope(|s| (0..3).for_each(|_| s.spawn(|_| simrt::point()))),
        3 => {
            let p = of(vec![2, 3], 2.0).bmm(&of(vec![3, 2], 1.0));
            if let Some(m) = simrt::atomically(|| diff(&p, &[2, 2], &[6.0; 4], true)) {
                wrong(format!("[inner] product inside an element operation: {}", m));
            }
        }
        4 => {
            let (a, b) = (of(vec![1, 2], 2.0), of(vec![2, 2], 3.0));
            a.bmm(&b).sum().backward();
            let want = RefT { shape: vec![1, 2], data: vec![6.0; 2] };
            if let Err(m) = simrt::atomically(|| check_grad("an inner operand", &a, Some(&want), true)) {
                wrong(format!("[inner] backward pass inside an element operation: {}", m));
            }
        }
        _ => {
            let side = simrt::atomically(|| SIDE.lock().unwrap().clone());
            if let Some(t) = side {
                t.update_grad(of(vec![2], 1.0));
                ADDED.fetch_add(1, Relaxed);
                if grad_of(&t).is_none() {
                    wrong("[inner] the gradient is absent after a contribution".into());
                }
            }
        }
    }
}
type ReF = Tag<RE>;
pub fn c21(g: &mut Gen) -> R {
    let kind = g.weighted(&[3, 2, 2, 2, 2, 2, 2]);
    let every = [1, 2, 3, 7, 17, 101][g.below(6)];
    let first = g.range(0, 60) as u64;
    let left = [1, 5, 30, 100][g.below(4)];
    let what = g.weighted(&[4, 4, 6, 2]);
    say(format!("element operations number {}, +{}, … ({} of them) use {}", first, every, left,
        ["yield_now", "join", "scope", "a product", "a backward pass", "a contribution to another tensor", "all of it in turn"][kind]));
    KIND.store(kind, Relaxed);
    EVERY.store(every, Relaxed);
    LEFT.store(left, Relaxed);
    FIRST.store(first, Relaxed);
    *SIDE.lock().unwrap() = Some(RcTensor::new_with_filler(vec![2], SimF(1.0)));
    let r = match what {
        0 => c01::<ReF>(g),
        1 => {
            let (gr, root) = matmul_graph(g, true, true);
            c02::<ReF>(g, gr, root)
        }
        2 => {
            let k = g.range(2, 4);
            let sh = shared_graph(g, true, k, 250);
            c04::<ReF>(g, sh)
        }
        _ => c10::<ReF>(g),
    };
    r?;
    LEFT.store(0, Relaxed);
    if let Some(w) = WRONG.lock().unwrap_or_else(|e| e.into_inner()).take() {
        return Err(w);
    }
    let side = SIDE.lock().unwrap().take().unwrap();
    let added = ADDED.load(Relaxed);
    let want = (added > 0).then(|| RefT { shape: vec![2], data: vec![added as f64; 2] });
    check_grad("the tensor the element operations contribute to", &side, want.as_ref(), true)?;
    if SEEN.load(Relaxed) <= first {
        trivial();
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
static STALLS_AT: [AtomicU64; 2] = [const { AtomicU64::new(u64::MAX) }; 2];
/// (the caller of the private pool has stalled or is done, the others are done)
static GATE: Mutex<(bool, bool)> = Mutex::new((false, false));
static GATE_CV: Condvar = Condvar::new();
fn gate(f: impl FnOnce(&mut (bool, bool))) {
    let mut s = GATE.lock().unwrap();
    f(&mut s);
    drop(s);
    GATE_CV.notify_all();
}
fn stall() {
    let now = simrt::atomically(|| {
        if POOL.with(|p| p.get()) != 2 {
            return false;
        }
        let n = SEEN.fetch_add(1, Relaxed);
        STALLS_AT.iter().any(|s| s.load(Relaxed) == n)
    });
    if now {
        gate(|s| s.0 = true);
        let mut s = GATE.lock().unwrap();
        if !s.1 {
            probe("others_worked_while_a_caller_was_stalled");
        }
        while !s.1 {
            s = GATE_CV.wait(s).unwrap();
        }
    }
}
type StF = Tag<STALL>;
pub fn c22(g: &mut Gen) -> R {
    let k = g.range(2, 4);
    let Shared { gr, roots } = shared_graph(g, true, k, 250);
    let leaves = lib_leaves::<StF>(&gr);
    let nl = leaves.len();
    // callers share: 0 the leaves, 1 also the inner results, 2 also the losses
    let share = g.weighted(&[3, 2, 2]);
    let ctx = [Ctx::Main, Ctx::Threads, Ctx::Scope, Ctx::Iter, Ctx::Detached, Ctx::GlobalMixed][g.below(6)];
    let workers = g.range(1, 3);
    let after = g.chance(3, 4); // the others start when the first caller has stalled
    let passes: Vec<usize> = (0..k).map(|_| g.range(1, 2)).collect();
    let extras: Vec<Vec<(usize, usize)>> = (0..k).map(|_| (0..g.range(0, 3)).map(|_| ([g.below(6), g.range(6, 8), g.range(9, 10)][g.weighted(&[4, 2, 1])], g.below(nl))).collect()).collect();
    let common: RcTensor<StF> = RcTensor::new_with_filler(vec![3], Tag(2.0));
    // a model that all of them use
    let spec = gen_spec(g, 2, false);
    let x = RefT { shape: vec![1, spec.dims[0]], data: (0..spec.dims[0]).map(|_| g.value() / 4.0).collect() };
    let mut ngr = Graph::default();
    let np: Vec<usize> = spec.values().iter().map(|v| ngr.leaf(v.shape.clone(), v.data.clone())).collect();
    let xi = ngr.leaf(x.shape.clone(), x.data.clone());
    let model = spec.forward(&mut ngr, &np, xi).and_then(|o| Some((ngr.vals[o].clone(), ngr.push(Node::Sum(o))?)));
    let nparams = spec.params::<StF>();
    let net = spec.net(&nparams);
    let jobs: Vec<Option<(bool, Job)>> = (0..k).map(|_| g.chance(1, 2).then(|| (g.chance(1, 2), gen_job(g)))).collect();
    let at = [g.below(1000), if g.chance(1, 4) { g.below(1000) } else { 1000 }];
    say(format!("{} roots {:?}; caller 0 in a private pool of {} stalls in its element operation at {:?}/1000 until the others ({:?}, {}) are done; shared: {}; passes {:?}; besides (0 contribution, 1 read, 2 deep copy, 3 debug text, 4 equality, 5 product, 6 to 8: a tensor common to all is contributed to, cleared, read, 9 and 10: a model common to all is evaluated, trained; leaf): {:?}; the model {:?}; on tensors of their own: {:?}",
        gr.describe(), roots, workers, at, ctx, if after { "started when it has stalled" } else { "started together with it" }, ["leaves", "inner results", "losses"][share], passes, extras, spec,
        jobs.iter().map(|j| j.as_ref().map(|(first, j)| format!("{} {}", if *first { "first" } else { "at last" }, tell(j)))).collect::<Vec<_>>()));
    rayon::broadcast(|_| mark(1));
    let mut cache = vec![None; gr.nodes.len()];
    for i in 0..k {
        match share {
            0 => {}
            1 => inputs(&gr.nodes[roots[i]]).into_iter().for_each(|j| drop(build(&gr, j, &leaves, &mut cache))),
            _ => drop(build(&gr, roots[i], &leaves, &mut cache)),
        }
    }
    let given = extras.iter().flatten().filter(|e| e.0 == 6).count();
    // the gradient of the common tensor is that of some of the contributions to it
    let partly = |t: &RcTensor<StF>| {
        let d = grad_of(t)?;
        simrt::atomically(|| {
            let m = d[&vec![0]].0;
            match m >= 1.0 && m <= given as f64 && m.fract() == 0.0 {
                true => diff(&d, &[3], &[m; 3], true),
                false => Some(format!("[common] a gradient of {:?}, {} contributions were made", d, given)),
            }
        })
    };
    let one = |i: usize, leaves: &[RcTensor<StF>], cache: &Vec<Option<RcTensor<StF>>>| -> Option<String> {
        if let Some((true, j)) = &jobs[i] {
            if let Some(m) = work_of::<STALL>(j) {
                return Some(m);
            }
        }
        for _ in 0..passes[i] {
            let mut c = cache.clone();
            build(&gr, roots[i], leaves, &mut c).backward();
        }
        for (n, &(what, l)) in extras[i].iter().enumerate() {
            let t = &leaves[l];
            let shape = &gr.vals[gr.leaf_nodes()[l]].shape;
            match what {
                0 => t.update_grad(RcTensor::new_with_filler(shape.clone(), Tag(1.0))),
                1 => drop(grad_of(t)),
                2 => {
                    let c = t.deep_clone();
                    if grad_of(&c).is_some() {
                        return Some("[copy] a deep copy has a gradient".into());
                    }
                }
                3 => drop(format!("{:?}", t).len()),
                4 => {
                    if *t != t.clone() {
                        return Some("[equal] a tensor differs from itself".into());
                    }
                }
                6 => match n % 2 {
                    0 => common.update_grad(RcTensor::new_with_filler(vec![3], Tag(1.0))),
                    _ => common.sum().backward(),
                },
                7 => common.zero_grad(),
                9 | 10 => {
                    let out = net.forward(to_lib(&x));
                    let Some((w, _)) = &model else { continue };
                    if let Some(m) = simrt::atomically(|| diff(&out, &w.shape, &w.data, false)) {
                        return Some(format!("[output] of the model common to all: {}", m));
                    }
                    if what == 10 {
                        out.sum().backward();
                    }
                }
                8 => {
                    if let Some(m) = partly(&common) {
                        return Some(m);
                    }
                }
                _ => {
                    let (a, b): (RcTensor<StF>, RcTensor<StF>) = (RcTensor::new_with_filler(vec![2, 3], Tag(2.0)), RcTensor::new_with_filler(vec![3, 2], Tag(1.0)));
                    let p = a.bmm(&b);
                    let d = simrt::atomically(|| diff(&p, &[2, 2], &[6.0; 4], true));
                    if d.is_some() {
                        return d;
                    }
                }
            }
        }
        match &jobs[i] {
            Some((false, j)) => work_of::<STALL>(j),
            _ => None,
        }
    };
    // how many element operations the first caller makes (on tensors of its own)
    let total = {
        let ls = lib_leaves::<StF>(&gr);
        let o = num::ops();
        let mut own = vec![None; gr.nodes.len()];
        build(&gr, roots[0], &ls, &mut own);
        let built = num::ops();
        one(0, &ls, &vec![None; gr.nodes.len()]);
        common.zero_grad();
        nparams.iter().for_each(|p| p.zero_grad());
        if share == 2 { num::ops() - built } else { num::ops() - o }
    };
    for q in 0..2 {
        if at[q] < 1000 {
            STALLS_AT[q].store(total * at[q] as u64 / 1000, Relaxed);
        }
    }
    topo::MARK_POOLS.store(true, Relaxed);
    let Some(pool) = topo::pool(workers) else { return Ok(()) };
    let mut rs = vec![];
    let mut first = Res::NotRun;
    std::thread::scope(|s| {
        let h = s.spawn(|| {
            let r = topo::guard(|| pool.install(|| one(0, &leaves, &cache)));
            gate(|s| s.0 = true);
            r
        });
        if after {
            let mut s = GATE.lock().unwrap();
            while !s.0 {
                s = GATE_CV.wait(s).unwrap();
            }
        }
        rs = go(ctx, k - 1, &|i| one(i + 1, &leaves, &cache));
        gate(|s| s.1 = true);
        first = h.join().unwrap();
    });
    rs.push(first);
    all_ok(rs)?;
    let mut want: Vec<Option<Vec<f64>>> = vec![None; gr.nodes.len()];
    set_scale(gr.magnitude(&roots) * 2.0);
    let exact = gr.magnitude(&roots) * 2.0 < SimF::LIMIT && roots.iter().all(|&r| gr.exact_under(r));
    for i in 0..k {
        let gs = gr.grads(roots[i]);
        for &l in &gr.leaf_nodes() {
            if let Some(v) = &gs[l] {
                plus(&mut want[l], v, passes[i] as f64);
            }
        }
        for &(what, l) in &extras[i] {
            if what == 0 {
                let l = gr.leaf_nodes()[l];
                plus(&mut want[l], &vec![1.0; gr.vals[l].count()], 1.0);
            }
        }
    }
    for (q, &l) in gr.leaf_nodes().iter().enumerate() {
        let w = want[l].as_ref().map(|v| scaled(v, &gr.vals[l].shape, 1.0));
        check_grad(&format!("shared leaf n{}", l), &leaves[q], w.as_ref(), exact)?;
        check_values(&format!("leaf n{}", l), &leaves[q], &gr.vals[l], true)?;
    }
    if let Some(m) = partly(&common) {
        return Err(format!("the tensor common to all: {}", m));
    }
    if let Some((_, root)) = model {
        let n = extras.iter().flatten().filter(|e| e.0 == 10).count();
        set_scale(ngr.magnitude(&[root]) * (1 + n) as f64);
        let gs = ngr.grads(root);
        for (q, p) in nparams.iter().enumerate() {
            let v = &ngr.vals[np[q]];
            let want = (n > 0).then(|| scaled(gs[np[q]].as_ref().expect("every parameter counts"), &v.shape, n as f64));
            check_grad(&format!("parameter {} of the model common to all", q), p, want.as_ref(), false)?;
        }
    }
    let cleared = extras.iter().flatten().any(|e| e.0 == 7);
    if !cleared {
        let want = (given > 0).then(|| RefT { shape: vec![3], data: vec![given as f64; 3] });
        check_grad("the tensor common to all, never cleared", &common, want.as_ref(), true)?;
    }
    Ok(())
}
