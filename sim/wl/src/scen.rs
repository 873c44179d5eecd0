//! One scenario per property: generate a workload, run it, judge it.
use crate::gen::Gen;
use crate::graph::*;
use crate::net::*;
use crate::num::{self, Elem, SimF};
use crate::topo::{self, guard, Ctx, Res};
use rust_light::tensor::{RawTensor, RcTensor, SliceRange, TensorLike, TensorView};
use std::sync::Mutex;

pub type R = Result<(), String>;
pub fn say(s: String) {
    simrt::describe(&s);
    simrt::describe("\n");
}
#[macro_export]
macro_rules! bad { ($c:expr, $($a:tt)*) => { return Err(format!("[{}] {}", $c, format!($($a)*))) } }

// probes ("this rare condition was reached")
pub const PROBES: &[&str] = &[
    "caller_on_pool_worker",
    "more_callers_than_workers",
    "operand_over_32_elements",
    "operand_is_view",
    "callers_overlapped",
    "updates_of_one_gradient_overlapped",
    "fault_fired_off_the_calling_thread",
    "fault_fired_on_the_calling_thread",
    "caller_failed_while_others_succeeded",
    "partial_gradient_after_failure",
    "spawn_failure_reached_caller",
    "three_dimensional_product",
    "read_of_absent_gradient",
    "read_saw_concurrent_contribution",
    "failed_step",
    "failed_cycle",
    "dropped_off_main",
    "reused_operand",
    "second_pass_on_same_loss",
    "one_worker_pool",
    "missing_gradient_step",
    "snapshot_raced_with_update",
    "two_faults_fired",
    "trivial_run",
    "call_failed_in_the_middle_of_a_history",
    "calls_of_a_history_overlapped",
    "backward_from_an_inner_result",
    "step_in_a_history",
    "different_pool_sizes_compared",
    "non_finite_elements",
    "request_refused",
    "mini_batches_used_again",
    "operand_over_1000_elements",
    "more_than_65536_elements",
    "tied_parameters",
    "parameter_assigned_directly",
    "result_without_history",
    "long_training",
    "refused_operation",
    "work_of_an_outside_caller_on_the_global_pool",
    "element_operation_used_the_pool",
    "others_worked_while_a_caller_was_stalled",
    "long_history_of_the_process",
    "long_history_of_a_tensor",
];
pub fn probe(name: &str) {
    simrt::probe(PROBES.iter().position(|p| *p == name).expect("probe"))
}
/// the run did not exercise what it was meant to (counted, not judged)
pub fn trivial() {
    probe("trivial_run");
    simrt::user(0, 1);
}

pub fn run(prop: &str, g: &mut Gen) -> R {
    let workers = 1 + g.weighted(&[12, 12, 10, 4, 1, 1, 1, 1]);
    std::env::set_var("RAYON_NUM_THREADS", workers.to_string());
    say(format!("global pool: {} worker(s)", workers));
    WORKERS.store(workers, std::sync::atomic::Ordering::Relaxed);
    if workers == 1 {
        probe("one_worker_pool");
    }
    crate::warm::warm_up(g, match prop {
        "C01" => &[0],
        "C02" => &[0, 1, 1],
        "C04" | "C22" => &[1, 2, 3, 4, 5],
        "C05" => &[1, 3, 3],
        "C07" => &[1, 3, 6],
        "C08" | "C10" | "C17" | "C18" | "C19" | "C21" => &[0, 1, 2, 3, 4, 5, 6],
        _ => &[],
    })?;
    let r = match prop {
        "C01" => match g.weighted(&[5, 4, 4, 1, 1]) {
            0 => c01::<SimF>(g),
            1 => c01::<i64>(g),
            2 => c01::<f64>(g),
            3 => c01::<f32>(g),
            _ => c01::<i32>(g),
        },
        "C02" => {
            let t = g.weighted(&[5, 4, 4, 1, 1]);
            let (gr, root) = matmul_graph(g, t == 0 || t == 2 || t == 3, true);
            let small = |limit: f64| gr.exact_under(root) && gr.magnitude(&[root]) * 4.0 < limit;
            match t {
                0 => c02::<SimF>(g, gr, root),
                3 if small(f32::LIMIT) => c02::<f32>(g, gr, root),
                4 if small(i32::LIMIT) => c02::<i32>(g, gr, root),
                1 | 4 => c02::<i64>(g, gr, root),
                _ => c02::<f64>(g, gr, root),
            }
        }
        "C03" => c03(g),
        "C04" => {
            let t = g.weighted(&[6, 3, 3, 1, 1]);
            let k = if g.chance(1, 8) { g.range(5, 7) } else { g.range(2, 4) };
            let sh = shared_graph(g, t != 1 && t != 4, k, 250);
            let small = |limit: f64| sh.roots.iter().all(|&r| sh.gr.exact_under(r)) && sh.gr.magnitude(&sh.roots) * 2.0 < limit;
            match t {
                0 => c04::<SimF>(g, sh),
                3 if small(f32::LIMIT) => c04::<f32>(g, sh),
                4 if small(i32::LIMIT) => c04::<i32>(g, sh),
                1 | 4 => c04::<i64>(g, sh),
                _ => c04::<f64>(g, sh),
            }
        }
        "C05" => c05(g),
        "C06" => c06(g),
        "C07" => c07(g),
        "C08" => c08(g),
        "C09" => c09(g),
        "C10" => match g.below(3) {
            0 => c10::<f64>(g),
            _ => c10::<SimF>(g),
        },
        "C11" => c11(g),
        "C16" => crate::scen2::c16(g),
        "C17" => crate::scen2::c17(g),
        "C18" => crate::scen2::c18(g),
        "C19" => crate::scen2::c19(g),
        "C20" => crate::scen3::c20(g),
        "C21" => crate::scen3::c21(g),
        "C22" => crate::scen3::c22(g),
        _ => Err(format!("[harness] unknown property {}", prop)),
    };
    r
}
static WORKERS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
pub fn workers() -> usize {
    WORKERS.load(std::sync::atomic::Ordering::Relaxed)
}

// ------------------------------------------------------------------ shared helpers
struct Overlap(Mutex<(usize, usize)>);
impl Overlap {
    fn new() -> Self {
        Overlap(Mutex::new((0, 0)))
    }
    fn enter(&self) {
        simrt::atomically(|| {
            let mut m = self.0.lock().unwrap();
            m.0 += 1;
            m.1 = m.1.max(m.0);
        });
    }
    fn leave(&self) {
        simrt::atomically(|| self.0.lock().unwrap().0 -= 1);
    }
}
struct In<'a>(&'a Overlap);
impl Drop for In<'_> {
    fn drop(&mut self) {
        self.0.leave()
    }
}

/// run callers and note which situations were reached
pub fn go<X: Send>(ctx: Ctx, k: usize, f: &(dyn Fn(usize) -> X + Sync)) -> Vec<Res<X>> {
    let ov = Overlap::new();
    let pool_size = match ctx {
        Ctx::Pool(n) | Ctx::PoolIter(n) | Ctx::Join(n) | Ctx::Install(n) | Ctx::Mixed(n) | Ctx::Nested(n) => n,
        _ => workers(),
    };
    if k > pool_size {
        probe("more_callers_than_workers");
    }
    let r = topo::run(ctx, k, &|i| {
        ov.enter();
        let _g = In(&ov);
        if rayon::current_thread_index().is_some() {
            probe("caller_on_pool_worker");
        }
        f(i)
    });
    if ov.0.lock().unwrap().1 > 1 {
        probe("callers_overlapped");
        simrt::user(1, 1);
    }
    r
}
/// every caller returned normally and found nothing wrong
pub fn all_ok(rs: Vec<Res<Option<String>>>) -> R {
    for (i, r) in rs.into_iter().enumerate() {
        match r {
            Res::Ok(None) => {}
            Res::Ok(Some(m)) => return Err(if m.starts_with('[') { format!("{} (caller {})", m, i) } else { format!("[value] caller {}: {}", i, m) }),
            Res::Injected => bad!("harness", "caller {} saw a fault that was not injected", i),
            Res::Panicked(m) => bad!("panic", "caller {} panicked: {}", i, m),
            Res::NotRun => bad!("lost", "caller {} never ran", i),
        }
    }
    Ok(())
}
pub fn grad_of<T: Elem>(t: &RcTensor<T>) -> Option<RcTensor<T>> {
    match guard(|| t.grad()) {
        Res::Ok(g) => Some(g),
        _ => None,
    }
}
/// gradient equals `want` (None: absent)
pub fn check_grad<T: Elem>(what: &str, t: &RcTensor<T>, want: Option<&RefT>, exact: bool) -> R {
    match (grad_of(t), want) {
        (None, None) => Ok(()),
        (Some(g), None) => bad!("grad", "{} has a gradient {:?} although nothing contributed to it", what, read(&g).1),
        (None, Some(w)) => bad!("grad", "{} has no gradient (or it cannot be read), expected {:?}", what, w.data),
        (Some(g), Some(w)) => match diff(&g, &w.shape, &w.data, exact) {
            None => Ok(()),
            Some(m) => bad!("grad", "gradient of {}: {}", what, m),
        },
    }
}
pub fn scaled(g: &[f64], shape: &[usize], by: f64) -> RefT {
    RefT { shape: shape.to_vec(), data: g.iter().map(|x| x * by).collect() }
}
pub fn plus(a: &mut Option<Vec<f64>>, g: &[f64], by: f64) {
    match a {
        Some(v) => v.iter_mut().zip(g).for_each(|(x, y)| *x += by * y),
        None => *a = Some(g.iter().map(|y| by * y).collect()),
    }
}
pub fn check_values<T: Elem>(what: &str, t: &RcTensor<T>, want: &RefT, exact: bool) -> R {
    match diff(t, &want.shape, &want.data, exact) {
        None => Ok(()),
        Some(m) => bad!("value", "{}: {}", what, m),
    }
}
/// work of differentiating root along every path, roughly in tasks
pub fn work(gr: &Graph, root: usize) -> u64 {
    let p = gr.paths(root);
    (0..gr.nodes.len()).map(|i| p[i].saturating_mul(gr.cost(&gr.nodes[i]) as u64 + 2)).sum()
}

// ------------------------------------------------------------------ C01
enum Opnd<T: Elem> {
    T(RcTensor<T>),
    V(TensorView<T>),
    R(RawTensor<T>),
}
fn gen_opnd<T: Elem>(g: &mut Gen, shape: &[usize]) -> (Opnd<T>, RefT, RcTensor<T>) {
    let form = g.weighted(&[6, 3, 1]);
    let mut val: Vec<f64> = (0..prod(shape)).map(|_| g.value()).collect();
    if g.chance(1, 6) && !val.is_empty() {
        // zeros, and (for floating point) values that no finite sum swallows
        let special = T::NAME != "i32" && T::NAME != "i64" && g.chance(1, 3);
        for _ in 0..g.range(1, 1 + val.len() / 2) {
            let at = g.below(val.len());
            val[at] = if special { [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN][g.below(5)] } else { 0.0 };
        }
        if special {
            probe("non_finite_elements");
        }
    }
    let r = RefT { shape: shape.to_vec(), data: val };
    match form {
        1 => {
            probe("operand_is_view");
            let lo: Vec<usize> = shape.iter().map(|_| g.below(2)).collect();
            let hi: Vec<usize> = shape.iter().map(|_| g.below(2)).collect();
            let big: Vec<usize> = (0..shape.len()).map(|i| lo[i] + shape[i] + hi[i]).collect();
            let data = (0..prod(&big))
                .map(|k| {
                    let i = unravel(k, &big);
                    let inside = (0..shape.len()).all(|d| i[d] >= lo[d] && i[d] < lo[d] + shape[d]);
                    if inside {
                        let mut q = 0;
                        for d in 0..shape.len() {
                            q = q * shape[d] + i[d] - lo[d];
                        }
                        r.data[q]
                    } else {
                        1000.0
                    }
                })
                .map(T::from_f)
                .collect();
            let base = RcTensor::new(data, big);
            let v = base.view((0..shape.len()).map(|d| SliceRange::new(lo[d], lo[d] + shape[d])).collect());
            (Opnd::V(v), r, base)
        }
        2 => {
            let t: RcTensor<T> = to_lib(&r);
            (Opnd::R(RawTensor::new(r.data.iter().map(|&x| T::from_f(x)).collect(), shape.to_vec())), r, t)
        }
        _ => {
            let t: RcTensor<T> = to_lib(&r);
            (Opnd::T(t.clone()), r, t)
        }
    }
}
fn product<T: Elem>(a: &Opnd<T>, b: &Opnd<T>, form: usize) -> (RcTensor<T>, Option<RawTensor<T>>) {
    fn with<T: Elem, B: TensorLike<Elem = T>>(a: &Opnd<T>, b: &B, form: usize) -> (RcTensor<T>, Option<RawTensor<T>>) {
        match (a, form) {
            (Opnd::T(a), 0) => (a.bmm(b), None),
            (Opnd::T(a), _) => (a.bmm_rc(b), None),
            (Opnd::V(a), 0) => (a.bmm(b), None),
            (Opnd::V(a), _) => (a.bmm_rc(b), None),
            (Opnd::R(a), 0) => (a.bmm_rc(b), None),
            (Opnd::R(a), _) => {
                let r = a.bmm(b);
                (RcTensor::new(vec![T::from_f(0.0)], vec![1]), Some(r))
            }
        }
    }
    match b {
        Opnd::T(b) => with(a, b, form),
        Opnd::V(b) => with(a, b, form),
        Opnd::R(b) => with(a, b, form),
    }
}
/// (batch, rows, inner, columns); no batch: a plain matrix
fn gen_dims(g: &mut Gen) -> (Option<usize>, usize, usize, usize) {
    let batch = if g.chance(1, 3) { Some(g.range(1, 3)) } else { None };
    let (mut m, mut k, mut n) = (g.range(1, 4), g.range(1, 4), g.range(1, 4));
    let class = g.weighted(&[48, 4, 4, 4, 4, 2, 1, 4]);
    if class == 7 {
        // square: an operand can meet itself
        k = m;
        n = if g.below(2) == 0 { m } else { n };
    }
    if class == 6 {
        // rare: many elements
        match g.below(10) {
            8 | 9 => {
                // any proportions, up to some 100000 multiplications
                let d = |g: &mut Gen| (1usize << g.below(9)) + g.below(1 << 5);
                let mut d = [d(g), d(g), d(g)];
                let batch = if g.chance(1, 3) { Some(g.range(1, 9)) } else { None };
                while d[0] * d[1] * d[2] * batch.unwrap_or(1) > 100_000 || d[0] * d[2] * batch.unwrap_or(1) > 6000 {
                    let big = if d[0] * d[2] > 3000 { if d[0] > d[2] { 0 } else { 2 } } else { (0..3).max_by_key(|&i| d[i]).unwrap() };
                    d[big] -= d[big] / 4 + 1;
                }
                let d = d.map(|d| d.max(1));
                simrt::allow_steps(8000 * (batch.unwrap_or(1) * d[0] * d[1] * d[2]) as u64);
                return (batch, d[0], d[1], d[2]);
            }
            7 => {
                // more than 4096 elements in the result
                m = g.range(62, 70);
                n = g.range(62, 70);
                k = k.min(2);
            }
            5 => {
                m = g.range(17, 26);
                n = g.range(17, 26);
                k = g.range(17, 26);
            }
            6 => {
                // more than 1024 elements
                m = g.range(2, 4);
                n = g.range(2, 4);
                k = g.range(520, 1100);
                if g.below(2) == 1 {
                    std::mem::swap(&mut n, &mut k);
                }
                return (None, m.min(2), k, n);
            }
            0 => {
                m = g.range(33, 40);
                n = g.range(33, 40);
                k = k.min(2);
            }
            1 => {
                m = 1;
                n = g.range(71, 300);
            }
            2 => {
                m = g.range(41, 300);
                n = 1;
            }
            3 => {
                k = g.range(81, 600);
                m = m.min(2);
                n = n.min(2);
            }
            _ => return (Some(g.range(4, 20)), m.min(2), k, n.min(3)),
        }
        return (None, m, k, n);
    }
    match class {
        1 => {
            n = g.range(33, 70);
            m = m.min(2);
        }
        2 => {
            m = g.range(17, 40);
            n = n.min(2);
        }
        3 => k = g.range(17, 80),
        4 => k = 0,
        5 => match g.below(3) {
            0 => m = 0,
            1 => n = 0,
            _ => return (batch.map(|_| 0), m, k, n),
        },
        _ => {}
    }
    (batch, m, k, n)
}
/// one product whose result or whose operand has more than 65536 elements
fn huge<T: Elem>(g: &mut Gen) -> R {
    let a = [1, 2, 16, 255, 256, 300, 1030][g.below(7)];
    let b = 65536 / a + 1 + g.below(20);
    let (m, n) = if g.chance(1, 2) { (a, b) } else { (b.min(1300), (65536 / b.min(1300)) + 1 + a % 7) };
    let (m, k, n) = match g.below(3) {
        0 => (m, n, 1), // the left operand
        1 => (1, m, n), // the right one
        _ => (m, 1, n),
    };
    let batch = if m > 4 && g.chance(1, 3) { Some(g.range(2, 4)) } else { None };
    let m = batch.map_or(m, |b| m / b + 1);
    let ls = batch.map_or(vec![m, k], |b| vec![b, m, k]);
    let of = |shape: &[usize], p: usize| RefT { shape: shape.to_vec(), data: (0..shape.iter().product::<usize>()).map(|i| ((i % p) as f64) - 3.0).collect() };
    let (l, r) = (of(&ls, 7), of(&[k, n], 11));
    let want = ref_matmul(&l, &r);
    say(format!("{:?} x {:?}, {}", ls, r.shape, T::NAME));
    probe("more_than_65536_elements");
    simrt::allow_steps(2000 * (batch.unwrap_or(1) * m * k * n) as u64);
    let ctx = topo::gen(g, false);
    let (lt, rt): (RcTensor<T>, RcTensor<T>) = (to_lib(&l), to_lib(&r));
    all_ok(go(ctx, 1, &|_| {
        let p = lt.bmm(&rt);
        simrt::atomically(|| diff(&p, &want.shape, &want.data, true))
    }))
}
pub fn c01<T: Elem>(g: &mut Gen) -> R {
    if g.chance(1, 700) {
        return huge::<T>(g);
    }
    let npairs = g.range(1, 3);
    let mut pairs = vec![];
    for p in 0..npairs {
        let (b, m, k, n) = gen_dims(g);
        let ls = match b {
            None => vec![m, k],
            Some(b) => {
                probe("three_dimensional_product");
                vec![b, m, k]
            }
        };
        let (lo, lr, lt) = gen_opnd::<T>(g, &ls);
        let (ro, rr, rt) = gen_opnd::<T>(g, &[k, n]);
        if lr.count() > 32 || rr.count() > 32 {
            probe("operand_over_32_elements");
        }
        if lr.count() > 1000 || rr.count() > 1000 {
            probe("operand_over_1000_elements");
        }
        let want = ref_matmul(&lr, &rr);
        let q = g.range(1, 3);
        let (co, cr, _) = gen_opnd::<T>(g, &[n, q]);
        let want2 = ref_matmul(&want, &cr);
        let abs = |r: &RefT| RefT { shape: r.shape.clone(), data: r.data.iter().map(|x| x.abs()).collect() };
        let chain_exact = ref_matmul(&ref_matmul(&abs(&lr), &abs(&rr)), &abs(&cr)).data.iter().all(|x| *x < T::LIMIT);
        say(format!("pair {}: {} {:?} x {:?}", p, T::NAME, ls, rr.shape));
        pairs.push((lo, ro, want, co, want2, lt, rt, chain_exact, lr));
    }
    let k = if g.chance(1, 8) { g.range(5, 9) } else { g.range(1, 4) };
    let ctx = topo::gen(g, false);
    let jobs: Vec<Vec<(usize, usize, usize)>> =
        (0..k).map(|_| (0..g.range(1, 2)).map(|_| (g.below(npairs), g.below(2), g.weighted(&[8, 2, 2, 1, 2]))).collect()).collect();
    say(format!("context {:?}, callers' jobs (pair, form, kind): {:?}", ctx, jobs));
    let bits = |t: &RcTensor<T>| -> Vec<u64> { read(t).1.into_iter().map(f64::to_bits).collect() };
    let before: Vec<(Vec<u64>, Vec<u64>)> = pairs.iter().map(|p| (bits(&p.5), bits(&p.6))).collect();
    let rs = go(ctx, k, &|i| {
        for &(p, form, kind) in &jobs[i] {
            let (l, r, want, c, want2, lt, rt, chain_exact, lr) = &pairs[p];
            let small = lt.count() * rt.count() <= 4096;
            if kind == 2 && small && lt.shape().len() == 2 && lt.shape()[1] == rt.shape()[0] && want.count() > 0 && rt.shape()[0] > 0 {
                lt.bmm(rt).sum().backward(); // other computations sharing the operands
                continue;
            }
            if kind == 3 && small {
                // operands that come and go: the same shapes with other values, one after the other
                for by in [2.0, 3.0, 1.0 + i as f64] {
                    let mine: RcTensor<T> = RcTensor::new(lr.data.iter().map(|x| T::from_f(x * by)).collect(), lr.shape.clone());
                    let (t, _) = product(&Opnd::T(mine), r, form);
                    let w: Vec<f64> = want.data.iter().map(|x| x * by).collect();
                    if let Some(m) = simrt::atomically(|| diff(&t, &want.shape, &w, true)) {
                        return Some(format!("product of pair {}, left operand new and {} times as large: {}", p, by, m));
                    }
                }
                continue;
            }
            if kind == 4 && lr.shape.len() == 2 && lr.shape[0] == lr.shape[1] {
                let (t, _) = product(l, l, if matches!(l, Opnd::R(_)) { 0 } else { form });
                let w = ref_matmul(lr, lr);
                if let Some(m) = simrt::atomically(|| diff(&t, &w.shape, &w.data, true)) {
                    return Some(format!("product of the left operand of pair {} with itself: {}", p, m));
                }
                continue;
            }
            let (t, raw) = product(l, r, form);
            let d = match &raw {
                Some(x) => simrt::atomically(|| diff(x, &want.shape, &want.data, true)),
                None => simrt::atomically(|| diff(&t, &want.shape, &want.data, true)),
            };
            if let Some(m) = d {
                return Some(format!("product of pair {}: {}", p, m));
            }
            if kind == 1 && raw.is_none() && *chain_exact {
                let (t2, _) = product(&Opnd::T(t), c, 0);
                if let Some(m) = simrt::atomically(|| diff(&t2, &want2.shape, &want2.data, true)) {
                    return Some(format!("chained product of pair {}: {}", p, m));
                }
            }
        }
        None
    });
    all_ok(rs)?;
    for (p, b) in pairs.iter().zip(&before) {
        if bits(&p.5) != b.0 || bits(&p.6) != b.1 {
            bad!("value", "an operand changed value");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C02
/// leaves and a chain of products over them; returns (graph, root)
pub fn matmul_graph(g: &mut Gen, real: bool, big_ok: bool) -> (Graph, usize) {
    let mut gr = Graph::default();
    if big_ok && g.chance(1, 50) {
        // one product with many contributions: to many entries, or to one
        let (m, k, n) = match g.below(5) {
            4 => (g.range(4, 20), g.range(4, 20), g.range(4, 20)),
            0 => (g.range(30, 40), g.range(30, 36), 1),
            1 => (1, g.range(30, 36), g.range(30, 40)),
            2 => (g.range(1, 3), g.range(1, 4), g.range(70, 200)),
            _ => (g.range(70, 200), g.range(1, 4), g.range(1, 3)),
        };
        let a = gr.leaf_gen(g, vec![m, k]);
        let b = gr.leaf_gen(g, vec![k, n]);
        let p = gr.push(Node::MatMul(a, b)).expect("product");
        if m * k * n < 4000 {
            let root = gr.push(Node::Sum(p)).expect("sum");
            return (gr, root);
        }
        gr = Graph::default();
    }
    let layers = g.range(1, 3);
    let mut d: Vec<usize> = (0..layers + 2).map(|_| g.range(1, 3)).collect();
    if big_ok && g.chance(1, 3) {
        let k = g.below(d.len());
        match g.below(3) {
            0 => d[k] = g.range(17, 40),
            1 => {
                d[k] = g.range(6, 9);
                let k2 = g.below(d.len());
                d[k2] = g.range(6, 9);
            }
            _ => d[k] = g.range(33, 66),
        }
    }
    let square = g.chance(1, 6);
    if square {
        d = vec![d[0].min(4); d.len()];
    }
    let mut pool = vec![];
    let x = gr.leaf_gen(g, vec![d[0], d[1]]);
    pool.push(x);
    let mut cur = x;
    for l in 0..layers {
        let shape = vec![d[l + 1], d[l + 2]];
        // reuse an operand of the right shape now and then
        let reuse = pool.iter().copied().find(|&i| gr.vals[i].shape == shape);
        let w = match reuse {
            Some(i) if g.chance(1, 2) => {
                probe("reused_operand");
                i
            }
            _ => gr.leaf_gen(g, shape),
        };
        if !pool.contains(&w) {
            pool.push(w);
        }
        let Some(p) = gr.push(Node::MatMul(cur, w)) else { break };
        cur = p;
        pool.push(p);
        match g.weighted(&[2, 3, 2, 2, 2]) {
            1 => {
                let (r, c) = (d[0], d[l + 2]);
                let bs = [vec![1, c], vec![c], vec![r, 1], vec![1, 1], vec![1], vec![], vec![r, c]][g.weighted(&[6, 6, 4, 1, 1, 1, 1])].clone();
                let b = gr.leaf_gen(g, bs);
                pool.push(b);
                if let Some(p) = gr.push(Node::Add(cur, b, g.below(2) as u8)) {
                    cur = p;
                    pool.push(p);
                }
            }
            2 if real => {
                if let Some(p) = gr.push(Node::Relu(cur)) {
                    cur = p;
                    pool.push(p);
                }
            }
            3 if real => {
                if let Some(p) = gr.push(Node::Tanh(cur)) {
                    cur = p;
                    pool.push(p);
                }
            }
            4 => {
                if let Some(p) = gr.push(Node::Neg(cur)) {
                    cur = p;
                    pool.push(p);
                }
            }
            _ => {}
        }
    }
    let extra = g.below(3);
    grow(&mut gr, g, &mut pool, extra, &Mix { real, matmul: true, max_cost: 60 });
    let mut top = *pool.last().unwrap();
    if matches!(gr.nodes[top], Node::Leaf(_)) {
        top = cur;
    }
    if work(&gr, top) > 700 {
        top = cur;
    }
    let root = root_of(&mut gr, g, top);
    (gr, root)
}
pub fn c02<T: Elem>(g: &mut Gen, gr: Graph, root: usize) -> R {
    if work(&gr, root) > 9000 {
        trivial();
        return Ok(());
    }
    if gr.leaf_nodes().iter().any(|&i| gr.vals[i].count() > 32) {
        probe("operand_over_32_elements");
    }
    let leaves = lib_leaves::<T>(&gr);
    let passes = 1 + g.weighted(&[3, 2, 1]);
    let prebuilt = g.below(2) == 1;
    let ctx = topo::gen(g, false);
    let noise = if ctx.concurrent() { g.below(3) } else { 0 };
    let exact = gr.exact_under(root) && gr.magnitude(&[root]) * 4.0 < T::LIMIT;
    set_scale(gr.magnitude(&[root]) * 4.0);
    say(format!("{} {} root n{}; context {:?}; passes {}; loss built {}; {} noise caller(s)", T::NAME, gr.describe(), root, ctx, passes, if prebuilt { "beforehand" } else { "by the caller, each time" }, noise));
    let mut cache = vec![None; gr.nodes.len()];
    let pre = if prebuilt { Some(build(&gr, root, &leaves, &mut cache)) } else { None };
    if passes > 1 && prebuilt {
        probe("second_pass_on_same_loss");
    }
    // products over the same leaves, requested by other callers
    let prods: Vec<(usize, usize)> = gr.nodes.iter().filter_map(|n| if let Node::MatMul(a, b) = *n { Some((a, b)) } else { None }).filter(|&(a, b)| matches!(gr.nodes[a], Node::Leaf(_)) && matches!(gr.nodes[b], Node::Leaf(_))).collect();
    let lf = |i: usize| if let Node::Leaf(k) = gr.nodes[i] { k } else { unreachable!() };
    // leaf k is cleared before pass clear[k] (0: never)
    let clear: Vec<usize> = leaves.iter().map(|_| if passes > 1 && g.chance(1, 4) { g.below(passes) } else { 0 }).collect();
    if clear.iter().any(|&c| c > 0) {
        say(format!("leaves cleared before pass {:?}", clear));
    }
    let once = |n: usize| {
        for q in 0..n {
            for (l, &c) in leaves.iter().zip(&clear) {
                if c > 0 && c == q {
                    l.zero_grad();
                }
            }
            match &pre {
                Some(l) => l.backward(),
                None => {
                    let mut c = vec![None; gr.nodes.len()];
                    build(&gr, root, &leaves, &mut c).backward()
                }
            }
        }
    };
    let rs = go(ctx, 1 + noise, &|i| {
        if i == 0 {
            once(passes);
        } else if let Some(&(a, b)) = prods.first() {
            let r = leaves[lf(a)].bmm(&leaves[lf(b)]);
            let w = ref_matmul(&gr.vals[a], &gr.vals[b]);
            return simrt::atomically(|| diff(&r, &w.shape, &w.data, true));
        }
        None
    });
    all_ok(rs)?;
    let grads = gr.grads(root);
    let check = |n: f64, when: &str, inner: bool| -> R {
        for &i in &gr.leaf_nodes() {
            let n = n - if n > 1.0 { clear[lf(i)] as f64 } else { 0.0 };
            let want = grads[i].as_ref().map(|v| scaled(v, &gr.vals[i].shape, n));
            check_grad(&format!("leaf n{} {}", i, when), &leaves[lf(i)], want.as_ref(), exact)?;
        }
        if inner {
            for n2 in gr.nodes.iter() {
                if let Node::MatMul(a, b) = *n2 {
                    for i in [a, b] {
                        if let (Some(t), Some(v)) = (&cache[i], &grads[i]) {
                            if !matches!(gr.nodes[i], Node::Leaf(_)) {
                                check_grad(&format!("operand n{} {}", i, when), t, Some(&scaled(v, &gr.vals[i].shape, n)), exact)?;
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    };
    check(passes as f64, &format!("after {} pass(es)", passes), prebuilt)?;
    for (l, &i) in leaves.iter().zip(&gr.leaf_nodes()) {
        check_values(&format!("leaf n{}", i), l, &gr.vals[i], true)?;
    }
    if g.below(2) == 1 {
        leaves.iter().for_each(|l| l.zero_grad());
        let r = go(ctx, 1, &|_| {
            once(1);
            None
        });
        all_ok(r)?;
        check(1.0, "after clearing and one more pass", false)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C03
/// passes with different roots over the same leaves and inner results
fn c03_shared(g: &mut Gen) -> R {
    let k = if g.chance(1, 8) { g.range(6, 12) } else { g.range(2, 5) };
    let crossed = g.chance(1, 2);
    let sh = if crossed {
        // the same operands in opposite orders
        let mut gr = Graph::default();
        let n = g.range(1, 3);
        let leaves: Vec<usize> = (0..g.range(2, 3)).map(|_| gr.leaf_gen(g, vec![n, n])).collect();
        let roots = (0..k)
            .map(|_| {
                let a = leaves[g.below(leaves.len())];
                let b = leaves[g.below(leaves.len())];
                let t = match g.below(4) {
                    0 => gr.push(Node::Add(a, b, 0)),
                    1 => gr.push(Node::Sub(a, b, 0)),
                    2 => gr.push(Node::MatMul(a, b)),
                    _ => gr.push(Node::Dot(a, b)),
                };
                let t = t.expect("operands of the same shape");
                if gr.vals[t].count() == 1 { t } else { gr.push(Node::Sum(t)).expect("sum") }
            })
            .collect();
        Shared { gr, roots }
    } else {
        shared_graph(g, true, k, 120)
    };
    let Shared { gr, roots } = sh;
    let ctx = topo::gen(g, true);
    let own: Vec<bool> = (0..k).map(|_| g.chance(1, 2)).collect();
    let reps = 1 + g.weighted(&[2, 2, 1]);
    say(format!("{} roots {:?}; context {:?}; each pass {reps} times; losses built by the caller {:?}", gr.describe(), roots, ctx, own));
    let leaves = lib_leaves::<f64>(&gr);
    let mut cache = vec![None; gr.nodes.len()];
    for i in 0..k {
        if !own[i] {
            build(&gr, roots[i], &leaves, &mut cache);
        }
    }
    let rs = go(ctx, k, &|i| {
        for _ in 0..reps {
            if own[i] {
                build(&gr, roots[i], &leaves, &mut vec![None; gr.nodes.len()]).backward();
            } else {
                cache[roots[i]].as_ref().expect("built").backward();
            }
        }
        None
    });
    all_ok(rs)
}
fn c03(g: &mut Gen) -> R {
    if g.chance(1, 4) {
        return c03_shared(g);
    }
    let big = g.chance(1, 4);
    let (gr, root) = matmul_graph(g, true, big);
    let k = match g.weighted(&[12, 2, 1]) {
        0 => g.range(1, 5),
        1 => g.range(6, 9),
        _ => g.range(10, 20),
    };
    if work(&gr, root) > if big { 1500 } else { 500 } || (work(&gr, root) as usize) * k > 3000 {
        trivial();
        return Ok(());
    }
    let conc = g.below(2) == 0;
    let ctx = topo::gen(g, conc);
    let shared = g.below(2) == 1;
    let kinds: Vec<usize> = (0..k).map(|_| g.weighted(&[4, 2, 1])).collect();
    let reps = if big { 1 } else { 1 + g.weighted(&[3, 1, 1]) };
    say(format!("{} root n{}; context {:?}; {} callers (0 backward, 1 product, 2 training step) {:?} times {reps}; {} leaves", gr.describe(), root, ctx, k, kinds, if shared { "shared" } else { "own" }));
    let common = lib_leaves::<f64>(&gr);
    let spec = gen_spec(g, 2, false);
    let x: RcTensor<f64> = RcTensor::new_with_filler(vec![2, spec.dims[0]], 0.25);
    let rs = go(ctx, k, &|i| {
        let leaves = if shared { common.clone() } else { lib_leaves::<f64>(&gr) };
        for _ in 0..reps {
            match kinds[i] {
                2 => {
                    let mut net = spec.net(&spec.params::<f64>());
                    net.forward(x.clone()).sum().backward();
                    net.step(0.5);
                }
                kind => {
                    let mut c = vec![None; gr.nodes.len()];
                    let l = build(&gr, root, &leaves, &mut c);
                    if kind == 0 {
                        l.backward()
                    }
                }
            }
        }
        None
    });
    all_ok(rs)
}

// ------------------------------------------------------------------ C04
pub struct Shared {
    pub gr: Graph,
    pub roots: Vec<usize>,
}
/// a graph with shared leaves and intermediate nodes and several one-element roots
pub fn shared_graph(g: &mut Gen, real: bool, nroots: usize, cap: u64) -> Shared {
    let mut gr = Graph::default();
    let mut pool = vec![];
    let (a, b) = (g.range(1, 3), g.range(1, 3));
    let nl = g.range(1, 4);
    for _ in 0..nl {
        let s = match g.below(8) {
            0 => vec![a, b],
            1 => vec![b, a],
            2 => vec![b],
            3 => vec![1, b],
            4 => vec![a, 1],
            5 => vec![],
            6 => vec![a, a],
            _ => vec![g.range(1, 2), a, b],
        };
        let l = gr.leaf_gen(g, s);
        pool.push(l);
    }
    if g.chance(1, 10) {
        let n = if g.chance(1, 5) { g.range(71, 1100) } else { g.range(33, 70) };
        let s = [vec![1, n], vec![n], vec![n, 1], vec![2, n / 2], vec![n, 2]][g.below(5)].clone();
        for _ in 0..g.range(1, 2) {
            let l = gr.leaf_gen(g, s.clone());
            pool.push(l);
        }
        probe("operand_over_32_elements");
        if n > 70 {
            simrt::allow_steps(20_000_000);
        }
    }
    let n = g.range(0, 3);
    let mix = Mix { real, matmul: true, max_cost: 30 };
    grow(&mut gr, g, &mut pool, n, &mix);
    let common = pool.clone();
    let mut roots = vec![];
    for i in 0..nroots {
        if i > 0 && g.chance(1, 3) {
            roots.push(roots[g.below(i)]);
            continue;
        }
        let mut p = common.clone();
        let before = p.len();
        let n = g.range(1, 3);
        grow(&mut gr, g, &mut p, n, &mix);
        let top = if p.len() > before { *p.last().unwrap() } else { p[g.below(p.len())] };
        let mut r = root_of(&mut gr, g, top);
        if work(&gr, r) > cap {
            let l = common[0];
            r = gr.push(Node::Sum(l)).unwrap();
        }
        roots.push(r);
    }
    Shared { gr, roots }
}
pub fn c04<T: Elem>(g: &mut Gen, sh: Shared) -> R {
    let Shared { gr, roots } = sh;
    let k = roots.len();
    let ctx = topo::gen(g, true);
    let leaves = lib_leaves::<T>(&gr);
    crate::warm::age(g, &leaves)?;
    // 0: everything built beforehand; 1: shared middle built beforehand; 2: built by each caller
    let mode: Vec<usize> = (0..k).map(|_| g.below(3)).collect();
    let passes: Vec<usize> = (0..k).map(|_| 1 + g.weighted(&[3, 1])).collect();
    say(format!("{} {} roots {:?}; context {:?}; loss construction {:?}; passes {:?}", T::NAME, gr.describe(), roots, ctx, mode, passes));
    let mut cache = vec![None; gr.nodes.len()];
    for i in 0..k {
        match mode[i] {
            0 => {
                build(&gr, roots[i], &leaves, &mut cache);
            }
            1 => {
                for j in inputs(&gr.nodes[roots[i]]) {
                    build(&gr, j, &leaves, &mut cache);
                }
            }
            _ => {}
        }
    }
    let losses: Vec<Option<RcTensor<T>>> = (0..k).map(|i| if mode[i] == 0 { cache[roots[i]].clone() } else { None }).collect();
    let rs = go(ctx, k, &|i| {
        for p in 0..passes[i] {
            match &losses[i] {
                Some(l) => {
                    if p > 0 {
                        probe("second_pass_on_same_loss");
                    }
                    l.backward()
                }
                None => {
                    let mut c = if mode[i] == 1 { cache.clone() } else { vec![None; gr.nodes.len()] };
                    c[roots[i]] = None;
                    build(&gr, roots[i], &leaves, &mut c).backward()
                }
            }
        }
        None
    });
    all_ok(rs)?;
    let mut want: Vec<Option<Vec<f64>>> = vec![None; gr.nodes.len()];
    set_scale(gr.magnitude(&roots) * 2.0);
    let exact = gr.magnitude(&roots) * 2.0 < T::LIMIT && roots.iter().all(|&r| gr.exact_under(r));
    for i in 0..k {
        let gs = gr.grads(roots[i]);
        for l in 0..gr.nodes.len() {
            // callers that build everything themselves share only the leaves; a pass gives its own
            // root no gradient
            if matches!(gr.nodes[l], Node::Leaf(_)) || (mode[i] < 2 && l != roots[i]) {
                if let Some(v) = &gs[l] {
                    plus(&mut want[l], v, passes[i] as f64);
                }
            }
        }
    }
    for l in 0..gr.nodes.len() {
        if let (Some(t), false) = (&cache[l], matches!(gr.nodes[l], Node::Leaf(_))) {
            let w = want[l].as_ref().map(|v| scaled(v, &gr.vals[l].shape, 1.0));
            check_grad(&format!("shared inner result n{}", l), t, w.as_ref(), exact)?;
            check_values(&format!("shared inner result n{}", l), t, &gr.vals[l], gr.exact[l] && exact)?;
        }
    }
    for (q, &l) in gr.leaf_nodes().iter().enumerate() {
        let w = want[l].as_ref().map(|v| scaled(v, &gr.vals[l].shape, 1.0));
        check_grad(&format!("shared leaf n{}", l), &leaves[q], w.as_ref(), exact)?;
        check_values(&format!("leaf n{}", l), &leaves[q], &gr.vals[l], true)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C05
#[derive(Clone, Copy, Debug, PartialEq)]
enum GOp {
    Add(usize),
    /// contribution made by a backward pass
    Back(usize),
    /// contribution of nothing but zeros
    Nil,
    Zero,
    Read,
    /// reading through a copy of the tensor that carries the gradient along
    Peek,
}
#[derive(Clone, Debug)]
struct GEv {
    tensor: usize,
    op: GOp,
    /// Read: None = absent, Some(mask) = sum of the contributions in mask
    got: Option<u64>,
    start: u64,
    end: u64,
}
fn c05(g: &mut Gen) -> R {
    let ntens = 1 + g.weighted(&[3, 1]);
    let shape = match g.below(6) {
        0 => vec![],
        1 => vec![2],
        2 => vec![2, 3],
        3 => vec![1, g.range(1, 4)],
        4 if g.chance(1, 6) => vec![g.range(33, 70)],
        _ => vec![g.range(1, 12)],
    };
    let k = g.range(2, 4);
    let long = g.chance(1, 10);
    let ctx = topo::gen(g, true);
    let mut nadd = 0;
    let mut script: Vec<Vec<(usize, GOp)>> = vec![];
    for _ in 0..k {
        let n = if long { g.range(4, 10) } else { g.range(1, 5) };
        script.push(
            (0..n)
                .map(|_| {
                    let op = match g.weighted(&[10, 4, 4, 6, 1, 1]) {
                        5 => GOp::Nil,
                        0 => {
                            nadd += 1;
                            GOp::Add(nadd - 1)
                        }
                        1 => GOp::Zero,
                        4 => GOp::Peek,
                        2 if shape.len() == 1 || (shape.len() == 2 && shape[0] == 1) => {
                            nadd += 1;
                            GOp::Back(nadd - 1)
                        }
                        _ => GOp::Read,
                    };
                    (g.below(ntens), op)
                })
                .collect(),
        );
    }
    say(format!("{} tensor(s) of shape {:?}; context {:?}; scripts (tensor, op): {:?}", ntens, shape, ctx, script));
    let n = prod(&shape);
    // contribution i has element e = 2^i * (1+e): every sum identifies its members
    let contrib: Vec<RcTensor<SimF>> = (0..nadd).map(|i| RcTensor::new((0..n).map(|e| SimF((1u64 << i) as f64 * (1 + e) as f64)).collect(), shape.clone())).collect();
    let tens: Vec<RcTensor<SimF>> = (0..ntens).map(|_| RcTensor::new_with_filler(shape.clone(), SimF(3.0))).collect();
    crate::warm::age(g, &tens)?;
    let hist: Mutex<Vec<GEv>> = Mutex::new(vec![]);
    let inflight: Vec<std::sync::atomic::AtomicUsize> = (0..ntens).map(|_| Default::default()).collect();
    let decode = |t: &RcTensor<SimF>| -> Result<u64, String> {
        let (s, d) = read(t);
        if s != shape {
            return Err(format!("[atomic] a gradient of shape {:?} for a tensor of shape {:?}", s, shape));
        }
        let m = d[0] as u64;
        for (e, x) in d.iter().enumerate() {
            if *x != m as f64 * (1 + e) as f64 {
                return Err(format!("[atomic] a read returned {:?}: element {} does not belong to the same contributions as element 0", d, e));
            }
        }
        Ok(m)
    };
    let rs = go(ctx, k, &|i| {
        for &(t, op) in &script[i] {
            let h = tens[t].clone();
            let start = simrt::stamp();
            let mut got = None;
            match op {
                GOp::Add(c) => {
                    if inflight[t].fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 0 {
                        probe("updates_of_one_gradient_overlapped");
                    }
                    let cc = contrib[c].clone();
                    h.update_grad(cc);
                    inflight[t].fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
                }
                GOp::Back(c) => {
                    if inflight[t].fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 0 {
                        probe("updates_of_one_gradient_overlapped");
                    }
                    // d/dh of the (dot or matrix) product with a private copy of the contribution
                    let cc = contrib[c].deep_clone();
                    if shape.len() == 1 {
                        rust_light::tensor::functional::dot(&h, &cc).backward();
                    } else {
                        let column = RcTensor::new(read(&cc).1.into_iter().map(SimF).collect(), vec![shape[1], 1]);
                        h.bmm(&column).backward();
                    }
                    inflight[t].fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
                }
                GOp::Nil => h.update_grad(RcTensor::new_with_filler(shape.clone(), SimF(0.0))),
                GOp::Zero => h.zero_grad(),
                GOp::Read | GOp::Peek => {
                    got = match guard(|| if op == GOp::Read { h.grad() } else { TensorLike::to_tensor(&*h as &RawTensor<SimF>).grad() }) {
                        Res::Ok(gr) => match simrt::atomically(|| decode(&gr)) {
                            Ok(m) => Some(m),
                            Err(e) => return Some(e),
                        },
                        _ => {
                            probe("read_of_absent_gradient");
                            None
                        }
                    };
                }
            }
            let end = simrt::stamp();
            simrt::atomically(|| hist.lock().unwrap().push(GEv { tensor: t, op, got, start, end }));
        }
        None
    });
    all_ok(rs)?;
    let mut hist = hist.into_inner().unwrap();
    for t in 0..ntens {
        let got = match grad_of(&tens[t]) {
            Some(gr) => Some(decode(&gr)?),
            None => None,
        };
        hist.push(GEv { tensor: t, op: GOp::Read, got, start: simrt::stamp(), end: simrt::stamp() });
        let mut h: Vec<GEv> = hist.iter().filter(|e| e.tensor == t).cloned().collect();
        h.sort_by_key(|e| e.start);
        let overlapping = h.iter().any(|e| matches!(e.op, GOp::Read | GOp::Peek) && h.iter().any(|f| matches!(f.op, GOp::Add(_) | GOp::Back(_) | GOp::Nil) && f.start < e.end && e.start < f.end));
        if overlapping {
            probe("read_saw_concurrent_contribution");
        }
        if !linearizable(&h) {
            let mut s = String::new();
            for e in &h {
                let r = match (e.op, e.got) {
                    (GOp::Read | GOp::Peek, None) => " -> absent".to_string(),
                    (GOp::Read | GOp::Peek, Some(m)) => format!(" -> contributions {:#b}", m),
                    _ => String::new(),
                };
                s.push_str(&format!("[{},{}] {:?}{}; ", e.start, e.end, e.op, r));
            }
            bad!("linearizability", "no order of the operations on tensor {} explains what was read: {}", t, s);
        }
    }
    // results start without a gradient: nobody contributed to them
    let fresh = [tens[0].sum(), -&tens[0], &tens[0] + &tens[0], tens[0].deep_clone()];
    for (i, t) in fresh.iter().enumerate() {
        if let Some(gr) = grad_of(t) {
            bad!("fresh", "a new {} has a gradient {:?}", ["sum", "negation", "addition", "deep copy"][i], read(&gr));
        }
    }
    Ok(())
}
/// Wing & Gong search with memoisation over (set of linearised operations, state)
fn linearizable(h: &[GEv]) -> bool {
    fn rec(h: &[GEv], done: u64, st: Option<u64>, seen: &mut std::collections::BTreeSet<(u64, Option<u64>)>) -> bool {
        if done.count_ones() as usize == h.len() {
            return true;
        }
        if !seen.insert((done, st)) {
            return false;
        }
        let min_end = h.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, e)| e.end).min().unwrap();
        for (i, e) in h.iter().enumerate() {
            if done >> i & 1 == 1 || e.start > min_end {
                continue;
            }
            let next = match e.op {
                GOp::Add(c) | GOp::Back(c) => Some(st.unwrap_or(0) + (1 << c)),
                GOp::Nil => Some(st.unwrap_or(0)),
                GOp::Zero => None,
                GOp::Read | GOp::Peek => {
                    if st != e.got {
                        continue;
                    }
                    st
                }
            };
            if rec(h, done | 1 << i, next, seen) {
                return true;
            }
        }
        false
    }
    rec(h, 0, None, &mut Default::default())
}

// ------------------------------------------------------------------ C06
fn c06(g: &mut Gen) -> R {
    let k = g.range(1, 3);
    let sh = if g.below(2) == 0 {
        let (gr, root) = matmul_graph(g, true, false);
        Shared { roots: vec![root; k], gr }
    } else {
        shared_graph(g, true, k, 150)
    };
    let Shared { gr, roots } = sh;
    if roots.iter().any(|&r| work(&gr, r) > 300) {
        trivial();
        return Ok(());
    }
    let ctx = topo::gen(g, false);
    // 0: an element operation panics; 1: two do; 2: a worker thread cannot be created
    let fault = g.weighted(&[6, 2, 2]);
    let prebuilt = g.below(2) == 1;
    let rounds = if fault == 2 { 1 } else { 1 + g.weighted(&[10, 2, 1, 1, 1, 1]) };
    let ats: Vec<[usize; 2]> = (0..rounds).map(|_| [g.below(1000), g.below(1000)]).collect();
    let nth = 1 + g.below(6);
    let retry_ctx = if fault == 2 { Ctx::Pool(1 + g.below(3)) } else { topo::gen(g, false) };
    let leaves = lib_leaves::<SimF>(&gr);
    say(format!("{} roots {:?}; context {:?}; forward built {}; fault {}", gr.describe(), roots, ctx, if prebuilt { "beforehand" } else { "by the caller" },
        match fault { 2 => format!("thread creation {} fails", nth), _ => format!("{} element operation(s) panic, {} round(s), at {:?} of 1000", fault + 1, rounds, ats) }));
    // how many element operations does the whole thing perform?  (also builds the shared losses)
    let total = {
        let l2 = lib_leaves::<SimF>(&gr);
        if fault == 2 {
            1
        } else {
            let o = num::ops();
            let mut c = vec![None; gr.nodes.len()];
            let ls: Vec<_> = roots.iter().map(|&r| if prebuilt { build(&gr, r, &l2, &mut c) } else { build(&gr, r, &l2, &mut vec![None; gr.nodes.len()]) }).collect();
            let o2 = if prebuilt { num::ops() } else { o };
            ls.iter().for_each(|l| l.backward());
            num::ops() - o2
        }
    };
    if total == 0 {
        trivial();
        return Ok(());
    }
    let mut cache = vec![None; gr.nodes.len()];
    let pre: Vec<Option<RcTensor<SimF>>> = if prebuilt && fault != 2 { roots.iter().map(|&r| Some(build(&gr, r, &leaves, &mut cache))).collect() } else { vec![None; k] };
    let exact = roots.iter().all(|&r| gr.exact_under(r)) && gr.magnitude(&roots) < SimF::LIMIT;
    set_scale(gr.magnitude(&roots));
    let compute = |i: usize| -> RcTensor<SimF> {
        let l = match &pre[i] {
            Some(l) => l.clone(),
            None => build(&gr, roots[i], &leaves, &mut vec![None; gr.nodes.len()]),
        };
        l.backward();
        l
    };
    // one failing round after the other on the same tensors, then a fault-free one
    for (round, at) in ats.iter().enumerate() {
        let fault = if round == 0 { fault } else { 0 };
        match fault {
            0 => num::arm(&[1 + total * at[0] as u64 / 1000]),
            1 => num::arm(&[1 + total * at[0] as u64 / 1000, 1 + total * at[1] as u64 / 1000]),
            _ => simrt::fail_spawn(nth as u64),
        }
        let failed0 = simrt::spawns_failed();
        let rs = go(ctx, k, &|i| {
            num::caller();
            compute(i)
        });
        let fired = num::disarm();
        simrt::fail_spawn(0);
        let spawn_failed = simrt::spawns_failed() > failed0;
        let mut nfail = 0;
        let mut ok = vec![];
        for (i, r) in rs.iter().enumerate() {
            match r {
                Res::Ok(l) => {
                    ok.push(true);
                    let w = &gr.vals[roots[i]];
                    check_values(&format!("result of caller {} (which did not fail)", i), l, w, exact)?;
                }
                Res::NotRun => bad!("lost", "caller {} never ran", i),
                Res::Injected | Res::Panicked(_) => {
                    ok.push(false);
                    nfail += 1;
                    if fired == 0 && !spawn_failed {
                        bad!("panic", "caller {} panicked although no fault was injected: {:?}", i, r);
                    }
                }
            }
        }
        drop(rs);
        if fired > 1 {
            probe("two_faults_fired");
        }
        if fired > 0 {
            if nfail == 0 {
                bad!("swallowed", "an element operation panicked but every call returned normally");
            }
            if nfail > fired as usize {
                bad!("collateral", "{} fault(s) were injected but {} calls failed", fired, nfail);
            }
            if nfail < k {
                probe("caller_failed_while_others_succeeded");
            }
        } else if fault != 2 && round == 0 {
            trivial();
        }
        if spawn_failed && nfail > 0 {
            probe("spawn_failure_reached_caller");
        }
        // gradients: complete contributions of successful callers, plus whole ones of failed callers
        let mut sure: Vec<Option<Vec<f64>>> = vec![None; gr.nodes.len()];
        let mut maybe: Vec<Vec<Vec<f64>>> = vec![vec![]; gr.nodes.len()];
        let mut unclear = vec![false; gr.nodes.len()];
        for i in 0..k {
            let gs = gr.grads(roots[i]);
            let paths = gr.paths(roots[i]);
            for &l in &gr.leaf_nodes() {
                if let Some(v) = &gs[l] {
                    if ok[i] {
                        plus(&mut sure[l], v, 1.0);
                    } else if paths[l] <= 1 {
                        maybe[l].push(v.clone());
                    } else {
                        unclear[l] = true;
                    }
                }
            }
        }
        for (q, &l) in gr.leaf_nodes().iter().enumerate() {
            check_values(&format!("leaf n{} after the failure", l), &leaves[q], &gr.vals[l], true)?;
            let now = match guard(|| leaves[q].grad()) {
                Res::Ok(t) => Some(read(&t).1),
                _ => None,
            };
            if unclear[l] {
                continue;
            }
            let mut fits = false;
            for m in 0..1u32 << maybe[l].len() {
                let mut w = sure[l].clone();
                for (b, v) in maybe[l].iter().enumerate() {
                    if m >> b & 1 == 1 {
                        plus(&mut w, v, 1.0);
                    }
                }
                fits |= match (&w, &now) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, exact)),
                    _ => false,
                };
                if fits && m != 0 && (m as usize) < (1 << maybe[l].len()) {
                    probe("partial_gradient_after_failure");
                }
            }
            if !fits {
                bad!("partial", "after the failure the gradient of leaf n{} is {:?}: not a sum of whole contributions (certain: {:?}, possible: {:?})", l, now, sure[l], maybe[l]);
            }
        }
        // everything is still usable: accumulate, read, clear
        let inner: Vec<RcTensor<SimF>> = cache.iter().flatten().cloned().collect();
        for t in leaves.iter().chain(inner.iter()) {
            let r = guard(|| {
                t.zero_grad();
                t.update_grad(RcTensor::new_with_filler(t.shape().to_vec(), SimF(5.0)));
                let v = t.grad();
                t.zero_grad();
                v
            });
            match r {
                Res::Ok(v) => check_values("a contribution made after the failure", &v, &RefT { shape: t.shape().to_vec(), data: vec![5.0; t.count()] }, true)?,
                e => bad!("unusable", "after the failure a gradient cannot be cleared, accumulated or read: {:?}", e),
            }
            if grad_of(t).is_some() {
                bad!("unusable", "a gradient is still there after clearing it");
            }
        }
    }
    // and repeating the computation gives the exact result
    let rs = go(retry_ctx, k, &compute);
    let mut want: Vec<Option<Vec<f64>>> = vec![None; gr.nodes.len()];
    for (i, r) in rs.iter().enumerate() {
        match r {
            Res::Ok(l) => check_values(&format!("repeated result of caller {}", i), l, &gr.vals[roots[i]], exact)?,
            e => bad!("retry", "repeating the computation (context {:?}) failed: {:?}", retry_ctx, e),
        }
        let gs = gr.grads(roots[i]);
        for &l in &gr.leaf_nodes() {
            if let Some(v) = &gs[l] {
                plus(&mut want[l], v, 1.0);
            }
        }
    }
    for (q, &l) in gr.leaf_nodes().iter().enumerate() {
        let w = want[l].as_ref().map(|v| scaled(v, &gr.vals[l].shape, 1.0));
        check_grad(&format!("leaf n{} after repeating the failed computation", l), &leaves[q], w.as_ref(), exact)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C07
fn c07(g: &mut Gen) -> R {
    let Shared { gr, roots } = shared_graph(g, true, 2, 120);
    let k = g.range(2, 4);
    let ctx = topo::gen(g, true);
    // compute, accumulate, clear, read values, snapshot gradient, deep copy, drop handles
    let script: Vec<Vec<(usize, usize)>> = (0..k).map(|_| (0..g.range(1, 3)).map(|_| (g.weighted(&[6, 6, 2, 4, 6, 6, 2, 3, 2, 3]), g.below(8))).collect()).collect();
    let leaves = lib_leaves::<SimF>(&gr);
    crate::warm::age(g, &leaves)?;
    let mut cache = vec![None; gr.nodes.len()];
    let loss = build(&gr, roots[0], &leaves, &mut cache);
    let all: Vec<(usize, RcTensor<SimF>)> = cache.iter().enumerate().filter_map(|(i, t)| t.clone().map(|t| (i, t))).collect();
    say(format!("{} roots {:?}; context {:?}; scripts (0 compute, 1 accumulate, 2 clear, 3 read values, 4 hold a gradient, 5 deep copy, 6 drop handles, 7 read through a view, 8 deep copy of a view, 9 deep copy of the only handle of a new tensor; which tensor): {:?}", gr.describe(), roots, ctx, script));
    let baseline: Vec<(Vec<usize>, Vec<f64>)> = all.iter().map(|(_, t)| read(t)).collect();
    for (q, (i, _)) in all.iter().enumerate() {
        let w = &gr.vals[*i];
        if baseline[q].0 != w.shape || !baseline[q].1.iter().zip(&w.data).all(|(a, b)| close(*a, *b, gr.exact[*i])) {
            bad!("value", "node n{} is {:?}, expected {:?}", i, baseline[q], w);
        }
    }
    let cleared = std::sync::atomic::AtomicBool::new(false);
    let contributed: Mutex<Vec<(usize, f64)>> = Mutex::new(vec![]); // (index into leaves, filler)
    let passes: Mutex<[usize; 2]> = Mutex::new([0, 0]);
    let held: Mutex<Vec<(RcTensor<SimF>, Vec<usize>, Vec<f64>)>> = Mutex::new(vec![]);
    let copies: Mutex<Vec<(usize, RcTensor<SimF>, f64)>> = Mutex::new(vec![]);
    let rs = go(ctx, k, &|i| {
        for (step, &(kind, which)) in script[i].iter().enumerate() {
            let (q, t) = (which % all.len(), all[which % all.len()].1.clone());
            let lq = which % leaves.len();
            match kind {
                0 => {
                    let l = if which % 2 == 0 { loss.clone() } else { build(&gr, roots[1], &leaves, &mut vec![None; gr.nodes.len()]) };
                    l.backward();
                    simrt::atomically(|| passes.lock().unwrap()[which % 2] += 1);
                }
                1 => {
                    let v = (1 + i * 3 + step) as f64;
                    let l = &leaves[lq];
                    l.clone().update_grad(RcTensor::new_with_filler(l.shape().to_vec(), SimF(v)));
                    simrt::atomically(|| contributed.lock().unwrap().push((lq, v)));
                }
                2 => {
                    cleared.store(true, std::sync::atomic::Ordering::Relaxed);
                    leaves[lq].zero_grad();
                }
                3 => {
                    let now = read(&t); // preemptible: element by element while others work
                    if now != baseline[q] {
                        return Some(format!("[mutated] tensor {} changed from {:?} to {:?}", q, baseline[q], now));
                    }
                }
                4 => {
                    if let Some(gr) = grad_of(&leaves[lq]) {
                        let (s, d) = read(&gr);
                        probe("snapshot_raced_with_update");
                        simrt::atomically(|| held.lock().unwrap().push((gr, s, d)));
                    }
                }
                9 => {
                    // nobody else knows this tensor
                    let sh = t.shape().to_vec();
                    let (v, n) = ((which + 1) as f64, prod(&sh));
                    let fresh: RcTensor<SimF> = if which % 2 == 0 { RcTensor::new_with_filler(sh.clone(), SimF(v)) } else { -&t };
                    let want = read(&fresh);
                    let fill = |x: f64| -> RcTensor<SimF> { RcTensor::new_with_filler(sh.clone(), SimF(x)) };
                    if which % 3 > 0 {
                        fresh.update_grad(fill(7.0));
                    }
                    if which % 3 > 1 {
                        fresh.zero_grad();
                    }
                    let old = grad_of(&fresh).map(|t| read(&t).1);
                    let copy = fresh.deep_clone();
                    if read(&copy) != want || grad_of(&copy).is_some() {
                        return Some(format!("[copy] a deep copy of {:?} is {:?} with gradient {:?}", want, read(&copy), grad_of(&copy)));
                    }
                    copy.update_grad(fill(2.0));
                    if grad_of(&fresh).map(|t| read(&t).1) != old {
                        return Some(format!("[copy] a contribution to a deep copy changed the gradient of the original from {:?} to {:?}", old, grad_of(&fresh)));
                    }
                    fresh.update_grad(fill(4.0));
                    fresh.zero_grad();
                    if grad_of(&copy).map(|t| read(&t).1) != Some(vec![2.0; n]) {
                        return Some(format!("[copy] the gradient of a deep copy became {:?} with the one of the original", grad_of(&copy)));
                    }
                    drop(fresh);
                    if read(&copy) != want {
                        return Some(format!("[copy] a deep copy changed to {:?} when the original was dropped", read(&copy)));
                    }
                }
                7 | 8 if t.shape().iter().all(|&d| d > 0) && !t.shape().is_empty() => {
                    // all but the first row (or the only one) through a view
                    let sh = t.shape().to_vec();
                    let from = (sh[0] - 1).min(1);
                    let v = t.view(sh.iter().enumerate().map(|(d, &n)| SliceRange::new(if d == 0 { from } else { 0 }, n)).collect());
                    let mut vs = sh.clone();
                    vs[0] -= from;
                    let want = (vs, baseline[q].1[from * prod(&sh[1..])..].to_vec());
                    let now = if kind == 7 { read(&v) } else { read(&v.deep_clone()) };
                    if now != want {
                        return Some(format!("[view] a {} of tensor {} reads {:?}, expected {:?}", if kind == 7 { "view" } else { "deep copy of a view" }, q, now, want));
                    }
                    if kind == 8 {
                        let c = v.deep_clone();
                        c.update_grad(RcTensor::new_with_filler(c.shape().to_vec(), SimF(7.0)));
                        c.zero_grad();
                    }
                }
                5 => {
                    let c = t.deep_clone();
                    let now = read(&c);
                    if now != baseline[q] {
                        return Some(format!("[copy] a deep copy of tensor {} reads {:?}, the original {:?}", q, now, baseline[q]));
                    }
                    if let Some(gr) = grad_of(&c) {
                        return Some(format!("[copy] a fresh deep copy has a gradient {:?}", read(&gr).1));
                    }
                    let v = 1000.0 * (1 + i) as f64 + step as f64;
                    if which >= 4 && c.count() > 0 {
                        // computing with the copy gives the original nothing
                        c.sum().backward();
                        c.zero_grad();
                    }
                    c.update_grad(RcTensor::new_with_filler(c.shape().to_vec(), SimF(v)));
                    simrt::atomically(|| copies.lock().unwrap().push((q, c, v)));
                }
                _ => {
                    let hs: Vec<RcTensor<SimF>> = all.iter().map(|x| x.1.clone()).collect();
                    let l2 = build(&gr, roots[0], &leaves, &mut vec![None; gr.nodes.len()]);
                    drop(hs);
                    drop(l2);
                    probe("dropped_off_main");
                }
            }
        }
        None
    });
    all_ok(rs)?;
    for (q, (i, t)) in all.iter().enumerate() {
        if read(t) != baseline[q] {
            bad!("mutated", "node n{} changed from {:?} to {:?}", i, baseline[q], read(t));
        }
    }
    for (gr, s, d) in held.into_inner().unwrap() {
        let now = read(&gr);
        if now != (s.clone(), d.clone()) {
            bad!("mutated", "a gradient that was read out changed from {:?} to {:?}", d, now.1);
        }
    }
    for (q, c, v) in copies.into_inner().unwrap() {
        if read(&c) != baseline[q] {
            bad!("copy", "a deep copy changed value");
        }
        check_grad("a deep copy (one own contribution)", &c, Some(&RefT { shape: c.shape().to_vec(), data: vec![v; c.count()] }), true)?;
        // the copy is a new start: differentiating through it stops there
        if c.count() == 1 {
            c.zero_grad();
        }
    }
    for (q, l) in leaves.iter().enumerate() {
        // both handles see the same gradient
        let (a, b) = (grad_of(l).map(|x| read(&x)), grad_of(&l.clone()).map(|x| read(&x)));
        if a != b {
            bad!("handles", "two handles of one tensor read different gradients: {:?} and {:?}", a, b);
        }
        if !cleared.load(std::sync::atomic::Ordering::Relaxed) {
            let ln = gr.leaf_nodes()[q];
            let mut w = None;
            let p = *passes.lock().unwrap();
            for r in 0..2 {
                if p[r] > 0 {
                    if let Some(v) = &gr.grads(roots[r])[ln] {
                        plus(&mut w, v, p[r] as f64);
                    }
                }
            }
            for (lq, v) in contributed.lock().unwrap().iter() {
                if *lq == q {
                    plus(&mut w, &vec![*v; l.count()], 1.0);
                }
            }
            let exact = roots.iter().all(|&r| gr.exact_under(r)) && gr.magnitude(&roots) * 10.0 < SimF::LIMIT;
            set_scale(gr.magnitude(&roots) * 10.0);
            check_grad(&format!("leaf n{} (copies must not leak into it)", ln), l, w.map(|d| RefT { shape: gr.vals[ln].shape.clone(), data: d }).as_ref(), exact)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C08
fn c08(g: &mut Gen) -> R {
    let spec = gen_spec(g, 3, true);
    let rows = g.range(1, 2);
    let lr = [0.5, 0.25, 1.0, 0.125, 3.0, -0.5, 0.0][g.weighted(&[4, 4, 4, 4, 1, 1, 1])];
    let tied = g.chance(1, 6);
    let x = RefT { shape: vec![rows, spec.dims[0]], data: (0..rows * spec.dims[0]).map(|_| g.value() / 4.0).collect() };
    let rounds = g.range(1, 3);
    let ctx = topo::gen(g, false);
    let readers = if ctx.concurrent() { g.below(3) } else { 0 };
    let twin = g.chance(1, 3);
    // before this round one of the parameters of a layer is replaced from outside
    let assigned: Vec<(usize, bool, RefT)> = if spec.single && g.chance(1, 2) {
        let bias = g.chance(1, 2);
        let shape = if bias { &spec.b[0] } else { &spec.w[0] }.shape.clone();
        vec![(g.below(rounds), bias, RefT { data: (0..prod(&shape)).map(|_| g.value() / 8.0).collect(), shape })]
    } else {
        vec![]
    };
    // what goes wrong in each round: 0 nothing, 1 an operation panics, 2 a gradient is missing
    let plan: Vec<(usize, usize, usize)> = (0..rounds).map(|_| (g.weighted(&[2, 4, 2]), g.below(1000), g.below(1 << (2 * spec.layers())))).collect();
    say(format!("{:?}\nbatch {:?}; step size {}; context {:?}; {} reader(s); rounds (0 fine, 1 panic at n/1000, 2 gradients missing by mask): {:?}; assigned before a round (to the bias): {:?}", spec, x, lr, ctx, readers, plan, assigned));
    let mut first = spec.params::<SimF>();
    crate::warm::age(g, &first)?;
    if tied {
        // one tensor in several places of the model
        for i in (2..first.len()).rev() {
            if first[i].shape() == first[i - 2].shape() {
                first[i] = first[i - 2].clone();
                probe("tied_parameters");
            }
        }
    }
    let net = Mutex::new(spec.net(&first));
    let xt: RcTensor<SimF> = to_lib(&x);
    let batch = |net: &Net<SimF>| net.forward(xt.clone()).sum().backward();
    for (round, &(kind, at, mask)) in plan.iter().enumerate() {
        if let Some((_, bias, to)) = assigned.iter().find(|a| a.0 == round) {
            // the fields of a layer are public
            if net.lock().unwrap().assign(*bias, to_lib(to)) {
                probe("parameter_assigned_directly");
            }
        }
        let old = net.lock().unwrap().params();
        if let Some(ways) = net.lock().unwrap().fields() {
            for (f, w) in ways.iter().enumerate() {
                if w.len() != old.len() || w.iter().zip(&old).any(|(a, b)| read(a) != read(b)) {
                    bad!("params", "round {}: params() of the module lists {:?}, {} has {:?}", round, old.iter().map(read).collect::<Vec<_>>(), ["the layer", "the layer's own iterator"][f], w.iter().map(read).collect::<Vec<_>>());
                }
            }
        }
        let other = if twin { Some(spec.net(&old)) } else { None };
        let vals: Vec<(Vec<usize>, Vec<f64>)> = old.iter().map(read).collect();
        // op count of a step on a copy with the same gradients
        let clone_params = |ps: &[RcTensor<SimF>]| -> Vec<RcTensor<SimF>> {
            ps.iter()
                .map(|p| {
                    let c = p.deep_clone();
                    c.update_grad(p.grad());
                    c
                })
                .collect()
        };
        let r = guard(|| batch(&net.lock().unwrap()));
        if let Res::Panicked(m) = r {
            bad!("panic", "forward/backward panicked: {}", m);
        }
        net.clear_poison();
        let grads: Vec<RcTensor<SimF>> = old.iter().map(|p| p.grad()).collect();
        let before = read(&net.lock().unwrap().forward(xt.clone()));
        let total = {
            let mut n2 = spec.net(&clone_params(&old));
            let o = num::ops();
            n2.step(lr);
            num::ops() - o
        };
        let mut gone: Vec<usize> = vec![];
        if kind == 2 {
            gone = (0..old.len()).filter(|i| mask >> i & 1 == 1).collect();
            gone.iter().for_each(|&i| old[i].zero_grad());
            if !gone.is_empty() {
                probe("missing_gradient_step");
            }
        }
        let gvals: Vec<Option<Vec<f64>>> = old.iter().map(|p| grad_of(p).map(|x| read(&x).1)).collect();
        let step = |net: &Mutex<Net<SimF>>| {
            let mut n = net.lock().unwrap_or_else(|e| e.into_inner());
            n.step(lr)
        };
        let mut want: Vec<Vec<f64>> = (0..old.len()).map(|i| vals[i].1.iter().zip(&read(&grads[i]).1).map(|(p, q)| p + -(lr * q)).collect()).collect();
        if kind == 1 && total > 0 {
            num::arm(&[1 + total * at as u64 / 1000]);
        }
        let rs = go(ctx, 1 + readers, &|i| {
            if i == 0 {
                match guard(|| step(&net)) {
                    Res::Ok(()) => Some("ok".to_string()),
                    _ => Some("failed".to_string()),
                }
            } else {
                if kind != 1 && i == 2 {
                    // forward with the old parameters while the step replaces them
                    let out = spec.net(&old).forward(xt.clone());
                    let now = simrt::atomically(|| read(&out));
                    if now.0 != before.0 || !now.1.iter().zip(&before.1).all(|(a, b)| close(*a, *b, false)) {
                        return Some(format!("[mutated] the old parameters give the output {:?} during a step, {:?} before it", now, before));
                    }
                }
                for (p, v) in old.iter().zip(&vals) {
                    if read(p) != *v {
                        return Some("[mutated] a handle to an old parameter changed value during a step".into());
                    }
                }
                None
            }
        });
        let fired = num::disarm();
        let mut failed = false;
        for (i, r) in rs.into_iter().enumerate() {
            match (i, r) {
                (0, Res::Ok(Some(s))) => failed = s == "failed",
                (_, Res::Ok(None)) => {}
                (_, Res::Ok(Some(m))) => return Err(m),
                (_, r) => bad!("panic", "caller {}: {:?}", i, r),
            }
        }
        net.clear_poison();
        let must_fail = fired > 0 || !gone.is_empty();
        if failed && !must_fail {
            bad!("panic", "a step failed although nothing was wrong");
        }
        if !failed && must_fail {
            bad!("swallowed", "a step reported success although it could not be carried out ({} fault(s), missing gradients {:?})", fired, gone);
        }
        let now = net.lock().unwrap().params();
        if now.len() != old.len() {
            bad!("params", "the model has {} parameters, expected {}", now.len(), old.len());
        }
        for i in 0..old.len() {
            if read(&old[i]) != vals[i] {
                bad!("mutated", "a handle to old parameter {} changed value", i);
            }
        }
        if failed {
            probe("failed_step");
            for i in 0..old.len() {
                if read(&now[i]) != vals[i] {
                    bad!("partial", "after a failed step parameter {} is {:?}, before it was {:?}", i, read(&now[i]), vals[i]);
                }
                let gv = grad_of(&now[i]).map(|x| read(&x).1);
                if gv != gvals[i] {
                    bad!("partial", "after a failed step the gradient of parameter {} is {:?}, before it was {:?}", i, gv, gvals[i]);
                }
            }
            // complete what is missing and try again
            let mut again: Vec<RcTensor<SimF>> = grads.clone();
            let r = guard(|| {
                if !gone.is_empty() {
                    old.iter().for_each(|p| p.zero_grad());
                    batch(&net.lock().unwrap());
                    again = old.iter().map(|p| p.grad()).collect();
                }
                step(&net)
            });
            want = (0..old.len()).map(|i| vals[i].1.iter().zip(&read(&again[i]).1).map(|(p, q)| p + -(lr * q)).collect()).collect();
            if !matches!(r, Res::Ok(())) {
                bad!("retry", "a step repeated after a failure failed again: {:?}", r);
            }
            net.clear_poison();
        }
        let now = net.lock().unwrap().params();
        for i in 0..now.len() {
            if let Some(m) = diff(&now[i], &vals[i].0, &want[i], false) {
                bad!("step", "parameter {} after the step: {}", i, m);
            }
            if let Some(x) = grad_of(&now[i]) {
                bad!("step", "new parameter {} starts with a gradient {:?}", i, read(&x).1);
            }
        }
        if let Some(o) = other {
            for (i, p) in o.params().iter().enumerate() {
                if read(p) != vals[i] {
                    bad!("mutated", "a step changed parameter {} of another model", i);
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C09
fn c09(g: &mut Gen) -> R {
    let mode = g.weighted(&[80, 60, 40, 40, 5]);
    match mode {
        4 => c09_long(g),
        0 => c09_train(g),
        1 => c09_accumulate(g),
        2 => c09_same_loss(g),
        _ => c09_deep(g),
    }
}
struct Costs {
    /// several callers work on one gradient at the same time (retries cost extra)
    contended: bool,
    ops: Vec<u64>,
    live: Vec<i64>,
    bytes: Vec<i64>,
    heap: Vec<(i64, i64)>,
}
impl Costs {
    fn new() -> Self {
        Costs { contended: false, ops: vec![], live: vec![], bytes: vec![], heap: vec![] }
    }
    /// with room for `n` samples: taking them allocates nothing
    fn room(n: usize) -> Self {
        let v = || Vec::with_capacity(n);
        Costs { contended: false, ops: Vec::with_capacity(n), live: v(), bytes: v(), heap: Vec::with_capacity(n) }
    }
    fn add(&mut self, ops0: u64, contended: bool) {
        self.contended |= contended;
        simrt::quiesce();
        self.sample(num::ops() - ops0);
    }
    fn sample(&mut self, ops: u64) {
        let (l, b, _) = simrt::live_buffers();
        self.heap.push(simrt::live_heap());
        self.ops.push(ops);
        self.live.push(l);
        self.bytes.push(b);
    }
    /// does the heap (without the tensors' elements) grow in every one of the windows between a
    /// quarter, a half, once, twice and four times `first` samples?
    fn heap_grows(&self, first: usize, chunk: usize) -> bool {
        let top = |n: usize| self.heap[..n.min(self.heap.len())].iter().fold((0, 0), |m, h| (m.0.max(h.0), m.1.max(h.1)));
        let ends: Vec<usize> = [first / 4, first / 2, first, 2 * first, 4 * first].into_iter().filter(|n| *n <= self.heap.len()).collect();
        let more = |f: &dyn Fn((i64, i64)) -> i64, per: i64| ends.windows(2).all(|w| f(top(w[1])) - f(top(w[0])) >= ((w[1] - w[0]) * chunk) as i64 * per / 8);
        more(&|h| h.1, 32) || more(&|h| h.0, 2)
    }
    /// cycle costs must not grow; `judged[i]`: cycle i ran to completion
    fn judge(&self, judged: &[bool]) -> R {
        let n = self.ops.len();
        let early = 3.min(n);
        let full: Vec<usize> = (0..n).filter(|&i| judged[i]).collect();
        if full.len() >= 3 {
            let base = full[..2].iter().map(|&i| self.ops[i]).max().unwrap();
            for &i in &full[2..] {
                if self.ops[i] > if self.contended { base + base / 2 + 40 } else { base + base / 16 + 4 } {
                    bad!("cost", "cycle {} performed {} element operations, the first ones at most {}: {:?}", i, self.ops[i], base, self.ops);
                }
            }
        }
        let bl = *self.live[..early].iter().max().unwrap();
        let bb = *self.bytes[..early].iter().max().unwrap();
        for i in early..n {
            if self.live[i] > bl + 2 || (self.live[i] > bl && self.bytes[i] > bb + 4096) {
                bad!("memory", "after cycle {} {} element buffers are alive, after the first ones at most {}: {:?}", i, self.live[i], bl, self.live);
            }
        }
        Ok(())
    }
}
fn c09_train(g: &mut Gen) -> R {
    let spec = gen_spec(g, 2, false);
    let tiny = spec.dims.iter().all(|&d| d <= 2);
    let cycles = if tiny && g.chance(1, 4) { g.range(19, 45) } else { g.range(5, 18) };
    let k = g.range(1, 2);
    let ctx = topo::gen(g, false);
    let rate = [4, 2, 8][g.below(3)]; // one cycle in `rate` fails
    let fail: Vec<Option<usize>> = (0..cycles).map(|_| if g.chance(1, rate) { Some(g.below(1000)) } else { None }).collect();
    let x = RefT { shape: vec![1, spec.dims[0]], data: (0..spec.dims[0]).map(|_| g.value() / 4.0).collect() };
    say(format!("training {:?} for {} cycles, {} mini-batches per cycle in context {:?}; failing cycles {:?}", spec.dims, cycles, k, ctx, fail));
    let xt: RcTensor<SimF> = to_lib(&x);
    let mut net = spec.net(&spec.params::<SimF>());
    let mut c = Costs::new();
    let mut judged = vec![];
    let mut first = 0;
    for i in 0..cycles {
        let o = num::ops();
        let armed = if let (Some(at), true) = (fail[i], first > 0) {
            num::arm(&[1 + first * at as u64 / 1000]);
            true
        } else {
            false
        };
        let rs = go(ctx, k, &|_| {
            let y = net.forward(xt.clone());
            y.sum().backward();
        });
        let bad_batch = rs.iter().any(|r| !matches!(r, Res::Ok(())));
        let mut ok = !bad_batch;
        if ok {
            let r = guard(|| net.step(0.125));
            ok = matches!(r, Res::Ok(()));
        }
        let fired = num::disarm();
        if !ok && fired == 0 {
            bad!("panic", "training cycle {} failed without a fault (armed: {}): {:?}", i, armed, rs.iter().find(|r| !matches!(r, Res::Ok(()))));
        }
        if !ok {
            probe("failed_cycle");
            net.params().iter().for_each(|p| p.zero_grad());
        }
        drop(rs);
        c.add(o, k > 1 && ctx.concurrent());
        if first == 0 {
            first = c.ops[0];
        }
        judged.push(ok);
    }
    c.judge(&judged)
}
fn c09_accumulate(g: &mut Gen) -> R {
    let n = g.range(1, 4);
    let cycles = g.range(6, 60);
    let k = g.range(1, 2);
    let ctx = topo::gen(g, false);
    let real = g.below(2) == 1; // contributions from backward passes
    let rate = [0, 0, 3, 8][g.below(4)];
    let fail: Vec<Option<usize>> = (0..cycles).map(|_| if rate > 0 && g.chance(1, rate) { Some(g.below(1000)) } else { None }).collect();
    say(format!("{} rounds of {} contribution(s) to one tensor of {} elements in context {:?}, {}", cycles, k, n, ctx, if real { "each by a backward pass over a new computation" } else { "by update_grad" }));
    if rate > 0 {
        say(format!("element operations that panic (per round, of 1000): {:?}", fail));
    }
    let t: RcTensor<SimF> = RcTensor::new_with_filler(vec![1, n], SimF(1.0));
    let u: RcTensor<SimF> = RcTensor::new_with_filler(vec![n, 1], SimF(2.0));
    let mut c = Costs::new();
    let mut judged = vec![];
    let mut failed = 0;
    for i in 0..cycles {
        let o = num::ops();
        if let (Some(at), true) = (fail[i], i > 1) {
            num::arm(&[1 + c.ops[1] * at as u64 / 1000]);
        }
        let rs = go(ctx, k, &|_| {
            if real {
                t.bmm(&u).sum().backward();
            } else {
                t.update_grad(RcTensor::new_with_filler(vec![1, n], SimF(1.0)));
            }
        });
        let fired = num::disarm();
        for (q, r) in rs.iter().enumerate() {
            match r {
                Res::Ok(()) => {}
                r if fired == 0 => bad!("panic", "caller {} of round {} failed without a fault: {:?}", q, i, r),
                _ => failed += 1,
            }
        }
        if fired > 0 {
            probe("failed_cycle");
        }
        drop(rs);
        c.add(o, k > 1 && ctx.concurrent());
        judged.push(fired == 0);
    }
    c.judge(&judged)?;
    let per = if real { 2.0 } else { 1.0 };
    if failed > 0 {
        // a failed contribution is in the sum as a whole or not at all
        let v = match grad_of(&t) {
            Some(gr) => read(&gr).1,
            None => bad!("grad", "the gradient is absent or cannot be read after {} failed contribution(s)", failed),
        };
        let all = per * (cycles * k) as f64;
        if v.iter().any(|x| *x != v[0]) || v[0] > all || v[0] < all - per * failed as f64 || (v[0] / per).fract() != 0.0 {
            bad!("grad", "the gradient is {:?} after {} contributions of {} of which {} failed", v, cycles * k, per, failed);
        }
        return Ok(());
    }
    check_grad("the tensor", &t, Some(&RefT { shape: vec![1, n], data: vec![per * (cycles * k) as f64; n] }), true)
}
fn c09_same_loss(g: &mut Gen) -> R {
    let (gr, root) = matmul_graph(g, true, false);
    if work(&gr, root) > 200 {
        trivial();
        return Ok(());
    }
    let cycles = g.range(5, 16);
    let ctx = topo::gen(g, false);
    let clear = g.below(2) == 1;
    say(format!("{} root n{}: {} backward passes over the same loss in context {:?}, leaves {} in between", gr.describe(), root, cycles, ctx, if clear { "cleared" } else { "not cleared" }));
    let leaves = lib_leaves::<SimF>(&gr);
    let loss = build(&gr, root, &leaves, &mut vec![None; gr.nodes.len()]);
    let mut c = Costs::new();
    for _ in 0..cycles {
        let o = num::ops();
        let rs = go(ctx, 1, &|_| {
            if clear {
                leaves.iter().for_each(|l| l.zero_grad());
            }
            loss.backward();
            None
        });
        all_ok(rs)?;
        c.add(o, false);
    }
    c.judge(&vec![true; cycles])
}
/// hundreds of cycles of the smallest model
fn c09_long(g: &mut Gen) -> R {
    let cycles = if g.chance(1, 8) { g.range(700, 1200) } else { g.range(260, 340) };
    let ctx = topo::gen(g, false);
    let act = g.below(2);
    probe("long_training");
    say(format!("{} training cycles of a 1x1 layer (activation {}) in context {:?}", cycles, act, ctx));
    let one = |v: f64| RefT { shape: vec![1, 1], data: vec![v] };
    let spec = Spec { single: true, dims: vec![1, 1], acts: vec![act], w: vec![one(2.0)], b: vec![one(1.0)] };
    let net = Mutex::new(spec.net(&spec.params::<SimF>()));
    let x: RcTensor<SimF> = RcTensor::new_with_filler(vec![1, 1], SimF(1.0));
    let chunk = 20;
    let c = Mutex::new(Costs::room(4 * cycles));
    let rs = go(ctx, 1, &|_| {
        let (mut w, mut b) = (2.0, 1.0);
        let first = cycles / chunk;
        for i in 0..4 * first {
            // what looks like growth has to go on during a history four times as long
            if i >= first && i % first == 0 && !c.lock().unwrap().heap_grows(first, chunk) {
                break;
            }
            let o = num::ops();
            for _ in 0..chunk {
                let mut n = net.lock().unwrap_or_else(|e| e.into_inner());
                let y = n.forward(x.clone());
                let loss = if act == 1 { y.sum() } else { -&y.sum() };
                loss.backward();
                n.step(1.0 / 1024.0);
            }
            let up = if act == 1 { -1.0 } else { 1.0 } * chunk as f64 / 1024.0;
            w += up;
            b += up;
            let ps = net.lock().unwrap().params();
            for (p, v) in ps.iter().zip([w, b]) {
                if let Err(m) = check_values("a parameter", p, &one(v), true) {
                    return Some(format!("{:?}", m));
                }
            }
            drop(ps);
            c.lock().unwrap().sample(num::ops() - o);
        }
        None
    });
    all_ok(rs)?;
    let c = c.into_inner().unwrap();
    let n = c.ops.len();
    if n > cycles / chunk && c.heap_grows(cycles / chunk, chunk) {
        bad!("heap", "in the course of {} cycles the rest of the heap (blocks, bytes) keeps growing: {:?}", n * chunk, c.heap);
    }
    c.judge(&vec![true; n])
}
/// long histories on a small stack: growth that only shows as recursion depth
fn c09_deep(g: &mut Gen) -> R {
    let steps = 400 + 200 * g.below(8);
    let kind = g.below(2);
    say(format!("{} {} on a thread with a 96 KiB stack", steps, if kind == 0 { "training steps of a 1x1 layer" } else { "accumulations" }));
    let b = std::thread::Builder::new().stack_size(96 * 1024);
    let h = b.spawn(move || {
        if kind == 0 {
            let mut net: Net<f64> = Spec { single: true, dims: vec![1, 1], acts: vec![0], w: vec![], b: vec![] }.net(&[RcTensor::new(vec![1.0], vec![1, 1]), RcTensor::new(vec![1.0], vec![1, 1])]);
            for _ in 0..steps {
                for p in net.params() {
                    p.update_grad(RcTensor::new(vec![0.5], vec![1, 1]));
                }
                net.step(0.001);
            }
            drop(net);
        } else {
            let t: RcTensor<f64> = RcTensor::new(vec![1.0], vec![1]);
            for _ in 0..steps {
                t.update_grad(RcTensor::new(vec![0.5], vec![1]));
            }
            drop(t);
        }
    });
    match h.map(|h| h.join()) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(p)) => bad!("panic", "{}", topo::payload(p)),
        Err(_) => bad!("harness", "no thread"),
    }
}

// ------------------------------------------------------------------ C10
pub fn c10<T: RElem>(g: &mut Gen) -> R {
    let deep = g.chance(1, 3);
    let spec = gen_spec(g, if deep { 3 } else { 2 }, deep);
    let k = if g.chance(1, 6) { g.range(5, 8) } else { g.range(2, 4) };
    let steps = if k <= 3 && g.chance(1, 10) { g.range(4, 8) } else { g.range(1, 3) };
    let lr = [0.5, 0.125, 1.0][g.below(3)];
    let ctx = topo::gen(g, true);
    let loss_kind = g.below(3); // sum, sum of |y - target|, dot(y, y)
    let od = *spec.dims.last().unwrap();
    let narrow = spec.dims.iter().all(|&d| d <= 3) && spec.acts.iter().all(|&a| a != 2 && a != 4);
    // the data: a few mini-batches that come up again and again, or fresh ones for everybody
    let again = g.chance(1, 3);
    let ndata = if again { g.range(1, k + 1) } else { k * steps };
    let data: Vec<(RefT, RefT)> = (0..ndata)
        .map(|_| {
            let rows = if narrow && g.chance(1, 40) { g.range(30, 70) } else if g.chance(1, 8) { g.range(3, 6) } else { g.range(1, 2) };
            (
                RefT { shape: vec![rows, spec.dims[0]], data: (0..rows * spec.dims[0]).map(|_| g.value() / 4.0).collect() },
                RefT { shape: vec![rows, od], data: (0..rows * od).map(|_| g.value() / 4.0 + 0.01).collect() },
            )
        })
        .collect();
    // per step and caller: the mini-batches it works on, and whether it only evaluates them
    let plan: Vec<Vec<Vec<(usize, bool)>>> = (0..steps)
        .map(|s| {
            (0..k)
                .map(|i| {
                    if !again {
                        return vec![(s * k + i, false)];
                    }
                    let n = 1 + g.weighted(&[3, 1]);
                    (0..n).map(|q| (g.below(ndata), (i > 0 || q > 0) && g.chance(1, 5))).collect()
                })
                .collect()
        })
        .collect();
    if again {
        probe("mini_batches_used_again");
    }
    say(format!("{} {:?}; {} callers x {} steps, step size {}, loss {} (0 sum, 1 absolute error, 2 squared norm), mini-batches (and whether only evaluated) {:?}, context {:?}", T::NAME, spec, k, steps, lr, loss_kind, plan, ctx));
    // reference: the mini-batches one after the other
    let mut vals = spec.values();
    let mut want_out: Vec<Vec<Option<RefT>>> = vec![];
    let mut want_par: Vec<Vec<RefT>> = vec![];
    for step in &plan {
        let mut sum: Vec<Vec<f64>> = vals.iter().map(|v| vec![0.0; v.count()]).collect();
        let mut outs = vec![None; ndata];
        for &(d, only) in step.iter().flatten() {
            let (x, y) = &data[d];
            let mut gr = Graph::default();
            let p: Vec<usize> = vals.iter().map(|v| gr.leaf(v.shape.clone(), v.data.clone())).collect();
            let xi = gr.leaf(x.shape.clone(), x.data.clone());
            let yi = gr.leaf(y.shape.clone(), y.data.clone());
            let Some(root) = (|| {
                let o = spec.forward(&mut gr, &p, xi)?;
                outs[d] = Some(gr.vals[o].clone());
                match loss_kind {
                    0 => gr.push(Node::Sum(o)),
                    1 => {
                        let d = gr.push(Node::Sub(o, yi, 0))?;
                        let a = gr.push(Node::Abs(d))?;
                        gr.push(Node::Sum(a))
                    }
                    _ => gr.push(Node::Dot(o, o)),
                }
            })() else {
                trivial();
                return Ok(());
            };
            if only {
                continue;
            }
            let gs = gr.grads(root);
            for (q, &i) in p.iter().enumerate() {
                sum[q].iter_mut().zip(gs[i].as_ref().unwrap()).for_each(|(a, b)| *a += b);
            }
        }
        for (v, s) in vals.iter_mut().zip(&sum) {
            v.data.iter_mut().zip(s).for_each(|(a, b)| *a -= lr * b);
        }
        want_out.push(outs);
        want_par.push(vals.clone());
    }
    if vals.iter().any(|v| v.data.iter().any(|x| x.abs() > 1e5)) {
        trivial();
        return Ok(());
    }
    let params = spec.params::<T>();
    crate::warm::age(g, &params)?;
    let mut net = spec.net(&params);
    drop(params);
    let keep: Option<Vec<(RcTensor<T>, RcTensor<T>)>> = again.then(|| data.iter().map(|(x, y)| (to_lib(x), to_lib(y))).collect());
    for s in 0..steps {
        let data: Vec<Option<(RcTensor<T>, RcTensor<T>)>> = match &keep {
            Some(d) => d.iter().cloned().map(Some).collect(),
            None => data.iter().enumerate().map(|(d, (x, y))| (d / k == s).then(|| (to_lib(x), to_lib(y)))).collect(),
        };
        let n = &net;
        let rs = go(ctx, k, &|i| {
            for &(d, only) in &plan[s][i] {
                let (x, y) = data[d].as_ref().expect("data of this step");
                let out = n.forward(x.clone());
                let w = want_out[s][d].as_ref().expect("output of this step");
                if let Some(m) = simrt::atomically(|| diff(&out, &w.shape, &w.data, false)) {
                    return Some(format!("[output] step {}, mini-batch {}: {}", s, d, m));
                }
                if only {
                    continue;
                }
                match loss_kind {
                    0 => out.sum().backward(),
                    1 => T::abs_t(&(&out - y)).sum().backward(),
                    _ => rust_light::tensor::functional::dot(&out, &out).backward(),
                }
            }
            None
        });
        all_ok(rs)?;
        net.step(lr);
        for (q, p) in net.params().iter().enumerate() {
            let w = &want_par[s][q];
            if let Some(m) = diff(p, &w.shape, &w.data, false) {
                bad!("params", "parameter {} after step {}: {}", q, s, m);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C11
fn c11(g: &mut Gen) -> R {
    let k = g.range(1, 4);
    let Shared { gr, roots } = shared_graph(g, true, k, 150);
    let ctx = topo::gen(g, false);
    let fault = g.weighted(&[6, 6, 1]);
    let at = g.below(1000);
    let reps: Vec<usize> = (0..k).map(|_| 1 + g.weighted(&[4, 1, 1])).collect();
    // 1: also a product of a view, 2: also a deep copy, 3: also keep a gradient, 4: also a batched product
    // 5: also an operation that is refused
    let extra: Vec<usize> = (0..k).map(|_| g.weighted(&[4, 1, 1, 1, 1, 1])).collect();
    let refused = g.below(5);
    let hold: Vec<usize> = (0..k).map(|_| g.below(3)).collect(); // 0: drop in the caller, 1: hand to another caller, 2: keep until the end
    let drops = g.below(3);
    let train = g.chance(1, 4);
    let spec = gen_spec(g, 2, false);
    say(format!("{} roots {:?}; context {:?}; fault {}; results (0 dropped by the caller, 1 handed over, 2 kept): {:?}; final drop by {}; training too: {}; repetitions {:?}; extras (1 view of a part or of the whole, 2 deep copy, 3 keep a gradient, 4 batch, 5 refused operation {}) {:?}",
        gr.describe(), roots, ctx, match fault { 1 => format!("at {}/1000", at), 2 => format!("thread creation {} fails", 1 + at % 6), _ => "none".into() }, hold, ["main", "another thread", "pool tasks"][drops], train, reps, refused, extra));
    simrt::quiesce();
    let base = simrt::live_buffers();
    if base.0 != 0 {
        bad!("harness", "{} buffers alive before the start", base.0);
    }
    let mut total = 0;
    if fault == 1 {
        let o = num::ops();
        let l2 = lib_leaves::<SimF>(&gr);
        for &r in &roots {
            build(&gr, r, &l2, &mut vec![None; gr.nodes.len()]).backward();
        }
        total = num::ops() - o;
    }
    let leaves = lib_leaves::<SimF>(&gr);
    let slots: Vec<Mutex<Vec<RcTensor<SimF>>>> = (0..k).map(|_| Mutex::new(vec![])).collect();
    if fault == 1 && total > 0 {
        num::arm(&[1 + total * at as u64 / 1000]);
    }
    let failed0 = simrt::spawns_failed();
    if fault == 2 {
        simrt::fail_spawn(1 + at as u64 % 6);
    }
    let lv = Mutex::new(Some(leaves));
    let handles: Vec<Mutex<Option<Vec<RcTensor<SimF>>>>> = (0..k).map(|_| Mutex::new(lv.lock().unwrap().clone())).collect();
    let rs = go(ctx, k, &|i| {
        let mine = handles[i].lock().unwrap().take().unwrap();
        for _ in 1..reps[i] {
            build(&gr, roots[i], &mine, &mut vec![None; gr.nodes.len()]).backward();
        }
        let mut cache = vec![None; gr.nodes.len()];
        let l = build(&gr, roots[i], &mine, &mut cache);
        drop(cache);
        l.backward();
        match extra[i] {
            1 => {
                // a part of a tensor, or (of a square one) all of it
                let whole = i % 2;
                let m: RcTensor<SimF> = RcTensor::new_with_filler(vec![3 - whole, 2], SimF(2.0));
                let part = || m.view(vec![SliceRange::new(1 - whole, 3 - whole), SliceRange::new(0, 2)]);
                let v = part();
                let again = part();
                drop(again);
                drop(m);
                v.bmm(&v).sum();
                let p = v.to_tensor().bmm(&v);
                p.sum().backward();
                slots[i].lock().unwrap().push(p);
            }
            2 => {
                let c = l.deep_clone();
                c.sum().backward();
                c.sum().backward();
                slots[i].lock().unwrap().push(c);
            }
            3 => {
                if let Some(gr) = mine.iter().find_map(grad_of) {
                    slots[i].lock().unwrap().push(gr);
                }
            }
            4 => {
                let b: RcTensor<SimF> = RcTensor::new_with_filler(vec![2, 2, 3], SimF(1.0));
                let w: RcTensor<SimF> = RcTensor::new_with_filler(vec![3, 2], SimF(1.0));
                let p = b.bmm(&w); // not while the slot is locked
                slots[i].lock().unwrap().push(p);
            }
            5 => {
                let a: RcTensor<SimF> = RcTensor::new_with_filler(vec![2, 3], SimF(1.0));
                let b: RcTensor<SimF> = RcTensor::new_with_filler(vec![5, 2], SimF(1.0));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match refused {
                    0 => drop(a.bmm(&b)),
                    1 => drop(b.view(vec![SliceRange::new(0, 2), SliceRange::new(0, 2)]).bmm(&b)),
                    2 => drop(rust_light::tensor::functional::dot(&a, &b)),
                    3 => drop(RcTensor::new(vec![SimF(1.0); 5], vec![2, 3])),
                    _ => drop(a.view(vec![SliceRange::new(0, 4), SliceRange::new(0, 2)]).to_tensor()),
                }));
                if r.is_err() {
                    probe("refused_operation");
                }
            }
            _ => {}
        }
        if train && i == 0 {
            let mut net = spec.net(&spec.params::<SimF>());
            for _ in 0..2 {
                net.forward(RcTensor::new_with_filler(vec![1, spec.dims[0]], SimF(0.5))).sum().backward();
                net.step(0.5);
            }
        }
        match hold[i] {
            0 => probe("dropped_off_main"),
            1 => slots[(i + 1) % k].lock().unwrap().push(l),
            _ => slots[i].lock().unwrap().push(l),
        }
        if hold[i] == 1 {
            let x = std::mem::take(&mut *slots[i].lock().unwrap());
            drop(x);
        }
    });
    let fired = num::disarm();
    simrt::fail_spawn(0);
    let no_thread = simrt::spawns_failed() > failed0;
    for (i, r) in rs.iter().enumerate() {
        match r {
            Res::Ok(()) => {}
            Res::NotRun => bad!("lost", "caller {} never ran", i),
            r if fired == 0 && !no_thread => bad!("panic", "caller {} failed without a fault: {:?}", i, r),
            _ => {}
        }
    }
    drop(rs);
    drop(handles);
    let last = lv.lock().unwrap().take();
    match drops {
        0 => {
            drop(slots);
            drop(last);
        }
        1 => {
            let _ = std::thread::spawn(move || {
                drop(last);
                drop(slots);
            })
            .join();
        }
        _ => {
            let mut parts: Vec<Mutex<Option<Vec<RcTensor<SimF>>>>> = slots.into_iter().map(|s| Mutex::new(Some(s.into_inner().unwrap_or_else(|e| e.into_inner())))).collect();
            parts.push(Mutex::new(last));
            let n = parts.len();
            let _ = topo::run(Ctx::Pool(2), n, &|i| drop(parts[i].lock().unwrap().take()));
        }
    }
    simrt::quiesce();
    let now = simrt::live_buffers();
    if now.0 != 0 || now.1 != 0 {
        bad!("leak", "{} element buffers ({} bytes) are still alive after the last handle was dropped", now.0, now.1);
    }
    Ok(())
}
