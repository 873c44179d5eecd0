//! Long histories before a scenario starts: whatever the library counts, caches or keeps, for the
//! process or for a tensor, has been used many times.
use crate::gen::Gen;
use crate::graph::*;
use crate::num::{Elem, SimF};
use crate::scen::*;
use crate::topo;
use rust_light::tensor::{functional, RcTensor, TensorLike};

fn many(g: &mut Gen) -> usize {
    let near = [16, 32, 64, 100, 128, 256, 1000, 1024][g.weighted(&[3, 3, 4, 4, 4, 4, 1, 1])];
    near + g.range(1, 9)
}
fn of(s: &[usize], v: f64) -> RcTensor<SimF> {
    RcTensor::new_with_filler(s.to_vec(), SimF(v))
}
/// one computation of a kind; what is wrong with it
fn one(kind: usize, n: usize) -> Option<String> {
    let fails = |m: Option<String>| m.map(|m| format!("computation {} (kind {}) of a long history: {}", n, kind, m));
    let is = |t: &RcTensor<SimF>, v: f64| simrt::atomically(|| diff(t, &t.shape().to_vec(), &vec![v; t.count()], true));
    let grad_is = |t: &RcTensor<SimF>, v: f64| match grad_of(t) {
        Some(d) => is(&d, v),
        None => Some("no gradient".into()),
    };
    let (v, d) = ((n % 7) as f64, 1 + n % 3);
    fails(match kind {
        0 => is(&of(&[d, 2], v).bmm(&of(&[2, 2], 3.0)), 6.0 * v),
        1 => {
            let (a, b) = (of(&[1, d], v), of(&[d, 1], 2.0));
            a.bmm(&b).sum().backward();
            grad_is(&a, 2.0).or(grad_is(&b, v))
        }
        2 => {
            let a = of(&[d], v);
            let s = &a + &a;
            s.sum().backward();
            grad_is(&a, 2.0)
        }
        3 => {
            let a = of(&[d, d], v);
            a.update_grad(of(&[d, d], 1.0));
            a.update_grad(of(&[d, d], v));
            let r = grad_is(&a, v + 1.0);
            a.zero_grad();
            r
        }
        4 => {
            let a = of(&[d], v + 1.0);
            functional::relu(a.abs()).sum().backward();
            grad_is(&a, 1.0)
        }
        5 => {
            let (a, b) = (of(&[d], v), of(&[d], 2.0));
            functional::dot(&a, &b).backward();
            grad_is(&a, 2.0)
        }
        _ => {
            let a = of(&[2, d], v);
            let c = a.deep_clone();
            c.update_grad(of(&[2, d], 1.0));
            is(&c, v).or(grad_of(&a).map(|_| "a gradient that belongs to the copy".into()))
        }
    })
}
/// kinds of computations that a property is about
pub fn warm_up(g: &mut Gen, kinds: &[usize]) -> R {
    if kinds.is_empty() || !g.chance(1, 60) {
        return Ok(());
    }
    let n = many(g);
    let kind = if g.chance(1, 3) { None } else { Some(kinds[g.below(kinds.len())]) };
    let k = g.range(1, 3);
    let ctx = topo::gen(g, false);
    say(format!("before: {} computations of kind {:?} (0 product, 1 gradient of a product, 2 of an addition, 3 accumulation, 4 abs and relu, 5 dot, 6 deep copy) by {} caller(s), context {:?}", n, kind, k, ctx));
    simrt::allow_steps(n as u64 * 12_000);
    probe("long_history_of_the_process");
    all_ok(go(ctx, k, &|i| (0..n).filter(|j| j % k == i).find_map(|j| one(kind.unwrap_or(kinds[j / k % kinds.len()]), j))))
}
/// contributions to every one of the tensors, cleared at last
pub fn age<T: Elem>(g: &mut Gen, ts: &[RcTensor<T>]) -> R {
    if !g.chance(1, 40) || ts.iter().any(|t| t.count() > 40) {
        return Ok(());
    }
    let n = many(g);
    let k = g.range(1, 3);
    let ctx = topo::gen(g, false);
    let form = g.below(3);
    let clears = g.range(0, 2);
    say(format!("before: {} contributions ({}) to every tensor by {} caller(s), context {:?}, cleared{}", n, ["direct", "of backward passes", "of both"][form], k, ctx, [" at last", " after each", " after each third"][clears]));
    simrt::allow_steps((n * ts.len()) as u64 * 12_000);
    probe("long_history_of_a_tensor");
    all_ok(go(ctx, k, &|i| {
        for j in (0..n).filter(|j| j % k == i) {
            for t in ts {
                if form == 0 || (form == 2 && j % 2 == 0) {
                    t.update_grad(RcTensor::new_with_filler(t.shape().clone(), T::from_f(1.0)));
                } else {
                    t.sum().backward();
                }
                if clears > 0 && j % (2 * clears - 1) == 0 {
                    t.zero_grad();
                }
            }
        }
        None
    }))?;
    for t in ts {
        if clears == 0 && t.count() > 0 {
            let want = RefT { shape: t.shape().clone(), data: vec![n as f64; t.count()] };
            check_grad(&format!("a tensor after {} contributions", n), t, Some(&want), true)?;
        }
        t.zero_grad();
        check_grad("a tensor after it was cleared", t, None, true)?;
    }
    Ok(())
}
