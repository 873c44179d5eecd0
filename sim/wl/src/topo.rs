//! Who calls the library from where: external threads, tasks of the global pool, tasks of a
//! private pool, parallel iterators, nested joins, or a mixture.
use crate::gen::Gen;
use crate::num::Injected;
use rayon::prelude::*;
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ctx {
    /// one after the other on the main thread
    Main,
    /// one OS thread each
    Threads,
    /// tasks of a scope on the global pool
    Scope,
    /// tasks of a scope on a private pool of n threads
    Pool(usize),
    /// parallel iterator on the global pool
    Iter,
    /// parallel iterator inside a private pool
    PoolIter(usize),
    /// recursively nested join on a private pool
    Join(usize),
    /// OS threads that each install into one private pool
    Install(usize),
    /// detached tasks on the global pool, awaited through a condition variable
    Detached,
    /// odd callers on OS threads, even ones as tasks of a private pool
    Mixed(usize),
    /// scope inside a task of the private pool (nested scopes)
    Nested(usize),
    /// odd callers on OS threads, even ones as tasks of the global pool
    GlobalMixed,
    /// tasks of the global pool that each install into one private pool
    Across(usize),
}
impl Ctx {
    pub fn concurrent(&self) -> bool {
        !matches!(self, Ctx::Main)
    }
}

pub fn gen(g: &mut Gen, concurrent: bool) -> Ctx {
    let w: [usize; 13] = if concurrent { [0, 12, 4, 6, 2, 2, 2, 2, 2, 4, 2, 4, 1] } else { [8, 6, 4, 6, 2, 2, 2, 2, 2, 2, 2, 2, 1] };
    let k = g.weighted(&w);
    let n = if g.chance(1, 24) { g.range(4, 6) } else { g.range(1, 3) };
    match k {
        0 => Ctx::Main,
        1 => Ctx::Threads,
        2 => Ctx::Scope,
        3 => Ctx::Pool(n),
        4 => Ctx::Iter,
        5 => Ctx::PoolIter(n),
        6 => Ctx::Join(n),
        7 => Ctx::Install(n),
        8 => Ctx::Detached,
        9 => Ctx::Mixed(n),
        10 => Ctx::Nested(n),
        11 => Ctx::GlobalMixed,
        _ => Ctx::Across(n),
    }
}

/// the threads of private pools are to be told apart from others
pub static MARK_POOLS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// What became of one caller.
#[derive(Debug, Clone, PartialEq)]
pub enum Res<R> {
    Ok(R),
    /// an injected failure reached the caller
    Injected,
    /// some other panic reached the caller
    Panicked(String),
    NotRun,
}

pub fn payload(p: Box<dyn Any + Send>) -> String {
    if p.is::<Injected>() {
        return "injected".into();
    }
    if let Some(s) = p.downcast_ref::<String>() {
        return s.clone();
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        return s.to_string();
    }
    "opaque panic payload".into()
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Res<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Res::Ok(r),
        Err(p) if p.is::<Injected>() => Res::Injected,
        Err(p) => Res::Panicked(payload(p)),
    }
}

pub fn pool(n: usize) -> Option<rayon::ThreadPool> {
    let b = rayon::ThreadPoolBuilder::new().num_threads(n);
    if MARK_POOLS.load(std::sync::atomic::Ordering::Relaxed) {
        return b.start_handler(|_| crate::scen3::mark(2)).build().ok();
    }
    b.build().ok()
}

/// Run callers 0..k, each catching its own panics, all at the same time in context `ctx`.
/// Falls back to the main thread for callers whose thread cannot be created.
pub fn run<R: Send>(ctx: Ctx, k: usize, f: &(dyn Fn(usize) -> R + Sync)) -> Vec<Res<R>> {
    let slots: Vec<Mutex<Res<R>>> = (0..k).map(|_| Mutex::new(Res::NotRun)).collect();
    let one = |i: usize| {
        let r = guard(|| f(i));
        *slots[i].lock().unwrap() = r;
    };
    let one: &(dyn Fn(usize) + Sync) = &one;
    let on_threads = |ids: Vec<usize>, extra: &mut dyn FnMut()| {
        std::thread::scope(|s| {
            let mut inline = vec![];
            for &i in &ids {
                if std::thread::Builder::new().spawn_scoped(s, move || one(i)).is_err() {
                    inline.push(i);
                }
            }
            extra();
            inline.into_iter().for_each(|i| one(i));
        });
    };
    match ctx {
        Ctx::Main => (0..k).for_each(|i| one(i)),
        Ctx::Threads => on_threads((0..k).collect(), &mut || {}),
        Ctx::Scope => {
            // a failing global pool surfaces as a panic of the scope itself
            let r = guard(|| rayon::scope(|s| (0..k).for_each(|i| s.spawn(move |_| one(i)))));
            if let Res::Panicked(m) = r {
                mark_unrun(&slots, &m);
            }
        }
        Ctx::Pool(n) => match pool(n) {
            Some(p) => p.scope(|s| (0..k).for_each(|i| s.spawn(move |_| one(i)))),
            None => (0..k).for_each(|i| one(i)),
        },
        Ctx::Iter => {
            let r = guard(|| (0..k).into_par_iter().for_each(|i| one(i)));
            if let Res::Panicked(m) = r {
                mark_unrun(&slots, &m);
            }
        }
        Ctx::PoolIter(n) => match pool(n) {
            Some(p) => p.install(|| (0..k).into_par_iter().for_each(|i| one(i))),
            None => (0..k).for_each(|i| one(i)),
        },
        Ctx::Join(n) => match pool(n) {
            Some(p) => p.install(|| join_all(0, k, one)),
            None => (0..k).for_each(|i| one(i)),
        },
        Ctx::Install(n) => match pool(n) {
            Some(p) => {
                let p = &p;
                let inst = move |i: usize| p.install(|| one(i));
                std::thread::scope(|s| {
                    let mut inline = vec![];
                    for i in 0..k {
                        if std::thread::Builder::new().spawn_scoped(s, move || inst(i)).is_err() {
                            inline.push(i);
                        }
                    }
                    inline.into_iter().for_each(|i| inst(i));
                });
            }
            None => (0..k).for_each(|i| one(i)),
        },
        Ctx::Detached => {
            // SAFETY of the lifetime extension: we do not return before every task has finished.
            let left = Mutex::new(k);
            let cv = Condvar::new();
            struct Env<'a> {
                one: &'a (dyn Fn(usize) + Sync),
                left: &'a Mutex<usize>,
                cv: &'a Condvar,
            }
            let env = Env { one, left: &left, cv: &cv };
            let p = &env as *const Env as usize;
            let mut failed = None;
            for i in 0..k {
                let r = guard(|| {
                    rayon::spawn(move || {
                        let e = unsafe { &*(p as *const Env) };
                        (e.one)(i);
                        let mut l = e.left.lock().unwrap();
                        *l -= 1;
                        e.cv.notify_all();
                        drop(l);
                    })
                });
                if let Res::Panicked(m) = r {
                    *left.lock().unwrap() -= 1;
                    failed = Some(m);
                }
            }
            let mut l = left.lock().unwrap();
            while *l > 0 {
                l = cv.wait(l).unwrap();
            }
            drop(l);
            simrt::quiesce(); // the last task may still be inside its unlock
            if let Some(m) = failed {
                mark_unrun(&slots, &m);
            }
        }
        Ctx::Across(n) => match pool(n) {
            Some(p) => {
                let p = &p;
                let r = guard(|| rayon::scope(|s| (0..k).for_each(|i| s.spawn(move |_| p.install(|| one(i))))));
                if let Res::Panicked(m) = r {
                    mark_unrun(&slots, &m);
                }
            }
            None => (0..k).for_each(|i| one(i)),
        },
        Ctx::Mixed(n) => {
            let (odd, even): (Vec<usize>, Vec<usize>) = (0..k).partition(|i| i % 2 == 1);
            match pool(n) {
                Some(p) => on_threads(odd, &mut || p.scope(|s| even.iter().for_each(|&i| s.spawn(move |_| one(i))))),
                None => on_threads(odd, &mut || even.iter().for_each(|&i| one(i))),
            }
        }
        Ctx::GlobalMixed => {
            let (odd, even): (Vec<usize>, Vec<usize>) = (0..k).partition(|i| i % 2 == 1);
            on_threads(odd, &mut || {
                let r = guard(|| rayon::scope(|s| even.iter().for_each(|&i| s.spawn(move |_| one(i)))));
                if let Res::Panicked(m) = r {
                    // the pool could not be created: what was not run is reported as failed
                    for &i in &even {
                        let mut s = slots[i].lock().unwrap();
                        if matches!(*s, Res::NotRun) {
                            *s = Res::Panicked(m.clone());
                        }
                    }
                }
            });
        }
        Ctx::Nested(n) => match pool(n) {
            Some(p) => p.install(|| {
                rayon::scope(|s| {
                    for i in 0..k {
                        s.spawn(move |s2| {
                            if i % 2 == 0 {
                                one(i)
                            } else {
                                s2.spawn(move |_| one(i))
                            }
                        })
                    }
                })
            }),
            None => (0..k).for_each(|i| one(i)),
        },
    }
    slots.into_iter().map(|m| m.into_inner().unwrap()).collect()
}
fn mark_unrun<R>(slots: &[Mutex<Res<R>>], m: &str) {
    for s in slots {
        let mut s = s.lock().unwrap();
        if matches!(*s, Res::NotRun) {
            *s = Res::Panicked(m.to_string());
        }
    }
}
fn join_all(a: usize, b: usize, one: &(dyn Fn(usize) + Sync)) {
    match b - a {
        0 => {}
        1 => one(a),
        n => {
            rayon::join(|| join_all(a, a + n / 2, one), || join_all(a + n / 2, b, one));
        }
    }
}
