//! Deterministic simulation runtime.
//!
//! Real OS threads, exactly one of which runs at any time ("holds the baton").  Who runs next is
//! decided here, from one seed (or from a recorded schedule), at
//!   * SanitizerCoverage callbacks in instrumented code (preemption),
//!   * futex waits/wakes (every blocking primitive of std, crossbeam and rayon ends up there),
//!   * sched_yield / sleeps / thread creation / join / exit.
//! The virtual clock advances with executed steps and jumps to the next deadline when nothing can
//! run.  Nothing in here reads a real clock or a real random source while a simulation is active.
#![allow(static_mut_refs)]

use core::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

// ------------------------------------------------------------------ raw system calls
#[inline(always)]
unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
const SYS_FUTEX: i64 = 202;
const FUTEX_WAIT_PRIV: i64 = 128;
const FUTEX_WAKE_PRIV: i64 = 129;

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

// ------------------------------------------------------------------ PRNG
#[derive(Clone, Copy)]
pub struct Rng(pub u64, pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub const fn zero() -> Rng {
        Rng(1, 2)
    }
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed), mix(seed ^ 0xD1B54A32D192ED03) | 1)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
    /// uniform in 0..n
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

// ------------------------------------------------------------------ configuration and output
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u32)]
pub enum Policy {
    /// uniformly random thread after a random number of steps
    Random = 0,
    /// highest random priority runs; a few random priority drops
    Pct = 1,
    /// switch only where the code blocks, yields or creates/ends threads
    Coop = 2,
    /// preempt at a random subset of code locations (edges), then run long
    HotSpot = 3,
    /// recorded schedule; deterministic default where the record is silent
    Replay = 4,
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
pub struct Ev {
    /// 0 = preemption at local step `at`, 1 = the at-th blocking/yield/exit decision of `tid`
    pub kind: u32,
    pub tid: u32,
    pub at: u64,
    /// thread chosen to run next
    pub to: u32,
    /// thread woken spuriously just before choosing (u32::MAX: none)
    pub spur: u32,
}

#[derive(Clone)]
pub struct Config {
    pub seed: u64,
    pub policy: Policy,
    /// mean number of steps between preemptions
    pub gap: u64,
    /// PCT: number of priority change points, spread over `span` steps
    pub depth: u64,
    pub span: u64,
    /// a thread is stalled at a scheduling decision with probability stall_num/4096
    pub stall_num: u64,
    pub stall_len: u64,
    /// a blocked thread is woken spuriously at a decision with probability spur_num/4096
    pub spur_num: u64,
    /// hot-spot density (1/hot_den of edges)
    pub hot_den: u64,
    pub cpus: u64,
    pub cap_fair: u64,
    pub cap_end: u64,
    pub record: bool,
    pub replay: Vec<Ev>,
}

pub const NPROBE: usize = 64;
pub const MSG: usize = 1 << 16;
pub const TAPE_MAX: usize = 1 << 16;
pub const DESC_MAX: usize = 8192;
pub const TRACE_MAX: usize = 1 << 20;

pub const V_NONE: u32 = 0;
pub const V_OK: u32 = 1;
pub const V_VIOL: u32 = 2;
pub const V_DEADLOCK: u32 = 3;
pub const V_NOPROGRESS: u32 = 4;
pub const V_HARNESS: u32 = 5;

#[repr(C)]
pub struct Out {
    pub verdict: u32,
    pub msg_len: u32,
    pub desc_len: u64,
    pub msg: [u8; MSG],
    pub desc: [u8; DESC_MAX],
    pub steps: u64,
    pub vtime_ns: u64,
    pub switches: u64,
    pub preempts: u64,
    pub hash: u64,
    pub stalls: u64,
    pub spurious: u64,
    pub yields: u64,
    pub futex_waits: u64,
    pub threads: u64,
    pub spawn_failed: u64,
    pub panics_injected: u64,
    pub clock_jumps: u64,
    pub probes: [u64; NPROBE],
    pub user: [u64; 16],
    pub tape_len: u64,
    pub trace_len: u64,
    pub trace_lost: u64,
    pub tape: [u32; TAPE_MAX],
    pub trace: [Ev; TRACE_MAX],
}

// ------------------------------------------------------------------ state
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Futex { addr: usize, bits: u32, deadline: u64 },
    Join(usize),
    Sleep(u64),
    Quiesce,
    Finished,
}

struct Thr {
    word: AtomicU32,
    st: St,
    local: u64,
    blocks: u64,
    prio: u64,
    stalled_until: u64,
    timed_out: bool,
    seq: u64,
    pthread: u64,
    start: Option<extern "C" fn(*mut libc::c_void) -> *mut libc::c_void>,
    arg: *mut libc::c_void,
    rp: Vec<Ev>, // replay: this thread's preemptions, in order
    rp_pos: usize,
    rb: Vec<Ev>, // replay: this thread's blocking decisions
    rb_pos: usize,
}

static mut ACTIVE: bool = false;
static mut COUNTDOWN: u64 = u64::MAX;
static mut STEPS: u64 = 0;
static mut SLICE_START: u64 = 0;
static mut NOPREEMPT: u32 = 0;
static mut CUR: usize = 0;
// never moves: a thread that has just handed over the baton (or was just created) still reads it
const MAX_THR: usize = 1 << 14;
static mut THR: [*mut Thr; MAX_THR] = [core::ptr::null_mut(); MAX_THR];
static mut NTHR: usize = 0;
static mut RNG: Rng = Rng::zero();
static mut ENTROPY: Rng = Rng::zero();
static mut CFG: Option<Config> = None;
static mut FAIR: bool = false;
static mut MORE_STEPS: u64 = 0;
/// steps charged for the switches under fair scheduling (threads that only yield to each other take few)
static mut CHARGED: u64 = 0;
static mut NO_SPAWN: [bool; MAX_THR] = [false; MAX_THR];
static mut SPAWNED_INSIDE: u64 = 0;
static mut CLOCK_SKIP: u64 = 0;
static mut STAMP: u64 = 0;
static mut CREATED: u64 = 0;
static mut SPAWN_FAIL: u64 = 0;
static mut BLOCK_SEQ: u64 = 0;
static mut CHANGE: Vec<u64> = Vec::new();
static mut LOWPRIO: u64 = (1 << 40) - 1;
static mut OUT: *mut Out = core::ptr::null_mut();
static mut COV: *mut u8 = core::ptr::null_mut();
static mut HOT: *mut u8 = core::ptr::null_mut();
static mut NGUARDS: u32 = 0;
static mut KEY: libc::pthread_key_t = 0;
static mut KEY_OK: bool = false;
static mut GEN_RNG: Option<Rng> = None;
static mut GEN_TAPE: *const u32 = core::ptr::null();
static mut GEN_LEN: usize = 0;
static mut GEN_POS: usize = 0;
static mut OPS: u64 = 0;
static mut ARM_AT: [u64; 2] = [u64::MAX; 2];
static mut FIRED: u64 = 0;

thread_local! { static TID: Cell<i32> = const { Cell::new(-1) }; }

const STEP_NS: u64 = 20;
const EPOCH_NS: u64 = 1_700_000_000_000_000_000;

unsafe fn cfg() -> &'static Config {
    CFG.as_ref().unwrap()
}
unsafe fn thr(i: usize) -> &'static mut Thr {
    &mut *THR[i]
}
unsafe fn out() -> &'static mut Out {
    &mut *OUT
}
/// clock faults: at these steps the clock jumps forward by so much (and the wall clock by ± as much again)
static mut JUMPS: [(u64, u64); 16] = [(u64::MAX, 0); 16];
static mut NEXT_JUMP: usize = 0;
static mut WALL_SKEW: u64 = 0;
unsafe fn plan_jumps(seed: u64) {
    let mut r = Rng::new(seed ^ 0xC10C);
    if r.chance(2, 3) {
        return;
    }
    let n = 1 + r.below(16) as usize;
    for j in 0..n {
        // log-uniform: after 2^8 … 2^22 steps, by 2^13 … 2^35 ns (8 µs … 34 s)
        let at = (1 << (8 + r.below(14))) + r.below(1 << 10);
        JUMPS[j] = (at * (1 + r.below(2)), (1 << (13 + r.below(22))) + r.below(1 << 12));
    }
    let j = &mut *core::ptr::addr_of_mut!(JUMPS);
    j.sort();
}
unsafe fn now() -> u64 {
    while NEXT_JUMP < 16 && JUMPS[NEXT_JUMP].0 <= STEPS {
        let by = JUMPS[NEXT_JUMP].1;
        CLOCK_SKIP += by;
        WALL_SKEW = if NEXT_JUMP % 2 == 0 { WALL_SKEW.wrapping_sub(by.wrapping_mul(2)) } else { WALL_SKEW.wrapping_add(by) };
        NEXT_JUMP += 1;
        out().clock_jumps += 1;
    }
    STEPS * STEP_NS + CLOCK_SKIP
}
unsafe fn hash_in(v: u64) {
    let h = &mut out().hash;
    *h = (*h ^ v).wrapping_mul(0x100000001B3).rotate_left(23) ^ (v >> 7);
}

fn new_thr() -> Box<Thr> {
    Box::new(Thr {
        word: AtomicU32::new(0),
        st: St::Runnable,
        local: 0,
        blocks: 0,
        prio: 0,
        stalled_until: 0,
        timed_out: false,
        seq: 0,
        pthread: 0,
        start: None,
        arg: core::ptr::null_mut(),
        rp: vec![],
        rp_pos: 0,
        rb: vec![],
        rb_pos: 0,
    })
}

unsafe fn register(mut t: Box<Thr>) -> usize {
    let id = NTHR;
    t.prio = (RNG.next() >> 1) | (1 << 40);
    if cfg().policy == Policy::Replay {
        for e in &cfg().replay {
            if e.tid as usize == id {
                if e.kind == 0 {
                    t.rp.push(*e)
                } else {
                    t.rb.push(*e)
                }
            }
        }
    }
    if id == MAX_THR {
        finish(V_HARNESS, "[harness] too many threads");
    }
    THR[id] = Box::into_raw(t);
    NTHR += 1;
    id
}

// ------------------------------------------------------------------ public API
pub fn alloc_out() -> *mut Out {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            core::mem::size_of::<Out>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Out
    }
}
/// clear everything but the trace contents
pub fn reset_out(o: *mut Out) {
    unsafe {
        let tr = core::mem::offset_of!(Out, tape);
        core::ptr::write_bytes((o as *mut u8).add(core::mem::offset_of!(Out, steps)), 0, tr - core::mem::offset_of!(Out, steps));
        (*o).verdict = 0;
        (*o).msg_len = 0;
        (*o).desc_len = 0;
    }
}
pub fn nguards() -> usize {
    unsafe { NGUARDS as usize }
}
pub fn alloc_cov() -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            nguards() + 8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        COV = p as *mut u8;
        COV
    }
}

/// Start simulating; the calling thread becomes simulated thread 0.
pub fn enter(c: Config, o: *mut Out) {
    unsafe {
        OUT = o;
        RNG = Rng::new(c.seed);
        ENTROPY = Rng::new(c.seed ^ 0x5EED);
        plan_jumps(c.seed);
        STEPS = 0;
        SLICE_START = 0;
        out().hash = 0xcbf29ce484222325;
        if c.policy == Policy::Pct {
            for _ in 0..c.depth {
                let v = RNG.below(c.span.max(2)) + 1;
                CHANGE.push(v);
            }
            CHANGE.sort();
            CHANGE.reverse();
        }
        if c.policy == Policy::HotSpot {
            HOT = Box::leak(vec![0u8; nguards() + 8].into_boxed_slice()).as_mut_ptr();
        }
        CFG = Some(c);
        libc::mallopt(-8, 1); // M_ARENA_MAX
        if !KEY_OK {
            libc::pthread_key_create(core::ptr::addr_of_mut!(KEY), Some(on_exit));
            KEY_OK = true;
        }
        real_create(); // resolve symbols before anything is simulated
        real_join();
        let id = register(new_thr());
        thr(id).pthread = libc::pthread_self() as u64;
        TID.with(|t| t.set(id as i32));
        CUR = id;
        out().threads = 1;
        arm();
        arena_open();
        ACTIVE = true;
    }
}

/// End the simulated process with a verdict.
pub fn finish(verdict: u32, msg: &str) -> ! {
    unsafe {
        ACTIVE = false;
        let o = out();
        let n = msg.len().min(MSG);
        o.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
        o.msg_len = n as u32;
        o.steps = STEPS;
        o.vtime_ns = now();
        if cfg().record && o.trace_len as usize > TRACE_MAX {
            o.trace_lost = o.trace_len - TRACE_MAX as u64;
            o.trace_len = TRACE_MAX as u64;
        }
        o.verdict = verdict;
        raw6(231, 0, 0, 0, 0, 0, 0); // exit_group
        loop {}
    }
}
#[inline(never)]
pub fn steps() -> u64 {
    unsafe { STEPS }
}
/// unique, totally ordered event stamp
#[inline(never)]
pub fn stamp() -> u64 {
    unsafe {
        STAMP += 1;
        STAMP
    }
}
#[inline(never)]
pub fn me() -> usize {
    TID.with(|t| t.get()) as usize
}
#[inline(never)]
pub fn active() -> bool {
    unsafe { ACTIVE }
}
#[inline(never)]
pub fn probe(i: usize) {
    unsafe {
        if ACTIVE {
            out().probes[i] += 1
        }
    }
}
#[inline(never)]
pub fn user(i: usize, v: u64) {
    unsafe { out().user[i] = v }
}
/// this run is larger than usual: move the bounds on the number of its steps
#[inline(never)]
pub fn allow_steps(n: u64) {
    unsafe { MORE_STEPS += n }
}
/// append to the description of this run
#[inline(never)]
pub fn describe(s: &str) {
    unsafe {
        let o = out();
        let at = o.desc_len as usize;
        let n = s.len().min(DESC_MAX - at);
        o.desc[at..at + n].copy_from_slice(&s.as_bytes()[..n]);
        o.desc_len += n as u64;
    }
}
/// where the choices of the workload generator come from: a seed ...
pub fn gen_live(seed: u64) {
    unsafe {
        GEN_RNG = Some(Rng::new(seed));
        GEN_POS = 0;
    }
}
/// ... or a recorded list of choices (0 where it is silent)
pub fn gen_replay(tape: &[u32]) {
    unsafe {
        GEN_RNG = None;
        GEN_TAPE = tape.as_ptr();
        GEN_LEN = tape.len();
        GEN_POS = 0;
    }
}
/// one choice in 0..n; takes the same path (as far as instrumented code can tell) from either source
#[inline(never)]
pub fn choose(n: u64) -> u64 {
    unsafe {
        if n <= 1 {
            return 0;
        }
        let v = match &mut GEN_RNG {
            Some(r) => r.below(n),
            None if GEN_POS < GEN_LEN => (*GEN_TAPE.add(GEN_POS) as u64).min(n - 1),
            None => 0,
        };
        GEN_POS += 1;
        let o = out();
        if (o.tape_len as usize) < TAPE_MAX {
            o.tape[o.tape_len as usize] = v as u32;
        }
        o.tape_len += 1;
        v
    }
}
/// Count an element operation; true if it is one of those that must fail.
#[inline(never)]
pub fn op() -> bool {
    unsafe {
        OPS += 1;
        if OPS == ARM_AT[0] || OPS == ARM_AT[1] {
            FIRED += 1;
            out().panics_injected += 1;
            return true;
        }
        false
    }
}
#[inline(never)]
pub fn ops() -> u64 {
    unsafe { OPS }
}
/// fail the n-th element operation from now (n >= 1), for each n given
#[inline(never)]
pub fn fault_arm(ns: &[u64]) {
    unsafe {
        ARM_AT = [u64::MAX; 2];
        for (i, n) in ns.iter().enumerate() {
            ARM_AT[i] = OPS + n;
        }
        FIRED = 0;
    }
}
/// disarm; how many faults fired since arming
#[inline(never)]
pub fn fault_disarm() -> u64 {
    unsafe {
        ARM_AT = [u64::MAX; 2];
        let f = FIRED;
        FIRED = 0;
        f
    }
}
/// make the n-th thread creation from now (n >= 1) fail with EAGAIN; 0: none
#[inline(never)]
pub fn fail_spawn(n: u64) {
    unsafe { SPAWN_FAIL = if n == 0 { 0 } else { CREATED + n } }
}
/// thread creations by this thread are counted in `spawned_inside` from now on (or no longer);
/// returns what was set before
#[inline(never)]
pub fn no_spawn(b: bool) -> bool {
    unsafe { std::mem::replace(&mut *std::ptr::addr_of_mut!(NO_SPAWN).cast::<bool>().add(CUR), b) }
}
#[inline(never)]
pub fn spawned_inside() -> u64 {
    unsafe { SPAWNED_INSIDE }
}
#[inline(never)]
pub fn spawns() -> u64 {
    unsafe { CREATED }
}
#[inline(never)]
pub fn spawns_failed() -> u64 {
    unsafe { out().spawn_failed }
}
/// fold a value into the run's fingerprint
#[inline(never)]
pub fn note(v: u64) {
    unsafe {
        if ACTIVE {
            hash_in(v)
        }
    }
}
/// Run `f` without being preempted (oracle code).  Must not block.
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            hold(-1)
        }
    }
    hold(1);
    let _g = G;
    f()
}
#[inline(never)]
fn hold(by: i32) {
    unsafe { NOPREEMPT = (NOPREEMPT as i32 + by) as u32 }
}
/// an explicit preemption point (also usable from un-instrumented code)
#[inline(never)]
pub fn point() {
    unsafe { tick() }
}
/// Block until no other thread can run (deadlines of sleepers excepted).
#[inline(never)]
pub fn quiesce() {
    unsafe {
        if !ACTIVE {
            return;
        }
        thr(CUR).st = St::Quiesce;
        block();
    }
}

// ------------------------------------------------------------------ scheduler
unsafe fn arm() {
    // choose when the running thread is preempted next
    let c = cfg();
    if FAIR {
        COUNTDOWN = 5000;
        return;
    }
    COUNTDOWN = match c.policy {
        // the longer a run lasts the coarser its slices get (bounds the cost of a run)
        Policy::Random | Policy::HotSpot => 1 + RNG.below((2 * c.gap) << (out().switches >> 12).min(20)),
        Policy::Pct => match CHANGE.last() {
            Some(&s) if s > STEPS => s - STEPS,
            Some(_) => 1,
            None => u64::MAX,
        },
        Policy::Coop => u64::MAX,
        Policy::Replay => {
            let t = thr(CUR);
            match t.rp.get(t.rp_pos) {
                Some(e) => e.at.saturating_sub(t.local).max(1),
                None => u64::MAX,
            }
        }
    };
    let left = (c.cap_fair + MORE_STEPS / 2).saturating_sub(STEPS).max(1);
    if COUNTDOWN > left {
        COUNTDOWN = left;
    }
}

#[inline(always)]
unsafe fn tick() {
    if !ACTIVE {
        return;
    }
    STEPS += 1;
    COUNTDOWN -= 1;
    if COUNTDOWN == 0 {
        preempt();
    }
}

#[cold]
#[inline(never)]
unsafe fn preempt() {
    if NOPREEMPT > 0 {
        COUNTDOWN = 1;
        return;
    }
    if STEPS + CHARGED >= cfg().cap_end + MORE_STEPS {
        finish(V_NOPROGRESS, &blocked_report("no progress: step budget exhausted under fair scheduling"));
    }
    if STEPS >= cfg().cap_fair + MORE_STEPS / 2 && !FAIR {
        FAIR = true;
        for i in 0..NTHR {
            thr(i).stalled_until = 0;
        }
    }
    account();
    let me = CUR;
    if cfg().policy == Policy::Pct && !FAIR {
        while let Some(&s) = CHANGE.last() {
            if s > STEPS {
                break;
            }
            CHANGE.pop();
            LOWPRIO -= 1;
            thr(me).prio = LOWPRIO;
        }
    }
    let mut spur = u32::MAX;
    let next;
    if cfg().policy == Policy::Replay && !FAIR {
        let t = thr(me);
        match t.rp.get(t.rp_pos) {
            Some(e) if e.at <= t.local => {
                t.rp_pos += 1;
                expire();
                spur = do_spurious(e.spur);
                let to = e.to as usize;
                next = if to < NTHR && thr(to).st == St::Runnable { to } else { me };
            }
            _ => next = me,
        }
    } else {
        expire();
        spur = maybe_spurious();
        next = if FAIR { round_robin(true) } else { pick(true, false) };
    }
    if next != me || spur != u32::MAX {
        rec(0, me, thr(me).local, next, spur);
        out().preempts += 1;
    }
    switch(next);
}

unsafe fn rec(kind: u32, tid: usize, at: u64, to: usize, spur: u32) {
    hash_in(((kind as u64) << 60) ^ ((tid as u64) << 50) ^ ((to as u64) << 40) ^ at ^ ((spur as u64) << 20));
    if cfg().record {
        let o = out();
        if (o.trace_len as usize) < TRACE_MAX {
            o.trace[o.trace_len as usize] = Ev { kind, tid: tid as u32, at, to: to as u32, spur };
        }
        o.trace_len += 1;
    }
}

unsafe fn account() {
    thr(CUR).local += STEPS - SLICE_START;
    SLICE_START = STEPS;
}

unsafe fn do_spurious(t: u32) -> u32 {
    let i = t as usize;
    if t != u32::MAX && i < NTHR {
        if let St::Futex { .. } = thr(i).st {
            thr(i).st = St::Runnable;
            thr(i).timed_out = false;
            out().spurious += 1;
            return t;
        }
    }
    u32::MAX
}
unsafe fn maybe_spurious() -> u32 {
    let c = cfg();
    if c.spur_num == 0 || FAIR || RNG.below(4096) >= c.spur_num {
        return u32::MAX;
    }
    // no allocation here: it would run instrumented code (the allocator shim)
    let blocked = |i: &usize| matches!(thr(*i).st, St::Futex { .. });
    let n = (0..NTHR).filter(blocked).count();
    if n == 0 {
        return u32::MAX;
    }
    let k = RNG.below(n as u64) as usize;
    do_spurious((0..NTHR).filter(blocked).nth(k).unwrap() as u32)
}

/// wake sleepers and timed waits whose deadline has passed
unsafe fn expire() {
    let n = now();
    for i in 0..NTHR {
        let t = thr(i);
        match t.st {
            St::Futex { deadline, .. } if deadline <= n => {
                t.st = St::Runnable;
                t.timed_out = true;
            }
            St::Sleep(d) if d <= n => t.st = St::Runnable,
            _ => {}
        }
    }
}

unsafe fn round_robin(include_self: bool) -> usize {
    let n = NTHR;
    for k in 1..=n {
        let i = (CUR + k) % n;
        if thr(i).st == St::Runnable && (include_self || i != CUR) {
            return i;
        }
    }
    usize::MAX
}

/// choose among runnable threads; usize::MAX when there is none
unsafe fn pick(can_self: bool, yielding: bool) -> usize {
    let c = cfg();
    let me = CUR;
    let mut cand: [usize; 64] = [0; 64];
    let mut nc = 0;
    let mut stalled = 0;
    for i in 0..NTHR {
        let t = thr(i);
        if t.st != St::Runnable || (!can_self && i == me) {
            continue;
        }
        if t.stalled_until > STEPS {
            stalled += 1;
            continue;
        }
        if nc < 64 {
            cand[nc] = i;
            nc += 1;
        }
    }
    if nc == 0 && stalled > 0 {
        // everything runnable is stalled: the stall ends
        for i in 0..NTHR {
            let t = thr(i);
            t.stalled_until = 0;
            if t.st == St::Runnable && (can_self || i != me) && nc < 64 {
                cand[nc] = i;
                nc += 1;
            }
        }
    }
    if nc == 0 {
        return usize::MAX;
    }
    if c.stall_num > 0 && nc > 1 && RNG.below(4096) < c.stall_num {
        let v = RNG.below(nc as u64) as usize;
        thr(cand[v]).stalled_until = STEPS + 1 + RNG.below(c.stall_len.max(1));
        out().stalls += 1;
        cand[v] = cand[nc - 1];
        nc -= 1;
    }
    match c.policy {
        Policy::Pct => {
            if yielding {
                LOWPRIO -= 1;
                thr(me).prio = LOWPRIO;
            }
            let mut b = cand[0];
            for &i in &cand[..nc] {
                if thr(i).prio > thr(b).prio {
                    b = i
                }
            }
            b
        }
        _ => {
            if yielding && nc > 1 {
                // a yield goes to somebody else
                let k = cand[..nc].iter().position(|&x| x == me);
                if let Some(k) = k {
                    cand[k] = cand[nc - 1];
                    nc -= 1;
                }
            }
            cand[RNG.below(nc as u64) as usize]
        }
    }
}

/// The current thread has stopped being runnable (or yields): hand over.
unsafe fn block() {
    account();
    let me = CUR;
    let k = thr(me).blocks;
    thr(me).blocks += 1;
    let runnable = thr(me).st == St::Runnable;
    let mut spur = u32::MAX;
    let mut next;
    let mut rev: Option<Ev> = None;
    if cfg().policy == Policy::Replay && !FAIR {
        let t = thr(me);
        while t.rb_pos < t.rb.len() && t.rb[t.rb_pos].at < k {
            t.rb_pos += 1;
        }
        if let Some(e) = t.rb.get(t.rb_pos) {
            if e.at == k {
                rev = Some(*e);
                t.rb_pos += 1;
            }
        }
    }
    loop {
        expire();
        if FAIR {
            next = round_robin(runnable);
        } else if cfg().policy == Policy::Replay {
            next = usize::MAX;
            if let Some(e) = rev {
                spur = do_spurious(e.spur);
                let to = e.to as usize;
                if to < NTHR && thr(to).st == St::Runnable {
                    next = to;
                }
                rev = None;
            }
            if next == usize::MAX {
                next = round_robin(runnable);
            }
        } else {
            if spur == u32::MAX {
                spur = maybe_spurious();
            }
            next = pick(thr(me).st == St::Runnable, runnable);
        }
        if next != usize::MAX {
            break;
        }
        // a thread waiting for quiescence runs when nothing else can
        if let Some(q) = (0..NTHR).find(|&i| thr(i).st == St::Quiesce) {
            thr(q).st = St::Runnable;
            next = q;
            break;
        }
        // nothing can run: jump to the earliest deadline
        let mut best = u64::MAX;
        for i in 0..NTHR {
            match thr(i).st {
                St::Futex { deadline, .. } => best = best.min(deadline),
                St::Sleep(d) => best = best.min(d),
                _ => {}
            }
        }
        if best == u64::MAX {
            finish(V_DEADLOCK, &blocked_report("deadlock: every thread is blocked"));
        }
        if best > now() {
            CLOCK_SKIP += best - now();
            out().clock_jumps += 1;
        }
    }
    rec(1, me, k, next, spur);
    if thr(me).st == St::Finished {
        hand_over(next);
    } else {
        switch(next);
    }
}

unsafe fn blocked_report(head: &str) -> String {
    ACTIVE = false; // the run ends here; allocating must not enter the scheduler again
    let mut s = String::from(head);
    s.push_str(" [");
    for i in 0..NTHR {
        let d = match thr(i).st {
            St::Runnable => "runnable",
            St::Futex { .. } => "blocked",
            St::Join(_) => "joining",
            St::Sleep(_) => "sleeping",
            St::Quiesce => "waiting-for-quiescence",
            St::Finished => continue,
        };
        s.push_str(&format!(" t{}:{}", i, d));
    }
    s.push_str(" ]");
    s
}

unsafe fn wake_word(i: usize) {
    let w = &thr(i).word;
    w.store(1, Ordering::Release);
    raw6(SYS_FUTEX, w as *const _ as i64, FUTEX_WAKE_PRIV, 1, 0, 0, 0);
}
static mut EXITING: i64 = 0;
unsafe fn wait_word(i: usize) {
    let w = &thr(i).word;
    while w.swap(0, Ordering::Acquire) == 0 {
        raw6(SYS_FUTEX, w as *const _ as i64, FUTEX_WAIT_PRIV, 0, 0, 0, 0);
    }
    // A finished thread leaves the process (and gives its stack back) before anything else runs:
    // std orders per-thread data by stack address, so reuse of stacks must not depend on timing.
    if EXITING != 0 {
        let pid = raw6(39, 0, 0, 0, 0, 0, 0);
        while raw6(234, pid, EXITING, 0, 0, 0, 0) == 0 {
            raw6(24, 0, 0, 0, 0, 0, 0);
        }
        EXITING = 0;
    }
}
unsafe fn hand_over(next: usize) {
    out().switches += 1;
    if FAIR {
        CHARGED += 100;
    }
    CUR = next;
    SLICE_START = STEPS;
    arm();
    wake_word(next);
}
unsafe fn switch(next: usize) {
    let me = CUR;
    if next == me {
        arm();
        return;
    }
    hand_over(next);
    wait_word(me);
}
/// make the next step a scheduling decision (something became runnable)
unsafe fn resched_soon() {
    if cfg().policy == Policy::Pct && !FAIR {
        COUNTDOWN = 1;
    }
}

// ------------------------------------------------------------------ instrumentation callbacks
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 {
        return;
    }
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE {
        return;
    }
    let id = *g as usize;
    *COV.add(id) = 1;
    if !HOT.is_null() {
        let h = HOT.add(id);
        if *h == 0 {
            *h = if RNG.below(cfg().hot_den.max(1)) == 0 { 2 } else { 1 };
        }
        if *h == 2 && RNG.next() & 1 == 0 {
            COUNTDOWN = 1;
        }
    }
    tick();
}
macro_rules! mem_cb { ($($n:ident),*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $n(_p: *mut u8) { tick(); }
)* } }
mem_cb!(
    __sanitizer_cov_load1,
    __sanitizer_cov_load2,
    __sanitizer_cov_load4,
    __sanitizer_cov_load8,
    __sanitizer_cov_load16,
    __sanitizer_cov_store1,
    __sanitizer_cov_store2,
    __sanitizer_cov_store4,
    __sanitizer_cov_store8,
    __sanitizer_cov_store16
);

// ------------------------------------------------------------------ interposed libc
unsafe fn simulated() -> bool {
    ACTIVE && TID.with(|t| t.get()) >= 0
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && simulated() {
        return futex(a as usize, b as i32, c as u32, d as *const libc::timespec, f as u32);
    }
    if n == 318 && simulated() {
        return getrandom(a as *mut libc::c_void, b as usize, c as u32) as i64;
    }
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        return -1;
    }
    r
}

unsafe fn futex(addr: usize, op: i32, val: u32, ts: *const libc::timespec, val3: u32) -> i64 {
    let cmd = op & 127;
    match cmd {
        0 | 9 => {
            let w = &*(addr as *const AtomicU32);
            if w.load(Ordering::SeqCst) != val {
                set_errno(libc::EAGAIN);
                return -1;
            }
            let mut deadline = u64::MAX;
            if !ts.is_null() {
                let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                deadline = if cmd == 0 {
                    now().saturating_add(t)
                } else {
                    t.saturating_sub(EPOCH_NS)
                };
            }
            out().futex_waits += 1;
            let me = CUR;
            let t = thr(me);
            t.timed_out = false;
            BLOCK_SEQ += 1;
            t.seq = BLOCK_SEQ;
            t.st = St::Futex { addr, bits: if cmd == 9 { val3 } else { u32::MAX }, deadline };
            block();
            if thr(me).timed_out {
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            0
        }
        1 | 10 => {
            let bits = if cmd == 10 { val3 } else { u32::MAX };
            let mut n = 0;
            // first come, first woken
            while (n as u32) < val {
                let mut best = usize::MAX;
                for i in 0..NTHR {
                    if let St::Futex { addr: a, bits: b, .. } = thr(i).st {
                        if a == addr && b & bits != 0 && (best == usize::MAX || thr(i).seq < thr(best).seq) {
                            best = i;
                        }
                    }
                }
                if best == usize::MAX {
                    break;
                }
                thr(best).st = St::Runnable;
                thr(best).timed_out = false;
                n += 1;
            }
            if n > 0 {
                resched_soon();
            }
            n
        }
        _ => {
            set_errno(libc::ENOSYS);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !simulated() {
        return raw6(24, 0, 0, 0, 0, 0, 0) as i32;
    }
    out().yields += 1;
    STEPS += 1;
    if STEPS + CHARGED >= cfg().cap_end + MORE_STEPS {
        finish(V_NOPROGRESS, &blocked_report("no progress: step budget exhausted under fair scheduling"));
    }
    if NOPREEMPT == 0 {
        block();
    }
    0
}

unsafe fn sim_sleep(ns: u64) {
    let d = now().saturating_add(ns);
    thr(CUR).st = St::Sleep(d);
    block();
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if !simulated() {
        return syscall(35, r as i64, rem as i64, 0, 0, 0, 0) as i32;
    }
    sim_sleep((*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, flags: i32, r: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if !simulated() {
        return -(raw6(230, c as i64, flags as i64, r as i64, rem as i64, 0, 0) as i32);
    }
    let mut t = (*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64;
    if flags & 1 != 0 {
        t = t.saturating_sub(EPOCH_NS).saturating_sub(now());
    }
    sim_sleep(t);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, ts: *mut libc::timespec) -> i32 {
    if !simulated() {
        return syscall(228, c as i64, ts as i64, 0, 0, 0, 0) as i32;
    }
    let mut t = EPOCH_NS + now();
    if c == 0 || c == 5 {
        t = t.wrapping_add(WALL_SKEW);
    }
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    if !simulated() {
        let r = raw6(318, buf as i64, len as i64, flags as i64, 0, 0, 0);
        if r < 0 {
            set_errno(-r as i32);
            return -1;
        }
        return r as isize;
    }
    for i in 0..len {
        *(buf as *mut u8).add(i) = ENTROPY.next() as u8;
    }
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, len: usize, set: *mut u8) -> i32 {
    if !simulated() {
        let r = raw6(204, pid as i64, len as i64, set as i64, 0, 0, 0);
        if r < 0 {
            set_errno(-r as i32);
            return -1;
        }
        for i in (r as usize)..len {
            *set.add(i) = 0;
        }
        return 0;
    }
    for i in 0..len {
        *set.add(i) = 0;
    }
    for c in 0..cfg().cpus.max(1) as usize {
        *set.add(c / 8) |= 1 << (c % 8);
    }
    0
}

type CreateFn = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> i32;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
unsafe fn real_create() -> CreateFn {
    if REAL_CREATE.is_none() {
        let p = libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const _);
        REAL_CREATE = Some(core::mem::transmute(p));
    }
    REAL_CREATE.unwrap()
}
unsafe fn real_join() -> JoinFn {
    if REAL_JOIN.is_none() {
        let p = libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const _);
        REAL_JOIN = Some(core::mem::transmute(p));
    }
    REAL_JOIN.unwrap()
}

extern "C" fn tramp(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let id = p as usize;
        TID.with(|t| t.set(id as i32));
        libc::pthread_setspecific(KEY, (id + 1) as *const _);
        wait_word(id);
        let t = thr(id);
        (t.start.unwrap())(t.arg)
    }
}
unsafe extern "C" fn on_exit(p: *mut libc::c_void) {
    if !ACTIVE {
        return;
    }
    let id = p as usize - 1;
    thr(id).st = St::Finished;
    for i in 0..NTHR {
        if thr(i).st == St::Join(id) {
            thr(i).st = St::Runnable;
        }
    }
    TID.with(|t| t.set(-2));
    EXITING = raw6(186, 0, 0, 0, 0, 0, 0);
    block();
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out_t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> i32 {
    if !simulated() {
        return real_create()(out_t, attr, f, arg);
    }
    CREATED += 1;
    if *std::ptr::addr_of!(NO_SPAWN).cast::<bool>().add(CUR) {
        SPAWNED_INSIDE += 1;
    }
    if SPAWN_FAIL == CREATED {
        out().spawn_failed += 1;
        return libc::EAGAIN;
    }
    // allocating runs instrumented code (the allocator shim): not part of the simulated program
    ACTIVE = false;
    let mut t = new_thr();
    t.start = Some(f);
    t.arg = arg;
    let id = register(t);
    ACTIVE = true;
    let r = real_create()(out_t, attr, tramp, id as *mut libc::c_void);
    if r != 0 {
        finish(V_HARNESS, "the sandbox could not create a thread");
    }
    thr(id).pthread = *out_t as u64;
    out().threads += 1;
    hash_in(0xC0DE ^ id as u64);
    resched_soon();
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    if simulated() {
        let id = (0..NTHR).rev().find(|&i| thr(i).pthread == t as u64);
        if let Some(id) = id {
            if thr(id).st != St::Finished {
                thr(CUR).st = St::Join(id);
                block();
            }
        }
    }
    real_join()(t, ret)
}

// ------------------------------------------------------------------ allocator
use std::alloc::{GlobalAlloc, Layout, System};
// Inside a simulated run memory comes from a region of its own at a fixed address, so that the
// address of every block is a function of the run alone and not of what the process did before it.
// A freed block is the next one handed out for its size, which is what code that remembers things
// by address has to be afraid of.
const ARENA_AT: usize = 0x2000_0000_0000;
const ARENA_SIZE: usize = 1 << 36;
static mut ARENA: bool = false;
static mut ARENA_TOP: usize = 0;
static mut ARENA_FREE: [*mut u8; 256] = [core::ptr::null_mut(); 256];
const IN_USE: usize = 0xA110_CA7E_D0B1_0C4B;
const IS_FREE: usize = 0xF4EE_D0B1_0C4B_F4EE;
unsafe fn arena_open() {
    let p = raw6(9, ARENA_AT as i64, ARENA_SIZE as i64, 3, 0x104022, -1, 0); // private, anonymous, no reserve, fixed
    if p as usize == ARENA_AT {
        ARENA_TOP = ARENA_AT;
        ARENA = true;
    }
}
/// size class and block size: multiples of 16 up to 1 KiB, then four steps per power of two
fn arena_class(n: usize) -> (usize, usize) {
    let n = n.max(16);
    if n <= 1024 {
        let k = (n + 15) / 16;
        return (k, k * 16);
    }
    let log = usize::BITS as usize - 1 - (n - 1).leading_zeros() as usize;
    let step = 1usize << (log - 2);
    let q = (n - (1 << log) + step - 1) / step;
    (64 + (log - 10) * 4 + q, (1 << log) + q * step)
}
/// before every block lie its state and what is needed to find its class again
unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let head = l.align().max(16);
    let size = l.size() + if l.align() > 16 { 2 * head } else { head };
    let (class, bytes) = arena_class(size);
    let free = ARENA_FREE[class];
    let start = if !free.is_null() {
        ARENA_FREE[class] = *(free as *mut *mut u8);
        free as usize
    } else {
        let at = ARENA_TOP;
        if at + bytes > ARENA_AT + ARENA_SIZE {
            return core::ptr::null_mut();
        }
        ARENA_TOP += bytes;
        at
    };
    let p = (start + head + head - 1) & !(head - 1);
    let p = if l.align() > 16 { p } else { start + 16 };
    *((p - 8) as *mut usize) = IN_USE;
    *((p - 16) as *mut usize) = start;
    p as *mut u8
}
unsafe fn arena_free(p: *mut u8, l: Layout) {
    let state = p.sub(8) as *mut usize;
    if *state != IN_USE {
        raw_abort(); // freed twice, or overwritten
    }
    *state = IS_FREE;
    let start = *(p.sub(16) as *mut usize) as *mut u8;
    let head = l.align().max(16);
    let (class, _) = arena_class(l.size() + if l.align() > 16 { 2 * head } else { head });
    core::ptr::write_bytes(p, 0xDE, l.size().min(256));
    *(start as *mut *mut u8) = ARENA_FREE[class];
    ARENA_FREE[class] = start;
}
unsafe fn raw_abort() -> ! {
    libc::abort()
}
/// Counts live allocations whose alignment is exactly MARK (element buffers of the workload's
/// number type).
pub struct Alloc;
pub const MARK: usize = 64;
static mut LIVE: i64 = 0;
static mut LIVE_BYTES: i64 = 0;
static mut TOTAL: u64 = 0;
static mut HEAP: i64 = 0;
static mut HEAP_BYTES: i64 = 0;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() == MARK {
            LIVE += 1;
            LIVE_BYTES += l.size() as i64;
            TOTAL += 1;
        } else {
            HEAP += 1;
            HEAP_BYTES += l.size() as i64;
        }
        if ARENA {
            arena_alloc(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() == MARK {
            LIVE -= 1;
            LIVE_BYTES -= l.size() as i64;
        } else {
            HEAP -= 1;
            HEAP_BYTES -= l.size() as i64;
        }
        if (p as usize).wrapping_sub(ARENA_AT) < ARENA_SIZE {
            arena_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
}
#[inline(never)]
pub fn live_buffers() -> (i64, i64, u64) {
    unsafe { (LIVE, LIVE_BYTES, TOTAL) }
}

/// everything else on the heap: blocks and bytes
#[inline(never)]
pub fn live_heap() -> (i64, i64) {
    unsafe { (HEAP, HEAP_BYTES) }
}

/// turn off address-space randomisation and re-execute (best effort)
pub fn disable_aslr() {
    unsafe {
        let cur = raw6(135, 0xffffffff, 0, 0, 0, 0, 0);
        if cur >= 0 && cur & 0x0040000 == 0 && std::env::var_os("SIM_NOASLR").is_none() {
            if raw6(135, cur | 0x0040000, 0, 0, 0, 0, 0) >= 0 {
                std::env::set_var("SIM_NOASLR", "1");
                use std::os::unix::process::CommandExt;
                let mut a = std::env::args_os();
                a.next();
                let _ = std::process::Command::new("/proc/self/exe").args(a).exec();
            }
        }
    }
}
