//! Runner: many simulated runs from one seed, statistics, minimisation, replay.
mod gen;
mod graph;
mod net;
mod num;
#[macro_use]
mod scen;
mod scen2;
mod scen3;
mod tag;
mod topo;
mod warm;

use simrt::{Config, Ev, Out, Policy, Rng};
use std::collections::HashSet;
use std::io::Write;
use std::time::Instant;

#[global_allocator]
static A: simrt::Alloc = simrt::Alloc;

const CAP_FAIR: u64 = 6_000_000;
const CAP_END: u64 = 200_000_000;
const WATCHDOG_S: u32 = 100;

fn config(seed: u64) -> Config {
    let mut r = Rng::new(seed ^ 0xC0FF_EE00);
    let mut pick = |v: &[u64]| v[r.below(v.len() as u64) as usize];
    let policy = match pick(&[0, 0, 0, 0, 1, 1, 2, 3, 3, 3]) {
        0 => Policy::Random,
        1 => Policy::Pct,
        2 => Policy::Coop,
        _ => Policy::HotSpot,
    };
    let stalls = pick(&[0, 0, 1]) == 1;
    let spur = pick(&[0, 0, 0, 1]) == 1;
    Config {
        seed,
        policy,
        gap: if policy == Policy::HotSpot { pick(&[256, 1024, 8192]) } else { pick(&[4, 16, 64, 64, 256, 256, 1024, 4096]) },
        depth: pick(&[1, 2, 3, 5, 10]),
        span: pick(&[1_000, 5_000, 20_000, 100_000]),
        stall_num: if stalls { pick(&[16, 64, 256]) } else { 0 },
        stall_len: pick(&[500, 5_000, 50_000]),
        spur_num: if spur { pick(&[16, 128]) } else { 0 },
        hot_den: pick(&[16, 64, 256, 1024]),
        cpus: pick(&[1, 2, 4]),
        cap_fair: CAP_FAIR,
        cap_end: CAP_END,
        record: false,
        replay: vec![],
    }
}

struct Outcome {
    verdict: u32,
    class: String,
    msg: String,
    hash: u64,
}
impl Outcome {
    fn bad(&self) -> bool {
        self.verdict != simrt::V_OK
    }
}

fn text(b: &[u8], n: usize) -> String {
    String::from_utf8_lossy(&b[..n.min(b.len())]).into_owned()
}

/// one simulated run in a fresh process
fn run_once(prop: &str, tape: Option<&[u32]>, wl_seed: u64, cfg: Config, o: *mut Out) -> Outcome {
    unsafe {
        simrt::reset_out(o);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::alarm(WATCHDOG_S);
            match tape {
                Some(t) => simrt::gen_replay(t),
                None => simrt::gen_live(wl_seed),
            }
            simrt::enter(cfg, o);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scen::run(prop, &mut gen::Gen)));
            match r {
                Ok(Ok(())) => simrt::finish(simrt::V_OK, ""),
                Ok(Err(m)) if m.starts_with("[harness]") => simrt::finish(simrt::V_HARNESS, &m),
                Ok(Err(m)) => simrt::finish(simrt::V_VIOL, &m),
                Err(p) => simrt::finish(simrt::V_VIOL, &format!("[panic] the main thread panicked: {}", topo::payload(p))),
            }
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let out = &*o;
        let mut verdict = out.verdict;
        let mut msg = text(&out.msg, out.msg_len as usize);
        let class = match verdict {
            simrt::V_OK => "ok".to_string(),
            simrt::V_VIOL => msg.split(']').next().unwrap_or("").trim_start_matches('[').to_string(),
            simrt::V_DEADLOCK => "deadlock".to_string(),
            simrt::V_NOPROGRESS => "no-progress".to_string(),
            simrt::V_HARNESS => "harness".to_string(),
            _ => {
                verdict = simrt::V_VIOL;
                if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
                    msg = format!("[stuck] the run was still going after {} s of real time", WATCHDOG_S);
                    "stuck".to_string()
                } else if libc::WIFSIGNALED(st) {
                    let s = libc::WTERMSIG(st);
                    msg = format!("[crash] the process was killed by signal {} ({})", s, match s {
                        libc::SIGSEGV => "SIGSEGV: invalid access or stack overflow",
                        libc::SIGABRT => "SIGABRT: abort, stack overflow or heap corruption",
                        libc::SIGBUS => "SIGBUS",
                        libc::SIGKILL => "SIGKILL: out of memory?",
                        _ => "",
                    });
                    if s == libc::SIGKILL {
                        verdict = simrt::V_HARNESS;
                    }
                    format!("crash{}", s)
                } else {
                    msg = format!("[exit] the process exited with status {}", libc::WEXITSTATUS(st));
                    "exit".to_string()
                }
            }
        };
        Outcome { verdict, class, msg, hash: out.hash }
    }
}

// ------------------------------------------------------------------ worker statistics
const MAXW: usize = 16;
const HASHES: usize = 1 << 20;
#[repr(C)]
#[derive(Clone, Copy)]
struct WStat {
    runs: u64,
    ok: u64,
    trivial: u64,
    overlapped: u64,
    steps: u64,
    vtime: u64,
    switches: u64,
    preempts: u64,
    stalls: u64,
    spurious: u64,
    yields: u64,
    futex_waits: u64,
    threads: u64,
    spawn_failed: u64,
    injected: u64,
    clock_jumps: u64,
    runs_with_fault: u64,
    policy: [u64; 4],
    probes: [u64; simrt::NPROBE],
    probe_runs: [u64; simrt::NPROBE],
    max_steps: u64,
    fair_runs: u64,
    bad_idx: u64,
    bad_verdict: u32,
    nhash: u64,
}
struct Sh {
    stop: *mut u64,
    stat: *mut WStat,
    hashes: *mut u64,
    samples: *mut u8,
}
fn shared(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}
const SAMPLES: usize = 4;
const SAMPLE_LEN: usize = 4096;

fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = simrt::mix(seed ^ 0x51D);
    for b in prop.bytes() {
        h = simrt::mix(h ^ b as u64);
    }
    simrt::mix(h ^ idx.wrapping_mul(0x9E37_79B9))
}

fn quiet() {
    unsafe {
        std::panic::set_hook(Box::new(|_| {}));
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        // keep the real stderr for our own messages
        let keep = libc::dup(2);
        libc::fcntl(keep, libc::F_SETFD, libc::FD_CLOEXEC);
        STDERR = keep;
        libc::dup2(n, 2);
    }
}
static mut STDERR: i32 = 2;
fn complain(s: &str) {
    unsafe {
        let s = format!("{}\n", s);
        libc::write(STDERR, s.as_ptr() as *const _, s.len());
    }
}

struct Batch {
    total: WStat,
    distinct: u64,
    distinct_nontrivial: u64,
    wall: f64,
    bad: Option<u64>,
    samples: Vec<String>,
    edges: usize,
}

/// run indices 0..n (or until the wall-clock limit) on `jobs` processes
fn batch(prop: &str, seed: u64, n: u64, jobs: usize, wall: f64, cov: *mut u8) -> Batch {
    let t0 = Instant::now();
    let sh = Sh {
        stop: shared(4096) as *mut u64,
        stat: shared(std::mem::size_of::<WStat>() * MAXW) as *mut WStat,
        hashes: shared(8 * HASHES * MAXW) as *mut u64,
        samples: shared(SAMPLES * SAMPLE_LEN),
    };
    let mut pids = vec![];
    for w in 0..jobs {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let o = simrt::alloc_out();
            let st = unsafe { &mut *sh.stat.add(w) };
            st.bad_idx = u64::MAX;
            let mut i = w as u64;
            while i < n && unsafe { std::ptr::read_volatile(sh.stop) } == 0 && t0.elapsed().as_secs_f64() < wall {
                let s = run_seed(seed, prop, i);
                let c = config(s);
                let pol = c.policy as usize;
                let r = run_once(prop, None, s, c, o);
                let out = unsafe { &*o };
                st.runs += 1;
                st.policy[pol] += 1;
                st.steps += out.steps;
                st.max_steps = st.max_steps.max(out.steps);
                st.fair_runs += (out.steps > CAP_FAIR) as u64;
                st.vtime += out.vtime_ns;
                st.switches += out.switches;
                st.preempts += out.preempts;
                st.stalls += out.stalls;
                st.spurious += out.spurious;
                st.yields += out.yields;
                st.futex_waits += out.futex_waits;
                st.threads += out.threads;
                st.spawn_failed += out.spawn_failed;
                st.injected += out.panics_injected;
                st.clock_jumps += out.clock_jumps;
                st.runs_with_fault += (out.stalls + out.spurious + out.spawn_failed + out.panics_injected > 0) as u64;
                for p in 0..simrt::NPROBE {
                    st.probes[p] += out.probes[p];
                    st.probe_runs[p] += (out.probes[p] > 0) as u64;
                }
                let triv = out.user[0] == 1 || out.switches == 0;
                st.trivial += triv as u64;
                st.overlapped += (out.user[1] == 1) as u64;
                if (st.nhash as usize) < HASHES {
                    unsafe { *sh.hashes.add(w * HASHES + st.nhash as usize) = (r.hash & !1) | triv as u64 };
                    st.nhash += 1;
                }
                if (i as usize) < SAMPLES {
                    let d = format!("run {} (seed {:#x}, policy {:?}): {} steps, {} switches; {}", i, s, config(s).policy, out.steps, out.switches, text(&out.desc, out.desc_len as usize).trim());
                    let d = d.as_bytes();
                    let k = d.len().min(SAMPLE_LEN - 1);
                    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), sh.samples.add(i as usize * SAMPLE_LEN), k) };
                }
                if r.bad() {
                    st.bad_idx = i;
                    st.bad_verdict = r.verdict;
                    unsafe { std::ptr::write_volatile(sh.stop, 1) };
                    break;
                }
                st.ok += 1;
                i += jobs as u64;
            }
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut lost = 0;
    for p in pids {
        let mut s = 0;
        unsafe { libc::waitpid(p, &mut s, 0) };
        if s != 0 {
            lost += 1;
        }
    }
    if lost > 0 {
        complain(&format!("{} worker process(es) died", lost));
        std::process::exit(2);
    }
    let mut t: WStat = unsafe { std::mem::zeroed() };
    let mut bad = None;
    let mut set: HashSet<u64> = HashSet::new();
    let mut nt: HashSet<u64> = HashSet::new();
    for w in 0..jobs {
        let s = unsafe { &*sh.stat.add(w) };
        macro_rules! add { ($($f:ident),*) => { $( t.$f += s.$f; )* } }
        add!(runs, ok, trivial, overlapped, steps, vtime, switches, preempts, stalls, spurious, yields, futex_waits, threads, spawn_failed, injected, clock_jumps, runs_with_fault, fair_runs);
        t.max_steps = t.max_steps.max(s.max_steps);
        for i in 0..4 {
            t.policy[i] += s.policy[i];
        }
        for i in 0..simrt::NPROBE {
            t.probes[i] += s.probes[i];
            t.probe_runs[i] += s.probe_runs[i];
        }
        if s.bad_idx != u64::MAX && s.bad_verdict != 0 {
            bad = Some(bad.map_or(s.bad_idx, |b: u64| b.min(s.bad_idx)));
        }
        for k in 0..s.nhash as usize {
            let h = unsafe { *sh.hashes.add(w * HASHES + k) };
            set.insert(h & !1);
            if h & 1 == 0 {
                nt.insert(h);
            }
        }
    }
    let samples = (0..SAMPLES)
        .map(|i| unsafe { std::ffi::CStr::from_ptr(sh.samples.add(i * SAMPLE_LEN) as *const _) }.to_string_lossy().into_owned())
        .filter(|s| !s.is_empty())
        .collect();
    let edges = (0..simrt::nguards()).filter(|&i| unsafe { *cov.add(i + 1) } != 0).count();
    // the numbers of the reached edges, for sim/coverage.py
    if let Ok(f) = std::env::var("SIM_COVDUMP") {
        let hit: Vec<String> = (0..simrt::nguards()).filter(|&i| unsafe { *cov.add(i + 1) } != 0).map(|i| i.to_string()).collect();
        let _ = std::fs::write(f, hit.join("\n"));
    }
    Batch { total: t, distinct: set.len() as u64, distinct_nontrivial: nt.len() as u64, wall: t0.elapsed().as_secs_f64(), bad, samples, edges }
}

// ------------------------------------------------------------------ minimisation
struct Case {
    prop: String,
    class: String,
    tape: Vec<u32>,
    seed: u64,
    events: Option<Vec<Ev>>,
}
impl Case {
    fn cfg(&self) -> Config {
        let mut c = config(self.seed);
        if let Some(e) = &self.events {
            c.policy = Policy::Replay;
            c.replay = e.clone();
            c.stall_num = 0;
            c.spur_num = 0;
        }
        c
    }
    fn run(&self, o: *mut Out) -> Outcome {
        run_once(&self.prop, Some(&self.tape), 0, self.cfg(), o)
    }
}
fn tape_of(o: *mut Out) -> Vec<u32> {
    unsafe { (&(*o).tape)[..((*o).tape_len as usize).min(simrt::TAPE_MAX)].to_vec() }
}

fn minimise(prop: &str, seed: u64, first: &Outcome, o: *mut Out, budget: f64) -> (Case, Outcome, String) {
    let t0 = Instant::now();
    let tb = budget * 0.6;
    let mut log = String::new();
    // the original run, with its choices on a tape
    let r0 = run_once(prop, None, seed, config(seed), o);
    let tape = tape_of(o);
    let mut case = Case { prop: prop.into(), class: first.class.clone(), tape: tape.clone(), seed, events: None };
    let len0 = case.tape.len();
    if r0.class != first.class || case.run(o).class != case.class {
        log.push_str("the run could not be repeated from its tape; ");
        let r = case.run(o);
        return (case, r, log);
    }
    // workload: fewer and smaller choices, under the same or another schedule
    let attempt = |case: &Case, t: Vec<u32>, o: *mut Out, tries: u64| -> Option<Case> {
        for j in 0..tries {
            if t0.elapsed().as_secs_f64() > tb {
                return None;
            }
            let s = if j == 0 { case.seed } else { simrt::mix(case.seed ^ (j << 32) ^ t.len() as u64) };
            let c = Case { prop: case.prop.clone(), class: case.class.clone(), tape: t.clone(), seed: s, events: None };
            if c.run(o).class == c.class {
                return Some(c);
            }
        }
        None
    };
    let tries = 12;
    loop {
        let mut progress = false;
        // cut the tail (missing choices are 0)
        let mut n = case.tape.len() / 2;
        while n > 0 && t0.elapsed().as_secs_f64() < tb {
            if n <= case.tape.len() {
                let t = case.tape[..case.tape.len() - n].to_vec();
                if let Some(c) = attempt(&case, t, o, tries) {
                    case = c;
                    progress = true;
                    continue;
                }
            }
            n /= 2;
        }
        // zero chunks, then delete chunks
        for del in [false, true] {
            let mut w = (case.tape.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < case.tape.len() && t0.elapsed().as_secs_f64() < tb {
                    let e = (i + w).min(case.tape.len());
                    let mut t = case.tape.clone();
                    if del {
                        t.drain(i..e);
                    } else if t[i..e].iter().all(|&x| x == 0) {
                        i += w;
                        continue;
                    } else {
                        t[i..e].iter_mut().for_each(|x| *x = 0);
                    }
                    if let Some(c) = attempt(&case, t, o, if w > 1 { tries } else { tries / 2 }) {
                        case = c;
                        progress = true;
                        if !del {
                            i += w;
                        }
                    } else {
                        i += w;
                    }
                }
                if w == 1 {
                    break;
                }
                w /= 2;
            }
        }
        // smaller values
        for i in 0..case.tape.len() {
            while i < case.tape.len() && case.tape[i] > 1 && t0.elapsed().as_secs_f64() < tb {
                let mut t = case.tape.clone();
                t[i] /= 2;
                match attempt(&case, t, o, tries / 2) {
                    Some(c) => {
                        case = c;
                        progress = true;
                    }
                    None => break,
                }
            }
        }
        while case.tape.last() == Some(&0) {
            case.tape.pop();
        }
        if !progress || t0.elapsed().as_secs_f64() > tb {
            break;
        }
    }
    // schedule: record it, then drop as many of its decisions as possible
    let mut c = case.cfg();
    c.record = true;
    let r = run_once(prop, Some(&case.tape), 0, c, o);
    let (ev, lost) = unsafe { ((&(*o).trace)[..((*o).trace_len as usize).min(simrt::TRACE_MAX)].to_vec(), (*o).trace_lost) };
    let full = ev.len();
    let mut sched = Case { events: Some(ev), prop: case.prop.clone(), class: case.class.clone(), tape: case.tape.clone(), seed: case.seed };
    if r.class == case.class && lost == 0 && sched.run(o).class == case.class {
        // blocking decisions that equal the default can go at once: try dropping whole kinds first
        let mut w = (full / 2).max(1);
        let try_events = |sched: &Case, e: Vec<Ev>, o: *mut Out| -> bool {
            let c = Case { events: Some(e), prop: sched.prop.clone(), class: sched.class.clone(), tape: sched.tape.clone(), seed: sched.seed };
            c.run(o).class == sched.class
        };
        if try_events(&sched, vec![], o) {
            sched.events = Some(vec![]);
        }
        loop {
            let mut i = 0;
            while i < sched.events.as_ref().unwrap().len() && t0.elapsed().as_secs_f64() < budget {
                let mut e = sched.events.clone().unwrap();
                let hi = (i + w).min(e.len());
                e.drain(i..hi);
                if try_events(&sched, e.clone(), o) {
                    sched.events = Some(e);
                } else {
                    i += w;
                }
            }
            if w == 1 || t0.elapsed().as_secs_f64() > budget {
                break;
            }
            w = (w / 2).max(1);
        }
        log.push_str(&format!("choices {} -> {}, schedule decisions {} -> {}", len0, sched.tape.len(), full, sched.events.as_ref().unwrap().len()));
        case = sched;
    } else {
        log.push_str(&format!("choices {} -> {}, schedule kept as a seed", len0, case.tape.len()));
    }
    let r = case.run(o);
    (case, r, log)
}

fn write_replay(path: &str, case: &Case, r: &Outcome, run: &str, log: &str, desc: &str) {
    let mut s = String::new();
    s.push_str(&format!("property {}\nclass {}\nseed {:#x}\nfound-in {}\nminimised {}\nhash {:#x}\n", case.prop, case.class, case.seed, run, log, r.hash));
    s.push_str(&format!("choices {}\n", case.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    match &case.events {
        None => s.push_str("schedule seed\n"),
        Some(e) => {
            s.push_str(&format!("schedule {}\n", e.len()));
            for e in e {
                let sp = if e.spur == u32::MAX { "-".to_string() } else { e.spur.to_string() };
                s.push_str(&format!("  {} thread {} at {} -> thread {} spurious {}\n", if e.kind == 0 { "preempt" } else { "blocked" }, e.tid, e.at, e.to, sp));
            }
        }
    }
    s.push_str(&format!("violation {}\n--- workload and faults\n{}\n", r.msg.replace('\n', " "), desc));
    std::fs::write(path, s).expect("replay file");
}
fn read_replay(path: &str) -> (Case, u64) {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| {
        complain(&format!("cannot read {}: {}", path, e));
        std::process::exit(2)
    });
    let mut c = Case { prop: String::new(), class: String::new(), tape: vec![], seed: 0, events: None };
    let mut hash = 0;
    let hex = |v: &str| u64::from_str_radix(v.trim_start_matches("0x"), 16).unwrap_or(0);
    for l in s.lines() {
        if l.starts_with("--- ") {
            break;
        }
        let (k, v) = l.trim_start().split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => c.prop = v.into(),
            "class" => c.class = v.into(),
            "seed" => c.seed = hex(v),
            "hash" => hash = hex(v),
            "choices" => c.tape = v.split(',').filter_map(|x| x.parse().ok()).collect(),
            "schedule" if v != "seed" => c.events = Some(vec![]),
            "preempt" | "blocked" => {
                let w: Vec<&str> = v.split_whitespace().collect();
                let e = Ev { kind: (k == "blocked") as u32, tid: w[1].parse().unwrap(), at: w[3].parse().unwrap(), to: w[6].parse().unwrap(), spur: w[8].parse().unwrap_or(u32::MAX) };
                c.events.get_or_insert(vec![]).push(e);
            }
            _ => {}
        }
    }
    (c, hash)
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn plan(prop: &str, tier: &str) -> (u64, f64) {
    let quick: u64 = match prop {
        "C01" => 60_000,
        "C02" => 40_000,
        "C03" => 40_000,
        "C04" => 50_000,
        "C05" => 150_000,
        "C06" => 40_000,
        "C07" => 60_000,
        "C08" => 30_000,
        "C09" => 15_000,
        "C10" => 25_000,
        "C16" => 28_000,
        "C17" => 20_000,
        "C18" => 36_000,
        "C19" => 50_000,
        "C20" => 30_000,
        "C21" => 40_000,
        "C22" => 50_000,
        _ => 50_000,
    };
    let scale: f64 = std::env::var("SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = if tier == "thorough" { quick * 30 } else { quick };
    ((n as f64 * scale) as u64, if tier == "thorough" { 3000.0 } else { 120.0 })
}

fn check(prop: &str, cov: *mut u8) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let dir = std::env::var("SIM_VERIF").unwrap_or("/verif".into());
    let jobs = std::env::var("SIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize).clamp(1, MAXW);
    let (n, wall) = plan(prop, tier);
    println!("property {} tier {} VERIF_SEED {} planned runs {} processes {}", prop, tier, seed, n, jobs);
    let b = batch(prop, seed, n, jobs, wall, cov);
    let mut violations = 0;
    let mut replay_path = String::new();
    if let Some(idx) = b.bad {
        let o = simrt::alloc_out();
        let s = run_seed(seed, prop, idx);
        let r = run_once(prop, None, s, config(s), o);
        println!("run {} (seed {:#x}): {}", idx, s, r.msg);
        println!("{}", text(unsafe { &(*o).desc }, unsafe { (*o).desc_len } as usize));
        if !r.bad() || r.verdict == simrt::V_HARNESS {
            complain(&format!("harness error: run {} was reported as failing; repeated: {} {}", idx, r.class, r.msg));
            return 2;
        }
        let budget = if r.class == "stuck" { 0.0 } else if tier == "thorough" { 240.0 } else { 75.0 };
        let budget = std::env::var("SIM_MINIMISE").ok().and_then(|s| s.parse().ok()).unwrap_or(budget);
        let (case, r2, log) = minimise(prop, s, &r, o, budget);
        let desc = text(unsafe { &(*o).desc }, unsafe { (*o).desc_len } as usize);
        let _ = std::fs::create_dir_all(format!("{}/replays", dir));
        replay_path = format!("{}/replays/{}-seed{}-run{}.replay", dir, prop, seed, idx);
        write_replay(&replay_path, &case, &r2, &format!("VERIF_SEED {} tier {} run {}", seed, tier, idx), &log, &desc);
        println!("minimised ({}): {}\n{}", log, r2.msg, desc);
        // the file must reproduce in a fresh process
        let again = std::process::Command::new("/proc/self/exe").arg("replay").arg(&replay_path).output();
        match again {
            Ok(a) if a.status.code() == Some(1) => println!("replayed in a fresh process: same violation"),
            Ok(a) => println!("note: replaying in a fresh process ended with {:?}", a.status.code()),
            Err(e) => println!("note: could not start a fresh process: {}", e),
        }
        violations = 1;
    }
    let t = &b.total;
    let mut probes = String::new();
    for (i, p) in scen::PROBES.iter().enumerate() {
        if t.probes[i] > 0 {
            probes.push_str(&format!("{}{}: {{\"hits\": {}, \"runs\": {}}}", if probes.is_empty() { "" } else { ", " }, json(p), t.probes[i], t.probe_runs[i]));
        }
    }
    let hours = b.wall / 3600.0;
    let ev = format!(
        r#"{{"property": {}, "tier": {}, "seed": {}, "level": "exploration",
 "coverage": {{
  "evaluations": {}, "distinct_nontrivial": {},
  "rule": "one evaluation = one simulated run of the real library in its own process: a generated workload (choices drawn from the run seed) under one generated schedule and fault sequence; distinct = different fingerprint of all scheduling decisions, thread creations and injected faults; non-trivial = the workload did what the property is about (not counted in 'trivial_runs') and at least one switch between threads happened",
  "samples": [{}],
  "runs_per_hour": {:.0}, "seeds_per_hour": {:.0}, "distinct_schedules": {}, "trivial_runs": {}, "runs_with_overlapping_callers": {},
  "simulated_time_s": {:.6}, "simulated_steps": {}, "longest_run_steps": {}, "runs_that_reached_fair_mode": {},
  "thread_switches": {}, "preemptions_inside_code": {}, "threads_simulated": {}, "futex_waits": {}, "sched_yields": {},
  "faults_fired": {{"element_operation_panics": {}, "thread_creation_failures": {}, "thread_stalls": {}, "spurious_wakeups": {}, "clock_jumps": {}}}, "runs_with_a_fault": {},
  "schedulers": {{"random": {}, "pct": {}, "cooperative": {}, "hot_spot": {}}},
  "code_edges_reached": {}, "code_edges_instrumented": {},
  "rare_conditions": {{{}}},
  "real_components": ["rust_light (all of it, unmodified)", "rayon and rayon-core", "crossbeam channels, deques, epochs", "std threads, locks, condition variables", "kernel threads (one runs at a time)"],
  "stubbed_components": ["futex (simulated wait queues)", "thread scheduling", "clock and sleeps", "getrandom", "number of CPUs", "element type SimF (f64 that counts operations and can panic) in part of the runs"]
 }},
 "assumptions": ["sequentially consistent memory: one thread runs at a time, weak-memory reorderings are not simulated", "preemption happens at basic-block edges and memory accesses of rust_light, of the workload and of library code generic over its types, at basic-block edges of rayon-core and crossbeam-channel, and at every blocking call; code of std that is not generic runs without preemption", "sampling: schedules and workloads that were not generated are not covered", "workloads are bounded (operands mostly up to 8 per dimension, some up to about 600; up to 20 callers at once; pools of 1 to 8 workers)"],
 "wall_s": {:.2}, "violations": {}}}
"#,
        json(prop), json(tier), seed, t.runs, b.distinct_nontrivial,
        b.samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
        t.runs as f64 / hours, t.runs as f64 / hours, b.distinct, t.trivial, t.overlapped,
        t.vtime as f64 / 1e9, t.steps, t.max_steps, t.fair_runs,
        t.switches, t.preempts, t.threads, t.futex_waits, t.yields,
        t.injected, t.spawn_failed, t.stalls, t.spurious, t.clock_jumps, t.runs_with_fault,
        t.policy[0], t.policy[1], t.policy[2], t.policy[3],
        b.edges, simrt::nguards(), probes, t0.elapsed().as_secs_f64(), violations
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    let tmp = format!("{}/evidence/.{}.tmp", dir, prop);
    std::fs::write(&tmp, ev).and_then(|_| std::fs::rename(&tmp, format!("{}/evidence/{}.json", dir, prop))).expect("evidence");
    println!("{} runs ({} trivial), {} distinct schedules, {} steps, {} preemptions, {} faults, {:.1} s", t.runs, t.trivial, b.distinct, t.steps, t.preempts, t.injected + t.spawn_failed + t.stalls + t.spurious, b.wall);
    if violations > 0 {
        println!("VIOLATION property={} replay={}", prop, replay_path);
        return 1;
    }
    if t.runs < 50 && t.runs < n {
        complain("too few runs within the time limit");
        return 2;
    }
    println!("property {} held on everything explored", prop);
    0
}

fn main() {
    simrt::disable_aslr();
    quiet();
    let a: Vec<String> = std::env::args().collect();
    let cov = simrt::alloc_cov();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" => check(&a[2], cov),
        "replay" => {
            let (c, hash) = read_replay(&a[2]);
            let o = simrt::alloc_out();
            let r = c.run(o);
            println!("{}", text(unsafe { &(*o).desc }, unsafe { (*o).desc_len } as usize));
            println!("{}", if r.bad() { r.msg.as_str() } else { "no violation" });
            println!("expected: {} (fingerprint {:#x}); got: {} (fingerprint {:#x})", c.class, hash, r.class, r.hash);
            if r.bad() && r.verdict != simrt::V_HARNESS {
                println!("VIOLATION property={} replay={}", c.prop, a[2]);
                1
            } else if r.bad() {
                2
            } else {
                0
            }
        }
        "run" => {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let s = run_seed(seed, &a[2], a[3].parse().unwrap());
            let o = simrt::alloc_out();
            let t = Instant::now();
            let mut c = config(s);
            c.record = std::env::var("SIM_TRACE").is_ok();
            let r = run_once(&a[2], None, s, c, o);
            let out = unsafe { &*o };
            if let Ok(f) = std::env::var("SIM_TRACE") {
                let ev = &out.trace[..(out.trace_len as usize).min(simrt::TRACE_MAX)];
                std::fs::write(f, ev.iter().map(|e| format!("{} {} {} {} {}\n", e.kind, e.tid, e.at, e.to, e.spur)).collect::<String>()).expect("trace");
            }
            println!("{}", text(&out.desc, out.desc_len as usize));
            println!("{:?}", Config { replay: vec![], ..config(s) }.policy);
            println!("{} {} hash {:#x} steps {} switches {} preempts {} threads {} tape {} wall {:?}", r.class, r.msg, r.hash, out.steps, out.switches, out.preempts, out.threads, out.tape_len, t.elapsed());
            r.bad() as i32
        }
        // every run four times: from its seed, from its recorded choices, with its recorded schedule
        // (twice); all must agree, and so must the printed lines of two invocations
        "determinism" => {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let n: u64 = a[3].parse().unwrap();
            let o = simrt::alloc_out();
            let mut h = std::io::stdout().lock();
            let mut bad = 0;
            for i in 0..n {
                let s = run_seed(seed, &a[2], i);
                let r = run_once(&a[2], None, s, config(s), o);
                let out = unsafe { &*o };
                let _ = writeln!(h, "{} {} {:#x} {} {} {} {} {}", a[2], i, r.hash, r.class, out.steps, out.switches, out.vtime_ns, out.threads);
                let steps = out.steps;
                let tape = tape_of(o);
                let mut c = config(s);
                c.record = true;
                let r2 = run_once(&a[2], Some(&tape), 0, c, o);
                let (ev, lost) = unsafe { ((&(*o).trace)[..((*o).trace_len as usize).min(simrt::TRACE_MAX)].to_vec(), (*o).trace_lost) };
                let mut ok = r2.hash == r.hash && out.steps == steps && r2.class == r.class;
                if lost == 0 {
                    let case = Case { prop: a[2].clone(), class: r.class.clone(), tape, seed: s, events: Some(ev) };
                    let r3 = case.run(o);
                    let s3 = out.steps;
                    let r4 = case.run(o);
                    ok &= r3.class == r.class && s3 == steps && r4.hash == r3.hash && r3.hash == r.hash;
                    if !ok {
                        complain(&format!("{:?} stall {} spur {} st {} sp {} {} run {} differs: {:#x} {} {}; tape {:#x} {}; schedule {:#x} {} {}; again {:#x}", config(s).policy, config(s).stall_num, config(s).spur_num, out.stalls, out.spurious, a[2], i, r.hash, r.class, steps, r2.hash, r2.class, r3.hash, r3.class, s3, r4.hash));
                    }
                }
                bad += !ok as i32;
            }
            (bad > 0) as i32
        }
        _ => {
            complain("usage: simwl check <property> | replay <file> | run <property> <index> | determinism <property> <runs>");
            2
        }
    };
    std::process::exit(code);
}
