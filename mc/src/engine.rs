//! Exhaustive exploration of finite case spaces, in parallel, with every case
//! replayable from its index or its choice sequence.
//!
//! A worker process explores; its parent supervises it through a shared
//! progress page, so a crash or a hang of the code under test is attributed to
//! the case that was running and reported as a violation, after re-running that
//! case alone.
use crate::env::*;
use crate::out::*;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

pub type Res = Result<(), String>;

pub enum Kind {
    /// Cases 0..n, each one execution.
    Idx(u64, Box<dyn Fn(u64, &mut Ctx) -> Res + Sync + Send>),
    /// Every execution of a program with choice points.
    Dfs(Box<dyn Fn(&Chooser, &mut Ctx) -> Res + Sync + Send>),
}

pub struct Space {
    pub name: String,
    pub kind: Kind,
}

pub fn idx(name: impl Into<String>, n: u64, f: impl Fn(u64, &mut Ctx) -> Res + Sync + Send + 'static) -> Space {
    Space { name: name.into(), kind: Kind::Idx(n, Box::new(f)) }
}
pub fn dfs(name: impl Into<String>, f: impl Fn(&Chooser, &mut Ctx) -> Res + Sync + Send + 'static) -> Space {
    Space { name: name.into(), kind: Kind::Dfs(Box::new(f)) }
}

/// Per-thread working state.
pub struct Ctx {
    pub obs: Out,
    pub spec: Out,
    pub transitions: u64,
    pub traces: u64,
    pub known: Vec<(&'static str, String)>,
    pub outcomes: HashSet<u64>,
    pub want_desc: bool,
    pub desc: String,
    pub count_outcome: bool,
    /// Cache of the environment of the running block of cases.
    pub table: Option<(u64, Table)>,
    pub table2: Option<(u64, Table)>,
    /// Cases in which the library asked for a leaf the model has no use for,
    /// and executions that varied those leaves.
    pub surprises: u64,
    pub varied: u64,
}

const OUTCOME_CAP: usize = 1 << 17;

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            obs: Out::default(),
            spec: Out::default(),
            transitions: 0,
            traces: 0,
            known: vec![],
            outcomes: HashSet::new(),
            want_desc: false,
            desc: String::new(),
            count_outcome: true,
            table: None,
            table2: None,
            surprises: 0,
            varied: 0,
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            let s = f();
            self.desc.push_str(&s);
        }
    }
    pub fn outcome(&mut self, h: u64) {
        if self.count_outcome && self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(h);
        }
    }
    /// Compare the two observation buffers under `tags`.
    pub fn check(&mut self, tags: Tags) -> Res {
        let d = compare(&self.obs, &self.spec, tags)?;
        for (id, ex) in &d.known {
            if !crate::known::listed(id) {
                return Err(ex.clone());
            }
        }
        self.transitions += d.compared;
        self.traces += 1;
        for (id, ex) in d.known {
            if crate::known::ours(id) && !self.known.iter().any(|k| k.0 == id) {
                self.known.push((id, ex));
            }
        }
        if self.count_outcome {
            let h = self.obs.digest();
            self.outcome(h);
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- progress page

pub const SLOTS: usize = 8;
pub const SLOT_BYTES: usize = 2048;
const MAXCH: usize = 480;

#[repr(C)]
struct Slot {
    seq: u64,
    space: u64,
    idx: u64,
    active: u32,
    nch: u32,
    ch: [u32; MAXCH],
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(code: i32) -> !;
}

pub fn map_progress(path: &str, create: bool) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).expect("progress file");
    f.set_len((SLOTS * SLOT_BYTES) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT_BYTES, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    p
}

fn slot(base: *mut u8, i: usize) -> *mut Slot {
    assert!(std::mem::size_of::<Slot>() <= SLOT_BYTES);
    unsafe { base.add(i * SLOT_BYTES) as *mut Slot }
}

pub fn publish_choice(s: *mut u8, i: usize, c: u32) {
    if !s.is_null() && i < MAXCH {
        let s = s as *mut Slot;
        unsafe {
            (*s).ch[i] = c;
            (*s).nch = i as u32 + 1;
        }
    }
}

pub struct Running {
    pub space: u64,
    pub idx: u64,
    pub choices: Vec<u32>,
}

/// The cases that were running when the worker died.
pub fn running(base: *mut u8) -> Vec<Running> {
    (0..SLOTS)
        .filter_map(|i| unsafe {
            let s = &*slot(base, i);
            if s.active == 0 {
                return None;
            }
            Some(Running { space: s.space, idx: s.idx, choices: s.ch[..(s.nch as usize).min(MAXCH)].to_vec() })
        })
        .collect()
}

pub const EXIT_HANG: i32 = 98;

// ---------------------------------------------------------------- exploration

pub struct Violation {
    pub space: String,
    pub space_no: u64,
    pub idx: u64,
    pub choices: Vec<u32>,
    pub error: String,
    pub desc: String,
}

pub struct Report {
    pub states: u64,
    pub executions: u64,
    pub transitions: u64,
    pub traces: u64,
    pub surprises: u64,
    pub varied: u64,
    pub outcomes: u64,
    pub outcomes_capped: bool,
    pub known: Vec<(&'static str, String)>,
    pub violation: Option<Violation>,
    pub spaces: Vec<(String, u64, u64)>, // name, states, executions
    pub samples: Vec<String>,
    pub error: Option<String>,
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> Result<String, String> {
    if p.is::<Diverged>() {
        Err("replaying a choice prefix diverged: the execution is not a function of its choices".into())
    } else if p.is::<Budget>() {
        Ok("does not terminate: more CPUID queries than any terminating behaviour needs".into())
    } else if let Some(s) = p.downcast_ref::<&str>() {
        Ok(format!("panicked: {s}"))
    } else if let Some(s) = p.downcast_ref::<String>() {
        Ok(format!("panicked: {s}"))
    } else {
        Ok("panicked".into())
    }
}

/// One case; Err(Ok(text)) is a violation, Err(Err(text)) an error of the machinery.
fn run_idx(f: &(dyn Fn(u64, &mut Ctx) -> Res + Sync + Send), i: u64, ctx: &mut Ctx) -> Result<(), Result<String, String>> {
    match catch_unwind(AssertUnwindSafe(|| f(i, ctx))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(Ok(e)),
        Err(p) => {
            ctx.table = None;
            ctx.table2 = None;
            ctx.obs.clear();
            ctx.spec.clear();
            Err(panic_text(p))
        }
    }
}

fn run_dfs(f: &(dyn Fn(&Chooser, &mut Ctx) -> Res + Sync + Send), ch: &Chooser, ctx: &mut Ctx) -> Result<(), Result<String, String>> {
    match catch_unwind(AssertUnwindSafe(|| f(ch, ctx))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(Ok(e)),
        Err(p) => {
            ctx.table = None;
            ctx.table2 = None;
            ctx.obs.clear();
            ctx.spec.clear();
            Err(panic_text(p))
        }
    }
}

/// Runs one case again, alone, with a description.
pub fn run_single(spaces: &[Space], space: u64, i: u64, choices: &[u32]) -> (Result<(), Result<String, String>>, String) {
    let mut ctx = Ctx::new();
    ctx.want_desc = true;
    let r = match &spaces[space as usize].kind {
        Kind::Idx(_, f) => run_idx(&**f, i, &mut ctx),
        Kind::Dfs(f) => run_dfs(&**f, &Chooser::new(choices.to_vec()), &mut ctx),
    };
    (r, ctx.desc)
}

/// A unit of work: an index range, or the subtree below a choice prefix.
enum Task {
    Range(usize, u64, u64),
    Tree(usize, Vec<u32>),
}

/// Choice prefixes that partition the tree of a DFS space into >= `want` parts.
fn split(f: &(dyn Fn(&Chooser, &mut Ctx) -> Res + Sync + Send), want: usize) -> Vec<Vec<u32>> {
    let mut done: Vec<Vec<u32>> = vec![];
    let mut open: Vec<Vec<u32>> = vec![vec![]];
    let mut ctx = Ctx::new();
    ctx.count_outcome = false;
    while !open.is_empty() && open.len() + done.len() < want {
        let p = open.remove(0);
        let ch = Chooser::new(p.clone());
        let _ = run_dfs(f, &ch, &mut ctx);
        let t = ch.taken.borrow();
        if t.len() <= p.len() {
            done.push(p);
            continue;
        }
        for c in 0..t[p.len()].1 {
            let mut q = p.clone();
            q.push(c);
            open.push(q);
        }
    }
    done.extend(open);
    done.sort();
    done
}

pub fn explore(spaces: &[Space], threads: usize, progress: *mut u8, hang: Duration) -> Report {
    let mut tasks: Vec<Task> = vec![];
    for (si, s) in spaces.iter().enumerate() {
        match &s.kind {
            Kind::Idx(n, _) => {
                let step = (n / 256).clamp(256, 1 << 22);
                let mut a = 0;
                while a < *n {
                    let b = (a + step).min(*n);
                    tasks.push(Task::Range(si, a, b));
                    a = b;
                }
            }
            Kind::Dfs(f) => {
                for p in split(&**f, 192) {
                    tasks.push(Task::Tree(si, p));
                }
            }
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let per_space: Vec<(AtomicU64, AtomicU64)> = spaces.iter().map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let best: Mutex<Option<Violation>> = Mutex::new(None);
    let error: Mutex<Option<String>> = Mutex::new(None);
    let merged: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let finished = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let (next, stop, per_space, best, error, merged, samples, tasks) = (&next, &stop, &per_space, &best, &error, &merged, &samples, &tasks);
            let my = slot(progress, t) as usize;
            hs.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let my = my as *mut Slot;
                        let mut ctx = Ctx::new();
                        let report = |si: usize, idx: u64, choices: Vec<u32>, e: Result<String, String>| {
                            stop.store(true, Ordering::Relaxed);
                            match e {
                                Err(m) => {
                                    *error.lock().unwrap() = Some(format!("{}: {m}", spaces[si].name));
                                }
                                Ok(first) => {
                                    // Replay it twice: the same case must fail the same way.
                                    let (r1, desc) = run_single(spaces, si as u64, idx, &choices);
                                    let (r2, _) = run_single(spaces, si as u64, idx, &choices);
                                    match (&r1, &r2) {
                                        (Err(Ok(a)), Err(Ok(b))) if *a == first && *b == first => {
                                            let mut g = best.lock().unwrap();
                                            let v = Violation { space: spaces[si].name.clone(), space_no: si as u64, idx, choices, error: first, desc };
                                            let better = g.as_ref().map_or(true, |o| (v.space_no, v.choices.len(), v.idx) < (o.space_no, o.choices.len(), o.idx));
                                            if better {
                                                *g = Some(v);
                                            }
                                        }
                                        _ => {
                                            // The library answered differently the second time: its
                                            // answers are not a function of the CPU's answers.
                                            let mut g = best.lock().unwrap();
                                            if g.is_none() {
                                                *g = Some(Violation {
                                                    space: spaces[si].name.clone(),
                                                    space_no: si as u64,
                                                    idx,
                                                    choices,
                                                    error: format!("{first} (and a repetition of the same case ended differently: {:?} / {:?})", r1, r2),
                                                    desc,
                                                });
                                            }
                                        }
                                    }
                                }
                            }
                        };
                        'outer: while !stop.load(Ordering::Relaxed) {
                            let ti = next.fetch_add(1, Ordering::Relaxed);
                            if ti >= tasks.len() {
                                break;
                            }
                            match &tasks[ti] {
                                Task::Range(si, a, b) => {
                                    let Kind::Idx(_, f) = &spaces[*si].kind else { unreachable!() };
                                    unsafe {
                                        (*my).space = *si as u64;
                                        (*my).nch = 0;
                                    }
                                    ctx.table = None;
                                    ctx.table2 = None;
                                    for i in *a..*b {
                                        unsafe {
                                            std::ptr::write_volatile(&mut (*my).idx, i);
                                            std::ptr::write_volatile(&mut (*my).active, 1);
                                            std::ptr::write_volatile(&mut (*my).seq, (*my).seq + 1);
                                        }
                                        ctx.count_outcome = i & 7 == 0;
                                        if let Err(e) = run_idx(&**f, i, &mut ctx) {
                                            report(*si, i, vec![], e);
                                            break 'outer;
                                        }
                                        if i & 0xfff == 0 && stop.load(Ordering::Relaxed) {
                                            break 'outer;
                                        }
                                    }
                                    per_space[*si].0.fetch_add(b - a, Ordering::Relaxed);
                                    per_space[*si].1.fetch_add(b - a, Ordering::Relaxed);
                                    if *a == 0 {
                                        let (_, d) = run_single(spaces, *si as u64, (b - 1) / 3 * 2, &[]);
                                        samples.lock().unwrap().push((*si, d));
                                    }
                                }
                                Task::Tree(si, prefix) => {
                                    let Kind::Dfs(f) = &spaces[*si].kind else { unreachable!() };
                                    unsafe {
                                        (*my).space = *si as u64;
                                        (*my).idx = 0;
                                    }
                                    ctx.table = None;
                                    ctx.table2 = None;
                                    ctx.count_outcome = true;
                                    let mut cur = prefix.clone();
                                    let mut sampled = false;
                                    // Choice-tree nodes on the way to this part belong to the
                                    // part with the all-zero continuation; count below only.
                                    let mut shared = prefix.len();
                                    loop {
                                        let ch = Chooser::new(cur.clone());
                                        ch.slot.set(my as *mut u8);
                                        unsafe {
                                            std::ptr::write_volatile(&mut (*my).nch, 0);
                                            std::ptr::write_volatile(&mut (*my).active, 1);
                                            std::ptr::write_volatile(&mut (*my).seq, (*my).seq + 1);
                                        }
                                        let r = run_dfs(&**f, &ch, &mut ctx);
                                        let t = ch.taken.borrow().clone();
                                        let choices: Vec<u32> = t.iter().map(|x| x.0).collect();
                                        if let Err(e) = r {
                                            report(*si, 0, choices, e);
                                            break 'outer;
                                        }
                                        if !sampled {
                                            sampled = true;
                                            if samples.lock().unwrap().iter().filter(|s| s.0 == *si).count() < 2 {
                                                let (_, d) = run_single(spaces, *si as u64, 0, &choices);
                                                samples.lock().unwrap().push((*si, format!("choices {choices:?}: {d}")));
                                            }
                                        }
                                        per_space[*si].0.fetch_add((t.len() - shared.min(t.len())) as u64 + 1, Ordering::Relaxed);
                                        per_space[*si].1.fetch_add(1, Ordering::Relaxed);
                                        if stop.load(Ordering::Relaxed) {
                                            break 'outer;
                                        }
                                        let mut k = t.len();
                                        while k > prefix.len() && t[k - 1].0 + 1 >= t[k - 1].1 {
                                            k -= 1;
                                        }
                                        if k <= prefix.len() {
                                            break;
                                        }
                                        cur = choices[..k].to_vec();
                                        cur[k - 1] += 1;
                                        shared = k - 1;
                                    }
                                }
                            }
                        }
                        unsafe { std::ptr::write_volatile(&mut (*my).active, 0) };
                        merged.lock().unwrap().push(ctx);
                    })
                    .unwrap(),
            );
        }
        let finished = &finished;
        let base = progress as usize;
        let watch = sc.spawn(move || {
            let progress = base as *mut u8;
            // Time is counted in looks at the workers, not read from the clock: a
            // sandbox that was suspended or starved must not look like a hang.
            let mut last = vec![(0u64, 0u64); threads];
            let limit = (hang.as_millis() / 20) as u64;
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                for t in 0..threads {
                    let s = unsafe { &*slot(progress, t) };
                    let seq = unsafe { std::ptr::read_volatile(&s.seq) };
                    let act = unsafe { std::ptr::read_volatile(&s.active) };
                    if act == 0 || seq != last[t].0 {
                        last[t] = (seq, 0);
                    } else if { last[t].1 += 1; last[t].1 } > limit {
                        // Only the hung case stays marked for the supervisor.
                        for u in 0..threads {
                            if u != t {
                                unsafe { (*slot(progress, u)).active = 0 };
                            }
                        }
                        unsafe { _exit(EXIT_HANG) };
                    }
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        finished.store(true, Ordering::Relaxed);
        watch.join().unwrap();
    });
    let mut rep = Report {
        states: 0,
        executions: 0,
        transitions: 0,
        traces: 0,
        surprises: 0,
        varied: 0,
        outcomes: 0,
        outcomes_capped: false,
        known: vec![],
        violation: best.into_inner().unwrap(),
        spaces: vec![],
        samples: vec![],
        error: error.into_inner().unwrap(),
    };
    let mut all: HashSet<u64> = HashSet::new();
    for c in merged.into_inner().unwrap() {
        rep.transitions += c.transitions;
        rep.traces += c.traces;
        rep.surprises += c.surprises;
        rep.varied += c.varied;
        rep.outcomes_capped |= c.outcomes.len() >= OUTCOME_CAP;
        all.extend(c.outcomes);
        for k in c.known {
            if !rep.known.iter().any(|x| x.0 == k.0) {
                rep.known.push(k);
            }
        }
    }
    rep.known.sort();
    rep.outcomes = all.len() as u64;
    for (s, p) in spaces.iter().zip(&per_space) {
        let (a, b) = (p.0.load(Ordering::Relaxed), p.1.load(Ordering::Relaxed));
        rep.states += a;
        rep.executions += b;
        rep.spaces.push((s.name.clone(), a, b));
    }
    let mut sm = samples.into_inner().unwrap();
    sm.sort();
    rep.samples = sm.into_iter().map(|(i, d)| format!("[{}] {}", spaces[i].name, d)).collect();
    rep
}
