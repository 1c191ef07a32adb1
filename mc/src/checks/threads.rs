//! C28: handles used by several threads, and from within a reader.
//!
//! Operations run on real operating-system threads, one at a time: a thread
//! hands over at every execution of CPUID, and the explorer decides who goes on.
use super::purity::*;
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::out::*;
use raw_cpuid::*;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::thread::Thread;

const THREADS: usize = 3;
const CTL: usize = usize::MAX;

type Job = Box<dyn FnOnce() + Send>;

struct Team {
    /// Who may run: a worker, or CTL.
    turn: AtomicUsize,
    ctl: Mutex<Option<Thread>>,
    jobs: [Mutex<Option<Job>>; THREADS],
    done: [AtomicUsize; THREADS],
}

thread_local! {
    static ME: RefCell<Option<(usize, Arc<Team>)>> = const { RefCell::new(None) };
    static TEAM: RefCell<Option<(Arc<Team>, Vec<Thread>)>> = const { RefCell::new(None) };
}

impl Team {
    fn wait(&self, me: usize) {
        let mut spin = 0;
        while self.turn.load(SeqCst) != me {
            spin += 1;
            if spin < 200 {
                std::hint::spin_loop();
            } else {
                std::thread::park();
            }
        }
    }
    fn to_ctl(&self) {
        self.turn.store(CTL, SeqCst);
        self.ctl.lock().unwrap().as_ref().unwrap().unpark();
    }
}

/// Called by the simulated CPU before every answer.
fn hand_over() {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((i, t)) = me {
        t.to_ctl();
        t.wait(i);
    }
}

fn team() -> (Arc<Team>, Vec<Thread>) {
    TEAM.with(|t| {
        t.borrow_mut()
            .get_or_insert_with(|| {
                let team = Arc::new(Team {
                    turn: AtomicUsize::new(CTL),
                    ctl: Mutex::new(Some(std::thread::current())),
                    jobs: std::array::from_fn(|_| Mutex::new(None)),
                    done: std::array::from_fn(|_| AtomicUsize::new(0)),
                });
                let th = (0..THREADS)
                    .map(|i| {
                        let team = team.clone();
                        std::thread::Builder::new()
                            .stack_size(4 << 20)
                            .spawn(move || {
                                ME.with(|m| *m.borrow_mut() = Some((i, team.clone())));
                                loop {
                                    team.wait(i);
                                    let j = team.jobs[i].lock().unwrap().take();
                                    if let Some(j) = j {
                                        j();
                                    }
                                    team.done[i].store(1, SeqCst);
                                    team.to_ctl();
                                }
                            })
                            .expect("thread")
                            .thread()
                            .clone()
                    })
                    .collect();
                (team, th)
            })
            .clone()
    })
}

/// Runs the jobs under the schedule the explorer chooses, with at most `bound`
/// preemptions; returns the schedule.
fn schedule(ch: &Chooser, jobs: Vec<Job>, bound: usize) -> Vec<u8> {
    let (team, th) = team();
    let n = jobs.len();
    for (i, j) in jobs.into_iter().enumerate() {
        *team.jobs[i].lock().unwrap() = Some(j);
        team.done[i].store(0, SeqCst);
    }
    let mut last: Option<usize> = None;
    let mut used = 0;
    let mut log = vec![];
    loop {
        let ready: Vec<usize> = (0..n).filter(|&i| team.done[i].load(SeqCst) == 0).collect();
        if ready.is_empty() {
            return log;
        }
        let next = match last {
            Some(l) if ready.contains(&l) => {
                if used >= bound || ready.len() == 1 {
                    l
                } else {
                    // 0 goes on with the same thread.
                    let k = ch.choose(ready.len());
                    if k == 0 {
                        l
                    } else {
                        used += 1;
                        *ready.iter().filter(|&&x| x != l).nth(k - 1).unwrap()
                    }
                }
            }
            _ => ready[ch.choose(ready.len())],
        };
        log.push(next as u8);
        last = Some(next);
        team.turn.store(next, SeqCst);
        th[next].unpark();
        team.wait(CTL);
    }
}

/// A CPU that hands over before every answer.
struct Slow<'a>(&'a Table);
impl Src for Slow<'_> {
    fn get(&self, l: u32, s: u32) -> R4 {
        self.0.get(l, s)
    }
    fn tick(&self) {
        hand_over();
        self.0.tick()
    }
}

/// A CPU during whose `at`th answer something else happens, once.
struct Nest<'a> {
    inner: &'a Table,
    count: Cell<u64>,
    at: u64,
    what: &'a dyn Fn(),
}
impl Src for Nest<'_> {
    fn get(&self, l: u32, s: u32) -> R4 {
        self.inner.get(l, s)
    }
    fn tick(&self) {
        let n = self.count.get();
        self.count.set(n + 1);
        if n == self.at {
            (self.what)()
        }
        self.inner.tick()
    }
}

struct Raw<T>(*const T);
unsafe impl<T> Send for Raw<T> {}
impl<T> Raw<T> {
    fn get<'a>(&self) -> &'a T {
        unsafe { &*self.0 }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// Both threads use one handle.
    Shared,
    /// Each thread creates its own handle over the same CPU.
    Own,
    /// Each thread creates its own handle, each over another CPU.
    Other,
}
const MODES: [Mode; 3] = [Mode::Shared, Mode::Own, Mode::Other];

fn mode_name(m: Mode) -> &'static str {
    match m {
        Mode::Shared => "one handle",
        Mode::Own => "own handles over one CPU",
        Mode::Other => "own handles over two CPUs",
    }
}

type Base = Arc<Vec<Vec<u64>>>;

/// CPUs with short enumerations, so that schedules stay short.
const E: [usize; 4] = [6, 3, 5, 4];

/// One execution of `alpha` picks on `n` threads.
fn run_threads(ch: &Chooser, ctx: &mut Ctx, alpha: &[usize], n: usize, bound: usize, base: &Base) -> Res {
    let mode = MODES[ch.choose(3)];
    let picks: Vec<usize> = (0..n).map(|_| alpha[ch.choose(alpha.len())]).collect();
    if ctx.table.is_none() {
        ctx.table = Some((0, env(E[0])));
        ctx.table2 = Some((0, env(E[1])));
    }
    let (ta, tb) = (&ctx.table.as_ref().unwrap().1, &ctx.table2.as_ref().unwrap().1);
    ta.reset_budget();
    tb.reset_budget();
    let (sa, sb) = (Slow(ta), Slow(tb));
    let shared = cpu(&sa);
    let res: [AtomicU64; THREADS] = std::array::from_fn(|_| AtomicU64::new(0));
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let mut jobs: Vec<Job> = vec![];
    for i in 0..n {
        let op = picks[i];
        let (h, r, b) = (Raw(&shared), Raw(&res[i]), Raw(&bad));
        let src = Raw(if mode == Mode::Other && i % 2 == 1 { &sb } else { &sa });
        let job = move || {
            let mut o = Out::default();
            let d = catch_unwind(AssertUnwindSafe(|| {
                if mode == Mode::Shared {
                    run_op(h.get(), op, &mut o)
                } else {
                    run_op(&cpu(src.get()), op, &mut o)
                }
            }));
            match d {
                Ok(d) => r.get().store(d, SeqCst),
                Err(_) => *b.get().lock().unwrap() = Some(format!("{} panics", op_name(op))),
            }
        };
        // The jobs end before this function does.
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(job);
        jobs.push(unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Job>(job) });
    }
    let log = schedule(ch, jobs, bound);
    ctx.transitions += n as u64;
    ctx.traces += 1;
    ctx.outcome(log.iter().fold(picks.iter().fold(mode as u64, |a, &p| mix(a, p as u64)), |a, &x| mix(a, x as u64)));
    let what = || format!("{}, {}; order {}", mode_name(mode), picks.iter().enumerate().map(|(i, &p)| format!("thread {i}: {}", op_name(p))).collect::<Vec<_>>().join(", "), log.iter().map(|x| x.to_string()).collect::<String>());
    if ctx.want_desc {
        let w = what();
        ctx.describe(|| w);
    }
    if let Some(m) = bad.lock().unwrap().take() {
        return Err(m);
    }
    for i in 0..n {
        let e = if mode == Mode::Other && i % 2 == 1 { E[1] } else { E[0] };
        if res[i].load(SeqCst) != base[e][picks[i]] {
            return Err(format!("{} on thread {i} answers differently than alone", op_name(picks[i])));
        }
    }
    Ok(())
}

// ------------------------------------------------------------ Send and Sync

struct P<T>(PhantomData<T>);
trait IsSend {
    fn send(&self) -> bool;
}
impl<T: Send> IsSend for P<T> {
    fn send(&self) -> bool {
        true
    }
}
trait NotSend {
    fn send(&self) -> bool;
}
impl<T> NotSend for &P<T> {
    fn send(&self) -> bool {
        false
    }
}
trait IsSync {
    fn sync(&self) -> bool;
}
impl<T: Sync> IsSync for P<T> {
    fn sync(&self) -> bool {
        true
    }
}
trait NotSync {
    fn sync(&self) -> bool;
}
impl<T> NotSync for &P<T> {
    fn sync(&self) -> bool {
        false
    }
}
macro_rules! probe { ($($t:ty),* $(,)?) => { vec![$((stringify!($t), (&P::<$t>(PhantomData)).send(), (&P::<$t>(PhantomData)).sync())),*] } }

fn probes() -> Vec<(&'static str, bool, bool)> {
    type N = CpuIdReaderNative;
    probe![
        CpuId<N>, VendorInfo, FeatureInfo, CacheInfoIter, CacheInfo, ProcessorSerial, CacheParametersIter<N>, CacheParameter, MonitorMwaitInfo,
        ThermalPowerInfo, ExtendedFeatures, DirectCacheAccessInfo, PerformanceMonitoringInfo, ExtendedTopologyIter<N>, ExtendedTopologyLevel,
        ExtendedStateInfo<N>, ExtendedStateIter<N>, ExtendedState, RdtMonitoringInfo<N>, L3MonitoringInfo, RdtAllocationInfo<N>, L3CatInfo,
        L2CatInfo, MemBwAllocationInfo, SgxInfo<N>, SgxSectionIter<N>, SgxSectionInfo, EpcSection, ProcessorTraceInfo, TscInfo,
        ProcessorFrequencyInfo, SoCVendorInfo<N>, SoCVendorBrand, SoCVendorAttributesIter<N>, DatIter<N>, DatInfo, HypervisorInfo<N>, Hypervisor,
        ExtendedProcessorFeatureIdentifiers, ProcessorBrandString, L1CacheTlbInfo, L2And3CacheTlbInfo, ApmInfo, ProcessorCapacityAndFeatureInfo,
        SvmFeatures, Tlb1gbPageInfo, PerformanceOptimizationInfo, InstructionBasedSamplingCapabilities, ProcessorTopologyInfo,
        MemoryEncryptionInfo, PqosExtendedFeatureInfo<N>, ExtendedFeatureIdentification2, ExtendedPerformanceMonitoringDebug,
        MultiKeyEncryptedMemoryCapabilities, ExtendedCpuTopologyIter<N>, ExtendedCpuTopologyLevel, CpuIdResult,
    ]
}

/// Writable static memory of the library, as the checker's own symbol table
/// lists it. Without any, what happens between two executions of CPUID cannot
/// be observed by other threads.
fn statics() -> Option<Vec<String>> {
    let o = std::process::Command::new("nm").arg("-C").arg(std::env::current_exe().ok()?).output().ok()?;
    if !o.status.success() {
        return None;
    }
    let v = String::from_utf8_lossy(&o.stdout)
        .lines()
        .filter_map(|l| {
            let mut w = l.splitn(3, ' ');
            let (_, kind, name) = (w.next()?, w.next()?, w.next()?);
            (matches!(kind, "b" | "B" | "d" | "D") && name.contains("raw_cpuid")).then(|| name.to_string())
        })
        .collect();
    Some(v)
}

/// One operation with another one after every instruction of it.
fn interrupted_op(a: usize, b: usize, mode: Mode, every: u64, rest: u64, base: &Base, ctx: &mut Ctx) -> Res {
    if ctx.table.is_none() {
        ctx.table = Some((0, env(E[0])));
        ctx.table2 = Some((0, env(E[1])));
    }
    let (ta, tb) = (&ctx.table.as_ref().unwrap().1, &ctx.table2.as_ref().unwrap().1);
    ta.budget.set(1 << 40);
    tb.budget.set(1 << 40);
    let shared = cpu(ta);
    let (mut o, wrong, runs) = (Out::default(), Cell::new(0u64), Cell::new(0u64));
    o.e.reserve(4096);
    let o2 = RefCell::new(Out::default());
    o2.borrow_mut().e.reserve(4096);
    let expect = base[if mode == Mode::Other { E[1] } else { E[0] }][b];
    let during = || {
        let mut o = o2.borrow_mut();
        let r = catch_unwind(AssertUnwindSafe(|| match mode {
            Mode::Shared => run_op(&shared, b, &mut o),
            Mode::Own => run_op(&cpu(ta), b, &mut o),
            Mode::Other => run_op(&cpu(tb), b, &mut o),
        }));
        runs.set(runs.get() + 1);
        if r.ok() != Some(expect) && wrong.get() == 0 {
            wrong.set(runs.get());
        }
    };
    let mut got = 0;
    let n = crate::step::interrupted(
        &mut || got = if mode == Mode::Shared { run_op(&shared, a, &mut o) } else { run_op(&cpu(ta), a, &mut o) },
        every,
        rest,
        &during,
    );
    ctx.transitions += runs.get() + 1;
    ctx.traces += 1;
    ctx.outcome(mix(mix(a as u64, b as u64), n));
    if wrong.get() != 0 {
        return Err(format!("{} answers differently as interruption {} of {}", op_name(b), wrong.get(), op_name(a)));
    }
    if got != base[E[0]][a] {
        return Err(format!("{} answers differently when interrupted {} times by {}", op_name(a), runs.get(), op_name(b)));
    }
    Ok(())
}

pub fn c28(t: bool) -> Vec<Space> {
    let base: Base = baselines(ENVS);
    let mut v = vec![];
    let np = probes().len() as u64;
    v.push(idx(format!("{np} public types: can be sent to and shared with other threads"), np, |i, ctx| {
        let (n, a, b) = probes()[i as usize];
        ctx.describe(|| n.to_string());
        ctx.transitions += 2;
        ctx.traces += 1;
        if !a {
            return Err(format!("{n} cannot be sent to another thread"));
        }
        if !b {
            return Err(format!("{n} cannot be shared between threads"));
        }
        Ok(())
    }));
    // Nested use: during the k-th answer of one operation another one runs.
    let n = ops() as u64;
    let deep = if t { 60 } else { 24 };
    let envs: u64 = if t { 4 } else { 2 };
    let own = base.clone();
    v.push(idx(format!("every one of {n} operations, run from within the reader during each of the first {deep} answers of every other; one handle, own handles, two CPUs; {envs} CPUs"), n * n * deep * 3 * envs, move |i, ctx| {
        let mut k = i;
        let mut take = |n: u64| {
            let r = k % n;
            k /= n;
            r
        };
        let (at, mode, a, b, e) = (take(deep), MODES[take(3) as usize], take(n) as usize, take(n) as usize, take(envs));
        let (ea, eb) = (E[e as usize], E[(e as usize + 1) % 4]);
        if ctx.table.as_ref().map_or(true, |x| x.0 != e) {
            ctx.table = Some((e, env(ea)));
            ctx.table2 = Some((e, env(eb)));
        }
        let (ta, tb) = (&ctx.table.as_ref().unwrap().1, &ctx.table2.as_ref().unwrap().1);
        ta.reset_budget();
        tb.reset_budget();
        if ctx.want_desc {
            let d = format!("{} during answer {at} of {}, {}", op_name(b), op_name(a), mode_name(mode));
            ctx.desc = d;
        }
        let outer: Cell<Option<Cpu>> = Cell::new(None);
        let inner: Cell<Option<u64>> = Cell::new(None);
        let what = || {
            let mut o = Out::default();
            let d = match mode {
                Mode::Shared => match outer.get() {
                    Some(c) => run_op(&c, b, &mut o),
                    None => own[ea][b],
                },
                Mode::Own => run_op(&cpu(ta), b, &mut o),
                Mode::Other => run_op(&cpu(tb), b, &mut o),
            };
            inner.set(Some(d));
        };
        // Creating the handle counts as part of the operation, except for a shared one,
        // which exists before anything is nested into it.
        let s = Nest { inner: ta, count: Cell::new(if mode == Mode::Shared { u64::MAX / 2 } else { 0 }), at, what: &what };
        let c = cpu(&s);
        if mode == Mode::Shared {
            outer.set(Some(c));
            s.count.set(0);
        }
        let d = run_op(&c, a, &mut ctx.obs);
        ctx.traces += 1;
        ctx.transitions += 1;
        if d != own[ea][a] {
            return Err(format!("{} answers differently when {} runs during its answer {at}", op_name(a), op_name(b)));
        }
        if let Some(x) = inner.get() {
            ctx.transitions += 1;
            if x != own[if mode == Mode::Other { eb } else { ea }][b] {
                return Err(format!("{} answers differently when run during answer {at} of {}", op_name(b), op_name(a)));
            }
            ctx.outcome(mix(mix(a as u64, b as u64), at));
        }
        Ok(())
    }));
    // Interruptions between any two instructions.
    let st = statics();
    let shared_state = st.as_ref().map_or(false, |s| !s.is_empty());
    let said = match &st {
        None => "whether it has writable static memory is not known".to_string(),
        Some(s) if s.is_empty() => "it has no writable static memory".to_string(),
        Some(s) => format!("it has writable static memory: {}", s.join(", ")),
    };
    let ng = GROUPS.len();
    let inter: Vec<usize> = if t || shared_state { (0..ng).chain(2 * ng + 1..ops()).collect() } else { (0..ng).collect() };
    let ni = inter.len() as u64;
    let rests: u64 = if shared_state || t { 8 } else { 1 };
    let b2 = base.clone();
    v.push(idx(format!("each of {ni} operations interrupted by each after every instruction{} ({said}); one handle, own handles, two CPUs", if rests > 1 { ", and after every 7th from each of 7 starts" } else { "" }), ni * ni * 3 * rests, move |i, ctx| {
        let (r, mode, a, b) = (i % rests, MODES[(i / rests % 3) as usize], inter[(i / rests / 3 % ni) as usize], inter[(i / rests / 3 / ni) as usize]);
        if ctx.want_desc {
            ctx.desc = format!("{} interrupted by {}, {}", op_name(a), op_name(b), mode_name(mode));
        }
        let (every, rest) = if r == 0 { (1, 0) } else { (7, r - 1) };
        interrupted_op(a, b, mode, every, rest, &b2, ctx)
    }));
    // Operations of few steps: the first items, and the leaves without structure.
    let all: Vec<usize> = (0..ng).chain(2 * ng + 1..ops()).collect();
    let short: Vec<usize> = {
        let tb = env(E[0]);
        let cost = |op: usize| {
            let n = Cell::new(0u64);
            struct Count<'a>(&'a Table, &'a Cell<u64>);
            impl Src for Count<'_> {
                fn get(&self, l: u32, s: u32) -> R4 {
                    self.0.get(l, s)
                }
                fn tick(&self) {
                    self.1.set(self.1.get() + 1);
                }
            }
            let s = Count(&tb, &n);
            let c = cpu(&s);
            n.set(0);
            let _ = catch_unwind(AssertUnwindSafe(|| run_op(&c, op, &mut Out::default())));
            n.get()
        };
        all.iter().copied().filter(|&o| (2..=5).contains(&cost(o))).collect()
    };
    let mut add = |name: &str, alpha: &[usize], n: usize, bound: usize| {
        let (alpha, base) = (alpha.to_vec(), base.clone());
        let b = if bound == usize::MAX { "every interleaving".to_string() } else { format!("every interleaving with <={bound} preemptions") };
        v.push(dfs(format!("{n} threads, each one of {} {name}, {b} of their CPUID executions; one handle, own handles, two CPUs", alpha.len()), move |ch, ctx| run_threads(ch, ctx, &alpha, n, bound, &base)));
    };
    if t {
        add("operations", &all, 2, 3);
        add("short operations", &short, 2, usize::MAX);
        add("short operations", &short, 3, 2);
    } else {
        add("operations", &all, 2, 2);
        add("short operations", &short, 2, usize::MAX);
        add("short operations", &short[..short.len().min(8)], 3, 1);
    }
    v
}
