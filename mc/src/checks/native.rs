//! C27: native access, constructors and kinds of readers.
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::rich::*;
use crate::spaces::*;
use raw_cpuid::*;
#[cfg(target_arch = "x86")]
use std::arch::x86::__cpuid_count;
#[cfg(target_arch = "x86_64")]
use std::arch::x86_64::__cpuid_count;
use std::cell::Cell;

extern "C" {
    fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
}

pub fn cpus() -> Vec<usize> {
    let mut m = [0u64; 64];
    let n = unsafe { sched_getaffinity(0, 512, m.as_mut_ptr()) };
    if n < 0 {
        return vec![usize::MAX];
    }
    (0..4096).filter(|&c| m[c / 64] >> (c % 64) & 1 == 1).collect()
}

thread_local! { static AT: Cell<usize> = const { Cell::new(usize::MAX) }; }

/// CPUID differs between processors (APIC ids), so every case runs on one.
pub fn pin(c: usize) {
    AT.with(|a| {
        if c != usize::MAX && a.get() != c {
            let mut m = [0u64; 64];
            m[c / 64] |= 1 << (c % 64);
            let r = unsafe { sched_setaffinity(0, 512, m.as_ptr()) };
            assert!(r == 0, "cannot pin the thread");
            a.set(c);
        }
    })
}

fn exec(l: u32, s: u32) -> R4 {
    #[allow(unused_unsafe)]
    let r = unsafe { __cpuid_count(l, s) };
    r4(r.eax, r.ebx, r.ecx, r.edx)
}
fn conv(r: CpuIdResult) -> R4 {
    r4(r.eax, r.ebx, r.ecx, r.edx)
}

fn same(what: &str, l: u32, s: u32, f: impl Fn() -> R4) -> Res {
    // A value that changes by itself (a hypervisor may do that) is read again.
    let mut last = Ok(());
    for _ in 0..20 {
        let (a, got, b) = (exec(l, s), f(), exec(l, s));
        if a == b && got == a {
            return Ok(());
        }
        if a == b {
            last = Err(format!("{what} for leaf {l:#x} sub-leaf {s:#x}: {got:?}, executing CPUID gives {a:?}"));
        }
    }
    last
}

fn check_native(l: u32, s: u32, ctx: &mut Ctx) -> Res {
    same("native_cpuid::cpuid_count", l, s, || conv(native_cpuid::cpuid_count(l, s)))?;
    same("CpuIdReaderNative.cpuid2", l, s, || conv(CpuIdReaderNative.cpuid2(l, s)))?;
    same("CpuIdReaderNative.cpuid1", l, 0, || conv(CpuIdReaderNative.cpuid1(l)))?;
    same("cpuid!(leaf, sub-leaf)", l, s, || conv(cpuid!(l, s)))?;
    same("cpuid!(leaf)", l, 0, || conv(cpuid!(l)))?;
    same("cpuid!(u64, usize)", l, s, || conv(cpuid!(l as u64, s as usize)))?;
    same("cpuid!(i32, i64)", l, s, || conv(cpuid!(l as i32, s as i64)))?;
    same("cpuid!(u64)", l, 0, || conv(cpuid!(l as u64)))?;
    same("cpuid!(sum, sum)", l, s, || conv(cpuid!((l - l / 2) + l / 2, (s - s / 2) + s / 2)))?;
    // The macro behaves like a function call: each argument is evaluated once.
    let n = Cell::new((0, 0));
    let arg = |x: u32, k: bool| {
        let (a, b) = n.get();
        n.set(if k { (a, b + 1) } else { (a + 1, b) });
        x
    };
    same("cpuid!(call, call)", l, s, || {
        n.set((0, 0));
        conv(cpuid!(arg(l, false), arg(s, true)))
    })?;
    if n.get() != (1, 1) {
        return Err(format!("cpuid!(leaf, sub-leaf) evaluates its arguments {:?} times for leaf {l:#x} sub-leaf {s:#x}", n.get()));
    }
    same("cpuid!(call)", l, 0, || {
        n.set((0, 0));
        conv(cpuid!(arg(l, false)))
    })?;
    if n.get() != (1, 0) {
        return Err(format!("cpuid!(leaf) evaluates its argument {} times for leaf {l:#x}", n.get().0));
    }
    ctx.transitions += 13;
    ctx.traces += 1;
    let r = exec(l, s);
    ctx.outcome(crate::out::mix(crate::out::mix(r.a as u64, r.b as u64), crate::out::mix(r.c as u64, r.d as u64)));
    Ok(())
}

/// Renderings of every query of a handle.
macro_rules! texts {
    ($c:expr) => {{
        let c = $c;
        let mut v: Vec<(&'static str, String)> = vec![("the handle", format!("{:?}", c))];
        texts!(@ v c get_vendor_info get_feature_info get_cache_info get_processor_serial get_cache_parameters
            get_monitor_mwait_info get_thermal_power_info get_extended_feature_info get_direct_cache_access_info
            get_performance_monitoring_info get_extended_topology_info get_extended_topology_info_v2 get_extended_state_info
            get_rdt_monitoring_info get_rdt_allocation_info get_sgx_info get_processor_trace_info get_tsc_info
            get_processor_frequency_info get_soc_vendor_info get_deterministic_address_translation_info get_hypervisor_info
            get_extended_processor_and_feature_identifiers get_processor_brand_string get_l1_cache_and_tlb_info
            get_l2_l3_cache_and_tlb_info get_advanced_power_mgmt_info get_processor_capacity_feature_info get_svm_info
            get_tlb_1gb_page_info get_performance_optimization_info get_instruction_based_sampling_capabilities
            get_processor_topology_info get_memory_encryption_info get_pqos_extended_feature_info
            get_extended_feature_identification_2 get_extended_performance_monitoring_and_debug
            get_multi_key_encrypted_memory_capabilities get_extended_cpu_topology);
        v
    }};
    (@ $v:ident $c:ident $($n:ident)*) => { $( $v.push((stringify!($n), match $c.$n() { None => "unavailable".to_string(), Some(x) => (&W(&x)).render() })); )* };
}

type Texts = Vec<(&'static str, String)>;

fn equal(what: &str, a: &Texts, b: &Texts) -> Res {
    for (x, y) in a.iter().zip(b) {
        if x.1 != y.1 {
            let i = x.1.bytes().zip(y.1.bytes()).position(|(p, q)| p != q).unwrap_or(x.1.len().min(y.1.len()));
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(30)..(i + 30).min(s.len())]).into_owned();
            return Err(format!("{what}: {}: {:?} instead of {:?}", x.0, cut(&y.1), cut(&x.1)));
        }
    }
    Ok(())
}

pub struct Executing;
impl Src for Executing {
    fn get(&self, l: u32, s: u32) -> R4 {
        exec(l, s)
    }
    fn tick(&self) {}
}

fn check_constructors(ctx: &mut Ctx) -> Res {
    let mut last = Ok(());
    for _ in 0..20 {
        let e = Executing;
        let a = texts!(cpu(&e));
        let n = texts!(CpuId::new());
        let d = texts!(CpuId::default());
        let r = texts!(CpuId::with_cpuid_reader(CpuIdReaderNative));
        let f = texts!(CpuId::with_cpuid_fn(native_cpuid::cpuid_count));
        let b = texts!(cpu(&e));
        if equal("", &a, &b).is_err() {
            continue;
        }
        ctx.transitions += 4 * a.len() as u64;
        ctx.traces += 1;
        last = equal("CpuId::new()", &a, &n).and_then(|_| equal("CpuId::default()", &a, &d)).and_then(|_| equal("a handle over CpuIdReaderNative", &a, &r)).and_then(|_| equal("a handle over cpuid_count", &a, &f));
        break;
    }
    last
}

thread_local! { static CUR: Cell<*const Table> = const { Cell::new(std::ptr::null()) }; }
fn reader_fn(l: u32, s: u32) -> CpuIdResult {
    let t = unsafe { &*CUR.with(|c| c.get()) };
    let r = t.get(l, s);
    CpuIdResult { eax: r.a, ebx: r.b, ecx: r.c, edx: r.d }
}

fn check_readers(t: &Table, ctx: &mut Ctx) -> Res {
    t.reset_budget();
    let a = texts!(cpu(t));
    let s = texts!(Cpu::with_cpuid_fn(Rd::new(t)));
    CUR.with(|c| c.set(t));
    let f = texts!(CpuId::with_cpuid_reader(reader_fn));
    let g = texts!(CpuId::with_cpuid_fn(reader_fn as fn(u32, u32) -> CpuIdResult));
    let cl = texts!(CpuId::with_cpuid_reader(|l: u32, s: u32| {
        let r = t.get(l, s);
        CpuIdResult { eax: r.a, ebx: r.b, ecx: r.c, edx: r.d }
    }));
    equal("with_cpuid_fn of a reader", &a, &s)?;
    equal("a function as reader", &a, &f)?;
    equal("a function pointer as reader", &a, &g)?;
    equal("a closure as reader", &a, &cl)?;
    for (l, s) in [(0, 0), (4, 1), (0xB, 1), (0xD, 2), (7, 1), (0x8000_001D, 3)] {
        let w = t.get(l, s);
        let w0 = t.get(l, 0);
        if conv(CpuIdReader::cpuid2(&reader_fn, l, s)) != w || conv(CpuIdReader::cpuid1(&reader_fn, l)) != w0 || conv(Rd::new(t).cpuid1(l)) != w0 {
            return Err(format!("a reader function asked for leaf {l:#x} sub-leaf {s} answers something else"));
        }
    }
    ctx.transitions += 4 * a.len() as u64 + 18;
    ctx.traces += 1;
    ctx.outcome(a.iter().fold(1, |h, x| x.1.bytes().fold(h, |h, b| crate::out::mix(h, b as u64))));
    Ok(())
}

pub fn c27(thorough: bool) -> Vec<Space> {
    let mut v = vec![];
    let all = cpus();
    let cs: Vec<usize> = if thorough { all.clone() } else { all.into_iter().take(8).collect() };
    let n = cs.len() as u64;
    let leaves: Vec<u32> = (0..0x40).chain(0x4000_0000..0x4000_0020).chain(0x8000_0000..0x8000_0040).collect();
    let subs: u64 = if thorough { 256 } else { 40 };
    let nl = leaves.len() as u64;
    let c1 = cs.clone();
    v.push(idx(format!("{nl} leaves x {subs} sub-leaves on each of {n} processors"), nl * subs * n, move |i, ctx| {
        pin(c1[(i / (nl * subs)) as usize]);
        let (l, s) = (leaves[(i / subs % nl) as usize], (i % subs) as u32);
        ctx.describe(|| format!("leaf {l:#x} sub-leaf {s:#x}"));
        check_native(l, s, ctx)
    }));
    let k = if thorough { 2 } else { 1 };
    let per = nsets(32, k);
    let c0 = cs[0];
    v.push(idx(format!("every leaf number and sub-leaf number with <={k} bits set or clear"), 4 * per * per, move |i, ctx| {
        pin(c0);
        let w = |j: u64, inv: bool| {
            let x = unrank(j, 32, k).iter().fold(0u32, |a, b| a | 1 << b);
            if inv {
                !x
            } else {
                x
            }
        };
        let (l, s) = (w(i / 4 % per, i & 1 == 1), w(i / 4 / per, i & 2 == 2));
        ctx.describe(|| format!("leaf {l:#x} sub-leaf {s:#x}"));
        check_native(l, s, ctx)
    }));
    v.push(idx(format!("handles of every constructor on each of {n} processors"), n, move |i, ctx| {
        pin(cs[i as usize]);
        ctx.describe(|| format!("processor {}", cs[i as usize]));
        check_constructors(ctx)
    }));
    let fills: u64 = if thorough { 7 } else { 3 };
    v.push(idx(format!("kinds of readers and constructors over 4 vendors x {fills} contents x 4 shapes x 8 gates x 3 depths"), 4 * fills * 4 * 8 * 3, move |i, ctx| {
        let mut r = Rich::open(VENDORS[(i % 4) as usize]);
        r.subs = (i / 4 % 4) as usize;
        let g = i / 16 % 8;
        (r.sgx, r.hyp, r.svm) = (g & 1 == 1, g & 2 == 2, g & 4 == 4);
        r.depth = [0, 1, 3][(i / 128 % 3) as usize];
        r.fill = [5, 1, 6, 0, 2, 3, 4][(i / 384) as usize];
        ctx.describe(|| format!("{r:x?}"));
        check_readers(&r.build(), ctx)
    }));
    v
}
