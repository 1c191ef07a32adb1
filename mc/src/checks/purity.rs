//! C04: queries are pure functions of the CPU.
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::out::*;
use crate::rich::*;
use crate::spaces::*;
use raw_cpuid::*;
use std::fmt::Debug;
use std::sync::Arc;

// ------------------------------------------------------------ operations

const PARTIAL: [&str; 10] = [
    "get_cache_info",
    "get_cache_parameters",
    "get_extended_topology_info",
    "get_extended_topology_info_v2",
    "get_extended_state_info",
    "get_sgx_info",
    "get_soc_vendor_info",
    "get_deterministic_address_translation_info",
    "get_extended_cpu_topology",
    "clone of the handle",
];

/// Operations: accessors of every query, rendering of every query, rendering
/// of the handle, partial iterations.
pub fn ops() -> usize {
    2 * GROUPS.len() + 1 + PARTIAL.len()
}

pub fn op_name(op: usize) -> String {
    let n = GROUPS.len();
    if op < n {
        GROUPS[op].name.to_string()
    } else if op < 2 * n {
        format!("rendering of {}", GROUPS[op - n].name)
    } else if op == 2 * n {
        "rendering of the handle".into()
    } else {
        format!("first item of {}", PARTIAL[op - 2 * n - 1])
    }
}

fn hash(s: &str) -> u64 {
    let mut h = 0x9ae1_6a3b_2f90_404fu64;
    for c in s.as_bytes().chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(w) ^ c.len() as u64);
    }
    h
}

macro_rules! one {
    ($o:ident, $it:expr, $f:expr) => {
        match $it {
            None => $o.val("item", ALL, 0x777u64),
            Some(x) => ($f)(&x, $o),
        }
    };
}

#[allow(clippy::clone_on_copy)]
fn partial(k: usize, c: &Cpu, o: &mut Out) {
    match k {
        0 => one!(o, c.get_cache_info().and_then(|mut i| i.next()), |x: &CacheInfo, o: &mut Out| o.val("num", ALL, x.num)),
        1 => one!(o, c.get_cache_parameters().and_then(|mut i| i.next()), cache_item::obs),
        2 => one!(o, c.get_extended_topology_info().and_then(|mut i| i.next()), topo_item::obs),
        3 => one!(o, c.get_extended_topology_info_v2().and_then(|mut i| i.next()), topo_item::obs),
        4 => one!(o, c.get_extended_state_info().and_then(|x| x.iter().next()), xstate_item::obs),
        5 => one!(o, c.get_sgx_info().and_then(|x| x.iter().next()), |x: &SgxSectionInfo, o: &mut Out| match x {
            SgxSectionInfo::Epc(e) => epc::obs(e, o),
        }),
        6 => one!(o, c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()).and_then(|mut i| i.next()), |x: &CpuIdResult, o: &mut Out| o.val("attr", ALL, x.eax as u64 | (x.edx as u64) << 32)),
        7 => one!(o, c.get_deterministic_address_translation_info().and_then(|mut i| i.next()), dat::obs),
        8 => one!(o, c.get_extended_cpu_topology().and_then(|mut i| i.next()), cputopo_item::obs),
        _ => {
            let d = c.clone();
            (GROUPS[group("get_feature_info")].obs)(&d, o);
        }
    }
}

/// The answer of an operation, condensed.
pub fn run_op(c: &Cpu, op: usize, o: &mut Out) -> u64 {
    let n = GROUPS.len();
    o.clear();
    if op < n {
        let a = (GROUPS[op].obs)(c, o);
        mix(o.digest(), a as u64)
    } else if op < 2 * n {
        hash(&(GROUPS[op - n].dbg)(c))
    } else if op == 2 * n {
        hash(&format!("{c:?}"))
    } else {
        partial(op - 2 * n - 1, c, o);
        o.digest()
    }
}

// ------------------------------------------------------------ CPUs

/// CPUs with settled contents, and CPUs whose leaves are empty, full or random.
pub const ENVS: usize = 7;
const PATCHED: usize = 14;
pub fn env(i: usize) -> Table {
    if i >= ENVS {
        return patched(i - ENVS);
    }
    let mut r = Rich::open(VENDORS[[0, 1, 0, 1, 3, 2, 0][i]]);
    (r.fill, r.subs, r.depth) = [(5, 1, 2), (5, 1, 2), (6, 3, 4), (6, 3, 3), (1, 3, 1), (6, 2, 2), (7, 3, 1)][i];
    if i == 5 {
        (r.maxb, r.maxe, r.hyp, r.sgx, r.svm) = (0x17, 0x8000_001F, false, false, false);
    }
    let mut t = r.build();
    if i != 4 {
        // Texts that can be read, different on every CPU.
        let text: Vec<u8> = (0..48usize).map(|k| b'A' + ((k * 7 + i * 11) % 57) as u8).collect();
        for k in 0..3 {
            t.set(0x8000_0002 + k as u32, 0, R4::from_bytes(&text[16 * k..16 * k + 16]));
            t.set(0x17, 1 + k as u32, R4::from_bytes(&text[16 * k..16 * k + 16]));
        }
        if i >= 3 {
            // Signatures all of whose parts count, different on every CPU.
            let k = i as u32;
            let mut r = t.get(1, 0);
            r.a = (19 * k) << 20 | (k * 3 % 16) << 16 | 0xf00 | (k * 5 % 16) << 4 | k;
            t.set(1, 0, r);
        }
    }
    t
}

fn patched(k: usize) -> Table {
    let mut r = Rich::open(VENDORS[[0, 0, 1, 0, 2][k % 5]]);
    (r.depth, r.subs, r.sgx, r.svm, r.hyp) = ((k % 4) as u32, k % 4, k % 2 == 0, k % 3 > 0, k % 7 > 0);
    let kinds: Vec<Table> = [0, 1, 7 + k]
        .iter()
        .map(|&f| {
            r.fill = f;
            r.build()
        })
        .collect();
    let mut t = kinds[2].clone();
    for leaf in (1..0x22).chain(0x8000_0002..0x8000_0028) {
        let from = &kinds[(mix(mix(k as u64 + 1, leaf as u64), 3) >> 30) as usize % 3];
        for sub in 0..SUBS as u32 {
            t.set(leaf, sub, from.get(leaf, sub));
        }
    }
    t
}

/// Prints the answer of one operation, asked first thing in a fresh process.
pub fn baseline(e: usize, op: usize) -> i32 {
    let t = env(e);
    println!("{:016x}", run_op(&cpu(&t), op, &mut Out::default()));
    0
}

/// The answer of every operation on every CPU, each from its own process, so
/// that nothing asked before can have influenced it.
pub fn baselines(envs: usize) -> Arc<Vec<Vec<u64>>> {
    let exe = std::env::current_exe().unwrap();
    let todo: Vec<(usize, usize)> = (0..envs).flat_map(|e| (0..ops()).map(move |o| (e, o))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![vec![0u64; ops()]; envs]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= todo.len() {
                    return;
                }
                let (e, o) = todo[i];
                let r = std::process::Command::new(&exe).args(["baseline", &e.to_string(), &o.to_string()]).output().expect("baseline process");
                // A crash here is found and attributed by the exploration itself.
                let h = String::from_utf8_lossy(&r.stdout).trim().to_string();
                out.lock().unwrap()[e][o] = u64::from_str_radix(&h, 16).unwrap_or(0);
            });
        }
    });
    Arc::new(out.into_inner().unwrap())
}

// ------------------------------------------------------------ iterators

trait It: Iterator + Sized {
    fn fork(&self) -> Option<Self>;
    fn show(&self) -> String;
}
macro_rules! it { ($($t:ty, $fork:expr, $show:expr);* $(;)?) => { $(impl It for $t {
    fn fork(&self) -> Option<Self> { let f: fn(&$t) -> Option<$t> = $fork; f(self) }
    fn show(&self) -> String { let f: fn(&$t) -> String = $show; f(self) }
})* } }
fn dbg<T: Debug>(x: &T) -> String {
    format!("{x:?}")
}
it! {
    CacheInfoIter, |_| None, dbg;
    CacheParametersIter<Rd>, |i| Some(i.clone()), dbg;
    ExtendedTopologyIter<Rd>, |i| Some(i.clone()), dbg;
    ExtendedStateIter<Rd>, |i| Some(i.clone()), dbg;
    SgxSectionIter<Rd>, |i| Some(i.clone()), dbg;
    SoCVendorAttributesIter<Rd>, |_| None, dbg;
    DatIter<Rd>, |i| Some(i.clone()), dbg;
    ExtendedCpuTopologyIter<Rd>, |i| Some(i.clone()), |_| String::new();
}

const MAXIT: usize = 3;

/// Runs a program of `depth` chosen operations over up to three iterators and
/// compares every item with the item at that position of a fresh iteration.
fn program<I: It>(ch: &Chooser, ctx: &mut Ctx, depth: usize, fused: bool, mk: &dyn Fn() -> Option<I>, dig: &dyn Fn(&I::Item, &mut Out), other: &dyn Fn()) -> Res {
    let Some(mut whole) = mk() else { return Ok(()) };
    let item = |x: &I::Item| {
        let mut o = Out::default();
        dig(x, &mut o);
        o.digest()
    };
    let mut list = vec![];
    let mut shown = vec![];
    loop {
        shown.push(whole.show());
        match whole.next() {
            Some(x) if list.len() < LIM as usize => list.push(item(&x)),
            _ => break,
        }
    }
    let mut its: Vec<(I, usize)> = vec![(mk().unwrap(), 0)];
    let mut log = String::new();
    for _ in 0..depth {
        // next on each, fork each (if room), render each, ask again, end.
        let n = its.len();
        let k = ch.choose(3 * n + 3);
        if k == 0 {
            break;
        }
        let k = k - 1;
        if k < n {
            let (it, pos) = &mut its[k];
            log.push_str(&format!("next({k}) "));
            if *pos >= list.len() && !fused {
                continue;
            }
            let have = it.next().map(|x| item(&x));
            let want = list.get(*pos).copied();
            ctx.transitions += 1;
            if have != want {
                return Err(format!("after {log}: item {pos} differs from the item at the same position of a fresh iteration ({})", if have.is_none() { "ended early" } else if want.is_none() { "goes on after its end" } else { "other contents" }));
            }
            *pos += 1;
        } else if k < 2 * n {
            log.push_str(&format!("clone({}) ", k - n));
            if n < MAXIT {
                if let Some(f) = its[k - n].0.fork() {
                    let p = its[k - n].1;
                    its.push((f, p));
                }
            }
        } else if k < 3 * n {
            let (it, pos) = &its[k - 2 * n];
            log.push_str(&format!("render({}) ", k - 2 * n));
            let s = it.show();
            ctx.transitions += 1;
            if *pos < shown.len() && s != shown[*pos] {
                return Err(format!("after {log}: at position {pos} it renders as {s:?}, in a fresh iteration as {:?}", shown[*pos]));
            }
        } else if k == 3 * n {
            log.push_str("fresh iterator ");
            if n < MAXIT {
                its.push((mk().ok_or("the query became unavailable")?, 0));
            } else {
                let _ = mk();
            }
        } else {
            log.push_str("other query ");
            other();
        }
    }
    ctx.describe(|| format!("program: {log}"));
    ctx.traces += 1;
    if ctx.count_outcome {
        ctx.outcome(its.iter().fold(list.len() as u64, |a, x| mix(a, x.1 as u64)));
    }
    Ok(())
}

/// The handle the second query of a program goes to.
fn iterator_spaces(e: usize, depth: usize) -> Vec<Space> {
    let mut v = vec![];
    macro_rules! sp {
        ($name:expr, $fused:expr, |$c:ident| $mk:expr, |$x:ident, $o:ident| $dig:expr) => {
            v.push(dfs(format!("{}: every program of <={depth} steps {{next, clone, render, fresh iterator, other query}} over up to {MAXIT} iterators, CPU {e}", $name), move |ch, ctx| {
                let t = match ctx.table.take() {
                    Some((k, t)) if k == e as u64 => t,
                    _ => env(e),
                };
                t.reset_budget();
                let r = {
                    let c = cpu(&t);
                    let mk = || {
                        let $c = &c;
                        $mk
                    };
                    let other = || {
                        let mut o = Out::default();
                        let d = c;
                        for g in ["get_cache_parameters", "get_extended_topology_info", "get_extended_topology_info_v2", "get_extended_state_info", "get_sgx_info", "get_deterministic_address_translation_info"] {
                            (GROUPS[group(g)].obs)(&d, &mut o);
                        }
                    };
                    program(ch, ctx, depth, $fused, &mk, &|$x, $o: &mut Out| $dig, &other).map_err(|m| format!("{}: {m}", $name))
                };
                ctx.table = Some((e as u64, t));
                r
            }));
        };
    }
    sp!("cache descriptors", true, |c| c.get_cache_info(), |x, o| {
        o.val("num", ALL, x.num);
        o.val("typ", ALL, x.typ);
    });
    sp!("cache parameters", true, |c| c.get_cache_parameters(), |x, o| cache_item::obs(x, o));
    sp!("topology", false, |c| c.get_extended_topology_info(), |x, o| topo_item::obs(x, o));
    sp!("topology v2", false, |c| c.get_extended_topology_info_v2(), |x, o| topo_item::obs(x, o));
    sp!("extended state", true, |c| c.get_extended_state_info().map(|x| x.iter()), |x, o| {
        o.val("n", ALL, x.subleaf);
        xstate_item::obs(x, o)
    });
    sp!("EPC sections", false, |c| c.get_sgx_info().map(|x| x.iter()), |x, o| match x {
        SgxSectionInfo::Epc(e) => epc::obs(e, o),
    });
    sp!("vendor attributes", true, |c| c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()), |x, o| o.val("attr", ALL, x.eax as u128 | (x.ebx as u128) << 32 | (x.ecx as u128) << 64 | (x.edx as u128) << 96));
    sp!("address translation", true, |c| c.get_deterministic_address_translation_info(), |x, o| dat::obs(x, o));
    sp!("CPU topology", false, |c| c.get_extended_cpu_topology(), |x, o| cputopo_item::obs(x, o));
    v
}

/// Long iterations: every way to interleave two iterators item by item.
fn interleaved(len: usize) -> Space {
    idx(format!("every interleaving of two iterations over {len} items each (2^{} orders), 5 enumerations", 2 * len), 5 << (2 * len), move |i, ctx| {
        let (order, k) = (i & ((1 << (2 * len)) - 1), i >> (2 * len));
        let t = match ctx.table.take() {
            Some((_, t)) => t,
            _ => {
                let mut r = Rich::open(if k == 1 { AMD } else { INTEL });
                (r.depth, r.subs) = (len as u32, 3);
                r.build()
            }
        };
        t.reset_budget();
        ctx.describe(|| format!("enumeration {k}, order {order:#b}"));
        let c = cpu(&t);
        fn go<I: Iterator>(mut a: I, mut b: I, order: u64, n: usize, f: impl Fn(&I::Item, &mut Out)) -> Res {
            let (mut x, mut y) = (vec![], vec![]);
            let d = |i: &I::Item| {
                let mut o = Out::default();
                f(i, &mut o);
                o.digest()
            };
            for j in 0..2 * n {
                let (it, v) = if order >> j & 1 == 1 { (&mut a, &mut x) } else { (&mut b, &mut y) };
                if v.len() < n {
                    v.push(it.next().map(|i| d(&i)));
                }
            }
            let m = x.len().min(y.len());
            if x[..m] != y[..m] {
                return Err("two iterators taken in turns yield different items".into());
            }
            Ok(())
        }
        let r = match k {
            0 | 1 => match (c.get_cache_parameters(), c.get_cache_parameters()) {
                (Some(a), Some(b)) => go(a, b, order, len, |x, o| cache_item::obs(x, o)),
                _ => Ok(()),
            },
            2 => match (c.get_extended_topology_info(), c.get_extended_topology_info()) {
                (Some(a), Some(b)) => go(a, b, order, len, |x, o| topo_item::obs(x, o)),
                _ => Ok(()),
            },
            3 => match (c.get_extended_state_info(), c.get_extended_state_info()) {
                (Some(a), Some(b)) => go(a.iter(), b.iter(), order, len, |x, o| xstate_item::obs(x, o)),
                _ => Ok(()),
            },
            _ => match (c.get_soc_vendor_info(), c.get_soc_vendor_info()) {
                (Some(a), Some(b)) => match (a.get_vendor_attributes(), b.get_vendor_attributes()) {
                    (Some(a), Some(b)) => go(a, b, order, len, |x, o| o.val("a", ALL, x.eax)),
                    _ => Ok(()),
                },
                _ => Ok(()),
            },
        };
        ctx.transitions += len as u64;
        ctx.traces += 1;
        ctx.table = Some((0, t));
        r
    })
}

pub fn c04(t: bool) -> Vec<Space> {
    let base = baselines(ENVS + PATCHED);
    let mut v = vec![];
    let n = ops();
    // Sub-alphabets: all operations, or everything but renderings.
    let light: Vec<usize> = (0..GROUPS.len()).chain(2 * GROUPS.len() + 1..n).collect();
    let all: Vec<usize> = (0..n).collect();
    let pairs: Vec<(usize, usize)> = if t { vec![(0, 1), (1, 0), (2, 3), (3, 4), (5, 2), (4, 5)] } else { vec![(0, 1), (3, 2), (5, 4)] };
    // (alphabet, length, handles): handle 0 and 1 are copies over the first
    // CPU, handle 2 is over the second.
    let mut shapes: Vec<(&Vec<usize>, u32, usize)> = vec![(&all, 2, 3), (&light, 3, 3)];
    if t {
        shapes = vec![(&all, 3, 3), (&light, 4, 2), (&light, 3, 3)];
    }
    let patched: Vec<(usize, usize)> = (0..PATCHED).map(|k| (ENVS + k, ENVS + (k * 5 + 3) % PATCHED)).collect();
    shapes.push((&all, 2, 3));
    let last = shapes.len() - 1;
    for (si, (alpha, len, handles)) in shapes.into_iter().enumerate() {
        for (pi, &(e0, e1)) in if si == last { &patched } else { &pairs }.iter().enumerate() {
            if t && len == 4 && pi > 1 {
                continue;
            }
            let (alpha, base) = (alpha.clone(), base.clone());
            let na = (alpha.len() * handles) as u64;
            v.push(idx(
                format!("every sequence of {len} operations of {} on {handles} handles (a handle over CPU {e0}, a copy of it{})", alpha.len(), if handles > 2 { format!(", a handle over CPU {e1}") } else { String::new() }),
                na.pow(len),
                move |i, ctx| {
                    let key = (e0 * 100 + e1) as u64;
                    let ta = match ctx.table.take() {
                        Some((k, t)) if k == key => t,
                        _ => env(e0),
                    };
                    let tb = match ctx.table2.take() {
                        Some((k, t)) if k == key => t,
                        _ => env(e1),
                    };
                    ta.reset_budget();
                    tb.reset_budget();
                    let res = {
                        let h = [cpu(&ta), cpu(&ta), cpu(&tb)];
                        let h = [h[0], h[0], h[2]];
                        let mut k = i;
                        let mut log = vec![];
                        let mut bad = None;
                        for _ in 0..len {
                            let x = (k % na) as usize;
                            k /= na;
                            let (hi, op) = (x % handles, alpha[x / handles]);
                            if ctx.want_desc {
                                log.push(format!("{} on handle {hi}", op_name(op)));
                            }
                            let d = run_op(&h[hi], op, &mut ctx.obs);
                            ctx.transitions += 1;
                            if d != base[if hi == 2 { e1 } else { e0 }][op] {
                                bad = Some(format!("{} on handle {hi} answers differently than when asked first", op_name(op)));
                                break;
                            }
                        }
                        ctx.describe(|| format!("CPUs {e0} and {e1}: {}", log.join(", then ")));
                        bad
                    };
                    ctx.traces += 1;
                    if ctx.count_outcome {
                        let d = ctx.obs.digest();
                        ctx.outcome(d);
                    }
                    ctx.table = Some((key, ta));
                    ctx.table2 = Some((key, tb));
                    res.map_or(Ok(()), Err)
                },
            ));
        }
    }
    // The same CPU through every kind of reader and constructor.
    let b2 = base.clone();
    v.push(idx("every operation through a closure reader, with_cpuid_fn and with_cpuid_reader, before and after every other", (ENVS * GROUPS.len()) as u64, move |i, ctx| {
        let (e, g) = (i as usize % ENVS, i as usize / ENVS);
        let t = env(e);
        let f = |a: u32, c: u32| {
            let r = t.get(a, c);
            CpuIdResult { eax: r.a, ebx: r.b, ecx: r.c, edx: r.d }
        };
        ctx.describe(|| format!("CPU {e}, {}", GROUPS[g].name));
        let c1 = raw_cpuid::CpuId::with_cpuid_reader(f);
        let c2 = raw_cpuid::CpuId::with_cpuid_fn(f);
        let c3 = Cpu::with_cpuid_fn(Rd::new(&t));
        let (a, b) = (hash(&format!("{c1:?}")), hash(&format!("{c2:?}")));
        let d = run_op(&c3, g, &mut ctx.obs);
        ctx.transitions += 3;
        ctx.traces += 1;
        let h = b2[e][2 * GROUPS.len()];
        if a != h || b != h || d != b2[e][g] {
            return Err("a handle built over another kind of reader answers differently".into());
        }
        Ok(())
    }));
    for e in 0..ENVS {
        v.extend(iterator_spaces(e, if t { 7 } else { 5 }));
    }
    v.push(interleaved(if t { 9 } else { 6 }));
    // Availability: asked before and after everything else.
    v.push(idx("availability of every query before and after each operation, 6 CPUs", (ENVS * n) as u64, move |i, ctx| {
        let (e, op) = (i as usize % ENVS, i as usize / ENVS);
        let t = env(e);
        let c = cpu(&t);
        let av = |c: &Cpu| GROUPS.iter().map(|g| (g.avail)(c)).collect::<Vec<_>>();
        let a = av(&c);
        run_op(&c, op, &mut ctx.obs);
        ctx.describe(|| format!("CPU {e}, {}", op_name(op)));
        ctx.transitions += a.len() as u64;
        ctx.traces += 1;
        if a != av(&c) || a != av(&cpu(&t)) {
            return Err(format!("availability changes after {}", op_name(op)));
        }
        Ok(())
    }));
    v
}
