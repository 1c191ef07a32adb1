//! C30 (equality), C31 (iterators as std's Iterator), C32 (no heap).
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::out::*;
use crate::rich::*;
use crate::spaces::*;
use raw_cpuid::*;

// ------------------------------------------------------------ C30: equality

type Eq3 = Option<[bool; 3]>;

/// One kind of value that can be compared.
struct Val {
    name: &'static str,
    same: fn(&Cpu, &Cpu) -> Eq3,
    obs: fn(&Cpu, &mut Out) -> bool,
    words: &'static [(u32, u32)],
}

macro_rules! vals {
    ($($name:literal, [$($l:expr, $s:expr);*], |$c:ident| $get:expr, |$x:ident, $o:ident| $obs:expr;)*) => {
        &[$(Val {
            name: $name,
            same: |a, b| {
                let x = { let $c = a; $get };
                let y = { let $c = b; $get };
                (&WE(&x, &y)).same()
            },
            obs: |a, $o| {
                let x = { let $c = a; $get };
                match x { None => false, Some($x) => { $obs; true } }
            },
            words: &[$(($l, $s)),*],
        }),*]
    };
}

fn attr(x: &CpuIdResult, o: &mut Out) {
    o.val("eax", ALL, x.eax);
    o.val("ebx", ALL, x.ebx);
    o.val("ecx", ALL, x.ecx);
    o.val("edx", ALL, x.edx);
}

/// Items and sub-structures; the results of the queries themselves are in GROUPS.
static ITEMS: &[Val] = vals! {
    "cache descriptor", [2, 0], |c| c.get_cache_info().and_then(|mut i| i.next()), |x, o| o.val("num", ALL, x.num);
    "cache descriptors after the first", [2, 0], |c| c.get_cache_info().map(|mut i| { i.next(); i }), |x, o| for i in x { o.val("num", ALL, i.num) };
    "first cache", [4, 0; 0x8000_001D, 0], |c| c.get_cache_parameters().and_then(|mut i| i.next()), |x, o| cache_item::obs(&x, o);
    "second cache", [4, 1; 0x8000_001D, 1], |c| c.get_cache_parameters().and_then(|mut i| i.nth(1)), |x, o| cache_item::obs(&x, o);
    "topology level", [0xB, 0], |c| c.get_extended_topology_info().and_then(|mut i| i.next()), |x, o| topo_item::obs(&x, o);
    "topology level of 0x1F", [0x1F, 1], |c| c.get_extended_topology_info_v2().and_then(|mut i| i.nth(1)), |x, o| topo_item::obs(&x, o);
    "CPU topology level", [0x8000_0026, 0], |c| c.get_extended_cpu_topology().and_then(|mut i| i.next()), |x, o| cputopo_item::obs(&x, o);
    "second CPU topology level", [0x8000_0026, 1], |c| c.get_extended_cpu_topology().and_then(|mut i| i.nth(1)), |x, o| cputopo_item::obs(&x, o);
    "extended state", [0xD, 0; 0xD, 1; 0xD, 2; 0xD, 3], |c| c.get_extended_state_info().and_then(|x| x.iter().next()), |x, o| xstate_item::obs(&x, o);
    "L3 monitoring", [0xF, 0; 0xF, 1], |c| c.get_rdt_monitoring_info().and_then(|x| x.l3_monitoring()), |x, o| rdt_l3mon::obs(&x, o);
    "L3 allocation", [0x10, 0; 0x10, 1], |c| c.get_rdt_allocation_info().and_then(|x| x.l3_cat()), |x, o| rdt_l3cat::obs(&x, o);
    "L2 allocation", [0x10, 0; 0x10, 2], |c| c.get_rdt_allocation_info().and_then(|x| x.l2_cat()), |x, o| rdt_l2cat::obs(&x, o);
    "bandwidth allocation", [0x10, 0; 0x10, 3], |c| c.get_rdt_allocation_info().and_then(|x| x.memory_bandwidth_allocation()), |x, o| rdt_mba::obs(&x, o);
    "EPC section", [0x12, 2], |c| c.get_sgx_info().and_then(|x| x.iter().next()).map(|s| match s { SgxSectionInfo::Epc(e) => e }), |x, o| epc::obs(&x, o);
    "address translation", [0x18, 0; 0x18, 1], |c| c.get_deterministic_address_translation_info().and_then(|mut i| i.next()), |x, o| dat::obs(&x, o);
    "SoC brand", [0x17, 1; 0x17, 2; 0x17, 3], |c| c.get_soc_vendor_info().and_then(|x| x.get_vendor_brand()), |x, o| o.bytes("brand", ALL, x.as_str().as_bytes());
    "SoC attribute", [0x17, 0; 0x17, 4], |c| c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()).and_then(|mut i| i.next()), |x, o| attr(&x, o);
    "hypervisor", [0x4000_0000, 0], |c| c.get_hypervisor_info().map(|x| x.identify()), |x, o| o.val("kind", ALL, x);
    "L3 bandwidth enforcement", [0x8000_0020, 0; 0x8000_0020, 1], |c| c.get_pqos_extended_feature_info().and_then(|x| x.get_l3_memory_bandwidth_enforcement_info()), |x, o| pqos_mbe::obs(&x, o);
    "slow memory bandwidth enforcement", [0x8000_0020, 0; 0x8000_0020, 2], |c| c.get_pqos_extended_feature_info().and_then(|x| x.get_l3_slow_memory_bandwidth_enforcement_info()), |x, o| pqos_mbe::obs(&x, o);
    "bandwidth event configuration", [0x8000_0020, 0; 0x8000_0020, 3], |c| c.get_pqos_extended_feature_info().and_then(|x| x.get_bandwidth_monitoring_event_counters_info()), |x, o| pqos_bmec::obs(&x, o);
    "assignable bandwidth counters", [0x8000_0020, 0; 0x8000_0020, 5], |c| c.get_pqos_extended_feature_info().and_then(|x| x.get_assignable_bandwidth_monitoring_counters_info()), |x, o| pqos_abmc::obs(&x, o);
};

fn env_of(words: &[(u32, u32)], ven: usize, bg: R4) -> Table {
    let mut t = open_base(VENDORS[ven]);
    // Everything else enumerates something and gives no further differences.
    for l in [4, 0xB, 0x1F, 0x12, 0x17, 0x18, 0x8000_001D, 0x8000_0026, 0xF, 0x10, 0xD, 0x8000_0020] {
        for s in 0..5 {
            let mut r = legal(l, s, BACKGROUNDS[4]);
            match (l, s) {
                (0xD, 0) => r.a = 0xff,
                (0xF, 0) => r.d |= 2,
                (0x10, 0) => r.b |= 0xe,
                (0x8000_0020, 0) => r.b |= 0x7e,
                _ => {}
            }
            t.set(l, s, r);
        }
    }
    for &(l, s) in words {
        if (l, s) == (0, 0) {
            continue;
        }
        let mut r = legal(l, s, bg);
        match (l, s) {
            (0xD, 0) => r.a |= 0xff,
            (0xF, 0) => r.d |= 2,
            (0x10, 0) => r.b |= 0xe,
            (0x8000_0020, 0) => r.b |= 0x7e,
            (1, 0) => r.c |= 1 << 31,
            (7, 0) => r.b |= 4,
            (0x8000_0001, 0) => r.c |= 4,
            _ => {}
        }
        t.set(l, s, r);
    }
    t
}

/// Every pair of CPUs that differ from a common background in at most one bit each.
fn eq_pairs(v: &'static Val, kinds: &'static [usize]) -> Option<Space> {
    let t = open_base(INTEL);
    let c = cpu(&t);
    (v.same)(&c, &c)?;
    let mut pos = vec![];
    for &(l, s) in v.words {
        for reg in 0..4 {
            for b in 0..32 {
                if (l, s, reg) != (0, 0, 0) && (l, s, reg) != (0x8000_0000, 0, 0) && !matches!((l, s, reg), (0x18, 0, 0)) {
                    pos.push((l, s, reg, b));
                }
            }
        }
    }
    let n = pos.len() as u64 + 1;
    let per = n * n;
    Some(idx(format!("{}: every pair of CPUs with <=1 flipped bit each of {}, {} contents x 3 vendors", v.name, n - 1, kinds.len()), per * 3 * kinds.len() as u64, move |i, ctx| {
        let key = i / per;
        let (ven, bg) = ([0, 1, 3][(key % 3) as usize], BACKGROUNDS[kinds[(key / 3) as usize]]);
        let mut ta = match ctx.table.take() {
            Some((k, t)) if k == key => t,
            _ => env_of(v.words, ven, bg),
        };
        let mut tb = match ctx.table2.take() {
            Some((k, t)) if k == key => t,
            _ => env_of(v.words, ven, bg),
        };
        ta.reset_budget();
        tb.reset_budget();
        let (x, y) = ((i % n) as usize, (i % per / n) as usize);
        let flip = |t: &mut Table, x: usize| {
            if x > 0 {
                let (l, s, r, b) = pos[x - 1];
                *t.at(l, s).reg_mut(r) ^= 1 << b;
            }
        };
        flip(&mut ta, x);
        flip(&mut tb, y);
        ctx.describe(|| {
            let f = |x: usize| if x == 0 { "nothing".into() } else { format!("leaf {:#x}.{} register {} bit {}", pos[x - 1].0, pos[x - 1].1, pos[x - 1].2, pos[x - 1].3) };
            format!("{} background {bg:?}, flipped {} and {}", VENDOR_NAMES[ven], f(x), f(y))
        });
        let res = {
            let (ca, cb) = (cpu(&ta), cpu(&tb));
            ctx.obs.clear();
            ctx.spec.clear();
            let (a, b) = ((v.obs)(&ca, &mut ctx.obs), (v.obs)(&cb, &mut ctx.spec));
            let differ = a != b || ctx.obs.e.len() != ctx.spec.e.len() || ctx.obs.e.iter().zip(&ctx.spec.e).any(|(p, q)| p.v != q.v || p.label != q.label);
            ctx.transitions += 3;
            ctx.traces += 1;
            if ctx.count_outcome {
                let h = mix(ctx.obs.digest(), ctx.spec.digest());
                ctx.outcome(h);
            }
            match (v.same)(&ca, &cb) {
                None => Ok(()),
                Some([e, f, ne]) => {
                    if x == y && !e {
                        Err(format!("{}: the values of two CPUs with the same answers are not equal", v.name))
                    } else if differ && e {
                        Err(format!("{}: two values compare equal although their accessors differ", v.name))
                    } else if e != f {
                        Err(format!("{}: equality is not symmetric", v.name))
                    } else if e == ne {
                        Err(format!("{}: == and != agree", v.name))
                    } else {
                        Ok(())
                    }
                }
            }
        };
        flip(&mut ta, x);
        flip(&mut tb, y);
        ctx.table = Some((key, ta));
        ctx.table2 = Some((key, tb));
        res
    }))
}

/// All pairs of a list of values that are pairwise different.
fn all_pairs<T: PartialEq + std::fmt::Debug + 'static>(name: &'static str, mk: fn() -> Vec<T>) -> Space {
    let n = mk().len() as u64;
    idx(format!("{name}: every pair of {n} different values"), n * n, move |i, ctx| {
        let (a, b) = (mk(), mk());
        let (x, y) = ((i % n) as usize, (i / n) as usize);
        ctx.transitions += 2;
        ctx.traces += 1;
        ctx.describe(|| format!("{:?} and {:?}", a[x], b[y]));
        if (a[x] == b[y]) != (x == y) || (a[x] != b[y]) == (x == y) {
            return Err(format!("{name}: {:?} == {:?} is {}", a[x], b[y], a[x] == b[y]));
        }
        ctx.outcome(mix(x as u64, y as u64));
        Ok(())
    })
}

#[derive(PartialEq)]
struct H(HierarchyLevelType);
impl std::fmt::Debug for H {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self.0 {
            HierarchyLevelType::Reserved => write!(f, "Reserved"),
            HierarchyLevelType::Core => write!(f, "Core"),
            HierarchyLevelType::Complex => write!(f, "Complex"),
            HierarchyLevelType::Die => write!(f, "Die"),
            HierarchyLevelType::Socket => write!(f, "Socket"),
            HierarchyLevelType::Unknown(n) => write!(f, "Unknown({n})"),
        }
    }
}

pub fn c30(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let kinds: &'static [usize] = if t { &[0, 1, 2, 3, 4] } else { &[0, 1, 4] };
    for g in GROUPS {
        // This one asks the CPU for its sub-leaves later, through the reader it holds.
        let words = if g.name == "get_pqos_extended_feature_info" { &g.words[..1] } else { g.words };
        let val: &'static Val = Box::leak(Box::new(Val { name: g.name, same: g.same, obs: g.obs, words }));
        v.extend(eq_pairs(val, kinds));
    }
    for i in ITEMS {
        v.extend(eq_pairs(i, kinds));
    }
    v.push(all_pairs("CacheType", || vec![CacheType::Null, CacheType::Data, CacheType::Instruction, CacheType::Unified, CacheType::Reserved]));
    v.push(all_pairs("TopologyType", || vec![TopologyType::Invalid, TopologyType::SMT, TopologyType::Core, TopologyType::Module, TopologyType::Tile, TopologyType::Die]));
    v.push(all_pairs("DatType", || vec![DatType::Null, DatType::DataTLB, DatType::InstructionTLB, DatType::UnifiedTLB, DatType::LoadOnly, DatType::StoreOnly, DatType::Unknown]));
    v.push(all_pairs("ExtendedRegisterStateLocation", || vec![ExtendedRegisterStateLocation::Xcr0, ExtendedRegisterStateLocation::Ia32Xss]));
    v.push(all_pairs("Associativity", || {
        let mut v = vec![Associativity::Disabled, Associativity::DirectMapped, Associativity::FullyAssociative, Associativity::Unknown];
        v.extend((0..=255).map(Associativity::NWay));
        v
    }));
    v.push(all_pairs("ExtendedRegisterType", || {
        use ExtendedRegisterType::*;
        let mut v = vec![Avx, MpxBndregs, MpxBndcsr, Avx512Opmask, Avx512ZmmHi256, Avx512ZmmHi16, Pt, Pkru, Hdc];
        v.extend((0..64).chain((0..32).map(|b| !(1 << b))).map(Unknown));
        v
    }));
    v.push(all_pairs("HierarchyLevelType", || {
        use HierarchyLevelType::*;
        let mut v = vec![H(Reserved), H(Core), H(Complex), H(Die), H(Socket)];
        v.extend((0..=255).map(|n| H(Unknown(n))));
        v
    }));
    v.push(all_pairs("Hypervisor", || {
        use Hypervisor::*;
        let mut v = vec![Xen, VMware, HyperV, KVM, QEMU, Bhyve, QNX, ACRN, Unknown(0, 0, 0), Unknown(!0, !0, !0)];
        for b in 0..32 {
            v.push(Unknown(1 << b, 0, 0));
            v.push(Unknown(0, 1 << b, 0));
            v.push(Unknown(0, 0, 1 << b));
        }
        v
    }));
    v.push(all_pairs("CpuIdResult", || {
        let mut v = vec![CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 }, CpuIdResult { eax: !0, ebx: !0, ecx: !0, edx: !0 }];
        for b in 0..32 {
            for k in 0..4 {
                let f = |r| if r == k { 1 << b } else { 0 };
                v.push(CpuIdResult { eax: f(0), ebx: f(1), ecx: f(2), edx: f(3) });
            }
        }
        v
    }));
    v
}

// ------------------------------------------------------------ C31: iterators

const NTH: [usize; 4] = [0, 1, 3, 100];

/// How to clone an iterator, if it can be cloned.
struct Dup<T>(std::marker::PhantomData<T>);
fn dup_of<T>(_: &impl Fn() -> Option<T>) -> Dup<T> {
    Dup(std::marker::PhantomData)
}
trait CanDup<T> {
    fn dup(&self) -> Option<fn(&T) -> T>;
}
impl<T: Clone> CanDup<T> for Dup<T> {
    fn dup(&self) -> Option<fn(&T) -> T> {
        Some(|x| x.clone())
    }
}
trait CannotDup<T> {
    fn dup(&self) -> Option<fn(&T) -> T>;
}
impl<T> CannotDup<T> for &Dup<T> {
    fn dup(&self) -> Option<fn(&T) -> T> {
        None
    }
}

/// `fused` iterators stay ended; for the others the program ends with the iteration.
fn contract<I: Iterator>(ch: &Chooser, ctx: &mut Ctx, steps: usize, fused: bool, dup: Option<fn(&I) -> I>, mk: &dyn Fn() -> Option<I>, dig: &dyn Fn(&I::Item, &mut Out)) -> Res {
    let (Some(mut whole), Some(mut it)) = (mk(), mk()) else { return Ok(()) };
    let item = |x: &I::Item| {
        let mut o = Out::default();
        dig(x, &mut o);
        o.digest()
    };
    let mut list = vec![];
    while let Some(x) = whole.next() {
        list.push(item(&x));
        if list.len() > LIM as usize {
            return Ok(()); // only enumerations that end
        }
    }
    let n = list.len();
    let mut pos = 0usize;
    let mut log = String::new();
    let mut ended = false;
    let want = |p: usize| list.get(p).copied();
    for _ in 0..steps {
        let (lo, hi) = it.size_hint();
        ctx.transitions += 1;
        let rest = n - pos.min(n);
        if lo > rest || hi.map_or(false, |h| h < rest) {
            return Err(format!("after {log}: size_hint is {:?} with {rest} items left", (lo, hi)));
        }
        if ended && !fused {
            break;
        }
        let k = ch.choose(NTH.len() + 7 + dup.is_some() as usize);
        let (have, expect, take) = match k {
            0 => break,
            1 => {
                log.push_str("next ");
                (it.next().map(|x| item(&x)), want(pos), 1)
            }
            k if k < 2 + NTH.len() => {
                let m = NTH[k - 2];
                log.push_str(&format!("nth({m}) "));
                (it.nth(m).map(|x| item(&x)), want(pos + m), m + 1)
            }
            6 => {
                log.push_str("by_ref().take(2).count() ");
                let c = it.by_ref().take(2).count();
                (Some(c as u64), Some(rest.min(2) as u64), 2)
            }
            7 => {
                log.push_str("by_ref().skip(1).next() ");
                (it.by_ref().skip(1).next().map(|x| item(&x)), want(pos + 1), 2)
            }
            8 => {
                log.push_str("find(second) ");
                let mut c = 0;
                let f = |_: &I::Item| {
                    c += 1;
                    c == 2
                };
                (it.find(f).map(|x| item(&x)), want(pos + 1), 2)
            }
            9 => {
                log.push_str("position(third) ");
                let mut c = 0;
                let f = |_: I::Item| {
                    c += 1;
                    c == 3
                };
                (it.position(f).map(|x| x as u64), want(pos + 2).map(|_| 2), 3)
            }
            10 => {
                log.push_str("all(first two) ");
                let mut c = 0;
                let f = |_: I::Item| {
                    c += 1;
                    c < 2
                };
                (Some(it.all(f) as u64), Some((rest < 2) as u64), 2)
            }
            _ => {
                log.push_str("clone ");
                // Goes on with the clone, after the original went on by one.
                let d = dup.unwrap()(&it);
                let x = it.next().map(|x| item(&x));
                it = d;
                (x, want(pos), 0)
            }
        };
        ctx.transitions += 1;
        if have != expect {
            return Err(format!("after {log}: from item {pos} of {n} the result is {have:x?}, stepping one by one gives {expect:x?}"));
        }
        ended |= pos + take > n;
        pos = (pos + take).min(n);
    }
    ctx.traces += 1;
    if !(ended && !fused) {
        let rest: Vec<u64> = list[pos..].to_vec();
        let k = ch.choose(9);
        let name = ["collect", "count", "last", "fold", "for", "step_by(2)", "skip(2)", "for_each", "max_by_key"][k];
        log.push_str(name);
        let (have, expect): (Vec<u64>, Vec<u64>) = match k {
            0 => (it.collect::<Vec<_>>().iter().map(|x| item(x)).collect(), rest),
            1 => (vec![it.count() as u64], vec![rest.len() as u64]),
            2 => (it.last().map(|x| item(&x)).into_iter().collect(), rest.last().copied().into_iter().collect()),
            3 => (
                it.fold(vec![], |mut v, x| {
                    v.push(item(&x));
                    v
                }),
                rest,
            ),
            4 => {
                let mut v = vec![];
                for x in it {
                    v.push(item(&x))
                }
                (v, rest)
            }
            5 => (it.step_by(2).map(|x| item(&x)).collect(), rest.iter().copied().step_by(2).collect()),
            6 => (it.skip(2).map(|x| item(&x)).collect(), rest.iter().copied().skip(2).collect()),
            7 => {
                let mut v = vec![];
                it.for_each(|x| v.push(item(&x)));
                (v, rest)
            }
            _ => {
                let mut c = 0;
                (
                    it.max_by_key(|_| {
                        c += 1;
                        c
                    })
                    .map(|x| item(&x))
                    .into_iter()
                    .collect(),
                    rest.last().copied().into_iter().collect(),
                )
            }
        };
        ctx.transitions += 1;
        if have != expect {
            return Err(format!("after {log}: from item {pos} of {n}: {have:x?}, stepping one by one gives {expect:x?}"));
        }
    }
    ctx.describe(|| format!("{n} items: {log}"));
    ctx.outcome(mix(n as u64, pos as u64));
    Ok(())
}

pub fn c31(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let steps = if t { 4 } else { 3 };
    let depths: u32 = if t { 12 } else { 7 };
    macro_rules! sp {
        ($name:expr, $fused:expr, $subs:expr, |$c:ident| $mk:expr, |$x:ident, $o:ident| $dig:expr) => {
            v.push(dfs(format!("{}: every program of <={steps} steps {{next, nth(0,1,3,100), take, skip, find, position, all, clone}} and every way to finish, over 0..{} items, with and without entries behind the end (and components in both masks), {} shapes, 2 vendors", $name, depths - 1, $subs), move |ch, ctx| {
                let (d, s, a, gap) = (ch.choose(depths as usize), ch.choose($subs), ch.choose(2), ch.flag());
                let key = (d * 100 + s * 10 + a * 2 + gap as usize) as u64;
                let t = match ctx.table.take() {
                    Some((k, t)) if k == key => t,
                    _ => {
                        let mut r = Rich::open(if a == 0 { INTEL } else { AMD });
                        (r.depth, r.subs, r.fill) = (d as u32, s, [5, 6, 1, 3][(d + s) % 4]);
                        let mut t = r.build();
                        if gap {
                            // Entries that look valid behind the one that ends the enumeration.
                            for k in d as u32 + 1..SUBS as u32 - 3 {
                                for l in [4, 0x8000_001D] {
                                    t.at(l, k).a |= 1;
                                }
                                for l in [0xB, 0x1F, 0x8000_0026] {
                                    t.at(l, k).c |= 1 << 8;
                                }
                                t.at(0x12, k + 2).a |= 1;
                            }
                            // State components that both masks list.
                            let both = [0x2000, 1 << 8, !0, 0x5555_5557][s % 4];
                            t.at(0xD, 0).a |= both;
                            t.at(0xD, 1).c |= both;
                            t.at(0xD, 0).d |= both & 0x7fff_ffff;
                            t.at(0xD, 1).d |= both & 0x7fff_ffff;
                        }
                        t
                    }
                };
                t.reset_budget();
                let r = {
                    let c = cpu(&t);
                    let mk = || {
                        let $c = &c;
                        $mk
                    };
                    contract(ch, ctx, steps, $fused, (&dup_of(&mk)).dup(), &mk, &|$x, $o: &mut Out| $dig).map_err(|m| format!("{}: {m}", $name))
                };
                ctx.describe(|| format!("depth {d}, shape {s}, {}{}", ["Intel", "AMD"][a], if gap { ", entries behind the end" } else { "" }));
                ctx.table = Some((key, t));
                r
            }));
        };
    }
    sp!("cache descriptors", true, 4, |c| c.get_cache_info(), |x, o| {
        o.val("num", ALL, x.num);
        o.val("typ", ALL, x.typ);
    });
    sp!("cache parameters", true, 1, |c| c.get_cache_parameters(), |x, o| cache_item::obs(x, o));
    sp!("topology", false, 1, |c| c.get_extended_topology_info(), |x, o| topo_item::obs(x, o));
    sp!("topology v2", false, 1, |c| c.get_extended_topology_info_v2(), |x, o| topo_item::obs(x, o));
    sp!("extended state", true, 4, |c| c.get_extended_state_info().map(|x| x.iter()), |x, o| {
        o.val("n", ALL, x.subleaf);
        xstate_item::obs(x, o)
    });
    sp!("EPC sections", false, 1, |c| c.get_sgx_info().map(|x| x.iter()), |x, o| match x {
        SgxSectionInfo::Epc(e) => epc::obs(e, o),
    });
    sp!("vendor attributes", true, 4, |c| c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()), |x, o| attr(x, o));
    sp!("address translation", true, 4, |c| c.get_deterministic_address_translation_info(), |x, o| dat::obs(x, o));
    sp!("CPU topology", false, 1, |c| c.get_extended_cpu_topology(), |x, o| cputopo_item::obs(x, o));
    v
}

// ------------------------------------------------------------ C32: no heap

/// A text sink without a heap.
struct Sink(u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = mix(self.0, b as u64);
        }
        Ok(())
    }
}

/// Formats a value with Display and Debug, plain and alternate, without a heap.
fn unheaped(x: &dyn std::fmt::Debug, y: Option<&dyn std::fmt::Display>, ctx: &mut Ctx) -> Res {
    let mut s = Sink(0);
    let n = crate::alloc::count();
    let _ = std::fmt::Write::write_fmt(&mut s, format_args!("{x:?}"));
    if crate::alloc::count() == n {
        let _ = std::fmt::Write::write_fmt(&mut s, format_args!("{x:#?}"));
    }
    if crate::alloc::count() != n {
        return Err(format!("the Debug rendering of {x:?} allocates on the heap"));
    }
    if let Some(y) = y {
        let _ = std::fmt::Write::write_fmt(&mut s, format_args!("{y}"));
        if crate::alloc::count() == n {
            let _ = std::fmt::Write::write_fmt(&mut s, format_args!("{y:#} {y:>20}"));
        }
        if crate::alloc::count() != n {
            return Err(format!("the Display rendering of {x:?} allocates on the heap"));
        }
    }
    ctx.transitions += 2;
    ctx.outcome(s.0);
    Ok(())
}

/// The i-th value of every public type that can be made without a CPU.
fn value_unheaped(i: u64, ctx: &mut Ctx) -> Res {
    macro_rules! both { ($($x:expr),* $(,)?) => { $( { let x = $x; unheaped(&x, Some(&x), ctx)?; } )* } }
    let b = i as u8;
    both!(Associativity::NWay(b), ExtendedRegisterType::from(i as u32), ExtendedRegisterType::Unknown(i as u32), HierarchyLevelType::from(b), HierarchyLevelType::Unknown(b));
    let w = (i as u32).wrapping_mul(0x0101_0101);
    unheaped(&Hypervisor::Unknown(w, i as u32, !w), None, ctx)?;
    let r = CpuIdResult { eax: i as u32, ebx: w, ecx: !w, edx: w << 3 };
    unheaped(&r, None, ctx)?;
    if i == 0 {
        both!(Associativity::Disabled, Associativity::DirectMapped, Associativity::FullyAssociative, Associativity::Unknown);
        both!(CacheType::Null, CacheType::Data, CacheType::Instruction, CacheType::Unified, CacheType::Reserved);
        both!(TopologyType::Invalid, TopologyType::SMT, TopologyType::Core, TopologyType::Module, TopologyType::Tile, TopologyType::Die);
        both!(DatType::Null, DatType::DataTLB, DatType::InstructionTLB, DatType::UnifiedTLB, DatType::LoadOnly, DatType::StoreOnly, DatType::Unknown);
        both!(ExtendedRegisterStateLocation::Xcr0, ExtendedRegisterStateLocation::Ia32Xss);
        for h in [Hypervisor::Xen, Hypervisor::VMware, Hypervisor::HyperV, Hypervisor::KVM, Hypervisor::QEMU, Hypervisor::Bhyve, Hypervisor::QNX, Hypervisor::ACRN] {
            unheaped(&h, None, ctx)?;
        }
    }
    // The descriptors of leaf 2, and the texts of the CPU.
    let t = open_base(INTEL).with(2, 0, r4(1, i as u32, 0, 0)).with(0x17, 0, r4(3, 0, 0, 0)).with(0x17, 1, r4(w, w, w, w)).with(0x8000_0002, 0, r4(w, w, w, w));
    let c = cpu(&t);
    if let Some(mut it) = c.get_cache_info() {
        while let Some(x) = it.next() {
            both!(x);
        }
    }
    if let Some(x) = c.get_soc_vendor_info().and_then(|x| x.get_vendor_brand()) {
        both!(x);
    }
    if let Some(x) = c.get_vendor_info() {
        both!(x);
    }
    if let Some(x) = c.get_processor_brand_string() {
        unheaped(&x, None, ctx)?;
    }
    ctx.traces += 1;
    Ok(())
}

/// Display and Debug texts of the i-th value of every public type that can be
/// made without a CPU, and of values computed from them.
pub fn value_text(i: u64) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    macro_rules! both { ($($x:expr),* $(,)?) => { $( { let x = $x; let _ = write!(s, "{x} {x:?} {x:#?} {x:>40} {x:.3}\n"); } )* } }
    macro_rules! debug { ($($x:expr),* $(,)?) => { $( { let x = $x; let _ = write!(s, "{x:?} {x:#?}\n"); } )* } }
    let b = i as u8;
    let w = (i as u32).wrapping_mul(0x0101_0101);
    both!(Associativity::NWay(b), ExtendedRegisterType::from(i as u32), ExtendedRegisterType::Unknown(i as u32), HierarchyLevelType::from(b), HierarchyLevelType::Unknown(b));
    debug!(Hypervisor::Unknown(w, i as u32, !w), CpuIdResult { eax: i as u32, ebx: w, ecx: !w, edx: w << 3 });
    if i == 0 {
        both!(Associativity::Disabled, Associativity::DirectMapped, Associativity::FullyAssociative, Associativity::Unknown);
        both!(CacheType::Null, CacheType::Data, CacheType::Instruction, CacheType::Unified, CacheType::Reserved);
        both!(TopologyType::Invalid, TopologyType::SMT, TopologyType::Core, TopologyType::Module, TopologyType::Tile, TopologyType::Die);
        both!(DatType::Null, DatType::DataTLB, DatType::InstructionTLB, DatType::UnifiedTLB, DatType::LoadOnly, DatType::StoreOnly, DatType::Unknown);
        both!(ExtendedRegisterStateLocation::Xcr0, ExtendedRegisterStateLocation::Ia32Xss);
        debug!(Hypervisor::Xen, Hypervisor::VMware, Hypervisor::HyperV, Hypervisor::KVM, Hypervisor::QEMU, Hypervisor::Bhyve, Hypervisor::QNX, Hypervisor::ACRN);
        debug!(CacheInfoType::General, CacheInfoType::Cache, CacheInfoType::TLB, CacheInfoType::STLB, CacheInfoType::DTLB, CacheInfoType::Prefetch);
    }
    // The descriptors of leaf 2, and the texts of the CPU.
    let t = open_base(INTEL).with(2, 0, r4(1, i as u32, 0, 0)).with(0x17, 0, r4(3, 0, 0, 0)).with(0x17, 1, r4(w, w, w, w)).with(0x8000_0002, 0, r4(w, w, w, w));
    let c = cpu(&t);
    if let Some(it) = c.get_cache_info() {
        for x in it {
            both!(x);
        }
    }
    if let Some(x) = c.get_soc_vendor_info().and_then(|x| x.get_vendor_brand()) {
        both!(x);
    }
    if let Some(x) = c.get_vendor_info() {
        both!(x);
    }
    debug!(c.get_processor_brand_string());
    s
}

pub fn c32(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let many = if t { 1 << 16 } else { 1 << 10 };
    v.push(idx(format!("Display and Debug of every value of the public enumerated types, numbers 0..{}", many - 1), many, |i, ctx| {
        ctx.describe(|| format!("value {i}"));
        value_unheaped(i, ctx)
    }));
    let run = |tb: &Table, ctx: &mut Ctx| -> Res {
        // The checker's own buffer grows before the measurement.
        ctx.obs.clear();
        ctx.obs.e.reserve(8192);
        let n0 = crate::alloc::count();
        let c = cpu(tb);
        if crate::alloc::count() != n0 {
            return Err("creating a handle allocates on the heap".into());
        }
        for g in GROUPS {
            ctx.obs.clear();
            let n = crate::alloc::count();
            (g.avail)(&c);
            if crate::alloc::count() != n {
                return Err(format!("{} allocates on the heap", g.name));
            }
            (g.obs)(&c, &mut ctx.obs);
            if crate::alloc::count() != n {
                return Err(format!("an accessor or iterator of {} allocates on the heap", g.name));
            }
            let mut s = Sink(0);
            (g.dbgw)(&c, &mut s);
            if crate::alloc::count() != n {
                return Err(format!("the Debug rendering of {} allocates on the heap", g.name));
            }
            ctx.transitions += 3;
            if ctx.count_outcome {
                let h = mix(ctx.obs.digest(), s.0);
                ctx.outcome(h);
            }
        }
        let n = crate::alloc::count();
        let mut s = Sink(0);
        let _ = std::fmt::Write::write_fmt(&mut s, format_args!("{c:?}"));
        if crate::alloc::count() != n {
            return Err("the Debug rendering of the handle allocates on the heap".into());
        }
        ctx.transitions += 2;
        ctx.traces += 1;
        Ok(())
    };
    let maxb: Vec<u32> = (0..=0x20).collect();
    let maxe: Vec<u32> = (0x8000_0000..=0x8000_0027).chain([0]).collect();
    let (nb, ne) = (maxb.len() as u64, maxe.len() as u64);
    let fills = if t { 7 } else { 3 };
    let fl = [5usize, 1, 6, 0, 2, 3, 4];
    v.push(idx(format!("{nb} maximum basic x {ne} maximum extended leaves x 4 vendors x {fills} contents: creation, all accessors, iterators and renderings"), nb * ne * 4 * fills, move |i, ctx| {
        let key = i / (nb * ne);
        let mut tb = match ctx.table.take() {
            Some((k, t)) if k == key => t,
            _ => {
                let mut r = Rich::open(VENDORS[(key % 4) as usize]);
                r.fill = fl[(key / 4) as usize];
                r.build()
            }
        };
        tb.reset_budget();
        tb.at(0, 0).a = maxb[(i % nb) as usize];
        tb.at(0x8000_0000, 0).a = maxe[(i / nb % ne) as usize];
        ctx.describe(|| format!("{} maxima {:#x} {:#x}, contents {}", VENDOR_NAMES[(key % 4) as usize], tb.get(0, 0).a, tb.get(0x8000_0000, 0).a, fl[(key / 4) as usize]));
        let r = run(&tb, ctx);
        ctx.table = Some((key, tb));
        r
    }));
    let depth = if t { 40 } else { 16 };
    v.push(idx(format!("enumerations of 0..{} entries x 4 shapes x 4 vendors x 2^3 gates x 4 contents", depth - 1), depth * 4 * 4 * 8 * 4, move |i, ctx| {
        let mut k = i;
        let mut take = |n: u64| {
            let r = k % n;
            k /= n;
            r
        };
        let (d, s, ven, g, f) = (take(depth) as u32, take(4) as usize, take(4) as usize, take(8), take(4) as usize);
        let mut r = Rich::open(VENDORS[ven]);
        (r.depth, r.subs, r.sgx, r.hyp, r.svm, r.fill) = (d, s, g & 1 == 1, g & 2 == 2, g & 4 == 4, [5, 6, 1, 0][f]);
        ctx.describe(|| format!("{r:?}"));
        run(&r.build(), ctx)
    }));
    // Every byte value in every string and descriptor position.
    v.push(idx("every byte value in every byte of the text leaves, of leaf 0 and of leaf 2", 256 * 16 * 9, move |i, ctx| {
        let (b, p, l) = ((i % 256) as u8, (i / 256 % 16) as usize, (i / 4096) as usize);
        let (leaf, sub) = [(0x8000_0002u32, 0u32), (0x8000_0003, 0), (0x8000_0004, 0), (0x17, 1), (0x17, 2), (0x17, 3), (2, 0), (0x4000_0000, 0), (0, 0)][l];
        let mut tb = match ctx.table.take() {
            Some((_, t)) => t,
            None => Rich::open(INTEL).build(),
        };
        tb.reset_budget();
        let old = tb.get(leaf, sub);
        let mut by = old.bytes();
        by[p] = b;
        tb.set(leaf, sub, R4::from_bytes(&by));
        ctx.describe(|| format!("leaf {leaf:#x}.{sub} byte {p} = {b:#x}"));
        let r = run(&tb, ctx);
        tb.set(leaf, sub, old);
        ctx.table = Some((0, tb));
        r
    }));
    v
}
