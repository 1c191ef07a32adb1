//! C11-C18: the structure of enumerations and of optional sub-leaves.
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::out::*;
use crate::rich::*;
use crate::spaces::*;

/// Fixed but arbitrary-looking contents of an answer.
pub fn word(leaf: u32, sub: u32, salt: u64) -> R4 {
    let h = |r: u64| {
        let x = mix(mix(mix(0x2545_f491 ^ salt.wrapping_mul(77), leaf as u64), sub as u64), r);
        (mix(x, 0x5bd1) >> 18) as u32
    };
    r4(h(1), h(2), h(3), h(4))
}

fn contents(kind: usize, leaf: u32, sub: u32) -> R4 {
    match kind {
        0 => word(leaf, sub, 1),
        1 => r4(!0, !0, !0, !0),
        2 => r4(0, 0, 0, 0),
        _ => word(leaf, sub, 2),
    }
}

fn set_field(r: &mut R4, reg: usize, hi: u32, lo: u32, v: u32) {
    let m = (((1u64 << (hi - lo + 1)) - 1) as u32) << lo;
    let w = r.reg_mut(reg);
    *w = *w & !m | (v << lo) & m;
}

/// An enumeration whose entries carry a type in one register field.
struct Typed {
    get: &'static str,
    leaf: u32,
    first: u32,
    reg: usize,
    hi: u32,
    lo: u32,
    /// Types that continue the enumeration, then types that end it.
    types: &'static [u32],
    valid: usize,
    vendors: &'static [usize],
    tags: Tags,
}

const CACHES_INTEL: Typed =
    Typed { get: "get_cache_parameters", leaf: 4, first: 0, reg: 0, hi: 4, lo: 0, types: &[1, 2, 3, 0, 4, 31], valid: 3, vendors: &[0, 3], tags: C12 };
const CACHES_AMD: Typed =
    Typed { get: "get_cache_parameters", leaf: 0x8000_001D, first: 0, reg: 0, hi: 4, lo: 0, types: &[1, 2, 3, 0, 4, 31], valid: 3, vendors: &[1, 2], tags: C12 };
const TOPO: Typed = Typed {
    get: "get_extended_topology_info",
    leaf: 0xB,
    first: 0,
    reg: 2,
    hi: 15,
    lo: 8,
    types: &[1, 2, 3, 4, 5, 0, 6, 0x80, 0xff],
    valid: 5,
    vendors: &[0, 1, 3],
    tags: C13,
};
const TOPO2: Typed = Typed { get: "get_extended_topology_info_v2", leaf: 0x1F, ..TOPO };
const TOPO3: Typed = Typed {
    get: "get_extended_cpu_topology",
    leaf: 0x8000_0026,
    first: 0,
    reg: 2,
    hi: 15,
    lo: 8,
    types: &[1, 2, 3, 4, 5, 0xff, 0],
    valid: 6,
    vendors: &[0, 1, 3],
    tags: C13,
};
const EPC: Typed =
    Typed { get: "get_sgx_info", leaf: 0x12, first: 2, reg: 0, hi: 3, lo: 0, types: &[1, 0, 2, 3, 8, 15], valid: 1, vendors: &[0, 1, 3], tags: C15 };

fn is_type_leaf(e: &Typed, leaf: u32, sub: u32) -> bool {
    leaf == e.leaf && sub >= e.first
}

/// Every sequence of entry types up to `depth`, entries with two or more contents.
fn typed_tree(e: &'static Typed, depth: u32, kinds: usize) -> Space {
    dfs(format!("{} leaf {:#x}: every sequence of the entry types {:?} up to {depth} entries, {kinds} contents each", e.get, e.leaf, e.types), move |ch, ctx| {
        let gi = group(e.get);
        let ven = e.vendors[ch.choose(e.vendors.len())];
        let base = open_base(VENDORS[ven]);
        let alpha = |leaf: u32, sub: u32, ch: &Chooser| {
            if is_type_leaf(e, leaf, sub) {
                if sub - e.first >= depth {
                    return R4::default();
                }
                let t = e.types[ch.choose(e.types.len())];
                let k = if kinds > 1 { ch.choose(kinds) } else { 0 };
                let mut r = contents(k, leaf, sub);
                set_field(&mut r, e.reg, e.hi, e.lo, t);
                r
            } else if matches!(leaf, 4 | 0xB | 0x1F | 0x8000_0026 | 0x8000_001D | 0x12) {
                // Other enumerations are full of entries that look valid.
                let mut r = word(leaf, sub, 9);
                match leaf {
                    4 | 0x8000_001D => set_field(&mut r, 0, 4, 0, 1),
                    0x12 => {}
                    _ => set_field(&mut r, 2, 15, 8, 1),
                }
                r
            } else {
                base.get(leaf, sub)
            }
        };
        let lz = Lazy::new(ch, &alpha);
        let r = check_group(&lz, &GROUPS[gi], e.tags, ctx);
        ctx.describe(|| {
            let m = lz.memo.borrow();
            format!("{} {}", VENDOR_NAMES[ven], m.iter().filter(|x| x.0 == e.leaf).map(|x| format!("leaf {:#x}.{}: {:?}", x.0, x.1, x.2)).collect::<Vec<_>>().join(", "))
        });
        r
    })
}

/// Every length up to 45 with every way of ending.
fn typed_long(e: &'static Typed) -> Space {
    let ends = e.types.len() - e.valid;
    let n = 46 * ends * e.valid * e.vendors.len() * 3;
    idx(format!("{} leaf {:#x}: 0..45 entries x {} types x {ends} ways to end x {} vendors x 3 contents", e.get, e.leaf, e.valid, e.vendors.len()), n as u64, move |i, ctx| {
        let mut k = i as usize;
        let mut take = |n: usize| {
            let r = k % n;
            k /= n;
            r
        };
        let (len, end, ty, ven, kind) = (take(46) as u32, take(ends), take(e.valid), e.vendors[take(e.vendors.len())], take(3));
        let mut t = open_base(VENDORS[ven]);
        for s in 0..LIM - 2 {
            let mut r = contents(kind, e.leaf, e.first + s);
            // A varied but deterministic type per entry.
            let v = e.types[(ty + s as usize * (1 + kind)) % e.valid];
            let w = e.types[e.valid + end];
            set_field(&mut r, e.reg, e.hi, e.lo, if s == len { w } else { v });
            t.set(e.leaf, e.first + s, r);
        }
        ctx.describe(|| format!("{} {len} entries, then type {}", VENDOR_NAMES[ven], e.types[e.valid + end]));
        check_group(&t, &GROUPS[group(e.get)], e.tags, ctx)
    })
}

/// Every 16-bit (32-bit) value of each register of one entry that follows `before` others.
fn entry_sweeps(e: &'static Typed, width: u32, before: u32) -> Vec<Space> {
    let mut v = vec![];
    for reg in 0..4 {
        let starts: Vec<u32> = if width == 32 { vec![0] } else { vec![0, (32 - width) / 2, 32 - width] };
        for st in starts {
            let per = 1u64 << width;
            let kinds = if width > 16 { 1 } else { 2 };
            v.push(idx(
                format!("{} leaf {:#x}: every value of bits {}..={} of {} of entry {before}", e.get, e.leaf, st, st + width - 1, ["EAX", "EBX", "ECX", "EDX"][reg]),
                per * kinds,
                move |i, ctx| {
                    let gi = group(e.get);
                    let kind = (i / per) as usize;
                    let mut t = match ctx.table.take() {
                        Some((k, t)) if k == kind as u64 => t,
                        _ => {
                            let mut t = open_base(VENDORS[e.vendors[0]]);
                            for s in 0..=before {
                                let mut r = contents(kind, e.leaf, e.first + s);
                                set_field(&mut r, e.reg, e.hi, e.lo, e.types[0]);
                                t.set(e.leaf, e.first + s, r);
                            }
                            t
                        }
                    };
                    t.reset_budget();
                    let sub = e.first + before;
                    let old = t.get(e.leaf, sub);
                    let m = (((1u64 << width) - 1) as u32) << st;
                    let w = t.at(e.leaf, sub).reg_mut(reg);
                    *w = *w & !m | (((i % per) << st) as u32);
                    ctx.describe(|| format!("leaf {:#x}.{sub}: {:?}", e.leaf, t.get(e.leaf, sub)));
                    let r = check_group(&t, &GROUPS[gi], e.tags, ctx);
                    t.set(e.leaf, sub, old);
                    ctx.table = Some((kind as u64, t));
                    r
                },
            ));
        }
    }
    v
}

/// k <= 2 deviating bits in entry 0, 3 and 7 of an 8-entry enumeration.
fn entry_bits(e: &'static Typed, k: u64) -> Space {
    let per = nsets(128 * 3, k);
    idx(format!("{} leaf {:#x}: <={k} flipped bits in entries 0, 3 and 7 of 8, 2 contents x {} vendors", e.get, e.leaf, e.vendors.len()), per * 2 * e.vendors.len() as u64, move |i, ctx| {
        let key = i / per;
        let ven = e.vendors[key as usize / 2];
        let mut t = match ctx.table.take() {
            Some((k, t)) if k == key => t,
            _ => {
                let mut t = open_base(VENDORS[ven]);
                for s in 0..8 {
                    let mut r = contents((key % 2) as usize * 3, e.leaf, e.first + s);
                    set_field(&mut r, e.reg, e.hi, e.lo, e.types[s as usize % e.valid]);
                    t.set(e.leaf, e.first + s, r);
                }
                t
            }
        };
        t.reset_budget();
        let set = unrank(i % per, 384, k);
        let flip = |t: &mut Table| {
            for &p in &set {
                let s = [0, 3, 7][(p / 128) as usize];
                *t.at(e.leaf, e.first + s).reg_mut((p / 32 % 4) as usize) ^= 1 << (p % 32);
            }
        };
        flip(&mut t);
        ctx.describe(|| format!("{} flipped {set:?} of {}", VENDOR_NAMES[ven], env_desc(&t, &[(e.leaf, e.first), (e.leaf, e.first + 3), (e.leaf, e.first + 7)])));
        let r = check_group(&t, &GROUPS[group(e.get)], e.tags, ctx);
        flip(&mut t);
        ctx.table = Some((key, t));
        r
    })
}

fn typed(e: &'static Typed, t: bool) -> Vec<Space> {
    let mut v = vec![];
    // Depths keep the trees below a few million executions.
    let wide = e.types.len() > 6;
    let (d1, d2) = match (t, wide, e.valid) {
        (_, _, 1) => (if t { 40 } else { 20 }, if t { 14 } else { 10 }),
        (false, false, _) => (9, 5),
        (false, true, _) => (6, 4),
        (true, false, _) => (13, 8),
        (true, true, _) => (9, 6),
    };
    v.push(typed_tree(e, d1, 1));
    v.push(typed_tree(e, d2, 3));
    v.push(typed_long(e));
    v.push(entry_bits(e, if t { 3 } else { 2 }));
    v.extend(entry_sweeps(e, 16, 0));
    v.extend(entry_sweeps(e, 16, 4));
    if t {
        v.extend(entry_sweeps(e, 24, 0));
        v.extend(entry_sweeps(e, 24, 3));
    }
    v
}

/// After the end, iterating again stays at the end.
fn stays_ended<T>(it: &mut impl Iterator<Item = T>, ctx: &mut Ctx, name: &str) -> Res {
    let mut n = 0;
    while it.next().is_some() {
        n += 1;
        if n > 4096 {
            return Err(format!("{name}: more than 4096 items"));
        }
    }
    for k in 0..6 {
        if it.next().is_some() {
            return Err(format!("{name}: yields an item again {} calls after its end", k + 1));
        }
    }
    ctx.transitions += 6;
    ctx.traces += 1;
    Ok(())
}

pub fn c12(t: bool) -> Vec<Space> {
    let mut v = fields(C12, &groups_with(C12), t);
    v.extend(typed(&CACHES_INTEL, t));
    v.extend(typed(&CACHES_AMD, t));
    for e in [&CACHES_INTEL, &CACHES_AMD] {
        v.push(dfs(format!("leaf {:#x}: the ended iteration stays ended, every sequence of types up to 6 entries, entries after the end look valid", e.leaf), move |ch, ctx| {
            let base = open_base(VENDORS[e.vendors[0]]);
            let alpha = |leaf: u32, sub: u32, ch: &Chooser| {
                if leaf == e.leaf {
                    let t = if sub < 6 { e.types[ch.choose(e.types.len())] } else { (sub % 7 != 6) as u32 };
                    let mut r = word(leaf, sub, 5);
                    set_field(&mut r, 0, 4, 0, t);
                    r
                } else {
                    base.get(leaf, sub)
                }
            };
            let lz = Lazy::new(ch, &alpha);
            let c = cpu(&lz);
            let r = match c.get_cache_parameters() {
                None => Ok(()), // availability is C01's business
                Some(mut it) => stays_ended(&mut it, ctx, "cache parameters"),
            };
            r
        }));
    }
    v.push(idx("the size a cache encodes is the product of its parts, 12^4 boundary values", 12 * 12 * 12 * 12, |i, ctx| {
        const B: [u32; 12] = [0, 1, 2, 7, 15, 63, 127, 255, 511, 1022, 1023, 512];
        let s = [0u32, 1, 2, 63, 511, 4095, 8191, 65535, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
        let (w, p, l, n) = (B[i as usize % 12], B[i as usize / 12 % 12], B[i as usize / 144 % 12] * 4 + 3 & 0xfff, s[i as usize / 1728]);
        let r = r4(1, l | p << 12 | w << 22, n, 0);
        let t = open_base(INTEL).with(4, 0, r);
        ctx.describe(|| format!("leaf 4: {r:?}"));
        let c = cpu(&t);
        let x = c.get_cache_parameters().and_then(|mut i| i.next()).ok_or("no cache parameters")?;
        let have = x.associativity() as u128 * x.physical_line_partitions() as u128 * x.coherency_line_size() as u128 * x.sets() as u128;
        // A usize of 32 bits cannot hold 2^32 sets.
        let sets = if crate::known::listed("sets-usize-32bit") { (n as u128 + 1).min(usize::MAX as u128) } else { n as u128 + 1 };
        let want = (w as u128 + 1) * (p as u128 + 1) * (l as u128 + 1) * sets;
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.outcome(have as u64 ^ (have >> 64) as u64);
        if have != want {
            return Err(format!("size {have}, expected {want}"));
        }
        Ok(())
    }));
    v
}

pub fn c13(t: bool) -> Vec<Space> {
    let mut v = fields(C13, &groups_with(C13), t);
    for e in [&TOPO, &TOPO2, &TOPO3] {
        v.extend(typed(e, t));
    }
    v
}

pub fn c15(t: bool) -> Vec<Space> {
    let mut v = fields(C15, &groups_with(C15), t);
    v.extend(typed(&EPC, t));
    // The whole of sub-leaves 0 and 1 next to every number of sections.
    v.push(idx("SGX capabilities next to 0..40 sections, 4 contents, 4 vendors", 41 * 16, |i, ctx| {
        let (n, k, ven) = ((i % 41) as u32, (i / 41 % 4) as usize, (i / 164) as usize);
        let mut t = open_base(VENDORS[ven]);
        for s in 0..2 {
            t.set(0x12, s, contents(k, 0x12, s));
        }
        for s in 0..n {
            let mut r = contents(3, 0x12, 2 + s);
            set_field(&mut r, 0, 3, 0, 1);
            t.set(0x12, 2 + s, r);
        }
        ctx.describe(|| format!("{n} sections, {}", env_desc(&t, &[(0x12, 0), (0x12, 1)])));
        check_group(&t, &GROUPS[group("get_sgx_info")], C15, ctx)
    }));
    v
}

pub fn c14(t: bool) -> Vec<Space> {
    let mut v = fields(C14, &groups_with(C14), t);
    let xcr0: Vec<u32> = (0..32).filter(|b| XCR0_DEFINED >> b & 1 == 1).collect();
    let xss: Vec<u32> = (0..32).filter(|b| XSS_DEFINED >> b & 1 == 1).collect();
    let bits = (xcr0.len() + xss.len()) as u32;
    let kinds = if t { 4 } else { 2 };
    let spread = {
        let (xcr0, xss) = (xcr0.clone(), xss.clone());
        move |i: u64| {
            let (mut a, mut c) = (0u32, 0u32);
            for (k, b) in xcr0.iter().enumerate() {
                a |= ((i >> k & 1) as u32) << b;
            }
            for (k, b) in xss.iter().enumerate() {
                c |= ((i >> (xcr0.len() + k) & 1) as u32) << b;
            }
            (a, c)
        }
    };
    let state = move |t: &mut Table, kind: usize| {
        for s in 0..32 {
            t.set(0xD, s, contents(kind, 0xD, s));
        }
    };
    let sp = spread.clone();
    v.push(idx(format!("every one of the 2^{} XCR0 and IA32_XSS masks over the defined components, {kinds} contents", bits), (1u64 << bits) * kinds, move |i, ctx| {
        let kind = (i >> bits) as usize;
        let mut tb = match ctx.table.take() {
            Some((k, t)) if k == kind as u64 => t,
            _ => {
                let mut t = open_base(INTEL);
                state(&mut t, kind);
                t
            }
        };
        tb.reset_budget();
        let (a, c) = sp(i & ((1 << bits) - 1));
        tb.at(0xD, 0).a = a;
        tb.at(0xD, 1).c = c;
        ctx.describe(|| env_desc(&tb, &[(0xD, 0), (0xD, 1)]));
        let r = check_group(&tb, &GROUPS[group("get_extended_state_info")], C14, ctx);
        ctx.table = Some((kind as u64, tb));
        r
    }));
    // Bits that stand for no architectural component: 20..31 of both masks,
    // and the XCR0 components in IA32_XSS.
    let und: Vec<(u32, u32)> = (20..32).map(|b| (0, b)).chain((0..8).chain([9, 17, 18]).chain(20..32).map(|b| (1, b))).collect();
    let n = und.len() as u64;
    let k = if t { 4 } else { 2 };
    let per = nsets(n, k);
    v.push(idx(format!("<={k} of {n} bits that are no defined component, over 64 masks"), per * 64, move |i, ctx| {
        let (mut a, mut c) = spread(mix(77, i / per) >> 20 & ((1 << bits) - 1));
        for p in unrank(i % per, n, k) {
            let (w, b) = und[p as usize];
            *(if w == 0 { &mut a } else { &mut c }) |= 1 << b;
        }
        let mut tb = open_base(INTEL);
        state(&mut tb, 0);
        tb.at(0xD, 0).a = a;
        tb.at(0xD, 1).c = c;
        ctx.describe(|| env_desc(&tb, &[(0xD, 0), (0xD, 1)]));
        check_group(&tb, &GROUPS[group("get_extended_state_info")], C14, ctx)
    }));
    // Each component's own sub-leaf, bit by bit.
    let comps: Vec<u32> = (2..32).filter(|b| (XCR0_DEFINED | XSS_DEFINED) >> b & 1 == 1).collect();
    let nb = comps.len() as u64 * 128;
    let kk = 2;
    let per = nsets(nb, kk);
    let all = comps.clone();
    v.push(idx(format!("10^4 extreme contents of each of the {} component sub-leaves, all components present and it alone", comps.len()), 20_000 * comps.len() as u64, move |i, ctx| {
        let mut tb = match ctx.table.take() {
            Some((_, t)) => t,
            _ => {
                let mut t = open_base(INTEL);
                state(&mut t, 0);
                t
            }
        };
        tb.reset_budget();
        let c = all[(i / 20_000) as usize];
        let only = if i / 10_000 % 2 == 0 { !0 } else { 1 << c };
        tb.at(0xD, 0).a = XCR0_DEFINED & only;
        tb.at(0xD, 1).c = XSS_DEFINED & only;
        let old = tb.get(0xD, c);
        let x = |k: u32| EXTREMES[(i / 10u64.pow(k) % 10) as usize];
        tb.set(0xD, c, r4(x(0), x(1), x(2), x(3)));
        ctx.describe(|| env_desc(&tb, &[(0xD, 0), (0xD, 1), (0xD, c)]));
        let r = check_group(&tb, &GROUPS[group("get_extended_state_info")], C14, ctx);
        tb.set(0xD, c, old);
        ctx.table = Some((0, tb));
        r
    }));
    let kinds = if t { 3 } else { 2 };
    v.push(idx(format!("<={kk} flipped bits of the {} component sub-leaves, all components present, {kinds} contents", comps.len()), per * kinds, move |i, ctx| {
        let key = i / per;
        let i = i % per;
        let mut tb = match ctx.table.take() {
            Some((k, t)) if k == key => t,
            _ => {
                let mut t = open_base(INTEL);
                state(&mut t, 0);
                if key > 0 {
                    for &c in &comps {
                        t.set(0xD, c, BACKGROUNDS[key as usize - 1]);
                    }
                }
                t.at(0xD, 0).a = XCR0_DEFINED;
                t.at(0xD, 1).c = XSS_DEFINED;
                t
            }
        };
        tb.reset_budget();
        let set = unrank(i, nb, kk);
        let flip = |t: &mut Table| {
            for &p in &set {
                *t.at(0xD, comps[(p / 128) as usize]).reg_mut((p / 32 % 4) as usize) ^= 1 << (p % 32);
            }
        };
        flip(&mut tb);
        ctx.describe(|| format!("flipped {set:?}"));
        let r = check_group(&tb, &GROUPS[group("get_extended_state_info")], C14, ctx);
        flip(&mut tb);
        ctx.table = Some((key, tb));
        r
    }));
    v
}

pub fn c16(t: bool) -> Vec<Space> {
    let mut v = fields(C16, &groups_with(C16), t);
    let gi = group("get_deterministic_address_translation_info");
    let types: &'static [u32] = &[0, 1, 5, 6, 31];
    let depth = if t { 8 } else { 6 };
    v.push(dfs(format!("every maximum 0..{depth} and every sequence of the types {types:?}, valid-looking ones beyond"), move |ch, ctx| {
        let ven = ch.choose(2);
        let base = open_base(VENDORS[ven]);
        let max = ch.choose(depth as usize + 1) as u32;
        let alpha = |leaf: u32, sub: u32, ch: &Chooser| {
            if leaf == 0x18 {
                let mut r = word(leaf, sub, 3);
                let ty = if sub <= max { types[ch.choose(types.len())] } else { 1 };
                set_field(&mut r, 3, 4, 0, ty);
                if sub == 0 {
                    r.a = max
                }
                r
            } else {
                base.get(leaf, sub)
            }
        };
        let lz = Lazy::new(ch, &alpha);
        let r = check_group(&lz, &GROUPS[gi], C16, ctx);
        ctx.describe(|| format!("{} maximum {max}, types {:?}", VENDOR_NAMES[ven], lz.memo.borrow().iter().filter(|x| x.0 == 0x18).map(|x| (x.1, x.2.d & 0x1f)).collect::<Vec<_>>()));
        if r.is_ok() {
            if let Some(mut it) = cpu(&lz).get_deterministic_address_translation_info() {
                stays_ended(&mut it, ctx, "address translation")?;
            }
        }
        r
    }));
    // Which sub-leaves are valid: all subsets of 12 (16).
    let n = if t { 20u32 } else { 13 };
    v.push(idx(format!("every subset of valid sub-leaves among {n}, every maximum below"), (1u64 << n) * n as u64, move |i, ctx| {
        let (set, max) = (i & ((1 << n) - 1), (i >> n) as u32);
        let mut tb = match ctx.table.take() {
            Some((_, t)) => t,
            _ => open_base(INTEL),
        };
        tb.reset_budget();
        for s in 0..n {
            let mut r = word(0x18, s, 4);
            set_field(&mut r, 3, 4, 0, if set >> s & 1 == 1 { 1 + s % 5 } else { 0 });
            if s == 0 {
                r.a = max
            }
            tb.set(0x18, s, r);
        }
        ctx.describe(|| format!("valid sub-leaves {set:#b}, maximum {max}"));
        let r = check_group(&tb, &GROUPS[gi], C16, ctx);
        ctx.table = Some((0, tb));
        r
    }));
    // Long ranges, few valid entries, valid-looking ones right after the maximum.
    const MAXES: [u32; 22] = [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 37, 38, 39, 63, 64, 127, 255, 256, 257, 1000, 4095, 65536];
    v.push(idx("maxima up to 65536, valid entries at the ends and in the middle", 22 * 16, move |i, ctx| {
        let (max, pat) = (MAXES[i as usize % 22], i / 22);
        let mut tb = open_base(INTEL);
        let at = [0, max / 2, max.saturating_sub(1), max];
        tb.at(0x18, 0).a = max;
        for (k, s) in at.iter().enumerate() {
            if pat >> k & 1 == 1 {
                let mut r = word(0x18, *s, 4);
                set_field(&mut r, 3, 4, 0, 2);
                if *s == 0 {
                    r.a = max
                }
                tb.set(0x18, *s, r);
            }
        }
        for s in 1..4 {
            let mut r = word(0x18, max + s, 4);
            set_field(&mut r, 3, 4, 0, 3);
            tb.set(0x18, max + s, r);
        }
        tb.reset_budget();
        ctx.describe(|| format!("maximum {max}, valid entries {:?}", at.iter().enumerate().filter(|x| pat >> x.0 & 1 == 1).map(|x| x.1).collect::<Vec<_>>()));
        check_group(&tb, &GROUPS[gi], C16, ctx)
    }));
    // Values of a later entry.
    for reg in 0..4 {
        for st in [0u32, 8, 16] {
            v.push(idx(format!("every value of bits {st}..={} of {} of sub-leaf 3", st + 15, ["EAX", "EBX", "ECX", "EDX"][reg]), 1 << 16, move |i, ctx| {
                let mut tb = open_base(INTEL);
                for s in 0..4 {
                    let mut r = word(0x18, s, 6);
                    set_field(&mut r, 3, 4, 0, 1 + s);
                    if s == 0 {
                        r.a = 4
                    }
                    tb.set(0x18, s, r);
                }
                let w = tb.at(0x18, 3).reg_mut(reg);
                *w = *w & !(0xffff << st) | (i as u32) << st;
                ctx.describe(|| env_desc(&tb, &[(0x18, 3)]));
                check_group(&tb, &GROUPS[gi], C16, ctx)
            }));
        }
    }
    v
}

pub fn c17(t: bool) -> Vec<Space> {
    let mut v = fields(C17, &groups_with(C17), t);
    let gi = group("get_soc_vendor_info");
    const MAXES: [u32; 30] =
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 19, 20, 31, 32, 38, 39, 255, 256, 259, 260, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX];
    let kinds = 6u64;
    v.push(idx("30 maximum sub-leaves x 6 contents x 4 vendors, garbage beyond the maximum", 30 * kinds * 4, move |i, ctx| {
        let (max, kind, ven) = (MAXES[i as usize % 30], (i / 30 % kinds) as usize, (i / 30 / kinds) as usize);
        let mut tb = open_base(VENDORS[ven]);
        for s in 0..SUBS as u32 {
            let mut r = match kind {
                0 => word(0x17, s, 7),
                1 => r4(!0, !0, !0, !0),
                2 => r4(0, 0, 0, 0),
                // Valid text, told apart by position.
                3 => r4(0x4141_4141 + s * 0x0101_0101, 0x6162_6364, 0x3031_3233 + s, 0x2020_2020),
                4 => r4(s, s + 1, s + 2, s + 3),
                _ => word(0x17, s, 8),
            };
            if s == 0 {
                r.a = max
            }
            tb.set(0x17, s, r);
        }
        ctx.describe(|| format!("{} maximum sub-leaf {max}, contents {kind}", VENDOR_NAMES[ven]));
        check_group(&tb, &GROUPS[gi], C17, ctx)?;
        // Sub-structures that come and go do not move the others.
        if max < 300 {
            if let Some(mut it) = cpu(&tb).get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()) {
                stays_ended(&mut it, ctx, "vendor attributes")?;
            }
        }
        Ok(())
    }));
    // Brand and attributes, byte by byte.
    v.push(idx("<=1 flipped bit of sub-leaves 0..12, for every maximum 0..12", 13 * nsets(13 * 128, 1), move |i, ctx| {
        let per = nsets(13 * 128, 1);
        let max = (i / per) as u32;
        let mut tb = open_base(INTEL);
        for s in 0..14 {
            tb.set(0x17, s, r4(0x4141_4141, 0x4242_4242, 0x4343_4343 + s, 0x4444_4444));
        }
        for p in unrank(i % per, 13 * 128, 1) {
            *tb.at(0x17, (p / 128) as u32).reg_mut((p / 32 % 4) as usize) ^= 1 << (p % 32);
        }
        tb.at(0x17, 0).a = max;
        ctx.describe(|| format!("maximum {max}, {}", env_desc(&tb, &[(0x17, 0)])));
        check_group(&tb, &GROUPS[gi], C17, ctx)
    }));
    v
}

pub fn c18(t: bool) -> Vec<Space> {
    let mut v = fields(C18, &groups_with(C18), t);
    // Every flag pattern x which sub-leaf carries which contents.
    let gs: [(&str, u32, u32, usize, u32); 4] = [
        ("get_rdt_monitoring_info", 0xF, 2, 3, 4),
        ("get_rdt_allocation_info", 0x10, 5, 1, 5),
        ("get_pqos_extended_feature_info", 0x8000_0020, 8, 1, 8),
        ("get_processor_trace_info", 0x14, 3, 0, 3),
    ];
    for (name, leaf, nsub, reg, bits) in gs {
        let gi = group(name);
        let kinds = 4u64;
        let combos = kinds.pow(nsub.min(5));
        v.push(idx(format!("{name}: every value of the low {bits} flag bits x all assignments of {kinds} contents to {} sub-leaves x other flag-register bits set or clear x 4 vendors", nsub.min(5)), (1u64 << bits) * combos * 2 * 4, move |i, ctx| {
            let flags = (i & ((1 << bits) - 1)) as u32;
            let mut k = i >> bits;
            let ven = (k % 4) as usize;
            k /= 4;
            let high = k % 2 == 1;
            k /= 2;
            let mut tb = open_base(VENDORS[ven]);
            for s in 0..nsub {
                // Sub-leaves beyond the fifth repeat the contents of the first ones.
                let kind = (k / kinds.pow(s % 5) % kinds) as usize;
                tb.set(leaf, s, contents(kind, leaf, s));
            }
            *tb.at(leaf, 0).reg_mut(reg) = if high { !0 << bits | flags } else { flags };
            ctx.describe(|| format!("{} {}", VENDOR_NAMES[ven], env_desc(&tb, &(0..nsub).map(|s| (leaf, s)).collect::<Vec<_>>())));
            check_group(&tb, &GROUPS[gi], C18, ctx)
        }));
        // A capability's data is the same whatever the other capabilities are.
        let per = nsets(nsub as u64 * 128, if t { 3 } else { 2 });
        if nsub <= 5 {
            v.push(idx(format!("{name}: <={} flipped bits of {nsub} sub-leaves, all capabilities flagged and none", if t { 3 } else { 2 }), per * 2, move |i, ctx| {
                let on = i / per == 1;
                let mut tb = match ctx.table.take() {
                    Some((k, t)) if k == i / per => t,
                    _ => {
                        let mut tb = open_base(INTEL);
                        for s in 0..nsub {
                            tb.set(leaf, s, word(leaf, s, 11));
                        }
                        *tb.at(leaf, 0).reg_mut(reg) = if on { !0 } else { 0 };
                        tb
                    }
                };
                tb.reset_budget();
                let set = unrank(i % per, nsub as u64 * 128, if t { 3 } else { 2 });
                let flip = |tb: &mut Table| {
                    for &p in &set {
                        *tb.at(leaf, (p / 128) as u32).reg_mut((p / 32 % 4) as usize) ^= 1 << (p % 32);
                    }
                };
                flip(&mut tb);
                ctx.describe(|| env_desc(&tb, &(0..nsub).map(|s| (leaf, s)).collect::<Vec<_>>()));
                let r = check_group(&tb, &GROUPS[gi], C18, ctx);
                flip(&mut tb);
                ctx.table = Some((i / per, tb));
                r
            }));
        }
    }
    v.push(idx("trace: maximum sub-leaf values (every power of two, its neighbours) x 4 contents", 99 * 4, |i, ctx| {
        let (j, k) = (i % 99, (i / 99) as usize);
        let a = match j {
            0..=95 => (1u64 << (j / 3)).wrapping_add(j % 3).wrapping_sub(1) as u32,
            96 => u32::MAX,
            97 => u32::MAX - 1,
            _ => 12345,
        };
        let mut tb = open_base(INTEL);
        for s in 0..3 {
            tb.set(0x14, s, contents(k, 0x14, s));
        }
        tb.at(0x14, 0).a = a;
        ctx.describe(|| env_desc(&tb, &[(0x14, 0), (0x14, 1)]));
        check_group(&tb, &GROUPS[group("get_processor_trace_info")], C18, ctx)
    }));
    v
}

pub fn c11(t: bool) -> Vec<Space> {
    let gi = group("get_cache_info");
    let put = |b: &[(usize, u8)], fill: u8, al: u8, high: u32| {
        let mut w = [fill; 16];
        w[0] = al;
        for &(p, v) in b {
            w[p] = v;
        }
        // Position p is byte p/4 of register p%4.
        let mut r = R4::default();
        for (p, v) in w.iter().enumerate() {
            *r.reg_mut(p % 4) |= (*v as u32) << (8 * (p / 4));
        }
        for k in 0..4 {
            if high >> k & 1 == 1 {
                *r.reg_mut(k) |= 1 << 31;
            }
        }
        r
    };
    let run = move |r: R4, ven: usize, ctx: &mut Ctx| {
        let mut tb = match ctx.table.take() {
            Some((_, t)) => t,
            _ => open_base(INTEL),
        };
        tb.reset_budget();
        tb.at(0, 0).b = VENDORS[ven][0];
        tb.at(0, 0).c = VENDORS[ven][2];
        tb.at(0, 0).d = VENDORS[ven][1];
        tb.set(2, 0, r);
        ctx.describe(|| format!("{} leaf 2: {r:?}", VENDOR_NAMES[ven]));
        let x = check_group(&tb, &GROUPS[gi], C11, ctx);
        if x.is_ok() {
            ctx.table = Some((0, tb));
        }
        x
    };
    const CTX: [u8; 6] = [0x00, 0xff, 0x07, 0x2c, 0x5a, 0xff];
    let mut v = context(gi, C11, t);
    v.push(idx("every byte at every position, 5 other bytes, 16 bit-31 patterns, Intel and an unknown vendor, 4 values of AL", 256 * 16 * 5 * 16 * 2 * 4, move |i, ctx| {
        let (b, p, c, h, ven, al) = (i as u8, (i >> 8 & 15) as usize, (i >> 12) % 5, ((i >> 12) / 5 & 15) as u32, ((i >> 12) / 80 & 1) as usize * 3, (i >> 12) / 160);
        let mut r = put(&[(p, b)], CTX[c as usize], 1, h);
        if p != 0 {
            r.a = r.a & !0xff | [1, 0, 0x2c, 0xff][al as usize];
        }
        run(r, ven, ctx)
    }));
    v.push(idx("every pair of bytes at every pair of positions, zeros elsewhere", 105 * 65536, move |i, ctx| {
        let (pair, a, b) = (i >> 16, i as u8, (i >> 8) as u8);
        let mut k = pair;
        let (mut p, mut q) = (1usize, 2usize);
        while k > 0 {
            k -= 1;
            q += 1;
            if q > 15 {
                p += 1;
                q = p + 1;
            }
        }
        run(put(&[(p, a), (q, b)], 0, 1, 0), 0, ctx)
    }));
    v.push(idx("every pair of bytes at neighbouring positions, a descriptor everywhere else", 14 * 65536, move |i, ctx| {
        let (p, a, b) = ((i >> 16) as usize + 1, i as u8, (i >> 8) as u8);
        run(put(&[(p, a), (p + 1, b)], 0x5a, 1, 0), 0, ctx)
    }));
    v.push(idx("every value of AL x 16 bit-31 patterns x 5 other bytes", 256 * 16 * 5, move |i, ctx| run(put(&[], CTX[(i >> 12) as usize], i as u8, (i >> 8 & 15) as u32), 0, ctx)));
    // Every pattern of {null, unknown, known} over the positions.
    let n = if t { 15 } else { 13 };
    let per = 3u64.pow(n);
    let highs = if t { 16 } else { 1 };
    v.push(idx(format!("every assignment of {{null, undocumented, documented}} to {n} positions, {highs} bit-31 patterns"), per * highs, move |i, ctx| {
        let (mut k, h) = (i % per, (i / per) as u32);
        let mut b = vec![];
        for p in 0..n as usize {
            let p = p + 16 - n as usize;
            b.push((p, [0x00, 0x07, 0x21 + (p as u8 & 1)][(k % 3) as usize]));
            k /= 3;
        }
        run(put(&b, 0, 1, h), 0, ctx)
    }));
    // Duplicates: two alternating descriptors over all 15 positions.
    v.push(idx("every assignment of two documented descriptors to the 15 positions", 1 << 15, move |i, ctx| {
        let b: Vec<(usize, u8)> = (1..16).map(|p| (p, if i >> (p - 1) & 1 == 1 { 0x2c } else { 0x7f })).collect();
        run(put(&b, 0, 1, 0), 0, ctx)
    }));
    if t {
        v.push(idx("every triple of 64 selected bytes at neighbouring positions, three other bytes", 13 * 64 * 64 * 64 * 3, move |i, ctx| {
            const S: u64 = 64;
            let sel = |k: u64| (k * 4 + k / 16) as u8;
            let (a, b, c, r) = (sel(i % S), sel(i / S % S), sel(i / S / S % S), i / S / S / S);
            let p = (r % 13) as usize + 1;
            run(put(&[(p, a), (p + 1, b), (p + 2, c)], CTX[(r / 13) as usize], 1, 0), 0, ctx)
        }));
        for reg in 0..4 {
            v.push(idx(format!("every 32-bit value of {}", ["EAX", "EBX", "ECX", "EDX"][reg]), 1 << 32, move |i, ctx| {
                let mut r = R4::default();
                *r.reg_mut(reg) = i as u32;
                run(r, 0, ctx)
            }));
        }
    }
    v
}

pub const SIGS: [&[u8; 12]; 12] = [
    b"XenVMMXenVMM",
    b"VMwareVMware",
    b"Microsoft Hv",
    b"KVMKVMKVM\0\0\0",
    b"TCGTCGTCGTCG",
    b"bhyve bhyve ",
    b"BHyVE BHyVE ",
    b"QNXQVMBSQG\0\0",
    b"ACRNACRNACRN",
    b"\0\0\0\0\0\0\0\0\0\0\0\0",
    b"lrpepyh  vr ",
    b"VBoxVBoxVBox",
];
pub fn c19(t: bool) -> Vec<Space> {
    let gi = group("get_hypervisor_info");
    const MAXES: [u32; 16] = [
        0x4000_0000, 0x4000_0001, 0x4000_0005, 0x4000_000a, 0x4000_000f, 0x4000_0010, 0x4000_0011, 0x4000_0082, 0x4000_ffff, 1, 0x10, 0x3fff_ffff, 0x8000_0000, 0x8000_0010, u32::MAX, 0x2000_0010,
    ];
    let run = move |max: u32, sig: [u32; 3], fr: R4, ven: usize, ctx: &mut Ctx| {
        let mut tb = match ctx.table.take() {
            Some((_, t)) => t,
            _ => open_base(INTEL),
        };
        tb.reset_budget();
        tb.set(0, 0, leaf0(0x20, VENDORS[ven]));
        tb.set(0x4000_0000, 0, r4(max, sig[0], sig[1], sig[2]));
        tb.set(0x4000_0010, 0, fr);
        ctx.describe(|| format!("{} {}", VENDOR_NAMES[ven], env_desc(&tb, &[(0x4000_0000, 0), (0x4000_0010, 0)])));
        let r = check_group(&tb, &GROUPS[gi], C19, ctx);
        if r.is_ok() {
            ctx.table = Some((0, tb));
        }
        r
    };
    let words = |s: &[u8; 12]| vendor_words(s);
    let mut v = context(gi, C19, t);
    v.extend(extremes(gi, C19));
    v.push(idx("every mixture of the registers of 12 signatures x 16 maximum leaves x 4 vendors", 12 * 12 * 12 * 16 * 4, move |i, ctx| {
        let k = i as usize;
        let (a, b, c) = (words(SIGS[k % 12])[0], words(SIGS[k / 12 % 12])[1], words(SIGS[k / 144 % 12])[2]);
        run(MAXES[k / 1728 % 16], [a, b, c], word(0x4000_0010, 0, 1), k / 1728 / 16, ctx)
    }));
    v.push(idx("every permutation of the registers of 12 signatures, every rotation by bytes, reversed and byte-swapped words", 12 * (6 + 12 + 2) * 2, move |i, ctx| {
        let s = SIGS[i as usize % 12];
        let (k, max) = ((i / 12 % 20) as usize, [0x4000_000f, 0x4000_0010][(i / 240) as usize]);
        let w = words(s);
        const P: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        let sig = match k {
            0..=5 => [w[P[k][0]], w[P[k][1]], w[P[k][2]]],
            6..=17 => {
                let mut b = *s;
                b.rotate_left(k - 6);
                words(&b)
            }
            18 => [w[0].swap_bytes(), w[1].swap_bytes(), w[2].swap_bytes()],
            _ => {
                let mut b = *s;
                b.reverse();
                words(&b)
            }
        };
        run(max, sig, word(0x4000_0010, 0, 2), 0, ctx)
    }));
    v.push(idx("every other value of every byte of 12 signatures", 12 * 12 * 256, move |i, ctx| {
        let mut s = *SIGS[(i / 3072) as usize];
        s[(i / 256 % 12) as usize] = i as u8;
        run(0x4000_0010, words(&s), word(0x4000_0010, 0, 3), (i % 4) as usize, ctx)
    }));
    let k = if t { 4 } else { 3 };
    let per = nsets(96, k);
    v.push(idx(format!("<={k} flipped bits of 12 signatures"), 12 * per, move |i, ctx| {
        let mut w = words(SIGS[(i / per) as usize]);
        for p in unrank(i % per, 96, k) {
            w[p as usize / 32] ^= 1 << (p % 32);
        }
        run(0x4000_0010, w, word(0x4000_0010, 0, 4), 0, ctx)
    }));
    v.push(idx("every 16-bit half of the maximum hypervisor leaf around the boundary", 3 << 16, move |i, ctx| {
        let a = match i >> 16 {
            0 => 0x4000_0000 | (i as u32 & 0xffff),
            1 => (i as u32) << 16 | 0x10,
            _ => (i as u32) << 16 | 0xf,
        };
        if a == 0 {
            return Ok(());
        }
        run(a, words(SIGS[(i % 12) as usize]), word(0x4000_0010, 0, 5), 0, ctx)
    }));
    let per = nsets(128, 2);
    v.push(idx("<=2 flipped bits of the frequency leaf, advertised and not", per * 4, move |i, ctx| {
        let mut r = if i / per % 2 == 0 { R4::default() } else { r4(!0, !0, !0, !0) };
        for p in unrank(i % per, 128, 2) {
            *r.reg_mut(p as usize / 32) ^= 1 << (p % 32);
        }
        run(if i / per < 2 { 0x4000_0010 } else { 0x4000_000f }, words(SIGS[3]), r, 0, ctx)
    }));
    if t {
        for reg in 0..3 {
            v.push(idx(format!("every 32-bit value of signature register {}, next to KVM's two others", ["EBX", "ECX", "EDX"][reg]), 1 << 32, move |i, ctx| {
                let mut w = words(SIGS[3]);
                w[reg] = i as u32;
                run(0x4000_0010, w, R4::default(), 0, ctx)
            }));
        }
        v.push(idx("every 32-bit maximum hypervisor leaf", (1 << 32) - 1, move |i, ctx| run(i as u32 + 1, words(SIGS[1]), r4(5, 6, 7, 8), 0, ctx)));
    }
    let _ = Rich::open;
    v
}
