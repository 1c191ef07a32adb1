//! C01: availability. C05: vendor switching.
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::out::*;
use crate::rich::*;
use crate::spaces::*;

fn check_avail(t: &dyn Src, ctx: &mut Ctx) -> Res {
    let c = cpu(t);
    let m = M::new(t);
    let mut bits = 0u64;
    for (i, g) in GROUPS.iter().enumerate() {
        let (a, want) = ((g.avail)(&c), (g.gate)(&m));
        if a != want {
            return Err(format!("{}: available is {a}, but the CPU advertises {want}", g.name));
        }
        bits |= (a as u64) << i;
    }
    ctx.transitions += GROUPS.len() as u64;
    ctx.traces += 1;
    ctx.outcome(bits);
    Ok(())
}

fn max_basic() -> Vec<u32> {
    let mut v: Vec<u32> = (0..=0x24).collect();
    v.extend([0x28, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x1_0000, 0x3fff_ffff, 0x4000_0000, 0x4000_0010, 0x7fff_ffff, 0x8000_0000, 0x8000_0008, 0x8000_0026, 0xffff_ffff]);
    v
}
fn max_ext() -> Vec<u32> {
    let mut v: Vec<u32> = (0x8000_0000..=0x8000_002a).collect();
    v.extend([0, 1, 0x1f, 0x20, 0x26, 0xff, 0x4000_0026, 0x7fff_ffff, 0x8000_00ff, 0x8000_0100, 0x8001_0000, 0x8fff_ffff, 0xc000_0000, 0xffff_ffff]);
    v
}

pub fn c01(thorough: bool) -> Vec<Space> {
    let (mb, me) = (max_basic(), max_ext());
    let hyp_eax = [0u32, 1, 0x4000_0000, 0x4000_0010, 0xffff_ffff];
    let vendors: Vec<[u32; 3]> = vec![INTEL, AMD, HYGON, CENTAUR, [0, 0, 0]];
    let fills = [BACKGROUNDS[0], BACKGROUNDS[1], BACKGROUNDS[4], BACKGROUNDS[2], BACKGROUNDS[3]];
    let nf = if thorough { 5 } else { 3 };
    let n = (vendors.len() * nf * 8 * hyp_eax.len() * me.len() * mb.len()) as u64;
    let mut v = vec![idx(
        format!("{} vendors x {} fills x 8 gate patterns x {} hypervisor maxima x {} maximum extended leaves x {} maximum basic leaves", vendors.len(), nf, hyp_eax.len(), me.len(), mb.len()),
        n,
        move |i, ctx| {
            let mut k = i;
            let mut take = |n: usize| {
                let r = (k % n as u64) as usize;
                k /= n as u64;
                r
            };
            let (b, e, h, g, f, ven) = (take(mb.len()), take(me.len()), take(hyp_eax.len()), take(8), take(nf), take(vendors.len()));
            let mut t = match ctx.table.take() {
                Some((key, t)) if key == f as u64 => t,
                _ => Table::new(fills[f]),
            };
            t.reset_budget();
            t.set(0, 0, leaf0(mb[b], vendors[ven]));
            t.at(0x8000_0000, 0).a = me[e];
            t.at(0x4000_0000, 0).a = hyp_eax[h];
            let bit = |r: &mut u32, n: u32, on: bool| *r = *r & !(1 << n) | (on as u32) << n;
            bit(&mut t.at(1, 0).c, 31, g & 1 == 1);
            bit(&mut t.at(7, 0).b, 2, g & 2 == 2);
            bit(&mut t.at(0x8000_0001, 0).c, 2, g & 4 == 4);
            ctx.describe(|| env_desc(&t, &[(0, 0), (1, 0), (7, 0), (0x4000_0000, 0), (0x8000_0000, 0), (0x8000_0001, 0)]));
            let r = check_avail(&t, ctx);
            ctx.table = Some((f as u64, t));
            r
        },
    )];
    v.push(idx(format!("{SIGNATURES} processor signatures x 4 vendors x 2 contents: what is available"), SIGNATURES * 8, move |i, ctx| {
        let key = i / SIGNATURES;
        let mut t = match ctx.table.take() {
            Some((k, t)) if k == key => t,
            _ => mixed((key / 2) as usize, key % 2),
        };
        t.reset_budget();
        t.at(1, 0).a = signature((i % SIGNATURES) as u32);
        ctx.describe(|| format!("{} signature {:#x}", VENDOR_NAMES[(key / 2) as usize], t.get(1, 0).a));
        let r = check_avail(&t, ctx);
        ctx.table = Some((key, t));
        r
    }));
    // No other bit of any answer matters.
    let mut pos: Vec<(u32, u32)> = vec![];
    for g in GROUPS {
        for w in g.words {
            if !pos.contains(w) {
                pos.push(*w);
            }
        }
    }
    pos.extend([(2, 0), (3, 0), (0x8000_0000, 0), (0x4000_0001, 0), (0x11, 0), (0x13, 0), (0x19, 0), (0x8000_0009, 0)]);
    pos.sort();
    pos.dedup();
    let answers = pos.clone();
    let n = pos.len() as u64 * 128;
    let k = if thorough { 2 } else { 1 };
    let per = nsets(n, k);
    let shapes: Vec<(usize, u32, u32, usize)> = {
        let mut s = vec![];
        for ven in 0..4 {
            for (b, e) in [(0x20u32, 0x8000_0026u32), (7, 0x8000_0004), (0x12, 0x8000_000A), (0, 0)] {
                if thorough && (b, e) == (0, 0) {
                    continue;
                }
                for f in if thorough { vec![0, 1] } else { vec![0, 1, 4, 5] } {
                    s.push((ven, b, e, f));
                }
            }
        }
        s
    };
    v.push(idx(format!("<={k} flipped bits of all {n} bits of {} answers over {} CPUs, including the maxima and vendor words", pos.len(), shapes.len()), per * shapes.len() as u64, move |i, ctx| {
        let ci = i / per;
        let mut t = match ctx.table.take() {
            Some((key, t)) if key == ci => t,
            _ => {
                let (ven, b, e, f) = shapes[ci as usize];
                let mut r = Rich::open(VENDORS[ven]);
                (r.maxb, r.maxe, r.fill) = (b, e, f);
                r.build()
            }
        };
        t.reset_budget();
        let set = unrank(i % per, n, k);
        let flip = |t: &mut Table| {
            for &p in &set {
                let (l, s) = pos[(p / 128) as usize];
                *t.at(l, s).reg_mut((p / 32 % 4) as usize) ^= 1 << (p % 32);
            }
        };
        flip(&mut t);
        ctx.describe(|| format!("{} flipped: {:?}", env_desc(&t, &[(0, 0), (0x8000_0000, 0)]), set.iter().map(|p| (pos[(p / 128) as usize], p % 128)).collect::<Vec<_>>()));
        let r = check_avail(&t, ctx);
        flip(&mut t);
        ctx.table = Some((ci, t));
        r
    }));
    v.extend(contents_do_not_matter(answers, thorough));
    v
}

/// Contents of single answers, of single registers, and of all answers of a
/// query: none makes a query available or unavailable that is not (but for
/// those the manuals name, which the model knows).
fn contents_do_not_matter(pos: Vec<(u32, u32)>, thorough: bool) -> Vec<Space> {
    let shape = |k: u64| {
        let mut r = Rich::open(VENDORS[(k % 4) as usize]);
        (r.maxb, r.maxe) = [(0x20u32, 0x8000_0026u32), (0x20, 0x8000_0008)][(k / 8 % 2) as usize];
        r.fill = [0, 1][(k / 4 % 2) as usize];
        r.build()
    };
    let mut v = vec![];
    let per = pos.len() as u64 * 5 * 256;
    let ps = pos.clone();
    v.push(idx(format!("each of the 4 registers or all of {} answers consisting of one byte, 256 bytes x 16 CPUs", pos.len()), per * 16, move |i, ctx| {
        let key = i / per;
        let mut t = match ctx.table.take() {
            Some((k, t)) if k == key => t,
            _ => shape(key),
        };
        t.reset_budget();
        let w = (i % 256) as u32 * 0x0101_0101;
        let reg = (i / 256 % 5) as usize;
        let (l, s) = ps[(i % per / 1280) as usize];
        let old = t.get(l, s);
        for q in 0..4 {
            if reg == q || reg == 4 {
                *t.at(l, s).reg_mut(q) = w;
            }
        }
        ctx.describe(|| format!("{} leaf {l:#x}.{s}: {:?}", VENDOR_NAMES[(key % 4) as usize], t.get(l, s)));
        let r = check_avail(&t, ctx);
        t.set(l, s, old);
        ctx.table = Some((key, t));
        r
    }));
    let ng = GROUPS.len() as u64;
    v.push(idx(format!("all answers of each of {ng} queries consisting of one byte, 256 bytes x 16 CPUs"), ng * 256 * 16, move |i, ctx| {
        let mut t = shape(i / 256 / ng);
        let w = (i % 256) as u32 * 0x0101_0101;
        let g = &GROUPS[(i / 256 % ng) as usize];
        for (l, s) in g.words {
            t.set(*l, *s, r4(w, w, w, w));
        }
        ctx.describe(|| format!("answers of {}: {w:#x}", g.name));
        check_avail(&t, ctx)
    }));
    let per = pos.len() as u64 * 4 * 3 << 16;
    let shapes = if thorough { 16 } else { 2 };
    v.push(idx(format!("every value of bits 0..=15, 8..=23 and 16..=31 of each register of {} answers, {shapes} CPUs", pos.len()), per * shapes, move |i, ctx| {
        let key = i / per;
        let mut t = match ctx.table.take() {
            Some((k, t)) if k == key => t,
            _ => shape(if shapes == 2 { [0, 5][key as usize] } else { key }),
        };
        t.reset_budget();
        let st = (i >> 16) % 3 * 8;
        let reg = ((i >> 16) / 3 % 4) as usize;
        let (l, s) = pos[((i % per) >> 16) as usize / 12];
        let old = t.get(l, s);
        let w = t.at(l, s).reg_mut(reg);
        *w = *w & !(0xffff << st) | ((i & 0xffff) as u32) << st;
        ctx.describe(|| format!("leaf {l:#x}.{s}: {:?}", t.get(l, s)));
        let r = check_avail(&t, ctx);
        t.set(l, s, old);
        ctx.table = Some((key, t));
        r
    }));
    v
}

pub const OTHERS: [&[u8; 12]; 24] = [
    b"GenuineIntel", b"AuthenticAMD", b"HygonGenuine", b"CentaurHauls", b"CyrixInstead", b"GenuineTMx86", b"TransmetaCPU", b"VIA VIA VIA ",
    b"  Shanghai  ", b"AMDisbetter!", b"AMD ISBETTER", b"Geode by NSC", b"NexGenDriven", b"RiseRiseRise", b"SiS SiS SiS ", b"UMC UMC UMC ",
    b"Vortex86 SoC", b"Genuine  RDC", b"GenuineIotel", b"E2K MACHINE\0", b"MiSTer AO486", b"VirtualApple", b"\0\0\0\0\0\0\0\0\0\0\0\0",
    b"GenuineAMD\0\0",
];

fn vendor_strings() -> Vec<[u8; 12]> {
    let mut v: Vec<[u8; 12]> = OTHERS.iter().map(|s| **s).collect();
    for known in &OTHERS[..3] {
        for p in 0..12 {
            for b in 0..=255u8 {
                let mut s = **known;
                s[p] = b;
                v.push(s);
            }
        }
        for i in 0..96 {
            for j in 0..i {
                let mut s = **known;
                s[i / 8] ^= 1 << (i % 8);
                s[j / 8] ^= 1 << (j % 8);
                v.push(s);
            }
        }
        let w = |i: usize| [known[4 * i], known[4 * i + 1], known[4 * i + 2], known[4 * i + 3]];
        for (a, b, c) in [(0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0), (0, 0, 0), (1, 1, 1), (2, 2, 2)] {
            let mut s = [0u8; 12];
            for (k, i) in [a, b, c].into_iter().enumerate() {
                s[4 * k..4 * k + 4].copy_from_slice(&w(i));
            }
            v.push(s);
        }
        // Reversed bytes, changed case, truncated to n bytes, shifted.
        let mut s = **known;
        s.reverse();
        v.push(s);
        for m in 1..4096u32 {
            let mut s = **known;
            for (p, b) in s.iter_mut().enumerate() {
                if m >> p & 1 == 1 && b.is_ascii_alphabetic() {
                    *b ^= 0x20;
                }
            }
            v.push(s);
        }
        for n in 0..12 {
            let mut s = **known;
            for b in &mut s[n..] {
                *b = 0;
            }
            v.push(s);
            s = **known;
            s.rotate_left(n);
            v.push(s);
        }
        // The first or last bytes of one vendor, the rest of another one or one repeated byte.
        for p in 1..12 {
            for other in &OTHERS {
                let mut s = **known;
                s[p..].copy_from_slice(&other[p..]);
                v.push(s);
                let mut s = **known;
                s[..p].copy_from_slice(&other[..p]);
                v.push(s);
            }
            for b in 0..=255u8 {
                let mut s = **known;
                s[p..].fill(b);
                v.push(s);
                let mut s = **known;
                s[..p].fill(b);
                v.push(s);
            }
        }
        // Registers of two vendors mixed.
        for other in &OTHERS[..3] {
            for m in 1..7 {
                let mut s = **known;
                for k in 0..3 {
                    if m >> k & 1 == 1 {
                        s[4 * k..4 * k + 4].copy_from_slice(&other[4 * k..4 * k + 4]);
                    }
                }
                v.push(s);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Vendor-dependent by definition; everything else must not depend on it.
fn vendor_free(e: &Ent) -> bool {
    e.tags & C05 == 0 && !e.label.starts_with("vendor.") && e.label != "feature.family_id" && e.label != "feature.model_id"
}

/// Queries whose availability depends on the vendor.
const DEPENDENT: [&str; 7] = [
    "get_cache_info", "get_processor_serial", "get_cache_parameters", "get_direct_cache_access_info", "get_performance_monitoring_info",
    "get_l1_cache_and_tlb_info", "get_svm_info",
];

fn class(s: &[u8; 12]) -> usize {
    match s {
        b"GenuineIntel" => 0,
        b"AuthenticAMD" | b"HygonGenuine" => 1,
        _ => 3,
    }
}

/// Everything the library reports that may depend on the vendor.
fn vendor_view(t: &dyn Src, ext: usize, caches: usize) -> (u64, Vec<Ent>, Out) {
    let c = cpu(t);
    let mut bits = 0u64;
    for (i, g) in GROUPS.iter().enumerate() {
        bits |= ((g.avail)(&c) as u64) << i;
    }
    let mut o = Out::default();
    (GROUPS[ext].obs)(&c, &mut o);
    let ent = o.e.into_iter().filter(|e| e.tags & C05 != 0).collect();
    let mut o = Out::default();
    (GROUPS[caches].obs)(&c, &mut o);
    (bits, ent, o)
}

fn same_ents(a: &[Ent], b: &[Ent]) -> Option<String> {
    if a.len() != b.len() {
        return Some("a different number of values".into());
    }
    a.iter().zip(b).find(|(x, y)| x.label != y.label || x.v != y.v).map(|(x, y)| format!("{}={:#x} instead of {:#x}", x.label, x.v, y.v))
}

/// Family and model of signatures that every vendor class composes differently.
fn signatures(t: &mut Table) -> [(u8, u8); 3] {
    let old = t.get(1, 0);
    let v = [0x0021_0540u32, 0x0021_0640, 0x0021_0f40].map(|sig| {
        t.at(1, 0).a = sig;
        cpu(t).get_feature_info().map_or((0, 0), |f| (f.family_id(), f.model_id()))
    });
    t.set(1, 0, old);
    v
}

fn check_vendor(t: &mut Table, s: &[u8; 12], ctx: &mut Ctx) -> Res {
    let ext = group("get_extended_processor_and_feature_identifiers");
    let caches = group("get_cache_parameters");
    let l0 = t.get(0, 0);
    t.set(0, 0, leaf0(l0.a, vendor_words(s)));
    let (bits, flags, cache) = vendor_view(t, ext, caches);
    let sigs = signatures(t);
    let m_bits = {
        let m = M::new(t);
        GROUPS.iter().enumerate().fold(0u64, |a, (i, g)| a | ((g.gate)(&m) as u64) << i)
    };
    let k = class(s);
    let dep = DEPENDENT.iter().fold(0u64, |a, n| a | 1 << group(n));
    if (bits ^ m_bits) & dep != 0 {
        let g = GROUPS[((bits ^ m_bits) & dep).trailing_zeros() as usize].name;
        return Err(format!("{g}: available is {}, for this vendor it must not be", bits & dep & (bits ^ m_bits) != 0));
    }
    if k != 1 {
        if let Some(e) = flags.iter().find(|e| e.v != 0) {
            return Err(format!("AMD-only feature {} is reported on this vendor", e.label));
        }
    }
    // Same as the genuine vendor of its kind.
    t.set(0, 0, leaf0(l0.a, VENDORS[k]));
    let (rbits, rflags, rcache) = vendor_view(t, ext, caches);
    let n = VENDOR_NAMES[k];
    let rsigs = signatures(t);
    if sigs != rsigs {
        return Err(format!("family and model are composed as {sigs:?}, on {n} as {rsigs:?}"));
    }
    if bits != rbits {
        return Err(format!("{}: available differs from {n}", GROUPS[(bits ^ rbits).trailing_zeros() as usize].name));
    }
    if let Some(d) = same_ents(&flags, &rflags) {
        return Err(format!("{d} on {n}"));
    }
    if let Some(d) = same_ents(&cache.e, &rcache.e) {
        return Err(format!("{d} on {n}"));
    }
    ctx.transitions += 45 + flags.len() as u64 + cache.e.len() as u64;
    // Genuine vendors: the AMD-only features work, and availability of the
    // vendor-independent leaves is the same everywhere.
    if s == VENDOR_BYTES[k] || s == VENDOR_BYTES[2] {
        t.set(0, 0, leaf0(l0.a, INTEL));
        let (ibits, _, _) = vendor_view(t, ext, caches);
        if (bits ^ ibits) & !dep != 0 {
            return Err(format!("{}: available differs from Intel", GROUPS[((bits ^ ibits) & !dep).trailing_zeros() as usize].name));
        }
        t.set(0, 0, leaf0(l0.a, vendor_words(s)));
        if k == 1 && bits >> ext & 1 == 1 {
            let old = t.get(0x8000_0001, 0);
            t.set(0x8000_0001, 0, r4(old.a, old.b, !0, !0));
            let (_, all, _) = vendor_view(t, ext, caches);
            t.set(0x8000_0001, 0, old);
            if let Some(e) = all.iter().find(|e| e.v != 1) {
                return Err(format!("AMD-only feature {} is not reported on AMD although all feature bits are set", e.label));
            }
        }
        // The cache parameters follow their own leaf and no other.
        if bits >> caches & 1 == 1 {
            for leaf in [4u32, 0x8000_001D] {
                let own = (leaf == 4) == (k != 1);
                let old = t.get(leaf, 0);
                t.set(leaf, 0, r4((old.a & !0x1f | 1) ^ 0x20, !old.b, !old.c, old.d));
                let (_, _, c2) = vendor_view(t, ext, caches);
                t.set(leaf, 0, old);
                if own != same_ents(&cache.e, &c2.e).is_some() {
                    return Err(format!("the cache parameters {} when leaf {leaf:#x} changes", if own { "stay the same" } else { "change" }));
                }
            }
        }
    }
    ctx.traces += 1;
    ctx.outcome(mix(bits, flags.iter().fold(0, |a, e| mix(a, e.v as u64))));
    t.set(0, 0, l0);
    Ok(())
}
const VENDOR_BYTES: [&[u8; 12]; 4] = [b"GenuineIntel", b"AuthenticAMD", b"HygonGenuine", b"CentaurHauls"];

pub fn c05(thorough: bool) -> Vec<Space> {
    let strs = vendor_strings();
    let n = strs.len() as u64;
    let gates = [(0x20u32, 0x8000_0026u32), (0x20, 0x8000_001c), (6, 0x8000_0003), (0xc, 0x8000_000c)];
    let fills: Vec<usize> = if thorough { (0..FILLS).collect() } else { vec![0, 1, 5, 6] };
    let mut v = vec![];
    v.push(idx(format!("{n} vendor identifications (known ones, all one-byte and two-bit changes, case, order, truncation, every prefix and suffix, mixtures) x {} maxima x {} contents", gates.len(), fills.len()), n * (gates.len() * fills.len()) as u64, move |i, ctx| {
        let key = i / n;
        let mut t = match ctx.table.take() {
            Some((k, t)) if k == key => t,
            _ => {
                let mut r = Rich::open(INTEL);
                (r.maxb, r.maxe) = gates[key as usize % gates.len()];
                r.fill = fills[key as usize / gates.len()];
                r.build()
            }
        };
        t.reset_budget();
        let s = &strs[(i % n) as usize];
        ctx.describe(|| format!("vendor {:?}, {}", String::from_utf8_lossy(s), env_desc(&t, &[(0, 0), (0x8000_0000, 0), (0x8000_0001, 0)])));
        let r = check_vendor(&mut t, s, ctx);
        if r.is_ok() {
            ctx.table = Some((key, t));
        }
        r
    }));
    // The AMD-only features, bit by bit.
    v.push(idx("<=2 flipped bits of leaf 0x8000_0001 over 5 backgrounds and 8 vendors", nsets(128, 2) * 40, move |i, ctx| {
        let key = i / nsets(128, 2);
        let mut t = open_base(INTEL);
        t.set(0x8000_0001, 0, BACKGROUNDS[key as usize % 5]);
        for p in unrank(i % nsets(128, 2), 128, 2) {
            *t.at(0x8000_0001, 0).reg_mut(p as usize / 32) ^= 1 << (p % 32);
        }
        let s = OTHERS[key as usize / 5];
        ctx.describe(|| format!("vendor {:?}, {}", String::from_utf8_lossy(s), env_desc(&t, &[(0x8000_0001, 0)])));
        check_vendor(&mut t, s, ctx)
    }));
    // Everything else: the same whatever the vendor.
    for (gi, g) in GROUPS.iter().enumerate() {
        let words: Vec<(u32, u32)> = g.words.to_vec();
        let nb = words.len() as u64 * 128;
        let k = if thorough && nb <= 256 { 2 } else { 1 };
        let per = nsets(nb, k);
        let bgs = 5u64;
        v.push(idx(format!("{}: <={k} flipped bits of {nb} over {bgs} backgrounds, same for all vendors", g.name), per * bgs, move |i, ctx| {
            let g = &GROUPS[gi];
            let bg = BACKGROUNDS[(i / per) as usize];
            let mut t = match ctx.table.take() {
                Some((key, t)) if key == i / per => t,
                _ => {
                    let mut t = open_base(INTEL);
                    fill(&mut t, g, bg);
                    t
                }
            };
            t.reset_budget();
            let set = unrank(i % per, nb, k);
            let old: Vec<R4> = words.iter().map(|w| t.get(w.0, w.1)).collect();
            for &p in &set {
                let (l, s) = words[(p / 128) as usize];
                let reg = (p / 32 % 4) as usize;
                if l != 0 && l != 0x8000_0000 {
                    *t.at(l, s).reg_mut(reg) ^= (1 << (p % 32)) & mask(l, s, reg);
                }
            }
            // The two cache-parameter leaves carry the same contents.
            for s in 0..3 {
                let r = t.get(4, s);
                t.set(0x8000_001D, s, r);
            }
            ctx.describe(|| env_desc(&t, &words));
            let mut first: Option<usize> = None;
            let mut res = Ok(());
            for (vi, ven) in VENDORS.iter().enumerate() {
                t.set(0, 0, leaf0(0x20, *ven));
                let out = if first.is_none() { &mut ctx.obs } else { &mut ctx.spec };
                out.clear();
                if !(g.obs)(&cpu(&t), out) {
                    continue;
                }
                match first {
                    None => first = Some(vi),
                    Some(f) => {
                        ctx.transitions += ctx.obs.e.len() as u64;
                        ctx.traces += 1;
                        if ctx.obs.e.len() != ctx.spec.e.len() {
                            res = Err(format!("{}: {} values on {}, {} on {}", g.name, ctx.obs.e.len(), VENDOR_NAMES[f], ctx.spec.e.len(), VENDOR_NAMES[vi]));
                        }
                        for (x, y) in ctx.obs.e.iter().zip(&ctx.spec.e) {
                            if vendor_free(x) && (x.label != y.label || x.v != y.v) {
                                res = Err(format!("{}: {} is {:#x} on {} and {:#x} on {}", g.name, x.label, x.v, VENDOR_NAMES[f], y.v, VENDOR_NAMES[vi]));
                                break;
                            }
                        }
                    }
                }
            }
            for (w, r) in words.iter().zip(old) {
                t.set(w.0, w.1, r);
            }
            ctx.table = Some((i / per, t));
            res
        }));
    }
    v
}
