//! Generic case spaces over register contents.
//!
//! `deviations`: every environment that differs from a background in at most k
//! bits of the registers a query depends on, for several backgrounds and every
//! vendor. `sweeps`: every value of every 16-bit window (or, thorough, every
//! 32-bit value) of every register.
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::leaf2;
use crate::out::*;

pub const VENDORS: [[u32; 3]; 4] = [INTEL, AMD, HYGON, CENTAUR];
pub const VENDOR_NAMES: [&str; 4] = ["Intel", "AMD", "Hygon", "Centaur"];

/// Bits of a register that the explored spaces may set. Restrictions:
/// the sub-leaf count of leaf 0x18 stays below 64 so that enumerations stay
/// short (long ones have their own cases), and leaf 0xD masks stay within the
/// architecturally defined components (the property is silent on others).
pub fn mask(leaf: u32, sub: u32, reg: usize) -> u32 {
    match (leaf, sub, reg) {
        (0x18, 0, 0) => 0x3f,
        (0xD, 0, 0) => XCR0_DEFINED,
        (0xD, 1, 2) => XSS_DEFINED,
        _ => u32::MAX,
    }
}
pub const XCR0_DEFINED: u32 = 0xff | 1 << 9 | 1 << 17 | 1 << 18;
pub const XSS_DEFINED: u32 = 1 << 8 | 0x7f << 10;

/// Makes a background enumerate something: the first sub-leaves of the
/// iterated leaves get a valid type.
pub fn legal(leaf: u32, sub: u32, mut r: R4) -> R4 {
    match leaf {
        4 | 0x8000_001D => r.a = r.a & !0x1f | 1 + (r.b & 1),
        0xB | 0x1F | 0x8000_0026 => r.c = r.c & !0xff00 | 0x100 << (r.b & 1),
        0x12 if sub >= 2 => r.a = r.a & !0xf | 1,
        0x17 if sub == 0 => r.a = 6,
        0x18 => {
            r.d = r.d & !0x1f | 1 + (r.b & 1);
            if sub == 0 {
                r.a = 3
            }
        }
        0x4000_0000 => r.a = 0x4000_0010,
        _ => {}
    }
    for i in 0..4 {
        *r.reg_mut(i) &= mask(leaf, sub, i);
    }
    r
}

/// A CPU that advertises everything and whose gates are all open.
pub fn open_base(vendor: [u32; 3]) -> Table {
    Table::new(R4::default())
        .with(0, 0, leaf0(0x20, vendor))
        .with(1, 0, r4(0, 0, 1 << 31, 0))
        .with(7, 0, r4(1, 1 << 2, 0, 0))
        .with(0x4000_0000, 0, r4(0x4000_0010, 0, 0, 0))
        .with(0x8000_0000, 0, r4(0x8000_0026, 0, 0, 0))
        .with(0x8000_0001, 0, r4(0, 0, 1 << 2, 0))
}

pub const BACKGROUNDS: [R4; 5] = [
    r4(0, 0, 0, 0),
    r4(!0, !0, !0, !0),
    r4(0x5555_5555, 0x5555_5555, 0x5555_5555, 0x5555_5555),
    r4(0xaaaa_aaaa, 0xaaaa_aaaa, 0xaaaa_aaaa, 0xaaaa_aaaa),
    r4(0x1234_5679, 0x89ab_cde1, 0xfedc_ba98, 0x0f1e_2d3d),
];

pub fn env_desc(t: &dyn Src, words: &[(u32, u32)]) -> String {
    words.iter().map(|&(l, s)| format!("leaf {l:#x}.{s}: {:?}", t.get(l, s))).collect::<Vec<_>>().join(", ")
}

/// Per group, the leaves the model looks at.
fn expected(g: &Grp) -> u128 {
    static SETS: std::sync::OnceLock<Vec<u128>> = std::sync::OnceLock::new();
    let all = SETS.get_or_init(|| {
        GROUPS
            .iter()
            .map(|g| {
                let mut set = leaf_bit(0) | leaf_bit(0x8000_0000);
                for &(l, _) in g.words {
                    set |= leaf_bit(l);
                }
                for ven in VENDORS {
                    let mut t = open_base(ven);
                    fill(&mut t, g, BACKGROUNDS[4]);
                    let lg = Logged { inner: &t, log: std::cell::RefCell::new(vec![]) };
                    let m = M::new(&lg);
                    if (g.gate)(&m) {
                        (g.spec)(&m, &mut Out::default());
                    }
                    for &(l, _) in lg.log.borrow().iter() {
                        set |= leaf_bit(l);
                    }
                }
                set
            })
            .collect()
    });
    all[GROUPS.iter().position(|x| std::ptr::eq(x, g)).unwrap_or(0)]
}

/// Contents to try in a leaf that the query was not expected to look at.
fn alphabet(leaf: u32, now: R4) -> Vec<R4> {
    let mut v: Vec<R4> = BACKGROUNDS.to_vec();
    for reg in 0..4 {
        for x in [0, 1, !0] {
            let mut r = now;
            *r.reg_mut(reg) = x;
            v.push(r);
        }
        for b in 0..32 {
            let mut r = now;
            *r.reg_mut(reg) ^= 1 << b;
            v.push(r);
        }
        for byte in 0..4 {
            for x in [0u32, 1, 2, 3, 4, 7, 8, 9, 15, 16, 0x21, 0x43, 0x63, 0x7f, 0x80, 0xff] {
                let mut r = now;
                let w = r.reg_mut(reg);
                *w = *w & !(0xff << (byte * 8)) | x << (byte * 8);
                v.push(r);
            }
        }
    }
    if leaf == 1 {
        for j in (0..SIGNATURES as u32 / 8).step_by(5) {
            // Steppings 0 and 15.
            let j = j >> 9 << 12 | (j >> 8 & 1) * 0xf00 | j & 0xff;
            let mut r = now;
            r.a = signature(j);
            v.push(r);
        }
    }
    v
}

const VARIED_QUICK: u64 = 8_000_000;

/// The library asked for leaves the model has no use for: the answer must be
/// the same whatever they contain.
fn vary(t: &dyn Src, g: &Grp, tags: Tags, ctx: &mut Ctx, set: u128) -> Res {
    ctx.surprises += 1;
    let n = ctx.surprises;
    if ctx.varied > VARIED_QUICK || !(n < 40 || n % 61 == 0) {
        return Ok(());
    }
    let lg = Logged { inner: t, log: std::cell::RefCell::new(vec![]) };
    ctx.obs.clear();
    (g.obs)(&cpu(&lg), &mut ctx.obs);
    for (l, s) in lg.log.into_inner() {
        if leaf_bit(l) & set == 0 {
            continue;
        }
        for r in alphabet(l, t.get(l, s)) {
            ctx.varied += 1;
            let o = Over { inner: t, leaf: l, sub: s, r, budget: std::cell::Cell::new(DEFAULT_BUDGET) };
            check_once(&o, g, tags, ctx).map_err(|e| format!("with leaf {l:#x}.{s} = {r:?}: {e}"))?;
        }
    }
    Ok(())
}

/// Observes group `g` on `t`, computes the model's answer and compares. If the
/// library looks at leaves it is not expected to look at, those are varied too.
pub fn check_group(t: &dyn Src, g: &Grp, tags: Tags, ctx: &mut Ctx) -> Res {
    t.forget();
    check_once(t, g, tags, ctx)?;
    let set = t.asked();
    if set != 0 {
        let set = set & !expected(g);
        if set != 0 {
            return vary(t, g, tags, ctx, set);
        }
    }
    Ok(())
}

fn check_once(t: &dyn Src, g: &Grp, tags: Tags, ctx: &mut Ctx) -> Res {
    ctx.obs.clear();
    ctx.spec.clear();
    let c = cpu(t);
    let m = M::new(t);
    let avail = (g.obs)(&c, &mut ctx.obs);
    let want = (g.gate)(&m);
    if tags & C01 != 0 {
        ctx.transitions += 1;
        if avail != want {
            return Err(format!("{}: available is {avail}, but the CPU advertises {want}", g.name));
        }
    }
    if avail && want {
        (g.spec)(&m, &mut ctx.spec);
        let res = ctx.check(tags);
        if res.is_err() && tags & C11 != 0 && g.name == "get_cache_info" && crate::known::listed(leaf2::C3_FINDING) {
            // The only deviation tolerated is that descriptor 0xC3 is not listed.
            let r = m.q(2, 0);
            if leaf2::expected(r).contains(&leaf2::C3) {
                ctx.spec.clear();
                leaf2::spec_with(r, &mut ctx.spec, false);
                if ctx.check(tags).is_ok() {
                    if crate::known::ours(leaf2::C3_FINDING) && !ctx.known.iter().any(|k| k.0 == leaf2::C3_FINDING) {
                        ctx.known.push((leaf2::C3_FINDING, format!("descriptor 0xc3 of leaf 2 = {r:?} is not listed")));
                    }
                    return Ok(());
                }
            }
        }
        return res.map_err(|e| format!("{}: {e}", g.name));
    }
    Ok(())
}

/// The groups that have at least one entry with one of `tags`.
pub fn groups_with(tags: Tags) -> Vec<usize> {
    let mut v = vec![];
    for (i, g) in GROUPS.iter().enumerate() {
        let mut hit = false;
        for ven in [INTEL, AMD] {
            for bg in [BACKGROUNDS[0], BACKGROUNDS[1]] {
                let mut t = open_base(ven);
                fill(&mut t, g, bg);
                let m = M::new(&t);
                if (g.gate)(&m) {
                    let mut o = Out::default();
                    (g.spec)(&m, &mut o);
                    hit |= o.e.iter().any(|e| e.tags & tags != 0);
                }
            }
        }
        if hit {
            v.push(i)
        }
    }
    v
}

/// Puts the background into the answers the group depends on, keeping its gates open.
pub fn fill(t: &mut Table, g: &Grp, bg: R4) {
    for &(l, s) in g.words {
        let mut r = legal(l, s, bg);
        match l {
            0 => {
                let o = t.get(0, 0);
                r = r4(o.a, o.b, o.c, o.d)
            }
            1 if g.name == "get_hypervisor_info" => r.c |= 1 << 31,
            _ => {}
        }
        t.set(l, s, r);
    }
    // Gates that live in other leaves than the group's own stay open.
}

pub type Pos = (u32, u32, usize, u32);

fn positions(g: &Grp) -> Vec<Pos> {
    // The maximum leaf is C01's business.
    positions_in(g.words).into_iter().filter(|p| (p.0, p.2) != (0, 0)).collect()
}

/// Everything that may change in these answers.
pub fn positions_in(words: &[(u32, u32)]) -> Vec<Pos> {
    let mut v = vec![];
    for &(l, s) in words {
        for reg in 0..4 {
            for b in 0..32 {
                if mask(l, s, reg) >> b & 1 == 1 {
                    v.push((l, s, reg, b));
                }
            }
            // The register cleared, or filled.
            v.push((l, s, reg, 32));
            v.push((l, s, reg, 33));
        }
    }
    v
}

/// Applies one change; gives what undoes it.
fn change(t: &mut Table, (l, s, reg, b): Pos) -> Pos {
    let w = t.at(l, s).reg_mut(reg);
    let old = *w;
    match b {
        32 => *w = 0,
        33 => *w = mask(l, s, reg),
        _ => *w ^= 1 << b,
    }
    (l, s, reg, old)
}
pub fn apply(t: &mut Table, pos: &[Pos], set: &[u64], undo: &mut Vec<Pos>) {
    undo.clear();
    for &p in set {
        undo.push(change(t, pos[p as usize]));
    }
}
pub fn restore(t: &mut Table, undo: &[Pos]) {
    for &(l, s, reg, old) in undo.iter().rev() {
        *t.at(l, s).reg_mut(reg) = old;
    }
}

pub fn binom(n: u64, k: u64) -> u64 {
    if k > n {
        return 0;
    }
    match k {
        0 => return 1,
        1 => return n,
        2 => return n * (n - 1) / 2,
        _ => {}
    }
    (0..k).fold(1u128, |a, i| a * (n - i) as u128 / (i + 1) as u128) as u64
}

/// The i-th set of at most k elements of 0..n (sets ordered by size).
pub fn unrank(mut i: u64, n: u64, k: u64) -> Vec<u64> {
    let mut size = 0;
    while size <= k {
        let c = binom(n, size);
        if i < c {
            break;
        }
        i -= c;
        size += 1;
    }
    let (mut out, mut x, mut left) = (vec![], 0, size);
    while left > 0 {
        let c = binom(n - x - 1, left - 1);
        if i < c {
            out.push(x);
            left -= 1;
        } else {
            i -= c;
        }
        x += 1;
    }
    out
}
pub fn nsets(n: u64, k: u64) -> u64 {
    (0..=k).map(|j| binom(n, j)).sum()
}

fn available(g: &Grp, v: usize, bg: R4) -> bool {
    let mut t = open_base(VENDORS[v]);
    fill(&mut t, g, bg);
    let m = M::new(&t);
    (g.gate)(&m)
}

/// All environments with at most k flipped bits.
pub fn deviations(gi: usize, k: u64, tags: Tags, vendors: &[usize], bgs: &[usize]) -> Option<Space> {
    let g = &GROUPS[gi];
    let pos = positions(g);
    let combos: Vec<(usize, usize)> =
        vendors.iter().flat_map(|&v| bgs.iter().map(move |&b| (v, b))).filter(|&(v, b)| available(g, v, BACKGROUNDS[b])).collect();
    if combos.is_empty() {
        return None;
    }
    let per = nsets(pos.len() as u64, k);
    Some(idx(
        format!("{}: <={k} changes ({} bits flipped or registers cleared or filled) over {} vendor/background pairs", g.name, pos.len(), combos.len()),
        per * combos.len() as u64,
        move |i, ctx| {
            let g = &GROUPS[gi];
            let ci = i / per;
            let mut t = match ctx.table.take() {
                Some((key, t)) if key == ci => t,
                _ => {
                    let (v, b) = combos[ci as usize];
                    let mut t = open_base(VENDORS[v]);
                    fill(&mut t, g, BACKGROUNDS[b]);
                    t
                }
            };
            t.reset_budget();
            let set = unrank(i % per, pos.len() as u64, k);
            let mut undo = vec![];
            apply(&mut t, &pos, &set, &mut undo);
            ctx.describe(|| format!("{} {}", VENDOR_NAMES[combos[ci as usize].0], env_desc(&t, g.words)));
            let res = check_group(&t, g, tags, ctx);
            restore(&mut t, &undo);
            ctx.table = Some((ci, t));
            res
        },
    ))
}

fn pdep(mut src: u64, mask: u32) -> u32 {
    let mut out = 0;
    for b in 0..32 {
        if mask >> b & 1 == 1 {
            out |= ((src & 1) as u32) << b;
            src >>= 1;
        }
    }
    out
}

/// Every value of the low, middle and high 24 bits of every register that the
/// tagged data depends on.
fn full_sweeps(gi: usize, tags: Tags) -> Vec<Space> {
    let g = &GROUPS[gi];
    let ven = if available(g, 0, BACKGROUNDS[0]) { 0 } else { 1 };
    let mut v = vec![];
    for &(l, s) in g.words {
        for reg in 0..4 {
            if (l, reg) != (0, 0) && depends(g, tags, l, s, reg) {
                v.extend(sweep(gi, l, s, reg, 24, tags, &[ven], &[0, 1]));
            }
        }
    }
    v
}

/// Every value of each window of `width` explorable bits of every register.
pub fn sweeps(gi: usize, width: u32, tags: Tags, vendors: &[usize], bgs: &[usize]) -> Vec<Space> {
    let g = &GROUPS[gi];
    let mut out = vec![];
    for &(l, s) in g.words {
        for reg in 0..4 {
            if (l, reg) == (0, 0) {
                continue;
            }
            out.extend(sweep(gi, l, s, reg, width, tags, vendors, bgs));
        }
    }
    out
}

#[allow(clippy::too_many_arguments)]
fn sweep(gi: usize, l: u32, s: u32, reg: usize, width: u32, tags: Tags, vendors: &[usize], bgs: &[usize]) -> Vec<Space> {
    let g = &GROUPS[gi];
    let mut out = vec![];
    {
        {
            let m = mask(l, s, reg);
            let bits: Vec<u32> = (0..32).filter(|b| m >> b & 1 == 1).collect();
            let mut windows: Vec<u32> = vec![];
            if bits.len() as u32 <= width {
                windows.push(m);
            } else {
                let w = width as usize;
                let mut starts = vec![0, (bits.len() - w) / 2, bits.len() - w];
                starts.dedup();
                for st in starts {
                    windows.push(bits[st..st + w].iter().fold(0, |a, b| a | 1 << b));
                }
            }
            for win in windows {
                let combos: Vec<(usize, usize)> = vendors
                    .iter()
                    .flat_map(|&v| bgs.iter().map(move |&b| (v, b)))
                    .filter(|&(v, b)| available(g, v, BACKGROUNDS[b]))
                    .collect();
                if combos.is_empty() {
                    continue;
                }
                let per = 1u64 << win.count_ones();
                let nm = format!("{}: every value of {:#010x} in leaf {l:#x}.{s} {} over {} vendor/background pairs", g.name, win, ["EAX", "EBX", "ECX", "EDX"][reg], combos.len());
                out.push(idx(nm, per * combos.len() as u64, move |i, ctx| {
                    let g = &GROUPS[gi];
                    let ci = i / per;
                    let mut t = match ctx.table.take() {
                        Some((key, t)) if key == ci => t,
                        _ => {
                            let (v, b) = combos[ci as usize];
                            let mut t = open_base(VENDORS[v]);
                            fill(&mut t, g, BACKGROUNDS[b]);
                            t
                        }
                    };
                    t.reset_budget();
                    let old = t.at(l, s).reg(reg);
                    let v = if win == u32::MAX { (i % per) as u32 } else { old & !win | pdep(i % per, win) };
                    *t.at(l, s).reg_mut(reg) = v;
                    ctx.describe(|| format!("{} {}", VENDOR_NAMES[combos[ci as usize].0], env_desc(&t, g.words)));
                    let res = check_group(&t, g, tags, ctx);
                    *t.at(l, s).reg_mut(reg) = old;
                    ctx.table = Some((ci, t));
                    res
                }));
            }
        }
    }
    out
}

/// Does the model's answer to the tagged data of the group depend on this register?
fn depends(g: &Grp, tags: Tags, l: u32, s: u32, reg: usize) -> bool {
    for ven in [INTEL, AMD] {
        for bg in BACKGROUNDS {
            let mut t = open_base(ven);
            fill(&mut t, g, bg);
            let run = |t: &Table| {
                let m = M::new(t);
                let mut o = Out::default();
                if (g.gate)(&m) {
                    (g.spec)(&m, &mut o)
                }
                o.e.retain(|e| e.tags & tags != 0);
                o.digest()
            };
            let before = run(&t);
            for b in 0..32 {
                *t.at(l, s).reg_mut(reg) ^= 1 << b;
                if run(&t) != before {
                    return true;
                }
                *t.at(l, s).reg_mut(reg) ^= 1 << b;
            }
        }
    }
    false
}

/// A CPU with all gates open and different contents everywhere.
pub fn mixed(ven: usize, seed: u64) -> Table {
    let mut t = open_base(VENDORS[ven]);
    for g in GROUPS {
        for &(l, s) in g.words {
            if matches!((l, s), (0, 0) | (0x8000_0000, 0)) {
                continue;
            }
            let h = |r: u64| (mix(mix(mix(seed + 40, l as u64), s as u64), r) >> 21) as u32;
            let mut r = legal(l, s, r4(h(1), h(2), h(3), h(4)));
            match (l, s) {
                (1, 0) => r.c |= 1 << 31,
                (7, 0) => {
                    r.a = 1;
                    r.b |= 1 << 2
                }
                (0x8000_0001, 0) => r.c |= 1 << 2,
                _ => {}
            }
            t.set(l, s, r);
        }
    }
    t
}

/// Every processor signature: what a query reports does not depend on the model
/// of the CPU.
const XF: [u32; 3] = [0, 1, 0x90];
const XF15: [u32; 20] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF, 0x10, 0x7F, 0xF0, 0xFF];
const SIG15: u64 = 16 * 16 * XF15.len() as u64 * 16;
pub const SIGNATURES: u64 = SIG15 + 15 * 16 * 16 * XF.len() as u64 * 16;
/// The j-th processor signature (leaf 1 EAX): base family 0xF with every
/// extended family in use, the other families with some.
pub fn signature(j: u32) -> u32 {
    let (model, xmodel, step) = (j & 15, j >> 4 & 15, j >> 8 & 15);
    let r = (j >> 12) as usize;
    let (fam, xf) = match r.checked_sub(XF15.len()) {
        None => (15, XF15[r]),
        Some(r) => (r as u32 % 15, XF[r / 15]),
    };
    fam << 8 | model << 4 | xmodel << 16 | xf << 20 | step
}
fn signatures(gi: usize, tags: Tags) -> Space {
    let per = SIGNATURES;
    idx(format!("{}: {SIGNATURES} processor signatures (every base family, model, extended model and stepping, every extended family in use), 4 vendors x with and without hypervisor", GROUPS[gi].name), per * 8, move |i, ctx| {
        let key = i / per;
        let (ven, hyp) = (key as usize / 2, key as u32 % 2);
        let mut t = match ctx.table.take() {
            Some((k, t)) if k == key => t,
            _ => {
                let mut t = mixed(ven, key % 2);
                t.at(1, 0).c = t.get(1, 0).c & !(1 << 31) | hyp << 31;
                t
            }
        };
        t.reset_budget();
        let sig = signature((i % per) as u32);
        t.at(1, 0).a = sig;
        ctx.describe(|| format!("{} signature {sig:#x}, hypervisor {hyp}", VENDOR_NAMES[ven]));
        let r = check_group(&t, &GROUPS[gi], tags, ctx);
        ctx.table = Some((key, t));
        r
    })
}

/// Flipped bits anywhere in what the CPU reports, also where the query does not look.
fn elsewhere(gi: usize, tags: Tags, k: u64) -> Space {
    let mut pos = vec![];
    for g in GROUPS {
        pos.extend(positions(g));
    }
    pos.sort();
    pos.dedup();
    let n = pos.len() as u64;
    let per = nsets(n, k);
    let (vens, seeds) = if k > 1 { (1, 1) } else { (4, 2) };
    let own = !available(&GROUPS[gi], 0, BACKGROUNDS[0]) as usize;
    idx(format!("{}: <={k} changes anywhere, of {n} (bits flipped, registers cleared or filled) in all leaves, {vens} vendors x {seeds} contents", GROUPS[gi].name), per * vens * seeds, move |i, ctx| {
        let key = i / per;
        // The one vendor of the pairs is one that has the query.
        let ven = if k > 1 { own } else { (key / seeds) as usize };
        let mut t = match ctx.table.take() {
            Some((x, t)) if x == key => t,
            _ => mixed(ven, key % seeds),
        };
        t.reset_budget();
        let set = unrank(i % per, n, k);
        let mut undo = vec![];
        apply(&mut t, &pos, &set, &mut undo);
        ctx.describe(|| format!("{} flipped {:x?}", VENDOR_NAMES[ven], set.iter().map(|&p| pos[p as usize]).collect::<Vec<_>>()));
        let res = check_group(&t, &GROUPS[gi], tags, ctx);
        restore(&mut t, &undo);
        ctx.table = Some((key, t));
        res
    })
}

/// Every pair of values of every two bytes of each answer.
fn byte_pairs(gi: usize, tags: Tags, thorough: bool) -> Vec<Space> {
    let g = &GROUPS[gi];
    let mut v = vec![];
    let contents = if thorough { 4u64 } else { 1 };
    for &(l, s) in g.words {
        let bytes: Vec<u32> = (if (l, s) == (0, 0) || (l, s) == (0x8000_0000, 0) { 4 } else { 0 }..16u32).filter(|b| mask(l, s, *b as usize / 4) >> (b % 4 * 8) & 0xff != 0).collect();
        let pairs: Vec<(u32, u32)> = (0..bytes.len()).flat_map(|i| (0..i).map(move |j| (j, i))).map(|(i, j)| (bytes[i], bytes[j])).collect();
        // Bytes next to each other in one register are in the windows already.
        let pairs: Vec<(u32, u32)> = pairs.into_iter().filter(|&(a, b)| thorough || a / 4 != b / 4 || b - a > 1).collect();
        let np = pairs.len() as u64;
        let ven = !available(g, 0, BACKGROUNDS[0]) as usize;
        if np == 0 || !(0..4).any(|r| depends(g, tags, l, s, r)) {
            continue;
        }
        v.push(idx(format!("{}: every pair of values of {np} pairs of bytes of leaf {l:#x}.{s}, {contents} contents", g.name), (np << 16) * contents, move |i, ctx| {
            let key = (i >> 16) / np;
            let mut t = match ctx.table.take() {
                Some((x, t)) if x == key => t,
                _ => match key {
                    0 => mixed(ven, 2),
                    1 => mixed(1, 3),
                    _ => {
                        let mut t = open_base(VENDORS[ven]);
                        fill(&mut t, &GROUPS[gi], BACKGROUNDS[key as usize - 2]);
                        t
                    }
                },
            };
            t.reset_budget();
            let old = t.get(l, s);
            let (a, b) = pairs[((i >> 16) % np) as usize];
            for (p, x) in [(a, i as u8), (b, (i >> 8) as u8)] {
                let r = p as usize / 4;
                let m = 0xff << (p % 4 * 8) & mask(l, s, r);
                let w = t.at(l, s).reg_mut(r);
                *w = *w & !m | (x as u32) << (p % 4 * 8) & m;
            }
            ctx.describe(|| format!("{} {}", VENDOR_NAMES[ven], env_desc(&t, &[(l, s)])));
            let res = check_group(&t, &GROUPS[gi], tags, ctx);
            t.set(l, s, old);
            ctx.table = Some((key, t));
            res
        }));
    }
    v
}

pub const EXTREMES: [u32; 10] = [0, 1, !0, !1, 0x8000_0000, 0x7fff_ffff, 0x0001_0001, 0x5a5a_5a5a, 0x00ff_ff00, 2];

/// Products of extreme values: of the four registers of one answer, and of any
/// two registers of the answers of one query.
pub fn extremes(gi: usize, tags: Tags) -> Vec<Space> {
    const Y: u64 = EXTREMES.len() as u64;
    let g = &GROUPS[gi];
    let words: Vec<(u32, u32)> = g.words.iter().copied().filter(|w| !matches!(w, (0, 0) | (0x8000_0000, 0))).collect();
    let own = !available(g, 0, BACKGROUNDS[0]) as usize;
    let base = move |key: u64| match key {
        0 => mixed(own, 4),
        1 => mixed(1, 5),
        _ => {
            let mut t = open_base(VENDORS[own]);
            fill(&mut t, &GROUPS[gi], BACKGROUNDS[0]);
            t
        }
    };
    let put = |t: &mut Table, l: u32, s: u32, reg: usize, x: u32| {
        let m = mask(l, s, reg);
        let w = t.at(l, s).reg_mut(reg);
        *w = *w & !m | x & m;
    };
    let nw = words.len() as u64;
    let per = Y.pow(4);
    let mut v = vec![];
    if nw == 0 {
        return v;
    }
    let ws = words.clone();
    v.push(idx(format!("{}: {Y}^4 extreme contents of each of {nw} answers, 2 contents", g.name), per * nw * 2, move |i, ctx| {
        let key = i / per / nw;
        let mut t = match ctx.table.take() {
            Some((x, t)) if x == key => t,
            _ => base(key),
        };
        t.reset_budget();
        let (l, s) = ws[(i / per % nw) as usize];
        let old = t.get(l, s);
        for reg in 0..4 {
            put(&mut t, l, s, reg, EXTREMES[(i / Y.pow(reg as u32) % Y) as usize]);
        }
        ctx.describe(|| env_desc(&t, &[(0, 0), (l, s)]));
        let r = check_group(&t, &GROUPS[gi], tags, ctx);
        t.set(l, s, old);
        ctx.table = Some((key, t));
        r
    }));
    let regs: Vec<(u32, u32, usize)> = words.iter().flat_map(|&(l, s)| (0..4).map(move |r| (l, s, r))).filter(|x| mask(x.0, x.1, x.2) != 0).collect();
    let pairs: Vec<(usize, usize)> = (0..regs.len()).flat_map(|i| (0..i).map(move |j| (j, i))).filter(|&(i, j)| (regs[i].0, regs[i].1) != (regs[j].0, regs[j].1)).collect();
    let np = pairs.len() as u64;
    let per = np * Y * Y;
    if np > 0 {
        v.push(idx(format!("{}: {Y}^2 extreme contents of {np} pairs of registers of different answers, 3 contents", g.name), per * 3, move |i, ctx| {
            let key = i / per;
            let mut t = match ctx.table.take() {
                Some((x, t)) if x == key => t,
                _ => base(key),
            };
            t.reset_budget();
            let (a, b) = pairs[(i / Y / Y % np) as usize];
            let (a, b) = (regs[a], regs[b]);
            let (old_a, old_b) = (t.get(a.0, a.1), t.get(b.0, b.1));
            put(&mut t, a.0, a.1, a.2, EXTREMES[(i % Y) as usize]);
            put(&mut t, b.0, b.1, b.2, EXTREMES[(i / Y % Y) as usize]);
            ctx.describe(|| env_desc(&t, &[(0, 0), (a.0, a.1), (b.0, b.1)]));
            let r = check_group(&t, &GROUPS[gi], tags, ctx);
            t.set(a.0, a.1, old_a);
            t.set(b.0, b.1, old_b);
            ctx.table = Some((key, t));
            r
        }));
    }
    v
}

/// The rest of the CPU around one query.
pub fn context(gi: usize, tags: Tags, thorough: bool) -> Vec<Space> {
    vec![maxima(gi, tags), signatures(gi, tags), elsewhere(gi, tags, if thorough { 2 } else { 1 })]
}

/// Every pair of maximum basic and maximum extended leaf: whatever else the CPU
/// has or lacks, the queries that are available report the same fields.
pub fn maxima(gi: usize, tags: Tags) -> Space {
    let nb = 0x22u64;
    let ext: Vec<u32> = [0, 0x1234, 0x7fff_ffff].into_iter().chain(0x8000_0000..0x8000_0029).chain([0x8000_0040, 0x8fff_ffff, !0]).collect();
    let ne = ext.len() as u64;
    let per = nb * ne;
    idx(format!("{}: every maximum basic leaf 0..0x21 x {ne} maximum extended leaves x 4 vendors x 2 contents", GROUPS[gi].name), per * 8, move |i, ctx| {
        let key = i / per;
        let mut t = match ctx.table.take() {
            Some((k, t)) if k == key => t,
            _ => mixed((key / 2) as usize, key % 2),
        };
        t.reset_budget();
        t.at(0, 0).a = (i % nb) as u32;
        t.at(0x8000_0000, 0).a = ext[(i % per / nb) as usize];
        ctx.describe(|| format!("{} maxima {:#x} and {:#x}, contents {}", VENDOR_NAMES[(key / 2) as usize], t.get(0, 0).a, t.get(0x8000_0000, 0).a, key % 2));
        let r = check_group(&t, &GROUPS[gi], tags, ctx);
        ctx.table = Some((key, t));
        r
    })
}

/// The standard field/flag exploration of a set of groups.
pub fn fields(tags: Tags, groups: &[usize], thorough: bool) -> Vec<Space> {
    let mut v = vec![];
    for &gi in groups {
        let n = positions(&GROUPS[gi]).len() as u64;
        let k = match n {
            0..=130 if thorough => 4,
            0..=130 => 3,
            0..=520 if thorough => 3,
            _ => 2,
        };
        v.extend(deviations(gi, k, tags, &[0, 1, 2, 3], if thorough { &[0, 1, 2, 3, 4] } else if n > 300 { &[0, 1, 4] } else { &[0, 1, 2, 4] }));
        v.extend(context(gi, tags, thorough));
        v.extend(byte_pairs(gi, tags, thorough));
        v.extend(extremes(gi, tags));
        v.extend(sweeps(gi, 16, tags, &[0, 1], if thorough { &[0, 1, 2, 4] } else { &[0, 1] }));
        if thorough {
            v.extend(full_sweeps(gi, tags));
        }
    }
    v
}
