//! C02: unadvertised leaves and sub-leaves never influence answers.
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::out::*;
use crate::rich::*;
use crate::spaces::*;
use std::cell::RefCell;

const GARBAGE: usize = 7;

fn garbage(t: &dyn Src, kind: usize, leaf: u32, sub: u32, r: R4) -> R4 {
    match kind {
        // Intel processors answer with their highest basic leaf.
        6 => t.get(t.get(0, 0).a & 0xff, sub),
        0 => r4(!r.a, !r.b, !r.c, !r.d),
        1 => r4(!0, !0, !0, !0),
        2 => r4(0, 0, 0, 0),
        3 => {
            let h = |k: u64| (mix(mix(mix(77, leaf as u64), sub as u64), k) >> 20) as u32;
            r4(h(0), h(1), h(2), h(3))
        }
        // Looks like one more valid item.
        4 => r4(0x1234_5021, 0x0140_2003, 0x0000_0102, 0x0000_4021),
        _ => r4(0x0000_0001, 0x6874_7541, 0x0000_0100, 0x0000_0001),
    }
}

/// The answers that the CPU advertises and that the model reads.
fn advertised(t: &dyn Src, only: Option<&Grp>) -> Vec<(u32, u32)> {
    let lg = Logged { inner: t, log: RefCell::new(vec![]) };
    let m = M::new(&lg);
    let mut o = Out::default();
    match only {
        None => {
            // The library may read advertised leaves the model has no use for.
            model_all(&lg, &mut o);
        }
        Some(g) => {
            if (g.gate)(&m) {
                (g.spec)(&m, &mut o)
            }
        }
    }
    // Leaves that gate others are read whether or not the group is asked for.
    for (l, s) in [(1, 0), (7, 0), (0x8000_0001, 0)] {
        if m.has(l) {
            lg.get(l, s);
        }
    }
    lg.log.into_inner()
}


fn check_all(t: &Table, ctx: &mut Ctx, render: bool) -> Res {
    let keep = advertised(t, None);
    ctx.obs.clear();
    observe_all(t, &mut ctx.obs);
    let text = if render { render_all(t) } else { String::new() };
    for kind in 0..GARBAGE {
        let g = |l: u32, s: u32, r: R4| garbage(t, kind, l, s, r);
        let mk = Masked { inner: t, keep: &keep, garbage: &g };
        t.reset_budget();
        ctx.spec.clear();
        observe_all(&mk, &mut ctx.spec);
        ctx.transitions += differ(&ctx.obs, &ctx.spec, "with other contents in leaves and sub-leaves the CPU does not advertise")?;
        if render {
            ctx.transitions += differ_text(&text, &render_all(&mk), "with other contents in leaves and sub-leaves the CPU does not advertise")?;
        }
        ctx.traces += 1;
    }
    let h = ctx.obs.digest();
    ctx.outcome(h);
    Ok(())
}

pub fn c02(thorough: bool) -> Vec<Space> {
    let mut v = vec![];
    // Whole CPUs.
    let maxb: Vec<u32> = if thorough { (0..=0x20).collect() } else { vec![0, 1, 2, 4, 6, 7, 0xA, 0xB, 0xD, 0xF, 0x12, 0x14, 0x17, 0x18, 0x1F, 0x20] };
    let maxe: Vec<u32> = if thorough {
        (0x8000_0000..=0x8000_0026).chain([0, 0x7fff_ffff]).collect()
    } else {
        vec![0, 0x8000_0000, 0x8000_0001, 0x8000_0003, 0x8000_0004, 0x8000_0005, 0x8000_0008, 0x8000_0009, 0x8000_000A, 0x8000_001C, 0x8000_001D, 0x8000_001F, 0x8000_0020, 0x8000_0026]
    };
    let fills: Vec<usize> = if thorough { vec![0, 1, 2, 3, 4, 5, 6] } else { vec![1, 5] };
    let depths = [0u32, 1, 3];
    let n = 4 * maxb.len() * maxe.len() * fills.len() * 8 * 4;
    for ven in 0..4 {
        let (maxb, maxe, fills) = (maxb.clone(), maxe.clone(), fills.clone());
        let render = true;
        v.push(idx(
            format!("{}: {} basic maxima x {} extended maxima x {} contents x 8 gate patterns x 4 count shapes, {GARBAGE} kinds of garbage elsewhere", VENDOR_NAMES[ven], maxb.len(), maxe.len(), fills.len()),
            n as u64 / 4,
            move |i, ctx| {
                let mut k = i;
                let mut take = |n: usize| {
                    let r = (k % n as u64) as usize;
                    k /= n as u64;
                    r
                };
                let (b, e, g, su, fl) = (take(maxb.len()), take(maxe.len()), take(8), take(4), take(fills.len()));
                let key = (fl * 4 + su) as u64 * 8 + g as u64;
                let mut r = Rich::open(VENDORS[ven]);
                (r.maxb, r.maxe, r.fill, r.subs) = (maxb[b], maxe[e], fills[fl], su);
                r.depth = depths[(g + su) % 3];
                (r.sgx, r.hyp, r.svm) = (g & 1 == 1, g & 2 == 2, g & 4 == 4);
                let mut t = match ctx.table.take() {
                    Some((k, t)) if k == key => t,
                    _ => r.build(),
                };
                t.reset_budget();
                t.at(0, 0).a = r.maxb;
                t.at(0x8000_0000, 0).a = r.maxe;
                ctx.describe(|| format!("{r:x?}"));
                let res = check_all(&t, ctx, render && i % 4 == 0);
                ctx.table = Some((key, t));
                res
            },
        ));
    }
    // Each query, with its own flags and counts varied bit by bit.
    for (gi, g) in GROUPS.iter().enumerate() {
        let words = g.words.to_vec();
        let pos = positions_in(&words);
        let nb = pos.len() as u64;
        let k = if thorough { 2 } else { 1 };
        let per = nsets(nb, k);
        let nbg = if thorough && nb > 256 { 3 } else { 5 };
        v.push(idx(format!("{}: <={k} changes ({nb} bits flipped or registers cleared or filled) over {nbg} backgrounds x 4 vendors", g.name), per * 4 * nbg, move |i, ctx| {
            let g = &GROUPS[gi];
            let key = i / per;
            let mut t = match ctx.table.take() {
                Some((k, t)) if k == key => t,
                _ => {
                    let mut t = open_base(VENDORS[key as usize % 4]);
                    fill(&mut t, g, BACKGROUNDS[key as usize / 4]);
                    t
                }
            };
            t.reset_budget();
            let set = unrank(i % per, nb, k);
            let mut undo = vec![];
            apply(&mut t, &pos, &set, &mut undo);
            ctx.describe(|| format!("{} {}", VENDOR_NAMES[key as usize % 4], env_desc(&t, &words)));
            let keep = advertised(&t, Some(g));
            ctx.obs.clear();
            let a = (g.obs)(&cpu(&t), &mut ctx.obs);
            let mut res = Ok(());
            for kind in 0..GARBAGE {
                let gb = |l: u32, s: u32, r: R4| garbage(&t, kind, l, s, r);
                let mk = Masked { inner: &t, keep: &keep, garbage: &gb };
                ctx.spec.clear();
                let a2 = (g.obs)(&cpu(&mk), &mut ctx.spec);
                if a != a2 {
                    res = Err(format!("{}: availability depends on unadvertised contents", g.name));
                    break;
                }
                match differ(&ctx.obs, &ctx.spec, "with other contents in sub-leaves and leaves that are not advertised") {
                    Ok(n) => ctx.transitions += n + 1,
                    Err(e) => {
                        res = Err(format!("{}: {e}", g.name));
                        break;
                    }
                }
                ctx.traces += 1;
            }
            if ctx.count_outcome {
                let h = ctx.obs.digest();
                ctx.outcome(h);
            }
            restore(&mut t, &undo);
            ctx.table = Some((key, t));
            res
        }));
    }
    // The entry that ends an enumeration carries no information but its type.
    let ends: [(&str, u32, u32, usize, u32); 7] = [
        ("get_cache_parameters", 4, 0, 0, 0x1f),
        ("get_cache_parameters", 0x8000_001D, 0, 0, 0x1f),
        ("get_extended_topology_info", 0xB, 0, 2, 0xff00),
        ("get_extended_topology_info_v2", 0x1F, 0, 2, 0xff00),
        ("get_extended_cpu_topology", 0x8000_0026, 0, 2, 0xff00),
        ("get_sgx_info", 0x12, 2, 0, 0xf),
        ("get_deterministic_address_translation_info", 0x18, 1, 3, 0x1f),
    ];
    for (name, leaf, first, reg, type_mask) in ends {
        let gi = group(name);
        let k = 2u64;
        let per = nsets(128, k);
        v.push(idx(format!("{name}: leaf {leaf:#x}, <={k} bits flipped (and {GARBAGE} other contents) in the sub-leaf that ends the enumeration after 0..4 items, 4 vendors"), (per + GARBAGE as u64) * 16, move |i, ctx| {
            let g = &GROUPS[gi];
            let (depth, ven) = ((i / (per + GARBAGE as u64) % 4) as u32, (i / (per + GARBAGE as u64) / 4) as usize);
            let mut r = Rich::open(VENDORS[ven]);
            r.depth = depth;
            r.subs = 2;
            let mut t = r.build();
            let end = first + depth;
            if leaf == 0x18 {
                // Sub-leaf 0 counts; make sub-leaf `end` an invalid one in between.
                t.at(0x18, 0).a = 5;
                t.at(0x18, end).d &= !0x1f;
            }
            ctx.obs.clear();
            (g.obs)(&cpu(&t), &mut ctx.obs);
            let j = i % (per + GARBAGE as u64);
            let before = t.get(leaf, end);
            if j < per {
                for p in unrank(j, 128, k) {
                    *t.at(leaf, end).reg_mut(p as usize / 32) ^= 1 << (p % 32);
                }
            } else {
                let r = garbage(&t, (j - per) as usize, leaf, end, before);
                t.set(leaf, end, r);
            }
            let r = t.at(leaf, end).reg_mut(reg);
            *r = *r & !type_mask | before.reg(reg) & type_mask;
            ctx.describe(|| format!("{} {}", VENDOR_NAMES[ven], env_desc(&t, &[(leaf, end)])));
            ctx.spec.clear();
            (g.obs)(&cpu(&t), &mut ctx.spec);
            ctx.traces += 1;
            ctx.transitions += differ(&ctx.obs, &ctx.spec, "with other contents beside the type of the entry that ends the enumeration").map_err(|e| format!("{}: {e}", g.name))?;
            Ok(())
        }));
    }
    v
}
