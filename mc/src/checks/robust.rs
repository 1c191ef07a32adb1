//! C03: no register content makes the library panic, overflow or hang. The
//! library is compiled with overflow checks and debug assertions on.
use super::render::display_all;
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::out::mix;
use crate::rich::*;
use crate::spaces::*;

/// Every operation of one query: accessors, iteration, rendering.
fn all_of(g: &Grp, t: &dyn Src, render: bool, ctx: &mut Ctx) {
    let c = cpu(t);
    ctx.obs.clear();
    (g.obs)(&c, &mut ctx.obs);
    ctx.transitions += ctx.obs.e.len() as u64 + 1;
    if render {
        ctx.transitions += 1;
        let s = (g.dbg)(&c);
        if ctx.count_outcome {
            ctx.outcome(crate::leaf2::norm(&s));
        }
    }
    ctx.traces += 1;
}

/// Ends every enumeration before sub-leaf `end`.
struct Ending<'a> {
    inner: &'a dyn Src,
    end: u32,
}
impl Src for Ending<'_> {
    fn get(&self, leaf: u32, sub: u32) -> R4 {
        let mut r = self.inner.get(leaf, sub);
        let over = sub >= self.end;
        match leaf {
            4 | 0x8000_001D if over => r.a &= !0x1f,
            0xB | 0x1F | 0x8000_0026 if over => r.c &= !0xff00,
            0x12 if over && sub >= 2 => r.a &= !0xf,
            0x17 if sub == 0 => r.a &= 0x1f,
            0x18 if sub == 0 => r.a &= 0x3f,
            _ => {}
        }
        r
    }
    fn tick(&self) {
        self.inner.tick()
    }
}

const X: [u32; 6] = [0, !0, 0x8000_0000, 0x7fff_ffff, 0x0101_0101, 0xfefe_fefe];
const Y: [u32; 10] = [0, 1, !0, 0x8000_0000, 0x7fff_ffff, 0xfefe_fefe, 0x0101_0101, 0xff00_ff00, 0x00ff_00ff, 0xffff_fffe];

fn endless(leaf: u32) -> Table {
    let mut t = open_base(if leaf == 0x8000_001D { AMD } else { INTEL });
    t.default = r4(0x3c00_0121, 0x01c0_003f, 0x0000_0102, 0x1);
    for s in 0..SUBS as u32 {
        t.set(leaf, s, r4(0x3c00_0121, 0x01c0_003f, 0x0000_0102, 0x1));
    }
    t
}

/// The CPU never ends this enumeration: every step still returns.
fn steps(leaf: u32, n: u64, t: &Table) -> Result<u64, String> {
    t.budget.set(8 * n + 10_000);
    let c = cpu(t);
    let mut k = 0u64;
    macro_rules! go {
        ($it:expr) => {
            if let Some(mut it) = $it {
                while k < n && it.next().is_some() {
                    k += 1
                }
            }
        };
    }
    match leaf {
        4 | 0x8000_001D => go!(c.get_cache_parameters()),
        0xB => go!(c.get_extended_topology_info()),
        0x1F => go!(c.get_extended_topology_info_v2()),
        0x12 => go!(c.get_sgx_info().map(|x| x.iter())),
        0x17 => go!(c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes())),
        0x18 => go!(c.get_deterministic_address_translation_info()),
        _ => go!(c.get_extended_cpu_topology()),
    }
    Ok(k)
}
/// The `k`th long enumeration on a thread with a small stack: run by the
/// unoptimised build, in which every call of the library takes stack.
pub fn deep(k: u64) -> i32 {
    std::thread::Builder::new()
        .stack_size(512 << 10)
        .spawn(move || {
            if k < 8 {
                let leaf = ENUMS[k as usize];
                let mut t = endless(leaf);
                t.at(leaf, 0).a |= if leaf == 0x17 || leaf == 0x18 { u32::MAX } else { 0 };
                return steps(leaf, 50_000, &t).is_ok();
            }
            // 50 000 sub-leaves that are not there, but for the first and the last one.
            let mut t = open_base(INTEL);
            t.default = R4::default();
            for s in 0..SUBS as u32 {
                t.set(0x18, s, R4::default());
            }
            t.set(0x18, 0, r4(50_000, 0x0101_0101, 1, 0x21));
            t.set(0x18, 50_000, r4(0, 0x0101_0101, 1, 0x21));
            let c = cpu(&t);
            let mut it = c.get_deterministic_address_translation_info().unwrap();
            let mut sink = String::new();
            match k {
                8 => while it.next().is_some() {},
                9 => drop(it.nth(1)),
                10 => drop(it.count()),
                11 => drop(it.last()),
                12 => drop(std::fmt::Write::write_fmt(&mut sink, format_args!("{it:?}"))),
                13 => drop(std::fmt::Write::write_fmt(&mut sink, format_args!("{c:?}"))),
                _ => {
                    it.next();
                    it.clone().for_each(|x| sink.push(x.ways() as u8 as char));
                }
            }
            true
        })
        .unwrap()
        .join()
        .map_or(1, |ok| !ok as i32)
}
const DEEP: u64 = 15;

const UB_VALUES: u64 = 8;
const UB_PLAIN: [u32; 6] = [0, 1, !0, 0x8000_0000, 0x7f7f_7f7f, 0x1f1f_1f1f];

pub fn ub_cases(thorough: bool) -> u64 {
    UB_VALUES + UB_PLAIN.len() as u64 + if thorough { 112 } else { 32 }
}

pub fn ub_describe(k: u64) -> String {
    match k.checked_sub(UB_VALUES) {
        None => format!("values of public enumerated types and texts, numbers {k} modulo {UB_VALUES}"),
        Some(i) if i < UB_PLAIN.len() as u64 => format!("every register {:#x}", UB_PLAIN[i as usize]),
        Some(i) => {
            let r = ub_cpu(i - UB_PLAIN.len() as u64);
            format!("{r:x?}")
        }
    }
}

fn ub_cpu(i: u64) -> Rich {
    let mut r = Rich::open(VENDORS[(i % 4) as usize]);
    r.subs = (i / 4 % 4) as usize;
    r.fill = [5, 1, 0, 2, 6, 3, 4][(i / 16 % 7) as usize];
    r
}

/// A case for an interpreter that knows what is undefined behaviour: every value, text
/// and iterator of a CPU, or values of the public enumerated types. What it saw, as a
/// number.
pub fn ub(k: u64) -> u64 {
    let text = |s: String| s.bytes().fold(7, |h, b| mix(h, b as u64));
    if k == u64::MAX {
        return 0;
    }
    let Some(i) = k.checked_sub(UB_VALUES) else {
        let values = (0..=20).chain([0x20, 0x41, 0x7f, 0x80, 0xc3, 0xe2, 0xff, 0x100]);
        return values.filter(|j| j % UB_VALUES == k).fold(0, |h, j| mix(h, text(super::values::value_text(j))));
    };
    let mut o = crate::out::Out::default();
    let t = match UB_PLAIN.get(i as usize) {
        Some(&x) => {
            let mut t = open_base(VENDORS[i as usize % 4]);
            let z = t.get(0, 0);
            for &(l, s) in GROUPS.iter().flat_map(|g| g.words) {
                t.set(l, s, r4(x, x, x, x));
            }
            t.set(0, 0, z);
            t.at(0x8000_0000, 0).a = 0x8000_0026;
            (t.at(0x17, 0).a, t.at(0x18, 0).a) = (x.min(6), x.min(6));
            t
        }
        None => ub_cpu(i - UB_PLAIN.len() as u64).build(),
    };
    observe_all(&t, &mut o);
    mix(o.digest(), text(render_all(&t)))
}

const ENUMS: [u32; 8] = [4, 0x8000_001D, 0xB, 0x1F, 0x12, 0x17, 0x18, 0x8000_0026];

/// A CPU that may answer the same question differently every time: the first
/// answers are chosen, the later ones go round in the same contents.
struct Fickle<'a> {
    ch: &'a Chooser,
    asked: std::cell::Cell<usize>,
    chosen: usize,
    vendor: usize,
    max: (u32, u32),
}
const FICKLE: [R4; 6] = [r4(0, 0, 0, 0), r4(!0, !0, !0, !0), r4(0x8000_0026, 0x0101_0101, 0x8000_0102, 0x7fff_ffff), r4(0x3c00_0121, 0x01c0_003f, 0x0000_0102, 0x1), r4(7, 0x4, 0x8000_0100, 0x1f), r4(0xfefe_fefe, 0, !0, 0x8000_0000)];
impl Src for Fickle<'_> {
    fn get(&self, leaf: u32, _: u32) -> R4 {
        let n = self.asked.get();
        self.asked.set(n + 1);
        // Creating the handle asks for leaf 0 (vendor, maximum) and the extended maximum.
        if n < 3 && leaf == 0 {
            return leaf0(self.max.0, VENDORS[self.vendor]);
        }
        if n < 3 && leaf == 0x8000_0000 {
            return r4(self.max.1, 0, 0, 0);
        }
        FICKLE[if n < 3 + self.chosen { self.ch.choose(FICKLE.len()) } else { n % FICKLE.len() }]
    }
    fn tick(&self) {
        let b = self.ch.budget.get();
        if b == 0 {
            std::panic::panic_any(Budget)
        }
        self.ch.budget.set(b - 1)
    }
}

pub fn c03(t: bool) -> Vec<Space> {
    let mut v = vec![];
    // Every leaf and sub-leaf the same hostile answer.
    let nx = if t { Y.len() } else { X.len() } as u64;
    let words: &'static [u32] = if t { &Y } else { &X };
    const MAX: [(u32, u32); 8] = [(0x20, 0x8000_0026), (u32::MAX, u32::MAX), (0x7fff_ffff, 0x8000_0008), (0, 0), (0xD, 0x8000_0004), (0x1F, 0x8000_001E), (0x17, 0x7fff_ffff), (2, u32::MAX)];
    for ven in 0..4 {
        v.push(idx(format!("{}: every leaf answers the same, {nx}^4 register contents x 8 maxima; all accessors, iterators, renderings", VENDOR_NAMES[ven]), nx.pow(4) * 8, move |i, ctx| {
            let k = i % nx.pow(4);
            let w = |p: u32| words[(k / nx.pow(p) % nx) as usize];
            let r = r4(w(0), w(1), w(2), w(3));
            let (mb, me) = MAX[(i / nx.pow(4)) as usize];
            let tb = Table::new(r).with(0, 0, leaf0(mb, VENDORS[ven])).with(0x8000_0000, 0, r4(me, r.b, r.c, r.d));
            ctx.describe(|| format!("{} maxima {mb:#x} {me:#x}, every answer {r:?}", VENDOR_NAMES[ven]));
            let mut lim = tb.clone();
            for s in [0x18] {
                // 2^32 empty sub-leaves take minutes: they have their own case.
                lim.at(s, 0).a &= 0xffff;
            }
            for g in GROUPS {
                all_of(g, &lim, false, ctx);
            }
            let end = Ending { inner: &tb, end: 3 };
            ctx.transitions += render_all(&end).len().min(1) as u64 + 40;
            ctx.transitions += display_all(&end).min(1) as u64;
            Ok(())
        }));
    }
    // Whole CPUs, all maxima.
    let maxb: Vec<u32> = (0..=0x21).chain([u32::MAX]).collect();
    let maxe: Vec<u32> = (0x8000_0000..=0x8000_0027).chain([0, 1, 0x7fff_ffff, u32::MAX]).collect();
    let fills = if t { 7 } else { 3 };
    let n = (maxb.len() * maxe.len() * 4 * 8 * fills * 2) as u64;
    v.push(idx(format!("4 vendors x {} basic x {} extended maxima x 8 gate patterns x {fills} contents x 2 shapes, everything incl. renderings", maxb.len(), maxe.len()), n, move |i, ctx| {
        let mut k = i as usize;
        let mut take = |n: usize| {
            let r = k % n;
            k /= n;
            r
        };
        let (b, e, g, ven, fl, su) = (take(maxb.len()), take(maxe.len()), take(8), take(4), take(fills), take(2));
        let mut r = Rich::open(VENDORS[ven]);
        (r.maxb, r.maxe) = (maxb[b], maxe[e]);
        r.fill = if fills == 3 { [1, 5, 0][fl] } else { fl };
        (r.subs, r.depth) = ([1, 3][su], 2);
        (r.sgx, r.hyp, r.svm) = (g & 1 == 1, g & 2 == 2, g & 4 == 4);
        let key = ((fl * 2 + su) * 8 + g) as u64 * 4 + ven as u64;
        let mut tb = match ctx.table.take() {
            Some((k, t)) if k == key => t,
            _ => r.build(),
        };
        tb.reset_budget();
        tb.at(0, 0).a = r.maxb;
        tb.at(0x8000_0000, 0).a = r.maxe;
        ctx.describe(|| format!("{r:x?}"));
        ctx.obs.clear();
        observe_all(&tb, &mut ctx.obs);
        ctx.transitions += ctx.obs.e.len() as u64;
        if i % 4 == 0 || t {
            let s = render_all(&tb);
            ctx.outcome(crate::leaf2::norm(&s));
            ctx.transitions += 40 + display_all(&tb).min(1) as u64;
        }
        ctx.traces += 1;
        ctx.table = Some((key, tb));
        Ok(())
    }));
    for (gi, g) in GROUPS.iter().enumerate() {
        // Corner products of each answer.
        let words = g.words;
        let y = if t { Y.len() } else { 7 } as u64;
        let per = y.pow(4);
        let nw = words.len() as u64;
        let bgs = 3u64;
        v.push(idx(format!("{}: {y}^4 extreme contents of each of {nw} answers over {bgs} backgrounds x 2 vendors, with renderings", g.name), per * nw * bgs * 2, move |i, ctx| {
            let g = &GROUPS[gi];
            let (k, w, bg, ven) = (i % per, (i / per % nw) as usize, (i / per / nw % bgs) as usize, (i / per / nw / bgs) as usize);
            let key = i / per;
            let mut tb = match ctx.table.take() {
                Some((x, t)) if x == key => t,
                _ => {
                    let mut t = open_base(VENDORS[ven]);
                    fill(&mut t, g, BACKGROUNDS[[0, 1, 4][bg]]);
                    t
                }
            };
            tb.reset_budget();
            let (l, s) = g.words[w];
            let old = tb.get(l, s);
            let f = |p: u32| Y[(k / y.pow(p) % y) as usize];
            let mut r = r4(f(0), f(1), f(2), f(3));
            if l == 0 {
                r.a = 0x20
            }
            tb.set(l, s, r);
            ctx.describe(|| format!("{} {}", VENDOR_NAMES[ven], env_desc(&tb, g.words)));
            let end = Ending { inner: &tb, end: 6 };
            all_of(g, &end, true, ctx);
            if k % 16 == 0 {
                ctx.transitions += display_all(&end).min(1) as u64;
            }
            tb.set(l, s, old);
            ctx.table = Some((key, tb));
            Ok(())
        }));
        // Bit deviations and whole windows of every register, accessors only.
        v.extend(deviations(gi, if t && words.len() == 1 { 3 } else { 2 }, 0, &[0, 1, 3], &[0, 1, 4]));
        v.extend(sweeps(gi, if t { 20 } else { 16 }, 0, &[0, 1], &[0, 1]));
        // Renderings with <= 1 (2) deviating bits.
        let nb = words.len() as u64 * 128;
        let k = if t && nb <= 256 { 2 } else { 1 };
        let per = nsets(nb, k);
        v.push(idx(format!("{}: renderings with <={k} flipped bits of {nb} over 5 backgrounds x 4 vendors", g.name), per * 20, move |i, ctx| {
            let g = &GROUPS[gi];
            let key = i / per;
            let (bg, ven) = (key as usize % 5, key as usize / 5);
            let mut tb = open_base(VENDORS[ven]);
            fill(&mut tb, g, BACKGROUNDS[bg]);
            for p in unrank(i % per, nb, k) {
                let (l, s) = g.words[(p / 128) as usize];
                *tb.at(l, s).reg_mut((p / 32 % 4) as usize) ^= 1 << (p % 32);
            }
            ctx.describe(|| format!("{} {}", VENDOR_NAMES[ven], env_desc(&tb, g.words)));
            let end = Ending { inner: &tb, end: 8 };
            all_of(g, &end, true, ctx);
            Ok(())
        }));
    }
    for (gi, g) in GROUPS.iter().enumerate() {
        let words = g.words;
        let windows = words.len() as u64 * 16;
        let bgs = if t { 5 } else { 2 };
        v.push(idx(format!("{}: every value of each byte of {} registers over {bgs} contents x 2 vendors, every value with its Display and Debug", g.name, words.len() * 4), windows * 256 * bgs * 2, move |i, ctx| {
            let g = &GROUPS[gi];
            let (x, w, key) = (i % 256, i / 256 % windows, i / 256 / windows);
            let mut tb = match ctx.table.take() {
                Some((k, t)) if k == key => t,
                _ => {
                    let mut t = open_base(VENDORS[key as usize % 2]);
                    fill(&mut t, g, BACKGROUNDS[key as usize / 2]);
                    t
                }
            };
            tb.reset_budget();
            let (l, s) = words[(w / 16) as usize];
            let old = tb.get(l, s);
            let sh = w % 4 * 8;
            let r = tb.at(l, s).reg_mut((w / 4 % 4) as usize);
            *r = *r & !(0xff << sh) | (x as u32) << sh;
            ctx.describe(|| format!("{} {}", VENDOR_NAMES[key as usize % 2], env_desc(&tb, g.words)));
            let end = Ending { inner: &tb, end: 4 };
            all_of(g, &end, true, ctx);
            ctx.transitions += display_all(&end).min(1) as u64;
            tb.set(l, s, old);
            ctx.table = Some((key, tb));
            Ok(())
        }));
    }
    use super::purity::{ops, run_op};
    let chosen = if t { 7 } else { 5 };
    v.push(dfs(format!("a CPU that changes its answers: every sequence of {} contents for the first {chosen} answers of every one of {} operations, 3 vendors x 3 maxima", FICKLE.len(), ops()), move |ch, ctx| {
        let op = ch.choose(ops());
        let vendor = ch.choose(3);
        let max = [(0x20, 0x8000_0026), (!0, !0), (0x1f, 0x8000_0008)][ch.choose(3)];
        let f = Fickle { ch, asked: std::cell::Cell::new(0), chosen, vendor, max };
        let end = Ending { inner: &f, end: 5 };
        ctx.describe(|| format!("operation {op}, {} {max:x?}, answers {:?}", VENDOR_NAMES[vendor], ch.prefix));
        let c = cpu(&end);
        let mut o = std::mem::take(&mut ctx.obs);
        let h = run_op(&c, op, &mut o);
        ctx.obs = o;
        ctx.outcome(h);
        ctx.transitions += f.asked.get() as u64;
        ctx.traces += 1;
        Ok(())
    }));
    v.push(idx("8 enumerations that the CPU never ends: 100 000 items are returned one by one", 8, |i, ctx| {
        let leaf = ENUMS[i as usize];
        let mut tb = endless(leaf);
        if leaf == 0x17 || leaf == 0x18 {
            tb.at(leaf, 0).a = u32::MAX;
        }
        ctx.describe(|| format!("leaf {leaf:#x} never ends"));
        let n = steps(leaf, 100_000, &tb)?;
        ctx.transitions += n;
        ctx.traces += 1;
        Ok(())
    }));
    // The unoptimised build is one for 64 bits.
    #[cfg(target_pointer_width = "64")]
    v.push(idx("enumerations with 50 000 entries, or 50 000 absent ones, walked and rendered in an unoptimised build with 512 KiB of stack", DEEP, |i, ctx| {
        ctx.describe(|| format!("long enumeration {i} of the unoptimised build"));
        let s = std::process::Command::new(format!("{}/target/unopt/unopt/mc", crate::root())).arg("deep").arg(i.to_string()).stderr(std::process::Stdio::null()).status().expect("the unoptimised build");
        ctx.transitions += 50_000;
        ctx.traces += 1;
        if s.success() {
            Ok(())
        } else {
            Err(format!("walking a long enumeration fails in an unoptimised build: {s}"))
        }
    }));
    if t {
        v.push(idx("8 enumerations that the CPU never ends, and address translation with 2^32 empty sub-leaves: followed through all 2^32 sub-leaves until they end", 9, |i, ctx| {
            let leaf = if i == 8 { 0x18 } else { ENUMS[i as usize] };
            let mut tb = endless(leaf);
            if i == 8 {
                tb.default = R4::default();
                for s in 0..SUBS as u32 {
                    tb.set(0x18, s, R4::default());
                }
            }
            if leaf == 0x17 || leaf == 0x18 {
                tb.at(leaf, 0).a = u32::MAX;
            }
            ctx.describe(|| format!("leaf {leaf:#x}, 2^32 sub-leaves"));
            let n = steps(leaf, (1 << 33) + 5, &tb)?;
            ctx.transitions += n;
            ctx.traces += 1;
            if n > 1 << 32 {
                return Err(format!("iterating leaf {leaf:#x} yields more than 2^32 items"));
            }
            Ok(())
        }));
        v.push(idx("the XSAVE component iterator asked 2^32 + 10 times", 1, |_, ctx| {
            let tb = Rich::open(INTEL).build();
            if let Some(x) = cpu(&tb).get_extended_state_info() {
                let mut it = x.iter();
                let mut n = 0u64;
                for _ in 0..(1u64 << 32) + 10 {
                    n += it.next().is_some() as u64;
                }
                ctx.transitions += n;
            }
            ctx.traces += 1;
            Ok(())
        }));
    }
    v
}
