//! C23 and C24: the two printing functions of the display feature.
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::out::mix;
use crate::pty::Renderer;
use crate::rich::*;
use crate::spaces::*;
use raw_cpuid::*;
use std::cell::RefCell;

#[path = "markdown_model.rs"]
mod markdown_model;

thread_local! {
    static R: RefCell<Option<Renderer>> = const { RefCell::new(None) };
}

fn print(kind: u8, t: &Table) -> Result<String, String> {
    R.with(|r| {
        let mut r = r.borrow_mut();
        let res = r.get_or_insert_with(Renderer::start).print(kind, t);
        if res.is_err() {
            *r = None;
        }
        res
    })
}

/// A report as a set of lines: headings, rows under their heading, plain text.
/// The order of sections and rows is not part of the property; sections with
/// the same heading are told apart by their position among each other.
#[derive(Default)]
pub struct Doc {
    items: Vec<String>,
    head: String,
    seen: Vec<String>,
}

/// Cell contents without markdown emphasis and repeated blanks.
fn clean(s: &str) -> String {
    s.chars().filter(|c| !matches!(c, '*' | '`' | '~')).collect::<String>().split_whitespace().collect::<Vec<_>>().join(" ")
}

pub trait Cell {
    fn cell(self) -> String;
}
macro_rules! cell { ($($t:ty),*) => { $(impl Cell for $t { fn cell(self) -> String { self.to_string() } })* } }
cell!(u8, u16, u32, u64, usize, String, Associativity, CacheType, TopologyType, ExtendedRegisterStateLocation, DatType);
impl Cell for bool {
    fn cell(self) -> String {
        if self { "✅" } else { "❌" }.to_string()
    }
}
impl Cell for Option<SoCVendorBrand> {
    fn cell(self) -> String {
        self.map_or(String::new(), |b| b.as_str().to_string())
    }
}

impl Doc {
    pub fn head(&mut self, t: &str) {
        let t = clean(t);
        let n = self.seen.iter().filter(|x| **x == t).count();
        self.seen.push(t.clone());
        self.head = format!("{t} #{n}");
        self.items.push(format!("[{}]", self.head));
    }
    pub fn head_attr(&mut self, t: &str, a: &str) {
        self.head(&format!("{t} = \"{a}\""))
    }
    pub fn cells(&mut self, c: Vec<String>) {
        let c: Vec<String> = c.iter().map(|s| clean(s)).collect();
        self.items.push(format!("[{}] {}", self.head, c.join(" | ")));
    }
    pub fn row(&mut self, label: &str, v: impl Cell) {
        self.cells(vec![label.to_string(), v.cell()])
    }
    pub fn row3(&mut self, a: &str, b: &str, v: impl Cell) {
        self.cells(vec![a.to_string(), b.to_string(), v.cell()])
    }
    pub fn text(&mut self, t: &str) {
        self.items.push(clean(t))
    }
    pub fn attr(&mut self, n: &str, v: impl std::fmt::Display) {
        self.text(&format!("{n} = {v}"))
    }
    pub fn result(&mut self, n: String, r: CpuIdResult) {
        self.text(&format!("{n}: eax = {:#x} ebx = {:#x} ecx = {:#x} edx = {:#x}", r.eax, r.ebx, r.ecx, r.edx))
    }
    fn lines(mut self) -> Vec<String> {
        self.items.sort();
        self.items
    }
    /// Reads back what was printed to the terminal.
    fn parse(out: &str) -> Doc {
        let mut d = Doc::default();
        for l in out.split('\n') {
            let heading = l.contains("\x1b[4m");
            let mut s = String::new();
            let mut c = l.chars();
            while let Some(x) = c.next() {
                if x == '\x1b' {
                    for y in c.by_ref() {
                        if y.is_ascii_alphabetic() {
                            break;
                        }
                    }
                } else {
                    s.push(x)
                }
            }
            let s = s.trim();
            match s.chars().next() {
                None | Some('┌' | '└' | '├') => {}
                Some('│') => {
                    let mut cells: Vec<String> = s.split('│').map(|x| x.to_string()).collect();
                    cells.remove(0);
                    if cells.last().map_or(false, |x| x.trim().is_empty()) {
                        cells.pop();
                    }
                    d.cells(cells)
                }
                Some(_) if heading => d.head(s),
                Some(_) => d.text(s),
            }
        }
        d
    }
}

fn compare_docs(want: Vec<String>, got: Vec<String>) -> Result<u64, String> {
    if want == got {
        return Ok(want.len() as u64);
    }
    let w: Vec<&String> = want.iter().filter(|x| !got.contains(x)).collect();
    let g: Vec<&String> = got.iter().filter(|x| !want.contains(x)).collect();
    if w.is_empty() && g.is_empty() {
        return Err("a line of the report is printed twice or missing once".into());
    }
    Err(format!("the report shows {:?} where the data are {:?}", &g[..g.len().min(3)], &w[..w.len().min(3)]))
}

fn check_report(t: &Table, ctx: &mut Ctx, strict: bool) -> Res {
    t.reset_budget();
    let out = print(0, t)?;
    ctx.traces += 1;
    if !strict {
        ctx.transitions += 1;
        return Ok(());
    }
    t.reset_budget();
    let mut want = Doc::default();
    markdown_model::expected(&cpu(t), &mut want);
    judge_report(want, &out, ctx)
}

fn judge_report(want: Doc, out: &str, ctx: &mut Ctx) -> Res {
    let got = Doc::parse(out).lines();
    ctx.outcome(got.iter().fold(7, |h, l| l.bytes().fold(h, |h, b| mix(h, b as u64))));
    ctx.transitions += compare_docs(want.lines(), got)?;
    Ok(())
}

/// Contents whose texts have no markdown of their own.
fn plain_texts(t: &mut Table) {
    let brand = b"Example(R) Processor(TM) 9000 @ 2.50GHz w/ Graphics\0";
    for k in 0..3usize {
        t.set(0x8000_0002 + k as u32, 0, R4::from_bytes(&brand[k * 16..k * 16 + 16]));
    }
    let soc = b"Example SoC brand, revision 42 of the 48 bytes..";
    for k in 0..3usize {
        t.set(0x17, 1 + k as u32, R4::from_bytes(&soc[k * 16..k * 16 + 16]));
    }
}

pub fn c23(thorough: bool) -> Vec<Space> {
    let mut v = vec![];
    // Which sections there are.
    let gates = 8u64;
    let maxb: Vec<u32> = (0..=0x20).chain([0x4000_0000]).collect();
    let maxe: Vec<u32> = if thorough { [0].into_iter().chain(0x7fff_ffff..=0x8000_0028).collect() } else { [0, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0x8000_0008, 0x8000_0026].to_vec() };
    let fills: &'static [usize] = if thorough { &[0, 1, 5, 6] } else { &[5] };
    let (nb, ne) = (maxb.len() as u64, maxe.len() as u64);
    let n = 2 * nb * ne * gates * fills.len() as u64;
    v.push(idx(
        format!("2 vendors x {nb} basic maxima x {ne} extended maxima x {gates} gate patterns x {} contents: sections and every row", fills.len()),
        n,
        move |i, ctx| {
            let mut k = i;
            let mut take = |n: u64| {
                let r = k % n;
                k /= n;
                r as usize
            };
            let (ven, b, e, g, fl) = (take(2), take(nb), take(ne), take(gates), take(fills.len() as u64));
            let mut r = Rich::open(VENDORS[ven]);
            (r.maxb, r.maxe, r.fill, r.subs) = (maxb[b], maxe[e], fills[fl], (b + g) % 4);
            r.depth = (g as u32 + b as u32) % 4;
            (r.sgx, r.hyp, r.svm) = (g & 1 == 1, g & 2 == 2, g & 4 == 4);
            let mut t = r.build();
            plain_texts(&mut t);
            ctx.describe(|| format!("{r:x?}"));
            check_report(&t, ctx, true)
        },
    ));
    if !thorough {
        let maxe: Vec<u32> = (0x8000_0000..=0x8000_0028).collect();
        v.push(idx(format!("4 vendors x {} extended maxima: sections and every row", maxe.len()), 4 * maxe.len() as u64 * 2, move |i, ctx| {
            let mut r = Rich::open(VENDORS[(i % 4) as usize]);
            (r.maxb, r.maxe, r.fill) = (1, maxe[(i / 4) as usize % maxe.len()], 5);
            r.svm = i / 4 / maxe.len() as u64 == 1;
            let mut t = r.build();
            plain_texts(&mut t);
            ctx.describe(|| format!("{r:x?}"));
            check_report(&t, ctx, true)
        }));
    }
    // Each bit of each register, and in the thorough tier each pair.
    for (gi, g) in GROUPS.iter().enumerate() {
        if g.words.is_empty() {
            continue;
        }
        let bits: Vec<(u32, u32, usize, u32)> = g
            .words
            .iter()
            .flat_map(|&(l, s)| (0..4).flat_map(move |r| (0..32).filter(move |&b| mask(l, s, r) >> b & 1 == 1 && l != 0).map(move |b| (l, s, r, b))))
            .filter(|&(l, ..)| !(0x8000_0002..=0x8000_0004).contains(&l))
            .filter(|&(l, s, ..)| l != 0x17 || s == 0 || s > 3)
            .filter(|&(l, s, r, b)| (l, s, r) != (0x17, 0, 0) || b < 9)
            .collect();
        let maxb = g.words.iter().map(|w| w.0).filter(|&l| l < 0x4000_0000).max().unwrap_or(1).max(1);
        let maxe = g.words.iter().map(|w| w.0).filter(|&l| l >= 0x8000_0000).max().unwrap_or(0x8000_0000);
        let k = if thorough && bits.len() <= 140 { 2 } else { 1 };
        let per = nsets(bits.len() as u64, k);
        let bgs: Vec<usize> = if thorough { vec![0, 1, 2, 3, 4] } else { vec![0, 1, 4] };
        let vs: Vec<usize> = if thorough { vec![0, 1, 2, 3] } else { vec![0, 1] };
        let (nbg, nv) = (bgs.len() as u64, vs.len() as u64);
        v.push(idx(format!("{}: <={k} flipped bits of {} over {nbg} backgrounds x {nv} vendors, every row", g.name, bits.len()), per * nbg * nv, move |i, ctx| {
            let g = &GROUPS[gi];
            let c = i / per;
            let ven = VENDORS[vs[(c % nv) as usize]];
            let mut t = open_base(ven);
            fill(&mut t, g, BACKGROUNDS[bgs[(c / nv) as usize]]);
            t.at(0, 0).a = maxb;
            t.at(0x8000_0000, 0).a = maxe;
            plain_texts(&mut t);
            for p in unrank(i % per, bits.len() as u64, k) {
                let (l, s, r, b) = bits[p as usize];
                *t.at(l, s).reg_mut(r) ^= 1 << b;
            }
            ctx.describe(|| env_desc(&t, g.words));
            check_report(&t, ctx, true)
        }));
    }
    // Every leaf 2 descriptor.
    v.push(idx("leaf 2: each byte value in each of 15 descriptor positions", if thorough { 15 * 256 } else { 3 * 256 }, move |i, ctx| {
        let pos = if thorough { 1 + i / 256 } else { [1, 4, 11][(i / 256) as usize] };
        let mut b = [0u8; 16];
        b[0] = 1;
        b[(pos as usize + 3) % 16] = 0x2c;
        b[pos as usize] = i as u8;
        let mut t = open_base(INTEL);
        t.at(0, 0).a = 2;
        t.at(0x8000_0000, 0).a = 0x8000_0000;
        t.set(2, 0, R4::from_bytes(&b));
        ctx.describe(|| format!("leaf 2 = {:?}", t.get(2, 0)));
        check_report(&t, ctx, true)
    }));
    // Every value of the fields that become numbers.
    for (l, s, reg, lo, name) in [
        (1u32, 0u32, 0usize, 8u32, "family and model"),
        (1, 0, 0, 20, "extended family"),
        (1, 0, 1, 16, "logical processors"),
        (4, 0, 0, 14, "cores for cache"),
        (4, 0, 1, 22, "ways"),
        (4, 0, 2, 24, "sets"),
        (5, 0, 3, 0, "C-states"),
        (0x8000_0006, 0, 3, 18, "L3 size"),
        (0x8000_0008, 0, 2, 0, "threads"),
        (0x8000_0019, 0, 0, 0, "1 GiB TLB"),
        (0x8000_001E, 0, 1, 0, "threads per core"),
        (0x8000_001F, 0, 1, 0, "C bit"),
    ] {
        let w = (32 - lo).min(if thorough { 14 } else { 8 });
        v.push(idx(format!("leaf {l:#x}.{s}: every value of bits {}..{lo} of register {reg} ({name})", lo + w - 1), 2 << w, move |i, ctx| {
            let mut t = open_base(VENDORS[(i & 1) as usize]);
            t.at(0, 0).a = if l < 0x20 { l } else { 1 };
            t.at(0x8000_0000, 0).a = if l < 0x20 { 0x8000_0000 } else { l };
            if l == 4 {
                t.at(4, 0).a = 1
            }
            *t.at(l, s).reg_mut(reg) |= ((i >> 1) as u32) << lo;
            plain_texts(&mut t);
            ctx.describe(|| format!("leaf {l:#x}.{s}: {:?}", t.get(l, s)));
            check_report(&t, ctx, true)
        }));
    }
    // No content makes it panic.
    let kinds: Vec<(u32, u32, u32)> = [(0x8000_0002, 0, 48), (0x17, 1, 48), (0, 0, 12)].to_vec();
    let tot: u64 = if thorough { 108 * 256 } else { 9 * 256 };
    v.push(idx("each byte value at positions of the vendor, brand and SoC brand strings: no panic", tot, move |i, ctx| {
        let (b, p) = (i as u8, i / 256);
        let (kind, at) = if thorough {
            if p < 48 {
                (0, p)
            } else if p < 96 {
                (1, p - 48)
            } else {
                (2, p - 96)
            }
        } else {
            ((p % 3) as usize, [0, 5, 11][(p / 3) as usize])
        };
        let mut t = open_base(INTEL);
        t.at(0, 0).a = 0x17;
        t.at(0x8000_0000, 0).a = 0x8000_0004;
        plain_texts(&mut t);
        let (l, _, _) = kinds[kind];
        match kind {
            0 => {
                let (l, o) = (l + at as u32 / 16, at as usize % 16);
                let mut w = t.get(l, 0).bytes();
                w[o] = b;
                t.set(l, 0, R4::from_bytes(&w));
            }
            1 => {
                t.at(0x17, 0).a = 6;
                let (s, o) = (1 + at as u32 / 16, at as usize % 16);
                let mut w = t.get(0x17, s).bytes();
                w[o] = b;
                t.set(0x17, s, R4::from_bytes(&w));
            }
            _ => {
                let mut w = t.get(0, 0).bytes();
                w[4 + at as usize] = b;
                t.set(0, 0, R4::from_bytes(&w));
            }
        }
        ctx.describe(|| format!("string {kind}, byte {at} = {b:#x}"));
        check_report(&t, ctx, false)
    }));
    v.push(idx("hostile contents: 7 fills x 4 depths x 4 shapes x 4 vendors x 8 gates: no panic", 7 * 4 * 4 * 4 * 8, move |i, ctx| {
        let mut r = Rich::open(VENDORS[(i % 4) as usize]);
        r.fill = (i / 4 % 7) as usize;
        r.depth = [0, 1, 5, 30][(i / 28 % 4) as usize];
        r.subs = (i / 112 % 4) as usize;
        let g = i / 448;
        (r.sgx, r.hyp, r.svm) = (g & 1 == 1, g & 2 == 2, g & 4 == 4);
        ctx.describe(|| format!("{r:x?}"));
        check_report(&r.build(), ctx, false)
    }));
    v
}

// ---------------------------------------------------------------- raw dump

fn numbers(l: &str) -> Vec<u64> {
    let mut v = vec![];
    let mut rest = l;
    while let Some(p) = rest.find("0x") {
        let h: String = rest[p + 2..].chars().take_while(|c| c.is_ascii_hexdigit()).collect();
        v.push(u64::from_str_radix(&h, 16).unwrap_or(u64::MAX));
        rest = &rest[p + 2 + h.len()..];
    }
    v
}

fn check_raw(t: &Table, ctx: &mut Ctx) -> Res {
    t.reset_budget();
    let out = print(1, t)?;
    ctx.traces += 1;
    judge_raw(t, &out, ctx)
}

fn judge_raw(t: &dyn Src, out: &str, ctx: &mut Ctx) -> Res {
    let m = |l: u32| t.get(l, 0).a;
    let want = (0..=m(0)).chain(0x4000_0000..=m(0x4000_0000)).chain(0x8000_0000..=m(0x8000_0000));
    let mut lines = out.split('\n').filter(|l| !l.trim().is_empty());
    for leaf in want {
        let Some(l) = lines.next() else { return Err(format!("the dump has no line for leaf {leaf:#x}")) };
        let r = t.get(leaf, 0);
        let n = numbers(l);
        let w: Vec<u64> = [leaf, 0, r.a, r.b, r.c, r.d].map(|x| x as u64).to_vec();
        if n != w {
            return Err(format!("line {l:?} of the dump where leaf {leaf:#x} answers {r:?}"));
        }
        // Each register under its own name.
        let at = |s: &str| l.find(s);
        if !(at("eax").is_some() && at("eax") < at("ebx") && at("ebx") < at("ecx") && at("ecx") < at("edx")) {
            return Err(format!("line {l:?} of the dump names other registers"));
        }
        ctx.transitions += 6;
    }
    if let Some(l) = lines.next() {
        return Err(format!("line {l:?} of the dump is beyond the maximum leaves"));
    }
    ctx.outcome(out.bytes().fold(3, |h, b| mix(h, b as u64)));
    Ok(())
}

pub fn c24(thorough: bool) -> Vec<Space> {
    let mut v = vec![];
    let nb: u64 = if thorough { 0x48 } else { 0x28 };
    let maxh: Vec<u32> = [0, 1, 0x3fff_ffff].into_iter().chain(0x4000_0000..=0x4000_0000 + if thorough { 0x20 } else { 0x12 }).chain([0x4000_0100]).collect();
    let maxe: Vec<u32> = [0, 1, 0x7fff_ffff].into_iter().chain(0x8000_0000..=0x8000_0000 + if thorough { 0x30 } else { 0x27 }).chain([0x8000_00ff]).collect();
    for (a, b) in [(maxh.clone(), vec![0u32, 0x8000_0008]), (vec![0, 0x4000_0001], maxe)] {
        let (na, ne) = (a.len() as u64, b.len() as u64);
        v.push(idx(format!("{nb} basic maxima x {na} hypervisor maxima x {ne} extended maxima x 2 vendors, all leaves different"), nb * na * ne * 2, move |i, ctx| {
            let mut t = Table::new(R4::default());
            t.scramble = 0x1234_5678 + i % 2;
            let key = t.scramble;
            for l in (0..0x28).chain(0x4000_0000..0x4000_0012).chain(0x8000_0000..0x8000_0028) {
                for s in 0..4 {
                    t.set(l, s, scrambled(key, l, s));
                }
            }
            let j = i / 2;
            let (b0, h, e) = ((j % nb) as u32, a[(j / nb % na) as usize], b[(j / nb / na) as usize]);
            t.set(0, 0, leaf0(b0, VENDORS[(i % 2) as usize]));
            t.at(0x4000_0000, 0).a = h;
            t.at(0x8000_0000, 0).a = e;
            ctx.describe(|| format!("maxima {b0:#x} {h:#x} {e:#x}"));
            check_raw(&t, ctx)
        }));
    }
    // Processors that answer for a leaf they do not have with their highest
    // basic leaf, and processors with the same answer everywhere.
    const SAME: [u32; 10] = [0, 1, 7, 0x20, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0x8000_0008, 0x4000_0000, 0x4000_0003];
    v.push(idx("ranges that repeat the answer of leaf 0..0x20, or each other's: 10 values of EAX x 5 patterns", 0x21 * 10 * 5, move |i, ctx| {
        let (b0, a, pat) = ((i % 0x21) as u32, SAME[(i / 0x21 % 10) as usize], i / 0x21 / 10);
        let mut t = Table::new(R4::default());
        t.scramble = 77;
        let echo = r4(a, 0x1234, 0x5678, 0x9abc);
        t.set(0, 0, leaf0(b0, INTEL));
        if b0 > 0 {
            t.set(b0, 0, echo);
        }
        let (h, e) = (t.get(0x4000_0000, 0), t.get(0x8000_0000, 0));
        let other = |r: R4, a: u32| r4(a, r.b, r.c, r.d);
        for l in 0..16 {
            if pat != 1 {
                // A maximum of the other range would ask for 2^30 lines.
                let r = if pat == 3 { other(h, a) } else { echo };
                t.set(0x4000_0000 + l, 0, other(r, if l == 0 && a > 0x4000_1000 { 0x4000_0002 } else { a }));
            } else {
                t.at(0x4000_0000, 0).a = 0;
            }
            if pat != 2 {
                t.set(0x8000_0000 + l, 0, if pat == 3 { other(e, a) } else { echo });
            } else {
                t.at(0x8000_0000, 0).a = 0;
            }
        }
        if pat == 4 {
            // The answer of leaf 0.
            let z = t.get(0, 0);
            t.set(0x4000_0000, 0, z);
            t.set(0x8000_0000, 0, z);
        }
        ctx.describe(|| format!("maximum {b0:#x}, echo {a:#x}, pattern {pat}"));
        check_raw(&t, ctx)
    }));
    // Long ranges, and every bit of every register of a line.
    v.push(idx("long ranges", 6, move |i, ctx| {
        let mut t = Table::new(R4::default());
        t.scramble = 99;
        t.budget.set(1 << 30);
        t.at(0, 0).a = [3000, 0, 0, 300, 0xfff, 1][i as usize];
        t.at(0x4000_0000, 0).a = [0, 0x4000_0000 + 3000, 0, 0x4000_0200, 0x4000_0fff, 0x4000_0001][i as usize];
        t.at(0x8000_0000, 0).a = [0, 0, 0x8000_0000 + 3000, 0x8000_0333, 0x8000_0fff, 0x8000_0001][i as usize];
        ctx.describe(|| format!("long range {i}"));
        check_raw(&t, ctx)
    }));
    let leaves = [1u32, 4, 7, 0xD, 0x4000_0001, 0x8000_0001, 0x8000_0004];
    let k = if thorough { 2 } else { 1 };
    let per = nsets(128, k);
    v.push(idx(format!("<={k} flipped bits of each of {} lines over 2 backgrounds", leaves.len()), per * 2 * leaves.len() as u64, move |i, ctx| {
        let mut t = Table::new(if i / per % 2 == 0 { R4::default() } else { r4(!0, !0, !0, !0) });
        t.set(0, 0, leaf0(0xD, INTEL));
        t.at(0x4000_0000, 0).a = 0x4000_0001;
        t.at(0x8000_0000, 0).a = 0x8000_0004;
        let l = leaves[(i / per / 2) as usize];
        for p in unrank(i % per, 128, k) {
            *t.at(l, 0).reg_mut(p as usize / 32) ^= 1 << (p % 32);
        }
        ctx.describe(|| format!("leaf {l:#x} = {:?}", t.get(l, 0)));
        check_raw(&t, ctx)
    }));
    v
}

// ---------------------------------------------------------------- the tool

/// What an argument vector asks for.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Asks {
    Report,
    Dump,
    Refused,
    Help,
    /// Combinations the property says nothing about.
    Any,
}

fn asks(args: &[&str]) -> Asks {
    if args.iter().any(|a| ["-h", "--help", "-V", "--version"].contains(a)) {
        return if args.len() == 1 { Asks::Help } else { Asks::Any };
    }
    let mut given = 0;
    let mut f = Some(Asks::Report);
    let mut it = args.iter();
    let name = |v: &str| match v {
        "raw" => Some(Asks::Dump),
        "cli" => Some(Asks::Report),
        _ => None,
    };
    while let Some(a) = it.next() {
        let v = match *a {
            "--" => {
                if it.next().is_some() {
                    f = None;
                }
                break;
            }
            "-f" | "--format" => match it.next() {
                Some(v) if !v.starts_with('-') => name(v),
                _ => None,
            },
            _ if a.starts_with("--format=") => name(&a[9..]),
            _ if a.starts_with("-f=") => name(&a[3..]),
            _ if a.starts_with("-f") => name(&a[2..]),
            _ => None,
        };
        given += 1;
        f = if f.is_none() { None } else { v };
    }
    match f {
        None => Asks::Refused,
        Some(_) if given > 1 => Asks::Any,
        Some(x) => x,
    }
}

fn check_tool(args: &[&str], env: &[(&str, &str)], piped: bool, ctx: &mut Ctx) -> Res {
    use super::native::Executing;
    let path = std::path::PathBuf::from(std::env::var("MC_ROOT").unwrap_or(".".into())).join("target/tool/release/cpuid");
    let a = asks(args);
    let mut last = Ok(());
    // A value of this machine that changes by itself is looked at again.
    for _ in 0..20 {
        let (status, out) = crate::pty::run(&path, args, env, piped);
        ctx.traces += 1;
        ctx.transitions += 1;
        let ok = status == Some(0);
        let r = match a {
            Asks::Any => Ok(()),
            Asks::Help if ok => Ok(()),
            Asks::Refused if status.map_or(false, |s| s != 0) && out.is_empty() => Ok(()),
            Asks::Refused => return Err(format!("cpuid {args:?} must be refused: it exited with {status:?} and printed {:?}", out.chars().take(60).collect::<String>())),
            _ if !ok => return Err(format!("cpuid {args:?} exited with {status:?}")),
            Asks::Report => {
                let mut want = Doc::default();
                markdown_model::expected(&cpu(&Executing), &mut want);
                judge_report(want, &out, ctx)
            }
            Asks::Dump => judge_raw(&Executing, &out, ctx),
            Asks::Help => unreachable!(),
        };
        last = r.map_err(|e| format!("cpuid {args:?}: {e}"));
        if last.is_ok() {
            break;
        }
    }
    last
}

/// The environment variables the program reads when invoked like this.
fn read_variables(forms: &[&[&str]]) -> Vec<String> {
    let root = std::path::PathBuf::from(std::env::var("MC_ROOT").unwrap_or(".".into()));
    let spy = root.join("target/tool/spy.so");
    if !spy.exists() {
        return vec![];
    }
    let log = std::env::temp_dir().join(format!("mc-spy-{}", std::process::id()));
    let (spy, log) = (spy.to_str().unwrap().to_string(), log.to_str().unwrap().to_string());
    for f in forms {
        for piped in [false, true] {
            crate::pty::run(&root.join("target/tool/release/cpuid"), f, &[("LD_PRELOAD", &spy), ("SPY_LOG", &log)], piped);
        }
    }
    let mut v: Vec<String> = std::fs::read_to_string(&log).unwrap_or_default().lines().map(|l| l.to_string()).collect();
    let _ = std::fs::remove_file(&log);
    v.sort();
    v.dedup();
    v
}

const VARS: [&str; 36] = [
    "TERM", "NO_COLOR", "COLUMNS", "LINES", "LANG", "LC_ALL", "LC_CTYPE", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "COLORTERM", "TERM_PROGRAM", "FORMAT", "CPUID_FORMAT", "CPUID", "OUTPUT", "OUTPUT_FORMAT",
    "DEBUG", "VERBOSE", "QUIET", "CI", "RUST_LOG", "RUST_BACKTRACE", "HOME", "USER", "PWD", "SHELL", "PATH", "PAGER", "EDITOR", "TMUX", "STY", "SSH_TTY", "DISPLAY", "container", "XDG_CONFIG_HOME",
];
const VALUES: [&str; 14] = ["", "0", "1", "2", "dumb", "raw", "cli", "C", "en_US.UTF-8", "80", "xterm-256color", "true", "never", "/nonexistent"];

pub fn c29(thorough: bool) -> Vec<Space> {
    use super::native::{cpus, pin};
    let mut v = vec![];
    let all = cpus();
    let c0 = all[0];
    let words: Vec<&'static str> = vec![
        "-f", "--format", "raw", "cli", "-fraw", "-fcli", "-f=raw", "-f=cli", "--format=raw", "--format=cli", "--", "", "-", "Raw", "-h", "--help", "--format=", "-x", "markdown", "-V",
    ];
    let n = words.len() as u64;
    let k = if thorough { 3 } else { 2 };
    let total: u64 = (0..=k).map(|e| n.pow(e)).sum();
    v.push(idx(format!("every argument vector of <={k} of {n} words"), total, move |mut i, ctx| {
        pin(c0);
        let mut e = 0;
        while i >= n.pow(e) {
            i -= n.pow(e);
            e += 1;
        }
        let args: Vec<&str> = (0..e).map(|j| words[(i / n.pow(j) % n) as usize]).collect();
        ctx.describe(|| format!("cpuid {args:?}"));
        check_tool(&args, &[], false, ctx)
    }));
    let letters = ["r", "a", "w", "c", "l", "i"];
    let k = if thorough { 4 } else { 3 };
    let total: u64 = (0..=k).map(|e| 6u64.pow(e)).sum();
    v.push(idx(format!("every format name of <={k} of the letters of raw and cli"), total, move |mut i, ctx| {
        pin(c0);
        let mut e = 0;
        while i >= 6u64.pow(e) {
            i -= 6u64.pow(e);
            e += 1;
        }
        let name: String = (0..e).map(|j| letters[(i / 6u64.pow(j) % 6) as usize]).collect();
        let args = ["--format", &name];
        ctx.describe(|| format!("cpuid {args:?}"));
        check_tool(&args, &[], false, ctx)
    }));
    let forms: [&[&'static str]; 7] = [&[], &["-f", "cli"], &["--format=cli"], &["-f", "raw"], &["--format", "raw"], &["-fraw"], &["-f", "table"]];
    let np = all.len() as u64;
    v.push(idx(format!("7 invocations on each of {np} processors, 3 times"), 21 * np, move |i, ctx| {
        pin(all[(i / 21) as usize]);
        let args = forms[(i % 7) as usize];
        ctx.describe(|| format!("cpuid {args:?} on processor {}", all[(i / 21) as usize]));
        check_tool(args, &[], false, ctx)
    }));
    v.push(idx("4 dumps and refusals into a pipe", 4, move |i, ctx| {
        pin(c0);
        let a: [&[&str]; 4] = [&["-f", "raw"], &["--format=raw"], &["-f", "table"], &["raw"]];
        ctx.describe(|| format!("cpuid {:?} into a pipe", a[i as usize]));
        check_tool(a[i as usize], &[], true, ctx)
    }));
    let read = read_variables(&forms);
    let mut names: Vec<String> = VARS.iter().map(|s| s.to_string()).collect();
    names.extend(read.iter().filter(|r| !VARS.contains(&r.as_str())).cloned());
    // Kinds of invocation: the report, the dump, the dump into a pipe.
    let (nn, nv) = (names.len() as u64, VALUES.len() as u64);
    let n2 = names.clone();
    v.push(idx(format!("report, dump and piped dump with each of {nn} environment variables ({} of them read by the program) set to each of {nv} values", read.len()), nn * nv * 3, move |i, ctx| {
        pin(c0);
        let (k, val, name) = (i % 3, VALUES[(i / 3 % nv) as usize], &n2[(i / 3 / nv) as usize]);
        ctx.describe(|| format!("{} with {name}={val:?}", ["cpuid", "cpuid -f raw", "cpuid -f raw into a pipe"][k as usize]));
        check_tool(if k == 0 { &[] } else { &["-f", "raw"] }, &[(name, val)], k == 2, ctx).map_err(|e| format!("with {name}={val:?}: {e}"))
    }));
    // Pairs of those it reads.
    let np = read.len() as u64;
    let pairs: Vec<(usize, usize)> = (0..read.len()).flat_map(|a| (0..a).map(move |b| (a, b))).collect();
    if !pairs.is_empty() {
        let vals: Vec<&'static str> = if thorough { VALUES.to_vec() } else { vec!["", "1", "dumb", "80"] };
        let q = vals.len() as u64;
        let pairs: Vec<_> = pairs.into_iter().take(if thorough { usize::MAX } else { 30 }).collect();
        v.push(idx(format!("report and dump with {} pairs of the {np} variables the program reads set to {q} x {q} values", pairs.len()), pairs.len() as u64 * q * q * 2, move |i, ctx| {
            pin(c0);
            let (k, a, b, p) = (i % 2, vals[(i / 2 % q) as usize], vals[(i / 2 / q % q) as usize], pairs[(i / 2 / q / q) as usize]);
            let env = [(read[p.0].as_str(), a), (read[p.1].as_str(), b)];
            ctx.describe(|| format!("{} with {env:?}", ["cpuid", "cpuid -f raw"][k as usize]));
            check_tool(if k == 0 { &[] } else { &["-f", "raw"] }, &env, false, ctx).map_err(|e| format!("with {env:?}: {e}"))
        }));
    }
    v
}
