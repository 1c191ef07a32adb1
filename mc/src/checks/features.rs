//! C26: every feature configuration decodes identically.
//!
//! This process is the default (no_std) build; each thread asks the builds with
//! `std`, `serialize` and `display`, and the default build without debug assertions
//! and overflow checks, for the digests of the same case.
use super::render::display_text;
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::out::*;
use crate::rich::*;
use crate::spaces::*;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// Builds with a feature, and one without debug assertions and overflow checks.
const VARIANTS: [&str; 4] = ["std", "serialize", "display", "plain"];
const PANICKED: u64 = 0xdead_dead_dead_dead;

/// C33: what the same machine with 64 bits answers.
const WIDE: [&str; 1] = ["base"];
/// Digests for comparing machines with 32 and with 64 bits.
static NARROW: AtomicBool = AtomicBool::new(false);

extern "C" {
    fn prctl(op: i32, ...) -> i32;
}

struct Server {
    name: &'static str,
    child: Child,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! { static SERVERS: RefCell<Vec<Server>> = const { RefCell::new(vec![]) }; }

fn ask(variants: &[&'static str], thorough: bool, space: usize, i: u64) -> Vec<(&'static str, Vec<u64>)> {
    SERVERS.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_empty() {
            for &name in variants {
                let profile = if name == "plain" { name } else { "release" };
                let mut c = Command::new(format!("{}/target/{name}/{profile}/mc", crate::root()));
                c.arg("digests").arg(if thorough { "thorough" } else { "quick" }).arg(if variants == WIDE { "narrow" } else { "" }).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
                unsafe {
                    c.pre_exec(|| {
                        prctl(1, 9);
                        Ok(())
                    })
                };
                s.push(Server { name, child: c.spawn().expect("digest server") });
            }
        }
        for v in s.iter_mut() {
            let mut m = (space as u64).to_le_bytes().to_vec();
            m.extend(i.to_le_bytes());
            v.child.stdin.as_mut().unwrap().write_all(&m).expect("digest request");
        }
        s.iter_mut()
            .map(|v| {
                let o = v.child.stdout.as_mut().unwrap();
                let mut n = [0u8; 8];
                o.read_exact(&mut n).expect("digest answer");
                let mut b = vec![0; u64::from_le_bytes(n) as usize * 8];
                o.read_exact(&mut b).expect("digest answer");
                (v.name, b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
            })
            .collect()
    })
}

/// The child: answers digest requests until its input ends.
pub fn serve(thorough: bool, narrow: bool) -> i32 {
    NARROW.store(narrow, Relaxed);
    crate::known::load(&crate::root(), if narrow { "C33" } else { "C26" });
    std::panic::set_hook(Box::new(|_| {}));
    let spaces = cases(thorough);
    let (mut i, mut o) = (std::io::stdin(), std::io::stdout());
    let mut cache = None;
    loop {
        let mut b = [0u8; 16];
        if i.read_exact(&mut b).is_err() {
            return 0;
        }
        let (s, n) = (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap()));
        let d = (spaces[s as usize].run)(n, &mut cache);
        let mut m = (d.len() as u64).to_le_bytes().to_vec();
        m.extend(d.iter().flat_map(|x| x.to_le_bytes()));
        if o.write_all(&m).and_then(|_| o.flush()).is_err() {
            return 0;
        }
    }
}

/// The number of sets of a cache that is too large for a usize of 32 bits.
const SETS: u128 = 1 << 32;
fn sets_known() -> bool {
    NARROW.load(Relaxed) && cfg!(target_pointer_width = "64") && crate::known::listed("sets-usize-32bit")
}

pub fn text_digest(s: &str) -> u64 {
    if NARROW.load(Relaxed) {
        // Debug pads the numbers of a raw result to the width of a pointer.
        let mut parts = s.split("0x");
        let mut t = parts.next().unwrap_or("").to_string();
        for p in parts {
            t.push_str("0x");
            t.push_str(p.trim_start_matches('0'));
        }
        if sets_known() {
            t = t.replace("sets: 4294967296", "sets: 4294967295");
        }
        return plain_digest(&t);
    }
    plain_digest(s)
}
fn plain_digest(s: &str) -> u64 {
    s.as_bytes().chunks(8).fold(s.len() as u64, |h, c| {
        let mut b = [0; 8];
        b[..c.len()].copy_from_slice(c);
        mix(h, u64::from_le_bytes(b))
    })
}
/// Panics are another property's business; they must only be the same.
pub fn guarded(t: &Table, f: impl FnOnce() -> u64) -> u64 {
    t.reset_budget();
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(PANICKED)
}
pub fn obs_digest(g: &Grp, t: &Table) -> u64 {
    guarded(t, || {
        let mut o = Out::default();
        let a = (g.obs)(&cpu(t), &mut o);
        if sets_known() {
            for e in o.e.iter_mut().filter(|e| e.label.ends_with(".sets") && e.v == SETS) {
                e.v -= 1;
            }
        }
        mix(a as u64, o.digest())
    })
}
pub fn dbg_digest(g: &Grp, t: &Table) -> u64 {
    guarded(t, || text_digest(&(g.dbg)(&cpu(t))))
}
pub fn whole(t: &Table) -> Vec<u64> {
    let mut v: Vec<u64> = GROUPS.iter().map(|g| obs_digest(g, t)).collect();
    v.extend(GROUPS.iter().map(|g| dbg_digest(g, t)));
    v.push(guarded(t, || text_digest(&format!("{:?}", cpu(t)))));
    v.push(guarded(t, || text_digest(&display_text(t))));
    v.push(guarded(t, || text_digest(&format!("{:#?}", cpu(t)))));
    v
}

type Cache = Option<(u64, Table)>;
struct Case {
    name: String,
    n: u64,
    run: Box<dyn Fn(u64, &mut Cache) -> Vec<u64> + Sync + Send>,
    /// What the k-th digest of a case is about, and the environment.
    label: Box<dyn Fn(u64, usize) -> String + Sync + Send>,
    describe: Box<dyn Fn(u64) -> String + Sync + Send>,
}

pub fn whole_label(_: u64, k: usize) -> String {
    let n = GROUPS.len();
    match k {
        k if k < n => format!("the values of {}", GROUPS[k].name),
        k if k < 2 * n => format!("the Debug text of {}", GROUPS[k - n].name),
        k if k == 2 * n => "the Debug text of the handle".into(),
        k if k == 2 * n + 1 => "the Display texts".into(),
        _ => "the Debug text of the handle over several lines".into(),
    }
}

const BATCH: u64 = 128;

fn cases(thorough: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let many: u64 = if thorough { 1 << 16 } else { 1 << 12 };
    v.push(Case {
        name: format!("Display and Debug of every value of the public enumerated types, numbers 0..{} (in batches of {BATCH})", many - 1),
        n: many / BATCH,
        run: Box::new(move |i, _| {
            let t = Table::new(r4(0, 0, 0, 0));
            (i * BATCH..(i + 1) * BATCH).map(|j| guarded(&t, || text_digest(&super::values::value_text(j)))).collect()
        }),
        label: Box::new(|i, k| format!("a Display or Debug text of the values numbered {}", i * BATCH + k as u64)),
        describe: Box::new(|i| format!("values numbered {}..", i * BATCH)),
    });
    let maxb: Vec<u32> = if thorough { (0..=0x20).collect() } else { vec![0, 1, 4, 7, 0xB, 0xF, 0x12, 0x17, 0x18, 0x1F, 0x20] };
    let maxe: Vec<u32> = if thorough { (0x8000_0000..=0x8000_0026).chain([0]).collect() } else { vec![0, 0x8000_0001, 0x8000_0004, 0x8000_0008, 0x8000_001D, 0x8000_0020, 0x8000_0026] };
    let fills: u64 = if thorough { 7 } else { 3 };
    let (nb, ne) = (maxb.len() as u64, maxe.len() as u64);
    let rich = move |i: u64| {
        let mut r = Rich::open(VENDORS[(i % 4) as usize]);
        r.subs = (i / 4 % 4) as usize;
        let g = i / 16 % 8;
        (r.sgx, r.hyp, r.svm) = (g & 1 == 1, g & 2 == 2, g & 4 == 4);
        r.depth = [2, 0, 3][((i / 16 + i / 4) % 3) as usize];
        r.fill = [5, 1, 2, 0, 6, 3, 4][(i / 128 % fills) as usize];
        let j = i / 128 / fills;
        r.maxb = maxb[(j % nb) as usize];
        r.maxe = maxe[(j / nb) as usize];
        r
    };
    let r2 = rich.clone();
    v.push(Case {
        name: format!("whole CPUs: {nb} basic maxima x {ne} extended maxima x {fills} contents x 8 gates x 4 shapes x 4 vendors, every value, Debug and Display text"),
        n: 128 * fills * nb * ne,
        run: Box::new(move |i, _| whole(&rich(i).build())),
        label: Box::new(whole_label),
        describe: Box::new(move |i| format!("{:x?}", r2(i))),
    });
    for (gi, g) in GROUPS.iter().enumerate() {
        let words = g.words;
        let bits = words.len() as u64 * 128;
        let k = if thorough && bits <= 1024 { 2 } else { 1 };
        let total = nsets(bits, k);
        let per = total.div_ceil(BATCH);
        let env = move |key: u64| {
            let mut t = open_base(VENDORS[key as usize % 4]);
            fill(&mut t, &GROUPS[gi], BACKGROUNDS[key as usize / 4]);
            t
        };
        v.push(Case {
            name: format!("{}: <={k} flipped bits of {bits} over 5 contents x 4 vendors ({total} x 20 environments in batches of {BATCH})", g.name),
            n: per * 20,
            run: Box::new(move |i, cache| {
                let g = &GROUPS[gi];
                let key = (gi as u64 + 1) << 32 | i / per;
                let mut t = match cache.take() {
                    Some((k, t)) if k == key => t,
                    _ => env(i / per),
                };
                let mut out = vec![];
                for j in i % per * BATCH..((i % per + 1) * BATCH).min(total) {
                    let set = unrank(j, bits, k);
                    let flip = |t: &mut Table| {
                        for &p in &set {
                            let (l, s) = words[(p / 128) as usize];
                            let reg = (p / 32 % 4) as usize;
                            *t.at(l, s).reg_mut(reg) ^= (1 << (p % 32)) & mask(l, s, reg);
                        }
                    };
                    flip(&mut t);
                    out.push(obs_digest(g, &t));
                    out.push(dbg_digest(g, &t));
                    flip(&mut t);
                }
                *cache = Some((key, t));
                out
            }),
            label: Box::new(move |i, n| {
                let j = i % per * BATCH + n as u64 / 2;
                let at: Vec<String> = unrank(j, bits, k).iter().map(|p| format!("bit {} of leaf {:#x}.{} {}", p % 32, words[(p / 128) as usize].0, words[(p / 128) as usize].1, ["EAX", "EBX", "ECX", "EDX"][(p / 32 % 4) as usize])).collect();
                format!("the {} of {} with {at:?} flipped", ["values", "Debug text"][n % 2], GROUPS[gi].name)
            }),
            describe: Box::new(move |i| format!("{}, contents {:?}, batch {}", VENDOR_NAMES[(i / per) as usize % 4], BACKGROUNDS[(i / per) as usize / 4], i % per)),
        });
        // Products of extreme values of the four registers of one answer.
        const Y: [u32; 8] = [0, 1, !0, !1, 0x8000_0000, 0x7fff_ffff, 0x0001_0001, 0x5a5a_5a5a];
        let total = 4096u64;
        let per = total / BATCH;
        let nw = words.len() as u64;
        v.push(Case {
            name: format!("{}: 8^4 extreme contents of each of {nw} answers over 2 contents x 4 vendors (in batches of {BATCH})", g.name),
            n: nw * per * 8,
            run: Box::new(move |i, cache| {
                let g = &GROUPS[gi];
                let (b, w, ck) = (i % per, (i / per % nw) as usize, i / per / nw);
                let key = (gi as u64 + 1) << 32 | 1 << 29 | ck;
                let mut t = match cache.take() {
                    Some((k, t)) if k == key => t,
                    _ => env(ck),
                };
                let (l, s) = words[w];
                let old = t.get(l, s);
                let mut out = vec![];
                for x in b * BATCH..(b + 1) * BATCH {
                    for reg in 0..4 {
                        let m = mask(l, s, reg);
                        *t.at(l, s).reg_mut(reg) = old.reg(reg) & !m | Y[(x >> (3 * reg) & 7) as usize] & m;
                    }
                    out.push(obs_digest(g, &t));
                    if x % 8 == 0 {
                        out.push(dbg_digest(g, &t));
                    }
                }
                t.set(l, s, old);
                *cache = Some((key, t));
                out
            }),
            label: Box::new(move |i, _| {
                let (l, s) = words[(i / per % nw) as usize];
                format!("{} with extreme contents of leaf {l:#x}.{s}", GROUPS[gi].name)
            }),
            describe: Box::new(move |i| format!("extreme contents case {i}")),
        });
        // Every value of every byte (thorough: half word) of every register.
        let w: u64 = if thorough { 16 } else { 8 };
        let windows = words.len() as u64 * 4 * (32 / w);
        let per = (1u64 << w).div_ceil(BATCH);
        v.push(Case {
            name: format!("{}: every value of each aligned {w}-bit window of {} registers over 2 contents x 4 vendors (in batches of {BATCH})", g.name, words.len() * 4),
            n: windows * per * 8,
            run: Box::new(move |i, cache| {
                let g = &GROUPS[gi];
                let (b, win, ck) = (i % per, i / per % windows, i / per / windows);
                let key = (gi as u64 + 1) << 32 | 1 << 30 | ck;
                let mut t = match cache.take() {
                    Some((k, t)) if k == key => t,
                    _ => env(ck),
                };
                let (l, s) = words[(win / (32 / w) / 4) as usize];
                let (reg, sh) = ((win / (32 / w) % 4) as usize, win % (32 / w) * w);
                let old = t.at(l, s).reg(reg);
                let m = (((1u64 << w) - 1) << sh) as u32 & mask(l, s, reg);
                let mut out = vec![];
                for x in b * BATCH..(b + 1) * BATCH {
                    *t.at(l, s).reg_mut(reg) = old & !m | ((x << sh) as u32 & m);
                    out.push(obs_digest(g, &t));
                    if x % 8 == 0 {
                        out.push(dbg_digest(g, &t));
                    }
                }
                *t.at(l, s).reg_mut(reg) = old;
                *cache = Some((key, t));
                out
            }),
            label: Box::new(move |i, _| {
                let win = i / per % windows;
                let (l, s) = words[(win / (32 / w) / 4) as usize];
                format!("{} with bits from {} of leaf {l:#x}.{s} {} changed", GROUPS[gi].name, win % (32 / w) * w, ["EAX", "EBX", "ECX", "EDX"][(win / (32 / w) % 4) as usize])
            }),
            describe: Box::new(move |i| format!("window case {i}")),
        });
    }
    v
}

pub fn c26(thorough: bool) -> Vec<Space> {
    compare(&VARIANTS, thorough)
}

/// Runs in the 32-bit build: the answers of the 64-bit build, and the other checks.
pub fn c33(thorough: bool) -> Vec<Space> {
    NARROW.store(true, Relaxed);
    let mut v = compare(&WIDE, thorough);
    let more: &[&str] = if thorough { &NARROW_MORE } else { &[] };
    for p in NARROW_TOO.iter().chain(more).chain(&["C27"]) {
        for mut s in super::spaces(p, false) {
            s.name = format!("{p} on 32-bit x86: {}", s.name);
            v.push(s);
        }
    }
    v
}
/// The other checks that run in the 32-bit build, too. (C27 is the last: it pins its
/// threads to processors.)
const NARROW_TOO: [&str; 24] = ["C12", "C23", "C24", "C25", "C09", "C21", "C20", "C17", "C16", "C14", "C15", "C13", "C18", "C10", "C11", "C19", "C03", "C02", "C04", "C05", "C22", "C30", "C31", "C32"];
const NARROW_MORE: [&str; 5] = ["C28", "C01", "C06", "C07", "C08"];

fn compare(variants: &'static [&'static str], thorough: bool) -> Vec<Space> {
    cases(thorough)
        .into_iter()
        .enumerate()
        .map(|(sn, c)| {
            let Case { name, n, run, label, describe } = c;
            idx(name, n, move |i, ctx| {
                ctx.describe(|| describe(i));
                let mut cache = ctx.table.take();
                let own = run(i, &mut cache);
                ctx.table = cache;
                for (name, d) in ask(variants, thorough, sn, i) {
                    if d.len() != own.len() {
                        return Err(format!("the {name} build answers {} digests, the default build {}", d.len(), own.len()));
                    }
                    // Without the checks nothing panics on an overflow; that is C03's business.
                    let excused = |k: usize| name == "plain" && own[k] == PANICKED;
                    if let Some(k) = (0..own.len()).find(|&k| own[k] != d[k] && !excused(k)) {
                        let how = if own[k] == PANICKED { " (the latter panics)" } else if d[k] == PANICKED { " (it panics)" } else { "" };
                        let with = if variants == WIDE { "for 64-bit x86".to_string() } else if name == "plain" { "without debug assertions".to_string() } else { format!("with feature {name}") };
                        let this = if variants == WIDE { "32-bit" } else { "default" };
                        return Err(format!("the build {with} differs from the {this} build in {}{how}", label(i, k)));
                    }
                    ctx.transitions += own.len() as u64;
                    ctx.traces += own.len() as u64;
                }
                if ctx.count_outcome {
                    let h = own.iter().fold(0, |h, &x| mix(h, x));
                    ctx.outcome(h);
                }
                Ok(())
            })
        })
        .collect()
}
