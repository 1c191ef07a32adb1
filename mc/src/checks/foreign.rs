//! C34: what the library answers on a machine that is not an x86.
//!
//! The same bounded set of CPUs is explored by this program and by this program as
//! interpreted by Miri for other targets, and what both saw is compared.
use super::features::*;
use crate::env::*;
use crate::groups::*;
use crate::rich::*;
use crate::spaces::*;
use std::fmt::Write;

const VALUES: usize = 4;
const WHOLE: [usize; 2] = [12, 48];
/// Vendors and contents of the groups' CPUs.
const OVER: [(usize, usize); 4] = [(0, 4), (1, 4), (0, 1), (1, 0)];

pub enum Job {
    Values(usize),
    Whole(usize),
    /// Group, and number in OVER.
    Group(usize, usize),
    Texts(usize),
}

pub fn jobs(thorough: bool) -> Vec<Job> {
    let mut v: Vec<Job> = (0..WHOLE[thorough as usize]).map(Job::Whole).collect();
    let at = v.len();
    for g in 0..GROUPS.len() {
        // Without thoroughness, only the vendor that defined the leaves.
        let own = (GROUPS[g].words[0].0 >= 0x8000_0000) as usize;
        v.extend((0..OVER.len()).filter(|o| thorough || *o == own).map(|o| Job::Group(g, o)));
    }
    v[at..].sort_by_key(|j| if let Job::Group(g, _) = j { usize::MAX - GROUPS[*g].words.len() } else { 0 });
    v.extend((0..VALUES).map(Job::Values));
    v.extend((0..TEXTS.len()).map(Job::Texts));
    v
}

/// Leaves whose registers are bytes of a text.
const TEXTS: [&[(u32, u32)]; 4] = [&[(0, 0)], &[(0x8000_0002, 0), (0x8000_0003, 0), (0x8000_0004, 0)], &[(0x17, 1), (0x17, 2), (0x17, 3)], &[(0x4000_0000, 0)]];

fn env(group: usize, over: usize) -> Table {
    let (v, b) = OVER[over];
    let mut t = open_base(VENDORS[v]);
    fill(&mut t, &GROUPS[group], BACKGROUNDS[b]);
    t
}

fn rich(i: usize) -> Rich {
    let mut r = Rich::open(VENDORS[i % 4]);
    r.subs = i / 4 % 4;
    (r.sgx, r.hyp, r.svm) = (i % 3 != 0, i % 5 != 1, i % 2 == 0);
    r.fill = [5, 1, 2, 0, 6, 3, 4][(i / 4 + i / 16) % 7];
    r.depth = 1;
    r
}

/// What a job sees, piece by piece: a description of the piece, and a digest.
pub fn run(j: &Job, see: &mut dyn FnMut(&dyn Fn() -> String, u64)) {
    match *j {
        Job::Values(k) => {
            let t = Table::new(r4(0, 0, 0, 0));
            for i in (0..=20).chain([0x20, 0x41, 0x7f, 0x80, 0xc3, 0xe2, 0xff, 0x100]).filter(|i| *i as usize % VALUES == k) {
                see(&|| format!("Display or Debug of the public values numbered {i}"), guarded(&t, || text_digest(&super::values::value_text(i))));
            }
        }
        Job::Whole(i) => {
            let r = rich(i);
            let t = r.build();
            for (k, d) in whole(&t).into_iter().enumerate() {
                see(&|| format!("{} on {r:x?}", whole_label(0, k)), d);
            }
        }
        Job::Group(g, o) => {
            let mut t = env(g, o);
            let gr = &GROUPS[g];
            let what = |s: &str| format!("{} of {} on {} with contents {:?}{s}", "values or Debug text", gr.name, VENDOR_NAMES[OVER[o].0], BACKGROUNDS[OVER[o].1]);
            see(&|| what(""), obs_digest(gr, &t));
            see(&|| what(""), dbg_digest(gr, &t));
            for (w, &(l, s)) in gr.words.iter().enumerate() {
                for p in 0..128u32 {
                    let m = (1 << (p % 32)) & mask(l, s, p as usize / 32);
                    if m == 0 {
                        continue;
                    }
                    let flip = |t: &mut Table| *t.at(l, s).reg_mut(p as usize / 32) ^= m;
                    flip(&mut t);
                    let said = || what(&format!(", bit {} of leaf {l:#x}.{s} {} flipped", p % 32, ["EAX", "EBX", "ECX", "EDX"][p as usize / 32]));
                    see(&said, obs_digest(gr, &t));
                    if (p as usize + w) % 16 == 0 {
                        see(&said, dbg_digest(gr, &t));
                    }
                    flip(&mut t);
                }
            }
        }
        Job::Texts(k) => {
            // A byte that differs from all others at every position, and texts of several bytes per letter.
            let n = TEXTS[k].len() * 16;
            let letters: Vec<u8> = (0..n).map(|i| b'0' + (i % 64) as u8).collect();
            let mut texts: Vec<Vec<u8>> = vec![letters.clone()];
            for i in 0..n {
                for b in [0u8, b' ', 0x80, 0xff] {
                    let mut t = letters.clone();
                    t[i] = b;
                    texts.push(t);
                }
            }
            for s in ["é", "€", "𝄞"] {
                for at in 0..6 {
                    let mut t = letters.clone();
                    t[at..at + s.len()].copy_from_slice(s.as_bytes());
                    texts.push(t);
                }
            }
            // Texts that mean something to the library.
            if n == 16 {
                for t in super::enumer::SIGS.iter().chain(&super::avail::OTHERS) {
                    let (b, m, e) = (&t[..4], &t[4..8], &t[8..]);
                    texts.push([b"....", b, m, e].concat());
                    texts.push([b"....", b, e, m].concat());
                }
            }
            let names = ["get_vendor_info", "get_processor_brand_string", "get_soc_vendor_info", "get_hypervisor_info"];
            let g = GROUPS.iter().find(|g| g.name == names[k]).expect("group");
            for x in texts {
                let mut t = open_base(INTEL);
                if k == 3 {
                    t.at(1, 0).c |= 1 << 31;
                }
                t.at(0x17, 0).a = 3;
                for (w, &(l, s)) in TEXTS[k].iter().enumerate() {
                    let f = |i: usize| u32::from_le_bytes(x[w * 16 + i * 4..w * 16 + i * 4 + 4].try_into().unwrap());
                    let (a, m) = (t.get(l, s).a, k == 0 || k == 3);
                    t.set(l, s, r4(if m { a } else { f(0) }, f(1), f(2), f(3)));
                }
                let said = || format!("values or texts of {} with the text {:?}", g.name, String::from_utf8_lossy(&x));
                see(&said, obs_digest(g, &t));
                see(&said, dbg_digest(g, &t));
            }
        }
    }
}

/// The digests of a job as one line, in the order of its pieces.
pub fn line(thorough: bool, k: usize) -> String {
    let mut s = String::from("saw");
    if let Some(j) = jobs(thorough).get(k) {
        run(j, &mut |_, d| write!(s, " {d:x}").unwrap());
    }
    s
}

/// What the piece with this number is.
pub fn piece(thorough: bool, k: usize, n: usize) -> String {
    let (mut i, mut s) = (0, String::new());
    run(&jobs(thorough)[k], &mut |f, _| {
        if i == n {
            s = f();
        }
        i += 1;
    });
    s
}
