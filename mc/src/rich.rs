//! Whole-CPU environments: every leaf filled, every enumeration given a shape.
use crate::env::*;
use crate::groups::*;
use crate::out::*;
use crate::spaces::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rich {
    pub vendor: [u32; 3],
    pub maxb: u32,
    pub maxe: u32,
    /// 0..5 a uniform background, 5.. pseudo-random but fixed contents.
    pub fill: usize,
    /// Valid sub-leaves of every enumerated leaf.
    pub depth: u32,
    pub sgx: bool,
    pub hyp: bool,
    pub svm: bool,
    /// Shape of counts and sub-leaf flags, 0..4.
    pub subs: usize,
}

pub const FILLS: usize = 7;

impl Rich {
    pub fn open(vendor: [u32; 3]) -> Rich {
        Rich { vendor, maxb: 0x20, maxe: 0x8000_0026, fill: 5, depth: 2, sgx: true, hyp: true, svm: true, subs: 3 }
    }
    pub fn word(&self, leaf: u32, sub: u32) -> R4 {
        if self.fill < 5 {
            return BACKGROUNDS[self.fill];
        }
        let h = |r: u64| {
            let x = mix(mix(mix(0x51ed_270b ^ self.fill as u64, leaf as u64), sub as u64), r);
            (mix(x, 0x9e37) >> 16) as u32
        };
        r4(h(0), h(1), h(2), h(3))
    }
    pub fn build(&self) -> Table {
        let mut t = Table::new(R4::default());
        self.build_into(&mut t);
        t
    }
    pub fn build_into(&self, t: &mut Table) {
        let put = |t: &mut Table, leaf: u32, sub: u32| {
            let mut r = self.word(leaf, sub);
            let valid = sub < self.depth;
            match leaf {
                0 => r = leaf0(self.maxb, self.vendor),
                1 => r.c = r.c & !(1 << 31) | (self.hyp as u32) << 31,
                4 | 0x8000_001D => r.a = r.a & !0x1f | if valid { 1 + sub % 3 } else { 0 },
                7 if sub == 0 => {
                    r.a = [0, 1, 0, 2][self.subs];
                    r.b = r.b & !4 | (self.sgx as u32) << 2;
                }
                0xB | 0x1F => r.c = r.c & !0xff00 | if valid { 1 + sub % 5 } else { 0 } << 8,
                0x8000_0026 => r.c = r.c & !0xff00 | if valid { 1 + sub % 4 } else { 0 } << 8,
                0x12 if sub >= 2 => r.a = r.a & !0xf | (sub - 2 < self.depth) as u32,
                0x14 if sub == 0 => r.a = [0, 1, 0, 2][self.subs],
                0x17 if sub == 0 => r.a = [0, 3, 4, 6][self.subs],
                0x18 => {
                    if sub == 0 {
                        r.a = [0, 1, 3, 5][self.subs];
                    }
                    // Invalid ones lie in between the valid ones.
                    r.d = r.d & !0x1f | if (sub + self.depth) % 3 == 0 { 0 } else { 1 + sub % 5 };
                }
                0xF if sub == 0 => r.d = r.d & !2 | [0, 2, 2, 0][self.subs],
                0x10 if sub == 0 => r.b = r.b & !0xe | [0, 0xe, 4, 0xa][self.subs],
                0x8000_0020 if sub == 0 => r.b = r.b & !0x7e | [0, 0x7e, 0x14, 0x2a][self.subs],
                0x4000_0000 => r.a = if self.hyp { [0x4000_0000, 0x4000_0010, 0x4000_000f, 0x4000_0011][self.subs] } else { 0x4000_0010 },
                0x8000_0000 => r.a = self.maxe,
                0x8000_0001 => r.c = r.c & !4 | (self.svm as u32) << 2,
                _ => {}
            }
            for i in 0..4 {
                *r.reg_mut(i) &= mask(leaf, sub, i);
            }
            t.set(leaf, sub, r);
        };
        for leaf in 0..0x22 {
            for sub in 0..NSUB {
                put(t, leaf, sub);
            }
        }
        for leaf in 0x8000_0000..0x8000_0028 {
            for sub in 0..NSUB {
                put(t, leaf, sub);
            }
        }
        for leaf in 0x4000_0000..0x4000_0012 {
            put(t, leaf, 0);
        }
        t.default = self.word(0xdead, 0xbeef);
    }
}
const NSUB: u32 = 36;

/// Observes every available query (accessors only), one marker per query.
pub fn observe_all(s: &dyn Src, o: &mut Out) {
    let c = cpu(s);
    for g in GROUPS {
        o.idx = 0;
        let at = o.e.len();
        o.val(g.name, ALL, false);
        let a = (g.obs)(&c, o);
        o.e[at].v = a as u128;
        o.idx = 0;
    }
}

/// The model's answers in the same form.
pub fn model_all(s: &dyn Src, o: &mut Out) {
    let m = M::new(s);
    for g in GROUPS {
        o.idx = 0;
        let a = (g.gate)(&m);
        o.val(g.name, ALL, a);
        if a {
            (g.spec)(&m, o);
        }
        o.idx = 0;
    }
}

pub fn render_all(s: &dyn Src) -> String {
    let c = cpu(s);
    let mut t = format!("{:?}", c);
    for g in GROUPS {
        t.push_str(g.name);
        t.push_str(&(g.dbg)(&c));
    }
    t
}

/// First difference of two observations.
pub fn differ(a: &Out, b: &Out, what: &str) -> Result<u64, String> {
    for (i, (x, y)) in a.e.iter().zip(&b.e).enumerate() {
        if x.label != y.label || x.idx != y.idx || x.v != y.v {
            return Err(format!("{what}: {}[{}]={:#x} became {}[{}]={:#x} (value {i})", x.label, x.idx, x.v, y.label, y.idx, y.v));
        }
    }
    if a.e.len() != b.e.len() {
        return Err(format!("{what}: {} values became {}", a.e.len(), b.e.len()));
    }
    Ok(a.e.len() as u64)
}

pub fn differ_text(a: &str, b: &str, what: &str) -> Result<u64, String> {
    if a == b {
        return Ok(1);
    }
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| {
        let v = s.as_bytes();
        String::from_utf8_lossy(&v[i.saturating_sub(40)..(i + 40).min(v.len())]).into_owned()
    };
    Err(format!("{what}: the rendering {:?} became {:?}", cut(a), cut(b)))
}
