//! The closed environment: what the (virtual) CPU answers to CPUID.
//!
//! The library's only source of nondeterminism is the reader it is given, so a
//! function (leaf, sub-leaf) -> registers *is* the state of the system. All
//! checks own that function: either a fixed table (`Table`) or a lazily chosen
//! one (`Lazy`, every answer a choice point of the explorer).
use raw_cpuid::{CpuIdReader, CpuIdResult};
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq, Eq, Default, Hash)]
pub struct R4 {
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
}

impl std::fmt::Debug for R4 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:#010x} {:#010x} {:#010x} {:#010x}", self.a, self.b, self.c, self.d)
    }
}

pub const fn r4(a: u32, b: u32, c: u32, d: u32) -> R4 {
    R4 { a, b, c, d }
}

impl R4 {
    pub fn reg(&self, i: usize) -> u32 {
        [self.a, self.b, self.c, self.d][i]
    }
    pub fn reg_mut(&mut self, i: usize) -> &mut u32 {
        match i {
            0 => &mut self.a,
            1 => &mut self.b,
            2 => &mut self.c,
            _ => &mut self.d,
        }
    }
    pub fn bytes(&self) -> [u8; 16] {
        let mut o = [0; 16];
        for i in 0..4 {
            o[i * 4..i * 4 + 4].copy_from_slice(&self.reg(i).to_le_bytes());
        }
        o
    }
    pub fn from_bytes(b: &[u8]) -> R4 {
        let w = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
        r4(w(0), w(4), w(8), w(12))
    }
}

/// Panic payload: the library made more CPUID queries in one case than any
/// terminating behaviour could need.
pub struct Budget;

pub trait Src {
    fn get(&self, leaf: u32, sub: u32) -> R4;
    /// Called once per query by the library (not by the model).
    fn tick(&self);
    /// Called with every leaf the library asks for.
    fn note(&self, _leaf: u32) {}
    /// The set of leaves noted since `forget` (bits of `leaf_bit`).
    fn asked(&self) -> u128 {
        0
    }
    fn forget(&self) {}
}

pub fn leaf_bit(leaf: u32) -> u128 {
    let (base, at) = match leaf >> 28 {
        0 => (0, 0),
        4 => (0x4000_0000, 48),
        8 => (0x8000_0000, 72),
        _ => return 1 << 127,
    };
    let n = leaf - base;
    let room = if at == 48 { 24 } else { 48 };
    if n < room {
        1 << (at + n)
    } else {
        1 << 127
    }
}

/// The reader handed to the library.
#[derive(Clone, Copy)]
pub struct Rd(*const dyn Src);

impl Rd {
    pub fn new<'a>(s: &'a (dyn Src + 'a)) -> Rd {
        // Cases never let a handle escape the lifetime of its environment.
        Rd(unsafe { std::mem::transmute::<*const (dyn Src + 'a), *const (dyn Src + 'static)>(s) })
    }
}

/// Readers compare equal so that results holding one can be compared.
impl PartialEq for Rd {
    fn eq(&self, _: &Rd) -> bool {
        true
    }
}
impl Eq for Rd {}

impl CpuIdReader for Rd {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        let s = unsafe { &*self.0 };
        s.tick();
        s.note(eax);
        let r = s.get(eax, ecx);
        CpuIdResult { eax: r.a, ebx: r.b, ecx: r.c, edx: r.d }
    }
}

pub type Cpu = raw_cpuid::CpuId<Rd>;
pub fn cpu(s: &dyn Src) -> Cpu {
    Cpu::with_cpuid_reader(Rd::new(s))
}

pub const SUBS: usize = 40;
const NB: usize = 0x28;
const NE: usize = 0x28;

/// A fixed answer for every (leaf, sub-leaf).
#[derive(Clone)]
pub struct Table {
    basic: Vec<R4>,
    ext: Vec<R4>,
    hyp: [R4; 0x12],
    extra: Vec<(u32, u32, R4)>,
    /// Answer of every (leaf, sub-leaf) outside the table.
    pub default: R4,
    /// If not 0, those answers differ from each other (mixed from this key).
    pub scramble: u64,
    pub budget: Cell<u64>,
    /// Leaves the library has asked for.
    pub asked: Cell<u128>,
}

/// Far more than the code under test or any reasonable rewriting of it needs.
pub const DEFAULT_BUDGET: u64 = 4_000_000;

impl Table {
    pub fn new(fill: R4) -> Table {
        Table {
            basic: vec![fill; NB * SUBS],
            ext: vec![fill; NE * SUBS],
            hyp: [fill; 0x12],
            extra: vec![],
            default: fill,
            scramble: 0,
            budget: Cell::new(DEFAULT_BUDGET),
            asked: Cell::new(0),
        }
    }
    fn slot(leaf: u32, sub: u32) -> Option<(u8, usize)> {
        if leaf < NB as u32 && sub < SUBS as u32 {
            Some((0, leaf as usize * SUBS + sub as usize))
        } else if leaf >= 0x8000_0000 && leaf < 0x8000_0000 + NE as u32 && sub < SUBS as u32 {
            Some((1, (leaf - 0x8000_0000) as usize * SUBS + sub as usize))
        } else if leaf >= 0x4000_0000 && leaf < 0x4000_0012 && sub == 0 {
            Some((2, (leaf - 0x4000_0000) as usize))
        } else {
            None
        }
    }
    pub fn at(&mut self, leaf: u32, sub: u32) -> &mut R4 {
        match Self::slot(leaf, sub) {
            Some((0, i)) => &mut self.basic[i],
            Some((1, i)) => &mut self.ext[i],
            Some((_, i)) => &mut self.hyp[i],
            None => {
                if let Some(p) = self.extra.iter().position(|e| e.0 == leaf && e.1 == sub) {
                    return &mut self.extra[p].2;
                }
                self.extra.push((leaf, sub, self.default));
                &mut self.extra.last_mut().unwrap().2
            }
        }
    }
    pub fn set(&mut self, leaf: u32, sub: u32, r: R4) {
        *self.at(leaf, sub) = r;
    }
    pub fn with(mut self, leaf: u32, sub: u32, r: R4) -> Table {
        self.set(leaf, sub, r);
        self
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        let mut put = |r: &R4| o.extend(r.bytes());
        self.basic.iter().for_each(&mut put);
        self.ext.iter().for_each(&mut put);
        self.hyp.iter().for_each(&mut put);
        put(&self.default);
        o.extend(self.scramble.to_le_bytes());
        for (l, s, r) in &self.extra {
            o.extend(l.to_le_bytes());
            o.extend(s.to_le_bytes());
            o.extend(r.bytes());
        }
        o
    }
    pub fn from_bytes(b: &[u8]) -> Table {
        let mut t = Table::new(R4::default());
        let mut at = 0;
        let mut take = || {
            at += 16;
            R4::from_bytes(&b[at - 16..at])
        };
        t.basic.iter_mut().for_each(|r| *r = take());
        t.ext.iter_mut().for_each(|r| *r = take());
        t.hyp.iter_mut().for_each(|r| *r = take());
        t.default = take();
        t.scramble = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
        for e in b[at + 8..].chunks(24) {
            let w = |i: usize| u32::from_le_bytes([e[i], e[i + 1], e[i + 2], e[i + 3]]);
            t.extra.push((w(0), w(4), R4::from_bytes(&e[8..])));
        }
        t
    }
    pub fn reset_budget(&self) {
        self.budget.set(DEFAULT_BUDGET)
    }
}

impl Src for Table {
    fn get(&self, leaf: u32, sub: u32) -> R4 {
        match Self::slot(leaf, sub) {
            Some((0, i)) => self.basic[i],
            Some((1, i)) => self.ext[i],
            Some((_, i)) => self.hyp[i],
            None => {
                for e in &self.extra {
                    if e.0 == leaf && e.1 == sub {
                        return e.2;
                    }
                }
                if self.scramble != 0 {
                    return scrambled(self.scramble, leaf, sub);
                }
                self.default
            }
        }
    }
    fn tick(&self) {
        let b = self.budget.get();
        if b == 0 {
            std::panic::panic_any(Budget)
        }
        self.budget.set(b - 1)
    }
    fn note(&self, leaf: u32) {
        self.asked.set(self.asked.get() | leaf_bit(leaf));
    }
    fn asked(&self) -> u128 {
        self.asked.get()
    }
    fn forget(&self) {
        self.asked.set(0)
    }
}

/// Agrees with `inner` but for one answer.
pub struct Over<'a> {
    pub inner: &'a dyn Src,
    pub leaf: u32,
    pub sub: u32,
    pub r: R4,
    pub budget: Cell<u64>,
}

impl<'a> Src for Over<'a> {
    fn get(&self, leaf: u32, sub: u32) -> R4 {
        if (leaf, sub) == (self.leaf, self.sub) {
            self.r
        } else {
            self.inner.get(leaf, sub)
        }
    }
    fn tick(&self) {
        let b = self.budget.get();
        if b == 0 {
            std::panic::panic_any(Budget)
        }
        self.budget.set(b - 1)
    }
}

pub fn scrambled(key: u64, leaf: u32, sub: u32) -> R4 {
    let h = |r: u64| {
        let x = crate::out::mix(crate::out::mix(crate::out::mix(key, leaf as u64), sub as u64), r);
        (crate::out::mix(x, 0x9e37) >> 16) as u32
    };
    r4(h(0), h(1), h(2), h(3))
}

/// Choice sequence of one stateless-exploration execution: replays `prefix`,
/// then takes alternative 0 at every later choice point.
pub struct Chooser {
    pub prefix: Vec<u32>,
    pub taken: RefCell<Vec<(u32, u32)>>, // (choice, number of alternatives)
    pub budget: Cell<u64>,
    /// Where the running case is published for the crash/hang supervisor.
    pub slot: Cell<*mut u8>,
}

pub struct Diverged;

impl Chooser {
    pub fn new(prefix: Vec<u32>) -> Chooser {
        Chooser {
            prefix,
            taken: RefCell::new(vec![]),
            budget: Cell::new(DEFAULT_BUDGET),
            slot: Cell::new(std::ptr::null_mut()),
        }
    }
    pub fn choose(&self, n: usize) -> usize {
        assert!(n > 0);
        let mut t = self.taken.borrow_mut();
        let i = t.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            drop(t);
            std::panic::panic_any(Diverged)
        }
        t.push((c, n as u32));
        crate::engine::publish_choice(self.slot.get(), i, c);
        c as usize
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    pub fn flag(&self) -> bool {
        self.choose(2) == 1
    }
}

/// Environment whose answers are chosen the first time they are asked for and
/// remembered, so the CPU is arbitrary but consistent.
pub struct Lazy<'a> {
    pub ch: &'a Chooser,
    pub memo: RefCell<Vec<(u32, u32, R4)>>,
    pub alphabet: &'a dyn Fn(u32, u32, &Chooser) -> R4,
}

impl<'a> Lazy<'a> {
    pub fn new(ch: &'a Chooser, alphabet: &'a dyn Fn(u32, u32, &Chooser) -> R4) -> Lazy<'a> {
        Lazy { ch, memo: RefCell::new(vec![]), alphabet }
    }
}

impl<'a> Src for Lazy<'a> {
    fn get(&self, leaf: u32, sub: u32) -> R4 {
        for e in self.memo.borrow().iter() {
            if e.0 == leaf && e.1 == sub {
                return e.2;
            }
        }
        let r = (self.alphabet)(leaf, sub, self.ch);
        self.memo.borrow_mut().push((leaf, sub, r));
        r
    }
    fn tick(&self) {
        let b = self.ch.budget.get();
        if b == 0 {
            std::panic::panic_any(Budget)
        }
        self.ch.budget.set(b - 1)
    }
}

/// Records which answers a computation depended on.
pub struct Logged<'a> {
    pub inner: &'a dyn Src,
    pub log: RefCell<Vec<(u32, u32)>>,
}

impl<'a> Src for Logged<'a> {
    fn get(&self, leaf: u32, sub: u32) -> R4 {
        let mut l = self.log.borrow_mut();
        if !l.contains(&(leaf, sub)) {
            l.push((leaf, sub))
        }
        self.inner.get(leaf, sub)
    }
    fn tick(&self) {
        self.inner.tick()
    }
}

/// Agrees with `inner` on the listed answers and replaces everything else.
pub struct Masked<'a> {
    pub inner: &'a dyn Src,
    pub keep: &'a [(u32, u32)],
    pub garbage: &'a dyn Fn(u32, u32, R4) -> R4,
}

impl<'a> Src for Masked<'a> {
    fn get(&self, leaf: u32, sub: u32) -> R4 {
        let r = self.inner.get(leaf, sub);
        if self.keep.contains(&(leaf, sub)) {
            r
        } else {
            (self.garbage)(leaf, sub, r)
        }
    }
    fn tick(&self) {
        self.inner.tick()
    }
}

pub const INTEL: [u32; 3] = [0x756e_6547, 0x4965_6e69, 0x6c65_746e]; // EBX, EDX, ECX
pub const AMD: [u32; 3] = [0x6874_7541, 0x6974_6e65, 0x444d_4163];
pub const HYGON: [u32; 3] = [0x6f67_7948, 0x6e65_476e, 0x656e_6975];
pub const CENTAUR: [u32; 3] = [0x746e_6543, 0x4872_7561, 0x736c_7561];

pub fn vendor_words(s: &[u8; 12]) -> [u32; 3] {
    let w = |i: usize| u32::from_le_bytes([s[i], s[i + 1], s[i + 2], s[i + 3]]);
    [w(0), w(4), w(8)]
}
pub fn leaf0(max: u32, v: [u32; 3]) -> R4 {
    r4(max, v[0], v[2], v[1])
}
