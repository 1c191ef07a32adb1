//! Observation sequences: what the library answered, or what the model says it
//! must answer, as a flat list of tagged values.
use raw_cpuid::*;

pub type Tags = u32;
macro_rules! tags { ($($n:ident = $i:expr),*) => { $(pub const $n: Tags = 1 << $i;)* } }
tags!(C01 = 1, C05 = 5, C06 = 6, C07 = 7, C08 = 8, C09 = 9, C10 = 10, C11 = 11, C12 = 12, C13 = 13,
      C14 = 14, C15 = 15, C16 = 16, C17 = 17, C18 = 18, C19 = 19, C20 = 20, C21 = 21);
pub const ALL: Tags = u32::MAX;

#[derive(Clone, Copy, Debug)]
pub struct Ent {
    pub label: &'static str,
    pub idx: u32,
    pub tags: Tags,
    pub v: u128,
    /// Known finding: id and the value the library is known to give instead.
    pub alt: Option<(&'static str, u128)>,
}

#[derive(Default)]
pub struct Out {
    pub e: Vec<Ent>,
    pub idx: u32,
}

/// What a value looks like after conversion.
pub struct Zv {
    v: u128,
    alt: Option<(&'static str, u128)>,
}

pub trait Z {
    fn z(self) -> Zv;
}
macro_rules! zint { ($($t:ty),*) => { $(impl Z for $t { #[inline] fn z(self) -> Zv { Zv { v: self as u128, alt: None } } })* } }
zint!(bool, u8, u16, u32, u64, u128, usize);
macro_rules! zenum { ($($t:ty => |$x:ident| $e:expr),* $(,)?) => { $(impl Z for $t { #[inline] fn z(self) -> Zv { let $x = self; Zv { v: ($e) as u128, alt: None } } })* } }
pub const NWAY: u128 = 0x10000;
zenum! {
    Associativity => |x| match x {
        Associativity::Disabled => 1u128, Associativity::DirectMapped => 2, Associativity::FullyAssociative => 3,
        Associativity::Unknown => 4, Associativity::NWay(n) => NWAY + n as u128 },
    CacheType => |x| match x { CacheType::Null => 0u32, CacheType::Data => 1, CacheType::Instruction => 2, CacheType::Unified => 3, CacheType::Reserved => 4 },
    TopologyType => |x| match x { TopologyType::Invalid => 0u32, TopologyType::SMT => 1, TopologyType::Core => 2, TopologyType::Module => 3, TopologyType::Tile => 4, TopologyType::Die => 5 },
    DatType => |x| match x { DatType::Null => 0u32, DatType::DataTLB => 1, DatType::InstructionTLB => 2, DatType::UnifiedTLB => 3, DatType::LoadOnly => 4, DatType::StoreOnly => 5, DatType::Unknown => 6 },
    HierarchyLevelType => |x| match x { HierarchyLevelType::Reserved => 0u32, HierarchyLevelType::Core => 1, HierarchyLevelType::Complex => 2, HierarchyLevelType::Die => 3, HierarchyLevelType::Socket => 4, HierarchyLevelType::Unknown(n) => n as u32 + if n <= 4 { 0x1000 } else { 0 } },
    ExtendedRegisterStateLocation => |x| match x { ExtendedRegisterStateLocation::Xcr0 => 0u32, ExtendedRegisterStateLocation::Ia32Xss => 1 },
    ExtendedRegisterType => |x| match x {
        ExtendedRegisterType::Avx => 2u64, ExtendedRegisterType::MpxBndregs => 3, ExtendedRegisterType::MpxBndcsr => 4,
        ExtendedRegisterType::Avx512Opmask => 5, ExtendedRegisterType::Avx512ZmmHi256 => 6, ExtendedRegisterType::Avx512ZmmHi16 => 7,
        ExtendedRegisterType::Pt => 8, ExtendedRegisterType::Pkru => 9, ExtendedRegisterType::Hdc => 13,
        ExtendedRegisterType::Unknown(n) => (1u64 << 40) + n as u64 },
    Hypervisor => |x| match x {
        Hypervisor::Xen => 1u128, Hypervisor::VMware => 2, Hypervisor::HyperV => 3, Hypervisor::KVM => 4, Hypervisor::QEMU => 5,
        Hypervisor::Bhyve => 6, Hypervisor::QNX => 7, Hypervisor::ACRN => 8,
        Hypervisor::Unknown(b, c, d) => (1u128 << 100) + ((d as u128) << 64) + ((c as u128) << 32) + b as u128 },
    CacheInfoType => |x| match x { CacheInfoType::General => 1u32, CacheInfoType::Cache => 2, CacheInfoType::TLB => 3, CacheInfoType::STLB => 4, CacheInfoType::DTLB => 5, CacheInfoType::Prefetch => 6 },
}
impl Z for (u64, u64) {
    fn z(self) -> Zv {
        Zv { v: ((self.1 as u128) << 64) + self.0 as u128, alt: None }
    }
}
impl<T: Z> Z for Option<T> {
    fn z(self) -> Zv {
        match self {
            None => Zv { v: u128::MAX, alt: None },
            Some(x) => x.z(),
        }
    }
}
/// A value the API's return type is known not to hold (known finding).
pub struct Narrow(pub &'static str, pub u64, pub u64);
impl Z for Narrow {
    fn z(self) -> Zv {
        Zv { v: self.1 as u128, alt: if self.1 == self.2 { None } else { Some((self.0, self.2 as u128)) } }
    }
}

/// The property says nothing about this value here.
pub struct DontCare;
const ANY: &str = "*";
impl Z for DontCare {
    fn z(self) -> Zv {
        Zv { v: 0, alt: Some((ANY, 0)) }
    }
}

impl Out {
    #[inline]
    pub fn put(&mut self, label: &'static str, tags: Tags, z: Zv) {
        self.e.push(Ent { label, idx: self.idx, tags, v: z.v, alt: z.alt })
    }
    pub fn val(&mut self, label: &'static str, tags: Tags, v: impl Z) {
        self.put(label, tags, v.z())
    }
    pub fn bytes(&mut self, label: &'static str, tags: Tags, b: &[u8]) {
        self.val(label, tags, b.len());
        for c in b.chunks(16) {
            let mut w = [0u8; 16];
            w[..c.len()].copy_from_slice(c);
            self.val(label, tags, u128::from_le_bytes(w));
        }
    }
    pub fn clear(&mut self) {
        self.e.clear();
        self.idx = 0;
    }
    pub fn digest(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for e in &self.e {
            h = mix(h, e.v as u64);
            h = mix(h, (e.v >> 64) as u64 ^ ((e.idx as u64) << 32));
        }
        h
    }
}

#[inline]
pub fn mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^ (x >> 29)
}

pub struct Diff {
    pub compared: u64,
    pub known: Vec<(&'static str, String)>,
}

fn same_label(a: &Ent, b: &Ent) -> bool {
    a.idx == b.idx && (std::ptr::eq(a.label.as_ptr(), b.label.as_ptr()) || a.label == b.label)
}

/// Compares the entries carrying one of `tags`; Err describes the first difference.
pub fn compare(obs: &Out, spec: &Out, tags: Tags) -> Result<Diff, String> {
    let mut d = Diff { compared: 0, known: vec![] };
    let mut a = obs.e.iter().filter(|e| e.tags & tags != 0);
    let mut b = spec.e.iter().filter(|e| e.tags & tags != 0);
    loop {
        match (a.next(), b.next()) {
            (None, None) => return Ok(d),
            (Some(x), Some(y)) => {
                if !same_label(x, y) {
                    return Err(format!("library reported {}[{}]={:#x} where the model has {}[{}]={:#x}", x.label, x.idx, x.v, y.label, y.idx, y.v));
                }
                if x.v != y.v {
                    if let Some((id, v)) = y.alt {
                        if id == ANY {
                            continue;
                        }
                        if v == x.v {
                            if d.known.len() < 4 {
                                d.known.push((id, format!("{}: expected {:#x}, library reports {:#x}", x.label, y.v, x.v)));
                            }
                            continue;
                        }
                    }
                    return Err(format!("{}[{}]: library reports {:#x}, expected {:#x}", x.label, x.idx, x.v, y.v));
                }
                d.compared += 1;
            }
            (Some(x), None) => return Err(format!("library reported {}[{}]={:#x} which the model does not have", x.label, x.idx, x.v)),
            (None, Some(y)) => return Err(format!("library did not report {}[{}]={:#x}", y.label, y.idx, y.v)),
        }
    }
}
