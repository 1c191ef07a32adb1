//! The documented leaf-2 descriptors (Intel SDM Vol. 2A, CPUID, table of leaf
//! 02H descriptors), as a fixed reference table.
use crate::env::*;
use crate::out::*;

/// Descriptor byte, kind (1 General, 2 Cache, 3 TLB, 4 STLB, 5 DTLB,
/// 6 Prefetch), text.
pub const TABLE: &[(u8, u32, &str)] = &[
    (0x00, 1, "Null descriptor, this byte contains no information"),
    (0x01, 3, "Instruction TLB: 4 KByte pages, 4-way set associative, 32 entries"),
    (0x02, 3, "Instruction TLB: 4 MByte pages, fully associative, 2 entries"),
    (0x03, 3, "Data TLB: 4 KByte pages, 4-way set associative, 64 entries"),
    (0x04, 3, "Data TLB: 4 MByte pages, 4-way set associative, 8 entries"),
    (0x05, 3, "Data TLB1: 4 MByte pages, 4-way set associative, 32 entries"),
    (0x06, 2, "1st-level instruction cache: 8 KBytes, 4-way set associative, 32 byte line size"),
    (0x08, 2, "1st-level instruction cache: 16 KBytes, 4-way set associative, 32 byte line size"),
    (0x09, 2, "1st-level instruction cache: 32KBytes, 4-way set associative, 64 byte line size"),
    (0x0A, 2, "1st-level data cache: 8 KBytes, 2-way set associative, 32 byte line size"),
    (0x0B, 3, "Instruction TLB: 4 MByte pages, 4-way set associative, 4 entries"),
    (0x0C, 2, "1st-level data cache: 16 KBytes, 4-way set associative, 32 byte line size"),
    (0x0D, 2, "1st-level data cache: 16 KBytes, 4-way set associative, 64 byte line size"),
    (0x0E, 2, "1st-level data cache: 24 KBytes, 6-way set associative, 64 byte line size"),
    (0x1D, 2, "2nd-level cache: 128 KBytes, 2-way set associative, 64 byte line size"),
    (0x21, 2, "2nd-level cache: 256 KBytes, 8-way set associative, 64 byte line size"),
    (0x22, 2, "3rd-level cache: 512 KBytes, 4-way set associative, 64 byte line size, 2 lines per sector"),
    (0x23, 2, "3rd-level cache: 1 MBytes, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x24, 2, "2nd-level cache: 1 MBytes, 16-way set associative, 64 byte line size"),
    (0x25, 2, "3rd-level cache: 2 MBytes, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x29, 2, "3rd-level cache: 4 MBytes, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x2C, 2, "1st-level data cache: 32 KBytes, 8-way set associative, 64 byte line size"),
    (0x30, 2, "1st-level instruction cache: 32 KBytes, 8-way set associative, 64 byte line size"),
    (0x40, 2, "No 2nd-level cache or, if processor contains a valid 2nd-level cache, no 3rd-level cache"),
    (0x41, 2, "2nd-level cache: 128 KBytes, 4-way set associative, 32 byte line size"),
    (0x42, 2, "2nd-level cache: 256 KBytes, 4-way set associative, 32 byte line size"),
    (0x43, 2, "2nd-level cache: 512 KBytes, 4-way set associative, 32 byte line size"),
    (0x44, 2, "2nd-level cache: 1 MByte, 4-way set associative, 32 byte line size"),
    (0x45, 2, "2nd-level cache: 2 MByte, 4-way set associative, 32 byte line size"),
    (0x46, 2, "3rd-level cache: 4 MByte, 4-way set associative, 64 byte line size"),
    (0x47, 2, "3rd-level cache: 8 MByte, 8-way set associative, 64 byte line size"),
    (0x48, 2, "2nd-level cache: 3MByte, 12-way set associative, 64 byte line size"),
    (0x49, 2, "3rd-level cache: 4MB, 16-way set associative, 64-byte line size (Intel Xeon processor MP, Family 0FH, Model 06H); 2nd-level cache: 4 MByte, 16-way set ssociative, 64 byte line size"),
    (0x4A, 2, "3rd-level cache: 6MByte, 12-way set associative, 64 byte line size"),
    (0x4B, 2, "3rd-level cache: 8MByte, 16-way set associative, 64 byte line size"),
    (0x4C, 2, "3rd-level cache: 12MByte, 12-way set associative, 64 byte line size"),
    (0x4D, 2, "3rd-level cache: 16MByte, 16-way set associative, 64 byte line size"),
    (0x4E, 2, "2nd-level cache: 6MByte, 24-way set associative, 64 byte line size"),
    (0x4F, 3, "Instruction TLB: 4 KByte pages, 32 entries"),
    (0x50, 3, "Instruction TLB: 4 KByte and 2-MByte or 4-MByte pages, 64 entries"),
    (0x51, 3, "Instruction TLB: 4 KByte and 2-MByte or 4-MByte pages, 128 entries"),
    (0x52, 3, "Instruction TLB: 4 KByte and 2-MByte or 4-MByte pages, 256 entries"),
    (0x55, 3, "Instruction TLB: 2-MByte or 4-MByte pages, fully associative, 7 entries"),
    (0x56, 3, "Data TLB0: 4 MByte pages, 4-way set associative, 16 entries"),
    (0x57, 3, "Data TLB0: 4 KByte pages, 4-way associative, 16 entries"),
    (0x59, 3, "Data TLB0: 4 KByte pages, fully associative, 16 entries"),
    (0x5A, 3, "Data TLB0: 2-MByte or 4 MByte pages, 4-way set associative, 32 entries"),
    (0x5B, 3, "Data TLB: 4 KByte and 4 MByte pages, 64 entries"),
    (0x5C, 3, "Data TLB: 4 KByte and 4 MByte pages,128 entries"),
    (0x5D, 3, "Data TLB: 4 KByte and 4 MByte pages,256 entries"),
    (0x60, 2, "1st-level data cache: 16 KByte, 8-way set associative, 64 byte line size"),
    (0x61, 3, "Instruction TLB: 4 KByte pages, fully associative, 48 entries"),
    (0x63, 3, "Data TLB: 2 MByte or 4 MByte pages, 4-way set associative, 32 entries and a separate array with 1 GByte pages, 4-way set associative, 4 entries"),
    (0x64, 3, "Data TLB: 4 KByte pages, 4-way set associative, 512 entries"),
    (0x66, 2, "1st-level data cache: 8 KByte, 4-way set associative, 64 byte line size"),
    (0x67, 2, "1st-level data cache: 16 KByte, 4-way set associative, 64 byte line size"),
    (0x68, 2, "1st-level data cache: 32 KByte, 4-way set associative, 64 byte line size"),
    (0x6A, 3, "uTLB: 4 KByte pages, 8-way set associative, 64 entries"),
    (0x6B, 5, "DTLB: 4 KByte pages, 8-way set associative, 256 entries"),
    (0x6C, 5, "DTLB: 2M/4M pages, 8-way set associative, 128 entries"),
    (0x6D, 5, "DTLB: 1 GByte pages, fully associative, 16 entries"),
    (0x70, 2, "Trace cache: 12 K-μop, 8-way set associative"),
    (0x71, 2, "Trace cache: 16 K-μop, 8-way set associative"),
    (0x72, 2, "Trace cache: 32 K-μop, 8-way set associative"),
    (0x76, 3, "Instruction TLB: 2M/4M pages, fully associative, 8 entries"),
    (0x78, 2, "2nd-level cache: 1 MByte, 4-way set associative, 64byte line size"),
    (0x79, 2, "2nd-level cache: 128 KByte, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x7A, 2, "2nd-level cache: 256 KByte, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x7B, 2, "2nd-level cache: 512 KByte, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x7C, 2, "2nd-level cache: 1 MByte, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x7D, 2, "2nd-level cache: 2 MByte, 8-way set associative, 64byte line size"),
    (0x7F, 2, "2nd-level cache: 512 KByte, 2-way set associative, 64-byte line size"),
    (0x80, 2, "2nd-level cache: 512 KByte, 8-way set associative, 64-byte line size"),
    (0x82, 2, "2nd-level cache: 256 KByte, 8-way set associative, 32 byte line size"),
    (0x83, 2, "2nd-level cache: 512 KByte, 8-way set associative, 32 byte line size"),
    (0x84, 2, "2nd-level cache: 1 MByte, 8-way set associative, 32 byte line size"),
    (0x85, 2, "2nd-level cache: 2 MByte, 8-way set associative, 32 byte line size"),
    (0x86, 2, "2nd-level cache: 512 KByte, 4-way set associative, 64 byte line size"),
    (0x87, 2, "2nd-level cache: 1 MByte, 8-way set associative, 64 byte line size"),
    (0xA0, 5, "DTLB: 4k pages, fully associative, 32 entries"),
    (0xB0, 3, "Instruction TLB: 4 KByte pages, 4-way set associative, 128 entries"),
    (0xB1, 3, "Instruction TLB: 2M pages, 4-way, 8 entries or 4M pages, 4-way, 4 entries"),
    (0xB2, 3, "Instruction TLB: 4KByte pages, 4-way set associative, 64 entries"),
    (0xB3, 3, "Data TLB: 4 KByte pages, 4-way set associative, 128 entries"),
    (0xB4, 3, "Data TLB1: 4 KByte pages, 4-way associative, 256 entries"),
    (0xB5, 3, "Instruction TLB: 4KByte pages, 8-way set associative, 64 entries"),
    (0xB6, 3, "Instruction TLB: 4KByte pages, 8-way set associative, 128 entries"),
    (0xBA, 3, "Data TLB1: 4 KByte pages, 4-way associative, 64 entries"),
    (0xC0, 3, "Data TLB: 4 KByte and 4 MByte pages, 4-way associative, 8 entries"),
    (0xC1, 4, "Shared 2nd-Level TLB: 4 KByte/2MByte pages, 8-way associative, 1024 entries"),
    (0xC2, 5, "DTLB: 2 MByte/$MByte pages, 4-way associative, 16 entries"),
    (0xC3, 4, "Shared 2nd-Level TLB: 4 KByte /2 MByte pages, 6-way associative, 1536 entries. Also 1GBbyte pages, 4-way, 16 entries."),
    (0xC4, 5, "DTLB: 2M/4M Byte pages, 4-way associative, 32 entries"),
    (0xCA, 4, "Shared 2nd-Level TLB: 4 KByte pages, 4-way associative, 512 entries"),
    (0xD0, 2, "3rd-level cache: 512 KByte, 4-way set associative, 64 byte line size"),
    (0xD1, 2, "3rd-level cache: 1 MByte, 4-way set associative, 64 byte line size"),
    (0xD2, 2, "3rd-level cache: 2 MByte, 4-way set associative, 64 byte line size"),
    (0xD6, 2, "3rd-level cache: 1 MByte, 8-way set associative, 64 byte line size"),
    (0xD7, 2, "3rd-level cache: 2 MByte, 8-way set associative, 64 byte line size"),
    (0xD8, 2, "3rd-level cache: 4 MByte, 8-way set associative, 64 byte line size"),
    (0xDC, 2, "3rd-level cache: 1.5 MByte, 12-way set associative, 64 byte line size"),
    (0xDD, 2, "3rd-level cache: 3 MByte, 12-way set associative, 64 byte line size"),
    (0xDE, 2, "3rd-level cache: 6 MByte, 12-way set associative, 64 byte line size"),
    (0xE2, 2, "3rd-level cache: 2 MByte, 16-way set associative, 64 byte line size"),
    (0xE3, 2, "3rd-level cache: 4 MByte, 16-way set associative, 64 byte line size"),
    (0xE4, 2, "3rd-level cache: 8 MByte, 16-way set associative, 64 byte line size"),
    (0xEA, 2, "3rd-level cache: 12MByte, 24-way set associative, 64 byte line size"),
    (0xEB, 2, "3rd-level cache: 18MByte, 24-way set associative, 64 byte line size"),
    (0xEC, 2, "3rd-level cache: 24MByte, 24-way set associative, 64 byte line size"),
    (0xF0, 6, "64-Byte prefetching"),
    (0xF1, 6, "128-Byte prefetching"),
    (0xFE, 1, "CPUID leaf 2 does not report TLB descriptor information; use CPUID leaf 18H to query TLB and other address translation parameters."),
    (0xFF, 1, "CPUID leaf 2 does not report cache descriptor information, use CPUID leaf 4 to query cache parameters"),];

/// Descriptor that the library documents but does not list (known finding).
pub const C3: u8 = 0xC3;
pub const C3_FINDING: &str = "leaf2-descriptor-c3";

/// Compares descriptions by their letters and digits only.
pub fn norm(s: &str) -> u64 {
    let mut h = 0x1234_5678_9abc_def1u64;
    for c in s.bytes().filter(|c| c.is_ascii_alphanumeric()) {
        h = mix(h, c.to_ascii_lowercase() as u64);
    }
    h
}

fn norms() -> &'static [Option<(u32, u64)>; 256] {
    static T: std::sync::OnceLock<[Option<(u32, u64)>; 256]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [None; 256];
        for &(b, k, d) in TABLE {
            t[b as usize] = Some((k, norm(d)));
        }
        t
    })
}

/// The descriptor bytes that must be listed, in order.
pub fn expected(r: R4) -> Vec<u8> {
    let mut v = vec![];
    for p in 1..16usize {
        let w = r.reg(p % 4);
        let b = (w >> (8 * (p / 4))) as u8;
        if w >> 31 == 0 && b != 0 && norms()[b as usize].is_some() {
            v.push(b)
        }
    }
    v
}

pub fn spec(r: R4, o: &mut Out) {
    spec_with(r, o, true)
}

pub fn spec_with(r: R4, o: &mut Out, c3: bool) {
    let mut n = 0;
    for b in expected(r) {
        if b == C3 && !c3 {
            continue;
        }
        let (k, d) = norms()[b as usize].unwrap();
        n += 1;
        o.idx = n;
        o.val("leaf2.num", C11, b);
        o.val("leaf2.typ", C11, k);
        o.val("leaf2.desc", C11, d);
    }
    o.idx = 0;
    o.val("leaf2.count", C11, n);
}
