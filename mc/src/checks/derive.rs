//! C10, C20, C21: values and texts computed from several fields.
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::out::*;
use crate::spaces::*;

// ------------------------------------------------------------ C10

fn signature(ven: usize, eax: u32, rest: R4, ctx: &mut Ctx) -> Res {
    let mut t = match ctx.table.take() {
        Some((k, t)) if k == ven as u64 => t,
        _ => open_base(VENDORS[ven]),
    };
    t.reset_budget();
    t.set(1, 0, r4(eax, rest.b, rest.c, rest.d));
    let c = cpu(&t);
    let Some(x) = c.get_feature_info() else {
        ctx.table = Some((ven as u64, t));
        return Ok(()); // availability is C01's business
    };
    let g = |hi: u32, lo: u32| (eax >> lo) & ((1 << (hi - lo + 1)) - 1);
    let (step, bm, bf, em, ef) = (g(3, 0), g(7, 4), g(11, 8), g(19, 16), g(27, 20));
    let intel = ven == 0;
    let fam = if bf == 15 { (bf + ef) & 0xff } else { bf };
    let model = if bf == 15 || (intel && bf == 6) { em << 4 | bm } else { bm };
    let pairs = [
        ("family_id", x.family_id() as u32, fam),
        ("model_id", x.model_id() as u32, model),
        ("stepping_id", x.stepping_id() as u32, step),
        ("base_family_id", x.base_family_id() as u32, bf),
        ("base_model_id", x.base_model_id() as u32, bm),
        ("extended_family_id", x.extended_family_id() as u32, ef),
        ("extended_model_id", x.extended_model_id() as u32, em),
    ];
    ctx.describe(|| format!("{} signature {eax:#010x}", VENDOR_NAMES[ven]));
    ctx.transitions += 7;
    ctx.traces += 1;
    if ctx.count_outcome {
        ctx.outcome((fam as u64) << 32 | (model as u64) << 8 | step as u64);
    }
    ctx.table = Some((ven as u64, t));
    for (n, a, b) in pairs {
        if a != b {
            return Err(format!("{n}() is {a:#x}, expected {b:#x}"));
        }
    }
    Ok(())
}

pub fn c10(t: bool) -> Vec<Space> {
    let mut v = fields(C10, &groups_with(C10), false);
    for ven in 0..3 {
        v.push(idx(format!("{}: every family, model, extended family and extended model x stepping 0, 5, 15 x type bits x reserved bits", VENDOR_NAMES[ven]), (1 << 20) * 3 * 4, move |i, ctx| {
            let (k, s, x) = (i as u32 & 0xf_ffff, i >> 20, (i >> 20) / 3);
            let eax = [0, 5, 15][(s % 3) as usize] | (k & 0xff) << 4 | (k >> 8) << 16 | [0, 0x3000, 0xf000_c000, 0x1000_1000][x as usize];
            signature(ven, eax, r4(0, 0, 0, 0), ctx)
        }));
        v.push(idx(format!("{}: every base family and extended family x all other registers of leaf 1 set", VENDOR_NAMES[ven]), 1 << 20, move |i, ctx| {
            let k = i as u32;
            signature(ven, (k & 0xff) << 4 | (k >> 8) << 16, r4(0, !0, !0, !0), ctx)
        }));
        if t {
            v.push(idx(format!("{}: every 32-bit signature", VENDOR_NAMES[ven]), 1 << 32, move |i, ctx| signature(ven, i as u32, r4(0, 0, 0, 0), ctx)));
        }
    }
    v
}

// ------------------------------------------------------------ C20

const BYTES: [u8; 20] = [b'A', b' ', 0, b'\t', b'\n', 0x80, 0xBF, 0xC2, 0xA0, 0xC3, 0xE2, 0x82, 0xAC, 0xF0, 0x9F, 0x98, 0xED, 0xF4, 0xFF, 0x85];

#[derive(Clone, Copy, PartialEq)]
enum Text {
    Vendor,
    Brand,
    Soc,
}
impl Text {
    fn len(self) -> usize {
        if self == Text::Vendor {
            12
        } else {
            48
        }
    }
    fn name(self) -> &'static str {
        match self {
            Text::Vendor => "vendor string",
            Text::Brand => "processor brand string",
            Text::Soc => "SoC brand string",
        }
    }
    fn group(self) -> &'static str {
        match self {
            Text::Vendor => "get_vendor_info",
            Text::Brand => "get_processor_brand_string",
            Text::Soc => "get_soc_vendor_info",
        }
    }
}

fn put_text(t: &mut Table, which: Text, b: &[u8]) {
    match which {
        Text::Vendor => {
            let w = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
            // EBX, EDX, ECX
            let a = t.get(0, 0).a;
            t.set(0, 0, r4(a, w(0), w(8), w(4)));
        }
        Text::Brand => {
            for i in 0..3 {
                t.set(0x8000_0002 + i, 0, R4::from_bytes(&b[16 * i as usize..16 * i as usize + 16]));
            }
        }
        Text::Soc => {
            t.at(0x17, 0).a = 3;
            for i in 0..3 {
                t.set(0x17, 1 + i, R4::from_bytes(&b[16 * i as usize..16 * i as usize + 16]));
            }
        }
    }
}

fn text_case(which: Text, b: &[u8], ctx: &mut Ctx) -> Res {
    let mut t = match ctx.table.take() {
        Some((_, t)) => t,
        _ => open_base(INTEL),
    };
    t.reset_budget();
    put_text(&mut t, which, b);
    ctx.describe(|| format!("{} bytes {:02x?}", which.name(), b));
    check_group(&t, &GROUPS[group(which.group())], C20, ctx)?;
    let c = cpu(&t);
    let shown = match which {
        Text::Vendor => c.get_vendor_info().map(|x| (format!("{x}"), x.as_str().to_string())),
        Text::Soc => c.get_soc_vendor_info().and_then(|x| x.get_vendor_brand()).map(|x| (format!("{x}"), x.as_str().to_string())),
        Text::Brand => None,
    };
    if let Some((d, s)) = shown {
        ctx.transitions += 1;
        if d != s {
            return Err(format!("the {} displays as {d:?}, as_str() is {s:?}", which.name()));
        }
    }
    ctx.table = Some((0, t));
    Ok(())
}

pub fn c20(t: bool) -> Vec<Space> {
    let mut v: Vec<Space> = groups_with(C20).into_iter().flat_map(|g| context(g, C20, t)).collect();
    const FILL: [u8; 3] = [b'x', b' ', 0];
    for which in [Text::Vendor, Text::Brand, Text::Soc] {
        let len = which.len();
        let n = BYTES.len() as u64;
        let win = if t { 5u32 } else { 4 };
        let offs = (len - win as usize + 1) as u64;
        let fills = if which == Text::Brand { 2u64 } else { 1 };
        let per = n.pow(win);
        v.push(idx(format!("{}: every {win}-byte window of {n} byte classes (whitespace, NUL, every kind of UTF-8 byte) at every offset, {fills} surroundings", which.name()), per * offs * fills, move |i, ctx| {
            let mut b = [0u8; 48];
            b[..len].fill(FILL[(i / per / offs) as usize]);
            let off = (i / per % offs) as usize;
            let mut k = i % per;
            for j in 0..win as usize {
                b[off + j] = BYTES[(k % n) as usize];
                k /= n;
            }
            text_case(which, &b[..len], ctx)
        }));
        v.push(idx(format!("{}: every byte value at every offset, 3 surroundings", which.name()), 256 * len as u64 * 3, move |i, ctx| {
            let mut b = [0u8; 48];
            b[..len].fill(FILL[(i / 256 / len as u64) as usize]);
            b[(i / 256 % len as u64) as usize] = i as u8;
            text_case(which, &b[..len], ctx)
        }));
        // Every pair of bytes (thus every two-byte sequence) at register and leaf borders.
        v.push(idx(format!("{}: every pair of neighbouring bytes at every offset", which.name()), 65536 * (len as u64 - 1), move |i, ctx| {
            let mut b = [b'x'; 48];
            let off = (i >> 16) as usize;
            b[off] = i as u8;
            b[off + 1] = (i >> 8) as u8;
            text_case(which, &b[..len], ctx)
        }));
        // Every scalar value, at offsets that put it across every border.
        let step = if t { 1u64 } else { 7 };
        let count = 0x11_0000u64.div_ceil(step);
        let at: Vec<usize> = if len == 12 { vec![0, 2, 3, 8] } else { vec![0, 2, 14, 15, 30, 44] };
        let na = at.len() as u64;
        v.push(idx(format!("{}: every {} Unicode scalar value (and surrogate) at {na} offsets", which.name(), if step == 1 { "single".to_string() } else { format!("{step}th") }), count * na, move |i, ctx| {
            let cp = (i % count * step) as u32;
            let mut b = [b'x'; 48];
            let off = at[(i / count) as usize];
            // Surrogates are encoded as if they were scalar values: invalid.
            let enc: Vec<u8> = match char::from_u32(cp) {
                Some(c) => c.to_string().into_bytes(),
                None => vec![0xE0 | (cp >> 12) as u8, 0x80 | (cp >> 6 & 0x3f) as u8, 0x80 | (cp & 0x3f) as u8],
            };
            for (j, x) in enc.iter().enumerate() {
                if off + j < len {
                    b[off + j] = *x;
                }
            }
            text_case(which, &b[..len], ctx)
        }));
        // Surrounding whitespace of every kind and length, and NULs.
        const WS: [&[u8]; 8] = [b" ", b"\t", b"\n", b"\r", b"\x0b", &[0xC2, 0xA0], &[0xE2, 0x80, 0x83], &[0xE3, 0x80, 0x80]];
        let ll = len as u64 + 1;
        v.push(idx(format!("{}: 0..{len} leading x 0..{len} trailing whitespace bytes of 8 x 8 kinds, then x, NUL or nothing", which.name()), ll * ll * 64 * 2, move |i, ctx| {
            let (lead, trail, k, nul) = ((i % ll) as usize, (i / ll % ll) as usize, (i / ll / ll % 64) as usize, i / ll / ll / 64 == 1);
            let mut b = vec![];
            while b.len() < lead {
                b.extend_from_slice(WS[k % 8]);
            }
            let mut tail = vec![];
            while tail.len() < trail {
                tail.extend_from_slice(WS[k / 8]);
            }
            if nul {
                b.extend_from_slice(b"Cpu 1");
                b.extend_from_slice(&tail);
                b.push(0);
                b.resize(len.max(b.len()), b'g');
            } else {
                let mid = len.saturating_sub(b.len() + tail.len());
                b.extend(std::iter::repeat(b'c').take(mid));
                b.extend_from_slice(&tail);
            }
            b.resize(len, b'z');
            text_case(which, &b[..len], ctx)
        }));
        let nulk = if t { 3 } else { 2 };
        let per = nsets(len as u64, nulk);
        v.push(idx(format!("{}: NUL at <={nulk} positions, spaces or letters elsewhere", which.name()), per * 3, move |i, ctx| {
            let mut b = [b'x'; 48];
            if i / per == 1 {
                for (j, x) in b.iter_mut().enumerate() {
                    *x = if j % 5 == 0 { b' ' } else { b'q' };
                }
            } else if i / per == 2 {
                b.fill(b' ');
            }
            for p in unrank(i % per, len as u64, nulk) {
                b[p as usize] = 0;
            }
            text_case(which, &b[..len], ctx)
        }));
        let kb = if t { 3 } else { 2 };
        let per = nsets(8 * len as u64, if len == 48 { kb.min(2) } else { kb });
        v.push(idx(format!("{}: flipped bits of a plausible text", which.name()), per, move |i, ctx| {
            let mut b = *b"  Intel(R) Core(TM) i7-1165G7 CPU @ 2.80GHz     ";
            if len == 12 {
                b[..12].copy_from_slice(b"GenuineIntel");
            }
            for p in unrank(i, 8 * len as u64, if len == 48 { kb.min(2) } else { kb }) {
                b[p as usize / 8] ^= 1 << (p % 8);
            }
            text_case(which, &b[..len], ctx)
        }));
    }
    v
}

// ------------------------------------------------------------ C21

/// Zero, small values, powers of two and their neighbours, large and typical values.
fn interesting() -> Vec<u32> {
    let mut v = vec![0, 1, 2, 3, 5, 7, 10, 100, 1000, 24_000_000, 19_200_000, 25_000_000, 38_400_000, 100_000_000, 0x1234_5678, 0x7fff_fffe, 0xaaaa_aaaa];
    for p in [4, 8, 12, 15, 16, 17, 20, 24, 28, 30, 31] {
        let x = 1u32 << p;
        v.extend([x - 1, x, x + 1]);
    }
    v.extend([u32::MAX, u32::MAX - 1, 0xffff_0000, 0xdead_beef]);
    v.sort();
    v.dedup();
    v
}

pub fn c21(t: bool) -> Vec<Space> {
    let mut v = fields(C21, &groups_with(C21), t);
    let b = {
        let mut b = interesting();
        if t {
            for p in 0..32 {
                b.extend([1u32 << p, (1u32 << p) ^ u32::MAX, (1u32 << p) + (1u32 << (p / 2))]);
            }
            b.sort();
            b.dedup();
        }
        b
    };
    let n = b.len() as u64;
    let b2 = b.clone();
    v.push(idx(format!("TSC frequency: {n}^3 boundary values of denominator, numerator and nominal frequency"), n * n * n, move |i, ctx| {
        let r = r4(b2[(i % n) as usize], b2[(i / n % n) as usize], b2[(i / n / n) as usize], 0);
        let t = open_base(INTEL).with(0x15, 0, r);
        ctx.describe(|| format!("leaf 0x15: {r:?}"));
        check_group(&t, &GROUPS[group("get_tsc_info")], C21, ctx)
    }));
    let b3 = b.clone();
    v.push(idx(format!("serial numbers: {n}^2 boundary values of the lower words x 8 signatures x other registers"), n * n * 16, move |i, ctx| {
        let (lo, mid, k) = (b3[(i % n) as usize], b3[(i / n % n) as usize], (i / n / n) as usize);
        let up = [0, 1, 0x8000_0000, u32::MAX, 0x000506e3, 0x0001_0000, 0xffff_0000, 0x1234_5678][k % 8];
        let o = if k < 8 { 0 } else { u32::MAX };
        let t = open_base(INTEL).with(1, 0, r4(up, o, o, o)).with(3, 0, r4(o, o, lo, mid));
        ctx.describe(|| env_desc(&t, &[(1, 0), (3, 0)]));
        check_group(&t, &GROUPS[group("get_processor_serial")], C21, ctx)
    }));
    v.push(idx("leaf 0x8000_0008 ECX: every value of the low 18 bits, both values of the rest, 4 vendors", (1 << 18) * 8, |i, ctx| {
        let c = i as u32 & 0x3_ffff | if i >> 18 & 1 == 1 { 0xfffc_0000 } else { 0 };
        let t = open_base(VENDORS[(i >> 19) as usize]).with(0x8000_0008, 0, r4(0, 0, c, 0));
        ctx.describe(|| env_desc(&t, &[(0x8000_0008, 0)]));
        check_group(&t, &GROUPS[group("get_processor_capacity_feature_info")], C21, ctx)
    }));
    v.push(idx("leaf 0x8000_001E EBX and ECX: every value of the low 16 bits", 1 << 18, |i, ctx| {
        let o = if i >> 17 & 1 == 1 { 0xffff_0000 } else { 0 };
        let x = i as u32 & 0xffff | o;
        let r = if i >> 16 & 1 == 0 { r4(0, x, 0, 0) } else { r4(0, 0, x, 0) };
        let t = open_base(AMD).with(0x8000_001E, 0, r);
        ctx.describe(|| env_desc(&t, &[(0x8000_001E, 0)]));
        check_group(&t, &GROUPS[group("get_processor_topology_info")], C21, ctx)
    }));
    v.push(idx("the register class of every XSAVE component, for every location and size pattern", 32 * 64, |i, ctx| {
        let (n, k) = ((i % 32) as u32, i / 32);
        let mut t = open_base(INTEL);
        if XCR0_DEFINED >> n & 1 == 1 {
            t.at(0xD, 0).a = 1 << n;
        } else if XSS_DEFINED >> n & 1 == 1 {
            t.at(0xD, 1).c = 1 << n;
        }
        t.set(0xD, n.max(2), crate::checks::enumer::word(0xD, n, k));
        if n < 2 {
            return Ok(());
        }
        ctx.describe(|| env_desc(&t, &[(0xD, 0), (0xD, 1), (0xD, n)]));
        check_group(&t, &GROUPS[group("get_extended_state_info")], C21, ctx)
    }));
    v.push(idx("register classification of numbers 0..2^20 and every power of two", (1 << 20) + 32, |i, ctx| {
        let n = if i < 1 << 20 { i as u32 } else { 1u32 << (i - (1 << 20)) };
        ctx.describe(|| format!("component {n}"));
        let x = raw_cpuid::ExtendedRegisterType::from(n);
        use raw_cpuid::ExtendedRegisterType::*;
        let ok = match n {
            2 => x == Avx,
            3 => x == MpxBndregs,
            4 => x == MpxBndcsr,
            5 => x == Avx512Opmask,
            6 => x == Avx512ZmmHi256,
            7 => x == Avx512ZmmHi16,
            8 => x == Pt,
            9 => x == Pkru,
            13 => x == Hdc,
            n => x == Unknown(n),
        };
        ctx.transitions += 1;
        ctx.traces += 1;
        if !ok {
            return Err(format!("component {n} is classified as {x:?}"));
        }
        Ok(())
    }));
    v
}
