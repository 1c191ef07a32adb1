//! C25: serialisation of raw results.
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::out::*;
use crate::rich::*;
use crate::spaces::*;
use raw_cpuid::*;
use std::cell::RefCell;
use std::collections::HashMap;

fn res(r: R4) -> CpuIdResult {
    CpuIdResult { eax: r.a, ebx: r.b, ecx: r.c, edx: r.d }
}

/// `{"eax":1,...}` without the JSON library, registers in any order.
fn text(r: R4, order: [usize; 4]) -> String {
    let v = [("eax", r.a), ("ebx", r.b), ("ecx", r.c), ("edx", r.d)];
    format!("{{{}}}", order.map(|i| format!("\"{}\":{}", v[i].0, v[i].1)).join(","))
}

/// Fields of a flat JSON object of numbers.
fn parse(s: &str) -> Option<Vec<(&str, u64)>> {
    let inner = s.trim().strip_prefix('{')?.strip_suffix('}')?;
    inner.split(',').map(|f| { let (k, v) = f.split_once(':')?; Some((k.trim().strip_prefix('"')?.strip_suffix('"')?, v.trim().parse().ok()?)) }).collect()
}

fn round(r: R4, ctx: &mut Ctx, deep: bool) -> Res {
    let x = res(r);
    let s = serde_json::to_string(&x).map_err(|e| format!("serialising {r:?}: {e}"))?;
    let mut f = parse(&s).ok_or_else(|| format!("{r:?} serialises to {s:?}, not to four named numbers"))?;
    f.sort();
    if f != [("eax", r.a as u64), ("ebx", r.b as u64), ("ecx", r.c as u64), ("edx", r.d as u64)] {
        return Err(format!("{r:?} serialises to {s}"));
    }
    let y: CpuIdResult = serde_json::from_str(&s).map_err(|e| format!("deserialising {s}: {e}"))?;
    let same = |y: &CpuIdResult| y.eax == r.a && y.ebx == r.b && y.ecx == r.c && y.edx == r.d;
    if !same(&y) || y != x || !(y == x) {
        return Err(format!("{r:?} comes back as {y:?}"));
    }
    // A format without names, for machines.
    let raw = bincode::serialize(&x).map_err(|e| format!("serialising {r:?} with bincode: {e}"))?;
    let y: CpuIdResult = bincode::deserialize(&raw).map_err(|e| format!("deserialising {raw:x?} with bincode: {e}"))?;
    if !same(&y) {
        return Err(format!("{r:?} comes back as {y:?} from bincode"));
    }
    ctx.transitions += 13;
    ctx.traces += 1;
    if deep {
        let mut raw = vec![];
        ciborium::into_writer(&x, &mut raw).map_err(|e| format!("serialising {r:?} with CBOR: {e}"))?;
        let y: CpuIdResult = ciborium::from_reader(&raw[..]).map_err(|e| format!("deserialising {raw:x?} with CBOR: {e}"))?;
        let named: std::collections::BTreeMap<String, u64> = ciborium::from_reader(&raw[..]).map_err(|e| format!("{r:?} is {raw:x?} in CBOR: {e}"))?;
        if !same(&y) || !named.iter().map(|(k, v)| (k.as_str(), *v)).eq([("eax", r.a as u64), ("ebx", r.b as u64), ("ecx", r.c as u64), ("edx", r.d as u64)]) {
            return Err(format!("{r:?} is {named:?} in CBOR and comes back as {y:?}"));
        }
        for order in [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]] {
            let s = text(r, order);
            let y: CpuIdResult = serde_json::from_str(&s).map_err(|e| format!("deserialising {s}: {e}"))?;
            if !same(&y) {
                return Err(format!("{s} is read as {y:?}"));
            }
        }
        let v = serde_json::to_value(x).map_err(|e| e.to_string())?;
        let y: CpuIdResult = serde_json::from_value(v).map_err(|e| e.to_string())?;
        let z: CpuIdResult = serde_json::from_str(&serde_json::to_string_pretty(&x).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let l: Vec<Option<CpuIdResult>> = serde_json::from_slice(&serde_json::to_vec(&vec![Some(x), None, Some(y)]).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let ok = l.len() == 3 && l[1].is_none() && l[0].as_ref().map_or(false, same) && l[2].as_ref().map_or(false, same);
        if !same(&y) || !same(&z) || !ok {
            return Err(format!("{r:?} does not come back"));
        }
        // Equality itself: one changed bit makes a different result.
        for b in 0..128 {
            let mut q = r;
            *q.reg_mut(b / 32) ^= 1 << (b % 32);
            if res(q) == x {
                return Err(format!("{q:?} and {r:?} compare equal"));
            }
        }
        if x.all_zero() != (r == R4::default()) {
            return Err(format!("all_zero of {r:?} is {}", x.all_zero()));
        }
        ctx.transitions += 150;
    }
    if ctx.count_outcome {
        ctx.outcome(s.bytes().fold(0, |h, b| mix(h, b as u64)));
    }
    Ok(())
}

struct Restored {
    ht: HashMap<u64, CpuIdResult>,
}
impl Src for Restored {
    fn get(&self, l: u32, s: u32) -> R4 {
        let z = CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 };
        let r = self.ht.get(&((l as u64) << 32 | s as u64)).unwrap_or(&z);
        r4(r.eax, r.ebx, r.ecx, r.edx)
    }
    fn tick(&self) {}
}

pub fn c25(thorough: bool) -> Vec<Space> {
    let mut v = vec![];
    let k = if thorough { 4 } else { 2 };
    let per = nsets(128, k);
    v.push(idx(format!("results with <={k} of 128 bits flipped over 5 contents"), per * 5, move |i, ctx| {
        let mut r = BACKGROUNDS[(i / per) as usize];
        for p in unrank(i % per, 128, k) {
            *r.reg_mut(p as usize / 32) ^= 1 << (p % 32);
        }
        ctx.describe(|| format!("{r:?}"));
        round(r, ctx, !thorough || i % per < 9000)
    }));
    if thorough {
        for reg in 0..4 {
            v.push(idx(format!("every value of {}", ["eax", "ebx", "ecx", "edx"][reg]), 1 << 32, move |i, ctx| {
                let mut r = BACKGROUNDS[4];
                *r.reg_mut(reg) = i as u32;
                ctx.describe(|| format!("{r:?}"));
                round(r, ctx, false)
            }));
        }
    } else {
        v.push(idx("every value of each half of each register over 2 contents", 65536 * 16, move |i, ctx| {
            let mut r = BACKGROUNDS[[0, 4][(i >> 19) as usize]];
            let (reg, sh) = ((i >> 17 & 3) as usize, (i >> 16 & 1) * 16);
            let x = r.reg_mut(reg);
            *x = *x & !(0xffff << sh) | ((i & 0xffff) as u32) << sh;
            ctx.describe(|| format!("{r:?}"));
            round(r, ctx, false)
        }));
    }
    // A stored dump answers like the CPU it was taken from.
    let fills: u64 = if thorough { 7 } else { 3 };
    v.push(idx(format!("dumps of whole CPUs: 4 vendors x {fills} contents x 4 shapes x 8 gates, stored, restored and queried"), 4 * fills * 32, move |i, ctx| {
        let mut r = Rich::open(VENDORS[(i % 4) as usize]);
        r.subs = (i / 4 % 4) as usize;
        let g = i / 16 % 8;
        (r.sgx, r.hyp, r.svm) = (g & 1 == 1, g & 2 == 2, g & 4 == 4);
        r.fill = [5, 1, 6, 0, 2, 3, 4][(i / 128) as usize];
        ctx.describe(|| format!("{r:x?}"));
        let t = r.build();
        let lg = Logged { inner: &t, log: RefCell::new(vec![]) };
        ctx.obs.clear();
        observe_all(&lg, &mut ctx.obs);
        let txt = render_all(&lg);
        let ht: HashMap<u64, CpuIdResult> = lg.log.borrow().iter().map(|&(l, s)| ((l as u64) << 32 | s as u64, res(t.get(l, s)))).collect();
        let s = serde_json::to_string(&ht).map_err(|e| e.to_string())?;
        let back = Restored { ht: serde_json::from_str(&s).map_err(|e| e.to_string())? };
        ctx.spec.clear();
        observe_all(&back, &mut ctx.spec);
        ctx.transitions += differ(&ctx.obs, &ctx.spec, "the restored dump")? + differ_text(&txt, &render_all(&back), "the restored dump")?;
        ctx.traces += 1;
        Ok(())
    }));
    v
}
