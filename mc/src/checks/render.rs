//! C22: Debug and Display renderings against the accessors.
use crate::engine::*;
use crate::env::*;
use crate::groups::*;
use crate::out::*;
use crate::rich::*;
use crate::spaces::*;
use raw_cpuid::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::sync::OnceLock;

// ------------------------------------------------------------ reading Debug text

/// Splits `s` at top-level commas (strings, brackets respected).
fn split_top(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let (mut v, mut depth, mut quote, mut start, mut i) = (vec![], 0i32, false, 0, 0);
    while i < b.len() {
        if quote {
            match b[i] {
                b'\\' => i += 1,
                b'"' => quote = false,
                _ => {}
            }
        } else {
            match b[i] {
                b'"' => quote = true,
                b'(' | b'[' | b'{' => depth += 1,
                b')' | b']' | b'}' => depth -= 1,
                b',' if depth == 0 => {
                    v.push(s[start..i].trim());
                    start = i + 1;
                }
                _ => {}
            }
        }
        i += 1;
    }
    let last = s[start..].trim();
    if !last.is_empty() {
        v.push(last);
    }
    v
}

/// `Name { label: value, ... }`
fn fields_of(s: &str) -> Option<Vec<(&str, &str)>> {
    let open = s.find('{')?;
    if s[..open].contains('(') || s[..open].contains('[') {
        return None;
    }
    let inner = s[open + 1..].trim_end().strip_suffix('}')?;
    split_top(inner).into_iter().map(|f| f.split_once(':').map(|(l, v)| (l.trim(), v.trim()))).collect()
}
fn list_of(s: &str) -> Option<Vec<&str>> {
    Some(split_top(s.trim().strip_prefix('[')?.strip_suffix(']')?))
}
fn some_of(s: &str) -> Option<&str> {
    s.strip_prefix("Some(")?.strip_suffix(')')
}
/// The flag names in `Name(A | B)` or `Name(0x0)`.
fn flags_of(s: &str) -> Option<BTreeSet<String>> {
    let open = s.find('(')?;
    if !s[..open].chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
        return None;
    }
    let inner = s[open + 1..].strip_suffix(')')?;
    if inner.contains(['"', ',', '{', '(']) {
        return None;
    }
    Some(inner.split('|').map(|x| x.trim().to_string()).filter(|x| !x.is_empty() && !x.starts_with("0x") && x != "empty").collect())
}

/// What the rendering of an object must say: (label, text); a label that
/// starts with '?' may be missing.
type Want = Vec<(&'static str, String)>;

fn must_say(text: &str, want: &Want, n: &mut u64) -> Res {
    let have = fields_of(text).ok_or_else(|| format!("cannot read the rendering {text:?}"))?;
    for (l, v) in want {
        let optional = l.starts_with('?');
        let l = l.trim_start_matches('?');
        match have.iter().find(|h| h.0.trim_start_matches('_') == l) {
            None if optional => {}
            None => return Err(format!("the rendering has no {l}: {text:?}")),
            Some((_, t)) if t == v => *n += 1,
            Some((_, t)) => return Err(format!("the rendering says {l}: {t}, the accessor returns {v}")),
        }
    }
    Ok(())
}

macro_rules! want {
    ($x:expr; $($m:ident),* ; $($l:expr => $e:expr),*) => {{
        #[allow(unused_mut)]
        let mut w: Want = vec![$((stringify!($m), format!("{:?}", $x.$m()))),*];
        $( w.push(($l, format!("{:?}", $e))); )*
        w
    }};
}

fn cache_want(x: &CacheParameter) -> Want {
    want!(x; cache_type, level, is_self_initializing, is_fully_associative, max_cores_for_cache, max_cores_for_package, coherency_line_size,
        physical_line_partitions, associativity, sets, is_write_back_invalidate, is_inclusive, has_complex_indexing;)
}
fn topo_want(x: &ExtendedTopologyLevel) -> Want {
    want!(x; processors, level_type, x2apic_id; "number" => x.level_number(), "type" => x.level_type(), "next_apic_id" => x.shift_right_for_next_apic_id())
        .into_iter()
        .filter(|w| w.0 != "level_type")
        .collect()
}
fn dat_want(x: &DatInfo) -> Want {
    want!(x; has_4k_entries, has_2mb_entries, has_4mb_entries, has_1gb_entries, is_fully_associative;)
}
fn state_want(x: &ExtendedState) -> Want {
    want!(x; size, offset, is_in_ia32_xss, is_in_xcr0, is_compacted_format;)
}
fn info_want(x: &CacheInfo) -> Want {
    want!(x; ; "typ" => x.typ, "desc" => x.desc())
}

fn sub(text: &str, label: &str) -> Option<String> {
    fields_of(text)?.into_iter().find(|f| f.0 == label).map(|f| f.1.to_string())
}

/// A list must show exactly the items the iterator yields.
fn list_says<T>(text: &str, items: &[T], want: impl Fn(&T) -> Want, n: &mut u64) -> Res {
    let l = list_of(text).ok_or_else(|| format!("not a list: {text:?}"))?;
    if l.len() != items.len() {
        return Err(format!("the rendering lists {} items, iterating yields {}", l.len(), items.len()));
    }
    for (t, x) in l.iter().zip(items) {
        must_say(t, &want(x), n)?;
    }
    *n += 1;
    Ok(())
}

fn opt_says<T>(text: &str, x: Option<T>, want: impl Fn(&T) -> Want, n: &mut u64) -> Res {
    match (x, some_of(text)) {
        (None, None) if text == "None" => Ok(()),
        (Some(x), Some(t)) => must_say(t, &want(&x), n),
        (x, _) => Err(format!("the rendering says {text:?}, the accessor returns {}", if x.is_some() { "a value" } else { "None" })),
    }
}

fn words_want(r: R4) -> Want {
    vec![("?eax", r.a.to_string()), ("?ebx", r.b.to_string()), ("?ecx", r.c.to_string()), ("?edx", r.d.to_string())]
}
/// The registers of one answer, as the raw dump shows them.
fn result_says(text: &str, r: R4, n: &mut u64) -> Res {
    must_say(text, &words_want(r).into_iter().map(|(l, v)| (&l[1..], format!("{:#x}", v.parse::<u32>().unwrap()))).collect(), n)
}
/// Raw register fields are only compared where they are plain numbers.
fn raw_says(text: &str, r: R4, n: &mut u64) -> Res {
    let have = fields_of(text).ok_or_else(|| format!("cannot read the rendering {text:?}"))?;
    let w: Want = words_want(r)
        .into_iter()
        .filter(|w| have.iter().any(|h| h.0.trim_start_matches('_') == &w.0[1..] && h.1.bytes().all(|c| c.is_ascii_digit())))
        .collect();
    must_say(text, &w, n)
}

/// Compares the rendering of one query with its accessors.
pub fn says(g: &Grp, t: &dyn Src, n: &mut u64) -> Res {
    let c = cpu(t);
    let text = (g.dbg)(&c);
    layout_only(&text, &(g.pretty)(&c))?;
    *n += 1;
    if text.is_empty() {
        return Ok(());
    }
    if !(g.avail)(&c) {
        return if text == "None" { Ok(()) } else { Err(format!("unavailable, but rendered as {text:?}")) };
    }
    let s = some_of(&text).ok_or_else(|| format!("available, but rendered as {text:?}"))?;
    let m = M::new(t);
    match g.name {
        "get_vendor_info" => {
            let x = c.get_vendor_info().unwrap();
            must_say(s, &want!(x; ; "brand_string" => x.as_str()), n)?;
            if format!("{x}") != x.as_str() {
                return Err("Display and as_str differ".into());
            }
        }
        "get_feature_info" => {
            let x = c.get_feature_info().unwrap();
            must_say(s, &want!(x; extended_family_id, extended_model_id, family_id, model_id, stepping_id, brand_index, cflush_cache_line_size, initial_local_apic_id, max_logical_processor_ids;), n)?
        }
        "get_cache_info" => list_says(s, &c.get_cache_info().unwrap().collect::<Vec<_>>(), info_want, n)?,
        "get_processor_serial" => {
            let x = c.get_processor_serial().unwrap();
            must_say(s, &want!(x; serial_lower, serial_middle;), n)?
        }
        "get_cache_parameters" => list_says(s, &c.get_cache_parameters().unwrap().collect::<Vec<_>>(), cache_want, n)?,
        "get_monitor_mwait_info" => {
            let x = c.get_monitor_mwait_info().unwrap();
            must_say(s, &want!(x; smallest_monitor_line, largest_monitor_line, extensions_supported, interrupts_as_break_event, supported_c0_states,
                supported_c1_states, supported_c2_states, supported_c3_states, supported_c4_states, supported_c5_states, supported_c6_states, supported_c7_states;), n)?
        }
        "get_thermal_power_info" => {
            let x = c.get_thermal_power_info().unwrap();
            must_say(s, &want!(x; dts_irq_threshold, has_dts, has_arat, has_pln, has_ecmd, has_ptm, has_hwp, has_hwp_notification, has_hwp_activity_window,
                has_hwp_energy_performance_preference, has_hwp_package_level_request, has_hdc, has_turbo_boost3, has_hwp_capabilities, has_hwp_peci_override,
                has_flexible_hwp, has_hwp_fast_access_mode, has_ignore_idle_processor_hwp_request, has_hw_coord_feedback, has_energy_bias_pref;), n)?
        }
        "get_extended_feature_info" => {
            let x = c.get_extended_feature_info().unwrap();
            must_say(s, &want!(x; mawau_value;), n)?
        }
        "get_direct_cache_access_info" => {
            let x = c.get_direct_cache_access_info().unwrap();
            must_say(s, &want!(x; ; "dca_cap_value" => x.get_dca_cap_value()), n)?
        }
        "get_performance_monitoring_info" => {
            let x = c.get_performance_monitoring_info().unwrap();
            must_say(s, &want!(x; version_id, number_of_counters, counter_bit_width, ebx_length, fixed_function_counters, fixed_function_counters_bit_width;), n)?
        }
        "get_extended_topology_info" => list_says(s, &c.get_extended_topology_info().unwrap().collect::<Vec<_>>(), topo_want, n)?,
        "get_extended_topology_info_v2" => list_says(s, &c.get_extended_topology_info_v2().unwrap().collect::<Vec<_>>(), topo_want, n)?,
        "get_extended_state_info" => {
            let x = c.get_extended_state_info().unwrap();
            must_say(s, &want!(x; xsave_area_size_enabled_features, xsave_area_size_supported_features, has_xsaveopt, has_xsavec, has_xgetbv, has_xsaves_xrstors, xsave_size;), n)?;
            let l = sub(s, "extended_state_iter").ok_or("the rendering has no extended_state_iter")?;
            list_says(&l, &x.iter().collect::<Vec<_>>(), state_want, n)?
        }
        "get_rdt_monitoring_info" => {
            let x = c.get_rdt_monitoring_info().unwrap();
            must_say(s, &want!(x; rmid_range;), n)?;
            let l = sub(s, "l3_monitoring").ok_or("the rendering has no l3_monitoring")?;
            opt_says(&l, x.l3_monitoring(), |y| want!(y; conversion_factor, maximum_rmid_range, has_occupancy_monitoring, has_total_bandwidth_monitoring, has_local_bandwidth_monitoring;)
                .into_iter().map(|(l, v)| (optional(l), v)).collect(), n)?
        }
        "get_rdt_allocation_info" => {
            let x = c.get_rdt_allocation_info().unwrap();
            let l = sub(s, "l3_cat").ok_or("the rendering has no l3_cat")?;
            opt_says(&l, x.l3_cat(), |y| want!(y; capacity_mask_length, isolation_bitmap, highest_cos; "?has_code_data_prioritization" => y.has_code_data_prioritization()), n)?;
            let l = sub(s, "l2_cat").ok_or("the rendering has no l2_cat")?;
            opt_says(&l, x.l2_cat(), |y| want!(y; capacity_mask_length, isolation_bitmap, highest_cos;), n)?;
            let l = sub(s, "memory_bandwidth_allocation").ok_or("the rendering has no memory_bandwidth_allocation")?;
            opt_says(&l, x.memory_bandwidth_allocation(), |y| want!(y; max_hba_throttling, highest_cos, has_linear_response_delay;), n)?
        }
        "get_sgx_info" => {
            let x = c.get_sgx_info().unwrap();
            must_say(s, &want!(x; has_sgx1, has_sgx2, miscselect, max_enclave_size_non_64bit, max_enclave_size_64bit,
                has_encls_leaves_etrackc_erdinfo_eldbc_elduc, has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext;), n)?;
            let l = sub(s, "sgx_section_iter").ok_or("the rendering has no sgx_section_iter")?;
            let l = list_of(&l).ok_or("not a list")?;
            if l.len() != x.iter().count() {
                return Err(format!("the rendering lists {} sections, iterating yields {}", l.len(), x.iter().count()));
            }
            for (i, t) in l.iter().enumerate() {
                let t = t.strip_prefix("Epc(").and_then(|t| t.strip_suffix(')')).ok_or("not an EPC section")?;
                raw_says(t, m.q(0x12, 2 + i as u32), n)?;
            }
        }
        "get_processor_trace_info" => {
            let x = c.get_processor_trace_info().unwrap();
            must_say(s, &want!(x; configurable_address_ranges, supported_mtc_period_encodings, supported_cycle_threshold_value_encodings, supported_psb_frequency_encodings;), n)?
        }
        "get_tsc_info" => {
            let x = c.get_tsc_info().unwrap();
            must_say(s, &want!(x; denominator, numerator, nominal_frequency, tsc_frequency;), n)?
        }
        "get_processor_frequency_info" => {
            let x = c.get_processor_frequency_info().unwrap();
            must_say(s, &want!(x; processor_base_frequency, processor_max_frequency, bus_frequency;), n)?
        }
        "get_soc_vendor_info" => {
            let x = c.get_soc_vendor_info().unwrap();
            must_say(s, &want!(x; ; "soc_vendor_id" => x.get_soc_vendor_id(), "project_id" => x.get_project_id(), "stepping_id" => x.get_stepping_id(),
                "vendor_brand" => x.get_vendor_brand()), n)?;
            if let Some(b) = x.get_vendor_brand() {
                if format!("{b}") != b.as_str() {
                    return Err("Display and as_str of the SoC brand differ".into());
                }
            }
            let l = sub(s, "vendor_attributes").ok_or("the rendering has no vendor_attributes")?;
            if (l == "None") != x.get_vendor_attributes().is_none() {
                return Err("vendor_attributes rendered although absent, or not rendered".into());
            }
            if let Some(a) = x.get_vendor_attributes() {
                for (i, y) in a.take(8).enumerate() {
                    result_says(&format!("{y:?}"), R4 { a: y.eax, b: y.ebx, c: y.ecx, d: y.edx }, n).map_err(|e| format!("attribute {i}: {e}"))?;
                }
            }
        }
        "get_deterministic_address_translation_info" => {
            list_says(s, &c.get_deterministic_address_translation_info().unwrap().collect::<Vec<_>>(), dat_want, n)?
        }
        "get_hypervisor_info" => {
            let x = c.get_hypervisor_info().unwrap();
            must_say(s, &want!(x; identify, tsc_frequency, apic_frequency;), n)?
        }
        "get_extended_processor_and_feature_identifiers" => {
            let x = c.get_extended_processor_and_feature_identifiers().unwrap();
            let mut w = want!(x; extended_signature;);
            if m.amd() {
                w.extend(want!(x; pkg_type, brand_id;));
            }
            must_say(s, &w, n)?
        }
        "get_processor_brand_string" => {
            let x = c.get_processor_brand_string().unwrap();
            must_say(s, &want!(x; as_str;), n)?
        }
        "get_processor_capacity_feature_info" => {
            let x = c.get_processor_capacity_feature_info().unwrap();
            must_say(s, &want!(x; physical_address_bits, linear_address_bits, guest_physical_address_bits, has_cl_zero, has_inst_ret_cntr_msr,
                has_restore_fp_error_ptrs, has_invlpgb, has_rdpru, has_mcommit, has_wbnoinvd, has_int_wbinvd, has_unsupported_efer_lmsle,
                has_invlpgb_nested, perf_tsc_size, apic_id_size, maximum_logical_processors, num_phys_threads, invlpgb_max_pages, max_rdpru_id;), n)?
        }
        "get_processor_topology_info" => {
            let x = c.get_processor_topology_info().unwrap();
            must_say(s, &want!(x; x2apic_id, core_id, threads_per_core, node_id, nodes_per_processor;), n)?
        }
        "get_pqos_extended_feature_info" => {
            let x = c.get_pqos_extended_feature_info().unwrap();
            must_say(s, &want!(x; has_l3mbe, has_l3smbe, has_bmec, has_l3rr, has_abmc, has_sdciae;), n)?
        }
        _ => {
            // Plain structs over their registers.
            let (l, sb) = g.words[0];
            raw_says(s, m.q(l, sb), n)?
        }
    }
    Ok(())
}

fn optional(l: &'static str) -> &'static str {
    match l {
        "has_occupancy_monitoring" => "?has_occupancy_monitoring",
        "has_total_bandwidth_monitoring" => "?has_total_bandwidth_monitoring",
        "has_local_bandwidth_monitoring" => "?has_local_bandwidth_monitoring",
        l => l,
    }
}

// ------------------------------------------------------------ flag lists

type Flags = BTreeMap<String, BTreeSet<String>>;

fn flag_lists(g: &Grp, t: &dyn Src) -> Flags {
    let text = (g.dbg)(&cpu(t));
    let mut m = Flags::new();
    if let Some(f) = some_of(&text).and_then(fields_of) {
        for (l, v) in f {
            if let Some(s) = flags_of(v) {
                if !v.starts_with("Some(") && !v.starts_with("Unknown(") {
                    m.insert(l.to_string(), s);
                }
            }
        }
    }
    m
}

/// For every bit of the query's registers, the flag names shown when it alone
/// is set, per vendor.
fn learned(gi: usize, ven: usize) -> &'static BTreeMap<(usize, u32), Flags> {
    static T: OnceLock<Vec<OnceLock<BTreeMap<(usize, u32), Flags>>>> = OnceLock::new();
    let all = T.get_or_init(|| (0..GROUPS.len() * 4).map(|_| OnceLock::new()).collect());
    all[gi * 4 + ven].get_or_init(|| {
        let g = &GROUPS[gi];
        let mut out = BTreeMap::new();
        for (wi, &(l, s)) in g.words.iter().enumerate() {
            if l == 0 {
                continue;
            }
            for p in 0..128 {
                let mut t = open_base(VENDORS[ven]);
                let reg = p as usize / 32;
                let base = flag_lists(g, &t);
                *t.at(l, s).reg_mut(reg) ^= 1 << (p % 32) & mask(l, s, reg);
                let with = flag_lists(g, &t);
                let mut d = Flags::new();
                for (k, v) in &with {
                    let b = base.get(k).cloned().unwrap_or_default();
                    let x: BTreeSet<String> = v.symmetric_difference(&b).cloned().collect();
                    if !x.is_empty() {
                        d.insert(k.clone(), x);
                    }
                }
                if !d.is_empty() {
                    out.insert((wi, p), d);
                }
            }
        }
        out
    })
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect()
}

/// A flag name that equals an accessor's name must follow the same bit.
fn names_agree(gi: usize, ven: usize, n: &mut u64) -> Res {
    let g = &GROUPS[gi];
    let run = |t: &Table| {
        let mut o = Out::default();
        (g.obs)(&cpu(t), &mut o);
        o
    };
    let base = run(&open_base(VENDORS[ven]));
    for ((wi, p), d) in learned(gi, ven) {
        let (l, s) = g.words[*wi];
        let mut t = open_base(VENDORS[ven]);
        *t.at(l, s).reg_mut(*p as usize / 32) ^= 1 << (p % 32);
        let with = run(&t);
        for f in d.values().flatten() {
            for (x, y) in base.e.iter().zip(&with.e) {
                let a = x.label.rsplit('.').next().unwrap();
                if a.strip_prefix("has_").map_or(false, |a| norm(a) == norm(f)) {
                    *n += 1;
                    if x.v == y.v && ven == 1 {
                        return Err(format!("leaf {l:#x}.{s} bit {p}: the rendering shows {f}, but {a}() does not change"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn flags_say(gi: usize, ven: usize, t: &Table, n: &mut u64) -> Res {
    let g = &GROUPS[gi];
    let have = flag_lists(g, t);
    if have.is_empty() {
        return Ok(());
    }
    let base_t = open_base(VENDORS[ven]);
    let mut want = flag_lists(g, &base_t);
    for ((wi, p), d) in learned(gi, ven) {
        let (l, s) = g.words[*wi];
        let b = |t: &Table| t.get(l, s).reg(*p as usize / 32) >> (p % 32) & 1;
        if b(t) != b(&base_t) {
            for (k, names) in d {
                let e = want.entry(k.clone()).or_default();
                for x in names {
                    if !e.remove(x) {
                        e.insert(x.clone());
                    }
                }
            }
        }
    }
    let single: BTreeSet<&String> = learned(gi, ven).values().flat_map(|d| d.values().flatten()).chain(want.values().flatten()).collect();
    for (k, v) in &have {
        let w = want.get(k).cloned().unwrap_or_default();
        // Names of multi-bit fields stand for no single bit.
        let v: BTreeSet<String> = v.iter().filter(|x| single.contains(x)).cloned().collect();
        if v != w {
            let d: Vec<_> = v.symmetric_difference(&w).collect();
            return Err(format!("the rendering of {k} shows the flags {v:?}; the bits that are set stand for a different set ({d:?} differ)"));
        }
        *n += v.len() as u64;
    }
    Ok(())
}

// ------------------------------------------------------------ several lines

/// A rendering without its layout: no blanks and no comma before a closing
/// bracket, but for those in strings, and no zeros to fill hexadecimal numbers.
fn squash(s: &str) -> String {
    let (mut o, mut quote, mut esc) = (String::with_capacity(s.len()), false, false);
    for c in s.chars() {
        if quote {
            quote = esc || c != '"';
            esc = !esc && c == '\\';
        } else {
            if c.is_whitespace() {
                continue;
            }
            quote = c == '"';
            if matches!(c, ')' | ']' | '}') && o.ends_with(',') {
                o.pop();
            }
            if c.is_ascii_hexdigit() && o.ends_with("0x0") {
                o.pop();
            }
        }
        o.push(c);
    }
    o
}

/// `{:#?}` says what `{:?}` says.
fn layout_only(flat: &str, pretty: &str) -> Res {
    let (a, b) = (squash(flat), squash(pretty));
    if a != b {
        let at = a.bytes().zip(b.bytes()).take_while(|x| x.0 == x.1).count().saturating_sub(60);
        let cut = |s: &str| s.chars().skip(at).take(160).collect::<String>();
        return Err(format!("rendered over several lines it says ...{:?}..., on one line ...{:?}...", cut(&b), cut(&a)));
    }
    Ok(())
}

// ------------------------------------------------------------ the whole handle

const HANDLE: [(&str, &str); 33] = [
    ("vendor_info", "get_vendor_info"),
    ("feature_info", "get_feature_info"),
    ("cache_info", "get_cache_info"),
    ("processor_serial", "get_processor_serial"),
    ("cache_parameters", "get_cache_parameters"),
    ("monitor_mwait_info", "get_monitor_mwait_info"),
    ("thermal_power_info", "get_thermal_power_info"),
    ("extended_feature_info", "get_extended_feature_info"),
    ("direct_cache_access_info", "get_direct_cache_access_info"),
    ("performance_monitoring_info", "get_performance_monitoring_info"),
    ("extended_topology_info", "get_extended_topology_info"),
    ("extended_state_info", "get_extended_state_info"),
    ("rdt_monitoring_info", "get_rdt_monitoring_info"),
    ("rdt_allocation_info", "get_rdt_allocation_info"),
    ("sgx_info", "get_sgx_info"),
    ("processor_trace_info", "get_processor_trace_info"),
    ("tsc_info", "get_tsc_info"),
    ("processor_frequency_info", "get_processor_frequency_info"),
    ("deterministic_address_translation_info", "get_deterministic_address_translation_info"),
    ("soc_vendor_info", "get_soc_vendor_info"),
    ("hypervisor_info", "get_hypervisor_info"),
    ("extended_processor_and_feature_identifiers", "get_extended_processor_and_feature_identifiers"),
    ("processor_brand_string", "get_processor_brand_string"),
    ("l1_cache_and_tlb_info", "get_l1_cache_and_tlb_info"),
    ("l2_l3_cache_and_tlb_info", "get_l2_l3_cache_and_tlb_info"),
    ("advanced_power_mgmt_info", "get_advanced_power_mgmt_info"),
    ("processor_capacity_feature_info", "get_processor_capacity_feature_info"),
    ("svm_info", "get_svm_info"),
    ("tlb_1gb_page_info", "get_tlb_1gb_page_info"),
    ("performance_optimization_info", "get_performance_optimization_info"),
    ("processor_topology_info", "get_processor_topology_info"),
    ("memory_encryption_info", "get_memory_encryption_info"),
    ("vendor", ""),
];

fn handle_says(t: &Table, ctx: &mut Ctx) -> Res {
    let c = cpu(t);
    let text = format!("{c:?}");
    layout_only(&text, &format!("{c:#?}"))?;
    let have = fields_of(&text).ok_or("cannot read the rendering of the handle")?;
    let ven = match M::new(t).v {
        Ven::Intel => "Intel",
        Ven::Amd => "Amd",
        Ven::Other => "Unknown",
    };
    for (label, get) in HANDLE {
        let Some((_, v)) = have.iter().find(|h| h.0 == label) else {
            return Err(format!("the rendering of the handle has no {label}"));
        };
        if get.is_empty() {
            if !v.starts_with(ven) {
                return Err(format!("the rendering of the handle says vendor {v} on {ven}"));
            }
        } else {
            let g = &GROUPS[group(get)];
            let w = (g.dbg)(&c);
            if *v != w {
                let cut = |s: &str| s.chars().take(100).collect::<String>();
                return Err(format!("the rendering of the handle says {label}: {:?}, {get}() renders as {:?}", cut(v), cut(&w)));
            }
            if (*v == "None") == (g.avail)(&c) {
                return Err(format!("the rendering of the handle says {label}: {v:.20}, available is {}", (g.avail)(&c)));
            }
        }
        ctx.transitions += 1;
    }
    layout_only(&nested_text(t, false), &nested_text(t, true))?;
    ctx.traces += 1;
    ctx.outcome(crate::leaf2::norm(&text));
    Ok(())
}

// ------------------------------------------------------------ iterators

/// Rendering an iterator after `k` steps lists what is left.
fn left<I: Iterator + Clone + Debug>(mut it: I, k: usize, name: &str, n: &mut u64) -> Res
where
    I::Item: Debug,
{
    for _ in 0..k {
        if it.next().is_none() {
            return Ok(());
        }
    }
    let text = format!("{it:?}");
    let mut rest = vec![];
    let mut c = it.clone();
    while let Some(x) = c.next() {
        rest.push(format!("{x:?}"));
    }
    let want = format!("[{}]", rest.join(", "));
    if text != want {
        let l = list_of(&text).map_or(0, |l| l.len());
        return Err(format!("{name}: after {k} items the rendering lists {l} items ({text:.200}), {} are left", rest.len()));
    }
    layout_only(&text, &format!("{it:#?}")).map_err(|e| format!("{name}, after {k} items: {e}"))?;
    // Other format parameters affect how a value is written, not what is listed.
    for other in [format!("{it:x?}"), format!("{it:.1?}"), format!("{it:3?}"), format!("{it:<9?}")] {
        let l = list_of(&other).map_or(0, |l| l.len());
        if l != rest.len() {
            return Err(format!("{name}: after {k} items a rendering with format parameters lists {l} items, {} are left", rest.len()));
        }
    }
    // Rendering it did not advance it.
    let mut again = vec![];
    while let Some(x) = it.next() {
        again.push(format!("{x:?}"));
    }
    if again != rest {
        return Err(format!("{name}: rendering the iterator changed what it yields"));
    }
    *n += 1 + rest.len() as u64;
    Ok(())
}

// ------------------------------------------------------------ Display

fn named<T: std::fmt::Display + Debug>(kinds: Vec<(T, &[&str])>, n: &mut u64) -> Res {
    let texts: Vec<String> = kinds.iter().map(|k| format!("{}", k.0)).collect();
    for (i, (k, needles)) in kinds.iter().enumerate() {
        let low = texts[i].to_ascii_lowercase();
        if !needles.iter().any(|x| low.contains(x)) {
            return Err(format!("{k:?} displays as {:?}", texts[i]));
        }
        for j in 0..i {
            if texts[i] == texts[j] {
                return Err(format!("{:?} and {k:?} both display as {:?}", kinds[j].0, texts[i]));
            }
        }
        *n += 1;
    }
    Ok(())
}

fn displays(n: &mut u64) -> Res {
    named(
        vec![
            (CacheType::Null, &["null", "none", "no cache"][..]),
            (CacheType::Data, &["data"]),
            (CacheType::Instruction, &["instruction"]),
            (CacheType::Unified, &["unified"]),
            (CacheType::Reserved, &["reserved"]),
        ],
        n,
    )?;
    named(
        vec![
            (TopologyType::Invalid, &["invalid"][..]),
            (TopologyType::SMT, &["smt", "thread"]),
            (TopologyType::Core, &["core"]),
            (TopologyType::Module, &["module"]),
            (TopologyType::Tile, &["tile"]),
            (TopologyType::Die, &["die"]),
        ],
        n,
    )?;
    named(
        vec![
            (DatType::Null, &["invalid", "null"][..]),
            (DatType::DataTLB, &["data"]),
            (DatType::InstructionTLB, &["instruction"]),
            (DatType::UnifiedTLB, &["unified"]),
            (DatType::LoadOnly, &["load"]),
            (DatType::StoreOnly, &["store"]),
            (DatType::Unknown, &["unknown"]),
        ],
        n,
    )?;
    named(vec![(ExtendedRegisterStateLocation::Xcr0, &["xcr0"][..]), (ExtendedRegisterStateLocation::Ia32Xss, &["xss"])], n)?;
    let mut v: Vec<(ExtendedRegisterType, &[&str])> = vec![
        (2.into(), &["avx"]),
        (3.into(), &["bndregs"]),
        (4.into(), &["bndcsr"]),
        (5.into(), &["opmask"]),
        (6.into(), &["zmm_hi256", "zmm hi256"]),
        (7.into(), &["hi16"]),
        (8.into(), &["pt", "trace"]),
        (9.into(), &["pkru"]),
        (13.into(), &["hdc"]),
    ];
    for k in [10u32, 11, 12, 14, 17, 18, 31, 63] {
        v.push((k.into(), match k {
            10 => &["10"],
            11 => &["11"],
            12 => &["12"],
            14 => &["14"],
            17 => &["17"],
            18 => &["18"],
            31 => &["31"],
            _ => &["63"],
        }));
    }
    named(v, n)?;
    let lv: Vec<String> = (0..=255u8).map(|i| i.to_string()).collect();
    let lr: Vec<[&str; 1]> = lv.iter().map(|s| [s.as_str()]).collect();
    let mut v: Vec<(HierarchyLevelType, &[&str])> =
        vec![(0.into(), &["reserved"]), (1.into(), &["core"]), (2.into(), &["complex"]), (3.into(), &["die"]), (4.into(), &["socket"])];
    for i in 5..=255u8 {
        v.push((i.into(), &lr[i as usize]));
    }
    named(v, n)?;
    let mut v: Vec<(Associativity, &[&str])> =
        vec![(Associativity::Disabled, &["disabled"]), (Associativity::DirectMapped, &["direct"]), (Associativity::FullyAssociative, &["full"]), (Associativity::Unknown, &["unknown"])];
    for i in 2..=254u8 {
        v.push((Associativity::NWay(i), &lr[i as usize]));
    }
    named(v, n)?;
    Ok(())
}

/// Every Display of everything the CPU reports (used by C03 too).
pub fn display_all(t: &dyn Src) -> usize {
    display_text(t).len()
}

pub fn display_text(t: &dyn Src) -> String {
    nested_text(t, false)
}

fn nested_text(t: &dyn Src, pretty: bool) -> String {
    let c = cpu(t);
    let mut s = String::new();
    use std::fmt::Write;
    // Values with a Display also have a Debug.
    macro_rules! p { ($x:expr) => { let x = $x; let _ = if pretty { write!(s, "{x}{x:#?}") } else { write!(s, "{x}{x:?}") }; } }
    macro_rules! d { ($x:expr) => { let x = $x; let _ = if pretty { write!(s, "{x:#?}") } else { write!(s, "{x:?}") }; } }
    if let Some(x) = c.get_vendor_info() {
        p!(x);
    }
    if let Some(x) = c.get_cache_info() {
        for i in x {
            d!(i.typ);
            p!(i);
        }
    }
    if let Some(x) = c.get_cache_parameters() {
        for i in x.take(LIM as usize) {
            p!(i.cache_type());
        }
    }
    for x in [c.get_extended_topology_info(), c.get_extended_topology_info_v2()].into_iter().flatten() {
        for i in x.take(LIM as usize) {
            p!(i.level_type());
        }
    }
    if let Some(x) = c.get_extended_state_info() {
        for i in x.iter() {
            p!(i.register());
            p!(i.location());
        }
    }
    if let Some(x) = c.get_sgx_info() {
        for SgxSectionInfo::Epc(i) in x.iter().take(LIM as usize) {
            d!(i);
        }
    }
    if let Some(x) = c.get_hypervisor_info() {
        d!(x.identify());
    }
    if let Some(x) = c.get_rdt_monitoring_info() {
        d!(x.l3_monitoring());
    }
    if let Some(x) = c.get_rdt_allocation_info() {
        d!(x.l3_cat());
        d!(x.l2_cat());
        d!(x.memory_bandwidth_allocation());
    }
    if let Some(x) = c.get_deterministic_address_translation_info() {
        for i in x.take(LIM as usize) {
            p!(i.cache_type());
        }
    }
    if let Some(x) = c.get_soc_vendor_info() {
        if let Some(b) = x.get_vendor_brand() {
            p!(b);
        }
        if let Some(i) = x.get_vendor_attributes() {
            d!(i);
        }
    }
    if let Some(x) = c.get_l1_cache_and_tlb_info() {
        p!(x.dcache_associativity());
        p!(x.icache_associativity());
        p!(x.dtlb_4k_associativity());
        p!(x.itlb_4k_associativity());
        p!(x.dtlb_2m_4m_associativity());
        p!(x.itlb_2m_4m_associativity());
    }
    if let Some(x) = c.get_l2_l3_cache_and_tlb_info() {
        p!(x.l2cache_associativity());
        p!(x.l3cache_associativity());
        p!(x.itlb_4k_associativity());
        p!(x.dtlb_4k_associativity());
        p!(x.itlb_2m_4m_associativity());
        p!(x.dtlb_2m_4m_associativity());
    }
    if let Some(x) = c.get_tlb_1gb_page_info() {
        p!(x.itlb_l1_1gb_associativity());
        p!(x.dtlb_l1_1gb_associativity());
        p!(x.itlb_l2_1gb_associativity());
        p!(x.dtlb_l2_1gb_associativity());
    }
    if let Some(x) = c.get_pqos_extended_feature_info() {
        d!(x.get_l3_memory_bandwidth_enforcement_info());
        d!(x.get_l3_slow_memory_bandwidth_enforcement_info());
        d!(x.get_bandwidth_monitoring_event_counters_info());
        d!(x.get_assignable_bandwidth_monitoring_counters_info());
    }
    if let Some(x) = c.get_extended_cpu_topology() {
        for i in x.take(LIM as usize) {
            p!(i.level_type());
            d!(i);
        }
    }
    s
}

pub fn c22(thorough: bool) -> Vec<Space> {
    let mut v = vec![];
    v.push(idx("Display of every kind of every enumerated type", 1, |_, ctx| {
        let mut n = 0;
        displays(&mut n)?;
        ctx.transitions += n;
        ctx.traces += 1;
        Ok(())
    }));
    // Leaf 2 items: every documented byte.
    v.push(idx("Display and Debug of the item of every leaf 2 descriptor byte", 256, |i, ctx| {
        let t = open_base(INTEL).with(2, 0, r4(0, i as u32, 0, 0));
        ctx.describe(|| format!("descriptor {i:#x}"));
        let c = cpu(&t);
        for x in c.get_cache_info().unwrap() {
            let (d, g) = (format!("{x}"), format!("{x:?}"));
            if !d.contains(x.desc()) || !d.to_ascii_lowercase().contains(&format!("{:x}", x.num)) {
                return Err(format!("descriptor {:#x} displays as {d:?}", x.num));
            }
            let mut n = 0;
            must_say(&g, &info_want(&x), &mut n)?;
            let word = match x.typ {
                CacheInfoType::General => "n/a",
                CacheInfoType::Cache => "cache",
                CacheInfoType::TLB | CacheInfoType::STLB | CacheInfoType::DTLB => "tlb",
                CacheInfoType::Prefetch => "prefetch",
            };
            let head = d.strip_suffix(x.desc()).unwrap_or(&d).to_ascii_lowercase();
            if !head.contains(word) {
                return Err(format!("descriptor {:#x} displays its kind as {head:?}", x.num));
            }
            ctx.transitions += n + 3;
            ctx.outcome(crate::leaf2::norm(&d));
        }
        ctx.traces += 1;
        Ok(())
    }));
    for (gi, g) in GROUPS.iter().enumerate() {
        let words = g.words.to_vec();
        let nb = words.len() as u64 * 128;
        let k = if thorough && nb <= 384 { 2 } else { 1 };
        let per = nsets(nb, k);
        v.push(idx(format!("{}: rendering with <={k} flipped bits of {nb} over 5 backgrounds x 2 vendors", g.name), per * 10, move |i, ctx| {
            let g = &GROUPS[gi];
            let key = i / per;
            let ven = key as usize % 2;
            let mut t = match ctx.table.take() {
                Some((k, t)) if k == key => t,
                _ => {
                    let mut t = open_base(VENDORS[ven]);
                    fill(&mut t, g, BACKGROUNDS[key as usize / 2]);
                    t
                }
            };
            t.reset_budget();
            let set = unrank(i % per, nb, k);
            let flip = |t: &mut Table| {
                for &p in &set {
                    let (l, s) = words[(p / 128) as usize];
                    let reg = (p / 32 % 4) as usize;
                    *t.at(l, s).reg_mut(reg) ^= (1 << (p % 32)) & mask(l, s, reg);
                }
            };
            flip(&mut t);
            ctx.describe(|| format!("{} {}", VENDOR_NAMES[ven], env_desc(&t, &words)));
            let mut n = 0;
            says(g, &t, &mut n).map_err(|e| format!("{}: {e}", g.name))?;
            flags_say(gi, ven, &t, &mut n).map_err(|e| format!("{}: {e}", g.name))?;
            if i % per == 0 {
                names_agree(gi, ven, &mut n).map_err(|e| format!("{}: {e}", g.name))?;
            }
            ctx.transitions += n;
            ctx.traces += 1;
            if ctx.count_outcome {
                ctx.outcome(crate::leaf2::norm(&(g.dbg)(&cpu(&t))));
            }
            flip(&mut t);
            ctx.table = Some((key, t));
            Ok(())
        }));
    }
    let maxb: Vec<u32> = (0..=0x20).collect();
    let maxe: Vec<u32> = (0x8000_0000..=0x8000_0026).chain([0, 0x7fff_ffff]).collect();
    let fills = if thorough { FILLS } else { 1 };
    let n = 4 * maxb.len() * maxe.len() * 8 * fills;
    v.push(idx(format!("the whole handle: 4 vendors x {} basic maxima x {} extended maxima x 8 gate patterns x {fills} contents", maxb.len(), maxe.len()), n as u64, move |i, ctx| {
        let mut k = i as usize;
        let mut take = |n: usize| {
            let r = k % n;
            k /= n;
            r
        };
        let (b, e, g, ven, fl) = (take(maxb.len()), take(maxe.len()), take(8), take(4), take(fills));
        let mut r = Rich::open(VENDORS[ven]);
        (r.maxb, r.maxe, r.fill) = (maxb[b], maxe[e], if fills == 1 { 5 } else { fl });
        (r.sgx, r.hyp, r.svm) = (g & 1 == 1, g & 2 == 2, g & 4 == 4);
        r.depth = (i % 4) as u32;
        let key = ((fl * 4 + ven) * 8 + g) as u64;
        let mut t = match ctx.table.take() {
            Some((k, t)) if k == key => t,
            _ => r.build(),
        };
        t.reset_budget();
        t.at(0, 0).a = r.maxb;
        t.at(0x8000_0000, 0).a = r.maxe;
        ctx.describe(|| format!("{r:x?}"));
        let res = handle_says(&t, ctx);
        ctx.table = Some((key, t));
        res
    }));
    v.push(idx("rendering of every iterator after 0..6 items, enumerations of 0..5 items, 2 vendors, 7 contents, 4 count shapes", 7 * 6 * 2 * 7 * 4, |i, ctx| {
        let (k, depth, ven, fl, su) = ((i % 7) as usize, (i / 7 % 6) as u32, (i / 42 % 2) as usize, (i / 84 % 7) as usize, (i / 588) as usize);
        let mut r = Rich::open(VENDORS[ven]);
        (r.depth, r.fill, r.subs) = (depth, fl, su);
        let t = r.build();
        ctx.describe(|| format!("{r:x?}, {k} items taken"));
        let c = cpu(&t);
        let mut n = 0;
        if let Some(x) = c.get_cache_info() {
            let mut x = x;
            for _ in 0..k {
                x.next();
            }
            let text = format!("{x:?}");
            let pretty = format!("{x:#?}");
            let rest: Vec<String> = x.map(|y| format!("{y:?}")).collect();
            if text != format!("[{}]", rest.join(", ")) {
                return Err(format!("get_cache_info: after {k} items the rendering is {text:.200}, {} are left", rest.len()));
            }
            layout_only(&text, &pretty).map_err(|e| format!("get_cache_info, after {k} items: {e}"))?;
            n += 1 + rest.len() as u64;
        }
        if let Some(x) = c.get_cache_parameters() {
            left(x, k, "get_cache_parameters", &mut n)?;
        }
        if let Some(x) = c.get_extended_topology_info() {
            left(x, k, "get_extended_topology_info", &mut n)?;
        }
        if let Some(x) = c.get_extended_topology_info_v2() {
            left(x, k, "get_extended_topology_info_v2", &mut n)?;
        }
        if let Some(x) = c.get_extended_state_info() {
            left(x.iter(), k, "extended state", &mut n)?;
        }
        if let Some(x) = c.get_sgx_info() {
            left(x.iter(), k, "EPC sections", &mut n)?;
        }
        if let Some(x) = c.get_deterministic_address_translation_info() {
            left(x, k, "get_deterministic_address_translation_info", &mut n)?;
        }
        ctx.transitions += n;
        ctx.traces += 1;
        Ok(())
    }));
    // Long enumerations: the architecture does not bound them.
    let lens: Vec<u32> = if thorough { (0..400).collect() } else { (0..72).chain([100, 127, 128, 129, 255, 256, 257, 300]).collect() };
    let nl = lens.len() as u64;
    v.push(idx(format!("rendering of every iterator over {nl} lengths up to {} items, after 0, 1 and all but one items, 4 vendors x 3 contents", lens[nl as usize - 1]), nl * 3 * 12, move |i, ctx| {
        let (len, take, ven, key) = (lens[(i % nl) as usize], i / nl % 3, (i / nl / 3 % 4) as usize, i / nl / 12);
        let t = open_base(VENDORS[ven]);
        t.budget.set(1 << 24);
        let l = Long { inner: &t, len, key };
        let k = [0, 1, (len as usize).saturating_sub(1)][take as usize];
        ctx.describe(|| format!("{}, {len} items in every enumeration, {k} taken, contents {key}", VENDOR_NAMES[ven]));
        let c = cpu(&l);
        let mut n = 0;
        if let Some(x) = c.get_cache_parameters() {
            left(x, k, "get_cache_parameters", &mut n)?;
        }
        if let Some(x) = c.get_extended_topology_info() {
            left(x, k, "get_extended_topology_info", &mut n)?;
        }
        if let Some(x) = c.get_extended_topology_info_v2() {
            left(x, k, "get_extended_topology_info_v2", &mut n)?;
        }
        if let Some(x) = c.get_extended_state_info() {
            left(x.iter(), k.min(60), "extended state", &mut n)?;
        }
        if let Some(x) = c.get_sgx_info() {
            left(x.iter(), k, "EPC sections", &mut n)?;
        }
        if let Some(x) = c.get_deterministic_address_translation_info() {
            left(x, k, "get_deterministic_address_translation_info", &mut n)?;
        }
        ctx.transitions += n;
        ctx.outcome(mix(len as u64, n));
        ctx.traces += 1;
        Ok(())
    }));
    v
}

/// A CPU whose enumerations have `len` entries each.
struct Long<'a> {
    inner: &'a Table,
    len: u32,
    key: u64,
}
impl Src for Long<'_> {
    fn get(&self, leaf: u32, sub: u32) -> R4 {
        let r = self.inner.get(leaf, sub);
        let mut x = scrambled(77 + self.key, leaf, sub);
        let on = |first: u32| sub >= first && sub - first < self.len;
        match leaf {
            4 | 0x8000_001D => x.a = x.a & !0x1f | if on(0) { 1 + sub % 3 } else { 0 },
            0xB | 0x1F | 0x8000_0026 => x.c = x.c & !0xff00 | if on(0) { 1 + sub % 4 } else { 0 } << 8,
            0x12 if sub >= 2 => x.a = x.a & !0xf | on(2) as u32,
            0x18 => {
                if sub == 0 {
                    x.a = self.len.saturating_sub(1);
                }
                // Some in between are invalid.
                x.d = x.d & !0x1f | if self.len > 0 && sub % 7 != 6 { 1 + sub % 5 } else { 0 };
            }
            0xD => {
                if sub == 0 {
                    x.a = [XCR0_DEFINED, 7, !0][self.key as usize];
                    x.d = [0, 0, 0x7fff_ffff][self.key as usize];
                }
                if sub == 1 {
                    x.c = [XSS_DEFINED, 0x100, 0][self.key as usize];
                    x.d = 0;
                }
            }
            _ => return r,
        }
        x
    }
    fn tick(&self) {
        self.inner.tick()
    }
}
