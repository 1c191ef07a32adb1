//! The reference model and the observation of the real library, side by side.
//!
//! Every group describes one public query: `obs` calls the library's accessors,
//! `spec` computes the same values from the raw CPUID registers with the bit
//! positions of the Intel SDM / AMD APM. The tables below were written from the
//! manuals and are not derived from the code under test at run time.
use crate::env::*;
use crate::out::*;
use raw_cpuid::*;

macro_rules! acc {
    ($name:ident, $ty:ty, ($($arg:ident : $aty:ty),*), { $($p:tt $m:ident = $e:expr;)* }) => {
        pub mod $name {
            #[allow(unused_imports)]
            use super::*;
            pub fn obs(x: &$ty, o: &mut Out) {
                $( o.put(concat!(stringify!($name), ".", stringify!($m)), $p, x.$m().z()); )*
            }
            #[allow(unused_variables, clippy::too_many_arguments)]
            pub fn spec($($arg: $aty,)* o: &mut Out) {
                $( o.put(concat!(stringify!($name), ".", stringify!($m)), $p, ($e).z()); )*
            }
        }
    };
}

fn bit(w: u32, i: u32) -> bool {
    (w >> i) & 1 == 1
}
/// Bits `hi..=lo` of `w`.
fn f(w: u32, hi: u32, lo: u32) -> u64 {
    ((w as u64) >> lo) & ((1u64 << (hi - lo + 1)) - 1)
}

acc!(feature, FeatureInfo, (a: u32, b: u32, c: u32, d: u32), {
    C06 has_sse3 = bit(c, 0);
    C06 has_pclmulqdq = bit(c, 1);
    C06 has_ds_area = bit(c, 2);
    C06 has_monitor_mwait = bit(c, 3);
    C06 has_cpl = bit(c, 4);
    C06 has_vmx = bit(c, 5);
    C06 has_smx = bit(c, 6);
    C06 has_eist = bit(c, 7);
    C06 has_tm2 = bit(c, 8);
    C06 has_ssse3 = bit(c, 9);
    C06 has_cnxtid = bit(c, 10);
    C06 has_fma = bit(c, 12);
    C06 has_cmpxchg16b = bit(c, 13);
    C06 has_pdcm = bit(c, 15);
    C06 has_pcid = bit(c, 17);
    C06 has_dca = bit(c, 18);
    C06 has_sse41 = bit(c, 19);
    C06 has_sse42 = bit(c, 20);
    C06 has_x2apic = bit(c, 21);
    C06 has_movbe = bit(c, 22);
    C06 has_popcnt = bit(c, 23);
    C06 has_tsc_deadline = bit(c, 24);
    C06 has_aesni = bit(c, 25);
    C06 has_xsave = bit(c, 26);
    C06 has_oxsave = bit(c, 27);
    C06 has_avx = bit(c, 28);
    C06 has_f16c = bit(c, 29);
    C06 has_rdrand = bit(c, 30);
    C06 has_hypervisor = bit(c, 31);
    C06 has_fpu = bit(d, 0);
    C06 has_vme = bit(d, 1);
    C06 has_de = bit(d, 2);
    C06 has_pse = bit(d, 3);
    C06 has_tsc = bit(d, 4);
    C06 has_msr = bit(d, 5);
    C06 has_pae = bit(d, 6);
    C06 has_mce = bit(d, 7);
    C06 has_cmpxchg8b = bit(d, 8);
    C06 has_apic = bit(d, 9);
    C06 has_sysenter_sysexit = bit(d, 11);
    C06 has_mtrr = bit(d, 12);
    C06 has_pge = bit(d, 13);
    C06 has_mca = bit(d, 14);
    C06 has_cmov = bit(d, 15);
    C06 has_pat = bit(d, 16);
    C06 has_pse36 = bit(d, 17);
    C06 has_psn = bit(d, 18);
    C06 has_clflush = bit(d, 19);
    C06 has_ds = bit(d, 21);
    C06 has_acpi = bit(d, 22);
    C06 has_mmx = bit(d, 23);
    C06 has_fxsave_fxstor = bit(d, 24);
    C06 has_sse = bit(d, 25);
    C06 has_sse2 = bit(d, 26);
    C06 has_ss = bit(d, 27);
    C06 has_htt = bit(d, 28);
    C06 has_tm = bit(d, 29);
    C06 has_pbe = bit(d, 31);
    C08 brand_index = f(b, 7, 0);
    C08 cflush_cache_line_size = f(b, 15, 8);
    C08 max_logical_processor_ids = f(b, 23, 16);
    C08 initial_local_apic_id = f(b, 31, 24);
    C10 stepping_id = f(a, 3, 0);
    C10 base_model_id = f(a, 7, 4);
    C10 base_family_id = f(a, 11, 8);
    C10 extended_model_id = f(a, 19, 16);
    C10 extended_family_id = f(a, 27, 20);
});

acc!(serial, ProcessorSerial, (l1a: u32, c: u32, d: u32), {
    (C08 | C21) serial_lower = c;
    (C08 | C21) serial_middle = d;
    (C08 | C21) serial_upper = l1a;
    C21 serial = (c as u64) + ((d as u64) << 32);
    C21 serial_all = (c as u128) + ((d as u128) << 32) + ((l1a as u128) << 64);
});

acc!(mwait, MonitorMwaitInfo, (a: u32, b: u32, c: u32, d: u32), {
    C08 smallest_monitor_line = f(a, 15, 0);
    C08 largest_monitor_line = f(b, 15, 0);
    C06 extensions_supported = bit(c, 0);
    C06 interrupts_as_break_event = bit(c, 1);
    C08 supported_c0_states = f(d, 3, 0);
    C08 supported_c1_states = f(d, 7, 4);
    C08 supported_c2_states = f(d, 11, 8);
    C08 supported_c3_states = f(d, 15, 12);
    C08 supported_c4_states = f(d, 19, 16);
    C08 supported_c5_states = f(d, 23, 20);
    C08 supported_c6_states = f(d, 27, 24);
    C08 supported_c7_states = f(d, 31, 28);
});

acc!(thermal, ThermalPowerInfo, (a: u32, b: u32, c: u32, d: u32), {
    C06 has_dts = bit(a, 0);
    C06 has_turbo_boost = bit(a, 1);
    C06 has_arat = bit(a, 2);
    C06 has_pln = bit(a, 4);
    C06 has_ecmd = bit(a, 5);
    C06 has_ptm = bit(a, 6);
    C06 has_hwp = bit(a, 7);
    C06 has_hwp_notification = bit(a, 8);
    C06 has_hwp_activity_window = bit(a, 9);
    C06 has_hwp_energy_performance_preference = bit(a, 10);
    C06 has_hwp_package_level_request = bit(a, 11);
    C06 has_hdc = bit(a, 13);
    C06 has_turbo_boost3 = bit(a, 14);
    C06 has_hwp_capabilities = bit(a, 15);
    C06 has_hwp_peci_override = bit(a, 16);
    C06 has_flexible_hwp = bit(a, 17);
    C06 has_hwp_fast_access_mode = bit(a, 18);
    C06 has_ignore_idle_processor_hwp_request = bit(a, 20);
    C06 has_hw_coord_feedback = bit(c, 0);
    C06 has_energy_bias_pref = bit(c, 3);
    C08 dts_irq_threshold = f(b, 3, 0);
});

acc!(extfeat, ExtendedFeatures, (b: u32, c: u32, d: u32, a1: u32, d1: u32), {
    C06 has_fsgsbase = bit(b, 0);
    C06 has_tsc_adjust_msr = bit(b, 1);
    C06 has_bmi1 = bit(b, 3);
    C06 has_hle = bit(b, 4);
    C06 has_avx2 = bit(b, 5);
    C06 has_fdp = bit(b, 6);
    C06 has_smep = bit(b, 7);
    C06 has_bmi2 = bit(b, 8);
    C06 has_rep_movsb_stosb = bit(b, 9);
    C06 has_invpcid = bit(b, 10);
    C06 has_rtm = bit(b, 11);
    C06 has_rdtm = bit(b, 12);
    C06 has_fpu_cs_ds_deprecated = bit(b, 13);
    C06 has_mpx = bit(b, 14);
    C06 has_rdta = bit(b, 15);
    C06 has_rdseed = bit(b, 18);
    C06 has_adx = bit(b, 19);
    C06 has_smap = bit(b, 20);
    C06 has_clflushopt = bit(b, 23);
    C06 has_processor_trace = bit(b, 25);
    C06 has_sha = bit(b, 29);
    C06 has_sgx = bit(b, 2);
    C06 has_avx512f = bit(b, 16);
    C06 has_avx512dq = bit(b, 17);
    C06 has_avx512_ifma = bit(b, 21);
    C06 has_avx512pf = bit(b, 26);
    C06 has_avx512er = bit(b, 27);
    C06 has_avx512cd = bit(b, 28);
    C06 has_avx512bw = bit(b, 30);
    C06 has_avx512vl = bit(b, 31);
    C06 has_clwb = bit(b, 24);
    C06 has_prefetchwt1 = bit(c, 0);
    C06 has_avx512vbmi = bit(c, 1);
    C06 has_umip = bit(c, 2);
    C06 has_pku = bit(c, 3);
    C06 has_ospke = bit(c, 4);
    C06 has_waitpkg = bit(c, 5);
    C06 has_av512vbmi2 = bit(c, 6);
    C06 has_avx512vbmi2 = bit(c, 6);
    C06 has_cet_ss = bit(c, 7);
    C06 has_gfni = bit(c, 8);
    C06 has_vaes = bit(c, 9);
    C06 has_vpclmulqdq = bit(c, 10);
    C06 has_avx512vnni = bit(c, 11);
    C06 has_avx512bitalg = bit(c, 12);
    C06 has_tme_en = bit(c, 13);
    C06 has_avx512vpopcntdq = bit(c, 14);
    C06 has_la57 = bit(c, 16);
    C06 has_rdpid = bit(c, 22);
    C06 has_sgx_lc = bit(c, 30);
    C06 has_avx512_4vnniw = bit(d, 2);
    C06 has_avx512_4fmaps = bit(d, 3);
    C06 has_avx512_vp2intersect = bit(d, 8);
    C06 has_amx_bf16 = bit(d, 22);
    C06 has_avx512_fp16 = bit(d, 23);
    C06 has_amx_tile = bit(d, 24);
    C06 has_amx_int8 = bit(d, 25);
    C06 has_avx_vnni = bit(a1, 4);
    C06 has_avx512_bf16 = bit(a1, 5);
    C06 has_fzrm = bit(a1, 10);
    C06 has_fsrs = bit(a1, 11);
    C06 has_fsrcrs = bit(a1, 12);
    C06 has_hreset = bit(a1, 22);
    C06 has_avx_ifma = bit(a1, 23);
    C06 has_lam = bit(a1, 26);
    C06 has_msrlist = bit(a1, 27);
    C06 has_invd_disable_post_bios_done = bit(a1, 30);
    C06 has_avx_vnni_int8 = bit(d1, 4);
    C06 has_avx_ne_convert = bit(d1, 5);
    C06 has_avx_vnni_int16 = bit(d1, 10);
    C06 has_prefetchi = bit(d1, 14);
    C06 has_uiret_uif = bit(d1, 17);
    C06 has_cet_sss = bit(d1, 18);
    C06 has_avx10 = bit(d1, 19);
    C08 mawau_value = f(c, 21, 17);
});

acc!(dca, DirectCacheAccessInfo, (a: u32, b: u32, c: u32, d: u32), {
    C08 get_dca_cap_value = a;
});

acc!(perfmon, PerformanceMonitoringInfo, (a: u32, b: u32, c: u32, d: u32), {
    C06 is_core_cyc_ev_unavailable = bit(b, 0);
    C06 is_inst_ret_ev_unavailable = bit(b, 1);
    C06 is_ref_cycle_ev_unavailable = bit(b, 2);
    C06 is_cache_ref_ev_unavailable = bit(b, 3);
    C06 is_ll_cache_miss_ev_unavailable = bit(b, 4);
    C06 is_branch_inst_ret_ev_unavailable = bit(b, 5);
    C06 is_branch_midpred_ev_unavailable = bit(b, 6);
    C06 has_any_thread_deprecation = bit(d, 15);
    C08 version_id = f(a, 7, 0);
    C08 number_of_counters = f(a, 15, 8);
    C08 counter_bit_width = f(a, 23, 16);
    C08 ebx_length = f(a, 31, 24);
    C08 fixed_function_counters = f(d, 4, 0);
    C08 fixed_function_counters_bit_width = f(d, 12, 5);
});

acc!(xstate, ExtendedStateInfo<Rd>, (a: u32, b: u32, c: u32, a1: u32, b1: u32, c1: u32), {
    (C06 | C14) xcr0_supports_legacy_x87 = bit(a, 0);
    (C06 | C14) xcr0_supports_sse_128 = bit(a, 1);
    (C06 | C14) xcr0_supports_avx_256 = bit(a, 2);
    (C06 | C14) xcr0_supports_mpx_bndregs = bit(a, 3);
    (C06 | C14) xcr0_supports_mpx_bndcsr = bit(a, 4);
    (C06 | C14) xcr0_supports_avx512_opmask = bit(a, 5);
    (C06 | C14) xcr0_supports_avx512_zmm_hi256 = bit(a, 6);
    (C06 | C14) xcr0_supports_avx512_zmm_hi16 = bit(a, 7);
    (C06 | C14) xcr0_supports_pkru = bit(a, 9);
    (C06 | C14) ia32_xss_supports_pt = bit(c1, 8);
    (C06 | C14) ia32_xss_supports_hdc = bit(c1, 13);
    (C06 | C14) has_xsaveopt = bit(a1, 0);
    (C06 | C14) has_xsavec = bit(a1, 1);
    (C06 | C14) has_xgetbv = bit(a1, 2);
    (C06 | C14) has_xsaves_xrstors = bit(a1, 3);
    (C08 | C14) xsave_area_size_enabled_features = b;
    (C08 | C14) xsave_area_size_supported_features = c;
    (C08 | C14) xsave_size = b1;
});

acc!(xstate_item, ExtendedState, (n: u32, a: u32, b: u32, c: u32), {
    (C14 | C21) register = spec_register(n);
    C14 size = a;
    C14 offset = b;
    C14 location = bit(c, 0);
    C14 is_in_ia32_xss = bit(c, 0);
    C14 is_in_xcr0 = !bit(c, 0);
    C14 is_compacted_format = bit(c, 1);
});

acc!(rdt_mon, RdtMonitoringInfo<Rd>, (a: u32, b: u32, c: u32, d: u32), {
    (C06 | C18) has_l3_monitoring = bit(d, 1);
    (C08 | C18) rmid_range = b;
});

acc!(rdt_l3mon, L3MonitoringInfo, (a: u32, b: u32, c: u32, d: u32), {
    (C06 | C18) has_occupancy_monitoring = bit(d, 0);
    (C06 | C18) has_total_bandwidth_monitoring = bit(d, 1);
    (C06 | C18) has_local_bandwidth_monitoring = bit(d, 2);
    (C08 | C18) conversion_factor = b;
    (C08 | C18) maximum_rmid_range = c;
});

acc!(rdt_alloc, RdtAllocationInfo<Rd>, (a: u32, b: u32, c: u32, d: u32), {
    (C06 | C18) has_l3_cat = bit(b, 1);
    (C06 | C18) has_l2_cat = bit(b, 2);
    (C06 | C18) has_memory_bandwidth_allocation = bit(b, 3);
});

acc!(rdt_l3cat, L3CatInfo, (a: u32, b: u32, c: u32, d: u32), {
    (C06 | C18) has_code_data_prioritization = bit(c, 2);
    (C08 | C18) capacity_mask_length = f(a, 4, 0) + 1;
    (C08 | C18) isolation_bitmap = b;
    (C08 | C18) highest_cos = f(d, 15, 0);
});

acc!(rdt_l2cat, L2CatInfo, (a: u32, b: u32, c: u32, d: u32), {
    (C08 | C18) capacity_mask_length = f(a, 4, 0) + 1;
    (C08 | C18) isolation_bitmap = b;
    (C08 | C18) highest_cos = f(d, 15, 0);
});

acc!(rdt_mba, MemBwAllocationInfo, (a: u32, b: u32, c: u32, d: u32), {
    (C06 | C18) has_linear_response_delay = bit(c, 2);
    (C08 | C18) max_hba_throttling = f(a, 11, 0) + 1;
    (C08 | C18) highest_cos = f(d, 15, 0);
});

acc!(sgx, SgxInfo<Rd>, (a: u32, b: u32, d: u32, r1: R4), {
    (C06 | C15) has_sgx1 = bit(a, 0);
    (C06 | C15) has_sgx2 = bit(a, 1);
    (C06 | C15) has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext = bit(a, 5);
    (C06 | C15) has_encls_leaves_etrackc_erdinfo_eldbc_elduc = bit(a, 6);
    (C08 | C15) miscselect = b;
    (C08 | C15) max_enclave_size_non_64bit = f(d, 7, 0);
    (C08 | C15) max_enclave_size_64bit = f(d, 15, 8);
    (C08 | C15) secs_attributes = (r1.a as u64 + ((r1.b as u64) << 32), r1.c as u64 + ((r1.d as u64) << 32));
});

acc!(epc, EpcSection, (a: u32, b: u32, c: u32, d: u32), {
    (C08 | C15) physical_base = (f(a, 31, 12) << 12) + (f(b, 19, 0) << 32);
    (C08 | C15) size = (f(c, 31, 12) << 12) + (f(d, 19, 0) << 32);
});

acc!(pt, ProcessorTraceInfo, (b: u32, c: u32, r1: Option<R4>), {
    C06 has_rtit_cr3_match = bit(b, 0);
    C06 has_configurable_psb_and_cycle_accurate_mode = bit(b, 1);
    C06 has_ip_tracestop_filtering = bit(b, 2);
    C06 has_mtc_timing_packet_coefi_suppression = bit(b, 3);
    C06 has_ptwrite = bit(b, 4);
    C06 has_power_event_trace = bit(b, 5);
    C06 has_topa = bit(c, 0);
    C06 has_topa_maximum_entries = bit(c, 1);
    C06 has_single_range_output_scheme = bit(c, 2);
    C06 has_trace_transport_subsystem = bit(c, 3);
    C06 has_lip_with_cs_base = bit(c, 31);
    (C08 | C18) configurable_address_ranges = r1.map_or(0, |r| f(r.a, 2, 0));
    (C08 | C18) supported_mtc_period_encodings = r1.map_or(0, |r| f(r.a, 31, 16));
    (C08 | C18) supported_cycle_threshold_value_encodings = r1.map_or(0, |r| f(r.b, 15, 0));
    (C08 | C18) supported_psb_frequency_encodings = r1.map_or(0, |r| f(r.b, 31, 16));
});

acc!(tsc, TscInfo, (a: u32, b: u32, c: u32, d: u32), {
    C08 denominator = a;
    C08 numerator = b;
    C08 nominal_frequency = c;
    C21 tsc_frequency = if a == 0 || b == 0 || c == 0 { None } else { Some((c as u128 * b as u128 / a as u128) as u64) };
});

acc!(freq, ProcessorFrequencyInfo, (a: u32, b: u32, c: u32, d: u32), {
    C08 processor_base_frequency = f(a, 15, 0);
    C08 processor_max_frequency = f(b, 15, 0);
    C08 bus_frequency = f(c, 15, 0);
});

acc!(dat, DatInfo, (a: u32, b: u32, c: u32, d: u32), {
    C16 has_4k_entries = bit(b, 0);
    C16 has_2mb_entries = bit(b, 1);
    C16 has_4mb_entries = bit(b, 2);
    C16 has_1gb_entries = bit(b, 3);
    C16 is_fully_associative = bit(d, 8);
    C16 partitioning = f(b, 10, 8);
    C16 ways = f(b, 31, 16);
    C16 sets = c;
    C16 cache_type = match f(d, 4, 0) { n @ 0..=5 => n, _ => 6 };
    C16 cache_level = f(d, 7, 5);
    C16 max_addressable_ids = f(d, 25, 14) + 1;
});

acc!(soc, SoCVendorInfo<Rd>, (a: u32, b: u32, c: u32, d: u32), {
    (C08 | C17) get_soc_vendor_id = f(b, 15, 0);
    (C08 | C17) get_project_id = c;
    (C08 | C17) get_stepping_id = d;
});

acc!(cache_item, CacheParameter, (a: u32, b: u32, c: u32, d: u32), {
    C12 cache_type = match f(a, 4, 0) { n @ 0..=3 => n, _ => 4 };
    C12 level = f(a, 7, 5);
    C12 is_self_initializing = bit(a, 8);
    C12 is_fully_associative = bit(a, 9);
    C12 max_cores_for_cache = f(a, 25, 14) + 1;
    C12 max_cores_for_package = f(a, 31, 26) + 1;
    C12 coherency_line_size = f(b, 11, 0) + 1;
    C12 physical_line_partitions = f(b, 21, 12) + 1;
    C12 associativity = f(b, 31, 22) + 1;
    C12 sets = Narrow("sets-usize-32bit", c as u64 + 1, (c as u64 + 1).min(usize::MAX as u64));
    C12 is_write_back_invalidate = bit(d, 0);
    C12 is_inclusive = bit(d, 1);
    C12 has_complex_indexing = bit(d, 2);
});

acc!(topo_item, ExtendedTopologyLevel, (a: u32, b: u32, c: u32, d: u32), {
    C13 processors = f(b, 15, 0);
    C13 level_number = f(c, 7, 0);
    C13 level_type = match f(c, 15, 8) { n @ 0..=5 => n, _ => 0 };
    C13 x2apic_id = d;
    C13 shift_right_for_next_apic_id = f(a, 4, 0);
});

acc!(cputopo_item, ExtendedCpuTopologyLevel, (a: u32, b: u32, c: u32, d: u32), {
    C13 mask_width = f(a, 4, 0);
    (C07 | C13) has_efficiency_ranking_available = bit(a, 29);
    (C07 | C13) has_heterogeneous_cores = bit(a, 30);
    (C07 | C13) has_asymmetric_topology = bit(a, 31);
    C13 num_logical_processors = f(b, 15, 0);
    C13 pwr_efficiency_ranking = f(b, 23, 16);
    C13 native_mode_id = f(b, 27, 24);
    C13 core_type = f(b, 31, 28);
    C13 input_ecx = f(c, 7, 0);
    C13 level_type = f(c, 15, 8);
    C13 extended_apic_id = d;
});

acc!(extid, ExtendedProcessorFeatureIdentifiers, (a: u32, b: u32, c: u32, d: u32, amd: bool), {
    C07 has_lahf_sahf = bit(c, 0);
    (C05 | C07) has_cmp_legacy = amd && bit(c, 1);
    (C05 | C07) has_svm = amd && bit(c, 2);
    (C05 | C07) has_ext_apic_space = amd && bit(c, 3);
    (C05 | C07) has_alt_mov_cr8 = amd && bit(c, 4);
    C07 has_lzcnt = bit(c, 5);
    (C05 | C07) has_sse4a = amd && bit(c, 6);
    (C05 | C07) has_misaligned_sse_mode = amd && bit(c, 7);
    C07 has_prefetchw = bit(c, 8);
    (C05 | C07) has_osvw = amd && bit(c, 9);
    (C05 | C07) has_ibs = amd && bit(c, 10);
    (C05 | C07) has_xop = amd && bit(c, 11);
    (C05 | C07) has_skinit = amd && bit(c, 12);
    (C05 | C07) has_wdt = amd && bit(c, 13);
    (C05 | C07) has_lwp = amd && bit(c, 15);
    (C05 | C07) has_fma4 = amd && bit(c, 16);
    (C05 | C07) has_tbm = amd && bit(c, 21);
    (C05 | C07) has_topology_extensions = amd && bit(c, 22);
    (C05 | C07) has_perf_cntr_extensions = amd && bit(c, 23);
    (C05 | C07) has_nb_perf_cntr_extensions = amd && bit(c, 24);
    (C05 | C07) has_data_access_bkpt_extension = amd && bit(c, 26);
    (C05 | C07) has_perf_tsc = amd && bit(c, 27);
    (C05 | C07) has_perf_cntr_llc_extensions = amd && bit(c, 28);
    (C05 | C07) has_monitorx_mwaitx = amd && bit(c, 29);
    (C05 | C07) has_addr_mask_extension = amd && bit(c, 30);
    C07 has_syscall_sysret = bit(d, 11);
    C07 has_execute_disable = bit(d, 20);
    (C05 | C07) has_mmx_extensions = amd && bit(d, 22);
    (C05 | C07) has_fast_fxsave_fxstor = amd && bit(d, 25);
    C07 has_1gib_pages = bit(d, 26);
    C07 has_rdtscp = bit(d, 27);
    C07 has_64bit_mode = bit(d, 29);
    (C05 | C07) has_amd_3dnow_extensions = amd && bit(d, 30);
    (C05 | C07) has_3dnow = amd && bit(d, 31);
    C09 extended_signature = a;
    C09 pkg_type = f(b, 31, 28);
    C09 brand_id = f(b, 15, 0);
});

acc!(l1, L1CacheTlbInfo, (a: u32, b: u32, c: u32, d: u32), {
    C09 dtlb_2m_4m_associativity = assoc8(f(a, 31, 24));
    C09 itlb_2m_4m_associativity = assoc8(f(a, 15, 8));
    C09 dtlb_4k_associativity = assoc8(f(b, 31, 24));
    C09 itlb_4k_associativity = assoc8(f(b, 15, 8));
    C09 dcache_associativity = assoc8(f(c, 23, 16));
    C09 icache_associativity = assoc8(f(d, 23, 16));
    C09 dtlb_2m_4m_size = f(a, 23, 16);
    C09 itlb_2m_4m_size = f(a, 7, 0);
    C09 dtlb_4k_size = f(b, 23, 16);
    C09 itlb_4k_size = f(b, 7, 0);
    C09 dcache_size = f(c, 31, 24);
    C09 dcache_lines_per_tag = f(c, 15, 8);
    C09 dcache_line_size = f(c, 7, 0);
    C09 icache_size = f(d, 31, 24);
    C09 icache_lines_per_tag = f(d, 15, 8);
    C09 icache_line_size = f(d, 7, 0);
});

acc!(l23, L2And3CacheTlbInfo, (a: u32, b: u32, c: u32, d: u32), {
    C09 dtlb_2m_4m_associativity = assoc4(f(a, 31, 28));
    C09 itlb_2m_4m_associativity = assoc4(f(a, 15, 12));
    C09 dtlb_4k_associativity = assoc4(f(b, 31, 28));
    C09 itlb_4k_associativity = assoc4(f(b, 15, 12));
    C09 l2cache_associativity = assoc4(f(c, 15, 12));
    C09 l3cache_associativity = assoc4(f(d, 15, 12));
    C09 dtlb_2m_4m_size = f(a, 27, 16);
    C09 itlb_2m_4m_size = f(a, 11, 0);
    C09 dtlb_4k_size = f(b, 27, 16);
    C09 itlb_4k_size = f(b, 11, 0);
    C09 l2cache_size = f(c, 31, 16);
    C09 l2cache_lines_per_tag = f(c, 11, 8);
    C09 l2cache_line_size = f(c, 7, 0);
    C09 l3cache_size = f(d, 31, 18);
    C09 l3cache_lines_per_tag = f(d, 11, 8);
    C09 l3cache_line_size = f(d, 7, 0);
});

acc!(apm, ApmInfo, (a: u32, b: u32, c: u32, d: u32), {
    C07 has_mca_overflow_recovery = bit(b, 0);
    C07 has_succor = bit(b, 1);
    C07 has_hwa = bit(b, 2);
    C07 has_ts = bit(d, 0);
    C07 has_freq_id_ctrl = bit(d, 1);
    C07 has_volt_id_ctrl = bit(d, 2);
    C07 has_thermtrip = bit(d, 3);
    C07 has_tm = bit(d, 4);
    C07 has_100mhz_steps = bit(d, 6);
    C07 has_hw_pstate = bit(d, 7);
    C07 has_invariant_tsc = bit(d, 8);
    C07 has_cpb = bit(d, 9);
    C07 has_ro_effective_freq_iface = bit(d, 10);
    C07 has_feedback_iface = bit(d, 11);
    C07 has_power_reporting_iface = bit(d, 12);
    C09 cpu_pwr_sample_time_ratio = c;
});

acc!(capacity, ProcessorCapacityAndFeatureInfo, (a: u32, b: u32, c: u32, d: u32), {
    C07 has_cl_zero = bit(b, 0);
    C07 has_inst_ret_cntr_msr = bit(b, 1);
    C07 has_restore_fp_error_ptrs = bit(b, 2);
    C07 has_invlpgb = bit(b, 3);
    C07 has_rdpru = bit(b, 4);
    C07 has_mcommit = bit(b, 8);
    C07 has_wbnoinvd = bit(b, 9);
    C07 has_int_wbinvd = bit(b, 13);
    C07 has_unsupported_efer_lmsle = bit(b, 20);
    C07 has_invlpgb_nested = bit(b, 21);
    C09 physical_address_bits = f(a, 7, 0);
    C09 linear_address_bits = f(a, 15, 8);
    C09 guest_physical_address_bits = f(a, 23, 16);
    (C09 | C21) perf_tsc_size = 40 + 8 * f(c, 17, 16);
    (C09 | C21) apic_id_size = f(c, 15, 12);
    C21 maximum_logical_processors = 1u64 << f(c, 15, 12);
    (C09 | C21) num_phys_threads = f(c, 7, 0) + 1;
    C09 invlpgb_max_pages = f(d, 15, 0);
    C09 max_rdpru_id = f(d, 31, 16);
});

acc!(svm, SvmFeatures, (a: u32, b: u32, c: u32, d: u32), {
    C07 has_nested_paging = bit(d, 0);
    C07 has_lbr_virtualization = bit(d, 1);
    C07 has_svm_lock = bit(d, 2);
    C07 has_nrip = bit(d, 3);
    C07 has_tsc_rate_msr = bit(d, 4);
    C07 has_vmcb_clean_bits = bit(d, 5);
    C07 has_flush_by_asid = bit(d, 6);
    C07 has_decode_assists = bit(d, 7);
    C07 has_pause_filter = bit(d, 10);
    C07 has_pause_filter_threshold = bit(d, 12);
    C07 has_avic = bit(d, 13);
    C07 has_vmsave_virtualization = bit(d, 15);
    C07 has_gif = bit(d, 16);
    C07 has_gmet = bit(d, 17);
    C07 has_sss_check = bit(d, 19);
    C07 has_spec_ctrl = bit(d, 20);
    C07 has_host_mce_override = bit(d, 23);
    C07 has_tlb_ctrl = bit(d, 24);
    C09 revision = f(a, 7, 0);
    C09 supported_asids = b;
});

acc!(tlb1g, Tlb1gbPageInfo, (a: u32, b: u32, c: u32, d: u32), {
    C09 dtlb_l1_1gb_associativity = assoc4(f(a, 31, 28));
    C09 itlb_l1_1gb_associativity = assoc4(f(a, 15, 12));
    C09 dtlb_l2_1gb_associativity = assoc4(f(b, 31, 28));
    C09 itlb_l2_1gb_associativity = assoc4(f(b, 15, 12));
    C09 dtlb_l1_1gb_size = Narrow("tlb1gb-size-u8", f(a, 27, 16), f(a, 27, 16) & 0xff);
    C09 itlb_l1_1gb_size = Narrow("tlb1gb-size-u8", f(a, 11, 0), f(a, 11, 0) & 0xff);
    C09 dtlb_l2_1gb_size = Narrow("tlb1gb-size-u8", f(b, 27, 16), f(b, 27, 16) & 0xff);
    C09 itlb_l2_1gb_size = Narrow("tlb1gb-size-u8", f(b, 11, 0), f(b, 11, 0) & 0xff);
});

acc!(perfopt, PerformanceOptimizationInfo, (a: u32, b: u32, c: u32, d: u32), {
    C07 has_fp128 = bit(a, 0);
    C07 has_movu = bit(a, 1);
    C07 has_fp256 = bit(a, 2);
});

acc!(ibs, InstructionBasedSamplingCapabilities, (a: u32, b: u32, c: u32, d: u32), {
    C07 has_feature_flags = bit(a, 0);
    C07 has_fetch_sampling = bit(a, 1);
    C07 has_execution_sampling = bit(a, 2);
    C07 has_read_write_operation_counter = bit(a, 3);
    C07 has_operation_counter = bit(a, 4);
    C07 has_branch_target_address_reporting = bit(a, 5);
    C07 has_operation_counter_extended = bit(a, 6);
    C07 has_invalid_rip_indication = bit(a, 7);
    C07 has_fused_branch_micro_op_indication = bit(a, 8);
    C07 has_l3_miss_filtering = bit(a, 11);
});

acc!(proctopo, ProcessorTopologyInfo, (a: u32, b: u32, c: u32, d: u32), {
    C09 x2apic_id = a;
    C09 core_id = f(b, 7, 0);
    (C09 | C21) threads_per_core = Narrow("threads-per-core-256", f(b, 15, 8) + 1, (f(b, 15, 8) + 1).min(255));
    C09 node_id = f(c, 7, 0);
    C09 nodes_per_processor = f(c, 10, 8) + 1;
});

acc!(memenc, MemoryEncryptionInfo, (a: u32, b: u32, c: u32, d: u32), {
    C07 has_sme = bit(a, 0);
    C07 has_sev = bit(a, 1);
    C07 has_page_flush_msr = bit(a, 2);
    C07 has_sev_es = bit(a, 3);
    C07 has_sev_snp = bit(a, 4);
    C07 has_vmpl = bit(a, 5);
    C07 has_hw_enforced_cache_coh = bit(a, 10);
    C07 has_64bit_mode = bit(a, 11);
    C07 has_restricted_injection = bit(a, 12);
    C07 has_alternate_injection = bit(a, 13);
    C07 has_debug_swap = bit(a, 14);
    C07 has_prevent_host_ibs = bit(a, 15);
    C07 has_vte = bit(a, 16);
    C09 c_bit_position = f(b, 5, 0);
    C09 physical_address_reduction = f(b, 11, 6);
    C09 max_encrypted_guests = c;
    C09 min_sev_no_es_asid = d;
});

acc!(pqos, PqosExtendedFeatureInfo<Rd>, (a: u32, b: u32, c: u32, d: u32), {
    (C07 | C18) has_l3mbe = bit(b, 1);
    (C07 | C18) has_l3smbe = bit(b, 2);
    (C07 | C18) has_bmec = bit(b, 3);
    (C07 | C18) has_l3rr = bit(b, 4);
    (C07 | C18) has_abmc = bit(b, 5);
    (C07 | C18) has_sdciae = bit(b, 6);
});

acc!(pqos_mbe, L3MemoryBandwidthEnforcementInformation, (a: u32, b: u32, c: u32, d: u32), {
    (C09 | C18) bandwidth_length = a;
    (C09 | C18) cos_max = d;
});

acc!(pqos_bmec, BandwidthMonitoringEventCounters, (a: u32, b: u32, c: u32, d: u32), {
    (C07 | C18) has_l3_cache_lcl_bw_fill_mon = bit(c, 0);
    (C07 | C18) has_l3_cache_rmt_bw_fill_mon = bit(c, 1);
    (C07 | C18) has_l3_cache_lcl_bw_nt_wr_mon = bit(c, 2);
    (C07 | C18) has_l3_cache_rmt_bw_nt_wr_mon = bit(c, 3);
    (C07 | C18) has_l3_cache_lcl_slow_bw_fill_mon = bit(c, 4);
    (C07 | C18) has_l3_cache_rmt_slow_bw_fill_mon = bit(c, 5);
    (C07 | C18) has_l3_cache_vic_mon = bit(c, 6);
    (C09 | C18) number_events = f(b, 7, 0);
});

acc!(pqos_abmc, AssignableBandwidthMonitoringCounterInfo, (a: u32, b: u32, c: u32, d: u32), {
    (C09 | C18) counter_size = f(a, 7, 0);
    (C07 | C18) has_overflow_bit = bit(a, 8);
    (C09 | C18) max_abmc = f(b, 15, 0);
    (C07 | C18) has_select_cos = bit(c, 0);
});

acc!(efi2, ExtendedFeatureIdentification2, (a: u32, b: u32, c: u32, d: u32), {
    C07 has_no_nested_data_bp = bit(a, 0);
    C07 has_lfence_always_serializing = bit(a, 2);
    C07 has_smm_pg_cfg_lock = bit(a, 3);
    C07 has_null_select_clears_base = bit(a, 6);
    C07 has_upper_address_ignore = bit(a, 7);
    C07 has_automatic_ibrs = bit(a, 8);
    C07 has_no_smm_ctl_msr = bit(a, 9);
    C07 has_prefetch_ctl_msr = bit(a, 13);
    C07 has_cpuid_user_dis = bit(a, 17);
    C09 microcode_patch_size = f(b, 11, 0);
});

acc!(perfdbg, ExtendedPerformanceMonitoringDebug, (a: u32, b: u32, c: u32, d: u32), {
    C07 has_perf_mon_v2 = bit(a, 0);
    C07 has_lbr_stack = bit(a, 1);
    C07 has_lbr_and_pmc_freeze = bit(a, 2);
    C09 num_perf_ctr_core = f(b, 3, 0);
    C09 num_lbr_stack_size = f(b, 9, 4);
    C09 num_perf_ctr_nb = f(b, 15, 10);
});

acc!(mkey, MultiKeyEncryptedMemoryCapabilities, (a: u32, b: u32, c: u32, d: u32), {
    C07 has_mem_hmk = bit(a, 0);
    C09 max_mem_hmk_encr_key_id = f(b, 15, 0);
});

/// 8-bit associativity code of leaf 0x8000_0005.
fn assoc8(code: u64) -> u128 {
    match code {
        0 => 1,
        1 => 2,
        0xff => 3,
        n => NWAY + n as u128,
    }
}
/// 4-bit associativity code of leaves 0x8000_0006 and 0x8000_0019.
fn assoc4(code: u64) -> u128 {
    const WAYS: [u128; 16] = [0, 0, 2, 0, 4, 6, 8, 0, 16, 0, 32, 48, 64, 96, 128, 0];
    match code {
        0 => 1,
        1 => 2,
        15 => 3,
        n if WAYS[n as usize] != 0 => NWAY + WAYS[n as usize],
        _ => 4,
    }
}
fn spec_register(n: u32) -> u64 {
    match n {
        2..=9 | 13 => n as u64,
        n => (1u64 << 40) + n as u64,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ven {
    Intel,
    Amd,
    Other,
}

/// The model's view of a CPU: its raw answers, gated as the manuals say.
pub struct M<'a> {
    pub s: &'a dyn Src,
    pub v: Ven,
    pub maxb: u32,
    pub maxe: u32,
}

impl<'a> M<'a> {
    pub fn new(s: &'a dyn Src) -> M<'a> {
        let l0 = s.get(0, 0);
        let id = {
            let mut id = [0u8; 12];
            id[0..4].copy_from_slice(&l0.b.to_le_bytes());
            id[4..8].copy_from_slice(&l0.d.to_le_bytes());
            id[8..12].copy_from_slice(&l0.c.to_le_bytes());
            id
        };
        let v = if &id == b"GenuineIntel" {
            Ven::Intel
        } else if &id == b"AuthenticAMD" || &id == b"HygonGenuine" {
            Ven::Amd
        } else {
            Ven::Other
        };
        M { s, v, maxb: l0.a, maxe: s.get(0x8000_0000, 0).a }
    }
    pub fn q(&self, leaf: u32, sub: u32) -> R4 {
        self.s.get(leaf, sub)
    }
    pub fn amd(&self) -> bool {
        self.v == Ven::Amd
    }
    /// Is the leaf advertised (and not reserved on this vendor)?
    pub fn has(&self, leaf: u32) -> bool {
        if leaf >= 0x8000_0000 {
            leaf <= self.maxe
        } else {
            leaf <= self.maxb && !(self.amd() && matches!(leaf, 2 | 3 | 4 | 8 | 9 | 0xA))
        }
    }
    fn has_hypervisor(&self) -> bool {
        self.has(1) && bit(self.q(1, 0).c, 31) && self.q(0x4000_0000, 0).a > 0
    }
    fn has_sgx(&self) -> bool {
        self.has(7) && self.has(0x12) && bit(self.q(7, 0).b, 2)
    }
    fn has_svm(&self) -> bool {
        self.amd() && self.has(0x8000_0001) && self.has(0x8000_000A) && bit(self.q(0x8000_0001, 0).c, 2)
    }
    fn cache_leaf(&self) -> Option<u32> {
        if self.amd() {
            if self.has(0x8000_001D) { Some(0x8000_001D) } else { None }
        } else if self.has(4) {
            Some(4)
        } else {
            None
        }
    }
}

/// Iterators are drained at most this far.
pub const LIM: u32 = 48;

pub struct Grp {
    pub name: &'static str,
    pub avail: fn(&Cpu) -> bool,
    /// Pushes every accessor value; false if the query is unavailable.
    pub obs: fn(&Cpu, &mut Out) -> bool,
    pub gate: fn(&M) -> bool,
    pub spec: fn(&M, &mut Out),
    /// Debug rendering of the query's result.
    pub dbg: fn(&Cpu) -> String,
    /// The same over several lines.
    pub pretty: fn(&Cpu) -> String,
    /// The same rendering into a sink; false if the type has none.
    pub dbgw: fn(&Cpu, &mut dyn std::fmt::Write) -> bool,
    /// `==` between the results on two CPUs, if the type has it.
    pub same: fn(&Cpu, &Cpu) -> Option<[bool; 3]>,
    /// Raw answers (leaf, sub-leaf) whose bits are varied to explore this group.
    pub words: &'static [(u32, u32)],
}

/// Debug rendering of results that have one, "" for the others.
pub struct W<'a, T>(pub &'a T);
pub trait ViaDebug {
    fn render(&self) -> String;
    fn pretty(&self) -> String;
    fn render_to(&self, w: &mut dyn std::fmt::Write) -> bool;
}
impl<T: std::fmt::Debug> ViaDebug for W<'_, T> {
    fn render(&self) -> String {
        format!("{:?}", self.0)
    }
    fn pretty(&self) -> String {
        format!("{:#?}", self.0)
    }
    fn render_to(&self, w: &mut dyn std::fmt::Write) -> bool {
        write!(w, "{:?}", self.0).is_ok()
    }
}
pub trait ViaNothing {
    fn render(&self) -> String;
    fn pretty(&self) -> String;
    fn render_to(&self, w: &mut dyn std::fmt::Write) -> bool;
}
impl<T> ViaNothing for &W<'_, T> {
    fn render(&self) -> String {
        String::new()
    }
    fn pretty(&self) -> String {
        String::new()
    }
    fn render_to(&self, _: &mut dyn std::fmt::Write) -> bool {
        false
    }
}

/// Equality of results that have one: a == b, b == a, a != b.
pub struct WE<'a, T>(pub &'a T, pub &'a T);
pub trait ViaEq {
    fn same(&self) -> Option<[bool; 3]>;
}
impl<T: PartialEq> ViaEq for WE<'_, T> {
    fn same(&self) -> Option<[bool; 3]> {
        Some([self.0 == self.1, self.1 == self.0, self.0 != self.1])
    }
}
pub trait ViaNoEq {
    fn same(&self) -> Option<[bool; 3]>;
}
impl<T> ViaNoEq for &WE<'_, T> {
    fn same(&self) -> Option<[bool; 3]> {
        None
    }
}

macro_rules! grp {
    ($get:ident, [$($l:expr, $s:expr);*], |$m:ident| $gate:expr, |$x:ident, $o:ident| $obs:block, |$so:ident| $spec:block) => {
        Grp {
            name: stringify!($get),
            avail: |c| c.$get().is_some(),
            #[allow(unused_mut)]
            obs: |c, $o| match c.$get() { None => false, Some(mut $x) => { $obs; true } },
            gate: |$m| $gate,
            #[allow(unused_variables)]
            spec: |$m, $so| { $spec },
            dbg: |c| (&W(&c.$get())).render(),
            pretty: |c| (&W(&c.$get())).pretty(),
            dbgw: |c, w| (&W(&c.$get())).render_to(w),
            same: |a, b| (&WE(&a.$get(), &b.$get())).same(),
            words: &[$(($l, $s)),*],
        }
    };
}
/// A leaf without structure: one answer, decoded by one table.
macro_rules! flat {
    ($get:ident, $leaf:expr, $tab:ident $(, $extra:expr)?) => {
        grp!($get, [$leaf, 0], |m| m.has($leaf), |x, o| { $tab::obs(&x, o) }, |o| {
            let r = m.q($leaf, 0);
            $tab::spec(r.a, r.b, r.c, r.d, o)
        })
    };
}

fn drain<T>(it: &mut dyn Iterator<Item = T>, o: &mut Out, label: &'static str, tags: Tags, mut f: impl FnMut(&T, &mut Out)) {
    let mut n = 0;
    while n < LIM {
        match it.next() {
            None => break,
            Some(x) => {
                o.idx = n + 1;
                f(&x, o);
                n += 1;
            }
        }
    }
    o.idx = 0;
    o.val(label, tags, n);
}

#[allow(deprecated)]
pub static GROUPS: &[Grp] = &[
    grp!(get_vendor_info, [0, 0], |m| m.has(0), |x, o| {
        o.bytes("vendor.as_str", C20, x.as_str().as_bytes());
        o.val("vendor.as_string agrees", C20, x.as_string() == x.as_str());
        o.val("vendor.utf8", C20, std::str::from_utf8(x.as_str().as_bytes()).is_ok());
    }, |o| {
        let r = m.q(0, 0);
        let mut b = vec![];
        for w in [r.b, r.d, r.c] {
            b.extend_from_slice(&w.to_le_bytes());
        }
        let s = if std::str::from_utf8(&b).is_ok() { &b[..] } else { b"InvalidVendorString" };
        o.bytes("vendor.as_str", C20, s);
        o.val("vendor.as_string agrees", C20, true);
        o.val("vendor.utf8", C20, true);
    }),
    grp!(get_feature_info, [1, 0], |m| m.has(1), |x, o| {
        feature::obs(&x, o);
        o.val("feature.family_id", C10, x.family_id());
        o.val("feature.model_id", C10, x.model_id());
    }, |o| {
        let r = m.q(1, 0);
        feature::spec(r.a, r.b, r.c, r.d, o);
        let (basef, extf, basem, extm) = (f(r.a, 11, 8), f(r.a, 27, 20), f(r.a, 7, 4), f(r.a, 19, 16));
        let ext_family = basef == 0xf;
        let ext_model = basef == 0xf || (m.v == Ven::Intel && basef == 6);
        if m.v == Ven::Other {
            // No documented rule for the model of unknown vendors.
            o.val("feature.family_id", C10, DontCare);
            o.val("feature.model_id", C10, DontCare);
        } else {
            o.val("feature.family_id", C10, if ext_family { (basef + extf) & 0xff } else { basef });
            o.val("feature.model_id", C10, if ext_model { extm * 16 + basem } else { basem });
        }
    }),
    grp!(get_cache_info, [2, 0], |m| m.has(2), |x, o| {
        drain(&mut x, o, "leaf2.count", C11, |i, o| {
            o.val("leaf2.num", C11, i.num);
            o.val("leaf2.typ", C11, i.typ);
            o.val("leaf2.desc", C11, crate::leaf2::norm(i.desc()));
        })
    }, |o| { crate::leaf2::spec(m.q(2, 0), o) }),
    grp!(get_processor_serial, [3, 0; 1, 0], |m| m.has(3), |x, o| { serial::obs(&x, o) }, |o| {
        let r = m.q(3, 0);
        serial::spec(m.q(1, 0).a, r.c, r.d, o)
    }),
    grp!(get_cache_parameters, [4, 0; 0x8000_001D, 0; 4, 1; 0x8000_001D, 1], |m| m.cache_leaf().is_some(), |x, o| {
        drain(&mut x, o, "caches.count", C12, |i, o| cache_item::obs(i, o));
        // Once ended, it stays ended.
        o.val("caches.after end", C12, o.e.last().unwrap().v < LIM as u128 && x.next().is_some());
    }, |o| {
        let leaf = m.cache_leaf().unwrap();
        let mut n = 0;
        while n < LIM {
            let r = m.q(leaf, n);
            if !matches!(r.a & 0x1f, 1..=3) { break }
            n += 1;
            o.idx = n;
            cache_item::spec(r.a, r.b, r.c, r.d, o);
        }
        o.idx = 0;
        o.val("caches.count", C12, n);
        o.val("caches.after end", C12, false);
    }),
    flat!(get_monitor_mwait_info, 5, mwait),
    flat!(get_thermal_power_info, 6, thermal),
    grp!(get_extended_feature_info, [7, 0; 7, 1], |m| m.has(7), |x, o| { extfeat::obs(&x, o) }, |o| {
        let r = m.q(7, 0);
        let r1 = if r.a >= 1 { m.q(7, 1) } else { R4::default() };
        extfeat::spec(r.b, r.c, r.d, r1.a, r1.d, o)
    }),
    flat!(get_direct_cache_access_info, 9, dca),
    flat!(get_performance_monitoring_info, 0xA, perfmon),
    grp!(get_extended_topology_info, [0xB, 0; 0xB, 1], |m| m.has(0xB), |x, o| {
        drain(&mut x, o, "topology.count", C13, |i, o| topo_item::obs(i, o))
    }, |o| { topo_spec(m, 0xB, "topology.count", o) }),
    grp!(get_extended_topology_info_v2, [0x1F, 0; 0x1F, 1], |m| m.has(0x1F), |x, o| {
        drain(&mut x, o, "topology2.count", C13, |i, o| topo_item::obs(i, o))
    }, |o| { topo_spec(m, 0x1F, "topology2.count", o) }),
    grp!(get_extended_state_info, [0xD, 0; 0xD, 1; 0xD, 2; 0xD, 9], |m| m.has(0xD), |x, o| {
        xstate::obs(&x, o);
        let mut it = x.iter();
        drain(&mut it, o, "xstate.count", C14, |i, o| {
            o.val("xstate.component", C14, i.subleaf);
            xstate_item::obs(i, o)
        });
    }, |o| {
        let (r, r1) = (m.q(0xD, 0), m.q(0xD, 1));
        xstate::spec(r.a, r.b, r.c, r1.a, r1.b, r1.c, o);
        let mut n = 0;
        for i in 2..32 {
            let defined_xcr0 = matches!(i, 2..=7 | 9 | 17 | 18);
            let defined_xss = matches!(i, 8 | 10..=16);
            if (defined_xcr0 && bit(r.a, i)) || (defined_xss && bit(r1.c, i)) {
                let s = m.q(0xD, i);
                n += 1;
                o.idx = n;
                o.val("xstate.component", C14, i);
                xstate_item::spec(i, s.a, s.b, s.c, o);
            }
        }
        o.idx = 0;
        o.val("xstate.count", C14, n);
    }),
    grp!(get_rdt_monitoring_info, [0xF, 0; 0xF, 1], |m| m.has(0xF), |x, o| {
        rdt_mon::obs(&x, o);
        let s = x.l3_monitoring();
        o.val("l3_monitoring", C18, s.is_some());
        if let Some(s) = s { rdt_l3mon::obs(&s, o) }
    }, |o| {
        let r = m.q(0xF, 0);
        rdt_mon::spec(r.a, r.b, r.c, r.d, o);
        o.val("l3_monitoring", C18, bit(r.d, 1));
        if bit(r.d, 1) { let r = m.q(0xF, 1); rdt_l3mon::spec(r.a, r.b, r.c, r.d, o) }
    }),
    grp!(get_rdt_allocation_info, [0x10, 0; 0x10, 1; 0x10, 2; 0x10, 3], |m| m.has(0x10), |x, o| {
        rdt_alloc::obs(&x, o);
        let (a, b, c) = (x.l3_cat(), x.l2_cat(), x.memory_bandwidth_allocation());
        o.val("l3_cat", C18, a.is_some());
        if let Some(s) = a { rdt_l3cat::obs(&s, o) }
        o.val("l2_cat", C18, b.is_some());
        if let Some(s) = b { rdt_l2cat::obs(&s, o) }
        o.val("mba", C18, c.is_some());
        if let Some(s) = c { rdt_mba::obs(&s, o) }
    }, |o| {
        let r = m.q(0x10, 0);
        rdt_alloc::spec(r.a, r.b, r.c, r.d, o);
        o.val("l3_cat", C18, bit(r.b, 1));
        if bit(r.b, 1) { let r = m.q(0x10, 1); rdt_l3cat::spec(r.a, r.b, r.c, r.d, o) }
        o.val("l2_cat", C18, bit(r.b, 2));
        if bit(r.b, 2) { let r = m.q(0x10, 2); rdt_l2cat::spec(r.a, r.b, r.c, r.d, o) }
        o.val("mba", C18, bit(r.b, 3));
        if bit(r.b, 3) { let r = m.q(0x10, 3); rdt_mba::spec(r.a, r.b, r.c, r.d, o) }
    }),
    grp!(get_sgx_info, [0x12, 0; 0x12, 1; 0x12, 2; 0x12, 3], |m| m.has_sgx(), |x, o| {
        sgx::obs(&x, o);
        let mut it = x.iter();
        drain(&mut it, o, "epc.count", C15, |i, o| match i { SgxSectionInfo::Epc(e) => epc::obs(e, o) });
    }, |o| {
        let r = m.q(0x12, 0);
        sgx::spec(r.a, r.b, r.d, m.q(0x12, 1), o);
        let mut n = 0;
        while n < LIM {
            let r = m.q(0x12, 2 + n);
            if r.a & 0xf != 1 { break }
            n += 1;
            o.idx = n;
            epc::spec(r.a, r.b, r.c, r.d, o);
        }
        o.idx = 0;
        o.val("epc.count", C15, n);
    }),
    grp!(get_processor_trace_info, [0x14, 0; 0x14, 1], |m| m.has(0x14), |x, o| { pt::obs(&x, o) }, |o| {
        let r = m.q(0x14, 0);
        pt::spec(r.b, r.c, if r.a >= 1 { Some(m.q(0x14, 1)) } else { None }, o)
    }),
    flat!(get_tsc_info, 0x15, tsc),
    flat!(get_processor_frequency_info, 0x16, freq),
    grp!(get_soc_vendor_info, [0x17, 0; 0x17, 1; 0x17, 2; 0x17, 3; 0x17, 4; 0x17, 5], |m| m.has(0x17), |x, o| {
        soc::obs(&x, o);
        let b = x.get_vendor_brand();
        o.val("soc.has brand", C17, b.is_some());
        if let Some(b) = b {
            o.bytes("soc.brand", C17 | C20, b.as_str().as_bytes());
            o.val("soc.brand as_string agrees", C20, b.as_string() == b.as_str());
            o.val("soc.brand utf8", C20, std::str::from_utf8(b.as_str().as_bytes()).is_ok());
        }
        let it = x.get_vendor_attributes();
        o.val("soc.has attributes", C17, it.is_some());
        if let Some(mut it) = it {
            drain(&mut it, o, "soc.attributes", C17, |r, o| {
                o.val("soc.attribute", C17, r.eax as u128 | (r.ebx as u128) << 32 | (r.ecx as u128) << 64 | (r.edx as u128) << 96)
            });
            o.val("soc.after end", C17, o.e.last().unwrap().v < LIM as u128 && it.next().is_some());
        }
    }, |o| {
        let r = m.q(0x17, 0);
        soc::spec(r.a, r.b, r.c, r.d, o);
        o.val("soc.has brand", C17, r.a >= 3);
        if r.a >= 3 {
            let mut b = vec![];
            for i in 1..4 { b.extend_from_slice(&m.q(0x17, i).bytes()) }
            let s = if std::str::from_utf8(&b).is_ok() { &b[..] } else { b"InvalidSoCVendorString" };
            o.bytes("soc.brand", C17 | C20, s);
            o.val("soc.brand as_string agrees", C20, true);
            o.val("soc.brand utf8", C20, true);
        }
        o.val("soc.has attributes", C17, r.a > 3);
        if r.a > 3 {
            let mut n = 0;
            while n < LIM && 4 + n <= r.a {
                let q = m.q(0x17, 4 + n);
                n += 1;
                o.idx = n;
                o.val("soc.attribute", C17, q.a as u128 | (q.b as u128) << 32 | (q.c as u128) << 64 | (q.d as u128) << 96)
            }
            o.idx = 0;
            o.val("soc.attributes", C17, n);
            o.val("soc.after end", C17, false);
        }
    }),
    grp!(get_deterministic_address_translation_info, [0x18, 0; 0x18, 1; 0x18, 2], |m| m.has(0x18), |x, o| {
        drain(&mut x, o, "dat.count", C16, |i, o| dat::obs(i, o));
        o.val("dat.after end", C16, o.e.last().unwrap().v < LIM as u128 && x.next().is_some());
    }, |o| {
        let max = m.q(0x18, 0).a;
        let (mut n, mut sub) = (0, 0u64);
        while n < LIM && sub <= max as u64 {
            let r = m.q(0x18, sub as u32);
            sub += 1;
            if r.d & 0x1f == 0 { continue }
            n += 1;
            o.idx = n;
            dat::spec(r.a, r.b, r.c, r.d, o);
        }
        o.idx = 0;
        o.val("dat.count", C16, n);
        o.val("dat.after end", C16, false);
    }),
    grp!(get_hypervisor_info, [0x4000_0000, 0; 0x4000_0010, 0], |m| m.has_hypervisor(), |x, o| {
        o.val("hypervisor.identify", C19, x.identify());
        o.val("hypervisor.tsc_frequency", C19, x.tsc_frequency());
        o.val("hypervisor.apic_frequency", C19, x.apic_frequency());
    }, |o| {
        let r = m.q(0x4000_0000, 0);
        let mut sig = [0u8; 12];
        for (i, w) in [r.b, r.c, r.d].iter().enumerate() { sig[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes()) }
        let id: u128 = match &sig {
            b"XenVMMXenVMM" => 1,
            b"VMwareVMware" => 2,
            b"Microsoft Hv" => 3,
            b"KVMKVMKVM\0\0\0" => 4,
            b"TCGTCGTCGTCG" => 5,
            b"bhyve bhyve " | b"BHyVE BHyVE " => 6,
            b"QNXQVMBSQG\0\0" => 7,
            b"ACRNACRNACRN" => 8,
            _ => (1u128 << 100) + ((r.d as u128) << 64) + ((r.c as u128) << 32) + r.b as u128,
        };
        o.val("hypervisor.identify", C19, id);
        let fr = if r.a >= 0x4000_0010 { Some(m.q(0x4000_0010, 0)) } else { None };
        o.val("hypervisor.tsc_frequency", C19, fr.map(|f| f.a));
        o.val("hypervisor.apic_frequency", C19, fr.map(|f| f.b));
    }),
    grp!(get_extended_processor_and_feature_identifiers, [0x8000_0001, 0], |m| m.has(0x8000_0001), |x, o| { extid::obs(&x, o) }, |o| {
        let r = m.q(0x8000_0001, 0);
        extid::spec(r.a, r.b, r.c, r.d, m.amd(), o)
    }),
    grp!(get_processor_brand_string, [0x8000_0002, 0; 0x8000_0003, 0; 0x8000_0004, 0],
        |m| m.has(0x8000_0002) && m.has(0x8000_0003) && m.has(0x8000_0004), |x, o| {
        o.bytes("brand.as_str", C20, x.as_str().as_bytes());
        o.val("brand.utf8", C20, std::str::from_utf8(x.as_str().as_bytes()).is_ok());
    }, |o| {
        let mut b = vec![];
        for i in 2..5 { b.extend_from_slice(&m.q(0x8000_0000 + i, 0).bytes()) }
        if let Some(n) = b.iter().position(|&x| x == 0) { b.truncate(n) }
        let s = match std::str::from_utf8(&b) {
            Ok(s) => s.trim_matches(char::is_whitespace),
            Err(_) => "Invalid Processor Brand String",
        };
        o.bytes("brand.as_str", C20, s.as_bytes());
        o.val("brand.utf8", C20, true);
    }),
    grp!(get_l1_cache_and_tlb_info, [0x8000_0005, 0], |m| m.amd() && m.has(0x8000_0005), |x, o| { l1::obs(&x, o) }, |o| {
        let r = m.q(0x8000_0005, 0);
        l1::spec(r.a, r.b, r.c, r.d, o)
    }),
    flat!(get_l2_l3_cache_and_tlb_info, 0x8000_0006, l23),
    flat!(get_advanced_power_mgmt_info, 0x8000_0007, apm),
    flat!(get_processor_capacity_feature_info, 0x8000_0008, capacity),
    grp!(get_svm_info, [0x8000_000A, 0], |m| m.has_svm(), |x, o| { svm::obs(&x, o) }, |o| {
        let r = m.q(0x8000_000A, 0);
        svm::spec(r.a, r.b, r.c, r.d, o)
    }),
    flat!(get_tlb_1gb_page_info, 0x8000_0019, tlb1g),
    flat!(get_performance_optimization_info, 0x8000_001A, perfopt),
    flat!(get_instruction_based_sampling_capabilities, 0x8000_001B, ibs),
    flat!(get_processor_topology_info, 0x8000_001E, proctopo),
    flat!(get_memory_encryption_info, 0x8000_001F, memenc),
    grp!(get_pqos_extended_feature_info, [0x8000_0020, 0; 0x8000_0020, 1; 0x8000_0020, 2; 0x8000_0020, 3; 0x8000_0020, 5],
        |m| m.has(0x8000_0020), |x, o| {
        pqos::obs(&x, o);
        let (a, b, c, d) = (x.get_l3_memory_bandwidth_enforcement_info(), x.get_l3_slow_memory_bandwidth_enforcement_info(),
            x.get_bandwidth_monitoring_event_counters_info(), x.get_assignable_bandwidth_monitoring_counters_info());
        o.val("pqos.l3mbe", C18, a.is_some());
        if let Some(s) = a { pqos_mbe::obs(&s, o) }
        o.val("pqos.l3smbe", C18, b.is_some());
        if let Some(s) = b { pqos_mbe::obs(&s, o) }
        o.val("pqos.bmec", C18, c.is_some());
        if let Some(s) = c { pqos_bmec::obs(&s, o) }
        o.val("pqos.abmc", C18, d.is_some());
        if let Some(s) = d { pqos_abmc::obs(&s, o) }
    }, |o| {
        let r = m.q(0x8000_0020, 0);
        pqos::spec(r.a, r.b, r.c, r.d, o);
        let e = r.b;
        o.val("pqos.l3mbe", C18, bit(e, 1));
        if bit(e, 1) { let r = m.q(0x8000_0020, 1); pqos_mbe::spec(r.a, r.b, r.c, r.d, o) }
        o.val("pqos.l3smbe", C18, bit(e, 2));
        if bit(e, 2) { let r = m.q(0x8000_0020, 2); pqos_mbe::spec(r.a, r.b, r.c, r.d, o) }
        o.val("pqos.bmec", C18, bit(e, 3));
        if bit(e, 3) { let r = m.q(0x8000_0020, 3); pqos_bmec::spec(r.a, r.b, r.c, r.d, o) }
        o.val("pqos.abmc", C18, bit(e, 5));
        if bit(e, 5) { let r = m.q(0x8000_0020, 5); pqos_abmc::spec(r.a, r.b, r.c, r.d, o) }
    }),
    flat!(get_extended_feature_identification_2, 0x8000_0021, efi2),
    flat!(get_extended_performance_monitoring_and_debug, 0x8000_0022, perfdbg),
    flat!(get_multi_key_encrypted_memory_capabilities, 0x8000_0023, mkey),
    grp!(get_extended_cpu_topology, [0x8000_0026, 0; 0x8000_0026, 1], |m| m.has(0x8000_0026), |x, o| {
        drain(&mut x, o, "cputopology.count", C13, |i, o| cputopo_item::obs(i, o))
    }, |o| {
        let mut n = 0;
        while n < LIM {
            let r = m.q(0x8000_0026, n);
            if f(r.c, 15, 8) == 0 { break }
            n += 1;
            o.idx = n;
            cputopo_item::spec(r.a, r.b, r.c, r.d, o);
        }
        o.idx = 0;
        o.val("cputopology.count", C13, n);
    }),
];

fn topo_spec(m: &M, leaf: u32, label: &'static str, o: &mut Out) {
    let mut n = 0;
    while n < LIM {
        let r = m.q(leaf, n);
        if !matches!(f(r.c, 15, 8), 1..=5) {
            break;
        }
        n += 1;
        o.idx = n;
        topo_item::spec(r.a, r.b, r.c, r.d, o);
    }
    o.idx = 0;
    o.val(label, C13, n);
}

pub fn group(name: &str) -> usize {
    GROUPS.iter().position(|g| g.name == name).unwrap_or_else(|| panic!("no group {name}"))
}
