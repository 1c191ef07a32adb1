//! The table of the markdown report: every section, and for every row label
//! the accessor of the datum it names. Reviewed by hand against the manuals'
//! names; the accessors themselves are decided by C05-C21.
use super::*;

pub fn expected(cpuid: &Cpu, o: &mut Doc) {
    o.head("CpuId");

    if let Some(info) = cpuid.get_vendor_info() {
        o.head_attr("vendor_id (0x00)", info.as_str());
    }

    if let Some(info) = cpuid.get_feature_info() {
        o.head("version information (1/eax):");
        o.row("base family", info.base_family_id());
        o.row("base model", info.base_model_id());
        o.row("stepping", info.stepping_id());
        o.row("extended family", info.extended_family_id());
        o.row("extended model", info.extended_model_id());
        o.row("family", info.family_id());
        o.row("model", info.model_id());

        o.head("miscellaneous (1/ebx):");
        o.row("processor APIC physical id", info.initial_local_apic_id());
        o.row("max. cpus", info.max_logical_processor_ids());
        o.row("CLFLUSH line size", info.cflush_cache_line_size());
        o.row("brand index", info.brand_index());

        o.head("feature information (1/edx):");
        o.row("fpu", info.has_fpu());
        o.row("vme", info.has_vme());
        o.row("de", info.has_de());
        o.row("pse", info.has_pse());
        o.row("tsc", info.has_tsc());
        o.row("msr", info.has_msr());
        o.row("pae", info.has_pae());
        o.row("mce", info.has_mce());
        o.row("cmpxchg8b", info.has_cmpxchg8b());
        o.row("apic", info.has_apic());
        o.row("sysenter_sysexit", info.has_sysenter_sysexit());
        o.row("mtrr", info.has_mtrr());
        o.row("pge", info.has_pge());
        o.row("mca", info.has_mca());
        o.row("cmov", info.has_cmov());
        o.row("pat", info.has_pat());
        o.row("pse36", info.has_pse36());
        o.row("psn", info.has_psn());
        o.row("clflush", info.has_clflush());
        o.row("ds", info.has_ds());
        o.row("acpi", info.has_acpi());
        o.row("mmx", info.has_mmx());
        o.row("fxsave_fxstor", info.has_fxsave_fxstor());
        o.row("sse", info.has_sse());
        o.row("sse2", info.has_sse2());
        o.row("ss", info.has_ss());
        o.row("htt", info.has_htt());
        o.row("tm", info.has_tm());
        o.row("pbe", info.has_pbe());

        o.head("feature information (1/ecx):");
        o.row("sse3", info.has_sse3());
        o.row("pclmulqdq", info.has_pclmulqdq());
        o.row("ds_area", info.has_ds_area());
        o.row("monitor_mwait", info.has_monitor_mwait());
        o.row("cpl", info.has_cpl());
        o.row("vmx", info.has_vmx());
        o.row("smx", info.has_smx());
        o.row("eist", info.has_eist());
        o.row("tm2", info.has_tm2());
        o.row("ssse3", info.has_ssse3());
        o.row("cnxtid", info.has_cnxtid());
        o.row("fma", info.has_fma());
        o.row("cmpxchg16b", info.has_cmpxchg16b());
        o.row("pdcm", info.has_pdcm());
        o.row("pcid", info.has_pcid());
        o.row("dca", info.has_dca());
        o.row("sse41", info.has_sse41());
        o.row("sse42", info.has_sse42());
        o.row("x2apic", info.has_x2apic());
        o.row("movbe", info.has_movbe());
        o.row("popcnt", info.has_popcnt());
        o.row("tsc_deadline", info.has_tsc_deadline());
        o.row("aesni", info.has_aesni());
        o.row("xsave", info.has_xsave());
        o.row("oxsave", info.has_oxsave());
        o.row("avx", info.has_avx());
        o.row("f16c", info.has_f16c());
        o.row("rdrand", info.has_rdrand());
        o.row("hypervisor", info.has_hypervisor());
    }

    if let Some(info) = cpuid.get_cache_info() {
        o.head("Cache and TLB information (0x02):");
        for c in info {
            o.row(&format!("{:#x}", c.num), c.desc().to_string());
        }

    }

    if let Some(info) = cpuid.get_processor_serial() {
        o.head_attr(
            "processor serial number (0x03)",
            format!("{:0>8x}-{:0>8x}-{:0>8x}", info.serial_upper(), info.serial_middle(), info.serial_lower()).as_str(),
        );
    }

    if let Some(iter) = cpuid.get_cache_parameters() {
        o.head("deterministic cache parameters (0x04):");
        for cache in iter {
            o.head(format!("L{} Cache:", cache.level()).as_str());

            let size = (cache.associativity() as u64)
                .saturating_mul(cache.physical_line_partitions() as u64)
                .saturating_mul(cache.coherency_line_size() as u64)
                .saturating_mul(cache.sets() as u64);

            o.row("cache type", cache.cache_type());
            o.row("cache level", cache.level());
            o.row("self-initializing cache level", cache.is_self_initializing());
            o.row("fully associative cache", cache.is_fully_associative());
            o.row("threads sharing this cache", cache.max_cores_for_cache());
            o.row("processor cores on this die", cache.max_cores_for_package());
            o.row("system coherency line size", cache.coherency_line_size());
            o.row("physical line partitions", cache.physical_line_partitions());
            o.row("ways of associativity", cache.associativity());
            o.row("WBINVD/INVD acts on lower caches", cache.is_write_back_invalidate());
            o.row("inclusive to lower caches", cache.is_inclusive());
            o.row("complex cache indexing", cache.has_complex_indexing());
            o.row("number of sets", cache.sets());
            o.row("(size synth.)", size);
        }
    }

    if let Some(info) = cpuid.get_monitor_mwait_info() {
        o.head("MONITOR/MWAIT (0x05):");
        o.row("smallest monitor-line size", info.smallest_monitor_line());
        o.row("largest monitor-line size", info.largest_monitor_line());
        o.row("MONITOR/MWAIT exts", info.extensions_supported());
        o.row("Interrupts as break-event for MWAIT", info.interrupts_as_break_event());

        o.text("number of CX sub C-states using MWAIT:");
        o.cells(["C0", "C1", "C2", "C3", "C4", "C5", "C6", "C7"].map(String::from).to_vec());
        let c = [
            info.supported_c0_states(),
            info.supported_c1_states(),
            info.supported_c2_states(),
            info.supported_c3_states(),
            info.supported_c4_states(),
            info.supported_c5_states(),
            info.supported_c6_states(),
            info.supported_c7_states(),
        ];
        o.cells(c.map(|x| x.to_string()).to_vec());

    }

    if let Some(info) = cpuid.get_thermal_power_info() {
        o.head("Thermal and Power Management Features (0x06):");
        o.row("digital thermometer", info.has_dts());
        o.row("Intel Turbo Boost Technology", info.has_turbo_boost());
        o.row("ARAT always running APIC timer", info.has_arat());
        o.row("PLN power limit notification", info.has_pln());
        o.row("ECMD extended clock modulation duty", info.has_ecmd());
        o.row("PTM package thermal management", info.has_ptm());
        o.row("HWP base registers", info.has_hwp());
        o.row("HWP notification", info.has_hwp_notification());
        o.row("HWP activity window", info.has_hwp_activity_window());
        o.row("HWP energy performance preference", info.has_hwp_energy_performance_preference());
        o.row("HWP package level request", info.has_hwp_package_level_request());
        o.row("HDC base registers", info.has_hdc());
        o.row("Intel Turbo Boost Max Technology 3.0", info.has_turbo_boost3());
        o.row("HWP capabilities", info.has_hwp_capabilities());
        o.row("HWP PECI override", info.has_hwp_peci_override());
        o.row("flexible HWP", info.has_flexible_hwp());
        o.row("IA32_HWP_REQUEST MSR fast access mode", info.has_hwp_fast_access_mode());
        o.row("ignoring idle logical processor HWP req", info.has_ignore_idle_processor_hwp_request());
        o.row("digital thermometer threshold", info.dts_irq_threshold());
        o.row("hardware coordination feedback", info.has_hw_coord_feedback());
        o.row("performance-energy bias capability", info.has_energy_bias_pref());
    }

    if let Some(info) = cpuid.get_extended_feature_info() {
        o.head("Extended feature flags (0x07):");

        o.row("FSGSBASE", info.has_fsgsbase());
        o.row("IA32_TSC_ADJUST MSR", info.has_tsc_adjust_msr());
        o.row("SGX: Software Guard Extensions", info.has_sgx());
        o.row("BMI1", info.has_bmi1());
        o.row("HLE hardware lock elision", info.has_hle());
        o.row("AVX2: advanced vector extensions 2", info.has_avx2());
        o.row("FDP_EXCPTN_ONLY", info.has_fdp());
        o.row("SMEP supervisor mode exec protection", info.has_smep());
        o.row("BMI2 instructions", info.has_bmi2());
        o.row("enhanced REP MOVSB/STOSB", info.has_rep_movsb_stosb());
        o.row("INVPCID instruction", info.has_invpcid());
        o.row("RTM: restricted transactional memory", info.has_rtm());
        o.row("RDT-CMT/PQoS cache monitoring", info.has_rdtm());
        o.row("deprecated FPU CS/DS", info.has_fpu_cs_ds_deprecated());
        o.row("MPX: intel memory protection extensions", info.has_mpx());
        o.row("RDT-CAT/PQE cache allocation", info.has_rdta());
        o.row("AVX512F: AVX-512 foundation instructions", info.has_avx512f());
        o.row("AVX512-4NNIW: 4NNIW instructions", info.has_avx512_4vnniw());
        o.row("AVX512-4FMAPS: 4FMAPS instructions", info.has_avx512_4fmaps());
        o.row("AVX512-VP2INTERSECT: VP2INTERSECT instructions", info.has_avx512_vp2intersect());
        o.row("AMX_BF16: AMX_BF16 instructions", info.has_amx_bf16());
        o.row("AVX512_FP16: AVX512_FP16 instructions", info.has_avx512_fp16());
        o.row("AMX_TILE: Tile Architecture support", info.has_amx_tile());
        o.row("AMX_INT8: Tile Computational Operation on 8-bit integers", info.has_amx_int8());
        o.row("AVX512DQ: double & quadword instructions", info.has_avx512dq());
        o.row("RDSEED instruction", info.has_rdseed());
        o.row("ADX instructions", info.has_adx());
        o.row("SMAP: supervisor mode access prevention", info.has_smap());
        o.row("AVX512IFMA: fused multiply add", info.has_avx512_ifma());
        o.row("CLFLUSHOPT instruction", info.has_clflushopt());
        o.row("CLWB instruction", info.has_clwb());
        o.row("Intel processor trace", info.has_processor_trace());
        o.row("AVX512PF: prefetch instructions", info.has_avx512pf());
        o.row("AVX512ER: exponent & reciprocal instrs", info.has_avx512er());
        o.row("AVX512CD: conflict detection instrs", info.has_avx512cd());
        o.row("SHA instructions", info.has_sha());
        o.row("AVX512BW: byte & word instructions", info.has_avx512bw());
        o.row("AVX512VL: vector length", info.has_avx512vl());
        o.row("PREFETCHWT1", info.has_prefetchwt1());
        o.row("UMIP: user-mode instruction prevention", info.has_umip());
        o.row("PKU protection keys for user-mode", info.has_pku());
        o.row("OSPKE CR4.PKE and RDPKRU/WRPKRU", info.has_ospke());
        o.row("AVX512VNNI: vector neural network instructions", info.has_avx512vnni());
        o.row("BNDLDX/BNDSTX MAWAU value in 64-bit mode", info.mawau_value());
        o.row("RDPID: read processor ID", info.has_rdpid());
        o.row("SGX_LC: SGX launch config", info.has_sgx_lc());
        o.row("AVX_VNNI: AVX vector neural network instructions", info.has_avx_vnni());
        o.row("AVX512_BF16: AVX512 BF16 instructions", info.has_avx512_bf16());
        o.row("FZRMK: fast zero-length REP MOVSB256", info.has_fzrm());
        o.row("FSRM: fast short REP STOSB", info.has_fsrs());
        o.row("FSRCRS: fast short REP CMPSB, REP SCASB", info.has_fsrcrs());
        o.row("HRESET: HRESET instruction", info.has_hreset());
        o.row("CET_SSS: CET_SSS support", info.has_cet_sss());
    }

    if let Some(info) = cpuid.get_direct_cache_access_info() {
        o.head("Direct Cache Access Parameters (0x09):");
        o.attr("PLATFORM_DCA_CAP MSR bits", info.get_dca_cap_value());
    }

    if let Some(info) = cpuid.get_performance_monitoring_info() {
        o.head("Architecture Performance Monitoring Features (0x0a)");

        o.head("Monitoring Hardware Info (0x0a/{eax, edx}):");
        o.row("version ID", info.version_id());
        o.row("number of counters per HW thread", info.number_of_counters());
        o.row("bit width of counter", info.counter_bit_width());
        o.row("length of EBX bit vector", info.ebx_length());
        o.row("number of fixed counters", info.fixed_function_counters());
        o.row("bit width of fixed counters", info.fixed_function_counters_bit_width());
        o.row("anythread deprecation", info.has_any_thread_deprecation());

        o.head("Monitoring Hardware Features (0x0a/ebx):");
        o.row("core cycle event not available", info.is_core_cyc_ev_unavailable());
        o.row("instruction retired event not available", info.is_inst_ret_ev_unavailable());
        o.row("reference cycles event not available", info.is_ref_cycle_ev_unavailable());
        o.row("last-level cache ref event not available", info.is_cache_ref_ev_unavailable());
        o.row("last-level cache miss event not avail", info.is_ll_cache_miss_ev_unavailable());
        o.row("branch inst retired event not available", info.is_branch_inst_ret_ev_unavailable());
        o.row("branch mispred retired event not available", info.is_branch_midpred_ev_unavailable());
    }

    if let Some(info) = cpuid.get_extended_topology_info() {
        o.head("x2APIC features / processor topology (0x0b):");

        for level in info {
            o.head(format!("level {}:", level.level_number()).as_str());
            o.row("level type", level.level_type());
            o.row("bit width of level", level.shift_right_for_next_apic_id());
            o.row("number of logical processors at level", level.processors());
            o.row("x2apic id of current processor", level.x2apic_id());
        }
    }

    if let Some(info) = cpuid.get_extended_state_info() {
        o.head("Extended Register State (0x0d/0):");

        o.head("XCR0/IA32_XSS supported states:");
        o.row3("XCR0", "x87", info.xcr0_supports_legacy_x87());
        o.row3("XCR0", "SSE state", info.xcr0_supports_sse_128());
        o.row3("XCR0", "AVX state", info.xcr0_supports_avx_256());
        o.row3("XCR0", "MPX BNDREGS", info.xcr0_supports_mpx_bndregs());
        o.row3("XCR0", "MPX BNDCSR", info.xcr0_supports_mpx_bndcsr());
        o.row3("XCR0", "AVX-512 opmask", info.xcr0_supports_avx512_opmask());
        o.row3("XCR0", "AVX-512 ZMM_Hi256", info.xcr0_supports_avx512_zmm_hi256());
        o.row3("XCR0", "AVX-512 Hi16_ZMM", info.xcr0_supports_avx512_zmm_hi16());
        o.row3("IA32_XSS", "PT", info.ia32_xss_supports_pt());
        o.row3("XCR0", "PKRU", info.xcr0_supports_pkru());
        o.row3("IA32_XSS", "HDC", info.ia32_xss_supports_hdc());

        o.row("bytes required by fields in XCR0", info.xsave_area_size_enabled_features());
        o.row("bytes required by XSAVE/XRSTOR area", info.xsave_area_size_supported_features());

        o.head("XSAVE features (0x0d/1):");
        o.row("XSAVEOPT instruction", info.has_xsaveopt());
        o.row("XSAVEC instruction", info.has_xsavec());
        o.row("XGETBV instruction", info.has_xgetbv());
        o.row("XSAVES/XRSTORS instructions", info.has_xsaves_xrstors());
        o.row("SAVE area size [Bytes]", info.xsave_size());

        for state in info.iter() {
            o.head(format!("{} features (0x0d/{}):", state.register(), state.subleaf).as_str());
            o.row("save state size [Bytes]", state.size());
            o.row("save state byte offset", state.offset());
            o.row("supported in IA32_XSS or XCR0", state.location());
            o.row("64-byte alignment in compacted XSAVE", state.is_compacted_format());
        }
    }

    if let Some(info) = cpuid.get_rdt_monitoring_info() {
        o.head("Quality of Service Monitoring Resource Type (0x0f/0):");
        o.row("Maximum range of RMID", info.rmid_range());
        o.row("L3 cache QoS monitoring", info.has_l3_monitoring());

        if let Some(rmid) = info.l3_monitoring() {
            o.head("L3 Cache Quality of Service Monitoring (0x0f/1):");

            o.row("Conversion factor from IA32_QM_CTR to bytes", rmid.conversion_factor());
            o.row("Maximum range of RMID", rmid.maximum_rmid_range());
            o.row("L3 occupancy monitoring", rmid.has_occupancy_monitoring());
            o.row("L3 total bandwidth monitoring", rmid.has_total_bandwidth_monitoring());
            o.row("L3 local bandwidth monitoring", rmid.has_local_bandwidth_monitoring());
        }
    }

    if let Some(info) = cpuid.get_rdt_allocation_info() {
        o.head("Resource Director Technology Allocation (0x10/0)");
        o.row("L3 cache allocation technology", info.has_l3_cat());
        o.row("L2 cache allocation technology", info.has_l2_cat());
        o.row("memory bandwidth allocation", info.has_memory_bandwidth_allocation());

        if let Some(l3_cat) = info.l3_cat() {
            o.head("L3 Cache Allocation Technology (0x10/1):");
            o.row("length of capacity bit mask", l3_cat.capacity_mask_length());
            o.row("Bit-granular map of isolation/contention", l3_cat.isolation_bitmap());
            o.row("code and data prioritization", l3_cat.has_code_data_prioritization());
            o.row("highest COS number", l3_cat.highest_cos());
        }
        if let Some(l2_cat) = info.l2_cat() {
            o.head("L2 Cache Allocation Technology (0x10/2):");
            o.row("length of capacity bit mask", l2_cat.capacity_mask_length());
            o.row("Bit-granular map of isolation/contention", l2_cat.isolation_bitmap());
            o.row("highest COS number", l2_cat.highest_cos());
        }
        if let Some(mem) = info.memory_bandwidth_allocation() {
            o.head("Memory Bandwidth Allocation (0x10/3):");
            o.row("maximum throttling value", mem.max_hba_throttling());
            o.row("delay values are linear", mem.has_linear_response_delay());
            o.row("highest COS number", mem.highest_cos());
        }
    }

    if let Some(info) = cpuid.get_sgx_info() {
        o.head("SGX - Software Guard Extensions (0x12/{0,1}):");

        o.row("SGX1", info.has_sgx1());
        o.row("SGX2", info.has_sgx2());
        o.row(
            "SGX ENCLV E*VIRTCHILD, ESETCONTEXT",
            info.has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext(),
        );
        o.row("SGX ENCLS ETRACKC, ERDINFO, ELDBC, ELDUC", info.has_encls_leaves_etrackc_erdinfo_eldbc_elduc());
        o.row("MISCSELECT", info.miscselect());
        o.row("MaxEnclaveSize_Not64 (log2)", info.max_enclave_size_non_64bit());
        o.row("MaxEnclaveSize_64 (log2)", info.max_enclave_size_64bit());

        for (idx, leaf) in info.iter().enumerate() {
            let SgxSectionInfo::Epc(section) = leaf;
            o.head(format!("Enclave Page Cache (0x12/{})", idx + 2).as_str());
            o.row("physical base address", section.physical_base());
            o.row("size", section.size());
        }
    }

    if let Some(info) = cpuid.get_processor_trace_info() {
        o.head("Intel Processor Trace (0x14):");
        o.row("IA32_RTIT_CR3_MATCH is accessible", info.has_rtit_cr3_match());
        o.row("configurable PSB & cycle-accurate", info.has_configurable_psb_and_cycle_accurate_mode());
        o.row("IP & TraceStop filtering; PT preserve", info.has_ip_tracestop_filtering());
        o.row("MTC timing packet; suppress COFI-based", info.has_mtc_timing_packet_coefi_suppression());
        o.row("PTWRITE", info.has_ptwrite());
        o.row("power event trace", info.has_power_event_trace());
        o.row("ToPA output scheme", info.has_topa());
        o.row("ToPA can hold many output entries", info.has_topa_maximum_entries());
        o.row("single-range output scheme support", info.has_single_range_output_scheme());
        o.row("output to trace transport", info.has_trace_transport_subsystem());
        o.row("IP payloads have LIP values & CS", info.has_lip_with_cs_base());
        o.row("configurable address ranges", info.configurable_address_ranges());
        o.row("supported MTC periods bitmask", info.supported_mtc_period_encodings());
        o.row("supported cycle threshold bitmask", info.supported_cycle_threshold_value_encodings());
        o.row("supported config PSB freq bitmask", info.supported_psb_frequency_encodings());
    }

    if let Some(info) = cpuid.get_tsc_info() {
        o.head("Time Stamp Counter/Core Crystal Clock Information (0x15):");
        o.row("TSC/clock ratio", format!("{} / {}", info.numerator(), info.denominator()));
        o.row("nominal core crystal clock", info.nominal_frequency());
    }

    if let Some(info) = cpuid.get_processor_frequency_info() {
        o.head("Processor Frequency Information (0x16):");
        o.row("Core Base Frequency (MHz)", info.processor_base_frequency());
        o.row("Core Maximum Frequency (MHz)", info.processor_max_frequency());
        o.row("Bus (Reference) Frequency (MHz)", info.bus_frequency());
    }

    if let Some(dat_iter) = cpuid.get_deterministic_address_translation_info() {
        for (idx, info) in dat_iter.enumerate() {
            o.head(format!("Deterministic Address Translation Structure (0x18/{}):", idx).as_str());
            o.row("number of sets", info.sets());
            o.row("4 KiB page size entries", info.has_4k_entries());
            o.row("2 MiB page size entries", info.has_2mb_entries());
            o.row("4 MiB page size entries", info.has_4mb_entries());
            o.row("1 GiB page size entries", info.has_1gb_entries());
            o.row("partitioning", info.partitioning());
            o.row("ways of associativity", info.ways());
            o.row("translation cache type", info.cache_type());
            o.row("translation cache level", info.cache_level());
            o.row("fully associative", info.is_fully_associative());
            o.row("maximum number of addressible IDs", info.max_addressable_ids());
            o.row("maximum number of addressible IDs", info.max_addressable_ids());
        }
    }

    if let Some(info) = cpuid.get_soc_vendor_info() {
        o.head("System-on-Chip (SoC) Vendor Info (0x17):");
        o.row("Vendor ID", info.get_soc_vendor_id());
        o.row("Project ID", info.get_project_id());
        o.row("Stepping ID", info.get_stepping_id());
        o.row("Vendor Brand", info.get_vendor_brand());

        if let Some(iter) = info.get_vendor_attributes() {
            for (idx, attr) in iter.enumerate() {
                o.result(format!("0x17 {:#x}", idx + 4), attr);
            }
        }
    }

    if let Some(info) = cpuid.get_processor_brand_string() {
        o.attr("Processor Brand String", format!("\"**{}**\"", info.as_str()));
    }

    if let Some(info) = cpuid.get_l1_cache_and_tlb_info() {
        o.head("L1 TLB 2/4 MiB entries (0x8000_0005/eax):");
        o.row("iTLB #entries", info.itlb_2m_4m_size());
        o.row("iTLB associativity", info.itlb_2m_4m_associativity());
        o.row("dTLB #entries", info.dtlb_2m_4m_size());
        o.row("dTLB associativity", info.dtlb_2m_4m_associativity());

        o.head("L1 TLB 4 KiB entries (0x8000_0005/ebx):");
        o.row("iTLB #entries", info.itlb_4k_size());
        o.row("iTLB associativity", info.itlb_4k_associativity());
        o.row("dTLB #entries", info.dtlb_4k_size());
        o.row("dTLB associativity", info.dtlb_4k_associativity());

        o.head("L1 dCache (0x8000_0005/ecx):");
        o.row("line size [Bytes]", info.dcache_line_size());
        o.row("lines per tag", info.dcache_lines_per_tag());
        o.row("associativity", info.dcache_associativity());
        o.row("size [KiB]", info.dcache_size());

        o.head("L1 iCache (0x8000_0005/edx):");
        o.row("line size [Bytes]", info.icache_line_size());
        o.row("lines per tag", info.icache_lines_per_tag());
        o.row("associativity", info.icache_associativity());
        o.row("size [KiB]", info.icache_size());
    }

    if let Some(info) = cpuid.get_l2_l3_cache_and_tlb_info() {
        o.head("L2 TLB 2/4 MiB entries (0x8000_0006/eax):");
        o.row("iTLB #entries", info.itlb_2m_4m_size());
        o.row("iTLB associativity", info.itlb_2m_4m_associativity());
        o.row("dTLB #entries", info.dtlb_2m_4m_size());
        o.row("dTLB associativity", info.dtlb_2m_4m_associativity());

        o.head("L2 TLB 4 KiB entries (0x8000_0006/ebx):");
        o.row("iTLB #entries", info.itlb_4k_size());
        o.row("iTLB associativity", info.itlb_4k_associativity());
        o.row("dTLB #entries", info.dtlb_4k_size());
        o.row("dTLB associativity", info.dtlb_4k_associativity());

        o.head("L2 Cache (0x8000_0006/ecx):");
        o.row("line size [Bytes]", info.l2cache_line_size());
        o.row("lines per tag", info.l2cache_lines_per_tag());
        o.row("associativity", info.l2cache_associativity());
        o.row("size [KiB]", info.l2cache_size());

        o.head("L3 Cache (0x8000_0006/edx):");
        o.row("line size [Bytes]", info.l3cache_line_size());
        o.row("lines per tag", info.l3cache_lines_per_tag());
        o.row("associativity", info.l3cache_associativity());
        o.row("size [KiB]", info.l3cache_size() as usize * 512);
    }

    if let Some(info) = cpuid.get_advanced_power_mgmt_info() {
        o.head("RAS Capability (0x8000_0007/ebx):");
        o.row("MCA overflow recovery", info.has_mca_overflow_recovery());
        o.row("SUCCOR", info.has_succor());
        o.row("HWA: hardware assert", info.has_hwa());

        o.head("Advanced Power Management (0x8000_0007/ecx):");
        o.attr("Ratio of Compute Unit Power Acc. sample period to TSC", info.cpu_pwr_sample_time_ratio());

        o.head("Advanced Power Management (0x8000_0007/edx):");
        o.row("TS: temperature sensing diode", info.has_ts());
        o.row("FID: frequency ID control", info.has_freq_id_ctrl());
        o.row("VID: voltage ID control", info.has_volt_id_ctrl());
        o.row("TTP: thermal trip", info.has_thermtrip());
        o.row("TM: thermal monitor", info.has_tm());
        o.row("100 MHz multiplier control", info.has_100mhz_steps());
        o.row("hardware P-State control", info.has_hw_pstate());
        o.row("Invariant TSC", info.has_invariant_tsc());
        o.row("CPB: core performance boost", info.has_cpb());
        o.row("read-only effective frequency interface", info.has_ro_effective_freq_iface());
        o.row("processor feedback interface", info.has_feedback_iface());
        o.row("APM power reporting", info.has_power_reporting_iface());
    }

    if let Some(info) = cpuid.get_processor_capacity_feature_info() {
        o.head("Physical Address and Linear Address Size (0x8000_0008/eax):");
        o.row("maximum physical address [Bits]", info.physical_address_bits());
        o.row("maximum linear (virtual) address [Bits]", info.linear_address_bits());
        o.row("maximum guest physical address [Bits]", info.guest_physical_address_bits());

        o.head("Extended Feature Extensions ID (0x8000_0008/ebx):");
        o.row("CLZERO", info.has_cl_zero());
        o.row("instructions retired count", info.has_inst_ret_cntr_msr());
        o.row("always save/restore error pointers", info.has_restore_fp_error_ptrs());
        o.row("RDPRU", info.has_rdpru());
        o.row("INVLPGB", info.has_invlpgb());
        o.row("MCOMMIT", info.has_mcommit());
        o.row("WBNOINVD", info.has_wbnoinvd());
        o.row("WBNOINVD/WBINVD interruptible", info.has_int_wbinvd());
        o.row("EFER.LMSLE unsupported", info.has_unsupported_efer_lmsle());
        o.row("INVLPGB with nested paging", info.has_invlpgb_nested());

        o.head("Size Identifiers (0x8000_0008/ecx):");
        o.row("Logical processors", info.num_phys_threads());
        o.row("APIC core ID size", info.apic_id_size());
        o.row("Max. logical processors", info.maximum_logical_processors());
        o.row("Perf. TSC size [Bits]", info.perf_tsc_size());

        o.head("Size Identifiers (0x8000_0008/edx):");
        o.row("RDPRU max. input value", info.max_rdpru_id());
        o.row("INVLPGB max. #pages", info.invlpgb_max_pages());
    }

    if let Some(info) = cpuid.get_svm_info() {
        o.head("SVM Secure Virtual Machine (0x8000_000a/eax):");
        o.attr("Revision", info.revision());

        o.head("SVM Secure Virtual Machine (0x8000_000a/edx):");
        o.row("nested paging", info.has_nested_paging());
        o.row("LBR virtualization", info.has_lbr_virtualization());
        o.row("SVM lock", info.has_svm_lock());
        o.row("NRIP", info.has_nrip());
        o.row("MSR based TSC rate control", info.has_tsc_rate_msr());
        o.row("VMCB clean bits support", info.has_vmcb_clean_bits());
        o.row("flush by ASID", info.has_flush_by_asid());
        o.row("decode assists", info.has_decode_assists());
        o.row("pause intercept filter", info.has_pause_filter());
        o.row("pause filter threshold", info.has_pause_filter_threshold());
        o.row("AVIC: virtual interrupt controller", info.has_avic());
        o.row("virtualized VMLOAD/VMSAVE", info.has_vmsave_virtualization());
        o.row("GIF: virtual global interrupt flag", info.has_gif());
        o.row("GMET: guest mode execute trap", info.has_gmet());
        o.row("SPEC_CTRL virtualization", info.has_spec_ctrl());
        o.row("Supervisor shadow-stack restrictions", info.has_sss_check());
        o.row("#MC intercept", info.has_host_mce_override());
        o.row("INVLPGB/TLBSYNC virtualization", info.has_tlb_ctrl());
    }

    if let Some(info) = cpuid.get_tlb_1gb_page_info() {
        o.head("TLB 1-GiB Pages Info (0x8000_0019):");
        o.row("L1 iTLB #entries", info.itlb_l1_1gb_size());
        o.row("L1 iTLB associativity", info.itlb_l1_1gb_associativity());
        o.row("L1 dTLB #entries", info.dtlb_l1_1gb_size());
        o.row("L1 dTLB associativity", info.dtlb_l1_1gb_associativity());
        o.row("L2 iTLB #entries", info.itlb_l2_1gb_size());
        o.row("L2 iTLB associativity", info.itlb_l2_1gb_associativity());
        o.row("L2 dTLB #entries", info.dtlb_l2_1gb_size());
        o.row("L2 dTLB associativity", info.dtlb_l2_1gb_associativity());
    }

    if let Some(info) = cpuid.get_performance_optimization_info() {
        o.head("Performance Optimization Info (0x8000_001a):");
        o.row("128-bits width the internal FP/SIMD", info.has_fp128());
        o.row("MOVU SSE are efficient more than MOVL/MOVH", info.has_movu());
        o.row("256-bits width the internal FP/SIMD", info.has_fp256());
    }

    if let Some(info) = cpuid.get_instruction_based_sampling_capabilities() {
        o.head("Instruction-Based Sampling Capabilities (0x8000_001b):");
        o.row("IBS feature flags valid", info.has_feature_flags());
        o.row("IBS fetch sampling supporte", info.has_fetch_sampling());
        o.row("IBS execution sampling supported", info.has_execution_sampling());
        o.row("Read write of op counter supported", info.has_read_write_operation_counter());
        o.row("Op counting mode supported", info.has_operation_counter());
        o.row("Branch target address reporting supported", info.has_branch_target_address_reporting());
        o.row("IbsOpCurCnt and IbsOpMaxCnt extend by 7 bits", info.has_operation_counter_extended());
        o.row("Invalid RIP indication supported", info.has_invalid_rip_indication());
        o.row("Fused branch micro-op indication supported", info.has_fused_branch_micro_op_indication());
        o.row("L3 Miss Filtering for IBS supported", info.has_l3_miss_filtering());
    }

    if let Some(info) = cpuid.get_processor_topology_info() {
        o.head("Processor Topology Info (0x8000_001e):");
        o.row("x2APIC ID", info.x2apic_id());
        o.row("Core ID", info.core_id());
        o.row("Threads per core", info.threads_per_core());
        o.row("Node ID", info.node_id());
        o.row("Nodes per processor", info.nodes_per_processor());
    }

    if let Some(info) = cpuid.get_memory_encryption_info() {
        o.head("Memory Encryption Support (0x8000_001f):");
        o.row("SME: Secure Memory Encryption", info.has_sme());
        o.row("SEV: Secure Encrypted Virtualization", info.has_sev());
        o.row("Page Flush MSR", info.has_page_flush_msr());
        o.row("SEV-ES: Encrypted State", info.has_sev_es());
        o.row("SEV Secure Nested Paging", info.has_sev_snp());
        o.row("VM Permission Levels", info.has_vmpl());
        o.row("Hardware cache coherency across encryption domains", info.has_hw_enforced_cache_coh());
        o.row("SEV guests only with 64-bit host", info.has_64bit_mode());
        o.row("Restricted injection", info.has_restricted_injection());
        o.row("Alternate injection", info.has_alternate_injection());
        o.row("Full debug state swap for SEV-ES guests", info.has_debug_swap());
        o.row("Disallowing IBS use by the host supported", info.has_prevent_host_ibs());
        o.row("Virtual Transparent Encryption", info.has_vte());
        o.row("C-bit position in page-table", info.c_bit_position());
        o.row("Physical address bit reduction", info.physical_address_reduction());
        o.row("Max. simultaneouslys encrypted guests", info.max_encrypted_guests());
        o.row("Minimum ASID value for SEV guest", info.min_sev_no_es_asid());
    }

    if let Some(info) = cpuid.get_pqos_extended_feature_info() {
        o.head("Platform Quality of Service (0x8000_0020/0):");
        o.row("Memory Bandwidth Enforcement", info.has_l3mbe());
        o.row("Slow Memory Bandwidth Enforcement", info.has_l3smbe());
        o.row("Bandwidth Monitoring Event Configuration", info.has_bmec());
        o.row("L3 Range Reservation", info.has_l3rr());
        o.row("Assignable Bandwidth Monitoring Counters", info.has_abmc());
        o.row("Smart Data Cache Injection (SDCI) Allocation Enforcement", info.has_sdciae());

        if let Some(info) = info.get_l3_memory_bandwidth_enforcement_info() {
            o.head("L3 Memory Bandwidth Enforcement Information (0x8000_0020/1):");
            o.row("Bandwidth Length", info.bandwidth_length());
            o.row("COS Number", info.cos_max());
        }
        if let Some(info) = info.get_l3_slow_memory_bandwidth_enforcement_info() {
            o.head("L3 Slow Memory Bandwidth Enforcement Information (0x8000_0020/2):");
            o.row("Bandwidth Length", info.bandwidth_length());
            o.row("COS Number", info.cos_max());
        }
        if let Some(info) = info.get_bandwidth_monitoring_event_counters_info() {
            o.head("Bandwidth Monitoring Event Counters Information (0x8000_0020/3):");
            o.row("Number of configurable bandwidth events", info.number_events());
            o.row("Reads to local DRAM memory", info.has_l3_cache_lcl_bw_fill_mon());
            o.row("Reads to remote DRAM memory", info.has_l3_cache_rmt_bw_fill_mon());
            o.row("Non-temporal writes to local memory", info.has_l3_cache_lcl_bw_nt_wr_mon());
            o.row("Non-temporal writes to remote memory", info.has_l3_cache_rmt_bw_nt_wr_mon());
            o.row("Reads to local memory identified as 'Slow Memory'", info.has_l3_cache_lcl_slow_bw_fill_mon());
            o.row("Reads to remote memory identified as 'Slow Memory'", info.has_l3_cache_rmt_slow_bw_fill_mon());
            o.row("Dirty victim writes to all types of memory”.", info.has_l3_cache_vic_mon());
        }
        if let Some(info) = info.get_assignable_bandwidth_monitoring_counters_info() {
            o.head("Assignable Bandwidth Monitoring Counters Information (0x8000_0020/5):");
            o.row("Indicates that QM_CTR bit 61 is an overflow bit", info.has_overflow_bit());
            o.row("QM_CTR counter width, offset from 24 bits", info.counter_size());
            o.row("Maximum supported ABMC counter ID", info.max_abmc());
            o.row("Bandwidth counters can be configured", info.has_select_cos());
        }
    }

    if let Some(info) = cpuid.get_extended_feature_identification_2() {
        o.head("Extended Feature Identification (0x8000_0021):");
        o.row("Processor ignores nested data breakpoints", info.has_no_nested_data_bp());
        o.row("LFENCE is always dispatch serializing", info.has_lfence_always_serializing());
        o.row("SMM paging configuration lock supported", info.has_smm_pg_cfg_lock());
        o.row(
            "Null segment selector loads also clear the destination segment register base and limit",
            info.has_null_select_clears_base(),
        );
        o.row("Upper Address Ignore is supported", info.has_upper_address_ignore());
        o.row("Automatic IBRS", info.has_automatic_ibrs());
        o.row("SMM_CTL MSR (C001_0116h) is not supporte", info.has_no_smm_ctl_msr());
        o.row("Prefetch control MSR supporte", info.has_prefetch_ctl_msr());
        o.row("CPUID disable for non-privileged softwar", info.has_cpuid_user_dis());
        o.row("The size of the Microcode patch in 16-byte multiples", info.microcode_patch_size());
    }

    if let Some(info) = cpuid.get_extended_performance_monitoring_and_debug() {
        o.head("Extended Performance Monitoring and Debug (0x8000_0022):");
        o.row("Performance Monitoring Version 2 supported", info.has_perf_mon_v2());
        o.row("Last Branch Record Stack supported", info.has_lbr_stack());
        o.row("LbrAndPmcFreeze", info.has_lbr_and_pmc_freeze());
        o.row("Number of Core Performance Counters", info.num_perf_ctr_core());
        o.row("Number of Last Branch Record Stack entries", info.num_lbr_stack_size());
        o.row("Number of Northbridge Performance Monitor Counters", info.num_perf_ctr_nb());
    }

    if let Some(info) = cpuid.get_multi_key_encrypted_memory_capabilities() {
        o.head("Multi-Key Encrypted Memory Capabilities (0x8000_0023):");
        o.row("Secure Host Multi-Key Memory (MEM-HMK) Encryption Mode Supported", info.has_mem_hmk());
        o.row("MaxMemHmkEncrKeyID", info.max_mem_hmk_encr_key_id());
    }

    if let Some(info) = cpuid.get_extended_cpu_topology() {
        for (level, info) in info.enumerate() {
            o.head(&format!("Extended CPU Topology (0x8000_0026/{level}):"));
            o.row("Mask Width", info.mask_width());
            o.row("Efficiency Ranking Available", info.has_efficiency_ranking_available());
            o.row("Heterogeneous Cores", info.has_heterogeneous_cores());
            o.row("Asymmetric Topology", info.has_asymmetric_topology());
            o.row("Number of logical processors at the current hierarchy level", info.num_logical_processors());
            o.row("Static efficiency ranking between cores of a specific core type", info.pwr_efficiency_ranking());
            o.row("Native Mode Id", info.native_mode_id());
            o.row("Core Type", info.core_type());
            o.row("Level Type", info.level_type().to_string());
            o.row("Extended APIC ID of the logical processo", info.extended_apic_id());
        }
    }
}
