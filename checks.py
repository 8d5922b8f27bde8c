CHECKS = {
    "C01": {"entries": [("chan", "h_int_roundtrip", {}), ("chan", "h_float_roundtrip", {}), ("chan", "h_int_layout", {}), ("chan", "h_bytes_roundtrip", {})]},
    "C02": {"entries": [("chan", "h_bits_le_u", {}), ("chan", "h_bits_be_u", {}), ("chan", "h_bits_le_s", {}), ("chan", "h_bits_be_s", {}), ("chan", "h_half_bits", {}), ("chan", "h_single_bits", {}), ("chan", "h_double_bits", {})]},
    "C03": {"entries": [("chan", "h_set_bounds", {}), ("chan", "h_get_bounds_num", {}), ("chan", "h_get_bounds_float", {}), ("chan", "h_get_bounds_text", {}), ("chan", "h_get_bounds_bytes", {}), ("chan", "h_vlsd_bounds_text", {}), ("chan", "h_vlsd_bounds_bytes", {})]},
    "C04": {"entries": [("chan", "h_valid_bits", {})]},
    "C05": {"entries": [("conv", "h_cc_linear", {}), ("conv", "h_cc_rational", {}), ("conv", "h_cc_polynomial", {}), ("conv", "h_cc_interpolate", {}), ("conv", "h_cc_nearest", {}), ("conv", "h_cc_range", {}), ("conv", "h_cc_value_text", {}), ("conv", "h_cc_text", {}), ("conv", "h_cc3_text", {}), ("conv", "h_cc_copy", {})]},
    "C06": {"entries": [("e2e", e, {"preempt": 0, "timeouts": 0}) for e in ("h_m4_types", "h_m4_groups", "h_conv_groups", "h_m3_types", "h_m3_groups", "h_m4_append", "h_m3_append")]},
    "C07": {"entries": [("meta", e, {"preempt": 0, "timeouts": 0}) for e in ("h_header4", "h_source4", "h_attachment4", "h_event4", "h_hierarchy4", "h_group4", "h_channel4", "h_links4", "h_align4", "h_header3", "h_channel3")]},
    "C08": {"entries": [("frag", e, {"preempt": 0, "timeouts": 0}) for e in ("h_frag_sorted", "h_frag_unsorted", "h_frag_sd", "h_frag_sd_fetch", "h_frag_vlsd_group")]},
    "C09": {"entries": [("partial", e, {"preempt": 0, "timeouts": 0}) for e in ("h_partial4", "h_partial4_vlsd", "h_partial3")]},
    "C10": {"entries": [("bus", e, {"preempt": 0, "timeouts": 0}) for e in ("h_can_data", "h_can_data_cb", "h_can_remote", "h_can_error", "h_can_overload", "h_lin_a", "h_lin_b", "h_eth", "h_most_a", "h_most_b", "h_flexray_a", "h_flexray_b")]},
    "C11": {"entries": [("timetext", e, {}) for e in ("h_iso_date", "h_iso_time", "h_iso_text", "h_canopen_time", "h_canopen_time_back", "h_canopen_date", "h_canopen_date_back")]},
    "C12": {"entries": [("timetext", e, {}) for e in ("h_text_bytes", "h_text_utf16", "h_wide")]},
}
CHECKS["C13"] = {"entries": [("xml", e, {}) for e in ("h_md_props", "h_md_float", "h_md_tag", "h_md_tree", "h_etag_value", "h_property", "h_lists", "h_number", "h_formula", "h_names", "h_comments")] + [("xml", "h_file_texts", {"preempt": 0, "timeouts": 0})]}
_w = {"races": True, "preempt": 3, "timeouts": 1, "preempt_thorough": 4}
CHECKS["C14"] = {"entries": [("sched", e, _w) for e in ("h_worker4", "h_worker4_vlsd", "h_worker4_groups", "h_worker3", "h_worker3_groups", "h_worker_conv")] +
                 [("sched", "h_two_producers", dict(_w, preempt=2, preempt_thorough=3)), ("sched", "h_worker_ops", dict(_w, preempt=2, preempt_thorough=2))]}
CHECKS["C15"] = {"entries": [("sched", e, dict(_w, preempt=n, preempt_thorough=n + 1)) for e, n in (("h_pretrig4", 1), ("h_pretrig3", 2), ("h_pretrig_many", 2))]}
_r = {"hang": True, "instr": 40000000, "enum": 400, "preempt": 0, "timeouts": 0, "samples": 3}
_rz = dict(_r, no_native=True)  # the deflated bytes differ between the model and the native library
CHECKS["C16"] = {"entries": [("robust", "h_byte_" + e, _rz if "zip" in e else _r) for e in
    ("plain", "zip_a", "zip_b", "structure_a", "structure_b", "extras_a", "extras_b", "signal", "vlsd", "old", "old_one", "array")]
    + [("robust", "h_field_" + e, _rz if "zip" in e else _r) for e in ("structure", "extras", "plain", "zip", "signal", "vlsd", "old", "old_one", "array")]
    + [("robust", "h_conversion_" + e, _r) for e in "ba"]
    + [("robust", "h_cut_" + e, _rz if "zip" in e else _r) for e in ("structure", "extras", "zip", "vlsd", "old", "array")]}
