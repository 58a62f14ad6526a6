#![allow(clippy::all)]
mod fix;
mod hist;
mod mor;
mod store;
mod t0;
mod t1;
mod t10;
mod t11;
mod t12;
mod t13;
mod t14;
mod t15;
mod t16;
mod t2;
mod t3;
mod t4;
mod t5;
mod t6;
mod t7;
mod t8;
mod t9;
symrt::harnesses!(t0::hv_smoke, t0::hv_instant, t1::hv_e2e, t1::hv_snap3, t2::hv_tl_kinds, t2::hv_tl_mixed, t2::hv_tl_deep, t2::hv_tl_stray, t2::hv_inst_date, t2::hv_inst_time, t2::hv_inst_secs, t2::hv_inst_millis, t2::hv_inst_year, t2::hv_inst_year4, t2::hv_inst_garbage, t2::hv_inst_parts, t3::hv_crash_commit, t3::hv_crash_replace, t3::hv_crash_wide, t3::hv_crash_rows, t3::hv_repeat, t3::hv_repeat2, t4::hv_replaced, t4::hv_replaced2, t4::hv_replaced_pending, t4::hv_inc, t4::hv_inc_replace, t4::hv_inc_pending, t5::hv_prune_str, t5::hv_prune_str3, t5::hv_prune_int, t5::hv_prune_two, t5::hv_prune_two_all, t5::hv_prune_enc, t5::hv_prune_dirs, t5::hv_prune_types, t5::hv_prune_types_all, t5::hv_prune_many, t6::hv_filter_int, t6::hv_filter_long, t6::hv_filter_literal, t6::hv_filter_range, t6::hv_filter_str, t6::hv_filter_ops, t6::hv_splits, t6::hv_splits9, t6::hv_basename, t6::hv_basename_bytes, t6::hv_logname_bytes, t6::hv_logname, t6::hv_logorder, t6::hv_logorder3, t6::hv_md_groups, t6::hv_md_bad, t7::hv_mor_asof, t7::hv_mor_pending, t7::hv_mor_rollback, t7::hv_mor_compact, t7::hv_mor_inc, t7::hv_mor_later_block, t7::hv_merge, t7::hv_merge4, t7::hv_merge_types, t8::hv_log_frame, t8::hv_log_frame3, t8::hv_log_trunc, t8::hv_log_corrupt1, t8::hv_log_corrupt2, t9::hv_fault, t9::hv_live, t9::hv_handle, t9::hv_handle_filters, t9::hv_join, t9::hv_join2, t10::hv_assembly, t10::hv_fg_merge, t10::hv_conf_prec, t10::hv_conf_parse, t10::hv_conf_parse4, t10::hv_conf_values, t10::hv_conf_missing, t10::hv_conf_parallelism, t11::hv_avro_scalar, t11::hv_avro_list, t11::hv_avro_list3, t11::hv_avro_nested, t11::hv_avro_unsupported, t12::hv_loc_parts, t12::hv_loc_base, t12::hv_schema, t12::hv_readers, t12::hv_reader_base, t12::hv_arg14, t12::hv_arg14_mor, t12::hv_arg_bad, t13::hv_crash_two, t13::hv_tl_cluster, t13::hv_ls_stray, t13::hv_log_many, t13::hv_row_groups, t13::hv_mor_rollback2, t14::hv_local, t14::hv_local_table, t14::hv_range, t14::hv_merge_columns, t6::hv_filter_tuple, t15::hv_conf_env, t16::hv_vary, t16::hv_big, t16::hv_mor_vary);
