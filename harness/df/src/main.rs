#![allow(clippy::all, dead_code)]
#[path = "../../core/src/fix.rs"]
mod fix;
#[path = "../../core/src/hist.rs"]
mod hist;
#[path = "../../core/src/store.rs"]
mod store;
mod d0;
mod d1;
symrt::harnesses!(d0::hv_df_filters, d0::hv_df_pair, d0::hv_df_pair_all, d0::hv_df_paths, d0::hv_df_create, d0::hv_df_many, d1::hv_df_rows, d1::hv_df_rows_pred, d1::hv_df_fault);
