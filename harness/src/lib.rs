//! Harnesses: each entry states one obligation over the real code of /repo for symbolic inputs.
#![allow(clippy::all)]
#[macro_use]
mod macros {
    macro_rules! entries {
        ($($n:ident = $m:ident :: $f:ident;)*) => {
            $( #[no_mangle] pub extern "C-unwind" fn $n() { crate::$m::$f() } )*
            pub static ENTRIES: &[(&str, fn())] = &[$((stringify!($n), crate::$m::$f)),*];
        }
    }
}
pub mod prim;
pub mod compact;
pub mod store;
pub mod index;
pub mod chunk;
pub mod db;
pub mod server;
pub mod laws;
pub mod wal;
pub mod life;
pub mod faults;
pub mod options;
pub mod crash;
pub mod run;
pub mod scale;
pub mod tikv;

entries! {
    h_gor_time = compact::gor_time;
    h_gor_val2 = compact::gor_val2;
    h_gor_val3 = compact::gor_val3;
    h_gor_win3 = compact::gor_win3;
    h_gor_seq = compact::gor_seq;
    h_none_round = compact::none_round;
    h_tags = compact::tags;
    h_none_junk = compact::none_junk;
    h_gor_long = compact::gor_long;
    h_none_long = compact::none_long;
    h_gor_junk_short = compact::gor_junk_short;
    h_gor_junk2 = compact::gor_junk2;
    h_gor_junk_tail = compact::gor_junk_tail;
    h_st_sled_range = store::sled_range;
    h_st_tikv_range = store::tikv_range;
    h_st_sled_any = store::sled_any_order;
    h_st_tikv_any = store::tikv_any_order;
    h_st_sled_iso = store::sled_isolated;
    h_st_tikv_iso = store::tikv_isolated;
    h_st_tikv_shared = store::tikv_shared;
    h_st_sled_reopen = store::sled_reopen;
    h_st_sled_many = store::sled_many;
    h_st_tikv_many = store::tikv_many;
    h_ix_sled_exact = index::sled_exact;
    h_ix_tikv_exact = index::tikv_exact;
    h_ix_sled_readback = index::sled_readback;
    h_ix_tikv_readback = index::tikv_readback;
    h_ix_sled_unicode = index::sled_unicode;
    h_ix_sled_contains = index::sled_contains;
    h_ix_tikv_contains = index::tikv_contains;
    h_ix_sled_many = index::sled_contains_many;
    h_ix_tikv_many = index::tikv_contains_many;
    h_ix_tikv_shared = index::tikv_shared;
    h_ix_sled_reopen = index::sled_reopen;
    h_ix_sled_exact_wide = index::sled_exact_wide;
    h_ix_tikv_exact_wide = index::tikv_exact_wide;
    h_ix_sled_readback_wide = index::sled_readback_wide;
    h_ix_tikv_readback_wide = index::tikv_readback_wide;
    h_ix_sled_crowd = index::sled_crowd;
    h_ix_tikv_crowd = index::tikv_crowd;
    h_ids2 = index::intersect2;
    h_ids3 = index::intersect3;
    h_ids4 = index::intersect4;
    h_ids_many = index::intersect_many;
    h_ids_long = index::intersect_long;
    h_ids_six = index::intersect_six;
    h_ids_wide = index::intersect_wide;
    h_ch_sled_acked = chunk::sled_acked;
    h_ch_tikv_acked = chunk::tikv_acked;
    h_ch_sled_several = chunk::sled_several;
    h_ch_tikv_several = chunk::tikv_several;
    h_ch_mixed = chunk::mixed_several;
    h_ch_two = chunk::tikv_two_chunks;
    h_ch_sled_crowd = chunk::sled_crowd;
    h_ch_tikv_crowd = chunk::tikv_crowd;
    h_db_merge = db::merge2;
    h_db_merge_pairs = db::merge_pairs;
    h_db_merge_series = db::merge_series;
    h_db_merge_chunks = db::merge_chunks;
    h_db_batch_kv = db::batch_kv;
    h_db_batch_sled = db::batch_sled;
    h_db_batch_two = db::batch_two;
    h_db_batch_long_kv = db::batch_long_kv;
    h_db_batch_long_sled = db::batch_long_sled;
    h_db_timer = db::timer;
    h_db_timer_again = db::timer_again;
    h_cc_swap_query = db::swap_query;
    h_cc_swap_write = db::swap_write;
    h_cc_swap_write_query = db::swap_write_query;
    h_cc_swap_write_query_deep = db::swap_write_query_deep;
    h_cc_write_write = db::write_write;
    h_cc_write_write_deep = db::write_write_deep;
    h_cc_write_query = db::write_query;
    h_cc_write_query_deep = db::write_query_deep;
    h_cc_three = db::three;
    h_cc_three_deep = db::three_deep;
    h_fl_swap = faults::swap;
    h_sv_write_read = server::write_read;
    h_sv_write_many = server::write_many;
    h_sv_write_labels = server::write_labels;
    h_sv_http = server::http;
    h_sv_junk_message = server::junk_message;
    h_sv_junk_body = server::junk_body;
    h_sv_cut = server::cut;
    h_sv_flip = server::flip;
    h_sv_flip_read = server::flip_read;
    h_sv_junk_message3 = server::junk_message3;
    h_sv_cut_message = server::cut_message;
    h_sv_matcher_text = server::matcher_text;
    h_sv_matchers = server::matchers;
    h_law_label = laws::label_laws;
    h_law_labels = laws::labels_laws;
    h_law_sort = laws::labels_sort;
    h_law_point = laws::point_laws;
    h_law_apart = laws::point_apart;
    h_law_overlap = laws::overlap;
    h_dir_digits = laws::dir_digits;
    h_dir_distinct = laws::dir_distinct;
    h_dir_junk = laws::dir_junk;
    h_wal_entry = wal::entry;
    h_wal_any = wal::entry_any;
    h_wal_clone = wal::entry_clone;
    h_wal_segment = wal::segment;
    h_wal_run = wal::run;
    h_wal_fault = wal::segment_fault;
    h_wal_long = wal::entry_long;
    h_rs_reopen = life::reopen;
    h_rs_nested = life::nested;
    h_rs_future = life::future;
    h_rs_somewhere = life::somewhere;
    h_rs_dozen = life::dozen;
    h_rs_two_lives = life::two_lives;
    h_rs_clutter = life::clutter;
    h_rs_damaged = life::damaged_chunk;
    h_md_kinds = life::kinds;
    h_md_damaged = life::damaged;
    h_md_opts = life::chunk_opts;
    h_fl_insert = faults::insert;
    h_fl_query = faults::chunk_query;
    h_fl_db_query = faults::db_query;
    h_fl_index = faults::index;
    h_fl_storage = faults::storage;
    h_fl_server = faults::server;
    h_reg = faults::registry;
    h_reg_fault = faults::registry_fault;
    h_sc_sled_long = scale::sled_long;
    h_sc_tikv_long = scale::tikv_long;
    h_sc_sled_many = scale::sled_many;
    h_sc_tikv_many = scale::tikv_many;
    h_sc_sled_full = scale::sled_full;
    h_sc_tikv_full = scale::tikv_full;
    h_sc_chunks = scale::chunks;
    h_sc_same_time = scale::same_time;
    h_sc_batch_kv = scale::batch_kv;
    h_sc_batch_sled = scale::batch_sled;
    h_sc_ids = scale::ids;
    h_sc_served = scale::served;
    h_sc_wal = scale::wal;
    h_sc_restart = scale::restart;
    h_tk_reopen = tikv::reopen;
    h_tk_apart = tikv::apart;
    h_tk_opening = tikv::opening;
    h_tk_away = tikv::away;
    h_tk_config = tikv::config;
    h_tk_program = tikv::program;
    h_cr_open = crash::opening;
    h_cr_swap = crash::swapping;
    h_bin_defaults = run::defaults;
    h_bin_given = run::given;
    h_bin_refused = run::refused;
    h_bin_sizes = run::sizes;
    h_op_port = options::port;
    h_op_others = options::others;
    h_op_junk = options::junk;
    h_op_tikv = options::tikv;
}
