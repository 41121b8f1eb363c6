#![no_main]
#![allow(unused_must_use)]
mod shims;
mod u;
mod arr;
mod candlestick;
mod cms;
mod enc;
mod fin;
mod freq;
mod hb;
mod hll;
mod lam;
mod lttb;
mod met;
mod nmost;
mod st;
mod sto;
mod stx;
mod tdg;
mod tv;
mod twa;
mod udd;
sx::harnesses! {
    arr_candlestick => arr::candlestick,
    arr_state_agg => arr::state_agg,
    arr_timevector => arr::timevector,
    arr_nmost => arr::nmost,
    candlestick_seq => candlestick::seq,
    candlestick_split => candlestick::split,
    candlestick_volume => candlestick::volume,
    candlestick_given => candlestick::given,
    cms_seq => cms::seq,
    cms_split => cms::split,
    cms_subtract => cms::subtract,
    cms_mixed => cms::mixed,
    enc_zig => enc::zig,
    enc_diff => enc::diff,
    enc_one => enc::one,
    enc_all => enc::all,
    fin_numbers => fin::numbers,
    fin_wholes => fin::wholes,
    fin_series => fin::series,
    freq_seq => freq::seq,
    freq_split => freq::split,
    freq_more => freq::more,
    freq_any => freq::any,
    freq_mcv => freq::mcv,
    freq_text => freq::text,
    freq_mcv2 => freq::mcv2,
    freq_travel => freq::travel,
    hb_seq => hb::seq,
    hb_rollup => hb::rollup,
    hb_rollup3 => hb::rollup3,
    hb_interp => hb::interp,
    hb_trim => hb::trim,
    hb_cut => hb::cut,
    hb_outside => hb::outside,
    hb_trim_arrow => hb::trim_arrow,
    hll_forms => hll::forms,
    hll_merge => hll::merge,
    hll_sql => hll::sql,
    hll_size => hll::size,
    hll_many => hll::many,
    hll_mixed => hll::mixed,
    lam_num => lam::num,
    lam_truth => lam::truth,
    lam_times => lam::times,
    lam_refused => lam::refused,
    lam_prec => lam::prec,
    lttb_area => lttb::area,
    lttb_order => lttb::order,
    lttb_far => lttb::far,
    lttb_gap => lttb::gap,
    met_c_seq => met::c_seq,
    met_g_seq => met::g_seq,
    met_c_split => met::c_split,
    met_g_split => met::g_split,
    met_c_refused => met::c_refused,
    met_g_refused => met::g_refused,
    met_c_bounds => met::c_bounds,
    met_g_bounds => met::g_bounds,
    met_c_bad => met::c_bad,
    met_g_bad => met::g_bad,
    met_c_extra => met::c_extra,
    met_g_extra => met::g_extra,
    met_c_interp => met::c_interp,
    met_g_interp => met::g_interp,
    met_c_buckets => met::c_buckets,
    met_g_buckets => met::g_buckets,
    nmost_float_max => nmost::float_max,
    nmost_float_max_combine => nmost::float_max_combine,
    nmost_float_max_rollup => nmost::float_max_rollup,
    nmost_float_min => nmost::float_min,
    nmost_float_min_combine => nmost::float_min_combine,
    nmost_float_min_rollup => nmost::float_min_rollup,
    nmost_int_max => nmost::int_max,
    nmost_int_max_combine => nmost::int_max_combine,
    nmost_int_max_rollup => nmost::int_max_rollup,
    nmost_int_min => nmost::int_min,
    nmost_int_min_combine => nmost::int_min_combine,
    nmost_int_min_rollup => nmost::int_min_rollup,
    nmost_time_max => nmost::time_max,
    nmost_time_max_combine => nmost::time_max_combine,
    nmost_time_max_rollup => nmost::time_max_rollup,
    nmost_time_min => nmost::time_min,
    nmost_time_min_combine => nmost::time_min_combine,
    nmost_time_min_rollup => nmost::time_min_rollup,
    nmost_by_float_max => nmost::by_float_max,
    nmost_by_float_max_rollup => nmost::by_float_max_rollup,
    nmost_by_float_min => nmost::by_float_min,
    nmost_by_float_min_rollup => nmost::by_float_min_rollup,
    nmost_by_int_max => nmost::by_int_max,
    nmost_by_int_max_rollup => nmost::by_int_max_rollup,
    nmost_by_int_min => nmost::by_int_min,
    nmost_by_int_min_rollup => nmost::by_int_min_rollup,
    nmost_by_time_max => nmost::by_time_max,
    nmost_by_time_max_rollup => nmost::by_time_max_rollup,
    nmost_by_time_min => nmost::by_time_min,
    nmost_by_time_min_rollup => nmost::by_time_min_rollup,
    st_seq => st::seq,
    st_range => st::range,
    st_compact => st::compact,
    st_roll => st::roll,
    st_compact_roll => st::compact_roll,
    st_overlap => st::overlap,
    st_interp => st::interp,
    st_text => st::text,
    st_text_interp => st::text_interp,
    st_clash => st::clash,
    sto_plain => sto::plain,
    sto_lists => sto::lists,
    sto_counts => sto::counts,
    sto_nmost => sto::nmost,
    sto_states => sto::states,
    sto_pipelines => sto::pipelines,
    stx_seq => stx::seq,
    stx_window => stx::window,
    stx_split => stx::split,
    stx_seq2 => stx::seq2,
    stx_window2 => stx::window2,
    stx_split2 => stx::split2,
    stx_big => stx::big,
    stx_read => stx::read,
    stx_read2 => stx::read2,
    stx_line => stx::line,
    stx_method => stx::method,
    tdg_seq => tdg::seq,
    tdg_batch => tdg::batch,
    tdg_merge => tdg::merge,
    tdg_builders => tdg::builders,
    tdg_quantile => tdg::quantile,
    tdg_rank => tdg::rank,
    tdg_inverse => tdg::inverse,
    tdg_store => tdg::store,
    tdg_nothing => tdg::nothing,
    tv_seq => tv::seq,
    tv_long => tv::long,
    tv_sort => tv::sort,
    tv_filter => tv::filter,
    tv_delta => tv::delta,
    tv_map => tv::map,
    tv_arith => tv::arith,
    tv_fill => tv::fill,
    tv_fill_lin => tv::fill_lin,
    tv_fill_bad => tv::fill_bad,
    tv_asof => tv::asof,
    tv_finish => tv::finish,
    tv_sketch => tv::sketch,
    tv_counter => tv::counter,
    twa_seq => twa::seq,
    twa_units => twa::units,
    twa_split => twa::split,
    twa_refused => twa::refused,
    twa_interp => twa::interp,
    twa_buckets => twa::buckets,
    twa_outside => twa::outside,
    twa_bounds => twa::bounds,
    twa_any => twa::any,
    udd_merge => udd::merge,
    udd_seq => udd::seq,
    udd_nothing => udd::nothing,
    udd_store => udd::store,
    udd_quantile => udd::quantile,
}
