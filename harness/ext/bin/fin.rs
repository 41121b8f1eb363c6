// Finishing an aggregate is only a look at it: the state goes on as if nobody had looked, and what was handed out stays as it was.
// (the server does so for every row of a window with ORDER BY, and where several aggregates share a state)
use crate::u::*;
use timescaledb_toolkit::{asap, candlestick as cs, counter_agg as ca, countminsketch as cm, frequency as f, gauge_agg::verif as ga, heartbeat_agg as hb, hyperloglog as hl, lttb, nmost::verif as nm, state_aggregate as st, stats_agg as sa, tdigest as td, time_vector as tv, time_weighted_average as tw, uddsketch as ud};

struct Row { t: i64, v: f64, i: i64 }
/// what was handed out, read as often as one likes
struct Out { first: Vec<u64>, now: Box<dyn Fn() -> Vec<u64>> }
fn hold(now: impl Fn() -> Vec<u64> + 'static) -> Out { Out { first: now(), now: Box::new(now) } }
/// the stored form of a result, padded with zeros to whole words
fn out<T: pgrx::IntoDatum>(x: Option<T>) -> Out {
    let p = x.unwrap().into_datum().unwrap().value();
    hold(move || {
        let p = p as *const u8;
        let n = (unsafe { *(p as *const u32) } >> 2) as usize;
        let mut w = vec![0u64; (n + 7) / 8];
        unsafe { std::ptr::copy_nonoverlapping(p, w.as_mut_ptr() as *mut u8, n); }
        w
    })
}
/// what a stored state aggregate says: it lists the states in no particular order
fn said<T: pgrx::IntoDatum + pgrx::FromDatum + 'static>(x: Option<T>, say: impl Fn(T) -> Vec<u64> + 'static) -> Out {
    let d = x.unwrap().into_datum().unwrap();
    hold(move || say(unsafe { T::from_polymorphic_datum(d, false, pg_sys::Oid::INVALID).unwrap() }))
}
const NAMES: [&str; 3] = ["ok", "not", ""];
fn say_ints(a: st::StateAgg<'static>) -> Vec<u64> {
    let mut w: Vec<u64> = (0..3).map(|i| uninterval(&st::duration_in_tl_int(Some(a.clone()), i)) as u64).collect();
    for (s, x, y) in st::state_int_timeline(a) { w.push(s as u64); w.push(unts(x) as u64); w.push(unts(y) as u64); }
    w
}
fn say_texts(a: st::StateAgg<'static>) -> Vec<u64> {
    let mut w: Vec<u64> = NAMES.iter().map(|i| uninterval(&st::duration_in_tl(Some(a.clone()), i.to_string())) as u64).collect();
    for (s, x, y) in st::state_timeline(a) { w.push(NAMES.iter().position(|n| **n == *s).unwrap() as u64); w.push(unts(x) as u64); w.push(unts(y) as u64); }
    w
}
fn say_compact(a: st::toolkit_experimental::CompactStateAgg<'static>) -> Vec<u64> {
    (0..3).map(|i| uninterval(&st::duration_in_int(Some(a.clone()), i)) as u64).chain([a.first_time as u64, a.last_time as u64]).collect()
}
fn same(a: &[u64], b: &[u64], id: u32) {
    sx::check(a.len() == b.len(), id);
    let mut ok = true;
    for (x, y) in a.iter().zip(b) { ok &= x == y; }
    sx::check(ok, id);
}
/// a look after each row `when` says, against no look at all
fn look(rows: &[Row], step: impl Fn(Internal, &Row) -> Internal, done: impl Fn(Internal) -> Out) {
    let n = rows.len();
    let when = 1 + sx::choice((1 << (n - 1)) - 1);
    let (mut seen, mut blind) = (none(), none());
    let mut outs = vec![];
    for (k, r) in rows.iter().enumerate() {
        seen = step(seen, r);
        if when >> k & 1 == 1 {
            let (a, b) = (done(again(&seen)), done(again(&seen)));
            same(&a.first, &b.first, 1);
            outs.push(a);
        }
    }
    for r in rows { blind = step(blind, r); }
    let (a, b) = (done(seen), done(blind));
    same(&a.first, &b.first, 2);
    for o in &outs { same(&(o.now)(), &o.first, 3); }
}
const VALUES: [f64; 3] = [2.5, -1.0, 7.25];
/// rows in time order or in any; `v`: one of a few values, any real number, or any small whole number
enum Of { Few, Any, Whole }
fn rows(n: usize, sorted: bool, of: Of) -> Vec<Row> {
    let mut left: Vec<i64> = (1..=n as i64).map(|t| 10 * t).collect();
    (0..n).map(|_| {
        let t = left.remove(if sorted { 0 } else { sx::choice(left.len() as u64) as usize });
        match of { Of::Few => { let i = sx::choice(3); Row { t, v: VALUES[i as usize], i: i as i64 } } Of::Any => Row { t, v: sx::f64(), i: 0 }, Of::Whole => Row { t, v: 0.0, i: sx::int(8) } }
    }).collect()
}
/// one of the kinds of aggregate, which must be looked at
fn kind(n: u64) -> u64 { let k = if sx::param(1) > 0 { sx::param(1) as u64 - 1 } else { sx::choice(n) }; sx::cover(100 + k as u32); k }
fn num(r: &Row) -> Option<f64> { Some(r.v) }
fn at(r: &Row) -> Option<timescaledb_toolkit::verif::raw::TimestampTz> { Some(ts(r.t)) }

pub fn numbers() {
    let kind = kind(13);
    let r = rows(sx::param(0), true, if matches!(kind, 9 | 10 | 12) { Of::Few } else { Of::Any });
    match kind {
        0 => { let t = |q, r: &Row| state(td::tdigest_trans(q, 2, num(r), FC)); let d = |q| out(td::verif::tdigest_final(q, FC)); look(&r, t, d); }
        1 => { let t = |q, r: &Row| state(td::tdigest_compound_trans(q, td::verif::tdigest_final(state(td::tdigest_trans(none(), 2, num(r), FC)), FC).map(stored), FC)); look(&r, t, |q| out(td::verif::tdigest_compound_final(q, FC))); }
        2 => look(&r, |q, r| state(sa::stats1d_trans(q, num(r), FC)), |q| out(sa::verif::stats1d_final(q, FC))),
        3 => look(&r, |q, r| state(sa::stats2d_trans(q, num(r), Some(r.t as f64), FC)), |q| out(sa::verif::stats2d_final(q, FC))),
        4 => look(&r, |q, r| state(sa::stats1d_tf_trans(q, num(r), FC)), |q| out(sa::verif::stats1d_tf_final(q, FC))),
        5 => look(&r, |q, r| state(sa::stats2d_tf_trans(q, num(r), Some(r.t as f64), FC)), |q| out(sa::verif::stats2d_tf_final(q, FC))),
        6 => look(&r, |q, r| state(sa::stats1d_summary_trans(q, sa::verif::stats1d_final(state(sa::stats1d_trans(none(), num(r), FC)), FC).map(stored), FC)), |q| out(sa::verif::stats1d_final(q, FC))),
        7 => look(&r, |q, r| state(nm::max_n_float_trans(q, r.v, 2, FC)), |q| out(nm::max_n_float_final(q))),
        8 => look(&r, |q, r| state(nm::min_n_float_trans(q, r.v, 2, FC)), |q| out(nm::min_n_float_final(q))),
        9 => look(&r, |q, r| state(nm::max_n_by_float_trans(q, r.v, elem(r.i), 2, FC)), |q| out(nm::max_n_by_float_final(q))),
        10 => look(&r, |q, r| state(nm::min_n_by_float_trans(q, r.v, elem(r.i), 2, FC)), |q| out(nm::min_n_by_float_final(q))),
        11 => look(&r, |q, r| state(nm::max_n_float_rollup_trans(q, nm::max_n_float_final(state(nm::max_n_float_trans(none(), r.v, 2, FC))).unwrap(), FC)), |q| out(nm::max_n_float_final(q))),
        12 => look(&r, |q, r| state(nm::min_n_by_float_rollup_trans(q, nm::min_n_by_float_final(state(nm::min_n_by_float_trans(none(), r.v, elem(r.i), 2, FC))).unwrap(), FC)), |q| out(nm::min_n_by_float_final(q))),
        _ => {}
    }
}
pub fn wholes() {
    let kind = kind(20);
    let r = rows(sx::param(0), true, if matches!(kind, 10 | 11 | 16..) { Of::Few } else { Of::Whole });
    match kind {
        0 => look(&r, |q, r| state(nm::max_n_int_trans(q, r.i, 2, FC)), |q| out(nm::max_n_int_final(q))),
        1 => look(&r, |q, r| state(nm::min_n_int_trans(q, r.i, 2, FC)), |q| out(nm::min_n_int_final(q))),
        2 => look(&r, |q, r| state(nm::max_n_time_trans(q, ts(r.i), 2, FC)), |q| out(nm::max_n_time_final(q))),
        3 => look(&r, |q, r| state(nm::min_n_time_trans(q, ts(r.i), 2, FC)), |q| out(nm::min_n_time_final(q))),
        4 => look(&r, |q, r| state(nm::max_n_by_int_trans(q, r.i, elem(r.t), 2, FC)), |q| out(nm::max_n_by_int_final(q))),
        5 => look(&r, |q, r| state(nm::min_n_by_int_trans(q, r.i, elem(r.t), 2, FC)), |q| out(nm::min_n_by_int_final(q))),
        6 => look(&r, |q, r| state(nm::max_n_by_time_trans(q, ts(r.i), elem(r.t), 2, FC)), |q| out(nm::max_n_by_time_final(q))),
        7 => look(&r, |q, r| state(nm::min_n_by_time_trans(q, ts(r.i), elem(r.t), 2, FC)), |q| out(nm::min_n_by_time_final(q))),
        8 => look(&r, |q, r| state(f::freq_agg_bigint_trans(q, 0.4, Some(r.i), FC)), |q| out(f::verif::finish_bigint(q))),
        9 => look(&r, |q, r| state(f::freq_agg_trans(q, 0.4, opt(Some(r.i)), FC)), |q| out(f::verif::finish(q))),
        10 => look(&r, |q, r| state(f::mcv_agg_with_skew_bigint_trans(q, 1, 8.0, Some(r.i), FC)), |q| out(f::verif::finish_bigint(q))),
        11 => look(&r, |q, r| state(f::rollup_agg_bigint_trans(q, f::verif::finish_bigint(state(f::freq_agg_bigint_trans(none(), 0.4, Some(r.i), FC))).map(stored), FC)), |q| out(f::verif::finish_bigint(q))),
        12 => look(&r, |q, r| state(nm::max_n_int_rollup_trans(q, nm::max_n_int_final(state(nm::max_n_int_trans(none(), r.i, 2, FC))).unwrap(), FC)), |q| out(nm::max_n_int_final(q))),
        13 => look(&r, |q, r| state(nm::min_n_time_rollup_trans(q, nm::min_n_time_final(state(nm::min_n_time_trans(none(), ts(r.i), 2, FC))).unwrap(), FC)), |q| out(nm::min_n_time_final(q))),
        15 => { for x in &r { sx::assume((x.i >= 0) & (x.i < 3)); } look(&r, |q, r| state(cm::count_min_sketch::count_min_sketch_transition_fn_outer(q, Some(["ok", "not", ""][sx::concretize(r.i as u64) as usize].to_string()), 0.7, 0.5, FC)), |q| out(cm::count_min_sketch::count_min_sketch_finally_fn_outer(q, FC))) }
        16 => { let t = |q, r: &Row| state(ud::uddsketch_trans(q, 5, 0.1, num(r), FC)); let d = |q| out(ud::verif::uddsketch_final(q, FC)); look(&r, t, d); }
        17 => { let t = |q, r: &Row| state(ud::uddsketch_compound_trans(q, ud::verif::uddsketch_final(state(ud::uddsketch_trans(none(), 9, 0.1, num(r), FC)), FC).map(stored), FC)); look(&r, t, |q| out(ud::verif::uddsketch_final(q, FC))); }
        18 => look(&r, |q, r| state(ud::percentile_agg_trans(q, num(r), FC)), |q| out(ud::verif::uddsketch_final(q, FC))),
        19 => look(&r, |q, r| state(asap::asap_trans(q, at(r), num(r), 3, FC)), |q| out(asap::verif::asap_final(q, FC))),
        14 => { unsafe { crate::shims::TELL = true; } for x in &r { sx::assume((x.i >= 0) & (x.i < 3)); } look(&r, |q, r| state(hl::hyperloglog_trans_inner(unsafe { timescaledb_toolkit::verif::palloc::InternalAsValue::to_inner(q) }, 16, Some(raw::AnyElement(pg_sys::Datum::from(sx::concretize(r.i as u64) << 56))), fcinfo(), pg_sys::INT8OID).and_then(|x| timescaledb_toolkit::verif::palloc::ToInternal::internal(Some(x)))), |q| out(hl::verif::hyperloglog_final(q, FC))) }
        _ => {}
    }
}
pub fn series() {
    let kind = kind(18);
    let n = sx::param(0);
    let r = rows(n, false, if matches!(kind, 5..8 | 16) { Of::Few } else { Of::Any });
    if kind == 1 || kind == 12 { for x in &r { sx::assume(x.v >= 0.0); } }
    let tick = |q, r: &Row| state(cs::tick_data_transition(q, at(r), num(r), Some(1.0 + r.i as f64), FC));
    let count = |q, r: &Row| state(ca::counter_agg_trans_no_bounds(q, at(r), Some(r.v), FC));
    let gauge = |q, r: &Row| state(ga::gauge_agg_trans_no_bounds(q, at(r), num(r), FC));
    let weigh = |q, r: &Row| state(tw::time_weight_trans(q, "linear".into(), at(r), num(r), FC));
    let vect = |q, r: &Row| state(tv::timevector_tstz_f64_trans(q, at(r), num(r), FC));
    let ints = |q, r: &Row| state(st::verif::int_trans(q, ts(r.t), Some(r.i)));
    let texts = |q, r: &Row| state(st::state_agg::state_agg_transition_fn_outer(q, ts(r.t), Some(NAMES[r.i as usize].to_string()), FC));
    let cints = |q, r: &Row| state(st::verif::compact_int_trans(q, ts(r.t), Some(r.i)));
    let beat = |q, r: &Row| state(hb::heartbeat_trans(q, ts(r.t), ts(5), interval(50), interval(12), FC));
    match kind {
        0 => look(&r, tick, |q| out(cs::candlestick_final(q, FC))),
        1 => look(&r, count, |q| out(ca::verif::counter_agg_final(q, FC))),
        2 => look(&r, gauge, |q| out(ga::gauge_agg_final(q, FC))),
        3 => look(&r, weigh, |q| out(tw::verif::time_weight_final(q, FC))),
        4 => look(&r, vect, |q| out(tv::timevector_final(q, FC))),
        5 => look(&r, ints, |q| said(st::state_agg::state_agg_finally_fn_outer(q, FC), say_ints)),
        6 => look(&r, texts, |q| said(st::state_agg::state_agg_finally_fn_outer(q, FC), say_texts)),
        7 => look(&r, cints, |q| said(st::verif::compact_final(q), say_compact)),
        8 => look(&r, beat, |q| out(hb::heartbeat_final(q, FC))),
        9 => look(&r, |q, r| state(lttb::lttb_trans(q, ts(r.t), num(r), 3, FC)), |q| out(lttb::lttb_final(q, FC))),
        10 => look(&r, |q, r| state(lttb::gp_lttb_trans(q, ts(r.t), num(r), interval(12), 3, FC)), |q| out(lttb::gp_lttb_final(q, FC))),
        // rollups
        11 => look(&r, |q, r| state(cs::candlestick_rollup_trans(q, cs::candlestick_final(tick(none(), r), FC).map(stored), FC)), |q| out(cs::candlestick_final(q, FC))),
        12 => look(&r, |q, r| state(ca::counter_agg_summary_trans(q, ca::verif::counter_agg_final(count(none(), r), FC).map(stored), FC)), |q| out(ca::verif::counter_agg_final(q, FC))),
        13 => look(&r, |q, r| state(ga::gauge_agg_summary_trans(q, ga::gauge_agg_final(gauge(none(), r), FC).map(stored), FC)), |q| out(ga::gauge_agg_final(q, FC))),
        14 => look(&r, |q, r| state(tw::time_weight_summary_trans(q, tw::verif::time_weight_final(weigh(none(), r), FC).map(stored), FC)), |q| out(tw::verif::time_weight_final(q, FC))),
        15 => look(&r, |q, r| state(tv::timevector_tstz_f64_compound_trans(q, tv::timevector_final(vect(none(), r), FC).map(stored), FC)), |q| out(tv::timevector_final(q, FC))),
        16 => look(&r, |q, r| state(st::rollup::state_agg_rollup_trans(q, st::state_agg::state_agg_finally_fn_outer(ints(none(), r), FC).map(stored), FC)), |q| said(st::rollup::verif::finish(q), say_ints)),
        17 => look(&r, |q, r| state(hb::heartbeat_rollup_trans(q, hb::heartbeat_final(beat(none(), r), FC).map(stored), FC)), |q| out(hb::heartbeat_final(q, FC))),
        _ => {}
    }
}
