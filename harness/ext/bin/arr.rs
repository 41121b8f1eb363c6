// Accessors applied with the arrow operator give what the function of the same name gives.
use crate::u::*;
use timescaledb_toolkit::{candlestick as c, nmost::verif as nm, state_aggregate as s, state_aggregate::verif as sv, time_vector as tv};
/// an accessor without arguments, as it is stored
fn a<T: FromDatum>() -> T { let m = vec![(8u64 << 2) | 1 << 32].leak(); unsafe { T::from_polymorphic_datum(pg_sys::Datum::from(m.as_ptr() as usize), false, pg_sys::Oid::INVALID).unwrap() } }
fn t(x: Option<raw::TimestampTz>) -> Option<i64> { x.map(unts) }
/// one candlestick of any contents
pub fn candlestick() {
    let (o, h, l, e) = (sx::ordered(), sx::ordered(), sx::ordered(), sx::ordered());
    let at = sx::i64();
    let r = c::candlestick(Some(ts(at)), Some(o), Some(h), Some(l), Some(e), Some(1.0));
    sx::check(r.is_some(), 1);
    let later = c::candlestick(Some(ts(sx::i64())), Some(sx::ordered()), Some(sx::ordered()), Some(sx::ordered()), Some(sx::ordered()), Some(1.0));
    let q = state(c::candlestick_rollup_trans(none(), r, FC));
    let r = c::candlestick_final(state(c::candlestick_rollup_trans(q, later, FC)), FC);
    sx::check((c::arrow_open(r, a()) == c::open(r)) & (c::arrow_high(r, a()) == c::high(r)) & (c::arrow_low(r, a()) == c::low(r)) & (c::arrow_close(r, a()) == c::close(r)), 2);
    sx::check((t(c::arrow_open_time(r, a())) == t(c::open_time(r))) & (t(c::arrow_high_time(r, a())) == t(c::high_time(r))) & (t(c::arrow_low_time(r, a())) == t(c::low_time(r))) & (t(c::arrow_close_time(r, a())) == t(c::close_time(r))), 3);
    sx::check(c::arrow_open(None, a()).is_none() & c::arrow_close_time(None, a()).is_none(), 4);
    sx::cover(1);
}
macro_rules! most {
    ($($x:expr, $same:expr, $trans:ident, $fin:ident, $values:ident, $array:ident, $avalues:ident, $aarray:ident;)*) => {
        /// two values of three kept, in each type
        pub fn nmost() {
            let mut id = 1;
            let which = sx::choice(6) as u32;
            $(if id == 1 + 2 * which {
                let v = [$x, $x, $x];
                let mut q = none();
                for x in v { q = state(nm::$trans(q, x, 2, FC)); }
                let r = || stored(nm::$fin(again(&q)).unwrap());
                let (x, y): (Vec<_>, Vec<_>) = (nm::$values(r()).collect(), nm::$avalues(r(), a()).collect());
                let (z, w): (Vec<_>, Vec<_>) = (nm::$array(r()), nm::$aarray(r(), a()));
                sx::check((x.len() == 2) & (y.len() == 2) & (z.len() == 2) & (w.len() == 2), id);
                let mut same = true;
                for i in 0..2 { same &= $same(&x[i], &y[i]) & $same(&x[i], &z[i]) & $same(&x[i], &w[i]); }
                sx::check(same, id + 1);
                sx::cover(1 + which);
            } id += 2;)*
            let _ = id;
        }
    };
}
fn bits(a: &f64, b: &f64) -> bool { a.to_bits() == b.to_bits() }
fn same(a: &i64, b: &i64) -> bool { a == b }
fn times(a: &raw::TimestampTz, b: &raw::TimestampTz) -> bool { a.0.value() == b.0.value() }
most! {
    sx::ordered(), bits, max_n_float_trans, max_n_float_final, max_n_float_to_values, max_n_float_to_array, arrow_max_float_into_values, arrow_max_float_into_array;
    sx::ordered(), bits, min_n_float_trans, min_n_float_final, min_n_float_to_values, min_n_float_to_array, arrow_min_float_into_values, arrow_min_float_into_array;
    sx::i64(), same, max_n_int_trans, max_n_int_final, max_n_int_to_values, max_n_int_to_array, arrow_max_int_into_values, arrow_max_int_into_array;
    sx::i64(), same, min_n_int_trans, min_n_int_final, min_n_int_to_values, min_n_int_to_array, arrow_min_int_into_values, arrow_min_int_into_array;
    ts(sx::i64()), times, max_n_time_trans, max_n_time_final, max_n_time_to_values, max_n_time_to_array, arrow_max_time_into_values, arrow_max_time_into_array;
    ts(sx::i64()), times, min_n_time_trans, min_n_time_final, min_n_time_to_values, min_n_time_to_array, arrow_min_time_into_values, arrow_min_time_into_array;
}
/// three records of any states
pub fn state_agg() {
    let mut q = none();
    for i in 0..3 { q = state(sv::int_trans(q, ts(10 * i), Some(sx::i64()))); }
    let r: s::StateAgg = stored(s::state_agg::state_agg_finally_fn_outer(q, FC).unwrap());
    let (x, y): (Vec<_>, Vec<_>) = (s::into_values_tl_int(r.clone()).map(|x| (x.0, uninterval(&x.1))).collect(), s::arrow_state_agg_into_int_values(r.clone(), a()).map(|x| (x.0, uninterval(&x.1))).collect());
    sx::check(x == y, 1);
    let (x, y): (Vec<_>, Vec<_>) = (s::state_int_timeline(r.clone()).map(|x| (x.0, unts(x.1), unts(x.2))).collect(), s::arrow_state_agg_state_int_timeline(r, a()).map(|x| (x.0, unts(x.1), unts(x.2))).collect());
    sx::check(x == y, 2);
    let mut q = none();
    for i in 0..3 { q = state(s::state_agg::state_agg_transition_fn_outer(q, ts(10 * i), Some(["A", "B", "AB"][sx::choice(3) as usize].to_string()), FC)); }
    let r: s::StateAgg = stored(s::state_agg::state_agg_finally_fn_outer(q, FC).unwrap());
    let (x, y): (Vec<_>, Vec<_>) = (s::into_values_tl(r.clone()).map(|x| (x.0, uninterval(&x.1))).collect(), s::arrow_state_agg_into_values(r.clone(), a()).map(|x| (x.0, uninterval(&x.1))).collect());
    sx::check(x == y, 3);
    let (x, y): (Vec<_>, Vec<_>) = (s::state_timeline(r.clone()).map(|x| (x.0, unts(x.1), unts(x.2))).collect(), s::arrow_state_agg_state_timeline(r, a()).map(|x| (x.0, unts(x.1), unts(x.2))).collect());
    sx::check(x == y, 4);
    sx::cover(1);
}
/// three points, some of them null
pub fn timevector() {
    let mut q = none();
    for _ in 0..3 { q = state(tv::timevector_tstz_f64_trans(q, Some(ts(sx::i64())), if sx::choice(2) == 0 { Some(sx::ordered()) } else { None }, FC)); }
    let r: tv::Timevector_TSTZ_F64 = stored(tv::timevector_final(q, FC).unwrap());
    let (x, y): (Vec<_>, Vec<_>) = (tv::unnest(r.clone()).map(|x| (unts(x.0), x.1.to_bits())).collect(), tv::arrow_timevector_unnest(r, a()).map(|x| (unts(x.0), x.1.to_bits())).collect());
    sx::check(x == y, 1);
    sx::cover(1);
}
