// timevectors: what goes in comes out, in order, with its null marks; pipelines transform point by point.
use crate::u::*;
use timescaledb_toolkit::time_vector::{self as t, verif as p, Timevector_TSTZ_F64, toolkit_experimental as te};
type Tv = Timevector_TSTZ_F64<'static>;
type Pt = (i64, Option<f64>);
fn trans(a: Internal, x: &Pt) -> Internal { state(t::timevector_tstz_f64_trans(a, Some(ts(x.0)), x.1, FC)) }
fn fin(i: Internal) -> Tv { stored(t::timevector_final(i, FC).unwrap()) }
fn build(x: &[Pt]) -> Tv { let mut a = none(); for y in x { a = trans(a, y); } fin(a) }
fn pts(n: usize, nulls: bool) -> Vec<Pt> {
    (0..n).map(|_| { let t = sx::int(12); let v = sx::whole(6); (t, if nulls && sx::choice(2) == 1 { None } else { Some(v) }) }).collect()
}
fn num(n: usize) -> usize { 1 + sx::choice(n as u64) as usize }
fn sorted(x: &[Pt]) { for i in 1..x.len() { sx::assume(x[i - 1].0 <= x[i].0); } }
/// the timevector holds exactly these points in this order, and knows it
fn holds(a: &Tv, x: &[Pt], id: u32) {
    sx::check(a.num_points() == x.len() && a.points.as_slice().len() == x.len() && a.null_val.as_slice().len() == x.len().div_ceil(8), id);
    let mut ok = true;
    let (mut any, mut asc) = (false, true);
    for i in 0..x.len() {
        let q = a.get(i).unwrap();
        ok &= q.ts == x[i].0;
        ok &= a.is_null_val(i) == x[i].1.is_none();
        if let Some(v) = x[i].1 { ok &= sx::eqn(q.val, v); } else { any = true; }
        if i > 0 { asc &= x[i - 1].0 <= x[i].0; }
    }
    sx::check(ok, id + 1);
    sx::check(any <= a.has_nulls(), id + 2);
    sx::check(a.is_sorted() <= asc, id + 3);
}
fn run(a: Tv, e: te_::Pipe) -> Tv { stored(p::arrow_run_pipeline(a, stored(e))) }
mod te_ { pub type Pipe = timescaledb_toolkit::time_vector::verif::Pipe; }
fn lambda(s: &str) -> p::lambda::Lambda<'static> {
    let c = std::ffi::CString::new(s).unwrap();
    stored(<p::lambda::Lambda as pgrx::inoutfuncs::InOutFuncs>::input(&c))
}
/// building by aggregation, in one go or in partials that are combined or rolled up
pub fn seq() {
    let n = num(sx::param(0));
    let x = pts(n, true);
    let k = sx::choice(n as u64 + 1) as usize;
    let a = match sx::choice(3) {
        0 => { sx::cover(1); let mut s = none(); for y in &x { s = trans(s, y); } s = state(t::timevector_tstz_f64_trans(s, None, Some(1.0), FC)); fin(s) }
        1 => {
            sx::cover(2);
            let (mut s, mut r) = (none(), none());
            for y in &x[..k] { s = trans(s, y); }
            for y in &x[k..] { r = trans(r, y); }
            fin(state(t::timevector_combine(s, r, FC)))
        }
        _ => {
            sx::cover(3);
            let (f, g) = (if k > 0 { Some(build(&x[..k])) } else { None }, if k < n { Some(build(&x[k..])) } else { None });
            fin(state(t::timevector_tstz_f64_compound_trans(state(t::timevector_tstz_f64_compound_trans(none(), f, FC)), g, FC)))
        }
    };
    holds(&a, &x, 1);
    let mut asc = true;
    for i in 1..n { asc &= x[i - 1].0 <= x[i].0; }
    sx::check(a.is_sorted() == asc, 5);
    sx::check(a.has_nulls() == x.iter().any(|y| y.1.is_none()), 6);
    let mut ok = true;
    let mut i = 0;
    for (u, v) in t::unnest(a.clone()) { ok &= unts(u) == x[i].0; if let Some(w) = x[i].1 { ok &= sx::eqn(v, w); } else { ok &= v != v; } i += 1; }
    sx::check(ok && i == n, 7);
}
/// null marks across the byte boundary, however the series was put together
pub fn long() {
    let n = 8 + sx::param(0);
    let x: Vec<Pt> = (0..n).map(|i| (i as i64, if i >= 5 && sx::choice(2) == 1 { None } else { Some(i as f64) })).collect();
    let k = sx::choice(n as u64 + 1) as usize;
    let (mut s, mut r) = (none(), none());
    for y in &x[..k] { s = trans(s, y); }
    for y in &x[k..] { r = trans(r, y); }
    let a = fin(state(t::timevector_combine(s, r, FC)));
    holds(&a, &x, 1);
    let mut y = x.clone();
    y.reverse();
    let b = run(build(&y), p::sort_pipeline_element());
    holds(&b, &x, 5);
    sx::check(b.is_sorted(), 9);
}
/// sorting keeps every point with its null mark, and the order of points at one instant
pub fn sort() {
    let n = num(sx::param(0));
    let x = pts(n, true);
    let a = run(build(&x), p::sort_pipeline_element());
    sx::check(a.is_sorted(), 1);
    let mut y: Vec<Pt> = vec![];
    for q in &x { let mut i = y.len(); while i > 0 && y[i - 1].0 > q.0 { i -= 1; } y.insert(i, *q); }
    holds(&a, &y, 2);
    sx::check(a.has_nulls() == x.iter().any(|y| y.1.is_none()), 6);
}
/// filtering keeps exactly the points for which the lambda holds, with their null marks
pub fn filter() {
    let n = num(sx::param(0));
    let x = pts(n, true);
    let (l, f): (&str, fn(i64, f64) -> bool) = match sx::choice(4) {
        0 => ("$value > 2", |_, v| v > 2.0),
        1 => ("$time < '7't", |t, _| t < 7),
        2 => ("not ($value = 3 or $time >= '5't)", |t, v| !((v == 3.0) | (t >= 5))),
        _ => ("$time + '3'i <= '9't and $value <= 1", |t, v| (t + 3 <= 9) & (v <= 1.0)),
    };
    let a = run(build(&x), p::filter::filter_lambda_pipeline_element(lambda(l)));
    let y: Vec<Pt> = x.iter().filter(|q| f(q.0, q.1.unwrap_or(f64::NAN))).cloned().collect();
    if y.len() == 0 { sx::cover(1) } else if y.len() < n { sx::cover(2) } else { sx::cover(3) }
    holds(&a, &y, 1);
}
/// differences between neighbours of a sorted series
pub fn delta() {
    let n = num(sx::param(0));
    let x = pts(n, false);
    sorted(&x);
    let keep = sx::choice(2) == 0;
    let mut a = build(&x);
    let mut y = x.clone();
    if !keep { a = run(a, p::filter::filter_lambda_pipeline_element(lambda("$value < 5"))); y.retain(|q| q.1.unwrap() < 5.0); sx::cover(2); if y.len() == 0 { sx::cover(3) } }
    let b = run(a, p::delta_pipeline_element(unsafe { std::mem::zeroed() }));
    let d: Vec<Pt> = (1..y.len()).map(|i| (y[i].0, Some(y[i].1.unwrap() - y[i - 1].1.unwrap()))).collect();
    holds(&b, &d, 1);
    sx::check(b.is_sorted(), 5);
    sx::cover(1);
}
/// lambdas that make new points
pub fn map() {
    let n = num(sx::param(0));
    let k = sx::choice(4);
    let x: Vec<Pt> = (0..n).map(|_| { let t = sx::int(12); (t, Some(if k == 3 { sx::choice(3) as f64 } else { sx::whole(6) })) }).collect();
    let (l, f): (&str, fn(i64, f64) -> (i64, f64)) = match k {
        0 => ("$value * 2 + 1", |t, v| (t, v * 2.0 + 1.0)),
        1 => ("$time - '10'i, 1 - $value", |t, v| (t - 10, 1.0 - v)),
        2 => ("let $a = $value + 1; let $b = $a * $a; $b - $a", |t, v| (t, (v + 1.0) * (v + 1.0) - (v + 1.0))),
        _ => ("$time + '20'i * $value, $value", |t, v| (t + 20 * v as i64, v)),
    };
    let a = run(build(&x), p::map::map_lambda_pipeline_element(lambda(l)));
    let y: Vec<Pt> = x.iter().map(|q| { let (t, v) = f(q.0, q.1.unwrap()); (t, Some(v)) }).collect();
    holds(&a, &y, 1);
    let b = run(a, p::sort_pipeline_element());
    let mut asc = true;
    for i in 1..n { asc &= b.get(i - 1).unwrap().ts <= b.get(i).unwrap().ts; }
    sx::check(asc, 5);
}
/// pointwise arithmetic and composition of pipelines
pub fn arith() {
    let n = num(sx::param(0));
    let x = pts(n, true);
    let c = sx::whole(5);
    let e = |i: u64| -> (te_::Pipe, fn(f64, f64) -> f64) { match i {
        0 => (p::pipeline_add(c), |a, c| a + c),
        1 => (p::pipeline_sub(c), |a, c| a - c),
        2 => (p::pipeline_mul(c), |a, c| a * c),
        3 => (p::pipeline_div(c), |a, c| a / c),
        4 => (p::pipeline_abs(), |a, _| a.abs()),
        5 => (p::pipeline_ceil(), |a, _| a.ceil()),
        6 => (p::pipeline_floor(), |a, _| a.floor()),
        7 => (p::pipeline_round(), |a, _| a.round()),
        _ => (p::pipeline_trunc(), |a, _| a.trunc()),
    } };
    let (i, j) = (sx::choice(4), sx::choice(9));
    let ((e1, f1), (e2, f2)) = (e(i), e(j));
    let a = build(&x);
    let one = run(run(a.clone(), e1), e2);
    let (e1, e2) = (e(i).0, e(j).0);
    let two = run(a, p::arrow_add_unstable_element(stored(e1), stored(e2)));
    let y: Vec<Pt> = x.iter().map(|q| (q.0, q.1.map(|v| f2(f1(v, c), c)))).collect();
    holds(&one, &y, 1);
    holds(&two, &y, 5);
}
/// gaps in a sorted series are filled at multiples of the interval, nothing else changes
pub fn fill() {
    let n = num(sx::param(0));
    let x = pts(n, false);
    sorted(&x);
    let w = sx::int(12);
    sx::assume(w >= 1);
    for i in 1..n { sx::assume(x[i].0 - x[i - 1].0 <= 3 * w); }
    filled(&x, w, 2 * sx::choice(2));
}
/// the same with interpolation: any real values at a choice of times
pub fn fill_lin() {
    let n = num(sx::param(0));
    let mut at = 100;
    let x: Vec<Pt> = (0..n).map(|_| { at += sx::choice(6) as i64; (at, Some(sx::finite())) }).collect();
    filled(&x, 1 + sx::choice(3) as i64, 1);
}
fn filled(x: &[Pt], w: i64, m: u64) {
    let n = x.len();
    let a = run(build(&x), p::fillto_pipeline_element(interval(w), ["LOCF", "linear", "nearest"][m as usize].into()));
    let mut y: Vec<Pt> = vec![x[0]];
    for i in 1..n {
        let (l, r) = (x[i - 1], x[i]);
        let (lv, rv) = (l.1.unwrap(), r.1.unwrap());
        let mut at = l.0 + w;
        while at < r.0 {
            let v = match m {
                0 => lv,
                1 => lv + (rv - lv) * ((at - l.0) as f64) / ((r.0 - l.0) as f64),
                _ => if r.0 - at >= at - l.0 { lv } else { rv },
            };
            y.push((at, Some(v)));
            sx::cover(1 + m as u32);
            at += w;
        }
        y.push(r);
    }
    sx::check(a.num_points() == y.len() && a.is_sorted() && !a.has_nulls(), 1);
    if a.num_points() != y.len() { return; }
    let mut ok = true;
    let mut okv = true;
    for i in 0..y.len() { let q = a.get(i).unwrap(); ok &= q.ts == y[i].0; okv &= sx::close(q.val, y[i].1.unwrap()); }
    sx::check(ok, 2);
    sx::check(okv, 3);
}
/// an interval that is not positive is refused
pub fn fill_bad() {
    let w = sx::int(12);
    sx::assume(w <= 0);
    let a = build(&[(0, Some(1.0)), (3, Some(2.0))]);
    sx::panic_ok(1);
    run(a, p::fillto_pipeline_element(interval(w), "locf".into()));
    sx::check(false, 1);
}
/// each point meets the latest point of the other series at or before it
pub fn asof() {
    let (n, k) = (num(sx::param(0)), num(sx::param(1)));
    let (x, y) = (pts(n, false), pts(k, false));
    sorted(&x);
    sorted(&y);
    let r: Vec<(Option<f64>, f64, i64)> = t::arrow_timevector_asof(build(&x), stored(te::accessor_asof(build(&y)))).map(|(a, b, c)| (a, b, unts(c))).collect();
    sx::check(r.len() == k, 1);
    let mut ok = true;
    for i in 0..k {
        let (mut any, mut v) = (false, 0.0);
        for q in &x { if q.0 <= y[i].0 { any = true; v = q.1.unwrap(); } }
        ok &= (r[i].2 == y[i].0) & (r[i].1 == y[i].1.unwrap()) & (r[i].0.is_some() == any);
        if let Some(z) = r[i].0 { ok &= !any | (z == v); sx::cover(2); } else { sx::cover(1); }
    }
    sx::check(ok, 2);
}
/// a pipeline with a finishing step is the elements one after the other and then that step
pub fn finish() {
    let n = num(sx::param(0));
    let x: Vec<Pt> = (0..n).map(|i| (10 * i as i64, Some(sx::finite()))).collect();
    let (a, b) = (sx::finite(), sx::finite());
    let tvs = build(&x);
    let y: Vec<f64> = x.iter().map(|q| (q.1.unwrap() + a) * b).collect();
    let mut sum = 0.0;
    for v in &y { sum += v; }

    match sx::choice(6) {
        0 => { let f = p::finalize_with_sum(p::pipeline_add(a), p::finalize_with_sum(p::pipeline_mul(b), p::sum_pipeline_element(unsafe { std::mem::zeroed() }))); let r = p::arrow_pipeline_then_sum(tvs, stored(f)); sx::check(sx::close(r.unwrap(), sum), 1); }
        1 => { let f = p::finalize_with_average(p::pipeline_add(a), p::finalize_with_average(p::pipeline_mul(b), p::average_pipeline_element(unsafe { std::mem::zeroed() }))); let r = p::arrow_pipeline_then_average(tvs, stored(f)); sx::check(sx::close(r.unwrap() * n as f64, sum), 2); }
        2 => { let f = p::finalize_with_num_vals(p::pipeline_add(a), p::finalize_with_num_vals(p::pipeline_mul(b), p::num_vals_pipeline_element(unsafe { std::mem::zeroed() }))); sx::check(p::arrow_pipeline_then_num_vals(tvs, stored(f)) == n as i64, 3); }
        3 => { let f = p::finalize_with_stats_agg(p::pipeline_add(a), p::finalize_with_stats_agg(p::pipeline_mul(b), p::pipeline_stats_agg())); let r = stored(p::arrow_run_pipeline_then_stats_agg(tvs, stored(f))); sx::check(sx::close(r.sx, sum) & (r.n == n as u64), 4); }
        4 => {
            let f = p::arrow_finalize_with_unnest(p::pipeline_add(a), p::arrow_finalize_with_unnest(p::pipeline_mul(b), p::pipeline_unnest()));
            let r: Vec<(i64, f64)> = p::arrow_run_pipeline_then_unnest(tvs, stored(f)).map(|(u, v)| (unts(u), v)).collect();
            let mut ok = r.len() == n;
            for i in 0..n { ok &= (r[i].0 == x[i].0) & sx::close(r[i].1, y[i]); }
            sx::check(ok, 5);
        }
        _ => {
            let f = p::arrow_force_materialize(p::pipeline_add(a), p::arrow_force_materialize(p::pipeline_mul(b), p::pipeline_series()));
            let r = stored(p::arrow_run_pipeline_then_materialize(tvs, stored(f)));
            let mut ok = r.num_points() == n;
            for i in 0..n { ok &= (r.get(i).unwrap().ts == x[i].0) & sx::close(r.get(i).unwrap().val, y[i]); }
            sx::check(ok, 6);
        }
    }

}
/// the same with the finishing steps that make a sketch: it is the sketch of the values that come out
pub fn sketch() {
    use timescaledb_toolkit::{hyperloglog as h, uddsketch as u};
    let n = sx::choice(sx::param(0) as u64 + 1) as usize;
    let x: Vec<Pt> = (0..n).map(|i| (10 * i as i64, Some([1.5, 0.25, 7.0][sx::choice(3) as usize]))).collect();
    let a = [2.0, -1.0][sx::choice(2) as usize];
    let tvs = if n > 0 { build(&x) } else { run(build(&[(0, Some(1.0))]), p::delta_pipeline_element(unsafe { std::mem::zeroed() })) };
    let y: Vec<f64> = x.iter().map(|q| (q.1.unwrap() + 3.0) * a).collect();
    let (add, mul) = (|| p::pipeline_add(3.0), || p::pipeline_mul(a));
    match sx::choice(2) {
        0 => {
            unsafe { crate::shims::TELL = true; }
            let f = p::finalize_with_hyperloglog(add(), p::finalize_with_hyperloglog(mul(), p::pipeline_hyperloglog(32)));
            let r = stored(p::arrow_run_pipeline_then_hyperloglog(tvs, stored(f)));
            let mut d = 0;
            for i in 0..n { d += !y[..i].contains(&y[i]) as i64; }
            sx::check(h::hyperloglog_count(r) == d, 5);
            sx::cover(2);
        }
        _ => {
            let f = p::finalize_with_percentile_agg(add(), p::finalize_with_percentile_agg(mul(), p::pipeline_percentile_agg()));
            let r = stored(p::arrow_run_pipeline_then_percentile_agg(tvs, stored(f)));
            sx::check(u::uddsketch_num_vals(r.clone()) == n as f64, 6);
            if n > 0 {
                let (mut w, sum) = (y.clone(), y.iter().sum::<f64>());
                w.sort_by(f64::total_cmp);
                sx::check((u::uddsketch_sum(r.clone()) - sum).abs() < 1e-9, 7);
                for (q, t) in [(0.0, w[0]), (1.0, w[n - 1])] { sx::check((u::uddsketch_approx_percentile(q, r.clone()) - t).abs() <= 0.001 * t.abs() * (1.0 + 1e-9), 8); }
                sx::cover(3);
            }
        }
    }
}
/// and with counter_agg, whatever the values
pub fn counter() {
    use timescaledb_toolkit::counter_agg as c;
    let n = sx::choice(sx::param(0) as u64 + 1) as usize;
    let x: Vec<Pt> = (0..n).map(|i| (10 * i as i64, Some(sx::finite()))).collect();
    let a = sx::finite();
    let y: Vec<f64> = x.iter().map(|q| q.1.unwrap() + a).collect();
    for v in &y { sx::assume(*v >= 0.0); }
    let tvs = if n > 0 { build(&x) } else { run(build(&[(0, Some(1.0))]), p::delta_pipeline_element(unsafe { std::mem::zeroed() })) };
    let f = p::pipeline_counter_agg();
    let f = if sx::choice(2) == 0 { p::finalize_with_counter_agg(p::pipeline_add(a), f) } else { p::finalize_with_counter_agg(p::pipeline_add(a), p::finalize_with_counter_agg(p::pipeline_mul(1.0), f)) };
    let r = p::arrow_run_pipeline_then_counter_agg(tvs, stored(f)).map(stored);
    sx::check(r.is_some() == (n > 0), 1);
    let Some(r) = r else { return };
    let (mut sum, mut resets, mut changes) = (0.0, 0, 0);
    for i in 1..n { let down = y[i] < y[i - 1]; sum += if down { y[i] } else { y[i] - y[i - 1] }; resets += down as u64; changes += (y[i] != y[i - 1]) as u64; }
    sx::check(sx::close(r.first.val, y[0]) & sx::close(r.last.val, y[n - 1]) & (r.first.ts == 0) & (r.last.ts == x[n - 1].0), 2);
    sx::check((r.num_resets == resets) & (r.num_changes == changes) & (r.stats.n == n as u64), 3);
    sx::check(sx::close(c::arrow_counter_agg_delta(r, unsafe { std::mem::zeroed() }), sum), 4);
    sx::cover(1);
}
