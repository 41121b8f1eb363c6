// counter_agg and gauge_agg as SQL sees them (times are concrete, values any real number, counters not negative).
use crate::u::*;
use timescaledb_toolkit::{accessors as acc, counter_agg as c, gauge_agg::verif as g};
use timescaledb_toolkit::{counter_agg::CounterSummary, gauge_agg::GaugeSummary};
use counter_agg::MetricSummary;
use raw::{bytea, tstzrange};

#[derive(Clone, Copy)]
struct Pt { t: i64, v: f64 }
fn z<T>() -> T { unsafe { std::mem::zeroed() } }
trait M: Sized + Clone + pgrx::IntoDatum + FromDatum {
    const COUNTER: bool;
    fn trans(s: Internal, p: (Option<i64>, Option<f64>), b: Option<tstzrange>) -> Internal;
    fn plain(s: Internal, p: (Option<i64>, Option<f64>)) -> Internal;
    fn join(a: Internal, b: Internal) -> Internal;
    fn bytes(a: Internal) -> bytea;
    fn unbytes(a: bytea) -> Internal;
    fn take(s: Internal, x: Option<Self>) -> Internal;
    fn done(s: Internal) -> Option<Self>;
    /// delta, time delta, idelta left and right
    fn deltas(self) -> [f64; 4];
    /// rate, irate left and right, slope, intercept, correlation
    fn rates(self) -> [Option<f64>; 6];
    /// the same through the accessor operators
    fn arrow_deltas(self) -> [f64; 4];
    fn arrow_rates(self) -> [Option<f64>; 6];
    fn counts(self) -> [i64; 4];
    fn outer(self) -> (f64, f64, i64);
    fn bounded(self, b: tstzrange) -> Self;
    fn arrow_bounded(self, b: acc::AccessorWithBounds) -> Self;
    fn extra(self) -> [Option<f64>; 4];
    fn interp(self, b: i64, w: i64, p: Option<Self>, n: Option<Self>) -> (f64, Option<f64>);
    fn arrow_interp(self, b: i64, w: i64, p: Option<Self>, n: Option<Self>) -> (f64, Option<f64>);
    fn inner(self) -> MetricSummary;
}
impl M for CounterSummary {
    const COUNTER: bool = true;
    fn trans(s: Internal, p: (Option<i64>, Option<f64>), b: Option<tstzrange>) -> Internal { state(c::counter_agg_trans(s, p.0.map(ts), p.1, b, FC)) }
    fn plain(s: Internal, p: (Option<i64>, Option<f64>)) -> Internal { state(c::counter_agg_trans_no_bounds(s, p.0.map(ts), p.1, FC)) }
    fn join(a: Internal, b: Internal) -> Internal { state(c::counter_agg_combine(a, b, FC)) }
    fn bytes(a: Internal) -> bytea { c::counter_summary_trans_serialize(a) }
    fn unbytes(a: bytea) -> Internal { state(c::counter_summary_trans_deserialize(a, none())) }
    fn take(s: Internal, x: Option<Self>) -> Internal { state(c::counter_agg_summary_trans(s, x, FC)) }
    fn done(s: Internal) -> Option<Self> { c::verif::counter_agg_final(s, FC) }
    fn deltas(self) -> [f64; 4] { let m = self.to_internal_counter_summary(); [m.delta(), m.time_delta(), m.idelta_left(), m.idelta_right()] }
    fn rates(self) -> [Option<f64>; 6] { let m = self.to_internal_counter_summary(); [m.rate(), m.irate_left(), m.irate_right(), m.stats.slope(), m.stats.intercept(), None] }
    fn arrow_deltas(self) -> [f64; 4] { let s = || self.clone(); [c::arrow_counter_agg_delta(s(), z()), c::arrow_counter_agg_time_delta(s(), z()), c::arrow_counter_agg_idelta_left(s(), z()), c::arrow_counter_agg_idelta_right(s(), z())] }
    fn arrow_rates(self) -> [Option<f64>; 6] { let s = || self.clone(); [c::arrow_counter_agg_rate(s(), z()), c::arrow_counter_agg_irate_left(s(), z()), c::arrow_counter_agg_irate_right(s(), z()), c::arrow_counter_agg_slope(s(), z()), c::arrow_counter_agg_intercept(s(), z()), c::arrow_counter_agg_corr(s(), z())] }
    fn counts(self) -> [i64; 4] { let s = || self.clone(); [c::arrow_counter_agg_num_elements(s(), z()), c::arrow_counter_agg_num_changes(s(), z()), unts(c::arrow_counter_agg_first_time(s(), z())), unts(c::arrow_counter_agg_last_time(s(), z()))] }
    fn outer(self) -> (f64, f64, i64) { let s = || self.clone(); (c::arrow_counter_agg_first_val(s(), z()), c::arrow_counter_agg_last_val(s(), z()), c::arrow_counter_agg_num_resets(s(), z())) }
    fn bounded(self, b: tstzrange) -> Self { c::verif::counter_agg_with_bounds(self, b) }
    fn arrow_bounded(self, b: acc::AccessorWithBounds) -> Self { c::arrow_counter_agg_with_bounds(self, b) }
    fn extra(self) -> [Option<f64>; 4] { let s = || self.clone(); [c::verif::counter_agg_extrapolated_delta(s(), "prometheus"), c::verif::counter_agg_extrapolated_rate(s(), "Prometheus "), c::arrow_counter_agg_extrapolated_delta(s(), stored(acc::accessor_extrapolated_delta("prometheus"))), c::arrow_counter_agg_extrapolated_rate(s(), stored(acc::accessor_extrapolated_rate("prometheus")))] }
    fn interp(self, b: i64, w: i64, p: Option<Self>, n: Option<Self>) -> (f64, Option<f64>) { (c::verif::counter_agg_interpolated_delta(self.clone(), ts(b), interval(w), p.clone(), n.clone()), c::verif::counter_agg_interpolated_rate(self, ts(b), interval(w), p, n)) }
    fn arrow_interp(self, b: i64, w: i64, p: Option<Self>, n: Option<Self>) -> (f64, Option<f64>) { (c::arrow_counter_interpolated_delta(self.clone(), stored(c::verif::counter_interpolated_delta_accessor(ts(b), interval(w), p.clone(), n.clone()))), c::arrow_counter_interpolated_rate(self, stored(c::verif::counter_interpolated_rate_accessor(ts(b), interval(w), p, n)))) }
    fn inner(self) -> MetricSummary { self.to_internal_counter_summary() }
}
impl M for GaugeSummary {
    const COUNTER: bool = false;
    fn trans(s: Internal, p: (Option<i64>, Option<f64>), b: Option<tstzrange>) -> Internal { state(g::gauge_agg_trans(s, p.0.map(ts), p.1, b, FC)) }
    fn plain(s: Internal, p: (Option<i64>, Option<f64>)) -> Internal { state(g::gauge_agg_trans_no_bounds(s, p.0.map(ts), p.1, FC)) }
    fn join(a: Internal, b: Internal) -> Internal { state(g::gauge_agg_combine(a, b, FC)) }
    fn bytes(a: Internal) -> bytea { g::gauge_summary_trans_serialize(a) }
    fn unbytes(a: bytea) -> Internal { state(g::gauge_summary_trans_deserialize(a, none())) }
    fn take(s: Internal, x: Option<Self>) -> Internal { state(g::gauge_agg_summary_trans(s, x, FC)) }
    fn done(s: Internal) -> Option<Self> { g::gauge_agg_final(s, FC) }
    fn deltas(self) -> [f64; 4] { let s = || self.clone(); [g::delta(s()), g::time_delta(s()), g::idelta_left(s()), g::idelta_right(s())] }
    fn rates(self) -> [Option<f64>; 6] { let s = || self.clone(); [g::rate(s()), g::irate_left(s()), g::irate_right(s()), g::slope(s()), g::intercept(s()), None] }
    fn arrow_deltas(self) -> [f64; 4] { let s = || self.clone(); [g::arrow_delta(s(), z()), g::arrow_time_delta(s(), z()), g::arrow_idelta_left(s(), z()), g::arrow_idelta_right(s(), z())] }
    fn arrow_rates(self) -> [Option<f64>; 6] { let s = || self.clone(); [g::arrow_gauge_agg_rate(s(), z()), g::arrow_irate_left(s(), z()), g::arrow_irate_right(s(), z()), g::arrow_slope(s(), z()), g::arrow_intercept(s(), z()), g::arrow_corr(s(), z())] }
    fn counts(self) -> [i64; 4] { let s = || self.clone(); let m = MetricSummary::from(self.clone()); [g::arrow_num_elements(s(), z()), g::arrow_num_changes(s(), z()), m.first.ts, m.last.ts] }
    fn outer(self) -> (f64, f64, i64) { let m = MetricSummary::from(self); (m.first.val, m.last.val, m.num_resets as i64) }
    fn bounded(self, b: tstzrange) -> Self { g::with_bounds(self, b) }
    fn arrow_bounded(self, b: acc::AccessorWithBounds) -> Self { g::arrow_with_bounds(self, b) }
    fn extra(self) -> [Option<f64>; 4] { let s = || self.clone(); [g::extrapolated_delta(s()), g::extrapolated_rate(s()), g::arrow_extrapolated_delta(s(), stored(acc::accessor_extrapolated_delta("prometheus"))), g::arrow_extrapolated_rate(s(), stored(acc::accessor_extrapolated_rate("prometheus")))] }
    fn interp(self, b: i64, w: i64, p: Option<Self>, n: Option<Self>) -> (f64, Option<f64>) { (g::interpolated_delta(self.clone(), ts(b), interval(w), p.clone(), n.clone()), g::interpolated_rate(self, ts(b), interval(w), p, n)) }
    fn arrow_interp(self, b: i64, w: i64, p: Option<Self>, n: Option<Self>) -> (f64, Option<f64>) { self.interp(b, w, p, n) }
    fn inner(self) -> MetricSummary { self.into() }
}
/// a range as the server stores it
fn span(flags: u8, lo: i64, hi: i64) -> tstzrange {
    let mut v = vec![0u8; 4];
    v.extend_from_slice(&3910u32.to_ne_bytes());
    if flags & (1 | 8) == 0 { v.extend_from_slice(&lo.to_ne_bytes()); }
    if flags & (1 | 16) == 0 { v.extend_from_slice(&hi.to_ne_bytes()); }
    v.push(flags);
    let n = (v.len() as u32) << 2;
    v[..4].copy_from_slice(&n.to_ne_bytes());
    let w: &mut [u64] = vec![0u64; v.len() / 8 + 1].leak();
    let p = w.as_mut_ptr() as *mut u8;
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len()); }
    raw::tstzrange(pg_sys::Datum::from(p as usize))
}
fn val<T: M>() -> f64 { let v = sx::f64(); if T::COUNTER { sx::assume(v >= 0.0); } v }
fn build<T: M>(v: &[Pt]) -> Option<T> {
    let mut s = none();
    for p in v { s = T::plain(s, (Some(p.t), Some(p.v))); }
    T::done(s).map(stored)
}
fn step<T: M>(a: f64, b: f64) -> f64 { if T::COUNTER && b < a { b } else { b - a } }
/// the outermost changes take a fall for a reset even of a gauge: the repository's tests say so
fn last_step(a: f64, b: f64) -> f64 { if b < a { b } else { b - a } }
fn total<T: M>(v: &[Pt]) -> f64 { let mut d = 0.0; for p in v.windows(2) { d += step::<T>(p[0].v, p[1].v); } d }
/// everything there is to ask about a summary of points at increasing times
fn read<T: M>(r: &T, v: &[Pt], id: u32) {
    let n = v.len();
    let d = r.clone().deltas();
    let sec = |a: i64, b: i64| (b - a) as f64 / 1e6;
    let dt = sec(v[0].t, v[n - 1].t);
    let m = if n > 1 { [last_step(v[0].v, v[1].v), last_step(v[n - 2].v, v[n - 1].v)] } else { [0.0, 0.0] };
    sx::check(sx::close(d[0], total::<T>(v)) & sx::close(d[1], dt), id);
    sx::check(sx::close(d[2], m[0]) & sx::close(d[3], m[1]), id + 1);
    let a = r.clone().arrow_deltas();
    sx::check(sx::close(d[0], a[0]) & sx::close(d[1], a[1]) & sx::close(d[2], a[2]) & sx::close(d[3], a[3]), id + 2);
    let (q, w) = (r.clone().rates(), r.clone().arrow_rates());
    let span = if n > 1 { [dt, sec(v[0].t, v[1].t), sec(v[n - 2].t, v[n - 1].t)] } else { [0.0; 3] };
    for i in 0..5 {
        match (q[i], w[i]) {
            (Some(x), Some(y)) => { sx::check(sx::close(x, y), id + 3); if i < 3 { sx::check(n > 1 && sx::close(x * span[i], [d[0], m[0], m[1]][i]), id + 4); } }
            (None, None) => if i < 3 { sx::check(n == 1, id + 4); },
            _ => sx::check(false, id + 3),
        }
    }
    let mut ch = 0i64;
    let mut rs = 0;
    for p in v.windows(2) { if p[0].v != p[1].v { ch += 1; } if p[1].v < p[0].v { rs += 1; } }
    let k = r.clone().counts();
    sx::check((k[0] == n as i64) & (k[1] == ch) & (k[2] == v[0].t) & (k[3] == v[n - 1].t), id + 5);
    let i = r.clone().inner();
    sx::check(sx::close(i.first.val, v[0].v) & sx::close(i.last.val, v[n - 1].v) & (i.num_resets == if T::COUNTER { rs } else { 0 }), id + 6);
    let o = r.clone().outer();
    sx::check(sx::close(o.0, v[0].v) & sx::close(o.1, v[n - 1].v) & (o.2 == if T::COUNTER { rs as i64 } else { 0 }), id + 6);
    // regression of the reset-adjusted values over seconds
    let mut y = vec![v[0].v];
    for p in v.windows(2) { let l = y[y.len() - 1]; y.push(l + step::<T>(p[0].v, p[1].v)); }
    let (mut sx_, mut sy, mut sxx, mut sxy) = (0.0, 0.0, 0.0, 0.0);
    for j in 0..n { let x = v[j].t as f64 / 1e6; sx_ += x; sy += y[j]; sxx += x * x; sxy += x * y[j]; }
    let f = n as f64;
    match (q[3], q[4]) {
        (Some(s), Some(t)) => { sx::check(n > 1 && sx::close(s * (f * sxx - sx_ * sx_), f * sxy - sx_ * sy), id + 7); sx::check(sx::close(f * t, sy - s * sx_), id + 8); }
        (None, None) => sx::check(n == 1, id + 7),
        _ => sx::check(false, id + 7),
    }
    let mut syy = 0.0;
    for a in &y { syy += a * a; }
    let (p, vx, vy) = (f * sxy - sx_ * sy, f * sxx - sx_ * sx_, f * syy - sy * sy);
    match w[5] {
        Some(c) => {
            let i = r.clone().inner().stats;
            sx::check(n > 1 && sx::close(i.sx2 * f, vx) & sx::close(i.sy2 * f, vy) & sx::close(i.sxy * f, p), id + 9);
            // a root and products of three values: left to two points, where solvers do not give up
            if n == 2 {
                let d = (i.sx2 * i.sy2).sqrt();
                sx::assume((d > 0.0) & (d * d == i.sx2 * i.sy2));
                sx::check(sx::close(c * d, i.sxy), id + 9);
            }
        }
        None => sx::check(n == 1 || sx::close(vy, 0.0), id + 9),
    }
}
const T4: [i64; 6] = [-2_000_000, 0, 1_000_000, 4_000_000, 6_000_000, 7_500_000];
fn line<T: M>(n: usize) -> Vec<Pt> { (0..n).map(|i| Pt { t: T4[i], v: val::<T>() }).collect() }
fn seq<T: M>() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let v = line::<T>(n);
    // any order of arrival
    let mut left: Vec<usize> = (0..n).collect();
    let hole = sx::choice(n as u64 + 1) as usize;
    let mut s = none();
    for i in 0..n {
        if i == hole { s = T::plain(s, (None, Some(1.0))); s = T::trans(s, (Some(-9), None), None); }
        let k = left.remove(sx::choice((n - i) as u64) as usize);
        s = T::trans(s, (Some(v[k].t), Some(v[k].v)), None);
    }
    sx::cover(if n == 1 { 1 } else { 2 });
    read(&stored(T::done(again(&s)).unwrap()), &v, 1);
    // reading does not disturb the state
    s = T::plain(s, (Some(9_000_000), Some(v[0].v)));
    let mut u = v.clone();
    u.push(Pt { t: 9_000_000, v: v[0].v });
    sx::check(sx::close(T::done(s).unwrap().deltas()[0], total::<T>(&u)), 20);
    sx::check(T::done(none()).is_none(), 21);
}
fn split<T: M>() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let v = line::<T>(n);
    let (i, j) = (sx::choice(n as u64 + 1) as usize, sx::choice(n as u64 + 1) as usize);
    if i > j { return; }
    let cut = [&v[..i], &v[i..j], &v[j..]];
    let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][sx::choice(6) as usize];
    let s = if sx::choice(2) == 0 {
        sx::cover(1);
        let mut q = none();
        for k in o {
            let mut p = none();
            for x in cut[k] { p = T::plain(p, (Some(x.t), Some(x.v))); }
            if !cut[k].is_empty() && k == o[0] { p = T::unbytes(T::bytes(p)); }
            q = T::join(q, p);
        }
        q
    } else {
        sx::cover(2);
        let mut q = T::take(none(), build::<T>(cut[o[0]]));
        q = T::take(q, build::<T>(cut[o[1]]));
        if sx::choice(2) == 0 { T::take(q, build::<T>(cut[o[2]])) } else { sx::cover(3); T::join(T::take(none(), build::<T>(cut[o[2]])), q) }
    };
    read(&stored(T::done(s).unwrap()), &v, 1);
}
/// summaries of overlapping stretches are not put together
fn refused<T: M>() {
    let (a, b) = (sx::choice(3) as i64, sx::choice(3) as i64);
    let x = [Pt { t: 0, v: sx::choice(4) as f64 }, Pt { t: 10, v: sx::choice(4) as f64 }];
    let y = [Pt { t: 8 + a, v: sx::choice(4) as f64 }, Pt { t: 11 + b, v: sx::choice(4) as f64 }];
    let (p, q) = if sx::choice(2) == 0 { (build::<T>(&x), build::<T>(&y)) } else { (build::<T>(&y), build::<T>(&x)) };
    let s = T::take(T::take(none(), p), q);
    sx::panic_ok(1);
    let _ = T::done(s);
    sx::check(false, 1);
}
/// bounds given with the first point, or set later by either form, are the same half-open range
fn bounds<T: M>() {
    let (lo, hi) = (sx::int(40), sx::int(40));
    let flags = [0u8, 2, 4, 6, 8, 8 | 4, 16, 16 | 2, 24, 1][sx::choice(10) as usize];
    let v = [Pt { t: 0, v: 2.0 }, Pt { t: 3, v: 2.0 }];
    let l = if flags & 8 != 0 { None } else { Some(if flags & 2 != 0 { lo } else { lo + 1 }) };
    let h = if flags & 16 != 0 { None } else { Some(if flags & 4 != 0 { hi + 1 } else { hi }) };
    let empty = flags & 1 != 0;
    let holds = empty || (l.map_or(true, |l| l <= 0) && h.map_or(true, |h| 3 < h));
    let how = sx::choice(3);
    if !holds && how == 0 { return; }
    let r = match how {
        0 => {
            sx::cover(1);
            let s = T::trans(none(), (Some(v[0].t), Some(v[0].v)), Some(span(flags, lo, hi)));
            T::done(T::trans(s, (Some(v[1].t), Some(v[1].v)), Some(span(flags, lo, hi)))).unwrap()
        }
        1 => { sx::cover(2); build::<T>(&v).unwrap().bounded(span(flags, lo, hi)) }
        _ => { sx::cover(3); build::<T>(&v).unwrap().arrow_bounded(stored(acc::accessor_with_bounds(span(flags, lo, hi)))) }
    };
    let b = stored(r).inner().bounds;
    if empty { sx::check(b.is_none(), 1); }
    else if let Some(b) = b {
        sx::check(b.left.is_some() == l.is_some() && b.right.is_some() == h.is_some(), 2);
        if let (Some(x), Some(y)) = (b.left, l) { sx::check(x == y, 3); }
        if let (Some(x), Some(y)) = (b.right, h) { sx::check(x == y, 4); }
    } else { sx::check(false, 1); }
}
/// bounds that do not hold the points are refused when the aggregate finishes
fn bad_bounds<T: M>() {
    let (lo, hi) = (sx::int(10), sx::int(10));
    sx::assume(!(lo <= 0 && 3 < hi));
    let mut s = T::trans(none(), (Some(0), Some(1.0)), Some(span(2, lo, hi)));
    s = T::trans(s, (Some(3), Some(2.0)), None);
    sx::panic_ok(1);
    let _ = T::done(s);
    sx::check(false, 1);
}
/// extrapolation: absent for a single point, else the delta stretched towards the bounds; all forms agree
fn extra<T: M>() {
    let n = 1 + sx::choice(2) as usize;
    let v: Vec<Pt> = (0..n).map(|i| Pt { t: i as i64 * 10, v: val::<T>() }).collect();
    let (b, e) = ([-20, -3, 0][sx::choice(3) as usize], [11, 13, 40][sx::choice(3) as usize]);
    let r = build::<T>(&v).unwrap().bounded(span(2, b, e));
    let m = r.clone().inner();
    let x = r.extra();
    let same = |a: Option<f64>, b: Option<f64>| match (a, b) { (Some(a), Some(b)) => sx::close(a, b), (None, None) => true, _ => false };
    sx::check(same(x[0], x[2]) && same(x[1], x[3]), 1);
    sx::check(same(x[0], m.prometheus_delta().unwrap()) && same(x[1], m.prometheus_rate().unwrap()), 2);
    sx::check(x[0].is_some() == (n > 1), 3);
    if let (Some(d), Some(q)) = (x[0], x[1]) { sx::check(sx::close(q * ((e - b) as f64 / 1e6), d), 4); }
}
fn at<T: M>(a: &Pt, b: &Pt, t: i64) -> Pt { let from = if T::COUNTER && a.v > b.v { 0.0 } else { a.v }; Pt { t, v: from + (b.v - from) * ((t - a.t) as f64 / (b.t - a.t) as f64) } }
/// interpolation to the bounds of a bucket: a counter that falls counts up from zero
fn interp<T: M>() {
    let g = |o: i64, k: u64| -> Vec<Pt> { [&[0i64][..], &[3_000_000], &[2_000_000, 7_000_000]][sx::choice(k) as usize].iter().map(|t| Pt { t: o + t, v: val::<T>() }).collect() };
    let (a, b, c) = (g(-8_000_000, 3), g(0, 3), g(8_000_000, 2));
    let (p, n) = (sx::choice(2) == 1, sx::choice(2) == 1);
    let r = build::<T>(&b).unwrap();
    let (prev, next) = (if p { build::<T>(&a) } else { None }, if n { build::<T>(&c) } else { None });
    let mut d = total::<T>(&b);
    let (mut first, mut last) = (b[0].t, b[b.len() - 1].t);
    if p && b[0].t > 0 { sx::cover(1); first = 0; d += b[0].v - at::<T>(a.last().unwrap(), &b[0], 0).v; }
    if n {
        sx::cover(2);
        let l = b.last().unwrap();
        last = 8_000_000;
        let e = at::<T>(l, &c[0], last);
        d += if T::COUNTER && l.v > c[0].v { e.v } else { e.v - l.v };
    }
    let (x, q) = if sx::choice(2) == 0 { r.interp(0, 8_000_000, prev, next) } else { r.arrow_interp(0, 8_000_000, prev, next) };
    sx::check(sx::close(x, d), 1);
    match q { Some(q) => sx::check(last > first && sx::close(q * ((last - first) as f64 / 1e6), d), 2), None => sx::check(last == first, 2) }
}
/// the buckets of a gapless series, each interpolated from its neighbours, add up to the whole
fn buckets<T: M>() {
    let mut all: Vec<Pt> = vec![];
    let mut s = vec![];
    for k in 0..3 {
        let v: Vec<Pt> = [&[1i64][..], &[0], &[4, 6]][sx::choice(3) as usize].iter().map(|t| Pt { t: 8 * k + t, v: val::<T>() }).collect();
        s.push(build::<T>(&v));
        all.extend(v);
    }
    let mut sum = 0.0;
    for k in 0..3usize {
        let (p, n) = (if k > 0 { s[k - 1].clone() } else { None }, if k < 2 { s[k + 1].clone() } else { None });
        sum += s[k].clone().unwrap().interp(8 * k as i64, 8, p, n).0;
    }
    sx::check(sx::close(sum, total::<T>(&all)), 1);
}
macro_rules! both { ($($f:ident, $c:ident, $g:ident;)*) => { $(pub fn $c() { $f::<CounterSummary>() } pub fn $g() { $f::<GaugeSummary>() })* } }
both! {
    seq, c_seq, g_seq;
    split, c_split, g_split;
    refused, c_refused, g_refused;
    bounds, c_bounds, g_bounds;
    bad_bounds, c_bad, g_bad;
    extra, c_extra, g_extra;
    interp, c_interp, g_interp;
    buckets, c_buckets, g_buckets;
}
