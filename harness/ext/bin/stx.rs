// stats_agg as SQL sees it: transitions, windows, partial states, rollup and accessors.
use crate::u::*;
use stats_agg::{stats1d::StatsSummary1D as In1, stats2d::StatsSummary2D as In2};
use timescaledb_toolkit::{accessors as acc, stats_agg::{self as s, verif as v, StatsSummary1D, StatsSummary2D}};

fn z<T>() -> T { unsafe { std::mem::zeroed() } }
fn sum(v: &[f64]) -> f64 { let mut s = 0.0; for x in v { s += x; } s }
fn moment(v: &[f64], k: u32) -> f64 {
    let m = sum(v) / v.len() as f64;
    let mut r = 0.0;
    for x in v { let d = x - m; let mut p = 1.0; for _ in 0..k { p *= d; } r += p; }
    r
}
fn coproduct(a: &[f64], b: &[f64]) -> f64 {
    let n = a.len() as f64;
    let (ma, mb) = (sum(a) / n, sum(b) / n);
    let mut r = 0.0;
    for i in 0..a.len() { r += (a[i] - ma) * (b[i] - mb); }
    r
}
/// how values come in: doubles or bigints, plain or in the moving-aggregate form
#[derive(Clone, Copy, PartialEq)]
struct Way { int: bool, tf: bool }
/// also a plain way for bigints
fn put(w: Way, q: Internal, x: Option<f64>) -> Internal {
    let i = x.map(|x| x as i64);
    state(match (w.int, w.tf) { (false, false) => s::stats1d_trans(q, x, FC), (false, true) => s::stats1d_tf_trans(q, x, FC), (true, false) => s::stats1d_i64_trans(q, i, FC), (true, true) => s::stats1d_i64_tf_trans(q, i, FC) })
}
/// gives None when the server has to start over
fn take(w: Way, q: Internal, x: Option<f64>) -> Option<Internal> {
    let i = x.map(|x| x as i64);
    match (w.int, w.tf) { (false, false) => s::stats1d_inv_trans(q, x, FC), (_, true) if w.int => s::stats1d_i64_tf_inv_trans(q, i, FC), (_, true) => s::stats1d_tf_inv_trans(q, x, FC), _ => None }
}
fn done(w: Way, q: Internal) -> Option<StatsSummary1D> { if w.tf { v::stats1d_tf_final(q, FC) } else { v::stats1d_final(q, FC) } }
fn is1(r: &StatsSummary1D, v: &[f64], id: u32) {
    sx::check(r.n == v.len() as u64, id);
    if v.is_empty() { sx::check((r.sx == 0.0) & (r.sx2 == 0.0) & (r.sx3 == 0.0) & (r.sx4 == 0.0), id + 1); return; }
    sx::check(sx::close(r.sx, sum(v)), id + 1);
    sx::check(sx::close(r.sx2, moment(v, 2)), id + 2);
    sx::check(sx::close(r.sx3, moment(v, 3)), id + 3);
    sx::check(sx::close(r.sx4, moment(v, 4)), id + 4);
}
fn is2(r: &StatsSummary2D, p: &[(f64, f64)], id: u32) {
    let (x, y): (Vec<f64>, Vec<f64>) = (p.iter().map(|p| p.0).collect(), p.iter().map(|p| p.1).collect());
    sx::check(r.n == p.len() as u64, id);
    if x.is_empty() { sx::check((r.sx == 0.0) & (r.sy == 0.0) & (r.sx2 == 0.0) & (r.sy2 == 0.0) & (r.sxy == 0.0) & (r.sx3 == 0.0) & (r.sx4 == 0.0) & (r.sy3 == 0.0) & (r.sy4 == 0.0), id + 1); return; }
    sx::check(sx::close(r.sx, sum(&x)) & sx::close(r.sy, sum(&y)), id + 1);
    sx::check(sx::close(r.sx2, moment(&x, 2)) & sx::close(r.sy2, moment(&y, 2)), id + 2);
    sx::check(sx::close(r.sxy, coproduct(&x, &y)), id + 3);
    sx::check(sx::close(r.sx3, moment(&x, 3)) & sx::close(r.sy3, moment(&y, 3)), id + 4);
    sx::check(sx::close(r.sx4, moment(&x, 4)) & sx::close(r.sy4, moment(&y, 4)), id + 5);
}
/// the moving-aggregate form computes in two doubles each, which has no symbolic counterpart: values from a few
fn values(w: Way, n: usize) -> Vec<f64> { (0..n).map(|i| if w.tf && !w.int { [1.5, -4.0, 0.25][sx::choice(3) as usize] } else if w.int { ([3, 0, -2, 7][i] + 10 * sx::choice(3) as i64) as f64 } else { sx::f64() }).collect() }
fn way() -> Way { if sx::param(1) == 0 { Way { int: false, tf: false } } else { Way { int: sx::choice(2) == 1, tf: true } } }
/// missing values count for nothing
pub fn seq() {
    let w = way();
    let n = sx::choice(sx::param(0) as u64 + 1) as usize;
    let v = values(w, n);
    let hole = sx::choice(n as u64 + 1) as usize;
    let mut q = none();
    for i in 0..=n {
        if i == hole { q = put(w, q, None); }
        if i < n { q = put(w, q, Some(v[i])); }
    }
    sx::cover(if n == 0 { 1 } else { 2 });
    is1(&stored(done(w, again(&q)).unwrap()), &v, 1);
    let x = values(w, 1)[0];
    q = put(w, q, Some(x));
    let mut u = v.clone();
    u.push(x);
    sx::check(sx::close(done(w, q).unwrap().sx, sum(&u)), 6);
    sx::check(done(w, none()).is_none(), 7);
}
/// a window slides over the values, one in and one out at a time
pub fn window() {
    let w = way();
    let n = sx::param(0);
    let v = values(w, n);
    let gap = sx::choice(n as u64 + 1) as usize;
    let u: Vec<Option<f64>> = (0..n).map(|i| if i == gap { None } else { Some(v[i]) }).collect();
    let width = 1 + sx::choice(n as u64 - 1) as usize;
    let mut q = none();
    for i in 0..n {
        if i >= width {
            q = match take(w, q, u[i - width]) { Some(q) => { sx::cover(1); q } None => { sx::cover(2); let mut q = none(); for j in i - width + 1..i { q = put(w, q, u[j]); } q } };
        }
        q = put(w, q, u[i]);
        let lo = if i + 1 >= width { i + 1 - width } else { 0 };
        let x: Vec<f64> = u[lo..=i].iter().filter_map(|x| *x).collect();
        let r = done(w, again(&q)).unwrap();
        if i == n - 1 { is1(&r, &x, 1); }
    }
}
/// any grouping of the values, in any order, as partial states (some through bytes) or as finished summaries; then one taken away again
pub fn split() {
    let w = Way { int: false, tf: false };
    let n = sx::choice(sx::param(0) as u64 + 1) as usize;
    let v = values(w, n);
    let (i, j) = (sx::choice(n as u64 + 1) as usize, sx::choice(n as u64 + 1) as usize);
    if i > j { return; }
    let cut = [&v[..i], &v[i..j], &v[j..]];
    let o = [[0, 1, 2], [1, 2, 0], [2, 1, 0]][sx::choice(3) as usize];
    let build = |v: &[f64]| { let mut q = none(); for x in v { q = put(w, q, Some(*x)); } q };
    match sx::choice(3) {
        0 => {
            sx::cover(1);
            let mut q = none();
            for k in o {
                let mut p = build(cut[k]);
                if !cut[k].is_empty() && k == o[1] { p = state(s::stats1d_trans_deserialize(s::stats1d_trans_serialize(p), none())); }
                q = state(s::stats1d_combine(q, p, FC));
            }
            let r = done(w, q);
            if n > 0 { is1(&r.unwrap(), &v, 1); } else { sx::check(r.is_none(), 1); }
        }
        1 => {
            sx::cover(2);
            let mut q = none();
            for k in o { q = state(s::stats1d_summary_trans(q, done(w, build(cut[k])).map(stored), FC)); }
            let r = done(w, again(&q));
            if n > 0 { is1(&r.unwrap(), &v, 6); } else { return; }
            // the first group leaves the window
            let rest: Vec<f64> = [cut[o[1]], cut[o[2]]].concat();
            match s::stats1d_summary_inv_trans(q, done(w, build(cut[o[0]])).map(stored), FC) { Some(q) => { sx::cover(3); is1(&done(w, q).unwrap(), &rest, 11); } None => sx::cover(4) }
        }
        _ => {
            sx::cover(5);
            let t = |q, k: usize| state(s::stats1d_summary_trans(q, done(w, build(cut[k])).map(stored), FC));
            let q = state(s::stats1d_combine(t(none(), o[0]), t(t(none(), o[1]), o[2]), FC));
            if n > 0 { is1(&done(w, q).unwrap(), &v, 16); }
        }
    }
}
fn put2(tf: bool, q: Internal, x: Option<f64>, y: Option<f64>) -> Internal { state(if tf { s::stats2d_tf_trans(q, y, x, FC) } else { s::stats2d_trans(q, y, x, FC) }) }
fn done2(tf: bool, q: Internal) -> Option<StatsSummary2D> { if tf { v::stats2d_tf_final(q, FC) } else { v::stats2d_final(q, FC) } }
fn pairs(n: usize) -> Vec<(f64, f64)> { (0..n).map(|i| if sx::param(1) == 1 { ([1.5, -4.0][sx::choice(2) as usize], [i as f64, 0.25][sx::choice(2) as usize]) } else { (sx::f64(), sx::f64()) }).collect() }
/// pairs with a missing half count for nothing
pub fn seq2() {
    let tf = sx::param(1) == 1;
    let n = sx::choice(sx::param(0) as u64 + 1) as usize;
    let p = pairs(n);
    let hole = sx::choice(n as u64 + 1) as usize;
    let mut q = none();
    for i in 0..=n {
        if i == hole { q = put2(tf, q, None, Some(1.0)); q = put2(tf, q, Some(1.0), None); q = put2(tf, q, None, None); }
        if i < n { q = put2(tf, q, Some(p[i].0), Some(p[i].1)); }
    }
    sx::cover(if n == 0 { 1 } else { 2 });
    is2(&stored(done2(tf, again(&q)).unwrap()), &p, 1);
    sx::check(done2(tf, none()).is_none(), 7);
}
pub fn window2() {
    let tf = sx::param(1) == 1;
    let n = sx::param(0);
    let p = pairs(n);
    let mut q = none();
    for x in &p { q = put2(tf, q, Some(x.0), Some(x.1)); }
    q = state(if tf { s::stats2d_tf_inv_trans(q, None, Some(1.0), FC) } else { s::stats2d_inv_trans(q, Some(1.0), None, FC) });
    let (x, y) = (Some(p[0].0), Some(p[0].1));
    match if tf { s::stats2d_tf_inv_trans(q, y, x, FC) } else { s::stats2d_inv_trans(q, y, x, FC) } {
        Some(q) => { sx::cover(1); is2(&done2(tf, q).unwrap(), &p[1..], 1); }
        None => sx::cover(2),
    }
}
pub fn split2() {
    let n = sx::choice(sx::param(0) as u64 + 1) as usize;
    let p = pairs(n);
    let k = sx::choice(n as u64 + 1) as usize;
    let build = |p: &[(f64, f64)]| { let mut q = none(); for x in p { q = put2(false, q, Some(x.0), Some(x.1)); } q };
    let (a, b) = if sx::choice(2) == 0 { (&p[..k], &p[k..]) } else { (&p[k..], &p[..k]) };
    if sx::choice(2) == 0 {
        sx::cover(1);
        let c = build(b);
        let c = if b.is_empty() { c } else { state(s::stats2d_trans_deserialize(s::stats2d_trans_serialize(c), none())) };
        let r = done2(false, state(s::stats2d_combine(build(a), c, FC)));
        if n > 0 { is2(&r.unwrap(), &p, 1); } else { sx::check(r.is_none(), 1); }
    } else {
        sx::cover(2);
        let t = |q, p: &[(f64, f64)]| state(s::stats2d_summary_trans(q, done2(false, build(p)).map(stored), FC));
        let q = t(t(none(), a), b);
        if n == 0 { return; }
        is2(&done2(false, again(&q)).unwrap(), &p, 7);
        match s::stats2d_summary_inv_trans(q, done2(false, build(a)).map(stored), FC) { Some(q) => { sx::cover(3); is2(&done2(false, q).unwrap(), b, 13); } None => sx::cover(4) }
    }
}
/// bigints that a double cannot hold are refused, others are exact
pub fn big() {
    let edge = sx::choice(2) == 0;
    let x = if edge { [(1 << 53) - 1, 1 << 53, -(1 << 53) + 1, -(1 << 53), 0, -1, 1 << 40][sx::choice(7) as usize] } else { sx::int(64) };
    let fits = x >= -(1 << 53) && x <= 1 << 53;
    let w = Way { int: true, tf: sx::choice(2) == 1 };
    if !edge { sx::assume(!fits); }
    if !fits { sx::panic_ok(1); } else { sx::cover(1); }
    let q = state(if w.tf { s::stats1d_i64_tf_trans(none(), Some(x), FC) } else { s::stats1d_i64_trans(none(), Some(x), FC) });
    sx::check(fits, 1);
    if !edge { return; }
    let r = done(w, q).unwrap();
    sx::check(r.sx == x as f64, 2);
    sx::check(r.n == 1, 3);
}
fn same(a: Option<f64>, b: Option<f64>, id: u32) { match (a, b) { (Some(a), Some(b)) => sx::check(sx::close(a, b), id), (None, None) => {}, _ => sx::check(false, id) } }
const METHODS: [(&str, bool); 6] = [("population", true), ("sample", false), ("pop", true), ("samp", false), (" Population ", true), ("SAMPLE", false)];
/// every accessor gives the statistic of its name, in both call forms
pub fn read() {
    let n = sx::choice(4);
    let i = In1::<f64> { n, sx: sx::f64(), sx2: sx::f64(), sx3: sx::f64(), sx4: sx::f64() };
    sx::assume(i.sx2 > 0.0);
    let r = StatsSummary1D::from_internal(i);
    let r = || stored(r.clone());
    let (m, pop) = METHODS[sx::choice(6) as usize];
    sx::cover(n as u32 + 1);
    same(v::stats1d_average(r()), i.avg(), 1);
    same(s::arrow_stats1d_average(r(), z()), i.avg(), 2);
    same(v::stats1d_sum(r()), i.sum(), 3);
    same(s::arrow_stats1d_sum(r(), z()), i.sum(), 4);
    sx::check(v::stats1d_num_vals(r()) == n as i64 && s::arrow_stats1d_num_vals(r(), z()) == n as i64, 5);
    let e = if pop { [i.var_pop(), i.stddev_pop(), i.skewness_pop(), i.kurtosis_pop()] } else { [i.var_samp(), i.stddev_samp(), i.skewness_samp(), i.kurtosis_samp()] };
    if n == 1 && !pop { return; }
    same(v::stats1d_variance(Some(r()), m), e[0], 6);
    same(s::arrow_stats1d_variance(Some(r()), stored(acc::accessor_variance(m))), e[0], 7);
    same(v::stats1d_stddev(Some(r()), m), e[1], 8);
    same(s::arrow_stats1d_stddev(Some(r()), stored(acc::accessor_stddev(m))), e[1], 9);
    same(v::stats1d_skewness(r(), m), e[2], 10);
    same(s::arrow_stats1d_skewness(r(), stored(acc::accessor_skewness(m))), e[2], 11);
    same(v::stats1d_kurtosis(r(), m), e[3], 12);
    same(s::arrow_stats1d_kurtosis(r(), stored(acc::accessor_kurtosis(m))), e[3], 13);
    sx::check(v::stats1d_variance(None, m).is_none() && v::stats1d_stddev(None, m).is_none(), 14);
}
pub fn read2() {
    let n = sx::choice(4);
    let (a, b) = (In1::<f64> { n, sx: sx::f64(), sx2: sx::f64(), sx3: sx::f64(), sx4: sx::f64() }, In1::<f64> { n, sx: sx::f64(), sx2: sx::f64(), sx3: sx::f64(), sx4: sx::f64() });
    sx::assume(a.sx2 > 0.0 && b.sx2 > 0.0);
    let i = In2::<f64> { n, sx: a.sx, sx2: a.sx2, sx3: a.sx3, sx4: a.sx4, sy: b.sx, sy2: b.sx2, sy3: b.sx3, sy4: b.sx4, sxy: sx::f64() };
    // made by the rollup's first step
    let mut r = done2(false, put2(false, none(), None, None)).unwrap();
    r.n = i.n; r.sx = i.sx; r.sx2 = i.sx2; r.sx3 = i.sx3; r.sx4 = i.sx4; r.sy = i.sy; r.sy2 = i.sy2; r.sy3 = i.sy3; r.sy4 = i.sy4; r.sxy = i.sxy;
    let r = || stored(r.clone());
    let (m, pop) = METHODS[sx::choice(6) as usize];
    sx::cover(n as u32 + 1);
    same(v::stats2d_average_x(r()), a.avg(), 1);
    same(v::stats2d_average_y(r()), b.avg(), 2);
    same(v::stats2d_sum_x(r()), a.sum(), 3);
    same(v::stats2d_sum_y(r()), b.sum(), 4);
    same(s::arrow_stats2d_average_x(r(), z()), a.avg(), 5);
    same(s::arrow_stats2d_average_y(r(), z()), b.avg(), 6);
    same(s::arrow_stats2d_sum_x(r(), z()), a.sum(), 7);
    same(s::arrow_stats2d_sum_y(r(), z()), b.sum(), 8);
    sx::check(v::stats2d_num_vals(r()) == n as i64 && s::arrow_stats2d_num_vals(r(), z()) == n as i64, 9);
    if n == 1 && !pop { return; }
    let of = |i: &In1<f64>| if pop { [i.var_pop(), i.stddev_pop(), i.skewness_pop(), i.kurtosis_pop()] } else { [i.var_samp(), i.stddev_samp(), i.skewness_samp(), i.kurtosis_samp()] };
    let (e, f) = (of(&a), of(&b));
    same(v::stats2d_variance_x(Some(r()), m), e[0], 10);
    same(v::stats2d_variance_y(Some(r()), m), f[0], 11);
    same(v::stats2d_stddev_x(Some(r()), m), e[1], 12);
    same(v::stats2d_stddev_y(Some(r()), m), f[1], 13);
    same(v::stats2d_skewness_x(r(), m), e[2], 14);
    same(v::stats2d_skewness_y(r(), m), f[2], 15);
    same(v::stats2d_kurtosis_x(r(), m), e[3], 16);
    same(v::stats2d_kurtosis_y(r(), m), f[3], 17);
    same(s::arrow_stats2d_variance_x(Some(r()), stored(acc::accessor_variance_x(m))), e[0], 18);
    same(s::arrow_stats2d_variance_y(Some(r()), stored(acc::accessor_variance_y(m))), f[0], 19);
    same(s::arrow_stats2d_stdddev_x(Some(r()), stored(acc::accessor_stddev_x(m))), e[1], 20);
    same(s::arrow_stats2d_stdddev_y(Some(r()), stored(acc::accessor_stddev_y(m))), f[1], 21);
    same(s::arrow_stats2d_skewness_x(r(), stored(acc::accessor_skewness_x(m))), e[2], 22);
    same(s::arrow_stats2d_skewness_y(r(), stored(acc::accessor_skewness_y(m))), f[2], 23);
    same(s::arrow_stats2d_kurtosis_x(r(), stored(acc::accessor_kurtosis_x(m))), e[3], 24);
    same(s::arrow_stats2d_kurtosis_y(r(), stored(acc::accessor_kurtosis_y(m))), f[3], 25);
}
/// the regression of a two-dimensional summary, in both call forms
pub fn line() {
    let n = sx::choice(4);
    let i = In2::<f64> { n, sx: sx::f64(), sx2: sx::f64(), sx3: 0.0, sx4: 0.0, sy: sx::f64(), sy2: sx::f64(), sy3: 0.0, sy4: 0.0, sxy: sx::f64() };
    sx::assume(i.sx2 > 0.0 && i.sy2 > 0.0 && i.sxy > 0.0);
    let mut r = done2(false, put2(false, none(), None, None)).unwrap();
    r.n = i.n; r.sx = i.sx; r.sx2 = i.sx2; r.sy = i.sy; r.sy2 = i.sy2; r.sxy = i.sxy;
    let r = || stored(r.clone());
    let (m, pop) = METHODS[sx::choice(6) as usize];
    sx::cover(n as u32 + 1);
    same(v::stats2d_slope(r()), i.slope(), 1);
    same(v::stats2d_intercept(r()), i.intercept(), 2);
    same(v::stats2d_x_intercept(r()), i.x_intercept(), 3);
    same(v::stats2d_corr(r()), i.corr(), 4);
    same(v::stats2d_determination_coeff(r()), i.determination_coeff(), 5);
    same(s::arrow_stats2d_slope(r(), z()), i.slope(), 6);
    same(s::arrow_stats2d_intercept(r(), z()), i.intercept(), 7);
    same(s::arrow_stats2d_x_intercept(r(), z()), i.x_intercept(), 8);
    same(s::arrow_stats2d_corr(r(), z()), i.corr(), 9);
    same(s::arrow_stats2d_determination_coeff(r(), z()), i.determination_coeff(), 10);
    if n == 1 && !pop { return; }
    let e = if pop { i.covar_pop() } else { i.covar_samp() };
    same(v::stats2d_covar(Some(r()), m), e, 11);
    same(s::arrow_stats2d_covar(Some(r()), stored(acc::accessor_covar(m))), e, 12);
}
/// an unknown method is refused
pub fn method() {
    let m = ["populations", "", "s", "both"][sx::choice(4) as usize];
    let r = done(Way { int: false, tf: false }, put(Way { int: false, tf: false }, none(), Some(1.0))).unwrap();
    sx::panic_ok(1);
    if sx::choice(2) == 0 { let _ = v::stats1d_variance(Some(r), m); } else { let _ = acc::accessor_kurtosis_x(m); }
    sx::check(false, 1);
}
