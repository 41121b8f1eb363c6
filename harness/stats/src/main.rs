#![no_main]
// stats_agg: every summary equals the definition of the statistic over the multiset of inputs, however it was built.
use stats_agg::{stats1d::StatsSummary1D, stats2d::StatsSummary2D, XYPair};

fn n_values(n: usize) -> Vec<f64> { (0..n).map(|_| sx::f64()).collect() }
fn moment(v: &[f64], k: u32) -> f64 {
    let n = v.len() as f64;
    let mut s = 0.0;
    for x in v { s += x; }
    let m = s / n;
    let mut r = 0.0;
    for x in v { let d = x - m; let mut p = 1.0; for _ in 0..k { p *= d; } r += p; }
    r
}
fn sum(v: &[f64]) -> f64 { let mut s = 0.0; for x in v { s += x; } s }
fn coproduct(a: &[f64], b: &[f64]) -> f64 {
    let n = a.len() as f64;
    let (ma, mb) = (sum(a) / n, sum(b) / n);
    let mut r = 0.0;
    for i in 0..a.len() { r += (a[i] - ma) * (b[i] - mb); }
    r
}
fn accum1(v: &[f64]) -> StatsSummary1D<f64> { let mut s = StatsSummary1D::new(); for x in v { s.accum(*x).unwrap(); } s }
fn is1(s: &StatsSummary1D<f64>, v: &[f64], id: u32) {
    sx::check(s.n == v.len() as u64, id);
    if v.is_empty() { sx::check((s.sx == 0.0) & (s.sx2 == 0.0) & (s.sx3 == 0.0) & (s.sx4 == 0.0), id + 1); return; }
    sx::check(sx::close(s.sx, sum(v)), id + 1);
    sx::check(sx::close(s.sx2, moment(v, 2)), id + 2);
    sx::check(sx::close(s.sx3, moment(v, 3)), id + 3);
    sx::check(sx::close(s.sx4, moment(v, 4)), id + 4);
}
fn accum2(x: &[f64], y: &[f64]) -> StatsSummary2D<f64> { let mut s = StatsSummary2D::new(); for i in 0..x.len() { s.accum(XYPair { x: x[i], y: y[i] }).unwrap(); } s }
fn is2(s: &StatsSummary2D<f64>, x: &[f64], y: &[f64], id: u32) {
    sx::check(s.n == x.len() as u64, id);
    if x.is_empty() { sx::check((s.sx == 0.0) & (s.sy == 0.0) & (s.sx2 == 0.0) & (s.sy2 == 0.0) & (s.sxy == 0.0) & (s.sx3 == 0.0) & (s.sx4 == 0.0) & (s.sy3 == 0.0) & (s.sy4 == 0.0), id + 1); return; }
    sx::check(sx::close(s.sx, sum(x)) & sx::close(s.sy, sum(y)), id + 1);
    sx::check(sx::close(s.sx2, moment(x, 2)), id + 2);
    sx::check(sx::close(s.sy2, moment(y, 2)), id + 3);
    sx::check(sx::close(s.sxy, coproduct(x, y)), id + 4);
    sx::check(sx::close(s.sx3, moment(x, 3)), id + 5);
    sx::check(sx::close(s.sy3, moment(y, 3)), id + 6);
    sx::check(sx::close(s.sx4, moment(x, 4)), id + 7);
    sx::check(sx::close(s.sy4, moment(y, 4)), id + 8);
}

/// one pass over n values
fn pass1() { let v = n_values(sx::choice(sx::param(0) as u64 + 1) as usize); let s = accum1(&v); sx::cover(v.len() as u32); is1(&s, &v, 1); sx::observe(s.n); }
/// two partials combined
fn comb1() {
    let v = n_values(sx::choice(sx::param(0) as u64 + 1) as usize);
    let k = sx::choice(v.len() as u64 + 1) as usize;
    let s = accum1(&v[..k]).combine(accum1(&v[k..])).unwrap();
    sx::cover(1);
    is1(&s, &v, 1);
}
/// one value slides out of the window
fn remove1() {
    let v = n_values(1 + sx::choice(sx::param(0) as u64) as usize);
    let s = accum1(&v);
    if let Some(r) = s.remove(v[0]) { sx::cover(1); is1(&r, &v[1..], 1); } else { sx::cover(2); sx::check(v[0] / s.sx > 0.9, 7); }
}
/// a partial slides out of the window
fn uncomb1() {
    let v = n_values(sx::choice(sx::param(0) as u64 + 1) as usize);
    let k = sx::choice(v.len() as u64 + 1) as usize;
    let b = accum1(&v[k..]);
    let s = accum1(&v[..k]).combine(b).unwrap();
    if let Some(r) = s.remove_combined(b) { sx::cover(1); is1(&r, &v[..k], 1); } else { sx::cover(2); sx::check(b.sx / s.sx > 0.9, 7); }
}
fn pass2() { let n = sx::choice(sx::param(0) as u64 + 1) as usize; let (x, y) = (n_values(n), n_values(n)); let s = accum2(&x, &y); sx::cover(n as u32); is2(&s, &x, &y, 1); }
fn comb2() {
    let n = sx::choice(sx::param(0) as u64 + 1) as usize;
    let (x, y) = (n_values(n), n_values(n));
    let k = sx::choice(n as u64 + 1) as usize;
    let s = accum2(&x[..k], &y[..k]).combine(accum2(&x[k..], &y[k..])).unwrap();
    sx::cover(1);
    is2(&s, &x, &y, 1);
}
fn remove2() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let (x, y) = (n_values(n), n_values(n));
    let s = accum2(&x, &y);
    if let Some(r) = s.remove(XYPair { x: x[0], y: y[0] }) { sx::cover(1); is2(&r, &x[1..], &y[1..], 1); } else { sx::cover(2); sx::check((x[0] / s.sx > 0.9) | (y[0] / s.sy > 0.9), 12); }
}
fn uncomb2() {
    let n = sx::choice(sx::param(0) as u64 + 1) as usize;
    let (x, y) = (n_values(n), n_values(n));
    let k = sx::choice(n as u64 + 1) as usize;
    let b = accum2(&x[k..], &y[k..]);
    let s = accum2(&x[..k], &y[..k]).combine(b).unwrap();
    if let Some(r) = s.remove_combined(b) { sx::cover(1); is2(&r, &x[..k], &y[..k], 1); } else { sx::cover(2); sx::check((b.sx / s.sx > 0.9) | (b.sy / s.sy > 0.9), 12); }
}
/// shifting every y (a counter's accumulated resets)
fn offset2() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let (x, y) = (n_values(n), n_values(n));
    let (dx, dy) = (sx::f64(), sx::f64());
    let mut s = accum2(&x, &y);
    s.offset(XYPair { x: dx, y: dy }).unwrap();
    sx::cover(1);
    let (x, y): (Vec<_>, Vec<_>) = (x.iter().map(|v| v + dx).collect(), y.iter().map(|v| v + dy).collect());
    is2(&s, &x, &y, 1);
}
fn opt(a: Option<f64>, some: bool, b: f64, id: u32) { match a { Some(v) => { sx::check(some, id); if some { sx::check(sx::close(v, b), id); } } None => sx::check(!some, id) } }
/// the accessors over an arbitrary summary (the fields free, the count small)
fn read1() {
    let n = sx::choice(5);
    let s = StatsSummary1D::<f64> { n, sx: sx::f64(), sx2: sx::f64(), sx3: sx::f64(), sx4: sx::f64() };
    sx::assume(s.sx2 > 0.0);
    sx::cover(n as u32);
    let nf = n as f64;
    sx::check(s.count() == n as i64, 1);
    opt(s.sum(), n > 0, s.sx, 2);
    opt(s.avg(), n > 0, s.sx / nf, 3);
    opt(s.var_pop(), n > 0, s.sx2 / nf, 4);
    opt(s.stddev_pop(), n > 0, (s.sx2 / nf).sqrt(), 5);
    if n > 0 {
        let (v, d) = (s.sx2 / nf, (s.sx2 / nf).sqrt());
        sx::assume((d > 0.0) & (d * d == v));
        if let Some(k) = s.skewness_pop() { sx::check(sx::close(k * d * d * d, s.sx3 / nf), 6); } else { sx::check(false, 6); }
        if let Some(k) = s.kurtosis_pop() { sx::check(sx::close(k * v * v, s.sx4 / nf), 7); } else { sx::check(false, 7); }
    }
    if n > 1 {
        let m = nf - 1.0;
        let (v, d) = (s.sx2 / m, (s.sx2 / m).sqrt());
        opt(s.var_samp(), true, v, 8);
        opt(s.stddev_samp(), true, d, 9);
        sx::assume((d > 0.0) & (d * d == v));
        if let Some(k) = s.skewness_samp() { sx::check(sx::close(k * d * d * d, s.sx3 / m), 10); } else { sx::check(false, 10); }
        if let Some(k) = s.kurtosis_samp() { sx::check(sx::close(k * v * v, s.sx4 / m), 11); } else { sx::check(false, 11); }
    }
}
/// regression accessors over an arbitrary summary
fn read2() {
    let n = sx::choice(4);
    let s = StatsSummary2D::<f64> { n, sx: sx::f64(), sx2: sx::f64(), sx3: 0.0, sx4: 0.0, sy: sx::f64(), sy2: sx::f64(), sy3: 0.0, sy4: 0.0, sxy: sx::f64() };
    sx::assume((s.sx2 >= 0.0) & (s.sy2 >= 0.0));
    if n < 2 { sx::assume((s.sx2 == 0.0) & (s.sy2 == 0.0) & (s.sxy == 0.0)); }
    let nf = n as f64;
    sx::cover(n as u32);
    let line = (n > 0) & (s.sx2 != 0.0);
    opt(s.slope(), line, s.sxy / s.sx2, 1);
    if let (Some(m), Some(b)) = (s.slope(), s.intercept()) {
        sx::cover(10);
        // the fitted line passes through the centroid
        sx::check(sx::close(m * s.sx + b * nf, s.sy), 2);
        if let Some(x0) = s.x_intercept() { if m != 0.0 { sx::check(sx::close(m * x0 + b, 0.0), 3); sx::cover(11); } }
    } else { sx::check(!line, 2); }
    opt(s.covar_pop(), n > 0, s.sxy / nf, 4);
    opt(s.covar_samp(), n > 1, s.sxy / (nf - 1.0), 5);
    let r2 = s.determination_coeff();
    if !line { sx::check(r2.is_none(), 6); }
    else if s.sy2 == 0.0 { sx::check(r2 == Some(1.0), 6); }
    else { opt(r2, true, s.sxy * s.sxy / (s.sx2 * s.sy2), 6); }
    let c = s.corr();
    sx::check(c.is_some() == (line & (s.sy2 != 0.0)), 7);
    if let Some(c) = c {
        sx::cover(12);
        let d = (s.sx2 * s.sy2).sqrt();
        sx::assume((d > 0.0) & (d * d == s.sx2 * s.sy2));
        sx::check(sx::close(c * d, s.sxy), 7);
    }
    if let Some(a) = s.avg() { sx::check(sx::close(a.x * nf, s.sx) & sx::close(a.y * nf, s.sy), 8); } else { sx::check(n == 0, 8); }
    if let Some(a) = s.sum() { sx::check((a.x == s.sx) & (a.y == s.sy), 9); } else { sx::check(n == 0, 9); }
    if let Some(a) = s.var_samp() { sx::check(sx::close(a.x * (nf - 1.0), s.sx2) & sx::close(a.y * (nf - 1.0), s.sy2), 13); } else { sx::check(n < 2, 13); }
    if let Some(a) = s.var_pop() { sx::check(sx::close(a.x * nf, s.sx2) & sx::close(a.y * nf, s.sy2), 14); } else { sx::check(n < 1, 14); }
}
sx::harnesses! { stats_pass1 => pass1, stats_comb1 => comb1, stats_remove1 => remove1, stats_uncomb1 => uncomb1, stats_pass2 => pass2, stats_comb2 => comb2,
    stats_remove2 => remove2, stats_uncomb2 => uncomb2, stats_offset2 => offset2, stats_read1 => read1, stats_read2 => read2 }
