// t-digest: what is counted is counted once, estimates stay within the values and never run backwards.
use crate::u::*;
use timescaledb_toolkit::{accessors as acc, tdigest::{self as t, verif as v, TDigest}, verif::palloc::{InternalAsValue, ToInternal, Inner}};
use tdigest::{Centroid, TDigest as In};

fn trans(q: Internal, size: usize, x: Option<f64>) -> Internal { state(t::tdigest_trans(q, size as i32, x, FC)) }
fn inner(s: &TDigest<'static>) -> In { let q = state(t::tdigest_compound_trans(none(), Some(s.clone()), FC)); unsafe { q.to_inner::<In>().unwrap().clone() } }
/// what every digest of these values owes
fn is(d: &In, vals: &[f64], size: usize, id: u32) {
    let c = d.raw_centroids();
    let n = vals.len() as u64;
    sx::check((d.count() == n) & (d.max_size() == size) & (d.num_buckets() == c.len()), id);
    sx::check((c.len() > 0) & (c.len() <= size), id + 1);
    let (mut min, mut max, mut sum) = (vals[0], vals[0], 0.0);
    for x in vals { if *x < min { min = *x; } if *x > max { max = *x; } sum += *x; }
    sx::check((d.min() == min) & (d.max() == max), id + 2);
    sx::check(sx::close(d.sum(), sum) & sx::close(d.mean() * n as f64, sum), id + 3);
    let (mut w, mut s) = (0, 0.0);
    for x in c { sx::check((x.weight() > 0) & (min <= x.mean()) & (x.mean() <= max), id + 4); w += x.weight(); s += x.mean() * x.weight() as f64; }
    sx::check(w == n, id + 5);
    sx::check(sx::close(s, sum), id + 6);
    for x in c.windows(2) { sx::check(x[0].mean() <= x[1].mean(), id + 7); }
}
/// values through the whole aggregate: one group or two that are combined, as bytes, or rolled up
pub fn seq() {
    let (n, size) = (sx::param(0), sx::param(1));
    let vals: Vec<f64> = (0..n).map(|_| sx::f64()).collect();
    let cut = sx::choice(n as u64) as usize;
    let (mut a, mut b) = (none(), none());
    for x in &vals[..cut] { a = trans(a, size, Some(*x)); }
    a = trans(a, size, None);
    for x in &vals[cut..] { b = trans(b, size, Some(*x)); }
    b = trans(b, size, None);
    let bytes = |q: Internal| state(t::tdigest_deserialize(t::tdigest_serialize(q), none()));
    let way = if cut == 0 { sx::choice(3) } else { sx::choice(4) };
    let r = match way {
        // as parallel workers do
        0 => { if cut > 0 { a = bytes(a); } b = bytes(b); v::tdigest_final(state(t::tdigest_combine(b, a, FC)), FC) }
        1 => v::tdigest_final(state(t::tdigest_combine(a, b, FC)), FC),
        2 => {
            let q = state(t::tdigest_compound_trans(none(), v::tdigest_final(a, FC).map(stored), FC));
            let q = state(t::tdigest_compound_trans(q, v::tdigest_final(b, FC).map(stored), FC));
            v::tdigest_compound_final(state(t::tdigest_compound_trans(q, None, FC)), FC)
        }
        _ => {
            let part = |x| { let q = state(t::tdigest_compound_trans(none(), v::tdigest_final(x, FC).map(stored), FC)); state(t::tdigest_compound_deserialize(v::tdigest_compound_serialize(q, FC), none())) };
            v::tdigest_compound_final(state(t::tdigest_compound_combine(part(a), part(b), FC)), FC)
        }
    };
    let r = stored(r.unwrap());
    sx::cover(1);
    is(&inner(&r), &vals, size, 1);
    sx::check(sx::close(t::tdigest_sum(r.clone()), t::tdigest_mean(r.clone()) * n as f64), 10);
}
/// one batch: a digest is made of runs of neighbouring values, and only the middle is coarse
pub fn batch() {
    let (n, size) = (sx::param(0), sx::param(1));
    let vals: Vec<f64> = (0..n).map(|_| sx::f64()).collect();
    for w in vals.windows(2) { sx::assume(w[0] < w[1]); }
    let d = In::new_with_size(size).merge_sorted(vals.clone());
    is(&d, &vals, size, 1);
    sx::cover(1);
    let k = |k: usize| { let x = k as f64 / size as f64; if x >= 0.5 { 1.0 - 2.0 * (1.0 - x) * (1.0 - x) } else { 2.0 * x * x } };
    let mut at = 0;
    for (i, c) in d.raw_centroids().iter().enumerate() {
        let w = c.weight() as usize;
        let mut s = 0.0;
        for x in &vals[at..at + w] { s += *x; }
        at += w;
        sx::check(sx::close(c.mean() * w as f64, s), 10);
        sx::check((w == 1) | (at as f64 <= k(i + 1) * n as f64), 11);
        if w > 1 { sx::cover(2); }
    }
}
/// digests of any shape merged: the centroids are put together in order
fn any(size: usize, heavy: u64) -> In {
    let k = 1 + sx::choice(size as u64) as usize;
    let c: Vec<Centroid> = (0..k).map(|_| Centroid::new(sx::f64(), 1 + sx::choice(heavy))).collect();
    for w in c.windows(2) { sx::assume(w[0].mean() <= w[1].mean()); }
    let (min, max) = (sx::f64(), sx::f64());
    sx::assume((min <= c[0].mean()) & (max >= c[k - 1].mean()));
    let (mut n, mut s) = (0, 0.0);
    for x in &c { n += x.weight(); s += x.mean() * x.weight() as f64; }
    In::new(c, s, n, max, min, size)
}
pub fn merge() {
    let (size, heavy) = (sx::param(0), sx::param(1) as u64);
    let (a, b) = (any(size, heavy), any(size, heavy));
    let r = In::merge_digests(vec![a.clone(), In::new_with_size(size), b.clone()]);
    sx::cover(1);
    sx::check((r.count() == a.count() + b.count()) & (r.max_size() == size), 1);
    sx::check(sx::close(r.sum(), a.sum() + b.sum()), 2);
    let (x, y) = (if a.min() < b.min() { a.min() } else { b.min() }, if a.max() > b.max() { a.max() } else { b.max() });
    sx::check((r.min() == x) & (r.max() == y), 3);
    let c = r.raw_centroids();
    sx::check((c.len() <= size) & (c.len() > 0), 4);
    let (mut w, mut s) = (0, 0.0);
    for x in c { w += x.weight(); s += x.mean() * x.weight() as f64; }
    sx::check((w == r.count()) & sx::close(s, r.sum()), 5);
    for x in c.windows(2) { sx::check(x[0].mean() <= x[1].mean(), 6); }
}
/// merging builders (as the C library does) is as good as one builder
pub fn builders() {
    let (n, size) = (sx::param(0), sx::param(1));
    let vals: Vec<f64> = (0..n).map(|_| sx::f64()).collect();
    let cut = sx::choice(n as u64 + 1) as usize;
    let (mut a, mut b) = (tdigest::Builder::with_size(size), tdigest::Builder::with_size(size));
    for x in &vals[..cut] { a.push(*x); }
    for x in &vals[cut..] { b.push(*x); }
    a.merge(b);
    let extra = sx::f64();
    a.push(extra);
    let mut all = vals.clone();
    all.push(extra);
    sx::cover(1);
    is(&a.build(), &all, size, 1);
}
fn table() -> In {
    let w = [1 + sx::choice(3), 1 + sx::choice(3), 1 + sx::choice(3)];
    let k = 1 + sx::choice(3) as usize;
    let c: Vec<Centroid> = (0..k).map(|i| Centroid::new([-3.0, 0.5, 4.0][i], w[i])).collect();
    for i in k..3 { sx::assume(w[i] == 1); }
    // where the outermost run is a single value it is the bound
    let (lo, hi) = (if w[0] > 1 { -3.0 - 2.0 * sx::choice(2) as f64 } else { -3.0 }, [-3.0, 0.5, 4.0][k - 1] + if w[k - 1] > 1 { 2.0 * sx::choice(2) as f64 } else { 0.0 });
    let (mut n, mut s) = (0, 0.0);
    for x in &c { n += x.weight(); s += x.mean() * x.weight() as f64; }
    In::new(c, s, n, hi, lo, 5)
}
/// percentiles of digests with means of any value: in bounds and not decreasing
pub fn quantile() {
    let d = table();
    let (p, q) = (sx::f64(), sx::f64());
    sx::assume((p >= 0.0) & (p <= q) & (q <= 1.0));
    let (x, y) = (d.estimate_quantile(p), d.estimate_quantile(q));
    sx::cover(1);
    sx::check((d.min() <= x) & (y <= d.max()), 1);
    sx::check(x <= y, 2);
    sx::check((d.estimate_quantile(0.0) == d.min()) & (d.estimate_quantile(1.0) == d.max()), 3);
    let n = d.count() as f64;
    let mut at = 0.0;
    for c in d.raw_centroids() {
        let mid = at + c.weight() as f64 / 2.0;
        if mid > 1.0 { sx::check(sx::close(d.estimate_quantile(mid / n), c.mean()), 4); }
        at += c.weight() as f64;
    }
}
/// the rank of a value: between 0 and 1, not decreasing, and it undoes the percentile
pub fn rank() {
    let d = table();
    let (p, q) = (sx::f64(), sx::f64());
    sx::assume(p <= q);
    let (x, y) = (d.estimate_quantile_at_value(p), d.estimate_quantile_at_value(q));
    sx::cover(1);
    sx::check((0.0 <= x) & (x <= y) & (y <= 1.0), 1);
    sx::check((p >= d.min()) | (x == 0.0), 2);
    sx::check((q <= d.max()) | (y == 1.0), 3);
}
pub fn inverse() {
    let d = table();
    let q = sx::f64();
    sx::assume((q > 0.0) & (q < 1.0) & (q * d.count() as f64 > 1.0));
    let x = d.estimate_quantile(q);
    // strictly between the bounds every value has one rank
    if d.min() < x && x < d.max() { sx::check((d.estimate_quantile_at_value(x) - q).abs() < 1e-9, 1); sx::cover(1); }
}
/// any digest is stored and read back as it is, and every way to ask about it gives the same answer
pub fn store() {
    let d = any(sx::param(0), 2);
    let q = Inner::from(d.clone()).internal().unwrap();
    let r = match sx::choice(3) {
        0 => stored(v::tdigest_compound_final(q, FC).unwrap()),
        1 => stored(v::tdigest_compound_final(state(t::tdigest_compound_deserialize(v::tdigest_compound_serialize(q, FC), none())), FC).unwrap()),
        _ => { let b = Inner::from(tdigest::Builder::from(d.clone())).internal().unwrap(); stored(v::tdigest_final(state(t::tdigest_deserialize(t::tdigest_serialize(b), none())), FC).unwrap()) }
    };
    sx::cover(1);
    let i = inner(&r);
    sx::check((i.count() == d.count()) & (i.max_size() == d.max_size()) & (i.num_buckets() == d.num_buckets()), 1);
    sx::check((i.sum() == d.sum()) & (i.min() == d.min()) & (i.max() == d.max()), 2);
    for (x, y) in i.raw_centroids().iter().zip(d.raw_centroids()) { sx::check((x.mean() == y.mean()) & (x.weight() == y.weight()), 3); }
    let n = d.count() as f64;
    sx::check((t::tdigest_count(r.clone()) == n) & (t::arrow_tdigest_num_vals(r.clone(), stored(acc::verif::accessor_num_vals())) == n), 4);
    sx::check((t::tdigest_min(r.clone()) == d.min()) & (t::arrow_tdigest_min(r.clone(), stored(acc::verif::accessor_min_val())) == d.min()), 5);
    sx::check((t::tdigest_max(r.clone()) == d.max()) & (t::arrow_tdigest_max(r.clone(), stored(acc::verif::accessor_max_val())) == d.max()), 6);
    sx::check(sx::close(t::tdigest_mean(r.clone()) * n, d.sum()) & sx::close(t::arrow_tdigest_mean(r.clone(), stored(acc::verif::accessor_mean())), d.mean()) & (t::tdigest_sum(r.clone()) == d.sum()), 7);
    for q in [0.25, 0.75] { sx::check((t::tdigest_quantile(q, r.clone()) == d.estimate_quantile(q)) & (t::arrow_tdigest_approx_percentile(r.clone(), stored(acc::verif::accessor_approx_percentile(q))) == d.estimate_quantile(q)), 8); }
    let x = d.raw_centroids()[0].mean();
    let e = d.estimate_quantile_at_value(x);
    sx::check((t::tdigest_quantile_at_value(x, r.clone()) == e) & (t::arrow_tdigest_approx_rank(r.clone(), stored(acc::verif::accessor_approx_percentile_rank(x))) == e), 9);
}
pub fn nothing() {
    let q = state(t::tdigest_combine(trans(none(), 10, None), trans(none(), 10, None), FC));
    sx::check(v::tdigest_final(q, FC).is_none(), 1);
    sx::check(v::tdigest_compound_final(state(t::tdigest_compound_trans(none(), None, FC)), FC).is_none(), 2);
    let e = In::merge_digests(vec![In::new_with_size(7), In::new_with_size(7)]);
    sx::check((e.max_size() == 7) & e.is_empty() & (e.count() == 0), 3);
    let mut b = tdigest::Builder::with_size(7);
    b.merge(tdigest::Builder::with_size(7));
    b.push(4.0);
    let d = b.build();
    sx::check((d.max_size() == 7) & (d.count() == 1) & (d.min() == 4.0) & (d.max() == 4.0) & (d.sum() == 4.0), 4);
}
