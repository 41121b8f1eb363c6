// UddSketch: which bucket a value is in does not depend on the order things happened in, and estimates keep within the error.
use crate::u::*;
use timescaledb_toolkit::{accessors as acc, uddsketch::{self as u, verif as v, UddSketch}, verif::palloc::{Inner, InternalAsValue, ToInternal}};
use uddsketch::{SketchHashKey as K, UDDSketch as In, UDDSketchMetadata as Meta};

const ALPHA: f64 = 0.1;
/// the bucket a value is in after c compactions: each takes two buckets together
fn at(k: K, c: u8) -> K {
    let half = |mut i: i64| { for _ in 0..c { i = (i + (i & 1)) >> 1; } i };
    match k { K::Positive(i) => K::Positive(half(i)), K::Negative(i) => K::Negative(half(i)), k => k }
}
fn error(c: u8) -> f64 { let mut g = (1.0 + ALPHA) / (1.0 - ALPHA); for _ in 0..c { g *= g; } (g - 1.0) / (g + 1.0) }
fn distinct(k: &[K], c: u8) -> u64 { let mut n = 0; for i in 0..k.len() { let mut new = true; for j in 0..i { new &= !same(at(k[i], c), at(k[j], c)); } n += new as u64; } n }
fn same(a: K, b: K) -> bool { match (a, b) { (K::Positive(a), K::Positive(b)) | (K::Negative(a), K::Negative(b)) => a == b, (K::Zero, K::Zero) => true, _ => false } }
/// the order of the values in the buckets
fn before(a: K, b: K) -> bool { match (a, b) { (K::Positive(a), K::Positive(b)) => a < b, (K::Negative(a), K::Negative(b)) => a > b, (K::Negative(_), K::Zero | K::Positive(_)) | (K::Zero, K::Positive(_)) => true, _ => false } }
fn single(k: K, max: u32, sum: f64) -> In { In::new_from_data(&Meta { max_buckets: max, current_error: ALPHA, compactions: 0, values: 1, sum, buckets: 1 }, std::iter::once(k), std::iter::once(1)) }
/// the sketch of values with these keys, whatever way it came about
fn is(s: &In, k: &[K], max: u32, sum: f64, id: u32) {
    let r: Vec<(K, u64)> = s.bucket_iter().collect();
    let c = s.times_compacted();
    sx::check((r.len() <= max as usize) & (r.len() == s.current_buckets_count()), id);
    for w in r.windows(2) { sx::check(before(w[0].0, w[1].0), id + 1); }
    let mut all = 0;
    for (b, n) in &r { let mut m = 0; for x in k { m += same(at(*x, c), *b) as u64; } sx::check(m == *n, id + 2); sx::check(m > 0, id + 2); all += n; }
    sx::check(all == k.len() as u64, id + 2);
    if c > 0 { sx::check(distinct(k, c - 1) > max as u64, id + 3); sx::cover(2); }
    sx::check((s.count() == k.len() as u64) & (s.sum() == sum) & (s.max_allowed_buckets() == max), id + 4);
    sx::check((s.max_error() - error(c)).abs() < 1e-12, id + 5);
}
fn some_keys(n: usize, max: u32, bits: u32) -> Vec<K> {
    let k: Vec<K> = (0..n).map(|_| match sx::choice(3) { 0 => K::Negative(sx::int(bits)), 1 => K::Zero, _ => K::Positive(sx::int(bits)) }).collect();
    // buckets 0 and 1 are never taken together
    let least = 2 * k.iter().any(|k| matches!(k, K::Positive(_))) as u32 + 2 * k.iter().any(|k| matches!(k, K::Negative(_))) as u32 + k.iter().any(|k| *k == K::Zero) as u32;
    sx::assume(least <= max);
    k
}
/// sketches of one value each put together one after the other or in pairs, whole sketches or stored ones
pub fn merge() {
    let (n, max) = (sx::param(0), sx::param(1) as u32);
    let k = some_keys(n, max, sx::param(2) as u32);
    let items = sx::choice(2) == 1;
    let join = |a: &mut In, b: &In| if items {
        let m = Meta { max_buckets: b.max_allowed_buckets(), current_error: b.max_error(), compactions: b.times_compacted(), values: b.count(), sum: b.sum(), buckets: b.current_buckets_count() as u32 };
        a.merge_items(&m, b.bucket_iter().map(|x| x.0), b.bucket_iter().map(|x| x.1));
    } else { a.merge_sketch(b) };
    let cut = 1 + sx::choice(n as u64 - 1) as usize;
    let part = |k: &[K], first: usize| { let mut s = In::new(max, ALPHA); for (i, x) in k.iter().enumerate() { join(&mut s, &single(*x, max, (1 << (first + i)) as f64)); } s };
    let (a, b) = (part(&k[..cut], 0), part(&k[cut..], cut));
    let mut s = if sx::choice(2) == 0 { a.clone() } else { b.clone() };
    let other = if s == a { &b } else { &a };
    join(&mut s, other);
    sx::cover(1);
    is(&s, &k, max, ((1 << n) - 1) as f64, 1);
}
fn table(max: u32) -> &'static [f64] { if max < 7 { &[1.5, 40.0, 0.02, 1.6] } else { &[1.5, 40.0, 0.02, -3.0, 0.0, -0.004] } }
fn key(v: f64) -> K { let k = (v.abs().ln() / (1.1f64 / 0.9).ln()).ceil() as i64; if v == 0.0 { K::Zero } else if v < 0.0 { K::Negative(k) } else { K::Positive(k) } }
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * b.abs() }
fn reads(r: &UddSketch<'static>, v: &[f64], id: u32) {
    let n = v.len();
    let mut w = v.to_vec();
    w.sort_by(|a, b| a.total_cmp(b));
    let e = u::uddsketch_error(r.clone());
    sx::check(u::arrow_uddsketch_error(r.clone(), stored(acc::verif::accessor_error())) == e, id);
    sx::check((u::uddsketch_num_vals(r.clone()) == n as f64) & (u::arrow_uddsketch_num_vals(r.clone(), stored(acc::verif::accessor_num_vals())) == n as f64), id + 1);
    let mean = v.iter().sum::<f64>() / n as f64;
    sx::check(near(u::uddsketch_mean(r.clone()), mean) & near(u::arrow_uddsketch_mean(r.clone(), stored(acc::verif::accessor_mean())), mean) & near(u::uddsketch_sum(r.clone()), mean * n as f64), id + 2);
    let qs = [0.0, 0.3, 0.5, 0.9, 1.0];
    let many = u::uddsketch_approx_percentile_array(qs.to_vec(), r.clone());
    let arrow = u::arrow_uddsketch_approx_percentile_array(r.clone(), stored(acc::accessor_percentiles(qs.to_vec())));
    for (i, q) in qs.iter().enumerate() {
        let p = u::uddsketch_approx_percentile(*q, r.clone());
        let t = w[((n as f64 * q) as usize).min(n - 1)];
        sx::check((p - t).abs() <= e * t.abs() * (1.0 + 1e-9), id + 3);
        sx::check((p == many[i]) & (p == arrow[i]) & (p == u::arrow_uddsketch_approx_percentile(r.clone(), stored(acc::verif::accessor_approx_percentile(*q)))), id + 4);
    }
    // the share of smaller values, those too near to tell counting for half
    for x in v.iter().chain(&[7.0, -7.0]) {
        let s = u::uddsketch_approx_percentile_rank(*x, r.clone());
        let c = (r.clone().compactions) as u8;
        let (mut below, mut level) = (0, 0);
        for y in v { let (a, b) = (at(key(*y), c), at(key(*x), c)); below += before(a, b) as u64; level += same(a, b) as u64; }
        sx::check(near(s, (below as f64 + level as f64 / 2.0) / n as f64), id + 5);
        sx::check(u::arrow_uddsketch_approx_rank(r.clone(), stored(acc::verif::accessor_approx_percentile_rank(*x))) == s, id + 6);
    }
}
fn trans(q: Internal, max: u32, x: Option<f64>) -> Internal { state(if max == 200 { u::percentile_agg_trans(q, x, FC) } else { u::uddsketch_trans(q, max as i32, ALPHA, x, FC) }) }
fn inner(s: &UddSketch<'static>) -> In { let q = u::uddsketch_compound_trans(none(), Some(s.clone()), FC); let q = q.unwrap(); unsafe { q.to_inner::<In>().unwrap().clone() } }
/// from values to estimates, with null values, in one group or two that are combined, also as bytes, or rolled up
pub fn seq() {
    let max = sx::param(1) as u32;
    let t = table(max);
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let vals: Vec<f64> = (0..n).map(|_| t[sx::choice(t.len() as u64) as usize]).collect();
    let k: Vec<K> = vals.iter().map(|v| key(*v)).collect();
    let cut = sx::choice(n as u64) as usize;
    let (mut a, mut b) = (none(), none());
    for x in &vals[..cut] { a = trans(a, max, Some(*x)); }
    a = trans(a, max, None);
    for x in &vals[cut..] { b = trans(b, max, Some(*x)); }
    b = trans(b, max, None);
    let r = match sx::choice(3) {
        0 => { if cut > 0 { a = state(u::uddsketch_deserialize(u::uddsketch_serialize(a), none())); } b = state(u::uddsketch_deserialize(u::uddsketch_serialize(b), none())); v::uddsketch_final(state(u::uddsketch_combine(b, a, FC)), FC) }
        1 => v::uddsketch_final(state(u::uddsketch_combine(a, b, FC)), FC),
        _ => {
            let q = state(u::uddsketch_compound_trans(none(), v::uddsketch_final(a, FC).map(stored), FC));
            let q = state(u::uddsketch_compound_trans(q, v::uddsketch_final(b, FC).map(stored), FC));
            v::uddsketch_final(state(u::uddsketch_compound_trans(q, None, FC)), FC)
        }
    };
    let r = stored(r.unwrap());
    sx::cover(1);
    is(&inner(&r), &k, max, inner(&r).sum(), 1);
    reads(&r, &vals, 10);
}
pub fn nothing() {
    let q = state(u::uddsketch_combine(trans(none(), 10, None), trans(none(), 10, None), FC));
    sx::check(v::uddsketch_final(again(&q), FC).is_none(), 1);
    sx::check(v::uddsketch_final(state(u::uddsketch_compound_trans(q, None, FC)), FC).is_none(), 2);
}
/// any buckets with any counts are stored and read back as they are: as a result, as the bytes of a partial state, rolled up
pub fn store() {
    let (n, bits) = (sx::param(0), sx::param(1) as u32);
    let k: Vec<K> = (0..n).map(|_| match sx::choice(3) { 0 => K::Negative(sx::int(bits)), 1 => K::Zero, _ => K::Positive(sx::int(bits)) }).collect();
    for w in k.windows(2) { sx::assume(before(w[0], w[1])); }
    let c: Vec<u64> = (0..n).map(|_| sx::bits(bits)).collect();
    for x in &c { sx::assume(*x > 0); }
    let (all, sum, times) = (sx::u64(), sx::f64(), sx::u8());
    let s = In::new_from_data(&Meta { max_buckets: 9, current_error: 0.3, compactions: times, values: all, sum, buckets: n as u32 }, k.iter().copied(), c.iter().copied());
    let q = Inner::from(s).internal().unwrap();
    let r = match sx::choice(2) {
        0 => { let r = stored(v::uddsketch_final(q, FC).unwrap()); let i = inner(&r); sx::check(r.num_buckets == n as u32, 1); i }
        _ => { let q = u::uddsketch_deserialize(u::uddsketch_serialize(q), none()).unwrap(); unsafe { q.to_inner::<In>().unwrap().clone() } }
    };
    sx::cover(1);
    let l: Vec<(K, u64)> = r.bucket_iter().collect();
    sx::check(l.len() == n, 2);
    for i in 0..n { sx::check(same(l[i].0, k[i]), 3); sx::check(l[i].1 == c[i], 4); }
    sx::check((r.count() == all) & (r.times_compacted() == times) & (r.max_error() == 0.3) & (r.max_allowed_buckets() == 9), 5);
    sx::check(sx::same(r.sum(), sum), 6);
}
/// the estimate is the value of the bucket that holds the value of that rank, for every percentile
pub fn quantile() {
    let k = [K::Negative(5), K::Zero, K::Positive(-1), K::Positive(4)];
    let alpha = f64::from_bits(sx::concretize(ALPHA.to_bits()));
    let g = uddsketch::gamma(alpha);
    let at = [-(g.powf(4.0) * (1.0 + alpha)), 0.0, g.powf(-2.0) * (1.0 + alpha), g.powf(3.0) * (1.0 + alpha)];
    let c: Vec<u64> = k.iter().map(|_| sx::choice(3)).collect();
    let n: u64 = c.iter().sum();
    sx::assume(n > 0);
    let q = sx::f64();
    sx::assume((q >= 0.0) & (q <= 1.0));
    let e = uddsketch::estimate_quantile(q, alpha, g, n, k.iter().copied().zip(c.iter().copied()).filter(|x| x.1 > 0));
    let rank = ((n as f64 * q) as u64 + 1).min(n);
    let mut below = 0;
    for i in 0..4 {
        let here = (below < rank) & (rank <= below + c[i]);
        sx::check(!here | ((e - at[i]).abs() < 1e-9), 1);
        below += c[i];
    }
}
