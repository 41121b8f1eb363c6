// largest-triangle-three-buckets: one point per bucket, the one that spans the largest triangle.
use crate::u::*;
use timescaledb_toolkit::lttb as l;
use timescaledb_toolkit::time_vector::{self as t, Timevector_TSTZ_F64, verif as p};
type Tv = Timevector_TSTZ_F64<'static>;
type Pt = (i64, f64);
fn vector(x: &[Pt]) -> Tv { let mut a = none(); for y in x { a = state(t::timevector_tstz_f64_trans(a, Some(ts(y.0)), Some(y.1), FC)); } stored(t::timevector_final(a, FC).unwrap()) }
fn agg(x: &[Pt], k: usize) -> Tv { let mut a = none(); for y in x { a = state(l::lttb_trans(a, ts(y.0), Some(y.1), k as i32, FC)); } a = state(l::lttb_trans(a, ts(0), None, k as i32, FC)); stored(l::lttb_final(a, FC).unwrap()) }
fn read(a: &Tv) -> Vec<Pt> { sx::check(a.is_sorted() && !a.has_nulls(), 90); (0..a.num_points()).map(|i| { let q = a.get(i).unwrap(); (q.ts, q.val) }).collect() }
/// the middle buckets of `n` points for `k` chosen ones
fn bucket(n: usize, k: usize, i: usize) -> (usize, usize) { ((i * (n - 2)) / (k - 2) + 1, ((i + 1) * (n - 2)) / (k - 2) + 1) }
/// first and last point, and from every bucket the point with the largest triangle
fn right(x: &[Pt], k: usize, r: &[Pt], id: u32) {
    let n = x.len();
    if k >= n {
        sx::check(r.len() == n, id);
        let mut ok = true;
        for i in 0..n { ok &= (r[i].0 == x[i].0) & (r[i].1 == x[i].1); }
        sx::check(ok, id + 1);
        return;
    }
    sx::check(r.len() == k, id);
    sx::check((r[0].0 == x[0].0) & (r[0].1 == x[0].1) & (r[k - 1].0 == x[n - 1].0) & (r[k - 1].1 == x[n - 1].1), id + 1);
    for i in 0..k - 2 {
        let (lo, hi) = bucket(n, k, i);
        let (nlo, nhi) = if i + 1 < k - 2 { bucket(n, k, i + 1) } else { (n - 1, n) };
        let m = (nhi - nlo) as f64;
        let (mut sx_, mut sy) = (0i128, 0.0);
        for j in nlo..nhi { sx_ += x[j].0 as i128; sy += x[j].1; }
        let (ax, ay) = ((sx_ / (nhi - nlo) as i128) as i64, sy / m);
        let a = r[i];
        let area = |b: Pt| ((a.0 - ax) as f64 * (b.1 - a.1) - (a.0 - b.0) as f64 * (ay - a.1)).abs();
        let mine = area(r[i + 1]);
        let (mut member, mut best) = (false, true);
        for j in lo..hi { member |= (x[j].0 == r[i + 1].0) & (x[j].1 == r[i + 1].1); best &= mine >= area(x[j]); }
        sx::check(member, id + 2);
        sx::check(best, id + 3);
    }
}
/// any values at increasing times: the aggregate, the function and the pipeline element
pub fn area() {
    let n = 2 + sx::choice(sx::param(0) as u64 - 1) as usize;
    let k = 3 + sx::choice(n as u64 - 1) as usize;
    let x: Vec<Pt> = (0..n).map(|i| ([10, 20, 50, 60, 90, 130, 140, 155][i] as i64, sx::finite())).collect();
    if k < n { sx::cover(1) } else { sx::cover(2) }
    let r = match sx::choice(3) {
        0 => agg(&x, k),
        1 => stored(l::lttb_on_timevector(vector(&x), k as i32).unwrap()),
        _ => stored(p::arrow_run_pipeline(vector(&x), p::lttb_pipeline_element(k as i32))),
    };
    right(&x, k, &read(&r), 1);
}
/// ticks in any order, and two points at one time
pub fn order() {
    let n = 3 + sx::choice(sx::param(0) as u64 - 2) as usize;
    let x: Vec<Pt> = (0..n).map(|i| (sx::choice(4) as i64, (i * i) as f64)).collect();
    let mut y: Vec<Pt> = vec![];
    for q in &x { let mut i = y.len(); while i > 0 && y[i - 1].0 > q.0 { i -= 1; } y.insert(i, *q); }
    right(&y, 3, &read(&agg(&x, 3)), 1);
}
/// the same far from the epoch, where sums of times do not fit into 64 bits
pub fn far() {
    let n = sx::param(0);
    let t0 = [600_000_000_000_000, 4_000_000_000_000_000_000, 9_000_000_000_000_000_000, -200_000_000_000_000_000][sx::choice(4) as usize];
    let x: Vec<Pt> = (0..n).map(|i| (t0 + [0, 1000, 4000, 5000, 8000, 12000, 13000, 14500][i] as i64, sx::finite())).collect();
    let k = 3 + sx::choice(n as u64 - 3) as usize;
    right(&x, k, &read(&if sx::choice(2) == 0 { agg(&x, k) } else { stored(l::lttb_on_timevector(vector(&x), k as i32).unwrap()) }), 1);
}
/// thinning with gaps: a subsequence with the ends of every stretch, never more than asked for unless the ends alone need it
pub fn gap() {
    let n = 2 + sx::choice(sx::param(0) as u64 - 1) as usize;
    let k = 3 + sx::choice(3) as usize;
    let mut at = 0;
    let x: Vec<Pt> = (0..n).map(|_| { at += 1 + 9 * sx::choice(2) as i64; (at, sx::finite()) }).collect();
    let mut a = none();
    for y in &x { a = state(l::gp_lttb_trans(a, ts(y.0), Some(y.1), interval(5), k as i32, FC)); }
    let r = read(&stored(l::gp_lttb_final(a, FC).unwrap()));
    let mut ends = 0;
    let mut stretches = 0;
    for i in 0..n {
        let first = i == 0 || x[i].0 - x[i - 1].0 > 5;
        let last = i + 1 == n || x[i + 1].0 - x[i].0 > 5;
        stretches += first as usize;
        if first | last { ends += 1; sx::check(r.iter().any(|q| q.0 == x[i].0), 1); }
    }
    if stretches > 1 { sx::cover(1) }
    sx::check(r.len() <= k.max(ends), 2);
    sx::check(r.len() >= k.min(n).min(ends), 3);
    let mut j = 0;
    let mut ok = true;
    for q in &r { while j < n && x[j].0 != q.0 { j += 1; } ok &= j < n && x[j].1 == q.1; j += 1; }
    sx::check(ok, 4);
    if stretches == 1 { right(&x, k, &r, 5); }
}
