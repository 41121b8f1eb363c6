// heartbeat_agg: liveness is exactly "some heartbeat at most the liveness duration ago", per instant.
use crate::u::*;
use timescaledb_toolkit::heartbeat_agg as h;
use timescaledb_toolkit::heartbeat_agg::HeartbeatAgg;
use timescaledb_toolkit::verif::palloc::{InternalAsValue, ToInternal};
use timescaledb_toolkit::heartbeat_agg::verif::*;
type Agg = HeartbeatAgg<'static>;
type St = h::HeartbeatTransState;
const LEN: i64 = 10;
/// `hs` in the given order into the aggregate over [start, end), consolidating the buffer where `flush` says
fn build(hs: &[i64], start: i64, end: i64, flush: u64) -> Agg {
    let mut s = none();
    for (i, t) in hs.iter().enumerate() {
        s = state(h::heartbeat_trans(s, ts(*t), ts(start), interval(end - start), interval(LEN), FC));
        if flush >> i & 1 == 1 {
            let mut q = unsafe { s.to_inner::<St>() };
            q.as_mut().unwrap().process_batch();
            s = state(q.internal());
        }
    }
    stored(h::heartbeat_final(s, FC).unwrap())
}
fn live(hs: &[i64], t: i64) -> bool { let mut l = false; for x in hs { l |= (*x <= t) & (t < *x + LEN); } l }
/// the answers about `a`, which covers [start, end), agree with each other and with `want` at the instant `t`
fn read(a: &Agg, start: i64, end: i64, t: i64, want: bool) {
    let r: Vec<(i64, i64)> = h::live_ranges(a.clone()).map(|(x, y)| (unts(x), unts(y))).collect();
    let d: Vec<(i64, i64)> = h::dead_ranges(a.clone()).map(|(x, y)| (unts(x), unts(y))).collect();
    let mut sum = 0;
    let mut at = false;
    let mut prev = start - 1;
    let (mut sep, mut within) = (true, true);
    for (x, y) in &r {
        sum += y - x;
        at |= (*x <= t) & (t < *y);
        sep &= prev < *x;
        within &= (start <= *x) & (*x < *y) & (*y <= end);
        prev = *y;
    }
    sx::check(sep, 1);
    sx::check(within, 2);
    sx::check(at == want, 3);
    sx::check(h::live_at(a.clone(), ts(t)) == want, 4);
    sx::check(uninterval(&h::uptime(a.clone())) == sum, 5);
    sx::check(uninterval(&h::downtime(a.clone())) == end - start - sum, 6);
    let mut dead = false;
    let mut dsum = 0;
    for (x, y) in &d { dead |= (*x <= t) & (t < *y); dsum += y - x; sx::check(x < y, 7); }
    sx::check(dead != want, 8);
    sx::check(dsum == end - start - sum, 9);
    sx::check(h::num_live_ranges(a.clone()) == r.len() as i64, 10);
    sx::check(h::num_gaps(a.clone()) == d.len() as i64, 11);
}
fn beats(n: usize, start: i64, end: i64) -> Vec<i64> {
    (0..n).map(|_| { let t = sx::int(12); sx::assume(t >= start && t < end); t }).collect()
}
fn instant(start: i64, end: i64) -> i64 { let t = sx::int(12); sx::assume(t >= start && t < end); t }
/// heartbeats in any order, the buffer consolidated anywhere
pub fn seq() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let hs = beats(n, 0, 100);
    let flush = sx::choice(1 << (n - 1));
    sx::cover(if flush == 0 { 1 } else { 2 });
    let a = build(&hs, 0, 100, flush);
    let t = instant(0, 100);
    read(&a, 0, 100, t, live(&hs, t));
    for x in &hs { sx::check(h::live_at(a.clone(), ts(*x)), 12); }
}
fn cat(a: &[i64], b: &[i64]) -> Vec<i64> { let mut v = a.to_vec(); v.extend(b); v }
fn rolled(aggs: &[Agg]) -> Agg {
    let mut s = none();
    for a in aggs { s = state(h::heartbeat_rollup_trans(s, Some(a.clone()), FC)); }
    stored(h::heartbeat_final(s, FC).unwrap())
}
/// two aggregates over the same, consecutive, separate or overlapping stretches rolled up in either order
pub fn rollup() {
    let n = sx::param(0);
    let k = 1 + sx::choice(n as u64 - 1) as usize;
    let (s2, e2) = [(0, 100), (100, 200), (150, 250), (50, 150)][sx::choice(4) as usize];
    let x = beats(k, 0, 100);
    let y = beats(n - k, s2, e2);
    let (a, b) = (build(&x, 0, 100, 0), build(&y, s2, e2, 0));
    let r = if sx::choice(2) == 0 { sx::cover(1); rolled(&[a, b]) } else { sx::cover(2); rolled(&[b, a]) };
    let t = instant(0, e2);
    read(&r, 0, e2, t, live(&cat(&x, &y), t));
}
/// three consecutive one-heartbeat aggregates rolled up in any order, or two first
pub fn rollup3() {
    let (x, y, z) = (beats(1, 0, 100), beats(1, 100, 200), beats(1, 200, 300));
    let v = [build(&x, 0, 100, 0), build(&y, 100, 200, 0), build(&z, 200, 300, 0)];
    let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][sx::choice(6) as usize];
    let w = [v[o[0]].clone(), v[o[1]].clone(), v[o[2]].clone()];
    let r = if sx::choice(2) == 0 { sx::cover(1); rolled(&w) } else { sx::cover(2); rolled(&[rolled(&w[..2]), w[2].clone()]) };
    let t = instant(0, 300);
    read(&r, 0, 300, t, live(&[x[0], y[0], z[0]], t));
}
/// interpolation carries the liveness of the preceding stretch over
pub fn interp() {
    let n = sx::param(0);
    let k = 1 + sx::choice(n as u64 - 1) as usize;
    let s2 = [100, 105][sx::choice(2) as usize];
    let x = beats(k, 0, 100);
    let y = beats(n - k, s2, 200);
    let (p, a) = (build(&x, 0, 100, 0), build(&y, s2, 200, 0));
    sx::cover(1);
    let t = instant(s2, 200);
    let want = live(&cat(&x, &y), t);
    let r = stored(interpolate(a.clone(), Some(p.clone())));
    read(&r, s2, 200, t, want);
    sx::check(uninterval(&h::interpolated_uptime(a.clone(), Some(p.clone()))) == uninterval(&h::uptime(r.clone())), 13);
    sx::check(uninterval(&h::interpolated_downtime(a.clone(), Some(p.clone()))) == uninterval(&h::downtime(r.clone())), 14);
    sx::check(uninterval(&h::interpolated_uptime(a.clone(), None)) == uninterval(&h::uptime(a.clone())), 15);
    sx::check(h::eq_op_heartbeat_agg(interpolate(a.clone(), None), a.clone()), 16);
    sx::check(uninterval(&h::arrow_heartbeat_agg_interpolated_uptime(a.clone(), uptime_accessor(Some(p.clone())))) == uninterval(&h::uptime(r.clone())), 17);
    sx::check(uninterval(&h::arrow_heartbeat_agg_interpolated_downtime(a.clone(), downtime_accessor(Some(p.clone())))) == uninterval(&h::downtime(r.clone())), 18);
    sx::check(h::eq_op_heartbeat_agg(h::arrow_heartbeat_agg_interpolate(a, interpolate_accessor(Some(p))), r), 19);
}
/// trimming keeps the liveness of the instants that remain
pub fn trim() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let hs = beats(n, 0, 100);
    let a = build(&hs, 0, 100, 0);
    let (s, e) = (sx::int(12), sx::int(12));
    sx::assume(0 <= s && s < e && e <= 100);
    let kind = sx::choice(3);
    sx::cover(1 + kind as u32);
    let (s, e) = match kind { 0 => (s, e), 1 => (s, 100), _ => (0, e) };
    let r = stored(match kind {
        0 => h::trim_to(a.clone(), Some(ts(s)), Some(interval(e - s))),
        1 => h::trim_to(a.clone(), Some(ts(s)), None),
        _ => h::trim_to(a.clone(), None, Some(interval(e))),
    });
    let t = instant(s, e);
    read(&r, s, e, t, live(&hs, t));
    let q = if kind == 1 { trim_accessor(ts(s), None) } else { trim_accessor(ts(s), Some(interval(e - s))) };
    sx::check(h::eq_op_heartbeat_agg(h::arrow_heartbeat_agg_trim_to(a.clone(), q), r.clone()), 20);
}
/// the two halves of a cut still make the whole, by rollup and by interpolation
pub fn cut() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let hs = beats(n, 0, 100);
    let c = sx::int(12);
    sx::assume(0 < c && c < 100);
    let a = build(&hs, 0, 100, 0);
    let l = stored(h::trim_to(a.clone(), None, Some(interval(c))));
    let r = stored(h::trim_to(a.clone(), Some(ts(c)), None));
    let t = instant(c, 100);
    match sx::choice(4) {
        0 => { sx::cover(1); let i = stored(interpolate(r, Some(l))); read(&i, c, 100, t, live(&hs, t)); }
        1 => { sx::cover(2); let t = instant(0, 100); read(&rolled(&[l, r]), 0, 100, t, live(&hs, t)); }
        2 => { sx::cover(3); let t = instant(0, 100); read(&rolled(&[r, l]), 0, 100, t, live(&hs, t)); }
        _ => {
            // carried into a later stretch: nothing is live that was not, and nothing is lost by cutting the start
            sx::cover(4);
            let y = sx::int(12);
            sx::assume(100 <= y && y < 200);
            let u = instant(100, 200);
            let q = interpolate(build(&[y], 100, 200, 0), Some(r));
            read(&stored(q), 100, 200, u, live(&cat(&hs, &[y]), u));
            let q = interpolate(build(&[y], 100, 200, 0), Some(l));
            sx::check(!h::live_at(q, ts(u)) | live(&cat(&hs, &[y]), u), 23);
        }
    }
}
/// outside the covered stretch there is no answer
pub fn outside() {
    let hs = beats(1, 0, 100);
    let t = sx::int(12);
    sx::assume(t < 0 || t > 100);
    let a = build(&hs, 0, 100, 0);
    sx::panic_ok(1);
    let _ = match sx::choice(3) {
        0 => h::live_at(a, ts(t)),
        1 => { sx::assume(t < 0); h::num_gaps(h::trim_to(a, Some(ts(t)), None)) == 0 }
        _ => { sx::assume(t > 100); h::num_gaps(h::trim_to(a, None, Some(interval(t)))) == 0 }
    };
    sx::check(false, 22);
}
/// the accessor form of trim_to gives the same answer, whatever the instants are
pub fn trim_arrow() {
    let h0 = beats(1, -50, 50);
    let a = build(&h0, -50, 50, 0);
    let (s, e) = (sx::int(12), sx::int(12));
    sx::assume(-50 <= s && s < e && e <= 50);
    sx::cover(1);
    let r = stored(h::trim_to(a.clone(), Some(ts(s)), Some(interval(e - s))));
    let q = stored(h::arrow_heartbeat_agg_trim_to(a, trim_accessor(ts(s), Some(interval(e - s)))));
    sx::check(h::eq_op_heartbeat_agg(q, r), 24);
}
