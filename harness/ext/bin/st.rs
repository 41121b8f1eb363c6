// state_agg and compact_state_agg: the answers are those of the step function through the recorded states.
use crate::u::*;
use timescaledb_toolkit::state_aggregate::{self as s, rollup, verif as v, StateAgg};
type Agg = StateAgg<'static>;
type Rec = (i64, i64);
fn build(r: &[Rec], split: usize) -> Option<Internal> {
    let (mut a, mut b) = (none(), none());
    for (t, st) in &r[..split] { a = state(v::int_trans(a, ts(*t), Some(*st))); }
    for (t, st) in &r[split..] { b = state(v::int_trans(b, ts(*t), Some(*st))); }
    a = state(v::int_trans(a, ts(0), None));
    if split == r.len() { return Some(a); }
    s::state_agg::state_agg_combine_fn_outer(a, b, FC)
}
fn done(i: Option<Internal>) -> Agg { stored(s::state_agg::state_agg_finally_fn_outer(state(i), FC).unwrap()) }
/// how far apart records can be
fn span() -> i64 { sx::param(1) as i64 }
fn near() -> i64 { sx::range(-2, span() + 2) }
/// records at any instants; at one instant there can only be one state
fn recs(n: usize, lo: i64, hi: i64) -> Vec<Rec> {
    let r: Vec<Rec> = (0..n).map(|_| { let t = lo + sx::below(hi as u64 - lo as u64) as i64; (t, sx::below(3) as i64) }).collect();
    for i in 0..n { for j in 0..i { sx::assume(r[i].0 != r[j].0 || r[i].1 == r[j].1); } }
    r
}
/// the state at `t` according to the records (t is not before the first), its index otherwise irrelevant
fn at(r: &[Rec], t: i64) -> i64 {
    let mut best = (i64::MIN, -1);
    for x in r { if (x.0 <= t) & (x.0 > best.0) { best = *x; } }
    best.1
}
fn ends(r: &[Rec]) -> (i64, i64) { let (mut a, mut b) = (r[0].0, r[0].0); for x in r { a = a.min(x.0); b = b.max(x.0); } (a, b) }
fn tl(a: &Agg) -> Vec<(i64, i64, i64)> { s::state_int_timeline(a.clone()).map(|(st, x, y)| (st, unts(x), unts(y))).collect() }
/// a timeline covers [lo, hi] without holes or repeated states, and says `r` at `t`
fn timeline(l: &[(i64, i64, i64)], r: &[Rec], lo: i64, hi: i64, t: i64, id: u32) {
    let mut ok = l.len() > 0 && (l[0].1 == lo) & (l[l.len() - 1].2 == hi);
    let mut here = -1;
    for i in 0..l.len() {
        ok &= l[i].1 <= l[i].2;
        if i > 0 { ok &= (l[i].1 == l[i - 1].2) & (l[i].0 != l[i - 1].0) & (l[i].1 > l[i - 1].1); }
        if (l[i].1 <= t) & (t < l[i].2) { here = l[i].0; }
    }
    sx::check(ok, id);
    sx::check((t >= hi) | (here == at(r, t)), id + 1);
}
fn within(l: &[(i64, i64, i64)], st: i64, lo: i64, hi: i64) -> i64 {
    let mut d = 0;
    for x in l { let (a, b) = (x.1.max(lo), x.2.min(hi)); if (x.0 == st) & (a < b) { d += b - a; } }
    d
}
/// every answer about `a`, the aggregate of `r`
fn read(a: &Agg, r: &[Rec]) {
    let (lo, hi) = ends(r);
    let t = near();
    let l = tl(a);
    sx::check(v::at_int(a.clone(), ts(t)) == if t < lo { None } else { Some(at(r, t)) }, 1);
    sx::check(s::arrow_state_agg_state_at_int(a.clone(), v::at_int_accessor(ts(t))) == v::at_int(a.clone(), ts(t)), 2);
    timeline(&l, r, lo, hi, t.max(lo), 3);
    let st = sx::below(4) as i64;
    let d = within(&l, st, lo, hi);
    sx::check(uninterval(&s::duration_in_tl_int(Some(a.clone()), st)) == d, 5);
    sx::check(uninterval(&s::arrow_state_agg_duration_in_int(a.clone(), v::duration_in_int_accessor(st))) == d, 6);
    let mut seen = 0;
    let mut sum = 0;
    let mut rows: Vec<i64> = vec![];
    for (y, d2) in s::into_values_tl_int(a.clone()) { let d2 = uninterval(&d2); sum += d2; if y == st { seen += 1; sx::check(d2 == d, 7); } rows.push(y); }
    let mut any = false;
    for y in r { any |= y.1 == st; }
    sx::check(seen == any as i32, 8);
    sx::check(sum == hi - lo, 9);
    let p: Vec<(i64, i64)> = s::state_int_periods(a.clone(), st).map(|(x, y)| (unts(x), unts(y))).collect();
    let mut psum = 0;
    let mut here = false;
    for (x, y) in &p { psum += y - x; here |= (*x <= t) & (t < *y); }
    sx::check(psum == d, 10);
    sx::check((t < lo) | (t >= hi) | (here == (at(r, t) == st)), 11);
    let q: Vec<(i64, i64)> = s::arrow_state_agg_state_periods_int(a.clone(), v::int_periods_accessor(st)).map(|(x, y)| (unts(x), unts(y))).collect();
    sx::check(p == q, 12);
}
/// records in any order, in one aggregation or two partial ones
pub fn seq() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let r = recs(n, 0, span());
    let k = if n == 1 { 1 } else { 1 + sx::choice(n as u64) as usize };
    sx::cover(if k == n { 1 } else { 2 });
    read(&done(build(&r, k)), &r);
}
/// time in a state within a stretch
pub fn range() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let r = recs(n, 0, span());
    let (lo, hi) = ends(&r);
    let a = done(build(&r, n));
    let l = tl(&a);
    let (b, w) = (near(), sx::range(0, span() + 4));
    let st = sx::below(3) as i64;
    let bounded = sx::choice(2) == 0;
    sx::cover(if bounded { 1 } else { 2 });
    let iv = || if bounded { Some(interval(w)) } else { None };
    let d = within(&l, st, b, if bounded { b + w } else { hi.max(b) });
    sx::check(uninterval(&s::duration_in_range_int(Some(a.clone()), st, ts(b), iv())) == d, 1);
    sx::check(uninterval(&s::arrow_state_agg_duration_in_range_int(a.clone(), v::duration_in_range_int_accessor(st, ts(b), iv()))) == d, 2);
    sx::check(uninterval(&s::duration_in_range_int(None, st, ts(b), iv())) == 0, 3);
    let _ = lo;
}
/// compact aggregates know the same durations
pub fn compact() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let r = recs(n, 0, span());
    let a = done(build(&r, n));
    let mut c = none();
    for (t, st) in &r { c = state(v::compact_int_trans(c, ts(*t), Some(*st))); }
    let c = stored(v::compact_final(c).unwrap());
    let st = sx::below(4) as i64;
    sx::cover(1);
    sx::check(uninterval(&s::duration_in_int(Some(c.clone()), st)) == uninterval(&s::duration_in_tl_int(Some(a), st)), 1);
    let (lo, hi) = ends(&r);
    let mut sum = 0;
    for (_, d) in s::into_int_values(c.clone()) { sum += uninterval(&d); }
    sx::check(sum == hi - lo, 2);
    sx::check(uninterval(&s::duration_in_int(None, st)) == 0, 3);
}
/// consecutive aggregates rolled up, in either order
pub fn roll() {
    let n = sx::param(0);
    let k = 1 + sx::choice(n as u64 - 1) as usize;
    let r = recs(n, 0, span());
    for i in 0..k { for j in k..n { sx::assume(r[i].0 <= r[j].0); } }
    // two one-instant aggregates at the same instant are refused as overlapping
    sx::assume(ends(&r[..k]).0 < ends(&r[k..]).0);
    let (a, b) = (done(build(&r[..k], k)), done(build(&r[k..], n - k)));
    let mut q = none();
    let flip = sx::choice(2) == 0;
    sx::cover(if flip { 1 } else { 2 });
    let (a, b) = if flip { (b, a) } else { (a, b) };
    if sx::choice(2) == 0 {
        q = state(rollup::state_agg_rollup_trans(q, Some(a), FC));
        q = state(rollup::state_agg_rollup_trans(q, Some(b), FC));
    } else {
        sx::cover(3);
        let p = state(rollup::state_agg_rollup_trans(none(), Some(a), FC));
        q = state(rollup::state_agg_rollup_trans(q, Some(b), FC));
        q = state(rollup::state_agg_rollup_combine(p, q, FC));
    }
    q = state(rollup::state_agg_rollup_trans(q, None, FC));
    if sx::choice(2) == 1 { sx::cover(4); q = state(rollup::state_agg_rollup_deserialize(rollup::state_agg_rollup_serialize(q), none())); }
    read(&stored(rollup::verif::finish(q).unwrap()), &r);
}
/// the same with compact aggregates: the durations of all records
pub fn compact_roll() {
    let n = sx::param(0);
    let k = 1 + sx::choice(n as u64 - 1) as usize;
    let r = recs(n, 0, span());
    for i in 0..k { for j in k..n { sx::assume(r[i].0 <= r[j].0); } }
    sx::assume(ends(&r[..k]).0 < ends(&r[k..]).0);
    let c = |r: &[Rec]| { let mut c = none(); for (t, st) in r { c = state(v::compact_int_trans(c, ts(*t), Some(*st))); } stored(v::compact_final(c).unwrap()) };
    let (a, b) = (c(&r[..k]), c(&r[k..]));
    let (a, b) = if sx::choice(2) == 0 { sx::cover(1); (b, a) } else { sx::cover(2); (a, b) };
    let mut q = none();
    for x in [Some(a), None, Some(b)] { q = state(rollup::compact_state_agg_rollup_trans(q, x, FC)); }
    if sx::choice(2) == 1 { sx::cover(3); q = state(rollup::state_agg_rollup_deserialize(rollup::state_agg_rollup_serialize(q), none())); }
    let c = stored(rollup::verif::compact_finish(q).unwrap());
    let st = sx::below(4) as i64;
    let all = done(build(&r, n));
    let (lo, hi) = ends(&r);
    sx::check(uninterval(&s::duration_in_int(Some(c.clone()), st)) == within(&tl(&all), st, lo, hi), 1);
    let mut sum = 0;
    for (_, d) in s::into_int_values(c) { sum += uninterval(&d); }
    sx::check(sum == hi - lo, 2);
}
/// overlapping aggregates cannot be rolled up
pub fn overlap() {
    let r = recs(4, 0, 1000);
    sx::assume(r[0].0 < r[2].0 && r[2].0 < r[1].0 && r[2].0 <= r[3].0);
    let (a, b) = (done(build(&r[..2], 2)), done(build(&r[2..], 2)));
    let mut q = state(rollup::state_agg_rollup_trans(none(), Some(a), FC));
    q = state(rollup::state_agg_rollup_trans(q, Some(b), FC));
    sx::panic_ok(1);
    let _ = rollup::verif::finish(q);
    sx::check(false, 1);
}
/// interpolation over [b, b + w]: the state of the preceding aggregate holds until the first record, the last one until the end
pub fn interp() {
    let n = sx::param(0);
    let k = sx::choice(n as u64) as usize;
    let r = recs(n, 0, span());
    let (b, w) = (sx::range(0, span()), sx::range(1, span()));
    for i in 0..k { sx::assume(r[i].0 <= b); }
    for j in k..n { sx::assume(r[j].0 >= b && r[j].0 < b + w); for i in 0..k { sx::assume(r[i].0 < r[j].0); } }
    let p = if k == 0 { sx::cover(1); None } else { sx::cover(2); Some(done(build(&r[..k], k))) };
    let a = done(build(&r[k..], n - k));
    let iv = || interval(w);
    let l: Vec<_> = s::interpolated_state_int_timeline(Some(a.clone()), ts(b), iv(), p.clone()).map(|(st, x, y)| (st, unts(x), unts(y))).collect();
    let lo = if k == 0 { ends(&r).0 } else { b };
    let t = near().max(0);
    sx::assume(lo <= t && t < b + w);
    timeline(&l, &r, lo, b + w, t, 1);
    let m: Vec<_> = s::arrow_state_agg_interpolated_state_int_timeline(Some(a.clone()), v::interpolated_int_timeline_accessor(ts(b), iv(), p.clone())).map(|(st, x, y)| (st, unts(x), unts(y))).collect();
    sx::check(l == m, 3);
    let st = sx::below(3) as i64;
    let d = within(&l, st, lo, b + w);
    sx::check(uninterval(&s::interpolated_duration_in_tl_int(Some(a.clone()), st, ts(b), iv(), p.clone())) == d, 4);
    sx::check(uninterval(&s::arrow_state_agg_interpolated_duration_in_int(Some(a.clone()), v::interpolated_duration_in_int_accessor(st, ts(b), iv(), p.clone()))) == d, 5);
    let mut sum = 0;
    for (x, y) in s::interpolated_state_periods_int(Some(a.clone()), st, ts(b), iv(), p.clone()) { sum += unts(y) - unts(x); }
    sx::check(sum == d, 6);
    let mut sum = 0;
    for (x, y) in s::arrow_state_agg_interpolated_state_periods_int(Some(a.clone()), v::interpolated_int_periods_accessor(st, ts(b), iv(), p.clone())) { sum += unts(y) - unts(x); }
    sx::check(sum == d, 7);
    // the compact aggregates agree when they can be asked
    if k > 0 {
        let c = |r: &[Rec]| { let mut c = none(); for (t, st) in r { c = state(v::compact_int_trans(c, ts(*t), Some(*st))); } stored(v::compact_final(c).unwrap()) };
        sx::check(uninterval(&s::interpolated_duration_in_int(Some(c(&r[k..])), st, ts(b), iv(), Some(c(&r[..k])))) == d, 8);
    }
}
const NAMES: [&str; 4] = ["AB", "B", "A", ""];
/// named states, some of them parts of others
pub fn text() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let r = (0..n).map(|i| (10 * i as i64 + 10, sx::choice(4) as i64)).collect::<Vec<Rec>>();
    let k = sx::choice(n as u64) as usize;
    let name = |i: i64| NAMES[i as usize].to_string();
    let tr = |q: Internal, x: &Rec| state(s::state_agg::state_agg_transition_fn_outer(q, ts(x.0), Some(name(x.1)), FC));
    let (mut a, mut b) = (none(), none());
    for x in &r[..k] { a = tr(a, x); }
    for x in &r[k..] { b = tr(b, x); }
    let a = if k == 0 { sx::cover(1); done(Some(b)) } else if sx::choice(2) == 0 { sx::cover(2); done(s::state_agg::state_agg_combine_fn_outer(b, a, FC)) } else {
        sx::cover(3);
        let q = state(rollup::state_agg_rollup_trans(none(), Some(done(Some(a))), FC));
        let q = state(rollup::state_agg_rollup_trans(q, Some(done(Some(b))), FC));
        stored(rollup::verif::finish(q).unwrap())
    };
    let (lo, hi) = ends(&r);
    let t = sx::int(12);
    let w = v::at(a.clone(), ts(t));
    let mut want = None;
    for x in &r { if x.0 <= t { want = Some(name(x.1)); } }
    sx::check(w == want, 1);
    let l: Vec<(String, i64, i64)> = s::state_timeline(a.clone()).map(|(st, x, y)| (st, unts(x), unts(y))).collect();
    let num = |st: &str| NAMES.iter().position(|x| *x == st).map(|x| x as i64).unwrap_or(-1);
    let l: Vec<(i64, i64, i64)> = l.iter().map(|(st, x, y)| (num(st), *x, *y)).collect();
    timeline(&l, &r, lo, hi, t.max(lo), 2);
    for i in 0..4 {
        let d = within(&l, i, lo, hi);
        sx::check(uninterval(&s::duration_in_tl(Some(a.clone()), name(i))) == d, 4);
        sx::check(uninterval(&s::arrow_state_agg_duration_in_string(a.clone(), v::duration_in_accessor(name(i)))) == d, 5);
        let mut sum = 0;
        for (x, y) in s::state_periods(a.clone(), name(i)) { sum += unts(y) - unts(x); }
        sx::check(sum == d, 6);
    }
    let mut sum = 0;
    for (st, d) in s::into_values_tl(a.clone()) { let d = uninterval(&d); sum += d; sx::check(d == within(&l, num(&st), lo, hi), 7); }
    sx::check(sum == hi - lo, 8);
}
/// interpolation and stretches with named states
pub fn text_interp() {
    let n = sx::param(0);
    let k = sx::choice(n as u64) as usize;
    let r = (0..n).map(|i| (10 * i as i64 + 10, sx::choice(4) as i64)).collect::<Vec<Rec>>();
    let name = |i: i64| NAMES[i as usize].to_string();
    let num = |st: &str| NAMES.iter().position(|x| *x == st).map(|x| x as i64).unwrap_or(-1);
    let build = |r: &[Rec]| { let mut q = none(); for x in r { q = state(s::state_agg::state_agg_transition_fn_outer(q, ts(x.0), Some(name(x.1)), FC)); } done(Some(q)) };
    let compact = |r: &[Rec]| { let mut q = none(); for x in r { q = state(s::compact_state_agg::compact_state_agg_transition_fn_outer(q, ts(x.0), Some(name(x.1)), FC)); } stored(v::compact_final(q).unwrap()) };
    let a = build(&r[k..]);
    let p = if k == 0 { sx::cover(1); None } else { sx::cover(2); Some(build(&r[..k])) };
    let (b, w) = (sx::range(0, 60), sx::range(1, 60));
    sx::assume(b <= r[k].0 && b + w > r[n - 1].0 && (k == 0 || b >= r[k - 1].0));
    let iv = || interval(w);
    let lo = if k == 0 { r[0].0 } else { b };
    let t = sx::range(lo, b + w - 1);
    let l: Vec<_> = s::interpolated_state_timeline(Some(a.clone()), ts(b), iv(), p.clone()).map(|(st, x, y)| (num(&st), unts(x), unts(y))).collect();
    timeline(&l, &r, lo, b + w, t, 1);
    let i = sx::choice(4) as i64;
    let d = within(&l, i, lo, b + w);
    sx::check(uninterval(&s::interpolated_duration_in_tl(Some(a.clone()), name(i), ts(b), iv(), p.clone())) == d, 3);
    let mut sum = 0;
    for (x, y) in s::interpolated_state_periods(Some(a.clone()), name(i), ts(b), iv(), p.clone()) { sum += unts(y) - unts(x); }
    sx::check(sum == d, 4);
    let cp = if k == 0 { None } else { Some(compact(&r[..k])) };
    let c = compact(&r[k..]);
    sx::check(uninterval(&s::interpolated_duration_in(Some(c.clone()), name(i), ts(b), iv(), cp)) == d, 5);
    // the current aggregate alone
    let own: Vec<_> = s::state_timeline(a.clone()).map(|(st, x, y)| (num(&st), unts(x), unts(y))).collect();
    let d = within(&own, i, r[k].0, r[n - 1].0);
    sx::check(uninterval(&s::duration_in(Some(c.clone()), name(i))) == d, 6);
    let mut sum = 0;
    for (st, d2) in s::into_values(c) { let d2 = uninterval(&d2); sum += d2; if num(&st) == i { sx::check(d2 == d, 7); } }
    sx::check(sum == r[n - 1].0 - r[k].0, 8);
    let (f, g) = (sx::range(0, 60), sx::range(0, 60));
    sx::check(uninterval(&s::duration_in_range(Some(a.clone()), name(i), ts(f), Some(interval(g)))) == within(&own, i, f, f + g), 9);
    sx::check(uninterval(&s::duration_in_range(Some(a), name(i), ts(f), None)) == within(&own, i, f, i64::MAX), 10);
}
/// two states at one instant are refused
pub fn clash() {
    let (t, a, b) = (sx::int(12), sx::int(12), sx::int(12));
    sx::assume(a != b);
    let n = sx::choice(2);
    let mut r = vec![(t, a), (t, b)];
    if n == 1 { r.push((sx::int(12), 5)); sx::assume(r[2].0 != t); }
    let i = build(&r, r.len());
    sx::panic_ok(1);
    let _ = done(i);
    sx::check(false, 1);
}
