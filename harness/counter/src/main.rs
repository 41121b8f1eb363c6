#![no_main]
// counter-agg: summaries of counters and gauges, built point by point or merged from partial summaries.
use counter_agg::{range::I64Range, CounterError, CounterSummaryBuilder, GaugeSummaryBuilder, MetricSummary};
use tspoint::TSPoint;

struct P { ts: i64, val: f64 }
impl P { fn pt(&self) -> TSPoint { TSPoint { ts: self.ts, val: self.val } } }
/// n points at strictly increasing concrete times, values free
fn points(n: usize) -> Vec<P> { (0..n).map(|i| P { ts: 1_000_000 * (i as i64 * i as i64 + 1), val: sx::f64() }).collect() }

trait B { fn start(p: &P) -> Self; fn add(&mut self, p: &P) -> Result<(), CounterError>; fn join(&mut self, o: &MetricSummary) -> Result<(), CounterError>; fn done(self) -> MetricSummary; fn of(m: MetricSummary) -> Self; const COUNTER: bool; }
macro_rules! b { ($t:ident, $c:expr) => { impl B for $t {
    fn start(p: &P) -> Self { $t::new(&p.pt(), None) }
    fn add(&mut self, p: &P) -> Result<(), CounterError> { self.add_point(&p.pt()) }
    fn join(&mut self, o: &MetricSummary) -> Result<(), CounterError> { self.combine(o) }
    fn done(self) -> MetricSummary { self.build() }
    fn of(m: MetricSummary) -> Self { $t::from(m) }
    const COUNTER: bool = $c;
} } }
b!(CounterSummaryBuilder, true);
b!(GaugeSummaryBuilder, false);

fn fold<T: B>(v: &[P]) -> MetricSummary { let mut b = T::start(&v[0]); for p in &v[1..] { b.add(p).unwrap(); } b.done() }
/// The whole observable content of a summary of `v`, from the definition.
fn matches<T: B>(m: &MetricSummary, v: &[P], id: u32) {
    let n = v.len();
    let (mut resets, mut reset_sum, mut changes) = (0u64, 0.0, 0u64);
    let mut y = vec![v[0].val];
    for i in 1..n {
        if T::COUNTER { if v[i].val < v[i - 1].val { resets += 1; reset_sum += v[i - 1].val; } }
        if v[i].val != v[i - 1].val { changes += 1; }
        y.push(v[i].val + reset_sum);
    }
    sx::check((m.first.ts == v[0].ts) & (m.last.ts == v[n - 1].ts) & (m.second.ts == v[if n > 1 { 1 } else { 0 }].ts) & (m.penultimate.ts == v[if n > 1 { n - 2 } else { 0 }].ts), id);
    sx::check((m.first.val == v[0].val) & (m.last.val == v[n - 1].val) & (m.second.val == v[if n > 1 { 1 } else { 0 }].val) & (m.penultimate.val == v[if n > 1 { n - 2 } else { 0 }].val), id + 1);
    sx::check(m.num_resets == resets, id + 2);
    sx::check(m.num_changes == changes, id + 3);
    sx::check(sx::close(m.reset_sum, reset_sum), id + 4);
    sx::check(sx::close(m.delta(), y[n - 1] - y[0]), id + 5);
    let mut ys = 0.0;
    let mut xs = 0.0;
    for i in 0..n { ys += y[i]; xs += v[i].ts as f64 / 1e6; }
    sx::check(m.stats.n == n as u64, id + 6);
    sx::check(sx::close(m.stats.sy, ys), id + 7);
    sx::check(sx::close(m.stats.sx, xs), id + 8);
    let (mx, my) = (xs / n as f64, ys / n as f64);
    let (mut sxy, mut sy2) = (0.0, 0.0);
    for i in 0..n { let d = y[i] - my; sxy += (v[i].ts as f64 / 1e6 - mx) * d; sy2 += d * d; }
    sx::check(sx::close(m.stats.sxy, sxy), id + 9);
    sx::check(sx::close(m.stats.sy2, sy2), id + 10);
}
fn seq<T: B>() { let n = 1 + sx::choice(sx::param(0) as u64) as usize; let v = points(n); let m = fold::<T>(&v); if m.num_resets > 0 { sx::cover(1) } else { sx::cover(2) } matches::<T>(&m, &v, 1); sx::observe(m.num_changes); }
fn split<T: B>() {
    let n = 2 + sx::choice(sx::param(0) as u64 - 1) as usize;
    let v = points(n);
    let k = 1 + sx::choice(n as u64 - 1) as usize;
    let mut a = T::of(fold::<T>(&v[..k]));
    a.join(&fold::<T>(&v[k..])).unwrap();
    let m = a.done();
    sx::cover(1);
    matches::<T>(&m, &v, 1);
}
/// three partials merged in either association
fn split3<T: B>() {
    let n = sx::param(0);
    let v = points(n);
    let i = 1 + sx::choice(n as u64 - 2) as usize;
    let j = i + 1 + sx::choice((n - i - 1) as u64) as usize;
    let (a, b, c) = (fold::<T>(&v[..i]), fold::<T>(&v[i..j]), fold::<T>(&v[j..]));
    let m = if sx::choice(2) == 0 { let mut t = T::of(a); t.join(&b).unwrap(); t.join(&c).unwrap(); sx::cover(1); t.done() }
        else { let mut t = T::of(b); t.join(&c).unwrap(); let bc = t.done(); let mut t = T::of(a); t.join(&bc).unwrap(); sx::cover(2); t.done() };
    matches::<T>(&m, &v, 1);
}
/// an arbitrary summary in the middle of a history, then one point that is late or repeats a timestamp
fn stale<T: B>() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let v = points(n);
    let mut b = T::of(fold::<T>(&v));
    let last = v[n - 1].ts;
    let dup = sx::choice(2) == 0;
    let p = P { ts: if dup { last } else { last - 1 - sx::choice(2) as i64 * 1_000_000 }, val: sx::f64() };
    let r = b.add(&p);
    if dup { sx::cover(1); sx::check(r == Ok(()), 20) } else { sx::cover(2); sx::check(r == Err(CounterError::OrderError), 20) }
    matches::<T>(&b.done(), &v, 1);
}
/// merging in the wrong order or with overlap is refused and changes nothing
fn overlap<T: B>() {
    let n = 2 + sx::choice(sx::param(0) as u64 - 1) as usize;
    let v = points(n);
    let k = 1 + sx::choice(n as u64 - 1) as usize;
    let mut b = T::of(fold::<T>(&v[k..]));
    let other = if sx::choice(2) == 0 { sx::cover(1); fold::<T>(&v[..k]) } else { sx::cover(2); fold::<T>(&v[n - 1..]) };
    let r = b.join(&other);
    sx::check(r == Err(CounterError::OrderError), 20);
    matches::<T>(&b.done(), &v[k..], 1);
}
/// accessors over an arbitrary summary
fn read() {
    let mut v = points(4);
    v.truncate(1 + sx::choice(4) as usize);
    let n = v.len();
    let m = fold::<CounterSummaryBuilder>(&v);
    sx::cover(n as u32);
    let dt = (v[n - 1].ts - v[0].ts) as f64 / 1e6;
    sx::check(sx::close(m.time_delta(), dt), 1);
    let step = |i: usize| if v[i].val < v[i - 1].val { v[i].val } else { v[i].val - v[i - 1].val };
    if n == 1 {
        sx::check(m.rate().is_none() & m.irate_left().is_none() & m.irate_right().is_none(), 2);
        sx::check((m.delta() == 0.0) & (m.idelta_left() == 0.0) & (m.idelta_right() == 0.0), 3);
    } else {
        let mut d = 0.0; for i in 1..n { d += step(i); }
        sx::check(sx::close(m.delta(), d), 4);
        sx::check(m.rate().is_some(), 2); if let Some(r) = m.rate() { sx::check(sx::close(r * dt, d), 5); }
        sx::check(sx::close(m.idelta_left(), step(1)), 6);
        sx::check(sx::close(m.idelta_right(), step(n - 1)), 7);
        if let Some(r) = m.irate_left() { sx::check(sx::close(r * ((v[1].ts - v[0].ts) as f64 / 1e6), step(1)), 8); } else { sx::check(false, 8); }
        if let Some(r) = m.irate_right() { sx::check(sx::close(r * ((v[n - 1].ts - v[n - 2].ts) as f64 / 1e6), step(n - 1)), 9); } else { sx::check(false, 9); }
    }
}
fn bound(bits: u32) -> Option<i64> { if sx::bool() { Some(sx::int(bits)) } else { None } }
/// ranges: membership, hull, duration
fn range() {
    let (a, b) = (I64Range { left: bound(62), right: bound(62) }, I64Range { left: bound(62), right: bound(62) });
    let x = sx::i64();
    let inside = |r: &I64Range, x: i64| r.left.map_or(true, |l| x >= l) & r.right.map_or(true, |h| x < h);
    sx::cover(1);
    sx::check(a.contains(x) == inside(&a, x), 1);
    let mut h = a;
    h.extend(&b);
    // the hull contains whatever either contains, and its ends are ends of the inputs
    if inside(&a, x) | inside(&b, x) { sx::check(h.contains(x), 2); sx::cover(2); }
    sx::check(h.left.is_some() == (a.left.is_some() & b.left.is_some()), 3);
    sx::check(h.right.is_some() == (a.right.is_some() & b.right.is_some()), 4);
    if let (Some(l), Some(p), Some(q)) = (h.left, a.left, b.left) { sx::check((l == p) | (l == q), 5); }
    if let (Some(l), Some(p), Some(q)) = (h.right, a.right, b.right) { sx::check((l == p) | (l == q), 6); }
    match (a.left, a.right) {
        (Some(l), Some(r)) => { if l <= r { sx::check(a.duration() == Some(r - l), 7); sx::cover(3); } else { sx::check(a.duration().is_none(), 7); } sx::check(a.is_singleton() == (l == r), 8); sx::check(!a.has_infinite(), 9); }
        _ => { sx::check(a.duration().is_none(), 7); sx::check(!a.is_singleton(), 8); sx::check(a.has_infinite(), 9); }
    }
}
/// bounds of a merged summary cover both partials' bounds; validity means both ends lie within
fn bounds() {
    let mk = |t: i64| (t, bound(40), bound(40));
    let (t1, l1, r1) = mk(sx::int(40)); let (t2, l2, r2) = mk(sx::int(40));
    sx::assume(t1 < t2);
    let (b1, b2) = (I64Range { left: l1, right: r1 }, I64Range { left: l2, right: r2 });
    let (has1, has2) = (sx::bool(), sx::bool());
    let mut a = CounterSummaryBuilder::new(&TSPoint { ts: t1, val: 1.0 }, if has1 { Some(b1) } else { None });
    let c = CounterSummaryBuilder::new(&TSPoint { ts: t2, val: 2.0 }, if has2 { Some(b2) } else { None });
    sx::cover(1);
    sx::check(a.bounds_valid() == (!has1 | b1.contains(t1)), 1);
    let v2 = c.bounds_valid();
    let v1 = a.bounds_valid();
    a.combine(&c.build()).unwrap();
    let m = a.build();
    let mut h = b1; h.extend(&b2);
    sx::check(m.bounds == match (has1, has2) { (true, true) => Some(h), (true, false) => Some(b1), (false, true) => Some(b2), _ => None }, 2);
    if has1 & has2 & v1 & v2 { sx::cover(2); sx::check(m.bounds_valid(), 3); }
}
/// Prometheus-style extrapolation against its definition
fn prom() {
    let mut v = points(3);
    let n = 1 + sx::choice(3) as usize;
    v.truncate(n);
    let (lo_gap, hi_gap) = ([0, 500_000, 3_000_000, 60_000_000][sx::choice(4) as usize], [1, 1_000, 2_000_000, 60_000_000][sx::choice(4) as usize]);
    let (lo, hi) = (v[0].ts - lo_gap, v[n - 1].ts + hi_gap);
    let mut b = CounterSummaryBuilder::of(fold::<CounterSummaryBuilder>(&v));
    b.set_bounds(Some(I64Range { left: Some(lo), right: Some(hi) }));
    let m = b.build();
    let d = m.prometheus_delta();
    if n == 1 { sx::cover(1); sx::check(d == Ok(None), 1); sx::check(m.prometheus_rate() == Ok(None), 1); return; }
    sx::cover(2);
    let delta = m.delta();
    let sampled = (v[n - 1].ts - v[0].ts) as f64 / 1e6;
    let avg = sampled / (n - 1) as f64;
    let mut to_start = lo_gap as f64 / 1e6;
    let to_end = (hi_gap - 1000) as f64 / 1e6;
    if delta > 0.0 && v[0].val >= 0.0 { let z = sampled * (v[0].val / delta); if z < to_start { to_start = z; sx::cover(3); } }
    let mut interval = sampled;
    interval += if to_start < avg * 1.1 { to_start } else { avg / 2.0 };
    interval += if to_end < avg * 1.1 { to_end } else { avg / 2.0 };
    let want = delta * (interval / sampled);
    if let Ok(Some(x)) = d { sx::check(sx::close(x, want), 2); } else { sx::check(false, 2); }
    let dur = (hi - lo - 1000) as f64 / 1e6;
    match m.prometheus_rate() { Ok(Some(r)) => sx::check(sx::close(r * dur, want), 3), Ok(None) => sx::check(dur <= 0.0, 3), Err(_) => sx::check(false, 3) }
}
fn prom_invalid() {
    let v = points(2);
    let mut b = CounterSummaryBuilder::of(fold::<CounterSummaryBuilder>(&v));
    let has = sx::bool();
    let r = I64Range { left: bound(40), right: bound(40) };
    b.set_bounds(if has { Some(r) } else { None });
    let m = b.build();
    sx::cover(1);
    let bad = !has || r.has_infinite() || !r.contains(v[0].ts) || !r.contains(v[1].ts);
    sx::check(m.prometheus_delta().is_err() == bad, 1);
    sx::check(m.prometheus_rate().is_err() == bad, 2);
}
sx::harnesses! {
    counter_seq => seq::<CounterSummaryBuilder>, gauge_seq => seq::<GaugeSummaryBuilder>, counter_split => split::<CounterSummaryBuilder>, gauge_split => split::<GaugeSummaryBuilder>,
    counter_split3 => split3::<CounterSummaryBuilder>, gauge_split3 => split3::<GaugeSummaryBuilder>, counter_stale => stale::<CounterSummaryBuilder>, gauge_stale => stale::<GaugeSummaryBuilder>,
    counter_overlap => overlap::<CounterSummaryBuilder>, gauge_overlap => overlap::<GaugeSummaryBuilder>,
    counter_read => read, counter_range => range, counter_bounds => bounds, counter_prom => prom, counter_prom_invalid => prom_invalid,
}
