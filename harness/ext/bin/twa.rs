// Time-weighted averages and integrals (times are concrete, values any real number).
use crate::u::*;
use time_weighted_average::{TimeWeightError, TimeWeightMethod, TimeWeightSummary as Inner};
use timescaledb_toolkit::{accessors as acc, time_weighted_average::{self as w, TimeWeightSummary}};
use tspoint::TSPoint;

#[derive(Clone, Copy)]
struct Pt { t: i64, v: f64 }
/// the method and whether values between two points lie on the line between them
fn method() -> (String, bool) {
    match sx::choice(3) { 0 => ("locf".into(), false), 1 => (" LOCF".into(), false), _ => (if sx::choice(2) == 0 { "Linear".into() } else { "trapezoidal".into() }, true) }
}
fn just() -> (String, bool) { if sx::choice(2) == 0 { ("LOCF".into(), false) } else { ("Linear".into(), true) } }
fn trans(s: Internal, m: &str, p: &Pt) -> Internal { state(w::time_weight_trans(s, m.into(), Some(ts(p.t)), Some(p.v), FC)) }
fn done(s: Internal) -> Option<TimeWeightSummary> { w::verif::time_weight_final(s, FC) }
fn build(v: &[Pt], m: &str) -> Option<TimeWeightSummary> {
    let mut s = none();
    for p in v { s = trans(s, m, p); }
    done(s).map(stored)
}
/// the area under the curve through points at increasing times
fn area(v: &[Pt], linear: bool) -> f64 {
    let mut a = 0.0;
    for p in v.windows(2) { a += (p[1].t - p[0].t) as f64 * if linear { (p[0].v + p[1].v) / 2.0 } else { p[0].v }; }
    a
}
fn read(r: &TimeWeightSummary, v: &[Pt], linear: bool, id: u32) {
    let (a, b) = (v[0], v[v.len() - 1]);
    let z = || unsafe { std::mem::zeroed() };
    let ends = sx::close(w::arrow_time_weight_first_val(r.clone(), unsafe { std::mem::zeroed() }), a.v) & sx::close(w::arrow_time_weight_last_val(r.clone(), unsafe { std::mem::zeroed() }), b.v);
    sx::check(ends & (unts(w::arrow_time_weight_first_time(r.clone(), unsafe { std::mem::zeroed() })) == a.t) & (unts(w::arrow_time_weight_last_time(r.clone(), z())) == b.t), id);
    let x = area(v, linear);
    sx::check(sx::close(w::time_weighted_average_integral(Some(r.clone()), "us".into()).unwrap(), x), id + 1);
    let avg = w::arrow_time_weighted_average_average(Some(r.clone()), unsafe { std::mem::zeroed() });
    match avg {
        Some(y) => sx::check(b.t > a.t && sx::close(y * (b.t - a.t) as f64, x), id + 2),
        None => sx::check(b.t == a.t, id + 2),
    }
}
/// points in any order of times, several at the same time (the first of these counts), with missing ones in between
pub fn seq() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let (m, linear) = just();
    let hole = sx::choice(n as u64 + 1) as usize;
    let v: Vec<Pt> = (0..n).map(|_| Pt { t: [-7, 0, 3, 10][sx::choice(4) as usize], v: sx::f64() }).collect();
    let mut s = none();
    for (i, p) in v.iter().enumerate() {
        if i == hole { s = state(w::time_weight_trans(s, m.clone(), None, Some(p.v), FC)); s = state(w::time_weight_trans(s, m.clone(), Some(ts(5)), None, FC)); }
        s = trans(s, &m, p);
    }
    let mut u: Vec<Pt> = vec![];
    for t in [-7, 0, 3, 10] { if let Some(p) = v.iter().find(|p| p.t == t) { u.push(*p); } }
    sx::cover(if u.len() == 1 { 1 } else if u.len() < n { 2 } else { 3 });
    read(&stored(done(again(&s)).unwrap()), &u, linear, 1);
    // reading does not disturb the state
    let p = Pt { t: 20, v: sx::f64() };
    s = trans(s, &m, &p);
    u.push(p);
    read(&done(s).unwrap(), &u, linear, 4);
    sx::check(done(none()).is_none() & w::time_weighted_average_average(None).is_none() & w::time_weighted_average_integral(None, "s".into()).is_none(), 7);
}
/// the names of methods and of units
pub fn units() {
    let (m, linear) = method();
    let v = [Pt { t: 0, v: sx::f64() }, Pt { t: 6_000_000, v: sx::f64() }];
    let r = build(&v, &m).unwrap();
    let (u, k) = [("us", 1.0), ("microseconds", 1.0), ("ms", 1e3), ("msecond", 1e3), ("second", 1e6), ("SECS", 1e6), ("min", 6e7), ("minutes", 6e7), ("h", 3.6e9), ("hour", 3.6e9)][sx::choice(10) as usize];
    let x = area(&v, linear);
    sx::check(sx::close(w::time_weighted_average_integral(Some(r.clone()), u.into()).unwrap() * k, x), 1);
    sx::check(sx::close(w::arrow_time_weighted_average_integral(Some(r.clone()), stored(acc::accessor_integral(u))).unwrap() * k, x), 2);
    let a = w::verif::time_weight_interpolated_integral_accessor(ts(0), interval(6_000_001), None, None, u.into());
    let y = if linear { x } else { x + v[1].v };
    sx::check(sx::close(w::arrow_time_weighted_average_interpolated_integral(Some(r), stored(a)).unwrap() * k, y), 3);
}
const T: [i64; 8] = [-5, 0, 1, 4, 10, 11, 30, 31];
fn line(n: usize) -> Vec<Pt> { (0..n).map(|i| Pt { t: T[i], v: sx::f64() }).collect() }
/// any cut into stretches of time, put together in any order through partial states or finished summaries
pub fn split() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let (m, linear) = just();
    let v = line(n);
    let (i, j) = (sx::choice(n as u64 + 1) as usize, sx::choice(n as u64 + 1) as usize);
    if i > j { return; }
    let cut = [&v[..i], &v[i..j], &v[j..]];
    let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][sx::choice(6) as usize];
    let s = match sx::choice(3) {
        0 => {
            sx::cover(1);
            let mut q = none();
            for k in o {
                let mut p = none();
                for x in cut[k] { p = trans(p, &m, x); }
                // a state that has gone through bytes, unless empty
                if !cut[k].is_empty() && k == o[0] { p = state(w::time_weight_trans_deserialize(w::time_weight_trans_serialize(p), none())); }
                q = state(w::time_weight_combine(q, p, FC));
            }
            q
        }
        1 => {
            sx::cover(2);
            let mut q = none();
            for k in o { q = state(w::time_weight_summary_trans(q, build(cut[k], &m), FC)); }
            q
        }
        _ => {
            sx::cover(3);
            let mut q = state(w::time_weight_summary_trans(none(), build(cut[o[0]], &m), FC));
            q = state(w::time_weight_summary_trans(q, build(cut[o[1]], &m), FC));
            let p = state(w::time_weight_summary_trans(none(), build(cut[o[2]], &m), FC));
            state(w::time_weight_combine(p, q, FC))
        }
    };
    read(&stored(done(s).unwrap()), &v, linear, 1);
}
/// summaries of overlapping stretches, or of different methods, are not put together
pub fn refused() {
    let (m, _) = just();
    let (a, b) = (sx::choice(3) as i64, sx::choice(3) as i64);
    let x = [Pt { t: 0, v: sx::f64() }, Pt { t: 10, v: sx::f64() }];
    let y = [Pt { t: 8 + a, v: sx::f64() }, Pt { t: 11 + b, v: sx::f64() }];
    let other = sx::choice(2) == 0;
    let (p, q) = if other { (build(&x, "locf"), build(&[Pt { t: 20, v: y[0].v }], "linear")) } else { (build(&x, &m), build(&y, &m)) };
    let (p, q) = if sx::choice(2) == 0 { (p, q) } else { (q, p) };
    let s = state(w::time_weight_summary_trans(none(), p, FC));
    let s = state(w::time_weight_summary_trans(s, q, FC));
    sx::panic_ok(1);
    let _ = done(s);
    sx::check(false, 1);
}
fn at(a: &Pt, b: &Pt, t: i64, linear: bool) -> Pt { Pt { t, v: if linear { a.v + (b.v - a.v) * ((t - a.t) as f64 / (b.t - a.t) as f64) } else { a.v } } }
/// interpolation to the bounds of a bucket from the neighbours
pub fn interp() {
    let (m, linear) = just();
    let g = |o: i64| -> Vec<Pt> { [&[0i64][..], &[3], &[0, 5], &[2, 7]][sx::choice(4) as usize].iter().map(|t| Pt { t: o + t, v: sx::f64() }).collect() };
    let (a, b, c) = (g(-8), g(0), g(8));
    let (p, n) = (sx::choice(2) == 1, sx::choice(2) == 1);
    let r = build(&b, &m);
    let (prev, next) = (if p { build(&a, &m) } else { None }, if n { build(&c, &m) } else { None });
    let mut v = b.clone();
    if p && b[0].t > 0 { sx::cover(1); v.insert(0, at(a.last().unwrap(), &b[0], 0, linear)); }
    if n { sx::cover(2); v.push(at(b.last().unwrap(), &c[0], 8, linear)); }
    else if !linear { sx::cover(3); v.push(Pt { t: 8, v: b.last().unwrap().v }); }
    let x = area(&v, linear);
    let d = (v[v.len() - 1].t - v[0].t) as f64;
    let (i, y) = if sx::choice(2) == 0 {
        (w::time_weighted_average_interpolated_integral(r.clone(), ts(0), interval(8), prev.clone(), next.clone(), "us".into()),
         w::time_weighted_average_interpolated_average(r, ts(0), interval(8), prev, next))
    } else {
        (w::arrow_time_weighted_average_interpolated_integral(r.clone(), stored(w::verif::time_weight_interpolated_integral_accessor(ts(0), interval(8), prev.clone(), next.clone(), "us".into()))),
         w::arrow_time_weighted_average_interpolated_average(r, stored(w::verif::time_weight_interpolated_average_accessor(ts(0), interval(8), prev, next))))
    };
    sx::check(sx::close(i.unwrap(), x), 1);
    if d > 0.0 { sx::check(sx::close(y.unwrap() * d, x), 2); } else { sx::check(y.is_none(), 3); }
}
/// the buckets of a gapless series, each interpolated from its neighbours, add up to the whole
pub fn buckets() {
    let (m, linear) = just();
    let mut all: Vec<Pt> = vec![];
    let mut s = vec![];
    for k in 0..3 {
        let v: Vec<Pt> = [&[1i64][..], &[0], &[4, 6]][sx::choice(3) as usize].iter().map(|t| Pt { t: 8 * k + t, v: sx::f64() }).collect();
        s.push(build(&v, &m));
        all.extend(v);
    }
    let mut sum = 0.0;
    for k in 0..3usize {
        let (p, n) = (if k > 0 { s[k - 1].clone() } else { None }, if k < 2 { s[k + 1].clone() } else { None });
        sum += w::time_weighted_average_interpolated_integral(s[k].clone(), ts(8 * k as i64), interval(8), p, n, "us".into()).unwrap();
    }
    if !linear { all.push(Pt { t: 24, v: all.last().unwrap().v }); }
    sx::check(sx::close(sum, area(&all, linear)), 1);
}
/// a bucket that does not contain the summary is refused
pub fn outside() {
    let (m, _) = just();
    let r = build(&[Pt { t: 0, v: sx::f64() }, Pt { t: 10, v: sx::f64() }], &m);
    let (s, d) = [(1, 100), (5, 6), (0, 10), (-5, 15), (-10, 4)][sx::choice(5) as usize];
    sx::panic_ok(1);
    let _ = w::time_weighted_average_interpolated_average(r, ts(s), interval(d), None, None);
    sx::check(false, 1);
}
/// the library's extension to bounds, from points outside
pub fn bounds() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let (_, linear) = just();
    let v = line(n);
    let m = if linear { TimeWeightMethod::Linear } else { TimeWeightMethod::LOCF };
    let q: Vec<TSPoint> = v.iter().map(|p| TSPoint { ts: p.t, val: p.v }).collect();
    let s = Inner::new_from_sorted_iter(q.iter(), m).unwrap();
    let (f, l) = (v[0], v[n - 1]);
    let (p, x) = (Pt { t: f.t + [-6, -3, 0, 1][sx::choice(4) as usize], v: sx::f64() }, Pt { t: l.t + [-1, 0, 2, 5][sx::choice(4) as usize], v: sx::f64() });
    let start = if sx::choice(3) == 0 { None } else { Some(f.t + [-6, -4, 0, 1][sx::choice(4) as usize]) };
    let end = if sx::choice(3) == 0 { None } else { Some(l.t + [-1, 0, 1, 5][sx::choice(4) as usize]) };
    let has = sx::choice(2) == 1;
    let tp = |p: &Pt| TSPoint { ts: p.t, val: p.v };
    let r = s.with_bounds(start.map(|t| (t, tp(&p))), end.map(|t| (t, if has { Some(tp(&x)) } else { None })));
    let mut w = v.clone();
    let mut bad = None;
    if let Some(t) = start {
        if p.t >= f.t || t > f.t || p.t > t { bad = Some(TimeWeightError::OrderError); }
        else if t < f.t { w.insert(0, at(&p, &f, t, linear)); }
    }
    if let Some(t) = end {
        if bad.is_none() {
            if t < l.t { bad = Some(TimeWeightError::OrderError); }
            else if t > l.t {
                if has && x.t < t { bad = Some(TimeWeightError::OrderError); }
                else if !has && linear { bad = Some(TimeWeightError::InterpolateMissingPoint); }
                else { w.push(if has { at(&l, &x, t, linear) } else { Pt { t, v: l.v } }); }
            }
        }
    }
    match (r, bad) {
        (Err(e), Some(b)) => { sx::cover(1); sx::check(e == b, 1) }
        (Ok(r), None) => {
            sx::cover(2);
            let (a, z) = (w[0], w[w.len() - 1]);
            sx::check((r.first.ts == a.t) & (r.last.ts == z.t) & sx::close(r.first.val, a.v) & sx::close(r.last.val, z.v), 2);
            sx::check(sx::close(r.time_weighted_integral(), area(&w, linear)), 3);
        }
        _ => sx::check(false, 4),
    }
}
/// any times: the ends are those of the earliest and the latest point, whatever the order of arrival
pub fn any() {
    let n = sx::param(0);
    let (m, _) = just();
    let v: Vec<Pt> = (0..n).map(|_| Pt { t: sx::int(50), v: sx::whole(6) }).collect();
    let r = build(&v, &m).unwrap();
    let (mut a, mut b) = (v[0], v[0]);
    for p in &v { if p.t < a.t { a = *p; } if p.t > b.t { b = *p; } }
    let z = || unsafe { std::mem::zeroed() };
    sx::check((unts(w::arrow_time_weight_first_time(r.clone(), unsafe { std::mem::zeroed() })) == a.t) & (unts(w::arrow_time_weight_last_time(r.clone(), z())) == b.t), 1);
    let (f, l) = (w::arrow_time_weight_first_val(r.clone(), unsafe { std::mem::zeroed() }), w::arrow_time_weight_last_val(r.clone(), unsafe { std::mem::zeroed() }));
    sx::check(f == a.v, 2);
    sx::check(l == b.v, 3);
    sx::check(w::time_weighted_average_average(Some(r)).is_some() == (a.t < b.t), 4);
}
