// Count-min sketch: an estimate is never below the true count, and partial sketches add up to the whole.
use crate::u::*;
use timescaledb_toolkit::countminsketch::{self as c, count_min_sketch as agg};

/// width and depth of the sketch: 4x1, 3x2, 4x2
const DIMS: [(f64, f64); 3] = [(0.7, 0.5), (0.95, 0.2), (0.7, 0.2)];
/// a letter, nothing, or a longer text
fn text(b: u8) -> String { if b == 0x40 { String::new() } else if b == 0x41 { "more than eight".to_string() } else { unsafe { String::from_utf8_unchecked(vec![b]) } } }
fn items(n: usize) -> Vec<u8> { (0..n).map(|_| 0x40 | sx::bits(5) as u8).collect() }
fn put(q: Option<agg::State>, d: (f64, f64), x: Option<u8>) -> Option<agg::State> { agg::transition(q, x.map(text), d.0, d.1) }
pub fn seq() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let d = DIMS[sx::param(1)];
    let v = items(n);
    let mut q = None;
    for x in &v { q = put(q, d, Some(*x)); q = put(q, d, None); }
    let r = stored(agg::finally(q.as_mut()).unwrap());
    let y = 0x40 | sx::bits(5) as u8;
    let mut k = 0;
    for x in &v { k += (*x == y) as i64; }
    let e = c::approx_count(text(y), Some(r)).unwrap();
    sx::cover(1);
    sx::check(e >= k, 1);
    sx::check(e <= n as i64, 2);
}
fn counters(q: &mut Option<agg::State>) -> Vec<i64> { stored(agg::finally(q.as_mut()).unwrap()).to_internal_countminsketch().counters().iter().flatten().copied().collect() }
/// groups counted apart, one of them possibly without any value, written as bytes and put together, are what counting all of them gives
pub fn split() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let d = DIMS[sx::param(1)];
    let k = sx::choice(n as u64 + 1) as usize;
    let v = items(n);
    let (mut a, mut b, mut all) = (None, None, None);
    for x in &v[..k] { a = put(a, d, Some(*x)); }
    for x in &v[k..] { b = put(b, d, Some(*x)); }
    for x in &v { all = put(all, d, Some(*x)); }
    if sx::choice(2) == 1 { sx::cover(1); if let Some(s) = a.as_mut() { a = Some(agg::deserialize(agg::serialize(s))); } }
    let mut c = agg::combine(a.as_ref(), b.as_ref());
    let (c, w) = (counters(&mut c), counters(&mut all));
    sx::check(c.len() == w.len(), 1);
    let mut same = true;
    for (x, y) in c.iter().zip(&w) { same &= x == y; }
    sx::check(same, 2);
    // the partial states are left as they were
    if let Some(s) = a.as_mut() { let q: i64 = counters(&mut Some(std::mem::replace(s, agg::State::with_dim(1, 1)))).iter().sum(); sx::check(q == (k * w.len() / [4, 3, 4][sx::param(1)]) as i64, 3); sx::cover(2); }
}
/// taking an item out again undoes adding it
pub fn subtract() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let d = DIMS[sx::param(1)];
    let v = items(n);
    let (mut s, mut t) = (agg::State::with_prob(d.0, d.1), agg::State::with_prob(d.0, d.1));
    for x in &v { s.add_value(text(*x)); }
    s.subtract_value(text(v[0]));
    for x in &v[1..] { t.add_value(text(*x)); }
    let mut same = true;
    for (x, y) in s.counters().iter().flatten().zip(t.counters().iter().flatten()) { same &= x == y; }
    sx::check(same, 1);
    let (i, h) = (s.get_bucket_indices(text(v[0])), s.hash_keys());
    sx::check((i.len() == s.depth()) & (h.len() == s.depth()), 2);
    for b in i { sx::check(b < s.width(), 3); }
}
/// sketches of other dimensions or hashes are not added up
pub fn mixed() {
    let (i, j) = (sx::choice(3) as usize, sx::choice(3) as usize);
    let (a, b) = (put(None, DIMS[i], Some(0x41)), put(None, DIMS[j], Some(0x42)));
    if i != j { sx::panic_ok(1); }
    let c = agg::combine(a.as_ref(), b.as_ref());
    sx::check(c.is_some() & (i == j), 1);
    sx::panic_ok(0);
}
