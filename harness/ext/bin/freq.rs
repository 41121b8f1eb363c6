// Frequency and most-common-value aggregates: bounds on frequencies, and no frequent value is missed.
use crate::u::*;
use timescaledb_toolkit::{accessors as acc, frequency::{self as f, verif::*}};

fn share(k: usize, n: usize) -> f64 { k as f64 / n as f64 }
fn times(v: &[i64], x: i64) -> usize { let mut n = 0; for y in v { n += (*y == x) as usize; } sx::concretize(n as u64) as usize }
/// min_freq <= true frequency <= max_freq of what is listed; what is not listed is rarer than `freq` (and listed values differ)
fn bounds(r: &[(i64, f64, f64)], v: &[i64], freq: f64) {
    let mut sum = 0.0;
    for (i, (x, lo, hi)) in r.iter().enumerate() {
        let t = share(times(v, *x), v.len());
        sx::check(*lo <= t, 1);
        sx::check(t <= *hi, 2);
        for (y, _, h) in &r[..i] { sx::check(*y != *x, 3); sx::check(*h >= *hi, 4); }
        sum += hi;
    }
    sx::check(sum <= 1.0 + 1e-9, 5);
    for x in v { if share(times(v, *x), v.len()) >= freq { let mut seen = false; for (y, _, _) in r { seen |= y == x; } sx::check(seen, 6); } }
}
fn read(s: Internal, v: &[i64], freq: f64, mcv: bool) {
    let a = stored(finish_bigint(s).unwrap());
    let r: Vec<_> = f::freq_bigint_iter(a.clone()).collect();
    bounds(&r, v, freq);
    let x = v[0];
    let (lo, hi) = (f::min_bigint_frequency(a.clone(), x), f::max_bigint_frequency(a.clone(), x));
    let t = share(times(v, x), v.len());
    sx::check(lo <= t, 7);
    let mut listed = false;
    for (y, _, h) in &r { if *y == x { listed = true; sx::check(*h == hi, 8); } }
    if !listed { sx::check((lo == 0.0) & (hi == 0.0), 8); }
    if mcv { return; }
    // topn: the listed values that may reach the frequency, most frequent first
    let n = sx::choice(3) as i32;
    let top: Vec<i64> = f::topn_bigint(a, n).collect();
    let mut want = vec![];
    for (y, _, h) in &r { if *h >= freq && want.len() < n as usize { want.push(*y); } }
    sx::check(top.len() == want.len(), 9);
    for (a, b) in top.iter().zip(&want) { sx::check(a == b, 10); }
}
const FREQS: [f64; 3] = [0.9, 0.5, 0.3];
fn values(n: usize) -> Vec<i64> { (0..n).map(|_| sx::i64()).collect() }
/// any sequence of up to n bigints, into 2, 3 or 4 counters
pub fn seq() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let freq = FREQS[sx::param(1)];
    let v = values(n);
    let mut s = none();
    for x in &v { s = state(f::freq_agg_bigint_trans(s, freq, Some(*x), FC)); s = state(f::freq_agg_bigint_trans(s, freq, None, FC)); }
    sx::cover(1);
    read(s, &v, freq, false);
}
/// two or three partial states combined, or finished aggregates rolled up
pub fn split() {
    let n = 2 + sx::choice(sx::param(0) as u64 - 1) as usize;
    let freq = FREQS[sx::param(1)];
    let k = 1 + sx::choice(n as u64 - 1) as usize;
    let j = if sx::choice(2) == 0 { n } else { k + sx::choice((n - k) as u64) as usize };
    let rollup = sx::choice(2) == 0;
    let v = values(n);
    let mut acc = none();
    for part in [&v[..k], &v[k..j], &v[j..]] {
        if part.is_empty() { continue; }
        let mut a = none();
        for x in part { a = state(f::freq_agg_bigint_trans(a, freq, Some(*x), FC)); }
        acc = state(if rollup { f::rollup_agg_bigint_trans(acc, finish_bigint(a).map(stored), FC) } else { f::space_saving_combine(acc, a, FC) });
    }
    sx::cover(if rollup { 1 } else { 2 });
    if j < n { sx::cover(3); }
    read(acc, &v, freq, false);
}
/// a combined state goes on counting
pub fn more() {
    let n = sx::param(0);
    let freq = FREQS[sx::param(1)];
    let k = 1 + sx::choice(n as u64 - 2) as usize;
    let j = k + 1 + sx::choice((n - k - 1) as u64) as usize;
    let v = values(n);
    let (mut a, mut b) = (none(), none());
    for x in &v[..k] { a = state(f::freq_agg_bigint_trans(a, freq, Some(*x), FC)); }
    for x in &v[k..j] { b = state(f::freq_agg_bigint_trans(b, freq, Some(*x), FC)); }
    let mut s = state(f::space_saving_combine(a, b, FC));
    for x in &v[j..] { s = state(f::freq_agg_bigint_trans(s, freq, Some(*x), FC)); }
    sx::cover(1);
    read(s, &v, freq, false);
}
/// any 8-byte type through the polymorphic functions
pub fn any() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let freq = FREQS[sx::param(1)];
    let k = sx::choice(n as u64) as usize;
    let v = values(n);
    let (mut a, mut b) = (none(), none());
    for x in &v[..k] { a = state(f::freq_agg_trans(a, freq, opt(Some(*x)), FC)); }
    for x in &v[k..] { b = state(f::freq_agg_trans(b, freq, opt(Some(*x)), FC)); }
    sx::cover(if k == 0 { 1 } else { 2 });
    let s = if sx::choice(2) == 0 { state(f::space_saving_combine(a, b, FC)) } else {
        let s = state(f::rollup_agg_trans(none(), finish(a).map(stored), FC));
        state(f::rollup_agg_trans(s, finish(b).map(stored), FC))
    };
    let a = stored(finish(s).unwrap());
    let r: Vec<_> = f::freq_iter(a.clone(), elem(0)).map(|(x, l, h)| (unelem(&x), l, h)).collect();
    bounds(&r, &v, freq);
    let hi = f::max_frequency(a.clone(), elem(v[0]));
    let lo = f::min_frequency(a, elem(v[0]));
    for (y, l, h) in &r { if *y == v[0] { sx::check((*h == hi) & (*l == lo), 8); } }
}
/// most-common-values: the same bounds; asking for the top value either refuses or gives the listed one
pub fn mcv() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let k = sx::choice(n as u64) as usize;
    let v = values(n);
    let (mut a, mut b) = (none(), none());
    for x in &v[..k] { a = state(f::mcv_agg_with_skew_bigint_trans(a, 1, 8.0, Some(*x), FC)); }
    for x in &v[k..] { b = state(f::mcv_agg_with_skew_bigint_trans(b, 1, 8.0, Some(*x), FC)); }
    sx::cover(if k == 0 { 1 } else { 2 });
    let s = if sx::choice(2) == 0 { state(f::space_saving_combine(a, b, FC)) } else {
        let s = state(f::rollup_agg_bigint_trans(none(), finish_bigint(a).map(stored), FC));
        state(f::rollup_agg_bigint_trans(s, finish_bigint(b).map(stored), FC))
    };
    let a = stored(finish_bigint(again(&s)).unwrap());
    read(s, &v, 0.6, true);
    let r: Vec<_> = f::freq_bigint_iter(a.clone()).collect();
    sx::panic_ok(1);
    let t: Vec<i64> = f::default_topn_bigint(a).collect();
    sx::check(t.len() == 1 && t[0] == r[0].0, 11);
}

/// one-letter and two-letter texts, as numbers
fn texts(n: usize) -> Vec<i64> { (0..n).map(|_| { let two = sx::choice(2) as i64; let c = sx::range(1, 127); c | two << 8 }).collect() }
/// a text as it lies in a row (one-byte header, anywhere) or in memory
fn mktext(x: i64, short: bool) -> raw::text {
    let n = 1 + (x >> 8);
    let mut m = if short { vec![0, ((n as u8 + 1) << 1) | 1] } else { ((n as u32 + 4) << 2).to_ne_bytes().to_vec() };
    m.push(x as u8);
    if n == 2 { m.push(b'b'); }
    raw::text(pg_sys::Datum::from(m.leak().as_ptr() as usize + short as usize))
}
fn untext(s: &str) -> i64 { let b = s.as_bytes(); sx::check(b.len() == 1 || (b.len() == 2 && b[1] == b'b'), 30); b[0] as i64 | (b.len() as i64 - 1) << 8 }
/// texts through freq_agg: in one group, combined or rolled up
pub fn text() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let freq = FREQS[sx::param(1)];
    let k = sx::choice(n as u64) as usize;
    let v = texts(n);
    let (mut a, mut b) = (none(), none());
    for (i, x) in v[..k].iter().enumerate() { a = state(f::freq_agg_text_trans(a, freq, Some(mktext(*x, i % 2 == 0)), FC)); }
    for (i, x) in v[k..].iter().enumerate() { b = state(f::freq_agg_text_trans(b, freq, Some(mktext(*x, i % 2 == 1)), FC)); b = state(f::freq_agg_text_trans(b, freq, None, FC)); }
    let s = if k == 0 { sx::cover(1); b } else if sx::choice(2) == 0 { sx::cover(2); state(f::space_saving_combine(a, b, FC)) } else {
        sx::cover(3);
        let s = state(f::rollup_agg_text_trans(none(), finish_text(a).map(stored), FC));
        state(f::rollup_agg_text_trans(s, finish_text(b).map(stored), FC))
    };
    let a = stored(finish_text(s).unwrap());
    let r: Vec<_> = f::freq_text_iter(a.clone()).map(|(x, l, h)| (untext(&x), l, h)).collect();
    bounds(&r, &v, freq);
    let into = || stored(acc::verif::accessor_into_values());
    let m: Vec<_> = f::arrow_freq_text_iter(a.clone(), into()).map(|(x, l, h)| (untext(&x), l, h)).collect();
    sx::check(r == m, 7);
    let short = n % 2 == 0;
    let (lo, hi) = (f::min_text_frequency(a.clone(), mktext(v[0], short)), f::max_text_frequency(a.clone(), mktext(v[0], short)));
    let mut listed = false;
    for (y, l, h) in &r { if *y == v[0] { listed = true; sx::check((*l == lo) & (*h == hi), 8); } }
    if !listed { sx::check((lo == 0.0) & (hi == 0.0), 8); }
    let top: Vec<i64> = f::topn_text(a.clone(), 2).map(|x| untext(&x)).collect();
    let mut want = vec![];
    for (y, _, h) in &r { if *h >= freq && want.len() < 2 { want.push(*y); } }
    sx::check(top == want, 9);
    let top: Vec<i64> = f::arrow_topn_text(a, stored(acc::accessor_topn_count(2))).map(|x| untext(&x)).collect();
    sx::check(top == want, 10);
}
/// the two most common values: refused, or the listed ones; the arrows say the same
pub fn mcv2() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let k = sx::choice(n as u64) as usize;
    let v = values(n);
    let skew = [1.1, 3.0][sx::choice(2) as usize];
    let (mut a, mut b) = (none(), none());
    for x in &v[..k] { a = state(f::mcv_agg_with_skew_bigint_trans(a, 2, skew, Some(*x), FC)); }
    for x in &v[k..] { b = state(f::mcv_agg_with_skew_bigint_trans(b, 2, skew, Some(*x), FC)); }
    sx::cover(if k == 0 { 1 } else { 2 });
    let s = if k == 0 { b } else { state(f::space_saving_combine(a, b, FC)) };
    let a = stored(finish_bigint(s).unwrap());
    let r: Vec<_> = f::freq_bigint_iter(a.clone()).collect();
    bounds(&r, &v, 0.4);
    let m: Vec<_> = f::arrow_freq_bigint_iter(a.clone(), stored(acc::verif::accessor_into_values())).collect();
    sx::check(r == m, 7);
    sx::check(f::arrow_max_bigint_frequency(a.clone(), stored(acc::accessor_max_frequency_int(v[0]))) == f::max_bigint_frequency(a.clone(), v[0]), 8);
    sx::check(f::arrow_min_bigint_frequency(a.clone(), stored(acc::accessor_min_frequency_int(v[0]))) == f::min_bigint_frequency(a.clone(), v[0]), 9);
    sx::panic_ok(1);
    let t: Vec<i64> = match sx::choice(4) { 0 => f::default_topn_bigint(a).collect(), 1 => f::arrow_default_topn_bigint(a, stored(acc::verif::accessor_topn())).collect(), 2 => f::topn_bigint(a, 2).collect(), _ => f::arrow_topn_bigint(a, stored(acc::accessor_topn_count(2))).collect() };
    sx::panic_ok(0);
    sx::cover(3);
    sx::check(t.len() == r.len().min(2), 10);
    for (x, y) in t.iter().zip(&r) { sx::check(*x == y.0, 11); }
}
/// a state that travels as bytes (what parallel workers do) is the state it was: it goes on, combines and finishes alike
pub fn travel() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let k = sx::choice(n as u64 + 1) as usize;
    let kind = sx::choice(4);
    let v = if kind == 3 { texts(n) } else { values(n) };
    let times = [1, 3][sx::choice(2) as usize];
    let one = |s: Internal, x: i64| state(match kind {
        0 => f::freq_agg_bigint_trans(s, 0.9, Some(x), fcinfo()),
        1 => f::mcv_agg_bigint_trans(s, 1, Some(x), fcinfo()),
        2 => f::mcv_agg_with_skew_bigint_trans(s, 2, 3.0, Some(x), fcinfo()),
        _ => f::freq_agg_text_trans(s, 0.5, Some(mktext(x, false)), fcinfo()),
    });
    let add = |mut s: Internal, x: i64| { for _ in 0..times { s = one(s, x); } s };
    let trip = |s: &Internal| state(f::space_saving_deserialize(bytes(again(s)), none()));
    let (mut a, mut b) = (none(), none());
    for x in &v[..k] { a = add(a, *x); }
    for x in &v[k..] { b = add(b, *x); }
    let (ta, tb) = (trip(&a), trip(&b));
    sx::check(unsafe { ta.get::<u8>().is_some() } == (k > 0), 1);
    let (mut s, mut t) = match sx::choice(3) {
        0 => (state(f::space_saving_combine(a, b, FC)), state(f::space_saving_combine(ta, tb, FC))),
        1 => (state(f::space_saving_combine(again(&b), again(&a), FC)), state(f::space_saving_combine(tb, a, FC))),
        _ => { if k == 0 { return } (a, ta) }
    };
    if sx::choice(2) == 1 { let x = v[0]; s = one(s, x); t = one(t, x); sx::cover(2); }
    let row = |s: Internal| -> (Vec<(i64, f64, f64)>, u64, f64, u64) {
        if kind == 3 { let r = stored(finish_text(s).unwrap()); (f::freq_text_iter(r.clone()).map(|(x, l, h)| (untext(&x), l, h)).collect(), r.values_seen, r.freq_param, r.topn as u64) }
        else { let r = stored(finish_bigint(s).unwrap()); (f::freq_bigint_iter(r.clone()).collect(), r.values_seen, r.freq_param, r.topn as u64) }
    };
    let (p, q) = (row(s), row(t));
    sx::check(p.0.len() == q.0.len(), 2);
    let mut ok = (p.1 == q.1) & (p.2 == q.2) & (p.3 == q.3);
    for (x, y) in p.0.iter().zip(&q.0) { ok &= (x.0 == y.0) & (x.1 == y.1) & (x.2 == y.2); }
    sx::check(ok, 3);
    sx::cover(if kind == 3 { 3 } else { 1 });
}
