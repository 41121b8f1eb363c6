// Candlesticks: open/high/low/close with their times, volume and volume-weighted average price.
use crate::u::*;
use timescaledb_toolkit::candlestick::{self as c, Candlestick};

#[derive(Clone, Copy)]
struct Tick { t: i64, p: f64, v: Option<f64> }
fn trans(s: Internal, x: &Tick, vol: bool) -> Internal {
    state(if vol { c::tick_data_transition(s, Some(ts(x.t)), Some(x.p), x.v, FC) } else { c::tick_data_no_vol_transition(s, Some(ts(x.t)), Some(x.p), FC) })
}
/// open, high, low and close of the ticks in the order they came: ties go to the tick that came first
fn ohlc(r: &Candlestick, v: &[Tick], id: u32) {
    let (mut o, mut h, mut l, mut e) = (v[0], v[0], v[0], v[0]);
    for x in &v[1..] {
        if x.t < o.t { o = *x; }
        if x.p > h.p { h = *x; }
        if x.p < l.p { l = *x; }
        if x.t > e.t { e = *x; }
    }
    sx::check((c::open(Some(*r)).unwrap() == o.p) & (unts(c::open_time(Some(*r)).unwrap()) == o.t), id);
    sx::check((c::high(Some(*r)).unwrap() == h.p) & (unts(c::high_time(Some(*r)).unwrap()) == h.t), id + 1);
    sx::check((c::low(Some(*r)).unwrap() == l.p) & (unts(c::low_time(Some(*r)).unwrap()) == l.t), id + 2);
    sx::check((c::close(Some(*r)).unwrap() == e.p) & (unts(c::close_time(Some(*r)).unwrap()) == e.t), id + 3);
}
fn ticks(n: usize) -> Vec<Tick> { (0..n).map(|_| Tick { t: sx::i64(), p: sx::ordered(), v: None }).collect() }
/// ticks one by one, some of them without a time or a price
pub fn seq() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let v = ticks(n);
    let mut s = none();
    let hole = sx::choice(n as u64 + 1) as usize;
    for (i, x) in v.iter().enumerate() {
        if i == hole { s = state(c::tick_data_transition(s, None, Some(x.p), None, FC)); s = state(c::tick_data_transition(s, Some(ts(x.t)), None, Some(1.0), FC)); }
        s = trans(s, x, false);
    }
    sx::cover(if n > 1 { 2 } else { 1 });
    let r = c::candlestick_final(s, FC).unwrap();
    ohlc(&r, &v, 1);
    sx::check(c::volume(Some(r)).is_none() & c::vwap(Some(r)).is_none(), 5);
    sx::check(c::candlestick_final(none(), FC).is_none(), 6);
}
/// two partial states, one of them through bytes, combined; and the same as a rollup of finished candlesticks
pub fn split() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let k = sx::choice(n as u64 + 1) as usize;
    let v = ticks(n);
    let (mut a, mut b) = (none(), none());
    for x in &v[..k] { a = trans(a, x, false); }
    for x in &v[k..] { b = trans(b, x, false); }
    if sx::choice(2) == 0 {
        sx::cover(if k == 0 { 1 } else if k == n { 2 } else { 3 });
        if k > 0 { a = state(c::candlestick_deserialize(c::candlestick_serialize(a), none())); }
        let r = c::candlestick_final(state(c::candlestick_combine(a, b, FC)), FC).unwrap();
        ohlc(&r, &v, 1);
    } else {
        sx::cover(4);
        let (x, y) = (c::candlestick_final(a, FC), c::candlestick_final(b, FC));
        let s = state(c::candlestick_rollup_trans(none(), x, FC));
        let r = c::candlestick_final(state(c::candlestick_rollup_trans(s, y, FC)), FC).unwrap();
        ohlc(&r, &v, 5);
    }
}
/// volume: the sum if every tick has one, else absent; vwap: the mean price weighted by volume (exact reals)
pub fn volume() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let k = sx::choice(n as u64 + 1) as usize;
    let v: Vec<Tick> = (0..n).map(|i| Tick { t: i as i64, p: sx::f64(), v: if sx::choice(4) > 0 { Some(sx::f64()) } else { None } }).collect();
    let (mut a, mut b) = (none(), none());
    for x in &v[..k] { a = trans(a, x, true); }
    for x in &v[k..] { b = trans(b, x, true); }
    let s = if sx::choice(2) == 0 { state(c::candlestick_combine(a, b, FC)) } else {
        let s = state(c::candlestick_rollup_trans(none(), c::candlestick_final(a, FC), FC));
        state(c::candlestick_rollup_trans(s, c::candlestick_final(b, FC), FC))
    };
    let r = c::candlestick_final(s, FC).unwrap();
    read_volume(&r, &v);
}
fn read_volume(r: &Candlestick, v: &[Tick]) {
    if v.iter().any(|x| x.v.is_none()) {
        sx::cover(1);
        sx::check(c::volume(Some(*r)).is_none() & c::vwap(Some(*r)).is_none(), 1);
        return;
    }
    let (mut vol, mut sum) = (0.0, 0.0);
    for x in v { vol += x.v.unwrap(); sum += x.v.unwrap() * x.p; }
    sx::check(c::volume(Some(*r)).is_some_and(|x| sx::close(x, vol)), 2);
    match c::vwap(Some(*r)) {
        None => { sx::cover(2); sx::check(!(vol > 0.0), 3); }
        Some(x) => { sx::cover(3); sx::check(vol > 0.0, 4); sx::check(sx::close(x * vol, sum), 5); }
    }
}
/// a candlestick made from given open, high, low, close: the typical price stands in for the price
pub fn given() {
    let (t, o, h, l, e) = (sx::i64(), sx::f64(), sx::f64(), sx::f64(), sx::f64());
    let v = if sx::choice(2) == 1 { Some(sx::f64()) } else { None };
    let hole = sx::choice(6);
    let some = |i: u64, x: f64| if hole == i { None } else { Some(x) };
    let r = c::candlestick(if hole == 0 { None } else { Some(ts(t)) }, some(1, o), some(2, h), some(3, l), some(4, e), v);
    if hole < 5 { sx::cover(1); sx::check(r.is_none(), 1); return; }
    sx::cover(2);
    let r = r.unwrap();
    sx::check((c::open(Some(r)) == Some(o)) & (c::high(Some(r)) == Some(h)) & (c::low(Some(r)) == Some(l)) & (c::close(Some(r)) == Some(e)), 2);
    for x in [c::open_time(Some(r)), c::high_time(Some(r)), c::low_time(Some(r)), c::close_time(Some(r))] { sx::check(unts(x.unwrap()) == t, 3); }
    sx::check(c::volume(Some(r)).is_some() == v.is_some(), 4);
    if let Some(v) = v {
        sx::check(sx::close(c::volume(Some(r)).unwrap(), v), 5);
        match c::vwap(Some(r)) { None => sx::check(!(v > 0.0), 6), Some(x) => { sx::cover(3); sx::check(v > 0.0, 7); sx::check(sx::close(3.0 * x, h + l + e), 8); } }
    }
}
