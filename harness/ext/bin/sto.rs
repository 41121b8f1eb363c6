// Values as PostgreSQL stores them: read back as written wherever they lie in memory, damaged ones refused.
use crate::u::*;
use pgrx::IntoDatum;
use timescaledb_toolkit as tk;
use tk::{accessors as acc, time_vector::{toolkit_experimental as te, verif as p}, nmost::verif as nm};

/// memory that holds `b` at a multiple of 8, or 4 bytes after one
fn place(b: &[u8], shift: usize) -> *const u8 {
    let m = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align(b.len() + shift, 8).unwrap()).add(shift) };
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), m, b.len()); }
    m
}
fn read<T: FromDatum>(at: *const u8) -> T { unsafe { T::from_polymorphic_datum(pg_sys::Datum::from(at as usize), false, pg_sys::Oid::INVALID).unwrap() } }
fn written<'a, T: IntoDatum>(x: T) -> &'a [u8] { let p = x.into_datum().unwrap().value() as *const u8; unsafe { std::slice::from_raw_parts(p, (*(p as *const u32) >> 2) as usize) } }
fn eq(a: &[u8], b: &[u8]) -> bool { let mut e = true; for i in 0..a.len() { e &= a[i] == b[i]; } e }

/// the bytes of a value, put together field by field: each field holds anything at all, but where the number of elements is said
struct B(Vec<u8>, bool);
impl B {
    /// anything; once too many elements are claimed, zeros: the fields lie elsewhere then
    // a value (or a part of one that is a stored value itself) starts with its header
    fn head(&mut self) -> &mut B { self.any(8) }
    fn any(&mut self, n: usize) -> &mut B { for _ in 0..n { let v = if self.1 { 0 } else { sx::u8() }; self.0.push(v); } self }
    fn zero(&mut self, n: usize) -> &mut B { for _ in 0..n { self.0.push(0); } self }
    fn is(&mut self, v: u64, n: usize) -> &mut B { self.0.extend_from_slice(&v.to_ne_bytes()[..n]); self }
    fn flag(&mut self) -> &mut B { let v = sx::u8(); sx::assume(v < 2); self.0.push(v); self }
    /// a number (of n bytes) of elements up to `most`, or (once in a value) the next one or any far greater one, so that as many as `most` follow
    fn count(&mut self, n: usize, most: usize) -> usize {
        let k = sx::choice(most as u64 + if self.1 { 1 } else { 3 }) as usize;
        if k <= most { self.is(k as u64, n); return k; }
        self.1 = true;
        let v = if k == most + 1 { k as u64 } else { sx::bits(8 * n as u32) };
        if k == most + 2 { sx::assume(v > if n == 1 { most as u64 } else { 1000 }); }
        self.is(v, n);
        most
    }
    /// one of a few values, or any other one
    fn kind(&mut self, n: usize, of: &[u64]) -> u64 {
        let k = sx::choice(of.len() as u64 + 1) as usize;
        if k < of.len() { self.is(of[k], n); return of[k]; }
        let v = sx::bits(8 * n as u32);
        for x in of { sx::assume(v != *x); }
        self.is(v, n);
        0
    }
}
/// The bytes are read as a value: refused, or the value says every byte again. Whatever is accepted says the same from an
/// unaligned place and with the one-byte header of a short value in a table row, and is refused once cut short.
fn back<T: FromDatum + IntoDatum>(make: fn(&mut B), elements: fn(&T) -> usize) {
    let mut b = B(vec![], false);
    make(b.head());
    let (mut b, over) = (b.0, b.1);
    // what may follow the value is no part of it
    if over { sx::cover(3); }
    let n = b.len();
    b[..4].copy_from_slice(&((n as u32) << 2).to_ne_bytes());
    sx::panic_ok(1);
    let r: T = read(place(&b, 0));
    sx::check(elements(&r) <= n, 1);
    let c = written::<T>(r);
    sx::panic_ok(0);
    sx::check((c.len() <= n) & (c.len() >= 8), 2);
    if c.len() > n { return; }
    if !over { sx::check(eq(&c[4..], &b[4..]), 3); }
    if c.len() == n { sx::cover(1); }
    match sx::choice(3) {
        0 => sx::check(eq(written::<T>(read(place(c, 4))), c), 4),
        1 => if c.len() - 3 < 128 {
            let mut s = vec![((c.len() as u8 - 3) << 1) | 1];
            s.extend_from_slice(&c[4..]);
            let d = written::<T>(read(place(&s, 1)));
            sx::check((d.len() == c.len()) && eq(d, c), 5);
        }
        _ => {
            let k = c.len() - 1 - sx::choice((c.len() as u64 - 8).min(sx::param(0) as u64)) as usize;
            let mut e = c[..k].to_vec();
            e[..4].copy_from_slice(&((k as u32) << 2).to_ne_bytes());
            sx::panic_ok(2);
            let _: T = read(place(&e, 0));
            sx::panic_ok(0);
            sx::check(false, 6);
        }
    }
}
fn none_<T>(_: &T) -> usize { 0 }
/// the data attached to other values: a type, a length, the bytes
fn attached(b: &mut B) { b.any(4); let n = b.count(4, 9); b.any(n); }
fn floats(b: &mut B) { b.any(4); let n = b.count(4, 2); b.any(8 * n); }
fn by(b: &mut B) { floats(b.head()); attached(b); }
fn vector(b: &mut B) { let n = b.count(4, 2); b.any(4 + 16 * n + n.div_ceil(8)); }
fn lambda(b: &mut B) { let n = b.count(4, 3); b.any(n); }
macro_rules! kinds { ($($f:ident { $($t:ty, $make:expr, $n:expr;)* })*) => { $(pub fn $f() { let mut k = if sx::param(1) > 0 { sx::param(1) as u64 - 1 } else { sx::choice(0 $(+ { let _ = stringify!($t); 1 })*) }; $( if k == 0 { return back::<$t>($make, $n); } k -= 1; )* let _ = k; })* } }
kinds! {
    plain { tk::stats_agg::StatsSummary1D, |b| { b.any(40); }, none_;
        tk::stats_agg::StatsSummary2D, |b| { b.any(80); }, none_;
        tk::time_weighted_average::TimeWeightSummary, |b| { b.any(40).kind(1, &[0, 1]); }, none_;
        tk::candlestick::Candlestick, |b| { if b.any(64).kind(8, &[1, 2]) == 2 { b.any(16); } }, none_;
        tk::counter_agg::CounterSummary, range, none_;
        tk::gauge_agg::GaugeSummary, range, none_; }
    lists { tk::tdigest::TDigest<'static>, |b| { let n = b.count(4, 2); b.any(36 + 16 * n); }, |r| r.0.centroids.as_slice().len();
        tk::countminsketch::toolkit_experimental::CountMinSketch<'static>, |b| { let n = b.count(4, 2) * b.count(4, 2); b.any(8 * n); }, |r| r.0.counters.as_slice().len();
        tk::heartbeat_agg::HeartbeatAgg<'static>, |b| { let n = b.any(32).count(8, 2); b.any(16 * n); }, |r| r.0.interval_starts.as_slice().len() + r.0.interval_ends.as_slice().len();
        tk::uddsketch::UddSketch<'static>, |b| { b.any(48); let n = b.count(4, 1) + b.count(4, 2) + b.count(4, 1) + b.count(4, 1); b.any(n); }, none_;
        tk::time_vector::Timevector_TSTZ_F64<'static>, vector, |r| r.0.points.as_slice().len();
        te::AccessorAsof<'static>, |b| vector(b.head()), |r| r.0.into.points.as_slice().len(); }
    counts { tk::frequency::SpaceSavingBigIntAggregate<'static>, |b| { let n = b.count(4, 2); b.any(20 + 24 * n); }, none_;
        tk::frequency::SpaceSavingTextAggregate<'static>, |b| { let n = b.count(4, 2); attached(b.any(20 + 16 * n)); }, none_;
        tk::frequency::SpaceSavingAggregate<'static>, |b| { let n = b.any(4).count(4, 2); attached(b.any(24 + 16 * n)); }, none_;
        tk::hyperloglog::HyperLogLog<'static>, |b| match b.kind(8, &[1, 2]) { 1 => { let n = b.any(16).count(4, 3); b.any(1 + n); }, _ => { b.any(8); let p = b.count(1, 5); b.any(1 + (1 << p) * 6 / 8); } }, none_; }
    nmost { nm::MaxFloats<'static>, floats, none_; nm::MinInts<'static>, floats, none_; nm::MaxTimes<'static>, floats, none_;
        nm::MaxByFloats<'static>, by, none_; nm::MinByInts<'static>, by, none_; nm::MaxByTimes<'static>, by, none_; }
    states { tk::state_aggregate::StateAgg<'static>, |b| {
        let s = b.head().count(8, 2);
        let n = b.count(8, 2); b.any(24 * n);
        let n = b.count(8, 2); b.any(32 * n + 24 + s).flag().flag();
    }, |r| r.0.compact_state_agg.durations.as_slice().len() + r.0.compact_state_agg.combined_durations.as_slice().len(); }
    pipelines { p::lambda::Lambda<'static>, lambda, |r| r.0.string.as_slice().len();
        p::Pipe, |b| { for _ in 0..b.count(8, 2) { match b.kind(8, &[1, 4, 5, 6, 7, 8, 9, 10, 11]) {
            1 => { b.any(8); } 6 | 7 => { b.any(4).zero(4); } 8 => { b.kind(8, &[1, 5, 12]); b.any(8); } 11 => { b.any(8).kind(8, &[0, 1, 2]); }
            9 | 10 => { lambda(b.head()); while b.0.len() % 8 > 0 { b.zero(1); } } _ => {} } } }, none_; }
}
fn range(b: &mut B) {
    b.any(80 + 64 + 24);
    let (p, l, r) = (b.kind(1, &[0, 1]), b.kind(1, &[0, 1]), b.kind(1, &[0, 1]));
    b.any(5);
    if p == 1 { b.any(8 * (l + r) as usize); }
}
