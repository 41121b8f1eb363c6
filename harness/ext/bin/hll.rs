// HyperLogLog: the sketch is a function of the set of hashes alone, in the sparse and in the dense form.
// A value stands for its hash, so that the hashes are what is explored.
use crate::u::*;
use hyperloglogplusplus::{dense, sparse};
use timescaledb_toolkit::{accessors as acc, hyperloglog::{self as h, HyperLogLog}, verif::palloc::{InternalAsValue, ToInternal}};

/// what the register of a hash's first p bits is at least
fn rank(h: u64, p: u32) -> u8 { ((h << p) | (1 << (p - 1))).leading_zeros() as u8 + 1 }
/// a hash with its register among a few and its first other bit among some around the borders of the forms, `w` of the bits after that open
fn hash(p: u32, w: u32) -> u64 {
    let f = sx::param(3) as u64;
    let reg = [0, (1 << p) - 1, 1][sx::choice(if f > 3 { 3 } else { 2 }) as usize];
    let first = [38, 39, 63 - p, 64, 40, 3][sx::choice(f) as usize];
    let low = if w > 0 { sx::bits(w) } else { 0 };
    reg << (64 - p) | if first == 64 { 0 } else { 1 << first | if w > 0 { low << (first - w) } else { 0 } }
}
fn hashes(n: usize, p: u32) -> Vec<u64> { let w = sx::param(2) as u32; (0..n).map(|_| if w > 8 { sx::u64() } else { hash(p, w) }).collect() }
fn registers(r: &[u8], v: &[u64], p: u32, id: u32) {
    sx::check(r.len() == 1 << p, id);
    let mut same = true;
    for (i, r) in r.iter().enumerate() {
        let mut m = 0;
        for h in v { let k = rank(*h, p); m = if (h >> (64 - p) == i as u64) & (k > m) { k } else { m }; }
        same &= *r == m;
    }
    sx::check(same, id + 1);
}
/// of hashes that agree in 25 bits only one counts
fn distinct(v: &[u64]) -> u64 { let mut n = 0; for i in 0..v.len() { let mut new = true; for j in 0..i { new &= v[i] >> 39 != v[j] >> 39; } n += new as u64; } n }
fn dense_of(s: &sparse::Storage) -> Vec<u8> { s.immutable_to_dense().registers.iter().collect() }
/// both forms, filled hash by hash
pub fn forms() {
    let (p, n) = (sx::param(0) as u32, sx::param(1));
    let v = hashes(n, p);
    let (mut s, mut d) = (sparse::Storage::new(p as u8), dense::Storage::new(p as u8));
    for h in &v { s.add_hash(*h); d.add_hash(*h); }
    let all: Vec<u8> = d.registers.iter().collect();
    registers(&all, &v, p, 1);
    s.merge_buffers();
    sx::check(s.num_compressed == distinct(&v), 3);
    sx::cover(1);
    registers(&dense_of(&s), &v, p, 4);
    // read back from its bytes
    let t = sparse::Storage::from_parts(s.compressed.bytes(), s.num_compressed, p as u8);
    registers(&dense_of(&t), &v, p, 6);
    registers(&dense::Storage::from_parts(d.registers.bytes(), p as u8).registers.iter().collect::<Vec<u8>>(), &v, p, 8);
}
/// two sets put together, each in either form
pub fn merge() {
    let (p, n) = (sx::param(0) as u32, sx::param(1));
    let k = sx::choice(n as u64 + 1) as usize;
    let v = hashes(n, p);
    let kind = sx::choice(4);
    let (mut s, mut d, mut t, mut e) = (sparse::Storage::new(p as u8), dense::Storage::new(p as u8), sparse::Storage::new(p as u8), dense::Storage::new(p as u8));
    for h in &v[..k] { if kind & 1 == 0 { s.add_hash(*h); } else { d.add_hash(*h); } }
    for h in &v[k..] { if kind & 2 == 0 { t.add_hash(*h); } else { e.add_hash(*h); } }
    t.merge_buffers();
    type L<'a> = hyperloglogplusplus::HyperLogLog<'a, u64, std::hash::BuildHasherDefault<Id>>;
    let id = || Default::default();
    let (a, b) = (s.clone(), t.clone());
    // the receiver read from its bytes, or with its last hashes still in the buffer
    let fresh = sx::choice(2) == 1;
    let (mut a, b): (L, L) = {
        let mut a = a; a.merge_buffers();
        (if fresh { let mut l = L::new(p as u8, id()); if kind & 1 == 1 { l = L::from_dense_parts(dense::Storage::new(p as u8).registers.bytes().to_vec().leak(), p as u8, id()); } for h in &v[..k] { l.add(h); } l }
         else if kind & 1 == 0 { L::from_sparse_parts(a.compressed.bytes().to_vec().leak(), a.num_compressed, p as u8, id()) } else { L::from_dense_parts(d.registers.bytes().to_vec().leak(), p as u8, id()) },
         if kind & 2 == 0 { L::from_sparse_parts(b.compressed.bytes().to_vec().leak(), b.num_compressed, p as u8, id()) } else { L::from_dense_parts(e.registers.bytes().to_vec().leak(), p as u8, id()) })
    };
    a.merge_in(&b);
    sx::cover(1 + kind as u32);
    parts(&mut a, &v, p, 1);
    // the other one is left as it was
    let mut b = b;
    parts(&mut b, &v[k..], p, 11);
}
fn parts<B>(a: &mut hyperloglogplusplus::HyperLogLog<'static, u64, B>, v: &[u64], p: u32, id: u32) {
    match a.to_parts() {
        hyperloglogplusplus::HyperLogLogStorage::Sparse(s) => { sx::check((s.num_compressed == distinct(v)) & (s.precision as u32 == p), id); registers(&dense_of(s), v, p, id + 1); }
        hyperloglogplusplus::HyperLogLogStorage::Dense(d) => { registers(&d.registers.iter().collect::<Vec<u8>>(), v, p, id + 3); sx::check(d.precision as u32 == p, id); }
    }
}
#[derive(Default)] pub struct Id(u64);
impl std::hash::Hasher for Id { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) {} fn write_u64(&mut self, x: u64) { self.0 = x; } }

fn add(q: Internal, size: i32, x: Option<u64>) -> Internal {
    state(h::hyperloglog_trans_inner(unsafe { q.to_inner() }, size, x.map(|x| raw::AnyElement(pg_sys::Datum::from(x as usize))), fcinfo(), pg_sys::INT8OID).and_then(|x| Some(x).internal()))
}
fn finish(q: &Internal) -> Option<HyperLogLog<'static>> { h::verif::hyperloglog_final(again(q), FC).map(stored) }
fn floor(x: f64) -> i64 { x as i64 }
/// the sketch of these hashes, whatever way it came about
fn is(r: &HyperLogLog<'static>, v: &[u64], p: u32, id: u32) {
    type L<'a> = hyperloglogplusplus::HyperLogLog<'a, u64, ()>;
    let n = h::hyperloglog_count(r.clone());
    sx::check(n == h::arrow_hyperloglog_count(r.clone(), stored(acc::verif::accessor_distinct_count())), id);
    let e = 1.04 / ((1u64 << p) as f64).sqrt();
    sx::check((h::hyperloglog_error(r.clone()) == e) & (h::arrow_hyperloglog_error(r.clone(), stored(acc::verif::accessor_stderror())) == e), id + 1);
    match h::verif::parts(r) {
        Ok((bytes, num, prec)) => {
            sx::cover(id * 100);
            sx::check((prec as u32 == p) & (num == distinct(v)), id + 2);
            registers(&dense_of(&sparse::Storage::from_parts(bytes, num, prec)), v, p, id + 3);
            sx::check(n == num as i64, id + 5);
        }
        Err((bytes, prec)) => {
            sx::cover(id * 100 + 1);
            sx::check(prec as u32 == p, id + 2);
            registers(&dense::Storage::from_parts(bytes, prec).registers.iter().collect::<Vec<u8>>(), v, p, id + 3);
            // while few registers are in use their number tells
            let mut used = 0u64;
            for i in 0..v.len() { let mut new = true; for j in 0..i { new &= v[i] >> (64 - p) != v[j] >> (64 - p); } used += new as u64; }
            let used = sx::concretize(used);
            let m = (1u64 << p) as f64;
            sx::check(n == floor(m * (m / (m - used as f64)).ln()), id + 5);
        }
    }
}
/// values and nulls given to the aggregate one after the other, in two parts, through bytes, or as sketches rolled up
pub fn sql() {
    unsafe { crate::shims::TELL = true; }
    let (p, n) = (sx::param(0) as u32, sx::param(1));
    let size = (1 << p) - sx::choice(2) as i32;
    let k = sx::choice(n as u64 + 1) as usize;
    let v = hashes(n, p);
    let part = |v: &[u64]| { let mut q = none(); for x in v { q = add(q, size, None); q = add(q, size, Some(*x)); } q };
    let (mut a, mut b) = (part(&v[..k]), part(&v[k..]));
    let how = sx::choice(3);
    let r = match how {
        0 => { for x in &v[k..] { a = add(a, size, Some(*x)); } a }
        1 => {
            let bytes = |q: Internal| if finish(&q).is_none() { q } else { state(h::hyperloglog_deserialize(h::hyperloglog_serialize(q), none())) };
            a = bytes(a);
            b = bytes(b);
            let r = state(h::hyperloglog_combine(again(&a), again(&b), FC));
            if let Some(r) = finish(&a) { is(&r, &v[..k], p, 11); }
            if let Some(r) = finish(&b) { is(&r, &v[k..], p, 21); }
            r
        }
        _ => { let mut r = state(h::hyperloglog_union(none(), None, FC)); for q in [&a, &b] { r = state(h::hyperloglog_union(r, finish(q), FC)); } r }
    };
    sx::cover(1 + how as u32);
    is(&finish(&r).unwrap(), &v, p, 1);
    is(&finish(&r).unwrap(), &v, p, 1);
}
/// any size asked for
pub fn size() {
    unsafe { crate::shims::TELL = true; }
    // the message would name the size
    let bad = [i32::MIN, -16, -1, 0, 1, 2, 7, 8, (1 << 18) + 1, 1 << 20, (1 << 30) + 1, i32::MAX];
    let k = sx::choice(bad.len() as u64 + 1) as usize;
    let s = if k < bad.len() { sx::panic_ok(1); bad[k] } else { sx::range(9, 1 << 18) as i32 };
    let q = add(none(), s, Some(1 << 63));
    sx::check((s > 8) & (s <= 1 << 18), 1);
    sx::panic_ok(0);
    let p = (32 - (s as u32 - 1).leading_zeros()) as u32;
    sx::cover(1);
    let r = finish(&q).unwrap();
    let e = h::hyperloglog_error(r.clone());
    sx::check(e == 1.04 / ((1u64 << sx::concretize(p as u64)) as f64).sqrt(), 2);
    sx::check(h::hyperloglog_count(r) == 1, 3);
    let mut q = none();
    for x in [None, Some(1 << 63), Some(1 << 62), Some(1 << 63), None] { q = state(h::approx_count_distinct_trans(q, x.map(|x: u64| raw::AnyElement(pg_sys::Datum::from(x as usize))), fcinfo())); }
    let r = finish(&q).unwrap();
    sx::check((h::hyperloglog_count(r.clone()) == 2) & (h::hyperloglog_error(r) == 1.04 / 32768f64.sqrt()), 4);
}
/// the estimate when every register is in use: all of one rank but one, the bits after the first left open
pub fn many() {
    let p = 4 + sx::choice(sx::param(0) as u64) as u32;
    let (a, b) = (1 + sx::choice(12), 1 + sx::choice(12));
    let mut d = dense::Storage::new(p as u8);
    let low = sx::bits(8);
    let m = 1u64 << p;
    for r in 0..m { let k = if r == 2 { b } else { a }; d.add_hash(r << (64 - p) | (1 << (64 - p as u64 - k)) | low); }
    let alpha = match p { 4 => 0.673, 5 => 0.697, 6 => 0.709, _ => 0.7213 / (1.0 + 1.079 / m as f64) };
    let sum = (m - 1) as f64 / (1u64 << a) as f64 + 1.0 / (1u64 << b) as f64;
    let e = alpha * (m * m) as f64 / sum;
    let n = d.estimate_count() as f64;
    if e > 5.0 * m as f64 { sx::cover(1); sx::check((n - e).abs() <= 1.0 + e * 1e-12, 1); }
    else { sx::cover(2); sx::check((n <= 1.1 * e) & (n >= 0.5 * e), 2); }
}
/// sketches of different sizes or types are not put together; nothing gives nothing
pub fn mixed() {
    unsafe { crate::shims::TELL = true; }
    sx::check(finish(&none()).is_none(), 1);
    sx::check(h::hyperloglog_combine(none(), none(), FC).is_none(), 2);
    let n = sx::param(0);
    let make = |p: u32, t: pg_sys::Oid, n: u64| { let mut q = none(); for i in 0..n { q = state(h::hyperloglog_trans_inner(unsafe { q.to_inner() }, 1 << p, Some(raw::AnyElement(pg_sys::Datum::from((i << 60 | 1 << 37 | i << 30) as usize))), fcinfo(), t).and_then(|x| Some(x).internal())); } q };
    let pick = || (4 + sx::choice(2) as u32, if sx::choice(2) == 0 { pg_sys::INT8OID } else { pg_sys::FLOAT8OID }, 1 + 15 * sx::choice(2));
    let (x, y) = (pick(), pick());
    let (a, b) = (make(x.0, x.1, x.2), make(y.0, y.1, y.2));
    let _ = n;
    if (x.0, x.1) != (y.0, y.1) { sx::panic_ok(1); }
    let r = state(h::hyperloglog_union(none(), finish(&a), FC));
    let r = h::hyperloglog_union(r, finish(&b), FC);
    sx::check(r.is_some() & (x.0 == y.0) & (x.1 == y.1), 3);
    sx::panic_ok(0);
    sx::cover(2);
}
