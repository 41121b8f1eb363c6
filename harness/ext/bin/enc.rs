// Integer encodings: whatever goes in comes out again.
use encodings::{delta, prefix_varint as pv, zigzag};

pub fn zig() {
    let v = sx::i64();
    sx::check(zigzag::decode(zigzag::encode(v)) == v, 1);
    let w = sx::u64();
    sx::check(zigzag::encode(zigzag::decode(w)) == w, 2);
    // small magnitudes get small codes
    let k = 1 + sx::choice(62) as u32;
    sx::assume(v.unsigned_abs() < 1 << k);
    sx::check(zigzag::encode(v) < 2 << k, 3);
}
pub fn diff() {
    let n = 1 + sx::choice(sx::param(0) as u64) as usize;
    let (mut e, mut d) = (delta::i64_encoder(), delta::i64_decoder());
    let (mut f, mut g) = (delta::u64_encoder(), delta::u64_decoder());
    for _ in 0..n {
        let (a, b) = (sx::i64(), sx::u64());
        sx::check(d(e(a)) == a, 1);
        sx::check(g(f(b)) == b, 2);
    }
}
/// the length of a code is that of the shortest of the documented forms
fn length(v: u64) -> usize { let mut n = 1; while n < 9 && (n == 8 && v >> 56 != 0 || n < 8 && v >> (7 * n) != 0) { n += 1; } n }
pub fn one() {
    let v = sx::u64();
    let mut b = vec![0xaa];
    pv::write_to_vec(&mut b, v);
    sx::check(b.len() == 1 + length(v), 1);
    sx::check(b[0] == 0xaa, 2);
    let n = b.len();
    // what follows does not matter
    for _ in 0..sx::choice(3) * 4 { b.push(sx::u8()); }
    let (w, l) = pv::read_from_slice(&b[1..]);
    sx::check(w == v, 3);
    sx::check(l == n - 1, 4);
    sx::check(pv::prefix_length(b[1]) as usize == n - 1, 5);
    sx::observe(w);
}
pub fn all() {
    let n = sx::choice(sx::param(0) as u64 + 1) as usize;
    let which = sx::choice(4);
    let v: Vec<u64> = (0..n).map(|_| sx::u64()).collect();
    let i: Vec<i64> = v.iter().map(|x| *x as i64).collect();
    let mut b = vec![];
    match which {
        0 => { let mut c = pv::U64Compressor::with(delta::u64_encoder()); for x in &v { c.push(*x); } b = c.finish() }
        1 => { let mut c = pv::I64Compressor::with(delta::i64_encoder()); for x in &i { c.push(*x); } b = c.finish() }
        2 => pv::compress_u64s_to_vec(&mut b, v.iter().copied()),
        _ => pv::compress_i64s_to_vec(&mut b, i.iter().copied()),
    }
    sx::check((b.len() >= n) & (b.len() <= 9 * n), 1);
    let r: Vec<u64> = match which {
        0 => pv::u64_decompressor(&b).map(delta::u64_decoder()).collect(),
        1 => pv::i64_decompressor(&b).map(delta::i64_decoder()).map(|x| x as u64).collect(),
        2 => pv::u64_decompressor(&b).collect(),
        _ => pv::i64_decompressor(&b).map(|x| x as u64).collect(),
    };
    sx::cover(1 + which as u32);
    sx::check(r.len() == n, 2);
    for (x, y) in r.iter().zip(&v) { sx::check(x == y, 3); }
}
