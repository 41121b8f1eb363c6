// n-most aggregates: the n largest or smallest inputs, in order, however they arrive and however they are split.
use crate::u::*;
use timescaledb_toolkit::nmost::verif::*;

fn no_more(r: usize, n: usize, cap: usize, id: u32) { sx::check(r == n.min(cap), id); }
/// `r` is what the `cap` best of `v` are, in order: the i-th has at most i better inputs and more than i at least as good.
fn check_order<T: PartialOrd + Copy>(r: &[T], v: &[T], cap: usize, max: bool, id: u32) {
    no_more(r.len(), v.len(), cap, id);
    for (i, x) in r.iter().enumerate() {
        let (mut better, mut good) = (0usize, 0usize);
        for y in v { better += if max { *y > *x } else { *y < *x } as usize; good += if max { *y >= *x } else { *y <= *x } as usize; }
        sx::check((better <= i) & (good > i), id + 1);
    }
}
fn float() -> f64 { sx::ordered() }
fn int() -> i64 { sx::i64() }
macro_rules! plain {
    ($seq:ident, $split:ident, $two:ident, $in:ident, $arg:expr, $ret:expr, $max:expr, $trans:ident, $rollup:ident, $combine:ident, $ser:ident, $de:ident, $fin:ident, $arr:ident, $values:ident) => {
        /// one pass over up to n inputs; every reading of the result; another input after it
        pub fn $seq() {
            let n = 1 + sx::choice(sx::param(0) as u64) as usize;
            let cap = 1 + sx::choice(sx::param(1) as u64) as usize;
            let v: Vec<_> = (0..n).map(|_| $in()).collect();
            let mut s = none();
            for x in &v { s = state($trans(s, $arg(*x), cap as i64, FC)); }
            let r: Vec<_> = $values(stored($fin(s).unwrap())).map($ret).collect();
            sx::cover(if n > cap { 2 } else { 1 });
            check_order(&r, &v, cap, $max, 1);
            sx::check($fin(none()).is_none(), 3);
        }
        /// two partial states (the second through bytes), combined
        pub fn $split() {
            let n = sx::choice(sx::param(0) as u64 + 1) as usize;
            let k = sx::choice(n as u64 + 1) as usize;
            let cap = 1 + sx::choice(sx::param(1) as u64) as usize;
            let v: Vec<_> = (0..n).map(|_| $in()).collect();
            let (mut a, mut b) = (none(), none());
            for x in &v[..k] { a = state($trans(a, $arg(*x), cap as i64, FC)); }
            for x in &v[k..] { b = state($trans(b, $arg(*x), cap as i64, FC)); }
            if k < n { b = state($de($ser(b), none())); }
            sx::cover(if k == 0 { 1 } else if k == n { 2 } else { 3 });
            let c = $combine(a, b, FC);
            if n == 0 { sx::check(c.is_none(), 3); return; }
            let r: Vec<_> = $arr($fin(state(c)).unwrap()).into_iter().map($ret).collect();
            check_order(&r, &v, cap, $max, 1);
        }
        /// two or three finished aggregates, rolled up
        pub fn $two() {
            let n = 2 + sx::choice(sx::param(0) as u64 - 1) as usize;
            let k = 1 + sx::choice(n as u64 - 1) as usize;
            let j = k + if n > k + 1 { 1 + sx::choice((n - k) as u64) as usize } else { n - k };
            let cap = 1 + sx::choice(sx::param(1) as u64) as usize;
            let v: Vec<_> = (0..n).map(|_| $in()).collect();
            let mut acc = none();
            for part in [&v[..k], &v[k..j], &v[j..]] {
                if part.is_empty() { continue; }
                let mut a = none();
                for x in part { a = state($trans(a, $arg(*x), cap as i64, FC)); }
                acc = state($rollup(acc, stored($fin(a).unwrap()), FC));
            }
            let r: Vec<_> = $arr($fin(acc).unwrap()).into_iter().map($ret).collect();
            sx::cover(if j < n { 2 } else { 1 });
            check_order(&r, &v, cap, $max, 1);
        }
    };
}
fn id<T>(x: T) -> T { x }
plain!(float_max, float_max_combine, float_max_rollup, float, id, id, true, max_n_float_trans, max_n_float_rollup_trans, max_n_float_combine, max_n_float_serialize, max_n_float_deserialize, max_n_float_final, max_n_float_to_array, max_n_float_to_values);
plain!(float_min, float_min_combine, float_min_rollup, float, id, id, false, min_n_float_trans, min_n_float_rollup_trans, min_n_float_combine, min_n_float_serialize, min_n_float_deserialize, min_n_float_final, min_n_float_to_array, min_n_float_to_values);
plain!(int_max, int_max_combine, int_max_rollup, int, id, id, true, max_n_int_trans, max_n_int_rollup_trans, max_n_int_combine, max_n_int_serialize, max_n_int_deserialize, max_n_int_final, max_n_int_to_array, max_n_int_to_values);
plain!(int_min, int_min_combine, int_min_rollup, int, id, id, false, min_n_int_trans, min_n_int_rollup_trans, min_n_int_combine, min_n_int_serialize, min_n_int_deserialize, min_n_int_final, min_n_int_to_array, min_n_int_to_values);
plain!(time_max, time_max_combine, time_max_rollup, int, ts, unts, true, max_n_time_trans, max_n_time_rollup_trans, max_n_time_combine, max_n_time_serialize, max_n_time_deserialize, max_n_time_final, max_n_time_to_array, max_n_time_to_values);
plain!(time_min, time_min_combine, time_min_rollup, int, ts, unts, false, min_n_time_trans, min_n_time_rollup_trans, min_n_time_combine, min_n_time_serialize, min_n_time_deserialize, min_n_time_final, min_n_time_to_array, min_n_time_to_values);

/// what is attached to the values: bigints, or texts (with headers of one byte or four), or values of 12 bytes passed by reference; the
/// first byte tells them apart, the others are anything
struct Attach { kind: usize, bytes: Vec<Vec<u8>> }
impl Attach {
    fn new() -> Attach {
        let kind = sx::param(2);
        if kind == 1 { unsafe { crate::shims::ARGTYPE = pg_sys::TEXTOID; } }
        if kind == 2 { unsafe { crate::shims::ARGTYPE = pg_sys::UUIDOID; } }
        let bytes = (0..if kind > 0 { 5 } else { 0 }).map(|i| (0..[0, [4, 1, 5, 8, 2][i], 12][kind]).map(|j| if j == 0 { i as u8 + 100 } else { sx::u8() }).collect()).collect();
        Attach { kind, bytes }
    }
    fn elem(&self, i: usize) -> AnyElement {
        if self.kind == 0 { return elem(i as i64 + 100); }
        let b = &self.bytes[i];
        // short values come with a header of one byte, which may lie anywhere
        let (mut m, skip) = match (self.kind, i % 2) { (2, _) => (vec![], 0), (_, 0) => (((b.len() as u32 + 4) << 2).to_ne_bytes().to_vec(), 0), _ => (vec![0, ((b.len() as u8 + 1) << 1) | 1], 1) };
        m.extend_from_slice(b);
        let at = m.leak().as_ptr() as usize + skip;
        unsafe { AnyElement::from_polymorphic_datum(pg_sys::Datum::from(at), false, if self.kind == 1 { pg_sys::TEXTOID } else { pg_sys::UUIDOID }).unwrap() }
    }
    fn unelem(&self, e: &AnyElement) -> i64 {
        if self.kind == 0 { return unelem(e); }
        let p = e.datum().value() as *const u8;
        unsafe {
            let (p, n) = if self.kind == 2 { (p, 12) } else if *p & 1 == 1 { (p.add(1), (*p >> 1) as usize - 1) } else { (p.add(4), (*(p as *const u32) >> 2) as usize - 4) };
            let b = &self.bytes[(*p as usize).wrapping_sub(100)];
            sx::check(n == b.len(), 6);
            if n == b.len() { let mut same = true; for i in 0..n { same &= *p.add(i) == b[i]; } sx::check(same, 7); }
            *p as i64
        }
    }
}
macro_rules! by {
    ($seq:ident, $two:ident, $in:ident, $arg:expr, $ret:expr, $max:expr, $trans:ident, $rollup:ident, $fin:ident, $values:ident) => {
        pub fn $seq() {
            let n = 1 + sx::choice(sx::param(0) as u64) as usize;
            let cap = 1 + sx::choice(sx::param(1) as u64) as usize;
            let v: Vec<_> = (0..n).map(|_| $in()).collect();
            let mut s = none();
            let d = Attach::new();
            for (i, x) in v.iter().enumerate() { s = state($trans(s, $arg(*x), d.elem(i), cap as i64, FC)); }
            let r: Vec<_> = $values(Some(stored($fin(s).unwrap())), None, fcinfo()).map(|(x, e)| ($ret(x), d.unelem(&e))).collect();
            sx::cover(if n > cap { 2 } else { 1 });
            check_by(&r, &v, cap, $max);
            sx::check($fin(none()).is_none(), 3);
        }
        pub fn $two() {
            let n = 2 + sx::choice(sx::param(0) as u64 - 1) as usize;
            let k = 1 + sx::choice(n as u64 - 1) as usize;
            let cap = 1 + sx::choice(sx::param(1) as u64) as usize;
            let v: Vec<_> = (0..n).map(|_| $in()).collect();
            let mut acc = none();
            let d = Attach::new();
            for (lo, hi) in [(0, k), (k, n)] {
                let mut a = none();
                for i in lo..hi { a = state($trans(a, $arg(v[i]), d.elem(i), cap as i64, FC)); }
                acc = state($rollup(acc, stored($fin(a).unwrap()), FC));
            }
            let r: Vec<_> = $values(Some(stored($fin(acc).unwrap())), None, fcinfo()).map(|(x, e)| ($ret(x), d.unelem(&e))).collect();
            sx::cover(1);
            check_by(&r, &v, cap, $max);
        }
    };
}
/// as `check_order`, and every value carries the payload it came with, none twice
fn check_by<T: PartialOrd + Copy>(r: &[(T, i64)], v: &[T], cap: usize, max: bool) {
    let only: Vec<T> = r.iter().map(|x| x.0).collect();
    check_order(&only, v, cap, max, 1);
    for (i, (x, d)) in r.iter().enumerate() {
        let d = (*d - 100) as usize;
        sx::check(d < v.len() && v[d] == *x, 4);
        for (_, e) in &r[..i] { sx::check(*e != d as i64 + 100, 5); }
    }
}
by!(by_float_max, by_float_max_rollup, float, id, id, true, max_n_by_float_trans, max_n_by_float_rollup_trans, max_n_by_float_final, max_n_by_float_to_values);
by!(by_float_min, by_float_min_rollup, float, id, id, false, min_n_by_float_trans, min_n_by_float_rollup_trans, min_n_by_float_final, min_n_by_float_to_values);
by!(by_int_max, by_int_max_rollup, int, id, id, true, max_n_by_int_trans, max_n_by_int_rollup_trans, max_n_by_int_final, max_n_by_int_to_values);
by!(by_int_min, by_int_min_rollup, int, id, id, false, min_n_by_int_trans, min_n_by_int_rollup_trans, min_n_by_int_final, min_n_by_int_to_values);
by!(by_time_max, by_time_max_rollup, int, ts, unts, true, max_n_by_time_trans, max_n_by_time_rollup_trans, max_n_by_time_final, max_n_by_time_to_values);
by!(by_time_min, by_time_min_rollup, int, ts, unts, false, min_n_by_time_trans, min_n_by_time_rollup_trans, min_n_by_time_final, min_n_by_time_to_values);
