//! Hash-consed terms over bit-vectors and IEEE floats, with simplification and concrete evaluation.
use crate::fx::HashMap;

pub type Tid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum P { Eq, Ult, Ule, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FB { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FU { Neg, Abs, Sqrt, Floor, Ceil, Trunc, RoundAway, RoundEven }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FP { Oeq, Olt, Ole, Uno }

/// `w` is always the width in bits of the term as a bit-vector; float terms have w = 32 or 64.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(B, Tid, Tid),
    Cmp(P, Tid, Tid),
    Not(Tid), // width 1
    Ite(Tid, Tid, Tid),
    ZExt(Tid),
    SExt(Tid),
    Extract(Tid, u32), // low bit
    Concat(Tid, Tid),  // hi, lo
    FBin(FB, Tid, Tid),
    FUn(FU, Tid),
    FCmp(FP, Tid, Tid),
    Fma(Tid, Tid, Tid),
    SToF(Tid),
    UToF(Tid),
    FToS(Tid), // truncating, in-range
    FToU(Tid),
    FToF(Tid),
    Uf(u32, Vec<Tid>),
}

pub struct Terms {
    pub nodes: Vec<N>,
    pub w: Vec<u32>,
    pub vars: Vec<u128x2>,
    umin: Vec<u128>,
    flags: Vec<u8>,
    umax: Vec<u128>,
    map: HashMap<(u32, N), Tid>,
    pub uf_names: Vec<String>,
    pub real: bool,
    // evaluation cache
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    gen: u32,
    pub uf_eval: Vec<Option<fn(&[u128]) -> u128>>,
}

#[allow(non_camel_case_types)]
#[derive(Clone, Copy, PartialEq, Eq, Default, Debug)]
pub struct u128x2(pub u128, pub u128);
impl u128x2 {
    pub fn bit(i: u32) -> Self {
        if i < 128 { u128x2(1 << i, 0) } else if i < 256 { u128x2(0, 1 << (i - 128)) } else { panic!("more than 256 inputs") }
    }
    pub fn or(self, o: Self) -> Self { u128x2(self.0 | o.0, self.1 | o.1) }
    pub fn hits(self, o: Self) -> bool { (self.0 & o.0) != 0 || (self.1 & o.1) != 0 }
    pub fn is_zero(self) -> bool { self.0 == 0 && self.1 == 0 }
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn c_bin(op: B, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => if b == 0 { m } else { a / b },
        B::URem => if b == 0 { a } else { a % b },
        B::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        B::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => if b >= w as u128 { 0 } else { a << b },
        B::LShr => if b >= w as u128 { 0 } else { a >> b },
        B::AShr => { let x = sext(a, w); (if b >= w as u128 { x >> 127 } else { x >> b }) as u128 }
    };
    r & m
}
pub fn c_cmp(p: P, w: u32, a: u128, b: u128) -> bool {
    match p {
        P::Eq => a == b,
        P::Ult => a < b,
        P::Ule => a <= b,
        P::Slt => sext(a, w) < sext(b, w),
        P::Sle => sext(a, w) <= sext(b, w),
    }
}
fn canon64(f: f64) -> u128 { if f.is_nan() { 0x7ff8000000000000 } else { f.to_bits() as u128 } }
fn canon32(f: f32) -> u128 { if f.is_nan() { 0x7fc00000 } else { f.to_bits() as u128 } }
fn f64_of(a: u128) -> f64 { f64::from_bits(a as u64) }
fn f32_of(a: u128) -> f32 { f32::from_bits(a as u32) }
pub fn c_fbin(op: FB, w: u32, a: u128, b: u128) -> u128 {
    if w == 64 {
        let (x, y) = (f64_of(a), f64_of(b));
        canon64(match op { FB::Add => x + y, FB::Sub => x - y, FB::Mul => x * y, FB::Div => x / y, FB::Rem => x % y })
    } else {
        let (x, y) = (f32_of(a), f32_of(b));
        canon32(match op { FB::Add => x + y, FB::Sub => x - y, FB::Mul => x * y, FB::Div => x / y, FB::Rem => x % y })
    }
}
pub fn c_fun(op: FU, w: u32, a: u128) -> u128 {
    if w == 64 {
        match op {
            FU::Neg => a ^ (1 << 63),
            FU::Abs => a & !(1 << 63),
            _ => { let x = f64_of(a); canon64(match op {
                FU::Sqrt => x.sqrt(), FU::Floor => x.floor(), FU::Ceil => x.ceil(), FU::Trunc => x.trunc(),
                FU::RoundAway => x.round(), FU::RoundEven => x.round_ties_even(), _ => unreachable!() }) }
        }
    } else {
        match op {
            FU::Neg => a ^ (1 << 31),
            FU::Abs => a & !(1 << 31),
            _ => { let x = f32_of(a); canon32(match op {
                FU::Sqrt => x.sqrt(), FU::Floor => x.floor(), FU::Ceil => x.ceil(), FU::Trunc => x.trunc(),
                FU::RoundAway => x.round(), FU::RoundEven => x.round_ties_even(), _ => unreachable!() }) }
        }
    }
}
pub fn c_fcmp(p: FP, w: u32, a: u128, b: u128) -> bool {
    let (x, y) = if w == 64 { (f64_of(a), f64_of(b)) } else { (f32_of(a) as f64, f32_of(b) as f64) };
    match p { FP::Oeq => x == y, FP::Olt => x < y, FP::Ole => x <= y, FP::Uno => x.is_nan() || y.is_nan() }
}
pub fn c_fma(w: u32, a: u128, b: u128, c: u128) -> u128 {
    if w == 64 { canon64(f64_of(a).mul_add(f64_of(b), f64_of(c))) } else { canon32(f32_of(a).mul_add(f32_of(b), f32_of(c))) }
}
pub fn c_stof(wi: u32, w: u32, a: u128) -> u128 {
    let v = sext(a, wi);
    if w == 64 { (v as f64).to_bits() as u128 } else { (v as f32).to_bits() as u128 }
}
pub fn c_utof(w: u32, a: u128) -> u128 {
    if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 }
}
pub fn c_ftos(wf: u32, w: u32, a: u128) -> u128 {
    let x = if wf == 64 { f64_of(a) } else { f32_of(a) as f64 };
    (x as i128 as u128) & mask(w)
}
pub fn c_ftou(wf: u32, w: u32, a: u128) -> u128 {
    let x = if wf == 64 { f64_of(a) } else { f32_of(a) as f64 };
    (x as u128) & mask(w)
}
pub fn c_ftof(wf: u32, w: u32, a: u128) -> u128 {
    if wf == w { return a; }
    if w == 64 { canon64(f32_of(a) as f64) } else { canon32(f64_of(a) as f32) }
}

impl Terms {
    pub fn new(real: bool) -> Self {
        Terms { nodes: vec![], w: vec![], vars: vec![], umin: vec![], flags: vec![], umax: vec![], map: HashMap::default(), uf_names: vec![], real,
            ev_gen: vec![], ev_val: vec![], gen: 0, uf_eval: vec![] }
    }
    pub fn umax(&self, t: Tid) -> u128 { self.umax[t as usize] }
    pub fn umin_of(&self, t: Tid) -> u128 { self.umin[t as usize] }
    pub fn has_float(&self, t: Tid) -> bool { self.flags[t as usize] & 1 != 0 }
    pub fn has_uf(&self, t: Tid) -> bool { self.flags[t as usize] & 2 != 0 }
    fn mk(&mut self, w: u32, n: N) -> Tid {
        if let Some(&t) = self.map.get(&(w, n.clone())) { return t; }
        let t = self.nodes.len() as Tid;
        let m = mask(w);
        let vs = {
            let v = |x: &Tid| self.vars[*x as usize];
            match &n {
                N::Const(_) => u128x2::default(),
                N::Var(i) => u128x2::bit(*i),
                N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) | N::FBin(_, a, b) | N::FCmp(_, a, b) => v(a).or(v(b)),
                N::Not(a) | N::ZExt(a) | N::SExt(a) | N::Extract(a, _) | N::FUn(_, a) | N::SToF(a) | N::UToF(a) | N::FToS(a) | N::FToU(a) | N::FToF(a) => v(a),
                N::Ite(a, b, c) | N::Fma(a, b, c) => v(a).or(v(b)).or(v(c)),
                N::Uf(_, xs) => xs.iter().fold(u128x2::default(), |s, x| s.or(v(x))),
            }
        };
        let (lo, hi) = {
            let r = |x: &Tid| (self.umin[*x as usize], self.umax[*x as usize]);
            match &n {
                N::Const(c) => (*c, *c),
                N::ZExt(a) => r(a),
                N::Concat(a, b) => { let wl = self.w[*b as usize]; let (al, ah) = r(a); let (bl, bh) = r(b); ((al << wl) | bl, (ah << wl) | bh) }
                N::Ite(_, a, b) => { let (al, ah) = r(a); let (bl, bh) = r(b); (al.min(bl), ah.max(bh)) }
                N::Bin(B::Add, a, b) => { let (al, ah) = r(a); let (bl, bh) = r(b); match ah.checked_add(bh) { Some(h) if h <= m => (al + bl, h), _ => (0, m) } }
                N::Bin(B::Mul, a, b) => { let (al, ah) = r(a); let (bl, bh) = r(b); match ah.checked_mul(bh) { Some(h) if h <= m => (al * bl, h), _ => (0, m) } }
                N::Bin(B::Sub, a, b) => { let (al, ah) = r(a); let (bl, bh) = r(b); if al >= bh { (al - bh, ah - bl) } else { (0, m) } }
                N::Bin(B::And, a, b) => (0, r(a).1.min(r(b).1)),
                N::Bin(B::Or, a, b) | N::Bin(B::Xor, a, b) => { let h = r(a).1 | r(b).1; let bits = 128 - h.leading_zeros(); let lo = if matches!(n, N::Bin(B::Or, _, _)) { r(a).0.max(r(b).0) } else { 0 }; (lo, mask(bits).min(m)) }
                N::Bin(B::URem, a, b) => { let (bl, bh) = r(b); if bl > 0 { (0, r(a).1.min(bh - 1)) } else { (0, m) } }
                N::Bin(B::UDiv, a, b) => { let (bl, bh) = r(b); if bl > 0 { (r(a).0 / bh, r(a).1 / bl) } else { (0, m) } }
                N::Bin(B::LShr, a, b) => { let (bl, bh) = r(b); (if bh < 128 { r(a).0 >> bh } else { 0 }, if bl < 128 { r(a).1 >> bl } else { 0 }) }
                N::Bin(B::Shl, a, b) => { let (bl, bh) = r(b); if bh < w as u128 && r(a).1.leading_zeros() as u128 >= bh && (r(a).1 << bh) <= m { (r(a).0 << bl, r(a).1 << bh) } else { (0, m) } }
                N::Extract(a, 0) => { let (al, ah) = r(a); if ah <= m { (al, ah) } else { (0, m) } }
                _ => (0, m),
            }
        };
        let fl = {
            let f = |x: &Tid| self.flags[*x as usize];
            match &n {
                N::Const(_) | N::Var(_) => 0,
                N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => f(a) | f(b),
                N::FBin(_, a, b) | N::FCmp(_, a, b) => f(a) | f(b) | 1,
                N::Not(a) | N::ZExt(a) | N::SExt(a) | N::Extract(a, _) => f(a),
                N::FUn(_, a) | N::SToF(a) | N::UToF(a) | N::FToS(a) | N::FToU(a) | N::FToF(a) => f(a) | 1,
                N::Ite(a, b, c) => f(a) | f(b) | f(c),
                N::Fma(a, b, c) => f(a) | f(b) | f(c) | 1,
                N::Uf(_, xs) => xs.iter().fold(3, |s, x| s | f(x)),
            }
        };
        self.flags.push(fl);
        self.nodes.push(n.clone());
        self.w.push(w);
        self.vars.push(vs);
        self.umin.push(lo);
        self.umax.push(hi);
        self.ev_gen.push(0);
        self.ev_val.push(0);
        self.map.insert((w, n), t);
        t
    }
    pub fn konst(&mut self, w: u32, v: u128) -> Tid { self.mk(w, N::Const(v & mask(w))) }
    pub fn var(&mut self, w: u32, i: u32) -> Tid { self.mk(w, N::Var(i)) }
    pub fn as_const(&self, t: Tid) -> Option<u128> {
        if let N::Const(c) = self.nodes[t as usize] { Some(c) } else { None }
    }
    fn n(&self, t: Tid) -> &N { &self.nodes[t as usize] }
    pub fn width(&self, t: Tid) -> u32 { self.w[t as usize] }

    pub fn bin(&mut self, op: B, mut a: Tid, mut b: Tid) -> Tid {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.konst(w, c_bin(op, w, x, y)); }
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
        let cb = self.as_const(b);
        let ca = self.as_const(a);
        let m = mask(w);
        if let Some(y) = cb {
            match op {
                B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if y == 0 => return a,
                B::Mul if y == 0 => return b,
                B::Mul | B::UDiv | B::SDiv if y == 1 => return a,
                B::URem if y == 1 => return self.konst(w, 0),
                B::And if y == 0 => return b,
                B::And if y == m => return a,
                B::Or if y == m => return b,
                B::Shl | B::LShr if y >= w as u128 => return self.konst(w, 0),
                _ => {}
            }
            if w == 1 {
                match op {
                    B::Xor if y == 1 => return self.not(a),
                    _ => {}
                }
            }
            // power-of-two division / remainder / multiplication
            if y.is_power_of_two() {
                let k = y.trailing_zeros() as u128;
                match op {
                    B::UDiv => { let s = self.konst(w, k); return self.bin(B::LShr, a, s); }
                    B::URem => { let s = self.konst(w, y - 1); return self.bin(B::And, a, s); }
                    B::Mul => { let s = self.konst(w, k); return self.bin(B::Shl, a, s); }
                    _ => {}
                }
            }
            match op {
                B::Sub => { let nb = self.konst(w, y.wrapping_neg()); return self.bin(B::Add, a, nb); }
                B::Add => {
                    if let N::Bin(B::Add, x, c) = *self.n(a) {
                        if let Some(cv) = self.as_const(c) {
                            let s = self.konst(w, cv.wrapping_add(y));
                            return self.bin(B::Add, x, s);
                        }
                    }
                }
                B::And => {
                    // mask of low bits covering the whole range
                    if (y + 1).is_power_of_two() || y == u128::MAX {
                        if self.umax[a as usize] <= y { return a; }
                        let k = 128 - y.leading_zeros();
                        if k < w { let e = self.extract(a, 0, k); return self.zext(e, w); }
                    }
                    if let N::Bin(B::And, x, c) = *self.n(a) {
                        if let Some(cv) = self.as_const(c) { let s = self.konst(w, cv & y); return self.bin(B::And, x, s); }
                    }
                }
                B::LShr => {
                    let k = y as u32;
                    if self.umax[a as usize] >> k == 0 { return self.konst(w, 0); }
                    if let N::Bin(B::LShr, x, c) = *self.n(a) {
                        if let Some(cv) = self.as_const(c) { let s = self.konst(w, (cv + y).min(w as u128)); return self.bin(B::LShr, x, s); }
                    }
                    if let N::ZExt(x) = *self.n(a) {
                        let wx = self.width(x);
                        if k < wx { let e = self.extract(x, k, wx - k); return self.zext(e, w); }
                    }
                    let e = self.extract(a, k, w - k);
                    return self.zext(e, w);
                }
                B::Shl => {
                    if let N::Bin(B::Shl, x, c) = *self.n(a) {
                        if let Some(cv) = self.as_const(c) { let s = self.konst(w, (cv + y).min(w as u128)); return self.bin(B::Shl, x, s); }
                    }
                    let k = y as u32;
                    let e = self.extract(a, 0, w - k);
                    let z = self.konst(k, 0);
                    return self.concat(e, z);
                }
                B::Or | B::Xor => {
                    if let N::Bin(o2, x, c) = *self.n(a) {
                        if o2 == op { if let Some(cv) = self.as_const(c) { let s = self.konst(w, if op == B::Or { cv | y } else { cv ^ y }); return self.bin(op, x, s); } }
                    }
                }
                _ => {}
            }
        }
        if let Some(x) = ca {
            match op {
                B::Sub if false => {}
                B::Shl | B::LShr | B::UDiv | B::URem | B::SDiv | B::SRem if x == 0 && matches!(op, B::Shl | B::LShr) => return a,
                _ => {}
            }
        }
        if a == b {
            match op {
                B::Sub | B::Xor => return self.konst(w, 0),
                B::And | B::Or => return a,
                _ => {}
            }
        }
        if op == B::Sub {
            if let N::Bin(B::Add, x, y) = *self.n(a) {
                if x == b { return y; }
                if y == b { return x; }
                // (x + c) - b -> (x - b) + c
                if let Some(c) = self.as_const(y) { let d = self.bin(B::Sub, x, b); let k = self.konst(w, c); return self.bin(B::Add, d, k); }
            }
            if let N::Bin(B::Add, x, y) = *self.n(b) {
                if let Some(c) = self.as_const(y) { let d = self.bin(B::Sub, a, x); let k = self.konst(w, c.wrapping_neg()); return self.bin(B::Add, d, k); }
            }
        }
        if op == B::Add {
            if let N::Bin(B::Sub, x, y) = *self.n(a) { if y == b { return x; } }
            if let N::Bin(B::Sub, x, y) = *self.n(b) { if y == a { return x; } }
            // float constants outwards: (x + c) + b -> (x + b) + c
            if let N::Bin(B::Add, x, y) = *self.n(a) {
                if let Some(c) = self.as_const(y) { let d = self.bin(B::Add, x, b); let k = self.konst(w, c); return self.bin(B::Add, d, k); }
            }
            if let N::Bin(B::Add, x, y) = *self.n(b) {
                if let Some(c) = self.as_const(y) { let d = self.bin(B::Add, a, x); let k = self.konst(w, c); return self.bin(B::Add, d, k); }
            }
        }
        if matches!(op, B::Or | B::Xor | B::Add) {
            // disjoint concat shapes: concat(x, 0) | zext(y)  ->  concat(x, y)
            for (p, q) in [(a, b), (b, a)] {
                if let N::Concat(h, l) = *self.n(p) {
                    if self.as_const(l) == Some(0) {
                        let wl = self.width(l);
                        if self.umax[q as usize] <= mask(wl) {
                            let lo = self.extract(q, 0, wl);
                            return self.concat(h, lo);
                        }
                    }
                }
            }
        }
        if w == 1 {
            match op {
                B::Or | B::And => {
                    // complementary operands
                    if let N::Not(x) = *self.n(a) { if x == b { return self.konst(1, if op == B::Or { 1 } else { 0 }); } }
                    if let N::Not(x) = *self.n(b) { if x == a { return self.konst(1, if op == B::Or { 1 } else { 0 }); } }
                }
                B::Add => return self.bin(B::Xor, a, b),
                B::Mul => return self.bin(B::And, a, b),
                _ => {}
            }
        }
        self.mk(w, N::Bin(op, a, b))
    }
    pub fn not(&mut self, a: Tid) -> Tid {
        debug_assert_eq!(self.width(a), 1);
        match *self.n(a) {
            N::Const(c) => self.konst(1, c ^ 1),
            N::Not(x) => x,
            N::Cmp(P::Ult, x, y) => self.cmp(P::Ule, y, x),
            N::Cmp(P::Ule, x, y) => self.cmp(P::Ult, y, x),
            N::Cmp(P::Slt, x, y) => self.cmp(P::Sle, y, x),
            N::Cmp(P::Sle, x, y) => self.cmp(P::Slt, y, x),
            _ => self.mk(1, N::Not(a)),
        }
    }
    pub fn cmp(&mut self, p: P, a: Tid, b: Tid) -> Tid {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b), "cmp widths");
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.konst(1, c_cmp(p, w, x, y) as u128); }
        if a == b { return self.konst(1, matches!(p, P::Eq | P::Ule | P::Sle) as u128); }
        let (al, ah, bl, bh) = (self.umin[a as usize], self.umax[a as usize], self.umin[b as usize], self.umax[b as usize]);
        match p {
            P::Eq => { if ah < bl || bh < al { return self.konst(1, 0); } }
            P::Ult => { if ah < bl { return self.konst(1, 1); } if al >= bh { return self.konst(1, 0); } }
            P::Ule => { if ah <= bl { return self.konst(1, 1); } if al > bh { return self.konst(1, 0); } }
            P::Slt | P::Sle => {
                let half = 1u128 << (w - 1);
                if ah < half && bh < half { return self.cmp(if p == P::Slt { P::Ult } else { P::Ule }, a, b); }
                if ah < half && bl >= half { return self.konst(1, 0); }
                if al >= half && bh < half { return self.konst(1, 1); }
            }
        }
        if p == P::Eq {
            let (a, b) = if ca.is_some() { (b, a) } else { (a, b) };
            if w == 1 {
                if let Some(y) = self.as_const(b) { return if y == 1 { a } else { self.not(a) }; }
                let x = self.bin(B::Xor, a, b);
                return self.not(x);
            }
            if let Some(y) = self.as_const(b) {
                match *self.n(a) {
                    N::ZExt(x) => { let wx = self.width(x); if y > mask(wx) { return self.konst(1, 0); } let k = self.konst(wx, y); return self.cmp(P::Eq, x, k); }
                    N::SExt(x) => { let wx = self.width(x); let t = y & mask(wx); if (sext(t, wx) as u128) & mask(w) != y { return self.konst(1, 0); } let k = self.konst(wx, t); return self.cmp(P::Eq, x, k); }
                    N::Ite(c, x, z) => {
                        let (cx, cz) = (self.as_const(x), self.as_const(z));
                        if let (Some(x), Some(z)) = (cx, cz) {
                            return match (x == y, z == y) { (true, true) => self.konst(1, 1), (true, false) => c, (false, true) => self.not(c), _ => self.konst(1, 0) };
                        }
                        if let Some(x) = cx { if x != y { let nc = self.not(c); let k = self.konst(w, y); let e = self.cmp(P::Eq, z, k); return self.bin(B::And, nc, e); } }
                        if let Some(zc) = cz { if zc != y { let k = self.konst(w, y); let e = self.cmp(P::Eq, x, k); return self.bin(B::And, c, e); } }
                    }
                    N::Bin(B::Add, x, c) => if let Some(cv) = self.as_const(c) { let k = self.konst(w, y.wrapping_sub(cv)); return self.cmp(P::Eq, x, k); },
                    N::Bin(B::Xor, x, c) => if let Some(cv) = self.as_const(c) { let k = self.konst(w, y ^ cv); return self.cmp(P::Eq, x, k); },
                    N::Bin(B::Sub, x, z) if y == 0 => return self.cmp(P::Eq, x, z),
                    N::Bin(B::Xor, x, z) if y == 0 => return self.cmp(P::Eq, x, z),
                    N::Concat(h, l) => {
                        let wl = self.width(l); let wh = self.width(h);
                        let (kh, kl) = (self.konst(wh, y >> wl), self.konst(wl, y & mask(wl)));
                        let e1 = self.cmp(P::Eq, h, kh); let e2 = self.cmp(P::Eq, l, kl);
                        return self.bin(B::And, e1, e2);
                    }
                    N::Bin(B::Or, x, z) if y == 0 => {
                        let k = self.konst(w, 0);
                        let e1 = self.cmp(P::Eq, x, k); let e2 = self.cmp(P::Eq, z, k);
                        return self.bin(B::And, e1, e2);
                    }
                    _ => {}
                }
            } else {
                // zext == zext
                if let (N::ZExt(x), N::ZExt(y)) = (self.n(a).clone(), self.n(b).clone()) {
                    if self.width(x) == self.width(y) { return self.cmp(P::Eq, x, y); }
                }
                if let (N::SExt(x), N::SExt(y)) = (self.n(a).clone(), self.n(b).clone()) {
                    if self.width(x) == self.width(y) { return self.cmp(P::Eq, x, y); }
                }
                if let (N::Bin(B::Add, x, c), N::Bin(B::Add, y, d)) = (self.n(a).clone(), self.n(b).clone()) {
                    if c == d { return self.cmp(P::Eq, x, y); }
                }
            }
            let (a, b) = if self.as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
            return self.mk(1, N::Cmp(P::Eq, a, b));
        }
        // comparisons of zero extensions shrink
        if matches!(p, P::Ult | P::Ule) {
            let na = self.n(a).clone();
            let nb = self.n(b).clone();
            match (na, nb) {
                (N::ZExt(x), N::ZExt(y)) if self.width(x) == self.width(y) => return self.cmp(p, x, y),
                (N::ZExt(x), N::Const(y)) if y <= mask(self.width(x)) => { let k = self.konst(self.width(x), y); return self.cmp(p, x, k); }
                (N::Const(x), N::ZExt(y)) if x <= mask(self.width(y)) => { let k = self.konst(self.width(y), x); return self.cmp(p, k, y); }
                (_, N::Const(y)) if p == P::Ult && y == 1 => { let k = self.konst(w, 0); return self.cmp(P::Eq, a, k); }
                (N::Const(0), _) if p == P::Ult => { let k = self.konst(w, 0); let e = self.cmp(P::Eq, b, k); return self.not(e); }
                (_, N::Const(0)) if p == P::Ule => { let k = self.konst(w, 0); return self.cmp(P::Eq, a, k); }
                _ => {}
            }
        } else {
            let na = self.n(a).clone();
            let nb = self.n(b).clone();
            match (na, nb) {
                (N::SExt(x), N::SExt(y)) if self.width(x) == self.width(y) => return self.cmp(p, x, y),
                (N::SExt(x), N::Const(y)) => { let wx = self.width(x); let t = y & mask(wx); if (sext(t, wx) as u128) & mask(w) == y { let k = self.konst(wx, t); return self.cmp(p, x, k); } }
                (N::Const(x), N::SExt(y)) => { let wx = self.width(y); let t = x & mask(wx); if (sext(t, wx) as u128) & mask(w) == x { let k = self.konst(wx, t); return self.cmp(p, k, y); } }
                _ => {}
            }
        }
        self.mk(1, N::Cmp(p, a, b))
    }
    pub fn ite(&mut self, c: Tid, a: Tid, b: Tid) -> Tid {
        debug_assert_eq!(self.width(a), self.width(b));
        if let Some(v) = self.as_const(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        if let N::Not(x) = *self.n(c) { return self.ite(x, b, a); }
        let w = self.width(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(B::Or, c, b),
                (Some(0), _) => { let n = self.not(c); return self.bin(B::And, n, b); }
                (_, Some(0)) => return self.bin(B::And, c, a),
                (_, Some(1)) => { let n = self.not(c); return self.bin(B::Or, n, a); }
                _ => {}
            }
        }
        // nested ite on the same condition
        let a = if let N::Ite(c2, x, _) = *self.n(a) { if c2 == c { x } else { a } } else { a };
        let b = if let N::Ite(c2, _, y) = *self.n(b) { if c2 == c { y } else { b } } else { b };
        if a == b { return a; }
        self.mk(w, N::Ite(c, a, b))
    }
    pub fn zext(&mut self, a: Tid, w: u32) -> Tid {
        let wa = self.width(a);
        if w == wa { return a; }
        match *self.n(a) {
            N::Const(c) => self.konst(w, c),
            N::ZExt(x) => self.zext(x, w),
            _ => self.mk(w, N::ZExt(a)),
        }
    }
    pub fn sext(&mut self, a: Tid, w: u32) -> Tid {
        let wa = self.width(a);
        if w == wa { return a; }
        match *self.n(a) {
            N::Const(c) => self.konst(w, sext(c, wa) as u128),
            N::SExt(x) => self.sext(x, w),
            N::ZExt(x) => self.zext(x, w),
            _ => if self.umax[a as usize] < 1u128 << (wa - 1) { self.zext(a, w) } else { self.mk(w, N::SExt(a)) },
        }
    }
    pub fn extract(&mut self, a: Tid, lo: u32, w: u32) -> Tid {
        let wa = self.width(a);
        if lo == 0 && w == wa { return a; }
        match *self.n(a) {
            N::Const(c) => self.konst(w, c >> lo),
            N::Extract(x, l2) => self.extract(x, lo + l2, w),
            N::ZExt(x) => {
                let wx = self.width(x);
                if lo >= wx { self.konst(w, 0) }
                else if lo + w <= wx { self.extract(x, lo, w) }
                else { let e = self.extract(x, lo, wx - lo); self.zext(e, w) }
            }
            N::SExt(x) if lo + w <= self.width(x) => self.extract(x, lo, w),
            N::SExt(x) if lo == 0 => self.sext(x, w),
            N::Concat(h, l) => {
                let wl = self.width(l);
                if lo >= wl { self.extract(h, lo - wl, w) }
                else if lo + w <= wl { self.extract(l, lo, w) }
                else { let eh = self.extract(h, 0, lo + w - wl); let el = self.extract(l, lo, wl - lo); self.concat(eh, el) }
            }
            N::Ite(c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() || w <= 8 => {
                let ex = self.extract(x, lo, w); let ey = self.extract(y, lo, w); self.ite(c, ex, ey)
            }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let ex = self.extract(x, 0, w); let ey = self.extract(y, 0, w); self.bin(op, ex, ey)
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let ex = self.extract(x, lo, w); let ey = self.extract(y, lo, w); self.bin(op, ex, ey)
            }
            _ => if self.umax[a as usize] >> lo == 0 { self.konst(w, 0) } else { self.mk(w, N::Extract(a, lo)) },
        }
    }
    pub fn concat(&mut self, h: Tid, l: Tid) -> Tid {
        let w = self.width(h) + self.width(l);
        let wl = self.width(l);
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) { return self.konst(w, (x << wl) | y); }
        if self.as_const(h) == Some(0) { return self.zext(l, w); }
        if let (N::Extract(x, lx), N::Extract(y, ly)) = (self.n(h).clone(), self.n(l).clone()) {
            if x == y && lx == ly + wl { return self.extract(x, ly, w); }
        }
        if let (N::Extract(x, lx), false) = (self.n(h).clone(), false) {
            // extract(x, wl..) ++ x[0..wl] where x itself is l's source of the same low part
            if lx == wl { let low = self.extract(x, 0, wl); if low == l { return self.extract(x, 0, w); } }
        }
        if let N::Concat(h2, l2) = *self.n(h) {
            // (h2 ++ l2) ++ l  with l2,l adjacent
            if let (N::Extract(x, lx), N::Extract(y, ly)) = (self.n(l2).clone(), self.n(l).clone()) {
                if x == y && lx == ly + wl { let e = self.extract(x, ly, self.width(l2) + wl); return self.concat(h2, e); }
            }
            if let (Some(x), Some(y)) = (self.as_const(l2), self.as_const(l)) {
                let w2 = self.width(l2); let k = self.konst(w2 + wl, (x << wl) | y); return self.concat(h2, k);
            }
        }
        if let N::ZExt(x) = *self.n(h) {
            let c = self.concat(x, l);
            return self.zext(c, w);
        }
        self.mk(w, N::Concat(h, l))
    }
    fn is_const_f(&self, t: Tid) -> Option<f64> {
        self.as_const(t).map(|c| if self.width(t) == 64 { f64_of(c) } else { f32_of(c) as f64 })
    }
    pub fn fbin(&mut self, op: FB, mut a: Tid, mut b: Tid) -> Tid {
        let w = self.width(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if !self.real || matches!(op, FB::Add | FB::Sub | FB::Mul) && { let r = f64_of(c_fbin(op, w, x, y)); r.is_finite() && r.fract() == 0.0 && r.abs() < 9e15 } {
                return self.konst(w, c_fbin(op, w, x, y));
            }
        }
        if self.real {
            if let Some(y) = self.is_const_f(b) {
                match op { FB::Add | FB::Sub if y == 0.0 => return a, FB::Mul | FB::Div if y == 1.0 => return a, FB::Mul if y == 0.0 => return self.konst(w, 0), _ => {} }
            }
            if let Some(x) = self.is_const_f(a) {
                match op { FB::Add if x == 0.0 => return b, FB::Mul if x == 1.0 => return b, FB::Mul | FB::Div if x == 0.0 => return self.konst(w, 0), _ => {} }
            }
            if op == FB::Sub && a == b { return self.konst(w, 0); }
        }
        if matches!(op, FB::Add | FB::Mul) && a > b { std::mem::swap(&mut a, &mut b); }
        if op == FB::Sub {
            // x - y == x + (-y) exactly
            let nb = self.fun(FU::Neg, b);
            return self.fbin(FB::Add, a, nb);
        }
        // x * 1.0 and x / 1.0 are the identity up to NaN payload
        if op == FB::Mul || op == FB::Div {
            if self.is_const_f(b) == Some(1.0) { return a; }
            if op == FB::Mul && self.is_const_f(a) == Some(1.0) { return b; }
        }
        self.mk(w, N::FBin(op, a, b))
    }
    pub fn fun(&mut self, op: FU, a: Tid) -> Tid {
        let w = self.width(a);
        if let Some(x) = self.as_const(a) { return self.konst(w, c_fun(op, w, x)); }
        match (op, self.n(a).clone()) {
            (FU::Neg, N::FUn(FU::Neg, x)) => return x,
            (FU::Abs, N::FUn(FU::Abs, _)) => return a,
            (FU::Abs, N::FUn(FU::Neg, x)) => return self.fun(FU::Abs, x),
            _ => {}
        }
        if self.integral(a) && matches!(op, FU::Floor | FU::Ceil | FU::Trunc | FU::RoundAway | FU::RoundEven) { return a; }
        self.mk(w, N::FUn(op, a))
    }
    fn integral(&self, a: Tid) -> bool { matches!(self.n(a), N::SToF(_) | N::UToF(_)) }
    pub fn fcmp(&mut self, p: FP, a: Tid, b: Tid) -> Tid {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.konst(1, c_fcmp(p, w, x, y) as u128); }
        let (fa, fb) = (self.is_const_f(a), self.is_const_f(b));
        if self.real {
            if p == FP::Uno { return self.konst(1, 0); }
            if let Some(y) = fb { if y.is_nan() { return self.konst(1, 0); } if y.is_infinite() { return self.konst(1, (p != FP::Oeq && y > 0.0) as u128); } }
            if let Some(x) = fa { if x.is_nan() { return self.konst(1, 0); } if x.is_infinite() { return self.konst(1, (p != FP::Oeq && x < 0.0) as u128); } }
        }
        if fb.map_or(false, |y| y.is_nan()) || fa.map_or(false, |x| x.is_nan()) { return self.konst(1, (p == FP::Uno) as u128); }
        // values converted from integers are finite, never NaN
        let (na, nb) = (self.never_nan(a), self.never_nan(b));
        if p == FP::Uno {
            if na && nb { return self.konst(1, 0); }
            if na && !nb && a != b { return self.mk(1, N::FCmp(FP::Uno, b, b)); }
            if nb && !na && a != b { return self.mk(1, N::FCmp(FP::Uno, a, a)); }
        }
        if a == b && na { return self.konst(1, matches!(p, FP::Oeq | FP::Ole) as u128); }
        // comparisons of converted integers are comparisons of the integers when the conversion is exact
        if let Some((x, y)) = self.int_operands(a, b) {
            let wx = self.width(x);
            let _ = wx;
            return match p {
                FP::Oeq => self.cmp(P::Eq, x, y),
                FP::Olt => self.cmp(P::Slt, x, y),
                FP::Ole => self.cmp(P::Sle, x, y),
                FP::Uno => self.konst(1, 0),
            };
        }
        if let N::Ite(c, x, y) = *self.n(a) {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let ex = self.fcmp(p, x, b); let ey = self.fcmp(p, y, b); return self.ite(c, ex, ey);
            }
        }
        if let N::Ite(c, x, y) = *self.n(b) {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let ex = self.fcmp(p, a, x); let ey = self.fcmp(p, a, y); return self.ite(c, ex, ey);
            }
        }
        let (a, b) = if matches!(p, FP::Oeq | FP::Uno) && a > b { (b, a) } else { (a, b) };
        self.mk(1, N::FCmp(p, a, b))
    }
    fn never_nan(&self, a: Tid) -> bool {
        match *self.n(a) {
            N::SToF(_) | N::UToF(_) => true,
            N::Const(_) => !self.is_const_f(a).unwrap().is_nan(),
            N::FUn(FU::Neg | FU::Abs | FU::Floor | FU::Ceil | FU::Trunc, x) => self.never_nan(x),
            N::Ite(_, x, y) => self.never_nan(x) && self.never_nan(y),
            N::FBin(FB::Add | FB::Mul, x, y) => self.fmag(x).is_some() && self.fmag(y).is_some(),
            N::FBin(FB::Div, x, y) => self.fmag(x).is_some() && self.fmag(y).is_some() && self.nonzero_const(y),
            _ => false,
        }
    }
    fn nonzero_const(&self, y: Tid) -> bool { self.is_const_f(y).map_or(false, |v| v != 0.0) }
    /// an upper bound on |a| when a is known finite, small enough that sums and products stay finite
    fn fmag(&self, a: Tid) -> Option<f64> {
        let r = match *self.n(a) {
            N::SToF(x) | N::UToF(x) => 2f64.powi(self.width(x) as i32),
            N::Const(_) => { let v = self.is_const_f(a).unwrap(); if v.is_finite() { v.abs() } else { return None } }
            N::FUn(FU::Neg | FU::Abs, x) => self.fmag(x)?,
            N::FUn(FU::Floor | FU::Ceil | FU::Trunc, x) => self.fmag(x)? + 1.0,
            N::Ite(_, x, y) => self.fmag(x)?.max(self.fmag(y)?),
            N::FBin(FB::Add, x, y) => (self.fmag(x)? + self.fmag(y)?) * 1.0001,
            N::FBin(FB::Mul, x, y) => self.fmag(x)? * self.fmag(y)? * 1.0001,
            N::FBin(FB::Div, x, y) => { let d = self.is_const_f(y)?.abs(); if d == 0.0 { return None; } self.fmag(x)? / d * 1.0001 }
            _ => return None,
        };
        if r < 1e300 { Some(r) } else { None }
    }
    /// Exact small-integer view of a float term: an integer term of its own width (signed), if every
    /// operation on it is exact (all intermediate magnitudes below 2^53).
    fn int_view(&mut self, a: Tid) -> Option<(Tid, u32)> {
        // returns (term, bits) where the value fits in `bits` signed bits and term has that width
        if self.width(a) != 64 { return None; }
        match self.n(a).clone() {
            N::SToF(x) => { let w = self.width(x); if w <= 53 { Some((x, w)) } else if let N::SExt(y) = *self.n(x) { let wy = self.width(y); if wy <= 53 { Some((y, wy)) } else { None } } else if self.umax[x as usize] < 1 << 52 { let e = self.extract(x, 0, 53); Some((e, 53)) } else { None } }
            N::UToF(x) => { let w = self.width(x); if w <= 52 { let z = self.zext(x, w + 1); Some((z, w + 1)) } else if self.umax[x as usize] < 1 << 52 { let k = 129 - self.umax[x as usize].leading_zeros(); let e = self.extract(x, 0, k); Some((e, k)) } else { None } }
            N::Const(c) => {
                let v = f64_of(c);
                if v.fract() == 0.0 && v.abs() < 4503599627370496.0 && !(v == 0.0 && v.is_sign_negative()) {
                    let i = v as i64;
                    let bits = 65 - (if i < 0 { !i } else { i }).leading_zeros();
                    let t = self.konst(bits, i as i128 as u128);
                    Some((t, bits))
                } else { None }
            }
            _ => None,
        }
    }
    fn int_operands(&mut self, a: Tid, b: Tid) -> Option<(Tid, Tid)> {
        let (x, wx) = self.int_view(a)?;
        let (y, wy) = self.int_view(b)?;
        let w = wx.max(wy);
        Some((self.sext(x, w), self.sext(y, w)))
    }
    pub fn fma(&mut self, a: Tid, b: Tid, c: Tid) -> Tid {
        let w = self.width(a);
        if let (Some(x), Some(y), Some(z)) = (self.as_const(a), self.as_const(b), self.as_const(c)) { return self.konst(w, c_fma(w, x, y, z)); }
        self.mk(w, N::Fma(a, b, c))
    }
    pub fn stof(&mut self, a: Tid, w: u32) -> Tid {
        let wa = self.width(a);
        if let Some(x) = self.as_const(a) { return self.konst(w, c_stof(wa, w, x)); }
        if let N::SExt(x) = *self.n(a) { return self.stof(x, w); }
        if let N::ZExt(x) = *self.n(a) { return self.utof(x, w); }
        if self.umax[a as usize] < 1u128 << (wa - 1) { return self.utof(a, w); }
        self.mk(w, N::SToF(a))
    }
    pub fn utof(&mut self, a: Tid, w: u32) -> Tid {
        if let Some(x) = self.as_const(a) { return self.konst(w, c_utof(w, x)); }
        if let N::ZExt(x) = *self.n(a) { return self.utof(x, w); }
        self.mk(w, N::UToF(a))
    }
    pub fn ftos(&mut self, a: Tid, w: u32) -> Tid {
        let wf = self.width(a);
        if let Some(x) = self.as_const(a) { return self.konst(w, c_ftos(wf, w, x)); }
        if wf == 64 { if let Some((x, b)) = self.int_view(a) { if b <= w { return self.sext(x, w); } } }
        self.mk(w, N::FToS(a))
    }
    pub fn ftou(&mut self, a: Tid, w: u32) -> Tid {
        let wf = self.width(a);
        if let Some(x) = self.as_const(a) { return self.konst(w, c_ftou(wf, w, x)); }
        self.mk(w, N::FToU(a))
    }
    pub fn ftof(&mut self, a: Tid, w: u32) -> Tid {
        let wf = self.width(a);
        if wf == w { return a; }
        if let Some(x) = self.as_const(a) { return self.konst(w, c_ftof(wf, w, x)); }
        self.mk(w, N::FToF(a))
    }
    pub fn uf(&mut self, name: &str, w: u32, args: Vec<Tid>, ev: Option<fn(&[u128]) -> u128>) -> Tid {
        let id = match self.uf_names.iter().position(|n| n == name) {
            Some(i) => i,
            None => { self.uf_names.push(name.to_string()); self.uf_eval.push(ev); self.uf_names.len() - 1 }
        };
        self.mk(w, N::Uf(id as u32, args))
    }

    /// start a new evaluation under a fresh model
    pub fn new_eval(&mut self) { self.gen += 1; }
    pub fn eval(&mut self, t: Tid, model: &[u128]) -> u128 {
        let i = t as usize;
        if let N::Const(c) = self.nodes[i] { return c; }
        if self.ev_gen[i] == self.gen { return self.ev_val[i]; }
        let w = self.w[i];
        let r = match self.nodes[i].clone() {
            N::Const(c) => c,
            N::Var(k) => model.get(k as usize).copied().unwrap_or(0) & mask(w),
            N::Bin(op, a, b) => { let x = self.eval(a, model); let y = self.eval(b, model); c_bin(op, w, x, y) }
            N::Cmp(p, a, b) => { let x = self.eval(a, model); let y = self.eval(b, model); c_cmp(p, self.w[a as usize], x, y) as u128 }
            N::Not(a) => self.eval(a, model) ^ 1,
            N::Ite(c, a, b) => if self.eval(c, model) == 1 { self.eval(a, model) } else { self.eval(b, model) },
            N::ZExt(a) => self.eval(a, model),
            N::SExt(a) => { let x = self.eval(a, model); (sext(x, self.w[a as usize]) as u128) & mask(w) }
            N::Extract(a, lo) => (self.eval(a, model) >> lo) & mask(w),
            N::Concat(h, l) => { let x = self.eval(h, model); let y = self.eval(l, model); (x << self.w[l as usize]) | y }
            N::FBin(op, a, b) => { let x = self.eval(a, model); let y = self.eval(b, model); c_fbin(op, w, x, y) }
            N::FUn(op, a) => { let x = self.eval(a, model); c_fun(op, w, x) }
            N::FCmp(p, a, b) => { let x = self.eval(a, model); let y = self.eval(b, model); c_fcmp(p, self.w[a as usize], x, y) as u128 }
            N::Fma(a, b, c) => { let x = self.eval(a, model); let y = self.eval(b, model); let z = self.eval(c, model); c_fma(w, x, y, z) }
            N::SToF(a) => { let x = self.eval(a, model); c_stof(self.w[a as usize], w, x) }
            N::UToF(a) => { let x = self.eval(a, model); c_utof(w, x) }
            N::FToS(a) => { let x = self.eval(a, model); c_ftos(self.w[a as usize], w, x) }
            N::FToU(a) => { let x = self.eval(a, model); c_ftou(self.w[a as usize], w, x) }
            N::FToF(a) => { let x = self.eval(a, model); c_ftof(self.w[a as usize], w, x) }
            N::Uf(id, args) => {
                let xs: Vec<u128> = args.iter().map(|a| self.eval(*a, model)).collect();
                match self.uf_eval[id as usize] { Some(f) => f(&xs), None => 0 }
            }
        };
        self.ev_gen[i] = self.gen;
        self.ev_val[i] = r;
        r
    }
}
