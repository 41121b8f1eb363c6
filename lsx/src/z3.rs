//! Lowering of terms to Z3 and satisfiability queries.
use crate::term::*;
use crate::fx::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type A = *mut c_void;
type Ctx = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> A;
    fn Z3_mk_context(c: A) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> A;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> A;
    fn Z3_mk_bool_sort(c: Ctx) -> A;
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> A;
    fn Z3_mk_real_sort(c: Ctx) -> A;
    fn Z3_mk_const(c: Ctx, s: A, t: A) -> A;
    fn Z3_mk_func_decl(c: Ctx, s: A, n: c_uint, dom: *const A, r: A) -> A;
    fn Z3_mk_app(c: Ctx, d: A, n: c_uint, args: *const A) -> A;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: A) -> A;
    fn Z3_mk_true(c: Ctx) -> A;
    fn Z3_mk_false(c: Ctx) -> A;
    fn Z3_mk_eq(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_not(c: Ctx, a: A) -> A;
    fn Z3_mk_ite(c: Ctx, a: A, b: A, d: A) -> A;
    fn Z3_mk_xor(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const A) -> A;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const A) -> A;
    fn Z3_mk_bvnot(c: Ctx, a: A) -> A;
    fn Z3_mk_bvand(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvor(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvxor(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvadd(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvsub(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvmul(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvudiv(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvsdiv(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvurem(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvsrem(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvshl(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvlshr(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvashr(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvult(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvule(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvslt(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_bvsle(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_concat(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: A) -> A;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: A) -> A;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: A) -> A;
    fn Z3_mk_bv2int(c: Ctx, a: A, signed: bool) -> A;
    fn Z3_mk_int2real(c: Ctx, a: A) -> A;
    fn Z3_mk_real2int(c: Ctx, a: A) -> A;
    fn Z3_mk_int2bv(c: Ctx, n: c_uint, a: A) -> A;
    fn Z3_mk_add(c: Ctx, n: c_uint, a: *const A) -> A;
    fn Z3_mk_sub(c: Ctx, n: c_uint, a: *const A) -> A;
    fn Z3_mk_mul(c: Ctx, n: c_uint, a: *const A) -> A;
    fn Z3_mk_div(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_lt(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_le(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_ge(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_fpa_sort_double(c: Ctx) -> A;
    fn Z3_mk_fpa_sort_single(c: Ctx) -> A;
    fn Z3_mk_fpa_rne(c: Ctx) -> A;
    fn Z3_mk_fpa_rna(c: Ctx) -> A;
    fn Z3_mk_fpa_rtz(c: Ctx) -> A;
    fn Z3_mk_fpa_rtp(c: Ctx) -> A;
    fn Z3_mk_fpa_rtn(c: Ctx) -> A;
    fn Z3_mk_fpa_abs(c: Ctx, a: A) -> A;
    fn Z3_mk_fpa_neg(c: Ctx, a: A) -> A;
    fn Z3_mk_fpa_add(c: Ctx, rm: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_sub(c: Ctx, rm: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_mul(c: Ctx, rm: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_div(c: Ctx, rm: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_fma(c: Ctx, rm: A, a: A, b: A, d: A) -> A;
    fn Z3_mk_fpa_sqrt(c: Ctx, rm: A, a: A) -> A;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: A, a: A) -> A;
    fn Z3_mk_fpa_leq(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_fpa_lt(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_fpa_eq(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: A) -> A;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: A, s: A) -> A;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, rm: A, a: A, s: A) -> A;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: A, a: A, s: A) -> A;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: A, a: A, s: A) -> A;
    fn Z3_mk_fpa_to_sbv(c: Ctx, rm: A, a: A, n: c_uint) -> A;
    fn Z3_mk_fpa_to_ubv(c: Ctx, rm: A, a: A, n: c_uint) -> A;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: A) -> A;
    fn Z3_mk_tactic(c: Ctx, n: *const c_char) -> A;
    fn Z3_params_set_bool(c: Ctx, p: A, k: A, v: bool);
    fn Z3_tactic_using_params(c: Ctx, t: A, p: A) -> A;
    fn Z3_tactic_inc_ref(c: Ctx, t: A);
    fn Z3_tactic_and_then(c: Ctx, a: A, b: A) -> A;
    fn Z3_mk_solver_from_tactic(c: Ctx, t: A) -> A;
    fn Z3_mk_params(c: Ctx) -> A;
    fn Z3_params_inc_ref(c: Ctx, p: A);
    fn Z3_params_set_uint(c: Ctx, p: A, k: A, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: A, p: A);
    fn Z3_solver_inc_ref(c: Ctx, s: A);
    fn Z3_solver_dec_ref(c: Ctx, s: A);
    fn Z3_solver_assert(c: Ctx, s: A, a: A);
    fn Z3_solver_push(c: Ctx, s: A);
    fn Z3_solver_pop(c: Ctx, s: A, n: c_uint);
    fn Z3_solver_check(c: Ctx, s: A) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: A) -> A;
    fn Z3_solver_to_string(c: Ctx, s: A) -> *const c_char;
    fn Z3_solver_get_reason_unknown(c: Ctx, s: A) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: A);
    fn Z3_model_dec_ref(c: Ctx, m: A);
    fn Z3_model_eval(c: Ctx, m: A, t: A, completion: bool, out: *mut A) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: A) -> *const c_char;
    fn Z3_get_numeral_double(c: Ctx, a: A) -> f64;
    fn Z3_get_algebraic_number_lower(c: Ctx, a: A, prec: c_uint) -> A;
    fn Z3_is_numeral_ast(c: Ctx, a: A) -> bool;
    fn Z3_is_algebraic_number(c: Ctx, a: A) -> bool;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
}

extern "C" fn on_err(c: Ctx, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned() };
    eprintln!("lsx: z3 error {e}: {m}");
    std::process::exit(3);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat { Sat, Unsat, Unknown }

pub struct Z3 {
    c: Ctx,
    memo: HashMap<(Tid, u8), A>, // 0 bool, 1 bv, 2 fp/real
    var_w: HashMap<u32, (u32, bool)>,
    fd: A, fs: A, rne: A,
    uf_decl: HashMap<(u32, usize), A>,
    t_bv: A, t_fp: A, t_real: A, t_realint: A,
    pub real: bool,
    pub rlimit: u32,
    pub queries: u64,
    pub unknowns: u64,
    pub time: f64,
    pub slowest: f64,
    pub dump: Option<String>,
    pub dumped: u64,
}

const BOOL: u8 = 0;
const BV: u8 = 1;
const FL: u8 = 2;

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Z3 {
    pub fn new(real: bool, rlimit: u32) -> Z3 { unsafe {
        let k = |s: &str| CString::new(s).unwrap();
        let (a, b) = (k("model_evaluator.completion"), k("true"));
        let _ = (&a, &b);
        let (a, b) = (k("auto_config"), k("true"));
        Z3_global_param_set(a.as_ptr(), b.as_ptr());
        let cfg = Z3_mk_config();
        let c = Z3_mk_context(cfg);
        Z3_set_error_handler(c, Some(on_err));
        let tac = |n: &str| { let s = k(n); let t = Z3_mk_tactic(c, s.as_ptr()); Z3_tactic_inc_ref(c, t); t };
        let seq = |v: &[A]| { let mut t = v[0]; for x in &v[1..] { t = Z3_tactic_and_then(c, t, *x); Z3_tactic_inc_ref(c, t); } t };
        let t_bv = tac("qfbv");
        let som = { let t = tac("simplify"); let p = Z3_mk_params(c); Z3_params_inc_ref(c, p); let n = k("som"); Z3_params_set_bool(c, p, Z3_mk_string_symbol(c, n.as_ptr()), true); let t = Z3_tactic_using_params(c, t, p); Z3_tactic_inc_ref(c, t); t };
        let t_real = seq(&[tac("simplify"), tac("propagate-values"), tac("solve-eqs"), tac("elim-uncnstr"), tac("simplify"), som, tac("qfnra-nlsat")]);
        let t_realint = seq(&[tac("simplify"), tac("propagate-values"), tac("solve-eqs"), tac("simplify"), tac("smt")]);
        let t_fp = seq(&[tac("simplify"), tac("propagate-values"), tac("solve-eqs"), tac("fpa2bv"), tac("simplify"), tac("propagate-values"), tac("solve-eqs"), tac("simplify"), tac("bit-blast"), tac("simplify"), tac("sat")]);
        let mut z = Z3 { c, memo: HashMap::default(), var_w: HashMap::default(), fd: Z3_mk_fpa_sort_double(c), fs: Z3_mk_fpa_sort_single(c), rne: Z3_mk_fpa_rne(c),
            uf_decl: HashMap::default(), t_bv, t_fp, t_real, t_realint, real, rlimit, queries: 0, unknowns: 0, time: 0.0, slowest: 0.0, dump: None, dumped: 0 };
        z
    } }
    unsafe fn limit(&mut self, s: A) {
        if self.rlimit == 0 { return; }
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let n = CString::new("rlimit").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, n.as_ptr()), self.rlimit);
        Z3_solver_set_params(self.c, s, p);
    }
    fn num(&self, v: u128, sort: A) -> A { let s = CString::new(v.to_string()).unwrap(); unsafe { Z3_mk_numeral(self.c, s.as_ptr(), sort) } }
    fn real_num(&self, v: f64) -> A {
        // exact rational of a finite double
        let bits = v.to_bits();
        let neg = bits >> 63 == 1;
        let e = ((bits >> 52) & 0x7ff) as i32;
        let mut m = bits & ((1 << 52) - 1);
        let mut ex = if e == 0 { -1074 } else { m |= 1 << 52; e - 1075 };
        assert!(e != 0x7ff, "lsx: NaN or infinity reached a real-arithmetic query");
        if m == 0 { ex = 0; }
        while ex < 0 && m & 1 == 0 && m != 0 { m >>= 1; ex += 1; }
        let p2 = |n: i32| { // decimal string of 2^n
            let mut d = vec![1u8];
            for _ in 0..n { let mut c = 0; for x in d.iter_mut() { let t = *x * 2 + c; *x = t % 10; c = t / 10; } if c > 0 { d.push(c); } }
            d.iter().rev().map(|x| (b'0' + x) as char).collect::<String>()
        };
        let rs = unsafe { Z3_mk_real_sort(self.c) };
        let mk = |s: String| { let s = CString::new(s).unwrap(); unsafe { Z3_mk_numeral(self.c, s.as_ptr(), rs) } };
        let sgn = if neg { "-" } else { "" };
        if ex <= 0 { if ex == 0 { mk(format!("{sgn}{m}")) } else { mk(format!("{sgn}{m}/{}", p2(-ex))) } }
        else { let a = mk(format!("{sgn}{m}")); let b = mk(p2(ex)); unsafe { Z3_mk_mul(self.c, 2, [a, b].as_ptr()) } }
    }
    fn bvsort(&self, w: u32) -> A { unsafe { Z3_mk_bv_sort(self.c, w) } }
    fn fsort(&self, w: u32) -> A { if w == 64 { self.fd } else { self.fs } }

    fn var_decl(&mut self, i: u32, w: u32, fl: bool) -> A { unsafe {
        self.var_w.insert(i, (w, fl));
        let s = Z3_mk_int_symbol(self.c, i as c_int);
        let so = if fl { Z3_mk_real_sort(self.c) } else if w == 1 { Z3_mk_bool_sort(self.c) } else { self.bvsort(w) };
        Z3_mk_const(self.c, s, so)
    } }

    pub fn lower(&mut self, ts: &mut Terms, t: Tid, k: u8) -> A {
        if let Some(&a) = self.memo.get(&(t, k)) { return a; }
        let a = self.lower0(ts, t, k);
        self.memo.insert((t, k), a);
        a
    }
    fn b(&mut self, ts: &mut Terms, t: Tid) -> A { self.lower(ts, t, BOOL) }
    fn v(&mut self, ts: &mut Terms, t: Tid) -> A { self.lower(ts, t, BV) }
    fn f(&mut self, ts: &mut Terms, t: Tid) -> A { self.lower(ts, t, FL) }
    fn lower0(&mut self, ts: &mut Terms, t: Tid, k: u8) -> A { unsafe {
        let c = self.c;
        let w = ts.width(t);
        let n = ts.nodes[t as usize].clone();
        if k == BV && w == 1 {
            let x = self.b(ts, t);
            let s = self.bvsort(1);
            return Z3_mk_ite(c, x, self.num(1, s), self.num(0, s));
        }
        if k == BOOL { assert_eq!(w, 1); }
        match n {
            N::Const(x) => match k {
                BOOL => if x == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                BV => self.num(x, self.bvsort(w)),
                _ => if self.real { self.real_num(if w == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 }) }
                     else { Z3_mk_fpa_to_fp_bv(c, self.num(x, self.bvsort(w)), self.fsort(w)) },
            },
            N::Var(i) => {
                if self.real && k == FL { return self.var_decl(i, w, true); }
                let d = self.var_decl(i, w, false);
                if k == FL { Z3_mk_fpa_to_fp_bv(c, d, self.fsort(w)) } else { d }
            }
            N::Ite(cc, x, y) => {
                let cc = self.b(ts, cc);
                let (x, y) = (self.lower(ts, x, k), self.lower(ts, y, k));
                Z3_mk_ite(c, cc, x, y)
            }
            N::Not(x) => { let x = self.b(ts, x); Z3_mk_not(c, x) }
            N::Bin(op, x, y) if w == 1 => {
                if matches!(op, B::And | B::Or | B::Xor) {
                    let (x, y) = (self.b(ts, x), self.b(ts, y));
                    match op { B::And => Z3_mk_and(c, 2, [x, y].as_ptr()), B::Or => Z3_mk_or(c, 2, [x, y].as_ptr()), _ => Z3_mk_xor(c, x, y) }
                } else {
                    let (x, y) = (self.v(ts, x), self.v(ts, y));
                    let r = self.bvop(op, x, y);
                    Z3_mk_eq(c, r, self.num(1, self.bvsort(1)))
                }
            }
            N::Cmp(p, x, y) => {
                if p == P::Eq && self.real && (self.is_real(ts, x) || self.is_real(ts, y)) { let (x, y) = (self.f(ts, x), self.f(ts, y)); return Z3_mk_eq(c, x, y); }
                // the sign bit of a real (which has no negative zero)
                if self.real && matches!(p, P::Slt | P::Sle) && (self.is_real(ts, x) || self.is_real(ts, y)) {
                    let (least, most) = (N::Const(0), N::Const(0xffff_ffff_ffff_ffff));
                    let (neg, t) = match p {
                        P::Slt if ts.nodes[y as usize] == least => (true, x),
                        P::Slt if ts.nodes[x as usize] == most => (false, y),
                        P::Sle if ts.nodes[x as usize] == least => (false, y),
                        P::Sle if ts.nodes[y as usize] == most => (true, x),
                        _ => panic!("lsx: bits of a float compared in real mode"),
                    };
                    let (t, z) = (self.f(ts, t), self.real_num(0.0));
                    return if neg { Z3_mk_lt(c, t, z) } else { Z3_mk_le(c, z, t) };
                }
                let (x, y) = (self.v(ts, x), self.v(ts, y));
                match p { P::Eq => Z3_mk_eq(c, x, y), P::Ult => Z3_mk_bvult(c, x, y), P::Ule => Z3_mk_bvule(c, x, y), P::Slt => Z3_mk_bvslt(c, x, y), P::Sle => Z3_mk_bvsle(c, x, y) }
            }
            N::FCmp(p, x, y) => {
                let (x, y) = (self.f(ts, x), self.f(ts, y));
                if self.real {
                    match p { FP::Oeq => Z3_mk_eq(c, x, y), FP::Olt => Z3_mk_lt(c, x, y), FP::Ole => Z3_mk_le(c, x, y), FP::Uno => Z3_mk_false(c) }
                } else {
                    match p { FP::Oeq => Z3_mk_fpa_eq(c, x, y), FP::Olt => Z3_mk_fpa_lt(c, x, y), FP::Ole => Z3_mk_fpa_leq(c, x, y),
                        FP::Uno => if x == y { Z3_mk_fpa_is_nan(c, x) } else { Z3_mk_or(c, 2, [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)].as_ptr()) } }
                }
            }
            N::FBin(..) | N::FUn(..) | N::Fma(..) | N::SToF(_) | N::UToF(_) | N::FToF(_) if k == BV => {
                if self.real { panic!("lsx: bit view of a float in real mode: {:?}", ts.nodes[t as usize]); }
                match n {
                    N::FUn(FU::Neg, x) => { let x = self.v(ts, x); return Z3_mk_bvxor(c, x, self.num(1 << (w - 1), self.bvsort(w))); }
                    N::FUn(FU::Abs, x) => { let x = self.v(ts, x); return Z3_mk_bvand(c, x, self.num((1 << (w - 1)) - 1, self.bvsort(w))); }
                    _ => {}
                }
                let f = self.f(ts, t);
                let nan = self.num(if w == 64 { 0x7ff8000000000000 } else { 0x7fc00000 }, self.bvsort(w));
                Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), nan, Z3_mk_fpa_to_ieee_bv(c, f))
            }
            N::FBin(op, x, y) => {
                let (x, y) = (self.f(ts, x), self.f(ts, y));
                if self.real {
                    match op { FB::Add => Z3_mk_add(c, 2, [x, y].as_ptr()), FB::Sub => Z3_mk_sub(c, 2, [x, y].as_ptr()), FB::Mul => Z3_mk_mul(c, 2, [x, y].as_ptr()), FB::Div => Z3_mk_div(c, x, y), FB::Rem => panic!("frem in real mode") }
                } else {
                    let r = self.rne;
                    match op { FB::Add => Z3_mk_fpa_add(c, r, x, y), FB::Sub => Z3_mk_fpa_sub(c, r, x, y), FB::Mul => Z3_mk_fpa_mul(c, r, x, y), FB::Div => Z3_mk_fpa_div(c, r, x, y),
                        FB::Rem => panic!("lsx: symbolic frem is not supported") }
                }
            }
            N::FUn(op, x) => {
                let x = self.f(ts, x);
                if self.real {
                    let z = self.real_num(0.0);
                    let neg = Z3_mk_sub(c, 2, [z, x].as_ptr());
                    match op { FU::Neg => neg, FU::Abs => Z3_mk_ite(c, Z3_mk_ge(c, x, z), x, neg),
                        FU::Sqrt => { let rs = Z3_mk_real_sort(c); let d = *self.uf_decl.entry((u32::MAX, 1)).or_insert_with(|| { let s = CString::new("sqrt").unwrap(); Z3_mk_func_decl(c, Z3_mk_string_symbol(c, s.as_ptr()), 1, [rs].as_ptr(), rs) }); Z3_mk_app(c, d, 1, [x].as_ptr()) }
                        FU::Floor => Z3_mk_int2real(c, Z3_mk_real2int(c, x)),
                        FU::Ceil => { let f = Z3_mk_int2real(c, Z3_mk_real2int(c, neg)); Z3_mk_sub(c, 2, [z, f].as_ptr()) }
                        FU::Trunc => { let f = Z3_mk_int2real(c, Z3_mk_real2int(c, x)); let g = Z3_mk_int2real(c, Z3_mk_real2int(c, neg)); Z3_mk_ite(c, Z3_mk_ge(c, x, z), f, Z3_mk_sub(c, 2, [z, g].as_ptr())) }
                        _ => panic!("rounding in real mode") }
                } else {
                    match op { FU::Neg => Z3_mk_fpa_neg(c, x), FU::Abs => Z3_mk_fpa_abs(c, x), FU::Sqrt => Z3_mk_fpa_sqrt(c, self.rne, x),
                        FU::Floor => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), x), FU::Ceil => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), x),
                        FU::Trunc => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), x), FU::RoundAway => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), x),
                        FU::RoundEven => Z3_mk_fpa_round_to_integral(c, self.rne, x) }
                }
            }
            N::Fma(x, y, z) => {
                let (x, y, z) = (self.f(ts, x), self.f(ts, y), self.f(ts, z));
                if self.real { let m = Z3_mk_mul(c, 2, [x, y].as_ptr()); Z3_mk_add(c, 2, [m, z].as_ptr()) } else { Z3_mk_fpa_fma(c, self.rne, x, y, z) }
            }
            N::SToF(x) => { let x = self.v(ts, x); if self.real { Z3_mk_int2real(c, Z3_mk_bv2int(c, x, true)) } else { Z3_mk_fpa_to_fp_signed(c, self.rne, x, self.fsort(w)) } }
            N::UToF(x) => { let x = self.v(ts, x); if self.real { Z3_mk_int2real(c, Z3_mk_bv2int(c, x, false)) } else { Z3_mk_fpa_to_fp_unsigned(c, self.rne, x, self.fsort(w)) } }
            N::FToF(x) => { let x = self.f(ts, x); if self.real { x } else { Z3_mk_fpa_to_fp_float(c, self.rne, x, self.fsort(w)) } }
            N::FToS(x) => {
                let x = self.f(ts, x);
                if self.real { let z = self.real_num(0.0); let neg = Z3_mk_sub(c, 2, [z, x].as_ptr());
                    let p = Z3_mk_int2bv(c, w, Z3_mk_real2int(c, x)); let q = Z3_mk_int2bv(c, w, Z3_mk_real2int(c, neg));
                    let z0 = self.num(0, self.bvsort(w));
                    Z3_mk_ite(c, Z3_mk_ge(c, x, z), p, Z3_mk_bvsub(c, z0, q)) }
                else { Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, w) }
            }
            N::FToU(x) => { let x = self.f(ts, x); if self.real { Z3_mk_int2bv(c, w, Z3_mk_real2int(c, x)) } else { Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, w) } }
            N::Uf(id, args) if !(k == BV && self.real && id & 0 == 1) => {
                let rs = if self.real { Z3_mk_real_sort(c) } else { self.bvsort(w) };
                let mut xs = vec![];
                for a in &args { xs.push(if self.real { self.f(ts, *a) } else { self.v(ts, *a) }); }
                let name = CString::new(format!("uf_{}", ts.uf_names[id as usize])).unwrap();
                let doms: Vec<A> = args.iter().map(|a| if self.real { rs } else { self.bvsort(ts.width(*a)) }).collect();
                let d = *self.uf_decl.entry((id, xs.len())).or_insert_with(|| Z3_mk_func_decl(c, Z3_mk_string_symbol(c, name.as_ptr()), doms.len() as c_uint, doms.as_ptr(), rs));
                let r = Z3_mk_app(c, d, xs.len() as c_uint, xs.as_ptr());
                if k == FL && !self.real { Z3_mk_fpa_to_fp_bv(c, r, self.fsort(w)) } else { r }
            }
            _ if k == FL => { if self.real { panic!("lsx: float view of bits in real mode: {:?}", n); } let x = self.v(ts, t); Z3_mk_fpa_to_fp_bv(c, x, self.fsort(w)) }
            N::Extract(x, lo) if w == 1 => { let x = self.v(ts, x); let e = Z3_mk_extract(c, lo, lo, x); Z3_mk_eq(c, e, self.num(1, self.bvsort(1))) }
            N::Bin(op, x, y) => { let (x, y) = (self.v(ts, x), self.v(ts, y)); self.bvop(op, x, y) }
            N::ZExt(x) => {
                let wx = ts.width(x);
                if wx == 1 { let b = self.b(ts, x); let s = self.bvsort(w); return Z3_mk_ite(c, b, self.num(1, s), self.num(0, s)); }
                let x = self.v(ts, x); Z3_mk_zero_ext(c, w - wx, x)
            }
            N::SExt(x) => { let wx = ts.width(x); let x = self.v(ts, x); Z3_mk_sign_ext(c, w - wx, x) }
            N::Extract(x, lo) => { let x = self.v(ts, x); Z3_mk_extract(c, lo + w - 1, lo, x) }
            N::Concat(h, l) => { let (h, l) = (self.v(ts, h), self.v(ts, l)); Z3_mk_concat(c, h, l) }
            ref n => unreachable!("{:?} {}", n, k),
        }
    } }
    fn is_real(&self, ts: &Terms, t: Tid) -> bool {
        match &ts.nodes[t as usize] {
            N::FBin(..) | N::FUn(..) | N::Fma(..) | N::SToF(_) | N::UToF(_) | N::FToF(_) | N::Uf(..) => true,
            N::Var(i) => self.var_w.get(i).map_or(false, |x| x.1),
            N::Ite(_, a, b) => self.is_real(ts, *a) || self.is_real(ts, *b),
            _ => false,
        }
    }
    fn bvop(&self, op: B, x: A, y: A) -> A { unsafe { let c = self.c; match op {
        B::Add => Z3_mk_bvadd(c, x, y), B::Sub => Z3_mk_bvsub(c, x, y), B::Mul => Z3_mk_bvmul(c, x, y),
        B::UDiv => Z3_mk_bvudiv(c, x, y), B::SDiv => Z3_mk_bvsdiv(c, x, y), B::URem => Z3_mk_bvurem(c, x, y), B::SRem => Z3_mk_bvsrem(c, x, y),
        B::And => Z3_mk_bvand(c, x, y), B::Or => Z3_mk_bvor(c, x, y), B::Xor => Z3_mk_bvxor(c, x, y),
        B::Shl => Z3_mk_bvshl(c, x, y), B::LShr => Z3_mk_bvlshr(c, x, y), B::AShr => Z3_mk_bvashr(c, x, y),
    } } }

    pub fn declare_real(&mut self, i: u32, w: u32) { self.var_w.insert(i, (w, true)); }

    /// Is the conjunction satisfiable? On Sat, `model` is updated for the variables of the query.
    pub fn check(&mut self, ts: &mut Terms, cs: &[Tid], model: &mut Vec<u128>, hint_hard: bool) -> Sat { unsafe {
        let c = self.c;
        let t0 = std::time::Instant::now();
        let mut flts = false;
        let mut vars = u128x2::default();
        for t in cs { vars = vars.or(ts.vars[*t as usize]); if ts.has_float(*t) { flts = true; } }
        let lows: Vec<A> = cs.iter().map(|t| self.b(ts, *t)).collect();
        let _ = hint_hard;
        let tactics: Vec<A> = if !self.real { vec![if flts { self.t_fp } else { self.t_bv }] } else if !flts { vec![self.t_bv] }
            else if cs.iter().any(|t| ts.has_uf(*t)) { vec![self.t_realint, self.t_real] } else { vec![self.t_real, self.t_realint] };
        let mut s: A = std::ptr::null_mut();
        let mut r = 0;
        let mut txt = String::new();
        for t in tactics {
            if !s.is_null() { Z3_solver_dec_ref(c, s); }
            s = Z3_mk_solver_from_tactic(c, t);
            Z3_solver_inc_ref(c, s);
            self.limit(s);
            for l in &lows { Z3_solver_assert(c, s, *l); }
            if let Some(d) = &self.dump {
                txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                if std::env::var("LSX_PRE").is_ok() { let _ = std::fs::write(format!("{}/pre-{}.smt2", d, std::process::id()), format!("{txt}(check-sat)\n")); }
            }
            r = Z3_solver_check(c, s);
            if r != 0 { break; }
        }
        let res = match r { 1 => Sat::Sat, -1 => Sat::Unsat, _ => {
            self.unknowns += 1;
            if std::env::var("LSX_DEBUG").is_ok() { eprintln!("lsx: unknown: {}", CStr::from_ptr(Z3_solver_get_reason_unknown(c, s)).to_string_lossy()); }
            Sat::Unknown } };
        if res == Sat::Sat {
            let m = Z3_solver_get_model(c, s);
            Z3_model_inc_ref(c, m);
            for i in 0..256u32 {
                if !vars.hits(u128x2::bit(i)) { continue; }
                let Some(&(w, fl)) = self.var_w.get(&i) else { continue };
                let d = self.var_decl(i, w, fl);
                let mut out: A = std::ptr::null_mut();
                if !Z3_model_eval(c, m, d, true, &mut out) { continue; }
                let v = if fl {
                    if Z3_is_algebraic_number(c, out) { Z3_get_numeral_double(c, Z3_get_algebraic_number_lower(c, out, 40)).to_bits() as u128 }
                    else if Z3_is_numeral_ast(c, out) { Z3_get_numeral_double(c, out).to_bits() as u128 } else { 0 }
                } else if w == 1 { (out == Z3_mk_true(c)) as u128 }
                else { CStr::from_ptr(Z3_get_numeral_string(c, out)).to_str().unwrap().parse::<u128>().unwrap_or(0) };
                if model.len() <= i as usize { model.resize(i as usize + 1, 0); }
                model[i as usize] = v;
            }
            Z3_model_dec_ref(c, m);
        }
        Z3_solver_dec_ref(c, s);
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        if let Some(d) = &self.dump { if dt > 2.0 || self.dumped < 5 { let _ = std::fs::write(format!("{}/{}-{}-{:.1}s.smt2", d, std::process::id(), self.queries, dt), format!("{txt}(check-sat)\n")); self.dumped += 1; } }
        self.time += dt;
        if dt > self.slowest { self.slowest = dt; }
        if dt > 5.0 && std::env::var("LSX_DEBUG").is_ok() { eprintln!("lsx: slow query {:.1}s ({} constraints) -> {:?}", dt, cs.len(), res); }
        res
    } }
}
