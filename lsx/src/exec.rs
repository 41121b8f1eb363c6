//! Symbolic execution of LLVM IR.
use crate::parse::*;
use crate::term::*;
use crate::z3::*;
use crate::fx::{HashMap, HashSet};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u128), T(Tid), A(Rc<Vec<Val>>) }

const NOSYM: (Tid, u8) = (Tid::MAX, 0);
#[derive(Clone)]
pub struct Obj { pub base: u64, pub size: u64, pub data: Vec<u8>, pub sym: Option<Vec<(Tid, u8)>>, pub ro: bool, pub kind: u8 } // kind 0 global 1 stack 2 heap
#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub regs: Vec<Val>, pub blk: u32, pub ip: u32, pub allocas: Vec<u64>, pub dst: Option<u32>, pub nd: Option<u32>, pub fid: u32 }
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub pc: Rc<Vec<Tid>>,
    pub known: Rc<HashMap<Tid, bool>>,
    pub model: Vec<u128>,
    pub inputs: Vec<(Tid, u32, u8)>, // term, bits, kind (0 int, 1 float)
    pub obs: Vec<Val>,
    pub panic_ok: u32,
    pub heap: u64,
    pub steps: u64,
    pub forks: u32,
    pub pg_ctx: u64,
    pub slots: Rc<HashMap<u64, Vec<Val>>>,
}
pub enum End { Done, Assume, Panic(String), Mem(String), Assert(u32), Steps, Unsup(String), Unknown(String), Stop }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum H {
    Interp, Panic, Nop, RetZero, Trap,
    Memcpy, Memset, Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc, Bcmp, Memcmp, Strlen,
    RustAlloc, RustAllocZ, RustRealloc,
    SxIn, SxF64, SxAssume, SxAssert, SxCover, SxObs, SxPanicOk, SxConc, SxClose, SxSlot, SxIsSymbolic, SxParam,
    Min(bool), Max(bool), Abs, Ctlz, Cttz, Ctpop, Bswap, BitRev, FShl, FShr, Sat(B, bool), Ovf(B, bool), CmpI(bool), IsConst, Expect, PtrMask, TlsAddr, Ident,
    FUn(FU), FMin, FMax, FMinimum, FMaximum, CopySign, Fma, Powi, FToISat(bool), IsFpClass, RoundInt, Red(BinK), RedMM(bool, bool), Assume,
    Libm(u8), MathPow, Getrandom, FormatInner, PmovmskB, ReadReg, Palloc(u8), Pfree, Repalloc, SigSet, Memchr, Environ,
}

pub struct Opts { pub real: bool, pub max_steps: u64, pub max_secs: f64, pub jobs: u32, pub out: String, pub samples: u32, pub concrete: Option<Vec<u128>>, pub rlimit: u32, pub keep: u32, pub stubs: Vec<(String, String)>, pub debug: bool, pub params: Vec<u64> }

pub struct Ex {
    pub m: Module,
    pub ts: Terms,
    pub z: Z3,
    pub o: Opts,
    pub handlers: Vec<Option<H>>,
    pub work: Vec<State>,
    pub cur: Option<State>,
    pub globals: HashMap<u64, Rc<Obj>>,
    pub cache: HashMap<(Vec<Tid>, Tid), Option<Rc<Vec<u128>>>>,
    // results
    pub insts: u64,
    pub paths: [u64; 8],
    pub covers: BTreeMap<u32, u64>,
    pub asserts: BTreeMap<u32, (u64, u64)>, // id -> (checks with solver, trivially true)
    pub viols: Vec<String>,
    pub vcount: HashMap<String, u32>,
    closes: HashMap<Tid, (Tid, Tid)>,
    wide: u32,
    pub var_ids: HashMap<(usize, u32, bool), u32>,
    pub samples: Vec<String>,
    pub funcs_seen: BTreeSet<u32>,
    pub unsup: BTreeMap<String, u64>,
    pub stubbed: BTreeSet<String>,
    pub cache_hits: u64,
    pub start: std::time::Instant,
    pub token: Option<(i32, i32)>,
    pub have_token: bool,
    pub children: Vec<i32>,
    pub stop: bool,
    pub tick: u64,
    pub forks_total: u64,
}

extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn read(fd: i32, b: *mut u8, n: usize) -> isize; fn write(fd: i32, b: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
extern "C" { fn log(x: f64) -> f64; fn exp(x: f64) -> f64; fn pow(x: f64, y: f64) -> f64; fn log2(x: f64) -> f64; fn log10(x: f64) -> f64; fn sin(x: f64) -> f64; fn cos(x: f64) -> f64; fn tan(x: f64) -> f64; fn asin(x: f64) -> f64; fn acos(x: f64) -> f64; fn atan(x: f64) -> f64; fn sinh(x: f64) -> f64; fn cosh(x: f64) -> f64; fn tanh(x: f64) -> f64; fn cbrt(x: f64) -> f64; fn log1p(x: f64) -> f64; fn expm1(x: f64) -> f64; fn exp2(x: f64) -> f64; }
const LIBM: [(&str, unsafe extern "C" fn(f64) -> f64); 17] = [("log", log), ("exp", exp), ("log2", log2), ("log10", log10), ("sin", sin), ("cos", cos), ("tan", tan), ("asin", asin), ("acos", acos), ("atan", atan), ("sinh", sinh), ("cosh", cosh), ("tanh", tanh), ("cbrt", cbrt), ("log1p", log1p), ("expm1", expm1), ("exp2", exp2)];
macro_rules! libm_ev { ($($i:expr),*) => { [$( { fn f(x: &[u128]) -> u128 { let r = unsafe { LIBM[$i].1(f64::from_bits(x[0] as u64)) }; if r.is_nan() { 0x7ff8000000000000 } else { r.to_bits() as u128 } } f as fn(&[u128]) -> u128 } ),*] } }
fn libm_eval(i: usize) -> fn(&[u128]) -> u128 { let t: [fn(&[u128]) -> u128; 17] = libm_ev!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); t[i] }
fn pow_eval(x: &[u128]) -> u128 { let r = unsafe { pow(f64::from_bits(x[0] as u64), f64::from_bits(x[1] as u64)) }; if r.is_nan() { 0x7ff8000000000000 } else { r.to_bits() as u128 } }

type R<T> = Result<T, End>;

impl Ex {
    pub fn new(m: Module, o: Opts) -> Ex {
        let n = m.funcs.len();
        Ex { m, ts: Terms::new(o.real), z: Z3::new(o.real, o.rlimit), o, handlers: vec![None; n], work: vec![], cur: None, globals: HashMap::default(), cache: HashMap::default(),
            insts: 0, paths: [0; 8], covers: BTreeMap::new(), asserts: BTreeMap::new(), viols: vec![], vcount: HashMap::default(), closes: HashMap::default(), wide: 0, var_ids: HashMap::default(), samples: vec![], funcs_seen: BTreeSet::new(), unsup: BTreeMap::new(), stubbed: BTreeSet::new(),
            cache_hits: 0, start: std::time::Instant::now(), token: None, have_token: true, children: vec![], stop: false, tick: 0, forks_total: 0 }
    }
    fn st(&mut self) -> &mut State { self.cur.as_mut().unwrap() }
    fn sr(&self) -> &State { self.cur.as_ref().unwrap() }

    // ---------- values ----------
    fn term(&mut self, v: &Val, w: u32) -> Tid {
        match v { Val::C(c) => self.ts.konst(w, *c), Val::T(t) => *t, Val::A(_) => panic!("lsx: aggregate used as scalar") }
    }
    fn val(&self, t: Tid) -> Val { match self.ts.as_const(t) { Some(c) => Val::C(c), None => Val::T(t) } }
    fn cv(&self, c: &CV) -> Val { match c { CV::S(x) => Val::C(*x), CV::A(v) => Val::A(Rc::new(v.iter().map(|x| self.cv(x)).collect())) } }
    fn get(&self, o: &Op) -> Val {
        match o { Op::R(r) => self.sr().frames.last().unwrap().regs[*r as usize].clone(), Op::C(c) => Val::C(*c), Op::A(a) => Val::A(Rc::new(a.iter().map(|x| self.cv(x)).collect())) }
    }
    fn set(&mut self, r: u32, v: Val) { self.st().frames.last_mut().unwrap().regs[r as usize] = v; }
    fn zero(&self, t: Ty) -> Val { self.cv(&self.m.zero(t)) }

    // ---------- solver ----------
    fn slice(&mut self, extra: &[Tid]) -> Vec<Tid> {
        let mut vs = u128x2::default();
        for e in extra { vs = vs.or(self.ts.vars[*e as usize]); }
        let pc = self.sr().pc.clone();
        let mut taken = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, t) in pc.iter().enumerate() {
                if !taken[i] { let v = self.ts.vars[*t as usize]; if v.hits(vs) || v.is_zero() { taken[i] = true; vs = vs.or(v); ch = true; } }
            }
            if !ch { break; }
        }
        let mut r: Vec<Tid> = pc.iter().enumerate().filter(|(i, _)| taken[*i]).map(|(_, t)| *t).collect();
        r.sort(); r.dedup();
        r
    }
    /// Some(model) if pc && c is satisfiable
    fn feasible(&mut self, c: Tid) -> R<Option<Vec<u128>>> {
        match self.ts.as_const(c) { Some(0) => return Ok(None), Some(_) if !self.o.real => return Ok(Some(self.sr().model.clone())), _ => {} }
        let sl = self.slice(&[c]);
        let key = (sl, c);
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return Ok(match r { None => None, Some(m) => { let mut md = self.sr().model.clone(); let vs = self.query_vars(&key.0, c); self.merge(&mut md, m, vs); Some(md) } });
        }
        let mut cs = key.0.clone();
        cs.push(c);
        let mut model = self.sr().model.clone();
        let r = self.z.check(&mut self.ts, &cs, &mut model, false);
        match r {
            Sat::Sat => { self.cache.insert(key, Some(Rc::new(model.clone()))); Ok(Some(model)) }
            Sat::Unsat => { self.cache.insert(key, None); Ok(None) }
            Sat::Unknown => Err(End::Unknown("solver gave up".into())),
        }
    }
    fn query_vars(&self, sl: &[Tid], c: Tid) -> u128x2 { sl.iter().fold(self.ts.vars[c as usize], |s, t| s.or(self.ts.vars[*t as usize])) }
    fn merge(&self, md: &mut Vec<u128>, m: &[u128], vs: u128x2) {
        for i in 0..256u32 { if vs.hits(u128x2::bit(i)) { let v = m.get(i as usize).copied().unwrap_or(0); if md.len() <= i as usize { md.resize(i as usize + 1, 0); } md[i as usize] = v; } }
    }
    fn untrusted(&self, c: Tid) -> bool { self.o.real && self.ts.has_float(c) || self.ts.has_uf(c) }
    fn add_pc(&mut self, c: Tid) {
        if self.ts.as_const(c) == Some(1) { return; }
        // split conjunctions
        if let N::Bin(B::And, a, b) = self.ts.nodes[c as usize] { if self.ts.width(c) == 1 { self.add_pc(a); self.add_pc(b); self.note(c, true); return; } }
        if !self.sr().pc.contains(&c) { Rc::make_mut(&mut self.st().pc).push(c); }
        self.note(c, true);
    }
    fn note(&mut self, c: Tid, v: bool) { let n = self.ts.not(c); let k = Rc::make_mut(&mut self.st().known); k.insert(c, v); k.insert(n, !v); }
    pub fn ev(&mut self, t: Tid) -> u128 {
        self.ts.new_eval();
        let s = self.cur.take().unwrap();
        let r = self.ts.eval(t, &s.model);
        self.cur = Some(s);
        r
    }
    /// Decide a condition, forking when both outcomes are possible. The other state re-executes the current instruction.
    fn decide(&mut self, c: Tid) -> R<bool> {
        if let Some(v) = self.ts.as_const(c) { return Ok(v == 1); }
        if let Some(&v) = self.sr().known.get(&c) { return Ok(v); }
        let nc = self.ts.not(c);
        let mut side = self.ev(c) == 1;
        if self.untrusted(c) {
            let (x, y) = if side { (c, nc) } else { (nc, c) };
            match self.feasible(x)? {
                None => { // the guessed side is impossible
                    match self.feasible(y)? { None => return Err(End::Assume), Some(m) => { self.st().model = m; side = !side; let k = if side { c } else { nc }; self.note(k, true); return Ok(side); } }
                }
                Some(m) => self.st().model = m,
            }
        }
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        if let Some(m) = self.feasible(other)? {
            let mut s2 = self.sr().clone();
            s2.model = m;
            s2.forks += 1;
            let me = self.cur.take();
            self.cur = Some(s2);
            self.add_pc(other);
            let s2 = self.cur.take().unwrap();
            self.cur = me;
            self.work.push(s2);
            self.forks_total += 1;
            self.add_pc(mine);
            self.maybe_split();
        } else {
            self.note(mine, true);
        }
        Ok(side)
    }
    fn concretize(&mut self, t: Tid) -> R<u128> {
        loop {
            if let Some(c) = self.ts.as_const(t) { return Ok(c); }
            let v = self.ev(t);
            let w = self.ts.width(t);
            let k = self.ts.konst(w, v);
            let e = self.ts.cmp(P::Eq, t, k);
            if self.decide(e)? { return Ok(v); }
            if self.ev(t) == v {
                // the model is stale: ask for another value
                let ne = self.ts.not(e);
                match self.feasible(ne)? { None => return Err(End::Assume), Some(m) => self.st().model = m }
                if self.ev(t) == v { return Err(End::Unknown("model does not follow the solver".into())); }
            }
        }
    }
    fn conc(&mut self, v: &Val) -> R<u128> { match v { Val::C(c) => Ok(*c), Val::T(t) => self.concretize(*t), _ => panic!() } }

    // ---------- memory ----------
    fn find_obj(&mut self, a: u64) -> Option<Rc<Obj>> {
        if let Some((_, o)) = self.sr().mem.range(..=a).next_back() { if a < o.base + o.size.max(1) { return Some(o.clone()); } }
        if a >= 0x2000_0000 && a < self.m.next_addr {
            let (base, gi) = { let (b, g) = self.m.gaddr.range(..=a).next_back()?; (*b, *g) };
            let size = self.m.globals[gi as usize].size;
            if a >= base + size.max(1) { return None; }
            let o = if let Some(o) = self.globals.get(&base) { o.clone() } else {
                let g = &self.m.globals[gi as usize];
                let (ty, ro) = (g.ty, g.constant);
                let mut o = Obj { base, size, data: vec![0; size as usize], sym: None, ro, kind: 0 };
                if let Some(c) = self.m.global_init(gi) { let mut d = std::mem::take(&mut o.data); self.init(&c, ty, &mut d, 0); o.data = d; }
                let o = Rc::new(o);
                self.globals.insert(base, o.clone());
                o
            };
            self.st().mem.insert(base, o.clone());
            return Some(o);
        }
        None
    }
    fn init(&self, c: &CV, t: Ty, d: &mut [u8], off: usize) {
        let i = self.m.types.i(t);
        match (c, &i.k) {
            (CV::S(x), _) => { let n = i.store as usize; for k in 0..n { d[off + k] = (*x >> (8 * k)) as u8; } }
            (CV::A(v), TK::Struct(fs, _)) => for (k, x) in v.iter().enumerate() { self.init(x, fs[k], d, off + i.offs[k] as usize) },
            (CV::A(v), TK::Array(_, e)) | (CV::A(v), TK::Vector(_, e)) => { let s = self.m.types.i(*e).size as usize; for (k, x) in v.iter().enumerate() { self.init(x, *e, d, off + k * s) } }
            _ => panic!(),
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: u8) -> u64 {
        let s = self.st();
        let al = align.max(16);
        let a = (s.heap + al - 1) / al * al;
        s.heap = a + size.max(1) + 32;
        s.mem.insert(a, Rc::new(Obj { base: a, size, data: vec![if kind == 2 { 0xA5 } else { 0x5A }; size as usize], sym: None, ro: false, kind }));
        a
    }
    fn bad(&mut self, what: &str, a: u64, n: u64) -> End {
        let near = self.sr().mem.range(..=a).next_back().map(|(b, o)| format!("; nearest object [{:#x}, +{}] kind {}", b, o.size, o.kind)).unwrap_or_default();
        End::Mem(format!("invalid {what} of {n} bytes at {a:#x}{near}; in {}", self.stack()))
    }
    pub fn stack(&self) -> String { self.sr().frames.iter().rev().take(8).map(|f| demangle(&f.f.name)).collect::<Vec<_>>().join(" < ") }
    fn obj_for(&mut self, a: u64, n: u64, what: &str) -> R<Rc<Obj>> {
        match self.find_obj(a) { Some(o) if a + n <= o.base + o.size => Ok(o), _ => Err(self.bad(what, a, n)) }
    }
    fn rd(&mut self, o: &Obj, off: usize, n: usize) -> Val {
        let sym = match &o.sym { Some(s) if s[off..off + n].iter().any(|x| x.0 != Tid::MAX) => s, _ => {
            let mut v = 0u128; for k in (0..n).rev() { v = v << 8 | o.data[off + k] as u128; } return Val::C(v);
        } };
        // whole term?
        let (t0, b0) = sym[off];
        if t0 != Tid::MAX && b0 == 0 && self.ts.width(t0) as usize == 8 * n && (1..n).all(|k| sym[off + k] == (t0, k as u8)) { return Val::T(t0); }
        let mut acc: Option<Tid> = None;
        let mut k = 0;
        while k < n {
            let (t, b) = sym[off + k];
            let piece = if t == Tid::MAX { let mut j = k; let mut v = 0u128; while j < n && sym[off + j].0 == Tid::MAX { v |= (o.data[off + j] as u128) << (8 * (j - k)); j += 1; } let p = self.ts.konst(8 * (j - k) as u32, v); k = j; p }
            else { let mut j = k + 1; while j < n && sym[off + j] == (t, b + (j - k) as u8) { j += 1; } let p = self.ts.extract(t, 8 * b as u32, 8 * (j - k) as u32); k = j; p };
            acc = Some(match acc { None => piece, Some(a) => self.ts.concat(piece, a) });
        }
        let t = acc.unwrap();
        self.val(t)
    }
    fn wr(&mut self, base: u64, off: usize, n: usize, v: &Val) {
        let s = self.cur.as_mut().unwrap();
        let o = Rc::make_mut(s.mem.get_mut(&base).unwrap());
        match v {
            Val::C(c) => { for k in 0..n { o.data[off + k] = (*c >> (8 * k)) as u8; } if let Some(s) = &mut o.sym { for k in 0..n { s[off + k] = NOSYM; } } }
            Val::T(t) => {
                let sz = o.size as usize;
                let sy = o.sym.get_or_insert_with(|| vec![NOSYM; sz]);
                for k in 0..n { sy[off + k] = (*t, k as u8); }
            }
            _ => panic!(),
        }
    }
    fn scalar_bits(&self, t: Ty) -> u32 { self.m.types.i(t).bits }
    pub fn load(&mut self, p: &Val, t: Ty) -> R<Val> {
        let i = self.m.types.i(t).clone();
        match &i.k {
            TK::Struct(fs, _) => { let mut v = vec![]; for (k, f) in fs.iter().enumerate() { let q = self.padd(p, i.offs[k] as i64); v.push(self.load(&q, *f)?); } Ok(Val::A(Rc::new(v))) }
            TK::Array(n, e) => { let s = self.m.types.i(*e).size; let mut v = vec![]; for k in 0..*n { let q = self.padd(p, (k * s) as i64); v.push(self.load(&q, *e)?); } Ok(Val::A(Rc::new(v))) }
            TK::Vector(n, e) => {
                let eb = self.m.types.i(*e).bits;
                if eb % 8 != 0 { let st = i.store as u32; let x = self.load_n(p, st as u64)?; return Ok(self.unpack(&x, st * 8, *n, eb)); }
                let mut v = vec![]; for k in 0..*n { let q = self.padd(p, (k * eb as u64 / 8) as i64); v.push(self.load_n(&q, eb as u64 / 8)?); } Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let x = self.load_n(p, i.store)?;
                if i.bits as u64 == i.store * 8 { Ok(x) } else { match x { Val::C(c) => Ok(Val::C(c & mask(i.bits))), Val::T(t) => { let e = self.ts.extract(t, 0, i.bits); Ok(self.val(e)) } _ => panic!() } }
            }
        }
    }
    fn padd(&mut self, p: &Val, d: i64) -> Val {
        if d == 0 { return p.clone(); }
        match p { Val::C(c) => Val::C((*c as u64).wrapping_add(d as u64) as u128), Val::T(t) => { let k = self.ts.konst(64, d as u64 as u128); let r = self.ts.bin(B::Add, *t, k); self.val(r) } _ => panic!() }
    }
    fn load_n(&mut self, p: &Val, n: u64) -> R<Val> {
        match p {
            Val::C(a) => { let a = *a as u64; let o = self.obj_for(a, n, "read")?; Ok(self.rd(&o, (a - o.base) as usize, n as usize)) }
            Val::T(t) => {
                let cands = self.addresses(*t, n)?;
                let w = 8 * n as u32;
                let mut acc: Option<Tid> = None;
                for (c, a) in cands.into_iter().rev() {
                    let o = self.obj_for(a, n, "read")?;
                    let v = self.rd(&o, (a - o.base) as usize, n as usize);
                    let v = self.term(&v, w);
                    acc = Some(match acc { None => v, Some(x) => self.ts.ite(c, v, x) });
                }
                let t = acc.unwrap();
                Ok(self.val(t))
            }
            _ => panic!(),
        }
    }
    fn store_n(&mut self, p: &Val, n: u64, v: &Val) -> R<()> {
        match p {
            Val::C(a) => {
                let a = *a as u64;
                let o = self.obj_for(a, n, "write")?;
                if o.ro { return Err(self.bad("write to read-only memory", a, n)); }
                let (b, off) = (o.base, (a - o.base) as usize);
                drop(o);
                self.wr(b, off, n as usize, v);
            }
            Val::T(t) => {
                let cands = self.addresses(*t, n)?;
                let w = 8 * n as u32;
                let nv = self.term(v, w);
                let mut ws = vec![];
                for (c, a) in cands {
                    let o = self.obj_for(a, n, "write")?;
                    if o.ro { return Err(self.bad("write to read-only memory", a, n)); }
                    let off = (a - o.base) as usize;
                    let old = self.rd(&o, off, n as usize);
                    let old = self.term(&old, w);
                    let x = self.ts.ite(c, nv, old);
                    ws.push((o.base, off, self.val(x)));
                }
                for (b, off, x) in ws { self.wr(b, off, n as usize, &x); }
            }
            _ => panic!(),
        }
        Ok(())
    }
    /// All addresses a symbolic pointer may take, each with the condition under which it is taken. Writes through the
    /// list are independent (conditions are exclusive), all candidates lie in valid objects.
    fn addresses(&mut self, t: Tid, n: u64) -> R<Vec<(Tid, u64)>> {
        let one = self.ts.konst(1, 1);
        let mut out = vec![];
        if self.leaves(t, one, 0, &mut out) {
            // check each leaf
            let mut ok = vec![];
            for (c, a) in out {
                match self.find_obj(a) { Some(o) if a + n <= o.base + o.size => ok.push((c, a)),
                    _ => { if self.decide(c)? { return Err(self.bad("access", a, n)); } } }
            }
            if ok.is_empty() { return Err(End::Assume); }
            return Ok(ok);
        }
        let a0 = self.ev(t) as u64;
        let o = match self.find_obj(a0) { Some(o) => o, None => { // confirm this address really is possible
            let k = self.ts.konst(64, a0 as u128); let e = self.ts.cmp(P::Eq, t, k);
            if self.decide(e)? { return Err(self.bad("access", a0, n)); } else { return Err(End::Assume); } } };
        let kb = self.ts.konst(64, o.base as u128);
        let off = self.ts.bin(B::Sub, t, kb);
        if o.size < n { return Err(self.bad("access", a0, n)); }
        let lim = self.ts.konst(64, (o.size - n) as u128);
        let inb = self.ts.cmp(P::Ule, off, lim);
        if !self.decide(inb)? {
            // not within this object: is it a different valid object, or out of bounds?
            let a1 = self.ev(t) as u64;
            let k = self.ts.konst(64, a1 as u128); let e = self.ts.cmp(P::Eq, t, k);
            let _ = self.decide(e)?;
            return match self.find_obj(a1) { Some(o2) if a1 + n <= o2.base + o2.size => Ok(vec![(one, a1)]), _ => Err(self.bad("access", a1, n)) };
        }
        // candidate offsets
        let mut step = 1u64;
        for sh in (1..=6).rev() { let low = self.ts.extract(off, 0, sh); if let Some(0) = self.ts.as_const(low) { step = 1 << sh; break; } }
        let (lo, hi) = (self.ts.umin_of(off) as u64, (self.ts.umax(off).min((o.size - n) as u128)) as u64);
        let lo = (lo + step - 1) / step * step;
        let cnt = if hi >= lo { (hi - lo) / step + 1 } else { 0 };
        let mut res = vec![];
        if cnt <= 40 {
            let mut x = lo;
            while x <= hi { let k = self.ts.konst(64, x as u128); let e = self.ts.cmp(P::Eq, off, k); if self.sr().known.get(&e) != Some(&false) && self.ts.as_const(e) != Some(0) { res.push((e, o.base + x)); } x += step; }
        } else {
            // ask the solver for the feasible values, up to a limit
            let mut excl = one;
            loop {
                match self.feasible(excl)? {
                    None => break,
                    Some(md) => {
                        self.ts.new_eval();
                        let x = self.ts.eval(off, &md);
                        let k = self.ts.konst(64, x); let e = self.ts.cmp(P::Eq, off, k);
                        res.push((e, o.base + x as u64));
                        let ne = self.ts.not(e);
                        excl = self.ts.bin(B::And, excl, ne);
                        if res.len() > 64 { let v = self.concretize(off)?; return Ok(vec![(one, o.base + v as u64)]); }
                    }
                }
            }
        }
        if res.is_empty() { return Err(End::Assume); }
        Ok(res)
    }
    fn leaves(&mut self, t: Tid, c: Tid, add: u64, out: &mut Vec<(Tid, u64)>) -> bool {
        if out.len() > 48 { return false; }
        match self.ts.nodes[t as usize] {
            N::Const(k) => { out.push((c, (k as u64).wrapping_add(add))); true }
            N::Ite(cc, a, b) => {
                let x = self.ts.bin(B::And, c, cc);
                let n = self.ts.not(cc);
                let y = self.ts.bin(B::And, c, n);
                (self.ts.as_const(x) == Some(0) || self.sr().known.get(&cc) == Some(&false) || self.leaves(a, x, add, out)) && (self.ts.as_const(y) == Some(0) || self.sr().known.get(&cc) == Some(&true) || self.leaves(b, y, add, out))
            }
            N::Bin(B::Add, a, b) => { if let Some(k) = self.ts.as_const(b) { self.leaves(a, c, add.wrapping_add(k as u64), out) } else { false } }
            _ => false,
        }
    }
    pub fn store(&mut self, p: &Val, t: Ty, v: &Val) -> R<()> {
        let i = self.m.types.i(t).clone();
        match (&i.k, v) {
            (TK::Struct(fs, _), Val::A(vs)) => { for (k, f) in fs.iter().enumerate() { let q = self.padd(p, i.offs[k] as i64); self.store(&q, *f, &vs[k])?; } Ok(()) }
            (TK::Array(_, e), Val::A(vs)) => { let s = self.m.types.i(*e).size; for k in 0..vs.len() { let q = self.padd(p, (k as u64 * s) as i64); self.store(&q, *e, &vs[k])?; } Ok(()) }
            (TK::Vector(n, e), Val::A(vs)) => {
                let eb = self.m.types.i(*e).bits;
                if eb % 8 != 0 { let x = self.pack(vs, eb); let tot = *n as u32 * eb; let x = self.zx(&x, tot, i.store as u32 * 8); return self.store_n(p, i.store, &x); }
                for k in 0..*n { let q = self.padd(p, (k * eb as u64 / 8) as i64); self.store_n(&q, eb as u64 / 8, &vs[k as usize])?; } Ok(())
            }
            _ => { let x = self.zx(v, i.bits, i.store as u32 * 8); self.store_n(p, i.store, &x) }
        }
    }
    fn zx(&mut self, v: &Val, from: u32, to: u32) -> Val {
        if from == to { return v.clone(); }
        match v { Val::C(c) => Val::C(*c), Val::T(t) => { let r = self.ts.zext(*t, to); self.val(r) } _ => panic!() }
    }
    fn pack(&mut self, vs: &[Val], eb: u32) -> Val {
        if vs.iter().all(|v| matches!(v, Val::C(_))) && eb as usize * vs.len() <= 128 { let mut r = 0u128; for v in vs.iter().rev() { if let Val::C(c) = v { r = if eb >= 128 { *c } else { r << eb | *c } } } return Val::C(r); }
        if eb as usize * vs.len() > 128 { panic!("lsx: packing more than 128 bits"); }
        let mut acc: Option<Tid> = None;
        for v in vs { let t = self.term(v, eb); acc = Some(match acc { None => t, Some(a) => self.ts.concat(t, a) }); }
        let t = acc.unwrap(); self.val(t)
    }
    fn unpack(&mut self, v: &Val, w: u32, n: u64, eb: u32) -> Val {
        let t = self.term(v, w);
        let mut r = vec![];
        for k in 0..n as u32 { let e = self.ts.extract(t, k * eb, eb); r.push(self.val(e)); }
        Val::A(Rc::new(r))
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let so = self.obj_for(s, n, "read")?;
        let dobj = self.obj_for(d, n, "write")?;
        if dobj.ro { return Err(self.bad("write to read-only memory", d, n)); }
        let (db, doff, soff, n) = (dobj.base, (d - dobj.base) as usize, (s - so.base) as usize, n as usize);
        drop(dobj);
        let bytes = so.data[soff..soff + n].to_vec();
        let sym = match &so.sym { Some(y) if y[soff..soff + n].iter().any(|x| x.0 != Tid::MAX) => Some(y[soff..soff + n].to_vec()), _ => None };
        drop(so);
        let st = self.cur.as_mut().unwrap();
        let o = Rc::make_mut(st.mem.get_mut(&db).unwrap());
        o.data[doff..doff + n].copy_from_slice(&bytes);
        match sym {
            Some(y) => { let sz = o.size as usize; let sy = o.sym.get_or_insert_with(|| vec![NOSYM; sz]); sy[doff..doff + n].copy_from_slice(&y); }
            None => if let Some(sy) = &mut o.sym { for x in &mut sy[doff..doff + n] { *x = NOSYM; } }
        }
        Ok(())
    }
    fn free(&mut self, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        match self.st().mem.remove(&a) { Some(o) if o.kind == 2 => Ok(()), Some(_) | None => Err(End::Mem(format!("free of a non-heap address {a:#x}; in {}", self.stack()))) }
    }

    // ---------- scalar operations ----------
    fn bin(&mut self, k: BinK, w: u32, a: &Val, b: &Val, fl: bool) -> R<Val> {
        let ib = match k { BinK::Add => Some(B::Add), BinK::Sub => Some(B::Sub), BinK::Mul => Some(B::Mul), BinK::UDiv => Some(B::UDiv), BinK::SDiv => Some(B::SDiv), BinK::URem => Some(B::URem), BinK::SRem => Some(B::SRem),
            BinK::And => Some(B::And), BinK::Or => Some(B::Or), BinK::Xor => Some(B::Xor), BinK::Shl => Some(B::Shl), BinK::LShr => Some(B::LShr), BinK::AShr => Some(B::AShr), _ => None };
        if let Some(op) = ib {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                if *y == 0 && matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) { return Err(End::Mem(format!("division by zero in {}", self.stack()))); }
                return Ok(Val::C(c_bin(op, w, *x, *y)));
            }
            let (x, y) = (self.term(a, w), self.term(b, w));
            if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
                let z = self.ts.konst(w, 0); let e = self.ts.cmp(P::Eq, y, z);
                if self.decide(e)? { return Err(End::Mem(format!("division by zero in {}", self.stack()))); }
            }
            let r = self.ts.bin(op, x, y);
            return Ok(self.val(r));
        }
        let _ = fl;
        let op = match k { BinK::FAdd => FB::Add, BinK::FSub => FB::Sub, BinK::FMul => FB::Mul, BinK::FDiv => FB::Div, _ => FB::Rem };
        if !self.o.real { if let (Val::C(x), Val::C(y)) = (a, b) { return Ok(Val::C(c_fbin(op, w, *x, *y))); } }
        let (x, y) = (self.term(a, w), self.term(b, w));
        if self.o.real && op == FB::Div {
            let z = self.ts.konst(w, 0); let e = self.ts.fcmp(FP::Oeq, y, z);
            if self.decide(e)? { return Err(End::Assume); } // division by zero has no exact-arithmetic meaning: outside the real-mode claim
        }
        let r = self.ts.fbin(op, x, y);
        Ok(self.val(r))
    }
    fn icmp(&mut self, k: ICmpK, w: u32, a: &Val, b: &Val) -> Val {
        let (p, sw, neg) = match k { ICmpK::Eq => (P::Eq, false, false), ICmpK::Ne => (P::Eq, false, true), ICmpK::Ult => (P::Ult, false, false), ICmpK::Ule => (P::Ule, false, false), ICmpK::Ugt => (P::Ult, true, false), ICmpK::Uge => (P::Ule, true, false),
            ICmpK::Slt => (P::Slt, false, false), ICmpK::Sle => (P::Sle, false, false), ICmpK::Sgt => (P::Slt, true, false), ICmpK::Sge => (P::Sle, true, false) };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (Val::C(x), Val::C(y)) = (a, b) { return Val::C((c_cmp(p, w, *x, *y) ^ neg) as u128); }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let mut t = self.ts.cmp(p, x, y);
        if neg { t = self.ts.not(t); }
        self.val(t)
    }
    fn fcmp(&mut self, k: u8, w: u32, a: &Val, b: &Val) -> Val {
        // LLVM: bit0 = eq, bit1 = gt, bit2 = lt, bit3 = unordered
        if k == 0 { return Val::C(0); }
        if k == 15 { return Val::C(1); }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let t = &mut self.ts;
        let uno = t.fcmp(FP::Uno, x, y);
        let r = match k {
            1 => t.fcmp(FP::Oeq, x, y), 2 => t.fcmp(FP::Olt, y, x), 3 => t.fcmp(FP::Ole, y, x), 4 => t.fcmp(FP::Olt, x, y), 5 => t.fcmp(FP::Ole, x, y),
            6 => { let e = t.fcmp(FP::Oeq, x, y); let o = t.bin(B::Or, e, uno); t.not(o) }
            7 => t.not(uno), 8 => uno,
            9 => { let e = t.fcmp(FP::Oeq, x, y); t.bin(B::Or, e, uno) }
            10 => { let e = t.fcmp(FP::Ole, x, y); t.not(e) }
            11 => { let e = t.fcmp(FP::Olt, x, y); t.not(e) }
            12 => { let e = t.fcmp(FP::Ole, y, x); t.not(e) }
            13 => { let e = t.fcmp(FP::Olt, y, x); t.not(e) }
            _ => { let e = t.fcmp(FP::Oeq, x, y); t.not(e) }
        };
        self.val(r)
    }
    fn cast(&mut self, k: CastK, t1: Ty, t2: Ty, a: &Val) -> R<Val> {
        let (i1, i2) = (self.m.types.i(t1).clone(), self.m.types.i(t2).clone());
        if k == CastK::BitCast {
            return Ok(match (&i1.k, &i2.k) {
                (TK::Vector(n, e), TK::Vector(n2, e2)) => { let Val::A(v) = a else { panic!() }; let (eb, eb2) = (self.scalar_bits(*e), self.scalar_bits(*e2));
                    let p = self.pack(v, eb); self.unpack(&p, *n as u32 * eb, *n2, eb2) }
                (TK::Vector(_, e), _) => { let Val::A(v) = a else { panic!() }; let eb = self.scalar_bits(*e); self.pack(v, eb) }
                (_, TK::Vector(n, e)) => { let eb = self.scalar_bits(*e); self.unpack(a, i1.bits, *n, eb) }
                _ => a.clone(),
            });
        }
        if let (TK::Vector(_, e1), TK::Vector(_, e2)) = (&i1.k, &i2.k) {
            let Val::A(v) = a else { panic!() };
            let mut r = vec![];
            for x in v.iter() { r.push(self.cast(k, *e1, *e2, x)?); }
            return Ok(Val::A(Rc::new(r)));
        }
        let (w1, w2) = (i1.bits, i2.bits);
        if let Val::C(c) = a {
            let c = *c;
            match k {
                CastK::ZExt => return Ok(Val::C(c)),
                CastK::SExt => return Ok(Val::C(sext(c, w1) as u128 & mask(w2))),
                CastK::Trunc | CastK::PtrToInt | CastK::IntToPtr => return Ok(Val::C(c & mask(w2))),
                CastK::SiToFp => return Ok(Val::C(c_stof(w1, w2, c))),
                CastK::UiToFp => return Ok(Val::C(c_utof(w2, c))),
                _ if self.o.real => {}
                CastK::FpToSi => return Ok(Val::C(c_ftos(w1, w2, c))),
                CastK::FpToUi => return Ok(Val::C(c_ftou(w1, w2, c))),
                _ => return Ok(Val::C(c_ftof(w1, w2, c))),
            }
        }
        let t = self.term(a, w1);
        let ts = &mut self.ts;
        let r = match k {
            CastK::ZExt => ts.zext(t, w2), CastK::SExt => ts.sext(t, w2),
            CastK::Trunc | CastK::PtrToInt | CastK::IntToPtr => if w2 < w1 { ts.extract(t, 0, w2) } else { ts.zext(t, w2) },
            CastK::SiToFp => ts.stof(t, w2), CastK::UiToFp => ts.utof(t, w2), CastK::FpToSi => ts.ftos(t, w2), CastK::FpToUi => ts.ftou(t, w2),
            _ => ts.ftof(t, w2),
        };
        Ok(self.val(r))
    }
    fn sel(&mut self, c: &Val, t: Ty, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::C(k) => Ok(if *k & 1 == 1 { a.clone() } else { b.clone() }),
            Val::T(ct) => {
                match (a, b) {
                    (Val::A(x), Val::A(y)) => {
                        let k = self.m.types.i(t).k.clone();
                        let mut r = vec![];
                        for i in 0..x.len() { let et = match &k { TK::Struct(f, _) => f[i], TK::Array(_, e) | TK::Vector(_, e) => *e, _ => panic!() }; r.push(self.sel(c, et, &x[i], &y[i])?); }
                        Ok(Val::A(Rc::new(r)))
                    }
                    _ => { let w = self.scalar_bits(t); let (x, y) = (self.term(a, w), self.term(b, w)); let r = self.ts.ite(*ct, x, y); Ok(self.val(r)) }
                }
            }
            _ => panic!(),
        }
    }
    fn dconst(&self, w: u32, d: f64) -> u128 { if w == 64 { d.to_bits() as u128 } else { (d as f32).to_bits() as u128 } }

    // ---------- calls ----------
    fn handler(&mut self, id: u32) -> H {
        if let Some(h) = self.handlers[id as usize] { return h; }
        let n = self.m.funcs[id as usize].0.clone();
        let h = self.resolve(&n, self.m.funcs[id as usize].1.is_some());
        self.handlers[id as usize] = Some(h);
        h
    }
    fn resolve(&mut self, n: &str, def: bool) -> H {
        for (pat, what) in &self.o.stubs { if pat.split('&').all(|p| n.contains(p)) { self.stubbed.insert(n.to_string()); return match what.as_str() { "nop" => H::Nop, "zero" => H::RetZero, "panic" => H::Panic, "trap" => H::Trap, "palloc" => H::Palloc(0), "palloc_ctx" => H::Palloc(1), "format" => H::FormatInner, "pfree" => H::Pfree, _ => H::Nop }; } }
        if n.contains("4core9panicking") || n.contains("3std9panicking11begin_panic") || n.contains("3std9panicking15begin_panic") || n.contains("18handle_alloc_error") || n.contains("17capacity_overflow") || n.contains("3std5panic9panic_any") || n.contains("5alloc7raw_vec12handle_error") || n.contains("rust_begin_unwind") || n.contains("3std7process5abort") || n.contains("3std7process4exit") { return H::Panic; }
        if let Some(i) = n.strip_prefix("llvm.") {
            let base = i;
            let is = |p: &str| base.starts_with(p);
            return if is("lifetime") || is("assume") || is("experimental.noalias") || is("dbg") || is("prefetch") || is("invariant") || is("donothing") { H::Nop }
            else if is("memcpy") || is("memmove") { H::Memcpy } else if is("memset") { H::Memset }
            else if is("umin") { H::Min(false) } else if is("smin") { H::Min(true) } else if is("umax") { H::Max(false) } else if is("smax") { H::Max(true) }
            else if is("abs.") { H::Abs } else if is("ctlz") { H::Ctlz } else if is("cttz") { H::Cttz } else if is("ctpop") { H::Ctpop } else if is("bswap") { H::Bswap } else if is("bitreverse") { H::BitRev }
            else if is("fshl") { H::FShl } else if is("fshr") { H::FShr }
            else if is("uadd.sat") { H::Sat(B::Add, false) } else if is("usub.sat") { H::Sat(B::Sub, false) } else if is("sadd.sat") { H::Sat(B::Add, true) } else if is("ssub.sat") { H::Sat(B::Sub, true) }
            else if is("uadd.with") { H::Ovf(B::Add, false) } else if is("usub.with") { H::Ovf(B::Sub, false) } else if is("umul.with") { H::Ovf(B::Mul, false) }
            else if is("sadd.with") { H::Ovf(B::Add, true) } else if is("ssub.with") { H::Ovf(B::Sub, true) } else if is("smul.with") { H::Ovf(B::Mul, true) }
            else if is("ucmp") { H::CmpI(false) } else if is("scmp") { H::CmpI(true) }
            else if is("is.constant") { H::RetZero } else if is("expect") || is("launder") || is("strip.inv") || is("ssa.copy") || is("threadlocal.address") { H::Ident } else if is("ptrmask") { H::PtrMask }
            else if is("fabs") { H::FUn(FU::Abs) } else if is("sqrt") { H::FUn(FU::Sqrt) } else if is("floor") { H::FUn(FU::Floor) } else if is("ceil") { H::FUn(FU::Ceil) } else if is("trunc") { H::FUn(FU::Trunc) } else if is("roundeven") || is("rint") || is("nearbyint") { H::FUn(FU::RoundEven) } else if is("round") { H::FUn(FU::RoundAway) }
            else if is("minnum") { H::FMin } else if is("maxnum") { H::FMax } else if is("minimumnum") { H::FMin } else if is("maximumnum") { H::FMax } else if is("minimum") { H::FMinimum } else if is("maximum") { H::FMaximum } else if is("copysign") { H::CopySign } else if is("fma.") || is("fmuladd") { H::Fma } else if is("powi") { H::Powi } else if is("pow.") { H::MathPow }
            else if is("fptosi.sat") { H::FToISat(true) } else if is("fptoui.sat") { H::FToISat(false) } else if is("is.fpclass") { H::IsFpClass }
            else if is("vector.reduce.add") { H::Red(BinK::Add) } else if is("vector.reduce.or") { H::Red(BinK::Or) } else if is("vector.reduce.and") { H::Red(BinK::And) } else if is("vector.reduce.xor") { H::Red(BinK::Xor) } else if is("vector.reduce.mul") { H::Red(BinK::Mul) }
            else if is("vector.reduce.umax") { H::RedMM(true, false) } else if is("vector.reduce.umin") { H::RedMM(false, false) } else if is("vector.reduce.smax") { H::RedMM(true, true) } else if is("vector.reduce.smin") { H::RedMM(false, true) }
            else if is("x86.sse2.pmovmskb") { H::PmovmskB } else if is("trap") || is("ubsantrap") || is("debugtrap") { H::Trap } else if is("stacksave") { H::RetZero } else if is("stackrestore") { H::Nop }
            else if let Some(k) = LIBM.iter().position(|(x, _)| base.starts_with(&format!("{x}."))) { H::Libm(k as u8) }
            else { H::Interp };
        }
        if let Some(k) = LIBM.iter().position(|(x, _)| n == *x) { return H::Libm(k as u8); }
        match n {
            "sx_in" => return H::SxIn, "sx_f64" => return H::SxF64, "sx_assume" => return H::SxAssume, "sx_assert" => return H::SxAssert, "sx_cover" => return H::SxCover, "sx_observe" => return H::SxObs, "sx_panic_ok" => return H::SxPanicOk, "sx_concretize" => return H::SxConc, "sx_close" => return H::SxClose, "sx_param" => return H::SxParam, "sx_is_symbolic" => return H::SxIsSymbolic,
            _ => {}
        }
        if def { return H::Interp; }
        match n {
            "malloc" => H::Malloc, "calloc" => H::Calloc, "realloc" => H::Realloc, "free" => H::Free, "posix_memalign" => H::PosixMemalign, "aligned_alloc" | "memalign" => H::AlignedAlloc,
            "bcmp" => H::Bcmp, "memcmp" => H::Memcmp, "strlen" => H::Strlen, "memchr" => H::Memchr, "memcpy" | "memmove" => H::Memcpy, "memset" => H::Memset, "getrandom" | "syscall" => H::Getrandom, "pow" => H::MathPow, "fma" => H::Fma, "abort" | "exit" | "_exit" => H::Panic,
            "fmod" => H::Interp, "getenv" | "pthread_atfork" | "__register_atfork" => H::RetZero,
            "palloc" | "palloc0" => { self.stubbed.insert(n.to_string()); H::Palloc(if n == "palloc0" { 2 } else { 0 }) }
            "MemoryContextAlloc" | "MemoryContextAllocExtended" | "MemoryContextAllocHuge" => { self.stubbed.insert(n.to_string()); H::Palloc(1) }
            "MemoryContextAllocZero" | "MemoryContextAllocZeroAligned" => { self.stubbed.insert(n.to_string()); H::Palloc(3) }
            "repalloc" => { self.stubbed.insert(n.to_string()); H::Repalloc }
            "pfree" => { self.stubbed.insert(n.to_string()); H::Pfree }
            "__sigsetjmp" | "sigsetjmp" | "_setjmp" | "setjmp" => { self.stubbed.insert(n.to_string()); H::RetZero }
            _ => H::Interp,
        }
    }
    fn string_at(&mut self, a: u64, n: u64) -> String {
        match self.find_obj(a) { Some(o) if a + n <= o.base + o.size && n < 4096 => { let s = (a - o.base) as usize; String::from_utf8_lossy(&o.data[s..s + n as usize]).into_owned() } _ => String::new() }
    }
    fn panic_info(&mut self, id: u32, args: &[(Ty, Val)]) -> String {
        let name = demangle(&self.m.funcs[id as usize].0);
        let mut loc = String::new();
        for (_, a) in args.iter().rev() {
            if let Val::C(p) = a {
                let p = *p as u64;
                if let Some(o) = self.find_obj(p) {
                    if o.kind == 0 && o.size == 24 && p == o.base && o.data.len() == 24 {
                        let g = |k: usize| u64::from_le_bytes(o.data[k..k + 8].try_into().unwrap());
                        let line = u32::from_le_bytes(o.data[16..20].try_into().unwrap());
                        loc = format!("{}:{}", self.string_at(g(0), g(8)).trim_end_matches('\0'), line);
                        break;
                    }
                }
            }
        }
        format!("{name} at {loc}; in {}", self.stack())
    }

    /// returns Ok(Some(v)) for a handled call, Ok(None) when a frame was pushed
    fn call(&mut self, id: u32, rt: Ty, args: Vec<(Ty, Val)>, dst: Option<u32>, nd: Option<u32>) -> R<Option<Val>> {
        let h = self.handler(id);
        if h == H::Interp {
            let name = &self.m.funcs[id as usize].0;
            if self.m.funcs[id as usize].1.is_none() { return Err(End::Unsup(format!("call of external function {name} in {}", self.stack()))); }
            let f = self.m.func(id);
            self.funcs_seen.insert(id);
            let mut regs = vec![Val::C(0); f.nregs as usize];
            for (k, p) in f.params.iter().enumerate() { regs[*p as usize] = args[k].1.clone(); }
            if self.sr().frames.len() > 4000 { return Err(End::Steps); }
            self.st().frames.push(Frame { f, regs, blk: 0, ip: 0, allocas: vec![], dst, nd, fid: id });
            return Ok(None);
        }
        let vec_ret = if let TK::Vector(_, e) = self.m.types.i(rt).k { Some(e) } else { None };
        if let (Some(e), true) = (vec_ret, matches!(h, H::Min(_) | H::Max(_) | H::Abs | H::Ctlz | H::Cttz | H::Ctpop | H::Bswap | H::BitRev | H::FShl | H::FShr | H::Sat(..) | H::CmpI(_) | H::FUn(_) | H::FMin | H::FMax | H::CopySign | H::Fma | H::FToISat(_))) {
            let n = args.iter().find_map(|(_, v)| if let Val::A(x) = v { Some(x.len()) } else { None }).unwrap();
            let mut out = vec![];
            for k in 0..n {
                let mut ea = vec![];
                for (t, v) in &args { ea.push(match v { Val::A(x) => { let TK::Vector(_, e) = self.m.types.i(*t).k else { panic!() }; (e, x[k].clone()) } _ => (*t, v.clone()) }); }
                out.push(self.builtin(h, id, e, &ea)?);
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        self.builtin(h, id, rt, &args).map(Some)
    }
    fn need_heap(&mut self, v: &Val) -> R<u64> {
        let n = self.conc(v)? as u64;
        if n > 1 << 26 { return Err(End::Steps); }
        Ok(n)
    }
    fn builtin(&mut self, h: H, id: u32, rt: Ty, args: &[(Ty, Val)]) -> R<Val> {
        let a = |k: usize| args[k].1.clone();
        let w = args.first().map_or(0, |x| self.m.types.i(x.0).bits);
        Ok(match h {
            H::Nop | H::Assume => self.zero(rt),
            H::RetZero => self.zero(rt),
            H::Ident => a(0),
            H::Panic => { let m = self.panic_info(id, args); return Err(End::Panic(m)); }
            H::Trap => { let m = format!("trap in {}", self.stack()); return Err(End::Panic(m)); }
            H::Memcpy => { let (d, s, n) = (self.conc(&a(0))? as u64, self.conc(&a(1))? as u64, self.conc(&a(2))? as u64); self.memcpy(d, s, n)?; if self.m.types.i(rt).bits == 64 { Val::C(d as u128) } else { Val::C(0) } }
            H::Memset => {
                let (d, n) = (self.conc(&a(0))? as u64, self.conc(&a(2))? as u64);
                if n > 0 {
                    let o = self.obj_for(d, n, "write")?;
                    if o.ro { return Err(self.bad("write to read-only memory", d, n)); }
                    let (b, off) = (o.base, (d - o.base) as usize); drop(o);
                    let wv = self.m.types.i(args[1].0).bits;
                    let v = match a(1) { Val::C(c) => Val::C(c & 255), Val::T(t) => { let e = if wv > 8 { self.ts.extract(t, 0, 8) } else { t }; self.val(e) } _ => panic!() };
                    if let Val::C(c) = v { let s = self.st(); let o = Rc::make_mut(s.mem.get_mut(&b).unwrap()); for x in &mut o.data[off..off + n as usize] { *x = c as u8; } if let Some(sy) = &mut o.sym { for x in &mut sy[off..off + n as usize] { *x = NOSYM; } } }
                    else { for k in 0..n as usize { self.wr(b, off + k, 1, &v); } }
                }
                if self.m.types.i(rt).bits == 64 { Val::C(d as u128) } else { Val::C(0) }
            }
            H::Malloc | H::Palloc(_) => {
                let (n, z) = match h { H::Malloc | H::Palloc(0) => (self.need_heap(&a(0))?, false), H::Palloc(2) => (self.need_heap(&a(0))?, true), H::Palloc(3) => (self.need_heap(&a(1))?, true), _ => (self.need_heap(&a(1))?, false) };
                let p = self.alloc(n, 16, 2);
                if z { let s = self.st(); let o = Rc::make_mut(s.mem.get_mut(&p).unwrap()); o.data.iter_mut().for_each(|x| *x = 0); }
                Val::C(p as u128)
            }
            H::Calloc => { let n = self.need_heap(&a(0))? * self.need_heap(&a(1))?; let p = self.alloc(n, 16, 2); let s = self.st(); let o = Rc::make_mut(s.mem.get_mut(&p).unwrap()); o.data.iter_mut().for_each(|x| *x = 0); Val::C(p as u128) }
            H::AlignedAlloc => { let al = self.conc(&a(0))? as u64; let n = self.need_heap(&a(1))?; Val::C(self.alloc(n, al, 2) as u128) }
            H::PosixMemalign => { let p = a(0); let al = self.conc(&a(1))? as u64; let n = self.need_heap(&a(2))?; let q = self.alloc(n, al, 2); self.store_n(&p, 8, &Val::C(q as u128))?; Val::C(0) }
            H::Realloc | H::Repalloc => {
                let old = self.conc(&a(0))? as u64; let n = self.need_heap(&a(1))?;
                if old == 0 { Val::C(self.alloc(n, 16, 2) as u128) } else {
                    let osz = match self.sr().mem.get(&old) { Some(o) => o.size, None => return Err(self.bad("realloc", old, n)) };
                    let q = self.alloc(n, 16, 2);
                    self.memcpy(q, old, osz.min(n))?;
                    self.free(old)?;
                    Val::C(q as u128)
                }
            }
            H::Free | H::Pfree => { let p = self.conc(&a(0))? as u64; self.free(p)?; self.zero(rt) }
            H::RustAlloc | H::RustAllocZ | H::RustRealloc => unreachable!(),
            H::Bcmp | H::Memcmp => {
                let (p, q, n) = (self.conc(&a(0))? as u64, self.conc(&a(1))? as u64, self.conc(&a(2))? as u64);
                if n == 0 { return Ok(Val::C(0)); }
                let (o1, o2) = (self.obj_for(p, n, "read")?, self.obj_for(q, n, "read")?);
                let (f1, f2) = ((p - o1.base) as usize, (q - o2.base) as usize);
                let z = self.ts.konst(32, 0);
                let mut acc = z;
                if h == H::Bcmp {
                    let mut all = self.ts.konst(1, 1);
                    let mut k = 0;
                    while k < n as usize { let c = (n as usize - k).min(8); let (x, y) = (self.rd(&o1, f1 + k, c), self.rd(&o2, f2 + k, c)); let (x, y) = (self.term(&x, 8 * c as u32), self.term(&y, 8 * c as u32)); let e = self.ts.cmp(P::Eq, x, y); all = self.ts.bin(B::And, all, e); k += c; }
                    let one = self.ts.konst(32, 1);
                    acc = self.ts.ite(all, z, one);
                } else {
                    for k in (0..n as usize).rev() {
                        let (x, y) = (self.rd(&o1, f1 + k, 1), self.rd(&o2, f2 + k, 1)); let (x, y) = (self.term(&x, 8), self.term(&y, 8));
                        let e = self.ts.cmp(P::Eq, x, y); let (zx, zy) = (self.ts.zext(x, 32), self.ts.zext(y, 32)); let d = self.ts.bin(B::Sub, zx, zy);
                        acc = self.ts.ite(e, acc, d);
                    }
                }
                self.val(acc)
            }
            H::Strlen => { let p = self.conc(&a(0))? as u64; let mut n = 0; loop { let v = self.load_n(&Val::C((p + n) as u128), 1)?; if self.conc(&v)? == 0 { break; } n += 1; } Val::C(n as u128) }
            H::Memchr => { let (p, c, n) = (self.conc(&a(0))? as u64, self.conc(&a(1))? & 255, self.conc(&a(2))? as u64); let mut r = 0; for k in 0..n { let v = self.load_n(&Val::C((p + k) as u128), 1)?; if self.conc(&v)? == c { r = p + k; break; } } Val::C(r as u128) }
            H::Getrandom => { let (p, n) = (self.conc(&a(0))? as u64, self.conc(&a(1))? as u64); for k in 0..n { self.store_n(&Val::C((p + k) as u128), 1, &Val::C(0))?; } Val::C(n as u128) }
            H::FormatInner => { let p = self.conc(&a(0))? as u64; self.store_n(&Val::C(p as u128), 8, &Val::C(0))?; self.store_n(&Val::C(p as u128 + 8), 8, &Val::C(1))?; self.store_n(&Val::C(p as u128 + 16), 8, &Val::C(0))?; Val::C(0) }
            // ---- harness interface ----
            H::SxIn | H::SxF64 => {
                let bits = if h == H::SxF64 { 64 } else { self.conc(&a(0))? as u32 };
                let idx = self.sr().inputs.len();
                if let Some(cs) = &self.o.concrete {
                    let v = cs.get(idx).copied().unwrap_or(0) & mask(bits);
                    let t = self.ts.konst(bits, v);
                    self.st().inputs.push((t, bits, (h == H::SxF64) as u8));
                    Val::C(v)
                } else {
                    let nid = self.var_ids.len() as u32;
                    let id = *self.var_ids.entry((idx, bits, h == H::SxF64)).or_insert(nid);
                    if id >= 256 { return Err(End::Unknown("more than 256 distinct inputs".into())); }
                    let t = self.ts.var(bits, id);
                    if h == H::SxF64 && self.o.real { self.z.declare_real(id, 64); }
                    let s = self.st();
                    s.inputs.push((t, bits, (h == H::SxF64) as u8));
                    let m = id as usize;
                    if s.model.len() <= m { s.model.resize(m + 1, 0); }
                    s.model[m] = 0;
                    if h == H::SxF64 { Val::T(t) } else { let z = self.ts.zext(t, 64); self.val(z) }
                }
            }
            H::SxAssume => {
                let c = self.term(&a(0), w); let c = if w > 1 { let z = self.ts.konst(w, 0); let e = self.ts.cmp(P::Eq, c, z); self.ts.not(e) } else { c };
                match self.ts.as_const(c) { Some(1) => {} Some(_) => return Err(End::Assume),
                    None => { if self.ev(c) == 1 && !self.untrusted(c) { self.add_pc(c); } else { match self.feasible(c)? { None => return Err(End::Assume), Some(m) => { self.st().model = m; self.add_pc(c); } } } } }
                Val::C(0)
            }
            H::SxAssert => {
                let c = self.term(&a(0), w); let c = if w > 1 { let z = self.ts.konst(w, 0); let e = self.ts.cmp(P::Eq, c, z); self.ts.not(e) } else { c };
                let aid = self.conc(&a(1))? as u32;
                let e = self.asserts.entry(aid).or_insert((0, 0));
                match self.ts.as_const(c) {
                    Some(1) => e.1 += 1,
                    Some(_) => return Err(End::Assert(aid)),
                    None => {
                        e.0 += 1;
                        let nc = self.ts.not(c);
                        match self.feasible(nc)? {
                            None => self.note(c, true),
                            Some(m) => {
                                // report the failing side, go on with the rest
                                let keep = self.sr().model.clone();
                                let m = self.wide_apart(c, &nc).unwrap_or(m);
                                self.st().model = m;
                                self.violation(&format!("assert:{aid}"), String::new());
                                self.st().model = keep;
                                match self.feasible(c)? { None => return Err(End::Stop), Some(m) => { self.st().model = m; self.add_pc(c); } }
                            }
                        }
                    }
                }
                Val::C(0)
            }
            H::SxCover => { let k = self.conc(&a(0))? as u32; *self.covers.entry(k).or_insert(0) += 1; Val::C(0) }
            H::SxObs => { let v = a(0); self.st().obs.push(v); Val::C(0) }
            H::SxPanicOk => { let k = self.conc(&a(0))? as u32; self.st().panic_ok = k; Val::C(0) }
            H::SxConc => Val::C(self.conc(&a(0))?),
            H::SxIsSymbolic => Val::C(1),
            H::SxParam => { let k = self.conc(&a(0))? as usize; Val::C(self.o.params.get(k).copied().unwrap_or_else(|| { eprintln!("lsx: parameter {k} missing"); std::process::exit(3) }) as u128) }
            H::SxSlot => Val::C(0),
            H::SxClose => { // exact equality of reals in real mode, bit-for-bit numeric equality otherwise
                if let (Val::C(x), Val::C(y), false) = (a(0), a(1), self.o.real) { // two known values: what the native runtime does
                    let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    let c = x == y || (x.is_nan() && y.is_nan()) || (!x.is_infinite() && !y.is_infinite() && (x - y).abs() <= 1e-6 * x.abs().max(y.abs()).max(1.0));
                    return Ok(Val::C(c as u128));
                }
                let (x, y) = (self.term(&a(0), 64), self.term(&a(1), 64));
                let mut r = self.ts.fcmp(FP::Oeq, x, y);
                if !self.o.real { let (u, v) = (self.ts.fcmp(FP::Uno, x, x), self.ts.fcmp(FP::Uno, y, y)); let b = self.ts.bin(B::And, u, v); r = self.ts.bin(B::Or, r, b); }
                if x == y { r = self.ts.konst(1, 1); }
                if self.o.real { self.closes.insert(r, (x, y)); }
                self.val(r)
            }
            // ---- integer intrinsics ----
            H::Min(s) | H::Max(s) => {
                let (x, y) = (self.term(&a(0), w), self.term(&a(1), w));
                let c = self.ts.cmp(if s { P::Slt } else { P::Ult }, x, y);
                let r = if matches!(h, H::Min(_)) { self.ts.ite(c, x, y) } else { self.ts.ite(c, y, x) };
                self.val(r)
            }
            H::Abs => { let x = self.term(&a(0), w); let z = self.ts.konst(w, 0); let c = self.ts.cmp(P::Slt, x, z); let n = self.ts.bin(B::Sub, z, x); let r = self.ts.ite(c, n, x); self.val(r) }
            H::Ctlz | H::Cttz => {
                if let Val::C(x) = a(0) { let x = x & mask(w); return Ok(Val::C(if x == 0 { w as u128 } else if h == H::Ctlz { (x.leading_zeros() - (128 - w)) as u128 } else { x.trailing_zeros() as u128 })); }
                let x = self.term(&a(0), w);
                let mut acc = self.ts.konst(w, w as u128);
                // most significant decision last so that it ends up outermost
                for k in 0..w { let bit = if h == H::Ctlz { k } else { w - 1 - k }; let b = self.ts.extract(x, bit, 1); let v = self.ts.konst(w, if h == H::Ctlz { (w - 1 - k) as u128 } else { bit as u128 }); acc = self.ts.ite(b, v, acc); }
                self.val(acc)
            }
            H::Ctpop => { if let Val::C(x) = a(0) { return Ok(Val::C(x.count_ones() as u128)); } let x = self.term(&a(0), w); let mut acc = self.ts.konst(w, 0); for k in 0..w { let b = self.ts.extract(x, k, 1); let b = self.ts.zext(b, w); acc = self.ts.bin(B::Add, acc, b); } self.val(acc) }
            H::Bswap => { let x = self.term(&a(0), w); let mut acc = self.ts.extract(x, 0, 8); for k in 1..w / 8 { let b = self.ts.extract(x, 8 * k, 8); acc = self.ts.concat(acc, b); } self.val(acc) }
            H::BitRev => { let x = self.term(&a(0), w); let mut acc = self.ts.extract(x, 0, 1); for k in 1..w { let b = self.ts.extract(x, k, 1); acc = self.ts.concat(acc, b); } self.val(acc) }
            H::FShl | H::FShr => {
                let (x, y, s) = (self.term(&a(0), w), self.term(&a(1), w), self.term(&a(2), w));
                let kw = self.ts.konst(w, w as u128);
                let s = self.ts.bin(B::URem, s, kw);
                let inv = self.ts.bin(B::Sub, kw, s);
                let r = if h == H::FShl { let l = self.ts.bin(B::Shl, x, s); let r = self.ts.bin(B::LShr, y, inv); self.ts.bin(B::Or, l, r) } else { let l = self.ts.bin(B::Shl, x, inv); let r = self.ts.bin(B::LShr, y, s); self.ts.bin(B::Or, l, r) };
                self.val(r)
            }
            H::Sat(op, sg) => {
                let (x, y) = (self.term(&a(0), w), self.term(&a(1), w));
                let (r, o) = self.ovf(op, sg, x, y, w);
                let lim = if !sg { if op == B::Add { self.ts.konst(w, mask(w)) } else { self.ts.konst(w, 0) } } else { let z = self.ts.konst(w, 0); let neg = self.ts.cmp(P::Slt, x, z); let mn = self.ts.konst(w, 1 << (w - 1)); let mx = self.ts.konst(w, mask(w - 1)); self.ts.ite(neg, mn, mx) };
                let v = self.ts.ite(o, lim, r);
                self.val(v)
            }
            H::Ovf(op, sg) => { let (x, y) = (self.term(&a(0), w), self.term(&a(1), w)); let (r, o) = self.ovf(op, sg, x, y, w); Val::A(Rc::new(vec![self.val(r), self.val(o)])) }
            H::CmpI(s) => {
                let rw = self.m.types.i(rt).bits;
                let (x, y) = (self.term(&a(0), w), self.term(&a(1), w));
                let lt = self.ts.cmp(if s { P::Slt } else { P::Ult }, x, y); let eq = self.ts.cmp(P::Eq, x, y);
                let (m1, z, o) = (self.ts.konst(rw, u128::MAX), self.ts.konst(rw, 0), self.ts.konst(rw, 1));
                let r = self.ts.ite(eq, z, o); let r = self.ts.ite(lt, m1, r); self.val(r)
            }
            H::IsConst => Val::C(0),
            H::Expect | H::TlsAddr => a(0),
            H::PtrMask => { let (x, y) = (self.term(&a(0), 64), self.term(&a(1), 64)); let r = self.ts.bin(B::And, x, y); self.val(r) }
            // ---- float intrinsics ----
            H::FUn(op) => { let x = self.term(&a(0), w); let r = self.ts.fun(op, x); self.val(r) }
            H::FMin | H::FMax => {
                let (x, y) = (self.term(&a(0), w), self.term(&a(1), w));
                let xn = self.ts.fcmp(FP::Uno, x, x); let yn = self.ts.fcmp(FP::Uno, y, y);
                let c = if h == H::FMin { self.ts.fcmp(FP::Olt, y, x) } else { self.ts.fcmp(FP::Olt, x, y) };
                let r = self.ts.ite(c, y, x); let r = self.ts.ite(yn, x, r); let r = self.ts.ite(xn, y, r); self.val(r)
            }
            H::FMinimum | H::FMaximum => {
                let (x, y) = (self.term(&a(0), w), self.term(&a(1), w));
                let xn = self.ts.fcmp(FP::Uno, x, x); let yn = self.ts.fcmp(FP::Uno, y, y);
                let c = if h == H::FMinimum { self.ts.fcmp(FP::Olt, y, x) } else { self.ts.fcmp(FP::Olt, x, y) };
                let r = self.ts.ite(c, y, x); let r = self.ts.ite(yn, y, r); let r = self.ts.ite(xn, x, r); self.val(r)
            }
            H::CopySign => {
                if self.o.real {
                    let (x, y) = (self.term(&a(0), w), self.term(&a(1), w));
                    let ax = self.ts.fun(FU::Abs, x); let nx = self.ts.fun(FU::Neg, ax); let z = self.ts.konst(w, 0); let c = self.ts.fcmp(FP::Olt, y, z); let r = self.ts.ite(c, nx, ax); return Ok(self.val(r));
                }
                let (x, y) = (self.term(&a(0), w), self.term(&a(1), w)); let h = self.ts.extract(y, w - 1, 1); let l = self.ts.extract(x, 0, w - 1); let r = self.ts.concat(h, l); self.val(r)
            }
            H::Fma => { let (x, y, z) = (self.term(&a(0), w), self.term(&a(1), w), self.term(&a(2), w)); let r = if self.o.real { let m = self.ts.fbin(FB::Mul, x, y); self.ts.fbin(FB::Add, m, z) } else { self.ts.fma(x, y, z) }; self.val(r) }
            H::Powi => {
                // compiler-rt's __powidf2
                let n = sext(self.conc(&a(1))?, self.m.types.i(args[1].0).bits) as i64;
                let mut x = self.term(&a(0), w);
                let recip = n < 0; let mut b = n;
                let mut r = { let c = self.dconst(w, 1.0); self.ts.konst(w, c) };
                loop { if b & 1 != 0 { r = self.ts.fbin(FB::Mul, r, x); } b /= 2; if b == 0 { break; } x = self.ts.fbin(FB::Mul, x, x); }
                if recip { let c = self.dconst(w, 1.0); let one = self.ts.konst(w, c); r = self.ts.fbin(FB::Div, one, r); }
                self.val(r)
            }
            H::Libm(k) => {
                let k = k as usize;
                if let (Val::C(c), false) = (a(0), self.o.real) { if w == 64 { Val::C(libm_eval(k)(&[c])) } else { let x = f32::from_bits(c as u32) as f64; let r = unsafe { LIBM[k].1(x) } as f32; Val::C(r.to_bits() as u128) } }
                else { let x = self.term(&a(0), w); let t = self.ts.uf(LIBM[k].0, w, vec![x], Some(libm_eval(k))); Val::T(t) }
            }
            H::MathPow => {
                if let (Val::C(x), Val::C(y), false) = (a(0), a(1), self.o.real) { Val::C(pow_eval(&[x, y])) }
                else { let (x, y) = (self.term(&a(0), w), self.term(&a(1), w)); let t = self.ts.uf("pow", w, vec![x, y], Some(pow_eval)); Val::T(t) }
            }
            H::FToISat(sg) => {
                let rw = self.m.types.i(rt).bits;
                if let (Val::C(c), false) = (a(0), self.o.real) {
                    let x = if w == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
                    let v = if x.is_nan() { 0 } else if sg { let lo = -(1i128 << (rw - 1)); let hi = (1i128 << (rw - 1)) - 1; (x as i128).clamp(lo, hi) as u128 } else { (x as u128).min(mask(rw)) };
                    return Ok(Val::C(v & mask(rw)));
                }
                let x = self.term(&a(0), w);
                // exact when the argument is an exactly converted small integer
                let (lo, hi) = if sg { (-(2f64.powi(rw as i32 - 1)), 2f64.powi(rw as i32 - 1)) } else { (0.0, 2f64.powi(rw as i32)) };
                let (cl, ch) = (self.dconst(w, lo), self.dconst(w, hi));
                let (kl, kh) = (self.ts.konst(w, cl), self.ts.konst(w, ch));
                let nan = self.ts.fcmp(FP::Uno, x, x);
                let under = if sg { self.ts.fcmp(FP::Olt, x, kl) } else { self.ts.fcmp(FP::Ole, x, kl) };
                let over = self.ts.fcmp(FP::Ole, kh, x);
                let v = if sg { self.ts.ftos(x, rw) } else { self.ts.ftou(x, rw) };
                let (mn, mx) = if sg { (1u128 << (rw - 1), mask(rw - 1)) } else { (0, mask(rw)) };
                let (mn, mx, z) = (self.ts.konst(rw, mn), self.ts.konst(rw, mx), self.ts.konst(rw, 0));
                let r = self.ts.ite(over, mx, v); let r = self.ts.ite(under, mn, r); let r = self.ts.ite(nan, z, r);
                self.val(r)
            }
            H::IsFpClass => {
                let m = self.conc(&a(1))? as u32;
                let x = self.term(&a(0), w);
                if self.o.real { // only finite, normal-or-zero numbers exist
                    let z = self.ts.konst(w, 0);
                    let lt = self.ts.fcmp(FP::Olt, x, z); let gt = self.ts.fcmp(FP::Olt, z, x); let eq = self.ts.fcmp(FP::Oeq, x, z);
                    let mut acc = self.ts.konst(1, 0);
                    if m & 0x8 != 0 { acc = self.ts.bin(B::Or, acc, lt); } if m & 0x100 != 0 { acc = self.ts.bin(B::Or, acc, gt); } if m & 0x60 != 0 { acc = self.ts.bin(B::Or, acc, eq); }
                    return Ok(self.val(acc));
                }
                let (eb, mb) = if w == 64 { (11, 52) } else { (8, 23) };
                let s = self.ts.extract(x, w - 1, 1); let e = self.ts.extract(x, mb, eb); let f = self.ts.extract(x, 0, mb);
                let t = &mut self.ts;
                let (ke, k0, kf) = (t.konst(eb, mask(eb)), t.konst(eb, 0), t.konst(mb, 0));
                let emax = t.cmp(P::Eq, e, ke); let ez = t.cmp(P::Eq, e, k0); let fz = t.cmp(P::Eq, f, kf);
                let nfz = t.not(fz); let ns = t.not(s); let q = t.extract(f, mb - 1, 1); let nq = t.not(q);
                let nan = t.bin(B::And, emax, nfz); let inf = t.bin(B::And, emax, fz); let zero = t.bin(B::And, ez, fz); let sub = t.bin(B::And, ez, nfz);
                let nem = t.not(emax); let nez = t.not(ez); let nor = t.bin(B::And, nem, nez);
                let mut acc = t.konst(1, 0);
                let parts = [(1u32, nan, nq), (2, nan, q), (4, inf, s), (8, nor, s), (16, sub, s), (32, zero, s), (64, zero, ns), (128, sub, ns), (256, nor, ns), (512, inf, ns)];
                for (bit, x, y) in parts { if m & bit != 0 { let z = t.bin(B::And, x, y); acc = t.bin(B::Or, acc, z); } }
                self.val(acc)
            }
            H::RoundInt => unreachable!(),
            H::Red(k) => { let Val::A(v) = a(0) else { panic!() }; let TK::Vector(_, e) = self.m.types.i(args[0].0).k else { panic!() }; let eb = self.scalar_bits(e); let mut acc = v[0].clone(); for x in &v[1..] { acc = self.bin(k, eb, &acc, x, false)?; } acc }
            H::RedMM(mx, s) => { let Val::A(v) = a(0) else { panic!() }; let TK::Vector(_, e) = self.m.types.i(args[0].0).k else { panic!() }; let mut acc = v[0].clone(); for x in &v[1..] { acc = self.builtin(if mx { H::Max(s) } else { H::Min(s) }, id, e, &[(e, acc), (e, x.clone())])?; } acc }
            H::PmovmskB => { let Val::A(v) = a(0) else { panic!() }; let rw = self.m.types.i(rt).bits; let mut acc = self.ts.konst(rw, 0); for (k, x) in v.iter().enumerate() { let t = self.term(x, 8); let b = self.ts.extract(t, 7, 1); let b = self.ts.zext(b, rw); let s = self.ts.konst(rw, k as u128); let b = self.ts.bin(B::Shl, b, s); acc = self.ts.bin(B::Or, acc, b); } self.val(acc) }
            H::ReadReg | H::SigSet | H::Environ => Val::C(0),
            H::Interp => unreachable!(),
        })
    }
    fn ovf(&mut self, op: B, sg: bool, x: Tid, y: Tid, w: u32) -> (Tid, Tid) {
        let t = &mut self.ts;
        let r = t.bin(op, x, y);
        let o = if op == B::Mul {
            let (cx, cy) = (t.as_const(x), t.as_const(y));
            if !sg {
                if t.umax(x).checked_mul(t.umax(y)).map_or(false, |p| p <= mask(w)) { t.konst(1, 0) }
                else if let Some(c) = cy.or(cx) { let v = if cy.is_some() { x } else { y }; if c == 0 { t.konst(1, 0) } else { let lim = t.konst(w, mask(w) / c); t.cmp(P::Ult, lim, v) } }
                else { let (zx, zy) = (t.zext(x, 2 * w), t.zext(y, 2 * w)); let p = t.bin(B::Mul, zx, zy); let hi = t.extract(p, w, w); let z = t.konst(w, 0); let e = t.cmp(P::Eq, hi, z); t.not(e) }
            } else if let (Some(c), v) = (cy.or(cx), if cy.is_some() { x } else { y }) {
                let c = sext(c, w);
                let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                if c == 0 { t.konst(1, 0) } else if c == -1 { let k = t.konst(w, mn as u128); t.cmp(P::Eq, v, k) } else {
                    let (lo, hi) = if c > 0 { (-((-mn) / c), mx / c) } else { (-(mx / -c), (-mn) / -c) };
                    let (kl, kh) = (t.konst(w, lo as u128), t.konst(w, hi as u128));
                    let a = t.cmp(P::Slt, v, kl); let b = t.cmp(P::Slt, kh, v); t.bin(B::Or, a, b)
                }
            } else { let ww = 2 * w; if ww > 128 { panic!("lsx: i128 signed multiply overflow of two symbolic values"); } let (zx, zy) = (t.sext(x, ww), t.sext(y, ww)); let p = t.bin(B::Mul, zx, zy); let rr = t.sext(r, ww); let e = t.cmp(P::Eq, p, rr); t.not(e) }
        } else if !sg { if op == B::Add { t.cmp(P::Ult, r, x) } else { t.cmp(P::Ult, x, y) } }
        else {
            let z = t.konst(w, 0);
            let (nx, ny, nr) = (t.cmp(P::Slt, x, z), t.cmp(P::Slt, y, z), t.cmp(P::Slt, r, z));
            let d = t.bin(B::Xor, nx, nr);
            let s = t.bin(B::Xor, nx, ny);
            let s = if op == B::Add { t.not(s) } else { s };
            t.bin(B::And, s, d)
        };
        (r, o)
    }

    // ---------- main loop ----------
    pub fn start(&mut self, entry: &str) {
        let id = *self.m.fmap.get(entry).unwrap_or_else(|| { eprintln!("lsx: no function {entry}"); std::process::exit(3) });
        let f = self.m.func(id);
        let regs = vec![Val::C(0); f.nregs as usize];
        let st = State { frames: vec![Frame { f, regs, blk: 0, ip: 0, allocas: vec![], dst: None, nd: None, fid: id }], mem: BTreeMap::new(), pc: Rc::new(vec![]), known: Rc::new(HashMap::default()), model: vec![], inputs: vec![], obs: vec![], panic_ok: 0, heap: 0x1_0000_0000, steps: 0, forks: 0, pg_ctx: 0, slots: Rc::new(HashMap::default()) };
        self.funcs_seen.insert(id);
        self.work.push(st);
    }
    pub fn run(&mut self) {
        loop {
            let Some(s) = self.work.pop() else { break };
            if self.stop { break; }
            self.cur = Some(s);
            let e = self.run_state();
            self.finish(e);
            self.cur = None;
            self.maybe_split();
        }
    }
    fn model_inputs(&mut self) -> Vec<u128> {
        let ins = self.sr().inputs.clone();
        ins.iter().map(|(t, _, _)| self.ev(*t)).collect()
    }
    /// exact arithmetic: prefer a counterexample whose two sides differ by more than rounding, on inputs of moderate size
    fn wide_apart(&mut self, c: Tid, nc: &Tid) -> Option<Vec<u128>> {
        let (x, y) = *self.closes.get(&c)?;
        if self.wide >= 60 { return None; }
        self.wide += 1;
        let d = self.ts.fbin(FB::Sub, x, y);
        let k = |v: f64| v.to_bits() as u128;
        let (hi, lo, one, mone) = (self.ts.konst(64, k(1000.0)), self.ts.konst(64, k(-1000.0)), self.ts.konst(64, k(0.5)), self.ts.konst(64, k(-0.5)));
        let (p, q) = (self.ts.fcmp(FP::Ole, one, d), self.ts.fcmp(FP::Ole, d, mone));
        let far = self.ts.bin(B::Or, p, q);
        let mut cs = self.slice(&[*nc, far]);
        cs.push(*nc);
        cs.push(far);
        for (t, bits, f) in self.sr().inputs.clone() {
            if f == 1 && bits == 64 && self.ts.as_const(t).is_none() { let (p, q) = (self.ts.fcmp(FP::Ole, t, hi), self.ts.fcmp(FP::Ole, lo, t)); cs.push(p); cs.push(q); }
        }
        let mut m = self.sr().model.clone();
        match self.z.check(&mut self.ts, &cs, &mut m, false) { Sat::Sat => Some(m), _ => None }
    }
    fn violation(&mut self, key: &str, msg: String) {
        let c = self.vcount.entry(key.to_string()).or_insert(0);
        *c += 1;
        if *c > self.o.keep { return; }
        let ins = self.model_inputs();
        let l = format!("V\t{}\t{}\t{}", key, ins.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), msg.replace(['\t', '\n'], " "));
        self.viols.push(l);
    }
    fn finish(&mut self, e: End) {
        let pk = self.sr().panic_ok;
        match e {
            End::Done => { self.paths[0] += 1; self.sample("done"); }
            End::Assume => self.paths[1] += 1,
            End::Panic(m) => {
                if pk > 0 { self.paths[2] += 1; *self.covers.entry(10000 + pk).or_insert(0) += 1; self.sample("panic"); }
                else { self.paths[3] += 1; let site = m.split(';').next().unwrap_or("").to_string(); self.violation(&format!("panic:{}", site.replace([':', ' '], "_")), m); }
            }
            End::Mem(m) => { self.paths[4] += 1; let site = m.split(" at 0x").next().unwrap_or("").to_string(); let top = self.sr().frames.last().map(|f| demangle(&f.f.name)).unwrap_or_default(); self.violation(&format!("memory:{}_{}", site.split(';').next().unwrap().replace([':', ' '], "_"), top.replace([':', ' '], "_")), m); }
            End::Assert(id) => { self.paths[5] += 1; self.violation(&format!("assert:{id}"), String::new()); }
            End::Stop => self.paths[5] += 1,
            End::Steps => { self.paths[6] += 1; let s = self.stack(); self.violation("steps", format!("no end within the step limit; in {s}")); }
            End::Unsup(m) | End::Unknown(m) => { self.paths[7] += 1; *self.unsup.entry(m).or_insert(0) += 1; }
        }
    }
    fn sample(&mut self, kind: &str) {
        if self.samples.len() as u32 >= self.o.samples { return; }
        let ins = self.model_inputs();
        if self.o.real { self.samples.push(format!("S\treal\t{}\t", ins.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))); return; }
        let obs = self.sr().obs.clone();
        let ov: Vec<String> = obs.iter().map(|v| match v { Val::C(c) => c.to_string(), Val::T(t) => self.ev(*t).to_string(), _ => "?".into() }).collect();
        self.samples.push(format!("S\t{}\t{}\t{}", kind, ins.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), ov.join(",")));
    }
    fn run_state(&mut self) -> End {
        loop {
            self.tick += 1;
            if self.tick & 0xfff == 0 {
                if self.start.elapsed().as_secs_f64() > self.o.max_secs { self.stop = true; return End::Unknown("time budget exhausted".into()); }
                self.maybe_split();
            }
            match self.step() {
                Ok(true) => {}
                Ok(false) => return End::Done,
                Err(e) => return e,
            }
        }
    }
    fn jump(&mut self, to: u32) {
        let s = self.cur.as_mut().unwrap();
        let fr = s.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (_, _, inc) in &b.phis {
                let op = &inc.iter().find(|(l, _)| *l == from).unwrap_or_else(|| panic!("lsx: phi without predecessor in {}", f.name)).1;
                vals.push(match op { Op::R(r) => fr.regs[*r as usize].clone(), Op::C(c) => Val::C(*c), Op::A(a) => Val::A(Rc::new(a.iter().map(cvv).collect())) });
            }
            for ((d, _, _), v) in b.phis.iter().zip(vals) { fr.regs[*d as usize] = v; }
        }
        fr.blk = to; fr.ip = 0;
    }
    fn adv(&mut self) { self.st().frames.last_mut().unwrap().ip += 1; }
    fn step(&mut self) -> R<bool> {
        self.insts += 1;
        let (f, blk, ip) = { let s = self.cur.as_mut().unwrap(); s.steps += 1; if s.steps > self.o.max_steps { return Err(End::Steps); } let fr = s.frames.last().unwrap(); (fr.f.clone(), fr.blk as usize, fr.ip as usize) };
        let ins = &f.blocks[blk].code[ip];
        if self.o.debug { eprintln!("{} b{} i{} {:?}", f.name, blk, ip, ins); }
        match ins {
            I::Bin(d, k, t, a, b) => {
                let (x, y) = (self.get(a), self.get(b));
                let i = self.m.types.i(*t);
                let w = i.bits;
                let r = if let TK::Vector(_, e) = i.k { let w = self.scalar_bits(e); let (Val::A(x), Val::A(y)) = (&x, &y) else { panic!() }; let mut v = vec![]; for k2 in 0..x.len() { v.push(self.bin(*k, w, &x[k2], &y[k2], false)?); } Val::A(Rc::new(v)) }
                    else { self.bin(*k, w, &x, &y, false)? };
                self.set(*d, r); self.adv();
            }
            I::FNeg(d, t, a) => { let w = self.m.types.i(*t).bits; let v = self.get(a); let x = self.term(&v, w); let r = self.ts.fun(FU::Neg, x); let r = self.val(r); self.set(*d, r); self.adv(); }
            I::ICmp(d, k, t, a, b) => {
                let (x, y) = (self.get(a), self.get(b));
                let i = self.m.types.i(*t); let w = i.bits;
                let r = if let TK::Vector(_, e) = i.k { let w = self.scalar_bits(e); let (Val::A(x), Val::A(y)) = (&x, &y) else { panic!() }; let v = (0..x.len()).map(|j| self.icmp(*k, w, &x[j], &y[j])).collect(); Val::A(Rc::new(v)) } else { self.icmp(*k, w, &x, &y) };
                self.set(*d, r); self.adv();
            }
            I::FCmp(d, k, t, a, b) => {
                let (x, y) = (self.get(a), self.get(b));
                let i = self.m.types.i(*t); let w = i.bits;
                let r = if let TK::Vector(_, e) = i.k { let w = self.scalar_bits(e); let (Val::A(x), Val::A(y)) = (&x, &y) else { panic!() }; let v = (0..x.len()).map(|j| self.fcmp(*k, w, &x[j], &y[j])).collect(); Val::A(Rc::new(v)) } else { self.fcmp(*k, w, &x, &y) };
                self.set(*d, r); self.adv();
            }
            I::Select(d, _ct, t, c, a, b) => {
                let (c, x, y) = (self.get(c), self.get(a), self.get(b));
                let r = if let Val::A(cs) = &c { let TK::Vector(_, e) = self.m.types.i(*t).k else { panic!() }; let (Val::A(x), Val::A(y)) = (&x, &y) else { panic!() }; let mut v = vec![]; for j in 0..cs.len() { v.push(self.sel(&cs[j], e, &x[j], &y[j])?); } Val::A(Rc::new(v)) } else { self.sel(&c, *t, &x, &y)? };
                self.set(*d, r); self.adv();
            }
            I::Cast(d, k, t1, t2, a) => { let v = self.get(a); let r = self.cast(*k, *t1, *t2, &v)?; self.set(*d, r); self.adv(); }
            I::Alloca(d, sz, al, cnt) => {
                let n = match cnt { None => 1, Some((_, o)) => { let v = self.get(o); self.conc(&v)? as u64 } };
                let a = self.alloc(sz * n, *al, 1);
                let fr = self.st().frames.last_mut().unwrap();
                fr.allocas.push(a);
                fr.regs[*d as usize] = Val::C(a as u128); self.adv();
            }
            I::Load(d, t, p) => { let p = self.get(p); let v = self.load(&p, *t)?; self.set(*d, v); self.adv(); }
            I::Store(t, v, p) => { let (v, p) = (self.get(v), self.get(p)); self.store(&p, *t, &v)?; self.adv(); }
            I::Gep(d, b, off, ix) => {
                let mut p = self.get(b);
                p = self.padd(&p, *off);
                for (o, w, sc) in ix {
                    let v = self.get(o);
                    p = match (&p, &v) {
                        (Val::C(a), Val::C(i)) => Val::C((*a as u64).wrapping_add((sext(*i, *w) as i64).wrapping_mul(*sc) as u64) as u128),
                        _ => { let t = self.term(&v, *w); let t = if *w < 64 { self.ts.sext(t, 64) } else { t }; let s = self.ts.konst(64, *sc as u64 as u128); let m = self.ts.bin(B::Mul, t, s); let a = self.term(&p, 64); let r = self.ts.bin(B::Add, a, m); self.val(r) }
                    };
                }
                self.set(*d, p); self.adv();
            }
            I::Call(dst, rt, callee, args, nd) => {
                let id = match callee {
                    Callee::Direct(id) => *id,
                    Callee::Asm => { if let Some(d) = dst { let z = self.zero(*rt); self.set(*d, z); } self.adv(); return Ok(true); }
                    Callee::Ptr(o) => { let p = self.get(o); let a = self.conc(&p)? as u64; match self.m.faddr.get(&a) { Some(&id) => id, None => return Err(End::Mem(format!("call through invalid pointer {a:#x}; in {}", self.stack()))) } }
                };
                let av: Vec<(Ty, Val)> = args.iter().map(|(t, o)| (*t, self.get(o))).collect();
                let depth = self.sr().frames.len();
                if let Some(v) = self.call(id, *rt, av, *dst, *nd)? {
                    debug_assert_eq!(depth, self.sr().frames.len());
                    if let Some(d) = dst { self.set(*d, v); }
                    match nd { Some(b) => self.jump(*b), None => self.adv() }
                }
            }
            I::Extract(d, a, ix) => { let mut v = self.get(a); for k in ix { let Val::A(x) = &v else { panic!() }; v = x[*k as usize].clone(); } self.set(*d, v); self.adv(); }
            I::Insert(d, _t, a, x, ix) => {
                let (v, x) = (self.get(a), self.get(x));
                fn ins(v: &Val, ix: &[u32], x: Val) -> Val { if ix.is_empty() { return x; } let Val::A(a) = v else { panic!() }; let mut n = (**a).clone(); n[ix[0] as usize] = ins(&a[ix[0] as usize], &ix[1..], x); Val::A(Rc::new(n)) }
                let r = ins(&v, ix, x); self.set(*d, r); self.adv();
            }
            I::ExtractEl(d, a, i) => { let (v, i) = (self.get(a), self.get(i)); let i = self.conc(&i)?; let Val::A(x) = &v else { panic!() }; let r = x[i as usize % x.len()].clone(); self.set(*d, r); self.adv(); }
            I::InsertEl(d, _t, a, x, i) => { let (v, x, i) = (self.get(a), self.get(x), self.get(i)); let i = self.conc(&i)?; let Val::A(a) = &v else { panic!() }; let mut n = (**a).clone(); let l = n.len(); n[i as usize % l] = x; self.set(*d, Val::A(Rc::new(n))); self.adv(); }
            I::Shuffle(d, _t, a, b, ms) => { let (Val::A(x), Val::A(y)) = (self.get(a), self.get(b)) else { panic!() }; let v = ms.iter().map(|m| { let m = *m as usize; if m < x.len() { x[m].clone() } else if m < x.len() + y.len() { y[m - x.len()].clone() } else { Val::C(0) } }).collect(); self.set(*d, Val::A(Rc::new(v))); self.adv(); }
            I::Br(b) => self.jump(*b),
            I::CondBr(c, a, b) => {
                let v = self.get(c);
                let t = match v { Val::C(k) => k & 1 == 1, Val::T(t) => self.decide(t)?, _ => panic!() };
                self.jump(if t { *a } else { *b });
            }
            I::Switch(t, o, d, cs) => {
                let v = self.get(o);
                match v {
                    Val::C(k) => { let to = cs.iter().find(|(c, _)| *c == k).map_or(*d, |x| x.1); self.jump(to); }
                    Val::T(x) => {
                        let w = self.scalar_bits(*t);
                        // choose the case of the current model, then ask whether it is the only one
                        let kv = self.ev(x);
                        let first = cs.iter().find(|(c, _)| *c == kv).map_or(*d, |x| x.1);
                        let mut targets = vec![first];
                        for l in cs.iter().map(|x| x.1).chain([*d]) { if !targets.contains(&l) { targets.push(l); } }
                        // where values are abstract (reals, uninterpreted functions) the model may be wrong: then the next target is asked for
                        let n = targets.len();
                        let mut taken = None;
                        for (i, to) in targets.into_iter().enumerate() {
                            if i + 1 == n { taken = Some(to); break; }
                            let mut hit = self.ts.konst(1, 0);
                            let neg = to == *d;
                            for (c, l) in cs { if if neg { *l != *d } else { *l == to } { let k = self.ts.konst(w, *c); let e = self.ts.cmp(P::Eq, x, k); hit = self.ts.bin(B::Or, hit, e); } }
                            if neg { hit = self.ts.not(hit); }
                            // the other state re-executes the switch under the negated condition
                            if self.decide(hit)? { taken = Some(to); break; }
                        }
                        self.jump(taken.unwrap());
                    }
                    _ => panic!(),
                }
            }
            I::Ret(_, o) => {
                let v = o.as_ref().map(|o| self.get(o));
                let s = self.st();
                let fr = s.frames.pop().unwrap();
                for a in &fr.allocas { s.mem.remove(a); }
                if s.frames.is_empty() { return Ok(false); }
                if let (Some(d), Some(v)) = (fr.dst, v) { self.set(d, v); }
                match fr.nd { Some(b) => self.jump(b), None => self.adv() }
            }
            I::Unreachable => return Err(End::Mem(format!("unreachable code reached; in {}", self.stack()))),
            I::Freeze(d, a) => { let v = self.get(a); self.set(*d, v); self.adv(); }
            I::Rmw(d, k, t, p, v) => {
                let (p, v) = (self.get(p), self.get(v)); let w = self.scalar_bits(*t);
                let old = self.load(&p, *t)?;
                let bk = match k.as_str() { "add" => Some(BinK::Add), "sub" => Some(BinK::Sub), "and" => Some(BinK::And), "or" => Some(BinK::Or), "xor" => Some(BinK::Xor), _ => None };
                let nv = match bk { Some(b) => self.bin(b, w, &old, &v, false)?, None => match k.as_str() { "xchg" => v, "umax" | "umin" | "max" | "min" => { let (x, y) = (self.term(&old, w), self.term(&v, w)); let c = self.ts.cmp(if k.starts_with('u') { P::Ult } else { P::Slt }, x, y); let r = if k.ends_with("max") { self.ts.ite(c, y, x) } else { self.ts.ite(c, x, y) }; self.val(r) } _ => return Err(End::Unsup(format!("atomicrmw {k}"))) } };
                self.store(&p, *t, &nv)?;
                self.set(*d, old); self.adv();
            }
            I::CmpXchg(d, t, p, a, b) => {
                let (p, a, b) = (self.get(p), self.get(a), self.get(b)); let w = self.scalar_bits(*t);
                let old = self.load(&p, *t)?;
                let e = self.icmp(ICmpK::Eq, w, &old, &a);
                let nv = self.sel(&e, *t, &b, &old)?;
                self.store(&p, *t, &nv)?;
                self.set(*d, Val::A(Rc::new(vec![old, e]))); self.adv();
            }
            I::Fence => self.adv(),
            I::Unsupported(m) => return Err(End::Unsup(format!("{m} in {}", f.name))),
        }
        Ok(true)
    }

    // ---------- parallel splitting ----------
    fn maybe_split(&mut self) {
        let Some((rfd, _)) = self.token else { return };
        if self.work.len() < 2 || self.stop { return; }
        let mut b = [0u8; 1];
        if unsafe { read(rfd, b.as_mut_ptr(), 1) } != 1 { return; }
        // hand the older half to a child (older states are larger subtrees)
        let half = (self.work.len() + 1) / 2;
        let pid = unsafe { fork() };
        if pid == 0 {
            let give: Vec<State> = self.work.drain(..half).collect();
            self.work = give;
            self.cur = None;
            self.reset_results();
            self.run();
            self.finish_process();
            unsafe { _exit(0) }
        }
        if pid < 0 { unsafe { write(self.token.unwrap().1, b.as_ptr(), 1); } return; }
        self.children.push(pid);
        self.work.drain(..half);
    }
    fn reset_results(&mut self) {
        self.insts = 0; self.paths = [0; 8]; self.covers.clear(); self.asserts.clear(); self.viols.clear(); self.samples.clear(); self.funcs_seen.clear(); self.unsup.clear(); self.children.clear(); self.cache_hits = 0; self.forks_total = 0;
        self.z.queries = 0; self.z.time = 0.0; self.z.unknowns = 0; self.z.slowest = 0.0; self.z.dumped = 0;
        for v in self.vcount.values_mut() { *v = 0; }
    }
    pub fn finish_process(&mut self) {
        if let Some((_, wfd)) = self.token { if self.have_token { unsafe { write(wfd, b"t".as_ptr(), 1); } } }
        let mut bad = false;
        for p in self.children.clone() { let mut st = 0; unsafe { waitpid(p, &mut st, 0); } if st != 0 { bad = true; } }
        let mut o = String::new();
        o += &format!("N\tinsts\t{}\n", self.insts);
        o += &format!("N\tqueries\t{}\nN\tcache_hits\t{}\nN\tunknowns\t{}\nN\tforks\t{}\n", self.z.queries, self.cache_hits, self.z.unknowns, self.forks_total);
        o += &format!("F\tsolver_s\t{:.3}\nM\tslowest_query_s\t{:.3}\nM\tprocess_s\t{:.3}\n", self.z.time, self.z.slowest, self.start.elapsed().as_secs_f64());
        for (k, n) in ["done", "assume", "panic_ok", "panic", "memory", "assert", "steps", "incomplete"].iter().zip(self.paths) { o += &format!("P\t{k}\t{n}\n"); }
        for (k, n) in &self.covers { o += &format!("C\t{k}\t{n}\n"); }
        for (k, (a, b)) in &self.asserts { o += &format!("A\t{k}\t{a}\t{b}\n"); }
        for v in &self.viols { o += v; o.push('\n'); }
        for v in &self.samples { o += v; o.push('\n'); }
        for (m, n) in &self.unsup { o += &format!("U\t{}\t{}\n", n, m.replace(['\t', '\n'], " ")); }
        for s in &self.stubbed { o += &format!("X\t{s}\n"); }
        for f in &self.funcs_seen { let fu = self.m.parsed.get(f).map_or(0, |x| x.ninst); o += &format!("G\t{}\t{}\n", demangle(&self.m.funcs[*f as usize].0), fu); }
        if bad { o += "U\t1\ta worker process failed\n"; }
        if self.stop { o += "U\t1\ttime budget exhausted\n"; }
        std::fs::write(format!("{}/part-{}", self.o.out, std::process::id()), o).unwrap();
    }
}
fn cvv(c: &CV) -> Val { match c { CV::S(x) => Val::C(*x), CV::A(v) => Val::A(Rc::new(v.iter().map(cvv).collect())) } }

/// readable form of a legacy-mangled name; v0 names are shortened to their identifiers
pub fn demangle(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_ZN") {
        let b = r.as_bytes(); let mut p = 0; let mut parts = vec![];
        while p < b.len() && b[p].is_ascii_digit() {
            let mut l = 0usize; while p < b.len() && b[p].is_ascii_digit() { l = l * 10 + (b[p] - b'0') as usize; p += 1; }
            if p + l > b.len() { break; }
            parts.push(String::from_utf8_lossy(&b[p..p + l]).into_owned()); p += l;
        }
        if parts.last().map_or(false, |x| x.len() == 17 && x.starts_with('h')) { parts.pop(); }
        return parts.join("::").replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("$LP$", "(").replace("$RP$", ")").replace("$C$", ",").replace("$u7b$", "{").replace("$u7d$", "}").replace("$BP$", "*").replace("..", "::").trim_start_matches('_').to_string();
    }
    if n.starts_with("_R") {
        let b = n.as_bytes(); let mut p = 2; let mut parts = vec![];
        while p < b.len() {
            if b[p].is_ascii_digit() && b[p] != b'0' {
                let s = p; let mut l = 0usize; while p < b.len() && b[p].is_ascii_digit() { l = l * 10 + (b[p] - b'0') as usize; p += 1; if l > 200 { break; } }
                if p < b.len() && b[p] == b'_' { p += 1; }
                if p + l <= b.len() && l > 0 && (b[p].is_ascii_alphabetic() || b[p] == b'_') { parts.push(String::from_utf8_lossy(&b[p..p + l]).into_owned()); p += l; } else { p = s + 1; }
            } else if b[p] == b's' || b[p] == b'C' { // disambiguators may contain digits
                if b[p] == b's' { p += 1; while p < b.len() && b[p] != b'_' { p += 1; } }
                p += 1;
            } else { p += 1; }
        }
        return parts.join("::");
    }
    n.to_string()
}
#[allow(dead_code)]
fn _unused(_: HashSet<u8>) {}
