//! Reader for textual LLVM IR: module index, types, constants, lazily parsed function bodies.
use crate::fx::HashMap;
use std::rc::Rc;

pub type Ty = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TK { Void, Int(u32), F32, F64, Ptr, Struct(Vec<Ty>, bool), Array(u64, Ty), Vector(u64, Ty), Other(String) }
#[derive(Clone, Debug)]
pub struct TyInfo { pub k: TK, pub size: u64, pub store: u64, pub align: u64, pub bits: u32, pub offs: Vec<u64> }

#[derive(Default)]
pub struct Types { pub v: Vec<TyInfo>, map: HashMap<TK, Ty> }
impl Types {
    pub fn get(&mut self, k: TK) -> Ty {
        if let Some(&t) = self.map.get(&k) { return t; }
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        let mut offs = vec![];
        let (size, store, align, bits) = match &k {
            TK::Void => (0, 0, 1, 0),
            TK::Int(w) => { let st = ((*w + 7) / 8) as u64; let al = st.next_power_of_two().min(16); (up(st, al), st, al, *w) }
            TK::F32 => (4, 4, 4, 32),
            TK::F64 => (8, 8, 8, 64),
            TK::Ptr => (8, 8, 8, 64),
            TK::Struct(fs, packed) => {
                let (mut o, mut al) = (0, 1);
                for f in fs { let i = &self.v[*f as usize]; let a = if *packed { 1 } else { i.align }; o = up(o, a); offs.push(o); o += i.size; al = al.max(a); }
                let s = up(o, al); (s, s, al, 0)
            }
            TK::Array(n, t) => { let i = &self.v[*t as usize]; (n * i.size, n * i.size, i.align, 0) }
            TK::Vector(n, t) => { let i = &self.v[*t as usize]; let b = n * i.bits as u64; let st = (b + 7) / 8; (st.next_power_of_two(), st, st.next_power_of_two().max(1), 0) }
            TK::Other(_) => (0, 0, 1, 0),
        };
        let t = self.v.len() as Ty;
        self.v.push(TyInfo { k: k.clone(), size, store, align, bits, offs });
        self.map.insert(k, t);
        t
    }
    pub fn i(&self, t: Ty) -> &TyInfo { &self.v[t as usize] }
}

/// Constant values (scalars are little 128-bit words; aggregates nest).
#[derive(Clone, Debug)]
pub enum CV { S(u128), A(Rc<Vec<CV>>) }
#[derive(Clone, Debug)]
pub enum Op { R(u32), C(u128), A(Rc<Vec<CV>>) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { ZExt, SExt, Trunc, PtrToInt, IntToPtr, BitCast, FpToSi, FpToUi, SiToFp, UiToFp, FpExt, FpTrunc }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ICmpK { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Ptr(Op), Asm }

#[derive(Clone, Debug)]
pub enum I {
    Bin(u32, BinK, Ty, Op, Op),
    FNeg(u32, Ty, Op),
    ICmp(u32, ICmpK, Ty, Op, Op),
    FCmp(u32, u8, Ty, Op, Op), // LLVM predicate number
    Select(u32, Ty, Ty, Op, Op, Op), // cond ty, val ty
    Cast(u32, CastK, Ty, Ty, Op),
    Alloca(u32, u64, u64, Option<(Ty, Op)>),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u32, i64)>), // base, const offset, (index, index width, scale)
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Op)>, Option<u32>), // invoke: normal destination
    Extract(u32, Op, Vec<u32>),
    Insert(u32, Ty, Op, Op, Vec<u32>),
    ExtractEl(u32, Op, Op),
    InsertEl(u32, Ty, Op, Op, Op),
    Shuffle(u32, Ty, Op, Op, Vec<i32>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Op>),
    Unreachable,
    Freeze(u32, Op),
    Rmw(u32, String, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Fence,
    Unsupported(String),
}
pub struct Block { pub phis: Vec<(u32, Ty, Vec<(u32, Op)>)>, pub code: Vec<I> }
pub struct Func { pub name: String, pub nregs: u32, pub params: Vec<u32>, pub param_ty: Vec<Ty>, pub blocks: Vec<Block>, pub ret: Ty, pub ninst: usize }

pub struct Global { pub name: String, pub ty: Ty, pub init: (usize, usize), pub addr: u64, pub constant: bool, pub size: u64, pub external: bool }
pub struct Module {
    pub src: Vec<u8>,
    pub types: Types,
    pub named: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u64>, // name -> address (globals and functions)
    pub gaddr: std::collections::BTreeMap<u64, u32>,
    pub funcs: Vec<(String, Option<(usize, usize)>)>, // name, body range
    pub fmap: HashMap<String, u32>,
    pub faddr: HashMap<u64, u32>,
    pub parsed: HashMap<u32, Rc<Func>>,
    pub next_addr: u64,
}

pub struct Cur<'a> { s: &'a [u8], p: usize, ml: bool }
impl<'a> Cur<'a> {
    pub fn new(s: &'a [u8], p: usize) -> Self { Cur { s, p, ml: true } }
    fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'\n' if !self.ml => break,
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1; } }
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.p).unwrap_or(&0) }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { panic!("lsx: expected {:?} at {:?}", c as char, self.ctx()); } }
    fn ctx(&self) -> String { String::from_utf8_lossy(&self.s[self.p..(self.p + 160).min(self.s.len())]).into_owned() }
    fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }
    fn word_at(&self) -> &'a str { let mut q = self.p; while q < self.s.len() && (self.s[q].is_ascii_alphanumeric() || self.s[q] == b'_' || self.s[q] == b'.') { q += 1; } std::str::from_utf8(&self.s[self.p..q]).unwrap() }
    fn pw(&mut self) -> &'a str { self.ws(); self.word_at() }
    fn word(&mut self) -> &'a str { self.ws(); let w = self.word_at(); self.p += w.len(); w }
    fn eatw(&mut self, w: &str) -> bool { if self.pw() == w { self.p += w.len(); true } else { false } }
    /// after a sigil: quoted or plain name
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            let a = self.p + 1; let mut q = a;
            while self.s[q] != b'"' { q += 1; }
            self.p = q + 1;
            String::from_utf8_lossy(&self.s[a..q]).into_owned()
        } else {
            let a = self.p; while self.p < self.s.len() && Self::is_id(self.s[self.p]) { self.p += 1; }
            String::from_utf8_lossy(&self.s[a..self.p]).into_owned()
        }
    }
    fn uint(&mut self) -> u64 { self.ws(); let mut v = 0u64; while self.s[self.p].is_ascii_digit() { v = v * 10 + (self.s[self.p] - b'0') as u64; self.p += 1; } v }
    fn parens(&mut self) { // skip a balanced group
        let mut d = 0; let mut q = false;
        loop {
            let c = self.s[self.p]; self.p += 1;
            if q { if c == b'"' { q = false; } continue; }
            match c { b'"' => q = true, b'(' => d += 1, b')' => { d -= 1; if d == 0 { return; } } _ => {} }
        }
    }
    fn eol(&mut self) { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1; } }
}

fn value_kw(w: &str) -> bool { matches!(w, "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "add" | "sub" | "xor" | "splat" | "c" | "asm" | "blockaddress" | "inf" | "nan" | "addrspacecast") }

pub struct FnCtx { names: HashMap<String, u32>, labels: HashMap<String, u32>, nregs: u32 }
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 { let k = self.nregs; let e = *self.names.entry(n).or_insert(k); if e == k { self.nregs += 1; } e }
    fn label(&mut self, n: String) -> u32 { let k = self.labels.len() as u32; *self.labels.entry(n).or_insert(k) }
}

impl Module {
    pub fn load(src: Vec<u8>) -> Module {
        let mut m = Module { src, types: Types::default(), named: HashMap::default(), globals: vec![], gmap: HashMap::default(), gaddr: Default::default(), funcs: vec![], fmap: HashMap::default(), faddr: HashMap::default(), parsed: HashMap::default(), next_addr: 0x10000 };
        let src = std::mem::take(&mut m.src);
        // pass 1: index lines
        let mut p = 0;
        let mut gl: Vec<usize> = vec![];
        let mut tl: Vec<usize> = vec![];
        let mut aliases: Vec<usize> = vec![];
        while p < src.len() {
            let e = src[p..].iter().position(|&c| c == b'\n').map_or(src.len(), |k| p + k);
            let line = &src[p..e];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let mut c = Cur::new(&src, p + at + 1);
                let name = c.name();
                let def = line.starts_with(b"define ");
                let mut end = e;
                if def {
                    // body ends at a line holding only "}"
                    let mut q = e + 1;
                    loop { let e2 = src[q..].iter().position(|&c| c == b'\n').map_or(src.len(), |k| q + k); if &src[q..e2] == b"}" { end = e2; break; } q = e2 + 1; }
                }
                let id = m.funcs.len() as u32;
                m.funcs.push((name.clone(), if def { Some((p, end)) } else { None }));
                m.fmap.insert(name.clone(), id);
                let a = 0x1000_0000 + id as u64 * 16;
                m.gmap.insert(name, a);
                m.faddr.insert(a, id);
                p = end + 1;
                continue;
            }
            if line.starts_with(b"@") { if find(line, b" alias ").is_some() && find(line, b" constant ").is_none() && find(line, b" global ").is_none() { aliases.push(p) } else { gl.push(p) } }
            if line.starts_with(b"%") { tl.push(p); }
            p = e + 1;
        }
        let (mut tl, mut stuck) = (std::collections::VecDeque::from(tl), 0);
        while let Some(p) = tl.pop_front() { // named types: those they are made of first
            let e = src[p..].iter().position(|&c| c == b'\n').map_or(src.len(), |k| p + k);
            let mut c = Cur::new(&src, p + 1);
            c.name();
            let mut ready = true;
            let mut q = c.p;
            while q < e { if src[q] == b'%' { let mut d = Cur::new(&src, q + 1); let n = d.name(); ready &= m.named.contains_key(&n); q = d.p; } else { q += 1; } }
            if !ready { stuck += 1; if stuck > tl.len() + 1 { panic!("lsx: recursive type {}", c.ctx()); } tl.push_back(p); continue; }
            stuck = 0;
            let mut c = Cur::new(&src, p + 1);
            let n = c.name(); c.expect(b'='); c.eatw("type");
            let t = if c.eatw("opaque") { m.types.get(TK::Other("opaque".into())) } else { m.ty(&mut c) };
            m.named.insert(n, t);
        }
        m.next_addr = 0x2000_0000;
        for p in gl {
            let mut c = Cur::new(&src, p + 1);
            let name = c.name();
            c.expect(b'=');
            let mut constant = false; let mut external = false;
            loop {
                let w = c.word().to_string();
                match w.as_str() {
                    "constant" => { constant = true; break; }
                    "global" => break,
                    "external" | "extern_weak" => external = true,
                    "thread_local" | "addrspace" => { if c.peek() == b'(' { c.parens(); } }
                    "" => panic!("lsx: global {name}: {}", c.ctx()),
                    _ => {}
                }
            }
            let ty = m.ty(&mut c);
            let inf = m.types.i(ty);
            let (size, al) = (inf.size, inf.align.max(16));
            m.next_addr = (m.next_addr + al - 1) / al * al;
            let addr = m.next_addr;
            m.next_addr += size.max(1) + 16;
            let ip = c.p;
            m.gmap.insert(name.clone(), addr);
            m.gaddr.insert(addr, m.globals.len() as u32);
            let mut e = ip; while e < src.len() && src[e] != b'\n' { e += 1; }
            m.globals.push(Global { name, ty, init: (ip, e), addr, constant, size, external });
        }
        for p in aliases {
            let mut c = Cur::new(&src, p + 1);
            let name = c.name();
            let e = src[p..].iter().position(|&c| c == b'\n').map_or(src.len(), |k| p + k);
            if let Some(k) = src[p + 1..e].iter().rposition(|&c| c == b'@') {
                let mut c = Cur::new(&src, p + 1 + k + 1);
                let tgt = c.name();
                if let Some(&a) = m.gmap.get(&tgt) { m.gmap.insert(name.clone(), a); if let Some(&f) = m.faddr.get(&a) { m.fmap.insert(name, f); } }
            }
        }
        m.src = src;
        m
    }

    fn ty(&mut self, c: &mut Cur) -> Ty {
        let k = c.peek();
        match k {
            b'{' => { c.p += 1; let f = self.tys(c, b'}'); self.types.get(TK::Struct(f, false)) }
            b'[' => { c.p += 1; let n = c.uint(); c.eatw("x"); let t = self.ty(c); c.expect(b']'); self.types.get(TK::Array(n, t)) }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' { c.p += 1; let f = self.tys(c, b'}'); c.expect(b'>'); self.types.get(TK::Struct(f, true)) }
                else { let n = c.uint(); c.eatw("x"); let t = self.ty(c); c.expect(b'>'); self.types.get(TK::Vector(n, t)) }
            }
            b'%' => { c.p += 1; let n = c.name(); *self.named.get(&n).unwrap_or_else(|| panic!("type {n}")) }
            _ => {
                let w = c.word();
                match w {
                    "ptr" => { if c.eatw("addrspace") { c.parens(); } self.types.get(TK::Ptr) }
                    "void" => self.types.get(TK::Void),
                    "float" => self.types.get(TK::F32),
                    "double" => self.types.get(TK::F64),
                    "half" | "bfloat" => self.types.get(TK::Int(16)),
                    "fp128" | "x86_fp80" => self.types.get(TK::Int(128)),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => self.types.get(TK::Int(w[1..].parse().unwrap())),
                    "" => panic!("lsx: type at {:?}", c.ctx()),
                    _ => self.types.get(TK::Other(w.to_string())),
                }
            }
        }
    }
    fn tys(&mut self, c: &mut Cur, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if c.eat(end) { return v; }
        loop { v.push(self.ty(c)); if c.eat(end) { return v; } c.expect(b','); }
    }
    pub fn zero(&self, t: Ty) -> CV {
        match &self.types.i(t).k {
            TK::Struct(f, _) => CV::A(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            TK::Array(n, x) | TK::Vector(n, x) => CV::A(Rc::new(vec![self.zero(*x); *n as usize])),
            _ => CV::S(0),
        }
    }
    fn constant(&mut self, c: &mut Cur, t: Ty) -> CV {
        let k = c.peek();
        let info = self.types.i(t).clone();
        match k {
            b'{' | b'[' | b'<' => {
                c.p += 1;
                let end = match k { b'{' => b'}', b'[' => b']', _ => b'>' };
                let packed = k == b'<' && c.peek() == b'{';
                let end = if packed { c.p += 1; b'}' } else { end };
                let mut v = vec![];
                if !c.eat(end) { loop { let t2 = self.ty(c); v.push(self.constant(c, t2)); if c.eat(end) { break; } c.expect(b','); } }
                if packed { c.expect(b'>'); }
                CV::A(Rc::new(v))
            }
            b'@' => { c.p += 1; let n = c.name(); CV::S(*self.gmap.get(&n).unwrap_or(&0) as u128) }
            b'c' if c.s[c.p + 1] == b'"' => {
                c.p += 2;
                let mut v = vec![];
                let hx = |b: u8| (b as char).to_digit(16).unwrap() as u128;
                while c.s[c.p] != b'"' {
                    if c.s[c.p] == b'\\' && c.s[c.p + 1] == b'\\' { v.push(CV::S(92)); c.p += 2; } else if c.s[c.p] == b'\\' { v.push(CV::S(hx(c.s[c.p + 1]) * 16 + hx(c.s[c.p + 2]))); c.p += 3; } else { v.push(CV::S(c.s[c.p] as u128)); c.p += 1; }
                }
                c.p += 1;
                CV::A(Rc::new(v))
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let a = c.p; c.p += 1;
                while c.p < c.s.len() && (c.s[c.p].is_ascii_alphanumeric() || c.s[c.p] == b'.' || ((c.s[c.p] == b'+' || c.s[c.p] == b'-') && matches!(c.s[c.p - 1], b'e' | b'E'))) { c.p += 1; }
                let s = std::str::from_utf8(&c.s[a..c.p]).unwrap();
                match info.k {
                    TK::F64 | TK::F32 => {
                        let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float {s}"))) } else { s.parse::<f64>().unwrap() };
                        CV::S(if info.k == TK::F64 { d.to_bits() as u128 } else { (d as f32).to_bits() as u128 })
                    }
                    _ => { let v = if let Some(h) = s.strip_prefix("0x") { u128::from_str_radix(h.trim_start_matches(|c: char| c.is_ascii_alphabetic() && !c.is_ascii_hexdigit()), 16).unwrap_or(0) } else if s.starts_with('-') { s.parse::<i128>().unwrap() as u128 } else { s.parse::<u128>().unwrap() };
                        CV::S(v & crate::term::mask(info.bits.max(1))) }
                }
            }
            _ => {
                let w = c.word();
                match w {
                    "null" | "false" | "none" => CV::S(0),
                    "true" => CV::S(1),
                    "undef" | "poison" | "zeroinitializer" => self.zero(t),
                    "splat" => { c.expect(b'('); let t2 = self.ty(c); let x = self.constant(c, t2); c.expect(b')'); if let TK::Vector(n, _) = info.k { CV::A(Rc::new(vec![x; n as usize])) } else { panic!() } }
                    "getelementptr" => {
                        while matches!(c.pw(), "inbounds" | "nuw" | "nusw" | "inrange") { c.word(); if c.peek() == b'(' && c.s[c.p - 1] == b'e' { c.parens(); } }
                        c.expect(b'(');
                        let bt = self.ty(c); c.expect(b',');
                        let pt = self.ty(c); let base = self.constant(c, pt);
                        let mut off = 0i128; let mut cur = bt; let mut first = true;
                        while c.eat(b',') {
                            c.eatw("inrange");
                            let it = self.ty(c);
                            let CV::S(x) = self.constant(c, it) else { panic!() };
                            let ix = crate::term::sext(x, self.types.i(it).bits);
                            if first { off += ix * self.types.i(cur).size as i128; first = false; }
                            else { match self.types.i(cur).k.clone() { TK::Struct(f, _) => { off += self.types.i(cur).offs[ix as usize] as i128; cur = f[ix as usize]; } TK::Array(_, e) | TK::Vector(_, e) => { off += ix * self.types.i(e).size as i128; cur = e; } _ => panic!() } }
                        }
                        c.expect(b')');
                        let CV::S(b) = base else { panic!() };
                        CV::S((b as i128 + off) as u64 as u128)
                    }
                    "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "addrspacecast" => {
                        while c.peek() != b'(' { c.word(); }
                        c.expect(b'('); let t1 = self.ty(c); let x = self.constant(c, t1); c.eatw("to"); let t2 = self.ty(c); c.expect(b')');
                        match x { CV::S(v) => CV::S(v & crate::term::mask(self.types.i(t2).bits.max(1))), a => a }
                    }
                    "add" | "sub" | "xor" => {
                        while matches!(c.pw(), "nuw" | "nsw") { c.word(); }
                        c.expect(b'('); let t1 = self.ty(c); let x = self.constant(c, t1); c.expect(b','); let t2 = self.ty(c); let y = self.constant(c, t2); c.expect(b')');
                        let (CV::S(x), CV::S(y)) = (x, y) else { panic!() };
                        CV::S((match w { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), _ => x ^ y }) & crate::term::mask(self.types.i(t1).bits))
                    }
                    "inf" => CV::S(f64::INFINITY.to_bits() as u128),
                    _ => panic!("lsx: constant {w:?} {:?}", c.ctx()),
                }
            }
        }
    }
    pub fn global_init(&mut self, g: u32) -> Option<CV> {
        let gl = &self.globals[g as usize];
        if gl.external { return None; }
        let (ty, (a, _)) = (gl.ty, gl.init);
        let src = std::mem::take(&mut self.src);
        let mut c = Cur::new(&src, a);
        let v = self.constant(&mut c, ty);
        self.src = src;
        Some(v)
    }

    fn op(&mut self, c: &mut Cur, f: &mut FnCtx, t: Ty) -> Op {
        if c.peek() == b'%' { c.p += 1; let n = c.name(); return Op::R(f.reg(n)); }
        match self.constant(c, t) { CV::S(x) => Op::C(x), CV::A(a) => Op::A(a) }
    }
    fn tyop(&mut self, c: &mut Cur, f: &mut FnCtx) -> (Ty, Op) { let t = self.ty(c); let o = self.op(c, f, t); (t, o) }
    fn label(&mut self, c: &mut Cur, f: &mut FnCtx) -> u32 { c.eatw("label"); c.ws(); c.expect(b'%'); let n = c.name(); f.label(n) }
    fn attrs(&mut self, c: &mut Cur) { // skip parameter / return attributes
        loop {
            let k = c.peek();
            if k == b'"' { c.p += 1; while c.s[c.p] != b'"' { c.p += 1; } c.p += 1; if c.eat(b'=') { c.ws(); c.name(); } continue; }
            if !(k.is_ascii_alphabetic()) { return; }
            let w = c.pw();
            if value_kw(w) && !(w == "c" && c.s[c.p + 1] != b'"') { return; }
            c.word();
            if w == "align" { if c.peek() == b'(' { c.parens(); } else { c.uint(); } continue; }
            if c.p < c.s.len() && c.s[c.p] == b'(' { c.parens(); }
        }
    }

    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = self.parsed.get(&id) { return f.clone(); }
        let (name, body) = self.funcs[id as usize].clone();
        let (a, end) = body.unwrap();
        let src = std::mem::take(&mut self.src);
        let f = Rc::new(self.parse_func(&src[..end], a, name));
        self.src = src;
        self.parsed.insert(id, f.clone());
        f
    }
    fn parse_func(&mut self, src: &[u8], a: usize, name: String) -> Func {
        let mut c = Cur::new(src, a);
        let mut fc = FnCtx { names: HashMap::default(), labels: HashMap::default(), nregs: 0 };
        c.word(); // define
        // linkage, visibility, cc, ret attrs: find the type right before '@'
        loop {
            let k = c.peek();
            if matches!(k, b'{' | b'[' | b'<' | b'%') { break; }
            let w = c.pw();
            if w == "void" || w == "ptr" || w == "float" || w == "double" || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit())) { break; }
            c.word();
            if w == "align" { c.uint(); } else if w == "cc" { c.uint(); } else if c.s[c.p] == b'(' { c.parens(); }
        }
        let ret = self.ty(&mut c);
        c.expect(b'@'); c.name();
        c.expect(b'(');
        let mut params = vec![]; let mut ptys = vec![];
        let mut unnamed = 0;
        if !c.eat(b')') {
            loop {
                if c.peek() == b'.' { c.p += 3; c.expect(b')'); break; }
                let t = self.ty(&mut c);
                self.attrs(&mut c);
                let n = if c.peek() == b'%' { c.p += 1; c.name() } else { let n = unnamed.to_string(); n };
                if n.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; }
                params.push(fc.reg(n)); ptys.push(t);
                if c.eat(b')') { break; }
                c.expect(b',');
            }
        }
        while c.s[c.p] != b'\n' { c.p += 1; }
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<u32> = None;
        let mut ninst = 0;
        // line oriented
        loop {
            c.ws();
            if c.p >= c.s.len() { break; }
            if c.s[c.p] == b'}' { break; }
            // label?
            let save = c.p;
            let is_label = {
                let n0 = c.s[c.p];
                if n0 == b'"' || Cur::is_id(n0) {
                    let n = c.name();
                    if c.p < c.s.len() && c.s[c.p] == b':' { c.p += 1; c.eol(); Some(n) } else { c.p = save; None }
                } else { None }
            };
            if let Some(n) = is_label {
                let l = fc.label(n);
                while blocks.len() <= l as usize { blocks.push(None); }
                blocks[l as usize] = Some(Block { phis: vec![], code: vec![] });
                cur = Some(l);
                continue;
            }
            if cur.is_none() {
                let l = fc.label(unnamed.to_string());
                blocks.push(Some(Block { phis: vec![], code: vec![] }));
                assert_eq!(l, 0);
                cur = Some(l);
            }
            if c.s[c.p] == b'#' { c.eol(); continue; }
            let blk = cur.unwrap();
            let start = c.p;
            c.ml = false;
            let ins = self.inst(&mut c, &mut fc);
            c.ml = true;
            ninst += 1;
            let b = blocks[blk as usize].as_mut().unwrap();
            match ins { Ok(Inst::Phi(d, t, v)) => b.phis.push((d, t, v)), Ok(Inst::I(i)) => b.code.push(i),
                Err(e) => { c.p = start; let txt = c.ctx(); b.code.push(I::Unsupported(format!("{e}: {}", txt.lines().next().unwrap_or("")))); c.p = start; } }
            c.eol_inst(matches!(b.code.last(), Some(I::Switch(..))));
            while blocks.len() < fc.labels.len() { blocks.push(None); }
        }
        let blocks = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], code: vec![I::Unreachable] })).collect();
        Func { name, nregs: fc.nregs, params, param_ty: ptys, blocks, ret, ninst }
    }

    fn inst(&mut self, c: &mut Cur, f: &mut FnCtx) -> Result<Inst, String> {
        let mut dst = None;
        if c.peek() == b'%' { c.p += 1; let n = c.name(); dst = Some(f.reg(n)); c.expect(b'='); }
        let d = dst.unwrap_or(u32::MAX);
        let w = c.word().to_string();
        if w == "switch" || w == "invoke" { c.ml = true; }
        let fmf = |c: &mut Cur| while matches!(c.pw(), "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak") { c.word(); };
        let bk = match w.as_str() { "add" => Some(BinK::Add), "sub" => Some(BinK::Sub), "mul" => Some(BinK::Mul), "udiv" => Some(BinK::UDiv), "sdiv" => Some(BinK::SDiv), "urem" => Some(BinK::URem), "srem" => Some(BinK::SRem),
            "and" => Some(BinK::And), "or" => Some(BinK::Or), "xor" => Some(BinK::Xor), "shl" => Some(BinK::Shl), "lshr" => Some(BinK::LShr), "ashr" => Some(BinK::AShr),
            "fadd" => Some(BinK::FAdd), "fsub" => Some(BinK::FSub), "fmul" => Some(BinK::FMul), "fdiv" => Some(BinK::FDiv), "frem" => Some(BinK::FRem), _ => None };
        if let Some(k) = bk { fmf(c); let (t, a) = self.tyop(c, f); c.expect(b','); let b = self.op(c, f, t); return Ok(Inst::I(I::Bin(d, k, t, a, b))); }
        let ck = match w.as_str() { "zext" => Some(CastK::ZExt), "sext" => Some(CastK::SExt), "trunc" => Some(CastK::Trunc), "ptrtoint" | "ptrtoaddr" => Some(CastK::PtrToInt), "inttoptr" => Some(CastK::IntToPtr), "bitcast" => Some(CastK::BitCast),
            "fptosi" => Some(CastK::FpToSi), "fptoui" => Some(CastK::FpToUi), "sitofp" => Some(CastK::SiToFp), "uitofp" => Some(CastK::UiToFp), "fpext" => Some(CastK::FpExt), "fptrunc" => Some(CastK::FpTrunc), _ => None };
        if let Some(k) = ck { fmf(c); let (t, a) = self.tyop(c, f); c.eatw("to"); let t2 = self.ty(c); return Ok(Inst::I(I::Cast(d, k, t, t2, a))); }
        let i = match w.as_str() {
            "phi" => {
                fmf(c);
                let t = self.ty(c); let mut v = vec![];
                loop { c.expect(b'['); let o = self.op(c, f, t); c.expect(b','); let l = self.label(c, f); c.expect(b']'); v.push((l, o)); if !c.eat(b',') { break; } if c.peek() == b'!' { break; } }
                return Ok(Inst::Phi(d, t, v));
            }
            "fneg" => { fmf(c); let (t, a) = self.tyop(c, f); I::FNeg(d, t, a) }
            "icmp" => {
                fmf(c);
                let k = match c.word() { "eq" => ICmpK::Eq, "ne" => ICmpK::Ne, "ult" => ICmpK::Ult, "ule" => ICmpK::Ule, "ugt" => ICmpK::Ugt, "uge" => ICmpK::Uge, "slt" => ICmpK::Slt, "sle" => ICmpK::Sle, "sgt" => ICmpK::Sgt, "sge" => ICmpK::Sge, x => return Err(format!("icmp {x}")) };
                let (t, a) = self.tyop(c, f); c.expect(b','); let b = self.op(c, f, t); I::ICmp(d, k, t, a, b)
            }
            "fcmp" => {
                fmf(c);
                let k = match c.word() { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, "true" => 15, x => return Err(format!("fcmp {x}")) };
                let (t, a) = self.tyop(c, f); c.expect(b','); let b = self.op(c, f, t); I::FCmp(d, k, t, a, b)
            }
            "select" => { fmf(c); let (ct, cc) = self.tyop(c, f); c.expect(b','); let (t, a) = self.tyop(c, f); c.expect(b','); let (_, b) = self.tyop(c, f); I::Select(d, ct, t, cc, a, b) }
            "freeze" => { let (_, a) = self.tyop(c, f); I::Freeze(d, a) }
            "alloca" => {
                c.eatw("inalloca");
                let t = self.ty(c); let (sz, mut al) = (self.types.i(t).size, self.types.i(t).align); let mut cnt = None;
                while c.eat(b',') { if c.eatw("align") { al = c.uint(); } else if c.peek() == b'!' { break; } else if c.eatw("addrspace") { c.parens(); } else { let (t, o) = self.tyop(c, f); cnt = Some((t, o)); } }
                I::Alloca(d, sz, al, cnt)
            }
            "load" => { fmf(c); let t = self.ty(c); c.expect(b','); let (_, p) = self.tyop(c, f); I::Load(d, t, p) }
            "store" => { fmf(c); let (t, v) = self.tyop(c, f); c.expect(b','); let (_, p) = self.tyop(c, f); I::Store(t, v, p) }
            "getelementptr" => {
                fmf(c);
                let bt = self.ty(c); c.expect(b','); let (_, base) = self.tyop(c, f);
                let mut off = 0i64; let mut dynm = vec![]; let mut cur = bt; let mut first = true;
                while c.eat(b',') {
                    if c.peek() == b'!' { break; }
                    let (it, o) = self.tyop(c, f);
                    if let TK::Vector(..) = self.types.i(it).k { return Err("vector gep".into()); }
                    let wi = self.types.i(it).bits;
                    let scale = if first { first = false; self.types.i(cur).size as i64 } else {
                        match self.types.i(cur).k.clone() {
                            TK::Struct(fs, _) => { let Op::C(k) = o else { return Err("gep".into()) }; off += self.types.i(cur).offs[k as usize] as i64; cur = fs[k as usize]; continue; }
                            TK::Array(_, e) | TK::Vector(_, e) => { cur = e; self.types.i(e).size as i64 }
                            _ => return Err("gep type".into()),
                        }
                    };
                    match o { Op::C(k) => off = off.wrapping_add((crate::term::sext(k, wi) as i64).wrapping_mul(scale)), o => dynm.push((o, wi, scale)) }
                }
                I::Gep(d, base, off, dynm)
            }
            "extractvalue" => { let (_, a) = self.tyop(c, f); let mut ix = vec![]; while c.eat(b',') { if c.peek() == b'!' { break; } ix.push(c.uint() as u32); } I::Extract(d, a, ix) }
            "insertvalue" => { let (t, a) = self.tyop(c, f); c.expect(b','); let (_, v) = self.tyop(c, f); let mut ix = vec![]; while c.eat(b',') { if c.peek() == b'!' { break; } ix.push(c.uint() as u32); } I::Insert(d, t, a, v, ix) }
            "extractelement" => { let (_, a) = self.tyop(c, f); c.expect(b','); let (_, ix) = self.tyop(c, f); I::ExtractEl(d, a, ix) }
            "insertelement" => { let (t, a) = self.tyop(c, f); c.expect(b','); let (_, v) = self.tyop(c, f); c.expect(b','); let (_, ix) = self.tyop(c, f); I::InsertEl(d, t, a, v, ix) }
            "shufflevector" => {
                let (t, a) = self.tyop(c, f); c.expect(b','); let (_, b) = self.tyop(c, f); c.expect(b','); let mt = self.ty(c);
                let mut ms = vec![];
                match self.constant(c, mt) { CV::A(v) => for x in v.iter() { if let CV::S(x) = x { ms.push(*x as i32) } }, _ => return Err("mask".into()) }
                I::Shuffle(d, t, a, b, ms)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if w != "call" && w != "invoke" { c.word(); }
                fmf(c);
                // cc and return attributes
                loop {
                    let k = c.peek();
                    if matches!(k, b'{' | b'[' | b'<' | b'%') { break; }
                    let w = c.pw();
                    if w == "void" || w == "ptr" || w == "float" || w == "double" || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit())) { break; }
                    if w.is_empty() { return Err("call".into()); }
                    c.word();
                    if w == "align" || w == "cc" { c.uint(); } else if c.s[c.p] == b'(' { c.parens(); }
                }
                let rt = self.ty(c);
                if c.peek() == b'(' { c.parens(); } // function type of a varargs callee
                let callee = match c.peek() {
                    b'@' => { c.p += 1; let n = c.name(); match self.fmap.get(&n) { Some(&id) => Callee::Direct(id), None => match self.gmap.get(&n) { Some(&a) => Callee::Ptr(Op::C(a as u128)), None => return Err(format!("unknown callee {n}")) } } }
                    b'%' => { c.p += 1; let n = c.name(); Callee::Ptr(Op::R(f.reg(n))) }
                    _ => {
                        if c.eatw("asm") {
                            while c.peek() != b'"' { c.word(); }
                            let mut empty = false;
                            for k in 0..2 { c.peek(); let a = c.p; c.p += 1; while c.s[c.p] != b'"' { c.p += 1; } c.p += 1; if k == 0 && c.p - a == 2 { empty = true; } c.eat(b','); }
                            if !empty { return Err("inline asm".into()); }
                            Callee::Asm
                        } else { let pt = self.types.get(TK::Ptr); Callee::Ptr(self.op(c, f, pt)) }
                    }
                };
                c.expect(b'(');
                let mut args = vec![];
                if !c.eat(b')') {
                    loop {
                        let t = self.ty(c);
                        if matches!(self.types.i(t).k, TK::Other(ref s) if s == "metadata") {
                            // skip metadata operand
                            let mut dpt = 0;
                            loop { let k = c.peek(); if dpt == 0 && (k == b',' || k == b')') { break; } if k == b'(' { dpt += 1; } if k == b')' { dpt -= 1; } if k == b'"' { c.name(); } else { c.p += 1; } }
                            args.push((t, Op::C(0)));
                        } else {
                            self.attrs(c);
                            let o = self.op(c, f, t);
                            args.push((t, o));
                        }
                        if c.eat(b')') { break; }
                        c.expect(b',');
                    }
                }
                let mut nd = None;
                if w == "invoke" {
                    loop { if c.pw() == "to" { break; } if c.peek() == b'#' || c.peek() == b'[' { c.p += 1; } else if c.word().is_empty() { c.p += 1; } }
                    c.eatw("to"); nd = Some(self.label(c, f)); c.eatw("unwind"); self.label(c, f);
                }
                I::Call(dst, rt, callee, args, nd)
            }
            "br" => {
                if c.pw() == "label" { I::Br(self.label(c, f)) }
                else { let (_, o) = self.tyop(c, f); c.expect(b','); let a = self.label(c, f); c.expect(b','); let b = self.label(c, f); I::CondBr(o, a, b) }
            }
            "switch" => {
                let (t, o) = self.tyop(c, f); c.expect(b','); let dl = self.label(c, f); c.expect(b'[');
                let mut v = vec![];
                while !c.eat(b']') { let t2 = self.ty(c); let CV::S(k) = self.constant(c, t2) else { return Err("switch".into()) }; c.expect(b','); let l = self.label(c, f); v.push((k, l)); }
                I::Switch(t, o, dl, v)
            }
            "ret" => { let t = self.ty(c); if self.types.i(t).k == TK::Void { I::Ret(t, None) } else { let o = self.op(c, f, t); I::Ret(t, Some(o)) } }
            "unreachable" => I::Unreachable,
            "fence" => I::Fence,
            "resume" => I::Unreachable,
            "landingpad" => I::Unsupported("landingpad".into()),
            "atomicrmw" => { fmf(c); let k = c.word().to_string(); let (_, p) = self.tyop(c, f); c.expect(b','); let (t, v) = self.tyop(c, f); I::Rmw(d, k, t, p, v) }
            "cmpxchg" => { fmf(c); let (_, p) = self.tyop(c, f); c.expect(b','); let (t, a) = self.tyop(c, f); c.expect(b','); let (_, b) = self.tyop(c, f); I::CmpXchg(d, t, p, a, b) }
            _ => return Err(format!("instruction {w}")),
        };
        Ok(Inst::I(i))
    }
}
enum Inst { Phi(u32, Ty, Vec<(u32, Op)>), I(I) }
impl<'a> Cur<'a> {
    fn eol_inst(&mut self, _sw: bool) { self.eol(); // continuation lines (landingpad clauses, invoke destinations)
        loop {
            let save = self.p;
            self.ws();
            if self.p >= self.s.len() { return; }
            let w = self.word_at();
            if matches!(w, "cleanup" | "catch" | "filter" | "to") { self.eol(); } else { self.p = save; return; }
        }
    }
}
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }
