mod exec;
mod fx;
mod parse;
mod term;
mod z3;
use exec::*;

extern "C" { fn pipe(fds: *mut i32) -> i32; fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32; fn write(fd: i32, b: *const u8, n: usize) -> isize; }

fn main() {
    // deep recursion in term evaluation and lowering
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap();
}
fn real_main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut o = Opts { real: false, max_steps: 50_000_000, max_secs: 3600.0, jobs: 1, out: String::new(), samples: 3, concrete: None, rlimit: 0, keep: 3, stubs: vec![], debug: false, params: vec![] };
    let (mut ll, mut entry, mut dump) = (String::new(), String::new(), None);
    let mut i = 0;
    let nx = |i: &mut usize| { *i += 1; args[*i - 1].clone() };
    while i < args.len() {
        let a = args[i].clone();
        i += 1;
        match a.as_str() {
            "--real" => o.real = true,
            "--debug" => o.debug = true,
            "--max-steps" => o.max_steps = nx(&mut i).parse().unwrap(),
            "--max-secs" => o.max_secs = nx(&mut i).parse().unwrap(),
            "--jobs" => o.jobs = nx(&mut i).parse().unwrap(),
            "--out" => o.out = nx(&mut i),
            "--samples" => o.samples = nx(&mut i).parse().unwrap(),
            "--keep" => o.keep = nx(&mut i).parse().unwrap(),
            "--rlimit" => o.rlimit = nx(&mut i).parse().unwrap(),
            "--dump" => dump = Some(nx(&mut i)),
            "--stub" => { let s = nx(&mut i); let (a, b) = s.split_once('=').unwrap(); o.stubs.push((a.into(), b.into())); }
            "--concrete" => { let s = nx(&mut i); o.concrete = Some(s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()); }
            "--params" => o.params = nx(&mut i).split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--version" => { println!("{}", z3::version()); return; }
            "--selftest" => { selftest(o.jobs as u64); return; }
            _ if ll.is_empty() => ll = a,
            _ => entry = a,
        }
    }
    let t0 = std::time::Instant::now();
    let m = parse::Module::load(std::fs::read(&ll).unwrap());
    if o.debug { eprintln!("lsx: {} functions, {} globals, read in {:.2}s", m.funcs.len(), m.globals.len(), t0.elapsed().as_secs_f64()); }
    std::fs::create_dir_all(&o.out).unwrap();
    let jobs = o.jobs;
    let mut ex = Ex::new(m, o);
    ex.z.dump = dump;
    if jobs > 1 {
        let mut fds = [0i32; 2];
        unsafe { pipe(fds.as_mut_ptr()); fcntl(fds[0], 4, 0o4000); for _ in 1..jobs { write(fds[1], b"t".as_ptr(), 1); } }
        ex.token = Some((fds[0], fds[1]));
    }
    ex.start(&entry);
    ex.run();
    ex.finish_process();
    std::process::exit(0);
}

/// Random terms built twice: through the simplifying constructors and as plain arithmetic on the inputs.
fn selftest(n: u64) {
    use term::*;
    let mut seed = 0x9E3779B97F4A7C15u64;
    let mut rnd = move || { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; seed };
    let iters = if n > 1 { n } else { 20000 };
    let mut bad = 0;
    for _ in 0..iters {
        let mut ts = Terms::new(false);
        let ins: Vec<u128> = (0..4).map(|_| match rnd() % 4 { 0 => rnd() as u128, 1 => (rnd() % 4) as u128, 2 => (0u64.wrapping_sub(rnd() % 4)) as u128, _ => (rnd() & rnd() & rnd()) as u128 }).collect();
        let mut pool: Vec<(Tid, u128, u32)> = vec![];
        for k in 0..4u32 { let w = [64, 64, 8, 1][k as usize]; let t = ts.var(w, k); pool.push((t, ins[k as usize] & mask(w), w)); }
        for _ in 0..6 { let w = [64u32, 8, 1, 32][(rnd() % 4) as usize]; let v = match rnd() % 3 { 0 => (rnd() % 3) as u128 & mask(w), 1 => mask(w), _ => rnd() as u128 & mask(w) }; let t = ts.konst(w, v); pool.push((t, v, w)); }
        for _ in 0..24 {
            let (a, av, aw) = pool[(rnd() % pool.len() as u64) as usize];
            let same: Vec<_> = pool.iter().filter(|x| x.2 == aw).cloned().collect();
            let (b, bv, _) = same[(rnd() % same.len() as u64) as usize];
            let r = match rnd() % 12 {
                0..=3 => { let op = [B::Add, B::Sub, B::Mul, B::UDiv, B::SDiv, B::URem, B::SRem, B::And, B::Or, B::Xor, B::Shl, B::LShr, B::AShr][(rnd() % 13) as usize]; (ts.bin(op, a, b), c_bin(op, aw, av, bv), aw) }
                4 | 5 => { let p = [P::Eq, P::Ult, P::Ule, P::Slt, P::Sle][(rnd() % 5) as usize]; (ts.cmp(p, a, b), c_cmp(p, aw, av, bv) as u128, 1) }
                6 => { let cs: Vec<_> = pool.iter().filter(|x| x.2 == 1).cloned().collect(); let (c, cv, _) = cs[(rnd() % cs.len() as u64) as usize]; (ts.ite(c, a, b), if cv == 1 { av } else { bv }, aw) }
                7 => { let w = (aw + 1 + (rnd() % 64) as u32).min(128); (ts.zext(a, w), av, w) }
                8 => { let w = (aw + 1 + (rnd() % 64) as u32).min(128); (ts.sext(a, w), sext(av, aw) as u128 & mask(w), w) }
                9 => { let lo = (rnd() % aw as u64) as u32; let w = 1 + (rnd() % (aw - lo) as u64) as u32; (ts.extract(a, lo, w), (av >> lo) & mask(w), w) }
                10 if aw <= 64 => { (ts.concat(a, b), (av << aw) | bv, 2 * aw) }
                _ => if aw == 1 { (ts.not(a), av ^ 1, 1) } else if aw == 64 {
                    match rnd() % 4 { 0 => { let op = [FB::Add, FB::Sub, FB::Mul, FB::Div][(rnd() % 4) as usize]; let c = |x: u128| if f64::from_bits(x as u64).is_nan() { 0x7ff8000000000000 } else { x }; let r = ts.fbin(op, a, b); let v = c_fbin(op, 64, av, bv); ts.new_eval(); let got = ts.eval(r, &ins); if c(got) != c(v) { bad += 1; } continue; }
                        1 => (ts.stof(a, 64), c_stof(64, 64, av), 64), 2 => { let p = [FP::Oeq, FP::Olt, FP::Ole, FP::Uno][(rnd() % 4) as usize]; (ts.fcmp(p, a, b), c_fcmp(p, 64, av, bv) as u128, 1) } _ => { let op = [FU::Neg, FU::Abs][(rnd() % 2) as usize]; (ts.fun(op, a), c_fun(op, 64, av), 64) } }
                } else { continue },
            };
            ts.new_eval();
            let got = ts.eval(r.0, &ins);
            if got != r.1 || ts.width(r.0) != r.2 || ts.umax(r.0) < r.1 || ts.umin_of(r.0) > r.1 { bad += 1; if bad < 10 { eprintln!("selftest mismatch: {:?} got {:x} want {:x} w {} (operands {:x} {:x} w {})", ts.nodes[r.0 as usize], got, r.1, r.2, av, bv, aw); } }
            pool.push(r);
        }
    }
    println!("selftest: {iters} random terms batches, {bad} mismatches");
    std::process::exit(if bad == 0 { 0 } else { 3 });
}
