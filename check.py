#!/usr/bin/env python3
"""Decides one property: python3 check.py PROPERTY quick|thorough   (or: check.py --replay FILE)

Builds the symbolic executor (lsx) and the harness crates the property needs against /repo's working tree, emits the
post-LTO LLVM IR of each harness together with the native binary made from that same IR, lets lsx decide every harness
entry with z3, replays what the solver reports on the native binary, and writes evidence/PROPERTY.json.
"""
import collections, concurrent.futures, fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
WORK = os.path.join(HERE, '.work')
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

T0 = time.time()
BUDGET = {'quick': 840.0, 'thorough': 6 * 3600.0}


class Broken(Exception):
    """the check itself could not give an answer"""


def env():
    e = dict(os.environ)
    e.update(PATH='/root/.cargo/bin:/usr/local/bin:' + e.get('PATH', ''), RUSTUP_TOOLCHAIN='1.96.0', RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', PGRX_HOME='/opt/vp/pgrx-home', RUSTC_BOOTSTRAP='1', VERIF_DIR=HERE, CARGO_INCREMENTAL='0')
    for k in ('CARGO_PGRX', 'CARGO_PGRX_TEST_PGDATA', 'CARGO_PGRX_TEST_RUNAS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    return e


def run(cmd, cwd=None, e=None, timeout=None):
    p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    return p.returncode, p.stdout


def build_lsx():
    e = env()
    e['RUSTFLAGS'] = ''
    rc, out = run(['cargo', 'build', '--release', '--offline', '--target-dir', WORK + '/lsx'], HERE + '/lsx', e)
    if rc:
        raise Broken('lsx does not build:\n' + out[-3000:])
    return WORK + '/lsx/release/lsx'


# Keep calls as calls: the executor then follows (and can stub) the functions the source has.
RUSTFLAGS = '-Zinline-mir=no -Cllvm-args=-inline-threshold=30 -Cllvm-args=-inlinehint-threshold=30'


def digest(roots, extra):
    """content of everything a harness is built from"""
    d = {'extra': extra}
    for r in roots:
        fs = [r] if os.path.isfile(r) else sorted(os.path.join(a, f) for a, ds, ff in os.walk(r) for f in ff if '/target/' not in a and '/.git/' not in a)
        for f in fs:
            if f.endswith(('.rs', '.toml', '.pest', '.c', '.json', '.lock', '.sql')):
                d[f] = hashlib.sha256(open(f, 'rb').read()).hexdigest()
    return d


def put(path, text):
    """write only what changed, so that cargo rebuilds only what changed"""
    if not os.path.exists(path) or open(path).read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, 'w').write(text)


def macros(dst):
    """pgrx-macros without the SQL-callable wrappers and SQL entities: they drag every function of the extension into the IR
    and are pgrx's code. #[pg_extern] leaves the function as it is, next to a wrapper that only panics."""
    src = [d for d in glob.glob(os.path.expanduser('~/.cargo/registry/src/*/pgrx-macros-*')) if os.path.isdir(d)]
    want = re.search(r'pgrx-macros\s*=\s*"=?([0-9.]+)"', open(REPO + '/extension/Cargo.toml').read())
    src = [d for d in src if not want or d.endswith('-' + want.group(1))]
    if not src:
        raise Broken('no sources of pgrx-macros')
    if not os.path.exists(dst + '/Cargo.toml'):
        shutil.copytree(src[0], dst, dirs_exist_ok=True)
    s = open(src[0] + '/src/lib.rs').read()
    i = s.index('pub fn pg_extern(attr: TokenStream, item: TokenStream) -> TokenStream {')
    s = s[:i] + s[i:].replace('{', """{
    if true {
        let _ = attr;
        let mut prev_fn = false;
        let mut name = String::new();
        for t in item.clone() { if let proc_macro::TokenTree::Ident(i) = &t { if prev_fn { name = i.to_string(); break; } prev_fn = i.to_string() == "fn"; } }
        let mut out = item;
        out.extend(format!("#[allow(unused)] #[doc(hidden)] pub unsafe extern \\"C-unwind\\" fn {name}_wrapper(_: ::pgrx::pg_sys::FunctionCallInfo) -> ::pgrx::pg_sys::Datum {{ panic!() }}").parse::<TokenStream>().unwrap());
        return out;
    }
""", 1)
    i = s.index('pub fn extension_sql(input: TokenStream) -> TokenStream {')
    s = s[:i] + s[i:].replace('{', '{\n    if true { let _ = input; return TokenStream::new(); }', 1)
    put(dst + '/src/lib.rs', s)


def setjmp(dst):
    """cee-scape without its assembly: the callback is called, and a PostgreSQL error inside it ends the program (the stand-ins
    for PostgreSQL abort instead of jumping). How errors unwind through the server is not part of any claim."""
    src = [d for d in glob.glob(os.path.expanduser('~/.cargo/registry/src/*/cee-scape-*')) if os.path.isdir(d)]
    if not src:
        raise Broken('no sources of cee-scape')
    if not os.path.exists(dst + '/Cargo.toml'):
        shutil.copytree(src[0], dst, dirs_exist_ok=True)
    put(dst + '/src/asm_based.rs', '''use crate::*;
use libc::c_int;
pub fn call_with_setjmp<F>(callback: F) -> c_int where F: for<'a> FnOnce(&'a JmpBufFields) -> c_int {
    let b: JmpBufStruct = unsafe { std::mem::zeroed() };
    callback(unsafe { &*(&b as *const JmpBufStruct as *const JmpBufFields) })
}
pub fn call_with_sigsetjmp<F>(_: bool, callback: F) -> c_int where F: for<'a> FnOnce(&'a SigJmpBufFields) -> c_int {
    let b: SigJmpBufStruct = unsafe { std::mem::zeroed() };
    callback(unsafe { &*(&b as *const SigJmpBufStruct as *const SigJmpBufFields) })
}
''')


def prepare_extension(src, w):
    """a package with the extension's library (sources: /repo/extension/src) and the harness binary. The repository's own
    manifest is not used as it is, because it also builds a shared library for the server."""
    macros(os.path.dirname(w) + '/pgrx-macros')
    setjmp(os.path.dirname(w) + '/cee-scape')
    t = open(REPO + '/extension/Cargo.toml').read()
    t = re.sub(r'path\s*=\s*"\.\./crates', 'path = "%s/crates' % REPO, t)
    t = t[:t.index('[dev-dependencies]')] if '[dev-dependencies]' in t else t
    t = re.sub(r',?\s*"pgrx-tests/pg\d+"', '', t)
    t = re.sub(r'\[lib\]\ncrate-type = \[.*\]', '[lib]\npath = "src/lib.rs"\ncrate-type = ["lib"]\ntest = false\ndoctest = false\n\n[[bin]]\nname = "h"\npath = "bin/main.rs"', t)
    t = re.sub(r'default = \["pg\d+"\]', 'default = ["pg16"]', t)
    t = t.replace('[dependencies]\n', '[dependencies]\nsx = { path = "%s/harness/sx" }\n' % HERE, 1)
    t += '\n[workspace]\n[profile.release]\nlto = "fat"\ncodegen-units = 1\npanic = "abort"\nopt-level = 1\ndebug = false\n[patch.crates-io]\npgrx-macros = { path = "%s/pgrx-macros" }\ncee-scape = { path = "%s/cee-scape" }\n' % (os.path.dirname(w), os.path.dirname(w))
    put(w + '/Cargo.toml', t)
    if not os.path.islink(w + '/src'):
        os.symlink(REPO + '/extension/src', w + '/src')
    for f in glob.glob(w + '/bin/*'):
        if not os.path.exists(src + '/bin/' + os.path.basename(f)):
            os.remove(f)
    for f in glob.glob(src + '/bin/*.rs'):
        put(w + '/bin/' + os.path.basename(f), open(f).read())


def build_harness(crate):
    """-> (IR file, native binary)"""
    os.makedirs(os.path.join(WORK, crate), exist_ok=True)
    with open(os.path.join(WORK, crate, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked(crate)


def build_locked(crate):
    src = os.path.join(HERE, 'harness', crate)
    tgt = os.path.join(WORK, crate)
    e = env()
    conf = os.path.join(src, 'build.json')
    c = json.load(open(conf)) if os.path.exists(conf) else {}
    ext = c.get('extension', False)
    flags = RUSTFLAGS + ' ' + c.get('rustflags', '')
    roots = [REPO + '/crates', REPO + '/Cargo.lock', src, HERE + '/harness/sx'] + ([REPO + '/extension/src', REPO + '/extension/Cargo.toml', REPO + '/Cargo.toml'] if ext else [])
    now = digest(roots, [flags, c, open(os.path.abspath(__file__)).read().split('def native(binary')[0]])
    stamp = tgt + '/built.json'
    old = json.load(open(stamp)) if os.path.exists(stamp) else None
    if old and old['from'] == now and os.path.exists(old['ll']) and os.path.exists(old['bin']):
        print('harness %s is up to date' % crate, flush=True)
        return old['ll'], old['bin']
    if os.path.exists(stamp):
        os.remove(stamp)
    o = tgt + '/sxn.o'
    rc, out = run(['gcc', '-O1', '-c', HERE + '/harness/sx/sx_native.c', '-o', o])
    if rc:
        raise Broken('native runtime: ' + out)
    link = ['-C', 'link-arg=' + o, '-C', 'link-arg=-lm']
    link += [x for f in c.get('link', []) for x in ('-C', 'link-arg=' + f)]
    e['RUSTFLAGS'] = flags
    e['CARGO_TARGET_DIR'] = tgt
    w = tgt + '/src'
    os.makedirs(w, exist_ok=True)
    # the harness is built from a copy, so that the lock file it needs is not written into /verif
    if ext:
        prepare_extension(src, w)
    else:
        put(w + '/Cargo.toml', open(src + '/Cargo.toml').read().replace('path = "../', 'path = "' + HERE + '/harness/'))
        for f in glob.glob(src + '/src/*.rs'):
            put(w + '/src/' + os.path.basename(f), open(f).read())
    put(w + '/Cargo.lock', open(REPO + '/Cargo.lock').read())
    # contents decide what is rebuilt, not modification times: forget cargo's fingerprints of everything that is not from a registry
    if old is None or any(old['from'].get(f) != now.get(f) for f in set(old['from']) | set(now)):
        for n in ['h', 'sx'] + [m for m in re.findall(r'name = "([^"]+)"\nversion = "[^"]+"\n(?!source)', open(w + '/Cargo.lock').read())]:
            for d in glob.glob(tgt + '/release/.fingerprint/' + glob.escape(n) + '-*'):
                shutil.rmtree(d)
    for f in glob.glob(tgt + '/release/deps/h-*.ll'):
        os.remove(f)
    cmd = ['cargo', 'rustc', '--offline', '--release', '--bin', 'h', '--', '--emit=llvm-ir,link'] + link + ['-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp']
    t0 = time.time()
    rc, out = run(cmd, w, e)
    ll = glob.glob(tgt + '/release/deps/h-*.ll')
    if rc or not ll:
        raise Broken('harness %s does not build against /repo:\n%s' % (crate, '\n'.join(x for x in out.splitlines() if not x.startswith('warning'))[-6000:]))
    print('built harness %s in %.0f s' % (crate, time.time() - t0), flush=True)
    ll = max(ll, key=os.path.getmtime)
    json.dump({'from': now, 'll': ll, 'bin': tgt + '/release/h'}, open(stamp, 'w'))
    return ll, tgt + '/release/h'


def native(binary, entry, inputs, params, timeout=20):
    """-> (how it ended, observations)"""
    e = {k: v for k, v in env().items() if k in ('PATH', 'HOME')}
    e['RUST_BACKTRACE'] = '0'
    try:
        p = subprocess.run([binary, entry, inputs or '', params], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, text=True, errors='replace', env=e, preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (6 << 30, 6 << 30)))
    except subprocess.TimeoutExpired:
        return 'timeout', []
    end, obs = 'crash %d' % p.returncode, []
    for l in p.stdout.splitlines():
        if l.startswith('O '):
            obs.append(l[2:])
        elif l.startswith('END '):
            end = l[4:]
    return end, obs


class Result:
    def __init__(self):
        self.n = collections.Counter()
        self.paths = collections.Counter()
        self.covers = collections.Counter()
        self.asserts = {}
        self.viol = []      # (key, inputs, message)
        self.samples = []
        self.incomplete = collections.Counter()
        self.stubbed = set()
        self.funcs = {}


def lsx(binary, ir, h, params, out, secs, jobs, concrete=None):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [binary, ir, h.entry, '--out', out, '--params', params, '--max-secs', str(secs), '--jobs', str(jobs), '--samples', '4', '--rlimit', str(h.rlimit), '--max-steps', str(h.steps)]
    for s in h.stubs:
        cmd += ['--stub', s]
    if concrete is not None:
        cmd += ['--concrete', concrete]
    elif h.real:
        cmd += ['--real']
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 120, text=True, errors='replace', env=env())
        rc, txt = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, txt = -1, 'timed out'
    r = Result()
    parts = glob.glob(out + '/part-*')
    if rc != 0 or not parts:
        r.incomplete['the executor ended with status %s: %s' % (rc, txt[-300:].replace('\n', ' '))] += 1
    for f in parts:
        for l in open(f):
            t = l.rstrip('\n').split('\t')
            k = t[0]
            if k in 'NF':
                r.n[t[1]] += float(t[2])
            elif k == 'M':
                r.n['max_' + t[1]] = max(r.n['max_' + t[1]], float(t[2]))
            elif k == 'P':
                r.paths[t[1]] += int(t[2])
            elif k == 'C':
                r.covers[int(t[1])] += int(t[2])
            elif k == 'A':
                a = r.asserts.setdefault(t[1], [0, 0])
                a[0] += int(t[2])
                a[1] += int(t[3])
            elif k == 'V':
                r.viol.append((t[1], t[2], t[3] if len(t) > 3 else ''))
            elif k == 'S':
                r.samples.append((t[1], t[2], t[3] if len(t) > 3 else ''))
            elif k == 'U':
                r.incomplete[t[2]] += int(t[1])
            elif k == 'X':
                r.stubbed.add(t[1])
            elif k == 'G':
                r.funcs[t[1]] = int(t[2])
    shutil.rmtree(out, ignore_errors=True)
    return r


def reproduces(key, end):
    """does this native ending confirm a violation of this kind?"""
    if key.startswith('assert:'):
        # another assertion of the same harness failing first is the same input breaking the property
        return end.startswith('assert') or end in ('panic', 'memory', 'timeout')
    if key == 'steps':
        return end in ('timeout', 'memory', 'panic') or end.startswith('crash')
    return end in ('panic', 'memory', 'timeout') or end.startswith(('assert', 'crash'))


def known(prop):
    """{(entry, key prefix): description} of the recorded findings of this property"""
    k = {}
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        if l.startswith('known: property=%s ' % prop):
            f = dict(x.split('=', 1) for x in l.split(' :: ')[0].split()[1:])
            k[(f['harness'], f['key'])] = l.split(' :: ', 1)[1].strip()
    return k


def check(prop, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[prop]
    exe = build_lsx()
    bins = {}
    for c in sorted({h.crate for h in spec.harnesses}):
        bins[c] = build_harness(c)
    kf = known(prop)
    hs = []
    for h in spec.harnesses:
        for p in (h.quick if tier == 'quick' else h.thorough):
            hs.append((h, p))
    deadline = T0 + BUDGET[tier]
    workers = 3
    results = []

    def one(i):
        h, p = hs[i]
        secs = max(20, min(h.secs if tier == 'quick' else 3600, deadline - time.time()))
        t0 = time.time()
        r = lsx(exe, bins[h.crate][0], h, p, '%s/out/%s-%d' % (WORK, prop, i), secs, 4)
        return h, p, r, time.time() - t0

    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for h, p, r, dt in ex.map(one, range(len(hs))):
            results.append((h, p, r))
            print('%-28s %-8s %7.1f s  paths %s  queries %d  solver %.1f s%s' % (h.entry, p, dt, dict((k, v) for k, v in r.paths.items() if v), r.n['queries'], r.n['solver_s'], '  violations %d' % len(r.viol) if r.viol else ''), flush=True)

    problems, violations, findings = [], [], []
    validated, samples = 0, []
    rnd = random.Random(seed)
    for i, (h, p, r) in enumerate(results):
        ir, b = bins[h.crate]
        # 1. what the solver found, on the native code
        confirmed = set()
        tried = collections.Counter()
        unconfirmed = {}
        for key, inp, msg in r.viol:
            if key in confirmed or tried[key] >= 40:
                continue
            tried[key] += 1
            end, _ = native(b, h.entry, inp, p)
            if reproduces(key, end):
                confirmed.add(key)
                unconfirmed.pop(key, None)
                rec = dict(property=prop, harness=h.entry, crate=h.crate, params=p, key=key, inputs=inp, message=msg, native=end, meaning=h.ids.get(key.split(':')[-1], ''))
                if (h.entry, key) in kf:
                    findings.append((rec, kf[(h.entry, key)]))
                else:
                    violations.append(rec)
            else:
                unconfirmed[key] = (inp, end)
        for key, (inp, end) in unconfirmed.items():
            problems.append('%s %s: the solver reports %s for inputs %s, but the compiled code ends with "%s"' % (h.entry, p, key, inp, end))
        # 2. the encoding against the implementation on the paths it found
        ss = r.samples if len(r.samples) <= 4 else rnd.sample(r.samples, 4)
        for kind, inp, obs in ss:
            if kind == 'real':
                c = lsx(exe, ir, h, p, '%s/out/%s-c' % (WORK, prop), 60, 1, concrete=inp)
                got = native(b, h.entry, inp, p)
                if c.samples:
                    want = (c.samples[0][0], [x for x in c.samples[0][2].split(',') if x])
                else:
                    v = [k for k, n in c.paths.items() if n]
                    want = (c.viol[0][0].split(':')[0] if c.viol else (v[0] if v else '?'), None)
                ok = (want[0] == 'done' and got[0] == 'done' and got[1] == want[1]) or (want[0] == 'panic' and got[0] in ('panic', 'panic_ok')) or (want[0] == 'assert' and got[0].startswith('assert')) or want[0] == got[0]
            else:
                got = native(b, h.entry, inp, p)
                want = (kind, [x for x in obs.split(',') if x])
                ok = got[1][:len(want[1])] == want[1] and (got[0] == 'done' if kind == 'done' else got[0] == 'panic_ok')
            if ok:
                validated += 1
                if len(samples) < 12 and inp:
                    samples.append(dict(harness=h.entry, params=p, inputs=inp[:300], ended=got[0], observed=got[1][:8]))
            elif not violations:
                problems.append('%s %s: executor and compiled code disagree on inputs %s: %s vs %s' % (h.entry, p, inp, want, got))
        # 3. completeness and vacuity
        for m, n in r.incomplete.items():
            problems.append('%s %s: %d paths undecided: %s' % (h.entry, p, n, m))
        if not r.viol:
            for c in h.cover:
                if not r.covers[c]:
                    problems.append('%s %s: witness %d is unreachable (the harness decides nothing there)' % (h.entry, p, c))
            if not r.asserts and not h.noassert and not r.paths.get("panic_ok"):
                problems.append('%s %s: no assertion reached' % (h.entry, p))

    os.makedirs(HERE + '/evidence', exist_ok=True)
    tot = collections.Counter()
    for _, _, r in results:
        tot['paths'] += sum(r.paths.values())
        tot['insts'] += int(r.n['insts'])
        tot['queries'] += int(r.n['queries'])
        tot['solver_s'] += r.n['solver_s']
        tot['unknown'] += int(r.n['unknowns'])
        tot['hits'] += int(r.n['cache_hits'])
    funcs = {}
    for h, p, r in results:
        for f, n in r.funcs.items():
            if f.startswith(tuple(spec.code)) or any(c in f for c in spec.code):
                funcs[f] = n
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=tot['paths'], transitions=tot['insts'], traces_validated_against_impl=validated, samples=samples,
                  explanation='states: path classes ended (each stands for every input that satisfies its path condition); transitions: LLVM IR instructions executed symbolically; '
                              'traces: solver-chosen inputs run both in the executor and on the binary linked from the same IR, with equal endings and observations',
                  queries=tot['queries'], queries_answered_from_cache=tot['hits'], solver_seconds=round(tot['solver_s'], 2), unknown_answers=tot['unknown'],
                  functions_encoded=len(funcs), functions=sorted(funcs)[:400],
                  harnesses=[dict(entry=h.entry, bounds=h.bounds, params=p, arithmetic='exact reals' if h.real else 'bit-vectors and IEEE floats',
                                  paths={k: v for k, v in r.paths.items() if v}, assertions={k: dict(solver=a[0], trivial=a[1]) for k, a in sorted(r.asserts.items())},
                                  witnesses={str(k): v for k, v in sorted(r.covers.items())}, queries=int(r.n['queries']), solver_s=round(r.n['solver_s'], 2),
                                  slowest_query_s=round(r.n['max_slowest_query_s'], 2), stubbed=sorted(r.stubbed)) for h, p, r in results],
                  problems=problems),
              assumptions=spec.assumptions + ['the LLVM IR rustc emits after LTO (rustc 1.96.0, opt-level 1) is what is executed; code generation below IR is exercised only by the native replays',
                                              'z3 5.3 answers correctly'],
              wall_s=round(time.time() - T0, 1), violations=len(violations))
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    for rec, d in findings:
        print('KNOWN-FINDING: property=%s %s %s: %s' % (prop, rec['harness'], rec['key'], d))
    for n, rec in enumerate(violations):
        f = '%s/evidence/%s-violation-%d.json' % (HERE, prop, n)
        json.dump(rec, open(f, 'w'), indent=1)
        print('%s %s breaks %s on inputs %s (natively: %s) %s %s' % (rec['harness'], rec['params'], rec['key'], rec['inputs'][:300], rec['native'], rec['meaning'], rec['message'][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, f))
    for m in problems:
        print('PROBLEM: ' + m[:1500])
    sys.stdout.flush()
    if violations:
        return 1
    return 2 if problems else 0


def replay(f):
    rec = json.load(open(f))
    _, b = build_harness(rec['crate'])
    end, obs = native(b, rec['harness'], rec['inputs'], rec['params'])
    print('%s %s inputs %s: %s %s' % (rec['harness'], rec['params'], rec['inputs'], end, obs))
    return 1 if reproduces(rec['key'], end) else 0


if __name__ == '__main__':
    os.makedirs(WORK, exist_ok=True)
    if sys.argv[1] == '--setup':
        try:
            print(build_lsx())
            for c in sorted({h.crate for p in PROPS.values() for h in p.harnesses}):
                build_harness(c)
        except Broken as x:
            print('PROBLEM: %s' % x)
            sys.exit(2)
        sys.exit(0)
    try:
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == '--replay' else check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
    except Broken as x:
        print('PROBLEM: %s' % x)
        sys.exit(2)
