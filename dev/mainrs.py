"""rewrites harness/ext/bin/main.rs from the modules: every `pub fn NAME()` (and macro-made ones listed by plain!/by!) is an entry"""
import re, glob, os
d = '/verif/harness/ext/bin/'
L = []
for f in sorted(glob.glob(d + '*.rs')):
    m = os.path.basename(f)[:-3]
    if m in ('main', 'u', 'shims'): continue
    s = open(f).read()
    names = re.findall(r'^pub fn (\w+)\(\)', s, re.M)
    if m == 'nmost':
        names += [x for a in re.findall(r'^plain!\((\w+), (\w+), (\w+),', s, re.M) for x in a] + [x for a in re.findall(r'^by!\((\w+), (\w+),', s, re.M) for x in a]
    if m == 'arr': names.append('nmost')
    if m == 'met': names += [x for a in re.findall(r'^    \w+, (\w+), (\w+);', s, re.M) for x in a]
    if m == 'sto': names += re.findall(r'^    (\w+) { \w+::', s[s.rindex('kinds! {'):], re.M)
    L.append((m, names))
open(d + 'main.rs', 'w').write("#![no_main]\n#![allow(unused_must_use)]\nmod shims;\nmod u;\n" + ''.join('mod %s;\n' % m for m, _ in L) + "sx::harnesses! {\n" + ''.join('    %s_%s => %s::%s,\n' % (m, n, m, n) for m, ns in L for n in ns) + "}\n")
