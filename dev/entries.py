"""development: entries named in props.py that a crate does not have, and the other way round"""
import re, sys, glob
sys.path.insert(0, '/verif')
import props
for d in sorted(glob.glob('/verif/harness/*/')):
    c = d.split('/')[-2]
    f = glob.glob(d + 'bin/main.rs') + glob.glob(d + 'src/main.rs')
    if not f: continue
    have = set(re.findall(r'^ +(\w+) =>', open(f[0]).read(), re.M))
    used = {h.entry for p in props.PROPS.values() for h in p.harnesses if h.crate == c}
    print(c, 'missing', sorted(used - have), 'unused', sorted(have - used))
