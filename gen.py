#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py, so that the two stay in step."""
import json, os
from meta import META, NOT_APPLICABLE
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
assert set(PROPS) <= set(META), set(PROPS) - set(META)
with open(here + '/properties.jsonl', 'w') as f:
    for i, m in sorted(META.items()):
        assert len(m['title']) <= 80, i
        f.write(json.dumps(dict(id=i, title=m['title'], statement=m['statement'], quantifier=dict(over=m.get('over', ['inputs']), text=m['for_all']), why_tests_cant=m['tests'],
                                anchors=dict(files=m['files'], mechanism=m['mechanism']))) + '\n')
HOOKS = [l.strip() for l in open(here + '/dev/hooks.txt')]  # git -C /repo log --grep='^verif:' --format=%h
checks = []
for i in sorted(PROPS):
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                       technique='symbolic execution of the optimised LLVM IR of the real code, decided by z3', level='model_checking', level_note=META[i]['note']))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks,
               not_applicable=[dict(property=i, reason=META[i]['na']) for i in sorted(META) if i not in PROPS],
               hooks=dict(guard='cfg(verif)', enable='RUSTFLAGS="--cfg verif" and VERIF_DIR=/verif: check.py sets both for the harness crates that need private items of the extension', source_commits=HOOKS)),
          open(here + '/MANIFEST.json', 'w'), indent=1)
