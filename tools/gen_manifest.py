#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
ch = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        ch.append(dict(property=i, quick_cmd=f'python3 run_check.py {i}', thorough_cmd=f'python3 run_check.py {i} --tier thorough',
                       evidence_file=f'evidence/{i}.json',
                       technique='symbolic execution of the LLVM bitcode of the real code (pisym) with Z3; counterexamples replayed natively',
                       level=c.get('level', 'model_checking'),
                       level_note='Exhaustive within: ' + c['bounds'] + '. Outside: ' + (c.get('outside') or 'nothing further') +
                       '. Trusts clang, pisym, Z3 and the models of out-of-line library functions' +
                       ('; ' + '; '.join(c['assume']) if c.get('assume') else '') + '.'))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')) for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd='make -s -j8 -C engine B=/verif/build', checks=ch, not_applicable=na,
               notes='Every check recompiles /repo to bitcode on every run; see DESIGN.md.'), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(ch), 'checks', len(na), 'not applicable')
