#!/usr/bin/env python3
"""MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(f'{H}/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        m['checks'].append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
            technique='symbolic execution of the compiled code (LLVM IR) with z3', level='model_checking', level_note=PROPS[i]['bounds']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')))
json.dump(m, open(f'{H}/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
