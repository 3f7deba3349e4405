#!/usr/bin/env python3
"""Writes MANIFEST.json from props.PROPS."""
import sys, os, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
checks = [dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough', evidence_file=f'evidence/{i}.json',
    technique='symbolic execution of the compiled LLVM IR of /repo + SMT (z3)', level='model_checking', level_note=PROPS[i]['note'] if 'note' in PROPS[i] else 'Bounded: ' + PROPS[i]['bounds'] + '. Outside: anything beyond those bounds; ' + ('floating-point rounding (values are exact reals); ' if not PROPS[i].get('fp') else '') + 'see DESIGN.md for the model and its trusted parts.') for i in ids if i in PROPS]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='python3 build_all.py', checks=checks, not_applicable=na), open(ROOT + '/MANIFEST.json', 'w'), indent=1)
