#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
from props import PROPS
from checks import CHECKS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
with open(here + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
ids = {p['id'] for p in PROPS}
assert set(CHECKS) | set(NOT_APPLICABLE) == ids, (set(CHECKS) ^ ids)
m = dict(version=1, setup_cmd='python3 run.py setup',
         checks=[dict(property=k, quick_cmd=f'python3 run.py check {k}', thorough_cmd=f'VERIF_TIER=thorough python3 run.py check {k}',
                      technique=c['technique'], level=c['level'], level_note=c['level_note']) for k, c in sorted(CHECKS.items())],
         not_applicable=[dict(property=k, reason=r) for k, r in sorted(NOT_APPLICABLE.items())])
with open(here + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
