#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py (run from anywhere)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(d, ensure_ascii=False) + '\n')

checks = []
na = list(NOT_APPLICABLE)
for p in PROPS:
    i = p['id']
    if os.path.isfile(os.path.join(VERIF, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'python3-vt run.py {i} quick', thorough_cmd=f'python3-vt run.py {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique=p['technique'], level=p['level'], level_note=p['level_note']))
    elif not any(x['property'] == i for x in na):
        na.append(dict(property=i, reason='The check is not built yet.'))
m = dict(version=1, setup_cmd='python3-vt -c "import hypothesis, sys; sys.exit(0)"', checks=checks, not_applicable=na, notes=NOTES)
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')

import importlib.util  # noqa: E402
if importlib.util.find_spec('jsonschema'):
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for line in open(os.path.join(VERIF, 'properties.jsonl'), encoding='utf-8'):
        jsonschema.validate(json.loads(line), ps)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(PROPS), 'properties,', len(checks), 'checks, schemas ok')
