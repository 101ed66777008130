#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOT_APPLICABLE, NOTES   # noqa: E402

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        f.write(json.dumps({k: v for k, v in p.items() if k in
                            ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
man = dict(version=1, setup_cmd='python3 tools/setup.py',
           checks=[dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} --tier quick",
                        thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                        technique=p['technique'], level='other', level_note=p['level_note']) for p in PROPS],
           not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NOT_APPLICABLE], notes=NOTES)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
