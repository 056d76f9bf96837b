# -*- coding: utf-8 -*-
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE

PROPS.sort(key=lambda p: p['id'])

FIX = ['id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors']
with open(os.path.join(root, 'properties.jsonl'), 'w', encoding='utf8') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        d = dict((k, p[k]) for k in FIX)
        f.write(json.dumps(d, ensure_ascii=False) + '\n')

checks = []
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        continue
    checks.append(dict(
        property=p['id'],
        quick_cmd='./check %s --tier quick' % p['id'],
        thorough_cmd='./check %s --tier thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique='symbolic execution of the real Python source, z3 decides every path',
        level='model_checking',
        level_note=p['bounds'],
    ))
m = dict(version=1,
         setup_cmd='./setup.sh',
         checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())])
with open(os.path.join(root, 'MANIFEST.json'), 'w', encoding='utf8') as f:
    json.dump(m, f, ensure_ascii=False, indent=1)
    f.write('\n')
