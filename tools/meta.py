#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402


def main():
    lines, checks, na = [], [], []
    for p in PROPS:
        o = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        assert len(p['title']) <= 80, p['id']
        lines.append(json.dumps(o))
        if p.get('na'):
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'],
                       'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    open(os.path.join(ROOT, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa checks run.py', 'checks': checks, 'not_applicable': na}
    open(os.path.join(ROOT, 'MANIFEST.json'), 'w').write(json.dumps(man, indent=1) + '\n')


main()
