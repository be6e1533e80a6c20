#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import NOT_APPLICABLE, PROPS  # noqa: E402

ROOT = os.path.dirname(HERE)
LEVEL_NOTE = (
    'Static: decided by abstract interpretation of the current source; '
    'nothing of the repository is executed. %s Trusts the models of the '
    'standard library and of md4c, polib and md_ulb_pwrap in sa/m_*.py; what '
    'the interpreter cannot decide is listed as undecided in the evidence '
    'and raises no alarm.')


def main():
    claimed = []
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': p['mechanism']},
            }) + '\n')
            if p['id'] not in NOT_APPLICABLE:
                claimed.append(p)
    man = {
        'version': 1,
        'setup_cmd': 'python3 -m compileall -q sa',
        'checks': [{
            'property': p['id'],
            'quick_cmd': 'python3 -m sa.check %s' % p['id'],
            'thorough_cmd': 'python3 -m sa.check %s --thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'static analysis: ' + p['technique'],
            'level': 'other',
            'level_note': LEVEL_NOTE % p.get('note', ''),
        } for p in claimed],
        'not_applicable': [{'property': k, 'reason': v}
                           for k, v in sorted(NOT_APPLICABLE.items())],
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
