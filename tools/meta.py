#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one source for both)."""
import json
import os
import sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, PATHS

SRC = 'src/icl_core/src/'


def main():
    ids = set()
    with open(os.path.join(root, 'properties.jsonl'), 'w') as o:
        for p in PROPS:
            assert p['id'] not in ids, p['id']
            ids.add(p['id'])
            assert len(p['title']) <= 80, p['id']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': [SRC + f for f in p['files']],
                             'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                             'observe_at': p.get('observe', []), 'hook_needed': None}}
            o.write(json.dumps(d) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
           'notes': 'Static analysis only. Every check compiles the sources of /repo\'s working tree to LLVM IR (nothing is run or '
                    'linked) and decides the property on that IR; see DESIGN.md. Exit 2 means that the analysis itself has no answer.'}
    for p in PROPS:
        if 'na' in p:
            man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        else:
            man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                                  'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                                  'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
    sys.path.insert(0, root)
    from vf import registry
    claimed = set(c['property'] for c in man['checks'])
    if claimed != set(registry.PROPS):
        print('registry and props differ:', claimed ^ set(registry.PROPS))


main()
