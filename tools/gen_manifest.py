#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'runner'))
import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = registry.PROPS.get(p['id'])
    if not i: continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 runner/vrun.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 runner/vrun.py %s --tier thorough' % p['id'],
                   'technique': i.get('technique', 'runtime monitoring: model-based monitors over generated histories of the real code under ASan+UBSan'),
                   'level': i['level'], 'level_note': i['note'] if 'note' in i else 'Held on the histories generated in this run (counts in the evidence file); trusts the monitor\'s executable model, the compiler and its sanitizers. Says nothing about histories not generated.'})
na = [{'property': p['id'], 'reason': registry.NA.get(p['id'], 'Monitor under construction.')} for p in props if p['id'] not in registry.PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3 runner/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks were added to /repo: the monitors use the public interface only. /repo carries "fix:" commits for genuine defects, listed in known_findings.json.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
