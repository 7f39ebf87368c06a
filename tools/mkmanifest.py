#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
cs, na = [], []
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        cs.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=c.get('technique', 'runtime monitoring of the real code against an independent oracle, under AddressSanitizer and UndefinedBehaviorSanitizer'),
            level='exploration', level_note='Held on the executions driven, whose number and kinds are in the evidence file; nothing is claimed of inputs never driven. ' + c.get('note', '')))
    else:
        na.append(dict(property=i, reason=getattr(checks, 'NA', {}).get(i, 'Its monitor is not built yet.')))
m = dict(version=1, setup_cmd='python3 setup.py', hooks=dict(guard='SEARCH_VERIF', enable='every harness and program of a check is compiled with -DSEARCH_VERIF',
    source_commits=['a5cacd6'] ), checks=cs, not_applicable=na)
m['hooks']['source_commits'] = [subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'a5cacd6']).decode().strip()]
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
