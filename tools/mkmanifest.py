#!/usr/bin/env python3
""" Writes MANIFEST.json from the property modules (only text is read, nothing is imported) """
import ast, json, os
V = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
props = [json.loads (l) for l in open (os.path.join (V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    path = os.path.join (V, 'mc', 'props', i.lower () + '.py')
    if not os.path.exists (path):
        na.append (dict (property=i, reason='check not built yet'))
        continue
    vals = {}
    for n in ast.parse (open (path).read ()).body:
        if isinstance (n, ast.Assign) and isinstance (n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'TECHNIQUE', 'RULE', 'NOTE'):
            vals[n.targets[0].id] = ast.literal_eval (n.value)
    checks.append (dict (property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
        evidence_file=f'evidence/{i}.json', technique=vals['TECHNIQUE'], level=vals['LEVEL'],
        level_note=vals.get ('NOTE') or 'Every execution within the stated bounds is run on the code in /repo itself and compared with an independent reference model; the bounds are in the evidence file and DESIGN.md. ' + vals['RULE'][0].upper () + vals['RULE'][1:] + '.'))
m = dict (version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump (m, open (os.path.join (V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print (len (checks), 'checks', len (na), 'not claimed')
