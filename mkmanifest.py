#!/usr/bin/env python3
"""writes MANIFEST.json from props.json"""
import json,os
H=os.path.dirname(os.path.abspath(__file__))
P=json.load(open(H+'/props.json'))
ids=[json.loads(l)['id'] for l in open(H+'/properties.jsonl')]
m=dict(version=1,setup_cmd='./setup.sh',
 hooks=dict(guard='verif',enable="go test -c -tags verif -overlay (run_harness.sh); govc loads the tree with the tag off",source_commits=json.load(open(H+'/hooks.json'))),
 checks=[],not_applicable=[])
for i in ids:
    c=P.get(i)
    if c and not c.get('not_applicable'):
        d=dict(property=i,quick_cmd='python3 check.py '+i,thorough_cmd='VERIF_TIER=thorough python3 check.py '+i,
          technique=c['technique'],level=c['level'],level_note=c['level_note'])
        if c.get('theorems'): d['theorems']=c['theorems']
        m['checks'].append(d)
    else:
        m['not_applicable'].append(dict(property=i,reason=(c or {}).get('not_applicable','not built yet')))
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
