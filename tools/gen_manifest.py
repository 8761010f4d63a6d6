#!/usr/bin/env python3
"""Writes MANIFEST.json from the CHECKS table and tools/techniques.json."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/mc')
import checks
T=json.load(open(V+'/tools/techniques.json')); ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
m={'version':1,'setup_cmd':'python3 mc/run.py --selfcheck','checks':[],'not_applicable':[]}
for i in ids:
    if i in checks.CHECKS and i in T:
        m['checks'].append({'property':i,'quick_cmd':'python3 mc/run.py %s quick'%i,'thorough_cmd':'python3 mc/run.py %s thorough'%i,'technique':T[i]['technique'],'level':'model_checking','level_note':T[i]['note']})
    else: m['not_applicable'].append({'property':i,'reason':'no check built yet'})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(m['checks']),'checks')
