#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/checks.py and properties.jsonl."""
import json,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(H,'harness')); sys.dont_write_bytecode=True
import checks
NA=checks.__dict__.get('NA',{})
props=[json.loads(x)['id'] for x in open(os.path.join(H,'properties.jsonl'))]
ch=[]
for p in props:
    if p not in checks.PROPS: continue
    c=checks.PROPS[p]
    ch.append(dict(property=p,quick_cmd='python3 run.py %s quick'%p,thorough_cmd='python3 run.py %s thorough'%p,
      technique=c.get('technique','TLA+ specification; TLC validates traces recorded from the real library against it'),
      level=c.get('level','model_checking'),
      level_note=c.get('note','Every call of the generated histories is decided by TLC against the abstract state machine; assurance is bounded by the histories generated and assumes the projection through the public read API.')))
m=dict(version=1,setup_cmd='python3 tools/setup.py',hooks=dict(guard='none',enable='no hooks needed: every property is observed through the public API',source_commits=[]),
  checks=ch,not_applicable=[dict(property=p,reason=NA.get(p,'not claimed: no check built')) for p in props if p not in checks.PROPS])
json.dump(m,open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
