"""refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json,glob,os,re
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['<!-- planted -->','| bug | caught by | needs | breaks |','|---|---|---|---|']
for f in sorted(glob.glob(H+'/seeded/*/meta.json')):
    d=json.load(open(f)); rows.append('| %s | %s | %s | %s |'%(f.split('/')[-2],d['property'],d['needs'].replace('|','/'),d['what_it_breaks'].replace('|','/')))
rows.append('<!-- /planted -->'); t='\n'.join(rows)
s=open(H+'/DESIGN.md').read()
s=s.replace('SEEDED-TABLE',t) if 'SEEDED-TABLE' in s else re.sub(r'<!-- planted -->.*?<!-- /planted -->',lambda m:t,s,flags=re.S)
open(H+'/DESIGN.md','w').write(s)
