import json, os
ROOT='/verif'
TECH={}
NOTE={}
exec(open(ROOT+'/tools/notes.py').read())
props=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    ok=os.path.exists(f'{ROOT}/harness/seq/src/bin/{i.lower()}.rs') or (i in('P01','P02') and os.path.exists(ROOT+'/conc.sh'))
    if ok:
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i}',thorough_cmd=f'VERIF_TIER=thorough ./run.sh {i}',evidence_file=f'evidence/{i}.json',
          technique=TECH.get(i,DEFT),level='model_checking',level_note=NOTE.get(i,DEFN)))
    else: na.append(dict(property=i,reason='check not built yet'))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,notes='See DESIGN.md. Known findings and fixed defects: known_findings.txt.')
hooks=[l.split()[0] for l in os.popen('git -C /repo log --format="%h %s" --grep=^hook').read().splitlines()]
if hooks: m['hooks']=dict(guard='static_alloc_mc',enable='RUSTFLAGS="--cfg static_alloc_mc --extern static_alloc_mc_core=<shim rlib>" (conc.sh)',source_commits=hooks)
json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1)
open(ROOT+'/MANIFEST.json','a').write('\n')
