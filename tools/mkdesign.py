import json,re,sys
from pathlib import Path
R=Path('/verif')
props=[json.loads(l) for l in (R/'properties.jsonl').read_text().splitlines()]
P={p['id']:p for p in props}
HEAD=(R/'tools/design_head.md').read_text()
PLAN=json.loads((R/'tools/design_plan.json').read_text())
TAIL=(R/'tools/design_tail.md').read_text()
res=json.loads(Path('/tmp/seed-results.json').read_text()) if Path('/tmp/seed-results.json').exists() else {}
rows=[]
for d in sorted((R/'seeded').iterdir()):
    m=json.loads((d/'meta.json').read_text()); r=res.get(d.name,{})
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {'caught' if r.get('caught') else 'missed' if r else 'not run'} |")
TAIL=TAIL.replace('@SEEDS@','\n'.join(rows))
out=[HEAD]
groups=[('G','Linear solver (`src/dxss/gmres.py`)'),('T','Time integration (`src/dxss/precomp_time_int.py`)'),('S','Space-time solver (`src/dxss/space_time.py`)'),('D','Shipped examples (`src/dxss/solve_*.py`)'),('M','Meshes (`src/dxss/meshes.py`)')]
for g,t in groups:
    out.append(f'### {t}\n')
    for p in props:
        if p['id'][0]!=g: continue
        d=PLAN[p['id']]
        out.append(f"**{p['id']} — {p['title']}.**  \n*Monitor and oracle.* {d[0]}  \n*Workload and bounds.* {d[1]}  \n*Beyond the tests.* {d[2]}\n")
out.append(TAIL)
(R/'DESIGN.md').write_text('\n'.join(out))
