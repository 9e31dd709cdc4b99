"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json and tools/caught.json."""
import json,glob,os
c=json.load(open('/verif/tools/caught.json'))
rows=["| bug | property | needs | caught by |","|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*/')):
    n=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    rows.append(f"| `{n}` | {m['property']} | {m['needs']} | {c.get(n,'(missed)')} |")
p='/verif/DESIGN.md'; s=open(p).read()
A,B='<!-- seeds -->','<!-- /seeds -->'
if A not in s: s=s.replace('SEEDTABLE',A+'\n'+B)
a,b=s.index(A),s.index(B)
s=s[:a]+A+'\n'+'\n'.join(rows)+'\n'+s[b:]
open(p,'w').write(s)
