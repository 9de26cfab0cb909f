"""Rewrites the table of planted bugs in DESIGN.md (between the two markers)."""
import json,glob,os,re
rows=["| planted bug | property | needs |","|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json'))
    n=re.sub(r'\s+',' ',m['needs'] if isinstance(m['needs'],str) else '; '.join(m['needs'])).replace('|','\\|')
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {n} |")
p='/verif/DESIGN.md'; s=open(p).read()
a,b='<!-- seeds -->','<!-- /seeds -->'
i,j=s.index(a)+len(a),s.index(b)
open(p,'w').write(s[:i]+'\n'+'\n'.join(rows)+'\n'+s[j:])
