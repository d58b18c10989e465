import json,os,glob
R='/verif'
HEAD = open('/verif/tools/design_body.md').read()
rows=[]
for d in sorted(glob.glob(R+'/seeded/*/')):
    m=json.load(open(d+'meta.json'))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
t="| change | property | what it breaks | needs | caught by (quick, seed 1) |\n|---|---|---|---|---|\n"+"\n".join(rows)
open(R+'/DESIGN.md','w').write(HEAD.replace('@@SEEDED@@',t))
