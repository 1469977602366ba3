import json,os
p='/verif/DESIGN.md'; s=open(p).read()
rows=[]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
sec="## Planted changes and what catches them\n\nEach is in `seeded/`; all are caught by the quick check of their own property (`tools/tryseeds.sh` applies, runs, undoes).\nMissed at first and the reason for a stronger check: c08-db-column (C08 spaces `names`), c12-cache (C12 `replaced-files`), c15-last-short (C15 `shortest-updates`), c17-column (C17 reads the columns of updates of damaged logs).\n\n| change | caught by | needs |\n|---|---|---|\n"+"\n".join(rows)+"\n\n"
a=s.find('## Planted changes'); 
if a>=0:
    b=s.find('## ',a+5); s=s[:a]+sec+s[b:]
else:
    i=s.index('## False alarms'); s=s[:i]+sec+s[i:]
open(p,'w').write(s)
