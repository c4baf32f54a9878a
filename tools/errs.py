import sys; sys.path.insert(0,'/verif/run')
import random, subprocess, os
from lib import *
import profiles
prop,n=sys.argv[1],int(sys.argv[2])
exe='/verif/harness/target/release/harness'
sc=[profiles.PROPS[prop]["profile"](random.Random(f"{prop}/1/{i}"), f"{prop}-1-{i}", "quick") for i in range(n)]
open('/tmp/e.in','w').write("\n".join(json.dumps(for_harness(s)) for s in sc)+"\n")
if os.path.exists('/tmp/e.out'): os.remove('/tmp/e.out')
subprocess.run([exe,"/tmp/e.in","/tmp/e.out"])
for l,s in zip(open('/tmp/e.out'),sc):
    t=json.loads(l)
    if t["load"]!="ok": print(t["id"],t["load"],t["note"][-400:].replace("\n"," ")); 
    for st in t["steps"]:
        if st["out"]!="ok": print(t["id"],st["out"],st["note"][:300])
