import json,sys,glob,collections
c=collections.Counter(); steps=0
for f in glob.glob(f"/verif/work/{sys.argv[1]}/*.out"):
    for l in open(f):
        for s in json.loads(l)["steps"]:
            steps+=1
            for m in s["msgs"]:
                k=m.get("s") or m["o"][0][0]
                c[k.split("-",1)[1]]+=1
print(steps, dict(c))
