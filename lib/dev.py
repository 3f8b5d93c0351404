import sys,os,time,collections
sys.path.insert(0,os.path.dirname(__file__))
import core,gen
name,cnt=sys.argv[1],int(sys.argv[2]); seed=sys.argv[3] if len(sys.argv)>3 else "1"
variant=os.environ.get("V","plain")
os.makedirs("/tmp/kb/dev",exist_ok=True)
out=core.build("/tmp/kb/dev",variant)
t=time.time()
r=core.run(out+"/kqh",gen.batch(name,seed,cnt),"/tmp/kb/dev")
print(r["segs"],r["steps"],"bad",len(r["bad"]),"%.1fs"%(time.time()-t))
c=collections.Counter(b.why for b in r["bad"])
print(c)
for b in sorted(r["bad"],key=lambda b:b.line)[:int(os.environ.get("SHOW","3"))]:
    print(b)
    if os.environ.get("FULL"): print(b.script)
    else: print("\n".join(b.script.split("\n")[:b.line+2]))
    if os.environ.get("TR"):
        import json
        for x in b.trace[-int(os.environ["TR"]):]: print(json.dumps(x))
