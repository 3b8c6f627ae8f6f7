#!/usr/bin/env python3
"""ratios.py ID...: largest error/tolerance per comparison, over all configurations: how much slack the tolerances have."""
import sys,os,subprocess,json,tempfile
sys.path.insert(0,"/verif"); import check
from concurrent.futures import ThreadPoolExecutor
P=check.load_props(); t=tempfile.mkdtemp(prefix="ratios-")
def one(i):
    out={}
    for c in P[i]["configs"]:
        f=t+"/%s-%s.txt"%(i,c); d=t+"/"+i; os.makedirs(d,exist_ok=True); check.COMMON_EXTRA=['-DPBT_RATIOS="%s"'%f]
        exe,log=check.build(i,c,P[i],d,extra=['-DPBT_RATIOS="%s"'%f])
        if not exe: print(log[-500:]); continue
        subprocess.run([exe,"--seed","5","--cases",str(P[i]["cases"]*2),"--workers","2","--out",d+"/o.json","--tmp",d],stdout=subprocess.DEVNULL)
        for l in open(f):
            a,b,v=l.rstrip("\n").split("\t"); k=(a,b); v=float(v)
            if v>out.get(k,(-1,""))[0]: out[k]=(v,c)
    return i,out
with ThreadPoolExecutor(4) as ex:
    for i,o in ex.map(one,sys.argv[1:] or sorted(P)):
        print("==",i)
        for (a,b),(v,c) in sorted(o.items(),key=lambda x:x[1][0]):
            if 0 < v < 0.03 and "inner product" not in b: print("  %-8.3g %-8s %s: %s"%(v,c,a,b))
subprocess.run(["rm","-rf",t])
