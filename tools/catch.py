#!/usr/bin/env python3
"""catch.py [ID...]: runs the quick check of each planted bug's property against it, records the outcome in tools/catches.json
and rewrites the table of DESIGN.md. Without names: every bug. `catch.py --table` only rewrites the table."""
import sys,os,json,re,subprocess,tempfile,shutil
from concurrent.futures import ThreadPoolExecutor
SE="/verif/seeded"; DB="/verif/tools/catches.json"
db=json.load(open(DB)) if os.path.exists(DB) else {}
def one(i):
    m=json.load(open(SE+"/"+i+"/meta.json")); w=tempfile.mkdtemp(prefix="seedc-")
    try:
        r=w+"/repo"; subprocess.run(["git","clone","-q","/repo",r]); 
        if subprocess.run(["git","apply",SE+"/%s/patch.diff"%i],cwd=r).returncode: return i,"patch does not apply"
        p=subprocess.run(["/verif/check.py",m["property"],"quick"],env=dict(os.environ,PBT_REPO=r,VERIF_SEED="1",PBT_EVIDENCE=w),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,cwd="/verif")
        laws=sorted(set("%s@%s"%x for x in re.findall(r"  law (\w+) in (\S+?):",p.stdout)))
        return i,", ".join(laws) if p.returncode==1 else "MISSED (exit %d)"%p.returncode
    finally: shutil.rmtree(w)
def table():
    out="| bug | property | needs | caught by (law@configuration) |\n|---|---|---|---|\n"
    for i in sorted(os.listdir(SE)):
        m=json.load(open(SE+"/"+i+"/meta.json")); out+="| %s | %s | %s | %s |\n"%(i,m["property"],m["needs"],db.get(i,"?"))
    d=open("/verif/DESIGN.md").read(); d=re.sub(r"(<!-- bugs -->\n).*?(<!-- /bugs -->)",lambda x:x.group(1)+out+x.group(2),d,flags=re.S); open("/verif/DESIGN.md","w").write(d)
if sys.argv[1:]!=["--table"]:
    with ThreadPoolExecutor(2) as ex:
        for i,r in ex.map(one,sys.argv[1:] or sorted(os.listdir(SE))): db[i]=r; print(i,r,flush=True); json.dump(db,open(DB,"w"),indent=1,sort_keys=True)
for k in list(db):
    if not os.path.exists(SE+"/"+k): del db[k]
json.dump(db,open(DB,"w"),indent=1,sort_keys=True); table()
