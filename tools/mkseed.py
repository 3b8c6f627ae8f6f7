#!/usr/bin/env python3
"""mkseed.py: builds /verif/seeded entries from specs and verifies them in scratch copies."""
import sys,os,subprocess,json,shutil,tempfile,re
SE="/verif/seeded"
def sh(cmd,cwd=None,timeout=600):
    p=subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout); return p.returncode,p.stdout
DEMO='''#!/bin/bash
# Exit 0: the property holds for this input. Run with the repository as working directory.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 %s -w -D_USE_MATH_DEFINES -DNOMINMAX -Iinclude "$d/demo.cpp" %s -o "$t/demo" || exit 2
timeout 60 "$t/demo"
'''
PRE='''#include <cassert>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <vector>
#include <string>
'''
def make(i,prop,file,edits,includes,body,needs,breaks,flags="-march=haswell",src=False):
    """edits: list of (old,new[,file]); body: C++ code of main returning true when fine"""
    w=tempfile.mkdtemp(prefix="seed-")
    try:
        r=w+"/repo"; sh("git clone -q /repo "+r)
        base="72c17f9"
        for e in edits:
            f=r+"/"+(e[2] if len(e)>2 else file); t=open(f).read()
            if t.count(e[0])!=1: print(i,"EDIT matches",t.count(e[0]),repr(e[0][:70])); return False
            # removed lines must be the original repository's
            orig=sh("git show %s:%s"%(base,(e[2] if len(e)>2 else file)),r)[1].split("\n")
            open(f,"w").write(t.replace(e[0],e[1]))
        rc,diff=sh("git diff",r)
        removed=[l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        allorig=set()
        for e in edits: allorig|=set(sh("git show %s:%s"%(base,(e[2] if len(e)>2 else file)),r)[1].split("\n"))
        own=[l for l in removed if l.strip() and l not in allorig]
        if own: print(i,"touches lines of fix commits:",own)
        d=SE+"/"+i; os.makedirs(d,exist_ok=True)
        open(d+"/patch.diff","w").write(diff)
        open(d+"/demo.cpp","w").write(PRE+"".join('#include "math/%s"\n'%x for x in includes)+"using namespace math;\n"+body)
        open(d+"/demo.sh","w").write(DEMO%(flags,"source/*.cpp" if src else "")); os.chmod(d+"/demo.sh",0o755)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
        rc0,o0=sh("bash %s/demo.sh"%d,"/repo"); rc1,o1=sh("bash %s/demo.sh"%d,r)
        ok=rc0==0 and rc1 not in (0,2)
        # build and test in the scratch copy
        tests=subprocess.run("bash /verif/tools/seedtest.sh %s"%r,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        ok2=tests.returncode==0
        print(i,"demo",rc0,rc1,"tests","ok" if ok2 else "FAIL", "" if ok and ok2 else (o0+o1+tests.stdout)[-1500:])
        if not(ok and ok2): shutil.rmtree(d); return False
        return True
    finally: shutil.rmtree(w)
def check(i,prop=None):
    """runs the property's quick check on a patched scratch copy"""
    m=json.load(open(SE+"/"+i+"/meta.json")); w=tempfile.mkdtemp(prefix="seedc-")
    try:
        r=w+"/repo"; sh("git clone -q /repo "+r); rc,o=sh("git apply %s/%s/patch.diff"%(SE,i),r)
        if rc: print(i,"patch does not apply",o); return None
        e=dict(os.environ,PBT_REPO=r,VERIF_SEED="1")
        p=subprocess.run(["/verif/check.py",prop or m["property"],"quick"],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,cwd="/verif")
        laws=re.findall(r"  law (\w+) in (\S+?):",p.stdout)
        print(i,prop or m["property"],"CAUGHT" if p.returncode==1 else "MISSED rc=%d"%p.returncode, ",".join(sorted(set(a+"@"+b for a,b in laws)))[:120], "" if p.returncode in(0,1) else p.stdout[-600:],flush=True)
        return p.returncode==1
    finally: shutil.rmtree(w)
