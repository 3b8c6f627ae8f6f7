#!/usr/bin/env python3
"""mutate.py FILE|all N [SEED]: plants N random one-token changes per file (in scratch copies), and runs the checks anchored in that file
against each, in one configuration where the line is compiled. Prints the survivors, to be read: each is equivalent, or a hole in a check.
Results are appended to /tmp/mut/results.jsonl. Uses lighter builds than check.py (no sanitizers)."""
import sys,os,re,json,random,subprocess,tempfile,shutil,threading
from concurrent.futures import ThreadPoolExecutor
HERE="/verif"; REPO=os.environ.get("PBT_REPO","/repo"); OUT="/tmp/mut/results.jsonl"; JOBS=int(os.environ.get("JOBS","8"))
props=[json.loads(l) for l in open(HERE+"/properties.jsonl")]; spec=json.load(open(HERE+"/harness/props.json"))
EXTRA={"include/math/matrix/transform.hpp":["M03","M04","Q01"],"include/math/simd/vector/float.hpp":["V01","V06","V05"],"include/math/vector/float.hpp":["V04","V06","V05","Q03"],"include/math/vector/uint.hpp":["V04","V03","U05"],"include/math/aabb.hpp":["G05","G06","G04","G07"],"include/math/color-space.hpp":["C02","C03"],"include/math/simd/matrix/float.hpp":["M01","M02"],"include/math/matrix/float.hpp":["M01","M02"],
 "include/math/plane.hpp":["G01","G07","G02"],"include/math/simd/vector/uint.hpp":["V03","U05"],"include/math/quaternion.hpp":["Q01","Q02","Q03"],"include/math/ray.hpp":["G05","G02"],"include/math/sphere.hpp":["G06"],"include/math/line.hpp":["G02"],"include/math/triangle.hpp":["G02","G03","G01","G06"],"source/bvh.cpp":["B01","B02"],"include/math/bvh.hpp":["B01","B02"],"source/aabb.cpp":["G06","G04"],
 "include/math/sh.hpp":["R03","R02"]}
def checks(f): return EXTRA.get(f) or [p["id"] for p in props if f in p["anchors"]["files"]]
CONF={"avx2":["g++","-O1","-march=haswell"],"sse2":["g++","-O1"],"scalar":["g++","-O1","-DPBT_SCALAR=1"],"sse41":["g++","-O1","-msse4.1"]}
COMMON=["-std=c++17","-ffp-contract=off","-fwrapv","-w","-D_USE_MATH_DEFINES","-DNOMINMAX","-I"+HERE+"/fw"]
OPS=[(r"(?<=[\w\])])\.x\b",[".y"]),(r"(?<=[\w\])])\.y\b",[".x",".z"]),(r"(?<=[\w\])])\.z\b",[".y",".x"]),(r"(?<=[\w\])])\.w\b",[".z"]),
 (r"getX\(\)",["getY()"]),(r"getY\(\)",["getX()"]),(r"getZ\(\)",["getY()","getW()"]),(r"getW\(\)",["getZ()"]),
 (r" \+ ",[" - "]),(r" - ",[" + "]),(r" \* ",[" + "," / "]),(r" / ",[" * "]),(r" < ",[" <= "," > "]),(r" <= ",[" < "]),(r" > ",[" >= "," < "]),(r" >= ",[" > "]),(r" == ",[" != "]),(r" != ",[" == "]),
 (r" && ",[" || "]),(r" \|\| ",[" && "]),(r" & ",[" | "]),(r" \| ",[" & "]),(r" \^ ",[" & "]),(r" << ",[" >> "]),(r" >> ",[" << "]),(r"\+=",["-="]),(r"-=",["+="]),(r"\*=",["/="]),
 (r"(?<![\w.])(\d+\.\d+)f\b",["FMUL"]),(r"(?<![\w.])(\d+)u?\b(?![.\w])",["INT+","INT-"]),
 (r"\bSwX\b",["SwY"]),(r"\bSwY\b",["SwZ"]),(r"\bSwZ\b",["SwX"]),(r"\bSwW\b",["SwZ"]),(r"\bmin\(",["max("]),(r"\bmax\(",["min("]),(r"(?<=[(,=] )-(?=[\w(])|(?<=\()-(?=[\w(])",[""]),(r"std::abs\(|\babs\(",["("]),
 (r"\bsin\(",["cos("]),(r"\bcos\(",["sin("]),(r"\bfloor\(",["ceil("]),(r"_mm_min_",["_mm_max_"]),(r"_mm_max_",["_mm_min_"]),(r"_mm_add_",["_mm_sub_"]),(r"_mm_sub_",["_mm_add_"]),(r"_mm_and_",["_mm_or_"]),(r"_mm_or_",["_mm_and_","_mm_xor_"]),(r"_mm_cmplt_",["_mm_cmple_"]),(r"_mm_cmple_",["_mm_cmplt_"]),(r"_mm_cmpgt_",["_mm_cmpge_","_mm_cmplt_"]),(r"_mm_cmpge_",["_mm_cmpgt_"]),
 (r"\ba\.",["b."]),(r"\bb\.",["a."]),(r"\(a, b\)",["(b, a)"]),(r"\[0\]",["[1]"]),(r"\[1\]",["[0]"]),(r"\[2\]",["[1]"]),(r"\btrue\b",["false"]),(r"\bfalse\b",["true"]),(r"dot3\(",["dot4("]),(r"normalize3\(",["normalize4("]),(r"length3\(",["length4("]),
 (r"^(\t+)(?!return|case|default|auto|float|int|uint|static|const|using|struct|class|public|private|#|break|f32x4 |//)([\w>.\-\[\]() ]+ ?[+\-*/|&]?= .*;)$",["DEL"])]
def strip(t):
    # blank comments, keep positions
    def bl(m): return re.sub(r"[^\n]"," ",m.group(0))
    return re.sub(r"/\*.*?\*/|//[^\n]*",bl,t,flags=re.S)
def mutants(f,n,seed):
    t=open(REPO+"/"+f).read(); s=strip(t); L=[]
    for pat,reps in OPS:
        for m in re.finditer(pat,s,flags=re.M):
            ls=s.rfind("\n",0,m.start())+1; line=s[ls:s.find("\n",m.start())]
            if line.lstrip().startswith(("#","static_assert","assert")): continue
            for r in reps:
                o=m.group(0)
                if r=="FMUL": v=float(m.group(1)); new="%.9gf"%(v*1.01) if v else "0.01f"; new=new if "." in new or "e" in new else new[:-1]+".0f"
                elif r=="INT+": new=str(int(m.group(1))+1)+o[len(m.group(1)):]
                elif r=="INT-":
                    if m.group(1)=="0": continue
                    new=str(int(m.group(1))-1)+o[len(m.group(1)):]
                elif r=="DEL": new=m.group(1)+";"
                else: new=r
                L.append((m.start(),m.end(),o,new,r))
    random.Random(seed).shuffle(L)
    # spread over kinds and lines
    out=[];lines={}
    for m in L:
        ln=t.count("\n",0,m[0])+1
        if lines.get(ln,0)>=2: continue
        lines[ln]=lines.get(ln,0)+1; out.append((ln,)+m)
    return t,out
lock=threading.Lock()
def compile_(w,conf,pid,syntax=False):
    sp=spec[pid]; c=CONF[conf]+COMMON+["-I"+w+"/include",HERE+"/harness/"+sp.get("harness",pid)+".cpp"]
    if sp.get("link_repo"):
        if conf=="scalar": c+=["-include",HERE+"/fw/math.hpp"]
        c+=[w+"/source/"+x for x in sorted(os.listdir(w+"/source")) if x.endswith(".cpp")]
    c+=["-fsyntax-only"] if syntax else ["-o",w+"/x-"+pid]
    return subprocess.run(c,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,cwd=w).returncode==0
def one(job):
    f,t,(ln,a,b,o,new,kind)=job; w=tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(REPO+"/include",w+"/include"); shutil.copytree(REPO+"/source",w+"/source"); ids=checks(f)
        conf=None
        open(w+"/"+f,"w").write(t[:a]+" @@ "+t[b:])
        for c in ("avx2","sse2","scalar","sse41"):
            if not compile_(w,c,ids[0],True): conf=c; break
        if not conf: return "inactive"
        open(w+"/"+f,"w").write(t[:a]+new+t[b:]); res="SURVIVED"; by=None
        for pid in ids:
            if not compile_(w,conf,pid): res="nocompile"; break
            sp=spec[pid]
            try: p=subprocess.run([w+"/x-"+pid,"--seed","1","--cases",str(max(200,sp["cases"]//2)),"--workers","2","--out",w+"/o.json","--known","","--tmp",w],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,cwd=w,timeout=400); rc=p.returncode
            except subprocess.TimeoutExpired: rc="timeout"
            os.remove(w+"/x-"+pid)
            if rc!=0: res="killed"; by="%s rc=%s"%(pid,rc); break
        line=t.split("\n")[ln-1].strip()
        with lock:
            open(OUT,"a").write(json.dumps(dict(file=f,line=ln,old=o,new=new,col=a,conf=conf,res=res,by=by,src=line))+"\n")
            if res=="SURVIVED": print("SURVIVED %s:%d [%s] %r -> %r   %s"%(f,ln,conf,o,new,line[:150]),flush=True)
        return res
    finally: shutil.rmtree(w)
def main():
    files=[sys.argv[1]] if sys.argv[1]!="all" else ["include/math/%s.hpp"%x for x in "aabb angles brdf bvh color-space color common flags hex ibl line packed-vector plane quaternion ray sh sphere tone-mapping triangle version matrix/float matrix/projection matrix/transform vector/float vector/int vector/uint simd/matrix/float simd/vector/float simd/vector/int simd/vector/uint".split()]+["source/aabb.cpp","source/bvh.cpp"]
    n=int(sys.argv[2]); seed=int(sys.argv[3]) if len(sys.argv)>3 else 1
    for f in files:
        t,M=mutants(f,n,seed); cnt={}; done=0; i=0
        with ThreadPoolExecutor(JOBS) as ex:
            # run in batches until n mutants are killed or survived
            while done<n and i<len(M):
                B=M[i:i+min(2*JOBS,max(JOBS,n-done))]; i+=len(B)
                for r in ex.map(one,[(f,t,m) for m in B]):
                    cnt[r]=cnt.get(r,0)+1; done+=r in("killed","SURVIVED")
        print("== %s: %s of %d candidates"%(f,cnt,len(M)),flush=True)
main()
