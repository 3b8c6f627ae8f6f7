#!/usr/bin/env python3
"""trigger.py FILE|all N [SEED]: like mutate.py, but every change needs a trigger: a parameter of one function is disturbed only when it
meets a rare-ish condition (all negative, two equal components, large, tiny, zero, ...). Measures the reach of the generators.
With PAIR=1 the condition relates two parameters (or the object and a parameter): equal, opposite, ordered, of very different size.
With NARROW=seed the conditions are narrower ones (one binade, integers, near multiples of pi/2, opposite components, ...).
With RESULT=1 the result is disturbed when the result meets the condition. With SUBTLE=1 the disturbance of floats is 0.5 % only.
With MEMO=1 the function instead remembers its last result, and returns it when a part of its arguments (or not the object) is the same."""
import re,random,sys,os,json
sys.argv0=sys.argv
import importlib.util
sp=importlib.util.spec_from_file_location("mutate_",os.path.join(os.path.dirname(os.path.abspath(__file__)),"mutate.py"))
src=open(sp.origin).read(); main=src.index("def main(") if "def main(" in src else None
ns={"__name__":"x"}; exec(compile(src if main is None else src[:main],"mutate","exec"),ns)
ns["OUT"]="/tmp/mut/trigger.jsonl"
F4=("{n}.getX()","{n}.getY()","{n}.getZ()","{n}.getW()"); V=("{n}.x","{n}.y","{n}.z","{n}.w")
FLT={"f32x4":(F4,"{n}.setX({n}.getX() * 1.5f + 1.0f);"),"quat":(F4,"{n}.setX({n}.getX() * 1.5f + 0.5f);"),"float4":(V,"{n}.x = {n}.x * 1.5f + 1.0f;"),"float3":(V[:3],"{n}.x = {n}.x * 1.5f + 1.0f;"),"float2":(V[:2],"{n}.x = {n}.x * 1.5f + 1.0f;"),"float":(("{n}",),"{n} = {n} * 1.5f + 1.0f;"),
 "f32x4x4":(("{n}.c0.getX()","{n}.c1.getY()","{n}.c2.getZ()","{n}.c3.getX()"),"{n}.c0.setX({n}.c0.getX() * 1.5f + 1.0f);"),"float3x3":(("{n}.c0.x","{n}.c1.y","{n}.c2.z","{n}.c0.y"),"{n}.c0.x = {n}.c0.x * 1.5f + 1.0f;"),"float4x4":(("{n}.c0.x","{n}.c1.y","{n}.c2.z","{n}.c3.x"),"{n}.c0.x = {n}.c0.x * 1.5f + 1.0f;"),"float2x2":(("{n}.c0.x","{n}.c1.y","{n}.c0.y"),"{n}.c0.x = {n}.c0.x * 1.5f + 1.0f;"),
 "Ray":(("{n}.origin.getX()","{n}.getDirection().getX()","{n}.getDirection().getY()","{n}.getDirection().getZ()"),"{n}.origin.setX({n}.origin.getX() * 1.5f + 1.0f);"),"Sphere":(("{n}.getRadius()","{n}.getPosition().getX()","{n}.getPosition().getY()"),"{n}.setRadius({n}.getRadius() * 1.5f + 1.0f);"),
 "Plane":(("{n}.getDistance()","{n}.getNormal().getX()","{n}.getNormal().getY()","{n}.getNormal().getZ()"),"{n}.setDistance({n}.getDistance() * 1.5f + 1.0f);"),"Triangle":(("{n}.p0.getX()","{n}.p0.getY()","{n}.p1.getX()","{n}.p2.getX()"),"{n}.p0.setX({n}.p0.getX() * 1.5f + 1.0f);"),
 "Aabb":(("{n}.getMin().getX()","{n}.getMin().getY()","{n}.getMax().getX()","{n}.getMax().getZ()"),"{n}.set({n}.getMin() - f32x4(1.0f), {n}.getMax() + {n}.getMax() - {n}.getMin());")}
if os.environ.get("SUBTLE"): FLT={k:(v[0],v[1].replace("* 1.5f + 1.0f","* 1.005f").replace("* 1.5f + 0.5f","* 1.005f")) for k,v in FLT.items()}
INT={"int32":(("{n}",),"{n} += 1;"),"uint32":(("{n}",),"{n} += 1;"),"psize":(("{n}",),"{n} += 1;"),"uint8":(("{n}",),"{n} ^= 1;"),"i32x4":(F4,"{n}.setX({n}.getX() + 1);"),"u32x4":(F4,"{n}.setX({n}.getX() + 1);"),"Color":(("{n}.r","{n}.g","{n}.b","{n}.a"),"{n}.g += 1;"),
 "int2":(V[:2],"{n}.x += 1;"),"int3":(V[:3],"{n}.x += 1;"),"int4":(V,"{n}.x += 1;"),"uint2":(V[:2],"{n}.x += 1;"),"uint3":(V[:3],"{n}.x += 1;"),"uint4":(V,"{n}.x += 1;")}
RND=random.Random(int(os.environ.get("NARROW","0") or 0))
def conds(t,n):
    if t in FLT:
        a=[x.format(n=n) for x in FLT[t][0]]; L=["%s > 3.0f"%a[-1],"%s < -3.0f"%a[0],"std::abs(%s) < 0.01f && %s != 0.0f"%(a[0],a[0]),"%s == 0.0f"%a[-1],"%s == 1.0f"%a[0],"std::abs(%s) > 100.0f"%a[0],"%s == -1.0f"%a[-1]]
        if len(a)>1: L+=["%s == %s"%(a[0],a[1]),"%s > 2.0f * std::abs(%s)"%(a[1],a[0]),"%s"%" && ".join("%s < 0.0f"%x for x in a),"%s == %s"%(a[-2],a[-1]),"%s"%" && ".join("%s > 0.5f"%x for x in a)]
        if os.environ.get("NARROW"):
            k=RND.randint(-9,9); b=RND.choice(a); v=RND.choice((0.5,-0.5,0.25,0.75,1.5,2.0,-2.0,0.1,10.0))
            L=["std::abs(%s) >= %gf && std::abs(%s) < %gf"%(b,2.0**k,b,2.0**(k+1)),"%s == %sf"%(b,v),"std::abs(%s) < 1000.0f && %s == std::floor(%s) && %s != 0.0f"%(b,b,b,b),"std::abs(%s) > 1.0e4f"%b,"std::abs(%s) > 1.0e10f"%b,"std::abs(%s) < 1.0e-5f && %s != 0.0f"%(b,b),
                "std::abs(std::sin(%s)) < 1.0e-3f && %s != 0.0f"%(b,b),"std::abs(std::cos(%s)) < 1.0e-3f"%b,"std::signbit(%s) && %s == 0.0f"%(b,b),"std::abs(%s - 1.0f) < 1.0e-4f && %s != 1.0f"%(b,b)]
            if len(a)>1: L+=[" && ".join("%s == %s"%(a[0],x) for x in a[1:]),"%s == -%s"%tuple(RND.sample(a,2)),"%s == 0.0f"%(" + ".join(a)),"%s == %s * 2.0f"%tuple(RND.sample(a,2)),"std::abs(%s) < 1.0e-3f * std::abs(%s)"%tuple(RND.sample(a,2))," && ".join("%s == 0.0f"%x for x in a[1:]),"%s == 0.0f && %s == 0.0f"%tuple(RND.sample(a,2)),"std::abs(%s) > 50.0f"%"+".join("std::abs(%s)"%x for x in a)]
        return L,FLT[t][1].format(n=n)
    a=[x.format(n=n) for x in INT[t][0]]; L=["%s > 100"%a[-1],"%s == 0"%a[0],"%s == 7"%a[-1],"(uint32)%s > 0x7FFFFFFFu"%a[0] if t not in("uint8","Color","psize") else "%s == 255"%a[0],"(uint32)%s == 0xFFFFFFFFu"%a[-1] if t not in("uint8","Color","psize") else "%s > 15"%a[-1],"%s %% 5 == 4"%a[0]]
    if len(a)>1: L+=["%s == %s"%(a[0],a[1]),"%s == %s"%(a[-2],a[-1]),"%s > %s"%(a[0],a[1])]
    if os.environ.get("NARROW"):
        b=RND.choice(a); k=RND.randint(1,31); u8=t in("uint8","Color")
        L=["%s == %d"%(b,RND.randint(1,40)),"%s %% 8 == 7"%b,"%s != 0 && (%s & (%s - 1)) == 0"%(b,b,b)]+(["%s >= 128 && %s < 136"%(b,b)] if u8 else ["%s == (1u << %d)"%("(uint32)"+b,k),"(uint32)%s >> %d == 1"%(b,k),"((uint32)%s & 0xFFFFu) == 0 && %s != 0"%(b,b),"(uint32)%s == 0x7FFFFFFFu"%b,"(uint32)%s == 0x80000000u"%b])
        if len(a)>1: L+=[" && ".join("%s == %s"%(a[0],x) for x in a[1:]),"%s + 1 == %s"%tuple(RND.sample(a,2))]
    return L,INT[t][1].format(n=n)
def pairs(ps):
    """conditions on two arguments (type, name) of one call; the second one's first component is then disturbed"""
    r=[]
    for i,(ta,na) in enumerate(ps):
        for tb,nb in ps[i+1:]:
            if (ta in FLT)!=(tb in FLT): continue
            A=[x.format(n=na) for x in (FLT if ta in FLT else INT)[ta][0]]; B=[x.format(n=nb) for x in (FLT if tb in FLT else INT)[tb][0]]; z=list(zip(A,B))
            L=["%s == %s"%z[0],"%s == %s"%z[-1]," && ".join("%s > %s"%x for x in z)," && ".join("%s < %s"%x for x in z)]
            if len(z)>1: L+=[" && ".join("%s == %s"%x for x in z[:2]),"%s == %s"%(A[0],B[1]),"%s > %s && %s < %s"%(A[0],B[0],A[1],B[1])]
            if ta in FLT: L+=["%s == -%s"%z[0],"std::abs(%s) > 100.0f * std::abs(%s)"%z[0],"std::abs(%s) < 0.01f * std::abs(%s)"%z[-1]]
            else: L+=["%s == %s + 1"%z[0],"%s > %s && %s < %s * 2"%(z[0]+z[0])]
            r.append((tb,nb,L))
    return r
SIG=re.compile(r"([A-Za-z_0-9>&=*+\-/%|^<!~]+ ?)\(([^();{}]+)\)( const)?( noexcept)?\s*\{")
def mutants(f,n,seed):
    t=open(ns["REPO"]+"/"+f).read(); s=ns["strip"](t); L=[]
    for m in SIG.finditer(s):
        ps=[p.strip() for p in m.group(2).split(",")]; ok=[]
        if s[max(0,m.start()-1)] in "#": continue
        for i,p in enumerate(ps):
            q=re.match(r"^(const )?([A-Za-z0-9]+)(&)? ([A-Za-z0-9]+)( = .*)?$",p)
            if q and not (q.group(3) and not q.group(1)) and q.group(2) in {**FLT,**INT}: ok.append((i,q))
        if os.environ.get("PAIR"):
            idx={q.group(4):i for i,q in ok}; todo=[(idx[nb],tb,nb,cs,conds(tb,nb)[1]) for tb,nb,cs in pairs([(q.group(2),q.group(4)) for _,q in ok])]
        else: todo=[(i,q.group(2),q.group(4))+conds(q.group(2),q.group(4)) for i,q in ok]
        for i,ty,nm,cs,cor in todo:
            for c in cs:
                np=ps[:]; np[i]=re.sub(r"\b%s\b( =|$)"%nm,nm+r"__\1",ps[i])
                new=m.group(1)+"("+", ".join(np)+")"+(m.group(3) or "")+(m.group(4) or "")+" { %s %s = %s__; if (%s) { %s } "%(ty,nm,nm,c,cor)
                L.append((m.start(),m.end(),m.group(0),new,"trigger %s(%s): if (%s)"%(m.group(1),m.group(2),c)))
    random.Random(seed).shuffle(L); out=[];cnt={}
    for x in L:
        ln=t.count("\n",0,x[0])+1
        if cnt.get(ln,0)>=2: continue
        cnt[ln]=cnt.get(ln,0)+1; out.append((ln,)+x)
    return t,out
def memo(f,n,seed):
    t=open(ns["REPO"]+"/"+f).read(); s=ns["strip"](t); out=[]
    for m in SIG.finditer(s):
        ls=s.rfind("\n",0,m.start())+1; head=s[ls:m.start()]; body=m.end()-1
        if not re.match(r"^\s*(static |inline |constexpr |explicit |friend |\[\[nodiscard\]\] )*[A-Za-z0-9_]+( const)? $",head) or "void" in head or head.strip().split()[-1] in("static","inline","constexpr","explicit","else","return"): continue
        if head[0:1]=="\t" and not m.group(3) and "static" not in head and not f.endswith("flags.hpp"): continue
        d=0; e=body
        while True:
            d+={"{":1,"}":-1}.get(s[e],0)
            if not d: break
            e+=1
        q=[re.match(r"^(const )?([A-Za-z0-9_<>]+)( ?[&*])? ([A-Za-z0-9_]+)( = .*)?$",p.strip()) for p in m.group(2).split(",")]
        if not all(q) or any(x.group(3) and not x.group(1) for x in q): continue
        nm=[x.group(4) for x in q]; inner=t[body:e+1]
        keys=[[(nm[0],4)]]
        if len(nm)>1: keys+=[[(nm[0],0)],[(nm[-1],0)],[(nm[0],4),(nm[-1],4)]]
        elif m.group(3): keys+=[[(nm[0],0)]]
        elif q[0].group(2) in("float","int32","uint32","uint8","psize","float2","Color","Version"): keys=[]
        for k in keys:
            if not m.group(3) and len(nm)==1 and k[0][1]==0: continue
            key="".join("uint8 k%d__[sizeof(%s)] = {}; memcpy(k%d__, (const void*)&%s, %s); "%(i,a,i,a,"sizeof(%s) < %d ? sizeof(%s) : %d"%(a,w,a,w) if w else "sizeof(%s)"%a) for i,(a,w) in enumerate(k))
            diff=" || ".join("memcmp(l%d__, k%d__, sizeof(k%d__))"%(i,i,i) for i in range(len(k)))
            new=head.replace("constexpr ","")+t[m.start():body]+"{ "+key+"auto f__ = [&]()"+inner+"; static bool h__ = false; "+"".join("static uint8 l%d__[sizeof(k%d__)]; "%(i,i) for i in range(len(k)))+"static decltype(f__()) r__; if (!h__ || %s) { h__ = true; "%diff+"".join("memcpy(l%d__, k%d__, sizeof(k%d__)); "%(i,i,i) for i in range(len(k)))+"r__ = f__(); } return r__; }"
            out.append((t.count("\n",0,ls)+1,ls,e+1,t[ls:e+1],new,"memo %s(%s): key %s"%(m.group(1),m.group(2),k)))
    random.Random(seed).shuffle(out); r=[];cnt={}
    for x in out:
        if cnt.get(x[0],0)>=2: continue
        cnt[x[0]]=cnt.get(x[0],0)+1; r.append(x)
    return t,r
def result(f,n,seed):
    t=open(ns["REPO"]+"/"+f).read(); s=ns["strip"](t); out=[]
    for m in SIG.finditer(s):
        ls=s.rfind("\n",0,m.start())+1; head=s[ls:m.start()]+m.group(1); body=m.end()-1
        h=re.match(r"^\s*(?:static |inline |constexpr |explicit |friend |\[\[nodiscard\]\] |const )*([A-Za-z0-9_]+)( const)? ",head)
        if not h or h.group(1) not in {**FLT,**INT}: continue
        d=0; e=body
        while True:
            d+={"{":1,"}":-1}.get(s[e],0)
            if not d: break
            e+=1
        ty=h.group(1); cs,cor=conds(ty,"r__")
        if os.environ.get("SUBTLE"): cs=cs+["true"]
        for c in cs:
            new=s[ls:m.start()].replace("constexpr ","")+t[m.start():body]+"{ auto f__ = [&]() -> %s "%ty+t[body:e+1]+"; %s r__ = f__(); if (%s) { %s } return r__; }"%(ty,c,cor)
            out.append((t.count("\n",0,ls)+1,ls,e+1,t[ls:e+1],new,"result %s(%s): if (%s)"%(m.group(1),m.group(2),c)))
    random.Random(seed).shuffle(out); r=[];cnt={}
    for x in out:
        if cnt.get(x[0],0)>=2: continue
        cnt[x[0]]=cnt.get(x[0],0)+1; r.append(x)
    return t,r
ns["mutants"]=result if os.environ.get("RESULT") else memo if os.environ.get("MEMO") else mutants
if __name__=="__main__": exec(compile(src[main:],"mutate","exec") if main is not None else "",ns)
