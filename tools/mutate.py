#!/usr/bin/env python3
"""bm.py SPEC.py : SPEC defines M = [(checks, expect 'V'|'Q'|'?', file, old, new[, occ]) ...]"""
import subprocess, sys, shutil, os, re
from concurrent.futures import ThreadPoolExecutor
ns={}
exec(open(sys.argv[1]).read(),ns)
only=set(map(int,sys.argv[2:]))
def run(a):
    i,m=a
    checks,exp,fn,old,new=m[:5]; occ=m[5] if len(m)>5 else 1
    d="/tmp/mt/b%d_%d"%(os.getpid(),i)
    os.makedirs(d)
    for x in ("src","include","qdd"): shutil.copytree(os.environ.get("MREPO","/repo")+"/"+x,d+"/"+x,ignore=shutil.ignore_patterns("*.so","__pycache__"))
    pairs=[(old,new)] if isinstance(old,str) else list(zip(old,new))
    p=d+"/"+fn; s=open(p).read()
    for old,new in pairs:
        j=-1
        for _ in range(occ):
            j=s.find(old,j+1)
            if j<0: shutil.rmtree(d); return i,m,"NOTFOUND",""
        s=s[:j]+new+s[j+len(old):]
    open(p,"w").write(s)
    out=[];ok=True
    for c in checks.split(","):
        r=subprocess.run(["python3","-m","qsa.run",c],cwd="/verif",env=dict(os.environ,QSA_REPO=d,QSA_EVID=d),capture_output=True,text=True)
        o=(r.stdout+r.stderr).strip()
        tag={0:"Q",1:"V"}.get(r.returncode,"E")
        if exp not in "?A" and tag!=exp: ok=False
        if tag=="E" : ok=False
        out.append("%s=%s %s"%(c,tag,o[:int(os.environ.get("MLEN","260"))].replace(d+"/","").replace("\n"," | ")))
    if exp=="A" and not any("=V" in x[:6] for x in out): ok=False
    shutil.rmtree(d)
    return i,m,"ok " if ok else "BAD"," ;; ".join(out)
os.makedirs("/tmp/mt",exist_ok=True)
L=[(i,m) for i,m in enumerate(ns["M"]) if not only or i in only]
with ThreadPoolExecutor(int(os.environ.get("MW","7"))) as ex:
    for i,m,r,o in ex.map(run,L):
        nm=(m[3] if isinstance(m[3],str) else m[3][0]); nn=(m[4] if isinstance(m[4],str) else m[4][0])
        print("%2d %s exp=%s [%s -> %s] %s"%(i,r,m[1],nm.strip()[:40].replace("\n"," "),nn.strip()[:40].replace("\n"," "),o),flush=True)
