#!/usr/bin/env python3
"""Development aid: apply behaviour-preserving rewritings (checker/refactor) to a
copy of /repo, one kind at a time or several joined by +, and run every check on it:
all must stay quiet. usage: refactor.py KIND[:FUNC]...   (R=binary of checker/refactor)
Not used by any registered check."""
import subprocess,os,sys,shutil,concurrent.futures as cf
KM=os.environ.get("KM","/verif/bin/kmcheck"); R=os.environ.get("R","/tmp/refac")
env=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOSUMDB="off")
def sh(c,cwd=None): 
    p=subprocess.run(c,cwd=cwd,env=env,capture_output=True,text=True); return p.returncode,p.stdout+p.stderr
def fresh(d):
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    for f in os.listdir("/repo"):
        if f.endswith(".go") or f in("go.mod","go.sum"): shutil.copy("/repo/"+f,d)
def build(d): return sh(["go","vet","-unusedresult=false","."],d) if 0 else sh(["go","build","./..."],d)
props=subprocess.run([KM,"-list"],capture_output=True,text=True).stdout.split()
def one(k):
    kind,_,fn=k.partition(":")
    d="/tmp/rf/d/"+k.replace(":","-"); fresh(d)
    ks=kind.split("+")
    for q in ks[:-1]:
        rc,o=sh([R,"-kind",q,d])
        if rc or build(d)[0]: return k,"FIRST "+o,[],"",9
    kind=ks[-1]
    c=[R,"-kind",kind]+(["-func",fn] if fn else [])
    rc,o=sh(c+[d])
    note=o.strip()
    brc,bo=build(d)
    if rc or brc:
        note+=" BUILDFAIL "+bo.strip()[:200]
        fresh(d)
        fns=[x for x in sh([R,"-list",d])[1].split()]
        skipped=[]
        for f in fns:
            keep=d+".k"; shutil.rmtree(keep,ignore_errors=True); shutil.copytree(d,keep)
            rc,o=sh([R,"-kind",kind,"-func",f,d])
            if rc or build(d)[0]:
                shutil.rmtree(d); os.rename(keep,d); skipped.append(f)
        shutil.rmtree(d+".k",ignore_errors=True)
        note+=" skipped "+",".join(skipped)
    out=d+".out"; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    rc,o=sh(["timeout","1500",KM,"-prop",",".join(props),"-repo",d,"-out",out])
    bad=[l.split("property=")[1].split()[0] for l in o.splitlines() if l.startswith("VIOLATION")]
    return k,note,bad,o if rc not in(0,1) else "",rc
kinds=sys.argv[1:]
J=int(os.environ.get("J","3"))
with cf.ThreadPoolExecutor(J) as ex:
    for f in cf.as_completed([ex.submit(one,k) for k in kinds]):
        k,note,bad,o,rc=f.result()
        print(("ok    " if rc==0 else "NOISY "),k,note.replace("\n"," ")[:300],bad,o[-300:],flush=True)
