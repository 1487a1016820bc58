#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      search for violations of a property
   check.py replay FILE                  replay a violation from its file

Environment: VERIF_SEED (default 1), SIM_SECONDS (overrides the search time), SIM_WORKERS."""
import os,sys,json,time,subprocess,threading,re,shutil,tempfile,concurrent.futures,hashlib
V=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,V)
WORLD={}
for p in "T01 T02 T03 T04 T05 T06 T07 T08 T09 T10".split(): WORLD[p]="A"
for p in "C01 C02 C03 C04 C05 C06 C07 G01 G05".split(): WORLD[p]="B"
for p in "G02 G03 G04 G06".split(): WORLD[p]="C"
QUICK_S={"A":40,"B":50,"C":50}
THOROUGH_S=600
from checkinfo import INFO

def die(msg):
    print("ERROR:",msg); sys.stdout.flush(); raise SystemExit(3)

def build():
    r=subprocess.run([sys.executable,os.path.join(V,"build.py")],stdout=subprocess.PIPE,stderr=subprocess.PIPE)
    if r.returncode!=0: die("the simulator does not build:\n"+r.stderr.decode(errors="replace")[-4000:])
    return r.stdout.decode().strip().split("\n")[-1]

class Ctx: pass
X=Ctx()
def execPlan(text,verbose=False,cpu=None):
    """Runs a plan in a fresh process. Returns (status,detail,hash,[(prop,oracle,detail)],raw output)"""
    with X.lock:
        X.n+=1; k=X.n
    f=f"{X.tmp}/p{k}.plan"; d=f"{X.tmp}/x{k}"
    open(f,"w").write(text)
    env=dict(os.environ)
    if verbose: env["SIM_VERBOSE"]="1"
    else: env.pop("SIM_VERBOSE",None)
    if cpu: env["SIM_CPU"]=str(cpu)
    env.setdefault("SIM_TIMEOUT","150")
    r=subprocess.run([X.exe,"exec",f,d],stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=env)
    os.unlink(f)
    out=r.stdout.decode(errors="replace")
    st=("ERROR","","0");vs=[]
    for l in out.split("\n"):
        if l.startswith("R\t"): _,_,h,s,dt=l.split("\t",4); st=(s,dt,h)
        else:
            t=l[2:] if l.startswith("V\t") else l
            q=t.split("\t",2)
            if len(q)==3 and re.fullmatch(r"[A-Z]\d\d",q[0]): vs.append(tuple(q))
    return st[0],st[1],st[2],vs,out

def crashKey(detail):
    m=re.search(r"operation '(.*?)'",detail)
    op=m.group(1) if m else ""
    w=[x for x in op.split() if not re.match(r"^[\d.]+$",x)]
    kind=re.sub(r"0x[0-9a-f]+|\d+","#",detail.split(" in operation")[0])
    fn=re.search(r"SUMMARY: AddressSanitizer: (\S+) .*? in ([\w:~<>]+)",detail)
    return kind+"|"+(fn.group(1)+" "+fn.group(2) if fn else (w[1] if len(w)>1 else (w[0] if w else "")))

def signature(prop,res):
    """None if the plan does not violate the property, else the class of the violation"""
    st,dt,h,vs,_=res
    if st in ("CRASH","HANG"): return st+"|"+crashKey(dt)
    if st=="VIOLATION":
        for p,o,d in vs:
            if p==prop: return "V|"+o
    return None
def describe(prop,res):
    st,dt,h,vs,_=res
    if st in ("CRASH","HANG"): return st+": "+dt[:600]
    for p,o,d in vs:
        if p==prop: return o+": "+d[:600]
    return st

def worker(i,prop,seed0,stride,count,seconds,tier,res):
    d=f"{X.tmp}/w{i}"
    os.makedirs(d,exist_ok=True)
    env=dict(os.environ); env.setdefault("SIM_TIMEOUT","150"); env.pop("SIM_VERBOSE",None)
    p=subprocess.run([X.exe,"batch",WORLD[prop],prop,str(seed0+i),str(stride),str(count),str(seconds),d]+(["thorough"] if tier=="thorough" else []),
        stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=env,cwd=X.tmp)
    hs=[];R=[];V_=[];S={};end=False
    for l in p.stdout.decode(errors="replace").split("\n"):
        f=l.split("\t")
        if f[0]=="H": hs.append(f[1])
        elif f[0]=="R": R.append((int(f[1]),f[2],f[3],"\t".join(f[4:])))
        elif f[0]=="V": V_.append((int(f[1]),f[2],f[3],"\t".join(f[4:])))
        elif f[0]=="S": S[f[1]]=int(f[2])
        elif f[0]=="B": S["B"]=set(f[1:])
        elif f[0]=="END": end=True
    res[i]=(hs,R,V_,S,end,p.returncode,p.stderr.decode(errors="replace")[-2000:])

def genPlan(prop,seed,tier):
    r=subprocess.run([X.exe,"plan",WORLD[prop],prop,str(seed)]+(["thorough"] if tier=="thorough" else []),stdout=subprocess.PIPE)
    return r.stdout.decode(errors="replace")

def minimise(prop,text,sig,budget):
    t0=time.time()
    head=[l for l in text.split("\n") if l.split(" ")[0] in ("world","prop")]
    lines=[l for l in text.split("\n") if l and l.split(" ")[0] not in ("world","prop")]
    fixed=lambda l: l.split(" ")[0] in ("knob",)
    cpu=4 if sig.startswith("HANG") else None
    ok=lambda ls: time.time()-t0<budget and signature(prop,execPlan("\n".join(head+ls)+"\n",cpu=cpu))==sig
    ex=concurrent.futures.ThreadPoolExecutor(X.workers)
    n=2
    while time.time()-t0<budget:
        cand=[i for i,l in enumerate(lines) if not fixed(l)]
        if not cand or n>len(cand)*2: break
        n=min(n,len(cand))
        sz=(len(cand)+n-1)//n
        chunks=[set(cand[k:k+sz]) for k in range(0,len(cand),sz)]
        tries=[[l for i,l in enumerate(lines) if i not in c] for c in chunks]
        done=False
        for b in range(0,len(tries),X.workers):
            if time.time()-t0>budget: break
            part=tries[b:b+X.workers]
            for t,good in zip(part,list(ex.map(ok,part))):
                if good: lines=t; done=True; break
            if done: break
        if done: n=max(2,n-1)
        elif sz==1: break
        else: n=n*2
    # drop attributes
    changed=True
    while changed and time.time()-t0<budget:
        changed=False
        tries=[]
        for i,l in enumerate(lines):
            w=l.split(" ")
            for k,x in enumerate(w):
                if "=" in x and k>0 and w[0] in ("op","knob","io","f") : tries.append(lines[:i]+[" ".join(w[:k]+w[k+1:])]+lines[i+1:])
        for b in range(0,len(tries),X.workers):
            if time.time()-t0>budget: break
            part=tries[b:b+X.workers]
            for t,good in zip(part,list(ex.map(ok,part))):
                if good and t!=lines: lines=t; changed=True; break
            if changed: break
    ex.shutdown()
    return "\n".join(head+lines)+"\n"

def knownFindings(prop):
    rt=[]
    fn=os.path.join(V,"findings","known-findings.txt")
    if not os.path.exists(fn): return rt
    for l in open(fn):
        l=l.strip()
        m=re.match(r"finding: property=(\w+) plan=(\S+) class=(\S+) (.*)",l)
        if m and m.group(1)==prop: rt.append((m.group(2),m.group(3),m.group(4)))
    return rt

def report(prop,text,res,seed,tier,note=""):
    d=os.path.join(V,"replays"); os.makedirs(d,exist_ok=True)
    fn=os.path.join(d,f"{prop}-{seed}.plan")
    h=f"# property {prop} seed {seed} tier {tier} {note}\n# {describe(prop,res)}\n# history hash {res[2]}\n# replay: python3 {V}/check.py replay {fn}\n"
    open(fn,"w").write(h+text)
    print(f"VIOLATION property={prop} replay={fn}")
    print("  "+describe(prop,res))
    sys.stdout.flush()

def main():
    if len(sys.argv)==3 and sys.argv[1]=="replay":
        X.tmp=tempfile.mkdtemp(prefix="mewasim."); X.lock=threading.Lock(); X.n=0; X.workers=1
        try:
            X.exe=build()
            text="".join(l for l in open(sys.argv[2]) if not l.startswith("#"))
            prop=re.search(r"^prop (\w+)",text,re.M).group(1)
            r=execPlan(text,True)
            print(r[4])
            sig=signature(prop,r)
            if sig is None: print("no violation of",prop); return 0
            print(f"VIOLATION property={prop} replay={sys.argv[2]}"); print("  "+describe(prop,r)); return 1
        finally: shutil.rmtree(X.tmp,ignore_errors=True)
    prop,tier=sys.argv[1],sys.argv[2]
    t0=time.time()
    seed=int(os.environ.get("VERIF_SEED","1") or "1")
    print(f"property {prop} tier {tier} VERIF_SEED {seed}"); sys.stdout.flush()
    X.workers=int(os.environ.get("SIM_WORKERS","0") or 0) or min(8,os.cpu_count() or 4)
    X.tmp=tempfile.mkdtemp(prefix="mewasim."); X.lock=threading.Lock(); X.n=0
    try:
        X.exe=build()
        tb=time.time()-t0
        rc=check(prop,tier,seed,t0,tb)
    finally: shutil.rmtree(X.tmp,ignore_errors=True)
    return rc

def check(prop,tier,seed,t0,tb):
    found=[]; known=0; regress=0
    # histories of recorded findings
    kf=knownFindings(prop)
    for plan,cls,what in kf:
        text="".join(l for l in open(os.path.join(V,"findings",plan)) if not l.startswith("#"))
        r=execPlan(text)
        s=signature(prop,r)
        if s is None: print(f"note: recorded finding {plan} does not occur any more")
        elif s.replace(" ","_")==cls: known+=1; print(f"KNOWN-FINDING: property={prop} {what}")
        else: found.append((plan,text,r))
    # histories that once violated the property, for defects repaired since
    rd=os.path.join(V,"findings","regress",prop)
    for f in sorted(os.listdir(rd)) if os.path.isdir(rd) else []:
        text="".join(l for l in open(os.path.join(rd,f)) if not l.startswith("#"))
        r=execPlan(text); regress+=1
        if r[0]=="ERROR": die("cannot run "+f+": "+r[1])
        if signature(prop,r): found.append(("regress-"+f.replace(".plan",""),text,r))
    seconds=float(os.environ.get("SIM_SECONDS","0") or 0) or (QUICK_S[WORLD[prop]] if tier=="quick" else THOROUGH_S)
    base=(seed*1000003+int(hashlib.sha256(prop.encode()).hexdigest()[:6],16))%(1<<40)*100000
    ths=[];res={}
    if not found:
        for i in range(X.workers):
            t=threading.Thread(target=worker,args=(i,prop,base,X.workers,100000000,seconds,tier,res)); t.start(); ths.append(t)
        for t in ths: t.join()
    S={};hashes=set();blocks=set();nh=0;bad=[];other={}
    for i,(hs,R,V_,s,end,rc,err) in sorted(res.items()):
        if not end: die(f"worker {i} ended unexpectedly with {rc}: {err}")
        nh+=len(hs); hashes.update(hs)
        blocks|=s.pop("B",set())
        for k,v in s.items():
            if k.startswith("max:"): S[k]=max(v,S.get(k,0))
            else: S[k]=S.get(k,0)+v
        for sd,h,st,dt in R:
            vs=[(p,o,d) for q,p,o,d in V_ if q==sd]
            if st=="ERROR": die(f"run of seed {sd}: {dt}")
            if st in("CRASH","HANG") or any(p==prop for p,o,d in vs): bad.append((sd,h,st))
            else:
                for p,o,d in vs: other[p+" "+o]=other.get(p+" "+o,0)+1
    bad.sort()
    unrep=[]
    seen=set()
    bad=[x for x in bad if x[2]!="HANG"][:6]+[x for x in bad if x[2]=="HANG"][:2]
    tc=time.time()
    for sd,h,st in bad:
        if found and time.time()-tc>100: break
        text=genPlan(prop,sd,tier)
        with concurrent.futures.ThreadPoolExecutor(2) as ex2: a,b=ex2.map(execPlan,[text,text])
        # same seed, fresh processes: has to be the same history
        sa,sb=signature(prop,a),signature(prop,b)
        if sa is None or sa!=sb or a[2]!=b[2] or (a[2]!=h and st!="HANG"):
            unrep.append((sd,h,st,a[:4],b[:4])); continue
        if sa in seen: continue
        seen.add(sa)
        m=minimise(prop,text,sa,60 if tier=="quick" else 120)
        with concurrent.futures.ThreadPoolExecutor(2) as ex2: r1,r2=ex2.map(execPlan,[m,m])
        if signature(prop,r1)!=sa or signature(prop,r2)!=sa or r1[2]!=r2[2]: m=text; r1=a
        found.append((sd,m,r1))
        if len(found)>=2: break
    wall=time.time()-t0
    ops=S.get("ops",0)
    info=INFO[prop]
    runs=S.get("runs",0)
    plan0=genPlan(prop,base,tier).split("\n")
    samples=[{"seed":base,"plan":plan0[:40]+(["... %d lines"%len(plan0)] if len(plan0)>40 else [])},
             {"seed":base+1,"plan":genPlan(prop,base+1,tier).split("\n")[:25]}]
    ev={"property":prop,"tier":tier,"seed":seed,"level":info["level"],
      "coverage":{
        "evaluations":runs,
        "distinct_nontrivial":len(hashes),
        "rule":info["rule"]+" A case counts once per distinct recorded history (hash over all operations with their observed results, context switches and injected faults).",
        "samples":samples,
        "operations":ops,
        "simulated_steps":S.get("sim_steps",0),
        "simulated_time_note":"mewa has no timers; simulated time is the logical step count (allocations, I/O operations, blocks of 1000 Lua instructions)",
        "runs_per_hour":int(runs*3600/max(seconds,1)) if runs else 0,
        "seeds_per_hour":int(runs*3600/max(seconds,1)) if runs else 0,
        "faults_injected":{k[6:]:v for k,v in sorted(S.items()) if k.startswith("fault:")},
        "rare_states_reached":{k[6:]:v for k,v in sorted(S.items()) if k.startswith("probe:")},
        "distinct_histories":len(hashes),
        "basic_blocks_of_the_code_under_test_reached":len(blocks),
        "counters":{k:v for k,v in sorted(S.items()) if not k.startswith(("fault:","probe:"))},
        "regression_histories":regress,"known_findings":known,
        "violations_of_other_properties_seen":other,
        "real_components":info["real"],"stub_components":info["stub"],
        "build_s":round(tb,1)},
      "assumptions":info["assumptions"],
      "wall_s":round(wall,1),"violations":len(found)}
    os.makedirs(os.path.join(V,"evidence"),exist_ok=True)
    with open(os.path.join(V,"evidence",prop+".json.tmp"),"w") as f: json.dump(ev,f,indent=1)
    os.rename(os.path.join(V,"evidence",prop+".json.tmp"),os.path.join(V,"evidence",prop+".json"))
    for sd,m,r in found: report(prop,m,r,sd,tier)
    if found: return 1
    if unrep:
        for u in unrep: print("not reproducible:",u)
        die("a violation could not be reproduced")
    print(f"held: {runs} runs, {len(hashes)} distinct histories, {ops} operations, {wall:.0f} s")
    if runs<10: die("too few runs")
    return 0
sys.exit(main())
