#!/usr/bin/env python3
"""tools/cov.py SECONDS : basic blocks of /repo/src never reached by any of the searches, as source lines (a tool for finding blind spots)"""
import subprocess,sys,os,re,collections
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V)
sec=sys.argv[1] if len(sys.argv)>1 else "20"
exe=subprocess.run(["python3",V+"/build.py"],stdout=subprocess.PIPE).stdout.decode().strip()
jobs=[("A",f"T{i:02}") for i in range(1,11)]+[("B",p) for p in "C01 C02 C03 C04 C05 C06 C07 G01 G05".split()]+[("C",p) for p in "G02 G03 G04 G06".split()]
hit=set()
for w,p in jobs:
    ps=[]
    for i in range(8):
        d=f"/tmp/cov/{i}"; os.makedirs(d,exist_ok=True)
        ps.append(subprocess.Popen([exe,"batch",w,p,str(77000000+i),"8","100000000",sec,d+"/x"],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,cwd="/tmp/cov"))
    for q in ps:
        for l in q.communicate()[0].decode(errors="replace").split("\n"):
            if l.startswith("B\t"): hit|=set(int(x,16) for x in l.split("\t")[1:])
    sys.stderr.write(f"{p} {len(hit)}\n")
dis=subprocess.Popen(["objdump","-d","--no-show-raw-insn",exe],stdout=subprocess.PIPE)
sites=[];nxt=False
for l in dis.stdout:
    l=l.decode(errors="replace")
    m=re.match(r"\s+([0-9a-f]+):\t(.*)",l)
    if not m: continue
    if nxt: sites.append(int(m.group(1),16)); nxt=False
    if "<__sanitizer_cov_trace_pc>" in m.group(2) and m.group(2).startswith("call"): nxt=True
print("sites",len(sites),"hit",len(hit&set(sites)))
a=subprocess.run(["addr2line","-e",exe]+["%x"%(s-1) for s in sites],stdout=subprocess.PIPE).stdout.decode().split("\n")
L=collections.defaultdict(lambda:[0,0])
for s,x in zip(sites,a):
    x=x.split(" ")[0]
    f,_,n=x.rpartition(":")
    if "/src/" not in f: continue
    try: n=int(n)
    except ValueError: continue
    L[(os.path.basename(f),n)][0 if s in hit else 1]+=1
files=collections.defaultdict(list)
for (f,n),(h,m) in sorted(L.items()):
    if h==0: files[f].append(n)
for f,ns in files.items():
    src=open("/repo/src/"+f).read().split("\n") if os.path.exists("/repo/src/"+f) else []
    print("==",f,len(ns))
    for n in ns: print(n,src[n-1].strip()[:140] if n<=len(src) else "")
