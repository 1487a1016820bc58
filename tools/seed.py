#!/usr/bin/env python3
"""seed.py make ID PROP       take the working tree diff of /repo as planted bug ID and revert it
   seed.py try ID [nocheck|PROP...]   confirm a planted bug (build, tests, demo) and run the checks against it"""
import sys,os,subprocess,json,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def clean():
    sh("git -C /repo checkout -- .")
def demo(d):
    t=time.time()
    r=sh("cp -r %s/. /tmp/seeddemo/; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json"%d) if False else None
    r=subprocess.run(["bash",d+"/demo.sh"],cwd="/repo",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=300)
    return r.returncode,r.stdout.decode(errors="replace")[-400:].strip(),time.time()-t
cmd,i=sys.argv[1],sys.argv[2]
d=f"{V}/seeded/{i}"
if cmd=="make":
    os.makedirs(d,exist_ok=True)
    p=sh("git -C /repo diff").stdout
    if not p.strip(): sys.exit("no diff")
    open(d+"/patch.diff","wb").write(p)
    clean(); print("ok",len(p)); sys.exit(0)
if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo not clean")
meta=json.load(open(d+"/meta.json"))
try:
    r=sh("bash /opt/vp/build.sh")
    if r.returncode: sys.exit("clean build fails")
    c=demo(d); print("demo clean:",c)
    r=sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode: sys.exit("does not apply "+r.stdout.decode())
    r=sh("bash /opt/vp/build.sh")
    if r.returncode: sys.exit("build fails "+r.stdout.decode()[-2000:])
    c2=demo(d); print("demo patched:",c2)
    sh("bash /opt/vp/test.sh /tmp/seedt.json")
    b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seedt.json'))
    m=[t for t in b['stable'] if t not in o['passed']]
    print("missing stable:",m)
    print("CONFIRMED" if c[0]==0 and c2[0]!=0 and not m else "NOT CONFIRMED")
    ps=sys.argv[3:] or [meta["property"]]
    if ps!=["nocheck"]:
        for p in ps:
            r=sh(f"python3 {V}/check.py {p} quick",env=dict(os.environ,VERIF_SEED="1"))
            print(p,"exit",r.returncode,r.stdout.decode(errors="replace")[-600:])
finally:
    clean()
    sh("bash /opt/vp/build.sh")
