#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and /verif/sim. Prints the path of the binary.
Objects are cached by content below /verif/build (ignored by git)."""
import os,sys,time,subprocess,hashlib,glob,concurrent.futures
V=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get("MEWA_REPO","/repo")
B=os.path.join(V,"build")
CXX="g++"
SAN=["-fsanitize=address","-fno-omit-frame-pointer"]
BASE=["-std=c++17","-include","cstdint","-O1","-g1","-fPIC","-Wno-format-security","-I/usr/include/lua5.2"]+SAN
WRAP="malloc calloc realloc free aligned_alloc fopen fopen64 time getenv clock_gettime gettimeofday clock getpid rand random _ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt13random_device9_M_getvalEv pthread_mutex_lock pthread_rwlock_rdlock pthread_rwlock_wrlock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort".split()
def sha(*parts):
    h=hashlib.sha256()
    for p in parts:
        if isinstance(p,str): p=p.encode()
        h.update(p); h.update(b"\0")
    return h.hexdigest()[:24]
def rd(f): return open(f,"rb").read()
def build(verbose=False):
    os.makedirs(B,exist_ok=True)
    src=sorted(glob.glob(REPO+"/src/*.cpp"))
    hdr=sha(*[rd(f) for f in sorted(glob.glob(REPO+"/src/*.hpp")+glob.glob(REPO+"/src/*.h"))])
    shdr=sha(*[rd(f) for f in sorted(glob.glob(V+"/sim/*.hpp"))])
    jobs=[];objs=[]
    for f in src:
        fl=BASE+["-DMEWA_SIMULATION","-fsanitize-coverage=trace-pc","-I"+REPO+"/src"]
        if os.path.basename(f)=="mewa.cpp": fl=fl+["-Dmain=mewa_program_main"]
        key=sha(rd(f),hdr,f," ".join(fl))
        o=f"{B}/{os.path.basename(f)[:-4]}.{key}.o"
        objs.append(o); jobs.append((f,o,fl))
    for f in sorted(glob.glob(V+"/sim/*.cpp")):
        fl=BASE+["-I"+REPO+"/src"]
        key=sha(rd(f),shdr,f," ".join(fl))
        o=f"{B}/sim_{os.path.basename(f)[:-4]}.{key}.o"
        objs.append(o); jobs.append((f,o,fl))
    def one(j):
        f,o,fl=j
        if os.path.exists(o): return None
        t=o+".tmp%d"%os.getpid()
        r=subprocess.run([CXX]+fl+["-c",f,"-o",t],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        if r.returncode!=0: return f+":\n"+r.stdout.decode(errors="replace")
        os.rename(t,o)
        if verbose and r.stdout: sys.stderr.write(r.stdout.decode(errors="replace"))
        return None
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs=[e for e in ex.map(one,jobs) if e]
    if errs:
        sys.stderr.write("\n".join(errs)); raise SystemExit("build failed")
    exe=f"{B}/sim.{sha(' '.join(objs))}"
    if not os.path.exists(exe):
        t=exe+".tmp%d"%os.getpid()
        cmd=[CXX]+SAN+["-no-pie","-rdynamic","-o",t]+objs+["-Wl,--wrap="+w for w in WRAP]+["/usr/lib/x86_64-linux-gnu/liblua5.2.a","-lm","-ldl","-lpthread"]
        r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        if r.returncode!=0:
            sys.stderr.write(r.stdout.decode(errors="replace")); raise SystemExit("link failed")
        os.rename(t,exe)
    # drop old products
    keep=set(objs)|{exe}
    for f in glob.glob(B+"/*"):
        if f in keep or ".tmp" in f: continue
        try:
            if time.time()-os.path.getmtime(f)>2400: os.unlink(f)
        except OSError: pass
    for f in keep:
        try: os.utime(f)
        except OSError: pass
    return exe
if __name__=="__main__": print(build(True))
