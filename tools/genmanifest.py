#!/usr/bin/env python3
import json,subprocess,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hooks=subprocess.run("git -C /repo log --format=%H --grep=^hook:",shell=True,stdout=subprocess.PIPE).stdout.decode().split()
if os.path.isdir("/repo") and not hooks: raise SystemExit("no hook commits?")
CLAIMED=sys.argv[1].split() if len(sys.argv)>1 else "T01 T02 T03 T04 T05 T06 T07 T08 T09 T10 C01 C02 C03 C04 C05 C06 C07 G01 G02 G03 G04 G05 G06".split()
NA={"P01":"The LLVM hexadecimal encoding is a pure function of one number: no schedule, clock, I/O, fault or history takes part, so there is nothing for a simulator to decide.",
"P02":"mewa.tostring is a pure function of one value: no schedule, clock, I/O, fault or history takes part, so there is nothing for a simulator to decide."}
TECH={
"T":"deterministic simulation: seeded search over call sequences, session interleavings, garbage collections, heap layouts and failing allocations against the real library in one process, reference model / differential oracle",
"C":"deterministic simulation: seeded search over grammars, programs, run histories, I/O faults and allocation failures with the real parser, generator and compiler run in one process, derivation-tree oracle",
"G":"deterministic simulation: seeded search over grammars, program invocations, heap layouts, I/O faults and crashes with the real program in simulated processes, grammar-theory reference oracle"}
NOTE={}
checks=[]
for l in open(V+"/properties.jsonl"):
    p=json.loads(l)["id"]
    if p not in CLAIMED:
        NA.setdefault(p,"check under construction")
        continue
    checks.append({"property":p,"quick_cmd":f"python3 check.py {p} quick","thorough_cmd":f"python3 check.py {p} thorough",
      "technique":TECH[p[0]],"level":"exploration","level_note":"sampled: seeded random search, violations are replayed in a fresh process and minimised; see DESIGN.md"})
m={"version":1,"setup_cmd":"python3 build.py","hooks":{"guard":"MEWA_SIMULATION","enable":"build.py compiles /repo/src with -DMEWA_SIMULATION (the product build does not define it)","source_commits":hooks},
 "checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in sorted(NA.items())],
 "notes":"All checks run the code of /repo's working tree inside the simulator /verif/sim; see DESIGN.md."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
