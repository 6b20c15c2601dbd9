#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the harness files and properties.jsonl."""
import json, os, re, glob
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+"/properties.jsonl")]
NA={}
checks=[];na=[]
for p in props:
    i=p["id"]; fs=sorted(glob.glob(f"{R}/harness/{i.lower()}[_.]*cpp"))
    if not fs:
        na.append(dict(property=i,reason=NA.get(i,"no harness built yet for this property"))); continue
    src="".join(open(f).read() for f in fs)
    b=re.findall(r"^//@ bound:\s*(.*)$",src,re.M); o=re.findall(r"^//@ outside:\s*(.*)$",src,re.M); a=re.findall(r"^//@ assume:\s*(.*)$",src,re.M)
    note="Bounded: every value within the bounds is decided by the solver, nothing is sampled. Bounds: "+"; ".join(b)+"."
    if o: note+=" Not covered: "+"; ".join(o)+"."
    if a: note+=" Assumes: "+"; ".join(a)+"."
    note+=" Trusts clang's IR generation, the symbolic executor in /verif/engine with its libc/libstdc++/OpenMP models (cross-checked by native replay of sampled paths on every run) and Z3."
    c=dict(property=i,quick_cmd=f"bin/check.py {i} --tier quick",thorough_cmd=f"bin/check.py {i} --tier thorough",
      evidence_file=f"evidence/{i}.json",technique="symbolic execution of the library's LLVM IR with Z3 deciding every branch and assertion; counterexamples replayed natively",level="model_checking",level_note=note)
    checks.append(c)
json.dump(dict(version=1,setup_cmd="bash engine/build.sh",checks=checks,not_applicable=na),open(R+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
