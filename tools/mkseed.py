#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/{patch.diff,demo.cpp,demo.sh,meta.json} for every S(...) in SPEC.
The spec gives replacements (file, old, new) on /repo's HEAD; refuses to remove lines that are not in the original commit."""
import sys, os, json, difflib, subprocess
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORIG="03a0821"
INC="include/common_robotics_utilities/"; SRC="src/common_robotics_utilities/"
DEMO='''#!/bin/bash
# run in the repository's root after a build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w %s -Iinclude -I/usr/include/eigen3 -fopenmp "$D/demo.cpp" _build/libcommon_robotics_utilities.a -lz -lpthread -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
'''
PRE='''#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <vector>
#include <string>
#include <stdexcept>
#define CHECK(c) do { if (!(c)) { std::printf("demo: failed: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)
using namespace std;
'''
def git(f,rev): return subprocess.run(["git","-C","/repo","show",f"{rev}:{f}"],capture_output=True,text=True).stdout
def S(id,prop,edits,needs,breaks,demo,flags=""):
    d=f"{R}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    byf={}
    for f,o,n in edits: byf.setdefault(f,[]).append((o,n))
    out=""
    for f,es in byf.items():
        a=git(f,"HEAD"); b=a; orig=set(git(f,ORIG).split("\n"))
        for o,n in es:
            assert b.count(o)==1,(id,f,b.count(o),o)
            b=b.replace(o,n)
        df=list(difflib.unified_diff(a.splitlines(True),b.splitlines(True),"a/"+f,"b/"+f))
        for l in df:
            if l.startswith("-") and not l.startswith("---") and l[1:].rstrip("\n") not in orig: print("WARNING",id,"removes non-original line:",l.rstrip())
        out+="".join(df)
    open(d+"/patch.diff","w").write(out)
    open(d+"/demo.cpp","w").write(PRE+demo)
    open(d+"/demo.sh","w").write(DEMO%flags); os.chmod(d+"/demo.sh",0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
    print("wrote",id)
if __name__=="__main__":
    for p in sys.argv[1:]: exec(compile(open(p).read(),p,"exec"))
