#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design/*.md, properties.jsonl, the harness directives and seeded/."""
import json, os, re, glob
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+"/properties.jsonl")]
seeds={}
for d in sorted(glob.glob(R+"/seeded/*/meta.json")):
    m=json.load(open(d)); seeds.setdefault(m["property"],[]).append((os.path.basename(os.path.dirname(d)),m))
MISSED=json.load(open(R+"/design/missed.json"))
COST=json.load(open(R+"/design/cost.json")) if os.path.exists(R+"/design/cost.json") else {}
out=[open(R+"/design/head.md").read(),"\n## 2. The properties and how each is decided\n"]
for p in props:
    i=p["id"]; src="".join(open(f).read() for f in sorted(glob.glob(f"{R}/harness/{i.lower()}[_.]*cpp")))
    g=lambda k: "; ".join(x.strip() for x in re.findall(rf"^//@ {k}:\s*(.*)$",src,re.M))
    out.append(f"### {i}. {p['title']}\n\n{p['statement']}\n")
    an=p["anchors"]; w={}
    for m in an.get("mechanism",[]): w.setdefault(m["where"],[]).append(m["name"])
    out.append("* anchors: "+"; ".join(f"`{f}`"+(f" ({', '.join(w[f])})" if f in w else "") for f in list(an.get("files",[]))+[x for x in w if x not in an.get("files",[])]))
    out.append("* decided: symbolic execution, for "+g("bound"))
    if g("outside"): out.append("* outside: "+g("outside"))
    if g("assume"): out.append("* assumes: "+g("assume"))
    if g("ub"): out.append("* undefined-behaviour checks compiled in: "+g("ub"))
    jobs=re.findall(r"^//@ job (\S+) (\S+)(.*)$",src,re.M)
    def desc(t,e,r):
        r=" ".join(x for x in r.split() if x.split("=")[0] not in ("time","cap","must","maxviol","samples","max_instr","search","load_ite","store_ite"))
        return f"`{e}{' '+r if r else ''}`"
    q=[desc(*j) for j in jobs if j[0]!="thorough"]; t=[desc(*j) for j in jobs if j[0]=="thorough"]
    out.append("* jobs: "+", ".join(q)+("; thorough also "+", ".join(t) if t else "")+(f" (quick: about {COST[i]} s)" if i in COST else ""))
    if i in seeds: out.append("* planted bugs: "+", ".join(f"`{s}`" for s,_ in seeds[i]))
    out.append("")
out.append("## 3. Properties not addressed\n\nNone is listed as not applicable; what lies outside each property's bounds is in its section above.\n")
tail=open(R+"/design/tail.md").read()
fx=[]
for l in json.load(open(R+"/known_findings.json"))["fixed"]:
    m=re.match(r"fixed: property=(\S+) (\S+) (.*)",l); fx.append(f"* {m[1]} `{m[2]}`: {m[3]}")
tail=tail.replace("@FIXES@","\n".join(fx)).replace("@MISSED@","\n".join(f"* `{k}`: {v}" for k,v in MISSED.items()))
tail=tail.replace("@SEEDS@","| planted bug | caught by | what it needs |\n|---|---|---|\n"+"\n".join(f"| `{s}` | {p} | {m['needs']} |" for p in sorted(seeds) for s,m in seeds[p]))
open(R+"/DESIGN.md","w").write("\n".join(out)+"\n"+tail)
