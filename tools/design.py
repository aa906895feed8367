#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, plus the bounds of every harness (its `@h` line) and the planted bugs."""
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD=open(V+"/tools/design_head.md").read()
P={}
for sec in re.split(r'^## ',open(V+"/tools/design_props.md").read(),flags=re.M)[1:]:
    i,_,t=sec.partition("\n"); P[i.strip()]=t.strip()
out=[HEAD.rstrip(),"","## The properties, one by one","","Harness lines give the bounds; *thorough* ones only run in the thorough tier, *quick* ones only in the quick one.",""]
for l in open(V+"/properties.jsonl"):
    d=json.loads(l); i=d["id"]; f=f"{V}/harness/src/{i.lower()}.rs"
    out+= [f"### {i} {d['title']}",""]
    if i in P: out+=[P[i],""]
    if os.path.exists(f):
        for m in re.finditer(r'^\s*// @h (\S+)(.*?) : (.*)$',open(f).read(),re.M):
            k=" *thorough*" if "thorough" in m[2] else " *quick*" if "quickonly" in m[2] else ""
            out.append(f"- `{m[1]}`{k}: {m[3]}")
        out.append("")
    else: out+=["Not claimed: "+json.load(open(V+"/tools/not_applicable.json")).get(i,""),""]
out+=["## Defects found","","Every alarm on the original tree was traced to its cause. All of those listed in `known_findings.json` were","genuine (the counterexample runs against the native build) and were repaired in one `fix:` commit each; none is left open.","See also *Left alone* below.",""]
for x in json.load(open(V+"/known_findings.json"))["fixed"]:
    m=re.match(r"fixed: property=(\S+) (\S+) (.*)",x); out.append(f"- {m[1]} `{m[2]}` {m[3]}")
out+=["",open(V+"/tools/design_tail.md").read().rstrip(),"","## Planted bugs","","`seeded/<id>/` holds the change, a demonstration and what it needs to show. *Caught by* lists the checks that were run","against it and reported it.","","| id | property | what it breaks | needs | caught by |","|---|---|---|---|---|"]
R=json.load(open(V+"/tools/seeded_results.json"))
for m in sorted(glob.glob(V+"/seeded/*/meta.json")):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    out.append(f"| {i} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {R.get(i,'not run')} |")
open(V+"/DESIGN.md","w").write("\n".join(out)+"\n")
