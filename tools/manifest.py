#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the harness modules that exist."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
NA=json.load(open(V+"/tools/not_applicable.json"))
checks=[];na=[]
lib=["//! Harnesses, one module per property; each is built with its own cargo feature.","#![allow(dead_code, unused_imports, unused_unsafe)]","pub mod ks;","pub mod util;","pub mod z;","pub mod gr;","pub mod ev;","pub mod wu;","pub mod ug;","pub mod w;","pub mod fx;",'#[cfg(feature = "base")]',"pub mod base;"]
for p in props:
    i=p["id"]; f=f"{V}/harness/src/{i.lower()}.rs"
    if os.path.exists(f):
        lib+= [f'#[cfg(feature = "{i.lower()}")]',f"pub mod {i.lower()};"]
        if i in NA: raise SystemExit(i+" is both claimed and not applicable")
        n=len(re.findall(r'^\s*// @h ',open(f).read(),re.M))
        checks.append({"property":i,"quick_cmd":f"python3 run.py {i} --tier quick","thorough_cmd":f"python3 run.py {i} --tier thorough",
          "technique":"symbolic execution of the compiled code (LLVM bitcode rebuilt from /repo) with z3/cvc5 deciding every branch, address and assertion; counterexamples replayed natively",
          "level":"model_checking","level_note":f"{n} harnesses, bounds stated per harness in harness/src/{i.lower()}.rs and in the evidence file; nothing outside those bounds is claimed"})
    else: na.append({"property":i,"reason":NA.get(i,"no check built yet")})
open(V+"/harness/src/lib.rs","w").write("\n".join(lib)+"\n")
json.dump({"version":1,"setup_cmd":"python3 run.py --setup",
  "hooks":{"guard":"--cfg knaster_verif","enable":"run.py builds the harness crate (and with it /repo's crates) with RUSTFLAGS='--cfg knaster_verif'","source_commits":["a7d6769b7e673045f02f4912c0532e265bb74b48"]},"checks":checks,"not_applicable":na,
  "notes":"run.py rebuilds the harness crate against /repo's working tree on every run (content hash, not file times), executes each harness symbolically with ksym and replays counterexamples and path witnesses natively. See DESIGN.md."},open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
