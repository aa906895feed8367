#!/usr/bin/env python3
"""Decides one property: rebuild the harness crate from /repo, execute its harnesses symbolically,
replay counterexamples and path witnesses natively, write evidence/<id>.json.

  run.py C01            (tier from VERIF_TIER, default quick)
  run.py --setup        builds the tools and warms the dependency build
  run.py C01 --only h_c01_add -v
"""
import sys, os, re, json, glob, time, hashlib, subprocess, fcntl, shutil, signal
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); B=os.path.join(V,"build"); H=os.path.join(V,"harness")
REPO="/repo"; KSYM=os.path.join(B,"ksym"); REPLAY=os.path.join(B,"replay"); TARGET=os.path.join(B,"target")
CRATES=["knaster_primitives","knaster_core","knaster_core_dsp","knaster_graph","knaster_macros","knaster_airwindows","knaster"]
TOOLCHAIN="stable-x86_64-unknown-linux-gnu"
def log(*a): print(*a,file=sys.stderr,flush=True)
class CheckError(Exception): pass

def sh(cmd,cwd=None,timeout=None,env=None):
    p=subprocess.Popen(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,start_new_session=True)
    try: out,_=p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); p.communicate(); return 124,""
    return p.returncode,out.decode("utf8","replace")

def build_tools():
    os.makedirs(B,exist_ok=True)
    for name,cmd in (("ksym",["bash",os.path.join(V,"ksym","build.sh")]),("replay",["bash",os.path.join(V,"replay","build.sh")])):
        rc,out=sh(cmd,timeout=300)
        if rc: raise CheckError(f"building {name} failed:\n{out[-3000:]}")

def tree_hash():
    h=hashlib.sha256()
    files=[]
    for c in CRATES:
        for root,ds,fs in os.walk(os.path.join(REPO,c)):
            ds[:]=[d for d in ds if d not in("target",".git")]
            files+= [os.path.join(root,f) for f in fs if f.endswith((".rs",".toml"))]
    for root,ds,fs in os.walk(os.path.join(H)):
        ds[:]=[d for d in ds if d!="target"]
        files+=[os.path.join(root,f) for f in fs if f.endswith((".rs",".toml",".lock"))]
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f,"rb").read())
    return h.hexdigest()

def build_harness(features):
    """cargo build of the harness crate with the given features; returns (bitcode, shared library)."""
    stamp=os.path.join(TARGET,"tree.sha"); hsh=tree_hash()
    old=open(stamp).read() if os.path.exists(stamp) else None
    if old!=hsh:
        # never trust file times: sources changed, so forget what cargo believes about these crates
        for pat in ("knaster*","ksh*"):
            for d in glob.glob(os.path.join(TARGET,"release",".fingerprint",pat)): shutil.rmtree(d,ignore_errors=True)
        os.makedirs(TARGET,exist_ok=True)
    outdir=os.path.join(B,"out",features+"_"+hsh[:16]); bc=os.path.join(outdir,"h.bc"); so=os.path.join(outdir,"libksh.so")
    if os.path.exists(bc) and os.path.exists(so): 
        open(stamp,"w").write(hsh); return bc,so
    env=dict(os.environ); env.update(CARGO_NET_OFFLINE="true",RUSTUP_TOOLCHAIN=TOOLCHAIN,CARGO_TARGET_DIR=TARGET,CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS","CARGO_BUILD_RUSTFLAGS","CARGO_ENCODED_RUSTFLAGS"): env.pop(k,None)
    env["RUSTFLAGS"]="--cfg knaster_verif" # the hooks
    for f in glob.glob(os.path.join(TARGET,"release","deps","ksh.*"))+glob.glob(os.path.join(TARGET,"release","deps","libksh*")): os.remove(f)
    for d in glob.glob(os.path.join(TARGET,"release",".fingerprint","ksh*")): shutil.rmtree(d,ignore_errors=True)
    rc,out=sh(["cargo","rustc","--release","--locked","--lib","--features",features,"--","-C","save-temps","-C","no-vectorize-loops","-C","no-vectorize-slp"],cwd=H,timeout=800,env=env)
    if rc: raise CheckError("building the harness crate failed:\n"+out[out.find("error"):][:6000])
    cand=[f for f in glob.glob(os.path.join(TARGET,"release","deps","ksh.*-cgu.0.rcgu.bc")) if "no-opt" not in f]
    if len(cand)!=1: raise CheckError(f"linked bitcode not found ({cand})")
    shutil.rmtree(outdir,ignore_errors=True); os.makedirs(outdir)
    shutil.copy(cand[0],bc); shutil.copy(os.path.join(TARGET,"release","libksh.so"),so)
    open(stamp,"w").write(hsh)
    for old in glob.glob(os.path.join(B,"out",features+"_*")):
        if old!=outdir: shutil.rmtree(old,ignore_errors=True)
    return bc,so

HRE=re.compile(r'^\s*//\s*@h\s+(\w+)((?:\s+[\w]+(?:=\S+)?)*)\s*:\s*(.*)$')
def harnesses(pid):
    src=open(os.path.join(H,"src",pid.lower()+".rs")).read(); res=[]
    for line in src.splitlines():
        m=HRE.match(line)
        if not m: continue
        o={"name":m.group(1),"bounds":m.group(3).strip(),"thorough":False,"quickonly":False,"time":None,"cover":[],"known":False}
        for t in m.group(2).split():
            if "=" in t:
                k,v=t.split("=",1)
                o[k]= v.split(",") if k=="cover" else float(v) if k=="time" else v
            else: o[t]=True
        res.append(o)
    declared=set(re.findall(r'fn (h_c\d+_\w+)',src)); listed={o["name"] for o in res}
    if declared-listed: raise CheckError("harness without @h line: "+", ".join(sorted(declared-listed)))
    return res

def run_ksym(bc,o,tier,procs,tmo,outdir,verbose):
    out=os.path.join(outdir,o["name"]+".json")
    if os.path.exists(out): os.remove(out)
    cmd=[KSYM,"--bc",bc,"--fn",o["name"],"--out",out,"--procs",str(procs),"--time",str(tmo)]
    if verbose: cmd.append("-v")
    rc,txt=sh(cmd,timeout=tmo+60)
    if verbose and txt.strip(): log(txt[-2000:])
    if rc or not os.path.exists(out): return {"harness":o["name"],"fatal":f"ksym exit {rc}: {txt[-500:]}"}
    return json.load(open(out))

def write_inputs(path,inputs,head):
    with open(path,"w") as f:
        for l in head: f.write("# "+l+"\n")
        for n,w,v in inputs: f.write(f"{n.replace(' ','_') or '_'} {w} {v}\n")

def replay(so,name,path,front=False):
    rc,out=sh([REPLAY,so,name,path]+(["--front"] if front else []),timeout=90)
    return rc,out

def fn_index():
    idx={}
    for c in CRATES:
        for root,ds,fs in os.walk(os.path.join(REPO,c,"src")):
            for f in fs:
                if f.endswith(".rs"):
                    p=os.path.join(root,f); cur="?"; tab=[]
                    for l in open(p,errors="replace"):
                        m=re.match(r'\s*(?:pub(?:\([^)]*\))?\s+)?(?:unsafe\s+)?(?:const\s+)?(?:unsafe\s+)?(?:extern\s+"C"\s+)?fn\s+(\w+)',l)
                        if m: cur=m.group(1)
                        tab.append(cur)
                    idx[p]=tab
    return idx

def main():
    args=[a for a in sys.argv[1:]]; verbose="-v" in args; only=None
    if "--setup" in args:
        build_tools(); bc,so=build_harness("base"); print("setup done"); return 0
    if "--only" in args: only=args[args.index("--only")+1]
    pid=args[0]; tier=os.environ.get("VERIF_TIER","quick")
    if "--tier" in args: tier=args[args.index("--tier")+1]
    seed=int(os.environ.get("VERIF_SEED","1") or 1); t0=time.time()
    os.makedirs(B,exist_ok=True)
    with open(os.path.join(B,"lock"),"w") as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        build_tools(); bc,so=build_harness(pid.lower())
    tb=time.time()-t0
    hs=[o for o in harnesses(pid) if (tier=="thorough" or not o["thorough"]) and not (tier=="thorough" and o["quickonly"])]
    if only: hs=[o for o in hs if re.fullmatch(only,o["name"])]
    if not hs: raise CheckError("no harness for "+pid)
    outdir=os.path.join(B,"ksym_out",pid); os.makedirs(outdir,exist_ok=True)
    cex=os.path.join(V,"evidence","cex",pid); shutil.rmtree(cex,ignore_errors=True); os.makedirs(cex)
    budget=600 if tier=="quick" else 7200
    par=min(4,len(hs)); procs={1:8,2:7,3:6}.get(par,5)
    with ThreadPoolExecutor(par) as ex:
        results=list(ex.map(lambda o: run_ksym(bc,o,tier,procs,(o["time"] or (240 if tier=="quick" else 1800)),outdir,verbose),hs))
    known=json.load(open(os.path.join(V,"known_findings.json")))["findings"] if os.path.exists(os.path.join(V,"known_findings.json")) else []
    problems=[]; viols=[]; knownhits=[]; wit_ok=0; samples=[]; hsum=[]; lines=set()
    tot={k:0 for k in("paths","instructions","queries","asserts","asserts_symbolic","forks","infeasible","ended","havoc_reads")}; solver=0.0
    for o,r in zip(hs,results):
        n=o["name"]
        if "fatal" in r: problems.append(f"{n}: {r['fatal']}"); continue
        for k in tot: tot[k]+=r.get(k,0)
        solver+=r["solver_s"]; lines|=set(r["lines"])
        hsum.append({"harness":n,"bounds":o["bounds"],"paths":r["paths"],"assertions":r["asserts"],"assertions_symbolic":r["asserts_symbolic"],"queries":r["queries"],"solver_s":r["solver_s"],"wall_s":r["wall_s"],"covers":r["covers"],"witnesses_replayed":len(r["witnesses"])})
        if verbose: log(f"{n}: paths {r['paths']} asserts {r['asserts']} ({r['asserts_symbolic']} sym) queries {r['queries']} solver {r['solver_s']}s wall {r['wall_s']}s viol {len(r['violations'])} covers {r['covers']} err {r['error_messages']}")
        # violations: replay natively
        seen=0
        for i,v in enumerate(r["violations"]):
            path=os.path.join(cex,f"{n}_{i}.txt")
            write_inputs(path,v["inputs"],[f"property {pid} harness {n}",f"{v['kind']}: {v['id']}",f"at {v['loc']}",f"stack {v['stack']}",f"replay: {REPLAY} <libksh.so built from harness/ with feature {pid.lower()}> {n} {path}"])
            ok=False; txt=""
            for front in (False,True):
                rc,out=replay(so,n,path,front); txt+=out
                if rc in (10,11,12,14,15): ok=True; break
            k=next((f for f in known if f.get("property")==pid and f.get("harness")==n and f.get("kind")==v["kind"] and re.search(f["id"],v["id"]) and all(str(dict((a[0],a[2]) for a in v["inputs"]).get(kk))==str(vv) for kk,vv in f.get("inputs",{}).items())),None)
            if verbose or not ok: log(f"   {v['kind']} '{v['id']}' at {v['loc']} <- {v['stack'][:300]} inputs {v['inputs'][:24]} reproduced={ok} {out.strip().splitlines()[-3:] if out.strip() else ''}")
            if not ok: problems.append(f"{n}: counterexample for '{v['id']}' does not reproduce natively (rc {rc}): {path}"); continue
            seen+=1
            if k: knownhits.append((k,path))
            else: viols.append((n,v,path))
        for m in r["error_messages"]: problems.append(f"{n}: {m}")
        for k in("errors","limits","unknown","timeout"):
            if r[k] and not (seen and k in("limits","timeout")): problems.append(f"{n}: {k}={r[k]}")
        if not r["violations"]:
            if not r["ended"] and not r["panics_ok"]: problems.append(f"{n}: vacuous, no path reaches the end")
            for c in o["cover"]:
                if c not in r["covers"]: problems.append(f"{n}: vacuous, cover point {c} not reached")
        # witnesses: the native run of a path's model must agree with the symbolic one
        for i,w in enumerate(r["witnesses"]):
            path=os.path.join(outdir,f"{n}_w{i}.txt"); write_inputs(path,w["inputs"],[f"witness {n}"])
            rc,out=replay(so,n,path)
            got=[tuple(l.split()[1:]) for l in out.splitlines() if l.startswith("NOTE")]; want=[(str(a),str(b)) for a,b in w["notes"]]
            def same(a,b):
                if a==b: return True
                if a[0]=="32"==b[0]:
                    nan=lambda s:(int(s)&0x7fffffff)>0x7f800000
                    return nan(a[1]) and nan(b[1])
                return False
            if rc==0 and len(got)==len(want) and all(same(a,b) for a,b in zip(got,want)):
                wit_ok+=1
                if len(samples)<6 and w["inputs"]: samples.append({"harness":n,"inputs":{a:c for a,b,c in w["inputs"][:16]},"observations":[int(b) for a,b in w["notes"][:16]],"native_replay":"agrees"})
            elif rc==15 or not r["violations"]:
                problems.append(f"{n}: native run of a path witness disagrees with the symbolic run (rc {rc}): {path} want {want[:8]} got {got[:8]} {out[-200:]}")
    # source coverage
    idx=fn_index(); fns={}
    for l in lines:
        f,_,ln=l.rpartition(":")
        if f in idx and int(ln)<=len(idx[f]): fns.setdefault(os.path.relpath(f,REPO),set()).add(idx[f][int(ln)-1])
    enc={f:sorted(x for x in v if x!="?") for f,v in sorted(fns.items())}
    for o,r in zip(hs,results):
        if len(samples)<3 and "fatal" not in r and not any(s["harness"]==o["name"] for s in samples): samples.append({"harness":o["name"],"paths":r["paths"],"assertions":r["asserts"]})
    ev={"property":pid,"tier":tier,"seed":seed,"level":"model_checking","coverage":{
        "states":tot["paths"],"transitions":tot["instructions"],"traces_validated_against_impl":wit_ok,"samples":samples,
        "meaning":"states: completed symbolic paths (each stands for all inputs satisfying its path condition); transitions: LLVM instructions executed symbolically; traces: path witnesses whose native run gave the same observations",
        "assertions_checked":tot["asserts"],"assertions_needing_solver":tot["asserts_symbolic"],"queries_discharged":tot["queries"],"solver_seconds":round(solver,3),"branches_forked":tot["forks"],"infeasible_paths":tot["infeasible"],"table_reads_overapproximated":tot["havoc_reads"],
        "functions_encoded":sum(len(v) for v in enc.values()),"encoded":enc,"harnesses":hsum,"build_s":round(tb,1),"inconclusive":problems},
      "assumptions":["bounds as listed per harness; nothing outside them is claimed","the release-profile bitcode rustc emits (LTO, debug assertions and overflow checks on, panic=abort, features: alloc)","z3 and ksym's instruction semantics (cross-checked by native replay of path witnesses)","heap allocation never fails; memory operations are sequentially consistent (single thread)"],
      "wall_s":round(time.time()-t0,2),"violations":len(viols)}
    os.makedirs(os.path.join(V,"evidence"),exist_ok=True)
    json.dump(ev,open(os.path.join(V,"evidence",pid+".json"),"w"),indent=1)
    done=set()
    for k,path in knownhits:
        if k["what"] in done: continue
        done.add(k["what"]); print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viols:
        for n,v,path in viols[:8]: print(f"violated: {n}: {v['kind']}: {v['id']} at {v['loc']}")
        print(f"VIOLATION property={pid} replay={viols[0][2]}"); return 1
    if problems:
        for m in problems[:20]: print("inconclusive:",m)
        return 3
    print(f"{pid}: held on {tot['paths']} paths, {tot['asserts']} assertions, {tot['queries']} queries, solver {solver:.1f}s, {wit_ok} witnesses replayed, {time.time()-t0:.0f}s")
    return 0
if __name__=="__main__":
    try: sys.exit(main())
    except CheckError as e: print("check error:",e); sys.exit(3)
