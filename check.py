#!/usr/bin/env python3
"""Runs the runtime-monitoring check of one property: builds its monitored programs from /repo's current tree,
drives their workloads, and turns what the monitors saw into a verdict and /verif/evidence/<id>.json."""
import sys, os, json, hashlib, subprocess, time, shutil, tempfile, concurrent.futures as cf
ROOT=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get("VP_REPO","/repo")
sys.path.insert(0,ROOT)
from props import PROPS, SCALE
H=os.path.join(ROOT,"harness"); BUILD=os.path.join(ROOT,"build"); EVI=os.path.join(ROOT,"evidence")
COMMON=["-std=c++20","-w","-ftemplate-depth=100000","-gline-tables-only","-D_GLIBCXX_ASSERTIONS","-I"+os.path.join(REPO,"include"),"-I"+H,"-pthread","-ferror-limit=3"]
LANES={
 "asan":["-O0","-fsanitize=address,undefined","-fno-sanitize-recover=all","-fno-sanitize=vptr","-DNOPARALLEL","-D_GLIBCXX_SANITIZE_VECTOR","-DCERAS_MONITOR"],
 "asan-par":["-O0","-fsanitize=address,undefined","-fno-sanitize-recover=all","-fno-sanitize=vptr","-D_GLIBCXX_SANITIZE_VECTOR","-DCERAS_MONITOR"],
 "asan-cblas":["-O0","-fsanitize=address,undefined","-fno-sanitize-recover=all","-fno-sanitize=vptr","-DNOPARALLEL","-DCERAS_MONITOR","-DCBLAS"],
 "ubsan-par":["-O1","-fsanitize=undefined","-fno-sanitize-recover=all","-fno-sanitize=vptr"],
 "plain":["-O2","-DNOPARALLEL"],
 "plain-par":["-O2"],
 "tsan":["-O1","-fsanitize=thread","-DVP_TSAN"],
}
ENV={"ASAN_OPTIONS":"abort_on_error=1:handle_abort=0:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=4000",
 "UBSAN_OPTIONS":"print_stacktrace=1:halt_on_error=1:abort_on_error=1",
 "TSAN_OPTIONS":"halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:history_size=4:die_after_fork=0",
 "LC_ALL":"C"}

def tree_hash(paths):
    h=hashlib.sha256()
    for p in paths:
        for d,ds,fs in sorted(os.walk(p)):
            ds.sort()
            for f in sorted(fs):
                q=os.path.join(d,f); h.update(q.encode()); h.update(open(q,"rb").read())
    return h.hexdigest()

def build(prog, inc):
    src=os.path.join(H,prog["src"]); flags=COMMON+LANES[prog["lane"]]+prog.get("flags",[])
    own=b"".join(open(os.path.join(H,f),"rb").read() for f in sorted(os.listdir(H)) if f.endswith(".hpp"))+open(src,"rb").read()
    key=hashlib.sha256((inc+repr(flags)).encode()+own).hexdigest()[:24]
    d=os.path.join(BUILD,key); exe=os.path.join(d,"prog")
    if os.path.exists(exe): return exe,None,0.0
    os.makedirs(d,exist_ok=True); t=time.time()
    tmp=exe+".%d"%os.getpid()
    r=subprocess.run(["clang++"]+flags+[src,"-o",tmp]+prog.get("libs",[]),capture_output=True,text=True,cwd=d)
    if r.returncode: return None,"\n".join(l[:300] for l in r.stderr.splitlines()[:12]),time.time()-t
    os.rename(tmp,exe); return exe,None,time.time()-t

def run_one(exe, prog, args, out, tmp, timeout, lane):
    env=dict(os.environ); env.update(ENV); env["VP_TMP"]=tmp
    if "--case" not in args: # symbolizing takes seconds per report: only when one case is replayed
        for k in ("ASAN_OPTIONS","UBSAN_OPTIONS","TSAN_OPTIONS"): env[k]+=":symbolize=0"
    for k in ("VP_ASAN",):
        if prog.get("asan"): env["ASAN_OPTIONS"]+=":"+prog["asan"]
    cmd=[exe]+args+["--out",out]
    if lane=="tsan": cmd=["setarch","-R"]+cmd if shutil.which("setarch") and prog.get("noaslr") else cmd
    p=subprocess.Popen(cmd,env=env,cwd=tmp,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,stdin=subprocess.DEVNULL,start_new_session=True)
    try:
        _,err=p.communicate(timeout=timeout)
        return p.returncode,err.decode(errors="replace")[:500],False
    except subprocess.TimeoutExpired:
        import signal
        try: os.killpg(p.pid,signal.SIGKILL)
        except Exception: pass
        p.wait(); return -1,"",True

def known():
    p=os.path.join(ROOT,"known_findings.jsonl"); out=[]
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l and not l.startswith("#") and l.startswith("{"): out.append(json.loads(l))
    return out

def main():
    a=sys.argv[1:]; pid=a[0]; tier=os.environ.get("VERIF_TIER","quick"); seed=int(os.environ.get("VERIF_SEED","1") or 1); only=None; case=None; scale=None
    i=1
    while i<len(a):
        if a[i]=="--tier": tier=a[i+1]; i+=1
        elif a[i]=="--seed": seed=int(a[i+1]); i+=1
        elif a[i]=="--scenario": only=a[i+1]; i+=1
        elif a[i]=="--case": case=a[i+1]; i+=1
        elif a[i]=="--scale": scale=a[i+1]; i+=1
        elif a[i]=="--replay":
            r=json.load(open(a[i+1])); only=r["scenario"]; case=str(r["case"]); seed=r["seed"]; tier=r["tier"]; i+=1
        i+=1
    t0=time.time(); spec=PROPS[pid]; os.makedirs(EVI,exist_ok=True); os.makedirs(os.path.join(EVI,"replays"),exist_ok=True)
    progs=[p for p in spec["programs"] if tier=="thorough" or not p.get("thorough_only")]
    inc=tree_hash([os.path.join(REPO,"include")])
    base=tempfile.mkdtemp(prefix="vp_%s_"%pid); rc=0
    # drop stale builds of other trees so that disk use stays bounded
    try:
        ds=sorted((os.path.join(BUILD,x) for x in os.listdir(BUILD)),key=os.path.getmtime) if os.path.isdir(BUILD) else []
        for x in ds[:-400]: shutil.rmtree(x,ignore_errors=True)
    except OSError: pass
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as ex: exes=list(ex.map(lambda p:build(p,inc),progs))
        bad=[(p,e) for p,(x,e,_) in zip(progs,exes) if x is None]
        if bad:
            for p,e in bad: print("BUILD FAILED %s (%s):\n%s"%(p["src"],p["lane"],e))
            print("check %s could not be built: no verdict"%pid); return 2
        tb=time.time()-t0
        jobs=[]
        for pi,(p,(exe,_,_)) in enumerate(zip(progs,exes)):
            n=1 if case is not None else p.get("shards",max(1,min(8,-(-8//len(progs)))))
            if tier=="thorough" and case is None: n=max(n,p.get("shards",8))
            for s in range(n):
                tmp=os.path.join(base,"%d_%d"%(pi,s)); os.makedirs(tmp); os.chmod(tmp,0o777)
                args=["--seed",str(seed),"--tier",tier,"--shard","%d/%d"%(s,n)]
                if only: args+=["--only",only]
                if case is not None: args+=["--case",case]
                args+=["--scale",scale or str(SCALE.get(pid,1))]
                jobs.append((p,exe,args,os.path.join(tmp,"out.json"),tmp))
        tmo=700 if tier=="quick" else 40000
        with cf.ThreadPoolExecutor(max_workers=8) as ex: res=list(ex.map(lambda j:run_one(j[1],j[0],j[2],j[3],j[4],tmo,j[0]["lane"]),jobs))
        ev=ch=nt=planned=0; inputs=set(); configs=set(); counters={}; samples=[]; viol=[]; inconclusive=[]
        lanes={}
        for j,(code,err,to) in zip(jobs,res):
            p=j[0]
            if to: inconclusive.append("%s %s: wall-clock limit"%(p["src"],p["lane"])); continue
            try: o=json.load(open(j[3]))
            except Exception:
                inconclusive.append("%s %s: no result (exit %s) %s"%(p["src"],p["lane"],code,err)); continue
            ev+=o["evaluations"]; ch+=o["checks"]; nt+=o["nontrivial"]; planned+=o["planned"]
            tag=p["src"]+"/"+p["lane"]; lanes[tag]=lanes.get(tag,0)+o["evaluations"]
            inputs.update((tag,x) for x in o["inputs"]); configs.update((tag,x) for x in o["configs"])
            for k,v in o["counters"].items(): counters[k]=counters.get(k,0)+v
            samples+=[(p["lane"],s) for s in o["samples"]]
            for v in o["violations"]: v["lane"]=p["lane"]; v["src"]=p["src"]; viol.append(v)
        # verdicts
        kn=[k for k in known() if k.get("property")==pid and k.get("status","known")=="known"]
        new=[]; hit={}
        for v in viol:
            m=None
            for k in kn:
                if k["scenario"]==v["scenario"] and v["kind"].startswith(k["kind"]) and all(s in v["detail"] for s in k.get("contains",[])): m=k; break
            if m: hit.setdefault(m["id"],[m,0]); hit[m["id"]][1]+=1
            else: new.append(v)
        for k in kn:
            n=hit.get(k["id"],[0,0])[1]
            print("KNOWN-FINDING: property=%s %s (%s; seen %d times in this run)"%(pid,k["what"],k["id"],n))
        seen=set(); nv=0
        for v in new:
            key=(v["scenario"],v["kind"])
            if key in seen: continue
            seen.add(key); nv+=1
            rp=os.path.join(EVI,"replays","%s_%s_%s.json"%(pid,v["scenario"].replace("/","_"),v["case"]))
            json.dump(dict(property=pid,seed=seed,tier=tier,scenario=v["scenario"],case=v["case"],kind=v["kind"],detail=v["detail"],lane=v["lane"],program=v["src"],replay_cmd="python3 %s/check.py %s --replay %s"%(ROOT,pid,rp)),open(rp,"w"),indent=1)
            print("VIOLATION property=%s replay=%s"%(pid,rp)); print("   %s#%s [%s] %s: %s"%(v["scenario"],v["case"],v["lane"],v["kind"],v["detail"][:600]))
        by={}
        pick=[]
        for l,s in samples:
            k=s.split("#")[0]
            if k not in by: by[k]=1; pick.append("[%s] %s"%(l,s))
        evd=dict(property=pid,tier=tier,seed=seed,level="exploration",
          coverage=dict(evaluations=ev,distinct_nontrivial=len(inputs),distinct_configurations=len(configs),oracle_comparisons=ch,
            rule=spec["rule"]+" A case is non-trivial when at least one oracle comparison or monitor decision was made on it; distinct = different drawn inputs (hash of all draws), distinct_configurations = different described configuration.",
            samples=pick[:60],events=counters,evaluations_per_program=lanes,planned=planned,inconclusive=inconclusive,
            known_findings_seen={k:v[1] for k,v in hit.items()}),
          assumptions=spec.get("assumptions",[])+["The executions are those of clang 18 builds at the lane's flags; held means held on these executions."],
          wall_s=round(time.time()-t0,2),violations=nv)
        json.dump(evd,open(os.path.join(EVI,pid+".json"),"w"),indent=1)
        print("%s %s: %d executions, %d distinct, %d configurations, %d oracle comparisons, %d violations, build %.1fs, total %.1fs"%(pid,tier,ev,len(inputs),len(configs),ch,nv,tb,time.time()-t0))
        for s in inconclusive: print("INCONCLUSIVE",s)
        if nv: return 1
        if inconclusive or (case is None and (nt==0 or ch==0)): print("no verdict: inconclusive"); return 2
        return 0
    finally:
        shutil.rmtree(base,ignore_errors=True)
sys.exit(main())
