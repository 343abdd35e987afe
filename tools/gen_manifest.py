#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json,os,sys,subprocess
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,R)
from props import PROPS
TECH={"ubsan-par":"UBSan execution, threaded","asan":"ASan/UBSan-instrumented execution","asan-par":"ASan/UBSan execution, threaded","asan-cblas":"ASan/UBSan execution, BLAS path","plain":"optimised execution","plain-par":"threaded optimised execution","tsan":"ThreadSanitizer execution"}
ids=[json.loads(l)["id"] for l in open(os.path.join(R,"properties.jsonl"))]
hooks=[l.split()[0] for l in subprocess.check_output(["git","-C","/repo","log","--format=%H %s"],text=True).splitlines() if l.split(" ",1)[1].startswith("hook:")]
checks=[];na=[]
for i in ids:
    if i in PROPS:
        p=PROPS[i]; lanes=[]
        for q in p["programs"]:
            t=TECH[q["lane"]]+(" (thorough)" if q.get("thorough_only") else "")
            if t not in lanes: lanes.append(t)
        checks.append(dict(property=i,quick_cmd="python3 check.py "+i,thorough_cmd="python3 check.py "+i+" --tier thorough",evidence_file="evidence/%s.json"%i,
            technique="runtime monitoring: "+p.get("tech","randomised workloads with a reference-model oracle")+"; "+", ".join(lanes),level="exploration",
            level_note=p.get("note","Held on the executions made (counts in the evidence file): every case is decided by an independent reference in double precision, with sanitizers aborting on memory errors and undefined behaviour. Nothing is claimed for inputs that were not drawn; trusts clang 18, its sanitizer run-times, libm and the reference code in harness/.")))
    else: na.append(dict(property=i,reason="not built yet"))
m=dict(version=1,setup_cmd="python3 tools/setup.py",hooks=dict(guard="CERAS_MONITOR",enable="-DCERAS_MONITOR on the compiler command line (lanes asan, asan-par, asan-cblas in check.py)",source_commits=hooks),checks=checks,not_applicable=na,
  notes="check.py builds each monitored program from /repo's current tree (cached by a hash of the tree in build/), runs it in forked workers and writes the evidence file.")
json.dump(m,open(os.path.join(R,"MANIFEST.json"),"w"),indent=1); print(len(checks),"checks",len(na),"not claimed")
