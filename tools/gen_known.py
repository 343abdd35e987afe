#!/usr/bin/env python3
"""Writes known_findings.jsonl: recorded (not repaired) findings, and the log of repairs (which suppress nothing). Edited by hand, never run by a check."""
import json,os,subprocess
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K=[]
def known(prop,id,scenario,kind,contains,what): K.append(dict(property=prop,id=id,scenario=scenario,kind=kind,contains=contains,what=what,status="known"))
for l in ["mean_squared_error","mse","mean_absolute_error","mae","mean_squared_logarithmic_error","binary_cross_entropy_loss","hinge_loss"]:
    known("A08","A08-batch-scale-"+l,"A08/gradient-of-reported-value","gradient-scaled-by-batch-convention",["] :: "+l+": gradient is"],"%s on a [batch,features] input: the gradient is that of sum/batch while the reported value is sum/(batch*features)"%l)
for l in ["cross_entropy_loss","cross_entropy_loss smoothed"]:
    known("A08","A08-batch-scale-"+l.replace(" ","-"),"A08/gradient-of-reported-value","gradient-scaled-by-batch-convention",["] :: "+l+": gradient is"],"%s: the gradient is that of the sum over the batch while the reported value is divided by the batch size"%l)
exec(open(os.path.join(R,"tools","known_extra.py")).read()) if os.path.exists(os.path.join(R,"tools","known_extra.py")) else None
with open(os.path.join(R,"known_findings.jsonl"),"w") as f:
    for k in K: f.write(json.dumps(k)+"\n")
    log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
    for l in log:
        h,s=l.split(" ",1)
        if s.startswith("fix:"):
            props=FIX.get(h) if 'FIX' in globals() else None
            f.write("fixed: property=%s %s %s\n"%(props or "?",h,s[4:].strip()))
