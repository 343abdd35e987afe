#!/usr/bin/env python3
"""Checks that what the checks need is installed; the programs themselves are built by each check from /repo's current tree."""
import shutil,sys,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m=[t for t in ("clang++","python3") if not shutil.which(t)]
for d in ("build","evidence"): os.makedirs(os.path.join(R,d),exist_ok=True)
if m: print("missing:",m); sys.exit(1)
print("ready")
