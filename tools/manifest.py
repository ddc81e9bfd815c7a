#!/usr/bin/env python3
"""Writes MANIFEST.json from cones.py."""
import json,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from cones import NOTES, CONE, NA
m={"version":1,
 "setup_cmd":"bash setup.sh",
 "checks":[{"property":p,"quick_cmd":f"python3 check.py {p} quick","thorough_cmd":f"python3 check.py {p} thorough",
   "technique":NOTES[p].get("technique","contract-based deductive verification (Verus) of the functions extracted from /repo on every run; bounded search for a failing input"),
   "level":NOTES[p]["level"],"level_note":NOTES[p]["note"]} for p in sorted(CONE)],
 "not_applicable":[{"property":p,"reason":r} for p,r in sorted(NA.items())],
 "notes":"No hooks in /repo are needed: the checks read the macro-expanded source (cargo +nightly rustc -Zunpretty=expanded) and link the crate as a path dependency."}
json.dump(m,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","MANIFEST.json"),"w"),indent=1)
