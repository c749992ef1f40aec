#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties the checker implements."""
import json, os, subprocess, sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
impl=set(subprocess.run([here+"/mc/target/release/mc","list"],capture_output=True,text=True,check=True).stdout.split())
HIST="explicit-state exploration of all operation histories on the real code vs a reference model"
INP="exhaustive enumeration of a bounded input space on the real code vs an independent oracle"
T={
"C01":HIST,"C02":HIST,"C03":HIST,"C04":HIST+", all canonical patterns at every state","C05":HIST+", all multi-patterns at every state",
"C06":HIST+", all patterns and stopping points","C07":HIST+", conversion at every state, continued afterwards","C08":HIST+", all pairs of states",
"C09":"explicit enumeration of all pairs of small datasets vs all blank-node permutations","C10":"explicit enumeration of all pairs of small datasets vs all blank-node permutations",
"C11":INP+" (all Unicode scalars, all short strings over the grammar's character classes)","C12":INP+" (independent N-Quads reader)",
"C13":INP+" (all patterns x all triples/quads)","C14":INP+" (all patterns x components x resources)","C15":HIST+" (insertions and unions, all lookups)",
"C16":INP+" (all pairs/triples of terms in all forms)","C17":HIST+" (generator call sequences from every offset class)","C18":HIST+" (lookup/insert/fresh sequences)",
"C19":INP+" (all values, all short malformed identifiers)","C20":HIST+", every generic interface at every state","C21":INP+" (all triples and quads)",
"C22":"exhaustive enumeration of generated macro programs, compiled and compared with their expansion oracle",
"C23":HIST+" on resource values with identities, every drop point and every panic point"}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in impl:
        checks.append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough","technique":"model checking: "+T[i],"level":"model_checking",
          "level_note":"Every case of the stated bounded space is executed on the code of /repo and compared with an independent reference; bounds, states and transitions are in the evidence file. Nothing is claimed beyond the bounds."})
    else: na.append({"property":i,"reason":"check not built yet"})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na},open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(na))
