#!/usr/bin/env python3
# Source of MANIFEST.json: run `python3 tools/mkmanifest.py > MANIFEST.json`.
import json
ids=[json.loads(l)["id"] for l in open("properties.jsonl")]
model="model-based property testing: generated operation histories against the real application, diffed step by step with a reference model; failures are shrunk to a replay"
tech={
 "D01":model+"; escrow invariants and an everybody-leaves probe",
 "B05":model+"; selection-frequency probe",
 "B07":model+"; differential check of the can-* queries",
 "X04":model+"; nobody-else-loses invariant",
}
note="Exploration: shows the property on the generated histories of the run, not on all. Trusted: the Cosmos SDK fork, the reference model in harness/model.go and the snapshot reader in harness/snap.go."
pending={}
for l in open("tools/pending.txt"):
    if l.strip():
        k,v=l.rstrip("\n").split(" ",1); pending[k]=v
special=json.load(open("tools/special.json"))
checks=[]
for i in ids:
    if i in pending: continue
    t,n=special.get(i,(tech.get(i,model),note))
    checks.append(dict(property=i,quick_cmd="./check.sh %s quick"%i,thorough_cmd="./check.sh %s thorough"%i,technique=t,level="exploration",level_note=n))
print(json.dumps(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in pending.items()],
 notes="No hooks in /repo: the harness is compiled into a package of /repo's module through a build overlay (build.sh)."),indent=1))
