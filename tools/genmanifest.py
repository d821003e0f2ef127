#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the properties the analyzer implements
# (bin/wsvet -list) and the reasons below.
import json,subprocess,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed=[json.loads(l) for l in subprocess.check_output([root+"/bin/wsvet","-list"],text=True).splitlines()]
NA={
"C33":"Freedom from data races in general depends on who runs when: on the order in which goroutines are started and channels hand values over, on the promise of the application to read from one goroutine, and on a right to send (a channel used as a lock) that a caller keeps from NextWriter to Close, across calls. A lockset analysis does not know that order and raises alarms on code that is right; a sound and quiet happens-before argument over the source is out of reach here. What is decidable is decided elsewhere: registries and pending batches only under their lock (C22), the transport and the write buffer only with the right to send (C01, C31), fields that are shared by design set before the connection is published (C21, C23).",
"C36":"How many tokens golang.org/x/time/rate grants over a window is arithmetic on clock readings inside a dependency; no static argument over this repository's source bounds it. That each message costs exactly one token of the right bucket, built from the configured numbers, is C30.",
"C37":"Quantifies over elapsed time and the behaviour of the network. The static parts (deadlines set before every wait, the ping loop's life) are C05, C11 and C19.",
"C38":"A round trip through this library and an independent client: equality of byte sequences of unbounded length across two programs. Its local ingredients are decided as C04, C12, C13, C15.",
}
ids=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
have={c["id"] for c in claimed}
m={"version":1,"setup_cmd":"./check.sh -build","checks":[],"not_applicable":[],
"notes":"Every check is a static analysis of /repo's current source by analyzer/ (Go, SSA based). See DESIGN.md."}
for c in sorted(claimed,key=lambda c:c["id"]):
    m["checks"].append({"property":c["id"],"quick_cmd":"./check.sh %s quick"%c["id"],"thorough_cmd":"./check.sh %s thorough"%c["id"],
      "evidence_file":"evidence/%s.json"%c["id"],"technique":c["technique"],"level":"other",
      "level_note":"Static: "+c["rule"]+" Not decided: "+c["limits"]+" Trusts the models of the standard library in analyzer/models.go, go/types and go/ssa."})
for i in ids:
    if i not in have:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"No sound static rule has been built for it yet.")})
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
print(len(m["checks"]),"claimed",[x["property"] for x in m["not_applicable"]])
