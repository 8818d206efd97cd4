import json,sys
sys.path.insert(0,'/verif/tools')
from jobs import JOBS
checks=[]
for p in sorted(JOBS):
    checks.append({"property":p,"quick_cmd":"python3 check.py %s"%p,"thorough_cmd":"python3 check.py %s thorough"%p,
     "evidence_file":"evidence/%s.json"%p,
     "technique":"TLA+ specification checked with TLC; histories recorded from the real library and behaviours generated by the models are judged call by call against it",
     "level":"model_checking",
     "level_note":"Every recorded call of the explored histories conforms to the TLA+ specification (spec/System.tla), small-scope models are explored exhaustively and replayed; bounded by the generators and scopes listed in DESIGN.md. Trusts TLC, the Go toolchain and the driver's recording."})
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
na=[{"property":i,"reason":"no check yet"} for i in ids if i not in JOBS]
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: the driver uses the public API only. check.py builds it from /repo on every run. TLA+ (TLC) chosen, see DESIGN.md."},open('/verif/MANIFEST.json','w'),indent=1)
