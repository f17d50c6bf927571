"""writes MANIFEST.json from the checks that exist; python3 tools/mkmanifest.py"""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(HERE, "tools", "technique.py")).read())
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py")):
        t, note = TECH[pid]
        checks.append(dict(property=pid, quick_cmd="./run.sh %s quick" % pid, thorough_cmd="./run.sh %s thorough" % pid,
                           evidence_file="evidence/%s.json" % pid, technique=t, level="exploration", level_note=note))
have = {c["property"] for c in checks}
na = [dict(property=json.loads(l)["id"], reason="no check built yet")
      for l in open(os.path.join(HERE, "properties.jsonl")) if json.loads(l)["id"] not in have]
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, astropy' && chmod +x run.sh",
               checks=checks, not_applicable=na,
               notes="No hooks in /repo. run.sh imports BayesicFitting from /repo's working tree (pure Python: nothing to build); "
                     "VERIF_SEED sets every random choice; replay: ./run.sh ID quick --replay replays/FILE.json"),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
