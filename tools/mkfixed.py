"""regenerates the 'fixed' list of known_findings.json from the fix: commits in /repo; old entries are kept.
   usage: mkfixed.py  [PROP 'part of the subject'] ..."""
import json, subprocess, sys
f = "/verif/known_findings.json"
k = json.load(open(f))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
have = " ".join(k["fixed"])
pairs = list(zip(sys.argv[1::2], sys.argv[2::2]))
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:") or " %s " % h in have:
        continue
    p = [a for a, b in pairs if b in s]
    if not p:
        print("no property for", l)
        continue
    k["fixed"].append("fixed: property=%s %s failed before: %s" % (p[0], h, s[4:].strip()))
json.dump(k, open(f, "w"), indent=1)
