#!/usr/bin/env python3
"""plant.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)..], DEMO (python source)
makes a scratch copy, applies the edits, checks demo on both, runs the stable tests, writes seeded/ID"""
import sys, os, subprocess, shutil, json, runpy, tempfile
spec = runpy.run_path(sys.argv[1]); notest = "--notest" in sys.argv
ID = spec["ID"]; here = "/tmp/pl/" + ID; out = "/verif/seeded/" + ID
shutil.rmtree(here, ignore_errors=True); os.makedirs("/tmp/pl", exist_ok=True)
subprocess.check_call(["git", "clone", "-q", "/repo", here])
ok = True
try:
    for f, old, new in spec["EDITS"]:
        p = here + "/BayesicFitting/source/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        # each edited region has to change lines of the original repository
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", here, "diff"], capture_output=True, text=True).stdout
    # original lines?
    import re
    for f in set(e[0] for e in spec["EDITS"]):
        bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", "BayesicFitting/source/" + f], capture_output=True, text=True).stdout.split("\n")
        new = open(here + "/BayesicFitting/source/" + f).read().split("\n")
        oldl = open("/repo/BayesicFitting/source/" + f).read().split("\n")
        import difflib
        for tag, a, b, c, d in difflib.SequenceMatcher(None, oldl, new, autojunk=False).get_opcodes():
            if tag != "equal":
                print(f, tag, a + 1, b, "orig:" , [x.startswith("^") for x in bl[a:b]])
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(spec["DEMO"])
    open(out + "/demo.sh", "w").write('''#!/bin/bash
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLCONFIGDIR=$(mktemp -d)
PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
'''); os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    r0 = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=here, capture_output=True, text=True)
    print("demo unchanged:", r0.returncode, (r0.stdout + r0.stderr)[-600:] if r0.returncode else "")
    print("demo patched  :", r1.returncode, (r1.stdout + r1.stderr)[-400:])
    ok = r0.returncode == 0 and r1.returncode != 0
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"]); ok = ok and r.returncode == 0
    if ok and not notest:
        env = dict(os.environ, PYTHONPATH="/opt/vp/plugins:%s/BayesicFitting/test" % here, MPLBACKEND="Agg", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        T = "BayesicFitting/test"
        x = here + ".xml"
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:warnings", "-p", "seedrng",
            "-o", "python_files=Test*.py", "-n", "6", "--dist", "worksteal", "--timeout=400", "--tb=line", "--continue-on-collection-errors"] +
            ["--ignore=%s/%s.py" % (T, t) for t in ("TestModifiable", "TestNestedSampler", "TestNestedSolver", "TestPhantomSampler")] + [T],
            cwd=here, env=env, capture_output=True, text=True)
        tail = r.stdout.strip().split("\n")[-6:]
        print("\n".join(tail)); ok = "410 passed" in tail[-1] or "411 passed" in tail[-1]
    print(ID, "OK" if ok else "NOT OK")
    if not ok and "--keep" not in sys.argv: shutil.rmtree(out)
finally:
    shutil.rmtree(here, ignore_errors=True)
sys.exit(not ok)
