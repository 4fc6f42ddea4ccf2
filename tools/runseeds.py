"""Runs the checks against the planted bugs: runseeds.py [ID...]; prints which check catches which."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(HERE + "/seeded"))
shutil.rmtree("/tmp/rs", ignore_errors=True)
subprocess.run("cp -a /repo /tmp/rs && rm -rf /tmp/rs/target", shell=True, check=True)
for i in ids:
    m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
    subprocess.run("git checkout -q -- . && git apply " + f"{HERE}/seeded/{i}/patch.diff", shell=True, check=True, cwd="/tmp/rs")
    r = subprocess.run(["python3", HERE + "/check.py", m["property"], "quick"], env=dict(os.environ, SGC_REPO="/tmp/rs"), stdout=subprocess.PIPE, text=True)
    v = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")]
    print(f"{i} {m['property']} {'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'ERROR'} | {(v or r.stdout.splitlines()[-1:])[0][:230]}", flush=True)
shutil.rmtree("/tmp/rs", ignore_errors=True)
