#!/usr/bin/env python3
"""matrix.py [SEED-substring]: apply every planted bug to a scratch copy of /repo and run all checks on it; prints which checks catch it."""
import os, sys, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import props
sel = sys.argv[1] if len(sys.argv) > 1 else ""
def tree(s):
    tmp = tempfile.mkdtemp(prefix="matrix-"); repo = tmp + "/repo"; os.makedirs(repo)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/seeded/%s/patch.diff && rm -rf .git" % (repo, repo, os.path.abspath(V), s), shell=True, check=True)
    return tmp
def run(j):
    s, t, c = j
    r = subprocess.run([sys.executable, V + "/check.py", c], env=dict(os.environ, SV_REPO=t + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return s, c, r.returncode
ts = [(s, tree(s)) for s in sorted(os.listdir(V + "/seeded")) if sel in s]
res = {}
with ThreadPoolExecutor(8) as ex:
    for s, c, rc in ex.map(run, [(s, t, c) for s, t in ts for c in sorted(props.PROPS)]):
        if rc: res.setdefault(s, []).append(c + ("" if rc == 1 else "(rc %d)" % rc))
for s, t in ts:
    print("| %s | %s |" % (s, " ".join(res.get(s, ["none"])))); shutil.rmtree(t)
