#!/usr/bin/env python3
"""refac.py [CASE-substring] [CHECK...]: apply each behaviour-preserving edit of dev/refactors.txt to a scratch copy of
/repo and run the checks on it; prints every check that is not quiet."""
import os, sys, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import props
sel = sys.argv[1] if len(sys.argv) > 1 else ""
checks = sys.argv[2:] or sorted(props.PROPS)
cases = []
for c in open(os.path.join(V, "dev/refactors.txt")).read().split("#### ")[1:]:
    name, body = c.split("\n", 1)
    if sel in name: cases.append((name.strip(), body))

def tree(body):
    tmp = tempfile.mkdtemp(prefix="refac-")
    repo = tmp + "/repo"
    os.makedirs(repo)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + repo, shell=True, check=True)
    for blk in body.split("@@@@ ")[1:]:
        name, rest = blk.split("\n", 1)
        old, new = rest.split("\n=====\n")
        new = new.rstrip("\n"); old = old.rstrip("\n")
        f = subprocess.run(["find", repo + "/arm-wt-22k", "-name", name.strip()], stdout=subprocess.PIPE, text=True).stdout.split(); f = sorted(f, key=lambda x: "arm-wt-22k/lib_src" not in x)[0]
        s = open(f, errors="surrogateescape").read()
        if s.count(old) != 1: sys.exit("block matches %d times in %s:\n%s" % (s.count(old), name, old))
        open(f, "w", errors="surrogateescape").write(s.replace(old, new))
    return tmp

def run(job):
    name, repo, c = job
    r = subprocess.run([sys.executable, V + "/check.py", c], env=dict(os.environ, SV_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return name, c, r.returncode, r.stdout
trees = [(n, tree(b)) for n, b in cases]
jobs = [(n, t + "/repo", c) for n, t in trees for c in checks]
bad = 0
with ThreadPoolExecutor(8) as ex:
    for name, c, rc, out in ex.map(run, jobs):
        if rc:
            bad += 1
            print("%s: %s rc=%d\n    %s" % (name, c, rc, "\n    ".join(l[:240] for l in out.strip().split("\n")[:int(os.environ.get("N", "6"))])), flush=True)
print("%d cases, %d runs, %d not quiet" % (len(trees), len(jobs), bad))
for n, t in trees: shutil.rmtree(t)
