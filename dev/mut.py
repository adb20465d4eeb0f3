#!/usr/bin/env python3
"""mut.py ANALYSIS[:args,..] [ANALYSIS..] < blocks: run analyses on a scratch copy of /repo with the blocks applied
(@@@@ file.c / OLD / ===== / NEW; several blocks allowed). Prints what they report."""
import os, sys, shutil, subprocess, tempfile, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
tmp = tempfile.mkdtemp(prefix="mut-")
repo = tmp + "/repo"
subprocess.run(["cp", "-a", "/repo", repo], check=True)
shutil.rmtree(repo + "/_build", ignore_errors=True)
for blk in sys.stdin.read().split("@@@@ ")[1:]:
    name, rest = blk.split("\n", 1)
    old, new = rest.split("\n=====\n")
    new = new.rstrip("\n"); old = old.rstrip("\n")
    f = subprocess.run(["find", repo + "/arm-wt-22k", "-name", name.strip()], stdout=subprocess.PIPE, text=True).stdout.split(); f = sorted(f, key=lambda x: "arm-wt-22k/lib_src" not in x)[0]
    s = open(f, errors="surrogateescape").read()
    if s.count(old) != 1: sys.exit("block matches %d times in %s:\n%s" % (s.count(old), name, old))
    open(f, "w", errors="surrogateescape").write(s.replace(old, new))
os.environ["SV_REPO"] = repo
import svlib
svlib.REPO = repo
bcs = svlib.bitcode("built", tmp)
open(tmp + "/roots", "w").write("\n".join(svlib.api_names()))
for a in sys.argv[1:]:
    nm, _, ar = a.partition(":")
    cmd = [svlib.TOOL, nm, "-roots", tmp + "/roots", "-config", "built"]
    for x in ar.split(",") if ar else []: cmd += ["-x", x]
    d = json.loads(subprocess.run(cmd + bcs, stdout=subprocess.PIPE, text=True).stdout)
    print("==", a, "BROKEN" if d["broken"] else "", len(d["violations"]), "violations", d["stats"])
    for v in d["violations"]: print("   ", v["key"], "|", v["loc"], "|", v["msg"])
if not os.environ.get("KEEP"): shutil.rmtree(tmp)
else: print(tmp)
