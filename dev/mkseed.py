#!/usr/bin/env python3
"""mkseed.py ID PROP FILE  (reads OLD/NEW blocks separated by lines '=====' from stdin: old, new[, old, new, FILE via '@file'])
writes patch.diff + copies demo helpers; demo.c must exist or be written separately"""
import sys, os, subprocess, json, shutil
sid, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
blocks = sys.stdin.read().split("\n@@@@ ")
S = "/tmp/mkseed"
shutil.rmtree(S, ignore_errors=True)
os.makedirs(S)
subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a commit -qm b" % (S, S), shell=True)
for b in blocks:
    b = b.removeprefix("@@@@ ")
    if not b.strip():
        continue
    f, _, rest = b.partition("\n")
    old, new = rest.split("\n=====\n")
    new = new.rstrip("\n"); old = old.rstrip("\n")
    p = os.path.join(S, "arm-wt-22k/lib_src", f.strip())
    if not os.path.exists(p):
        p = os.path.join(S, "arm-wt-22k/host_src", f.strip())
    s = open(p, newline="").read()
    crlf = "\r\n" in s
    if crlf:
        s = s.replace("\r\n", "\n")
    assert s.count(old) == 1, (f, s.count(old))
    s = s.replace(old, new)
    if crlf:
        s = s.replace("\n", "\r\n")
    open(p, "w", newline="").write(s)
o = subprocess.check_output("git -C %s diff" % S, shell=True)
open(d + "/patch.diff", "wb").write(o)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
for f in ("demo.sh", "demo_common.h", "demo_dls.h"):
    shutil.copy("/verif/dev/" + f, d)
print(o.decode(errors="replace"))
shutil.rmtree(S)
