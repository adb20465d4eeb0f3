#!/usr/bin/env python3
"""addprop.py < file: first part (until a line '====') is appended to PROPS in props.py, the second to TEXT in proptext.py"""
import sys
a, b = sys.stdin.read().split("\n====\n")
s = open("/verif/props.py").read().rstrip()
assert s.endswith("}")
open("/verif/props.py", "w").write(s[:-1] + a.rstrip() + "\n}\n")
t = open("/verif/proptext.py").read()
i = t.index("]\nNA = ")
open("/verif/proptext.py", "w").write(t[:i] + b.rstrip() + "\n" + t[i:])
