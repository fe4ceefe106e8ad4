#!/usr/bin/env python3
"""mtree.py FILE NAME DEST: scratch tree DEST with case NAME of selftest/FILE applied"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "selftest"))
import run
f, name, dest = sys.argv[1:4]
cases = [c for c in __import__(f).CASES if name in c[1]]
os.makedirs(dest, exist_ok=True)
subprocess.run("rm -rf %s/hadar; git -C /repo archive HEAD hadar | tar -x -C %s" % (dest, dest), shell=True, check=True)
print(cases[0][:2], run.apply(dest, cases[0][2]))
