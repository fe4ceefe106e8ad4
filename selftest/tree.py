"""python3 selftest/tree.py mut|ref NAME DEST: scratch copy of /repo with one case applied (for debugging)"""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from run import load, apply

kind, name, dest = sys.argv[1:4]
shutil.rmtree(os.path.join(dest, "hadar"), ignore_errors=True)
shutil.copytree("/repo/hadar", os.path.join(dest, "hadar"))
for c in load(kind):
    if c[1] == name:
        print(apply(dest, c[2]) or "applied")
