"""seedtree.py ID DEST: scratch copy of /repo's HEAD with one planted change (from tools/seeds) applied"""
import sys, os, subprocess
sys.argv, argv = [sys.argv[0], "none"], sys.argv
import importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
dest = argv[2]
subprocess.run("rm -rf %s/hadar; mkdir -p %s; git -C /repo archive HEAD hadar | tar -x -C %s" % (dest, dest, dest), shell=True, check=True)
for f in sorted(os.listdir(os.path.join(HERE, "seeds"))):
    if f.endswith(".py"):
        sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(HERE, "seeds", f))
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for s in m.SEEDS:
            if s["id"] == argv[1]:
                for path, old, new in s["edits"]:
                    p = os.path.join(dest, path); t = open(p).read(); assert old in t
                    open(p, "w").write(t.replace(old, new, 1))
                print(s["id"], s["property"])
