"""Check that the tools are there and that the specification typechecks."""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
files = sorted(f for f in os.listdir(os.path.join(V, "spec")) if f.endswith(".qnt"))
def one(f):
    p = subprocess.run(["quint", "typecheck", f], cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return f, p.returncode, p.stdout
bad = 0
with ThreadPoolExecutor(8) as ex:
    for f, rc, out in ex.map(one, files):
        if rc:
            bad = 1
            print(f, out)
print("%d modules of the specification typecheck" % len(files) if not bad else "FAILED")
sys.exit(bad)
