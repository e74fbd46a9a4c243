#!/usr/bin/env python3
"""stable.py TREE: compiles and runs the stable self-checks of TREE that include a file changed there."""
import concurrent.futures as cf, json, os, subprocess, sys, tempfile, shutil
t = sys.argv[1]
ch = set(subprocess.check_output(["git", "-C", t, "diff", "--name-only"], text=True).split("\n")) - {""}
def one(src):
    fl = ["g++-10", "-std=gnu++17", "-O2", "-w", "-I", ".", "-I", "ac-library"]
    d = subprocess.run(fl + ["-MM", src], cwd=t, capture_output=True, text=True).stdout.replace("\\\n", " ").split()
    if not any(os.path.normpath(x) in ch for x in d): return src, True
    o = tempfile.mktemp()
    try:
        if subprocess.run(fl + [src, "-o", o], cwd=t).returncode: return src, False
        r = subprocess.run([o], stdin=subprocess.DEVNULL, capture_output=True, timeout=300)
        return src, r.returncode == 0 and r.stdout.split() == [b"Hello", b"World"]
    finally:
        if os.path.exists(o): os.remove(o)
bad = 0
with cf.ThreadPoolExecutor(8) as p:
    for s, ok in p.map(one, json.load(open("/opt/vp/BASELINE.json"))["stable"]):
        if not ok: print("FAIL", s); bad = 1
sys.exit(bad)
