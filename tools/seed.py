#!/usr/bin/env python3
"""tools/seed.py SPEC.py...: SPEC defines SEEDS = [dict(id, property, file, edits=[(old,new),...] (or files={file:[(old,new)]}), demo (C++ source, main returns 0 iff ok), needs, breaks)].
Builds each planted bug in a scratch copy, confirms demo passes before / fails after, runs the stable tests with it, writes seeded/<id>/."""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++-10 -std=gnu++17 -O1 -w{flags} -I . -I ac-library -I "$d" "$d/demo.cpp" -o "$t/demo" || exit 3
( ulimit -s 1000000 2>/dev/null; exec timeout 120 "$t/demo" )
'''
base = json.load(open("/opt/vp/BASELINE.json"))
def run_demo(d, repo): return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True)
for spec in sys.argv[1:]:
    m = importlib.util.spec_from_file_location("s", spec); s = importlib.util.module_from_spec(m); m.loader.exec_module(s)
    for b in s.SEEDS:
        files = b.get("files") or {b["file"]: b["edits"]}
        out = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/demo.cpp", "w").write(b["demo"])
        open(out + "/demo.sh", "w").write(DEMO.replace("{flags}", b.get("flags", "")))
        if b.get("acl"): shutil.copytree(V + "/acl/atcoder", out + "/atcoder")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1, ensure_ascii=False)
        t = tempfile.mkdtemp(prefix="seedwt_", dir="/tmp"); os.rmdir(t)
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t, "HEAD"])
        ok = True
        try:
            r = run_demo(out, t)
            if r.returncode != 0: print(b["id"], "DEMO FAILS ON CLEAN", r.returncode, r.stdout[-500:], r.stderr[-1500:]); ok = False
            for f, eds in files.items():
                p = t + "/library/" + f; src = open(p).read()
                for o, n in eds:
                    if src.count(o) != 1: print(b["id"], "edit count", src.count(o), repr(o)); ok = False
                    src = src.replace(o, n)
                open(p, "w").write(src)
            diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
            open(out + "/patch.diff", "w").write(diff)
            r = run_demo(out, t)
            if r.returncode == 0 or r.returncode == 3: print(b["id"], "DEMO NOT FAILING", r.returncode, r.stderr[-800:]); ok = False
            # stable tests that include the touched headers (transitively): compile and run
            subprocess.run(["python3", V + "/tools/stable.py", t], check=True) if ok else None
        except subprocess.CalledProcessError as e:
            print(b["id"], "STABLE TESTS FAIL"); ok = False
        finally:
            subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", t])
        print(b["id"], "OK" if ok else "REJECTED")
        if not ok: shutil.rmtree(out)
