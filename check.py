#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | check.py --replay FILE

Builds every harness under harness/<property>/ against /repo's current working
tree, drives its generated-input tests, writes evidence/<property>.json and
prints VIOLATION lines.  Exit 0: held on everything explored.  Exit 1: broken.
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
OUTD = os.environ.get("VERIF_OUT", HERE)
CXX = "g++-10"
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
BASE = ["-std=gnu++17", "-w", "-g1", "-I", os.path.join(HERE, "engine"), "-I", REPO,
        "-I", os.path.join(REPO, "ac-library"), "-I", os.path.join(HERE, "acl"), "-I", os.path.join(HERE, "harness")]
SAN = ["-O1", "-fsanitize=address", "-fsanitize=bounds,return,unreachable,integer-divide-by-zero",
       "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
OPT = ["-O2"]
LDS = ["-static-libasan", "-static-libubsan"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:quarantine_size_mb=8:hard_rss_limit_mb=3500:max_allocation_size_mb=3000:malloc_context_size=3:detect_stack_use_after_return=0:fast_unwind_on_malloc=1:symbolize=0:alloc_dealloc_mismatch=0",
           UBSAN_OPTIONS="print_stacktrace=0:symbolize=0")


def limits():
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 1 << 30
        if hard != resource.RLIM_INFINITY:
            want = min(want, hard)
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


def flags_of(src):
    """Extra flags named in a harness's first lines: '// FLAGS: ...'"""
    with open(src) as f:
        head = f.read(2000)
    m = re.search(r"^// FLAGS:(.*)$", head, re.M)
    return m.group(1).split() if m else []


def modes_of(src, tier):
    """Build modes of a harness: sanitizers on every run, plain -O2 too in the thorough tier;
    '// MODES: opt' in the first lines fixes them (the cost meter needs an uninstrumented allocator)."""
    with open(src) as f:
        head = f.read(2000)
    m = re.search(r"^// MODES:(.*)$", head, re.M)
    return m.group(1).split() if m else ["san"] if tier == "quick" else ["san", "opt"]


def compile_obj(src, obj, mode):
    fl = SAN if mode == "san" else OPT
    cmd = [CXX] + BASE + fl + flags_of(src) + ["-c", src, "-o", obj]
    r = None
    for attempt in range(2):
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
        if r.returncode == 0:
            return None
        if r.returncode == 1 and "error:" in r.stderr and "Killed" not in r.stderr:
            break
        time.sleep(2)
    return " ".join(cmd) + "\n" + r.stderr


def link(objs, out, mode):
    cmd = [CXX] + objs + ["-o", out] + (["-fsanitize=address,undefined"] + LDS if mode == "san" else [])
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    return None if r.returncode == 0 else r.stderr


def load_known():
    """known_findings.txt: 'finding: {json}' lines (property, test, match, what);
    'fixed: ...' lines are a record only and suppress nothing."""
    p = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(p):
        return []
    return [json.loads(l.split(":", 1)[1]) for l in open(p) if l.startswith("finding:")]


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for i, x in enumerate(a):
        if x == "--tier":
            tier = a[i + 1]
        if x == "--only":
            only = a[i + 1].split(",")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    hdir = os.path.join(HERE, "harness", pid)
    srcs = sorted(f for f in os.listdir(hdir) if f.endswith(".cpp"))
    if only:
        srcs = [s for s in srcs if s[:-4] in only]
    smodes = {s: modes_of(os.path.join(hdir, s), tier) for s in srcs}
    modes = sorted({m for v in smodes.values() for m in v}, reverse=True)
    bdir = os.path.join(BUILD, pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    rdir = os.path.join(OUTD, "replays")
    os.makedirs(rdir, exist_ok=True)
    limits()
    mult = {"quick": 4.0, "thorough": 60.0}[tier] * float(os.environ.get("VERIF_MULT", "1"))
    cap = {"quick": 60.0, "thorough": 420.0}[tier]
    pool = cf.ThreadPoolExecutor(JOBS)
    mains = {m: pool.submit(compile_obj, os.path.join(HERE, "engine", "pbt_main.cpp"), os.path.join(bdir, f"main_{m}.o"), m) for m in modes}
    comp = {}
    # bigger sources first
    for s in sorted(srcs, key=lambda s: -os.path.getsize(os.path.join(hdir, s))):
        for m in smodes[s]:
            comp[(s, m)] = pool.submit(compile_obj, os.path.join(hdir, s), os.path.join(bdir, f"{s[:-4]}_{m}.o"), m)
    results, broken, infra = [], [], []
    jobs = []
    lock = threading.Lock()

    def run_job(binary, s, mode, test, shard, shards):
        out = f"{binary}.{test}.{shard}.out"
        rep = os.path.join(rdir, f"{pid}.{s[:-4]}.{test}.{mode}.json")
        cmd = [binary, "--test", test, "--seed", str(seed), "--mult", str(mult if mode == "san" else mult * 2),
               "--cap", str(cap), "--out", out, "--replay-out", rep + f".{shard}.tmp", "--shard", f"{shard}/{shards}"]
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=ENV)
        try:
            d = json.loads(open(out).read().strip().splitlines()[-1])
        except Exception:
            return {"test": test, "rc": 3, "message": f"runner ended {r.returncode}: {r.stderr[-800:]}", "src": s, "mode": mode, "cases": 0, "nontrivial": 0, "labels": {}, "samples": [], "rule": "", "wall": 0}
        d["src"], d["mode"], d["shard"], d["shards"] = s, mode, shard, shards
        if d["rc"] == 1:
            tmp = rep + f".{shard}.tmp"
            j = json.load(open(tmp))
            j.update(property=pid, source=s, mode=mode)
            json.dump(j, open(rep, "w"), indent=1)
            os.unlink(tmp)
            d["replay"] = rep
        return d

    for m in modes:
        e = mains[m].result()
        if e:
            print("error: engine does not build\n" + e[:2000], file=sys.stderr)
            return 2
    runpool = cf.ThreadPoolExecutor(JOBS)
    runs = []
    pending = dict((f, k) for k, f in comp.items())
    for f in cf.as_completed(list(pending)):
        s, m = pending[f]
        e = f.result()
        if not e:
            binary = os.path.join(bdir, f"{s[:-4]}_{m}")
            e = link([os.path.join(bdir, f"{s[:-4]}_{m}.o"), os.path.join(bdir, f"main_{m}.o")], binary, m)
        if e:
            log = os.path.join(rdir, f"{pid}.{s[:-4]}.{m}.compile.log")
            open(log, "w").write(f"property {pid}: harness {s} ({m}) no longer compiles against {REPO}\n" + e)
            broken.append((s, m, log, e))
            continue
        l = subprocess.run([binary, "--list"], capture_output=True, text=True, env=ENV)
        if l.returncode != 0:
            infra.append(f"{s}: --list failed: {l.stderr[-500:]}")
            continue
        for line in l.stdout.splitlines():
            t = line.split("\t")[0]
            shards = 1 if tier == "quick" else 4
            for k in range(shards):
                runs.append(runpool.submit(run_job, binary, s, m, t, k, shards))
    for r in runs:
        results.append(r.result())
    known = [k for k in load_known() if k.get("property") == pid]
    viol, knownhit = [], []
    for d in results:
        if d["rc"] == 1:
            kf = None
            for k in known:
                if k.get("test") == d["test"] and re.search(k.get("match", "$^"), d.get("message", "") + "\n" + d.get("notes", "")):
                    kf = k
            (knownhit if kf else viol).append((d, kf))
        elif d["rc"] == 3:
            infra.append(f"{d['src']}:{d['test']}: {d['message']}")
    for s, m, log, e in broken:
        first = next((x for x in e.splitlines() if "error:" in x), "")[:300]
        viol.append(({"test": s, "replay": log, "message": "documented use no longer compiles: " + first}, None))
    # evidence
    ev = sum(d["cases"] for d in results)
    nt = sum(d["nontrivial"] for d in results)
    per = {}
    for d in results:
        k = d["src"][:-4] + "." + d["test"]
        p = per.setdefault(k, {"cases": 0, "nontrivial": 0, "rule": d["rule"], "labels": {}, "capped": 0, "wall_s": 0.0})
        p["cases"] += d["cases"]; p["nontrivial"] += d["nontrivial"]; p["capped"] += d.get("capped", 0); p["wall_s"] = round(p["wall_s"] + d["wall"], 2)
        for l, c in d["labels"].items():
            p["labels"][l] = p["labels"].get(l, 0) + c
    samples = []
    for d in results:
        for x in d["samples"][:1]:
            samples.append({"test": d["src"][:-4] + "." + d["test"], "case": x})
    rule = ("Each case is one generated input or operation history of the named test, decoded from a recorded choice sequence; "
            "it counts as non-trivial when the test's own rule (below, per test) marks it, and distinct by its choice sequence. "
            + "; ".join(f"{k}: {p['rule']}" for k, p in sorted(per.items())))
    evd = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": rule, "samples": samples[:40], "tests": per,
                        "harness_files": srcs, "build_modes": modes},
           "assumptions": ["inputs respect the documented or observed preconditions of each component (see DESIGN.md)",
                           "the reference models in the harness are right",
                           "headers that need AtCoder Library are compiled against the compatible subset in acl/"],
           "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(OUTD, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(OUTD, "evidence", f"{pid}.json"), "w"), indent=1)
    shutil.rmtree(bdir, ignore_errors=True)
    for d, k in knownhit:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for d in [d for d in results if d["rc"] == 2]:
        print(f"note: {d['src']}:{d['test']} {d.get('kind')} not reproduced, not reported: {d.get('message', '')[:200]}")
    for d, _ in viol:
        print(f"VIOLATION property={pid} replay={d['replay']}")
        print(f"  {d['test']}: {d.get('kind', '')} {d.get('message', '')[:800]}")
        if d.get("notes"):
            print("  case: " + d["notes"][:800].replace("\n", "\n        "))
    slow = sorted(((p["wall_s"], k) for k, p in per.items()), reverse=True)[:3]
    print(f"{pid} {tier}: {ev} cases, {nt} distinct non-trivial, {len(per)} tests, {len(viol)} violations, {evd['wall_s']} s (slowest {slow})")
    if viol:
        return 1
    if infra:
        print("error: " + "\n".join(infra)[:3000], file=sys.stderr)
        return 2
    return 0


def replay(path):
    j = json.load(open(path))
    pid, s, m = j["property"], j["source"], j["mode"]
    bdir = os.path.join(BUILD, "replay")
    os.makedirs(bdir, exist_ok=True)
    limits()
    objs = []
    for src, o in ((os.path.join(HERE, "harness", pid, s), "h.o"), (os.path.join(HERE, "engine", "pbt_main.cpp"), "m.o")):
        e = compile_obj(src, os.path.join(bdir, o), m)
        if e:
            print(e[:3000]); return 2
        objs.append(os.path.join(bdir, o))
    b = os.path.join(bdir, "bin")
    e = link(objs, b, m)
    if e:
        print(e); return 2
    cf_ = os.path.join(bdir, "choices.txt")
    open(cf_, "w").write(j["test"] + "\n" + "\n".join(map(str, j["choices"])) + "\n")
    cmd = [b, "--replay", cf_, "--replay-out", os.path.join(bdir, "stderr"), "--seed", str(j["seed"])]
    if j.get("prefix"):
        cmd += ["--prefix", str(j["case"]), "--shard", f"{j['shard']}/{j['shards']}"]
    r = subprocess.run(cmd, env=ENV)
    if os.path.exists(os.path.join(bdir, "stderr")):
        print(open(os.path.join(bdir, "stderr"), errors="replace").read()[:3000])
    if r.returncode == 1:
        print(f"VIOLATION property={pid} replay={path}")
    return r.returncode


if __name__ == "__main__":
    sys.exit(main())
