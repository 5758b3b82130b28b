#!/usr/bin/env python3
"""seedtest.py ID...: validates planted bugs (builds, stable tests pass, demo fails with and passes without the patch)
and reports what the checks say. Works on /repo's working tree and restores it. --nodemo / --notests / --all-checks"""
import json, os, subprocess, sys, time
V = "/verif"
flags = [a for a in sys.argv[1:] if a.startswith("--")]
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def demo(i): return sh(f"bash {V}/seeded/{i}/demo.sh", cwd="/repo", timeout=400)
assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "/repo is not clean"
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    res = {}
    if "--nodemo" not in flags:
        r = demo(i); res["demo_clean"] = r.returncode
        if r.returncode: print(i, "demo on the clean tree:", r.stdout[-1500:], r.stderr[-1500:])
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: print(i, "does not apply", a.stderr); continue
    try:
        if "--notests" not in flags:
            b = sh("bash /opt/vp/build.sh"); res["build"] = b.returncode
            if b.returncode: print(b.stderr[-3000:])
            t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            tj = json.load(open("/tmp/seedtest.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            res["lost_tests"] = sorted(set(base) - set(tj["passed"]))
        if "--nodemo" not in flags:
            r = demo(i); res["demo_patched"] = r.returncode; print((r.stdout + r.stderr)[-400:])
        props = [meta["property"]]
        if "--all-checks" in flags: props = [c["property"] for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]]
        for p in props:
            t0 = time.time()
            r = sh(f"python3 tools/check.py {p}", cwd=V)
            res[f"check {p}"] = (r.returncode, [l[:200] for l in r.stdout.splitlines() if l.startswith("VIOLATION")][:3] or r.stdout[-300:] + r.stderr[-600:], round(time.time() - t0))
    finally:
        sh(f"git -C /repo apply -R {d}/patch.diff"); sh("git -C /repo checkout -- .")
    good = res.get("demo_clean", 0) == 0 and res.get("demo_patched", 1) not in (0, 3, 124) and not res.get("lost_tests") and not res.get("build")
    caught = res.get(f"check {meta['property']}", (None,))[0] == 1
    print(i, "VALID" if good else "INVALID", "CAUGHT" if caught else "MISSED", json.dumps(res)[:1500], flush=True)
