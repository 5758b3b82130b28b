#!/usr/bin/env python3
"""size.py MODULE [tier]: sizes of a module's exhaustive models."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, shutil
m = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
md = check.MODELS[m]
invs = sorted({i for p in check.PROPS.values() for x in p if x[0] == m for i in x[1]})
acts = sorted({i for p in check.PROPS.values() for x in p if x[0] == m for i in x[2]})
w = f"{check.BUILD}/run/size-{m}"
shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
for i, c in enumerate(md["bfs"][tier]):
    t = time.time()
    try:
        r = check.tlc(md["mc"], c, invs, acts, w, f"s{i}", 1, timeout=int(os.environ.get("T", "60")))
        print(i, r["generated"], r["distinct"], f"{time.time()-t:.1f} s", flush=True)
    except check.ToolError as e:
        print(i, str(e)[:2500], flush=True)
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
shutil.rmtree(w, ignore_errors=True)
