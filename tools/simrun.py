#!/usr/bin/env python3
"""simrun.py MODULE INDEX [tier] [seed]: one simulation configuration of a module, replayed; what happened in it."""
import sys, os, time, json, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, shutil
m, i = sys.argv[1], int(sys.argv[2]); tier = sys.argv[3] if len(sys.argv) > 3 else "quick"; seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
md = check.MODELS[m]
invs = sorted({i for p in check.PROPS.values() for x in p if x[0] == m for i in x[1]})
acts = sorted({i for p in check.PROPS.values() for x in p if x[0] == m for i in x[2]})
w = f"{check.BUILD}/run/simrun-{m}-{os.getpid()}"
os.makedirs(w)
try:
    c, n, d = md["sim"][tier][i]
    t = time.time()
    r = check.tlc(md["mc"], c, invs, acts, w, "s", seed, (n, d), timeout=int(os.environ.get("T", "600")))
    t1 = time.time()
    st = collections.Counter()
    for line in open(r["trace"]):
        x = json.loads(line)
        if isinstance(x, str): x = json.loads(x)
        q = x.get("q")
        if isinstance(q, dict): st[q.get("t", "?") + "/" + ("ok" if not x.get("err") else "+".join(sorted(x["err"])))] += 1
    rep = check.conform(m, seed, [r["trace"]], w, 3000)
    print(m, "tlc %.1f s, replay %.1f s" % (t1 - t, time.time() - t1), "size %.1f MB" % (os.path.getsize(r["trace"]) / 1e6))
    print("  ", ", ".join(f"{k} {v}" for k, v in st.most_common(40)))
    print("  ", {k: v for k, v in rep.items() if k not in ("divergences", "steps", "counts") and not isinstance(v, (list, dict))})
    for x in rep["divergences"][:4]:
        print("   DIV", x["key"], x["detail"][:600])
finally:
    shutil.rmtree(w, ignore_errors=True)
