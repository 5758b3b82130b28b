#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]     decide one property
   check.py --setup                             build the harness
   check.py --replay FILE                       replay a recorded violation

A check (1) has TLC check the property's formulas on the specification, exhaustively on small models and by seeded
simulation on large ones, writing down every transition; (2) rebuilds the harness against /repo's working tree;
(3) replays all transitions in the real contracts and compares; (4) writes the evidence file."""
import concurrent.futures as cf
import fnmatch, hashlib, json, os, re, shutil, subprocess, sys, time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from models import MODELS, PROPS, TAGS  # noqa: E402

BUILD = f"{HERE}/build"
TARGET = f"{BUILD}/target"
# the harnesses: crate, where it is built, what lays out the sources it is built from
HARNESS = {"conform": ("harness", TARGET, ["prepare_ws.py"]),
           "daemon": ("ampd", f"{BUILD}/target-ampd", ["prepare_ws.py", "prepare_ampd.py"])}
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def env_rust():
    e = {k: v for k, v in os.environ.items() if k not in
         ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUST_BACKTRACE", "RUST_LIB_BACKTRACE")}
    e.update(RUSTUP_TOOLCHAIN="1.71.1", RUSTUP_AUTO_INSTALL="0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="", RUST_BACKTRACE="0")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    return e


def sources():
    """{path: hash} of everything of /repo that the harness is built from."""
    out = {}
    for top in ("contracts", "packages", "ampd/src"):
        for d, dirs, files in os.walk(f"{REPO}/{top}"):
            dirs[:] = [x for x in dirs if x not in ("target", "schema")]
            for f in files:
                p = os.path.join(d, f)
                if f.endswith((".rs", ".toml", ".json")):
                    with open(p, "rb") as h:
                        out[p] = hashlib.sha256(h.read()).hexdigest()
    return out


def crate_of(path):
    """The crates whose build a source file of /repo goes into."""
    parts = path[len(REPO):].split("/")
    return "ampd" if parts[1] == "ampd" else parts[2]


def build(kind="conform"):
    """Builds a harness: "conform" for the contracts, "daemon" for ampd. Cargo decides by modification times; a content
    hash per file guards against clocks and copies: when a file changed but looks old, its crate's fingerprint is dropped."""
    os.makedirs(BUILD, exist_ok=True)
    crate, target, prepare = HARNESS[kind]
    for tool in prepare:
        r = subprocess.run([sys.executable, f"{HERE}/tools/{tool}"], capture_output=True, text=True)
        if r.returncode:
            raise ToolError(f"{tool}: " + r.stderr)
    now = sources()
    stamp = f"{BUILD}/sources-{kind}.json"
    old = json.load(open(stamp)) if os.path.exists(stamp) else {}
    changed = {p for p in set(now) | set(old) if now.get(p) != old.get(p)}
    if old and changed:
        prints = f"{target}/debug/.fingerprint"
        for c in {crate_of(p) for p in changed}:
            for d in os.listdir(prints) if os.path.isdir(prints) else []:
                if d.rsplit("-", 1)[0] == c:
                    shutil.rmtree(f"{prints}/{d}", ignore_errors=True)
    if os.path.exists(stamp):
        os.unlink(stamp)
    t0 = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=f"{HERE}/{crate}", env=dict(env_rust(), CARGO_TARGET_DIR=target),
                       capture_output=True, text=True)
    if r.returncode:
        raise ToolError(f"the harness ({kind}) does not build against /repo:\n" + r.stderr[-3000:])
    with open(stamp, "w") as f:
        json.dump(now, f)
    return time.time() - t0


def kinds_of(modules):
    return sorted({MODELS[m].get("bin", "conform") for m in modules})


def cfg_text(consts, invs, props, sim):
    lines = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "CONSTANTS"]
    lines += [f"  {k} <- c_{k}" for k in consts] + [f"  Sim = {'TRUE' if sim else 'FALSE'}"]
    if not sim:
        lines.append("VIEW StateView")
    if invs:
        lines.append("INVARIANTS " + " ".join(invs))
    if props:
        lines.append("PROPERTIES " + " ".join(props))
    return "\n".join(lines) + "\n"


def tlc(mc, consts, invs, props, work, name, seed, sim=None, timeout=800, heap="3g"):
    """Runs TLC; returns dict(states, transitions, trace). Raises when the specification breaks its own properties."""
    d = f"{work}/{name}"
    os.makedirs(d)
    for f in os.listdir(f"{HERE}/spec"):
        if f.endswith(".tla"):
            shutil.copy(f"{HERE}/spec/{f}", d)
    with open(f"{d}/M.cfg", "w") as f:
        f.write(cfg_text(consts, invs, props, sim is not None))
    with open(f"{d}/M.tla", "w") as f:
        f.write(f"---- MODULE M ----\nEXTENDS {mc}\n" + "".join(f"c_{k} == {v}\n" for k, v in consts.items()) + "====\n")
    trace = f"{work}/{name}.{'sim' if sim else 'bfs'}.ndjson"
    env = dict(os.environ, TRACE_OUT=trace)
    cmd = ["java", "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss64m", "-cp", CP, "tlc2.TLC", "-workers", "1", "-config", "M.cfg",
           "-metadir", f"{d}/meta", "-noGenerateSpecTE", "-fp", "7"]
    if sim:
        cmd += ["-simulate", f"num={sim[0]}", "-depth", str(sim[1] + 1), "-seed", str(seed * 7919 + 17)]
    cmd.append("M.tla")
    try:
        r = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {mc} ({name}) ran out of its {timeout} s")
    bad = r.returncode != 0 or "No error has been found" not in r.stdout and not sim
    if "The EXCEPT was applied to non-existing" in r.stdout:  # TLC only warns of an update that does nothing
        raise ToolError(f"{mc} ({name}) updates a field that does not exist")
    if bad:
        text = r.stdout + r.stderr
        i = text.find("Error:")
        raise ToolError(f"TLC on {mc} ({name}) ended with {r.returncode}:\n{text[max(i, 0):max(i, 0) + 6000]}")
    m = re.findall(r"([\d,]+) states generated(?:, ([\d,]+) distinct states found)?", r.stdout)
    ms = re.findall(r"The number of states generated: ([\d,]+)", r.stdout)
    gen = int((m[-1][0] if m else ms[-1] if ms else "0").replace(",", ""))
    dist = int(m[-1][1].replace(",", "")) if m and m[-1][1] else gen
    shutil.rmtree(d)
    return dict(name=name, mc=mc, sim=sim is not None, generated=gen, distinct=dist, trace=trace, constants=consts)


def props_of(module, key):
    """The properties a disagreement concerns: those of the lines that match it; all of the module's when none does."""
    hits = [ps for pat, ps in TAGS[module] if fnmatch.fnmatchcase(key, pat)]
    if not hits:
        return {p for p, ms in PROPS.items() if any(m[0] == module for m in ms)}
    return set().union(*hits)


def matches(entry, prop, module, d):
    """Does a known finding cover this disagreement? By key and by the fields of the failing request (and, with
    "after", of an earlier request in the history)."""
    if entry.get("property") != prop or entry.get("module") != module or "key" not in entry:
        return False
    if not fnmatch.fnmatchcase(d["key"], entry["key"]):
        return False
    def sub(pat, v):
        if isinstance(pat, dict):
            return isinstance(v, dict) and all(k in v and sub(x, v[k]) for k, x in pat.items())
        return pat == v
    last = d["path"][-1].get("q", {}) if d["path"] else {}
    if "request" in entry and not sub(entry["request"], last):
        return False
    if "detail" in entry and entry["detail"] not in d["detail"]:
        return False
    if "after" in entry and not any(sub(entry["after"], x.get("q", {})) for x in d["path"][1:-1]):
        return False
    return True


def known_findings():
    p = f"{HERE}/known_findings.json"
    return [x for x in json.load(open(p))["findings"]] if os.path.exists(p) else []


def conform(module, seed, files, work, timeout):
    rep = f"{work}/report-{module}.json"
    kind = MODELS[module].get("bin", "conform")
    try:
        r = subprocess.run([f"{HARNESS[kind][1]}/debug/{kind}", module, str(seed), rep, *files], env=env_rust(), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"replaying {module} ran out of its {timeout} s")
    if r.returncode or not os.path.exists(rep):
        raise ToolError(f"the replay of {module} failed ({r.returncode}): {r.stderr[-3000:]}")
    return json.load(open(rep))


def check(prop, tier, seed):
    t0 = time.time()
    limit = 850 if tier == "quick" else 6 * 3600
    work = f"{BUILD}/run/{prop}-{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        jobs, results = [], {}
        for module, invs, acts, must in PROPS[prop]:
            md = MODELS[module]
            for i, c in enumerate(md["bfs"].get(tier, [])):
                jobs.append((module, (md["mc"], c, invs, acts, work, f"{module}-bfs{i}", seed, None)))
            for i, (c, num, depth) in enumerate(md["sim"].get(tier, [])):
                jobs.append((module, (md["mc"], c, invs, acts, work, f"{module}-sim{i}", seed, (num, depth))))
        heap = "2g" if tier == "quick" else "6g"
        with cf.ThreadPoolExecutor(6 if tier == "quick" else 3) as ex:
            b = ex.submit(lambda: sum(build(k) for k in kinds_of([m[0] for m in PROPS[prop]])))
            futs = [(m, ex.submit(tlc, *a, timeout=limit - 60, heap=heap)) for m, a in jobs]
            build_s = b.result()
            for m, f in futs:
                results.setdefault(m, []).append(f.result())
        tlc_s = time.time() - t0
        bad, known, others, reports = [], [], {}, []
        for module, invs, acts, must in PROPS[prop]:
            left = limit - (time.time() - t0)
            rep = conform(module, seed, [x["trace"] for x in results[module]], work, max(left, 30))
            reports.append(rep)
            for d in rep["divergences"]:
                ps = props_of(module, d["key"])
                if prop in ps:
                    k = [e for e in known_findings() if matches(e, prop, module, d)]
                    if k:
                        known.append((k[0]["text"], d))
                    else:
                        bad.append((module, d))
                else:
                    others[d["key"]] = sorted(ps)
            if not rep["divergences"]:
                missing = [k for k in must if not rep["kinds"].get(k)]
                if missing:
                    raise ToolError(f"vacuous: no step of kind {missing} among {rep['kinds']}")
        for e in known_findings():
            if e.get("property") == prop and e.get("status", "known") == "known":
                if any(t == e["text"] for t, _ in known):
                    print(f"KNOWN-FINDING: property={prop} {e['text']}")
        runs = [x for rs in results.values() for x in rs]
        cov = dict(
            states=sum(x["distinct"] for x in runs if not x["sim"]),
            transitions=sum(x["generated"] for x in runs if not x["sim"]),
            simulated_states=sum(x["generated"] for x in runs if x["sim"]),
            traces_validated_against_impl=sum(r["traces"] + r["states"] for r in reports),
            transitions_replayed_in_impl=sum(r["edges"] for r in reports),
            accepted=sum(r["accepted"] for r in reports), refused=sum(r["refused"] for r in reports),
            longest_behaviour=max(r["max_depth"] for r in reports),
            exhaustive=all(not x["sim"] for x in runs),
            step_kinds={r["module"]: r["kinds"] for r in reports},
            formulas={m: invs + acts for m, invs, acts, _ in PROPS[prop]},
            models=[dict(name=x["name"], constants=x["constants"], generated=x["generated"], distinct=x["distinct"]) for x in runs],
            samples=[s for r in reports for s in r["samples"]][:4],
            disagreements_about_other_properties=others,
        )
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 2),
                  build_s=round(build_s, 2), tlc_s=round(tlc_s, 2), violations=len(bad),
                  assumptions=["the stand-ins for the libraries that are missing offline (ampd/stubs) behave as the libraries do"
                               if any(MODELS[m].get("bin") == "daemon" for m, *_ in PROPS[prop]) else
                               "cw-multi-test executes messages as the chain does: a failing call reverts all its effects",
                               "the harness maps abstract requests to wire messages faithfully",
                               "exhaustive only within the listed constants; beyond them, seeded random behaviours"])
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        with open(f"{HERE}/evidence/{prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        if bad:
            os.makedirs(f"{BUILD}/replay", exist_ok=True)
            seen = set()
            for module, d in bad:
                if d["key"] in seen:
                    continue
                seen.add(d["key"])
                path = f"{BUILD}/replay/{prop}-{len(seen)}.json"
                with open(path, "w") as f:
                    json.dump(dict(property=prop, module=module, seed=seed, key=d["key"], detail=d["detail"], path=d["path"]), f, indent=1)
                print(f"VIOLATION property={prop} replay={path} {d['key']}: {d['detail'][:400]}".replace("\n", " "))
            return 1
        print(f"{prop}: held on {cov['states']} states / {cov['transitions']} transitions of the specification and "
              f"{cov['transitions_replayed_in_impl']} steps of the code in {ev['wall_s']} s (build {ev['build_s']} s, TLC {ev['tlc_s']} s)"
              + (f"; disagreements about other properties: {others}" if others else ""))
        return 0
    finally:
        if "VERIF_KEEP" not in os.environ:
            shutil.rmtree(work, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    build(MODELS[r["module"]].get("bin", "conform"))
    work = f"{BUILD}/run/replay-{os.getpid()}"
    os.makedirs(work)
    try:
        f = f"{work}/one.sim.ndjson"
        with open(f, "w") as h:
            for x in r["path"]:
                h.write(json.dumps(x) + "\n")
        rep = conform(r["module"], r["seed"], [f], work, 600)
        for x in r["path"][1:]:
            print(json.dumps(x["q"]), "->", "refused: " + ",".join(x["err"]) if x["err"] else "accepted")
        for d in rep["divergences"]:
            print(d["key"], d["detail"])
        return 1 if rep["divergences"] else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            print(f"built in {sum(build(k) for k in HARNESS):.0f} s")
            return 0
        if a[0] == "--replay":
            return replay(a[1])
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier, int(os.environ.get("VERIF_SEED", "1")))
    except ToolError as e:
        print(f"ERROR: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
