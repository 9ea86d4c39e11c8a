#!/usr/bin/env python3
"""Decide one property: rebuild the symbolic engine and the harness against /repo, run the engine,
write evidence/<id>.json.  Exit 0: held; 1 with a VIOLATION line: broken; 2: no answer."""
from concurrent.futures import ThreadPoolExecutor
import fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("IRS_BUILD", os.path.join(HERE, ".build"))
CFG = json.load(open(os.path.join(HERE, "checks.json")))


def die(msg, code=2):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(code)


def env():
    e = dict(os.environ)
    tc = "stable-x86_64-unknown-linux-gnu"
    try:
        m = re.search(r"RUSTUP_TOOLCHAIN=\"?([\w.\-]+)", open("/opt/vp/env.sh").read())
        if m: tc = m.group(1)
    except OSError:
        pass
    e.update(RUSTUP_TOOLCHAIN=tc, CARGO_NET_OFFLINE="true", TZ="UTC", CARGO_TERM_COLOR="never")
    for k in ("CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, cwd, e):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die(f"build failed: {' '.join(cmd)}")


def build_engine():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "engine")
    run(["cargo", "build", "--release", "--offline", "-q"], os.path.join(HERE, "irsym"), e)
    return os.path.join(BUILD, "engine/release/irsym")


def build_harness(feature):
    e = env()
    t = os.path.join(BUILD, "target")
    e["CARGO_TARGET_DIR"] = t
    e["RUSTFLAGS"] = "-C no-vectorize-loops -C no-vectorize-slp -A warnings"
    ll = os.path.join(BUILD, feature + ".ll")
    if os.path.exists(ll): os.remove(ll)
    for attempt in range(2):
        run(["cargo", "rustc", "--offline", "-q", "--profile", "sym", "--features", feature, "--", f"--emit=llvm-ir={ll},link"], os.path.join(HERE, "harness"), e)
        if os.path.exists(ll): break
        # cargo believed the harness fresh although its IR is gone: force one recompilation
        os.utime(os.path.join(HERE, "harness/src/main.rs"))
    binp = os.path.join(BUILD, feature + ".bin")
    if os.path.exists(binp): os.remove(binp)
    shutil.copy2(os.path.join(t, "sym/h"), binp)
    return ll, binp


def known():
    """finding: property=<id> harness=<h> label=<label> ## what fails"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) label=(.*?) ## (.*)", l.strip())
            if m: out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        # nothing is kept between runs: show that engine and harness build
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        build_harness(CFG["C01"]["feature"])
        return
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    c = CFG[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(2) as ex:
            fe, fh = ex.submit(build_engine), ex.submit(build_harness, c["feature"])
            eng, (ll, binp) = fe.result(), fh.result()
        tmp = tempfile.mkdtemp(prefix=f"run_{pid}_", dir=BUILD)
        ll2, bin2 = os.path.join(tmp, "h.ll"), os.path.join(tmp, "h.bin")
        shutil.copy2(ll, ll2); shutil.copy2(binp, bin2)
    built = time.time() - t0
    out = os.path.join(tmp, "out.json")
    secs = 600 if tier == "quick" else 780
    secs = int(max(60, min(secs, 860 - built)))
    hs = list(c["harnesses"]) + (list(c.get("thorough_harnesses", [])) if tier == "thorough" else [])
    r = subprocess.run([eng, "--ir", ll2, "--native", bin2, "--harness", ",".join(hs), "--tier", tier, "--seconds", str(secs), "--threads", str(os.cpu_count() or 4), "--seed", str(seed), "--scratch", tmp, "--out", out], env=dict(env(), **({} if tier == "thorough" or any(k[0] == pid for k in known()) else {"IRSYM_STOP": "1"})), text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    print(r.stdout[-20000:], end="")
    if r.stderr: print(r.stderr[-4000:], file=sys.stderr)
    if not os.path.exists(out):
        die(f"the engine produced no result (exit {r.returncode})")
    res = json.load(open(out))
    shutil.rmtree(tmp, ignore_errors=True)
    kf = [k for k in known() if k[0] == pid]
    viol, hit, noans, vac = [], [], [], []
    tot = dict(states=0, transitions=0, traces=0)
    want = c.get("reach", {})
    for h in res["harnesses"]:
        tot["states"] += h["instructions"]; tot["transitions"] += h["paths"] + h["infeasible"] + h["forks"]; tot["traces"] += h["validated"]
        for v in h["violations"]:
            k = [k for k in kf if k[1] == h["harness"] and v["label"].startswith(k[2])]
            if k: hit.append((k[0], v))
            elif v["reproduced"]: viol.append((h["harness"], v))
            else: noans.append(f"{h['harness']}: counterexample to {v['label']!r} does not reproduce: {v['inputs']} cases {v['cases']} ({v['native']})")
        noans += [f"{h['harness']}: {x}" for x in h["inconclusive"]]
        missing = [l for l in want.get(h["harness"], []) if l not in h["reached"]]
        vac += [f"{h['harness']}: never reached {l!r}" for l in missing]
    for old in glob.glob(os.path.join(HERE, "evidence", f"replay_{pid}_*")): os.remove(old)
    replays = []
    for i, (h, v) in enumerate(viol):
        p = os.path.join(HERE, "evidence", f"replay_{pid}_{i}.json")
        json.dump({"property": pid, "harness": h, "label": v["label"], "cases": v["cases"], "inputs": v["inputs"], "native": v["native"],
                   "rerun": f"IRS_CASES={','.join(map(str, v['cases']))} IRS_INPUTS={','.join(v['raw'])} IRS_TIER={int(tier == 'thorough')} {binp} {h}   # {binp}: the harness built against /repo; exit 3 = property broken, 5 = panic"}, open(p, "w"), indent=1)
        replays.append(p)
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
              "samples": [s for h in res["harnesses"] for s in h["samples"]][:12] or ["none"],
              "meaning": "states: IR instructions executed symbolically; transitions: paths, forks and infeasible branches; traces validated: solver models of complete paths replayed in the natively compiled harness with equal outcome",
              "engine_seconds": res["wall_s"], "build_seconds": round(built, 1),
              "functions_encoded": sorted({f for h in res["harnesses"] for f in h["functions"]}),
              "harnesses": [{k: h[k] for k in ("harness", "tasks", "paths", "infeasible", "panic_ok", "forks", "instructions", "checks", "checks_by_solver", "queries", "sat", "unsat", "unknown", "portfolio", "pruned", "solver_s", "validated", "validated_trace_values", "rounded_ops", "unrounded_ops", "exact_mode", "bounds", "stubs", "reached", "labels")} for h in res["harnesses"]],
          },
          "assumptions": c.get("assumptions", []) + CFG["_assumptions"] + sorted({s for h in res["harnesses"] for s in h["stubs"]}),
          "wall_s": round(wall, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    for k in kf:
        if any(x[0] == k for x in hit): print(f"KNOWN-FINDING: property={pid} {k[3]}")
    if viol:
        for (h, v), p in zip(viol, replays):
            print(f"VIOLATION property={pid} replay={p}  # {h}: {v['label']} cases {v['cases']} inputs {v['inputs']}")
        sys.exit(1)
    if noans or vac:
        for x in (noans + vac)[:20]: print("NO-ANSWER:", x)
        sys.exit(2)
    n = sum(h["checks"] for h in res["harnesses"])
    print(f"{pid} ({tier}): held on {sum(h['paths'] for h in res['harnesses'])} paths, {n} checks, {sum(h['queries'] for h in res['harnesses'])} queries, {wall:.1f} s")


main()
