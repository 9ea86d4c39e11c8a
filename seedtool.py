#!/usr/bin/env python3
"""development helper: confirm a planted bug and record it.
seedtool.py ID PROPERTY DEMO.rs NEEDS BREAKS   with the bug applied, uncommitted, in /repo
seedtool.py --verify [ID...]   re-confirm the kept ones;   seedtool.py --caught [ID...]   run the checks against them"""
import subprocess, sys, os, json, shutil, tempfile
DEMO = r'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=/opt/vp/target/debug/deps
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
L=$(ls -t $T/libsurfrs-*.rlib | head -1)
try() {
  if rustc --edition 2021 -A warnings -C debug-assertions=on -C overflow-checks=on "$D/demo.rs" -o "$W/demo" --extern surfrs=$L $X -L dependency=$T > "$W/log" 2>&1; then
    timeout 60 "$W/demo"; exit $?
  fi
}
# the builds of the other crates the demonstration uses, one of which the library was built with
crates() { grep -q "$1::" "$D/demo.rs" && ls -t $T/lib$1-*.rlib || echo none; }
for C in $(crates chrono); do for J in $(crates serde_json); do for G in $(crates geojson); do
  X=""; [ $C = none ] || X="$X --extern chrono=$C"; [ $J = none ] || X="$X --extern serde_json=$J"; [ $G = none ] || X="$X --extern geojson=$G"
  try
done; done; done
cat "$W/log"; exit 99
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def build(): 
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: print(r.stdout[-3000:])
    return r.returncode == 0
def tests():
    sh("bash /opt/vp/test.sh /tmp/o.json")
    o = json.load(open("/tmp/o.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in base if t not in o["passed"]]
def demo(d):
    # laid elsewhere, as in the final check
    t = tempfile.mkdtemp(); shutil.copytree(d, t + "/x"); 
    for f in os.listdir(t + "/x"):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(t + "/x/" + f)
    r = sh(f"bash {t}/x/demo.sh", cwd="/repo"); shutil.rmtree(t); return r.returncode, r.stdout[-600:]
clean = lambda: sh("git -C /repo checkout -q -- .")
def dirty(): return sh("git -C /repo status --porcelain").stdout.strip()
S = "/verif/seeded/"
if sys.argv[1] == "--verify":
    for i in sys.argv[2:] or sorted(os.listdir(S)):
        assert not dirty()
        r = sh(f"git -C /repo apply {S}{i}/patch.diff")
        if r.returncode: print(i, "DOES NOT APPLY", r.stdout); continue
        b = build(); t = tests() if b else None; d1 = demo(S + i); clean(); build(); d0 = demo(S + i)
        print(i, "OK" if b and not t and d1[0] and not d0[0] else ("BAD", b, t, d1, d0), flush=True)
elif sys.argv[1] == "--caught":
    for i in sys.argv[2:] or sorted(os.listdir(S)):
        assert not dirty()
        m = json.load(open(f"{S}{i}/meta.json"))
        sh(f"git -C /repo apply {S}{i}/patch.diff")
        r = sh(f"cd /verif && timeout 900 python3 check.py {m['property']} --tier quick"); clean()
        v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "NO-ANSWER", "ERROR"))]
        print(i, m["property"], "CAUGHT" if r.returncode == 1 else f"MISSED exit {r.returncode}", v[:2], flush=True)
else:
    i, prop, rs, needs, breaks = sys.argv[1:6]
    diff = sh("git -C /repo diff").stdout
    assert diff.strip(), "no change"
    d = S + i; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff); shutil.copy(rs, d + "/demo.rs"); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    b = build(); t = tests() if b else ["build"]; d1 = demo(d); clean(); build(); d0 = demo(d)
    ok = b and not t and d1[0] not in (0, 99) and d0[0] == 0
    print(i, "KEPT" if ok else "REJECTED", "build", b, "failing", t, "demo with", d1, "without", d0)
    if not ok: shutil.rmtree(d)
