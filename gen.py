#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and checks.json from props.py and the harness sources"""
import json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
def where(names, files):
    return f"{', '.join(files)}: {names}"
with open("properties.jsonl", "w") as f:
    for q in sorted(P + NA, key=lambda q: q["id"]):
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]], hook_needed=None)), ensure_ascii=False) + "\n")
checks = {"_assumptions": ["inputs are finite: NaN and infinity enter only as constants the code or the harness itself produces", "allocation succeeds", "the IR is the one rustc emits for the profile sym of /verif/harness (opt-level 1, fat LTO, run-time checks on, no vectorisation)",
    "rounded arithmetic over-approximates IEEE doubles by a relative error of 2^-53 per operation (plus the subnormal gap); harnesses in real arithmetic say exact_mode and ignore rounding"]}
man = []
for q in P:
    src = open(f"harness/src/{q['feature']}.rs").read()
    reach = {}
    for h in q["harnesses"] + q["thorough"]:
        m = re.search(r"fn %s\(\)(.*?)(?=\n    fn |\Z)" % h, src, re.S)
        assert m, (q["id"], h)
        l = re.findall(r'(?<!\w)reach\("([^"]*)"\)', m.group(1))
        if l: reach[h] = l
    checks[q["id"]] = {"feature": q["feature"], "harnesses": q["harnesses"], "reach": reach, "assumptions": ["bounds: " + q["bounds"]] + ([q["note"]] if q["note"] else [])}
    if q["thorough"]: checks[q["id"]]["thorough_harnesses"] = q["thorough"]
    man.append(dict(property=q["id"], quick_cmd=f"python3 check.py {q['id']} --tier quick", thorough_cmd=f"python3 check.py {q['id']} --tier thorough", evidence_file=f"evidence/{q['id']}.json",
        technique="symbolic execution of the compiler's LLVM IR, assertions decided by SMT (z3, cvc5)", level="model_checking",
        level_note="Every path of the harness over the compiled code is explored and every assertion decided by the solver for all inputs within the bounds: " + q["bounds"] + ". Trusted: the IR interpreter, the solvers, the models of libm and allocation. " + q["note"]))
json.dump(checks, open("checks.json", "w"), indent=1); open("checks.json", "a").write("\n")
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="none", enable="no hooks: the harness uses the public interface only", source_commits=[]), checks=man,
    not_applicable=[dict(property=q["id"], reason=q["reason"]) for q in NA],
    notes="One driver (check.py) builds the engine (irsym/) and the harness (harness/, compiled against /repo's working tree with stubs for two git dependencies) and runs the harnesses of a property. Genuine defects: known_findings.txt."), open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(P), "claimed", len(NA), "not applicable")
d = open("DESIGN.md").read().split("<!-- properties -->")[0].rstrip() + "\n\n<!-- properties -->\n## Properties and how each is decided\n\n"
for q in sorted(P, key=lambda q: q["id"]):
    d += f"### {q['id']} {q['title']}\n{q['statement']}\n\nDecided by {', '.join('`' + h + '`' for h in q['harnesses'] + q['thorough'])} in `harness/src/{q['feature']}.rs`: assertions over symbolic inputs against an independent oracle written in the harness. Bounds: {q['bounds']}. {q['note']}\nWhy tests cannot: {q['why']}.\n\n"
if NA:
    d += "## Not applicable\n\n" + "".join(f"- {q['id']} {q['title']}: {q['reason']}\n" for q in NA)
d += "\n## Defects found and repaired\n\nEach was shown by a counterexample replayed against the code, repaired by a `fix:` commit, and is reported again if it returns.\n\n"
for l in open("known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: d += f"- {m.group(1)} ({m.group(2)}): {m.group(3)}\n"
d += "\n## Planted changes and the check that reports each\n\nEach lies in `seeded/<id>/`, compiles, passes the stable tests and is confirmed by its demonstration; the check named reports it (`python3 seedtool.py --caught`).\n\n| change | check | needs | breaks |\n|---|---|---|---|\n"
for n in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = json.load(open(f"seeded/{n}/meta.json"))
    d += f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n"
d += "\nBesides these, some three hundred changes without a demonstration (operators, bounds, constants, order, skipped cases in every source file) were run against the checks of the code they touch; those missed were either equivalent for every input the property speaks of, or led to a harness (for example C28's sparse rows, C44's numbers for missing readings).\n"
open("DESIGN.md", "w").write(d)
