#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and DESIGN.md from the META of props/*.py, meta/na.py,
meta/head.md, known_findings.txt and seeded/*/meta.json."""
import sys, os, json, glob, importlib, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/props", V + "/meta"]
import na
P = {}
for f in sorted(glob.glob(V + "/props/[A-Z][0-9][0-9].py")):
    i = os.path.basename(f)[:-3]; mod = importlib.import_module(i); P[i] = (mod, mod.META)
def prop(i, M):
    return dict(id=i, title=M["title"], statement=M["statement"], quantifier=dict(over=M["over"], text=M["q"]), why_tests_cant=M["why"],
                anchors=dict(files=["include/HXLibs/" + f for f in M["files"]], mechanism=[dict(name=a, where=b) for a, b in M["mech"]], **({"hook_needed": M["hook"]} if M.get("hook") else {})))
for i, (mod, M) in P.items():
    assert len(M["title"]) <= 80, (i, len(M["title"]))
    assert M["statement"].count(". ") <= 2, (i, M["statement"].count(". "))
    for f in M["files"]: assert os.path.exists("/repo/include/HXLibs/" + f), (i, f)
for M in na.NA.values():
    for f in M["files"]: assert os.path.exists("/repo/include/HXLibs/" + f), f
with open(V + "/properties.jsonl", "w") as o:
    for i, (mod, M) in P.items(): o.write(json.dumps(prop(i, M), ensure_ascii=False) + "\n")
    for i, M in na.NA.items(): o.write(json.dumps(prop(i, M), ensure_ascii=False) + "\n")
TRUST = " Trusts clang 18's front end, the exporter tools/hxdump.cpp, the abstract interpreter lib/engine.py and the stated library summaries; decides the structural obligations listed in the property's DESIGN.md section for every instantiation in harness/*.cpp, not run-time values beyond them."
man = dict(version=1, setup_cmd="python3 lib/run.py --setup",
    hooks=dict(guard="HXLIBS_STATIC_ANALYSIS", enable="the exporter parses the headers with -DHXLIBS_STATIC_ANALYSIS (lib/run.py FLAGS)", source_commits=["a273a6a"]),
    checks=[dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i} --thorough", technique=M["technique"], level="other", level_note=M["note"] + TRUST) for i, (mod, M) in P.items()],
    not_applicable=[dict(property=i, reason=M["reason"]) for i, M in na.NA.items()])
man["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True).stdout.strip() for c in man["hooks"]["source_commits"]]
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(V + "/MANIFEST.json", "a").write("\n")
out = [open(V + "/meta/head.md").read().rstrip(), "", "## Properties decided by static analysis", ""]
kf = [l.strip() for l in open(V + "/known_findings.txt")] if os.path.exists(V + "/known_findings.txt") else []
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
for i, (mod, M) in P.items():
    out += [f"### {i} — {M['title']}", "", M["statement"], "", f"*Quantifies over* {M['q']}", "", f"*Analysed:* translation units {', '.join(mod.TUS)}. *Method:* {M['technique']}.", "", M["design"].strip(), "", f"*Why this reaches further than the tests:* {M['why']}", ""]
    if getattr(mod, "ASSUMES", None): out += ["*Assumes:* " + "; ".join(mod.ASSUMES) + ".", ""]
    ks = [l for l in kf if f"property={i} " in l]
    if ks: out += ["*Findings on the original tree:*", ""] + ["- " + l for l in ks] + [""]
    if i in seeds: out += ["*Planted changes:* " + "; ".join(f"`{a}` ({d.get('caught', 'not yet run')}): {d['what_it_breaks']}" for a, d in seeds[i]), ""]
out += ["## Properties static analysis cannot decide here", ""]
for i, M in na.NA.items(): out += [f"- **{i} — {M['title']}**: {M['statement']} — {M['reason']}"]
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(P), "claimed,", len(na.NA), "not applicable,", sum(map(len, seeds.values())), "planted")
