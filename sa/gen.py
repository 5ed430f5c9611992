"""Regenerates properties.jsonl and MANIFEST.json from meta.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import meta

V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for i, d in sorted(meta.P.items()):
        assert len(d["title"]) <= 80, (i, len(d["title"]))
        assert d["statement"].count(". ") <= 2, i
        f.write(json.dumps({"id": i, "title": d["title"], "statement": d["statement"], "quantifier": {"over": d["over"], "text": d["quant"]}, "why_tests_cant": d["tests"],
                            "anchors": {"files": d["files"], "mechanism": [{"name": a, "where": b} for a, b in d["mech"]], "state": [{"name": a, "meaning": b, "where": w} for a, b, w in d["state"]]}}) + "\n")
nas = dict(meta.NA)
checks = []
for i, d in sorted(meta.P.items()):
    if i in nas:
        continue
    assert os.path.exists(os.path.join(HERE, "rules", i.lower() + ".py")), i
    checks.append({"property": i, "quick_cmd": f"python3 sa/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 sa/check.py {i}", "technique": "static analysis: " + d["tech"], "level": d["level"], "level_note": d["note"].strip() or "see DESIGN.md"})
json.dump({"version": 1, "setup_cmd": "python3 sa/build.py all", "checks": checks, "not_applicable": [{"property": i, "reason": r} for i, r in meta.NA]}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(meta.P), "properties,", len(checks), "claimed")


# ---------------------------------------------------------------- DESIGN.md
import glob, importlib
o = open(os.path.join(V, "doc", "design_head.md"), encoding="utf-8").read().rstrip() + "\n\n## 4. The properties\n\n"
for i, d in sorted(meta.P.items()):
    o += f"### {i} {d['title']}\n\n{d['statement']}\n\n"
    if i in nas:
        o += f"**Not applicable:** {nas[i]}\n\n"
        continue
    rule = importlib.import_module("rules." + i.lower()).RULE
    o += f"* *Quantifies over:* {d['quant']}.\n* *Rule:* {rule}\n* *Technique:* {d['tech']} ({d['level']}).\n* *Assumes:* {d['note'].strip() or 'nothing beyond section 1'}\n* *Why tests cannot settle it:* {d['tests']}\n\n"
o += "## 5. Planted changes\n\nEach was written from a property's text, confirmed to build, to pass the 830 stable tests and to fail its own demonstration; `tools/plant.sh ID` repeats that and runs the check.\n\n| change | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
missed = {}
mf = os.path.join(V, "doc", "missed.json")
if os.path.exists(mf):
    missed = json.load(open(mf))
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    o += f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {missed.get(n, m['property'])} |\n"
kf = [l.strip() for l in open(os.path.join(V, "known-findings.txt"), encoding="utf-8")]
o += "\n## 6. Findings\n\n" + "\n".join("* " + l for l in kf if l.startswith(("known:", "fixed:"))) + "\n"
open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8").write(o)
