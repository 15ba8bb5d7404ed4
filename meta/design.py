"""Write DESIGN.md: head, one section per property (from the property text and the rules its last run reports), tail."""
import glob, importlib, json, os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
props, na = [], []
for f in sorted(glob.glob(os.path.join(here, "props_*.py"))):
    m = importlib.import_module(os.path.basename(f)[:-3]); props += m.PROPS; na += m.NA
out = [open(os.path.join(here, "design_head.md")).read()]
for p in props:
    e = json.load(open(os.path.join(root, "evidence", p["id"] + ".json")))
    cov = e["coverage"]
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
               f"*Decided by*: {p['tech']}. *Quantifies over*: {p['text']}. *Why tests cannot*: {p['why']} *Bounds*: {p['note']} "
               f"*Anchors*: " + "; ".join(f"{a} ({b})" for a, b in p["mech"]) + ".\n\nRules:\n")
    for r, d in sorted(cov["rules"].items()):
        out.append(f"* `{r}` — {d['doc']}")
    out.append("")
if na:
    out.append("## Not applicable to static analysis here\n")
    for p in na:
        out.append(f"* **{p['id']} {p['title']}** — {p['statement']} *Why not*: {p['reason']}")
tail = open(os.path.join(here, "design_tail.md")).read()
rows = ["| planted bug | property / check | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
fixes = [f"* {l[7:].strip()}" for l in open(os.path.join(root, "known_findings.txt")) if l.startswith("fixed:")]
out.append(tail.replace("SEEDTABLE", "\n".join(rows)).replace("FIXTABLE", "\n".join(fixes)))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
