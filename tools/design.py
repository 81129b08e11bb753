"""Composes DESIGN.md: `python3 tools/design.py` after a change of properties, notes, findings or planted bugs."""

import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
notes = json.load(open(V / "tools/notes.json"))
known = json.load(open(V / "known_findings.json"))
out = [(V / "tools/design_head.md").read_text().rstrip(), "", "## Properties", ""]
out += ["Statements are in `properties.jsonl`. Quick checks take 10 to 60 s each on 8 cores, thorough ones up to about 10 minutes.", ""]
extra = dict(re.findall(r"^### (\w+)\n(.*?)(?=^### |\Z)", (V / "tools/design_notes.md").read_text(), re.M | re.S))
for line in open(V / "properties.jsonl"):
    p = json.loads(line)
    pid = p["id"]
    src = next((V / "checks").glob(pid.lower() + "_*.py"))
    t = src.read_text()
    lib = "".join((V / f"vlib/{m}.py").read_text() for m in re.findall(r"from vlib(?:\.| import )(trainlib|ckptlib|readers)", t))
    mods = sorted(set(re.findall(r'(?:model_check|generate)\(\s*ctx,\s*"(\w+)"', t + lib)))
    trc = sorted(set(re.findall(r'(?:validate|selftest)\(\s*ctx,\s*"(\w+)"', t + lib)))
    out.append(f"### {pid}: {p['title']}")
    out.append("")
    out.append(f"* Specification: {', '.join(f'`{m}`' for m in mods) or '-'}; traces: {', '.join(f'`{m}`' for m in trc) or '-'}; driver: `checks/{src.name}`.")
    out.append(f"* What decides it, within which bounds: {notes[pid]['note']}")
    out.append(f"* Ranges over: {p['quantifier']['text']}. Beyond the tests: {p['why_tests_cant']}.")
    fixed = [f for f in known["fixed"] if f"property={pid} " in f]
    finds = [f for f in known["findings"] if f["property"] == pid]
    if finds or fixed:
        out.append(f"* Found by it: {len(fixed)} defect(s) repaired, {len(finds)} recorded.")
    if pid in extra:
        out += ["* " + " ".join(x.split()) for x in extra[pid].strip().split("\n* ") if x.strip("* \n")]
    out.append("")
out += ["## Findings", "", "`known_findings.json` is the list the checks read. Recorded, not repaired (the repair is not small or would change a file format):", ""]
out += [f"* {f['property']}: {f['what']}" for f in known["findings"]]
out += ["", "Repaired, each in a commit of its own (\"fix:\"), reported again if they return:", ""]
out += ["* " + f.removeprefix("fixed: ") for f in known["fixed"]]
out += ["", "## Planted bugs", "", "Each was written from a property and the code; `seeded/<id>/` has the patch and a demonstration. The last column is what the checks said to it.", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(V / "tools/seed_results.json"))
for d in sorted((V / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    out.append(f"| {d.name} | {m['property']} | {' '.join(m['needs'].split())} | {res.get(d.name, 'not run yet')} |")
out += ["", extra.get("END", "").strip(), ""]
(V / "DESIGN.md").write_text("\n".join(out))
print(len(out), "lines")
