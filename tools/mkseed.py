"""usage: mkseed.py SPEC.py   where SPEC.py defines ID, PROPERTY, FILE, EDITS=[(old,new)], NEEDS, BREAKS, DEMO, perhaps EXTRA (files laid beside the demo).
FILE may be a list of (file, [(old, new)]) in EDITS when several files change."""
import difflib, json, runpy, sys
from pathlib import Path
R = Path("/repo"); V = Path("/verif/seeded")
for spec in sys.argv[1:]:
    m = runpy.run_path(spec)
    items = m["EDITS"] if isinstance(m["EDITS"][0][1], list) else [(m["FILE"], m["EDITS"])]
    d = V / m["ID"]; d.mkdir(parents=True, exist_ok=True)
    out = ""
    for f, eds in items:
        a = (R / f).read_text(); b = a
        for old, new in eds:
            assert b.count(old) == 1, (f, b.count(old), old)
            b = b.replace(old, new)
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    (d / "patch.diff").write_text(out)
    (d / "demo.py").write_text(m["DEMO"].lstrip())
    for x in m.get("EXTRA", []):
        (d / Path(x).name).write_bytes(Path(x).read_bytes())
    (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / "demo.sh").chmod(0o755)
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d / "meta.json", "w"), indent=1)
    print(m["ID"])
