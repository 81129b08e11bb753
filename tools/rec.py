"""rec.py note ID TEXT | rec.py fixed ID COMMIT TEXT: adds to notes.json / known_findings.json."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
if sys.argv[1] == "note":
    f = V / "tools/notes.json"
    d = json.load(open(f))
    d.setdefault(sys.argv[2], {})["note"] = sys.argv[3]
else:
    f = V / "known_findings.json"
    d = json.load(open(f))
    d["fixed"].append(f"fixed: property={sys.argv[2]} {sys.argv[3]} {sys.argv[4]}")
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
