#!/bin/bash
# Offline; nothing to compile. Parses every specification so that a broken one
# is found here and not in the middle of a check.
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replay
/opt/venv/bin/python - <<'PY'
import glob, subprocess, sys, os
from concurrent.futures import ThreadPoolExecutor
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
def parse(f):
    r = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY", os.path.basename(f)], cwd="spec", capture_output=True, text=True)
    return f, r.returncode, r.stdout
bad = 0
with ThreadPoolExecutor(4) as ex:
    for f, rc, out in ex.map(parse, sorted(glob.glob("spec/*.tla"))):
        if rc != 0 or "*** Errors" in out:
            print(f, out); bad = 1
sys.exit(bad)
PY
