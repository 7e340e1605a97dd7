#!/usr/bin/env python3
"""mktile.py SPEC.json -- write seeded/<id> from an edit and a hand-written demo (SPEC: id, property, needs, breaks, edits, demo), and try the demo on both trees"""
import json, os, pathlib, shutil, subprocess, sys
spec = json.load(open(sys.argv[1]))
S = pathlib.Path("/verif/seeded") / spec["id"]
copy = pathlib.Path("/tmp/seedrepo")
shutil.rmtree(copy, ignore_errors=True)
subprocess.run("git clone -q /repo /tmp/seedrepo", shell=True, check=True)
for f, old, new, *nth in spec["edits"]:
    p = copy / f
    s = p.read_text()
    parts = s.split(old)
    k = nth[0] if nth else 1
    assert len(parts) > k and (nth or len(parts) == 2), (f, old, len(parts) - 1)
    p.write_text(old.join(parts[:k]) + new + old.join(parts[k:]))
S.mkdir(parents=True, exist_ok=True)
(S / "patch.diff").write_text(subprocess.run("git -C /tmp/seedrepo diff", shell=True, capture_output=True, text=True).stdout)
(S / "meta.json").write_text(json.dumps(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), indent=1))
(S / "demo.py").write_text(spec["demo"])
if "import tile\n" in spec["demo"] or "from tile" in spec["demo"]:
    shutil.copy("/verif/tools/demo_tile.py", S / "tile.py")
(S / "demo.sh").write_text('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/src/python:$D PYTHONDONTWRITEBYTECODE=1
exec /opt/pycold-venv/bin/python "$D/demo.py"
''')
for f in pathlib.Path("/repo/src/python/pycold").glob("*.so"):
    shutil.copy2(f, copy / "src/python/pycold" / f.name)
rc = []
for root in ("/repo", "/tmp/seedrepo"):
    r = subprocess.run(["bash", str(S / "demo.sh")], cwd=root, capture_output=True, text=True, timeout=400)
    rc.append(r.returncode)
    print(root, r.returncode, (r.stdout + r.stderr)[-500:])
print("OK" if rc[0] == 0 and rc[1] else "NOT A DEMO", spec["id"])
shutil.rmtree(copy, ignore_errors=True)
