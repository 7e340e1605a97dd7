#!/usr/bin/env python3
"""at.py [--diff FILE | SEED] [--tier T] PROP.. -- run checks against a copy of /repo with a planted bug (or any patch), leaving /repo alone"""
import os, sys, subprocess, shutil, json, pathlib, tempfile, time
PY = "/opt/pycold-venv/bin/python"
if sys.executable != PY:
    os.execv(PY, [PY] + sys.argv)
if sys.argv[1] == "--inner":
    sys.dont_write_bytecode = True
    sys.path.insert(0, "/verif/lib")
    sys.path.insert(0, "/verif")
    import vlib, check
    d = pathlib.Path(sys.argv[2])
    vlib.REPO, vlib.WORK = d / "repo", d / "work"
    sys.argv = ["check.py"] + sys.argv[3:]
    sys.exit(check.main())
a = sys.argv[1:]
tier = "quick"
if "--tier" in a:
    k = a.index("--tier"); tier = a[k + 1]; del a[k:k + 2]
if a[0] == "--diff":
    diff, name, props = a[1], pathlib.Path(a[1]).stem, a[2:]
else:
    diff, name, props = "/verif/seeded/%s/patch.diff" % a[0], a[0], a[1:] or [json.load(open("/verif/seeded/%s/meta.json" % a[0]))["property"]]
d = pathlib.Path(tempfile.mkdtemp(prefix="at-", dir="/tmp"))
try:
    subprocess.run(["git", "clone", "-q", "/repo", str(d / "repo")], check=True)
    if diff != "none":
        subprocess.run(["git", "-C", str(d / "repo"), "apply", diff], check=True)
    (d / "work").mkdir()
    if os.path.exists("/verif/.work/oracle"):
        shutil.copytree("/verif/.work/oracle", d / "work" / "oracle")
    for p in props:
        t = time.time()
        r = subprocess.run([PY, __file__, "--inner", str(d), p, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = [l for l in r.stdout.splitlines() if l.strip()]
        print(name, p, "rc", r.returncode, "%ds" % (time.time() - t), "caught" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "MISSED" if r.returncode == 0 else "ERROR",
              " | ".join(l for l in out if "VIOLATION" not in l)[-int(os.environ.get("AT_CHARS", 260)):], flush=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
