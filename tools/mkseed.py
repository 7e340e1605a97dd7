#!/usr/bin/env python3
"""mkseed.py SPEC.json -- plant a bug: make the patch, build it, find an input on which it shows, write seeded/<id>.
SPEC: dict(id, property, needs, breaks, edits=[[file, old, new, nth]], fn="cold"|"obcold", fams=[..], cm=bool, n=..., keys=[fields])"""
import os, sys, json, subprocess, shutil, pathlib
PY = "/opt/pycold-venv/bin/python"
if sys.executable != PY:
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, "/verif/lib")
import numpy as np
import vlib, pixgen

spec = json.load(open(sys.argv[1]))
S = pathlib.Path("/verif/seeded") / spec["id"]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def edit(root):
    for f, old, new, *nth in spec["edits"]:
        p = root / f
        s = p.read_text()
        parts = s.split(old)
        k = nth[0] if nth else 1
        assert len(parts) > k and (nth or len(parts) == 2), (f, old, len(parts) - 1)
        p.write_text(old.join(parts[:k]) + new + old.join(parts[k:]))


copy = pathlib.Path("/tmp/seedrepo")
shutil.rmtree(copy, ignore_errors=True)
sh("git clone -q /repo /tmp/seedrepo")
edit(copy)
S.mkdir(parents=True, exist_ok=True)
(S / "patch.diff").write_text(sh("git -C /tmp/seedrepo diff").stdout)
(S / "meta.json").write_text(json.dumps(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), indent=1))
if spec.get("patchonly"):
    print("patch written"); sys.exit(0)
base = vlib.build_repo()
vlib.REPO, vlib.WORK = copy, pathlib.Path("/tmp/seedwork")
vlib.WORK.mkdir(exist_ok=True)
mut = vlib.build_repo()

FIELDS = spec.get("keys") or ["t_start", "t_end", "t_break", "change_prob", "num_obs", "category"]


def view(x):
    if x["status"] != "ok":
        return [x["status"]]
    out = [[int(q[f]) for f in FIELDS if f in ("t_start", "t_end", "t_break", "change_prob", "num_obs", "category", "pos")] for q in x["rec"]]
    fl = [[float(np.round(v, 2)) for f in FIELDS if f in ("magnitude", "rmse") for v in q[f]] + [float(np.round(v, 2)) for f in FIELDS if f == "coefs" for v in np.ravel(q[f][:, 0])] for q in x["rec"]]
    r = [out, fl]
    if "cm" in x and spec.get("cm"):
        r.append([x["cm"].tolist(), x["cmd"].tolist()])
    return r


def differ(a, b):
    if len(a) != len(b) or a[0] != b[0]:
        return True
    if a[0] in ("norec", "fail") or len(a) < 2:
        return False
    for p, q in zip(a[1], b[1]):
        for u, v in zip(p, q):
            if abs(u - v) > 1 + 0.02 * abs(u):
                return True
    if len(a) > 2:
        for p, q in zip(a[2], b[2]):
            if len(p) != len(q) or any(abs(u - v) > 40 for u, v in zip(p, q)):
                return True
    return False


DEMO = '''#!/bin/bash
# exit 0 when the results on the input beside this file are as expected
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/src/python PYTHONDONTWRITEBYTECODE=1
exec /opt/pycold-venv/bin/python "$D/demo.py"
'''


def clean():
    shutil.rmtree(copy, ignore_errors=True)
    shutil.rmtree(vlib.WORK, ignore_errors=True)


def plain(c):
    out = {k: v for k, v in c.items() if k in ("flat", "identify")}
    out["calls"] = [{a: (b.tolist() if hasattr(b, "tolist") else b) for a, b in q.items() if a != "cm"} for q in c["calls"]]
    return out


RUN = """import sys, json
sys.path.insert(0, "/verif/tools")
import demo_sccd
json.dump([demo_sccd.replay(c) for c in json.load(open(sys.argv[1]))], open(sys.argv[2], "w"))
"""


def replays(cs, py):
    open("/tmp/seed_run.py", "w").write(RUN)
    json.dump(cs, open("/tmp/seed_in.json", "w"))
    r = sh("PYTHONPATH=%s %s /tmp/seed_run.py /tmp/seed_in.json /tmp/seed_out.json" % (py, PY), timeout=600)
    return json.load(open("/tmp/seed_out.json")) if r.returncode == 0 else r.stdout[-400:]


if spec.get("fn") == "sccd":
    sys.path.insert(0, "/verif/tools")
    import demo_sccd
    for seed in range(1, 40):
        cs = pixgen.chains(70000 + seed, spec.get("n", 400), spec.get("fams"), **spec.get("kw", {}))
        for k, c in enumerate(cs):
            c.update(spec.get("set", {}))
            if spec.get("identify"):
                r = np.random.RandomState(k)
                c["identify"] = dict(spec["identify"], dist_conse=int(r.randint(1, 7)))
        cs = [plain(c) for c in cs]
        A, B = replays(cs, base), replays(cs, mut)
        if isinstance(A, str) or isinstance(B, str):
            sys.exit("failed: %s" % (A if isinstance(A, str) else B))
        hit = [k for k in range(len(cs)) if len(A[k]) != len(B[k]) or any(demo_sccd.differ(x, y) for x, y in zip(A[k], B[k]))]
        print("seed", seed, "differing", len(hit), "of", len(cs))
        if hit:
            break
    else:
        clean(); sys.exit("no input found")
    hit.sort(key=lambda k: sum(len(q["dates"]) for q in cs[k]["calls"]))
    for k in hit[:2]:
        j = [n for n, (x, y) in enumerate(zip(A[k], B[k])) if demo_sccd.differ(x, y)][0]
        print("conse", cs[k]["calls"][0]["conse"], "result", j, "want", str(A[k][j])[:300], "got", str(B[k][j])[:300])
    (S / "demo.json").write_text(json.dumps([dict(cs[k], want=A[k]) for k in hit[:2]]))
    shutil.copy("/verif/tools/demo_sccd.py", S / "demo.py")
    (S / "demo.sh").write_text(DEMO)
    clean()
    sys.exit(0)
ob = spec.get("fn", "cold") == "obcold"
for seed in range(1, 40):
    cs = (pixgen.obcases if ob else pixgen.cases)(90000 + seed, spec.get("n", 400), spec.get("fams"))
    if not spec.get("cm"):
        for c in cs:
            c["cm"] = None
    todo = [("obcold", c, c["breaks"]) if ob else ("cold", c) for c in cs]
    st, A = vlib.drive("drv_pixel", todo, base)
    st2, B = vlib.drive("drv_pixel", todo, mut)
    if st2 != "ok":
        print("mutant", st2, B[-300:]); break
    hit = [k for k in range(len(cs)) if A[k]["status"] == "ok" and differ(view(A[k]), view(B[k]))]
    print("seed", seed, "differing", len(hit), "of", len(cs))
    if hit:
        break
else:
    sys.exit("no input found")
hit.sort(key=lambda k: len(cs[k]["dates"]))
picks = hit[:2]
data = []
for k in picks:
    c = cs[k]
    data.append(dict(case={a: (b.tolist() if hasattr(b, "tolist") else b) for a, b in c.items()}, want=view(A[k])))
    print(c["fam"], len(c["dates"]), "want", view(A[k])[0], "got", view(B[k])[0])
(S / "demo.json").write_text(json.dumps(dict(fn="obcold" if ob else "cold", fields=FIELDS, cm=bool(spec.get("cm")), data=data)))
(S / "demo.py").write_text('''"""Records of given series; exit 1 where they are not the expected ones."""
import json, os, sys
import numpy as np
from pycold import cold_detect, obcold_reconstruct
d = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo.json")))
INT = ("t_start", "t_end", "t_break", "change_prob", "num_obs", "category", "pos")
bad = 0
for e in d["data"]:
    c = e["case"]
    b = np.array(c["bands"])
    a = [np.array(c["dates"])] + [b[j] for j in range(7)] + [np.array(c["qa"])]
    r = None
    try:
        if d["fn"] == "cold":
            kw = dict(t_cg=c["t_cg"], conse=c["conse"], b_c2=c["b_c2"], gap_days=c["gap_days"])
            if d["cm"] and c.get("cm"):
                kw.update(b_output_cm=True, starting_date=c["cm"]["starting_date"], n_cm=c["cm"]["n"], cm_output_interval=c["cm"]["interval"])
            r = cold_detect(*a, **kw)
        else:
            r = obcold_reconstruct(*a, np.array(c["breaks"]), conse=c["conse"], b_c2=c["b_c2"])
    except Exception as ex:
        print("raised", ex)
        bad += 1
        continue
    cm = None
    if isinstance(r, list):
        r, cm = r[0], r[1:]
    want = e["want"]
    got = [[int(q[f]) for f in d["fields"] if f in INT] for q in r]
    if got != want[0]:
        print("records", got, "expected", want[0])
        bad += 1
        continue
    for q, w in zip(r, want[1]):
        g = [float(v) for f in d["fields"] if f in ("magnitude", "rmse") for v in q[f]] + [float(v) for f in d["fields"] if f == "coefs" for v in np.ravel(q[f][:, 0])]
        if any(abs(u - v) > 1 + 0.02 * abs(v) for u, v in zip(g, w)):
            print("values", g, "expected", w)
            bad += 1
    if cm is not None and len(want) > 2:
        for p, w in zip(cm, want[2]):
            if len(p) != len(w) or any(abs(int(u) - v) > 40 for u, v in zip(p, w)):
                print("change magnitudes differ")
                bad += 1
sys.exit(1 if bad else 0)
''')
(S / "demo.sh").write_text('''#!/bin/bash
# exit 0 when the records of the series beside this file are as expected
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/src/python PYTHONDONTWRITEBYTECODE=1
exec /opt/pycold-venv/bin/python "$D/demo.py"
''')
shutil.rmtree(copy, ignore_errors=True)
shutil.rmtree(vlib.WORK, ignore_errors=True)
