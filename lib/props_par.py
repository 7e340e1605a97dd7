"""V01: parameter domains (spec/par)."""
import re
from concurrent.futures import ThreadPoolExecutor
import vlib

SPEC = vlib.VERIF / "spec/par"
REFUSALS = ("ValueError", "TypeError")


def drive(jobs, py):
    parts = [jobs[i::8] for i in range(8)]
    out = [None] * len(jobs)
    with ThreadPoolExecutor(8) as ex:
        for i, (st, g) in enumerate(ex.map(lambda p: vlib.drive("drv_par", p, py, 600), parts)):
            out[i::8] = g if st == "ok" else [(st, g)] * len(parts[i])
    return out


def crashed(o, jobs, got, py):
    """find the call that ends the process"""
    bad = [k for k, g in enumerate(got) if g[0] in ("crash", "hang")]
    while bad:
        with ThreadPoolExecutor(8) as ex:
            part, bad = bad[:8], bad[8:]
            for k, (st, g) in zip(part, ex.map(lambda k: vlib.drive("drv_par", [jobs[k]], py, 60), part)):
                if st != "ok":
                    o.violation("crash:" + jobs[k]["f"], "%s: the call %s ends the process: %s" % (st, jobs[k], g[-300:]))
                    return
                got[k] = g[0]


def V01(tier):
    o = vlib.Outcome("V01", tier, "model_checking")
    py = vlib.build_repo()
    t = vlib.tlc(SPEC / "DomainGen.tla")
    s = re.sub(r"\s+", " ", t.out)
    jobs, want = [], []
    for f, c, v in re.findall(r'<< ?"CALL", "(\w+)", (.*?), "(\w+)" ?>>', s):
        par = {p: (ty, int(n)) for p, ty, n in re.findall(r'(\w+) \|-> \[ ?t \|-> "(\w+)", n \|-> (-?\d+) ?\]', c)}
        jobs.append(dict(f=f, par=par))
        want.append(v)
    singles = {(j["f"], p, v): w for j, w in zip(jobs, want) if len(j["par"]) == 1 for p, v in j["par"].items()}
    if len(jobs) < 4000 or len(singles) < 400:
        raise vlib.CheckError("calls missing: %d" % len(jobs))
    for m, v in re.findall(r'<< ?"SHAPE", << ?(.*?>>) ?>>, "(\w+)" ?>>', s):
        dims = [[int(x) for x in d.split(",") if x.strip()] for d in re.findall(r"<<([^<>]*)>>", m)]
        if len(dims) != 9:
            raise vlib.CheckError("shape not read: " + m)
        for f in ("cold_detect", "obcold_reconstruct", "sccd_detect", "sccd_update"):
            jobs.append(dict(f=f, dims=dims))
            want.append(v)
    for d, v in re.findall(r'<< ?"BREAKS", <<([^<>]*)>>, "(\w+)" ?>>', s):
        jobs.append(dict(f="obcold_reconstruct", breaks=tuple(int(x) for x in d.split(",") if x.strip())))
        want.append(v)
    got = drive(jobs, py)
    crashed(o, jobs, got, py)
    for j, v, g in zip(jobs, want, got):
        kind, what = "par" if "par" in j else "shape", None
        if g[0] in ("crash", "hang"):
            continue
        if not g[2]:
            what = "changes the caller's series or pack"
        elif v == "accept" and (g[0] in REFUSALS or g[0] == "ok" and g[1] or "longer than the maximum" in g[1]):
            what = "is refused, though every parameter is within its domain: %s %s" % g[:2]
        elif v == "reject":
            if kind == "shape":
                if g[0] not in REFUSALS:
                    what = "is not refused: %s %s" % g[:2]
            elif g[0] == "RuntimeError" and "conse" in g[1] and any(p == "conse" and singles[j["f"], p, x] == "reject" for p, x in j["par"].items()):
                pass
            elif g[0] not in REFUSALS:
                what = "is not refused: %s %s" % g[:2]
            elif j["f"] not in g[1] or not any(p in g[1] and singles[j["f"], p, x] != "accept" for p, x in j["par"].items()):
                what = "is refused for another reason than the parameter outside its domain: %s" % g[1]
        if what:
            k = "%s:%s" % (j["f"], ",".join(sorted(p for p, x in j["par"].items() if singles[j["f"], p, x] != "accept")) if kind == "par" else "shape")
            o.violation(k, "%s with %s %s" % (j["f"], j.get("par", j.get("dims", j.get("breaks"))), what))
    o.cov.update(states=t.states, transitions=t.transitions, traces_validated_against_impl=len(jobs))
    o.samples += [str((j, w, g[:2]))[:300] for j, w, g in list(zip(jobs, want, got))[::len(jobs) // 5]]
    return o.finish()
