"""P01-P04: preparing stacks from images (spec/prep)."""
import json
import re
from concurrent.futures import ThreadPoolExecutor
import datetime as dt
import numpy as np
import vlib

SPEC = vlib.VERIF / "spec/prep"
LAYOUTS = ["ARD", "ARD-C2", "C2", "HLS", "HLS14"]
# raw values of each class; fill is what the images hold outside their scene
GOOD = {"ARD": dict(clear=[66, 2, 322], water=[68, 4, 132], shadow=[72, 10, 8], snow=[80, 16, 18], cloud=[96, 224, 40, 48], fill=[1]),
        "ARD-C2": dict(clear=[21824, 64, 21888 - 64], water=[21952, 128, 192], shadow=[23888, 16, 80], snow=[30048, 32, 96], cloud=[22280, 8, 21826, 24, 66, 56], fill=[1]),
        "HLS": dict(clear=[0, 64, 192, 128, 1], water=[32, 96, 33], shadow=[8, 40, 72], snow=[16, 48], cloud=[2, 4, 6, 12, 20, 36], fill=[255])}
GOOD["C2"], GOOD["HLS14"] = GOOD["ARD-C2"], GOOD["HLS"]


def count(o, t, traces=0):
    for k, v in (("states", t.states), ("transitions", t.transitions), ("traces_validated_against_impl", traces)):
        o.cov[k] = o.cov.get(k, 0) + v


def layout(r):
    nx, ny, w, h = (int(x) for x in r.randint(1, 4, 4))
    if r.rand() < .2:
        nx, ny = [(3, 4), (1, 11), (6, 2), (4, 1)][r.randint(4)]
        w, h = min(w, 2), min(h, 2)
    return dict(nx=nx, ny=ny, w=w, h=h, ncol=nx * w, nrow=ny * h)


def image(r, j, date, broken=""):
    lay, n = j["layout"], j["ncol"] * j["nrow"]
    g = GOOD[lay]
    kinds = ["clear", "water", "shadow", "snow", "cloud", "fill"]
    p = r.dirichlet([.5] * 6)
    ks = r.choice(6, n, p=p)
    bad = r.rand(j["ny"], j["nx"]) < .4          # whole blocks with nothing to see
    for b in zip(*np.nonzero(bad)):
        for q in range(j["w"] * j["h"]):
            ks[(b[0] * j["h"] + q // j["w"]) * j["ncol"] + b[1] * j["w"] + q % j["w"]] = r.choice([2, 4, 4, 5])
        if r.rand() < .4:
            q = int(r.randint(j["w"] * j["h"]))
            ks[(b[0] * j["h"] + q // j["w"]) * j["ncol"] + b[1] * j["w"] + q % j["w"]] = r.choice([0, 1, 3])
    if r.rand() < .1:
        ks[:] = 5
    qa = [int(r.choice(g[kinds[k]])) for k in ks]
    if lay in ("ARD-C2", "C2"):
        bands = r.randint(1, 65536, (7, n))
    else:
        bands = r.randint(-2000, 16000, (7, n))
    pad = [0, 0, 0, 0]
    if lay == "C2":
        pad = [int(x) for x in r.randint(-1, 4, 4)]
        if j["nrow"] + pad[0] + pad[2] < 1 or j["nrow"] < 3 or j["ncol"] < 3:
            pad = [max(0, x) for x in pad]
        q = np.array(qa).reshape(j["nrow"], j["ncol"])
        b = bands.reshape(7, j["nrow"], j["ncol"])
        rows, cols = np.arange(j["nrow"]), np.arange(j["ncol"])
        out = (rows < -pad[0])[:, None] | (rows >= j["nrow"] + pad[2])[:, None] | (cols < -pad[1])[None] | (cols >= j["ncol"] + pad[3])[None]
        q[out] = 1
        b[:, out] = 0
        qa = [int(x) for x in q.ravel()]
    return dict(date=date, sensor=str(r.choice(list("45789") if lay in ("ARD", "ARD-C2", "C2") else list("LS"))), path=int(r.choice([11, 12, 13])), qa=qa, bands=bands.tolist(), broken=broken, lost=int(r.randint(6)), pad=pad, fine=not broken)


def job(r, lay, kinds, images=None, broken=False, single=None, least=None, bounds=None, ranks=None, cut=True):
    j = dict(layout(r), layout=lay)
    n = images or int(r.randint(1, 5))
    y = int(r.randint(1984, 2021))
    dates = set()
    while len(dates) < n:
        y0 = dt.date(y + int(r.randint(0, 3)), 1, 1).toordinal()
        dates.add(y0 + int(r.choice([0, 58, 59, 60, 364, 365, int(r.randint(0, 366))])))
    dates = [int(x) for x in r.permutation(sorted(dates))]
    what = {"ARD": ["tar", "qa", "band", "bt", "bt tar", "bt band"], "C2": ["tar", "qa", "band"], "HLS": ["tar", "qa", "band"], "HLS14": ["tar"]}
    what["ARD-C2"] = what["ARD"]
    j["imgs"] = [image(r, j, d, str(r.choice(what[lay])) if broken and r.rand() < .35 else "") for d in dates]
    if broken and all(m["broken"] for m in j["imgs"]):
        m = j["imgs"][0]
        m["broken"], m["fine"] = "", True
    pick = lambda: int(r.choice(dates)) + int(r.choice([0, 0, 1, -1, 40, -40]))
    low = pick() if bounds and r.rand() < .7 else None
    upp = pick() if bounds and r.rand() < .7 else None
    if low is not None and upp is not None and low > upp:
        low, upp = upp, low
    ard = lay.startswith("ARD")
    single = ard and bool(r.rand() < .5 if single is None else single)
    own = [int(x) for x in r.choice([11, 12, 13], j["ncol"] * j["nrow"], p=r.dirichlet([1] * 3))]
    least = int(r.choice([0, 125, 250, 500, 750, 875]) if least is None else least)
    if least and r.rand() < .4:       # exactly as clear as asked for
        m = j["imgs"][0]
        g = GOOD[lay]
        k = len(m["qa"]) // 8 * 8
        if k and lay != "C2":
            c = least * k // 1000
            m["qa"] = [int(x) for x in r.permutation([int(r.choice(g["clear"] + g["water"])) for _ in range(c)] + [int(r.choice(g["snow"] + g["shadow"] + g["cloud"])) for _ in range(k - c)] + g["fill"] * (len(m["qa"]) - k))]
    ranks = ranks or 1
    j.update(kinds=kinds, low=low, upp=upp, ask=dict(lo=low or 0, hi=upp or 999999, least=least), least=least, single=single, own=own, n=ranks, turns=[int(x) for x in r.randint(0, 12, 80)], ready=bool(r.rand() < .3),
             cut=cut, hpc=bool(r.rand() < .6), tile=(int(r.randint(0, 4)), int(r.randint(0, 4))), id=int(r.randint(1, 5)))
    if not cut:
        j.update(nx=1, ny=1, w=j["ncol"], h=j["nrow"])
    return j


def drive(jobs, py, timeout=800):
    k = min(8, max(1, len(jobs) // 4))
    parts = [jobs[i::k] for i in range(k)]
    out = [None] * len(jobs)
    with ThreadPoolExecutor(k) as ex:
        for i, (st, g) in enumerate(ex.map(lambda p: vlib.drive("drv_prep", p, py, timeout), parts)):
            if st != "ok":
                raise vlib.CheckError("preparation driver: %s %s" % (st, g))
            out[i::k] = g
    return out


def brief(j):
    return dict({k: v for k, v in j.items() if k not in ("imgs", "turns", "own", "got")}, imgs=[(m["date"], m["sensor"], m["path"], m["broken"]) for m in j["imgs"]])


def judge(o, rows):
    k = max(1, min(8, len(rows) // 4))
    ps = []
    for i in range(k):
        f = vlib.WORK / ("prep-%s-%d.ndjson" % (o.pid, i))
        f.write_text("".join(json.dumps(x) + "\n" for x in rows[i::k]))
        ps.append((i, f, vlib.tlc_start(SPEC / "PrepConf.tla", envx=dict(PREP_TRACE=str(f)), heap="3g", meta=vlib.WORK / "meta" / ("prep-%s-%d" % (o.pid, i)))))
    for i, f, p in ps:
        t = vlib.tlc_wait(p)
        f.unlink()
        if '"SEEN"' not in t.out:
            raise vlib.CheckError("cases not read to the end\n" + t.out[-2000:])
        count(o, t, len(rows[i::k]))
        for m in re.findall(r'<<"WRONG", (\d+), "([^"]*)">>', t.out):
            x = rows[i::k][int(m[0]) - 1]
            o.violation(m[1], "%s not as specified (%s): %s" % (m[1], x["layout"], json.dumps(x)))


def run(o, jobs, py):
    got = drive(jobs, py)
    rows = []
    for j, g in zip(jobs, got):
        if isinstance(g, str):
            o.violation("error", "preparing %s failed: %s; %s" % (j["layout"], g, json.dumps(brief(j))))
        else:
            rows.append(dict({k: v for k, v in j.items() if k not in ("turns", "low", "upp")}, **g))
    if rows:
        judge(o, rows)
    o.samples += [str(brief(j)) for j in jobs[::max(1, len(jobs) // 4)]]


def P01(tier):
    """every raw value of a pixel, through the whole preparation"""
    o = vlib.Outcome("P01", tier, "model_checking")
    py = vlib.build_repo()
    r = np.random.RandomState(vlib.SEED)
    jobs = []
    for lay in LAYOUTS:
        for rep in range(1 if tier == "quick" else 4):
            n = 16 if lay.startswith("HLS") else 256
            j = dict(nx=1, ny=1, w=n, h=n, ncol=n, nrow=n, layout=lay)
            qa = r.permutation(n * n)
            m = dict(date=730000 + int(r.randint(3000)), sensor="8" if n == 256 else "L", path=11, qa=qa.tolist(), bands=np.ones((7, n * n), int).tolist(), broken="", lost=0, pad=[0] * 4, fine=True)
            j.update(imgs=[m], kinds=["classes"], low=None, upp=None, least=0, ask={}, single=False, own=[11] * (n * n), n=1, turns=[0], ready=False, cut=True, hpc=lay != "ARD", tile=(1, 1), id=2)
            jobs.append(j)
    for k in range(40 if tier == "quick" else 200):
        jobs.append(job(r, LAYOUTS[k % 5], ["content"], least=0))
    got = drive(jobs, py)
    rows = []
    for j, g in zip(jobs, got):
        if isinstance(g, str) or (j["kinds"] == ["classes"] and not g["got"]):
            o.violation("error", "preparing %s failed: %s" % (j["layout"], g))
        elif j["kinds"] == ["classes"]:
            back = [0] * len(j["imgs"][0]["qa"])
            for q, c in zip(j["imgs"][0]["qa"], g["got"][0]["bands"][7]):
                back[q] = c
            rows.append(dict(layout=j["layout"], kinds=["classes"], got=back))
        else:
            rows.append(dict({k: v for k, v in j.items() if k not in ("turns", "low", "upp")}, **g))
    judge(o, rows)
    o.samples += ["every raw value of " + lay for lay in LAYOUTS]
    return o.finish()


def P02(tier):
    o = vlib.Outcome("P02", tier, "model_checking")
    py = vlib.build_repo()
    r = np.random.RandomState(vlib.SEED + 1)
    jobs = [job(r, LAYOUTS[k % 5], ["files", "content"] if k % 6 else ["whole"], least=0, cut=k % 6 > 0) for k in range(1200 if tier != "quick" else 160)]
    run(o, jobs, py)
    return o.finish()


def P03(tier):
    o = vlib.Outcome("P03", tier, "model_checking")
    py = vlib.build_repo()
    r = np.random.RandomState(vlib.SEED + 2)
    jobs = [job(r, LAYOUTS[k % 5], ["files", "content", "span"], bounds=True) for k in range(1200 if tier != "quick" else 160)]
    run(o, jobs, py)
    return o.finish()


def P04(tier):
    o = vlib.Outcome("P04", tier, "model_checking")
    py = vlib.build_repo()
    r = np.random.RandomState(vlib.SEED + 3)
    t = vlib.tlc(SPEC / "PrepMC.tla", workers=4)
    if t.states < 2000:
        raise vlib.CheckError("preparation model too small: %d" % t.states)
    count(o, t)
    jobs = [job(r, LAYOUTS[k % 5], ["files", "content", "span"], images=int(r.randint(1, 7)), broken=k % 3 > 0, least=0, ranks=int(r.randint(1, 5))) for k in range(900 if tier != "quick" else 140)]
    run(o, jobs, py)
    return o.finish()
