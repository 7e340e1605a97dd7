"""R01-R03: classification (spec/cls)."""
import json
import re
from concurrent.futures import ThreadPoolExecutor
import datetime as dt
import numpy as np
import vlib

SPEC = vlib.VERIF / "spec/cls"
NAN = 99999999
NAMES = ["a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "rmse"]


def count(o, t, traces=0):
    for k, v in (("states", t.states), ("transitions", t.transitions), ("traces_validated_against_impl", traces)):
        o.cov[k] = o.cov.get(k, 0) + v


def layout(r, big=False):
    nx, ny, w, h = (int(r.randint(1, 4)) for _ in range(4))
    if r.rand() < .12:         # block numbers of two digits
        nx, ny = [(3, 4), (11, 1), (1, 12), (5, 5)][r.randint(4)]
        w, h = min(w, 2), min(h, 2)
    if big:
        w, h = int(r.randint(5, 9)), int(r.randint(5, 9))
    return dict(nx=nx, ny=ny, w=w, h=h, ncol=nx * w, nrow=ny * h)


def july(y):
    return dt.date(y, 7, 1).toordinal()


def recs(r, L, years, slope=True, nan=True, tagged=False, none=.2):
    """records of a tile, block by block as the pipeline writes them; edges on the days asked for"""
    out = []
    edge = [july(y) for y in years]
    for b in range(1, L["nx"] * L["ny"] + 1):
        if r.rand() < .1:
            continue
        for i in range(L["w"] * L["h"]):
            row, col = ((b - 1) // L["nx"]) * L["h"] + i // L["w"], ((b - 1) % L["nx"]) * L["w"] + i % L["w"]
            if r.rand() < none:
                continue
            pos = row * L["ncol"] + col + 1
            n = int(r.randint(1, 4))
            pts = set()
            while len(pts) < 2 * n:
                pts.add(int(r.choice(edge)) + int(r.choice([0, 0, -1, 1, 2, -200, 150, -400, 500, int(r.randint(-900, 900))])))
            pts = sorted(pts)
            for k in range(n):
                c = r.randint(-3000, 9000, (7, 8))
                c[:, 1] = r.randint(-15, 16, 7) if slope else 0
                m = r.randint(1, 500, 7)
                if nan:
                    c[r.rand(7, 8) < .05] = NAN
                    m[r.rand(7) < .1] = NAN
                if tagged:
                    c[0, 2] = pos * 10 + k + 1
                out.append(dict(pos=pos, block=b, t0=pts[2 * k], t1=pts[2 * k + 1], coefs=c.tolist(), rmse=m.tolist()))
    return out


def drive(jobs, py, timeout=600):
    k = min(8, max(1, len(jobs) // 6))
    parts = [jobs[i::k] for i in range(k)]
    out = [None] * len(jobs)
    with ThreadPoolExecutor(k) as ex:
        for i, (st, g) in enumerate(ex.map(lambda p: vlib.drive("drv_cls", p, py, timeout), parts)):
            if st != "ok":
                raise vlib.CheckError("classifier driver: %s %s" % (st, g))
            out[i::k] = g
    return out


def judge(o, jobs, py):
    got = drive(jobs, py)
    rows, src = [], []
    for j, g in zip(jobs, got):
        if isinstance(g, str):
            o.violation("error:" + j["do"], "%s: %s on %s" % (j["do"], g, {k: v for k, v in j.items() if k not in ("recs", "rows", "label", "map")}))
        else:
            rows.append(dict({k: v for k, v in j.items() if k not in ("map", "order")}, got=g))
            src.append(j)
    k = max(1, min(8, len(rows) // 4))
    ps = []
    for i in range(k):
        f = vlib.WORK / ("cls-%s-%d.ndjson" % (o.pid, i))
        f.write_text("".join(json.dumps(x) + "\n" for x in rows[i::k]))
        ps.append((i, f, vlib.tlc_start(SPEC / "ClsConf.tla", envx=dict(CLS_TRACE=str(f)), heap="3g", meta=vlib.WORK / "meta" / ("cls-%s-%d" % (o.pid, i)))))
    for i, f, p in ps:
        t = vlib.tlc_wait(p)
        f.unlink()
        if '"SEEN"' not in t.out:
            raise vlib.CheckError("cases not read to the end\n" + t.out[-2000:])
        count(o, t, len(rows[i::k]))
        for m in re.findall(r'<<"WRONG", (\d+), "([^"]*)">>', t.out):
            x = rows[i::k][int(m[0]) - 1]
            o.violation(x["do"], "%s is not as specified: %s" % (m[1], json.dumps(x)))
    o.samples += [str({k: v for k, v in j.items() if k not in ("recs", "rows", "label", "map", "got")}) for j in src[::max(1, len(src) // 4)]]


def names(r):
    return [str(x) for x in (["a0", "a1", "b1"] if r.rand() < .3 else r.permutation(NAMES)[:int(r.randint(1, 10))])]


def years(r, n=None):
    y = int(r.randint(1985, 2018))
    return [y + k for k in range(n or int(r.randint(1, 4)))]


def R01(tier):
    o = vlib.Outcome("R01", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    r = np.random.RandomState(vlib.SEED)
    t = vlib.tlc(SPEC / "CoverGen.tla")
    cs = [([(int(x) // 10, int(x) % 10) for x in a.split(",")], int(d), int(k)) for a, d, k in re.findall(r'<<"COVER", <<([^>]*)>>, (\d+), (\d+)>>', re.sub(r"\s+", " ", t.out))]
    if len(cs) < 3000:
        raise vlib.CheckError("covers missing: %d" % len(cs))
    count(o, t, len(cs))
    got = drive([dict(do="cover", cases=[(a, d) for a, d, k in cs[i::8]]) for i in range(8)], py)
    for i in range(8):
        if isinstance(got[i], str):
            o.violation("cover", got[i])
            continue
        for (a, d, k), g in zip(cs[i::8], got[i]):
            want = [[k * 10 + 5] * 2, [k * 1000 + 1] * 2] if k else [[-9999] * 2] * 2
            if g != want:
                o.violation("cover", "records %s on day %d: features %s, not those of record %d" % (a, d, g, k))
    jobs = []
    for k in range(900 if deep else 90):
        L, ys = layout(r), years(r)
        rs = recs(r, L, ys)
        jobs.append(dict(L, do="features", kind="features", years=ys, names=names(r), bands=7 if r.rand() < .8 else int(r.randint(1, 7)), block=int(r.randint(1, L["nx"] * L["ny"] + 1)), recs=rs))
    judge(o, jobs, py)
    return o.finish()


def R02(tier):
    o = vlib.Outcome("R02", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    r = np.random.RandomState(vlib.SEED + 1)
    jobs = []
    for k in range(3000 if deep else 300):
        n = 8 if k % 3 else int(r.randint(2, 9))
        size = int(r.choice([0, 1, 5, 20, 100])) + r.randint(0, int(r.choice([2, 10, 60, 400])), n)
        size[r.rand(n) < .25] = 0
        if r.rand() < .3:
            size[r.randint(n)] += int(r.randint(100, 1500))
        if not size.sum():
            size[0] = 3
        rest = int(r.choice([0, 0, 1, 50]))
        fill = int(r.choice([0, n + 1, 255]))
        m = r.permutation(np.concatenate([np.full(s, c + 1) for c, s in enumerate(size)] + [np.full(rest, fill)]))
        tot = int(r.choice([200, 90, 1000, 37, 20000 if size.sum() < 3000 else 500]))
        jobs.append(dict(do="quota", kind="quota", counts=size.tolist(), total=tot, least=int(r.choice([0, 5, 20])), most=int(r.choice([30, 80, 400])), map=m.tolist(), shape=(1, len(m)), ltype=str(r.choice(["uint8", "int16", "float64"]))))
    for k in range(150 if deep else 24):
        L = layout(r, True)
        ys = years(r, int(r.randint(2, 5)))
        rs = recs(r, L, ys, nan=False, tagged=True, none=.1)
        lab = np.where(r.rand(L["nrow"] * L["ncol"]) < .6, r.choice([1, 4]), r.choice([1, 2, 3, 5, 6, 7, 8] + [0, 255, 9] * (k % 2), L["nrow"] * L["ncol"]))
        if not ((lab > 0) & (lab < 9)).any():
            lab[0] = 2
        nm = ["a1"] + [x for x in names(r) if x != "a1"]
        y = ys[int(r.randint(len(ys)))]
        jobs.append(dict(L, do="samples", kind="samples", years=ys, year=y, defyear=y if k % 2 else ys[0], implicit=bool(k % 2), names=nm, bands=7, recs=rs, label=[int(x) for x in lab],
                         counts=[int((lab == c).sum()) for c in range(1, 9)], total=int(r.choice([40, 100, 400])), least=int(r.choice([2, 8])), most=int(r.choice([20, 60, 200])),
                         order=[int(b) for b in r.permutation(L["nx"] * L["ny"]) + 1]))
    judge(o, jobs, py)
    return o.finish()


def R03(tier):
    o = vlib.Outcome("R03", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    r = np.random.RandomState(vlib.SEED + 2)
    jobs = []
    for k in range(600 if deep else 60):
        L, ys = layout(r), years(r)
        rs = recs(r, L, ys, slope=False)
        jobs.append(dict(L, do="maps", kind="maps", years=ys, names=names(r), bands=7, recs=rs, order=[int(b) for b in r.permutation(L["nx"] * L["ny"]) + 1],
                         outdir=bool(r.rand() < .4), tmpdir=bool(r.rand() < .3), clean=bool(r.rand() < .6)))
    for k in range(400 if deep else 60):
        L = layout(r, k % 4 == 0)
        nm = names(r)
        n = L["w"] * L["h"] if k % 2 else L["ncol"] * L["nrow"]
        rows = r.randint(-200, 4000, (n, 7 * len(nm)))
        rows[r.rand(n) < .2] = -9999
        part = r.rand(n) < .2
        rows[part, 0] = -9999
        rows[r.rand(n) < .1, 1:] = -9999
        jobs.append(dict(L, do="block" if k % 2 else "now", kind="block", years=[2000], names=nm, bands=7, rows=rows.tolist(), recs=[], clean=bool(r.rand() < .5)))
    judge(o, jobs, py)
    return o.finish()
