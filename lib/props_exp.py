"""M01-M04: maps exported from change records (spec/exp)."""
import json
import re
from concurrent.futures import ThreadPoolExecutor
import datetime as dt
import numpy as np
import vlib

SPEC = vlib.VERIF / "spec/exp"
NAN = 99999999
METHODS = ["COLD", "OBCOLD", "SCCDOFFLINE"]
NAMES = ["a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "cv", "rmse"]


def count(o, t, traces=0):
    for k, v in (("states", t.states), ("transitions", t.transitions), ("traces_validated_against_impl", traces)):
        o.cov[k] = o.cov.get(k, 0) + v


def day(y, m=1, d=1):
    return dt.date(y, m, d).toordinal()


def layout(r):
    nx, ny, w, h = (int(x) for x in r.randint(1, 4, 4))
    if r.rand() < .15:
        nx, ny = [(3, 4), (1, 11), (6, 2), (4, 1)][r.randint(4)]
        w, h = min(w, 2), min(h, 2)
    return dict(nx=nx, ny=ny, w=w, h=h, ncol=nx * w, nrow=ny * h)


def mags(r, method):
    c = 250 if method == "OBCOLD" else 200
    if r.rand() < .45:            # greener, or nearly
        m = r.randint(-900, c - 1, 7)
        m[3] = r.randint(-c + 1, 900)
        if r.rand() < .5:
            i = int(r.choice([2, 3, 4]))
            m[i] = int(r.choice([c, c + 1, c - 1, 260])) * (-1 if i == 3 else 1)
    else:
        m = r.randint(-900, 900, 7)
        if r.rand() < .2:
            m[r.randint(7)] = 0
    return [int(x) for x in m]


def pixel(r, method, lo, hi, coefs):
    """records of a pixel in order; years asked for at their edges"""
    n = int(r.choice([1, 1, 2, 3, 4]))
    span = (hi - lo + 3) * 365
    if coefs:
        edge = [x for y in range(lo, hi + 1) for x in (day(y, 7), day(y, 7) + 1, day(y, 12, 31), day(y))]
        pts = set()
        while len(pts) < 3 * n:
            pts.add(int(r.choice(edge)) + int(r.choice([0, 0, -1, 1, -200, 150, 300, int(r.randint(-900, 900))])))
        pts = sorted(pts)
    else:
        pts, d = [], day(lo) - int(r.randint(0, 900))
        if r.rand() < .5:         # regeneration needs breaks within five years
            span = min(span, 5 * 365 * n)
        for k in range(n):
            brk = d + int(r.randint(20, max(40, span // n)))
            if r.rand() < .3:
                y = int(r.randint(lo - 1, hi + 2))
                e = [day(y), day(y, 12, 31), day(y, 2, 28) + 1, day(y, 3, 1)][r.randint(4)]
                if e > d + 10:
                    brk = e
            pts += [d, brk - int(r.randint(1, 9)), brk]
            d = brk + int(r.choice([0, 1, 16, 300]))
    out = []
    flip = r.rand() < .6
    for k in range(n):
        t0, t1, brk = pts[3 * k:3 * k + 3]
        last = k == n - 1
        prob = 100
        if last and r.rand() < .6:
            brk, prob = (0, 0) if r.rand() < .5 else (brk, int(r.choice([50, 16, 83])))
        elif method == "COLD" and r.rand() < .15:
            prob = int(r.choice([0, 99]))        # records before a stable model
        if method == "SCCDOFFLINE" and last and prob < 100:
            brk, prob = 0, 0
        m = mags(r, method)
        if flip and k and out[-1]["mag"] and r.rand() < .8:
            m = [-x for x in out[-1]["mag"]]
            if r.rand() < .5:
                i = int(r.randint(7))
                m[i] = -m[i]
        if coefs:
            c = r.randint(-3000, 9000, (7, 8))
            c[:, 1] = r.randint(-15, 16, 7)
            e = r.randint(1, 500, 7)
            c[r.rand(7, 8) < .05] = NAN
            e[r.rand(7) < .1] = NAN
            sl = [int(x) for x in c[2:5, 1]]
            sl = [0 if x == NAN else x for x in sl]
            out.append(dict(t0=t0, t1=t1, brk=brk, prob=prob, mag=m, sl=sl, coefs=c.tolist(), rmse=e.tolist()))
        else:
            a = [int(x) for x in r.randint(-60, 61, 3)]
            if k and r.rand() < .6:
                p = [abs(x) for x in out[-1]["sl"]]
                a = [-p[0] - 1, p[1] + 1, -p[2] - 1]
                if r.rand() < .4:
                    i = int(r.randint(3))
                    a[i] += 1 if i != 1 else -1
            out.append(dict(t0=t0, t1=t1, brk=brk, prob=prob, mag=m, sl=a))
    if method == "SCCDOFFLINE":     # an S-CCD record has a break
        out = [x for x in out if x["brk"] > 0 or r.rand() < .2]
    return out


def job(r, method, coefs=False, L=None):
    L = L or layout(r)
    lo = int(r.randint(1984, 2016))
    hi = lo + int(r.choice([0, 1, 3, 6, 12]))
    if coefs:
        hi = min(hi, lo + 2)
    px = [pixel(r, method, lo, hi, coefs) if r.rand() > .15 else [] for _ in range(L["ncol"] * L["nrow"])]
    nb = L["nx"] * L["ny"]
    missing = [b for b in range(1, nb + 1) if r.rand() < .12] if r.rand() < .5 else []
    for b in range(1, nb + 1):
        quiet = b in missing or r.rand() < .06
        if quiet:
            by, bx = (b - 1) // L["nx"], (b - 1) % L["nx"]
            for q in range(L["w"] * L["h"]):
                px[(by * L["h"] + q // L["w"]) * L["ncol"] + bx * L["w"] + q % L["w"]] = []
    n = int(r.choice([1, 2, 3, nb, nb + 1, 5]))
    n = min(n, 9)
    j = dict(L, method=method, lo=lo, hi=hi, px=px, missing=missing, n=n, turns=[int(x) for x in r.randint(0, 12, 60)], ready=bool(r.rand() < .3))
    if coefs:
        j.update(names=[str(x) for x in r.permutation(NAMES)[:int(r.randint(1, 4))]], bands=[int(x) for x in sorted(r.permutation(7)[:int(r.randint(1, 4))] + 1)], spaced=bool(r.rand() < .5))
        if r.rand() < .3:
            j["bands"].reverse()
    return j


def drive(jobs, py, timeout=800):
    k = min(8, max(1, len(jobs) // 4))
    parts = [jobs[i::k] for i in range(k)]
    out = [None] * len(jobs)
    with ThreadPoolExecutor(k) as ex:
        for i, (st, g) in enumerate(ex.map(lambda p: vlib.drive("drv_exp", p, py, timeout), parts)):
            if st != "ok":
                raise vlib.CheckError("export driver: %s %s" % (st, g))
            out[i::k] = g
    return out


def brief(j):
    return {k: v for k, v in j.items() if k not in ("px", "turns")}


def judge(o, jobs, py, kind):
    got = drive(jobs, py)
    rows, src = [], []
    for j, g in zip(jobs, got):
        if isinstance(g, str):
            o.violation("error", "exporting failed: %s on %s" % (g, json.dumps(j)))
        else:
            rows.append(dict({k: v for k, v in j.items() if k not in ("turns", "missing")}, kind=kind, **g))
            src.append(j)
    k = max(1, min(8, len(rows) // 4))
    ps = []
    for i in range(k):
        f = vlib.WORK / ("exp-%s-%d.ndjson" % (o.pid, i))
        f.write_text("".join(json.dumps(x) + "\n" for x in rows[i::k]))
        ps.append((i, f, vlib.tlc_start(SPEC / "ExpConf.tla", envx=dict(EXP_TRACE=str(f)), heap="3g", meta=vlib.WORK / "meta" / ("exp-%s-%d" % (o.pid, i)))))
    for i, f, p in ps:
        t = vlib.tlc_wait(p)
        f.unlink()
        if '"SEEN"' not in t.out:
            raise vlib.CheckError("cases not read to the end\n" + t.out[-2000:])
        count(o, t, len(rows[i::k]))
        for m in re.findall(r'<<"WRONG", (\d+), "([^"]*)">>', t.out):
            x = rows[i::k][int(m[0]) - 1]
            o.violation(kind, "%s is not as specified: %s" % (m[1], json.dumps(x)))
    o.samples += [str(brief(j)) for j in src[::max(1, len(src) // 4)]]


def mc(o):
    t = vlib.tlc(SPEC / "ExpMC.tla", workers=4)
    if t.states < 1500:
        raise vlib.CheckError("export model too small: %d" % t.states)
    count(o, t)


def M01(tier):
    o = vlib.Outcome("M01", tier, "model_checking")
    py = vlib.build_repo()
    r = np.random.RandomState(vlib.SEED)
    mc(o)
    judge(o, [job(r, METHODS[k % 3]) for k in range(1500 if tier != "quick" else 150)], py, "dates")
    return o.finish()


def M02(tier):
    o = vlib.Outcome("M02", tier, "model_checking")
    py = vlib.build_repo()
    r = np.random.RandomState(vlib.SEED + 1)
    t = vlib.tlc(SPEC / "TypeGen.tla", workers=4)
    cs = [(json.loads("[" + a.replace("<<", "[").replace(">>", "]") + "]"), int(k), [int(x) for x in w.split(",")])
          for a, k, w in re.findall(r'<<"TYPE",<<(.*?)>>,(\d),<<(\d,\d,\d)>>>>', re.sub(r"\s+", "", t.out))]
    if len(cs) < 7500:
        raise vlib.CheckError("types missing: %d" % len(cs))
    count(o, t, 3 * len(cs))
    jobs, part = [], []
    for m in range(3):
        # the third method knows no probability and no record without a break
        for s in range(0, len(cs), 1000):
            c = cs[s:s + 1000]
            px = [[dict(t0=b - 300 if b else 731000, t1=b - 8 if b else 731900, brk=b, prob=p, mag=g, sl=z) for b, p, g, z in rs if b or m < 2] for rs, k, w in c]
            w = next(x for x in (25, 20, 10, 8, 7, 5, 4, 3, 2, 1) if len(c) % x == 0)
            h = len(c) // w
            jobs.append(dict(nx=1, ny=1, w=w, h=h, ncol=w, nrow=h, method=METHODS[m], lo=2000, hi=2006, px=px, missing=[], n=1, turns=[0], ready=True))
            part.append((m, c))
    for j, (m, c), g in zip(jobs, part, drive(jobs, py)):
        if isinstance(g, str):
            o.violation("error", "exporting %d kinds of breaks: %s" % (len(c), g))
            continue
        for i, (rs, k, w) in enumerate(c):
            d = rs[k - 1][0]
            y = dt.date.fromordinal(d).year
            v = g["maps"][y - 2000][i]
            if v != w[m] * 1000 + d - day(y) + 1:
                o.violation("type", "%s: records (break, probability, magnitude, slopes) %s: the map has %d, the type is %d" % (j["method"], rs, v, w[m]))
    judge(o, [job(r, METHODS[k % 3]) for k in range(1500 if tier != "quick" else 200)], py, "kinds")
    return o.finish()


def M03(tier):
    o = vlib.Outcome("M03", tier, "model_checking")
    py = vlib.build_repo()
    r = np.random.RandomState(vlib.SEED + 2)
    judge(o, [job(r, METHODS[k % 3]) for k in range(1500 if tier != "quick" else 150)], py, "years")
    return o.finish()


def M04(tier):
    o = vlib.Outcome("M04", tier, "model_checking")
    py = vlib.build_repo()
    r = np.random.RandomState(vlib.SEED + 3)
    judge(o, [job(r, METHODS[k % 2], True) for k in range(1000 if tier != "quick" else 120)], py, "coefs")
    return o.finish()
