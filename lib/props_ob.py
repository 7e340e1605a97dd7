"""O01-O04: object analysis (spec/ob)."""
import json
import re
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vlib

SPEC = vlib.VERIF / "spec/ob"
NA = -9999
PEAK = 923636          # chi2(.90, 5) * 1e5
LOW = 606443           # chi2(.70, 5) * 1e5
K = np.exp(-.5 * np.arange(-4, 5) ** 2)


def smooth(v):
    """as ObNum.NumSmooth: only used to keep generated maps away from rounding"""
    h, w = v.shape
    p = np.pad(v, 4, mode="edge").astype(float)
    ok = p >= 0
    s = np.zeros((h, w))
    n = np.zeros((h, w))
    for i in range(9):
        for j in range(9):
            q, o = p[i:i + h, j:j + w], ok[i:i + h, j:j + w]
            s += np.where(o, q, 0) * K[i] * K[j]
            n += o * K[i] * K[j]
    return np.where(v >= 0, s / np.maximum(n, 1e-9), -1)


def segmented(c):
    h, w = c["h"], c["w"]
    cm, l1 = (np.array(c[k]).reshape(h, w) for k in ("cm", "l1"))
    if c["prob"]:
        l1 = np.where(l1 < c["peak"], 0, l1)
        v = np.where(cm == 0, l1, cm)
        v = np.where(v == 0, -1, v)
    else:
        if c["method"] == "floodfill":
            l1 = np.where(l1 * 1000 < c["peak"], NA, l1)
        v = np.where(cm == NA, l1, cm)
        v = np.where(v == NA, -1, v * 1000)
    least = c["peak"] * (100 - c["ratio"]) // 100 if c["method"] == "floodfill" else c["low"]
    return np.where(v >= least, v, -1), least


def clear(c):
    """no comparison of the case is a matter of rounding"""
    v, least = segmented(c)
    raw = np.array(c["cm"] + c["l1"]) * (1 if c["prob"] else 1000)
    if (np.abs(raw - least) < 5).any() or (np.abs(raw - c["peak"]) < 5).any():
        return False
    s = smooth(v)
    x = np.rint(s[v >= 0]).astype(np.int64)
    if not len(x):
        return True
    if c["method"] != "floodfill":
        return (np.abs(x - c["low"]) > 5).all()
    if (np.abs(x - c["peak"]) < 5).any():
        return False
    # pixels of separate groups never meet
    from scipy.ndimage import label
    lab, _ = label(v >= 0, np.ones((3, 3)))
    whole = np.rint(s).astype(np.int64)
    for g in range(1, lab.max() + 1):
        x = whole[lab == g]
        pk = np.unique(x[x > c["peak"]])
        if len(pk) != (x > c["peak"]).sum():
            # equal peaks: only if they are the only value around (a flat map), where the order does not matter
            if len(np.unique(x)) > 1:
                return False
        for s0 in pk:
            if (np.abs(np.abs(x - s0) - s0 * c["ratio"] / 100) < 5 + s0 * 2e-7).any():
                return False
    return True


def case(r, h, w, method="floodfill", prob=False, flat=False, dense=False, start=None):
    """a snapshot: groups of pixels that changed about the same time over weak noise, holes, and an earlier snapshot"""
    for _ in range(200):
        start = start or int(r.randint(724000, 730000))
        when = start + int(r.randint(200, 4000))
        yy, xx = np.mgrid[:h, :w]
        cm = r.randint(0, 900 if not dense else 1500, (h, w)).astype(float)
        date = when - r.randint(0, 60, (h, w))
        for _ in range(int(r.randint(1, 5)) + dense * 4):
            cy, cx, ra = r.randint(h), r.randint(w), r.uniform(.5, max(h, w) / 2)
            m = (yy - cy) ** 2 * r.uniform(.3, 3) + (xx - cx) ** 2 < ra ** 2
            cm[m] = r.uniform(900, 4000) * r.uniform(.75, 1.2, m.sum())
            t = when - r.randint(0, 300)
            date[m] = t + r.choice([0, 0, 0, 1, 30, 59, 60, 61, 90], m.sum()) if r.rand() < .5 else t
        if flat:
            cm[:] = r.choice([900, 1100, 2000])
            date[:] = when
        cm = np.rint(cm).astype(np.int64)
        hole = r.rand(h, w) < r.choice([0, .1, .3, .6])
        cm[hole] = NA
        date[hole & (r.rand(h, w) < .9)] = NA
        l1 = np.where(r.rand(h, w) < .5, NA, r.randint(300, 3500, (h, w)))
        d1 = np.where(l1 == NA, NA, when - 60 - r.randint(0, 60, (h, w)))
        if prob:                    # probabilities in 1e5 units
            f = lambda a: np.where(a == NA, 0, np.minimum(a * 25, 100000) // 8 * 8)
            cm, l1 = f(cm), f(l1)
        c = dict(h=h, w=w, cm=cm.ravel().tolist(), date=date.ravel().tolist(), l1=l1.ravel().tolist(), l1date=d1.ravel().tolist(), prob=bool(prob), method=method,
                 ratio=40 if r.rand() < .6 else int(r.choice([10, 25, 50, 60])), interval=60, peak=50000 if prob else PEAK, peakgiven=False, low=LOW, lowgiven=None,
                 when=when, start=start, step=60, uniform=[], years=[], maps=[], use=0, ctype="uint8", bx=1, by=1)
        if method == "floodfill" and r.rand() < .25:
            c["interval"] = int(r.choice([30, 90, 5]))
        if method == "floodfill" and r.rand() < .25 and not prob:
            c["peakgiven"], c["peak"] = True, int(r.choice([700000, 1200000]))
        if method != "floodfill" and r.rand() < .3:
            c["lowgiven"] = 9.5
            c["low"] = 950000
        if c["peakgiven"]:      # the earlier snapshot is still measured by the default peak
            a = np.array(c["l1"])
            lo, hi = sorted((PEAK // 1000, c["peak"] // 1000))
            c["l1"] = np.where((a >= lo - 1) & (a <= hi + 1), NA, a).tolist()
        if clear(c):
            return c
    raise vlib.CheckError("no clear case")


def scattered(r, h, w):
    """many small groups of changes: more labels than the mask holds"""
    for _ in range(200):
        c = case(r, 3, 3)
        t, start = c["when"], c["start"]
        cm, date = np.full((h, w), NA), np.full((h, w), NA)
        for y in range(0, h, 2):
            for x in range(0, w, 2):
                if r.rand() < .93:
                    cm[y, x], date[y, x] = r.randint(1000, 6000), t - r.randint(0, 200)
                if r.rand() < .12 and x + 1 < w:
                    cm[y, x + 1], date[y, x + 1] = r.randint(700, 5000), t - r.randint(0, 200)
        c.update(h=h, w=w, cm=cm.ravel().tolist(), date=date.ravel().tolist(), l1=[NA] * (h * w), l1date=[NA] * (h * w), kind="seg")
        if clear(c):
            return c
    raise vlib.CheckError("no clear case")


def themes(r, c, direct=False):
    """land cover maps of some years"""
    import datetime as dt
    y0, y1 = dt.date.fromordinal(c["start"]).year, dt.date.fromordinal(c["when"]).year
    c["years"] = list(range(y0, max(y1, y0 + 1) + 1))
    c["maps"] = []
    for y in c["years"]:
        k = r.choice(3)
        m = r.randint(1, 9, c["h"] * c["w"]) if k == 0 else np.where(r.rand(c["h"] * c["w"]) < .6, r.randint(1, 9), r.choice([1, 2, 4, 5, 255], c["h"] * c["w"]))
        c["maps"].append([int(x) for x in m])
    c["use"] = max(0, y1 - 1 - y0)
    return c


def count(o, t, traces=0):
    for k, v in (("states", t.states), ("transitions", t.transitions), ("traces_validated_against_impl", traces)):
        o.cov[k] = o.cov.get(k, 0) + v


def model(o, deep):
    for h, w, d in [(1, 4, 3), (2, 2, 3)] + ([(2, 3, 2), (1, 5, 3)] if deep else []):
        count(o, vlib.tlc(SPEC / "SegMC.tla", workers=6, heap="8g", envx=dict(S_H=str(h), S_W=str(w), S_DAYS=str(d)), timeout=3000))


def drive(jobs, py, timeout=600):
    k = min(8, max(1, len(jobs) // 10))
    parts = [jobs[i::k] for i in range(k)]
    out = [None] * len(jobs)
    with ThreadPoolExecutor(k) as ex:
        for i, (st, r) in enumerate(ex.map(lambda p: vlib.drive("drv_ob", p, py, timeout), parts)):
            if st != "ok":
                r = ["%s: %s" % (st, r)] * len(parts[i])
            out[i::k] = r
    return out


def judge(o, cases, py, only=None):
    got = drive(cases, py)
    rows, src = [], []
    for c, g in zip(cases, got):
        if isinstance(g, str):
            if g.startswith(("crash", "hang")):
                raise vlib.CheckError(g)
            o.violation("error", "%s on %s" % (g, {k: c[k] for k in ("kind", "method", "h", "w", "prob", "ratio", "interval", "when", "start", "step", "bx", "by")}))
            continue
        keep = {k: c[k] for k in ("h", "w", "cm", "date", "l1", "l1date", "prob", "method", "ratio", "interval", "peak", "low", "uniform", "years", "maps", "when", "start", "step")}
        if c["kind"] == "seg" and c["years"]:         # the driver was given the map to use
            keep["years"], keep["maps"] = [0], [c["maps"][c["use"]]]
            keep["when"], keep["start"], keep["years"] = 730000, 730000, [1999]
        rows.append(dict(keep, got=g))
        src.append(c)
    k = max(1, min(8, len(rows) // 4))
    ps = []
    for i in range(k):
        f = vlib.WORK / ("ob-%s-%d.ndjson" % (o.pid, i))
        f.write_text("".join(json.dumps(x) + "\n" for x in rows[i::k]))
        ps.append((i, f, vlib.tlc_start(SPEC / "SegConf.tla", envx=dict(OB_TRACE=str(f)), heap="2g", meta=vlib.WORK / "meta" / ("ob-%s-%d" % (o.pid, i)))))
    for i, f, p in ps:
        t = vlib.tlc_wait(p)
        f.unlink()
        if '"SEEN"' not in t.out:
            raise vlib.CheckError("cases not read to the end\n" + t.out[-2000:])
        count(o, t, len(rows[i::k]))
        for m in re.findall(r'<<"WRONG", (\d+), \{([^}]*)\}>>', re.sub(r"\s+", " ", t.out)):
            c, x = src[i::k][int(m[0]) - 1], rows[i::k][int(m[0]) - 1]
            for rule in re.findall(r'"([^"]*)"', m[1]):
                if only is None or rule in only:
                    o.violation("%s:%s" % (rule.replace(" ", "-"), c["method"]), "%s: %s" % (rule, json.dumps(x)))
    o.cov["labelled_places"] = o.cov.get("labelled_places", 0) + sum(sum(l > 0 for l in x["got"]["lab"] or x["got"]["result"]) for x in rows)
    o.cov["objects"] = o.cov.get("objects", 0) + sum(len(set(x["got"]["lab"])) for x in rows)
    o.samples += ["%s %dx%d %s ratio %d interval %d: %d objects" % (c["kind"], c["h"], c["w"], c["method"], c["ratio"], c["interval"], len(set(x["got"]["lab"])) - 1)
                  for c, x in list(zip(src, rows))[:4]]
    return rows


def segs(r, n, big=0):
    out = []
    for k in range(n):
        kind = k % 10
        h, w = [(1, int(r.randint(2, 9))), (int(r.randint(2, 9)), 1), (2, 2)][k % 3] if kind == 0 else (int(r.randint(3, 13)), int(r.randint(3, 13)))
        c = case(r, h, w, method={7: "watershed", 8: "slic"}.get(kind, "floodfill"), prob=kind == 6, flat=kind == 5 and k % 3 == 0, dense=kind == 4)
        c["kind"] = "seg"
        if kind == 3:                       # no earlier snapshot given
            c["alone"] = True
            c["l1"] = [0 if c["prob"] else NA] * (h * w)
            c["l1date"] = [NA] * (h * w)
            if not clear(c):
                c = dict(case(r, h, w), kind="seg")
        if k % 4 == 1:
            themes(r, c)
            c["ctype"] = str(r.choice(["uint8", "int64", "float64"]))
            if k % 8 == 1:
                c["uniform"] = [int(r.choice([9000, 11070, 15086, 20000])), int(r.choice([0, 50, 100, 400]))]
        out.append(c)
    for k in range(big):                    # more than 255 seeds
        c = case(r, 20 + k, 24 - k, dense=True)
        c["kind"] = "seg"
        out.append(c)
        c = scattered(r, 36 + 2 * k, 36)
        if k % 2:
            themes(r, c)
        out.append(c)
    return out


def O01(tier):
    o = vlib.Outcome("O01", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    r = np.random.RandomState(vlib.SEED)
    model(o, deep)
    judge(o, segs(r, 3000 if deep else 150, 12 if deep else 4), py, {"superpixels", "patches", "dates", "means"})
    return o.finish()


def O02(tier):
    o = vlib.Outcome("O02", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    r = np.random.RandomState(vlib.SEED + 1)
    t = vlib.tlc(SPEC / "RuleGen.tla")
    count(o, t)
    rules = [(int(a), int(b), int(c), [int(x) for x in u.split(",")] if u.strip() else [], v == "TRUE", int(q))
             for q, a, b, c, u, v in re.findall(r'<<"RULE", (\d+), (\d+), (\d+), (-?\d+), <<([^>]*)>>, \{(TRUE|FALSE)\}>>', re.sub(r"\s+", " ", t.out))]
    if len(rules) < 10000:
        raise vlib.CheckError("rules missing: %d" % len(rules))
    got = drive([dict(kind="rule", cases=[(n, None if c == 256 else c, x, u, q) for n, c, x, u, v, q in rules[i::8]]) for i in range(8)], py)
    for i in range(8):
        if isinstance(got[i], str):
            raise vlib.CheckError(got[i])
        for (n, c, x, u, v, q), g in zip(rules[i::8], got[i]):
            if g != v:
                o.violation("rule:%s" % c, "an object of %d pixels of land cover %s with mean %.3f (uniform %s, parameters %d) is %s, not %s" % (n, c, x / 1000, u, q, g, v))
    count(o, t, len(rules))
    o.samples += [str(x) for x in rules[::max(1, len(rules) // 4)]]
    cs = segs(r, 1500 if deep else 90, 1)
    for k, c in enumerate(cs):
        if k % 4 != 3 and not c["years"]:
            themes(r, c)
    judge(o, cs, py, {"decision"})
    return o.finish()


def execs(r, n):
    out = []
    for k in range(n):
        bx, by, bw, bh = int(r.randint(1, 4)), int(r.randint(1, 4)), int(r.randint(1, 5)), int(r.randint(1, 5))
        c = case(r, by * bh, bx * bw, method={8: "watershed"}.get(k % 9, "floodfill"))
        c.update(kind="execute", bx=bx, by=by, interval=60)
        if c["peakgiven"] or c["lowgiven"] is not None:
            c.update(peakgiven=False, peak=PEAK, lowgiven=None, low=LOW)
        c["step"] = int(r.choice([60, 32, 365]))
        if r.rand() < .15:
            c["when"] = c["start"] + int(r.choice([0, 10, c["step"] - 1]))
        elif r.rand() < .2:
            c["when"] = c["start"] + c["step"]
        if k % 3:
            themes(r, c)
            if k % 7 == 3:
                c["uniform"] = [int(r.choice([9000, 15086])), int(r.choice([0, 100]))]
        if c["method"] != "floodfill":
            c["method"] = "floodfill"
        if not clear(c):
            continue
        out.append(c)
    return out


def O03(tier):
    o = vlib.Outcome("O03", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    r = np.random.RandomState(vlib.SEED + 2)
    judge(o, execs(r, 3000 if deep else 150), py, {"break dates", "breaks missing", "early result"})
    # snapshots of a block in order of their dates, each pixel with its own
    jobs = []
    for k in range(200 if deep else 30):
        bx, by, bw, bh, n = int(r.randint(1, 4)), int(r.randint(1, 4)), int(r.randint(1, 4)), int(r.randint(1, 4)), int(r.randint(1, 9))
        if k % 8 == 7:          # numbers of two digits
            bx, by, n = [(1, 12, 3), (11, 1, 3), (11, 10, 2), (2, 21, 2)][k // 8 % 4]
        start = int(r.choice([723800, 730000, 735000]))
        dates = [int(start + 60 * i) for i in range(n)]
        size = bx * by * bw * bh
        jobs.append(dict(kind="stack", bx=bx, by=by, bw=bw, bh=bh, dates=dates, order=[int(i) for i in r.permutation(n)], change=[[int(x) for x in r.randint(0, 2, size)] for _ in dates],
                         when=[[int(x) for x in np.where(r.rand(size) < .2, NA, d - r.randint(0, 60, size))] for d in dates]))
    for j, g in zip(jobs, drive(jobs, py)):
        w = j["bx"] * j["bw"]
        want = [[[[j["change"][k][p] * max(0, j["when"][k][p]) for p in [(y * j["bh"] + a) * w + x * j["bw"] + b for a in range(j["bh"]) for b in range(j["bw"])]]
                  for k in range(len(j["dates"]))] for x in range(j["bx"])] for y in range(j["by"])]
        if g != want:
            o.violation("stack", "break dates of %dx%d blocks of %dx%d pixels on %s:\n%s\ninstead of\n%s" % (j["bx"], j["by"], j["bw"], j["bh"], j["dates"], g, want))
    o.cov["traces_validated_against_impl"] += len(jobs)
    return o.finish()


def O04(tier):
    o = vlib.Outcome("O04", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    r = np.random.RandomState(vlib.SEED + 3)
    t = vlib.tlc(SPEC / "YearGen.tla")
    ys = [tuple(int(x) for x in m) for m in re.findall(r'<<"YEAR", (\d+), (\d+), (\d+)>>', t.out)]
    if len(ys) < 3000:
        raise vlib.CheckError("years missing: %d" % len(ys))
    parts = [ys[i::8] for i in range(8)]
    for p, g in zip(parts, drive([dict(kind="years", years=list(range(1980, 2028)), cases=[(d, s) for d, s, y in p]) for p in parts], py)):
        if isinstance(g, str):
            raise vlib.CheckError(g)
        for (d, s, y), x in zip(p, g):
            if x != y:
                o.violation("year", "the land cover of date %d with start %d is that of %s, not %d" % (d, s, x, y))
    count(o, t, len(ys))
    # the maps' effect on the decisions, at the same pixel
    cs = [themes(r, c) for c in execs(r, 1000 if deep else 70)]
    for c in cs:
        c["uniform"] = []
        for m in range(len(c["maps"])):
            if r.rand() < .6:          # very different years
                c["maps"][m] = [int(r.choice([4, 2])) if r.rand() < .5 else int(x) for x in c["maps"][m]]
    judge(o, cs, py, {"break dates", "breaks missing", "early result"})
    return o.finish()
