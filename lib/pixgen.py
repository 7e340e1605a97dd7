"""Synthetic Landsat pixel series.  Every family aims at some part of the machines: initialisation, gaps,
backward extension, breaks, isolated outliers, tails, short ends, fallbacks, quality codes..."""
import numpy as np

T0 = 723800  # a little after the Landsat 4 launch
BASE = np.array([400., 700., 700., 2800., 1900., 1100., 2900.])
AMP = np.array([80., 120., 150., 500., 350., 220., 80.])
STEP = np.array([[300, 450, 600, -900, 700, 650, 60],     # clearing
                 [-150, -220, -250, 700, -450, -380, -30],  # greening
                 [900, 1000, 1100, 400, 300, 250, 0],
                 [40, 60, 80, -350, 260, 200, 20]], float)


def dates(r, n, kind, start=None):
    d = [T0 + int(r.randint(0, 3000)) if start is None else start]
    for _ in range(n - 1):
        if kind == "dense":
            g = r.choice([3, 5, 7, 8])
        elif kind == "sparse":
            g = r.choice([16, 32, 48, 64, 80])
        elif kind == "mixed":
            g = r.choice([1, 7, 8, 8, 9, 16, 16, 24, 32, 48])
        else:
            g = r.choice([8, 16, 16, 24, 32])
        d.append(d[-1] + int(g))
    return np.array(d, np.int64)


def base(r, d, noise, trend=0.0, amp=None):
    t = 2 * np.pi * d / 365.25
    ph = r.uniform(0, 2 * np.pi)
    a = AMP * (r.uniform(0.3, 1.3) if amp is None else amp)
    y = BASE[:, None] * r.uniform(0.8, 1.2) + a[:, None] * np.sin(t + ph)[None, :]
    y += a[:, None] * r.uniform(0, 0.4) * np.cos(2 * t + ph)[None, :]
    y += (trend * BASE[:, None] / 1000.) * ((d - d[0]) / 365.25)[None, :]
    y += r.normal(0, 1, (7, len(d))) * (BASE[:, None] * 0.02 * noise + 4)
    return y


def finish(r, d, y, qa, **kw):
    b = np.rint(y).astype(np.int64)
    # values pushed out of range come back inside, scattered: a band that is constant makes every fit degenerate
    lo, hi = b[:6] < 1, b[:6] > 9999
    b[:6][lo] = r.randint(5, 120, lo.sum())
    b[:6][hi] = 9999 - r.randint(0, 120, hi.sum())
    c = dict(dates=d, bands=b, qa=qa.astype(np.int64), t_cg=15.0863, conse=6, gap_days=365.25, b_c2=False, cm=None, fam="")
    c.update(kw)
    return c


def make(r, fam=None):
    fams = ["stable", "step", "steps", "near", "outlier", "run", "gap", "short", "sparse", "tail", "messy", "trend",
            "walk", "snow", "few", "c2", "late", "preinit", "params", "backbreak", "dup", "edge", "long", "long", "volatile"]
    fam = fam or fams[r.randint(len(fams))]
    kind = r.choice(["mixed", "normal", "dense", "sparse"], p=[.45, .35, .1, .1])
    n = int(r.randint(40, 190))
    if fam in ("long", "volatile"):
        n = int(r.randint(150, 420))
        kind = r.choice(["mixed", "normal"])
    noise = r.choice([0.5, 1, 1, 2, 3])
    kw = dict(fam=fam)
    if r.rand() < 0.5:
        kw["conse"] = int(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11]))
    if r.rand() < 0.4:
        kw["t_cg"] = float(r.choice([6.63, 9.236, 11.07, 15.0863, 20.515, 35.0]))
    if fam == "sparse":
        kind = "sparse"
    d = dates(r, n, kind)
    trend = r.uniform(-15, 15) if fam in ("trend", "params") else 0
    y = base(r, d, noise, trend)
    qa = np.zeros(n, np.int64)
    qa[r.rand(n) < 0.1] = 1
    step = lambda m: STEP[r.randint(len(STEP))] * m

    def add(k, s, e=None):
        y[:, k:e] += s[:, None]
    if fam in ("step", "c2", "params"):
        add(int(n * r.uniform(.2, .9)), step(r.uniform(.5, 1.5)))
    elif fam == "steps":
        for f in sorted(r.uniform(.1, .95, r.randint(2, 5))):
            add(int(n * f), step(r.uniform(.4, 1.5)) * r.choice([1, -1]))
    elif fam == "long":
        for f in np.sort(r.uniform(.05, .98, r.randint(2, 8))):
            add(int(n * f), step(r.uniform(.3, 1.5)) * r.choice([1, -1]))
        for k in r.randint(0, n, r.randint(0, 8)):
            add(k, step(r.uniform(.5, 3)) * r.choice([1, -1]), k + 1)
        if r.rand() < .4:
            k = r.randint(10, n - 10)
            d[k:] += int(r.choice([200, 366, 400, 700]))
    elif fam == "volatile":
        k = 0
        while k < n:
            m = int(r.choice([3, 8, 20, 40, 60]))
            add(k, step(r.uniform(0, 1.2)) * r.choice([1, -1]), k + m)
            k += m
    elif fam == "near":
        add(int(n * r.uniform(.3, .8)), step(r.uniform(.08, .4)))
    elif fam == "outlier":
        for k in r.randint(0, n, r.randint(1, 8)):
            add(k, step(r.uniform(.5, 3)) * r.choice([1, -1]), k + 1)
    elif fam == "run":
        for _ in range(r.randint(1, 4)):
            k = r.randint(int(n * .3), n)
            add(k, step(r.uniform(.6, 2)), k + r.randint(2, 9))
    elif fam == "gap":
        for _ in range(r.randint(1, 3)):
            k = r.randint(3, n - 5)
            d[k:] += int(r.choice([200, 364, 365, 366, 367, 400, 700, 1100]))
        if r.rand() < .5:
            kw["gap_days"] = float(r.choice([100, 200, 365.25, 700, 1500]))
        if r.rand() < .4:
            add(int(n * r.uniform(.2, .9)), step(r.uniform(.5, 1.2)))
    elif fam == "short":
        m = int(r.randint(24, 45))
        d, y, qa, n = d[:m], y[:, :m], qa[:m], m
    elif fam == "tail":
        k = n - int(r.randint(1, 10))
        add(k, step(r.uniform(.5, 1.5)))
    elif fam == "late":
        k = n - int(r.randint(8, 40))
        add(k, step(r.uniform(.5, 1.5)))
    elif fam == "preinit":
        k = int(r.randint(3, 20))
        add(0, step(r.uniform(.5, 1.5)), k)
    elif fam == "backbreak":   # unstable start, then stable
        k = int(r.randint(8, 40))
        y[:, :k] += r.normal(0, 250 * r.uniform(.5, 2), k)[None, :] * r.uniform(.5, 1, 7)[:, None]
    elif fam == "walk":
        y += np.cumsum(r.normal(0, 12, (7, n)), axis=1)
    elif fam == "messy":
        qa[:] = r.choice([0, 1, 2, 3, 4, 255], n, p=[.6, .08, .09, .06, .13, .04])
        add(int(n * r.uniform(.3, .9)), step(r.uniform(.5, 1.5)))
        bad = r.rand(n) < .06
        y[:, bad] = r.choice([-9999, 0, 20000, -150, 9999], (7, bad.sum()))
        y[:, qa == 4] += r.uniform(1500, 5000)
    elif fam == "dup":
        for k in r.randint(1, n, r.randint(1, 10)):
            d[k] = d[k - 1]
        d = np.maximum.accumulate(d)
        add(int(n * r.uniform(.3, .9)), step(r.uniform(.5, 1.5)))
        qa[r.rand(n) < .15] = 4
    elif fam == "snow":
        qa[:] = r.choice([0, 1, 3, 4, 2, 255], n, p=[.03, .02, .85, .04, .03, .03])
        y[:6, r.rand(n) < .3] += 6000 * r.uniform(.5, 2)
        if r.rand() < .5:
            m = int(r.randint(8, 40))
            d, y, qa, n = d[:m], y[:, :m], qa[:m], m
    elif fam == "few":
        qa[:] = r.choice([2, 4], n)
        m = int(r.randint(0, 24))
        qa[r.choice(n, m, replace=False)] = r.randint(0, 2, m)
        y[:, qa == 4] += r.uniform(0, 700, (qa == 4).sum())
        if r.rand() < .4:
            qa[r.rand(n) < .3] = 3
        if r.rand() < .4:
            m = int(r.randint(6, 30))
            d, y, qa, n = d[:m], y[:, :m], qa[:m], m
        bad = r.rand(n) < .1
        y[:, bad] = r.choice([-9999, 20000], (7, bad.sum()))
        d[1:][r.rand(n - 1) < .05] = 0
        d = np.maximum.accumulate(d)
    elif fam == "edge":
        y += r.choice([6500., -300.])
    n = len(d)
    c = finish(r, d, y, qa, **kw)
    if fam in ("messy", "few", "snow"):     # keep the raw out-of-range values
        o = (y < 0) | (y > 9999)
        c["bands"][:, :][o] = np.rint(y[o]).astype(np.int64)
    if fam == "c2" or (fam in ("few", "snow", "messy") and r.rand() < .4):
        c["b_c2"] = True
        c["bands"][6, r.rand(n) < .3] = 0
        c["bands"][6, r.rand(n) < .2] = -9999
    elif r.rand() < .15:
        c["bands"][6, r.rand(n) < .1] = r.choice([0, 1800, 1801, 3438, 3439, 6000])
    if fam == "edge":
        m = r.rand(7, n) < .02
        c["bands"][m] = r.choice([-200, -199, 0, 1, 9999, 10000], m.sum())
    if fam == "params":
        c["gap_days"] = float(r.choice([50, 100.5, 200, 365, 366, 10000]))
    if r.rand() < .35:
        c["cm"] = dict(starting_date=int(c["dates"][0] - r.choice([0, 0, 1, 59, 300])), interval=int(r.choice([0, 30, 32, 60, 120])), n=0)
    return c


def cases(seed, n, fams=None):
    r = np.random.RandomState(seed)
    return [make(np.random.RandomState(r.randint(2 ** 31 - 1)), None if fams is None else fams[k % len(fams)]) for k in range(n)]


def breaks_for(c, r):
    """prescribed break dates for a reconstruction: true dates of observations, dates between them, outside the series,
    zeros, repeats, close pairs, in any order"""
    d = c["dates"]
    n = int(r.choice([0, 1, 1, 2, 2, 3, 4, 6, 12]))
    out = []
    if n == 0 and r.rand() < .3:
        return []
    for _ in range(max(n, 1)):
        k = r.randint(6)
        if n == 0 or k == 0:
            out.append(int(r.choice([0, 0, -5])))
        elif k in (1, 2):
            out.append(int(d[r.randint(len(d))]))
        elif k == 3:
            out.append(int(d[r.randint(len(d))]) + int(r.randint(-20, 20)))
        elif k == 4 and out and out[-1] > 0:
            out.append(out[-1] + int(r.choice([0, 1, 30, 364, 365, 366, 367, -365, -366])))
        else:
            out.append(int(d[0] + r.randint(-400, d[-1] - d[0] + 400)))
    r.shuffle(out)
    return [max(int(x), -5) for x in out]


def obcases(seed, n, fams=None):
    cs = cases(seed, n, fams)
    r = np.random.RandomState(seed + 77)
    for c in cs:
        c["cm"] = None
        c["breaks"] = breaks_for(c, r)
    return cs


def variants(c, r, usable, in_range):
    """inputs that differ from c only in observations that must not matter, or in water versus clear"""
    n = len(c["dates"])
    use = np.zeros(n, bool)
    use[[k - 1 for k in usable]] = True
    ok = in_range
    out = []

    def copy(**kw):
        v = dict(c, dates=c["dates"].copy(), bands=c["bands"].copy(), qa=c["qa"].copy())
        v.update(kw)
        return v
    v = copy()                                       # clear <-> water
    w = (v["qa"] < 2) & (r.rand(n) < .5)
    v["qa"][w] = 1 - v["qa"][w]
    out.append(("water", v))
    v = copy()                                       # other values under cloud, shadow, snow, fill
    w = c["qa"] >= 2
    v["bands"][:, w] = r.choice([-9999, 0, 55, 400, 3000, 9999, 12000, 20000], (7, int(w.sum())))
    out.append(("masked values", v))
    v = copy()                                       # other invalid values in out-of-range observations
    w = np.nonzero((c["qa"] < 2) & ~ok)[0]
    for k in w:
        v["bands"][:, k] = r.choice([50, 700, 2000], 7)
        v["bands"][r.randint(6), k] = r.choice([-9999, 10000, 16000, -200])
    if len(w):
        out.append(("invalid values", v))
    v = copy()                                       # one cloud type for another (fill stays)
    w = np.isin(c["qa"], [2, 3, 4])
    v["qa"][w] = r.choice([2, 3, 4], int(w.sum()))
    out.append(("mask kind", v))
    keep = use | ((c["qa"] < 2))                      # nothing but clear observations
    out.append(("removed", copy(dates=c["dates"][keep], bands=c["bands"][:, keep], qa=c["qa"][keep])))
    keep = use.copy()
    if keep.sum() >= 24:
        out.append(("clean", copy(dates=c["dates"][keep], bands=c["bands"][:, keep], qa=c["qa"][keep] * 0)))
    m = int(r.randint(1, 30))                         # more of them
    at = np.sort(r.randint(0, n + 1, m))
    q = r.choice([2, 3, 4, 255, 255], m)
    vals = r.choice([-9999, 0, 100, 900, 4000, 20000], (7, m))
    dd = np.array([c["dates"][min(k, n - 1)] if r.rand() < .5 or k == 0 else (c["dates"][k - 1] + c["dates"][min(k, n - 1)]) // 2 for k in at])
    dd = np.maximum.accumulate(dd)
    out.append(("inserted", copy(dates=np.insert(c["dates"], at, dd), bands=np.insert(c["bands"], at, vals, axis=1), qa=np.insert(c["qa"], at, q))))
    m = int(r.randint(1, 8))                          # repeats of usable dates
    us = np.nonzero(use)[0]
    if len(us):
        at = np.sort(r.choice(us, min(m, len(us)), replace=False))
        vals = r.choice([60, 500, 900, 4000, 9000], (7, len(at)))
        vals[6] = 2900
        out.append(("repeated date", copy(dates=np.insert(c["dates"], at + 1, c["dates"][at]), bands=np.insert(c["bands"], at + 1, vals, axis=1),
                                          qa=np.insert(c["qa"], at + 1, r.randint(0, 2, len(at))))))
        m = len(at)
        vals = r.choice([60, 500, 900, 4000], (7, m))
        vals[r.randint(6)] = -9999
        out.append(("invalid first of a date", copy(dates=np.insert(c["dates"], at, c["dates"][at]), bands=np.insert(c["bands"], at, vals, axis=1),
                                                    qa=np.insert(c["qa"], at, r.randint(0, 2, m)))))
    return out


def chain(r, fam=None, conse=None, b_pin=None, many=False, mark=.15):
    """a pixel followed by S-CCD: a first part for detection, then batches of new observations"""
    fams = ["stable", "step", "steps", "near", "outlier", "run", "gap", "short", "tail", "messy", "trend", "snow", "few", "c2", "late",
            "preinit", "backbreak", "dup", "edge", "long", "long", "volatile", "steps", "snow2", "snow2", "fresh", "fresh"]
    fam = fam or fams[r.randint(len(fams))]
    if fam == "fresh":          # watched closely while a break appears
        c = fresh_break(r)
        n = len(c["dates"])
    elif fam == "snow2":          # snow and clear around the three quarters
        c = make(r, "long")
        n = len(c["dates"])
        c["qa"][:] = r.choice([0, 1, 3, 4, 255], n, p=_p(r))
    else:
        c = make(r, fam)
    c["fam"] = fam
    c["cm"] = None
    c["gate"] = float(r.choice([9.236, 9.236, 6.63, 4.0, 15.0863, 1.0]))
    c["pred"] = None if r.rand() < .5 else float(r.choice([15.0863, 9.236, 20.0, 5.0]))
    c["pin"] = bool(r.rand() < .4 if b_pin is None else b_pin)
    c["conse"] = int(r.choice([1, 2, 3, 4, 5, 6, 6, 6, 7, 8]) if conse is None else conse)
    if r.rand() < .5:
        c["t_cg"] = 15.0863
    n = len(c["dates"])
    d = c["dates"]
    least = int(np.searchsorted(d, d[0] + 366))       # a year is needed
    first = n if r.rand() < .15 else int(r.randint(min(least, n - 1), n)) + 1
    cuts, k = [first], first
    most = int(r.randint(1, 7))
    if many:                    # several short batches after a long start
        cuts = [int(r.randint(min(max(least, n // 2), n - 1), n)) + 1]
        k, most = cuts[0], int(r.randint(3, 9))
    if fam == "fresh":          # one observation at a time
        cuts = [max(c.pop("break_at") - int(r.randint(0, 3)), least + 1, 24)]
        k, most = cuts[0], 99
        while k < n:
            k += int(r.choice([1, 1, 1, 2]))
            cuts.append(min(k, n))
    c["pos"] = int(d[0] % 1000) * 1000 + n
    while k < n and len(cuts) < most:
        k += int(r.choice([1, 1, 2, 3, 6, 10, 20, 40, 80]))
        cuts.append(min(k, n))
    calls, a = [], 0
    for b in cuts:
        calls.append(dict(c, mark=bool(r.rand() < mark), dates=d[a:b].copy(), bands=c["bands"][:, a:b].copy(), qa=c["qa"][a:b].copy()))
        a = b
    return dict(calls=calls, pack=None, fam=fam)


def fresh_break(r):
    n = int(r.randint(60, 140))
    d = dates(r, n, r.choice(["mixed", "normal"]))
    k = int(r.randint(n // 2, n - 6))
    g = r.choice([1, 1, 2, 3, 4, 5, 8, 16], n - k) if r.rand() < .8 else r.choice([16, 32], n - k)
    d[k:] = d[k - 1] + np.cumsum(g)
    n = min(n, k + int(r.randint(8, 40)))
    d = d[:n]
    y = base(r, d, r.choice([.5, 1, 2]))
    y[:, k:] += (STEP[r.randint(len(STEP))] * r.uniform(.6, 1.5))[:, None]
    if r.rand() < .3:
        y[:, int(r.randint(k, n)):] += (STEP[r.randint(len(STEP))] * r.uniform(-1.5, 1.5))[:, None]
    qa = np.where(r.rand(n) < .05, 4, 0)
    return finish(r, d, y, qa, break_at=k)


def _p(r):
    """quality mix with the share of snow around three quarters"""
    s = r.choice([.5, .68, .74, .76, .85])
    m = r.choice([0, .1, .4])
    return np.array([(1 - s) * .8 * (1 - m), (1 - s) * .2 * (1 - m), s * (1 - m), m * .7, m * .3])


def chains(seed, n, fams=None, **kw):
    r = np.random.RandomState(seed)
    return [chain(np.random.RandomState(r.randint(2 ** 31 - 1)), None if fams is None else fams[k % len(fams)], **kw) for k in range(n)]
