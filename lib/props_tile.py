"""T01-T05, U01: the tile pipeline (spec/tile)."""
import datetime as dt
import json
import re
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vlib


def series(r, n, t0, step):
    return t0 + np.cumsum(r.randint(step - 3, step + 4, n))


def tile(seed, method, nbx, nby, bw=2, bh=2, years=5, seedmap=False, empty=(), conse=4, interval=450, lo=None, hi=None, b_c2=False, prob=.99, step=16, off=None, badthermal=0, **kw):
    """(cfg, cube) of a small tile: harmonic pixels, a patch that changes together, clouds, one short pixel"""
    r = np.random.RandomState(seed)
    ncol, nrow = nbx * bw, nby * bh
    start = dt.date(2000, 2, 1).toordinal() + int(r.randint(200) if off is None else off)
    n = int(years * 365 / step)
    dates = series(r, n, start - step, step)
    end = int(dates[-1])
    when = r.randint(n // 2, n - 12, size=3)
    base = r.randint(200, 900, (nrow, ncol, 7)) + np.array([0, 100, 100, 1500, 900, 400, 1500])
    amp = r.randint(20, 200, (nrow, ncol, 7))
    ph = 2 * np.pi * dates / 365.25
    cube = {}
    full = np.zeros((nrow, ncol, 8, n), np.int64)
    for i in range(nrow):
        for j in range(ncol):
            patch = (i * 3 + j * 2 + seed) % 5 < 3
            w = when[0] if i + j < (nrow + ncol) // 2 else when[1]
            shift = r.randint(700, 1600, 7) * r.choice([-1, 1], 7) if r.rand() < .15 else np.array([600, 700, 900, -900, 1100, 1000, 300])
            for b in range(7):
                v = base[i, j, b] + amp[i, j, b] * np.cos(ph + r.rand() * .3) + r.normal(0, 18, n)
                if patch:
                    v[w:] += shift[b] * (.8 + .4 * r.rand())
                full[i, j, b] = np.clip(v, 20, 9500)
            q = np.zeros(n, int)
            q[r.rand(n) < .12] = 4
            q[r.rand(n) < .05] = 3
            if (i, j) == (nrow - 1, 0):
                q[r.rand(n) < .9] = 4          # too few clear: fallback
            if (i, j) == (0, ncol - 1) and r.rand() < .6:
                q[:] = 255                     # nothing at all
            full[i, j, 7] = q
            if badthermal:
                full[i, j, 6, r.rand(n) < badthermal] = r.choice([0, -9999, 20000])
    for b in range(1, nbx * nby + 1):
        y, x = (b - 1) // nbx, (b - 1) % nbx
        c = full[y * bh:(y + 1) * bh, x * bw:(x + 1) * bw]
        m = r.rand(n) < .97                    # blocks do not all have the same images
        m[0] = m[-1] = True
        cube[b] = None if b in empty else (dates[m], c[..., m])
    M = int((end - start + 1) / interval) + 1
    cfg = dict(method=method, nbx=nbx, nby=nby, bw=bw, bh=bh, conse=conse, interval=interval, prob=prob, b_c2=b_c2, start=start, end=end, M=M,
               seed=seedmap, lo=lo, hi=hi, **kw)
    if seedmap:
        y0, y1 = dt.date.fromordinal(start).year, dt.date.fromordinal(start + (M - 1) * interval).year
        cfg["years"] = list(range(y0, y1))
        cfg["seed_year"] = cfg["years"][min(1, len(cfg["years"]) - 1)]
        cfg["label"] = 1 + (np.arange(nrow)[:, None] * 2 + np.arange(ncol)[None, :]) // 3 % 4
    return cfg, cube


SPEC = vlib.VERIF / "spec/tile"


def tlc_env(w1, w2, n, m, y, k, obj=True, complete=1, tolerant=1, rank16=0, poll=0):
    return dict(T_W1=str(w1), T_W2=str(w2), T_N=str(n), T_M=str(m), T_Y=str(y), T_K=str(k), T_OBJECT=str(int(obj)),
                T_COMPLETE=str(complete), T_TOLERANT=str(tolerant), T_RANK16=str(rank16), T_POLL=str(poll))


def model(o, *a, **k):
    """checks the model of the pipeline; it must hold"""
    t = vlib.tlc(SPEC / "TileMC.tla", workers=4, heap="6g", envx=tlc_env(*a, **k), timeout=k.pop("timeout", 700))
    count(o, t)


def count(o, t, traces=0):
    for k, v in (("states", t.states), ("transitions", t.transitions), ("traces_validated_against_impl", traces)):
        o.cov[k] = o.cov.get(k, 0) + v


def schedules(o, *a, **k):
    """walks over TileGen's graph that take every edge: [(W, moves)]"""
    t = vlib.tlc(SPEC / "TileGen.tla", workers=1, heap="6g", envx=tlc_env(*a, **k))
    count(o, t)
    roots = {m[0]: int(m[1]) for m in re.findall(r'<<"ROOT", (-?\d+), (\d+)>>', t.out)}
    edges = list(dict.fromkeys(re.findall(r'<<"EDGE", (-?\d+), (-?\d+), (\d+)>>', t.out)))
    if not roots or not edges:
        raise vlib.CheckError("no schedules\n" + t.out[-2000:])
    adj = {}
    for n, (x, y, m) in enumerate(edges):
        adj.setdefault(x, []).append((y, int(m), n))
    from collections import deque
    how = {r: None for r in roots}          # shortest way from a root
    q = deque(roots)
    while q:
        x = q.popleft()
        for y, m, n in adj.get(x, ()):
            if y not in how:
                how[y] = (x, m, n)
                q.append(y)

    def way(x):
        out = []
        while how[x]:
            p, m, n = how[x]
            out.append((m, n))
            x = p
        return x, out[::-1]
    done, walks = set(), []
    dist = {x: len(way(x)[1]) for x in how} if len(how) < 100000 else {}
    for x, y, m in sorted(edges, key=lambda e: dist[e[0]]):
        n = next(n for z, mm, n in adj[x] if z == y and mm == int(m))
        if n in done:
            continue
        r, w = way(x)
        moves = [a for a, b in w] + [int(m)]
        done |= {b for a, b in w} | {n}
        at = y
        while True:
            nxt = next(((z, mm, k) for z, mm, k in adj.get(at, ()) if k not in done), None)
            if nxt is None:
                break
            moves.append(nxt[1]); done.add(nxt[2]); at = nxt[0]
        walks.append((roots[r], moves))
    return walks, len(edges)


def batch(tiles, runs, py, timeout=700):
    """runs the plans [(cid, plan)] in parallel; results in order; 'hang'/'crash' texts where the driver failed"""
    order = sorted(range(len(runs)), key=lambda j: runs[j][0])
    k = max(1, min(8, len(runs)))
    per = -(-len(runs) // k)
    groups = [order[i:i + per] for i in range(0, len(runs), per)]
    out = [None] * len(runs)
    with ThreadPoolExecutor(k) as ex:
        def go(g):
            cids = {runs[j][0] for j in g}
            return vlib.drive("drv_tile", dict(tiles={c: tiles[c] for c in cids}, runs=[runs[j] for j in g]), py, timeout)
        for g, (st, r) in zip(groups, ex.map(go, groups)):
            if st != "ok":
                raise vlib.CheckError("tile driver: %s %s" % (st, r))
            for j, x in zip(g, r):
                out[j] = x
    return out


def shape(cfg):
    obj = cfg["method"] == "OBCOLD"
    return dict(n=cfg["nbx"] * cfg["nby"], m=cfg["M"] if obj else 0, y=len(cfg["years"]) if cfg["seed"] else 0, object=obj)


def judge(o, tiles, runs, results, only=None):
    """every recorded history against TileConf"""
    vlib.WORK.mkdir(exist_ok=True)
    k = max(1, min(6, len(runs) // 40 + 1))
    per = -(-len(runs) // k)
    ps = []
    for g in range(0, len(runs), per):
        f = vlib.WORK / ("tile-%s-%d.ndjson" % (o.pid, g))
        with open(f, "w") as h:
            for (cid, plan), r in zip(runs[g:g + per], results[g:g + per]):
                none = [list(x) for x in r["optional"]]
                h.write(json.dumps(dict(tile=shape(tiles[cid][0]), none=none, events=[
                    dict(kind=e[0], rank=e[1], state=e[2], file=list(e[3]), code=e[4]) for e in r["events"]])) + "\n")
        ps.append((g, f, vlib.tlc_start(SPEC / "TileConf.tla", envx=dict(TILE_TRACE=str(f)), heap="3g", meta=vlib.WORK / "meta" / ("tc-%s-%d" % (o.pid, g)))))
    for g, f, p in ps:
        t = vlib.tlc_wait(p)
        f.unlink()
        if '"SEEN"' not in t.out:
            raise vlib.CheckError("histories not read to the end\n" + t.out[-2000:])
        count(o, t, len(runs[g:g + per]))
        for m in re.findall(r'<<"WRONG", (\d+), (\d+), "([^"]*)">>', t.out):
            j = g + int(m[0]) - 1
            cid, plan = runs[j]
            r = results[j]
            n = int(m[1]) - 1
            e = r["events"][n]
            if only is None or only(m[2], e):
                cfg = tiles[cid][0]
                o.violation("%s:%s" % (m[2].replace(" ", "-"), "_".join(map(str, e[3][:1])) or e[0]), "%s: event %d %s\ntile %s\nplan %s\nlast events %s\n%s" % (
                    m[2], n, e, {k: v for k, v in cfg.items() if k != "label"}, plan, r["events"][max(0, n - 15):n + 1], r["logs"][:1500]))


def sample(o, runs, results, n=3):
    for j in range(0, len(runs), max(1, len(runs) // n)):
        e = results[j]["events"]
        o.samples.append("%s workers, %d moves, kills %s: %d events, %d operations; %s" % (
            runs[j][1]["W"], len(runs[j][1].get("moves", [])), runs[j][1].get("kills", []), len(e), results[j]["steps"], [x for x in e if x[0] in ("kill", "exit", "start")][:4]))


ANY = None


def workers_plans(r, W, n):
    out = [dict(W=W), dict(W=W, rr=True), dict(W=W, mk=False, seed=int(r.randint(1, 10 ** 6)), fine=True)]
    for _ in range(n - 3):
        out.append(dict(W=W, mk=bool(r.rand() < .5), seed=int(r.randint(1, 10 ** 6)), fine=bool(r.rand() < .5)))
    return out[:n]


def seedtile(seed, nbx=2, nby=1, **kw):
    """two maps, one classified year"""
    return tile(seed, "OBCOLD", nbx, nby, seedmap=True, years=3.45, interval=630, off=10, **kw)


def two(seed, nbx=2, nby=1, **kw):
    """two maps"""
    return tile(seed, "OBCOLD", nbx, nby, interval=950, **kw)


def execute(o, tiles, runs, py, only=ANY, timeout=700):
    res = batch(tiles, runs, py, timeout)
    judge(o, tiles, runs, res, only)
    o.cov["runs"] = o.cov.get("runs", 0) + len(runs)
    o.cov["operations"] = o.cov.get("operations", 0) + sum(r["steps"] for r in res)
    o.cov["breaks_between"] = o.cov.get("breaks_between", 0) + sum(r["nbreaks"] for r in res)
    sample(o, runs, res, 2)
    return res


def T01(tier):
    o = vlib.Outcome("T01", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    r = np.random.RandomState(vlib.SEED)
    model(o, 1, 3, 3, 2, 0, 0)
    if deep:
        model(o, 1, 3, 4, 3, 0, 0)
        model(o, 1, 3, 3, 2, 1, 0)
        model(o, 4, 4, 4, 2, 0, 0)
    tiles, runs = {}, []
    # every edge of the schedule graphs, on real workers
    for cid, (a, t) in enumerate([((2, 2, 2, 2, 0, 0), two(vlib.SEED + 1)), ((2, 2, 2, 2, 1, 0), seedtile(vlib.SEED + 2))] +
                                 ([((3, 3, 3, 2, 0, 0), two(vlib.SEED + 3, 3)), ((3, 3, 3, 2, 1, 0), seedtile(vlib.SEED + 4, 3, 1)),
                                   ((3, 3, 4, 2, 0, 0), two(vlib.SEED + 3, 2, 2))] if deep else [])):
        tiles[cid] = t
        if (t[0]["M"], len(t[0].get("years", []))) != (a[3], a[4]):
            raise vlib.CheckError("tile %s has %d maps and %s" % (a, t[0]["M"], t[0].get("years")))
        ws, ne = schedules(o, *a, poll=1)
        o.cov["schedule_edges"] = o.cov.get("schedule_edges", 0) + ne
        runs += [(cid, dict(W=w, moves=m)) for w, m in ws]
    # other numbers of workers and blocks, stages and methods, under seeded schedules
    for n, (t, Ws) in enumerate([(tile(vlib.SEED + 5, "COLD", 2, 2), (1, 2, 3, 4, 6)), (tile(vlib.SEED + 6, "SCCDOFFLINE", 2, 2, years=4), (1, 3, 5)),
                                 (tile(vlib.SEED + 7, "OBCOLD", 3, 2, interval=500), (1, 4, 17)), (seedtile(vlib.SEED + 8, 2, 2), (1, 3))] +
                                ([(tile(vlib.SEED + 9, "OBCOLD", 2, 3, interval=365, bw=3), (1, 2, 3, 5, 8, 16, 20)), (seedtile(vlib.SEED + 10, 3, 2), (1, 2, 4, 5, 7))] if deep else [])):
        cid = 100 + n
        tiles[cid] = t
        for W in Ws:
            runs += [(cid, p) for p in workers_plans(r, W, 12 if deep else 3)]
    execute(o, tiles, runs, py)
    return o.finish()


def T02(tier):
    o = vlib.Outcome("T02", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    r = np.random.RandomState(vlib.SEED)
    model(o, 1, 2, 2, 2, 0, 2 if deep else 1)
    model(o, 1, 2, 2, 1, 1, 1)
    if deep:
        model(o, 2, 3, 3, 2, 0, 1, timeout=1800)
        model(o, 1, 2, 2, 2, 2, 1, timeout=1800)
    tiles = {0: two(vlib.SEED + 1), 1: seedtile(vlib.SEED + 2)}
    runs = []
    for cid, a in ((0, (1, 2, 2, 2, 0, 1)), (1, (1, 2, 2, 2, 1, 1))):
        ws, ne = schedules(o, *a)
        o.cov["schedule_edges"] = o.cov.get("schedule_edges", 0) + ne
        pick = range(len(ws))
        if not deep:            # a spread of the walks; thorough takes them all
            pick = r.permutation(len(ws))[:200 if cid == 0 else 170]
        runs += [(cid, dict(W=ws[j][0], moves=ws[j][1])) for j in sorted(pick)]
    # every changing operation, before, in the midst of and after it; and repeated kills
    more = [(tile(vlib.SEED + 3, "COLD", 2, 1), 2), (tile(vlib.SEED + 4, "SCCDOFFLINE", 2, 1, years=4), 2), (tile(vlib.SEED + 5, "OBCOLD", 2, 2, interval=600), 3), (seedtile(vlib.SEED + 6, 2, 1), 2)]
    probe = [(50 + n, dict(W=W)) for n, (t, W) in enumerate(more)]
    tiles.update({50 + n: t for n, (t, W) in enumerate(more)})
    sizes = [count_ops(tiles, x, py) for x in probe]
    for (cid, p), nops in zip(probe, sizes):
        every = [dict(op=k, mode=m) for k in range(1, nops + 1) for m in ("before", "half", "after")]
        take = every if deep or nops < 20 else [every[j] for j in sorted(r.permutation(len(every))[:70])]
        for k in take:
            kk = [dict(k, W=int(r.choice([1, 2, 3])), only=bool(r.rand() < .2))]
            if r.rand() < .3:
                kk.append(dict(op=k["op"] + int(r.randint(1, 40)), mode=str(r.choice(["before", "half", "after"])), W=2))
            runs.append((cid, dict(W=p["W"], kills=kk, rr=bool(r.rand() < .5), seed=int(r.randint(1, 10 ** 6)) if r.rand() < .5 else 0)))
    execute(o, tiles, runs, py, timeout=2400 if deep else 700)
    return o.finish()


def count_ops(tiles, run, py):
    return batch(tiles, [(run[0], dict(run[1], kills=[dict(op=10 ** 9, mode="before")]))], py)[0]["ops"]


def T03(tier):
    o = vlib.Outcome("T03", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    r = np.random.RandomState(vlib.SEED + 3)
    only = lambda rule, e: e[0] in ("exit", "stuck", "end")
    model(o, 1, 3, 2, 2, 0, 0)
    model(o, 1, 3, 2, 2, 1, 0)
    model(o, 15, 17, 2, 2, 0, 0) if deep else None
    tiles = {0: two(vlib.SEED + 1), 1: seedtile(vlib.SEED + 2), 2: tile(vlib.SEED + 3, "COLD", 2, 2), 3: tile(vlib.SEED + 4, "SCCDOFFLINE", 1, 2, years=4),
             4: tile(vlib.SEED + 5, "OBCOLD", 1, 1, interval=300), 5: tile(vlib.SEED + 6, "OBCOLD", 3, 1, interval=2500)}
    runs = []
    for cid, Ws in ((0, list(range(1, 10)) + [15, 16, 17, 18]), (1, (1, 2, 3, 5, 16, 17)), (2, (1, 2, 3, 5, 9)), (3, (1, 2, 4)), (4, (1, 2, 5, 16, 19)), (5, (1, 2, 3, 4))):
        for W in Ws:
            runs += [(cid, p) for p in workers_plans(r, W, 9 if deep else 3)]
    for cid, a in ((0, (2, 3, 2, 2, 0, 0)), (1, (2, 2, 2, 2, 1, 0))):
        ws, ne = schedules(o, *a)
        o.cov["schedule_edges"] = o.cov.get("schedule_edges", 0) + ne
        runs += [(cid, dict(W=w, moves=m)) for w, m in ws]
    execute(o, tiles, runs, py, only)
    return o.finish()


def grid(o, deep):
    t = vlib.tlc(SPEC / "GridMC.tla", envx=dict(G_MAX="4" if deep else "3"), heap="4g")
    count(o, t)
    cells = sorted({tuple(int(x) for x in m.split(",")) for m in re.findall(r'<<"CELL", ([^>]*)>>', t.out)})
    if len(cells) < 1296:
        raise vlib.CheckError("cells missing\n" + t.out[-1500:])
    return cells


def T04(tier):
    o = vlib.Outcome("T04", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    cells = grid(o, deep)
    st, r = vlib.drive("drv_grid", dict(cells=cells, jobs=[]), py)
    if st != "ok":
        raise vlib.CheckError("grid driver: " + r)
    for c, got in zip(cells, r["where"]):
        x, y, w, h, b, i, bx, by, row, col, pos = c
        want = dict(get_block_x=bx, get_block_y=by, get_rowcol_intile=(row, col), get_id_inblock=i, get_row_index=i // w, get_col_index=i % w)
        for k in want:
            if got[k] != want[k]:
                o.violation(k, "%s is %s, not %s, at pixel %d of block %d of %dx%d blocks of %dx%d pixels" % (k, got[k], want[k], i, b, x, y, w, h))
    o.cov["cells"] = len(cells)
    # the pipeline on many layouts: records and maps of every pixel
    tiles, runs = {}, []
    lay = [("COLD", 3, 1, 2, 1), ("COLD", 1, 3, 3, 2), ("COLD", 2, 3, 1, 2), ("COLD", 3, 2, 2, 3), ("SCCDOFFLINE", 3, 1, 1, 2), ("SCCDOFFLINE", 2, 3, 2, 1), ("OBCOLD", 3, 2, 1, 3), ("OBCOLD", 1, 3, 3, 1)]
    if deep:
        lay += [(m, x, y, w, h) for m in ("COLD", "SCCDOFFLINE", "OBCOLD") for x, y, w, h in ((1, 1, 3, 2), (4, 1, 1, 1), (1, 4, 1, 2), (4, 3, 2, 1), (3, 4, 1, 3), (2, 2, 4, 1), (2, 2, 1, 4))]
    for n, (m, x, y, w, h) in enumerate(lay):
        tiles[n] = tile(vlib.SEED * 50 + n, m, x, y, w, h, years=4, interval=700)
        runs += [(n, dict(W=1)), (n, dict(W=3, seed=n + 1))]
    tiles[90] = seedtile(vlib.SEED + 7, 3, 2, bw=1, bh=2)
    tiles[91] = seedtile(vlib.SEED + 8, 1, 2, bw=3, bh=2)
    # block numbers of two digits
    tiles[92] = seedtile(vlib.SEED + 9, 1, 11, bw=1, bh=1)
    tiles[93] = seedtile(vlib.SEED + 10, 4, 3, bw=1, bh=1)
    tiles[94] = tile(vlib.SEED + 11, "SCCDOFFLINE", 11, 1, 1, 1, years=4)
    runs += [(90, dict(W=2)), (91, dict(W=1)), (92, dict(W=2)), (93, dict(W=3)), (94, dict(W=2))]
    execute(o, tiles, runs, py)
    return o.finish()


def U01(tier):
    o = vlib.Outcome("U01", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    cells = grid(o, deep)
    lays = {}
    for x, y, w, h, b, i, bx, by, row, col, pos in cells:
        if x * y * w * h <= 440:
            lays.setdefault((x, y, w, h), []).append((b, i, row - 1, col - 1))
    jobs = []
    for n, ((x, y, w, h), cs) in enumerate(lays.items()):
        nb = x * y
        base = dict(x=x, y=y, w=w, h=h, M=2)
        gone = [(), (1,), (nb,), tuple({nb // 2 + 1})] + ([tuple({1, nb // 2 + 1, nb})] if nb > 3 else []) + ([tuple(range(1, nb + 1))] if n % 7 == 0 else [])
        for g in dict.fromkeys(gone):
            jobs += [dict(base, kind=k, missing=g) for k in ("CM", "CM_date")]
        jobs += [dict(base, kind=k, missing=()) for k in ("array", "array3")]
        jobs += [dict(base, kind=k, missing=(), M=1) for k in ("split", "rowcol")]
    st, r = vlib.drive("drv_grid", dict(cells=[], jobs=jobs), py, 800)
    if st != "ok":
        raise vlib.CheckError("grid driver: " + r)
    for j, got in zip(jobs, r["mosaic"]):
        cs = lays[j["x"], j["y"], j["w"], j["h"]]
        want = np.full((j["M"], j["y"] * j["h"], j["x"] * j["w"]), -9999, np.int64)
        for b, i, row, col in cs:
            for k in range(j["M"]):
                if b not in j["missing"]:
                    want[k, row, col] = b * 100 + i * 3 + k if j["kind"] != "rowcol" else (row + 1) * 10000 + col + 1
        if j["kind"] == "split" and not isinstance(got, str):
            got, want = got
        if isinstance(got, str) or got.shape != want.shape or (got != want).any():
            o.violation(j["kind"], "%s of %dx%d blocks of %dx%d pixels, missing blocks %s:\n%s\ninstead of\n%s" % (
                j["kind"], j["x"], j["y"], j["w"], j["h"], list(j["missing"]), got if isinstance(got, str) else got.tolist(), want.tolist()))
    o.cov["layouts"] = len(lays)
    o.cov["traces_validated_against_impl"] = len(jobs)
    o.samples += [str(jobs[j]) for j in range(0, len(jobs), len(jobs) // 5)]
    # tiles with unprocessed blocks through the pipeline
    tiles = {0: tile(vlib.SEED + 21, "OBCOLD", 3, 2, interval=700, empty=(2, 6)), 1: tile(vlib.SEED + 22, "OBCOLD", 1, 3, 3, 1, interval=700, empty=(2,))}
    execute(o, tiles, [(0, dict(W=2)), (1, dict(W=1))], py)
    return o.finish()


def T05(tier):
    o = vlib.Outcome("T05", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    r = np.random.RandomState(vlib.SEED + 5)
    tiles, runs = {}, []
    y = lambda t, d: int(t[0]["start"] + d)
    base = [("COLD", {}), ("SCCDOFFLINE", {}), ("OBCOLD", {}), ("OBCOLD", dict(seedmap=True))]
    opts = [dict(conse=3), dict(conse=6), dict(conse=8), dict(prob=.9), dict(prob=.9999), dict(b_c2=True, badthermal=.7), dict(b_c2=True), dict(badthermal=.4),
            dict(sensor="S02HLSS30"), dict(bounds=(400, 0)), dict(bounds=(0, -300)), dict(bounds=(300, -250)), dict(bounds=(420, -60), b_c2=True, badthermal=.9), dict(interval=97), dict(interval=1000)]
    for n, (m, extra) in enumerate(base):
        for k, op in enumerate(opts):
            if m != "OBCOLD" and "interval" in op:
                continue
            for rep in range(4 if deep else 1):
                kw = dict(extra, **op)
                b = kw.pop("bounds", None)
                t = tile(int(r.randint(1, 10 ** 6)), m, *((2, 1) if rep % 2 == 0 else (1, 2)), years=6, **dict(dict(interval=500), **kw))
                if b:
                    t[0]["lo"] = y(t, b[0]) if b[0] else None
                    t[0]["hi"] = int(t[0]["end"] + b[1]) if b[1] else None
                cid = len(tiles)
                tiles[cid] = t
                runs.append((cid, dict(W=1 + (k + rep) % 2)))
    # other training years
    for k in range(3):
        t = tile(int(r.randint(1, 10 ** 6)), "OBCOLD", 2, 1, years=6, interval=500, seedmap=True)
        t[0]["seed_year"] = t[0]["years"][k - 1]
        tiles[len(tiles)] = t
        runs.append((len(tiles) - 1, dict(W=1)))
    execute(o, tiles, runs, py)
    return o.finish()


def T06(tier):
    o = vlib.Outcome("T06", tier, "model_checking")
    py = vlib.build_repo()
    deep = tier != "quick"
    r = np.random.RandomState(vlib.SEED + 6)
    tiles, runs = {}, []
    raises = dict(COLD=["RuntimeError", "Exception"], OBCOLD=["RuntimeError", "Exception"], SCCDOFFLINE=["RuntimeError"])
    for rep in range(6 if deep else 1):
        # the exceptions the two detectors raise for a pixel
        for m, extra in (("COLD", {}), ("SCCDOFFLINE", {}), ("OBCOLD", {}), ("OBCOLD", dict(seedmap=True))):
            for x, y, how in ((2, 1, "empty"), (2, 2, "empty"), (2, 1, "bound"), (2, 1, "pixels"), (2, 1, "block"), (2, 1, "fill"), (3, 1, "all")):
                t = tile(int(r.randint(1, 10 ** 6)), m, x, y, years=5, interval=600, empty=(1 + rep % 2,) if how == "empty" else (), **extra)
                cfg, cube = t
                if how == "bound":           # one block has only images before the bound
                    cfg["lo"] = int(cfg["start"] + 300)
                    d, c = cube[2]
                    cube[2] = (d[d < cfg["lo"]], c[..., d < cfg["lo"]])
                elif how == "pixels":
                    cfg["fail"] = {int(q): str(r.choice(raises[m])) for q in r.permutation(8)[:3] + 1}
                    if rep % 2 == 0:
                        cfg["fail"][1] = "RuntimeError"      # the first of all
                elif how == "block":
                    cfg["fail"] = {q: str(r.choice(raises[m])) for q in ((1, 2, 5, 6) if rep % 2 == 0 else (3, 4, 7, 8))}
                elif how == "fill":          # nothing but fill in one block
                    cube[1 + rep % 2][1][:, :, 7, :] = 255
                elif how == "all":           # one block empty, one failing, one all cloud
                    cube[1] = None
                    cfg["fail"] = {q: "RuntimeError" for q in (3, 4, 9, 10)}
                    cube[3][1][:, :, 7, :] = 4
                if cfg["seed"] and how in ("all",):
                    continue                 # nothing to train from
                cid = len(tiles)
                tiles[cid] = t
                runs += [(cid, dict(W=1)), (cid, dict(W=3, seed=cid + 1))]
    execute(o, tiles, runs, py)
    return o.finish()
