"""Runs the real tile pipeline as forked workers under a deterministic scheduler (subprocess; in.pkl out.pkl).

Every worker stops before each operation on the result folder (stat, listing, opening, renaming, removing, making a
directory), after opening a file for writing, and at every sleep; the scheduler says who goes on, and can kill.
After each step the products on disk are compared with those of the sequential computation (see expected()),
and every change is recorded as an event of the run's trace."""
import builtins, io, os, pickle, re, shutil, signal, struct, sys, tempfile, time, traceback
import datetime as dt
import numpy as np

REAL = dict(stat=os.stat, listdir=os.listdir, scandir=os.scandir, mkdir=os.mkdir, rename=os.rename, replace=os.replace,
            remove=os.remove, unlink=os.unlink, open=builtins.open, sleep=time.sleep)


class Hook:
    """worker side"""
    root = None
    r = w = None
    files = []
    half = None

    @classmethod
    def mine(cls, p):
        if cls.root is None or isinstance(p, int):
            return False
        try:
            return os.path.abspath(os.fspath(p)).startswith(cls.root)
        except Exception:
            return False

    @classmethod
    def point(cls, kind, path=""):
        if cls.half:
            n = REAL["stat"](cls.half).st_size
            os.truncate(cls.half, n // 2)
            os._exit(137)
        opened = [p for f, p in cls.files if not f.closed]
        cls.files = [(f, p) for f, p in cls.files if not f.closed]
        d = pickle.dumps((kind, str(path), opened))
        os.write(cls.w, struct.pack("<I", len(d)) + d)
        c = os.read(cls.r, 1)
        if c != b"g" and c != b"h":
            os._exit(137)
        if c == b"h":
            cls.half = str(path)


def patch():
    def wrap(name, kind, arg=0):
        f = REAL[name]

        def g(*a, **k):
            if a and Hook.mine(a[arg]):
                Hook.point(kind, a[arg])
            return f(*a, **k)
        return g
    for n in ("stat", "listdir", "scandir"):
        setattr(os, n, wrap(n, n))
    for n in ("mkdir", "remove", "unlink"):
        setattr(os, n, wrap(n, n))
    os.rename = wrap("rename", "rename")
    os.replace = wrap("replace", "rename")

    def opn(file, mode="r", *a, **k):
        if not Hook.mine(file):
            return REAL["open"](file, mode, *a, **k)
        wr = any(c in mode for c in "wxa+")
        Hook.point("write" if wr else "read", file)
        f = REAL["open"](file, mode, *a, **k)
        if wr:
            Hook.files.append((f, os.path.abspath(os.fspath(file))))
            Hook.point("opened", file)
        return f
    builtins.open = opn
    io.open = opn

    def slp(s):
        if Hook.root:
            Hook.point("sleep")
        else:
            REAL["sleep"](s)
    time.sleep = slp


# ---------------------------------------------------------------------------------------------------- products
def products(cfg):
    """product key -> path within the result folder; keys are those of spec/tile"""
    import pandas as pd
    nb = cfg["nbx"] * cfg["nby"]
    doy = lambda d: "%d_%d%03d" % (d, pd.Timestamp.fromordinal(d).year, pd.Timestamp.fromordinal(d).timetuple().tm_yday)
    out = {}
    for b in range(1, nb + 1):
        x, y = (b - 1) % cfg["nbx"] + 1, (b - 1) // cfg["nbx"] + 1
        xy = "x%d_y%d" % (x, y)
        out["bflag", b] = "COLD_block%d_finished.txt" % b
        out["rec", b] = "record_change_%s_%s.npy" % (xy, "sccd" if cfg["method"] == "SCCDOFFLINE" else "cold")
        if cfg["method"] == "OBCOLD":
            out["cmb", b], out["dateb", b] = "CM_%s.npy" % xy, "CM_date_%s.npy" % xy
            out["ob", b] = "obcold/record_change_%s_obcold.npy" % xy
            for k in range(cfg["M"]):
                d = doy(cfg["start"] + k * cfg["interval"])
                out["obia", k + 1, b] = "OBIAresults/obiaresult_%s_%s.npy" % (d, xy)
            if cfg["seed"]:
                out["f1", b], out["f3", b] = ("feature_maps/tmp_step1_predict_%d_finished.txt" % b,
                                              "feature_maps/tmp_step3_classification_%d_finished.txt" % b)
                for n, yr in enumerate(cfg["years"]):
                    out["feat", n + 1, b] = "feature_maps/tmp_feature_year%d_block%d.npy" % (yr, b)
                    out["cls", n + 1, b] = "feature_maps/tmp_yearlyclassification%d_block%d.npy" % (yr, b)
    if cfg["method"] == "OBCOLD":
        for k in range(cfg["M"]):
            d = cfg["start"] + k * cfg["interval"]
            out["map", k + 1], out["dmap", k + 1] = "cm_maps/CM_maps_%s.npy" % doy(d), "cm_maps/CM_date_maps_%s.npy" % doy(d)
            out["oflag", k + 1] = "OBIAresults/tmp_OBIA_%d_finished.txt" % d
        if cfg["seed"]:
            out["rf",] = "feature_maps/rf.model"
            for n, yr in enumerate(cfg["years"]):
                out["year", n + 1] = "feature_maps/yearlyclassification_%d.npy" % yr
    out["report",] = "tile_processing_report.log"
    return out


def flat(p):
    """an S-CCD pack without the padding between its fields"""
    def f(a):
        a = np.asarray(a)
        if a.size == 0:
            return b""
        return b"".join(np.ascontiguousarray(a[n]).tobytes() for n in a.dtype.names) if a.dtype.names else np.ascontiguousarray(a).tobytes()
    return (int(p.position), f(p.rec_cg), f(p.min_rmse), int(p.nrt_mode), f(p.nrt_model), f(p.nrt_queue))


def canon(a):
    if a.dtype.names and "pos" in a.dtype.names:
        return a[np.lexsort((a["t_start"], a["pos"]))].tobytes()
    return np.ascontiguousarray(a.ravel()).astype(np.float64).tobytes()


def expected(cfg, cube):
    """the products of the sequential computation: pixel by pixel, map by map, from the leaf functions alone.
    cube: block id -> None or (dates, int array [rows, cols, 8, n] of the block)"""
    from scipy.stats import chi2
    from pycold import cold_detect, sccd_detect, obcold_reconstruct
    nbx, nby, bw, bh, ncol = cfg["nbx"], cfg["nby"], cfg["bw"], cfg["bh"], cfg["nbx"] * cfg["bw"]
    nrow = nby * bh
    th = chi2.ppf(cfg["prob"], 5)
    E = {}
    M = cfg["M"] if cfg["method"] == "OBCOLD" else 0
    cm = np.full((M, nrow, ncol), -9999, np.int16)
    cmd = np.full((M, nrow, ncol), -9999, np.int32)
    lo, hi = cfg.get("lo") or 0, cfg.get("hi") or 10 ** 7
    blocks, recs = {}, {}
    for b in range(1, nbx * nby + 1):
        by, bx = (b - 1) // nbx, (b - 1) % nbx
        c = cube[b]
        if c is not None:
            keep = (c[0] >= lo) & (c[0] <= hi)
            c = (c[0][keep], c[1][..., keep]) if keep.any() else None
        blocks[b] = c
        out = []
        if c is not None:
            for i in range(bh):
                for j in range(bw):
                    row, col = by * bh + i, bx * bw + j
                    pos = row * ncol + col + 1
                    a = [c[0]] + [c[1][i, j, q] for q in range(8)]
                    try:
                        if cfg["method"] == "OBCOLD":
                            r, m, d = cold_detect(*a, pos=pos, conse=cfg["conse"], starting_date=cfg["start"], n_cm=M, b_c2=cfg["b_c2"],
                                                  cm_output_interval=cfg["interval"], b_output_cm=True)
                            cm[:, row, col], cmd[:, row, col] = m, d
                        elif cfg["method"] == "COLD":
                            r = cold_detect(*a, t_cg=th, conse=cfg["conse"], b_c2=cfg["b_c2"], pos=pos)
                        else:
                            r = sccd_detect(*a, t_cg=th, conse=cfg["conse"], b_c2=cfg["b_c2"], pos=pos)
                        out.append(r)
                    except Exception:
                        pass
        recs[b] = out
        if cfg["method"] == "SCCDOFFLINE":
            E["rec", b] = None if c is None else [flat(p) for p in out]
        else:
            E["rec", b] = canon(np.hstack(out)) if out else None
        E["bflag", b] = b""
    if cfg["method"] != "OBCOLD":
        return E
    cell = lambda b: (slice((b - 1) // nbx * bh, (b - 1) // nbx * bh + bh), slice((b - 1) % nbx * bw, (b - 1) % nbx * bw + bw))
    for b in blocks:
        s = cell(b)
        E["cmb", b] = canon(np.stack([cm[k][s].ravel() for k in range(M)], 1))
        E["dateb", b] = canon(np.stack([cmd[k][s].ravel() for k in range(M)], 1))
    years = {}
    if cfg["seed"]:
        from pycold.pyclassifier import PyClassifier
        from pycold.common import DatasetInfo
        pc = PyClassifier(DatasetInfo(nrow, ncol, nbx, nby))
        full = {}
        for n, yr in enumerate(cfg["years"]):
            full[n] = np.full((nrow, ncol, pc.n_features), -9999, np.float32)
        for b in blocks:
            f = pc.predict_features(b, np.hstack(recs[b]), cfg["years"]) if recs[b] else np.full((len(cfg["years"]), bw * bh, pc.n_features), -9999, np.float32)
            E["f1", b] = E["f3", b] = b""
            for n in full:
                E["feat", n + 1, b] = canon(f[n])
                full[n][cell(b)] = f[n].reshape(bh, bw, -1)
        rf = pc.train_rfmodel(full[cfg["years"].index(cfg["seed_year"])], cfg["label"])
        allf = np.vstack([full[n].reshape(-1, pc.n_features) for n in full])
        E["rf",] = (allf, rf.predict(allf))
        for n in full:
            years[n] = np.zeros((nrow, ncol), np.int64)
            for b in blocks:
                c = pc.classification_block(rf, full[n][cell(b)].reshape(-1, pc.n_features))
                E["cls", n + 1, b] = canon(c)
                years[n][cell(b)] = c
            E["year", n + 1] = canon(years[n])
    from pycold.ob_analyst import segmentation_floodfill, object_analysis
    import pandas as pd
    brk = np.zeros((M, nrow, ncol), np.int64)
    absd = np.where(cmd == -9999, -9999, cmd + 723742).astype(np.int32)
    for k in range(M):
        if k:
            s1, dates, s2, info = segmentation_floodfill(cm[k].copy(), absd[k].copy(), cm[k - 1].copy(), absd[k - 1].copy())
            cmap = None
            if cfg["seed"]:
                y0 = pd.Timestamp.fromordinal(cfg["start"]).year
                cmap = years[cfg["years"].index(max(pd.Timestamp.fromordinal(cfg["start"] + k * cfg["interval"]).year - 1, y0))]
            ch = object_analysis(s1, s2, info, **({} if cmap is None else {"classification_map": cmap}))
            brk[k] = np.where(dates > 0, dates, 0) * (ch > 0)
        E["map", k + 1], E["dmap", k + 1], E["oflag", k + 1] = canon(cm[k]), canon(cmd[k]), b""
        for b in blocks:
            E["obia", k + 1, b] = canon(brk[k][cell(b)])
    for b, c in blocks.items():
        out = []
        if c is not None:
            for i in range(bh):
                for j in range(bw):
                    row, col = (b - 1) // nbx * bh + i, (b - 1) % nbx * bw + j
                    try:
                        out.append(obcold_reconstruct(c[0], *[c[1][i, j, q] for q in range(8)], brk[:, row, col], conse=cfg["conse"],
                                                      pos=row * ncol + col + 1, b_c2=cfg["b_c2"]))
                    except Exception:
                        pass
        E["ob", b] = canon(np.hstack(out)) if out else None
    E["nbreaks"] = int((brk > 0).sum())
    return E


class Disk:
    """the products as they are on disk, compared with the expected ones"""
    def __init__(self, cfg, E, root):
        self.P = products(cfg)
        self.path = {os.path.join(root, p): k for k, p in self.P.items()}
        self.E, self.root, self.seen, self.state = E, root, {}, {}
        self.dirs = sorted({os.path.dirname(p) for p in self.path})

    def content(self, key, path):
        try:
            if key[0] == "report":
                return "good"
            e = self.E.get(key)
            if key[0] in ("bflag", "oflag", "f1", "f3"):
                return "good"
            if key[0] == "rf":
                import joblib
                m = joblib.load(path)
                return "good" if np.array_equal(m.predict(e[0]), e[1]) else "bad"
            if key[0] == "rec" and isinstance(e, list):
                out = []
                with REAL["open"](path, "rb") as f:
                    while True:
                        try:
                            out.append(pickle.load(f))
                        except EOFError:
                            break
                from pycold.utils import index_sccdpack
                out = [index_sccdpack(x) for x in out]
                got = [flat(p) for p in out]
                return "good" if sorted(got) == sorted(e) else "bad"
            a = np.load(path)
            if e is None:
                return "good" if a.size == 0 else "bad"
            return "good" if canon(a) == e else "bad"
        except Exception as ex:
            return "bad"

    def scan(self, opened):
        """[(key, new state)] since the last scan; opened: paths some live worker holds open for writing"""
        now = {}
        for d in self.dirs:
            try:
                with REAL["scandir"](d) as it:
                    for e in it:
                        p = os.path.join(d, e.name)
                        if p in self.path:
                            s = e.stat()
                            now[p] = (s.st_mtime_ns, s.st_size, s.st_ino)
            except OSError:
                pass
        out = []
        for p, k in self.path.items():
            s = now.get(p)
            if s is None:
                new = "absent"
                self.seen.pop(p, None)
            elif self.seen.get(p) == s and p not in opened and self.state.get(k) in ("good", "bad"):
                continue
            else:
                self.seen[p] = s
                new = "partial" if p in opened else self.content(k, p)
            if new != self.state.get(k, "absent"):
                self.state[k] = new
                out.append((k, new))
        return out


class Worker:
    def __init__(self, rank, n, cfg, tmp):
        self.rank = rank
        a, b = os.pipe()
        c, d = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 97
            try:
                os.close(b); os.close(c)
                Hook.r, Hook.w = a, d
                log = REAL["open"](os.path.join(tmp, "w%d.log" % rank), "a")
                os.dup2(log.fileno(), 1); os.dup2(log.fileno(), 2)
                Hook.root = os.path.join(tmp, "result")
                Hook.point("start")
                from pycold.imagetool.tile_processing import main
                kw = dict(rank=rank, n_cores=n, stack_path=os.path.join(tmp, "stack"), result_path=Hook.root, yaml_path=os.path.join(tmp, "config.yaml"),
                          method=cfg["method"], seedmap_path=os.path.join(tmp, "seed.tif") if cfg["seed"] else None,
                          low_datebound=iso(cfg.get("lo")), upper_datebound=iso(cfg.get("hi")), b_c2=cfg["b_c2"], seedmap_year=cfg.get("seed_year"))
                main.callback(**kw)
                code = 0
            except SystemExit as ex:
                code = ex.code if isinstance(ex.code, int) else 0 if ex.code is None else 1
            except BaseException:
                traceback.print_exc()
                code = 1
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(code)
        os.close(a); os.close(d)
        self.pid, self.w, self.r = pid, b, c
        self.code = None
        self.opened = []
        self.read()

    def read(self):
        h = b""
        while len(h) < 4:
            x = os.read(self.r, 4 - len(h))
            if not x:
                _, st = os.waitpid(self.pid, 0)
                self.code = os.waitstatus_to_exitcode(st)
                os.close(self.r); os.close(self.w)
                self.at = ("exit", "")
                self.opened = []
                return
            h += x
        n, = struct.unpack("<I", h)
        d = b""
        while len(d) < n:
            d += os.read(self.r, n - len(d))
        kind, path, self.opened = pickle.loads(d)
        self.at = (kind, path)

    def go(self, c=b"g"):
        os.write(self.w, c)
        self.read()

    @property
    def live(self):
        return self.code is None


def iso(d):
    return None if not d else dt.date.fromordinal(d).isoformat()


def prepare(cfg, cube, tmp):
    import yaml
    st = os.path.join(tmp, "stack")
    os.makedirs(st)
    first, last = None, None
    for b, c in cube.items():
        x, y = (b - 1) % cfg["nbx"] + 1, (b - 1) // cfg["nbx"] + 1
        d = os.path.join(st, "block_x%d_y%d" % (x, y))
        os.makedirs(d)
        if c is None:
            continue
        for n, o in enumerate(c[0]):
            t = dt.date.fromordinal(int(o))
            f = "%s%d%03d.npy" % (cfg.get("sensor", "LT5012034"), t.year, t.timetuple().tm_yday)
            np.save(os.path.join(d, f), c[1][:, :, :, n].astype(np.int16).reshape(cfg["bh"], cfg["bw"], 8))
    with open(os.path.join(st, "starting_last_dates.txt"), "w") as f:
        f.write("%d\n%d\n" % (cfg["start"], cfg["end"]))
    yaml.safe_dump(dict(DATASETINFO=dict(n_rows=cfg["nby"] * cfg["bh"], n_cols=cfg["nbx"] * cfg["bw"], n_block_x=cfg["nbx"], n_block_y=cfg["nby"]),
                        ALGORITHMINFO=dict(conse=cfg["conse"], CM_OUTPUT_INTERVAL=cfg["interval"], probability_threshold=cfg["prob"])),
                   open(os.path.join(tmp, "config.yaml"), "w"))
    if cfg["seed"]:
        from osgeo import gdal
        o = gdal.GetDriverByName("GTiff").Create(os.path.join(tmp, "seed.tif"), cfg["nbx"] * cfg["bw"], cfg["nby"] * cfg["bh"], 1, gdal.GDT_Byte)
        o.GetRasterBand(1).WriteArray(cfg["label"].astype(np.uint8))
        o.FlushCache()
        del o


MUT = ("write", "opened", "rename", "remove", "unlink")


def run(cfg, cube, E, plan, tmp):
    """plan: dict(W, moves=[rank*10+k], seed, fine, rr, kills=[dict(op, mode, W, only)], mk)
    moves (spec/tile/TileGen): 1 take the worker to the brink of its next change, 2 through its next change, 3 kill it,
    4 start the job again with that many workers, 5 let it look in vain for what it waits for. After them (or without) workers go on by themselves, by seed.
    kills: end a worker at its op-th changing operation (and, without only, the job), then start again with W workers.
    A job that lost a worker is always started again in the end."""
    root = os.path.join(tmp, "result")
    if os.path.exists(root):
        shutil.rmtree(root)
    for f in os.listdir(tmp):
        if f.endswith(".log"):
            os.remove(os.path.join(tmp, f))
    if plan.get("mk", True):
        os.makedirs(root)
    disk = Disk(cfg, E, root)
    ev = []
    kills = list(plan.get("kills", []))
    moves = list(plan.get("moves", []))
    rnd = np.random.RandomState(plan.get("seed", 0))
    W = plan["W"]
    st = dict(steps=0, ops=0)
    for session in range(8):
        ws = {r: Worker(r, W, cfg, tmp) for r in range(1, W + 1)}
        ev.append(("start", W, "", (), 0))
        order = list(ws)
        quiet = 0           # rounds in which everybody slept and nothing changed
        slept = set()
        kill = kills.pop(0) if kills else None
        gone = set()
        lost = down = False
        cutoff = set()
        nextW = W

        def note(w, cut=()):
            """records what changed; True if something did. cut: files the worker was writing when it was killed"""
            o = set()
            for q in ws.values():
                o |= set(q.opened)
            ch = disk.scan(o)
            for k, s in ch:
                if s == "bad" and k in cut:
                    s = "partial"
                ev.append(("put", w.rank, s, k, 0))
            if not w.live and w.rank not in gone:
                gone.add(w.rank)
                ev.append(("exit", w.rank, "", (), w.code))
                return True
            return bool(ch)

        def end(w):
            cut = {disk.path.get(p) for p in w.opened} | cutoff
            if w.live:
                w.go(b"k")
            gone.add(w.rank)
            note(w, cut)
            ev.append(("kill", w.rank, "", (), 0))

        def advance(w):
            nonlocal lost, down, nextW
            st["steps"] += 1
            if kill and not lost and w.at[0] in MUT:
                st["ops"] += 1
                if st["ops"] == kill["op"]:
                    if kill["mode"] == "half" and w.at[0] == "opened":
                        cutoff.update(disk.path.get(p) for p in w.opened)
                        w.go(b"h")
                    elif kill["mode"] != "before":
                        w.go()
                        note(w)
                    end(w)
                    lost, down, nextW = True, not kill.get("only"), kill.get("W", W)
                    return True
            w.go()
            return note(w)

        def until(w, stop):
            """w goes on until something changed, it sleeps, ends, or stop(w)"""
            for _ in range(5000):
                ch = advance(w)
                if ch or not w.live or w.at[0] == "sleep" or stop(w):
                    return ch
            return False
        while not down:
            live = [ws[r] for r in order if ws[r].live]
            if not live:
                break
            if moves:
                m = moves.pop(0)
                w, k = ws.get(m // 10), m % 10
                if k == 4:
                    lost = down = True
                    nextW = m // 10
                elif w is None or not w.live:
                    pass
                elif k == 3:
                    end(w)
                    lost = True
                elif k in (2, 5) or w.at[0] not in MUT:
                    while until(w, lambda w: k == 1 and w.at[0] in MUT):
                        quiet = 0
                        if k != 5 or not w.live:
                            break
                slept.clear()
                continue
            ready = [w for w in live if w.rank not in slept]
            if not ready:
                quiet += 1
                slept.clear()
                if quiet >= 4:
                    ev.append(("stuck", 0, "", (), 0))
                    break
                continue
            w = ready[rnd.randint(len(ready))] if plan.get("seed") else ready[0]
            n = 1 if plan.get("fine") else int(rnd.choice([1, 1, 3, 10, 40])) if plan.get("seed") else 10 ** 9
            for _ in range(n):
                ch = advance(w)
                if ch:
                    quiet = 0
                    slept.clear()
                if not w.live or down:
                    break
                if w.at[0] == "sleep":
                    slept.add(w.rank)
                    break
                if ch and plan.get("rr"):
                    order.append(order.pop(order.index(w.rank)))
                    break
        for w in ws.values():
            if w.live:
                end(w)
        if not lost:
            break
        while moves and not down:           # the job ended otherwise than expected: on to its next start
            m = moves.pop(0)
            if m % 10 == 4:
                nextW = m // 10
                break
        W = nextW
    ev.append(("end", 0, "", (), 0))
    logs = ""
    for f in sorted(os.listdir(tmp)):
        if f.endswith(".log"):
            t = REAL["open"](os.path.join(tmp, f), errors="replace").read()
            i = t.rfind("Traceback")
            if i >= 0:
                logs += f + ": " + t[i:][-1500:] + "\n"
    return dict(events=ev, state=dict(disk.state), logs=logs, steps=st["steps"], ops=st["ops"])


FAIL = {}


def faulty(pycold):
    """pixels of FAIL raise, wherever they are processed"""
    import functools

    def wrap(f):
        @functools.wraps(f)
        def g(*a, **k):
            e = FAIL.get(int(k.get("pos", 0)))
            if e:
                raise {"RuntimeError": RuntimeError, "Exception": Exception}[e]("injected at %s" % k["pos"])
            return f(*a, **k)
        return g
    for n in ("cold_detect", "sccd_detect", "obcold_reconstruct"):
        g = wrap(getattr(pycold.colds, n))
        setattr(pycold.colds, n, g)
        setattr(pycold, n, g)


def main():
    with open(sys.argv[1], "rb") as f:
        p = pickle.load(f)
    import cv2
    cv2.setNumThreads(0)
    import pycold, pycold.colds
    faulty(pycold)
    import pycold.imagetool.tile_processing, pycold.ob_analyst, pycold.pyclassifier  # noqa
    import sklearn.ensemble  # noqa
    tmp = tempfile.mkdtemp(dir=os.getcwd())
    tmp = os.path.abspath(tmp)
    patch()
    cache = {}
    out = []
    for j, (cid, plan) in enumerate(p["runs"]):
        sys.stderr.write("run %d\n" % j)
        sys.stderr.flush()
        FAIL.clear()
        FAIL.update(p["tiles"][cid][0].get("fail", {}))
        if cid not in cache:
            for q in list(cache):
                shutil.rmtree(cache.pop(q)[1])
            cfg, cube = p["tiles"][cid]
            d = os.path.join(tmp, "t%d" % cid)
            os.makedirs(d)
            prepare(cfg, cube, d)
            cache[cid] = (expected(cfg, cube), d)
        E, d = cache[cid]
        cfg, cube = p["tiles"][cid]
        r = run(cfg, cube, E, plan, d)
        r["nbreaks"] = E.get("nbreaks", 0)
        r["optional"] = [k for k, v in E.items() if v is None]
        out.append(r)
    shutil.rmtree(tmp)
    with REAL["open"](sys.argv[2], "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    main()
