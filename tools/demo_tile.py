"""A small synthetic tile and runs of the tile pipeline on it, everything inside a scratch folder."""
import datetime as dt, json, os, shutil, subprocess, sys, tempfile, time
import numpy as np

BASE = np.array([400., 700., 700., 2800., 1900., 1100., 2900.])
AMP = np.array([80., 120., 150., 500., 350., 220., 80.])
STEP = np.array([300, 450, 600, -900, 700, 650, 60.])

RUN = """import sys, json, time, os
real = time.sleep
time.sleep = lambda s: real(min(s, .05))
kw = json.loads(sys.argv[1])
for p in kw.pop("before", []):
    exec(p)
import cv2
cv2.setNumThreads(0)
from pycold.imagetool.tile_processing import main
main.callback(**kw)
"""


def dates(n, seed=0, start=728000, step=(8, 16, 24)):
    r = np.random.RandomState(seed)
    return start + np.concatenate([[0], np.cumsum(r.choice(step, n - 1))]).astype(np.int64)


def pixel(d, seed, breaks=(), size=1., noise=1.):
    """the 7 bands of a pixel with changes at the given fractions of the series"""
    r = np.random.RandomState(seed)
    t = 2 * np.pi * d / 365.25
    y = BASE[:, None] * r.uniform(.8, 1.2) + AMP[:, None] * r.uniform(.4, 1.2) * np.sin(t + r.uniform(0, 6))[None, :]
    y += r.normal(0, 1, (7, len(d))) * (BASE[:, None] * .02 * noise + 4)
    for k, f in enumerate(breaks):
        y[:, int(len(d) * f):] += (STEP * size * (-1) ** k)[:, None]
    y[:6] = np.clip(y[:6], 5, 9990)
    return np.rint(y).astype(np.int64)


class Tile:
    def __init__(self, nbx=2, nby=1, bw=3, bh=2, method="COLD", conse=6, interval=60, prob=.99, b_c2=False, lo=None, hi=None, label=None, seed_year=None):
        self.__dict__.update(locals())
        self.dir = tempfile.mkdtemp()
        self.stack = os.path.join(self.dir, "stack")
        os.mkdir(self.stack)
        self.ncols, self.nrows = nbx * bw, nby * bh
        self.blocks = {}

    def add(self, block, d, px):
        """px: {(row, col) in the block: (bands [7, n], qa [n])}"""
        x, y = (block - 1) % self.nbx + 1, (block - 1) // self.nbx + 1
        f = os.path.join(self.stack, "block_x%d_y%d" % (x, y))
        os.makedirs(f)
        self.blocks[block] = (d, px)
        for n, o in enumerate(d):
            a = np.zeros((self.bh, self.bw, 8), np.int16)
            for (i, j), (b, q) in px.items():
                a[i, j, :7], a[i, j, 7] = b[:, n], q[n]
            t = dt.date.fromordinal(int(o))
            np.save(os.path.join(f, "LT5012034%d%03d.npy" % (t.year, t.timetuple().tm_yday)), a)

    def ready(self, start, end):
        import yaml
        self.start = start
        with open(os.path.join(self.stack, "starting_last_dates.txt"), "w") as f:
            f.write("%d\n%d\n" % (start, end))
        with open(os.path.join(self.dir, "config.yaml"), "w") as f:
            yaml.safe_dump(dict(DATASETINFO=dict(n_rows=self.nrows, n_cols=self.ncols, n_block_x=self.nbx, n_block_y=self.nby),
                                ALGORITHMINFO=dict(conse=self.conse, CM_OUTPUT_INTERVAL=self.interval, probability_threshold=self.prob)), f)
        if self.label is not None:
            from osgeo import gdal
            o = gdal.GetDriverByName("GTiff").Create(os.path.join(self.dir, "seed.tif"), self.ncols, self.nrows, 1, gdal.GDT_Byte)
            o.GetRasterBand(1).WriteArray(self.label.astype(np.uint8))
            o.FlushCache()
            del o

    def worker(self, rank, n, result="result", before=()):
        iso = lambda o: None if o is None else dt.date.fromordinal(int(o)).isoformat()
        kw = dict(rank=rank, n_cores=n, stack_path=self.stack, result_path=os.path.join(self.dir, result), yaml_path=os.path.join(self.dir, "config.yaml"),
                  method=self.method, seedmap_path=None if self.label is None else os.path.join(self.dir, "seed.tif"),
                  low_datebound=iso(self.lo), upper_datebound=iso(self.hi), b_c2=self.b_c2, seedmap_year=self.seed_year, before=list(before))
        return subprocess.Popen([sys.executable, "-c", RUN, json.dumps(kw)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def run(self, n=1, result="result", before=(), timeout=90, stagger=0):
        """n workers to the end; -> what went wrong"""
        ps = []
        for r in range(1, n + 1):
            ps.append(self.worker(r, n, result, before))
            time.sleep(stagger)
        wrong = []
        end = time.time() + timeout
        for r, p in enumerate(ps, 1):
            try:
                out, _ = p.communicate(timeout=max(1, end - time.time()))
                if p.returncode:
                    wrong.append("worker %d of %d ended with %d: %s" % (r, n, p.returncode, out[-300:]))
            except subprocess.TimeoutExpired:
                wrong.append("worker %d of %d does not end" % (r, n))
        for p in ps:
            if p.poll() is None:
                p.kill()
                p.communicate()
        return wrong

    def path(self, name, result="result"):
        return os.path.join(self.dir, result, name)

    def records(self, block, result="result", kind="cold"):
        x, y = (block - 1) % self.nbx + 1, (block - 1) // self.nbx + 1
        f = self.path(("obcold/" if kind == "obcold" else "") + "record_change_x%d_y%d_%s.npy" % (x, y, kind), result)
        return np.load(f) if os.path.exists(f) else None

    def args(self, block, ij):
        d, px = self.blocks[block]
        k = (d >= (self.lo or 0)) & (d <= (self.hi or 10 ** 7))
        b, q = px[ij]
        return [d[k]] + [np.ascontiguousarray(b[j, k]) for j in range(7)] + [np.ascontiguousarray(q[k])]

    def pos(self, block, ij):
        return ((block - 1) // self.nbx * self.bh + ij[0]) * self.ncols + (block - 1) % self.nbx * self.bw + ij[1] + 1

    def close(self):
        shutil.rmtree(self.dir)


def key(r):
    """what identifies records, sorted"""
    return sorted([int(x["pos"]), int(x["t_start"]), int(x["t_end"]), int(x["t_break"]), int(x["num_obs"]), int(x["category"]), int(x["change_prob"])] +
                  [round(float(v), 1) for v in np.ravel(x["coefs"])[::8]] for x in r)
