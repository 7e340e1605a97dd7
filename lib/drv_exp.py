"""The real map export over given records, its processes as threads of which one runs at a time (subprocess; in.pkl out.pkl)."""
import io, os, pickle, shutil, sys, tempfile, types, warnings
import numpy as np

warnings.filterwarnings("ignore")
NAN = 99999999
BASE = 723000


from team import Team

TEAM = None
mpi = types.ModuleType("mpi4py")


class World:
    def __getattr__(self, k):
        return getattr(TEAM, k)


mpi.MPI = types.SimpleNamespace(COMM_WORLD=World())
sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = mpi, mpi.MPI


def at(f):
    def g(*a, **k):
        if TEAM:
            TEAM.switch()
        return f(*a, **k)
    return g


np.save, np.load, os.remove = at(np.save), at(np.load), at(os.remove)


def records(px, dt):
    from pycold.common import reccg_dt
    out = []
    for p, rs in px:
        for r in rs:
            o = np.zeros(1, reccg_dt)[0]
            o["pos"], o["t_start"], o["t_end"], o["t_break"], o["change_prob"] = p, r["t0"], r["t1"], r["brk"], r["prob"]
            m = np.array(r["mag"], float)
            o["magnitude"] = m
            if "coefs" in r:
                c = np.array(r["coefs"], float)
                c[c == NAN] = np.nan
                c[:, 1] *= 10000
                o["coefs"] = c
                m = np.array(r["rmse"], float)
                m[m == NAN] = np.nan
                o["rmse"] = m
            else:
                o["coefs"][2:5, 1] = r["sl"]
            out.append(o)
    return np.array(out, reccg_dt) if out else np.zeros(0, reccg_dt)


def pack(p, rs, i):
    from pycold.common import SccdOutput, sccd_dt, nrtmodel_dt, nrtqueue_dt
    from pycold.utils import unindex_sccdpack
    a = np.zeros(len(rs), sccd_dt)
    for o, r in zip(a, rs):
        o["t_start"], o["t_break"], o["magnitude"] = r["t0"], r["brk"], r["mag"][:6]
    model = np.ones(1, nrtmodel_dt) if i % 3 else np.array([])
    queue = np.ones(3, nrtqueue_dt) if i % 3 != 1 else np.array([])
    return unindex_sccdpack(SccdOutput(p, a if len(rs) else np.array([]), np.arange(6), i % 4, model, queue))


def ints(a):
    return np.rint(np.nan_to_num(np.asarray(a, float), nan=-77777)).astype(np.int64).ravel().tolist()


def read(f, j, ref, dtype):
    from osgeo import gdal
    d = gdal.Open(f)
    if d is None:
        raise ValueError("no map %s" % os.path.basename(f))
    a = d.ReadAsArray()
    if a.shape != (j["nrow"], j["ncol"]):
        raise ValueError("%s has %s rows, columns" % (os.path.basename(f), a.shape))
    if d.GetGeoTransform() != ref.GetGeoTransform() or d.GetProjection() != ref.GetProjection():
        raise ValueError("%s is not where the reference is" % os.path.basename(f))
    return ints(a)


def export(j):
    global TEAM
    from osgeo import gdal, osr
    import yaml
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        m, n = j["ncol"], j["nrow"]
        ref = gdal.GetDriverByName("GTiff").Create(os.path.join(d, "ref.tif"), m, n, 1, gdal.GDT_Byte)
        ref.SetGeoTransform((500000 + 30 * m, 30, 0, 4000000 - 30 * n, 0, -30))
        s = osr.SpatialReference()
        s.ImportFromEPSG(32600 + 1 + m % 60)
        ref.SetProjection(s.ExportToWkt())
        ref = None
        ref = gdal.Open(os.path.join(d, "ref.tif"))
        with open(os.path.join(d, "c.yaml"), "w") as f:
            yaml.safe_dump(dict(DATASETINFO=dict(n_rows=n, n_cols=m, n_block_x=j["nx"], n_block_y=j["ny"])), f)
        rec = os.path.join(d, "rec")
        src = os.path.join(rec, "obcold") if j["method"] == "OBCOLD" else rec
        os.makedirs(src)
        ext = dict(COLD="cold", OBCOLD="obcold", SCCDOFFLINE="sccd")[j["method"]]
        for b in range(1, j["nx"] * j["ny"] + 1):
            if b in j["missing"]:
                continue
            by, bx = (b - 1) // j["nx"], (b - 1) % j["nx"]
            px = []
            for q in range(j["w"] * j["h"]):
                p = (by * j["h"] + q // j["w"]) * m + bx * j["w"] + q % j["w"] + 1
                px.append((p, j["px"][p - 1]))
            f = os.path.join(src, "record_change_x%d_y%d_%s.npy" % (bx + 1, by + 1, ext))
            if j["method"] == "SCCDOFFLINE":
                with open(f, "wb") as h:
                    for i, (p, rs) in enumerate(px):
                        if rs or i % 2:
                            h.write(pickle.dumps(pack(p, rs, i)))
            else:
                np.save(f, records(px, None))
        out = os.path.join(d, "out")
        if j["ready"]:
            os.makedirs(os.path.join(out, ext + "_maps"))
        import pycold.imagetool.export_change_map as e
        TEAM = Team(j["n"], j["turns"])
        kw = {}
        if j.get("names"):
            sep = ", " if j["spaced"] else ","
            kw = dict(coefs=sep.join(j["names"]), coefs_bands=sep.join(str(b - 1) for b in j["bands"]))
        else:
            kw = dict(coefs=None, coefs_bands="0, 1, 2, 3, 4, 5, 6")
        main = getattr(e.main, "callback", e.main)
        try:
            err = TEAM.run(lambda: main(reccg_path=rec, reference_path=os.path.join(d, "ref.tif"), out_path=out, method=j["method"], year_lowbound=j["lo"], year_uppbound=j["hi"], yaml_path=os.path.join(d, "c.yaml"), **kw))
        finally:
            TEAM = None
        if err:
            return "the export failed: " + str(err)[:300]
        o = os.path.join(out, ext + "_maps")
        ys = range(j["lo"], j["hi"] + 1)
        g = dict(maps=[read(os.path.join(o, "%d_break_map_%s.tif" % (y, j["method"])), j, ref, None) for y in ys])
        for k in ("recent", "first"):
            g[k] = read(os.path.join(o, "%s_disturbance_map_%s.tif" % (k, j["method"])), j, ref, None)
        if j.get("names"):
            g["coefs"] = [[[read(os.path.join(o, "%d_coefs_%s_%d_%s.tif" % (y, j["method"], b - 1, c)), j, ref, None) for c in j["names"]] for b in j["bands"]] for y in ys]
        left = [f for f in os.listdir(o) if f.startswith("tmp")]
        if left:
            return "temporary files are left: %s" % left[:5]
        return g
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    jobs = pickle.load(open(sys.argv[1], "rb"))
    sys.stdout = io.StringIO()
    out = [export(j) for j in jobs]
    pickle.dump(out, open(sys.argv[2], "wb"))
