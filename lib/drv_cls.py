"""The real classifier over given records (subprocess; in.pkl out.pkl)."""
import os, pickle, shutil, sys, tempfile, time
import numpy as np
import sklearn.ensemble
import logging

NAN = 99999999
FITS = []


class Model:
    """stands in for the random forest: a known function of the features (Cls.Predict)"""

    def __init__(self, *a, **k):
        pass

    def fit(self, x, y, *a, **k):
        FITS.append((np.array(x), np.array(y)))
        return self

    def predict(self, x):
        m = np.zeros(len(x), np.int64)
        for i in range(x.shape[1]):
            m = (m * 3 + np.rint(np.asarray(x[:, i], float)).astype(np.int64)) % 10007
        return (1 + m % 8).astype(np.int64)


sys.modules["drv_cls"] = sys.modules["__main__"]
Model.__module__ = "drv_cls"
sklearn.ensemble.RandomForestClassifier = Model
time.sleep = lambda s: None
logging.disable(logging.CRITICAL)


def att(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def records(rs):
    from pycold.common import reccg_dt
    out = np.zeros(len(rs), reccg_dt)
    for o, r in zip(out, rs):
        o["pos"], o["t_start"], o["t_end"], o["t_break"] = r["pos"], r["t0"], r["t1"], 0
        c = np.array(r["coefs"], float)
        c[c == NAN] = np.nan
        c[:, 1] *= 10000
        o["coefs"] = c
        m = np.array(r["rmse"], float)
        m[m == NAN] = np.nan
        o["rmse"] = m
    return out


def info(j):
    from pycold.common import DatasetInfo
    return DatasetInfo(j["ny"] * j["h"], j["nx"] * j["w"], j["nx"], j["ny"])


def ints(a):
    return np.rint(np.nan_to_num(np.asarray(a, float), nan=-77777)).astype(np.int64).tolist()


def cover(j):
    """which record extract_features takes"""
    from pycold.pyclassifier import extract_features
    out = []
    for rs, day in j["cases"]:
        r = records([dict(pos=1, t0=a, t1=b, coefs=[[k * 10 + 5, 0] + [k * 1000 + q for q in range(6)]] * 7, rmse=[7] * 7) for k, (a, b) in enumerate(rs, 1)])
        f = extract_features(r, 3, [day, day], -9999, ["a0", "b1"])
        out.append([ints(x) for x in f])
    return out


def features(j):
    from pycold.pyclassifier import PyClassifier
    c = PyClassifier(info(j), feature_outputs=j["names"], band_num=j["bands"])
    lo = [r for r in j["recs"] if r["block"] == j["block"]]
    return ints(c.predict_features(j["block"], records(lo), j["years"]))


def quota(j):
    from pycold.pyclassifier import generate_sample_num
    lab = np.array(j["map"], j["ltype"]).reshape(j["shape"])
    return ints(generate_sample_num(lab, dict(total_landcover_category=len(j["counts"]), total_samples=j["total"], max_category_samples=j["most"], min_category_samples=j["least"])))


def hpc(j, d, **k):
    from pycold.pyclassifier import PyClassifierHPC
    for b in range(1, j["nx"] * j["ny"] + 1):
        rs = [r for r in j["recs"] if r["block"] == b]
        if rs or b % 2:
            if rs:
                np.save(os.path.join(d, "record_change_x%d_y%d_cold.npy" % ((b - 1) % j["nx"] + 1, (b - 1) // j["nx"] + 1)), records(rs))
    return PyClassifierHPC(info(j), record_path=d, year_list_to_predict=j["years"], feature_outputs=j["names"], band_num=j["bands"], **k)


def small(j):
    import pycold.pyclassifier as p
    p.defaults["CLASSIFIER"].update(total_samples=j["total"], max_category_samples=j["most"], min_category_samples=j["least"], training_year=j["defyear"])


def samples(j):
    """train on a seed map: whose features were taken for which class"""
    from osgeo import gdal
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        small(j)
        n, m = j["nrow"], j["ncol"]
        t = gdal.GetDriverByName("GTiff").Create(os.path.join(d, "seed.tif"), m, n, 1, gdal.GDT_Byte)
        t.GetRasterBand(1).WriteArray(np.array(j["label"], np.uint8).reshape(n, m))
        t = None
        c = hpc(j, d, seedmap_path=os.path.join(d, "seed.tif"))
        c.hpc_preparation()
        for b in j["order"]:
            c.step1_feature_generation(b)
        FITS.clear()
        c.step2_train_rf(**({} if j["year"] == j["defyear"] and j["implicit"] else dict(ref_year=j["year"])))
        if len(FITS) != 1:
            return "fitted %d times" % len(FITS)
        x, y = FITS[0]
        at = 1 + 0        # band 1's a1: pixel * 10 + segment
        out = []
        for row, lab in zip(ints(x), ints(y)):
            v = row[j["names"].index("a1")]
            out.append([0, lab, 0] if v == -9999 else [v // 10, lab, v % 10])
        return out
    finally:
        shutil.rmtree(d)


def maps(j):
    import joblib
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        joblib.dump(Model(), os.path.join(d, "m.model"))
        out = os.path.join(d, "out") if j["outdir"] else None
        c = hpc(j, d, rf_path=os.path.join(d, "m.model"), output_path=out, tmp_path=os.path.join(d, "tmp") if j["tmpdir"] else None)
        c.hpc_preparation()
        for b in j["order"]:
            c.step1_feature_generation(b)
        for b in reversed(j["order"]):
            c.step3_classification(b)
        c.step4_assemble(clean=j["clean"])
        if not c.is_finished_step4_assemble():
            return "not finished"
        o = out or os.path.join(d, "feature_maps")
        got = []
        for y in j["years"]:
            m = np.load(os.path.join(o, "yearlyclassification_%d.npy" % y))
            if m.shape != (j["nrow"], j["ncol"]):
                return "shape %s" % (m.shape,)
            got.append(ints(m.ravel()))
        return got
    finally:
        shutil.rmtree(d)


def block(j):
    from pycold.pyclassifier import PyClassifier
    c = PyClassifier(info(j), feature_outputs=j["names"], band_num=j["bands"])
    m = c.classification_block(Model(), np.array(j["rows"], np.float32))
    if m.shape != (j["h"], j["w"]):
        return "shape %s" % (m.shape,)
    return ints(m.ravel())


def now(j):
    """the maps of the current state (S-CCD)"""
    import joblib
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        joblib.dump(Model(), os.path.join(d, "m.model"))
        c = hpc(dict(j, recs=[]), d, rf_path=os.path.join(d, "m.model"))
        c.hpc_preparation()
        n = j["nx"] * j["ny"]
        per = j["w"] * j["h"]
        rows = np.array(j["rows"], np.float32).reshape(n, per, -1)
        for b in range(1, n + 1):
            np.save(os.path.join(d, "feature_maps", "tmp_feature_now_block%d.npy" % b), rows[b - 1])
            c.step3_classification_sccd(b)
        c.step4_assemble_sccd(clean=j["clean"])
        m = np.load(os.path.join(d, "feature_maps", "yearlyclassification_now.npy"))
        if m.shape != (j["nrow"], j["ncol"]):
            return "shape %s" % (m.shape,)
        # back in the order of the rows
        m = m.reshape(j["ny"], j["h"], j["nx"], j["w"]).swapaxes(1, 2).reshape(-1)
        return ints(m)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    jobs = pickle.load(open(sys.argv[1], "rb"))
    pickle.dump([att(globals()[j["do"]], j) for j in jobs], open(sys.argv[2], "wb"))
