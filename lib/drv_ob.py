"""Object analysis of the real code (subprocess; in.pkl out.pkl)."""
import os, pickle, shutil, sys, tempfile
import numpy as np

NA = -9999
LAUNCH = 723742


def att(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def lists(x):
    return np.asarray(x).astype(np.int64).ravel().tolist()


def seg(j):
    from pycold import ob_analyst as ob
    h, w = j["h"], j["w"]
    if j["prob"]:
        cm, l1 = (np.array(j[k], float).reshape(h, w) / 1e5 for k in ("cm", "l1"))
        cm, l1 = cm.astype(np.float32), l1.astype(np.float32)
    else:
        cm, l1 = (np.array(j[k], np.int16).reshape(h, w) for k in ("cm", "l1"))
    d, d1 = (np.array(j[k], np.int32).reshape(h, w) for k in ("date", "l1date"))
    args = (cm, d) if j.get("alone") else (cm, d, l1, d1)
    if j["method"] == "floodfill":
        kw = dict(floodfill_ratio=j["ratio"] / 100)
        if j["prob"]:
            kw["b_dist_prob_map"] = True
        if j["interval"] != 60:
            kw["date_interval"] = j["interval"]
        if j["peakgiven"]:
            kw["peak_threshold"] = j["peak"] / 1e5
        o1, dates, o2, info = ob.segmentation_floodfill(*args, **kw)
    else:
        o1, dates, o2, info = getattr(ob, "segmentation_" + j["method"])(*args, **({} if j["lowgiven"] is None else dict(low_bound=j["lowgiven"])))
    means = dict(zip((int(x) for x in info["label"]), info["mean_intensity"]))
    mean = [0 if l == 0 else int(round(means[l] * 1000)) for l in lists(o1)]
    cls = np.array(j["maps"][j["use"]], j["ctype"]).reshape(h, w) if j["maps"] else None
    u = (j["uniform"][0] / 1000, j["uniform"][1] / 1000) if j["uniform"] else (None, None)
    ch = ob.object_analysis(o1, o2, info, classification_map=cls, uniform_threshold=u[0], uniform_sizeslope=u[1])
    return dict(lab=lists(o1), patch=lists(o2), date=lists(dates), mean=mean, change=lists(ch), result=[])


def execute(j):
    """obia_execute of a snapshot through the files"""
    from pycold import ob_analyst as ob
    from pycold.common import DatasetInfo
    h, w, bx, by = j["h"], j["w"], j["bx"], j["by"]
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        cms, th = os.path.join(d, "cm_maps"), os.path.join(d, "theme")
        os.mkdir(cms)
        os.mkdir(th)
        off = lambda x: np.where(np.array(x) == NA, NA, np.array(x) - LAUNCH).astype(np.int32).reshape(h, w)
        if j["when"] - j["step"] >= j["start"]:
            np.save(os.path.join(cms, ob.cmname_fromdate(j["when"]) + ".npy"), np.array(j["cm"], np.int16).reshape(h, w))
            np.save(os.path.join(cms, ob.cmdatename_fromdate(j["when"]) + ".npy"), off(j["date"]))
            np.save(os.path.join(cms, ob.cmname_fromdate(j["when"] - j["step"]) + ".npy"), np.array(j["l1"], np.int16).reshape(h, w))
            np.save(os.path.join(cms, ob.cmdatename_fromdate(j["when"] - j["step"]) + ".npy"), off(j["l1date"]))
        for y, m in zip(j["years"], j["maps"]):
            np.save(os.path.join(th, "yearlyclassification_%d.npy" % y), np.array(m, np.uint8).reshape(h, w))
        oa = ob.ObjectAnalystHPC(DatasetInfo(h, w, bx, by), stack_path=d, result_path=d, starting_date=j["start"], thematic_path=th if j["years"] else None)
        oa.hpc_preparation()
        kw = dict(cm_output_interval=j["step"])
        if j["ratio"] != 40:
            kw["floodfill_ratio"] = j["ratio"] / 100
        if j["uniform"]:
            kw.update(uniform_threshold=j["uniform"][0] / 1000, uniform_sizeslope=j["uniform"][1] / 1000)
        if j["method"] != "floodfill":
            kw["method"] = j["method"]
        oa.obia_execute(j["when"], **kw)
        if not oa.is_finished_object_analysis([j["when"]]):
            return "not finished"
        if oa.is_finished_object_analysis([j["when"], j["when"] + 1]):
            return "finished with what was not begun"
        full = np.zeros((h, w), np.int64)
        bh, bw = h // by, w // bx
        for y in range(by):
            for x in range(bx):
                b = np.load(os.path.join(d, "OBIAresults", "%s_x%d_y%d.npy" % (ob.obiaresname_fromdate(j["when"]), x + 1, y + 1)))
                full[y * bh:(y + 1) * bh, x * bw:(x + 1) * bw] = b.reshape(bh, bw)
        return dict(lab=[], patch=[], date=[], mean=[], change=[], result=lists(full))
    finally:
        shutil.rmtree(d)


def years(j):
    """which year's map is the context of each date"""
    from pycold import ob_analyst as ob
    from pycold.common import DatasetInfo
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        for y in j["years"]:
            np.save(os.path.join(d, "yearlyclassification_%d.npy" % y), np.full((1, 1), y))
        out = []
        for date, start in j["cases"]:
            oa = ob.ObjectAnalystHPC(DatasetInfo(1, 1, 1, 1), stack_path=d, result_path=d, starting_date=start, thematic_path=d)
            g = att(oa.get_lastyear_cmap_fromdate, date)
            out.append(g if isinstance(g, str) else int(g[0, 0]))
        return out
    finally:
        shutil.rmtree(d)


def stack(j):
    """the break dates of a block's pixels over the snapshots"""
    from pycold import ob_analyst as ob
    from pycold.common import DatasetInfo
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        oa = ob.ObjectAnalystHPC(DatasetInfo(j["by"] * j["bh"], j["bx"] * j["bw"], j["bx"], j["by"]), stack_path=d, result_path=d, starting_date=j["dates"][0])
        oa.hpc_preparation()
        h, w = j["by"] * j["bh"], j["bx"] * j["bw"]
        for k in j["order"]:
            change = np.array(j["change"][k], np.uint8 if j["dates"][k] % 2 else np.byte).reshape(h, w)
            oa.save_obiaresult(j["dates"][k], change, np.array(j["when"][k], np.int32).reshape(h, w))
        return [[oa.get_allobiaresult_asarray(x, y).astype(np.int64).tolist() for x in range(1, j["bx"] + 1)] for y in range(1, j["by"] + 1)]
    finally:
        shutil.rmtree(d)


def rule(j):
    """is_change_object on objects of given size, class and mean"""
    import pandas as pd
    from pycold import ob_analyst as ob
    out = []
    from pycold.app import defaults
    steep = dict(defaults["OBCOLD"], default_threshold=9., default_sizeslope=.35)
    for k in range(1, 9):
        steep.update({"C%d_threshold" % k: 8 + k, "C%d_sizeslope" % k: .3 + .04 * k})
    for size, cls, mean, u, q in j["cases"]:
        row = pd.DataFrame(dict(label=[1], mean_intensity=[mean / 1000], mode=[255 if cls is None else cls], npixels=[size]))
        ut = (None, None) if not u else (u[0] / 1000, u[1] / 1000)
        g = att(ob.is_change_object, row, ut[0], ut[1], "mean_intensity", None if cls is None else np.zeros((1, 1)), *([steep] if q else []))
        out.append(g if isinstance(g, str) else bool(g))
    return out


if __name__ == "__main__":
    jobs = pickle.load(open(sys.argv[1], "rb"))
    out = [att(globals()[j["kind"]], j) for j in jobs]
    pickle.dump(out, open(sys.argv[2], "wb"))
