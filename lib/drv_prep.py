"""The real stack preparation over made-up images, its processes as threads of which one runs at a time (subprocess; in.pkl out.pkl)."""
import datetime as dt, io, json, logging, os, pickle, shutil, sys, tarfile, tempfile, time, warnings
import numpy as np
from team import Team

warnings.filterwarnings("ignore")
BASE = os.getcwd()
# the package in a place where the map of paths can be laid beside it
import importlib.util
SRC = os.path.dirname(importlib.util.find_spec("pycold").origin)
shutil.copytree(SRC, os.path.join(BASE, "over", "pycold"), ignore=shutil.ignore_patterns("__pycache__", "singlepath*"))
sys.path.insert(0, os.path.join(BASE, "over"))
for k in [k for k in sys.modules if k.split(".")[0] == "pycold"]:
    del sys.modules[k]
PKG = os.path.join(BASE, "over", "pycold", "imagetool")

TEAM = None
SLEEPS = 0


def at(f):
    def g(*a, **k):
        if TEAM:
            TEAM.switch()
        return f(*a, **k)
    return g


def sleep(s):
    global SLEEPS
    SLEEPS += 1
    if SLEEPS > 5000:
        raise RuntimeError("waits for ever")
    if TEAM:
        TEAM.switch()


time.sleep = sleep
from osgeo import gdal, gdal_array, osr, ogr
np.save, shutil.rmtree_, gdal_array.LoadFile, tarfile.TarFile.extractall = at(np.save), shutil.rmtree, at(gdal_array.LoadFile), at(tarfile.TarFile.extractall)
shutil.rmtree = at(shutil.rmtree)
exists = os.path.exists


def seen(f):
    # only where the code itself asks, not a library that may hold a lock
    if TEAM and sys._getframe(1).f_globals.get("__name__", "").endswith("prepare_ard"):
        TEAM.switch()
    return exists(f)


os.path.exists = seen
RES = 30


def proj():
    s = osr.SpatialReference()
    s.ImportFromEPSG(32618)
    return s.ExportToWkt()


def tif(f, a, kind=gdal.GDT_Int16, x0=500000, y0=4000000, pages=None):
    h, w = a.shape
    t = gdal.GetDriverByName("GTiff").Create(f, w, h, 1, kind)
    t.SetGeoTransform((x0, RES, 0, y0, 0, -RES))
    t.SetProjection(proj())
    t.GetRasterBand(1).WriteArray(a)
    t = None


def tar(f, d, broken):
    if broken == "tar":
        with open(f, "wb") as h:
            h.write(b"this is no archive" * 50)
    else:
        with tarfile.open(f, "w") as h:
            for x in sorted(os.listdir(d)):
                h.add(os.path.join(d, x), x)
    shutil.rmtree_(d)


def make(j, m, src, k):
    """files of image m; returns the name its stack files start with"""
    lay = j["layout"]
    day = dt.date.fromordinal(m["date"])
    doy = day.strftime("%j")
    ymd = day.strftime("%Y%m%d")
    n, w = j["nrow"], j["ncol"]
    qa = np.array(m["qa"]).reshape(n, w)
    bands = [np.array(b).reshape(n, w) for b in m["bands"]]
    br = m["broken"]
    num = dict(l=["1", "2", "3", "4", "5", "7"], o=["2", "3", "4", "5", "6", "7"])["l" if m["sensor"] in "457" else "o"]
    bt = "6" if m["sensor"] in "457" else "10"
    S = {"4": "LT", "5": "LT", "7": "LE", "8": "LC", "9": "LC"}
    if lay in ("ARD", "ARD-C2"):
        tile = "%03d%03d" % (j["tile"])
        pre = "%s0%s_CU_%s_%s_20211231_%s" % (S[m["sensor"]], m["sensor"], tile, ymd, "C01_V01" if lay == "ARD" else "02")
        sr = pre + "_SR"
        kind = gdal.GDT_Int16 if lay == "ARD" else gdal.GDT_UInt16
        d = os.path.join(BASE, "mk")
        os.makedirs(d)
        name = (lambda b: os.path.join(d, sr + "B%s.tif" % b)) if lay == "ARD" else (lambda b: os.path.join(d, sr + "_B%s.TIF" % b))
        for i in range(6):
            if not (br == "band" and i == m["lost"]):
                tif(name(num[i]), bands[i], kind)
        if num[0] == "2":
            tif(name("1"), bands[0] * 0 + 77, kind)
        if br != "qa":
            tif(os.path.join(d, pre + ("_PIXELQA.tif" if lay == "ARD" else "_QA_PIXEL.TIF")), qa, gdal.GDT_UInt16)
        with open(os.path.join(d, pre + ".xml"), "w") as f:
            if lay == "ARD":
                f.write('<?xml version="1.0"?><ard_metadata xmlns="https://landsat.usgs.gov/ard/v1"><tile_metadata/><scene_metadata><index>1</index><global_metadata><satellite>L</satellite><wrs system="2" path="%d" row="31"/></global_metadata></scene_metadata></ard_metadata>' % m["path"])
            else:
                f.write('<?xml version="1.0"?><ARD><SCENE_METADATA><IMAGE_ATTRIBUTES><SPACECRAFT_ID>L</SPACECRAFT_ID><SENSOR_ID>S</SENSOR_ID><WRS_TYPE>2</WRS_TYPE><WRS_PATH>%d</WRS_PATH><WRS_ROW>31</WRS_ROW></IMAGE_ATTRIBUTES></SCENE_METADATA></ARD>' % m["path"])
        tar(os.path.join(src, sr + ".tar"), d, br)
        if br != "bt":
            os.makedirs(d)
            if br != "bt band":
                tif(os.path.join(d, pre + ("_BTB%s.tif" % bt if lay == "ARD" else "_BT_B%s.TIF" % bt)), bands[6], kind)
            else:
                tif(os.path.join(d, "nothing.tif"), bands[6], kind)
            tar(os.path.join(src, pre + "_BT.tar"), d, "tar" if br == "bt tar" else "")
        return S[m["sensor"]] + m["sensor"] + tile + str(day.year) + doy
    if lay == "C2":
        tile = "%03d%03d" % (j["tile"])
        pre = "%s0%s_L2SP_%s_%s_20211231_02_T1" % (S[m["sensor"]], m["sensor"], tile, ymd)
        d = os.path.join(BASE, "mk")
        os.makedirs(d)
        # the scene is larger than what is asked for, or does not reach it everywhere
        top, left, bottom, right = m["pad"]
        x0, y0 = 500000 - RES * left, 4000000 + RES * top

        def lay_out(a, rest):
            b = np.full((n + top + bottom, w + left + right), rest, a.dtype)
            o = a[max(0, -top):n + min(0, bottom), max(0, -left):w + min(0, right)]
            b[max(0, top):max(0, top) + o.shape[0], max(0, left):max(0, left) + o.shape[1]] = o
            return b
        for i in range(7):
            if not (br == "band" and i == m["lost"]):
                f = pre + ("_SR_B%s.TIF" % num[i] if i < 6 else "_ST_B%s.TIF" % bt)
                tif(os.path.join(d, f), lay_out(bands[i], 4321), gdal.GDT_UInt16, x0, y0)
        if num[0] == "2":
            tif(os.path.join(d, pre + "_SR_B1.TIF"), bands[0] * 0 + 77, gdal.GDT_UInt16)
        if br != "qa":
            tif(os.path.join(d, pre + "_QA_PIXEL.TIF"), lay_out(qa, 64), gdal.GDT_UInt16, x0, y0)
        tar(os.path.join(src, pre + ".tar"), d, br)
        return S[m["sensor"]] + m["sensor"] + tile + str(day.year) + doy
    land = m["sensor"] == "L"
    sensor = m["sensor"] + "30"
    if lay == "HLS":
        pre = "HLS.%s.T12ABC.%d%sT165959.v2.0" % (sensor, day.year, doy)
        d = os.path.join(src, pre)
        os.makedirs(d)
        names = ["B02", "B03", "B04", "B05", "B06", "B07"] if land else ["B02", "B03", "B04", "B8A", "B11", "B12"]
        for i in range(6):
            if not (br == "band" and i == m["lost"]):
                tif(os.path.join(d, "%s.%s.tif" % (pre, names[i])), bands[i])
        for i, x in enumerate(["B01", "B8A", "B11"] if land else ["B01", "B05", "B06", "B07", "B08"]):
            tif(os.path.join(d, "%s.%s.tif" % (pre, x)), bands[0] * 0 + 70 + i)
        if br == "tar":
            with open(os.path.join(d, pre + ".Fmask.tif"), "wb") as f:
                f.write(b"no image")
        elif br != "qa":
            tif(os.path.join(d, pre + ".Fmask.tif"), qa, gdal.GDT_Byte)
        return sensor + "T12ABC" + str(day.year) + doy
    pre = "HLS.%s.T12ABC.%d%s.v1.4.hdf" % (sensor, day.year, doy)
    os.makedirs(os.path.join(src, "deep"), exist_ok=True)
    f = os.path.join(src, "deep" if k % 2 else "", pre)
    if br == "tar":
        with open(f, "wb") as h:
            h.write(b"no image")
    else:
        order = [1, 2, 3, 4, 5, 6] if land else [1, 2, 3, 8, 11, 12]
        pages = [bands[0] * 0 + 70 + i for i in range(10 if land else 13)]
        for i, p in enumerate(order):
            pages[p] = bands[i]
        hdf(f, pages + [qa])
    return sensor + "T12ABC" + str(day.year) + doy


def hdf(f, pages):
    """a file with one raster per data set (that the real ones are HDF4 does not matter to what reads them)"""
    h, w = pages[0].shape
    files = []
    for i, a in enumerate(pages):
        files.append("%s.%d.tif" % (f, i))
        tif(files[-1], a, gdal.GDT_Int16 if i < len(pages) - 1 else gdal.GDT_Byte)
    for i, x in enumerate(files):
        gdal.Translate(f, x, format="GTiff", creationOptions=["APPEND_SUBDATASET=YES"] if i else [])
    for x in files:
        os.remove(x)


def paths(j, own):
    """the map of paths: larger than the tile; other values around it"""
    n, w = j["nrow"], j["ncol"]
    a = np.full((n + 9, w + 7), 99, np.uint8)
    a[4:4 + n, 3:3 + w] = np.array(own).reshape(n, w)
    tif(os.path.join(PKG, "singlepath_landsat_conus.tif"), a, gdal.GDT_Byte, 500000 - 3 * RES, 4000000 + 4 * RES)
    h, v = j["tile"]
    a = np.full(((v + 1) * n + 2, (h + 1) * w + 2), 99, np.uint8)
    a[v * n:v * n + n, h * w:h * w + w] = np.array(own).reshape(n, w)
    tif(os.path.join(PKG, "singlepath_landsat_tile_crop_compress.tif"), a, gdal.GDT_Byte)


def prepare(j):
    global TEAM, SLEEPS
    import yaml
    import pycold.imagetool.prepare_ard as p
    d = tempfile.mkdtemp(dir=BASE)
    try:
        src = os.path.join(d, "h%03dv%03d" % (j["tile"]))
        out = os.path.join(d, "out")
        os.makedirs(src)
        os.makedirs(out) if j["ready"] else None
        first = {}
        for k, m in enumerate(j["imgs"], 1):
            name = make(j, m, src, k)
            if name in first:
                raise RuntimeError("two images with one name")
            first[name] = k
        if j["layout"].startswith("ARD"):
            paths(j, j["own"])
        with open(os.path.join(d, "c.yaml"), "w") as f:
            yaml.safe_dump(dict(DATASETINFO=dict(n_rows=j["nrow"], n_cols=j["ncol"], n_block_x=j["nx"], n_block_y=j["ny"])), f)
        shape = None
        if j["layout"] == "C2":
            shape = os.path.join(d, "tiles.geojson")
            b = (500000, 4000000 - RES * j["nrow"], 500000 + RES * j["ncol"], 4000000)
            sq = lambda x0, y0, x1, y1: dict(type="Polygon", coordinates=[[[x0, y0], [x1, y0], [x1, y1], [x0, y1], [x0, y0]]])
            fs = [dict(type="Feature", properties=dict(id=i), geometry=sq(*(b if i == j["id"] else (0, 0, 300, 300)))) for i in range(1, 5)]
            json.dump(dict(type="FeatureCollection", crs=dict(type="name", properties=dict(name="urn:ogc:def:crs:EPSG::32618")), features=fs), open(shape, "w"))
        iso = lambda x: None if x is None else dt.date.fromordinal(x).isoformat()
        logging.disable(logging.CRITICAL)
        TEAM, SLEEPS = Team(j["n"], j["turns"]), 0
        main = getattr(p.main, "callback", p.main)

        def one():
            main(source_dir=src, out_dir=out, clear_threshold=j["least"] / 1000, single_path=j["single"], rank=TEAM.rank() + 1, n_cores=j["n"], is_partition=j["cut"],
                 yaml_path=os.path.join(d, "c.yaml"), hpc=j["hpc"], low_date_bound=iso(j["low"]), upp_date_bound=iso(j["upp"]), collection=j["layout"], shapefile_path=shape, id=j["id"])
        try:
            err = TEAM.run(one)
        finally:
            TEAM = None
        if err:
            return "preparation failed: " + str(err)[:400]
        got = []
        for b in range(1, j["nx"] * j["ny"] + 1) if j["cut"] else [1]:
            o = os.path.join(out, "block_x%d_y%d" % ((b - 1) % j["nx"] + 1, (b - 1) // j["nx"] + 1)) if j["cut"] else out
            shape = (j["h"], j["w"], 8) if j["cut"] else (j["nrow"], j["ncol"], 8)
            for f in sorted(os.listdir(o)):
                if not f.endswith(".npy"):
                    if j["cut"]:
                        return "%s in a block" % f
                    continue
                k = first.get(f[:16])
                if k is None:
                    return "a file %s of no image" % f
                a = np.load(os.path.join(o, f))
                if a.shape != shape or a.dtype != np.int16:
                    return "%s has %s, %s" % (f, a.shape, a.dtype)
                got.append(dict(img=k, block=b, bands=[a[:, :, i].ravel().tolist() for i in range(8)]))
        span = [int(x) for x in open(os.path.join(out, "starting_last_dates.txt")).read().split()]
        rest = [f for f in os.listdir(out) if f.startswith("tmp")]
        if rest:
            return "temporary folders are left: %s" % rest
        miss = [r for r in range(1, j["n"] + 1) if not os.path.exists(os.path.join(out, "rank%d_finished.txt" % r))]
        if miss:
            return "processes %s do not say that they are finished" % miss
        return dict(got=got, span=span)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    finally:
        shutil.rmtree_(d, ignore_errors=True)
        shutil.rmtree_(os.path.join(BASE, "mk"), ignore_errors=True)


if __name__ == "__main__":
    jobs = pickle.load(open(sys.argv[1], "rb"))
    sys.stdout = io.StringIO()
    out = [prepare(j) for j in jobs]
    pickle.dump(out, open(sys.argv[2], "wb"))
