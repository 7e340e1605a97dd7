"""Position arithmetic and mosaicking of the real code (subprocess; in.pkl out.pkl)."""
import os, pickle, shutil, sys, tempfile
import numpy as np


def att(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def num(x):
    return x if isinstance(x, str) else tuple(int(v) for v in x) if isinstance(x, tuple) else int(x)


def where(cells):
    from pycold import utils as u
    out = []
    for x, y, w, h, b, i, bx, by, row, col, pos in cells:
        out.append(dict(get_block_x=num(att(u.get_block_x, b, x)), get_block_y=num(att(u.get_block_y, b, x)),
                        get_rowcol_intile=num(att(u.get_rowcol_intile, i, w, h, bx, by)),
                        get_id_inblock=num(att(u.get_id_inblock, pos, w, h, x * w)),
                        get_row_index=num(att(u.get_row_index, pos, x * w, by, h)), get_col_index=num(att(u.get_col_index, pos, x * w, bx, w))))
    return out


def mosaic(jobs):
    """jobs: dict(x,y,w,h,missing,kind,fill): block b's pixel i has value val(b, i, k) in map k; returns the tile maps"""
    from pycold import utils as u
    from pycold.common import DatasetInfo
    out = []
    d = tempfile.mkdtemp(dir=os.getcwd())
    for j in jobs:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        x, y, w, h, M = j["x"], j["y"], j["w"], j["h"], j["M"]
        vals = {b: np.array([[b * 100 + i * 3 + k for k in range(M)] for i in range(w * h)]) for b in range(1, x * y + 1)}
        if j["kind"] == "array":
            out.append(att(lambda: np.stack([u.assemble_array([vals[b][:, k].reshape(h, w) for b in vals], x) for k in range(M)])))
        elif j["kind"] == "array3":
            out.append(att(lambda: np.moveaxis(u.assemble_array([vals[b].reshape(h, w, M) for b in vals], x), 2, 0)))
        elif j["kind"] in ("CM", "CM_date"):
            def go():
                for b, v in vals.items():
                    if b not in j["missing"]:
                        np.save(os.path.join(d, "%s_x%d_y%d.npy" % (j["kind"], (b - 1) % x + 1, (b - 1) // x + 1)), v.astype(np.int16 if j["kind"] == "CM" else np.int32).ravel())
                u.assemble_cmmaps(DatasetInfo(y * h, x * w, x, y), d, d, 730000, M, j["kind"], 32, clean=False)
                names = sorted(f for f in os.listdir(d) if f.startswith(j["kind"] + "_maps_"))
                assert len(names) == M and [int(f[len(j["kind"]) + 6:].split("_")[0]) for f in names] == [730000 + 32 * k for k in range(M)], names
                return np.stack([np.load(os.path.join(d, f)).astype(np.int64) for f in names])
            out.append(att(go))
        elif j["kind"] == "split":      # the other way: object maps into blocks
            def go():
                from pycold.ob_analyst import ObjectAnalystHPC
                full = np.zeros((y * h, x * w), np.int64)
                for b, v in vals.items():
                    by, bx = (b - 1) // x, (b - 1) % x
                    full[by * h:by * h + h, bx * w:bx * w + w] = v[:, 0].reshape(h, w)
                oa = ObjectAnalystHPC(DatasetInfo(y * h, x * w, x, y), stack_path=d, result_path=d, starting_date=730000)
                oa.hpc_preparation()
                change = (full % 2).astype(np.byte)
                oa.save_obiaresult(730032, change, (full + 730000).astype(np.int32))
                got = np.zeros((1, y * h, x * w), np.int64)
                for b in vals:
                    by, bx = (b - 1) // x, (b - 1) % x
                    got[0, by * h:by * h + h, bx * w:bx * w + w] = oa.get_allobiaresult_asarray(bx + 1, by + 1)[0].reshape(h, w)
                shutil.rmtree(oa.obia_path)
                return got, np.where(change > 0, full + 730000, 0)[None]
            out.append(att(go))
            for f in os.listdir(d):
                p = os.path.join(d, f)
                shutil.rmtree(p) if os.path.isdir(p) else None
        elif j["kind"] == "rowcol":
            def go():
                from osgeo import gdal
                p = os.path.join(d, "ref.tif")
                o = gdal.GetDriverByName("GTiff").Create(p, x * w, y * h, 1, gdal.GDT_Byte)
                o.SetGeoTransform((5, 30, 0, 7, 0, -30))
                o.FlushCache(); del o
                u.generate_rowcolimage(p, os.path.join(d, "out.tif"))
                g = gdal.Open(os.path.join(d, "out.tif"))
                return g.ReadAsArray().astype(np.int64)[None]
            out.append(att(go))
    shutil.rmtree(d)
    return out


if __name__ == "__main__":
    p = pickle.load(open(sys.argv[1], "rb"))
    r = dict(where=where(p["cells"]), mosaic=mosaic(p["jobs"]))
    pickle.dump(r, open(sys.argv[2], "wb"))
