"""Runs chains of S-CCD calls (detection, updates) of the implementation (subprocess; sys.argv: in.pkl out.pkl)."""
import pickle, sys
import numpy as np
from drv_pixel import args, classify


def plain(p):
    return dict(pos=int(p.position), rec=np.array(p.rec_cg), min=np.array(p.min_rmse), mode=int(p.nrt_mode),
                model=np.array(p.nrt_model), queue=np.array(p.nrt_queue))


def pack_of(q):
    from pycold._colds_cython import SccdOutput
    return SccdOutput(q["pos"], q["rec"], q["min"], q["mode"], q["model"], q["queue"])


def content(c, pack):
    return [a.tobytes() for a in args(c)] + ([] if pack is None else [pack.position, pack.nrt_mode] + [np.asarray(a).tobytes() for a in (
        pack.rec_cg, pack.min_rmse, pack.nrt_model, pack.nrt_queue)])


def one(c, pack):
    """one call; pack None: detection"""
    import pycold
    kw = dict(t_cg=c["t_cg"], pos=c.get("pos", 1), conse=c["conse"], b_c2=c["b_c2"], gate_tcg=c["gate"])
    if c.get("defaults"):
        kw = {}
    before = content(c, pack)
    try:
        if pack is None:
            r = pycold.sccd_detect(*args(c), b_pinpoint=c["pin"], **kw)
        else:
            r = pycold.sccd_update(pack, *args(c), **dict(kw, **({} if c.get("pred") is None else dict(predictability_tcg=c["pred"]))))
    except Exception as ex:
        return dict(status=classify(ex), kept=True), None
    out = dict(status="ok")
    if pack is None and c["pin"]:
        r, p = r
        out["pins"] = np.array(p.rec_cg_pinpoint)
        out["pinpos"] = int(p.position)
    out["pack"] = plain(r)
    out["kept"] = before == content(c, pack)
    return out, r


def chain(c):
    """c: dict(calls=[call cases], pack=given pack or None) -> results of the calls, each on the pack of the latest one that worked"""
    pack = None if c.get("pack") is None else pack_of(c["pack"])
    out = []
    for q in c["calls"]:
        res, new = one(q, pack)
        out.append(res)
        if new is not None:
            pack = flat_and_back(new) if c.get("flat") else new
            if q.get("mark") and pack.nrt_mode in (1, 12):      # untested from here on, or settled
                pack = pack._replace(nrt_mode={1: 11, 12: 2}[pack.nrt_mode])
                res["marked"] = int(pack.nrt_mode)
        elif pack is None:
            break
    return out


def again(c, pack):
    """the same call twice on one pack"""
    pack = pack_of(pack)
    return [one(c, pack)[0] for _ in range(2)]


def flat_and_back(p):
    import pickle
    from pycold.utils import index_sccdpack, unindex_sccdpack
    return index_sccdpack(pickle.loads(pickle.dumps(unindex_sccdpack(p))))


def identify(c):
    from pycold import sccd_identify
    try:
        r = sccd_identify(pack_of(c["pack"]), **c["kw"])
    except Exception as ex:
        return dict(status=classify(ex))
    return dict(status="ok", pack=plain(r[0]), date=int(r[1]))


def roundtrip(c):
    """pack -> flat arrays -> pack"""
    p = pack_of(c["pack"])
    try:
        q = flat_and_back(p)
    except Exception as ex:
        return dict(status="other:%s:%s" % (type(ex).__name__, ex))
    return dict(status="ok", pack=plain(q))


def main():
    with open(sys.argv[1], "rb") as f:
        todo = pickle.load(f)
    out = []
    for k, (what, c, *rest) in enumerate(todo):
        sys.stderr.write("case %d %s\n" % (k, c.get("fam")))
        sys.stderr.flush()
        out.append(globals()[what](c, *rest))
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    main()
