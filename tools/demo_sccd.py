"""Packs of given chains of calls; exit 1 where they are not the expected ones."""
import json, os, sys
import numpy as np


def seq(c):
    b = np.array(c["bands"], dtype=np.int64)
    return [np.array(c["dates"], dtype=np.int64)] + [b[j].copy() for j in range(7)] + [np.array(c["qa"], dtype=np.int64)]


def pview(mode, rec, least, model, queue, pins):
    """integers compared exactly, floats closely"""
    i = [mode, np.asarray(least).tolist(), [[int(v[f]) for f in ("t_start", "t_break", "num_obs")] for v in rec],
         [[int(v["clrx_since1982"])] + v["clry"].tolist() for v in queue]]
    f = [float(z) for v in rec for n in ("rmse", "magnitude") for z in v[n]] + [float(z) for v in rec for z in v["coefs"][:, 0]]
    for m in model:
        i.append([int(m[n]) for n in ("t_start_since1982", "num_obs", "conse_last")] + m["obs"].tolist() + m["obs_date_since1982"].tolist())
        f += [float(z) for n in ("rmse_sum", "H") for z in m[n]] + [float(m["norm_cm"]), float(m["cm_angle"])] + [float(z) for z in m["nrt_coefs"][:, 0]]
    for p in pins:
        i.append([int(p["t_break"])] + p["obs_date_since1982"].tolist())
        f += [float(z) for n in ("norm_cm", "cm_angle") for z in p[n]]
    return [i, f]


def replay(c):
    """the views of the results of a chain of calls"""
    import pycold
    from pycold.utils import index_sccdpack, unindex_sccdpack
    pack, out = None, []

    def view(r, pins=()):
        try:
            return pview(int(r.nrt_mode), r.rec_cg, r.min_rmse, r.nrt_model, r.nrt_queue, pins)
        except Exception as ex:
            return ["unreadable"]
    for q in c["calls"]:
        kw = dict(t_cg=q["t_cg"], pos=q.get("pos", 1), conse=q["conse"], b_c2=q["b_c2"], gate_tcg=q["gate"])
        pins = ()
        try:
            if pack is None:
                r = pycold.sccd_detect(*seq(q), b_pinpoint=q["pin"], **kw)
                if q["pin"]:
                    r, p = r
                    pins = p.rec_cg_pinpoint
            else:
                if q.get("pred") is not None:
                    kw["predictability_tcg"] = q["pred"]
                r = pycold.sccd_update(pack, *seq(q), **kw)
        except Exception as ex:
            out.append(["raised"])
            if pack is None:
                break
            continue
        out.append(view(r, pins))
        if pack is not None:
            out.append(view(pack))          # the given pack, afterwards
        pack = index_sccdpack(unindex_sccdpack(r)) if c.get("flat") else r
        if q.get("mark") and pack.nrt_mode in (1, 12):
            pack = pack._replace(nrt_mode={1: 11, 12: 2}[pack.nrt_mode])
        if c.get("identify"):
            try:
                g, when = pycold.sccd_identify(pack, **c["identify"])
                out.append([[int(when), int(g.nrt_mode), [[int(v["t_start"]), int(v["t_break"])] for v in g.rec_cg]], [float(z) for v in g.rec_cg for z in v["magnitude"]]])
            except Exception:
                out.append(["raised"])
    return out


def differ(a, b):
    if len(a) != len(b) or a[0] != b[0]:
        return True
    if a[0] in ("raised", "unreadable"):
        return False
    return len(a[1]) != len(b[1]) or any(not (abs(u - v) <= 2 + .02 * abs(u)) and not (u != u and v != v) for u, v in zip(a[1], b[1]))


if __name__ == "__main__":
    bad = 0
    for c in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo.json"))):
        got = json.loads(json.dumps(replay(c)))
        for k, (w, g) in enumerate(zip(c["want"], got)):
            if differ(w, g):
                print("result", k, "expected", str(w)[:600], "got", str(g)[:600])
                bad += 1
        bad += len(got) != len(c["want"])
    sys.exit(1 if bad else 0)
