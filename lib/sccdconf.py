"""Conformance of sccd_detect and sccd_update, call by call, with spec/sccd/SccdConf.tla."""
import json, pathlib, re, shutil, struct, tempfile
import numpy as np
import vlib
from coldconf import LAUNCH, in_range

SPEC = vlib.VERIF / "spec/sccd/SccdConf.tla"
NOTAIL = [LAUNCH] + [0] * 6


def tail_rows(m):
    """the eight observations stored with a model (or a pinpoint record)"""
    return [[int(m["obs_date_since1982"][j]) + LAUNCH] + [int(m["obs"][b][j]) for b in range(6)] for j in range(8)]


def stored(pack):
    """observations a pack brings along, as rows [date, six bands] (asserted against the specification's count by its dates)"""
    if pack is None or pack["mode"] == 0:
        return []
    if pack["mode"] in (2, 12, 4, 5):
        return [[int(q["clrx_since1982"]) + LAUNCH] + [int(v) for v in q["clry"]] for q in pack["queue"]]
    rows = tail_rows(pack["model"][0])
    return rows if pack["mode"] == 3 else [r for r in rows if r != NOTAIL]


def is_snow(c, pack):
    mode = 0 if pack is None else pack["mode"]
    sn, cl = int((c["qa"] == 3).sum()), int((c["qa"] < 2).sum())
    return mode in (3, 4) or mode == 0 and 10000 * sn > 7500 * (sn + cl) + 75


def fresh(c, pack, st):
    """1-based numbers of the new observations that take part"""
    out, last = [], st[-1][0] if st else 0
    ok = c["qa"] < 2
    ok = ok | (c["qa"] == 3) if is_snow(c, pack) else ok & in_range(c)
    for k in np.nonzero(ok)[0]:
        if c["dates"][k] != last:
            out.append(int(k) + 1)
            last = c["dates"][k]
    return out


def same_bytes(a, b):      # field by field: structures have padding
    return a.dtype == b.dtype and a.shape == b.shape and all(
        np.ascontiguousarray(a[f]).tobytes() == np.ascontiguousarray(b[f]).tobytes() for f in a.dtype.names)


def entry(c, pack, res):
    mode = 0 if pack is None else pack["mode"]
    st = stored(pack)
    nin = 0 if pack is None else len(pack["rec"])
    m = None if pack is None or not len(pack["model"]) else pack["model"][0]
    e = dict(detect=pack is None, dates=c["dates"].tolist(), qa=c["qa"].tolist(), bands=c["bands"].tolist(), c2=bool(c["b_c2"]), mode=mode,
             sdates=[r[0] for r in st], sbands=[[r[b + 1] for r in st] for b in range(6)], fresh=fresh(c, pack, st), nin=nin,
             minin=[0] * 6 if pack is None else [int(v) for v in pack["min"]], conse=int(c["conse"]), pin=bool(c["pin"]) and pack is None,
             min=dict(ts=0, num=0, dates=[0] * 8) if m is None else
             dict(ts=int(m["t_start_since1982"]) + LAUNCH, num=int(m["num_obs"]), dates=[r[0] for r in tail_rows(m)]), err=res["status"] == "fail")
    out = dict(mode=0, recs=[], queue=[], minrmse=[0] * 6, model=dict(has=False), pins=[], kept=True, grown=True)
    if res["status"] == "ok":
        p = res["pack"]
        out["mode"] = p["mode"]
        out["recs"] = [[int(r[f]) for f in ("t_start", "t_break", "num_obs")] for r in p["rec"]]
        out["queue"] = [[int(q["clrx_since1982"]) + LAUNCH] + [int(v) for v in q["clry"]] for q in p["queue"]]
        out["minrmse"] = [int(v) for v in p["min"]]
        out["kept"] = bool(res["kept"])
        out["grown"] = nin == 0 or len(p["rec"]) >= nin and same_bytes(p["rec"][:nin], pack["rec"])
        if len(p["model"]):
            q = p["model"][0]
            out["model"] = dict(has=True, same=m is not None and same_bytes(p["model"], pack["model"]), ts=int(q["t_start_since1982"]) + LAUNCH,
                                num=int(q["num_obs"]), tail=tail_rows(q), run=int(q["conse_last"]), cm=int(q["norm_cm"]), angle=int(q["cm_angle"]))
        if e["pin"]:
            out["pins"] = [dict(tb=int(q["t_break"]), tail=tail_rows(q), cm=[int(v) for v in q["norm_cm"]], angle=[int(v) for v in q["cm_angle"]])
                           for q in res["pins"]]
    e["out"] = out
    return e


def model_bytes(m):
    return b"".join([m["nrt_coefs"].astype("<f4").tobytes(), m["covariance"].astype("<f4").tobytes(), m["H"].astype("<f4").tobytes(),
                     m["rmse_sum"].astype("<u4").tobytes(), struct.pack("<i", int(m["num_obs"]))])


def binary(c, pack, res):
    st = stored(pack)
    ks = [k - 1 for k in fresh(c, pack, st)]
    x = np.array([r[0] for r in st] + c["dates"][ks].tolist(), "<i4")
    y = np.concatenate([np.array([r[1:] for r in st]).reshape(-1, 6).T, c["bands"][:6, ks]], axis=1).astype("<f4")
    ok = res["status"] == "ok"
    rec = res["pack"]["rec"] if ok else ()
    hin = pack is not None and len(pack["model"]) > 0
    hout = ok and len(res["pack"]["model"]) > 0
    pins = res["pins"] if ok and pack is None and c["pin"] else ()
    pred = c["pred"] if c.get("pred") is not None else 9.236
    out = [struct.pack("<iiiiiifff", len(x), c["conse"], len(rec), hin, hout, len(pins), c["t_cg"], c["gate"], pred), x.tobytes(), y.tobytes()]
    if len(rec):
        out += [rec["coefs"].astype("<f4").tobytes(), rec["rmse"].astype("<f4").tobytes(), rec["magnitude"].astype("<f4").tobytes()]
    if hin:
        out.append(model_bytes(pack["model"][0]))
    if hout:
        out.append(model_bytes(res["pack"]["model"][0]))
    if len(pins):
        out.append(pins["coefs"].astype("<f4").tobytes())
    return b"".join(out)


def run_tlc(calls, shards=vlib.JOBS, timeout=800, spec=SPEC):
    """calls: [(case, pack given or None, result)] -> (verdicts, stats)"""
    oracle = vlib.build_oracle()
    d = pathlib.Path(tempfile.mkdtemp(dir=vlib.WORK))
    procs = []
    try:
        order = sorted(range(len(calls)), key=lambda k: -len(calls[k][0]["dates"]))
        parts = [p for p in (order[s::shards] for s in range(shards)) if p]
        for s, p in enumerate(parts):
            (d / ("j%d" % s)).write_text(json.dumps([entry(*calls[k]) for k in p]))
            with open(d / ("b%d" % s), "wb") as f:
                f.write(struct.pack("<i", len(p)))
                for k in p:
                    f.write(binary(*calls[k]))
            jvm = ["-Dverif.lib=%s" % (oracle / "libsccdnum.so"), "-Dverif.data=%s" % (d / ("b%d" % s)), "-Dverif.out=%s" % (d / ("o%d" % s))]
            procs.append(vlib.tlc_start(spec, jvm=jvm, envx={"VERIF_JSON": str(d / ("j%d" % s))}, heap="1500m", depthfirst=True))
        verdicts = [None] * len(calls)
        st = dict(fragile=set(), soft=set(), states=0, transitions=0, worst=[0.0] * 8)
        for s, p in enumerate(parts):
            t = vlib.tlc_wait(procs[s], timeout)
            st["states"] += t.states
            st["transitions"] += t.transitions
            for line in (d / ("o%d" % s)).read_text().splitlines():
                f = line.split("\t")
                if f[0] == "V":
                    k = p[int(f[1]) - 1]
                    flags = {(int(a), b, e) for a, b, e in re.findall(r'<<(\d+), "(\w+)", "(\w+)">>', f[2])}
                    if verdicts[k] is None or len(flags) < len(verdicts[k]):
                        verdicts[k] = flags
                elif f[0] == "F":
                    st["fragile"].add(p[int(f[1]) - 1])
                elif f[0] == "S":
                    st["soft"].add(p[int(f[1]) - 1])
                elif f[0] == "W":
                    st["worst"] = [max(a, float(b)) for a, b in zip(st["worst"], f[1:])]
        return verdicts, st
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(d, ignore_errors=True)
