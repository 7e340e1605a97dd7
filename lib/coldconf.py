"""Conformance of cold_detect with spec/cold/ColdConf.tla."""
import json, os, re, math, struct, tempfile, pathlib, shutil
import numpy as np
import vlib

LAUNCH = 723742
SPEC = vlib.VERIF / "spec/cold/ColdConf.tla"
OBSPEC = vlib.VERIF / "spec/cold/ObConf.tla"


def thermal_std(c):
    t = c["bands"][6]
    return np.where(c["b_c2"] & (t == 0), 0, t * 10 - 27320)


def thermal_alt(c):
    t = c["bands"][6]
    return np.zeros_like(t) if c["b_c2"] else t * 10 - 27320


def in_range(c):
    b = c["bands"]
    t = np.where(c["b_c2"] | (b[6] == 0), 0, b[6] * 10 - 27320)
    ok = (b[0] > -200) & (b[0] < 10000) & (t > -9320) & (t < 7070) & (c["qa"] < 255)
    for k in range(1, 6):
        ok &= (b[k] > 0) & (b[k] < 10000)
    return ok


def usable(c):
    """1-based numbers of the usable observations (checked against Pixel.tla by TLC)"""
    out, last = [], None
    for k in np.nonzero((c["qa"] < 2) & in_range(c))[0]:
        if c["dates"][k] != last:
            out.append(int(k) + 1)
            last = c["dates"][k]
    return out


def entry(c, res):
    recs, cm = [], []
    if res["status"] == "ok":
        recs = [[int(q[f]) for f in ("t_start", "t_end", "t_break", "change_prob", "num_obs", "category")] for q in res["rec"]]
    on = c.get("cm") is not None
    st, iv = 0, 1
    if on:
        st = c["cm"]["starting_date"] or int(c["dates"][0])
        iv = c["cm"]["interval"] or 60
        if res["status"] == "ok":
            for k in np.nonzero((res["cm"] != -9999) | (res["cmd"] != -9999))[0]:
                cm.append([int(k), int(res["cm"][k]), int(res["cmd"][k]) + LAUNCH])
    return dict(dates=c["dates"].tolist(), qa=c["qa"].tolist(), bands=c["bands"].tolist(), c2=bool(c["b_c2"]), conse=int(c["conse"]),
                gap=int(math.floor(c["gap_days"])), cmon=on, cmstart=st, cmint=iv, cmn=cm_cells(c) if on else 0, recs=recs, cm=cm, err=res["status"] == "fail",
                usable=usable(c), breaks=[int(x) for x in c.get("breaks", [])])


def binary(c, res):
    n = len(c["dates"])
    rec = res["rec"] if res["status"] == "ok" else []
    out = [struct.pack("<iifi", n, c["conse"], c["t_cg"], len(rec)), c["dates"].astype("<i4").tobytes(),
           c["bands"][:6].astype("<f4").tobytes(), thermal_std(c).astype("<f4").tobytes(), thermal_alt(c).astype("<f4").tobytes()]
    if len(rec):
        out += [rec["coefs"].astype("<f4").tobytes(), rec["rmse"].astype("<f4").tobytes(), rec["magnitude"].astype("<f4").tobytes()]
    return b"".join(out)


def run_tlc(spec, cases, results, shards=vlib.JOBS, timeout=800):
    """-> (verdicts: list of (set of flags | None), stats dict)"""
    oracle = vlib.build_oracle()
    d = pathlib.Path(tempfile.mkdtemp(dir=vlib.WORK))
    try:
        procs = []
        # spread the work evenly: longest series first, round robin
        order = sorted(range(len(cases)), key=lambda k: -len(cases[k]["dates"]))
        parts = [order[s::shards] for s in range(shards)]
        parts = [p for p in parts if p]
        for s, p in enumerate(parts):
            (d / ("j%d" % s)).write_text(json.dumps([entry(cases[k], results[k]) for k in p]))
            with open(d / ("b%d" % s), "wb") as f:
                f.write(struct.pack("<i", len(p)))
                for k in p:
                    f.write(binary(cases[k], results[k]))
            jvm = ["-Dverif.lib=%s" % (oracle / "libcoldnum.so"), "-Dverif.data=%s" % (d / ("b%d" % s)), "-Dverif.out=%s" % (d / ("o%d" % s))]
            procs.append(vlib.tlc_start(spec, jvm=jvm, envx={"VERIF_JSON": str(d / ("j%d" % s))}, heap="1500m", depthfirst=True))
        verdicts = [None] * len(cases)
        st = dict(fragile=set(), soft=set(), states=0, transitions=0, worst_fit=0.0, worst_mag=0.0)
        for s, p in enumerate(parts):
            t = vlib.tlc_wait(procs[s], timeout)
            st["states"] += t.states
            st["transitions"] += t.transitions
            for line in (d / ("o%d" % s)).read_text().splitlines():
                f = line.split("\t")
                if f[0] == "V":
                    k = p[int(f[1]) - 1]
                    flags = {(int(a), b, e) for a, b, e in re.findall(r'<<(\d+), "(\w+)", "(\w+)">>', f[2])}
                    if verdicts[k] is None or len(flags) < len(verdicts[k]):
                        verdicts[k] = flags
                elif f[0] == "F":
                    st["fragile"].add(p[int(f[1]) - 1])
                elif f[0] == "S":
                    st["soft"].add(p[int(f[1]) - 1])
                elif f[0] == "W":
                    st["worst_fit"] = max(st["worst_fit"], float(f[1]))
                    st["worst_mag"] = max(st["worst_mag"], float(f[2]))
        return verdicts, st
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(d, ignore_errors=True)


def judge(verdicts, st, ob=False):
    """-> (hard: {case: flags of its first mismatching record}, soft: [cases], nsoft).
    Soft mismatches hang on the screening of a span of at most a year, whose design is exactly rank deficient, so that
    rounding decides which outliers it finds: they count only when they are frequent."""
    hard, soft = {}, []
    for k, v in enumerate(verdicts):
        if v is None:
            if k not in st["fragile"]:
                hard[k] = {(0, "none", "noverdict")}
            continue
        if not v:
            continue
        first = min(f[0] for f in v)
        if first == 0 and len({f[0] for f in v}) > 1 and any(f[1] not in ("cm", "error") for f in v):
            first = min(f[0] for f in v if f[0] > 0)
        fl = {f for f in v if f[0] == first}
        wf = {f for f in v if f[1] == "wf"}
        if wf:
            hard[k] = wf
        elif k in st["fragile"]:
            continue
        elif k in st["soft"] and (ob or all(f[1] in ("end", "none") for f in fl)):
            soft.append(k)
        else:
            hard[k] = fl
    return hard, soft, len(st["soft"])


def cm_cells(c):
    """periods in the change-magnitude output of a case"""
    cm = c["cm"]
    if cm["n"]:
        return cm["n"]
    st, iv = cm["starting_date"] or int(c["dates"][0]), cm["interval"] or 60
    return max(0, -((st - int(c["dates"][-1]) - 1) // iv) + 1)
