"""Checks of the S-CCD properties (S01-S10)."""
import json, pathlib, pickle, shutil, tempfile
import numpy as np
import vlib, pixgen, sccdconf
from coldconf import LAUNCH
from props_cold import run_cases, describe, mc, kinds

CHAINS = 700
ROUNDS = 8


def show(c, pack, r):
    s = "fam=%s n=%d conse=%s t_cg=%s gate=%s pred=%s pin=%s mode %s -> %s" % (
        c["fam"], len(c["dates"]), c["conse"], c["t_cg"], c["gate"], c["pred"], c["pin"], None if pack is None else pack["mode"],
        r["pack"]["mode"] if r["status"] == "ok" else r["status"])
    if r["status"] == "ok":
        s += " records=%s" % [[int(q[f]) for f in ("t_start", "t_break", "num_obs")] for q in r["pack"]["rec"]]
    return s


def plainly(p):
    return None if p is None else json.dumps({k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in p.items()}, default=lambda v: v.tolist())


def detail(c, pack, r):
    return "%s\n%s\ngiven pack: %s" % (show(c, pack, r), describe(c), plainly(pack))


def same_pack(a, b):
    return a["pos"] == b["pos"] and a["mode"] == b["mode"] and same_arr(a["min"], b["min"]) and same_arr(a["rec"], b["rec"]) \
        and same_arr(a["model"], b["model"]) and same_arr(a["queue"], b["queue"])


def same_arr(a, b):
    if len(a) == 0 and len(b) == 0:
        return True
    return sccdconf.same_bytes(a, b) if a.dtype.names else a.dtype == b.dtype and a.tobytes() == b.tobytes()


def follow(o, ch, py, extra=None):
    """run the chains; -> calls [(case, given pack, result)], at [(chain, call)], results by chain"""
    res = run_cases(o, [("chain", c) for c in ch], py, module="drv_sccd")
    calls, at, out = [], [], []
    for k, (c, rs) in enumerate(zip(ch, res)):
        if isinstance(rs, dict):        # crashed: already reported
            out.append([])
            continue
        out.append(rs)
        pack = c.get("pack")
        for j, (q, r) in enumerate(zip(c["calls"], rs)):
            if r["status"].startswith("other:"):
                o.violation("error:" + r["status"].split(":")[1], "unexpected error: %s\n%s" % (r["status"], detail(q, pack, r)))
                continue
            calls.append((q, pack, r))
            at.append((k, j))
            if r["status"] == "ok":
                pack = dict(r["pack"], mode=r.get("marked", r["pack"]["mode"]))
    return calls, at, out


def conform(o, calls):
    """-> {call: flags} of the calls the specification does not explain"""
    verdicts, st = sccdconf.run_tlc(calls)
    o.cov["states"] = o.cov.get("states", 0) + st["states"]
    o.cov["transitions"] = o.cov.get("transitions", 0) + st["transitions"]
    o.cov["traces_validated_against_impl"] = o.cov.get("traces_validated_against_impl", 0) + len(calls)
    o.cov["inconclusive_calls"] = o.cov.get("inconclusive_calls", 0) + len(st["fragile"])
    o.cov["rounding"] = [round(max(a, b), 4) for a, b in zip(st["worst"], o.cov.get("rounding", [0] * 8))]
    tr = o.cov.setdefault("calls_by_mode", {})
    for c, p, r in calls:
        t = "%s->%s" % (None if p is None else p["mode"], r["pack"]["mode"] if r["status"] == "ok" else "error")
        tr[t] = tr.get(t, 0) + 1
    for k in range(0, len(calls), max(1, len(calls) // 5)):
        o.samples.append(show(*calls[k]))
    hard, soft = {}, []
    for k, v in enumerate(verdicts):
        if v is None:
            if k not in st["fragile"]:
                hard[k] = {(0, "none", "noverdict")}
        elif v and any(f[0] == 998 for f in v):
            hard[k] = v
        elif v and k in st["soft"] and k not in st["fragile"]:
            soft.append(k)
        elif v and k not in st["fragile"]:
            hard[k] = v
    if len(soft) > max(5, len(st["soft"]) * 0.15):
        o.violation("soft", "%d of %d calls screened over a year or less differ from the specification (rounding explains few)\n%s" % (
            len(soft), len(st["soft"]), "\n".join(show(*calls[k]) for k in soft[:3])))
    return hard


REC = {"start", "break", "none", "error"}
MODEL = {"ts", "num", "tail", "coefs", "cov", "noise", "sum", "run", "cm", "angle", "same"}


def picked(o, calls, hard, pick):
    for k, fl in sorted(hard.items()):
        t = pick(fl, *calls[k])
        if t:
            o.violation(",".join(sorted({f[1] + "." + f[2] for f in fl})), "%s: differs from the specification in %s\n%s" % (
                t, ", ".join(sorted({"%s.%s" % f[1:] for f in fl})), detail(*calls[k])))


def rounds(tier, pid):
    for rnd in range(1 if tier == "quick" else ROUNDS):
        yield vlib.SEED * 1000 + rnd * 17 + sum(map(ord, pid))


def model(o, tier):
    mc(o, "sccd/SccdMC.tla", "sccd/SccdMC.cfg" if tier == "quick" else "sccd/SccdMCdeep.cfg")


def sccd_check(pid, tier, fams, pick, n=CHAINS, machine=True, also=None, **kw):
    o = vlib.Outcome(pid, tier, "model_checking")
    if machine:
        model(o, tier)
    py = vlib.build_repo()
    for seed in rounds(tier, pid):
        ch = pixgen.chains(seed, n // 2, None, **kw) + pixgen.chains(seed + 500, n - n // 2, fams, **kw)
        calls, at, res = follow(o, ch, py)
        picked(o, calls, conform(o, calls), pick)
        if also:
            also(o, ch, res, calls, at, py)
    return o.finish()


def S01(tier):
    def pick(fl, c, p, r):
        return any(f[0] in (0, 999) or f[1] == "queue" or f[1:] == ("model", "there") for f in fl) and "mode and parts of the pack"

    def also(o, ch, res, calls, at, py):
        for c, p, r in calls:
            if r["status"] != "ok":
                continue
            q = r["pack"]
            m, nm, nq = q["mode"], len(q["model"]), len(q["queue"])
            want = {0: (0, 0), 1: (1, 0), 11: (1, 0), 3: (1, 0), 2: (0, 1), 12: (0, 1), 4: (0, 1), 5: (1, 1)}.get(m)
            if want is None or (nm, min(nq, 1)) != want or nq > 240:
                if not (m == 4 and (nm, nq) == (0, 0)):     # a snow pixel of which nothing is usable yet
                    o.violation("parts", "mode %s with %d models and %d queued observations\n%s" % (m, nm, nq, detail(c, p, r)))
            if q["pos"] != c["pos"]:
                o.violation("position", "position %s instead of %s\n%s" % (q["pos"], c["pos"], detail(c, p, r)))
    return sccd_check("S01", tier, ["snow2", "few", "short", "long", "volatile", "steps", "snow", "gap"], pick, also=also)


def S02(tier):
    return sccd_check("S02", tier, ["step", "steps", "near", "outlier", "run", "long", "volatile", "preinit", "backbreak", "gap"], lambda fl, c, p, r:
                      any(f[0] < 998 or f[1] in ("noise",) for f in fl) and "segmentation")


def S04(tier):
    def pick(fl, c, p, r):
        return any(f[0] == 998 for f in fl) and "records kept, caller's pack left alone"

    def also(o, ch, res, calls, at, py):
        def records(rs, k):
            return rs[k]["pack"]["rec"] if rs[k]["status"] == "ok" else None
        for c, rs in zip(ch, res):      # over the whole history, not only from one call to the next
            last = None
            for k in range(len(rs)):
                q = records(rs, k)
                if q is None:
                    continue
                if last is not None and len(last) and not (len(q) >= len(last) and sccdconf.same_bytes(q[:len(last)], last)):
                    o.violation("history", "records change over the history\n%s" % describe(c["calls"][0]))
                last = q
        # repeated calls give the same again: the pack given was not used up
        again = [("again", dict(c, fam=c["fam"]), p) for c, p, r in calls if p is not None and r["status"] == "ok"][::3]
        ref = [r for c, p, r in calls if p is not None and r["status"] == "ok"][::3]
        for (_, c, p), x, r in zip(again, run_cases(o, again, py, module="drv_sccd"), ref):
            if isinstance(x, list) and not all(y["status"] == "ok" and same_pack(y["pack"], r["pack"]) for y in x):
                o.violation("repeat", "the same update of the same pack gives another result the second time\n%s" % detail(c, p, r))
        o.cov["repeated_calls"] = o.cov.get("repeated_calls", 0) + len(again)
    return sccd_check("S04", tier, ["steps", "long", "volatile", "tail", "step"], pick, n=CHAINS * 4 // 5, also=also)


def S06(tier):
    return sccd_check("S06", tier, ["stable", "tail", "late", "outlier", "run", "near", "long", "step"], lambda fl, c, p, r:
                      any(f[1] == "model" and f[2] in MODEL for f in fl) and "model and latest observations")


def S08(tier):
    return sccd_check("S08", tier, ["snow", "snow2", "snow2"], lambda fl, c, p, r: sccdconf.is_snow(c, p) != (r["status"] == "ok" and r["pack"]["mode"] in (3, 4)) and r["status"] == "ok"
                      and "snow handling" or sccdconf.is_snow(c, p) and "snow model")


def S10(tier):
    def also(o, ch, res, calls, at, py):
        todo = [(c, r) for c, p, r in calls if p is None and c["pin"] and r["status"] == "ok"]
        plain = run_cases(o, [("chain", dict(calls=[dict(c, pin=False)], pack=None, fam=c["fam"])) for c, r in todo], py, module="drv_sccd")
        for (c, r), x in zip(todo, plain):
            if isinstance(x, list) and not (x[0]["status"] == "ok" and same_pack(x[0]["pack"], r["pack"])):
                o.violation("segments", "asking for pinpoint anomalies changes the pack\n%s" % detail(c, None, r))
            if r["pinpos"] != c["pos"]:
                o.violation("position", "pinpoint position\n%s" % detail(c, None, r))
        o.cov["detections_with_pinpoints"] = o.cov.get("detections_with_pinpoints", 0) + len(todo)
        o.cov["pinpoints_compared"] = o.cov.get("pinpoints_compared", 0) + sum(len(r["pins"]) for c, r in todo)
    return sccd_check("S10", tier, ["run", "near", "outlier", "volatile", "steps", "messy", "tail", "long"],
                      lambda fl, c, p, r: any(f[1] == "pin" for f in fl) and "pinpoint anomalies", also=also, b_pin=True)


# ---- S03: batching --------------------------------------------------------------------------------------------
def joined(c, rs):
    """stretches of updates from a monitoring pack, as one call each: [(case, pack, result, batches)]"""
    out = []
    packs = [r["pack"] if r["status"] == "ok" else None for r in rs]
    for a in range(len(rs) - 1):
        if packs[a] is None or packs[a]["mode"] != 1:
            continue
        b = a + 1
        while b < len(rs) and packs[b] is not None and packs[b]["mode"] in (1, 5):
            if b - a >= 2:
                qs = c["calls"][a + 1:b + 1]
                out.append((dict(qs[0], dates=np.concatenate([q["dates"] for q in qs]), bands=np.concatenate([q["bands"] for q in qs], axis=1),
                                 qa=np.concatenate([q["qa"] for q in qs])), packs[a], rs[b], b - a))
            if packs[b]["mode"] == 5:
                break
            b += 1
    return out


def S03(tier):
    o = vlib.Outcome("S03", tier, "model_checking")
    mc(o, "sccd/SccdBatch.tla", "sccd/SccdBatch.cfg" if tier == "quick" else "sccd/SccdBatchdeep.cfg")
    py = vlib.build_repo()
    for seed in rounds(tier, "S03"):
        ch = pixgen.chains(seed, CHAINS, ["stable", "trend", "step", "outlier", "run", "tail", "steps", "messy", "dup", "late"], many=True, mark=0)
        calls, at, res = follow(o, ch, py)
        virt = [v for c, rs in zip(ch, res) for v in joined(c, rs)]
        r = np.random.RandomState(seed)
        pick = sorted(r.choice(len(virt), min(len(virt), 3000), replace=False)) if virt else []
        virt = [virt[k] for k in pick]
        # the pack reached in batches is the one the specification reaches at once...
        vc = [(c, p, dict(x, kept=True)) for c, p, x, n in virt]
        hard = conform(o, vc)
        picked(o, vc, hard, lambda fl, c, p, x: "pack reached in several updates is not the one a single update reaches")
        # ... and so is the one the implementation reaches at once, up to rounding
        once = run_cases(o, [("again", c, p) for c, p, x, n in virt], py, module="drv_sccd")
        real = [(c, p, x[0]) for (c, p, _, n), x in zip(virt, once) if isinstance(x, list) and x[0]["status"] == "ok"]
        picked(o, real, conform(o, real), lambda fl, c, p, x: any(f[0] < 998 or f[0] in (999, 1000) for f in fl) and "single update of several batches")
        o.cov["splits_compared"] = o.cov.get("splits_compared", 0) + len(virt)
        o.cov["batches_joined"] = o.cov.get("batches_joined", 0) + sum(v[3] for v in virt)
        o.cov["with_change"] = o.cov.get("with_change", 0) + sum(v[2]["pack"]["mode"] == 5 for v in virt)
    return o.finish()


# ---- S05: what must not matter --------------------------------------------------------------------------------
def dirtied(c, r, rs):
    """the chain with unusable observations put between the others, and updates without news between the calls;
    -> (chain, for each call of c the index of the call that must give the same pack, indices of calls that must change nothing)"""
    calls, of, idle = [], [], []
    snowy = sccdconf.is_snow(c["calls"][0], None) or any(x["status"] == "ok" and x["pack"]["mode"] in (3, 4) for x in rs)
    for j, q in enumerate(c["calls"]):
        n = len(q["dates"])
        m = int(r.randint(1, 12))
        at = np.sort(r.randint(1, n + 1, m)) if j == 0 and n > 1 else np.sort(r.randint(0, n + 1, m))
        if j == 0:
            at = at[at < n]
            m = len(at)
        lo = q["dates"][0] if j == 0 else c["calls"][j - 1]["dates"][-1]
        dd = np.array([q["dates"][min(k, n - 1)] if r.rand() < .4 else ((q["dates"][k - 1] if k > 0 else lo) + q["dates"][min(k, n - 1)]) // 2 for k in at], np.int64)
        kind = r.randint(0, 3, m) if not snowy else np.zeros(m, int)
        qa = r.choice([2, 4, 255], m)
        vals = r.choice([-9999, 0, 100, 900, 4000, 20000], (7, m))
        for x in range(m):
            if kind[x] == 1:                          # clear, out of range
                qa[x] = r.randint(2)
                vals[:, x] = r.choice([60, 500, 900, 4000], 7)
                vals[r.randint(6), x] = r.choice([-9999, 10000, 16000, -200, -3000])
            elif kind[x] == 2:                        # a second look at a usable date
                k = at[x] - 1
                ok = k >= 0 and q["qa"][k] < 2 and bool(sccdconf.in_range(q)[k])
                if ok:
                    dd[x] = q["dates"][k]
                    qa[x] = r.randint(2)
                    vals[:, x] = r.choice([60, 500, 900, 4000], 7)
                    vals[6, x] = 2900
        dd = np.maximum.accumulate(dd) if m else dd
        for x in range(m):                            # moved on: not a second look any more
            if kind[x] == 2 and dd[x] != q["dates"][at[x] - 1]:
                qa[x] = 2
        v = dict(q, dates=np.insert(q["dates"], at, dd), bands=np.insert(q["bands"], at, vals, axis=1), qa=np.insert(q["qa"], at, qa))
        w = v["qa"] >= 2 if snowy is False else np.isin(v["qa"], [2, 4, 255])
        w = w & (v["qa"] != 3)
        flip = w & (r.rand(len(w)) < .5)
        v["bands"] = v["bands"].copy()
        v["bands"][:, flip] = r.choice([-9999, 0, 77, 3000, 12000], (7, int(flip.sum())))
        calls.append(v)
        of.append(len(calls) - 1)
        if r.rand() < .5:
            m = int(r.randint(1, 5))
            standard = j < len(rs) and rs[j]["status"] == "ok" and rs[j]["pack"]["mode"] not in (0, 3, 4)      # snow says nothing any more
            last = int(q["dates"][-1])
            calls.append(dict(q, pin=False, mark=False, dates=np.array([last + r.choice([0, 0, 1])] * m, np.int64), bands=r.choice([-9999, 50, 700, 20000], (7, m)).astype(q["bands"].dtype),
                              qa=r.choice([2, 3, 4, 255] if standard else [2, 4, 255], m).astype(q["qa"].dtype)))
            idle.append(len(calls) - 1)
    return dict(c, calls=calls), of, idle


def S05(tier):
    o = vlib.Outcome("S05", tier, "model_checking")
    py = vlib.build_repo()
    for seed in rounds(tier, "S05"):
        r = np.random.RandomState(seed)
        ch = pixgen.chains(seed, CHAINS, None)
        calls, at, res = follow(o, ch, py)
        dirty = [dirtied(c, r, rs) for c, rs in zip(ch, res)]
        dcalls, dat, dres = follow(o, [d[0] for d in dirty], py)
        for c, (d, of, idle), a, b in zip(ch, dirty, res, dres):
            for j, (x, k) in enumerate(zip(a, of)):
                if k >= len(b):
                    continue
                y = b[k]
                o.cov["packs_compared"] = o.cov.get("packs_compared", 0) + 1
                if x["status"] == "ok" and y["status"] == "ok":
                    pa, pb = (a[j - 1]["pack"] if j else None), (b[k - 1]["pack"] if k else None)
                    fa, fb = (sccdconf.fresh(qq, pp, sccdconf.stored(pp)) for qq, pp in ((c["calls"][j], pa), (d["calls"][k], pb)))
                    ua, ub = c["calls"][j], d["calls"][k]
                    assert [int(ua["dates"][v - 1]) for v in fa] == [int(ub["dates"][v - 1]) for v in fb], ("generator", ua["fam"], j)
                if x["status"] != y["status"] or x["status"] == "ok" and not same_pack(x["pack"], y["pack"]):
                    o.violation("insert", "unusable observations change the result (call %d)\nwithout: %s\nwith: %s" % (
                        j, detail(c["calls"][j], a[j - 1].get("pack") if j else None, x), detail(d["calls"][k], None, y)))
                    break
            for k in idle:
                if k < len(b) and b[k - 1]["status"] == "ok":
                    o.cov["idle_updates"] = o.cov.get("idle_updates", 0) + 1
                    was = dict(b[k - 1]["pack"], mode=b[k - 1].get("marked", b[k - 1]["pack"]["mode"]))
                    if b[k]["status"] != "ok" or not same_pack(b[k]["pack"], was):
                        o.violation("idle", "an update without usable observations changes the pack\n%s" % detail(d["calls"][k], was, b[k]))
        # the specification leaves out the same observations: what it says about the dirty history
        picked(o, dcalls, conform(o, dcalls), lambda fl, c, p, x: ((c["qa"] >= 2).any() or not sccdconf.in_range(c).all()) and blame(o, c, p, x, py) and "choice of observations")
    return o.finish()


def blame(o, c, p, x, py):
    """does the same call on the usable observations alone give the same?  (then something else is wrong, not the choice)"""
    st = sccdconf.stored(p)
    if p is None or sccdconf.is_snow(c, p):
        return False
    ks = [k - 1 for k in sccdconf.fresh(c, p, st)]
    if not ks:
        return True
    q = dict(c, dates=c["dates"][ks], bands=c["bands"][:, ks], qa=c["qa"][ks])
    y = run_cases(o, [("again", q, p)], py, module="drv_sccd")[0]
    return not (isinstance(y, list) and y[0]["status"] == x["status"] == "ok" and same_pack(y[0]["pack"], x["pack"]))


# ---- S07: identification --------------------------------------------------------------------------------------
def predict(coefs, date):
    w = 2 * np.pi / 365.25 * date
    return float(np.dot(np.asarray(coefs, np.float64), [1, date / 10000., np.cos(w), np.sin(w), np.cos(2 * w), np.sin(2 * w)]))


def icase(pack, kw, r):
    c = dict(mode=pack["mode"], has=len(pack["model"]) > 0, dist=kw["dist_conse"], tcg=int(np.floor(kw["t_cg_scale100"])), t=kw["t_cg_singleband_scale1000"],
             tangle=kw["t_angle_scale100"], transform=kw["transform_mode"], run=0, cm=0, angle=0, dates=[0] * 8, obs=[[0] * 8] * 6, diff=[[0] * 8] * 6)
    if c["has"]:
        m = pack["model"][0]
        c.update(run=int(m["conse_last"]), cm=int(m["norm_cm"]), angle=int(m["cm_angle"]), dates=m["obs_date_since1982"].tolist(), obs=m["obs"].tolist())
        d = [[100 * (float(m["obs"][b][j]) - predict(m["nrt_coefs"][b], int(m["obs_date_since1982"][j]) + LAUNCH)) for j in range(8)] for b in range(6)]
        c["diff"] = [[int(np.clip(np.round(v), -9000000, 9000000)) for v in q] for q in d]
    same = r["status"] == "ok" and same_pack(dict(r["pack"], mode=0), dict(pack, mode=0))
    c["out"] = dict(date=r.get("date", -1), mode=r["pack"]["mode"] if r["status"] == "ok" else -1, kept=bool(same))
    return c


def edited(pack, r):
    """a pack of the same shape at the edge of a decision"""
    if len(pack["model"]) == 0 or r.rand() < .3:
        return pack if r.rand() < .7 else dict(pack, mode=int(r.choice([1, 11, 3, 5] if len(pack["model"]) else [2, 12, 4, 0])))
    m = pack["model"].copy()
    kept = int((m[0]["obs"] != 0).any(axis=0).sum())
    if pack["mode"] in (1, 11, 5) and r.rand() < .8:
        m["conse_last"] = r.randint(0, kept + 1)
        m["norm_cm"] = r.choice([0, 923, 924, 1508, 1509, 2000, 9236, 32767]) if m["conse_last"][0] else -9999
        m["cm_angle"] = r.choice([0, 1, 4499, 4500, 4501, 9000, 17999]) if m["conse_last"][0] else -9999
        if r.rand() < .5:      # push the observations of some bands about
            for b in (2, 3, 4):
                m[0]["obs"][b][:kept] = np.clip(m[0]["obs"][b][:kept].astype(int) + r.choice([-600, -200, 0, 200, 600]), 1, 9999)
    return dict(pack, model=m)


def S07(tier):
    o = vlib.Outcome("S07", tier, "model_checking")
    py = vlib.build_repo()
    for seed in rounds(tier, "S07"):
        r = np.random.RandomState(seed)
        ch = pixgen.chains(seed, 400, ["run", "near", "tail", "late", "step", "steps", "stable", "few", "snow", "volatile", "outlier"])
        calls, at, res = follow(o, ch, py)
        todo = []
        for c, p, x in calls:
            if x["status"] != "ok":
                continue
            for rep in range(4):
                kw = dict(dist_conse=int(r.randint(1, 7)), t_cg_scale100=float(r.choice([1508.6, 923.6, 1, 1508, 1509, 5000.5])),
                          t_cg_singleband_scale1000=int(r.choice([-200, -200, 200, 0, -600, 600])), t_angle_scale100=int(r.choice([4500, 4500, 1, 9000, 17999, 4501])),
                          transform_mode=bool(r.rand() < .7))
                q = x["pack"]
                if rep:
                    q = edited(q, r)
                else:
                    if r.rand() < .5:
                        kw = dict(dist_conse=6, t_cg_scale100=1508.6, t_cg_singleband_scale1000=-200, t_angle_scale100=4500, transform_mode=True)
                    if len(q["model"]) and r.rand() < .6 and q["model"][0]["conse_last"]:
                        kw["dist_conse"] = int(min(6, q["model"][0]["conse_last"] + r.choice([0, 0, -1, 1]) or 1))
                        kw["t_cg_scale100"] = float(max(.5, q["model"][0]["norm_cm"] + r.choice([-1, -.5, 0, .5, 1])))
                        kw["t_angle_scale100"] = int(np.clip(q["model"][0]["cm_angle"] + r.choice([0, 1, 2, 100]), 1, 17999))
                todo.append(("identify", dict(pack=q, kw=kw, fam=c["fam"])))
        out = run_cases(o, todo, py, module="drv_sccd")
        cases = []
        for (_, c), x in zip(todo, out):
            if x["status"].startswith("other:") or x["status"] == "fail":
                o.violation("error", "unexpected error: %s\n%s %s" % (x["status"], c["kw"], plainly(c["pack"])))
        live = [k for k in range(len(todo)) if out[k]["status"] == "ok"]
        cases = [icase(todo[k][1]["pack"], todo[k][1]["kw"], out[k]) for k in live]
        d = pathlib.Path(tempfile.mkdtemp(dir=vlib.WORK))
        try:
            (d / "j").write_text(json.dumps(cases))
            t = vlib.tlc(vlib.VERIF / "spec/sccd/Identify.tla", envx={"VERIF_JSON": str(d / "j")}, workers=1)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        import re
        for k in sorted({int(x) for x in re.findall(r'"MISMATCH", (\d+)', t.out)}):
            c = todo[live[k - 1]][1]
            o.violation("identify", "identification differs from the specification: %s\n%s\n%s" % (
                json.dumps(cases[k - 1]), c["kw"], plainly(c["pack"])))
        o.cov["states"] = o.cov.get("states", 0) + t.states
        o.cov["transitions"] = o.cov.get("transitions", 0) + t.transitions
        o.cov["traces_validated_against_impl"] = o.cov.get("traces_validated_against_impl", 0) + len(cases)
        o.cov["disturbances"] = o.cov.get("disturbances", 0) + sum(c["out"]["date"] > 0 for c in cases)
        o.cov["modes_moved"] = o.cov.get("modes_moved", 0) + sum(c["out"]["mode"] != c["mode"] for c in cases)
        for c in cases[::max(1, len(cases) // 6)]:
            o.samples.append("mode %s run %s cm %s angle %s dist %s tcg %s tangle %s -> date %s mode %s" % tuple(
                [c[f] for f in ("mode", "run", "cm", "angle", "dist", "tcg", "tangle")] + [c["out"]["date"], c["out"]["mode"]]))
    return o.finish()


# ---- S09: flat packs ------------------------------------------------------------------------------------------
def S09(tier):
    o = vlib.Outcome("S09", tier, "model_checking")
    py = vlib.build_repo()
    for seed in rounds(tier, "S09"):
        ch = pixgen.chains(seed, CHAINS, None)
        calls, at, res = follow(o, ch, py)
        packs = [(c, p, x) for c, p, x in calls if x["status"] == "ok"]
        back = run_cases(o, [("roundtrip", dict(pack=x["pack"], fam=c["fam"])) for c, p, x in packs], py, module="drv_sccd")
        for (c, p, x), y in zip(packs, back):
            if y["status"] != "ok" or not same_pack(y["pack"], x["pack"]):
                o.violation("roundtrip", "a pack of mode %s does not survive flattening (%s)\n%s" % (x["pack"]["mode"], y["status"], plainly(x["pack"])))
        # the history with every pack flattened and restored on the way is the specification's, and the same as without
        fcalls, fat, fres = follow(o, [dict(c, flat=True) for c in ch], py)
        for c, a, b in zip(ch, res, fres):
            for j, (x, y) in enumerate(zip(a, b)):
                if x["status"] != y["status"] or x["status"] == "ok" and not same_pack(x["pack"], y["pack"]):
                    o.violation("continue", "continuing from the restored pack gives another result (call %d)\n%s" % (j, detail(c["calls"][j], a[j - 1].get("pack") if j else None, y)))
                    break
        bad, ref = conform(o, fcalls), None
        if bad:
            ref = set(conform(o, calls))
            same = {at[k] for k in ref}
            picked(o, fcalls, {k: v for k, v in bad.items() if fat[k] not in same}, lambda fl, c, p, x: "history over restored packs")
        o.cov["packs_restored"] = o.cov.get("packs_restored", 0) + len(packs)
    return o.finish()
