"""Checks of the COLD and reconstruction properties (C01-C12)."""
import concurrent.futures, json, pickle, re
import numpy as np
import vlib, pixgen, coldconf

SIZES = dict(quick=1200)


def run_cases(o, todo, py, timeout=240, shards=vlib.JOBS, module="drv_pixel"):
    """results of the calls in todo; a call that kills or hangs the process is a violation"""
    res = [None] * len(todo)

    def part(idx):
        idx = list(idx)
        bad = 0
        while idx:
            st, r = vlib.drive(module, [todo[k] for k in idx], py, timeout)
            if st == "ok":
                for k, x in zip(idx, r):
                    res[k] = x
                return
            at = [int(x) for x in re.findall(r"^case (\d+)", r, re.M)]
            at = at[-1] if at else 0
            k = idx[at]
            again, rr = vlib.drive(module, [todo[k]], py, 60)      # confirm on its own
            if again != "ok":
                o.violation("%s:%s" % (again, todo[k][1].get("fam")), "call %s ends in a %s\n%s\n%s" % (todo[k][0], again, describe(todo[k][1]), rr[-500:]))
            res[k] = dict(status=again) if again != "ok" else rr[0]
            if at == 0 and again == "ok":      # only fails in company: report with its predecessor state
                o.violation("unstable", "a batch of calls ends in a %s, none of them alone\n%s" % (st, r[-500:]))
                for q in idx:
                    if res[q] is None:
                        res[q] = dict(status="crash")
                return
            # the ones before were fine but their results are lost: redo without the bad one
            bad += again != "ok"
            if bad >= 5:                       # enough of them: leave the rest
                for q in idx:
                    if res[q] is None:
                        res[q] = dict(status="crash")
                return
            idx = [q for q in idx if q != k]
    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        list(ex.map(part, [range(s, len(todo), shards) for s in range(shards)]))
    return res


def describe(c):
    return json.dumps(c, default=lambda v: v.tolist() if hasattr(v, "tolist") else str(v))


def brief(c, r):
    s = "fam=%s n=%d conse=%s t_cg=%s gap=%s c2=%s status=%s" % (c["fam"], len(c["dates"]), c["conse"], c["t_cg"], c["gap_days"], c["b_c2"], r["status"])
    if r["status"] == "ok":
        s += " records=%s" % [[int(q[f]) for f in ("t_start", "t_end", "t_break", "change_prob", "num_obs", "category")] for q in r["rec"]]
    return s


def statuses(o, cs, res, okset):
    for c, r in zip(cs, res):
        if r["status"].startswith("other:"):
            o.violation("error:" + r["status"].split(":")[1], "unexpected error: %s\n%s" % (r["status"], describe(c)))


def conform(o, fams, n, seed, fn, ob=False):
    py = vlib.build_repo()
    cs = (pixgen.obcases if ob else pixgen.cases)(seed, n, None)
    if fams:
        extra = (pixgen.obcases if ob else pixgen.cases)(seed + 500, n // 2, fams)
        cs = cs[:n - len(extra)] + extra
    todo = [("obcold", c, c["breaks"]) if ob else ("cold", c) for c in cs]
    res = run_cases(o, todo, py)
    statuses(o, cs, res, ())
    keep = [k for k in range(len(cs)) if res[k]["status"] in ("ok", "norec", "fail")]
    cs, res = [cs[k] for k in keep], [res[k] for k in keep]
    verdicts, st = coldconf.run_tlc(coldconf.OBSPEC if ob else coldconf.SPEC, cs, res)
    hard, soft, nsoft = coldconf.judge(verdicts, st, ob)
    o.cov["states"] = o.cov.get("states", 0) + st["states"]
    o.cov["transitions"] = o.cov.get("transitions", 0) + st["transitions"]
    o.cov["traces_validated_against_impl"] = o.cov.get("traces_validated_against_impl", 0) + len(cs)
    o.cov["records_compared"] = o.cov.get("records_compared", 0) + sum(len(r.get("rec", ())) for r in res)
    o.cov["inconclusive_series"] = o.cov.get("inconclusive_series", 0) + len(st["fragile"])
    for k in range(0, len(cs), max(1, len(cs) // 6)):
        o.samples.append(brief(cs[k], res[k]))
    return cs, res, hard, (soft, nsoft), py


def report(o, cs, res, hard, softs, pick, ob=False):
    """pick(kind-field flags of the first mismatching record, case, result) -> text or None"""
    for k, fl in sorted(hard.items()):
        t = pick(fl, cs[k], res[k])
        if t:
            fields = sorted({(f[1] + "." + f[2]) for f in fl})
            o.violation("%s" % ",".join(fields), "%s: record %d differs from the specification in %s\n%s\n%s" % (
                t, min(f[0] for f in fl), ", ".join(fields), brief(cs[k], res[k]), describe(cs[k])))
    soft, ns = softs
    if len(soft) > max(5, ns * 0.15):
        o.violation("soft", "%d of %d series screened over a year or less differ from the specification (rounding explains few)\n%s" % (
            len(soft), ns, "\n".join(brief(cs[k], res[k]) for k in soft[:3])))


def mc(o, spec, cfg=None, **kw):
    t = vlib.tlc(vlib.VERIF / "spec" / spec, cfg=cfg and vlib.VERIF / "spec" / cfg, workers=vlib.JOBS, heap="8g", **kw)
    o.cov["states"] = o.cov.get("states", 0) + t.states
    o.cov["transitions"] = o.cov.get("transitions", 0) + t.transitions
    o.cov["model_states"] = o.cov.get("model_states", 0) + t.states
    return t


SEG = {"ts", "te", "tb", "num", "cat", "prob", "extra", "missing", "error", "noverdict"}
fields = lambda fl: {f[2] for f in fl}
kinds = lambda fl: {f[1] for f in fl}


def clear(c):
    return int((c["qa"] < 2).sum())


def cold_check(pid, tier, fams, pick, softly=False, model=True):
    o = vlib.Outcome(pid, tier, "model_checking")
    if model:
        mc(o, "cold/ColdMC.tla", "cold/ColdMC.cfg" if tier == "quick" else "cold/ColdMCdeep.cfg")
    for rnd in range(1 if tier == "quick" else 8):
        cs, res, hard, softs, py = conform(o, fams, SIZES["quick"], vlib.SEED * 1000 + rnd * 17 + sum(map(ord, pid)), "cold")
        report(o, cs, res, hard, softs if softly else ([], 0), pick)
    return o.finish()


def C01(tier):
    return cold_check("C01", tier, None, lambda fl, c, r: kinds(fl) == {"wf"} and "malformed records")


def C02(tier):
    return cold_check("C02", tier, ["steps", "long", "volatile", "gap", "backbreak"], lambda fl, c, r:
                      fields(fl) & SEG and not kinds(fl) & {"fallback", "wf"} and clear(c) >= 24 and "segmentation", softly=True)


def C03(tier):
    return cold_check("C03", tier, ["stable", "step", "trend", "short", "preinit", "long"], lambda fl, c, r:
                      fields(fl) & {"fit", "cat"} and not fields(fl) & {"ts", "te", "tb", "extra", "missing"} and kinds(fl).isdisjoint({"fallback", "wf"})
                      and "model of a record", softly=True)


def C04(tier):
    def pick(fl, c, r):
        first = min(f[0] for f in fl)
        real = r["rec"][first - 1] if r["status"] == "ok" and 0 < first <= len(r["rec"]) else None
        conf = "break" in kinds(fl) or real is not None and real["change_prob"] == 100 and real["category"] % 100 < 10
        return conf and fields(fl) & {"tb", "te", "prob", "mag", "extra", "missing"} and "break decision"
    return cold_check("C04", tier, ["step", "steps", "near", "outlier", "run", "long", "volatile"], pick)


def C05(tier):
    return cold_check("C05", tier, ["tail", "late", "run", "outlier", "near"], lambda fl, c, r:
                      "open" in kinds(fl) and fields(fl) & {"prob", "te", "tb", "mag"} and not fields(fl) & {"ts"} and "end of the series")


def C07(tier):
    return cold_check("C07", tier, ["few", "snow", "few", "messy"], lambda fl, c, r:
                      ("fallback" in kinds(fl) or clear(c) < 24) and "wf" not in kinds(fl) and "fallback model", model=False)


def C08(tier):
    def pick(fl, c, r):
        first = min(f[0] for f in fl)
        real = r["rec"][first - 1] if r["status"] == "ok" and 0 < first <= len(r["rec"]) else None
        return clear(c) >= 24 and (kinds(fl) & {"start", "end"} or real is not None and real["category"] in (14, 24)
                                   or c["fam"] == "gap" and first == 1 and "ts" in fields(fl)) and "wf" not in kinds(fl) and "start, gap or end of the series"
    return cold_check("C08", tier, ["preinit", "backbreak", "gap", "gap", "late", "short", "sparse", "volatile"], pick, softly=True)


def C09(tier):
    o = vlib.Outcome("C09", tier, "model_checking")
    for rnd in range(1 if tier == "quick" else 8):
        seed = vlib.SEED * 1000 + rnd * 17 + 9
        r0 = np.random.RandomState(seed)
        py = vlib.build_repo()
        cs = pixgen.cases(seed, SIZES["quick"], ["step", "steps", "long", "stable", "gap", "tail", "messy", "params", "outlier", "volatile"])
        for c in cs:
            d0, d1 = int(c["dates"][0]), int(c["dates"][-1])
            iv = int(r0.choice([0, 16, 30, 32, 60, 120, 365]))
            st = int(d0 + r0.choice([0, 0, -1, -59, -300, -3000, 31, 400, (d1 - d0) // 2]))
            if r0.rand() < .25:
                st = 0
            c["cm"] = dict(starting_date=st, interval=iv, n=int(r0.choice([0, 0, 0, 1, 5, 40, 200])))
        res = run_cases(o, [("cold", c) for c in cs], py)
        plain = run_cases(o, [("cold", dict(c, cm=None)) for c in cs], py)
        statuses(o, cs, res, ())
        keep = [k for k in range(len(cs)) if res[k]["status"] in ("ok", "norec", "fail")]
        cs, res, plain = [cs[k] for k in keep], [res[k] for k in keep], [plain[k] for k in keep]
        for c, a, b in zip(cs, res, plain):
            same = a["status"] == b["status"] and (a["status"] != "ok" or a["rec"].tobytes() == b["rec"].tobytes())
            if not same:
                o.violation("segments", "asking for change magnitudes changes the segments\n%s\n%s\n%s" % (brief(c, a), brief(c, b), describe(c)))
            if a["status"] == "ok":
                want = coldconf.cm_cells(c)
                if len(a["cm"]) != want or len(a["cmd"]) != want:
                    o.violation("length", "%d periods asked for, %d returned\n%s" % (want, len(a["cm"]), describe(c)))
                if not (((a["cm"] == -9999) == (a["cmd"] == -9999)).all()):
                    o.violation("fill", "value and date series are not filled alike\n%s" % describe(c))
        verdicts, st = coldconf.run_tlc(coldconf.SPEC, cs, res)
        hard, soft, ns = coldconf.judge(verdicts, st)
        o.cov["states"] = o.cov.get("states", 0) + st["states"]
        o.cov["transitions"] = o.cov.get("transitions", 0) + st["transitions"]
        o.cov["traces_validated_against_impl"] = o.cov.get("traces_validated_against_impl", 0) + len(cs)
        o.cov["cells_compared"] = o.cov.get("cells_compared", 0) + int(sum((r["cm"] != -9999).sum() for r in res if r["status"] == "ok"))
        for k in range(0, len(cs), max(1, len(cs) // 6)):
            o.samples.append("cm=%s %s" % (cs[k]["cm"], brief(cs[k], res[k])))
        report(o, cs, res, hard, ([], 0), lambda fl, c, r: kinds(fl) == {"cm"} and "change magnitude series")
    return o.finish()


def C11(tier):
    return ob_check("C11", tier, lambda fl, c, r: ("wf" in kinds(fl) or fields(fl) & {"ts", "te", "tb", "prob", "extra", "missing", "error", "noverdict"}
                                                   or "fallback" in kinds(fl)) and "split at the given breaks")


def C12(tier):
    return ob_check("C12", tier, lambda fl, c, r: fields(fl) & {"fit", "mag", "cat", "num", "extra", "missing"} and "wf" not in kinds(fl) and "model of an interval")


def ob_check(pid, tier, pick):
    o = vlib.Outcome(pid, tier, "model_checking")
    mc(o, "cold/ObMC.tla", "cold/ObMC.cfg" if tier == "quick" else "cold/ObMCdeep.cfg")
    for rnd in range(1 if tier == "quick" else 8):
        cs, res, hard, softs, py = conform(o, ["step", "steps", "outlier", "messy", "few", "snow", "c2", "long"], SIZES["quick"],
                                           vlib.SEED * 1000 + rnd * 17 + sum(map(ord, pid)), "obcold", ob=True)
        report(o, cs, res, hard, softs, pick, ob=True)
    return o.finish()


def same(a, b, cm=False):
    if a["status"] != b["status"]:
        return False
    if a["status"] != "ok":
        return True
    return a["rec"].tobytes() == b["rec"].tobytes() and (not cm or "cm" not in a or (a["cm"].tobytes() == b["cm"].tobytes() and a["cmd"].tobytes() == b["cmd"].tobytes()))


def C06(tier):
    o = vlib.Outcome("C06", tier, "model_checking")
    py = vlib.build_repo()
    nv = {}
    for rnd in range(1 if tier == "quick" else 8):
        seed = vlib.SEED * 1000 + rnd * 17 + 6
        r = np.random.RandomState(seed)
        cs = [c for c in pixgen.obcases(seed, SIZES["quick"], ["messy", "edge", "dup", "c2", "step", "messy", "long", "edge", "params", "few", "volatile"]) if clear(c) >= 24]
        for c in cs:
            if r.rand() < .3:
                c["cm"] = dict(starting_date=int(c["dates"][0]), interval=32, n=200)
            if r.rand() < .4:      # observations to ignore, where the family has none
                w = r.rand(len(c["qa"])) < .15
                if ((c["qa"] < 2) & ~w).sum() >= 24:
                    c["qa"][w] = r.choice([2, 3, 4, 255], int(w.sum()))
        # 1. the specification's idea of the usable observations explains the results on dirty input...
        todo = [("cold", c) for c in cs]
        res = run_cases(o, todo, py)
        statuses(o, cs, res, ())
        keep = [k for k in range(len(cs)) if res[k]["status"] in ("ok", "norec", "fail")]
        cs, res = [cs[k] for k in keep], [res[k] for k in keep]
        verdicts, st = coldconf.run_tlc(coldconf.SPEC, cs, res)
        hard, soft, ns = coldconf.judge(verdicts, st)
        o.cov["states"] = o.cov.get("states", 0) + st["states"]
        o.cov["transitions"] = o.cov.get("transitions", 0) + st["transitions"]
        o.cov["traces_validated_against_impl"] = o.cov.get("traces_validated_against_impl", 0) + len(cs)
        for k in range(0, len(cs), max(1, len(cs) // 6)):
            o.samples.append(brief(cs[k], res[k]))
        # ... if not, and it does on the series cut down to them, then the choice of observations is wrong
        sus = sorted(hard)[:80]
        if sus:
            cl = []
            for k in sus:
                u = np.array(coldconf.usable(cs[k]), int) - 1
                pad = max(0, 24 - len(u))
                c = dict(cs[k], cm=None, dates=np.concatenate([np.full(pad, cs[k]["dates"][0]), cs[k]["dates"][u]]), qa=np.zeros(len(u) + pad, np.int64),
                         bands=np.concatenate([np.full((7, pad), -9999), cs[k]["bands"][:, u]], axis=1))
                cl.append(c)
            rr = run_cases(o, [("cold", c) for c in cl], py)
            v2, s2 = coldconf.run_tlc(coldconf.SPEC, cl, rr)
            h2 = coldconf.judge(v2, s2)[0]
            for j, k in enumerate(sus):
                if j not in h2 and j not in s2["fragile"]:
                    o.violation("choice", "results rest on other observations than the usable ones\n%s\n%s" % (brief(cs[k], res[k]), describe(cs[k])))
        # 2. changing what must not matter changes nothing
        todo, of = [], []
        for k, c in enumerate(cs):
            for name, v in pixgen.variants(c, r, coldconf.usable(c), coldconf.in_range(c)):
                todo.append(("cold", v)); of.append((k, name, "cold", None))
        base_ob = run_cases(o, [("obcold", c, c["breaks"]) for c in cs], py)
        for k, c in enumerate(cs):
            if k % 3 == 0 and base_ob[k]["status"] == "ok" and not (base_ob[k]["rec"]["category"] >= 44).any():
                for name, v in pixgen.variants(c, r, coldconf.usable(c), coldconf.in_range(c)):
                    todo.append(("obcold", v, c["breaks"])); of.append((k, name, "reconstruct", None))
        out = run_cases(o, todo, py)
        for (k, name, fn, _), v, x in zip(of, todo, out):
            base = res[k] if fn == "cold" else base_ob[k]
            nv[fn + "/" + name] = nv.get(fn + "/" + name, 0) + 1
            if not same(base, x, True):
                o.violation("%s:%s" % (fn, name), "%s: results change with observations that must not matter (%s)\n%s\n%s\nbase %s\nvariant %s" % (
                    fn, name, brief(cs[k], base), brief(v[1], x), describe(cs[k]), describe(v[1])))
        # the variants keep the usable observations, says the specification
        some = [(v[1], x) for v, x in zip(todo, out) if v[0] == "cold"][:: max(1, len(todo) // 300)]
        coldconf.run_tlc(coldconf.SPEC, [a for a, b in some], [b for a, b in some])
    o.cov["variants_compared"] = nv
    return o.finish()


from props_calls import C10
