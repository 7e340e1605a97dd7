"""C10: pixel calls are pure functions of their arguments (spec/calls)."""
import json, re, pathlib
import numpy as np
import vlib, pixgen


def twins(c, r):
    """series that agree with c in much: same dates, same start, same length"""
    a = dict(c, bands=c["bands"].copy())
    a["bands"][:, r.randint(0, len(c["dates"]), 6)] += 90
    b = dict(c, bands=c["bands"].copy())
    b["bands"][3, len(c["dates"]) // 2:] -= 700
    b["bands"][:6] = np.clip(b["bands"][:6], 5, 9990)
    return [c, a, b]


def kinds(seed, py, nbase):
    r = np.random.RandomState(seed)
    out = []
    for j in range(nbase):
        c = pixgen.obcases(int(r.randint(2 ** 31 - 1)), 1, [["steps", "messy", "step", "gap", "few", "snow"][j % 6]])[0]
        c["cm"] = None
        for n, v in enumerate(twins(c, r)):
            v["breaks"] = c["breaks"] if n != 1 else [int(c["dates"][len(c["dates"]) // 2])]
            out.append(dict(fn="cold", case=v, kw=dict(conse=6 if n != 2 else 4, b_c2=c["b_c2"])))
            if n != 1:
                out.append(dict(fn="cold", case=v, kw=dict(b_output_cm=True, starting_date=int(c["dates"][0]), n_cm=60 + n, cm_output_interval=32)))
                out.append(dict(fn="obcold", case=v, kw=dict(conse=4)))
                out.append(dict(fn="sccd", case=v, kw=dict(conse=6, b_pinpoint=n == 2)))
        h = len(c["dates"]) * 2 // 3
        part = dict(c, dates=c["dates"][:h], bands=c["bands"][:, :h], qa=c["qa"][:h])
        rest = dict(c, dates=c["dates"][h:], bands=c["bands"][:, h:], qa=c["qa"][h:])
        out.append(dict(fn="sccd", case=part, kw=dict(conse=8), then=(rest, dict(conse=8))))
    first = [k for k in out if "then" in k]
    st, packs = vlib.drive("drv_calls", dict(mode="packs", kinds=[{x: y for x, y in k.items() if x != "then"} for k in first]), py)
    if st != "ok":
        raise vlib.CheckError("packs: " + packs)
    for k, p in zip(first, packs):
        rest, kw = k.pop("then")
        if isinstance(p, str):
            continue
        out.append(dict(fn="update", case=rest, kw=kw, pack=p))
        out.append(dict(fn="identify", case=rest, kw=dict(dist_conse=1, t_cg_scale100=1, t_angle_scale100=17999), pack=p))
    return out


def euler(edges):
    """a walk from 0 along every edge"""
    adj = {}
    for a, b, l, p in edges:
        adj.setdefault(a, []).append((b, l, p))
    out, n = [], 0
    at = 0
    stack, path = [(0, None)], []
    while stack:
        v, how = stack[-1]
        if adj.get(v):
            e = adj[v].pop()
            stack.append((e[0], e))
        else:
            path.append(stack.pop())
    path.reverse()
    return [h for v, h in path if h is not None]


def C10(tier):
    o = vlib.Outcome("C10", tier, "model_checking")
    py = vlib.build_repo()
    spec = vlib.VERIF / "spec/calls"
    for rnd in range(1 if tier == "quick" else 4):
        ks = kinds(vlib.SEED * 1000 + 10 + rnd, py, 4 if tier == "quick" else 8)
        nk = len(ks)
        t = vlib.tlc(spec / "CallsGen.tla", envx=dict(CALLS_KINDS=str(nk)))
        edges = [tuple(int(x) for x in m) for m in re.findall(r'<<"EDGE", (\d+), (\d+), (\d+), (\d+)>>', t.out)]
        edges = [e for e in dict.fromkeys(edges) if e[0] != 0] + [(0, 1) + next(e[2:] for e in edges if e[:2] == (0, 1))]
        walk = euler(edges)
        if len(walk) != len(edges):
            raise vlib.CheckError("walk covers %d of %d pairs" % (len(walk), len(edges)))
        # every call on its own, in heaps of different contents
        refs = []
        for fill in ("0", "85", "170"):
            st, r = drive(dict(mode="alone", kinds=ks), py, fill)
            if st != "ok":
                o.violation("alone", "calls on their own end in a %s: %s" % (st, r))
                return o.finish()
            refs.append(r)
        outc, cont = [], []
        for k in range(nk):
            ds = {r[k][0][0] if r[k][0] != "died" else "died" for r in refs}
            if len(ds) > 1:
                o.violation("heap:" + ks[k]["fn"], "the same call gives different results in two processes\n%s %s" % (ks[k]["fn"], show(ks[k])))
            outc.append(refs[0][k][0][0]); cont.append(refs[0][k][1])
        st, ev = drive(dict(mode="walk", kinds=ks, walk=walk), py, "0", 600)
        if st != "ok":
            at = [int(x) for x in re.findall(r"^case (\d+)", ev, re.M)] or [0]
            o.violation("walk", "a history of calls ends in a %s at call %d: %s\n%s" % (st, at[-1], [(ks[w[0] - 1]["fn"]) for w in walk[max(0, at[-1] - 5):at[-1] + 1]], ev[-800:]))
            return o.finish()
        ids = {}
        num = lambda d: ids.setdefault(d, len(ids) + 1)
        import drv_calls
        tr = dict(outcome=[num(x) for x in outc], content=[num(x) for x in cont],
                  events=[dict(kind=w[0], layout=w[1], place=w[2], out=num(d), content=num(c),
                               at=[w[2] if a == drv_calls.PLACES[w[2] - 1] else 9 for a in at])
                          for w, (d, at, c) in zip(walk, ev)])
        vlib.WORK.mkdir(exist_ok=True)
        f = vlib.WORK / "calls.ndjson"
        f.write_text(json.dumps(tr) + "\n")
        c = vlib.tlc(spec / "CallsConf.tla", envx=dict(CALLS_TRACE=str(f)), heap="4g")
        if '"SHORT"' in c.out:
            raise vlib.CheckError("the recorded history was not read to its end\n" + c.out[-2000:])
        for m in re.findall(r'<<"MISMATCH", (\d+), (\w+), (\w+), (\w+)>>', c.out):
            j = int(m[0]) - 1
            w = walk[j]
            what = [n for n, b in zip(("result", "position", "arguments"), m[1:]) if b == "FALSE"]
            o.violation("%s:%s" % (",".join(what), ks[w[0] - 1]["fn"]), "call %d (%s after %s, layout %d, position %d): %s not as the call alone says\n%s\nprevious %s" % (
                j, ks[w[0] - 1]["fn"], ks[walk[j - 1][0] - 1]["fn"] if j else "-", w[1], drv_calls.PLACES[w[2] - 1], " and ".join(what), show(ks[w[0] - 1]),
                show(ks[walk[j - 1][0] - 1])))
        o.cov["states"] = o.cov.get("states", 0) + t.states + c.states
        o.cov["transitions"] = o.cov.get("transitions", 0) + t.transitions + c.transitions
        o.cov["traces_validated_against_impl"] = o.cov.get("traces_validated_against_impl", 0) + 1
        o.cov["calls"] = o.cov.get("calls", 0) + len(walk)
        o.cov["distinct_calls"] = o.cov.get("distinct_calls", 0) + nk
        for j in range(5, len(walk), len(walk) // 4):
            o.samples.append("%s(layout %d, pos %d) -> %s at %s" % (ks[walk[j][0] - 1]["fn"], walk[j][1], drv_calls.PLACES[walk[j][2] - 1], ev[j][0][:12], ev[j][1]))
        order(o, rnd, py)
    return o.finish()


def order(o, rnd, py):
    """dates out of order are an error (COLD and reconstruction), wherever they are"""
    r = np.random.RandomState(vlib.SEED * 77 + rnd)
    todo = []
    for c in pixgen.obcases(vlib.SEED * 1000 + 310 + rnd, 150, None):
        c["cm"] = None
        n = len(c["dates"])
        up = np.nonzero(np.diff(c["dates"]) > 0)[0]
        k = int(r.choice([up[0], up[-1], up[r.randint(len(up))]]))
        v = dict(c, dates=c["dates"].copy(), qa=c["qa"].copy())
        v["dates"][[k, k + 1]] = v["dates"][[k + 1, k]]
        v["qa"][[k, k + 1]] = r.choice([0, 2, 255], 2) if r.rand() < .5 else v["qa"][[k, k + 1]]
        todo += [("cold", v), ("obcold", v, c["breaks"])]
    from props_cold import run_cases, describe
    res = run_cases(o, todo, py)
    for t, x in zip(todo, res):
        if x["status"] != "fail":
            o.violation("order:" + t[0], "%s accepts dates out of order (%s)\n%s" % (t[0], x["status"], describe(t[1])))
    o.cov["unordered_series"] = o.cov.get("unordered_series", 0) + len(todo)


def show(k):
    c = k["case"]
    return json.dumps(dict(fn=k["fn"], kw=k["kw"], dates=c["dates"].tolist(), bands=c["bands"].tolist(), qa=c["qa"].tolist(), breaks=c.get("breaks")), default=str)


def drive(payload, py, fill, timeout=300):
    return vlib.drive("drv_calls", payload, py, timeout, {"MALLOC_PERTURB_": fill})
