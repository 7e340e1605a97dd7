"""Calls of the pixel-level functions with given parameter values or series shapes (subprocess; in.pkl out.pkl)."""
import pickle, sys, warnings
import numpy as np
import pycold.colds as C

warnings.simplefilter("ignore")
N = 100


def value(v):
    t, n = v
    return {"int": lambda: n // 1000, "npint": lambda: np.int32(n // 1000), "real": lambda: n / 1000, "npreal": lambda: np.float32(n / 1000),
            "bool": lambda: bool(n), "nan": lambda: float("nan"), "none": lambda: None, "str": lambda: "6", "list": lambda: [6]}[t]()


def series():
    r = np.random.RandomState(7)
    d = np.arange(735000, 735000 + 16 * N, 16)
    b = [400 + 300 * k + (80 * np.sin(2 * np.pi * d / 365.25)).astype(int) + r.randint(0, 40, N) for k in range(6)] + [np.full(N, 2900) + r.randint(0, 40, N)]
    return [x.astype(np.int64) for x in [d] + b + [np.zeros(N)]]


S = series()
PACK = C.sccd_detect(*[x[:60] for x in S])
assert PACK.nrt_mode % 10 == 1


def call(f, ss, kw, breaks):
    if f == "obcold_reconstruct":
        b = np.array([735500]) if breaks is None else np.arange(735500, 735500 + 30 * int(np.prod(breaks)), 30).reshape(breaks)
        return C.obcold_reconstruct(*ss, b, **kw)
    if f == "sccd_update":
        return C.sccd_update(PACK, *[x[60:] if x.ndim and len(x) > 60 else x for x in ss], **kw)
    if f == "sccd_identify":
        return C.sccd_identify(PACK, **kw)
    return getattr(C, f)(*ss, **kw)


def shape(x, s):
    if s == ():
        return np.array(int(x[0]))
    y = np.resize(x, int(np.prod(s)))
    return y.reshape(s)


def run(j):
    kw = {k: value(v) for k, v in j.get("par", {}).items()}
    ss = [x.copy() for x in S]
    if "dims" in j:
        ss = [shape(x, tuple(s)) for x, s in zip(ss, j["dims"])]
    before = [x.copy() for x in ss] + [pickle.dumps(tuple(PACK))]
    try:
        r = call(j["f"], ss, kw, j.get("breaks"))
        out = ("ok", "" if r is not None else "None")
    except Exception as e:
        out = (type(e).__name__, str(e))
    same = all((a == b).all() for a, b in zip(before, ss)) and pickle.dumps(tuple(PACK)) == before[-1]
    return out + (same,)


jobs = pickle.load(open(sys.argv[1], "rb"))
out = [run(j) for j in jobs]
pickle.dump(out, open(sys.argv[2], "wb"))
