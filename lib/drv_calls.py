"""Pixel-level calls with digests of results and arguments (subprocess; in.pkl out.pkl).
Payload: dict(mode, kinds, walk).  mode "alone": every kind in a process of its own (fork); mode "walk": all in this one."""
import hashlib, os, pickle, sys
import numpy as np

PLACES = [1, 12345, 2500, 2 ** 31 - 1]


def fields(x, place):
    """(bytes, places found) of a result"""
    at, out = [], []

    def walk(v):
        if v is None:
            out.append(b"none")
        elif hasattr(v, "_fields"):
            for f in v._fields:
                if f == "position":
                    at.append(int(v.position))
                else:
                    out.append(f.encode())
                    walk(getattr(v, f))
        elif isinstance(v, (list, tuple)):
            out.append(b"(%d" % len(v))
            for q in v:
                walk(q)
        elif isinstance(v, np.ndarray) and v.dtype.names:
            out.append(b"[%d" % len(v))
            for f in v.dtype.names:
                if f == "pos":
                    at.extend(int(q) for q in v[f])
                else:
                    out.append(f.encode() + np.ascontiguousarray(v[f]).tobytes())
        elif isinstance(v, np.ndarray):
            out.append(str(v.shape).encode() + np.ascontiguousarray(v).tobytes())
        else:
            out.append(repr(v).encode())
    walk(x)
    return b"|".join(out), at


def digest(b):
    return hashlib.sha1(b).hexdigest()


def layout(a, k):
    """the same numbers in another integer type or memory layout; k = 1..5"""
    lim = (int(a.min()), int(a.max())) if len(a) else (0, 0)

    def fit(t):
        i = np.iinfo(t)
        return i.min <= lim[0] and lim[1] <= i.max
    if k == 1:
        return a.astype(np.int64)
    if k == 2:
        return a.astype(np.int16 if fit(np.int16) else np.int32)
    if k == 3:
        b = np.zeros(2 * len(a), np.int64)
        b[::2] = a
        return b[::2]
    if k == 4:
        b = a.astype(np.int64)
        b.setflags(write=False)
        return b
    return a.astype(np.uint8 if fit(np.uint8) else np.uint16 if fit(np.uint16) else ">i4")


class Held:
    """a call's arguments as the caller holds them"""
    def __init__(self, kind):
        self.k = kind
        c = kind["case"]
        b = c["bands"]
        self.base = [c["dates"], *[b[j] for j in range(7)], c["qa"]] + ([np.asarray(c["breaks"], np.int64)] if kind["fn"] == "obcold" else [])
        self.arrs = {k: [layout(np.array(a), k) for a in self.base] for k in range(1, 6)}
        self.pack = kind.get("pack")

    def content(self):
        out = []
        for k in sorted(self.arrs):
            out += [np.ascontiguousarray(a).astype(np.int64).tobytes() for a in self.arrs[k]]
        if self.pack is not None:
            out.append(fields(self.pack, 0)[0])
            out.append(repr(self.pack.position).encode())
        return digest(b"".join(out))


def call(h, lay, place):
    import pycold
    k = h.k
    a = h.arrs[lay]
    kw = dict(k["kw"])
    try:
        if k["fn"] == "cold":
            x = pycold.cold_detect(*a, pos=place, **kw)
        elif k["fn"] == "obcold":
            x = pycold.obcold_reconstruct(*a, pos=place, **kw)
        elif k["fn"] == "sccd":
            x = pycold.sccd_detect(*a, pos=place, **kw)
        elif k["fn"] == "update":
            x = pycold.sccd_update(h.pack, *a, pos=place, **kw)
        else:
            from pycold.colds import sccd_identify
            x = sccd_identify(h.pack, **kw)
            b, at = fields(x, place)
            return digest(b), []
    except Exception as ex:
        return "raised " + type(ex).__name__, []
    b, at = fields(x, place)
    return digest(b), at


def raw(kind):
    h = Held(kind)
    import pycold
    return pycold.sccd_detect(*h.arrs[1], pos=7, **kind["kw"])


def forked(fn, *a):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            d = pickle.dumps(fn(*a))
        except BaseException as ex:
            d = pickle.dumps("raised " + type(ex).__name__)
        with os.fdopen(w, "wb") as f:
            f.write(d)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(d) if d else "died"


def main():
    with open(sys.argv[1], "rb") as f:
        p = pickle.load(f)
    import pycold
    if p["mode"] == "packs":
        out = [forked(raw, k) for k in p["kinds"]]
    elif p["mode"] == "alone":
        held = [Held(k) for k in p["kinds"]]
        out = [(forked(call, h, 1, PLACES[n % 4]), h.content()) for n, h in enumerate(held)]
    else:
        held = [Held(k) for k in p["kinds"]]
        out = []
        for j, (k, lay, pl) in enumerate(p["walk"]):
            sys.stderr.write("case %d\n" % j)
            d, at = call(held[k - 1], lay, PLACES[pl - 1])
            out.append((d, sorted(set(at)), held[k - 1].content()))
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    main()
