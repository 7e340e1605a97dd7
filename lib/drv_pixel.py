"""Runs pixel-level calls of the implementation on generated cases (subprocess; sys.argv: in.pkl out.pkl)."""
import pickle, sys
import numpy as np


def args(c):
    b = c["bands"]
    return (c["dates"], b[0], b[1], b[2], b[3], b[4], b[5], b[6], c["qa"])


def classify(ex):
    s = str(ex)
    if isinstance(ex, RuntimeError):
        return "fail"
    if "no change records" in s:
        return "norec"
    return "other:" + type(ex).__name__ + ":" + s[:200]


def cold(c, **over):
    from pycold import cold_detect
    kw = dict(t_cg=c["t_cg"], pos=c.get("pos", 1), conse=c["conse"], b_c2=c["b_c2"], gap_days=c["gap_days"])
    cm = c.get("cm")
    if cm:
        kw.update(b_output_cm=True, starting_date=cm["starting_date"], n_cm=cm["n"], cm_output_interval=cm["interval"])
    kw.update(over)
    try:
        r = cold_detect(*args(c), **kw)
    except Exception as ex:
        return dict(status=classify(ex))
    if kw.get("b_output_cm"):
        return dict(status="ok", rec=np.array(r[0]), cm=np.array(r[1]), cmd=np.array(r[2]))
    return dict(status="ok", rec=np.array(r))


def obcold(c, breaks, **over):
    from pycold import obcold_reconstruct
    kw = dict(pos=c.get("pos", 1), conse=c["conse"], b_c2=c["b_c2"])
    kw.update(over)
    try:
        r = obcold_reconstruct(*args(c), np.asarray(breaks, np.int64), **kw)
    except Exception as ex:
        return dict(status=classify(ex))
    return dict(status="ok", rec=np.array(r))


def main():
    with open(sys.argv[1], "rb") as f:
        todo = pickle.load(f)
    out = []
    for k, (what, c, *rest) in enumerate(todo):
        sys.stderr.write("case %d %s\n" % (k, c.get("fam")))
        sys.stderr.flush()
        out.append(globals()[what](c, *rest))
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    main()
