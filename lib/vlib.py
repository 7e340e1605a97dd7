"""Shared machinery of the checks: build /repo into a scratch copy, build the numeric oracle, run TLC,
write evidence, report violations."""
import hashlib, json, os, re, shutil, subprocess, sys, time, pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
VENV = "/opt/pycold-venv"
PY = VENV + "/bin/python"
WORK = VERIF / ".work"
JARS = "/opt/veriftools/tla/tla2tools.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = 8


class CheckError(Exception):
    """the check itself failed (not a violation)"""


def tla_classpath():
    jars = sorted(str(p) for p in pathlib.Path("/opt/veriftools/tla").glob("*.jar"))
    return ":".join(jars)


def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(str(p).encode() + b"\0")
        h.update(p.read_bytes())
    return h.hexdigest()[:20]


def _files(root, pats, skip=()):
    out = []
    for pat in pats:
        for p in root.rglob(pat):
            if p.is_file() and not any(s in p.parts for s in skip):
                out.append(p)
    return out


def env(extra=None, py=None):
    e = dict(os.environ)
    e.update(PATH=VENV + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             CC="gcc", CXX="g++", FC="gfortran", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1",
             PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.pop("PYTHONPATH", None)
    if py:
        e["PYTHONPATH"] = str(py)
    if extra:
        e.update(extra)
    return e


def build_repo():
    """Build /repo's working tree in a scratch copy; returns the directory to put on PYTHONPATH."""
    srcs = _files(REPO / "src", ["*.c", "*.h", "*.f", "*.txt", "*.pyx", "*.pxd", "*.py", "*.yaml", "*.json"],
                  skip=("_build",))
    srcs += [p for p in (REPO / "CMakeLists.txt", REPO / "setup.py", REPO / "pyproject.toml") if p.exists()]
    key = _hash(srcs)
    dst = WORK / "repo" / key
    if (dst / "ok").exists():
        return dst / "src/python"
    old = WORK / "repo"
    if old.exists():
        shutil.rmtree(old)
    dst.mkdir(parents=True)
    for name in os.listdir(REPO):
        if name in (".git", "_build", "tests", "docs", "dockerfiles"):
            continue
        p = REPO / name
        if p.is_dir():
            shutil.copytree(p, dst / name, symlinks=True,
                            ignore=shutil.ignore_patterns("*.so", "__pycache__", "_build"))
        else:
            shutil.copy2(p, dst / name)
    log = open(dst / "build.log", "w")
    for cmd in (["/usr/bin/cmake", "-S", ".", "-B", "_build", "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                 "-DPYTHON_EXECUTABLE=" + PY, "-DPYTHON_INCLUDE_DIR=/usr/include/python3.12",
                 "-DPYTHON_LIBRARY=/usr/lib/x86_64-linux-gnu/libpython3.12.so"],
                ["/usr/bin/ninja", "-C", "_build"],
                ["/usr/bin/cmake", "--install", "_build", "--prefix", str(dst)]):
        r = subprocess.run(cmd, cwd=dst, env=env(), stdout=log, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError("building /repo failed: see %s" % (dst / "build.log"))
    shutil.rmtree(dst / "_build", ignore_errors=True)
    (dst / "ok").write_text("")
    return dst / "src/python"


def build_oracle():
    """Compile the native numeric oracle and the TLC overrides; returns the directory."""
    srcs = _files(VERIF / "native", ["*.c", "*.h"]) + _files(VERIF / "java", ["*.java"])
    key = _hash(srcs)
    dst = WORK / "oracle" / key
    if (dst / "ok").exists():
        return dst
    if (WORK / "oracle").exists():
        shutil.rmtree(WORK / "oracle")
    dst.mkdir(parents=True)
    jhome = subprocess.run("dirname $(dirname $(readlink -f $(command -v javac)))", shell=True,
                           stdout=subprocess.PIPE, text=True).stdout.strip()
    inc = ["-I" + jhome + "/include", "-I" + jhome + "/include/linux"]
    for lib, cs in (("libcoldnum.so", ["coldnum.c", "num.c"]), ("libsccdnum.so", ["sccdnum.c", "num.c"])):
        cs = [str(VERIF / "native" / c) for c in cs]
        if not all(os.path.exists(c) for c in cs):
            continue
        r = subprocess.run(["gcc", "-O2", "-g", "-fPIC", "-shared", "-ffp-contract=off"] + inc +
                           ["-o", str(dst / lib)] + cs + ["-lgsl", "-lgslcblas", "-lm"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("building the oracle failed:\n" + r.stdout)
    r = subprocess.run(["javac", "-nowarn", "-cp", tla_classpath(), "-d", str(dst)] +
                       [str(p) for p in (VERIF / "java").glob("*.java")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("compiling the TLC overrides failed:\n" + r.stdout)
    (dst / "ok").write_text("")
    return dst


class Tlc:
    """result of one TLC run"""
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out, re.S)
        self.transitions = int(m[-1][0].replace(",", "")) if m else 0
        self.states = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = "Model checking completed. No error has been found." in out or "The number of states generated" in out and rc == 0

    def prints(self, tag):
        return [l for l in self.out.splitlines() if l.startswith(tag)]


def tlc_start(spec, cfg=None, workers=1, jvm=(), envx=None, extra=(), meta=None, heap="2g", depthfirst=False):
    spec = pathlib.Path(spec)
    meta = pathlib.Path(meta or WORK / "meta" / ("%s-%d-%d" % (spec.stem, os.getpid(), time.time_ns())))
    meta.mkdir(parents=True, exist_ok=True)
    cp = str(build_oracle()) + ":" + tla_classpath()
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"]
    cmd += list(jvm)
    if depthfirst:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-DTLA-Library=%s:%s" % (VERIF / "spec/lib", VERIF / "spec/cls"), "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", str(meta),
            "-config", str(cfg or spec.with_suffix(".cfg"))] + list(extra) + [str(spec)]
    f = open(meta / "out.txt", "w")
    p = subprocess.Popen(cmd, cwd=spec.parent, stdout=f, stderr=subprocess.STDOUT, env=env(envx))
    p.meta = meta
    return p


def tlc_wait(p, timeout=800, need_ok=True):
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        raise CheckError("TLC timed out")
    out = (p.meta / "out.txt").read_text(errors="replace")
    shutil.rmtree(p.meta, ignore_errors=True)
    t = Tlc(rc, out)
    out = "\n".join(l for l in out.splitlines() if not l.startswith("Loading "))
    if "Failed to match" in out:
        raise CheckError("operator override mismatch:\n" + "\n".join(l for l in out.splitlines() if "Failed to match" in l))
    if need_ok and not t.ok:
        raise CheckError("TLC failed (rc %d):\n%s" % (rc, out[-6000:]))
    return t


def tlc(spec, cfg=None, timeout=800, need_ok=True, **kw):
    return tlc_wait(tlc_start(spec, cfg, **kw), timeout, need_ok)


# ---- outcome of a check ----
class Outcome:
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.violations = []      # (key, description)
        self.known = []
        self.cov = {}
        self.samples = []

    def violation(self, key, text):
        for k in known_findings(self.pid):
            if re.fullmatch(k["match"], key):
                if key not in [x[0] for x in self.known]:
                    self.known.append((key, k["what"]))
                return
        self.violations.append((key, text))

    def finish(self):
        rdir = WORK / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        path = ""
        if self.violations:
            path = rdir / ("%s.txt" % self.pid)
            path.write_text("".join("%s\n%s\n\n" % v for v in self.violations[:50]))
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level,
              "coverage": dict(self.cov, samples=self.samples[:10]),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (self.pid + ".json")).write_text(json.dumps(ev, indent=1))
        for what in sorted({k[1] for k in self.known}):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        for k, t in self.violations[:5]:
            print("  %s: %s" % (k, t.splitlines()[0][:300]))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("ok property=%s %s %.1fs %s" % (self.pid, self.tier, time.time() - self.t0, json.dumps(self.cov)))
        return 0


def known_findings(pid):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return [k for k in json.loads(p.read_text())["findings"] if k["property"] == pid]


def drive(module, payload, pypath, timeout=300, envx=None):
    """Run lib/<module>.py over the scratch build in a subprocess; a crash or hang is reported by the caller.
    Returns (status, result) where status is 'ok', 'crash' or 'hang'."""
    import pickle, tempfile
    WORK.mkdir(exist_ok=True)
    d = pathlib.Path(tempfile.mkdtemp(dir=WORK))
    try:
        with open(d / "in.pkl", "wb") as f:
            pickle.dump(payload, f)
        with open(d / "log", "w") as log:
            try:
                r = subprocess.run([PY, str(VERIF / "lib" / (module + ".py")), str(d / "in.pkl"), str(d / "out.pkl")],
                                   env=env(envx, py=pypath), stdout=log, stderr=subprocess.STDOUT, timeout=timeout, cwd=d)
            except subprocess.TimeoutExpired:
                return "hang", (d / "log").read_text(errors="replace")[-2000:]
        if r.returncode or not (d / "out.pkl").exists():
            return "crash", "rc %d\n%s" % (r.returncode, (d / "log").read_text(errors="replace")[-3000:])
        with open(d / "out.pkl", "rb") as f:
            return "ok", pickle.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)
