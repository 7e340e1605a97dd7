#!/usr/bin/env python3
"""mutate.py OUT N SEED FILE:FROM-TO[,FROM-TO..] PROP.. -- change one place of the code at random (in a copy of /repo), run the checks until one reports it; one JSON line per change"""
import json, os, pathlib, random, re, shutil, subprocess, sys, time
PY = "/opt/pycold-venv/bin/python"
out, n, seed, where, props = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5:]
rnd = random.Random(seed)
f, spans = where.split(":")
spans = [tuple(int(x) for x in s.split("-")) for s in spans.split(",")]
src = pathlib.Path("/repo", f).read_text().split("\n")
py = f.endswith((".py", ".pyx"))
fixed = set()
blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.split("\n")


def strip(s):
    return re.sub(r"/\*.*?\*/", "", s.split("#" if py else "//")[0])


RULES = [(r"(?<![<>=!-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![<>=-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
         (r"(?<=[\w)\]]) \+ 1\b", ""), (r"(?<=[\w)\]]) - 1\b", ""), (r"(?<=[\w)\]]) \+ (?=\w)", " - "), (r"(?<=[\w)\]]) - (?=\w)", " + "),
         (r"(?<=[\w)\]]) \* (?=\w)", " / "), (r"\b0\.5\b", "0.6"), (r"\bconse\b", "(conse + 1)"), (r"\bconse\b", "(conse - 1)"), (r"\+\+", "--"),
         (r"= 0;", "= 1;"), (r"= 1;", "= 0;"), (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE")]
RULES += [(r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot ", "")] if py else [(r"&&", "||"), (r"\|\|", "&&"), (r"\bbreak;", ";"), (r"^\s*[\w\[\]>.\->]+ = [^;]*;\s*$", ";"), (r"^\s*[\w\[\]>.\->]+ = [^;]*;\s*$", ";")]


def mutants():
    for a, b in spans:
        block = False
        for i in range(a - 1, b):
            s = src[i]
            if not py:
                if block:
                    if "*/" in s:
                        block = False
                    continue
                if "/*" in s and "*/" not in s:
                    block = True
                    continue
            code = strip(s)
            if not code.strip() or "printf" in code or "RETURN_ERROR" in code or "malloc" in code or "alloc(" in code or "print(" in code or "sizeof" in code or "#" in code[:1]:
                continue
            if not blame[i].startswith("^"):
                continue
            for pat, new in RULES:
                for m in re.finditer(pat, code):
                    yield i, code[:m.start()] + new + code[m.end():]


ms = list(mutants())
rnd.shuffle(ms)
d = pathlib.Path(out + ".d")
shutil.rmtree(d, ignore_errors=True)
(d / "work").mkdir(parents=True)
subprocess.run(["git", "clone", "-q", "/repo", str(d / "repo")], check=True)
shutil.copytree("/verif/.work/oracle", d / "work" / "oracle")
h = open(out, "a")
print(len(ms), "places", flush=True)
for i, line in ms[:n]:
    new = list(src)
    new[i] = line
    (d / "repo" / f).write_text("\n".join(new))
    res = []
    t0 = time.time()
    for p in props:
        r = subprocess.run([PY, "/verif/tools/at.py", "--inner", str(d), p, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = "caught" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "missed" if r.returncode == 0 else "error"
        res.append((p, v))
        if v == "error":
            res.append(r.stdout[-300:])
            if "building /repo failed" in r.stdout:
                break
        if v == "caught":
            break
    e = dict(file=f, line=i + 1, old=src[i].strip(), new=line.strip(), res=res, s=int(time.time() - t0))
    h.write(json.dumps(e) + "\n")
    h.flush()
    print(json.dumps(e)[:300], flush=True)
(d / "repo" / f).write_text("\n".join(src))
shutil.rmtree(d, ignore_errors=True)
