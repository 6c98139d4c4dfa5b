#!/usr/bin/env python3
"""Development aid: run the checker on edited copies of /repo.

usage: selftest.py [-p C03,C04] [-k name-substring] FILE.py...
Each FILE defines CASES = [(name, "kill"|"quiet", [props], [(file, old, new), ...])].
A kill case must be reported by one of the named properties; a quiet case by none.
Not used by any registered check."""
import sys, os, subprocess, shutil, tempfile, argparse, concurrent.futures as cf, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
ap = argparse.ArgumentParser()
ap.add_argument("-p", default="")
ap.add_argument("-k", default="")
ap.add_argument("-j", type=int, default=6)
ap.add_argument("-v", action="store_true")
ap.add_argument("--keep", default="")
ap.add_argument("files", nargs="*")
a = ap.parse_args()
files = a.files or sorted(os.path.join(V, "tools/cases", f) for f in os.listdir(os.path.join(V, "tools/cases")) if f.endswith(".py"))
cases = []
for f in files:
    cases += runpy.run_path(f)["CASES"]
if a.k:
    cases = [c for c in cases if a.k in c[0]]
allprops = subprocess.run([os.environ.get("KM", V + "/bin/kmcheck"), "-list"], capture_output=True, text=True).stdout.split()
def one(c):
    name, kind, props, edits = c
    d = tempfile.mkdtemp(prefix="kmself.", dir="/tmp")
    try:
        for f in os.listdir("/repo"):
            if f.endswith(".go") and not f.endswith("_test.go") or f in ("go.mod", "go.sum"):
                shutil.copy("/repo/" + f, d)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read() if os.path.exists(p) else ""
            if old is None:
                s = s + new
            elif s.count(old) != 1:
                return name, kind, "BAD", f"edit matches {s.count(old)} times in {f}: {old[:60]!r}"
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
        b = subprocess.run(["go", "build", "."], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode:
            return name, kind, "BAD", "build: " + b.stderr[:400]
        if a.keep:
            shutil.copytree(d, os.path.join(a.keep, name.replace(" ", "_")), dirs_exist_ok=True)
        ps = a.p.split(",") if a.p else (allprops if kind == "quiet" else [p for p in props if p in allprops])
        if not ps:
            return name, kind, "SKIP", "no check yet"
        r = subprocess.run([os.environ.get("KM", V + "/bin/kmcheck"), "-repo", d, "-out", d + "/out", "-prop", ",".join(ps)], capture_output=True, text=True, env=env)
        vio = sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
        bad = [l for l in r.stdout.splitlines() + r.stderr.splitlines() if "VIOLATION" in l or l.startswith("  ")][:12]
        ok = bool(set(vio) & set(props)) if kind == "kill" else not vio
        return name, kind, "ok" if ok else "WRONG", (" ".join(vio) + ("\n" + "\n".join(x[:300] for x in bad) if (a.v or (not ok)) else ""))
    finally:
        shutil.rmtree(d, ignore_errors=True)
n = 0
with cf.ThreadPoolExecutor(a.j) as ex:
    for name, kind, res, det in ex.map(one, cases):
        if res not in ("ok", "SKIP"):
            n += 1
        print(f"{res:6} {kind:6} {name}: {det}", flush=True)
print(f"{len(cases)} cases, {n} wrong")
sys.exit(1 if n else 0)
