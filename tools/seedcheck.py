"""Development aid: seedcheck.py [-a] [ids...]: runs the checks against each
planted change in seeded/, in a scratch copy of /repo, and prints which report
it (-a: all checks, otherwise the change's own property)."""
import sys, os, json, subprocess, tempfile, shutil, concurrent.futures as cf
V = "/verif"
args = sys.argv[1:]
every = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(V + "/seeded"))
km = os.environ.get("KM", V + "/bin/kmcheck")
alls = subprocess.check_output([km, "-list"], text=True, cwd=V).split()
def one(i):
    prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="seedc-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/repo"])
        p = subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=tmp + "/repo", capture_output=True, text=True)
        if p.returncode: return i, prop, None, p.stderr
        out = subprocess.run([km, "-repo", tmp + "/repo", "-out", tmp + "/out", "-prop", ",".join(alls if every else [prop])], cwd=V, capture_output=True, text=True).stdout
        hit = [l.split("property=")[1].split()[0] for l in out.splitlines() if l.startswith("VIOLATION")]
        why = ""
        f = f"{tmp}/out/{prop}.replay.txt"
        if prop in hit and os.path.exists(f): why = "\n".join(open(f).read().splitlines()[2:5])
        return i, prop, hit, why
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
missed = 0
with cf.ThreadPoolExecutor(3) as ex:
    for i, prop, hit, why in ex.map(one, ids):
        ok = hit is not None and prop in hit
        missed += not ok
        print("caught" if ok else "MISSED", i, prop, "by", " ".join(hit or []), "|", " / ".join(x.strip() for x in why.splitlines())[:260])
print(len(ids), "changes,", missed, "missed")
