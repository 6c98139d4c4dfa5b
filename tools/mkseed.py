"""Development aid: mkseed.py FILE.py... makes seeded/<id>/ from descriptions.

Each FILE defines SEEDS: (id, property, needs, breaks, [(file, old, new)...], test_go, race).
A seed is written after it was shown, in a scratch copy, to build, pass the
stable tests and fail its demo, which passes on the unchanged tree."""
import sys, os, subprocess, json, shutil, importlib.util, tempfile
V = "/verif"
DEMO = '''#!/bin/bash
# runs the test beside this file against the package in the current directory
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
tmp=$(mktemp -d)
printf '{"Replace": {"%%s/seed_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test %s-count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' . > "$tmp/out" 2>&1
rc=$?
tail -c 3000 "$tmp/out"
rm -rf "$tmp"
exit $rc
'''
def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def main():
    only = None
    args = sys.argv[1:]
    if args and args[0] == "-k":
        only = args[1]; args = args[2:]
    bad = 0
    for f in args:
        spec = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for (sid, prop, needs, breaks, edits, test, race) in m.SEEDS:
            if only and only not in sid: continue
            d = f"{V}/seeded/{sid}"
            if os.path.exists(d) and not only:
                continue
            tmp = tempfile.mkdtemp(prefix="seed-")
            repo, dd = tmp + "/repo", tmp + "/d"
            try:
                subprocess.check_call(["cp", "-a", "/repo", repo]); os.mkdir(dd)
                open(dd + "/demo.sh", "w").write(DEMO % ("-race " if race else "")); os.chmod(dd + "/demo.sh", 0o755)
                open(dd + "/demo_test.go.txt", "w").write(test)
                rc, out = sh(f"bash {dd}/demo.sh", repo)
                if rc: print(sid, "DEMO FAILS UNPATCHED\n", out); bad += 1; continue
                for (fn, old, new) in edits:
                    p = repo + "/" + fn; s = open(p).read()
                    assert s.count(old) == 1, (sid, fn, s.count(old), old)
                    open(p, "w").write(s.replace(old, new))
                sh("gofmt -w " + " ".join({e[0] for e in edits}), repo)
                rc, out = sh("git diff", repo)
                open(dd + "/patch.diff", "w").write(out)
                rc, out = sh("go vet . && go build ./...", repo)
                if rc: print(sid, "BUILD\n", out); bad += 1; continue
                rc, out = sh(f"bash {dd}/demo.sh", repo)
                if rc == 0: print(sid, "DEMO PASSES PATCHED"); bad += 1; continue
                last = out.strip().splitlines()[-12:]
                rc, out = sh("GOFLAGS=-mod=mod go test -count=1 . 2>&1 | grep -E '^(---|FAIL|ok)'", repo)
                if "FAIL" in out: print(sid, "TESTS FAIL\n", out); bad += 1; continue
                json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(dd + "/meta.json", "w"), indent=1)
                shutil.rmtree(d, ignore_errors=True); shutil.copytree(dd, d)
                print(sid, "ok"); print("   ", "\n    ".join(last))
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(bad)
main()
