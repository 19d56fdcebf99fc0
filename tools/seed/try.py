"""Like plant.py, but in scratch copies of /repo (removed afterwards), so that it
can run beside vcheck.  usage: try.py [--no-check] [--also=C01,C02] ID...
Keeps nothing unless --keep is given (then as plant.py does)."""
import importlib, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
BUGS = []
for f in sorted(os.listdir(HERE)):
    if f.startswith("bugs") and f.endswith(".py"):
        BUGS += importlib.import_module(f[:-3]).BUGS
args = sys.argv[1:]
ids = [a for a in args if not a.startswith("--")]
also = [a[7:].split(",") for a in args if a.startswith("--also=")]
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(id, prop, edits, needs, breaks, demo):
    tmp = tempfile.mkdtemp(prefix="plant-")
    repo, d = f"{tmp}/repo", f"{tmp}/seed"
    try:
        sh(f"cp -a /repo {repo}")
        for f, old, new in edits:
            p = f"{repo}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"INVALID text found {s.count(old)} times in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {repo} diff").stdout
        foreign, gone = [], 0
        for f in sorted({e[0] for e in edits}):
            blame = sh(f"git -C {repo} blame -s HEAD -- {f}").stdout.splitlines()
            for h in sh(f"git -C {repo} diff -U0 -- {f}").stdout.splitlines():
                mt = re.match(r"@@ -(\d+)(?:,(\d+))? ", h)
                if mt:
                    a, n = int(mt[1]), int(mt[2] or 1)
                    gone += n
                    foreign += [b for b in blame[a - 1:a - 1 + n] if not b.startswith("^")]
        if foreign or not gone:
            return f"NOT ORIGINAL {foreign[:2]}"
        os.makedirs(d)
        open(f"{d}/patch.diff", "w").write(diff)
        shutil.copy(f"{HERE}/demo_lib.py", d)
        open(f"{d}/demo.py", "w").write("from demo_lib import *\n" + demo)
        open(f"{d}/demo.sh", "w").write(
            '#!/bin/bash\ncd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 '
            'OMP_NUM_THREADS=1 exec /opt/venv/bin/python demo.py\n')
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(f"{d}/meta.json", "w"), indent=1)
        r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
        if r.returncode:
            return "DEMO FAILS ON CLEAN TREE " + (r.stdout + r.stderr)[-300:]
        env = dict(os.environ, PYTHONPATH=f"{repo}/src")
        for n in ("build", "test"):
            s = open(f"/opt/vp/{n}.sh").read().replace("/repo", repo)
            s = s.replace("/opt/vp/build.sh", f"{tmp}/build.sh")
            open(f"{tmp}/{n}.sh", "w").write(s)
        b = sh(f"bash {tmp}/build.sh", env=env)
        if b.returncode:
            return "BUILD FAILS " + b.stderr[-300:]
        r = sh(f"bash {d}/demo.sh", cwd=repo, timeout=300, env=env)
        if r.returncode == 0:
            return "DEMO PASSES WITH BUG"
        sh(f"bash {tmp}/test.sh {tmp}/out.json", env=env)
        o = json.load(open(f"{tmp}/out.json"))
        miss = [x for x in stable if x not in o["passed"]]
        if miss:
            return f"TESTS FAIL ({len(miss)}) {miss[0][:90]}"
        msg = "ok; demo: " + (r.stdout + r.stderr).strip()[-150:].replace("\n", " ")
        if "--keep" in args:
            shutil.rmtree(f"/verif/seeded/{id}", ignore_errors=True)
            shutil.copytree(d, f"/verif/seeded/{id}")
        if "--no-check" not in args:
            for c_ in [prop] + (also[0] if also else []):
                c = sh(f"cd /verif && timeout 900 python3 check.py {c_}",
                       env=dict(os.environ, VERIF_REPO=repo))
                line = [l for l in c.stdout.splitlines() if l.startswith("[")][:1]
                msg += (f"\n    {'CAUGHT' if c.returncode == 1 else 'MISSED'} by {c_} "
                        f"(rc {c.returncode}) {line[0][:200] if line else c.stdout[:150]}")
        return msg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for b in BUGS:
    if b[0] in ids:
        print(b[0], one(*b), flush=True)
