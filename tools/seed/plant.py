"""Plants bugs of bugs.py in /repo's working tree one by one, and keeps those that
build, pass the stable tests and are demonstrated.  usage: plant.py [ID...]
--check: also run the check of the property and report whether it is caught."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import importlib
BUGS = []
for f in sorted(os.listdir(HERE)):
    if f.startswith("bugs") and f.endswith(".py"):
        BUGS += importlib.import_module(f[:-3]).BUGS
args = sys.argv[1:]
docheck = "--check" in args
ids = [a for a in args if not a.startswith("--")]
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
assert not sh("git -C /repo status --porcelain -uno").stdout, "dirty /repo"
results = {}
for id, prop, edits, needs, breaks, demo in BUGS:
    if ids and id not in ids:
        continue
    d = f"/verif/seeded/{id}"
    try:
        bad = None
        for f, old, new in edits:
            p = f"/repo/{f}"
            s = open(p).read()
            if s.count(old) < 1:
                bad = f"text not found in {f}: {old[:60]!r}"; break
            if s.count(old) > 1:
                bad = f"text found {s.count(old)} times in {f}"; break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(id, "INVALID", bad, flush=True); continue
        diff = sh("git -C /repo diff").stdout
        # Only lines of the original repository may be changed.
        foreign, gone = [], 0
        for f in sorted({e[0] for e in edits}):
            blame = sh(f"git -C /repo blame -s HEAD -- {f}").stdout.splitlines()
            hunks = sh(f"git -C /repo diff -U0 -- {f}").stdout.splitlines()
            import re
            for h in hunks:
                mt = re.match(r"@@ -(\d+)(?:,(\d+))? ", h)
                if mt:
                    a, n = int(mt[1]), int(mt[2] or 1)
                    gone += n
                    foreign += [b for b in blame[a - 1:a - 1 + n] if not b.startswith("^")]
        if foreign or not gone:
            print(id, "NOT ORIGINAL", foreign[:2], flush=True); continue
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        shutil.copy(f"{HERE}/demo_lib.py", d)
        open(f"{d}/demo.py", "w").write("from demo_lib import *\n" + demo)
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\ncd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 '
            'OMP_NUM_THREADS=1 exec /opt/venv/bin/python demo.py\n')
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(f"{d}/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(id, "BUILD FAILS", b.stderr[-300:], flush=True); shutil.rmtree(d); continue
        r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
        if r.returncode == 0:
            print(id, "DEMO PASSES WITH BUG", flush=True); shutil.rmtree(d); continue
        t = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
        o = json.load(open("/tmp/plant_out.json"))
        miss = [x for x in stable if x not in o["passed"]]
        if miss:
            print(id, f"TESTS FAIL ({len(miss)})", miss[0][:90], flush=True); shutil.rmtree(d); continue
        msg = "ok; demo: " + (r.stdout + r.stderr).strip()[-150:].replace("\n", " ")
        if docheck:
            c = sh(f"cd /verif && timeout 900 python3 check.py {prop}")
            line = [l for l in c.stdout.splitlines() if l.startswith("[")][:1]
            msg += f"\n    {'CAUGHT' if c.returncode == 1 else 'MISSED'} by {prop} (rc {c.returncode}) {line[0][:200] if line else c.stdout[:150]}"
        print(id, msg, flush=True)
    finally:
        clean()
sh("bash /opt/vp/build.sh")
for id, *_ in BUGS:
    if (not ids or id in ids) and os.path.isdir(f"/verif/seeded/{id}"):
        r = sh(f"bash /verif/seeded/{id}/demo.sh", cwd="/repo", timeout=300)
        if r.returncode:
            print(id, "DEMO FAILS ON CLEAN TREE", (r.stdout + r.stderr)[-300:]); shutil.rmtree(f"/verif/seeded/{id}")
