"""Runs the facets of one property over worker processes and reports."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import sys
import time
import traceback

from . import boot, core

VERIF = boot.VERIF
SHRINK_BUDGET = 400         # executions after the first failure of a facet
SANITIZED = {"C27"}
QUICK_FACTOR = 1.5
STUCK = 150                 # seconds without progress in a case of any kind


UNUSABLE = (ValueError, TypeError, IndexError, AttributeError, ArithmeticError)


class HarnessError(Exception):
    pass


class StopSearch(BaseException):
    pass


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def run_case(facet, spec):
    """Returns (ctx, violation message or None); raises on harness errors."""
    ctx = core.Ctx()
    try:
        facet.check(spec, ctx)
    except core.Skip:
        ctx.nontrivial = False
        ctx.labels.append("skipped")
        return ctx, None
    except core.Violation as e:
        return ctx, str(e)
    except Exception as e:  # noqa: BLE001
        if core.in_sut(e) and not core.innermost_is_harness(e):
            return ctx, f"unexpected {core.describe(e)}"
        # On the unchanged tree no case gets here: a result of a shape or type
        # that the oracle cannot even compare.
        if isinstance(e, UNUSABLE):
            return ctx, f"a result that cannot be judged: {core.describe(e)}"
        raise
    return ctx, None


def seed_of(*parts):
    return int.from_bytes(
        hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


class Search:
    def __init__(self, prop, facet, n, seed, spec_path, stop):
        self.prop, self.facet, self.n, self.seed = prop, facet, n, seed
        self.spec_path, self.stop = spec_path, stop
        self.evaluations = 0
        self.distinct = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failure = None
        self.after = 0
        self.findings = {}

    def execute(self, spec):
        if self.failure is None and self.stop.is_set():
            raise StopSearch
        if self.failure is not None:
            self.after += 1
            if self.after > SHRINK_BUDGET:
                raise StopSearch
        text = canon(spec)
        spec = json.loads(text)
        with open(self.spec_path, "w") as f:
            f.write(json.dumps({"facet": self.facet.name, "spec": spec}))
        ctx, msg = run_case(self.facet, json.loads(text))
        if self.failure is None:
            self.evaluations += 1
            for l in set(ctx.labels):
                self.labels[l] += 1
            for k, t in ctx.findings:
                self.findings.setdefault(k, t)
            if ctx.nontrivial:
                self.distinct.add(hashlib.md5(text.encode()).digest()[:8])
                if (len(self.samples) < 2
                        or (len(self.samples) < 4 and self.evaluations % 97 == 0)):
                    if len(text) < 1500:
                        self.samples.append(spec)
        if msg is not None:
            self.failure = (spec, msg)
            self.stop.set()
            raise core.Violation(msg)

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        search = self

        @hypothesis.seed(self.seed)
        @settings(max_examples=max(self.n, 1), database=None, deadline=None,
                  suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink),
                  report_multiple_bugs=False, print_blob=False)
        @given(self.facet.strategy())
        def test(spec):
            search.execute(spec)

        try:
            test()
        except StopSearch:
            pass
        except core.Violation:
            pass
        except Exception:
            # Hypothesis' own complaints (e.g. Flaky) after a real failure.
            if self.failure is None:
                raise


def worker(prop, tier, seed, shard, nshards, scale, out, stop, spec_path):
    res = {"shard": shard, "facets": {}, "failure": None, "error": None}
    try:
        if prop in SANITIZED:
            redirect_stderr(spec_path + ".err")
        devnull = open(os.devnull, "w")
        sys.stdout = devnull
        mod = importlib.import_module(f"props.{prop.lower()}")
        for facet in mod.FACETS:
            if stop.is_set():
                break
            total = (facet.quick * QUICK_FACTOR if tier == "quick"
                     else facet.thorough)
            total = max(1, int(total * scale))
            n = total // nshards + (1 if shard < total % nshards else 0)
            if n == 0:
                continue
            s = Search(prop, facet, n,
                       seed_of(seed, prop, facet.name, shard), spec_path, stop)
            t0 = time.time()
            s.run()
            res["facets"][facet.name] = {
                "evaluations": s.evaluations, "labels": dict(s.labels),
                "distinct": [d.hex() for d in s.distinct],
                "samples": s.samples, "wall": time.time() - t0,
                "findings": s.findings}
            if s.failure is not None:
                spec, msg = s.failure
                res["failure"] = {"facet": facet.name, "spec": spec,
                                  "message": msg}
                break
    except BaseException:  # noqa: BLE001
        res["error"] = traceback.format_exc()[-4000:]
        stop.set()
    out.put(res)
    out.close()
    out.join_thread()
    os._exit(0)


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    return {"known": [], "fixed": []}


def write_replay(prop, failure):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = hashlib.sha256(canon(failure).encode()).hexdigest()[:12]
    path = os.path.join(d, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, **failure}, f, indent=1)
    return path


def redirect_stderr(path):
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(fd, 2)
    os.close(fd)


def summary(path):
    """What a sanitizer or the C++ runtime wrote before the process died."""
    try:
        with open(path, errors="replace") as f:
            lines = f.read().splitlines()
    except OSError:
        return ""
    keep = [l.strip() for l in lines
            if l.startswith("SUMMARY") or "runtime error" in l
            or "terminate called" in l or "what():" in l or "Assertion" in l
            or l.startswith("    #") and "ext/" in l]
    return " | ".join(keep[-4:])[:600]


def replay_target(prop, facet_name, spec, q, errfile):
    redirect_stderr(errfile)
    sys.stdout = open(os.devnull, "w")
    mod = importlib.import_module(f"props.{prop.lower()}")
    facet = next(f for f in mod.FACETS if f.name == facet_name)
    try:
        _, msg = run_case(facet, json.loads(canon(spec)))
        q.put(("ok", msg))
    except BaseException:  # noqa: BLE001
        q.put(("error", traceback.format_exc()[-3000:]))
    q.close()
    q.join_thread()
    os._exit(0)


def replay(prop, facet_name, spec, timeout=600):
    """Re-run one case in a fresh process: ('ok', msg) / ('died', sig) / ..."""
    ctxm = mp.get_context("fork")
    q = ctxm.Queue()
    errfile = os.path.join(VERIF, ".build", f"replay-{os.getpid()}.err")
    p = ctxm.Process(target=replay_target,
                     args=(prop, facet_name, spec, q, errfile))
    p.start()
    t0 = time.time()
    try:
        while time.time() - t0 < timeout:
            try:
                r = q.get(timeout=0.05)
                p.join()
                return r
            except queue.Empty:
                if not p.is_alive():
                    try:
                        return q.get(timeout=0.5)
                    except queue.Empty:
                        return ("died", f"with status {p.exitcode}: "
                                        f"{summary(errfile)}")
        p.kill()
        p.join()
        return ("timeout", None)
    finally:
        try:
            os.remove(errfile)
        except OSError:
            pass


def smaller(v):
    """Simpler values to try in place of *v*."""
    if isinstance(v, bool):
        return [False] if v else []
    if isinstance(v, int):
        return [x for x in {0, 1, v // 2, v - 1} if 0 <= x < v]
    if isinstance(v, list):
        return [v[:i] + v[i + 1:] for i in range(len(v))]
    return []


def minimise(prop, facet_name, spec, budget=40):
    """Greedy simplification of a case that kills its process."""
    t0 = time.time()
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for k in sorted(spec):
            for v in smaller(spec[k]):
                if time.time() - t0 > budget:
                    return spec
                cand = dict(spec, **{k: v})
                if replay(prop, facet_name, cand, 30)[0] == "died":
                    spec, progress = cand, True
                    break
    return spec


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--facet")
    args = ap.parse_args(argv)
    prop = args.property
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    tier = "thorough" if args.tier == "thorough" else "quick"

    # A tree that cannot be compiled or imported is an error of the run, not
    # a counterexample.
    try:
        boot.load_hmmlearn(sanitize=prop in SANITIZED)
    except boot.BuildError as e:
        print(f"ERROR: {e}")
        return 2
    mod = importlib.import_module(f"props.{prop.lower()}")
    if args.facet:
        mod.FACETS[:] = [f for f in mod.FACETS if f.name == args.facet]

    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        kind, msg = replay(prop, r["facet"], r["spec"], STUCK)
        print(kind, msg)
        if (kind == "ok" and msg) or kind in ("died", "timeout"):
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        return 0 if kind == "ok" else 2

    njobs = args.jobs or min(8, os.cpu_count() or 1)
    ctxm = mp.get_context("fork")
    out, stop = ctxm.Queue(), ctxm.Event()
    tmp = os.path.join(VERIF, ".build", f"run-{prop}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    procs = {}
    for i in range(njobs):
        path = os.path.join(tmp, f"{i}.json")
        p = ctxm.Process(target=worker, args=(
            prop, tier, seed, i, njobs, args.scale, out, stop, path))
        p.start()
        procs[i] = (p, path)
    results, dead = {}, {}
    gone, stuck = {}, {}
    while len(results) + len(dead) < njobs:
        try:
            r = out.get(timeout=0.2)
            results[r["shard"]] = r
            continue
        except queue.Empty:
            pass
        for i, (p, path) in procs.items():
            if i in results or i in dead:
                continue
            if p.is_alive() and i not in stuck:
                try:
                    if time.time() - os.stat(path).st_mtime > STUCK:
                        stuck[i] = True
                        stop.set()
                        p.kill()
                except OSError:
                    pass
            if not p.is_alive():
                gone[i] = gone.get(i, 0) + 1
                if gone[i] > 10:      # its result would have arrived by now
                    dead[i] = p.exitcode
                    stop.set()
    for p, _ in procs.values():
        p.join()

    failures, errors = [], []
    for i, code in dead.items():
        try:
            with open(procs[i][1]) as f:
                last = json.load(f)
        except Exception:  # noqa: BLE001
            last = None
        if i in stuck and last is not None:
            kind, msg = replay(prop, last["facet"], last["spec"], STUCK)
            if kind == "timeout":
                failures.append({
                    "facet": last["facet"], "spec": last["spec"],
                    "message": f"the case does not end in {STUCK} s"})
            elif kind == "ok" and msg:
                failures.append({"facet": last["facet"], "spec": last["spec"],
                                 "message": msg})
            else:
                errors.append(f"worker {i} was stuck, its case is {kind}: {msg}")
            continue
        if code is None or last is None or code == -9 or code >= 0:
            # A sanitizer ends the process with a positive exit status.
            if not (prop in SANITIZED and last is not None
                    and code not in (None, 0, -9)):
                errors.append(f"worker {i} ended with status {code}")
                continue
        if len(failures) < 2:
            kind, msg = replay(prop, last["facet"], last["spec"])
            if kind == "died" and not failures:
                last["spec"] = minimise(prop, last["facet"], last["spec"])
                kind, msg = replay(prop, last["facet"], last["spec"])
            failures.append({
                "facet": last["facet"], "spec": last["spec"],
                "message": f"the process died with status {code} "
                           f"(replay: {kind} {msg})"})
    for r in results.values():
        if r["failure"]:
            failures.append(r["failure"])
        if r["error"]:
            errors.append(r["error"])
    for i in procs:
        for suffix in ("", ".err"):
            try:
                os.remove(procs[i][1] + suffix)
            except OSError:
                pass
    try:
        os.rmdir(tmp)
    except OSError:
        pass

    # Merge the coverage.
    evaluations, distinct, samples, per = 0, set(), [], {}
    findings = {}
    for r in results.values():
        for name, f in r["facets"].items():
            d = per.setdefault(name, {"evaluations": 0, "distinct_nontrivial": set(),
                                      "labels": collections.Counter(), "wall_s": 0.})
            d["evaluations"] += f["evaluations"]
            d["distinct_nontrivial"] |= set(f["distinct"])
            d["labels"].update(f["labels"])
            d["wall_s"] = round(max(d["wall_s"], f["wall"]), 2)
            evaluations += f["evaluations"]
            distinct |= {name + x for x in f["distinct"]}
            if sum(s["facet"] == name for s in samples) < 2:
                samples += [{"facet": name, "spec": s} for s in f["samples"][:1]]
            for k, t in f["findings"].items():
                findings.setdefault(k, t)
    for d in per.values():
        d["distinct_nontrivial"] = len(d["distinct_nontrivial"])
        d["labels"] = dict(sorted(d["labels"].items()))
    known = {k["key"]: k for k in load_known()["known"] if k["property"] == prop}
    for k, t in sorted(findings.items()):
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
        else:
            failures.append({"facet": "finding", "spec": {"key": k},
                             "message": f"unlisted finding {k}: {t}"})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(distinct),
            "rule": mod.RULE, "samples": samples[:8], "facets": per},
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "numpy, scipy and scikit-learn are trusted; the reference model in "
            "/verif/lib/oracle.py is independent of hmmlearn's code"],
        "wall_s": round(time.time() - t0, 2), "violations": len(failures)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if failures:
        failures.sort(key=lambda x: len(canon(x)))
        for fl in failures[:3]:
            path = write_replay(prop, fl)
            kind = ""
            if fl["facet"] != "finding" and (
                    "died with" not in fl["message"]
                    and "does not end" not in fl["message"]):
                k, m = replay(prop, fl["facet"], fl["spec"])
                kind = f"(fresh replay: {k} {'fails again' if m else 'passes'})"
            print(f"[{fl['facet']}] {fl['message']} {kind}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors[:2]:
            print(f"ERROR: {e}")
        return 2
    print(f"{prop}: held on {evaluations} cases ({len(distinct)} distinct "
          f"non-trivial) in {evidence['wall_s']} s")
    for n, d in per.items():
        print(f"  {n}: {d['evaluations']} cases, {d['distinct_nontrivial']} "
              f"non-trivial, {d['wall_s']} s, {d['labels']}")
    return 0
