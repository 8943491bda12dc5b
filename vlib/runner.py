"""Runs the sub-checks of a property, each in its own process, and writes the evidence."""

import argparse
import hashlib
import importlib
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import build as _build

VERIF = pathlib.Path(__file__).resolve().parents[1]
BUDGET = {"quick": 60.0, "thorough": 780.0}  # soft budget of one sub-check, seconds
TOTAL = {"quick": 780.0, "thorough": 3300.0}  # no new sub-check is started after this
HANG = 200.0  # one generated case that runs longer than this does not terminate


class Violation(Exception):
    """What a failing case raises."""


class Sub:
    """One generator and its oracle.

    check(case) raises on a violation.  It may return True or False to say whether the case was non-trivial; None leaves
    it to `nontrivial`.  `enum(tier)` yields cases that are run before the random ones.
    """

    def __init__(
        self, name, check, strategy=None, *, enum=None, nontrivial=None, quick=200, thorough=4000, rule="", ext=True,
        shards=1, san=False, budget=None
    ):
        self.name, self.check, self.strategy, self.enum = name, check, strategy, enum
        self.nontrivial = nontrivial or (lambda case: True)
        self.n = {"quick": quick, "thorough": thorough}
        self.rule, self.ext, self.shards, self.san = rule, ext, shards, san
        self.budget = budget or {}


def fail(msg, **detail):
    if detail:
        msg += " | " + ", ".join(f"{k}={v!r}" for k, v in detail.items())
    raise Violation(msg[:4000])


def _key(case):
    return json.dumps(case, sort_keys=True)


# ---------------------------------------------------------------------------------------------------------- child


def child(prop, subname, shard, tier, seed, out, replay=None, ext=None):
    mod = importlib.import_module(f"checks.{prop.lower()}")
    sub = next(s for s in mod.SUBS if s.name == subname)
    from .load import load

    load(ext)
    if hasattr(mod, "setup"):
        mod.setup()

    progress = out + ".case"
    start = time.monotonic()
    budget = sub.budget.get(tier, BUDGET[tier])
    state = {"evals": 0, "skipped": 0, "deadline": start + budget, "enumerated": 0}
    seen, nontrivial, samples = set(), set(), []
    failing = {}

    def execute(case):
        key = _key(case)
        if key not in failing:
            attempt(case, key)
        if key in failing:
            raise Violation(failing[key])

    def attempt(case, key):
        if time.monotonic() > state["deadline"]:
            state["skipped"] += 1
            return
        if key in seen:
            return
        with open(progress, "w") as f:
            f.write(key)
        state["evals"] += 1
        try:
            with _quiet():
                nt = sub.check(case)
        except (Exception, SystemExit) as e:
            text = f"{type(e).__name__}: {e}"
            if not isinstance(e, Violation):
                text += "\n" + "".join(traceback.format_exception(e)[-6:])
            failing[key] = text[:4000]
            if len(failing) == 1:
                state["deadline"] = time.monotonic() + 45.0  # time to shrink
            return
        seen.add(key)
        if nt is None:
            nt = sub.nontrivial(case)
        if nt:
            nontrivial.add(hashlib.sha1(key.encode()).digest())
            if len(samples) < 2 or (len(samples) < 4 and len(key) > 400):
                samples.append(case)

    failure = None
    if replay is not None:
        try:
            execute(replay)
        except Violation as e:
            failure = {"case": replay, "error": str(e)}
    else:
        if sub.enum is not None:
            for i, case in enumerate(sub.enum(tier)):
                if i % sub.shards != shard:
                    continue
                state["enumerated"] += 1
                try:
                    execute(case)
                except Violation as e:
                    failure = {"case": case, "error": str(e)}
                    break
        n = sub.n[tier] // sub.shards
        if failure is None and sub.strategy is not None and n:
            failure = _search(sub, execute, f"{seed}/{prop}/{subname}/{shard}", n)
    res = {
        "sub": subname,
        "shard": shard,
        "evaluations": state["evals"],
        "enumerated": state["enumerated"],
        "skipped_for_time": state["skipped"],
        "distinct_nontrivial": len(nontrivial),
        "keys": [k.hex()[:16] for k in nontrivial],
        "samples": samples,
        "failure": failure,
        "wall_s": round(time.monotonic() - start, 2),
    }
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)


def _search(sub, execute, seedtext, n):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    last = {}

    @hypothesis.seed(int.from_bytes(hashlib.sha256(seedtext.encode()).digest()[:8], "big"))
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )
    @given(sub.strategy() if callable(sub.strategy) else sub.strategy)
    def prop(case):
        case = json.loads(_key(case))
        try:
            execute(case)
        except Violation as e:
            if not last or len(_key(case)) <= len(_key(last["case"])):
                last["case"], last["error"] = case, str(e)
            raise

    try:
        prop()
    except BaseException:  # also Hypothesis's own report of a failure that time-limited shrinking lost
        if not last:
            raise
    return dict(last) or None


class _quiet:
    """Keeps what the code under test prints out of the check's own output."""

    def __enter__(self):
        import io

        self._old = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self._old


# --------------------------------------------------------------------------------------------------------- parent


def _spawn(prop, sub, shard, tier, seed, out, exts, replay=None):
    env = dict(os.environ)
    env["XLA_FLAGS"] = env.get("XLA_FLAGS", "") + " --xla_cpu_multi_thread_eigen=false"
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
    env["TF_CPP_MIN_LOG_LEVEL"] = "3"
    env["TMPDIR"] = os.path.dirname(out)
    env["MPLCONFIGDIR"] = os.path.dirname(out)
    ext = exts["asan" if sub.san else "plain"] if sub.ext else None
    if sub.san:
        lib = [
            subprocess.run(["gcc", f"-print-file-name=lib{n}.so"], capture_output=True, text=True).stdout.strip()
            for n in ("asan", "ubsan", "stdc++")
        ]
        env["LD_PRELOAD"] = " ".join(lib)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:alloc_dealloc_mismatch=0:handle_segv=1"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=0"
    args = {
        "prop": prop, "subname": sub.name, "shard": shard, "tier": tier, "seed": seed, "out": out, "replay": replay,
        "ext": ext,
    }  # fmt: skip
    with open(out + ".args", "w") as f:
        json.dump(args, f)
    log = open(out + ".log", "w")
    return subprocess.Popen(
        [_build.PYTHON, "-B", str(VERIF / "run.py"), "--child", out + ".args"],
        env=env, cwd=os.path.dirname(out), stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
    )  # fmt: skip


def _finish(proc, out, prop, sub, shard, started):
    """None while the child runs; otherwise its result, or a synthetic one when it died or hung."""
    rc = proc.poll()
    case = None
    try:
        case = json.loads(open(out + ".case").read())
    except (OSError, ValueError):
        pass
    if rc is None:
        try:
            age = time.time() - os.stat(out + ".case").st_mtime
        except OSError:
            age = 0.0
        if age > HANG:
            os.killpg(proc.pid, signal.SIGKILL)
            proc.wait()
            return {"sub": sub.name, "shard": shard, "evaluations": 1, "distinct_nontrivial": 0, "samples": [],
                    "keys": [], "failure": {"case": case, "error": f"the case did not end within {HANG:.0f} s"},
                    "wall_s": time.monotonic() - started}  # fmt: skip
        return None
    if rc == 0 and os.path.exists(out):
        return json.load(open(out))
    log = open(out + ".log").read()[-3000:]
    if (rc < 0 or rc == 134 or "Sanitizer" in log) and rc != -signal.SIGKILL and case is not None:
        return {"sub": sub.name, "shard": shard, "evaluations": 1, "distinct_nontrivial": 0, "samples": [], "keys": [],
                "failure": {"case": case, "error": f"the process died (status {rc}):\n{log}"},
                "wall_s": time.monotonic() - started}  # fmt: skip
    if rc == 1 and case is not None and "Failure in set" in log:
        return {"sub": sub.name, "shard": shard, "evaluations": 1, "distinct_nontrivial": 0, "samples": [], "keys": [],
                "failure": {"case": case, "error": f"the process exited (status {rc}):\n{log}"},
                "wall_s": time.monotonic() - started}  # fmt: skip
    raise RuntimeError(f"sub-check {sub.name} gave no answer (status {rc}):\n{log}")


def main(argv):
    if argv[:1] == ["--child"]:
        child(**json.load(open(argv[1])))
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--sub", default=None)
    ap.add_argument("--replay", default=None)
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    prop = a.property
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    procs = {}
    try:
        return _main(a, prop, t0, scratch, procs)
    except _build.BuildError as e:
        print(f"ERROR: /repo does not build:\n{e}")
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, prop, t0, scratch, procs):
    sys.path.insert(0, str(VERIF))
    mod = importlib.import_module(f"checks.{prop.lower()}")
    subs = [s for s in mod.SUBS if a.sub in (None, s.name)]
    replay = json.load(open(a.replay)) if a.replay else None
    if replay:
        subs = [s for s in mod.SUBS if s.name == replay["sub"]]
    exts = {}
    if any(s.ext and not s.san for s in subs):
        exts["plain"] = _build.build("plain")
    if any(s.ext and s.san for s in subs):
        exts["asan"] = _build.build("asan")
    jobs = [(s, k) for s in subs for k in range(1 if replay else s.shards)]
    results, errors = [], []
    pending = list(jobs)
    running = procs
    workers = max(2, min(8, os.cpu_count() or 2))
    found = False
    while pending or running:
        while pending and len(running) < workers and not found:
            if time.monotonic() - t0 > TOTAL[a.tier]:
                print(f"note: no time left for {len(pending)} sub-checks")
                pending.clear()
                break
            s, k = pending.pop(0)
            out = os.path.join(scratch, f"{s.name}-{k}.json")
            p = _spawn(prop, s, k, a.tier, a.seed, out, exts, replay["case"] if replay else None)
            running[p] = (out, s, k, time.monotonic())
        for p in list(running):
            out, s, k, st = running[p]
            try:
                r = _finish(p, out, prop, s, k, st)
            except RuntimeError as e:
                errors.append(str(e))
                del running[p]
                continue
            if r is not None:
                results.append(r)
                del running[p]
                if r["failure"]:
                    found = True
                    pending.clear()
        time.sleep(0.05)
    failures = [r for r in results if r["failure"]]
    if replay:
        for r in failures:
            print(r["failure"]["error"])
            print(f"VIOLATION property={prop} replay={os.path.abspath(a.replay)}")
        return 2 if errors else (1 if failures else 0)
    _evidence(a, prop, mod, results, t0)
    for e in errors:
        print("ERROR:", e)
    if failures:
        (VERIF / "replays").mkdir(exist_ok=True)
        for r in sorted(failures, key=lambda r: len(_key(r["failure"]["case"]))):
            h = hashlib.sha1(_key(r["failure"]["case"]).encode()).hexdigest()[:10]
            path = VERIF / "replays" / f"{prop}-{r['sub']}-{h}.json"
            path.write_text(
                json.dumps(
                    {"property": prop, "sub": r["sub"], "case": r["failure"]["case"], "error": r["failure"]["error"]},
                    indent=1,
                )
            )
            print(f"{r['sub']}: {r['failure']['error'][:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        return 2
    tot = sum(r["evaluations"] for r in results)
    print(f"{prop}: held on {tot} cases, {time.monotonic() - t0:.0f} s")
    return 0


def _evidence(a, prop, mod, results, t0):
    keys = {}
    for r in results:
        keys.setdefault(r["sub"], set()).update(r["keys"])
    samples = []
    for name in sorted({r["sub"] for r in results}):
        got = [c for r in results if r["sub"] == name for c in r["samples"]]
        for c in got[:2]:
            text = _key(c)
            samples.append({"sub": name, "case": c if len(text) < 1500 else text[:1500] + "..."})
    breakdown = {}
    for r in results:
        b = breakdown.setdefault(r["sub"], {"evaluations": 0, "enumerated": 0, "skipped_for_time": 0, "wall_s": 0.0})
        for k in b:
            b[k] = round(b[k] + r.get(k, 0), 2)
    for name, b in breakdown.items():
        b["distinct_nontrivial"] = len(keys[name])
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(len(k) for k in keys.values()),
            "rule": " || ".join(f"{s.name}: {s.rule}" for s in mod.SUBS),
            "samples": samples,
            "by_subcheck": breakdown,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": sum(1 for r in results if r["failure"]),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    tmp = VERIF / "evidence" / f".{prop}.tmp"
    tmp.write_text(json.dumps(ev, indent=1))
    os.rename(tmp, VERIF / "evidence" / f"{prop}.json")
