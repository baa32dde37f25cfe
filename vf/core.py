"""Generated-input check driver: runs sub-checks with Hypothesis in forked shards, shrinks, writes evidence."""

import contextlib
import gc
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VF_REPO", "/repo")


class Violation(Exception):
    """The property is broken for the current case."""


class HarnessError(Exception):
    """The machinery itself failed."""


class Hang(BaseException):
    """The case did not finish within its (very generous) budget."""


class Sub:
    """One generated-input check of a property.

    strategy: zero-argument callable returning a Hypothesis strategy producing JSON-able cases.
    run(case): raises Violation, or returns a collection of labels; the label "nt" marks a non-trivial case.
    quick/thorough: number of cases over all shards.
    """

    def __init__(self, name, strategy, run, quick, thorough=None, shards=4, cpu=60, wall=150, fixed=(), crashy=False,
                 budget=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.cpu = cpu
        self.wall = wall
        self.fixed = list(fixed)  # cases always run first (regressions of repaired defects, boundary cases)
        self.crashy = crashy  # the case is written to disk before it runs (the process may die)
        self.budget = budget


_scratch_root = None


def scratch_root():
    """Directory (removed at the end of the run) under which every case puts its files."""
    global _scratch_root
    if _scratch_root is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scratch_root = Path(tempfile.mkdtemp(prefix="vf_", dir=base))
    return _scratch_root


_scratch_n = 0


@contextlib.contextmanager
def scratch():
    global _scratch_n
    _scratch_n += 1
    d = scratch_root() / f"c{os.getpid()}_{_scratch_n}"
    d.mkdir()
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _from_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    c = exc.__cause__
    return c is not None and _from_repo(c)


def _shape(exc):
    """The oracle stumbled over output of an unexpected shape (None instead of a list, a missing entry, ...)."""
    text = str(exc)
    if isinstance(exc, TypeError):
        return "argument" not in text
    if isinstance(exc, AttributeError):
        return "'NoneType' object" in text
    return isinstance(exc, (KeyError, IndexError, ValueError))


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {short(got)}, want {short(want)}")


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


@contextlib.contextmanager
def sut(what):
    """Calls into the code under test that must not raise."""
    try:
        yield
    except (Violation, HarnessError):
        raise
    except Exception as e:
        raise Violation(f"{what}: unexpected {type(e).__name__}: {e}\n{tb_tail(e)}") from e


def tb_tail(e, n=6):
    return "".join(traceback.format_exception(type(e), e, e.__traceback__)[-n:])


def in_child(fn):
    """fn() executed in a forked child. Raises the child's Violation/HarnessError; other exceptions are harness errors."""
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                out = ("ok", fn())
            except Violation as e:
                out = ("violation", str(e))
            except BaseException as e:  # noqa: BLE001
                out = ("violation" if _from_repo(e) or _shape(e) else "harness", f"{type(e).__name__}: {e}\n{tb_tail(e, 10)}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    finally:
        with contextlib.suppress(ProcessLookupError):
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    require(data, "the process executing the code under test died")
    kind, out = pickle.loads(data)
    if kind == "violation":
        raise Violation(out)
    if kind == "harness":
        raise HarnessError(out)
    return out


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _on_cpu(signum, frame):
    raise Hang("cpu")


def _on_wall(signum, frame):
    raise Hang("wall")


@contextlib.contextmanager
def limits(sub):
    """A case normally takes milliseconds; these limits are orders of magnitude above that."""
    old1 = signal.signal(signal.SIGVTALRM, _on_cpu)
    old2 = signal.signal(signal.SIGALRM, _on_wall)
    signal.setitimer(signal.ITIMER_VIRTUAL, sub.cpu)
    signal.setitimer(signal.ITIMER_REAL, sub.wall)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGVTALRM, old1)
        signal.signal(signal.SIGALRM, old2)


def seed_rngs():
    """Code under test seeds the global generators itself; start every case from the same state."""
    import numpy as np

    random.seed(12345)
    np.random.seed(12345)


_cases = 0


def run_case(sub, case):
    """Run one case. Returns labels; raises Violation/HarnessError/Hang."""
    seed_rngs()
    env_hash = os.environ.get("PYTHONHASHSEED")
    try:
        with limits(sub):
            labels = sub.run(case)
    except (Violation, HarnessError, Hang):
        raise
    except Exception as e:
        import hypothesis

        if isinstance(e, hypothesis.errors.HypothesisException):
            raise
        if _from_repo(e):
            raise Violation(f"unexpected {type(e).__name__}: {e}\n{tb_tail(e, 8)}") from e
        if _shape(e):
            raise Violation(f"the result cannot be interpreted: {type(e).__name__}: {e}\n{tb_tail(e, 8)}") from e
        raise HarnessError(f"{type(e).__name__}: {e}\n{tb_tail(e, 12)}") from e
    finally:
        if env_hash is not None:
            os.environ["PYTHONHASHSEED"] = env_hash
        global _cases
        _cases += 1
        if not gc.isenabled() and _cases % 16 == 0:
            gc.collect()
    return set(labels or ())


def controlled_gc():
    """Garbage is collected between cases only: abandoned readers of compressed files join their threads when finalised, which
    deadlocks (in CPython's threading module) if a collection happens to start within a thread that is just ending."""
    gc.collect()
    gc.freeze()
    gc.disable()


class Stats:
    def __init__(self):
        self.evals = 0
        self.seen = set()
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.skipped = 0
        self.unreproduced = 0

    def add(self, case, labels):
        self.evals += 1
        h = hashlib.md5(canon(case).encode()).hexdigest()
        self.seen.add(h)
        for label in labels:
            self.labels[label] = self.labels.get(label, 0) + 1
        if "nt" in labels and h not in self.nontrivial:
            self.nontrivial.add(h)
            text = canon(case)
            if len(self.samples) < 3 and len(text) < 3000:
                self.samples.append(case)

    def dump(self):
        return {"evals": self.evals, "distinct": len(self.seen), "nontrivial": sorted(self.nontrivial),
                "labels": self.labels, "samples": self.samples, "skipped": self.skipped,
                "unreproduced": self.unreproduced}


SHRINK_BUDGET = 60.0


def drive(sub, seed, n, budget, case_file=None):
    """Run n generated cases in this process. Returns (stats, failure or None, error or None)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = Stats()
    best = {}
    t0 = time.monotonic()
    first_fail_at = [None]

    def record(case, msg):
        text = canon(case)
        if "case" not in best or len(text) <= len(best["text"]):
            best.update(case=case, msg=msg, text=text)

    def body(case):
        case = json.loads(json.dumps(case))
        now = time.monotonic()
        if first_fail_at[0] is None and now - t0 > budget:
            stats.skipped += 1
            return
        if first_fail_at[0] is not None and now - first_fail_at[0] > SHRINK_BUDGET:
            raise HarnessError("shrink budget")
        if case_file is not None and sub.crashy:
            case_file.write_text(json.dumps(case))
        try:
            labels = run_case(sub, case)
        except Violation as v:
            if first_fail_at[0] is None:
                first_fail_at[0] = time.monotonic()
            record(case, str(v))
            raise
        except Hang as h:
            best.update(case=case, msg=f"no progress: the case did not finish ({h} budget)", text=canon(case), hang=True)
            raise
        if first_fail_at[0] is None:
            stats.add(case, labels)

    for case in sub.fixed if seed % 1000 == 0 else []:
        try:
            stats.add(case, run_case(sub, json.loads(json.dumps(case))))
        except Violation as v:
            return stats, {"case": case, "msg": "fixed case: " + str(v)}, None
        except Hang as h:
            return stats, {"case": case, "msg": f"fixed case: no progress ({h} budget)"}, None
        except HarnessError as e:
            return stats, None, str(e)

    test = settings(
        max_examples=max(n, 1), database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), print_blob=False,
    )(hypothesis.seed(seed)(given(sub.strategy())(body)))
    error = None
    with contextlib.redirect_stdout(sys.stderr):
        try:
            test()
        except Hang:
            pass
        except BaseException as e:  # noqa: BLE001 - Violation, Flaky, HarnessError, ...
            if "case" not in best:
                error = tb_tail(e, 20)
    if "case" not in best:
        return stats, None, error
    # Confirm on a fresh run of the smallest failing case.
    for _ in range(1 if best.get("hang") else 4):
        try:
            run_case(sub, best["case"])
        except Violation as v:
            return stats, {"case": best["case"], "msg": str(v)}, None
        except Hang as h:
            return stats, {"case": best["case"], "msg": f"no progress: the case did not finish ({h} budget)"}, None
        except HarnessError as e:
            error = str(e)
    stats.unreproduced += 1
    return stats, None, error


def _shard_main(sub, seed, n, budget, out, case_file):
    res = {}
    controlled_gc()
    try:
        stats, failure, error = drive(sub, seed, n, budget, case_file)
        res = dict(stats.dump(), failure=failure, error=error)
    except BaseException as e:  # noqa: BLE001
        res = dict(Stats().dump(), failure=None, error="shard: " + tb_tail(e, 20))
    out.write_text(json.dumps(res))


def kill_group(pid):
    with contextlib.suppress(ProcessLookupError, PermissionError):
        os.killpg(pid, signal.SIGKILL)


def run_shards(jobs, limit):
    """jobs: list of (key, callable(out_path, case_file)). Runs them on all cores; returns {key: result}."""
    root = scratch_root()
    pending = list(jobs)
    running = {}
    results = {}
    width = max(2, os.cpu_count() or 2)
    t0 = time.monotonic()
    while pending or running:
        while pending and len(running) < width:
            key, fn = pending.pop(0)
            out = root / f"out_{key}.json"
            cf = root / f"case_{key}.json"
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    global _scratch_root
                    _scratch_root = root
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    if not os.environ.get("VF_DEBUG"):
                        os.dup2(devnull, 1)
                        os.dup2(devnull, 2)
                    fn(out, cf)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 3
                os._exit(code)
            with contextlib.suppress(OSError):
                os.setpgid(pid, pid)
            running[pid] = (key, out, cf, time.monotonic())
        done = []
        for pid, (key, out, cf, started) in running.items():
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                done.append((pid, status))
            elif time.monotonic() - t0 > limit:
                kill_group(pid)
                os.waitpid(pid, 0)
                done.append((pid, None))
        for pid, status in done:
            key, out, cf, started = running.pop(pid)
            kill_group(pid)  # nothing the case started outlives it
            res = None
            if out.exists():
                try:
                    res = json.loads(out.read_text())
                except ValueError:
                    res = None
            if res is None:
                res = dict(Stats().dump(), failure=None, error=None)
                if status is None:
                    res["timeout"] = True
                else:
                    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
                    res["died"] = sig or f"exit {os.WEXITSTATUS(status)}"
                    if cf.exists():
                        res["case"] = json.loads(cf.read_text())
            results[key] = res
        if not done:
            time.sleep(0.02)
        if time.monotonic() - t0 > limit:
            for key, _ in pending:
                results[key] = dict(Stats().dump(), failure=None, error=None, timeout=True)
            pending = []
    return results


def load_known():
    p = VERIF / "known_findings.json"
    return json.loads(p.read_text()) if p.exists() else []


def main(argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--sub")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    pid = args.property
    t0 = time.monotonic()
    code = 2
    try:
        code = _main(pid, args, tier, seed, t0)
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = 2
    finally:
        if _scratch_root is not None:
            shutil.rmtree(_scratch_root, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def _main(pid, args, tier, seed, t0):
    from vf import boot  # noqa: F401

    mod = importlib.import_module(f"vf.checks.{pid.lower()}")
    subs = {s.name: s for s in mod.SUBS}
    if args.sub and not args.replay:
        subs = {k: v for k, v in subs.items() if k in args.sub.split(",")}

    if args.replay:
        data = json.loads(Path(args.replay).read_text())
        sub = subs[data["sub"]]
        scratch_root()
        if hasattr(mod, "prepare"):
            mod.prepare(tier)
        try:
            labels = run_case(sub, data["case"])
        except Violation as v:
            print(f"replayed: {v}")
            print(f"VIOLATION property={pid} replay={args.replay}")
            return 1
        except Hang as h:
            print(f"replayed: no progress ({h})")
            print(f"VIOLATION property={pid} replay={args.replay}")
            return 1
        print(f"replay passes; labels {sorted(labels)}")
        return 0

    scratch_root()
    if hasattr(mod, "prepare"):
        mod.prepare(tier)

    # Known findings: replay each listed input; a listed failure is reported as such, never as a violation.
    known = [k for k in load_known() if k["property"] == pid and k.get("status") == "finding"]
    jobs = []
    plan = {}
    for si, sub in enumerate(subs.values()):
        total = args.examples or (sub.quick if tier == "quick" else sub.thorough)
        shards = min(sub.shards if tier == "quick" else max(sub.shards, 8), total)
        budget = sub.budget or (90.0 if tier == "quick" else 1200.0)
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            s = (seed * 100 + si) * 1000 + k
            key = f"{sub.name}.{k}"
            plan[key] = sub
            jobs.append((key, lambda out, cf, sub=sub, s=s, n=n, b=budget: _shard_main(sub, s, n, b, out, cf)))
    for i, k in enumerate(known):
        sub = subs[k["sub"]]
        jobs.append((f"known.{i}", lambda out, cf, sub=sub, c=k["case"]: _known_main(sub, c, out)))
    limit = 780.0 if tier == "quick" else 3000.0
    results = run_shards(jobs, limit)

    for i, k in enumerate(known):
        r = results.pop(f"known.{i}")
        if r.get("failure"):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")

    failures, errors = [], []
    agg = {}
    for key, r in results.items():
        sub = plan[key]
        a = agg.setdefault(sub.name, {"evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [], "skipped": 0,
                                      "unreproduced": 0, "timeouts": 0})
        a["evaluations"] += r["evals"]
        a["nontrivial"].update(r["nontrivial"])
        for label, c in r["labels"].items():
            a["labels"][label] = a["labels"].get(label, 0) + c
        a["samples"].extend(r["samples"][: max(0, 3 - len(a["samples"]))])
        a["skipped"] += r["skipped"]
        a["unreproduced"] += r["unreproduced"]
        if r.get("timeout"):
            a["timeouts"] += 1
        if r.get("failure"):
            failures.append((sub.name, r["failure"]))
        elif r.get("died") is not None:
            if r.get("case") is not None:
                failures.append((sub.name, {"case": r["case"], "msg": f"process died: signal {r['died']}"}))
            else:
                errors.append(f"{key}: shard died ({r['died']})")
        elif r.get("error"):
            errors.append(f"{key}: {r['error']}")

    extra = mod.extra(tier) if hasattr(mod, "extra") else None
    violations = []
    rdir = VERIF / "replays"
    seen = set()
    for name, f in sorted(failures, key=lambda x: len(canon(x[1]["case"]))):
        if name in seen:
            continue
        seen.add(name)
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{pid}_{name}_{hashlib.md5(canon(f['case']).encode()).hexdigest()[:10]}.json"
        path.write_text(json.dumps({"property": pid, "sub": name, "case": f["case"], "message": f["msg"]}, indent=1))
        violations.append((name, f, path))

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(a["evaluations"] for a in agg.values()),
            "distinct_nontrivial": sum(len(a["nontrivial"]) for a in agg.values()),
            "rule": mod.RULE,
            "samples": [{"sub": n, "case": s} for n, a in agg.items() for s in a["samples"][:2]],
            "per_generator": {n: {"evaluations": a["evaluations"], "distinct_nontrivial": len(a["nontrivial"]),
                                  "labels": dict(sorted(a["labels"].items())), "not_run_time_budget": a["skipped"],
                                  "unreproduced_failures": a["unreproduced"], "shards_out_of_time": a["timeouts"]}
                              for n, a in agg.items()},
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    if extra:
        ev["coverage"].update(extra)
    if not args.no_evidence:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1))

    for n, a in agg.items():
        print(f"{pid}/{n}: {a['evaluations']} cases, {len(a['nontrivial'])} distinct non-trivial, "
              f"labels {dict(sorted(a['labels'].items()))}"
              + (f", {a['skipped']} not run (time budget)" if a["skipped"] else "")
              + (f", {a['timeouts']} shards out of time" if a["timeouts"] else ""))
    for name, f, path in violations:
        print(f"--- {pid}/{name}: {f['msg']}")
        print(f"    case: {short(f['case'], 1500)}")
        print(f"VIOLATION property={pid} replay={path}")
    if violations:
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e, file=sys.stderr)
        return 2
    print(f"{pid}: held on everything explored ({time.monotonic() - t0:.1f} s)")
    return 0


def _known_main(sub, case, out):
    res = dict(Stats().dump(), failure=None, error=None)
    try:
        run_case(sub, json.loads(json.dumps(case)))
    except (Violation, Hang) as v:
        res["failure"] = {"case": case, "msg": str(v)}
    except BaseException as e:  # noqa: BLE001
        res["error"] = str(e)
    out.write_text(json.dumps(res))


def join_threads(before):
    """Threads a case started must not outlive it."""
    for t in threading.enumerate():
        if t not in before and t is not threading.current_thread():
            t.join(5)
