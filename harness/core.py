"""Property runner: Hypothesis generates JSON-able cases, a task's ``check`` judges them, failures shrink to replay files."""
import contextlib, hashlib, json, logging, multiprocessing as mp, os, random, signal, sys, time, traceback, warnings

from . import deps  # noqa: F401
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings, strategies as st

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Violation(Exception):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The machinery, not the code under test, is at fault."""


class Reject(Exception):
    """The case is outside the property's domain (counted, not judged)."""


class _Abort(KeyboardInterrupt):
    """Leaves Hypothesis without being treated as a test failure."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(got, want, what, rtol=1e-6, atol=1e-8):
    import numpy as np
    try:
        g = np.asarray(got)
        w = np.asarray(want)
        if g.dtype == object:
            g = g.astype(float)
    except Exception as e:
        raise Violation(f"{what}: not an array: {got!r} ({e})")
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
        with np.errstate(all="ignore"):
            bad = ~np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        i = tuple(int(k) for k in np.argwhere(bad)[0]) if g.ndim else ()
        raise Violation(f"{what}: differs at {i}: got {g[i]!r}, expected {w[i]!r} ({int(bad.sum())} of {g.size} entries)")


@contextlib.contextmanager
def limit(seconds, what):
    """The code under test must answer within a (generous) time."""
    def stop(*_):
        raise Violation(f"{what}: no answer within {seconds} s")
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Ctx:
    """Per-case recorder."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.subevals = 0

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontriv(self, cond=True):
        if cond:
            self.nontrivial = True

    def count(self, n=1):
        self.subevals += n


class Task:
    """name; strategy() -> strategy of JSON-able dicts; check(case, ctx); n examples for (quick, thorough)."""

    def __init__(self, name, strategy, check, quick, thorough=None, soft_s=(170, 1500), shrink_s=(60, 200), shards=(1, 4)):
        self.name, self.strategy, self.check = name, strategy, check
        self.n = (quick, thorough if thorough is not None else quick * 8)
        self.soft_s, self.shrink_s, self.shards = soft_s, shrink_s, shards


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def quiet():
    warnings.simplefilter("ignore")
    for n in ("pytensor", "pytensor.graph.rewriting.basic"):
        logging.getLogger(n).setLevel(logging.CRITICAL)
    for n in ("pymc", "pymc.experimental.statespace", "arviz", "jax", "pymc_extras"):
        logging.getLogger(n).setLevel(logging.ERROR)


def judge(task, case, ctx):
    """Run one case. Returns None (held), or the message of a violation."""
    quiet()
    try:
        task.check(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except (Reject, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except (ImportError, OSError) as e:
        raise HarnessError(f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-6:]
        return f"unexpected {type(e).__name__} on a valid input: {str(e)[:600]} [{' < '.join(reversed(last))}]"


def _run_task(args):
    modname, task_name, shard, nshards = args
    import importlib
    mod = importlib.import_module(modname)
    task = {t.name: t for t in mod.TASKS}[task_name]
    ti = 1 if TIER == "thorough" else 0
    n = max(1, -(-task.n[ti] // nshards))
    t0 = time.time()
    out = dict(task=task_name, shard=shard, evals=0, subevals=0, rejected=0, hashes=set(), labels={}, samples=[], failure=None,
               error=None, stopped=False)
    state = dict(fail=None, t_fail=None)
    hseed = int(hashlib.sha256(f"{SEED}/{modname}/{task_name}/{shard}".encode()).hexdigest()[:12], 16)

    def body(case):
        now = time.time()
        if state["fail"] is not None and now - state["t_fail"] > task.shrink_s[ti]:
            raise _Abort()
        if state["fail"] is None and now - t0 > task.soft_s[ti]:
            out["stopped"] = True
            raise _Abort()
        ctx = Ctx()
        try:
            msg = judge(task, case, ctx)
        except Reject:
            out["rejected"] += 1
            return
        if state["fail"] is None:
            out["evals"] += 1
            out["subevals"] += ctx.subevals
            for l in set(ctx.labels):
                out["labels"][l] = out["labels"].get(l, 0) + 1
            if ctx.nontrivial:
                h = hashlib.sha1(canon(case).encode()).hexdigest()
                if h not in out["hashes"]:
                    out["hashes"].add(h)
                    if len(out["samples"]) < 2:
                        out["samples"].append(case)
        if msg is not None:
            if state["t_fail"] is None:
                state["t_fail"] = now
            if state["fail"] is None or len(canon(case)) <= len(canon(state["fail"][0])):
                state["fail"] = (case, msg)
            raise Violation(msg)

    test = hypothesis.seed(hseed)(
        settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False, print_blob=False,
                 phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))(given(task.strategy())(body)))
    try:
        random.seed(hseed)
        test()
    except (_Abort, Violation, hypothesis.errors.HypothesisException) as e:
        if state["fail"] is None and not isinstance(e, _Abort):
            out["error"] = f"{type(e).__name__}: {e}"
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, BaseExceptionGroup) and state["fail"] is not None:
            pass
        else:
            out["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    if state["fail"] is not None:
        out["failure"] = dict(case=state["fail"][0], msg=state["fail"][1])
    out["wall"] = time.time() - t0
    return out


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def known(key):
    """Is this finding listed (and not fixed)? Generators use it to leave the failing input class out."""
    return any(f["key"] == key and f["status"] == "open" for f in load_findings())


def main(argv):
    import argparse, importlib
    if argv[:1] == ["--self-test"]:
        import pymc_extras, pymc, numpy
        print("self-test ok: hypothesis", hypothesis.__version__, "pymc", pymc.__version__, "code under test", os.path.dirname(pymc_extras.__file__))
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--task")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--tier")
    a = ap.parse_args(argv)
    global TIER
    if a.tier:
        TIER = os.environ["VERIF_TIER"] = a.tier
    t0 = time.time()
    quiet()
    modname = f"checks.{a.prop.lower()}"
    try:
        import pymc_extras
        repo = os.environ.get("VERIF_REPO", "/repo")
        if not os.path.realpath(pymc_extras.__file__).startswith(os.path.realpath(repo) + os.sep):
            raise HarnessError(f"imported {pymc_extras.__file__}, not {repo}")
        mod = importlib.import_module(modname)
    except Exception:
        traceback.print_exc()
        return 2
    tasks = {t.name: t for t in mod.TASKS}
    if a.replay:
        r = json.load(open(a.replay))
        msg = judge(tasks[r["task"]], r["case"], Ctx())
        print("replay:", "VIOLATION " + msg if msg else "holds")
        return 1 if msg else 0
    rc = 0
    # known findings: probe each listed one deterministically
    for f in load_findings():
        if f["property"] == a.prop and f["status"] == "open":
            probe = mod.PROBES[f["key"]]
            quiet()
            try:
                still = probe()
            except Exception as e:
                still = f"raises {type(e).__name__}: {str(e)[:200]}"
            if still:
                print(f"KNOWN-FINDING: property={a.prop} {f['key']}: {f['what']}", flush=True)
            else:
                print(f"note: listed finding {f['key']} no longer fails", flush=True)
    ti = 1 if TIER == "thorough" else 0
    jobs = []
    for t in mod.TASKS:
        if a.task and t.name != a.task:
            continue
        jobs += [(modname, t.name, i, t.shards[ti]) for i in range(t.shards[ti])]
    if a.jobs <= 1 or len(jobs) == 1:
        results = [_run_task(j) for j in jobs]
    else:
        with mp.get_context("fork").Pool(min(a.jobs, len(jobs)), maxtasksperchild=1) as pool:
            results = pool.map(_run_task, jobs, chunksize=1)
    evals = sum(r["evals"] for r in results)
    subevals = sum(r["subevals"] for r in results)
    hashes = set().union(*[{r["task"] + h for h in r["hashes"]} for r in results])
    labels, per_task, samples, viol, errors = {}, {}, [], [], []
    for r in results:
        for k, v in r["labels"].items():
            labels[f"{r['task']}:{k}"] = labels.get(f"{r['task']}:{k}", 0) + v
        d = per_task.setdefault(r["task"], dict(evaluations=0, nontrivial=0, rejected=0, wall_s=0.0, stopped_early=0))
        d["evaluations"] += r["evals"]; d["nontrivial"] += len(r["hashes"]); d["rejected"] += r["rejected"]
        d["wall_s"] = round(d["wall_s"] + r["wall"], 1); d["stopped_early"] += int(r["stopped"])
        if r["shard"] == 0:
            samples += [dict(task=r["task"], case=c) for c in r["samples"][:1]]
        if r["error"]:
            errors.append(f"{r['task']}: {r['error']}")
        if r["failure"]:
            viol.append((r["task"], r["failure"]))
    for task, f in viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha1(canon(f["case"]).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", f"{a.prop}-{task}-{h}.json")
        json.dump(dict(property=a.prop, task=task, message=f["msg"], case=f["case"],
                       how=f"./check {a.prop} --replay {path}"), open(path, "w"), indent=1, default=str)
        print(f"VIOLATION property={a.prop} replay={path}")
        print(f"  {task}: {f['msg']}"[:1500])
        print(f"  case: {canon(f['case'])[:1500]}", flush=True)
        rc = 1
    for e in errors:
        print("HARNESS-ERROR", e, flush=True)
    if errors and not viol:
        rc = 2
    ev = dict(property=a.prop, tier=TIER, seed=SEED, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=" ".join(mod.RULE.split()), samples=samples[:8],
                            judged_points=subevals, per_task=per_task, classes=dict(sorted(labels.items()))),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not a.task:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    print(f"{a.prop} tier={TIER} seed={SEED} cases={evals} nontrivial={len(hashes)} points={subevals} violations={len(viol)} "
          f"wall={ev['wall_s']}s", flush=True)
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(per_task, indent=1)); print(json.dumps(ev["coverage"]["classes"], indent=1))
    return rc
