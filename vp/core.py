"""
Harness shared by all property checks.

A property module registers *subs*: a Hypothesis strategy producing a JSON-able
case, and a check function deciding it against an oracle.  Every random choice
is made by Hypothesis; a case is a pure description, so a failing case, once
shrunk, is written to a replay file and can be re-run without Hypothesis.
"""

import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue as queue_mod
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"

SUBS = {}  # property id -> list of Sub


def bootstrap():
    """make fvhoe (from /repo) and hypothesis importable"""
    signal.signal(signal.SIGALRM, on_alarm)
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        if os.path.isdir(PYVENV):
            sys.path.append(PYVENV)  # at the end: numpy etc. stay those of the venv
        else:
            for w in sorted(os.listdir(WHEELS)):
                if w.startswith(("hypothesis-", "sortedcontainers-", "attrs-")):
                    sys.path.append(os.path.join(WHEELS, w))
    import numpy as np

    np.seterr(all="ignore")
    warnings.filterwarnings("ignore")
    import fvhoe

    assert os.path.abspath(list(fvhoe.__path__)[0]).startswith(REPO), fvhoe.__path__


class Violation(AssertionError):
    """the property does not hold for this case"""


class Reject(Exception):
    """the generated case is outside the domain of the property (discarded)"""


class Hang(BaseException):
    """a case did not finish"""


CASE_LIMIT_S = 150


def on_alarm(signum, frame):
    raise Hang(f"did not finish within {CASE_LIMIT_S} s")


class Sub:
    def __init__(self, prop, name, strategy, check, quick, thorough, chunk, fixed):
        self.prop, self.name = prop, name
        self.strategy, self.check = strategy, check
        self.quick, self.thorough, self.chunk = quick, thorough, chunk
        self.fixed = fixed


def sub(prop, strategy, quick, thorough=None, chunk=None, fixed=()):
    """
    decorator registering check(case) -> info dict or None
        info: {"nontrivial": bool, "label": str}; raises on a violation
    quick, thorough: number of generated cases
    fixed: cases which are always run
    """

    def deco(fn):
        q = quick
        th = thorough if thorough is not None else 12 * quick
        SUBS.setdefault(prop, []).append(
            Sub(prop, fn.__name__, strategy, fn, q, th, chunk, list(fixed))
        )
        return fn

    return deco


# ---------------------------------------------------------------- assertions


def ensure(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(a, b, rtol=1e-10, atol=0.0, scale=None, what=""):
    """
    assert |a-b| <= atol + rtol*scale elementwise; scale defaults to the largest
    finite magnitude of a and b. nan and inf never pass.
    """
    import numpy as np

    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shapes {a.shape} and {b.shape} differ")
    if a.size == 0:
        return 0.0
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        bad = np.argwhere(~(np.isfinite(a) & np.isfinite(b)))[0]
        raise Violation(
            f"{what}: non-finite values at {bad.tolist()}: "
            f"{a[tuple(bad)]!r} vs {b[tuple(bad)]!r}"
        )
    if scale is None:
        scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
    err = np.abs(a - b)
    tol = atol + rtol * np.asarray(scale)
    bad = err > tol
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.where(bad, err, -1)), err.shape)
        t = np.broadcast_to(tol, err.shape)[i]
        raise Violation(
            f"{what}: at {tuple(int(j) for j in i)} {a[i]!r} != {b[i]!r} "
            f"(error {err[i]:.3e}, tolerance {t:.3e}, {int(bad.sum())} of {bad.size} differ)"
        )
    return float(np.max(err / np.maximum(scale, 1e-300)))


def raises(fn, excs=(Exception,), what=""):
    """assert fn() raises one of excs"""
    try:
        fn()
    except excs:
        return
    raise Violation(f"{what}: expected an error, none was raised")


# ---------------------------------------------------------------- execution


@contextlib.contextmanager
def poisoned_empty():
    """
    uninitialised arrays start as nan, so that data nobody assigned is visible and
    a failure caused by it reproduces
    """
    import numpy as np

    empty, empty_like = np.empty, np.empty_like

    def fill(a):
        if isinstance(a, np.ndarray) and a.dtype.kind == "f":
            a.fill(np.nan)
        return a

    def p_empty(*a, **k):
        return fill(empty(*a, **k))

    def p_empty_like(*a, **k):
        return fill(empty_like(*a, **k))

    np.empty, np.empty_like = p_empty, p_empty_like
    try:
        yield
    finally:
        np.empty, np.empty_like = empty, empty_like


def in_fvhoe(tb):
    """whether the traceback passes through the code under test"""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def run_case(s, case):
    """decide one case; returns info, raises Violation / Reject, or another error"""
    import numpy as np

    with poisoned_empty(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        signal.alarm(CASE_LIMIT_S)
        try:
            info = s.check(case)
        except (Violation, Reject, Hang, KeyboardInterrupt):
            raise
        except BaseException as e:
            if in_fvhoe(e.__traceback__):
                last = traceback.extract_tb(e.__traceback__)[-1]
                raise Violation(
                    f"unexpected {type(e).__name__}: {e} "
                    f"({os.path.relpath(last.filename, REPO)}:{last.lineno})"
                ) from e
            # results the oracle cannot even process (wrong type, shape, missing data)
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                f"the result cannot be examined: {type(e).__name__}: {e} "
                f"({os.path.basename(last.filename)}:{last.lineno})"
            ) from e
        finally:
            signal.alarm(0)
    return info or {}


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def derived_seed(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_chunk(s, n, seed, deadline):
    """run n generated cases of sub s; returns a result dict"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 25
    res = dict(
        sub=s.name, evals=0, rejects=0, hashes=[], samples=[], labels={}, fail=None
    )
    state = dict(last=None, first_fail_t=None)

    class OutOfTime(BaseException):
        pass

    def test(case):
        if res["fail"] is None and time.time() > deadline:
            raise OutOfTime
        try:
            info = run_case(s, case)
        except Reject:
            res["rejects"] += 1
            hypothesis.reject()
        except Hang as e:
            # not shrunk: every attempt could take as long
            if res["fail"] is None:
                res["fail"] = dict(case=case, msg=str(e))
            raise
        except Violation as e:
            res["fail"] = dict(case=case, msg=str(e))
            raise
        if state["last"] is None:
            res["evals"] += 1
            lab = info.get("label", "")
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
            if info.get("nontrivial", True):
                res["hashes"].append(case_hash(case))
                if len(res["samples"]) < 2:
                    res["samples"].append(case)

    runner = given(s.strategy)(test)
    runner = hypothesis.seed(seed)(runner)
    runner = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        verbosity=hypothesis.Verbosity.quiet,
    )(runner)
    try:
        runner()
    except OutOfTime:
        res["out_of_time"] = True
    except (Violation, Hang):
        pass
    except BaseException as e:
        if res["fail"] is None:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            raise
    return res


def worker(prop, tasks, results, tmp):
    """worker process"""
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    os.chdir(tmp)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    while True:
        try:
            task = tasks.get()
        except EOFError:
            return
        if task is None:
            return
        si, n, seed, deadline, fixed = task
        s = SUBS[prop][si]
        try:
            if fixed is not None:
                res = dict(
                    sub=s.name, evals=0, rejects=0, hashes=[], samples=[], labels={}, fail=None
                )
                try:
                    info = run_case(s, fixed)
                    res["evals"] = 1
                    if info.get("nontrivial", True):
                        res["hashes"] = [case_hash(fixed)]
                except Reject:
                    res["rejects"] = 1
                except (Violation, Hang) as e:
                    res["fail"] = dict(case=fixed, msg=str(e))
            else:
                res = run_chunk(s, n, seed, deadline)
        except BaseException:
            results.put((si, None, traceback.format_exc()))
            continue
        results.put((si, res, None))


def load(prop):
    bootstrap()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    importlib.import_module("props." + prop.lower())
    return SUBS[prop]


# how often the quick counts of the modules are taken
QUICK_SCALE = dict(
    C02=2, C03=5, C05=5, C06=2, C07=4, C08=5, C09=5, C10=4, C11=2.5, C12=2, C13=5, C14=2, C15=2, C16=4.5, C17=5.5, C18=5,
    C19=2.5, C20=2.2, C21=2, C22=7, C23=3, C24=2.5, C25=3, C26=5, C27=3, C28=1.3, C29=4.5, C30=1.6,
)


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)


def main_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    subs = load(prop)
    nproc = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    budget = {"quick": 420.0, "thorough": 3.0 * 3600}[tier]
    if os.environ.get("VERIF_BUDGET_S"):
        budget = float(os.environ["VERIF_BUDGET_S"])
    deadline = t0 + budget
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    if tier == "quick":
        scale *= QUICK_SCALE.get(prop, 1)

    # tasks
    tasks = []
    for si, s in enumerate(subs):
        for case in s.fixed:
            tasks.append((si, 1, 0, deadline, case))
    gen = []
    for si, s in enumerate(subs):
        total = max(1, int(round(scale * (s.quick if tier == "quick" else s.thorough))))
        chunk = s.chunk or max(1, -(-total // nproc))
        if tier == "thorough":
            chunk = max(chunk, 40) if s.chunk is None else s.chunk
            chunk = min(chunk, 400)
        k, left = 0, total
        while left > 0:
            n = min(chunk, left)
            gen.append((k, (si, n, derived_seed(seed, prop, s.name, k), deadline, None)))
            left -= n
            k += 1
    gen.sort(key=lambda g: g[0])
    tasks += [g[1] for g in gen]

    tmp = tempfile.mkdtemp(prefix=f"vp_{prop}_")
    os.environ["VP_TMP"] = tmp
    ctx = mp.get_context("fork")
    tq, rq = ctx.Queue(), ctx.Queue()
    for t in tasks:
        tq.put(t)
    for _ in range(nproc):
        tq.put(None)
    procs = [
        ctx.Process(target=worker, args=(prop, tq, rq, tmp), daemon=True)
        for _ in range(nproc)
    ]
    for p in procs:
        p.start()

    agg = {s.name: dict(evals=0, rejects=0, labels={}) for s in subs}
    hashes, samples, errors, fails = set(), [], [], []
    pending, out_of_time = len(tasks), False
    try:
        while pending:
            try:
                si, res, err = rq.get(timeout=1.0)
            except queue_mod.Empty:
                if not any(p.is_alive() for p in procs) and rq.empty():
                    errors.append("worker processes died")
                    break
                if time.time() > deadline + 240:
                    errors.append("workers did not finish in time")
                    break
                continue
            pending -= 1
            if err is not None:
                errors.append(err)
                break
            a = agg[res["sub"]]
            a["evals"] += res["evals"]
            a["rejects"] += res["rejects"]
            for k, v in res["labels"].items():
                a["labels"][k] = a["labels"].get(k, 0) + v
            hashes.update(res["sub"] + h for h in res["hashes"])
            for c in res["samples"]:
                if sum(1 for x in samples if x["sub"] == res["sub"]) < 3:
                    samples.append(dict(sub=res["sub"], case=c))
            out_of_time |= bool(res.get("out_of_time"))
            if res["fail"] is not None:
                fails.append((res["sub"], res["fail"]))
                break
    finally:
        for p in procs:
            if fails or errors or pending:
                p.terminate()
        for p in procs:
            p.join(5)
            if p.is_alive():
                p.kill()
                p.join(5)
        shutil.rmtree(tmp, ignore_errors=True)

    # known findings are excluded by construction in the property modules; they are
    # listed here, once each, if the module confirms that they still occur
    mod = sys.modules["props." + prop.lower()]
    known_lines = []
    if not fails and not errors and hasattr(mod, "confirm_known"):
        known_lines = mod.confirm_known(
            [k for k in known_findings()["known"] if k["property"] == prop]
        )

    wall = time.time() - t0
    violations = []
    if fails:
        name, fail = fails[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, f"{prop}-{name}.json")
        with open(rpath, "w") as f:
            json.dump(
                dict(property=prop, sub=name, message=fail["msg"], case=fail["case"]),
                f,
                indent=1,
            )
        violations.append(f"{name}: {fail['msg']} replay={rpath}")
    total = sum(a["evals"] for a in agg.values())
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=total,
            distinct_nontrivial=len(hashes),
            rule=getattr(mod, "RULE", "every generated case that was not discarded"),
            samples=[json.dumps(s)[:1500] for s in samples[:12]],
            per_sub=agg,
            stopped_by_time_budget=out_of_time,
        ),
        wall_s=round(wall, 2),
        violations=len(violations),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
    )
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for line in known_lines:
        print(line)
    print(
        f"{prop} {tier} seed={seed}: {total} cases, {len(hashes)} distinct non-trivial, "
        f"{sum(a['rejects'] for a in agg.values())} discarded, {wall:.1f} s"
        + (" (time budget hit)" if out_of_time else "")
    )
    if os.environ.get("VERIF_VERBOSE"):
        for k, a in agg.items():
            print("  ", k, a)
    if fails:
        name, fail = fails[0]
        print(f"{name}: {fail['msg']}")
        print(f"VIOLATION property={prop} replay={rpath}")
        return 1
    if errors:
        print("HARNESS ERROR", file=sys.stderr)
        print(errors[0], file=sys.stderr)
        return 3
    return 0


def main_replay(path):
    with open(path) as f:
        r = json.load(f)
    subs = load(r["property"])
    s = next(x for x in subs if x.name == r["sub"])
    tmp = tempfile.mkdtemp(prefix="vp_replay_")
    os.environ["VP_TMP"] = tmp
    try:
        run_case(s, r["case"])
    except (Violation, Hang) as e:
        print(f"{s.name}: {e}")
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("the property holds for this case")
    return 0
