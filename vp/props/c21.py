"""C21: saved runs load back identically and are never clobbered"""

import json
import os
import pickle
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

import common
import gen
from core import Reject, ensure, raises, sub
from fvhoe import initial_conditions as ics
from fvhoe.boundary_conditions import BoundaryCondition
from fvhoe.scripting import EulerSolver_wrapper
from fvhoe.solver import EulerSolver

RULE = (
    "histories of up to 6 save / load / overwrite / failing-run requests by solvers of 2 random configurations (all kinds "
    "of initial data, boundaries, bounds, scalars, limiting) over 2 directories in a scratch folder, compared with "
    "a model of the directory contents (bytes, time stamps, unpickled entries); non-trivial if a saved run was read "
    "back or replaced"
)
ASSUMPTIONS = ["the two files that hold measured run times are not compared between runs"]

PATHS = ["a", "b/", "deep/er/c", "./d/../a", "with space/é"]


@st.composite
def config(draw):
    case = draw(
        gen.problem(
            bc=["periodic2", "free", "outflow", "dirichlet"],
            amps=(0.02, 0.1),
            nmax=(10, 5, 4),
            pmax=3,
        )
    )
    common.fix_periodic(case)
    case["tdep"] = draw(st.booleans())
    case["averages"] = draw(st.booleans())
    case["mode"] = draw(gen.pick("averages", "conservative", "primitive", "builtin"))
    case["ints"] = draw(st.booleans())
    case["with_bc"] = draw(st.booleans())
    if draw(st.integers(0, 5)) == 0:
        case["fixed_dt"] = 0.002
    case["opts"] = draw(
        st.sampled_from(
            [
                {},
                {"SED_tolerance": 0.0},
                {"csq_floor": 1e-8},
                {"slab_buffer_size": 20},
                {"density_floor": 1e-6, "pressure_floor": 1e-6},
            ]
        )
    )
    return case


@st.composite
def histories(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        ops.append(
            dict(
                op=draw(gen.pick("run", "run", "run", "again", "fail", "n", "stray", "plain")),
                cfg=draw(st.integers(0, 1)),
                path=draw(st.integers(0, len(PATHS) - 1)) if draw(st.booleans()) else 0,
                overwrite=draw(gen.pick(False, False, True)),
                T=draw(gen.pick(0.5, 1.0, 2.5)),
                beats=draw(st.integers(0, 3)),
                integ=draw(gen.pick("run", "euler", "ssprk2", "ssprk3", "rk4")),
                every=draw(gen.pick(False, False, True)),
                relative=draw(gen.pick(False, True, "bare")),
            )
        )
    return dict(cfgs=[draw(config()), draw(config())], ops=ops)


def make(case, helper=None, **over):
    """a fresh solver of the configuration"""
    u = gen.make_u(case)
    vals = common.dirichlet_values(case, u)
    kw = dict(
        bc=common.boundary(case, vals) if case["with_bc"] else None,
        snapshots_as_fv_averages=case["averages"],
        snapshot_helper_function=helper,
        **case["opts"],
    )
    if case["mode"] != "averages":
        F = gen.FieldFn(dict(case, field=dict(case["field"], kind="smooth")))

        def norm(x, y, z):
            return [(q - case["lo"][i]) / case["len"][i] for i, q in enumerate((x, y, z))]

        kw["fv_ic"] = False
        kw["conservative_ic"] = case["mode"] == "conservative"
        if case["mode"] == "builtin":
            kw["w0"] = ics.Sinus(dims="xyz", vx=0.3, vy=0.1)
        elif case["mode"] == "conservative":
            kw["w0"] = gen.FuncIC(fn=lambda x, y, z: gen.prim2cons(F(*norm(x, y, z)), case["gamma"])[:5])
        else:
            kw["w0"] = gen.FuncIC(fn=lambda x, y, z: F(*norm(x, y, z))[:5])
        names = gen.passive_names(case)
        if names:
            kw["w0_passives"] = {
                nm: (lambda x, y, z, i=i: F(*norm(x, y, z))[5 + i]) for i, nm in enumerate(names)
            }
    kw.update(over)
    return gen.build(case, u, **kw)


def same_entries(a, b, what):
    ensure(isinstance(a, list) and isinstance(b, list) and len(a) == len(b), f"{what}: {len(a)} and {len(b)} entries")
    for k, (x, y) in enumerate(zip(a, b)):
        ensure(set(x) == set(y), f"{what}: keys of entry {k} differ")
        for key in x:
            p, q = np.asarray(x[key]), np.asarray(y[key])
            ensure(p.shape == q.shape and p.dtype == q.dtype, f"{what}: '{key}' of entry {k} has another shape or type")
            ensure(np.array_equal(p, q, equal_nan=True), f"{what}: '{key}' of entry {k} differs")


def listing(root):
    """every file below root with content and time stamp"""
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = (fh.read(), os.stat(p).st_mtime_ns)
    return out


def strict(text):
    def bad(c):
        raise ValueError(c)

    return json.loads(text, parse_constant=bad)


def jsonable(v):
    if isinstance(v, (tuple, list)):
        return [jsonable(x) for x in v]
    return v


def check_metadata(path, case, s, integ):
    with open(os.path.join(path, "attrs.json")) as f:
        text = f.read()
    try:
        d = strict(text)
    except ValueError as e:
        ensure(False, f"attrs.json is not valid JSON: {e}")
    want = dict(
        n=case["n"],
        p=case["p"],
        gamma=case["gamma"],
        CFL=case["CFL"],
        riemann_solver_name=case["rs"],
        fixed_dt=case.get("fixed_dt"),
        x_domain=jsonable(gen.domain(case)[0]),
        y_domain=jsonable(gen.domain(case)[1]),
        z_domain=jsonable(gen.domain(case)[2]),
        conservative_ic=case["mode"] in ("averages", "conservative"),
        fv_ic=case["mode"] == "averages",
        snapshots_as_fv_averages=case["averages"],
        a_posteriori_slope_limiting=case["lim"] is not None,
        t=s.t,
        step_count=s.step_count,
        snapshot_times=[e["t"] for e in s.snapshots],
        nvars=5 + case["npass"],
        **case["opts"],
    )
    if integ is not None:
        want["integrator"] = integ
    if case["lim"] is not None:
        kw = gen.lim_kwargs(case["lim"])
        for key in ("slope_limiter", "NAD", "NAD_mode", "NAD_range", "SED", "convex"):
            want[key] = kw[key]
        want["NAD_vars"] = jsonable(kw.get("NAD_vars"))
        want["force_trouble"] = bool(kw.get("force_trouble"))
        pad = {"rho": (0.0, np.inf), "P": (0.0, np.inf)} if kw.get("PAD") is None else kw["PAD"]
        want["PAD"] = {
            k: [{np.inf: "inf", -np.inf: "-inf"}.get(x, x) for x in v] for k, v in pad.items()
        }
    for key, v in want.items():
        ensure(key in d, f"attrs.json lacks '{key}'")
        ensure(d[key] == v, f"attrs.json: '{key}' is {d[key]!r}, the run had {v!r}")
    bcs = case["bc"] if case["with_bc"] else {q: ["periodic", "periodic"] for q in "xyz"}
    for q in "xyz":
        ensure(d["bc"][q] == list(bcs[q]), f"attrs.json: boundaries {d['bc'][q]} instead of {bcs[q]}")


ORDER = {0: "euler", 1: "ssprk2", 2: "ssprk3"}


def integ_of(op, case):
    return op["integ"] if op["integ"] != "run" else ORDER.get(max(case["p"]), "rk4")


def args(s, op, dt):
    T = s.t + op["T"] * dt
    return dict(
        T=T,
        downbeats=[s.t + (j + 1) * op["T"] * dt / 4 for j in range(op["beats"])],
        log_every_step=op["every"],
    )


@sub("C21", histories(), quick=500, thorough=8000)
def directories(case):
    root = tempfile.mkdtemp(dir=os.environ.get("VP_TMP"))
    here = os.getcwd()
    try:
        os.chdir(root)
        return play(case, root)
    finally:
        os.chdir(here)
        shutil.rmtree(root, ignore_errors=True)


def play(case, root):
    base = os.path.join(root, "out")
    model = {}  # normalised path -> entries
    last = {}  # configuration -> last solver that computed
    hits = 0
    for op in case["ops"]:
        cfg = case["cfgs"][op["cfg"]]
        rel = PATHS[op["path"]]
        # an absolute name, one relative to the working directory, or a bare one
        if op["relative"] == "bare":
            os.makedirs(base, exist_ok=True)
            os.chdir(base)
            raw = rel
        else:
            os.chdir(root)
            raw = os.path.join("out" if op["relative"] else base, rel)
        path = os.path.normpath(os.path.join(root, "out", rel))
        before = listing(root)
        exists = path in model

        if op["op"] == "stray":
            # a file somebody left in the directory
            if exists:
                with open(os.path.join(path, "stray.bin"), "wb") as f:
                    f.write(b"old")
            continue

        if op["op"] == "again":
            s = last.get(op["cfg"])
            if s is None:
                continue
            over = op["overwrite"]
        else:
            calls = []

            def helper(s_, calls=calls):
                calls.append(len(s_.snapshots))
                if op["op"] == "fail" and len(calls) == 2:
                    raise ZeroDivisionError("injected")

            s = make(cfg, helper)
            over = op["overwrite"]
        dt = 0.01 if cfg.get("fixed_dt") is None else cfg["fixed_dt"]
        dt = min(dt, 2 * make(cfg).f(0.0, s.am("u").copy())[0])
        if not np.isfinite(dt):
            raise Reject
        kw = args(s, op, dt)
        go = getattr(s, op["integ"])

        if op["op"] == "plain":
            go(**kw)
            ensure(listing(root) == before, "a run that is not saved touched the disk")
            last[op["cfg"]] = s
            continue
        if op["op"] == "n":
            go(n=1, snapshot_dir=raw, overwrite=over)
            ensure(listing(root) == before, "a run given a step count touched the disk")
            continue
        if op["op"] == "fail" and not (exists and not over):
            raises(lambda: go(snapshot_dir=raw, overwrite=over, **kw), (ZeroDivisionError,), "injected fault")
            ensure(listing(root) == before, "a failing run changed what was saved")
            continue

        if exists and not over:
            n0, ev0, u0 = s.step_count, s.f_evaluation_count, s.am("u").copy()
            go(snapshot_dir=raw, overwrite=False, **kw)
            same_entries(s.snapshots, model[path], "entries read back")
            ensure(s.step_count == n0 and s.f_evaluation_count == ev0, "a saved run was recomputed")
            ensure(np.array_equal(s.am("u"), u0), "reading changed the state")
            ensure(listing(root) == before, "reading changed files")
            hits += 1
            continue

        # computed and saved
        prior = list(s.snapshots)
        if op["op"] != "again":
            twin = make(cfg)
            getattr(twin, op["integ"])(**kw)
        go(snapshot_dir=raw, overwrite=over, **kw)
        if not np.all(np.isfinite(s.am("u"))):
            raise Reject
        if op["op"] != "again":
            same_entries(s.snapshots, twin.snapshots, "a saved and an unsaved run")
            ensure(np.array_equal(s.am("u"), twin.am("u")), "saving changed the state")
        else:
            same_entries(s.snapshots[: len(prior)], prior, "entries of the first run")
            ensure(len(s.snapshots) > len(prior), "a continued run logs entries")
        ensure(
            sorted(os.listdir(path)) == ["arrs.pkl", "attrs.json", "timing.txt"],
            f"the directory holds {sorted(os.listdir(path))}",
        )
        with open(os.path.join(path, "arrs.pkl"), "rb") as f:
            saved = pickle.load(f)
        same_entries(saved, s.snapshots, "entries on disk")
        check_metadata(path, cfg, s, integ_of(op, cfg))
        with open(os.path.join(path, "timing.txt")) as f:
            ensure("TOTAL" in f.read(), "timing report")
        after = listing(root)
        inside = os.path.relpath(path, root) + os.sep
        for name in set(before) | set(after):
            if not name.startswith(inside):
                ensure(before.get(name) == after.get(name), f"saving changed {name}")
        hits += exists
        model[path] = saved
        last[op["cfg"]] = s
    return dict(nontrivial=hits > 0, label=f"{len(case['ops'])} requests")


# ------------------------------------------------------------------ scripted wrapper


@st.composite
def scripts(draw):
    n = draw(gen.pick(4, 6, 9))
    return dict(
        nx=n,
        ny=draw(gen.pick(4, 5, 7)),
        p=draw(st.integers(0, 3)),
        T=draw(gen.pick(0.01, 0.03)),
        integ=draw(gen.pick(-1, 1, 2, 3, 4)),
        k=draw(st.integers(2, 4)),
        lim=draw(st.booleans()),
        gamma=draw(gen.pick(1.4, 5 / 3)),
        pref=draw(gen.pick("kh", "a b", "x-1.0")),
        free=draw(st.booleans()),
        summary=draw(st.integers(0, 7)) == 0,
    )


@sub("C21", scripts(), quick=100, thorough=1500)
def wrapper(case):
    root = tempfile.mkdtemp(dir=os.environ.get("VP_TMP"))
    import matplotlib.pyplot as plt

    try:
        parent = os.path.join(root, "new", "snaps")
        summ = os.path.join(root, "summ") if case["summary"] else None
        bc = BoundaryCondition(x=("free" if case["free"] else "periodic"))
        kw = dict(
            nx=case["nx"],
            ny=case["ny"],
            px=case["p"],
            py=case["p"],
            gamma=case["gamma"],
            a_posteriori_slope_limiting=case["lim"],
            progress_bar=False,
        )
        ic = ics.Sinus(dims="xy", vx=0.4, vy=-0.3)

        def call(overwrite=False, **over):
            k = dict(kw, **over)
            return EulerSolver_wrapper(
                project_pref=case["pref"],
                snapshot_parent_dir=parent,
                summary_parent_dir=summ,
                ic=ic,
                bc=bc,
                T=case["T"],
                integrator=case["integ"],
                n_snapshots=case["k"],
                overwrite=overwrite,
                **k,
            )

        s = call()
        d = EulerSolver(w0=ic, bc=bc, **kw)
        go = {-1: d.run, 1: d.euler, 2: d.ssprk2, 3: d.ssprk3, 4: d.rk4}[case["integ"]]
        go(T=case["T"], downbeats=np.linspace(0, case["T"], case["k"]))
        same_entries(s.snapshots, d.snapshots, "scripted and direct run")
        times = [e["t"] for e in s.snapshots]
        ensure(
            len(times) == case["k"] and np.allclose(times, np.linspace(0, case["T"], case["k"]), atol=1e-12),
            f"times {times}",
        )
        dirs = os.listdir(parent)
        ensure(len(dirs) == 1, "one run, one directory")
        if summ:
            (sd,) = os.listdir(summ)
            pngs = os.listdir(os.path.join(summ, sd))
            want = {f"t={t:.2f}.png" for t in times}
            ensure(set(pngs) == want, f"summary plots {pngs}")
        before = listing(parent)
        r = call()
        same_entries(r.snapshots, s.snapshots, "scripted run read back")
        ensure(r.step_count == 0 and listing(parent) == before, "a saved scripted run was recomputed")
        other = call(nx=case["nx"] + 1)
        ensure(len(other.snapshots[0]["x"]) == case["nx"] + 1, "another configuration was given the saved run")
        ensure(len(os.listdir(parent)) == 2, "two configurations, two directories")
        first = {k: v for k, v in listing(parent).items() if k in before}
        ensure(first == before, "another configuration changed the saved run")
        o = call(overwrite=True)
        ensure(o.step_count > 0, "overwriting recomputes")
        same_entries(o.snapshots, s.snapshots, "recomputed run")
        raises(lambda: EulerSolver_wrapper(case["pref"], parent, integrator=7, T=0.01, ic=ic, **dict(kw, nx=3)), (ValueError,), "integrator 7")
    finally:
        plt.close("all")
        shutil.rmtree(root, ignore_errors=True)
    return dict(nontrivial=True, label=f"p{case['p']}")


# options of a scripted run and values next to those of the first run
OPTIONS = [
    ("T", [0.0101, 0.0104, 0.0149, 0.013]),
    ("integ", [1, 2, 3, 4, -1]),
    ("k", [2, 3, 5]),
    ("pref", ["kh", "kh_", "KH"]),
    ("nx", [5, 6, 16]),
    ("px", [0, 1, 2]),
    ("gamma", [1.4, 1.4000001, 5 / 3, 2]),
    ("CFL", [0.8, 0.8001, 0.4]),
    ("fixed_dt", [None, 0.004, 0.0041]),
    ("x", [(0, 1), (0, 1.0001), (0, 10), (-1, 1)]),
    ("slope_limiter", [None, "moncen", "minmod"]),
    ("riemann_solver", ["llf", "hllc"]),
    ("force_trouble", [True, False]),
    ("NAD", [1e-2, 1e-5, 1e-6, 0.3]),
    ("NAD_mode", ["global", "local"]),
    ("NAD_vars", [None, ("rho",), ("rho", "P")]),
    ("PAD", [None, {"rho": (0, 1.2)}, {"rho": (0, 1.21)}]),
    ("SED", [True, False]),
    ("convex", [True, False]),
    ("density_floor", [None, 0.9, 0.90001]),
    ("snapshots_as_fv_averages", [True, False]),
    ("conservative_ic", [True, False]),
    ("fixed_primitive_variables", [None, "vx", "P"]),
]


@st.composite
def series(draw):
    runs, cur = [], {}
    for _ in range(draw(st.integers(2, 5))):
        if runs:
            # the next run differs from an earlier one in one option, which may be left out again
            cur = dict(draw(st.sampled_from(runs)))
            key, vals = draw(st.sampled_from(OPTIONS))
            if key in cur and draw(st.integers(0, 3)) == 0:
                cur.pop(key)
            else:
                v = draw(st.sampled_from(vals))
                cur[key] = list(v) if isinstance(v, tuple) else v
        runs.append(cur)
    return dict(lim=draw(st.integers(0, 3)) > 0, runs=runs, over=draw(st.integers(0, 3)) == 0)


@sub("C21", series(), quick=130, thorough=2500)
def wrapper_series(case):
    """scripted runs which differ in one option, saved side by side, are each what a direct run gives"""
    root = tempfile.mkdtemp(dir=os.environ.get("VP_TMP"))
    try:
        ic = ics.Sinus(dims="x", vx=0.4)
        bc = BoundaryCondition(x="free")
        seen = {}
        for j, run in enumerate(case["runs"]):
            o = {k: tuple(v) if isinstance(v, list) else v for k, v in run.items()}
            if o.get("PAD"):
                o["PAD"] = {k: tuple(v) for k, v in o["PAD"].items()}
            T, integ, k, pref = (o.pop(q, v) for q, v in (("T", 0.01), ("integ", 3), ("k", 2), ("pref", "kh")))
            kw = dict(nx=6, px=1, a_posteriori_slope_limiting=case["lim"], progress_bar=False)
            kw.update(o)
            d = EulerSolver(w0=ic, bc=bc, **kw)
            go = {-1: d.run, 1: d.euler, 2: d.ssprk2, 3: d.ssprk3, 4: d.rk4}[integ]
            go(T=T, downbeats=np.linspace(0, T, k))
            s = EulerSolver_wrapper(
                project_pref=pref, snapshot_parent_dir=root, ic=ic, bc=bc, T=T, integrator=integ, n_snapshots=k,
                overwrite=case["over"], **kw,
            )
            what = f"run {j} of the series, {run}"
            same_entries(s.snapshots, d.snapshots, what)
            key = json.dumps([kw, T, integ, k, pref], sort_keys=True)
            if key in seen and not case["over"]:
                ensure(s.step_count == 0, f"{what}: a saved run was recomputed")
            seen[key] = True
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return dict(nontrivial=len(seen) > 1, label=f"{len(seen)} runs")
