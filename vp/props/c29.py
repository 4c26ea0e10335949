"""C29: options do what they say and nothing else"""

import contextlib
import io
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

import common
import gen
from core import Reject, close, ensure, raises, sub
from fvhoe import initial_conditions as ics
from fvhoe.boundary_conditions import BoundaryCondition
from fvhoe.ode import ODE
from fvhoe.scripting import EulerSolver_wrapper
from fvhoe.solver import EulerSolver

RULE = (
    "random problems run twice: with reporting, logging, saving and unused options changed (several at once), with "
    "documented defaults written out instead of left out, with an order-matched integrator chosen by hand instead of "
    "run(); with options whose effect is known exactly; and with one value outside the documented choices, which has to be refused; non-trivial if the state "
    "changed (runs) or an option was changed"
)
ASSUMPTIONS = [
    "results of runs which must agree may differ by at most 1e-12 of the largest value",
    "documented options without any effect (density_floor, pressure_floor, fixed_primitive_variables) are known findings",
]

BCS = ["periodic2", "free", "outflow", "reflective", "dirichlet"]


def state(s):
    return dict(u=s.am("u").copy(), t=s.t, steps=s.step_count, stamps=list(s.timestamps))


def same(a, b, what, shape=True):
    close(b["t"], a["t"], rtol=1e-13, what=f"{what}: time")
    ensure(a["steps"] == b["steps"], f"{what}: {b['steps']} steps, not {a['steps']}")
    close(b["stamps"], a["stamps"], rtol=1e-13, what=f"{what}: time stamps")
    close(b["u"], a["u"], rtol=1e-12, scale=common.scale(a["u"]) if shape else None, what=f"{what}: solution")


@contextlib.contextmanager
def console():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield lambda: out.getvalue() + err.getvalue()


# ------------------------------------------------------------------ reporting options

BUILD_OPTS = ["bar", "helper", "centres", "slab", "cupy", "unused_limiting", "unused_cfl"]
RUN_OPTS = ["every", "save", "ignored", "overwrite"]


@st.composite
def observed(draw):
    case = draw(gen.problem(bc=BCS, amps=(0.02, 0.1, 0.2), nmax=(20, 7, 4), pmax=6))
    common.fix_periodic(case)
    case["tdep"] = draw(st.booleans())
    case["integ"] = draw(st.sampled_from(gen.INTEG + ["run"]))
    case["by"] = draw(gen.pick("n", "T", "T"))
    case["steps"] = draw(gen.pick(1, 2, 3))
    case["frac"] = draw(gen.pick(0.7, 1.0, 2.3))
    case["beats"] = draw(st.lists(gen.pick(0.25, 0.5, 0.6), max_size=2))
    case["opts"] = draw(
        st.lists(st.sampled_from(BUILD_OPTS + RUN_OPTS), min_size=1, max_size=5, unique=True)
    )
    case["fixdt"] = draw(gen.pick(False, False, True))
    case["averages"] = draw(gen.pick(True, True, False))
    if "slab" in case["opts"]:
        # the positions handed to boundary functions may differ by round-off
        case["lim"] = None
        case["frac"] = case["frac"] * 0.97
    return case


def options(case, seen):
    """keyword arguments of the changed options"""
    o = {}
    if "bar" in case["opts"]:
        o["progress_bar"] = True
    if "helper" in case["opts"]:

        def helper(*a, **k):
            seen.append((a, k))

        o["snapshot_helper_function"] = helper
    if "centres" in case["opts"]:
        o["snapshots_as_fv_averages"] = False
    if "slab" in case["opts"]:
        o["slab_buffer_size"] = 37
    if "cupy" in case["opts"]:
        o["cupy"] = True
    if "unused_limiting" in case["opts"] and case["lim"] is None:
        o.update(
            slope_limiter="moncen", force_trouble=True, NAD=0.0, NAD_mode="local", NAD_range="absolute",
            NAD_vars=("rho",), PAD={"rho": (5.0, 6.0)}, SED=False, SED_tolerance=1.0, convex=True,
        )
    if "unused_cfl" in case["opts"] and case["fixdt"]:
        o["CFL"] = 0.37
    return o


@sub("C29", observed(), quick=400, thorough=8000)
def reporting(case):
    u = gen.make_u(case)
    vals = common.dirichlet_values(case, u)
    bc = lambda: common.boundary(case, vals)
    probe = gen.build(case, u, bc=bc())
    dt = probe.f(0.0, probe.am("u"))[0]
    if not (np.isfinite(dt) and dt > 0):
        raise Reject
    fx = dict(fixed_dt=0.7 * dt) if case["fixdt"] else {}
    if not case["averages"]:
        fx["snapshots_as_fv_averages"] = False
    if case["by"] == "n":
        kw = dict(n=case["steps"])
    else:
        T = dt * case["frac"]
        kw = dict(T=T, downbeats=[b * T for b in case["beats"]])
    a = gen.build(case, u, bc=bc(), **fx)
    with console() as text:
        getattr(a, case["integ"])(**kw)
    ensure(text() == "", lambda: f"without a progress bar, the run prints {text()[:80]!r}")
    if not common.usable(a.am("u")):
        raise Reject

    seen = []
    o = options(case, seen)
    extra = dict(kw)
    with tempfile.TemporaryDirectory(dir=os.environ.get("VP_TMP")) as d:
        target = os.path.join(d, "run")
        if "every" in case["opts"]:
            extra["log_every_step"] = True
        if "save" in case["opts"]:
            extra["snapshot_dir"] = target
        if "overwrite" in case["opts"]:
            extra["overwrite"] = True
        if "ignored" in case["opts"] and case["by"] == "n":
            # given a number of steps, all other arguments are ignored
            extra.update(T=0.3 * dt, exact=False, downbeats=[0.1 * dt, 5 * dt])
        b = gen.build(case, u, bc=bc(), **{**fx, **o})
        with console() as text:
            getattr(b, case["integ"])(**extra)
        printed = text()
        files = os.listdir(d)
    same(state(a), state(b), f"with {case['opts']}")
    if "bar" in case["opts"]:
        ensure("%" in printed or "it" in printed, "no progress bar was printed")
    elif not {"save", "cupy"} & set(case["opts"]):
        ensure(printed == "", lambda: f"prints {printed[:80]!r}")
    if case["by"] == "n":
        ensure(files == [], f"a run by step count wrote {files}")
        ensure(len(b.snapshots) == len(a.snapshots), "snapshots of a run by step count")
    else:
        ensure((files == ["run"]) == ("save" in case["opts"]), f"files {files}")
    if "helper" in case["opts"]:
        ensure(len(seen) == len(b.snapshots), f"helper called {len(seen)} times for {len(b.snapshots)} snapshots")
        for args, kws in seen:
            ensure(len(args) + len(kws) == 1 and ([*args] + [*kws.values()])[0] is b, "helper not called with the solver alone")
    # without an option that changes them, the entries agree
    changed = set(case["opts"])
    if not case["averages"]:
        changed -= {"centres"}
    if not {"every", "centres"} & changed:
        ensure(len(a.snapshots) == len(b.snapshots), "number of snapshots")
        for i, (p, q) in enumerate(zip(a.snapshots, b.snapshots)):
            ensure(set(p) == set(q), f"entry {i}")
            close(q["t"], p["t"], rtol=1e-13, what=f"time of entry {i}")
            close(q["w"], p["w"], rtol=1e-12, what=f"snapshot {i}")
    elif "centres" not in changed:
        times = np.array([q["t"] for q in b.snapshots])
        for p in a.snapshots:
            j = int(np.argmin(np.abs(times - p["t"])))
            close(times[j], p["t"], rtol=1e-13, what="time of an entry when logging every step")
            close(b.snapshots[j]["w"], p["w"], rtol=1e-12, what="snapshot")
    used = set(case["opts"])
    if case["lim"] is not None:
        used -= {"unused_limiting"}
    if not case["fixdt"]:
        used -= {"unused_cfl"}
    return dict(nontrivial=bool(used) and bool(np.abs(a.am("u") - u).max() > 0), label=case["by"])


class Decay(ODE):
    def __init__(self, dt, **kw):
        super().__init__(np.array([1.0, -0.5]), **kw)
        self.dt0 = dt

    def f(self, t, u):
        return self.dt0, -u / self.dt0 / 7


@sub(
    "C29",
    st.builds(
        lambda e, n, by, integ, bar, every, beats: dict(e=e, n=n, by=by, integ=integ, bar=bar, every=every, beats=beats),
        st.integers(-12, 12),
        st.integers(0, 12),
        gen.pick("n", "T", "T"),
        st.sampled_from(gen.INTEG),
        st.booleans(),
        st.booleans(),
        st.lists(gen.pick(0.5, 1.3, 4.0), max_size=3),
    ),
    quick=250,
    thorough=4000,
)
def quiet_runs(case):
    """runs at any scale of time print nothing without a progress bar, and the same result comes with one"""
    dt = 10.0 ** case["e"]
    kw = dict(n=case["n"]) if case["by"] == "n" else dict(
        T=(case["n"] + 0.5) * dt, downbeats=[b * dt for b in case["beats"]], log_every_step=case["every"]
    )
    a, b = Decay(dt, progress_bar=False), Decay(dt, progress_bar=True)
    with console() as text:
        getattr(a, case["integ"])(**kw)
    ensure(text() == "", lambda: f"without a progress bar, the run prints {text()[:80]!r}")
    with console() as text:
        getattr(b, case["integ"])(**kw)
    ensure(text() != "", "no progress bar was printed")
    same(state(a), state(b), "with a progress bar", shape=False)
    ensure(a.snapshot_times == b.snapshot_times, "logged times")
    return dict(nontrivial=a.step_count > 0, label=case["by"])


# ------------------------------------------------------------------ what options mean

MEANINGS = ["no_PAD", "PAD_only", "force", "fixed_dt", "CFL", "huge_NAD", "NAD_vars", "names", "SED", "convex", "domain"]


@st.composite
def meaningful(draw):
    case = draw(gen.problem(lim=True, amps=(0.1, 0.3), nmax=(22, 8, 5), pmax=5))
    case["mean"] = draw(st.sampled_from(MEANINGS))
    case["integ"] = draw(st.sampled_from(gen.INTEG))
    case["k"] = draw(gen.pick(0.5, 0.25, 0.1))
    case["var"] = draw(gen.pick("rho", "vx", "vy", "vz", "P"))
    case["low"] = draw(st.booleans())
    return case


PRIM = dict(rho=0, vx=1, vy=2, vz=3, P=4)


@sub("C29", meaningful(), quick=300, thorough=6000)
def meaning(case):
    """an option has the effect it is documented to have, seen in the result of one step"""
    u = gen.make_u(case)
    w = gen.cons2prim(u, case["gamma"])
    what = case["mean"]

    def go(**kw):
        s = gen.build(case, u, **kw)
        getattr(s, case["integ"])(n=1)
        if not common.usable(s.am("u")):
            raise Reject
        return s

    if what == "no_PAD":
        if case["low"]:
            # cells expanding so fast that the pressure of a candidate gets negative
            i = next(j for j in range(3) if case["n"][j] > 1 or j == 2)
            x = np.arange(case["n"][i]).reshape([-1 if j == i else 1 for j in range(3)])
            w = w[:5].copy()
            w[1 + i] += np.where(x < case["n"][i] // 2, -3.0, 3.0)
            w[4] *= 0.3
            u = gen.prim2cons(w, case["gamma"])
            case = dict(case, rs="llf", npass=0)
        s = gen.build(case, u, PAD={}, NAD=1e9)
        s.euler(n=1)
        ensure(np.all(s.snapshots[-1]["PAD violation magnitude"] == 0), "a violation magnitude without any bounds")
    elif what == "PAD_only":
        # bounds far outside or far inside the range of one variable
        i = PRIM[case["var"]]
        far = 10 * (1 + np.abs(w[i]).max())
        s = go(PAD={case["var"]: (-far, far)})
        ensure(np.all(s.snapshots[-1]["PAD violation magnitude"] == 0), "a violation of far bounds")
        s = go(PAD={case["var"]: (far, 2 * far) if case["low"] else (-2 * far, -far)}, NAD=1e9)
        ensure(np.all(s.snapshots[-1]["trouble"] == 1), "cells out of bounds are not troubled")
        ensure(np.all(s.snapshots[-1]["PAD violation magnitude"] > 0.5 * far), "magnitude of a large violation")
    elif what == "force":
        s = go(force_trouble=True)
        ensure(np.all(s.snapshots[-1]["trouble"] == 1), "forced trouble leaves cells untroubled")
        r = go(force_trouble=True, NAD=1e9, PAD={}, SED=not case["low"])
        same(state(s), state(r), "with forced trouble and other detection")
    elif what == "fixed_dt":
        dt = gen.build(case, u).f(0.0, u.copy())[0] * case["k"]
        s = go(fixed_dt=dt)
        close(s.t, dt, rtol=1e-14, what="length of a fixed step")
    elif what == "CFL":
        a, b = go(CFL=case["k"]), go(CFL=case["k"] / 2)
        close(b.t, a.t / 2, rtol=1e-13, what="step under half the CFL number")
    elif what == "huge_NAD":
        if min(np.ptp(q) for q in w[:5]) < 1e-4:
            raise Reject
        s = go(NAD=1e9, NAD_range="relative", NAD_mode="global", PAD={}, force_trouble=False)
        ensure(np.all(s.snapshots[-1]["trouble"] == 0), "trouble under an unlimited tolerance")
        r = gen.build(dict(case, lim=None), u)
        getattr(r, case["integ"])(n=1)
        same(state(r), state(s), "without any limiting")
    elif what == "NAD_vars":
        # the cells troubled for two variables are those troubled for either
        other = ["rho", "vx", "vy", "vz", "P"][(PRIM[case["var"]] + 1 + 2 * case["low"]) % 5]
        flags = []
        for names in ((case["var"],), (other,), (case["var"], other)):
            s = gen.build(case, u, NAD_vars=names, PAD={}, force_trouble=False)
            s.euler(n=1)
            if not common.usable(s.am("u")):
                raise Reject
            flags.append(s.snapshots[-1]["trouble"])
        ensure(np.array_equal(np.maximum(flags[0], flags[1]), flags[2]), "trouble for two monitored variables")
    elif what == "names":
        order = ["rho", "vx", "vy", "vz", "P"]
        names = [case["var"]] + [v for v in order if v != case["var"]][: 1 + case["low"]]
        a = go(NAD_vars=tuple(names))
        b = go(NAD_vars=tuple(reversed(names)))
        c = go(NAD_vars=list(names) + names[:1])
        same(state(a), state(b), "with the monitored variables in another order")
        same(state(a), state(c), "with a monitored variable named twice")
    elif what == "SED":
        # smooth extrema only excuse cells
        a, b = (gen.build(case, u, SED=q, force_trouble=False) for q in (True, False))
        for s in (a, b):
            s.euler(n=1)
            if not common.usable(s.am("u")):
                raise Reject
        ensure(
            np.all(a.snapshots[-1]["trouble"] <= b.snapshots[-1]["trouble"]),
            "smooth extremum detection troubles a cell",
        )
    elif what == "convex":
        # without limiting the degree of freedom has no effect
        c = dict(case, lim=None)
        a, b = gen.build(c, u, convex=True), gen.build(c, u, convex=False)
        for s in (a, b):
            s.euler(n=1)
        if not common.usable(a.am("u")):
            raise Reject
        same(state(a), state(b), "convex blending without limiting")
    else:
        s = go()
        for d, n, lo, ln in zip("xyz", case["n"], case["lo"], case["len"]):
            c = np.asarray(getattr(s, d))
            close(np.diff(c), np.full(n - 1, ln / n), rtol=1e-11, scale=1 + abs(lo) + ln, what=f"spacing in {d}")
            close([c[0] + c[-1]], [2 * lo + ln], rtol=1e-12, scale=1 + abs(lo) + ln, what=f"middle of {d}")
    return dict(label=what)


# ------------------------------------------------------------------ defaults

DEFAULTS = dict(
    ny=1, nz=1, py=0, pz=0, x=(0, 1), y=(0, 1), z=(0, 1), CFL=0.8, fixed_dt=None, gamma=5 / 3, bc=None,
    riemann_solver="hllc", conservative_ic=False, fv_ic=False, a_posteriori_slope_limiting=False,
    slope_limiter="minmod", force_trouble=False, NAD=1e-2, NAD_mode="global", NAD_range="relative", NAD_vars=None,
    PAD=None, SED=True, SED_tolerance=1e-10, convex=False, csq_floor=1e-10, snapshots_as_fv_averages=True,
    snapshot_helper_function=None, slab_buffer_size=30, cupy=False, w0_passives=None,
)


@st.composite
def defaulted(draw):
    names = sorted(DEFAULTS)
    return dict(
        nx=draw(st.integers(6, 20)),
        px=draw(st.integers(0, 5)),
        dim2=draw(gen.pick(None, None, "y", "z")),
        n2=draw(st.integers(5, 8)),
        p2=draw(st.integers(0, 3)),
        limited=draw(st.booleans()),
        npass=draw(st.integers(0, 2)),
        seed=draw(gen.SEED),
        kind=draw(gen.pick("rough", "smooth")),
        explicit=draw(st.lists(st.sampled_from(names), min_size=1, max_size=8, unique=True)),
        equal=draw(gen.pick(None, None, "bc", "PAD", "NAD_vars")),
        steps=draw(st.integers(1, 3)),
    )


class RandomIC(ics.InitialCondition):
    def base_ic(self, seed=0, kind="rough"):
        def f(x, y, z):
            rng = np.random.default_rng(seed)
            out = np.empty((5,) + x.shape)
            for i, (lo, hi) in enumerate([(0.8, 1.3), (-0.5, 0.9), (-0.5, 0.5), (-0.5, 0.5), (0.8, 1.5)]):
                if kind == "rough":
                    q = rng.uniform(size=x.shape)
                else:
                    k = rng.integers(-1, 2, size=3)
                    q = 0.5 + 0.5 * np.sin(2 * np.pi * (k[0] * x + k[1] * y + k[2] * z) + rng.uniform(0, 6))
                out[i] = lo + (hi - lo) * q
            return out

        return f


@sub("C29", defaulted(), quick=300, thorough=6000)
def defaults(case):
    base = dict(w0=RandomIC(seed=case["seed"], kind=case["kind"]), nx=case["nx"], px=case["px"], progress_bar=False)
    if case["dim2"]:
        base["n" + case["dim2"]] = case["n2"]
        base["p" + case["dim2"]] = case["p2"]
    if case["limited"]:
        base["a_posteriori_slope_limiting"] = True
    if case["npass"]:
        base["w0_passives"] = {f"s{i}": (lambda x, y, z, i=i: 0.3 * i + x * (1 - x)) for i in range(case["npass"])}
    a = EulerSolver(**base)
    a.run(n=case["steps"])
    if not common.usable(a.am("u")):
        raise Reject
    more = {k: DEFAULTS[k] for k in case["explicit"] if k not in base}
    if case["equal"] == "bc":
        more["bc"] = BoundaryCondition(x=("periodic", "periodic"), y="periodic")
    elif case["equal"] == "PAD":
        more["PAD"] = {"rho": (0.0, np.inf), "P": (0.0, np.inf)}
    elif case["equal"] == "NAD_vars":
        more["NAD_vars"] = ("rho", "vx", "vy", "vz", "P")
    b = EulerSolver(**base, **more)
    b.run(n=case["steps"])
    same(state(a), state(b), f"with explicit defaults {sorted(more)}")
    for p, q in zip(a.snapshots, b.snapshots):
        ensure(set(p) == set(q), "entries of the log")
        close(q["w"], p["w"], rtol=1e-12, what="snapshot")
        if "trouble" in p:
            close(q["trouble"], p["trouble"], rtol=0, what="trouble")
    # the order of the integrator matches the degree, up to four
    order = min(max(case["px"], case["p2"] if case["dim2"] else 0), 3)
    c = EulerSolver(**base)
    getattr(c, ["euler", "ssprk2", "ssprk3", "rk4"][order])(n=case["steps"])
    same(state(a), state(c), f"run() at degree {order}")
    return dict(nontrivial=bool(more), label="limited" if case["limited"] else "unlimited")


# ------------------------------------------------------------------ values outside the choices

JUNK = ["", "HLLC", "hll", "roe", "Minmod", "superbee", "globally", "rel", "wall", "periodicc", "xx", "rho2", "euler"]


@st.composite
def invalid(draw):
    return dict(
        what=draw(
            gen.pick(
                "riemann_solver", "slope_limiter", "NAD_mode", "NAD_range", "NAD_vars", "PAD", "bc", "bc_length",
                "bc_list", "fv_ic", "integrator", "stencil", "axis_name",
            )
        ),
        junk=draw(st.sampled_from(JUNK)),
        axis=draw(gen.pick("x", "y", "z")),
        side=draw(st.integers(0, 1)),
        p=draw(st.integers(1, 4)),
        n=draw(st.integers(8, 12)),
        order=draw(gen.pick(0, 5, -2, 7, 11)),
        seed=draw(gen.SEED),
    )


@sub("C29", invalid(), quick=300, thorough=3000)
def refused(case):
    """a value outside the documented choices is refused, at the latest by the first step"""
    ax, junk, what = case["axis"], case["junk"], case["what"]
    base = {
        "w0": RandomIC(seed=case["seed"]), "n" + ax: case["n"], "p" + ax: case["p"], "progress_bar": False,
        "a_posteriori_slope_limiting": True, "force_trouble": True,
    }

    def go(**kw):
        s = EulerSolver(**{**base, **kw})
        s.euler(n=1)
        return s

    with console():
        if what in ("riemann_solver", "slope_limiter", "NAD_mode", "NAD_range"):
            raises(lambda: go(**{what: junk}), what=f"{what}={junk!r}")
        elif what == "NAD_vars":
            raises(lambda: go(NAD_vars=("rho", junk)), what=f"NAD_vars with {junk!r}")
        elif what == "PAD":
            raises(lambda: go(PAD={"rho": (0, np.inf), junk: (0, 1)}), what=f"PAD of {junk!r}")
        elif what == "bc":
            two = ["free", "free"]
            two[case["side"]] = junk
            raises(lambda: go(bc=BoundaryCondition(**{ax: tuple(two)})), what=f"boundary {two}")
        elif what == "bc_length":
            raises(lambda: BoundaryCondition(**{ax: ("free",) * (3 - 2 * case["side"])}), what="tuple of boundaries")
        elif what == "bc_list":
            raises(lambda: BoundaryCondition(**{ax: ["free", "free"]}), what="list of boundaries")
        elif what == "fv_ic":
            raises(lambda: go(fv_ic=True), what="averages of primitive variables")
        elif what == "integrator":
            with tempfile.TemporaryDirectory(dir=os.environ.get("VP_TMP")) as d:
                kw = {k: v for k, v in base.items() if k != "w0"}
                raises(
                    lambda: EulerSolver_wrapper("t", d, ic=base["w0"], T=1e-3, integrator=case["order"], **kw),
                    what=f"integrator {case['order']}",
                )
                ensure(os.listdir(d) == [], "a refused request left files")
        elif what == "stencil":
            from fvhoe.fv import conservative_interpolation, stencil_sweep

            v = np.ones((5, 12, 1, 1))
            raises(lambda: conservative_interpolation(v, p=2, axis=1, pos=junk), what=f"position {junk!r}")
            raises(lambda: stencil_sweep(v, mode=junk, p=2, axis=1, pos="l"), what=f"stencil mode {junk!r}")
        else:
            from fvhoe.slope_limiting import MUSCL_interpolations, detect_troubled_cells

            v = np.ones((5, 12, 1, 1))
            raises(lambda: MUSCL_interpolations(v, axis=1, limiter=junk), what=f"limiter {junk!r}")
            raises(lambda: detect_troubled_cells(v, v, dims="x", mode=junk), what=f"mode {junk!r}")
            raises(lambda: detect_troubled_cells(v, v, dims="x", range_type=junk), what=f"range {junk!r}")
    return dict(label=what)


# ------------------------------------------------------------------ known findings


def _no_effect(**opt):
    base = dict(w0=RandomIC(seed=1), nx=12, px=2, progress_bar=False)
    a, b = EulerSolver(**base), EulerSolver(**base, **opt)
    with console():
        a.run(n=3)
        b.run(n=3)
    return np.array_equal(a.am("u"), b.am("u"))


def confirm_known(known):
    lines = []
    opts = dict(
        density_floor=dict(density_floor=1.2),
        pressure_floor=dict(pressure_floor=1.4),
        fixed_primitive_variables=dict(fixed_primitive_variables=("vx",)),
    )
    for k in known:
        if _no_effect(**opts[k["option"]]):
            lines.append(f"KNOWN-FINDING: property=C29 {k['what']}")
    return lines
