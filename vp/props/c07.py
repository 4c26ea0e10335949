"""C07: the time step"""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import Reject, close, ensure, sub
from fvhoe import hydro

RULE = (
    "random states over many magnitudes (step formula on arrays) and random problems (step "
    "proposed and taken by the solver); non-trivial if the state is not at rest"
)
ASSUMPTIONS = []


@st.composite
def arrays(draw):
    return dict(
        shape=[draw(st.integers(1, 5)) for _ in range(3)],
        npass=draw(st.integers(0, 2)),
        seed=draw(gen.SEED),
        rexp=draw(st.floats(-6, 6)),
        pexp=draw(st.floats(-6, 6)),
        vmag=draw(gen.pick(0.0, 1e-3, 1.0, 1e3)),
        gamma=draw(st.floats(1.01, 3)),
        CFL=draw(st.floats(0.01, 1)),
        h=draw(st.floats(1e-4, 10)),
        ndim=draw(st.integers(1, 3)),
        floor=draw(gen.pick(1e-10, 1e-2, 1.0, 1e4)),
        negative=draw(st.integers(0, 3)) == 0,
        still=draw(gen.pick([0, 0, 0], [0, 0, 0], [0, 1, 1], [1, 0, 1], [1, 1, 0], [0, 0, 1], [2, 2, 2], [0, 2, 0])),
    )


@sub("C07", arrays(), quick=2500, thorough=30000)
def formula(case):
    rng = np.random.default_rng(case["seed"])
    w = rng.uniform(-1, 1, size=(5 + case["npass"],) + tuple(case["shape"]))
    w[0] = 10 ** (case["rexp"] + w[0])
    w[1:4] *= case["vmag"]
    w[4] = 10 ** (case["pexp"] + w[4])
    for i, q in enumerate(case["still"]):
        # components which are zero everywhere or in some cells
        if q:
            w[1 + i] *= 0.0 if q == 1 else (rng.uniform(size=w[0].shape) < 0.5)
    if case["negative"]:
        w[4].flat[0] *= -1.0
    keep = w.copy()
    c = np.sqrt(np.maximum(case["gamma"] * w[4] / w[0], case["floor"]))
    want_c = hydro.compute_sound_speed(w, case["gamma"], csq_floor=case["floor"])
    close(want_c, c, rtol=1e-12, scale=c, what="sound speed")
    speed = np.abs(w[1]) + np.abs(w[2]) + np.abs(w[3]) + case["ndim"] * c
    dt = hydro.hydro_dt(
        w=w, h=case["h"], ndim=case["ndim"], CFL=case["CFL"], gamma=case["gamma"], csq_floor=case["floor"]
    )
    close(dt, case["CFL"] * case["h"] / speed.max(), rtol=1e-12, what="step")
    ensure(np.array_equal(w, keep), "input modified")
    v = np.abs(w[1:4, 0, 0, 0]) + 0.1
    close(
        hydro.advection_dt(h=case["h"], vx=v[0], vy=v[1], vz=v[2], CFL=case["CFL"]),
        case["CFL"] * case["h"] / v.sum(),
        rtol=1e-12,
        what="advection step",
    )
    return dict(nontrivial=case["vmag"] > 0, label=f"ndim{case['ndim']}")


@st.composite
def prob(draw):
    case = draw(
        gen.problem(
            bc=["periodic2", "free", "outflow", "reflective"], amps=(0.02, 0.1, 0.3)
        )
    )
    for d in "xyz":
        if "periodic2" in case["bc"][d]:
            case["bc"][d] = ["periodic", "periodic"]
    case["floor"] = draw(gen.pick(1e-10, 1e-10, 0.5, 10.0))
    # a large velocity along one axis in one cell
    case["spike"] = draw(gen.pick(None, 0, 1, 2))
    case["spike_v"] = draw(gen.pick(4.0, -4.0))
    case["integ"] = draw(st.sampled_from(gen.INTEG))
    return case


def state(case):
    w = gen.make_w(case)
    if case["spike"] is not None and max(case["p"]) <= 1:
        i = tuple(n // 2 for n in case["n"])
        w[(1 + case["spike"],) + i] = case["spike_v"]
    return gen.prim2cons(w, case["gamma"])


@sub("C07", prob(), quick=900, thorough=15000)
def solver_step(case):
    u = state(case)
    s = gen.build(case, u, csq_floor=case["floor"])
    case1 = dict(case, lim=None)
    want, _ = ref.fluxes(case1, u, case["p"], None, 0.0, None, case["floor"])
    if not np.isfinite(want):
        raise Reject
    dt, _ = s.f(0.0, u.copy())
    close(dt, want, rtol=1e-11, what="proposed step")
    ensure(np.isfinite(dt) and dt > 0, "step not positive")
    # never larger than the bound from the cell values for a first-order scheme
    if max(case["p"]) == 0:
        w = gen.cons2prim(u, case["gamma"])
        sp = np.abs(w[1:4]).sum(axis=0) + sum(gen.active(case)) * ref.sound_speed(
            w, case["gamma"], case["floor"]
        )
        close(dt, case["CFL"] * min(gen.spacing(case)) / sp.max(), rtol=1e-11, what="first-order step")
    # the step taken is the step proposed at the start
    getattr(s, case["integ"])(n=1)
    close(s.t, want, rtol=1e-11, what="time after one step")
    return dict(label=gen.label(case))


@sub(
    "C07",
    gen.with_steps(gen.problem(pmax=4, amps=(0.02, 0.1)), steps=(1, 2, 3)),
    quick=200,
    thorough=2000,
)
def fixed_step(case):
    u = gen.make_u(case)
    base = gen.build(case, u)
    dt0, _ = base.f(0.0, u.copy())
    for fac in (0.1, 0.73, 1.5):
        fx = dt0 * fac
        s = gen.build(dict(case, fixed_dt=fx), u)
        dt, _ = s.f(0.0, u.copy())
        close(dt, fx, rtol=1e-14, what="fixed step")
        gen.advance(s, case)
        close(s.t, fx * case["steps"], rtol=1e-12, what="time after fixed steps")
        ensure(s.step_count == case["steps"], "step count")
    # and without one the CFL number scales the step
    s2 = gen.build(dict(case, CFL=case["CFL"] / 4), u)
    close(s2.f(0.0, u.copy())[0] * 4, dt0, rtol=1e-12, what="CFL scaling")
    return dict(label=gen.label(case))
