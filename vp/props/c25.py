"""C25: solutions scale with the units of the problem"""

import numpy as np
from hypothesis import strategies as st

import common
import gen
from core import close, sub

RULE = (
    "random problems (dimensions, degrees, boundaries, limiting, integrators) run again in other units of length, "
    "velocity, density and passive scalars (powers of two and other factors) and about another coordinate origin; "
    "solution, time, step, snapshot and trouble map are compared; non-trivial if the state changed and a unit differs"
)
ASSUMPTIONS = [
    "round-off is 1e-9 of the largest value (1e-8 for shifted origins, whose spacing is rounded)",
    "limited cases in which a detection threshold is met only to within 1e-9 are discarded",
    "with limiting, unit factors are at least 1e-4: the minmod limiter has an absolute guard of 1e-16",
    "smooth-extremum detection runs with tolerance 0 when units change, as that tolerance is not scale free",
]

BCS = ["periodic2", "free", "outflow", "reflective", "dirichlet"]
FACTOR = st.one_of(
    st.integers(-8, 12).map(lambda k: 2.0**k), gen.pick(3.0, 0.1, 700.0, 1.0, 1e6, 1e-2)
)


WIDE = st.one_of(FACTOR, st.integers(-24, 24).map(lambda k: 2.0**k), gen.pick(1e-8, 1e9, 1e-5))


@st.composite
def problem(draw, **kw):
    case = draw(
        gen.with_steps(
            gen.problem(bc=BCS, amps=(0.02, 0.1, 0.2), nmax=(30, 9, 5), **kw), steps=(1, 2, 3)
        )
    )
    common.fix_periodic(case)
    case["tdep"] = draw(st.booleans())
    case["until"] = draw(gen.pick(None, None, 0.9, 0.4))
    case["fixdt"] = draw(gen.pick(False, False, True))
    case["floor"] = draw(gen.pick(1e-10, 1e-10, 3.0))
    return case


@st.composite
def rescaled(draw, **kw):
    case = draw(problem(**kw))
    which = draw(gen.pick("all", "all", "mass", "length", "velocity", "passive"))
    one = lambda name: which in ("all", name)
    factor = FACTOR if case["lim"] is not None else WIDE
    case["L"] = draw(factor) if one("length") else 1.0
    case["V"] = draw(factor) if one("velocity") else 1.0
    case["R"] = draw(factor) if one("mass") else 1.0
    case["Q"] = [draw(factor) if one("passive") else 1.0 for _ in range(case["npass"])]
    if case["lim"] is not None:
        case["lim"]["SED_tolerance"] = 0.0
        fu, fw = units(case)
        k = max(1.0, 1e-4 / min(fu.min(), fw.min(), *fw.ravel()[5:], 1.0))
        if k > 1:  # keep clear of the guard of the limiter
            case["R"] *= 2.0 ** np.ceil(np.log2(k))
            case["V"] = max(case["V"], 1.0)
            case["Q"] = [max(q, 1.0) for q in case["Q"]]
    return case


@st.composite
def shifted(draw):
    case = draw(problem())
    case["L"] = case["V"] = case["R"] = 1.0
    case["Q"] = [1.0] * case["npass"]
    case["origin"] = [draw(gen.pick(0.0, 1.0, -0.5, 12.3, -1000.0)) for _ in range(3)]
    return case


def units(case):
    """factors of the conservative and of the primitive variables"""
    R, V, Q = case["R"], case["V"], case["Q"]
    fu = np.array([R, R * V, R * V, R * V, R * V**2] + [R * q for q in Q])
    fw = np.array([R, V, V, V, R * V**2] + list(Q))
    return fu.reshape(-1, 1, 1, 1), fw.reshape(-1, 1, 1, 1)


def other(case, vals, fu):
    """the problem in the other units"""
    L, V, R = case["L"], case["V"], case["R"]
    org = case.get("origin", [0.0] * 3)
    T = L / V
    c = dict(case)
    c["lo"] = [L * a + o for a, o in zip(case["lo"], org)]
    c["len"] = [L * a for a in case["len"]]
    if case.get("fixed_dt") is not None:
        c["fixed_dt"] = T * case["fixed_dt"]
    v2 = {}
    for key, v in vals.items():
        if callable(v):
            v2[key] = lambda x, y, z, t, v=v: fu * v((x - org[0]) / L, (y - org[1]) / L, (z - org[2]) / L, t / T)
        else:
            v2[key] = np.asarray(v) * fu.ravel()
    if case["lim"] is not None and case["lim"].get("PAD"):
        f = dict(rho=R, P=R * V**2, vx=V, vy=V, vz=V)
        pad = {
            k: [None if a is None else a * f[k] for a in ab] for k, ab in case["lim"]["PAD"].items()
        }
        c["lim"] = dict(case["lim"], PAD=pad)
    return c, v2


def run(case, rtol):
    u = gen.make_u(case)
    vals = common.dirichlet_values(case, u)
    floor = case["floor"]
    if case["fixdt"]:
        case = dict(case, fixed_dt=1e-3 * min(gen.spacing(case)))
        t = case["steps"] * case["fixed_dt"]
        fixed_run(case, u, vals, floor)
    else:
        t, _ = common.trajectory(case, u, case["steps"], case["integ"], dirichlet=vals, csq_floor=floor)
    fu, fw = units(case)
    T = case["L"] / case["V"]
    c2, v2 = other(case, vals, fu)
    s = gen.build(case, u, bc=common.boundary(case, vals), csq_floor=floor)
    s2 = gen.build(c2, u * fu, bc=common.boundary(c2, v2), csq_floor=floor * case["V"] ** 2)
    probe = gen.build(case, u, bc=common.boundary(case, vals), csq_floor=floor)
    probe2 = gen.build(c2, u * fu, bc=common.boundary(c2, v2), csq_floor=floor * case["V"] ** 2)
    dt, d = probe.f(0.0, probe.am("u"))
    dt2, d2 = probe2.f(0.0, probe2.am("u"))
    d, d2 = np.array(d), np.array(d2)
    close(dt2 / T, dt, rtol=rtol, what="step")
    rate = common.scale(u) / dt
    close(d2 / fu * T, d, rtol=rtol, scale=np.maximum(common.scale(d), rate), what="time derivative")
    if case["until"] is None:
        getattr(s, case["integ"])(n=case["steps"])
        getattr(s2, case["integ"])(n=case["steps"])
    else:
        end = t * case["until"]
        getattr(s, case["integ"])(end)
        getattr(s2, case["integ"])(end * T)
    a, b = s.am("u"), s2.am("u") / fu
    close(s2.t / T, s.t, rtol=rtol, what="time")
    close(b, a, rtol=rtol, scale=common.scale(a), what="solution in other units")
    org = case.get("origin", [0.0] * 3)
    for i, d in enumerate("xyz"):
        close(
            s2.snapshots[-1][d], case["L"] * s.snapshots[-1][d] + org[i],
            rtol=1e-10, scale=case["L"] * 10 + abs(org[i]), what=f"{d} coordinates",
        )
    w = dict(zip(("rho", "vx", "vy", "vz", "P"), s.snapshots[-1]["w"]))
    speed = max(np.abs(w["vx"]).max(), np.abs(w["vy"]).max(), np.abs(w["vz"]).max(), np.sqrt(np.abs(w["P"] / w["rho"])).max())
    for i, (k, f) in enumerate(zip(w, fw.ravel())):
        close(
            s2.snapshots[-1]["w"][i] / f, w[k], rtol=100 * rtol,
            scale=max(np.abs(w[k]).max(), speed if k[0] == "v" else 0), what=f"snapshot of {k}",
        )
    if case["lim"] is not None and case["until"] is None:
        close(common.trouble_of(s2), common.trouble_of(s), rtol=0, atol=1e-12, what="trouble in other units")
    return dict(
        nontrivial=bool(np.abs(a - u).max() > 1e-10)
        and (any(f != 1.0 for f in (case["L"], case["V"], case["R"], *case["Q"])) or any(org)),
        label=gen.label(case),
    )


def fixed_run(case, u, vals, floor):
    """reference run with the fixed step, discarding undetermined decisions"""
    import ref
    from core import Reject

    t, v = 0.0, u
    try:
        for _ in range(case["steps"]):
            f = lambda tt, vv: (case["fixed_dt"], ref.rhs(case, vv, tt, vals, None, floor)[1])
            dt, v = ref.rk_step(f, t, v, case["integ"])
            t += dt
            if not common.usable(v):
                raise Reject
    except ref.Ambiguous:
        raise Reject
    return v


@sub("C25", rescaled(lim=False), quick=220, thorough=5000)
def unlimited(case):
    return run(case, 1e-9)


@sub("C25", rescaled(lim=True), quick=300, thorough=6000)
def limited(case):
    return run(case, 1e-9)


@sub("C25", shifted(), quick=220, thorough=4000)
def origin(case):
    return run(case, 1e-8)
