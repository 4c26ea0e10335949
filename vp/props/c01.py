"""C01: conservation of the domain totals"""

import numpy as np
from hypothesis import strategies as st

import gen
from core import Reject, ensure, sub

RULE = (
    "random problems with periodic boundaries, or any mix of periodic and reflective axes, advanced "
    "a few steps; totals compared before and after every run; non-trivial if the state changed"
)
ASSUMPTIONS = [
    "round-off is 1e-11 of the sum of magnitudes",
    "runs that become non-finite are discarded",
]


def totals(u):
    # exact summation is not needed: errors are far below the tolerance
    return np.array([float(np.sum(v, dtype=np.longdouble)) for v in u])


def magnitude(u, gamma):
    w = gen.cons2prim(u, gamma)
    c = np.sqrt(np.abs(gamma * w[4] / w[0]))
    a = np.abs(w[1:4]).sum(axis=0) + c
    m = np.abs(u).sum(axis=(1, 2, 3))
    hydro = (np.abs(u[0]) * (1 + a) ** 2).sum() + m[:5].max()
    out = np.full(len(u), hydro)
    for k in range(5, len(u)):
        out[k] = hydro * (1 + np.abs(w[k]).max())
    return out


def conserve(case, s, which, go):
    u0 = s.am("u").copy()
    tot0, mag = totals(u0), magnitude(u0, case["gamma"])
    go(s)
    u1 = s.am("u")
    if not np.all(np.isfinite(u1)):
        raise Reject
    mag = np.maximum(mag, magnitude(u1, case["gamma"]))
    if not np.all(np.isfinite(mag)) or mag.max() > 1e12:
        raise Reject
    tot1 = totals(u1)
    for v in which:
        err = abs(tot1[v] - tot0[v])
        ensure(
            err <= 1e-11 * mag[v],
            lambda: f"total of variable {v} changed from {tot0[v]!r} to {tot1[v]!r} "
            f"(relative to magnitude: {err / mag[v]:.2e})",
        )
    return dict(
        nontrivial=bool(np.abs(u1 - u0).max() > 1e-10), label=gen.label(case)
    )


def stepper(case):
    if case.get("T"):
        return lambda s: getattr(s, case["integ"])(T=case["T"])
    return lambda s: getattr(s, case["integ"])(n=case["steps"])


def extras(strategy):
    return st.builds(
        lambda c, f, i: dict(c, integ=i, **({} if f is None else dict(fixed_dt=f))),
        gen.with_steps(strategy),
        gen.pick(None, None, 1e-3, 1e-2),
        gen.pick("euler", "ssprk2", "ssprk3", "rk4", "run"),
    )


@sub(
    "C01",
    extras(
        gen.problem(
            rss=("hllc", "llf", "hllc", "llf", "advection_upwind"),
            amps=(0.02, 0.1, 0.3, 0.8),
        )
    ),
    quick=1500,
    thorough=30000,
)
def periodic_totals(case):
    s = gen.build(case)
    return conserve(case, s, range(5 + case["npass"]), stepper(case))


@sub(
    "C01",
    extras(gen.problem(lim=True, amps=(0.3, 0.8, 1.5), kinds=("rough", "jumps", "mixed"))),
    quick=900,
    thorough=20000,
)
def periodic_totals_limited(case):
    """strong features, so that physical bounds and many cells are violated"""
    s = gen.build(case)
    return conserve(case, s, range(5 + case["npass"]), stepper(case))


@sub("C01", extras(gen.problem(bc="walls")), quick=1200, thorough=20000)
def walled_totals(case):
    which = [0, 4] + list(range(5, 5 + case["npass"]))
    act = gen.active(case)
    for i, d in enumerate("xyz"):
        if case["bc"][d][0] == "periodic" or not act[i]:
            which.append(1 + i)
    s = gen.build(case)
    r = conserve(case, s, which, stepper(case))
    r["nontrivial"] &= any(case["bc"][d][0] == "reflective" for d in "xyz")
    return r


@sub(
    "C01",
    st.builds(
        lambda c, T, i: dict(c, T=T, integ=i),
        gen.problem(nmax=(20, 7, 4), pmax=4, amps=(0.02, 0.1), bc="walls"),
        gen.pick(0.01, 0.05),
        gen.pick("euler", "ssprk2", "ssprk3", "rk4", "run"),
    ),
    quick=200,
    thorough=4000,
)
def run_to_time_totals(case):
    """runs to a final time, whose last step is cut"""
    case = dict(case, CFL=max(case["CFL"], 0.2))
    which = [0, 4] + list(range(5, 5 + case["npass"]))
    s = gen.build(case)
    return conserve(case, s, which, stepper(case))


@st.composite
def long_run(draw):
    case = draw(
        gen.problem(nmax=(16, 5, 3), pmax=4, amps=(0.02, 0.1, 0.3), bc=draw(gen.pick("walls", "periodic")), big=False)
    )
    case["integ"] = draw(gen.pick("euler", "ssprk2", "ssprk3", "rk4"))
    case["parts"] = [draw(st.integers(5, 70)) for _ in range(draw(st.integers(1, 3)))]
    return case


@sub("C01", long_run(), quick=200, thorough=4000)
def long_run_totals(case):
    """many steps, in several calls; stopped as soon as an unlimited run gets unphysical"""
    which = [0, 4] + list(range(5, 5 + case["npass"]))
    s = gen.build(case)

    def go(s):
        for n in case["parts"]:
            keep = s.am("u").copy()
            getattr(s, case["integ"])(n=n)
            w = gen.cons2prim(s.am("u"), case["gamma"])
            if not np.all(np.isfinite(w)) or w[0].min() <= 0 or w[4].min() <= 0 or np.abs(w).max() > 50:
                s.am("u")[...] = keep
                return

    return conserve(case, s, which, go)
