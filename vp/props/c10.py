"""C10: positivity and tracer bounds of the first-order scheme"""

import numpy as np
from hypothesis import strategies as st

import gen
from core import Reject, ensure, sub

RULE = (
    "random states with density and pressure ratios up to 1e8 and Mach numbers up to ~30, 1-3 "
    "dimensions, periodic/free/outflow/reflective boundaries, both Euler Riemann solvers, degree 0, forward "
    "Euler, up to 40 steps; non-trivial if neighbouring cells differ by more than a factor of two"
)
ASSUMPTIONS = [
    "sufficiently small CFL: 0.8/ndim for the Lax-Friedrichs-type and 0.25/ndim for the HLLC flux",
    "tracer bounds up to 1e-10 of their magnitude",
]


@st.composite
def strong(draw):
    nd = draw(gen.pick(1, 1, 2, 3))
    dims = "".join(sorted(draw(st.permutations("xyz"))[:nd]))
    n = [1, 1, 1]
    bc = {d: ["periodic", "periodic"] for d in "xyz"}
    for d in dims:
        n["xyz".index(d)] = draw(st.integers(3, {1: 30, 2: 10, 3: 6}[nd]))
        if draw(st.booleans()):
            bc[d] = [draw(gen.pick("free", "outflow", "reflective")) for _ in "lr"]
    rs = draw(gen.pick("hllc", "llf"))
    return dict(
        n=n,
        p=[0, 0, 0],
        lo=[0.0] * 3,
        len=[draw(gen.pick(1.0, 1.0, 0.5, 2.0)) for _ in range(3)],
        gamma=draw(gen.pick(5 / 3, 1.4, 1.1)),
        CFL=(0.8 if rs == "llf" else 0.25) / nd * draw(gen.pick(1.0, 1.0, 0.5)),
        rs=rs,
        npass=draw(gen.pick(0, 1, 2)),
        bc=bc,
        lim=None,
        seed=draw(gen.SEED),
        spread=draw(gen.pick(0.5, 2.0, 4.0)),
        mach=draw(gen.pick(0.0, 1.0, 10.0, 30.0)),
        blocks=draw(gen.pick(1, 2, 4)),
        steps=draw(gen.pick(1, 3, 10, 40)),
    )


def state(case):
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    nv = 5 + case["npass"]
    b = case["blocks"]
    coarse = [-(-m // b) for m in n]
    g = rng.uniform(-1, 1, size=(nv,) + tuple(coarse))
    for i in range(3):
        g = np.repeat(g, b, axis=i + 1)
    g = g[:, : n[0], : n[1], : n[2]]
    w = np.empty_like(g)
    w[0] = 10 ** (case["spread"] * g[0])
    w[4] = 10 ** (case["spread"] * g[4])
    c = np.sqrt(case["gamma"] * w[4] / w[0])
    w[1:4] = case["mach"] * g[1:4] * np.minimum(c, np.median(c))
    w[5:] = g[5:]
    return w


@sub("C10", strong(), quick=1500, thorough=25000)
def positive_and_bounded(case):
    w = state(case)
    u = gen.prim2cons(w, case["gamma"])
    w = gen.cons2prim(u, case["gamma"])
    # internal energy must be resolved in the total energy, or round-off decides
    if np.min(w[4] / (case["gamma"] - 1) / u[4]) < 1e-8 or w[4].min() <= 0:
        raise Reject
    lo, hi = w[5:].min(axis=(1, 2, 3)), w[5:].max(axis=(1, 2, 3))
    s = gen.build(case, u, csq_floor=1e-30)
    for k in range(case["steps"]):
        s.euler(n=1)
        v = gen.cons2prim(s.am("u"), case["gamma"])
        ensure(np.all(np.isfinite(v)), f"not finite after step {k + 1}")
        ensure(v[0].min() > 0, f"density {v[0].min()!r} after step {k + 1}")
        frac = v[4] / (case["gamma"] - 1) / s.am("u")[4]
        if frac.min() < 1e-9 and frac.min() > -1e-9:
            raise Reject
        ensure(v[4].min() > 0, f"pressure {v[4].min()!r} after step {k + 1}")
        if len(v) > 5:
            tol = 1e-10 * (1 + np.maximum(np.abs(lo), np.abs(hi)))
            ensure(
                np.all(v[5:].min(axis=(1, 2, 3)) >= lo - tol)
                and np.all(v[5:].max(axis=(1, 2, 3)) <= hi + tol),
                lambda: f"tracer left [{lo}, {hi}] after step {k + 1}: "
                f"[{v[5:].min(axis=(1, 2, 3))}, {v[5:].max(axis=(1, 2, 3))}]",
            )
    r = w[0].max() / w[0].min()
    return dict(nontrivial=bool(r > 2), label=f"{case['rs']} {sum(gen.active(case))}d")
