"""C02: uniform flow is preserved"""

import numpy as np
from hypothesis import strategies as st

import gen
from core import close, ensure, sub

RULE = (
    "uniform states over four decades with random velocity directions on random meshes, degrees, "
    "solvers, limiters and boundaries compatible with the state; every case is non-trivial unless "
    "the velocity vanishes"
)
ASSUMPTIONS = ["round-off is 1e-11 of the magnitude of the state"]


@st.composite
def uniform(draw):
    case = draw(
        gen.problem(
            bc=["periodic2", "free", "outflow", "reflective", "dirichlet"],
            kinds=("rough",),
            lim=False,
        )
    )
    for i, d in enumerate("xyz"):
        if "periodic2" in case["bc"][d]:
            case["bc"][d] = ["periodic", "periodic"]
    e = lambda: draw(st.floats(-2, 2))
    w = [10 ** e()] + [draw(st.floats(-5, 5)) for _ in range(3)] + [10 ** e()]
    if draw(st.integers(0, 4)) == 0:
        w[1:4] = [0.0, 0.0, 0.0]
    for i, d in enumerate("xyz"):
        if "reflective" in case["bc"][d]:
            w[1 + i] = 0.0
    w += [draw(st.floats(-3, 3)) for _ in range(case["npass"])]
    case["w"] = w
    small = np.prod(case["n"]) <= 64
    case["steps"] = draw(gen.pick(1, 2, 4, *([25, 70] if small else [3])))
    case["integ"] = draw(gen.pick("euler", "ssprk2", "ssprk3", "rk4", "run"))
    lim = draw(gen.pick(None, "default", "other"))
    if lim == "default":
        case["lim"] = dict(
            slope_limiter=draw(gen.pick("minmod", "moncen", None)),
            convex=draw(st.booleans()) if sum(gen.active(case)) < 3 else False,
        )
    elif lim == "other":
        case["lim"] = draw(gen.limiting(convex_ok=sum(gen.active(case)) < 3))
    case["default_detection"] = lim == "default"
    case["func"] = draw(st.booleans())
    walls = any("reflective" in case["bc"][d] for d in "xyz")
    if not walls and draw(st.integers(0, 4)) == 0:
        case["rs"] = "advection_upwind"
    return case


@sub("C02", uniform(), quick=1800, thorough=30000)
def uniform_stays(case):
    w = np.array(case["w"])
    shape = tuple(case["n"])
    W = np.broadcast_to(w.reshape(-1, 1, 1, 1), (len(w),) + shape).copy()
    u = gen.prim2cons(W, case["gamma"])
    c = u[:, 0, 0, 0].copy()
    bc = dict(case["bc"])
    for d in "xyz":
        bc[d + "_value"] = [c.copy() if b == "dirichlet" else None for b in bc[d]]
    case2 = dict(case, bc=bc)
    if case["func"]:
        names = gen.passive_names(case)

        def const(x, y, z):
            return np.ones((5,) + x.shape) * w[:5].reshape(-1, 1, 1, 1)

        over = dict(
            w0=gen.FuncIC(fn=const),
            w0_passives={
                nm: (lambda x, y, z, k=k: np.full(x.shape, w[5 + k]))
                for k, nm in enumerate(names)
            }
            or None,
            conservative_ic=False,
            fv_ic=False,
        )
        s = gen.build(case2, u, **over)
        close(s.am("u"), u, rtol=1e-12, what="initial averages")
    else:
        s = gen.build(case2, u)
    getattr(s, case["integ"])(n=case["steps"])
    a = np.abs(w[1:4]).sum() + np.sqrt(case["gamma"] * w[4] / w[0])
    ps = np.abs(w[5:]).max() if len(w) > 5 else 0.0
    sc = (u[0].max() * (a + 1) ** 2 + np.abs(u).max()) * (1 + ps)
    # the change must be round-off relative to what flows through the cells
    close(s.am("u"), u, rtol=1e-12 * (1 + case["steps"] / 4), scale=sc, what="uniform state after the run")
    snap = s.snapshots[-1]["w"]
    ensure(snap.shape == W.shape, f"snapshot shape {snap.shape}")
    if case["default_detection"]:
        tr = s.snapshots[-1]["trouble"]
        ensure(not np.any(tr), lambda: f"{int((tr > 0).sum())} cells of a uniform flow troubled")
    return dict(nontrivial=bool(np.abs(w[1:4]).max() > 0), label=gen.label(case))
