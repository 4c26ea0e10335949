"""helpers shared by property modules"""

import numpy as np

import gen
import ref
from core import Reject

SYM = ["free", "outflow", "reflective", "periodic2"]


def fix_periodic(case):
    """a periodic boundary is periodic on both sides"""
    for d in "xyz":
        if "periodic2" in case["bc"][d]:
            case["bc"][d] = ["periodic", "periodic"]
    return case


def usable(u, big=1e4):
    return bool(np.all(np.isfinite(u)) and u[0].min() > 0 and np.abs(u).max() < big)


def trajectory(case, u, steps, integ, dirichlet=None, log=None, csq_floor=1e-10):
    """
    reference run; discards the case if a limiting decision is not determined beyond
    round-off or the state (or a face state given to hllc) leaves the admissible range
    """
    ref.UNPHYSICAL[0] = False
    t = 0.0
    v = u
    try:
        for _ in range(steps):
            stage = []
            f = lambda tt, vv: ref.rhs(case, vv, tt, dirichlet, stage, csq_floor)
            dt, v = ref.rk_step(f, t, v, integ)
            if log is not None:
                log.append(stage)
            t += dt
            if not usable(v) or ref.UNPHYSICAL[0]:
                raise Reject
    except ref.Ambiguous:
        raise Reject
    return t, v


def steady_decisions(case, u, steps=None, integ=None, **kw):
    """discard limited cases whose decisions are only determined to round-off"""
    return trajectory(case, u, steps or case["steps"], integ or case["integ"], **kw)


def scale(u):
    """per-variable magnitude for comparing conservative states"""
    m = np.abs(u).max(axis=(1, 2, 3))
    m[:5] = max(m[:5].max(), 1e-300)
    m[5:] = np.maximum(m[5:], 1e-300) if len(m) > 5 else m[5:]
    if len(m) > 5:
        m[5:] = np.maximum(m[5:], m[0])
    return m.reshape(-1, 1, 1, 1)


def trouble_of(s):
    return s.snapshots[-1]["trouble"]


def dirichlet_values(case, u):
    rng = np.random.default_rng(case["field"]["seed"] + 3)
    vals = {}
    for d in "xyz":
        for pos, kind in zip("lr", case["bc"][d]):
            if kind != "dirichlet":
                continue
            v = np.array(u[(slice(None),) + tuple(int(rng.integers(0, m)) for m in u.shape[1:])])
            if case.get("tdep"):

                def f(x, y, z, t, v=v):
                    s = 1 + 0.05 * np.sin(40 * t + x + 2 * y - z)
                    return v.reshape(-1, 1, 1, 1) * s[np.newaxis]

                vals[d + pos] = f
            else:
                vals[d + pos] = v
    return vals


def boundary(case, vals):
    from fvhoe.boundary_conditions import BoundaryCondition

    kw = {}
    for d in "xyz":
        kw[d] = tuple(case["bc"][d])
        kw[d + "_value"] = tuple(vals.get(d + pos) for pos in "lr")
    return BoundaryCondition(**kw)
