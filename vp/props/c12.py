"""C12: mirror and shift symmetry"""

import numpy as np
from hypothesis import strategies as st

import common
import gen
from core import Reject, close, ensure, sub

RULE = (
    "random problems, mirrored along a random active axis, or (periodic) shifted by random numbers of "
    "cells; solution and trouble map are compared; non-trivial if the state changed"
)
ASSUMPTIONS = [
    "round-off is 1e-9 of the largest value",
    "limited cases in which a detection threshold is met only to within 1e-9 are discarded",
    "the absolute tolerance band is not mirror symmetric for signed variables by definition, so it is "
    "combined with density and pressure monitoring only",
]

BCS = ["periodic2", "free", "outflow", "reflective", "dirichlet"]


def mirror_u(u, axis):
    v = np.flip(u, axis=axis + 1).copy()
    v[1 + axis] *= -1
    return v


def mirror_case(case, axis):
    d = "xyz"[axis]
    c = dict(case, bc=dict(case["bc"]))
    c["bc"][d] = list(reversed(case["bc"][d]))
    for e in "xyz":
        val = case["bc"].get(e + "_value")
        if val is not None:
            val = [
                None if v is None else mirror_u(np.asarray(v).reshape(-1, 1, 1, 1), axis).ravel()
                for v in val
            ]
            c["bc"][e + "_value"] = val[::-1] if e == d else val
    if case["lim"] is not None and case["lim"].get("PAD"):
        pad = dict(case["lim"]["PAD"])
        if "v" + d in pad:
            a, b = pad["v" + d]
            pad["v" + d] = [None if b is None else -b, None if a is None else -a]
        c["lim"] = dict(case["lim"], PAD=pad)
    return c


@st.composite
def problem(draw, bc=BCS, **kw):
    nd = draw(gen.pick(1, 1, 2, 2, 3))
    dims = "".join(sorted(draw(st.permutations("xyz"))[:nd]))
    case = draw(
        gen.with_steps(
            gen.problem(dims=dims, bc=bc, amps=(0.02, 0.1, 0.2), nmax=(30, 9, 5), **kw),
            steps=(1, 2, 3),
        )
    )
    common.fix_periodic(case)
    case["axis"] = "xyz".index(draw(st.sampled_from(list(dims))))
    case["shift"] = [draw(st.integers(-6, 6)) if d in dims else 0 for d in "xyz"]
    if case["lim"] is not None and case["lim"]["NAD_range"] == "absolute":
        case["lim"]["NAD_vars"] = draw(gen.pick(["rho"], ["P"], ["rho", "P"]))
    return case


def dirichlet(case):
    vals = {}
    rng = np.random.default_rng(case["field"]["seed"] + 3)
    bc = dict(case["bc"])
    for d in "xyz":
        if "dirichlet" not in case["bc"][d]:
            continue
        pair = []
        for j, pos in enumerate("lr"):
            if case["bc"][d][j] != "dirichlet":
                pair.append(None)
                continue
            w = np.array([1, 0.3, -0.2, 0.1, 1] + [0.5] * case["npass"])
            w = w * (1 + 0.1 * rng.uniform(-1, 1, size=w.shape))
            c0 = gen.prim2cons(w.reshape(-1, 1, 1, 1), case["gamma"]).ravel()
            vals[d + pos] = c0
            pair.append(c0)
        bc[d + "_value"] = pair
    return dict(case, bc=bc), vals


def run_mirror(case):
    case, vals = dirichlet(case)
    u = gen.make_u(case)
    common.steady_decisions(case, u, dirichlet=vals)
    ax = case["axis"]
    s = gen.build(case, u)
    a = gen.advance(s, case)
    c2 = mirror_case(case, ax)
    s2 = gen.build(c2, mirror_u(u, ax))
    b = gen.advance(s2, c2)
    want = mirror_u(a, ax)
    close(s2.t, s.t, rtol=1e-9, what="time")
    close(b, want, rtol=1e-9, scale=common.scale(want), what=f"solution mirrored along axis {ax}")
    if case["lim"] is not None:
        close(
            common.trouble_of(s2),
            np.flip(common.trouble_of(s), axis=ax),
            rtol=0,
            atol=1e-12,
            what="mirrored trouble",
        )
    return dict(nontrivial=bool(np.abs(a - u).max() > 1e-10), label=gen.label(case))


def run_shift(case):
    u = gen.make_u(case)
    common.steady_decisions(case, u)
    sh = case["shift"]
    s = gen.build(case, u)
    a = gen.advance(s, case)
    s2 = gen.build(case, np.roll(u, sh, axis=(1, 2, 3)))
    b = gen.advance(s2, case)
    want = np.roll(a, sh, axis=(1, 2, 3))
    close(s2.t, s.t, rtol=1e-9, what="time")
    close(b, want, rtol=1e-9, scale=common.scale(want), what=f"solution shifted by {sh} cells")
    if case["lim"] is not None:
        close(
            common.trouble_of(s2),
            np.roll(common.trouble_of(s), sh, axis=(0, 1, 2)),
            rtol=0,
            atol=1e-12,
            what="shifted trouble",
        )
    moved = any(k % m for k, m in zip(sh, case["n"]))
    return dict(nontrivial=moved and bool(np.abs(a - u).max() > 1e-10), label=gen.label(case))


@sub("C12", problem(lim=False), quick=400, thorough=8000)
def mirror_unlimited(case):
    return run_mirror(case)


@sub("C12", problem(lim=True, pmax=5), quick=600, thorough=12000)
def mirror_limited(case):
    return run_mirror(case)


@sub("C12", problem(bc="periodic", lim=False), quick=250, thorough=5000)
def shift_unlimited(case):
    return run_shift(case)


@sub("C12", problem(bc="periodic", lim=True, pmax=5), quick=500, thorough=10000)
def shift_limited(case):
    return run_shift(case)


@sub("C12", problem(bc="periodic", rss=("advection_upwind",), lim=False), quick=60, thorough=1000)
def mirror_advection(case):
    # the pure advection flux assumes a velocity that is continuous across faces
    case = dict(case, field=dict(case["field"], vamp=0.0))
    return run_mirror(case)
