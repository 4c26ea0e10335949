"""C19: passive scalars are inert and carried with the flow"""

import numpy as np
from hypothesis import strategies as st

import common
import gen
from core import Reject, close, ensure, sub

RULE = (
    "random flows (all schemes, boundaries incl. Dirichlet, limiting modes, 1-3 dimensions) with 1-5 scalars; runs "
    "with scalars added, removed, renamed, reordered, duplicated, uniform or linearly combined are compared; "
    "non-trivial if the flow changed during the run"
)
ASSUMPTIONS = [
    "runs are compared to 1e-10 of the state; limited runs that are not bitwise equal are discarded if a "
    "limiting decision is only determined to round-off",
    "linearity holds without slope limiting of the scalars",
]

NAMES = ["tracer", "dye", "Z", "x", "y", "t", "q1", "q2", "rho2", "metal fraction", "ρ", "vxx", "a", "B"]


@st.composite
def flows(draw, lim="any", npass=st.integers(1, 5), amps=(0.02, 0.1, 0.3), rss=("hllc", "llf", "hllc", "llf", "advection_upwind")):
    case = draw(
        gen.problem(
            bc=common.SYM + ["dirichlet"],
            npass=npass,
            lim=lim,
            amps=amps,
            nmax=(30, 9, 5),
            pmax=6,
            rss=rss,
        )
    )
    common.fix_periodic(case)
    k = case["npass"]
    names = draw(st.lists(st.sampled_from(NAMES), min_size=k, max_size=k, unique=True))
    case["pnames"] = names
    case["steps"] = draw(gen.pick(1, 2, 4))
    case["integ"] = draw(gen.pick("euler", "ssprk2", "ssprk3", "rk4"))
    case["perm"] = draw(st.permutations(range(k)))
    case["rename"] = draw(st.lists(st.sampled_from(NAMES), min_size=k, max_size=k, unique=True))
    case["keep"] = sorted(draw(st.sets(st.integers(0, k - 1)))) if k else []
    case["fnbc"] = draw(st.booleans())
    return case


def wall_values(case, u):
    """a state per Dirichlet side, as a function of position and time or constant"""
    rng = np.random.default_rng(case["field"]["seed"] + 3)
    vals = {}
    for d in "xyz":
        for pos, kind in zip("lr", case["bc"][d]):
            i = tuple(int(rng.integers(0, m)) for m in u.shape[1:])
            vals[d + pos] = u[(slice(None),) + i] if kind == "dirichlet" else None
    return vals


def boundary(case, vals):
    from fvhoe.boundary_conditions import BoundaryCondition

    def one(v):
        if v is None:
            return None
        if not case["fnbc"]:
            return np.array(v)
        return lambda x, y, z, t: np.array(v).reshape(-1, 1, 1, 1) * np.ones((1,) + x.shape)

    kw = {}
    for d in "xyz":
        kw[d] = tuple(case["bc"][d])
        kw[d + "_value"] = (one(vals[d + "l"]), one(vals[d + "r"]))
    return BoundaryCondition(**kw)


def run(case, u, vals):
    """final conservative state and last snapshot"""
    s = gen.build(case, u, bc=boundary(case, vals))
    v = gen.advance(s, case).copy()
    if not common.usable(v):
        raise Reject
    return v, s


def select(case, u, vals, idx, names):
    """the same problem with the scalars idx under other names"""
    c = dict(case, npass=len(idx), pnames=names)
    rows = list(range(5)) + [5 + i for i in idx]
    return c, u[rows], {k: (None if v is None else v[rows]) for k, v in vals.items()}


def same(case, a, b, u, vals, sc, what):
    if np.array_equal(a, b):
        return
    if case["lim"] is not None:
        common.trajectory(case, u, case["steps"], case["integ"], dirichlet=vals)
    close(a, b, rtol=1e-10, scale=sc, what=what)


def info(case, u, v):
    return dict(
        nontrivial=bool(np.abs(v[:5] - u[:5]).max() > 1e-9),
        label=gen.label(case) + f" {case['npass']} scalars",
    )


@sub("C19", flows(), quick=900, thorough=15000)
def inert(case):
    """the flow and each scalar do not depend on which other scalars there are, their names or order"""
    u = gen.make_u(case)
    vals = wall_values(case, u)
    v, s = run(case, u, vals)
    sc = common.scale(v)

    c0, u0, vals0 = select(case, u, vals, [], [])
    v0, s0 = run(c0, u0, vals0)
    same(case, v[:5], v0, u, vals, sc[:5], "the flow with and without scalars")
    ensure(abs(s.t - s0.t) <= 1e-12 * s.t, f"time {s.t!r} with and {s0.t!r} without scalars")
    if case["lim"] is not None and np.array_equal(v[:5], v0):
        ensure(np.array_equal(common.trouble_of(s), common.trouble_of(s0)), "trouble with and without scalars")

    p = case["perm"]
    c1, u1, vals1 = select(case, u, vals, p, case["rename"])
    v1, s1 = run(c1, u1, vals1)
    same(case, v[:5], v1[:5], u, vals, sc[:5], "the flow with reordered scalars")
    for new, old in enumerate(p):
        same(case, v[5 + old], v1[5 + new], u, vals, sc[5 + old, 0, 0, 0], f"scalar {old} at position {new}")
        a = s.snapshots[-1]["w"][s.hydro_state(case["pnames"][old])]
        b = s1.snapshots[-1]["w"][s1.hydro_state(case["rename"][new])]
        same(case, a, b, u, vals, np.abs(a).max() + 1, "logged scalar")

    if case["keep"] and len(case["keep"]) < case["npass"]:
        idx = case["keep"]
        c2, u2, vals2 = select(case, u, vals, idx, [case["pnames"][i] for i in idx])
        v2, _ = run(c2, u2, vals2)
        same(case, v[:5], v2[:5], u, vals, sc[:5], "the flow with some of the scalars")
        for new, old in enumerate(idx):
            same(case, v[5 + old], v2[5 + new], u, vals, sc[5 + old, 0, 0, 0], f"scalar {old} of a subset")
    return info(case, u, v)


@sub("C19", flows(), quick=500, thorough=10000)
def uniform_and_equal(case):
    """uniform scalars stay uniform (also where the flow is limited), equal scalars stay equal"""
    rng = np.random.default_rng(case["field"]["seed"] + 11)
    u = gen.make_u(case)
    k = case["npass"]
    const = rng.normal(size=k)
    for i in range(k):
        if i % 2 == 0:
            u[5 + i] = const[i] * u[0]
        elif i >= 3:
            u[5 + i] = u[5 + 1]
    vals = wall_values(case, u)
    v, s = run(case, u, vals)
    w = gen.cons2prim(v, case["gamma"])
    for i in range(0, k, 2):
        close(w[5 + i], np.full(v.shape[1:], const[i]), rtol=1e-9, scale=1 + abs(const[i]), what=f"uniform scalar {i}")
        if s.snapshots[-1]["w"].min(axis=(1, 2, 3))[0] > 1e-3:
            close(
                s.snapshots[-1]["w"][5 + i],
                np.full(v.shape[1:], const[i]),
                rtol=1e-8,
                scale=1 + abs(const[i]),
                what=f"logged uniform scalar {i}",
            )
    for i in range(3, k, 2):
        close(v[5 + i], v[6], rtol=1e-13, scale=np.abs(v[6]).max() + 1e-300, what="equal scalars")
    return info(case, u, v)


@sub("C19", flows(lim=False, npass=st.integers(3, 5)), quick=500, thorough=10000)
def linear(case):
    """without limiting a combination of scalars evolves into the combination of their evolutions"""
    rng = np.random.default_rng(case["field"]["seed"] + 13)
    u = gen.make_u(case)
    a, b, c = rng.normal(size=3) * 2
    u[7] = a * u[5] + b * u[6] + c * u[0]
    vals = wall_values(case, u)
    v, _ = run(case, u, vals)
    want = a * v[5] + b * v[6] + c * v[0]
    mag = abs(a) * np.abs(v[5]).max() + abs(b) * np.abs(v[6]).max() + (abs(c) + 1) * np.abs(v[0]).max()
    close(v[7], want, rtol=1e-10, scale=mag, what="combined scalar")
    return info(case, u, v)


@sub("C19", flows(lim=True, npass=st.integers(2, 4), rss=("hllc", "llf")), quick=300, thorough=6000)
def limited_homogeneous(case):
    """with limiting a scalar still scales with its values (by powers of two, sign included)"""
    u = gen.make_u(case)
    u[6] = -4.0 * u[5]
    vals = wall_values(case, u)
    v, _ = run(case, u, vals)
    close(v[6], -4.0 * v[5], rtol=1e-12, scale=np.abs(v[6]).max() + 1e-300, what="scaled scalar")
    return info(case, u, v)
