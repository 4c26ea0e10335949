"""C04: smooth flow converges at the design order"""

import itertools

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import Reject, close, ensure, sub

RULE = (
    "random smooth periodic states (trigonometric, all variables varying, velocities of fixed sign) "
    "on random domains, degrees 0-8 per axis, 1D/2D/3D: the computed time derivative is compared with "
    "the exact cell-averaged one on two meshes; random advected profiles evolved to a time on two "
    "meshes; non-trivial if the coarse error exceeds the fine error's round-off floor"
)
ASSUMPTIONS = [
    "the observed order may fall short of the design order by 0.8 on the finite meshes used",
    "errors below a round-off floor of 1e-10 (time derivative) and 1e-11 (state) are accepted",
]


def nodes(q):
    x, w = np.polynomial.legendre.leggauss(q)
    return 0.5 * x, 0.5 * w


def axis_points(case, i, q, faces=False):
    n, act = case["n"][i], gen.active(case)[i]
    if not act:
        return np.array([0.5]), np.array([1.0]), 1
    if faces:
        return np.arange(n + 1) / n, np.array([1.0]), 1
    x, w = nodes(q)
    return (((np.arange(n) + 0.5)[:, None] + x) / n).ravel(), w, q


def averages(case, fn, q, face=None):
    """cell averages, or averages over the faces along axis `face`, of fn(X, Y, Z)"""
    pts, ws, qs = zip(*[axis_points(case, i, q, faces=i == face) for i in range(3)])
    v = fn(*np.meshgrid(*pts, indexing="ij"))
    for i in range(3):
        ax = i + 1
        v = np.moveaxis(v, ax, -1)
        v = v.reshape(v.shape[:-1] + (v.shape[-1] // qs[i], qs[i]))
        v = (v * ws[i]).sum(axis=-1)
        v = np.moveaxis(v, -1, ax)
    return v


def exact_rhs(case, F, q):
    g = case["gamma"]
    u = averages(case, lambda X, Y, Z: gen.prim2cons(F(X, Y, Z), g), q)
    k = 0.0
    for d in ref.active_axes(case):
        f = averages(case, lambda X, Y, Z: ref.euler_flux(F(X, Y, Z), g, d), q, face=d)
        k = k - np.diff(f, axis=d + 1) / gen.spacing(case)[d]
    return u, k


def q_for(case):
    nd = sum(gen.active(case))
    return {1: 9, 2: 7, 3: 5}[nd]


@st.composite
def smooth(draw, pmax=(8, 8, 4), evolve=False):
    nd = draw(gen.pick(1, 1, 2, 2, 3) if not evolve else gen.pick(1, 1, 1, 2))
    dims = "".join(sorted(draw(st.permutations("xyz"))[:nd]))
    p = [0, 0, 0]
    uniform = draw(st.booleans())
    p0 = draw(st.integers(0, pmax[nd - 1]))
    for d in dims:
        p["xyz".index(d)] = p0 if uniform else draw(st.integers(0, pmax[nd - 1]))
    return dict(
        dims=dims,
        p=p,
        n=[1, 1, 1],
        lo=[draw(gen.pick(0.0, -0.5, 2.0)) for _ in range(3)],
        len=[draw(gen.pick(1.0, 0.7, 1.6)) for _ in range(3)],
        gamma=draw(gen.pick(5 / 3, 1.4)),
        CFL=0.5,
        rs=draw(gen.pick("hllc", "llf")),
        npass=draw(gen.pick(0, 1, 2)),
        bc={d: ["periodic", "periodic"] for d in "xyz"},
        lim=None,
        field=dict(
            kind="smooth",
            seed=draw(gen.SEED),
            amp=draw(gen.pick(0.05, 0.1)),
            vamp=0.05,
            kmax=1,
            drift=[draw(gen.pick(0.5, -0.5, 3.0, -3.0)) for _ in range(3)],
        ),
    )


def base_n(case):
    nd = len(case["dims"])
    return {1: 24, 2: 12, 3: 8}[nd]


def at(case, n, skew=0):
    ns = [1, 1, 1]
    for j, d in enumerate(case["dims"]):
        ns["xyz".index(d)] = n
    return dict(case, n=ns)


def decay(e1, e2, order, floor, what, slack):
    """e2 on the twice finer mesh must be smaller than e1 by the design order"""
    ensure(np.all(np.isfinite([e1, e2])), f"{what}: not finite")
    want = e1 * 2.0 ** -(order - slack) + floor
    ensure(
        e2 <= want,
        lambda: f"{what}: error {e1:.3e} -> {e2:.3e} on the finer mesh (order "
        f"{np.log2(e1 / e2):.2f}, design order {order})",
    )


@sub("C04", smooth(), quick=500, thorough=8000)
def rhs_order(case):
    F = gen.FieldFn(case)
    errs = []
    n0 = base_n(case)
    for n in (n0, 2 * n0):
        c = at(case, n)
        u, k = exact_rhs(c, F, q_for(c))
        s = gen.build(c, u)
        _, got = s.f(0.0, u)
        errs.append(np.abs(got - k).mean(axis=(1, 2, 3)))
    order = min(case["p"]["xyz".index(d)] for d in case["dims"]) + 1
    tot = [float(e.max()) for e in errs]
    decay(tot[0], tot[1], order, 1e-10, "time derivative", 0.8)
    return dict(nontrivial=tot[0] > 1e-9, label=f"{len(case['dims'])}d order {order}")


@sub("C04", smooth(), quick=250, thorough=3000)
def per_axis_order(case):
    """
    a flow varying along one axis only converges at the order of the degree along that axis,
    whatever the degrees along the others
    """
    case = dict(case)
    dims = case["dims"]
    vary = dims[case["field"]["seed"] % len(dims)]
    inv = "".join(d for d in "xyz" if d != vary)
    case["field"] = dict(case["field"], invariant=inv)
    F = gen.FieldFn(case)
    errs = []
    n0 = 24
    for n in (n0, 2 * n0):
        c = at(case, 3)
        c["n"] = list(c["n"])
        c["n"]["xyz".index(vary)] = n
        u, k = exact_rhs(c, F, 9)
        s = gen.build(c, u)
        _, got = s.f(0.0, u)
        errs.append(float(np.abs(got - k).mean(axis=(1, 2, 3)).max()))
    order = case["p"]["xyz".index(vary)] + 1
    decay(errs[0], errs[1], order, 1e-10, "time derivative", 0.8)
    return dict(nontrivial=errs[0] > 1e-9, label=f"{len(dims)}d order {order}")


@st.composite
def advected(draw, pmax=(4, 3, 2)):
    case = draw(smooth(pmax=pmax, evolve=True))
    case["field"].update(vamp=0.0, amp=draw(gen.pick(0.1, 0.3)))
    case["field"]["drift"] = [draw(gen.pick(1.0, -1.0, 0.5, 0.0)) for _ in range(3)]
    case["T"] = draw(gen.pick(0.1, 0.2))
    case["limit"] = draw(gen.pick(None, None, "simple", "convex"))
    return case


def evolved_error(case, n, T, lim):
    c = at(case, n)
    c["lim"] = lim
    F = gen.FieldFn(c)
    P0 = 1.0
    v = np.array(case["field"]["drift"])
    L = np.array(case["len"])

    def state(t):
        def fn(X, Y, Z):
            sh = [
                (C - v[i] * t / L[i]) if gen.active(c)[i] else C
                for i, C in enumerate((X, Y, Z))
            ]
            w = F(*sh)
            w[4] = P0
            return gen.prim2cons(w, c["gamma"])

        return averages(c, fn, 6)

    s = gen.build(c, state(0.0))
    s.run(T=T)
    e = np.abs(s.am("u") - state(T)).mean(axis=(1, 2, 3))
    return float(e.max()), s


@sub("C04", advected(), quick=160, thorough=2500)
def evolved_order(case):
    """density and passive profiles carried by a uniform flow, evolved by the default integrator"""
    pd = [case["p"]["xyz".index(d)] for d in case["dims"]]
    if max(pd) != min(pd):
        raise Reject
    order = min(pd[0] + 1, 4)
    n0 = 32 if len(case["dims"]) == 1 else 16
    lim = None
    if case["limit"] is not None:
        if pd[0] < 2:
            raise Reject
        lim = dict(NAD=1e-2, SED=True, convex=case["limit"] == "convex")
        n0 = 48 if len(case["dims"]) == 1 else 32
    e1, _ = evolved_error(case, n0, case["T"], lim)
    e2, _ = evolved_error(case, 2 * n0, case["T"], lim)
    decay(e1, e2, order, 1e-11, "evolved state", 0.8)
    if lim is not None:
        eu, _ = evolved_error(case, 2 * n0, case["T"], None)
        ensure(
            e2 <= 1.5 * eu + 1e-11,
            lambda: f"limiting raises the error of a smooth profile from {eu:.3e} to {e2:.3e}",
        )
    return dict(
        nontrivial=e1 > 1e-10, label=f"{len(case['dims'])}d order {order} {case['limit']}"
    )
