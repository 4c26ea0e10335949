"""C27: the one-dimensional reference code agrees with the solver"""

import numpy as np
from hypothesis import strategies as st

import gen
from core import Reject, close, ensure, sub
from fvhoe import romain_solver as rs
from fvhoe.fv import conservative_interpolation
from fvhoe.hydro import HydroState
from fvhoe.riemann_solvers import hllc, llf

RULE = (
    "random one-dimensional data (rough, smooth, with jumps), every order in space and time, both Riemann solvers and "
    "both boundary types of the reference code: fluxes, right-hand sides and whole runs compared with the main solver, "
    "reconstruction, boundary fill and smooth-extremum marker with their definitions and symmetries; non-trivial if the "
    "data is not uniform"
)
ASSUMPTIONS = [
    "gamma is 1.4 and the domain is [0, 1], as fixed in the reference code",
    "at least 8 cells, twice the ghost width",
    "runs whose state stops being admissible are discarded",
]

G = 1.4
MAIN = dict(llf=llf, hllc=hllc)
ICS = ["sod test", "toro test1", "toro test2", "toro test3", "shu osher", "supersonic blob", "sedov"]


@st.composite
def data(draw, nmin=8, nmax=40, amps=(0.02, 0.1, 0.5, 1.5)):
    return dict(
        n=draw(st.integers(nmin, nmax)),
        seed=draw(gen.SEED),
        kind=draw(gen.pick("rough", "rough", "smooth", "jumps", "uniform")),
        amp=draw(st.sampled_from(list(amps))),
        drift=draw(gen.pick(0.0, 0.3, -0.3, 3.0, -3.0)),
        bc=draw(gen.pick("periodic", "free")),
        rs=draw(gen.pick("llf", "hllc")),
        space=draw(st.integers(1, 5)),
        time=draw(st.integers(1, 4)),
    )


def prim(case, n=None):
    """primitive data, shape (3, n)"""
    n = n or case["n"]
    rng = np.random.default_rng(case["seed"])
    x = (np.arange(n) + 0.5) / n
    if case["kind"] == "rough":
        b = rng.uniform(-1, 1, size=(3, n))
    elif case["kind"] == "smooth":
        k = rng.integers(1, 3, size=(3, 1))
        b = np.sin(2 * np.pi * (k * x + rng.uniform(size=(3, 1))))
    elif case["kind"] == "jumps":
        b = rng.uniform(-1, 1, size=(3, 4))[:, np.minimum((4 * x + rng.uniform()).astype(int), 3)]
    else:
        b = np.repeat(rng.uniform(-1, 1, size=(3, 1)), n, axis=1)
    a = case["amp"]
    return np.stack([np.exp(a * b[0]), case["drift"] + a * b[1], np.exp(a * b[2])])


def cons(w):
    return np.stack([w[0], w[0] * w[1], w[2] / (G - 1) + 0.5 * w[0] * w[1] ** 2])


def pad(u, bc):
    u = np.asarray(u)
    if bc == "periodic":
        return np.concatenate([u[:, -4:], u, u[:, :4]], axis=1)
    return np.concatenate([np.repeat(u[:, :1], 4, 1), u, np.repeat(u[:, -1:], 4, 1)], axis=1)


def five(w):
    """five-variable state of a three-variable one, shape (5, n, 1, 1)"""
    out = np.zeros((5, w.shape[1], 1, 1))
    out[[0, 1, 4], :, 0, 0] = w
    return out


def main_solver(u, bc, riemann, CFL=0.8):
    n = u.shape[1]
    case = dict(
        n=[n, 1, 1], p=[0, 0, 0], lo=[0.0] * 3, len=[1.0] * 3, gamma=G, CFL=CFL, rs=riemann, npass=0,
        bc={"x": [bc, bc], "y": ["periodic"] * 2, "z": ["periodic"] * 2}, lim=None,
    )
    return gen.build(case, u=five(u))


def nontrivial(case):
    return dict(nontrivial=case["kind"] != "uniform", label=f"{case['kind']} {case['bc']}")


# ------------------------------------------------------------------ gas


@sub("C27", data(amps=(0.1, 1.5, 4.0)), quick=1500, thorough=30000)
def fluxes(case):
    """conversions, physical flux and both Riemann fluxes equal those of the main solver"""
    w = prim(case)
    keep = w.copy()
    u = rs.prim_to_cons(w)
    close(u, cons(w), rtol=1e-12, scale=np.abs(cons(w)) + w[0] * w[1] ** 2 + w[2], what="conservative variables")
    back = rs.cons_to_prim(u)
    close(back[:2], w[:2], rtol=1e-11, scale=np.abs(w[:2]) + 1e-300, what="round trip")
    close(back[2], w[2], rtol=1e-11, scale=np.abs(u[2]), what="round trip, pressure")
    f = rs.prim_to_flux(w)
    want = np.stack([u[1], u[1] * w[1] + w[2], (u[2] + w[2]) * w[1]])
    close(f, want, rtol=1e-11, scale=np.abs(want) + w[2], what="physical flux")
    wl, wr = w[:, :-1], w[:, 1:]
    got = getattr(rs, case["rs"])(wl, wr)
    hs = HydroState(ndim=4)
    ref = MAIN[case["rs"]](hs, (five(wl), five(wr)), gamma=G, dim="x", csq_floor=1e-300)
    ref = np.asarray(ref)[[0, 1, 4], :, 0, 0]
    ul = cons(w)
    c = np.sqrt(G * w[2] / w[0]) + np.abs(w[1])
    big = np.maximum(c[:-1], c[1:])
    scale = np.maximum(np.abs(ul[:, :-1]), np.abs(ul[:, 1:])) * big
    scale = scale + np.maximum(w[2, :-1], w[2, 1:]) * (1 + big) + np.maximum(w[0, :-1], w[0, 1:]) * big
    # the contact must be clearly on one side
    close(got, ref, rtol=1e-9, scale=scale, what=f"{case['rs']} flux")
    same = getattr(rs, case["rs"])(w, w)
    scale = np.abs(cons(w)) * c + w[2] * (1 + c)
    close(same, f, rtol=1e-11, scale=scale, what=f"{case['rs']} flux of equal states")
    ensure(np.array_equal(w, keep), "the states were modified")
    return nontrivial(case)


# ------------------------------------------------------------------ parts


@sub("C27", data(nmin=4), quick=800, thorough=10000)
def fill(case):
    u = cons(prim(case))
    a = np.full((3, case["n"] + 8), np.nan)
    a[:, 4:-4] = u
    rs.set_bc(a, case["bc"])
    ensure(np.array_equal(a, pad(u, case["bc"])), f"{case['bc']} ghost cells: {a}")
    return nontrivial(case)


@sub("C27", data(), quick=1200, thorough=20000)
def marker(case):
    """the smooth-extremum marker: range, symmetries, exactness for parabolas"""
    w = prim(case)
    bc = case["bc"]
    up = pad(w, bc)
    keep = up.copy()
    a = rs.smooth_extrema(up, bc)
    ensure(np.array_equal(up, keep), "the data was modified")
    ensure(a.shape == up.shape, f"shape {a.shape}")
    ensure(np.all((a >= 0) & (a <= 1)), f"marker outside [0, 1]: {a.min()} {a.max()}")
    close(a, pad(a[:, 4:-4], bc), rtol=0, what="ghost cells of the marker")
    m = rs.smooth_extrema(pad(w[:, ::-1], bc), bc)
    close(m[:, ::-1], a, rtol=1e-10, what="mirrored data")
    close(rs.smooth_extrema(-up, bc), a, rtol=1e-10, what="negated data")
    close(rs.smooth_extrema(4.0 * up, bc), a, rtol=1e-10, what="scaled data")
    if bc == "periodic":
        k = 1 + case["seed"] % case["n"]
        r = rs.smooth_extrema(pad(np.roll(w, k, axis=1), bc), bc)
        close(r[:, 4:-4], np.roll(a[:, 4:-4], k, axis=1), rtol=1e-10, what="shifted data")
    # definition, on the interior
    d = 0.5 * (w[:, 2:] - w[:, :-2])
    l, r = d[:, 1:-1] - d[:, :-2], d[:, 2:] - d[:, 1:-1]
    mid = 0.5 * (l + r)
    with np.errstate(all="ignore"):
        al = np.where(mid == 0, 1, np.minimum(1, np.maximum(2 * l / mid, 0)))
        ar = np.where(mid == 0, 1, np.minimum(1, np.maximum(2 * r / mid, 0)))
    want = np.minimum(al, ar)
    sure = (np.abs(mid) > 1e-9 * (np.abs(w).max())) | (case["kind"] == "uniform")
    close(np.where(sure, a[:, 6:-6], 0), np.where(sure, want, 0), rtol=1e-6, what="marker")
    # parabola: every interior cell is smooth
    x = np.arange(case["n"], dtype=float)
    q = np.repeat(pad((x - case["n"] / 3)[None] ** 2 * (1 + case["seed"] % 7), "free"), 3, axis=0)
    ensure(np.all(rs.smooth_extrema(q, "free")[:, 6:-6] == 1), "a parabola is not marked smooth")
    return nontrivial(case)


@sub("C27", data(), quick=1500, thorough=20000)
def faces(case):
    """face values: stencils of the main solver where smooth, bounded where limited"""
    w, sp = prim(case), case["space"]
    up = pad(w, case["bc"])
    keep = up.copy()
    n = case["n"]
    one, zero = np.ones_like(up), np.zeros_like(up)
    hi, lo = rs.trace(up, one, space=sp)  # values at the right and left end of cells -1..n
    ensure(hi.shape == (3, n + 2) and lo.shape == (3, n + 2), f"shapes {hi.shape} {lo.shape}")
    big = np.abs(up).max()
    for got, pos in ((hi, "r"), (lo, "l")):
        ref = conservative_interpolation(up[:, :, None, None], sp - 1, axis=1, pos=pos)[:, :, 0, 0]
        cutl = (ref.shape[1] - (n + 2)) // 2
        ref = ref[:, cutl : cutl + n + 2]
        close(got, ref, rtol=1e-12, scale=big, what=f"unlimited face values, order {sp}, {pos}")
    rng = np.random.default_rng(case["seed"] + 1)
    mixed = np.where(rng.uniform(size=up.shape) < 0.7, 1.0, rng.uniform(size=up.shape))
    for alpha, what in ((zero, "limited"), (mixed, "partly limited")):
        h, l = rs.trace(up, alpha, space=sp)
        c = up[:, 3:-3]
        tri = np.stack([up[:, 2:-4], c, up[:, 4:-2]])
        lim = np.minimum(np.minimum(alpha[:, 2:-4], alpha[:, 4:-2]), alpha[:, 3:-3]) < 1
        for v, u0, nm in ((h, hi, "right"), (l, lo, "left")):
            ensure(
                np.all(~lim | ((v >= tri.min(axis=0) - 1e-13 * big) & (v <= tri.max(axis=0) + 1e-13 * big))),
                f"{what} {nm} value of order {sp} leaves the range of the neighbours",
            )
            close(np.where(lim, 0, v), np.where(lim, 0, u0), rtol=1e-13, scale=big, what=f"{what}: smooth cells")
            # limiting shrinks towards the average, equally on both sides
            ensure(np.all((v - c) * (u0 - c) >= -1e-13 * big**2), f"{what} {nm} value changes side")
            ensure(np.all(np.abs(v - c) <= np.abs(u0 - c) + 1e-13 * big), f"{what} {nm} value overshoots")
        close((h - c) * (lo - c), (l - c) * (hi - c), rtol=1e-12, scale=big**2, what=f"{what}: one factor per cell")
        mh, ml = rs.trace(up[:, ::-1], alpha[:, ::-1], space=sp)
        close(mh[:, ::-1], l, rtol=1e-11, scale=big, what=f"{what}: mirrored data")
        close(ml[:, ::-1], h, rtol=1e-11, scale=big, what=f"{what}: mirrored data")
    ensure(np.array_equal(up, keep), "the data was modified")
    return nontrivial(case)


# ------------------------------------------------------------------ right-hand side


@sub("C27", data(), quick=1200, thorough=20000)
def right_hand_side(case):
    w, bc = prim(case), case["bc"]
    u = cons(w)
    n = case["n"]
    kw = dict(bc_type=bc, riemann_solver=case["rs"], space=case["space"])

    def flux(v):
        a = np.full((3, n + 8), np.nan)
        a[:, 4:-4] = v
        f, pw, cs = rs.cmp_flux(a, **kw)
        ensure(np.array_equal(a[:, 4:-4], v), "the state was modified")
        return np.asarray(f), pw, cs

    f, pw, cs = flux(u)
    if not np.all(np.isfinite(f)):
        raise Reject  # face values without pressure
    ensure(f.shape == (3, n + 1), f"shape {f.shape}")
    close(pw[:, 4:-4], w, rtol=1e-10, scale=np.abs(u).max(), what="primitive state")
    close(cs[4:-4], np.sqrt(G * w[2] / w[0]), rtol=1e-9, scale=np.abs(u).max() * np.sqrt(G * w[2] / w[0]), what="sound speed")
    c = (np.abs(w[1]) + np.sqrt(G * w[2] / w[0])).max()
    big = (np.abs(u).max() + w[2].max()) * (1 + c)
    if case["kind"] == "uniform":
        want = np.repeat(rs.prim_to_flux(w[:, :1]), n + 1, axis=1)
        close(f, want, rtol=1e-11, scale=big, what="flux of a uniform state")
    if bc == "periodic":
        close(f[:, 0], f[:, -1], rtol=1e-12, scale=big, what="flux through the periodic face")
        k = 1 + case["seed"] % n
        g = flux(np.roll(u, k, axis=1))[0]
        close(g[:, :-1], np.roll(f[:, :-1], k, axis=1), rtol=1e-7, scale=big, what="shifted data")
    if case["space"] == 1:
        s = main_solver(u, bc, case["rs"])
        dt, dudt = s.f(0.0, s.am("u"))
        got = -(f[:, 1:] - f[:, :-1]) * n
        close(got, dudt[[0, 1, 4], :, 0, 0], rtol=1e-9, scale=big * n, what="time derivative")
    sgn = np.array([-1.0, 1.0, -1.0])[:, None]
    g = flux((u * np.array([1.0, -1.0, 1.0])[:, None])[:, ::-1])[0]
    # the marker and limiter switch on round-off for data which is flat or linear
    if case["kind"] == "rough" or case["space"] == 1:
        close(g[:, ::-1] * sgn, f, rtol=1e-7, scale=big, what="mirrored data")
    return nontrivial(case)


# ------------------------------------------------------------------ runs


def ic_expected(name, x):
    n = len(x)
    w = np.zeros((3, n))

    def two(at, l, r):
        for j in range(3):
            w[j] = np.where(x < at, l[j], r[j])

    if name == "sod test":
        two(0.5, (1, 0, 1), (0.125, 0, 0.1))
    elif name == "toro test1":
        two(0.3, (1, 0.75, 1), (0.125, 0, 0.1))
    elif name == "toro test2":
        two(0.5, (1, -2, 0.4), (1, 2, 0.4))
    elif name == "toro test3":
        two(0.5, (1, 0, 1000), (1, 0, 0.01))
    elif name == "shu osher":
        two(0.1, (3.857143, 2.629369, 10.33333), (1, 0, 1))
        w[0] = np.where(x < 0.1, w[0], 1 + 0.2 * np.sin(5 * (10 * x - 5)))
    elif name == "supersonic blob":
        inside = (x > 0.4) & (x < 0.6)
        w[0] = np.where(inside, 10, 0.1)
        w[1] = np.where(inside, 3 * np.sqrt(50 / 3), 0)
        w[2] = 1
    else:
        w[0] = 1
        w[2] = 1e-5
        w[2, n // 2 : n // 2 + 2] = 0.5 * n * (G - 1)
    return w


RUN = st.fixed_dictionaries(
    dict(
        ic=st.sampled_from(ICS),
        n=st.integers(8, 48),
        cfl=gen.pick(0.8, 0.4, 0.1),
        bc=gen.pick("periodic", "free"),
        rs=gen.pick("llf", "hllc"),
        time=st.integers(1, 4),
        space=gen.pick(1, 1, 2, 3, 4, 5),
        steps=st.integers(1, 8),
    )
)


def tableau(time):
    return {
        1: ([[]], [1.0]),
        2: ([[], [0.5]], [0.0, 1.0]),
        3: ([[], [1 / 3], [0.0, 2 / 3]], [0.25, 0.0, 0.75]),
        4: ([[], [0.5], [0.0, 0.5], [0.0, 0.0, 1.0]], [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
    }[time]


@sub("C27", RUN, quick=500, thorough=8000)
def runs(case):
    n = case["n"]
    x = (np.arange(n) + 0.5) / n
    if min(np.abs(x - c).min() for c in (0.1, 0.3, 0.4, 0.5, 0.6)) < 1e-9:
        raise Reject  # a cell centre on a discontinuity
    w0 = ic_expected(case["ic"], x)
    u0 = cons(w0)
    got0 = rs.set_ic(x, ic_type=case["ic"])
    close(got0, u0, rtol=1e-12, scale=np.abs(u0).max(), what=f"initial condition {case['ic']}")
    dt0 = case["cfl"] / n / np.max(np.abs(w0[1]) + np.sqrt(G * w0[2] / w0[0]))
    tend = dt0 * (case["steps"] - 0.5)
    h = rs.weno(
        tend=tend, n=n, cfl=case["cfl"], ic_type=case["ic"], bc_type=case["bc"], riemann_solver=case["rs"],
        time=case["time"], space=case["space"],
    )
    h = np.array(h)
    ensure(h.shape[1:] == (3, n) and len(h) >= 2, f"history of shape {h.shape}")
    close(h[0], u0, rtol=1e-12, scale=np.abs(u0).max(), what="start of the run")
    if not np.all(np.isfinite(h)) or h[:, 0].min() <= 0:
        raise Reject
    p = (G - 1) * (h[:, 2] - 0.5 * h[:, 1] ** 2 / h[:, 0])
    if p.min() <= 0:
        raise Reject
    # steps cover the requested time, the last one just
    dts = [case["cfl"] / n / np.max(np.abs(h[k, 1] / h[k, 0]) + np.sqrt(G * p[k] / h[k, 0])) for k in range(len(h) - 1)]
    t = np.cumsum(dts)
    slack = 1e-9 * tend
    ensure(t[-1] >= tend - slack, f"the run ends at {t[-1]}, before {tend}")
    ensure(len(t) == 1 or t[-2] < tend + slack, lambda: f"the run goes on after {t[-2]}, beyond {tend}")
    if case["bc"] == "periodic":
        tot = h.sum(axis=2)
        close(tot, np.repeat(tot[:1], len(h), 0), rtol=1e-11, scale=np.abs(h).sum(axis=2).max(), what="totals")
    if case["space"] == 1:
        s = main_solver(u0, case["bc"], case["rs"], CFL=case["cfl"])
        A, b = tableau(case["time"])
        for k in range(len(h) - 1):
            u = five(h[k])
            ks = []
            for row in A:
                v = u + dt * sum((a * f for a, f in zip(row, ks)), 0 * u) if ks else u
                d, f = s.f(0.0, v)
                if not ks:
                    dt = d
                ks.append(np.array(f))
            new = u + dt * sum(bb * f for bb, f in zip(b, ks))
            close(
                h[k + 1], new[[0, 1, 4], :, 0, 0], rtol=1e-9, scale=np.abs(h).max(),
                what=f"step {k + 1} of the {case['ic']} run",
            )
        if case["time"] in (1, 4):
            s = main_solver(u0, case["bc"], case["rs"], CFL=case["cfl"])
            getattr(s, {1: "euler", 4: "rk4"}[case["time"]])(n=len(h) - 1)
            close(s.am("u")[[0, 1, 4], :, 0, 0], h[-1], rtol=1e-7, scale=np.abs(h).max(), what="whole run")
    return dict(label=f"{case['ic']} {case['bc']}")


# order of the reconstruction-based scheme on smooth periodic advection
CONV = st.fixed_dictionaries(
    dict(space=st.integers(2, 5), rs=gen.pick("llf", "hllc"), phase=st.floats(0, 1), v=gen.pick(1.0, -1.0, 0.4))
)


@sub("C27", CONV, quick=60, thorough=600)
def order(case):
    """the mass flux of smooth advected density is approximated at the order of the reconstruction"""
    errs = []
    for n in (48, 96):
        xf = np.arange(n + 1) / n
        P = lambda x: -np.cos(2 * np.pi * (x + case["phase"])) / (2 * np.pi)
        rho = 2 + (P(xf[1:]) - P(xf[:-1])) * n
        w = np.stack([rho, np.full(n, case["v"]), np.full(n, 1.0)])
        a = np.zeros((3, n + 8))
        a[:, 4:-4] = cons(w)
        f, _, _ = rs.cmp_flux(a, bc_type="periodic", riemann_solver=case["rs"], space=case["space"])
        want = case["v"] * (2 + np.sin(2 * np.pi * (xf + case["phase"])))
        errs.append(np.abs(f[0] - want).max())
    rate = np.log2(errs[0] / errs[1])
    ensure(rate > case["space"] - 0.4, f"mass flux of order {rate:.2f} (errors {errs}) with reconstruction {case['space']}")
    return {}
