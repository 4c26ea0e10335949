"""
shared generators of hydro problems.

A problem is a JSON-able dict:
    n, p        cells and polynomial degree per axis
    lo, len     domain per axis
    gamma, CFL, rs (riemann solver), npass (number of passive scalars)
    bc          {"x": [left, right], ...}
    lim         None or dict of limiting options
    field       {"kind", "seed", "amp", "vamp", "drift"}: the initial state
"""

import math

import numpy as np
from hypothesis import strategies as st

from fvhoe.boundary_conditions import BoundaryCondition
from fvhoe.initial_conditions import InitialCondition
from fvhoe.solver import EulerSolver

RSS = ["hllc", "llf"]
INTEG = ["euler", "ssprk2", "ssprk3", "rk4"]


def ceil_half(p):
    return (p + 1) // 2


def min_cells(p, d):
    """number of cells along axis d from which every ghost slab can be mirrored"""
    c = ceil_half(max(p))
    return max(max(c + 1, 2 * c), 3) + 2 * ceil_half(p[d])


# ------------------------------------------------------------------ states


def unit_mesh(case):
    """normalised cell-centre coordinates in [0, 1]"""
    axes = [(np.arange(n) + 0.5) / n for n in case["n"]]
    return np.meshgrid(*axes, indexing="ij")


class FieldFn:
    """
    the primitive state of a field description as a function of coordinates normalised
    to the unit cube; smooth and periodic, or with jumps
    """

    def __init__(self, case):
        f = case["field"]
        rng = np.random.default_rng(f["seed"])
        nv = 5 + case["npass"]
        self.kind = f["kind"]
        act = [0 if not on else 1 for on in active(case)]
        inv = f.get("invariant", "")
        for i, d in enumerate("xyz"):
            if d in inv:
                act[i] = 0
        kmax = f.get("kmax", 2)
        self.k = rng.integers(-kmax, kmax + 1, size=(nv, 4, 3)) * np.array(act)
        self.ph = rng.uniform(0, 2 * np.pi, size=(nv, 4))
        self.a = rng.uniform(0.2, 1.0, size=(nv, 4)) / 2.5
        self.jn = rng.uniform(-1, 1, size=(3, 3)) * np.array(act)
        self.jo = rng.uniform(0.2, 0.8, size=(3, 3))
        self.jv = rng.uniform(-1, 1, size=(nv, 8))
        self.amp, self.vamp = f["amp"], f["vamp"]
        self.drift = np.array(f.get("drift", [0.3, -0.2, 0.1]))
        self.r0, self.P0 = f.get("rho0", 1.0), f.get("P0", 1.0)
        self.nv = nv
        self.flat = [v for v in f.get("flat", []) if v < nv]

    def base(self, X, Y, Z):
        """values in about [-1, 1], shape (nv, ...)"""
        out = np.zeros((self.nv,) + X.shape)
        for v in range(self.nv):
            if self.kind == "jumps":
                idx = np.zeros(X.shape, dtype=int)
                for b in range(3):
                    side = (
                        self.jn[b, 0] * (X - self.jo[b, 0])
                        + self.jn[b, 1] * (Y - self.jo[b, 1])
                        + self.jn[b, 2] * (Z - self.jo[b, 2])
                    )
                    idx += (side > 0).astype(int) << b
                out[v] = self.jv[v][idx]
            else:
                for m in range(4):
                    kx, ky, kz = self.k[v, m]
                    out[v] += self.a[v, m] * np.sin(
                        2 * np.pi * (kx * X + ky * Y + kz * Z) + self.ph[v, m]
                    )
        return out

    def to_w(self, b):
        if self.flat:
            b = b.copy()
            b[self.flat] = 0.0
        w = np.zeros_like(b)
        w[0] = self.r0 * np.exp(self.amp * b[0])
        for i in range(3):
            w[1 + i] = self.drift[i] + self.vamp * b[1 + i]
        w[4] = self.P0 * np.exp(self.amp * b[4])
        w[5:] = 0.5 + b[5:]
        return w

    def __call__(self, X, Y, Z):
        return self.to_w(self.base(X, Y, Z))


def active(case):
    return [not (case["n"][i] == 1 and case["p"][i] == 0) for i in range(3)]


def make_w(case):
    """array of primitive variables, one value per cell"""
    F = FieldFn(case)
    X, Y, Z = unit_mesh(case)
    f = case["field"]
    if f["kind"] == "rough":
        rng = np.random.default_rng(f["seed"] + 7)
        b = rng.uniform(-1, 1, size=(F.nv,) + X.shape)
        for i, d in enumerate("xyz"):
            if d in f.get("invariant", ""):
                b = np.repeat(b.take([0], axis=i + 1), X.shape[i], axis=i + 1)
        return F.to_w(b)
    if f["kind"] == "mixed":
        rng = np.random.default_rng(f["seed"] + 7)
        b = F.base(X, Y, Z)
        spikes = rng.uniform(-1, 1, size=b.shape) * (rng.uniform(size=b.shape[1:]) < 0.15)
        for i, d in enumerate("xyz"):
            if d in f.get("invariant", ""):
                spikes = np.repeat(spikes.take([0], axis=i + 1), X.shape[i], axis=i + 1)
        return F.to_w(b + spikes)
    return F(X, Y, Z)


def prim2cons(w, gamma):
    u = np.array(w, dtype=float)
    u[1:4] = w[0] * w[1:4]
    u[4] = w[4] / (gamma - 1) + 0.5 * w[0] * (w[1] ** 2 + w[2] ** 2 + w[3] ** 2)
    u[5:] = w[0] * w[5:]
    return u


def cons2prim(u, gamma):
    w = np.array(u, dtype=float)
    w[1:4] = u[1:4] / u[0]
    w[4] = (gamma - 1) * (u[4] - 0.5 * (u[1] ** 2 + u[2] ** 2 + u[3] ** 2) / u[0])
    w[5:] = u[5:] / u[0]
    return w


def make_u(case):
    return prim2cons(make_w(case), case["gamma"])


# ------------------------------------------------------------------ solvers


class ArrayIC(InitialCondition):
    """initial condition holding given cell values"""

    def base_ic(self, arr=None):
        def f(x, y, z):
            return arr.copy()

        return f


class FuncIC(InitialCondition):
    """initial condition from a function f(x, y, z) -> (5, ...)"""

    def base_ic(self, fn=None):
        def f(x, y, z):
            return fn(x, y, z)

        return f


def passive_names(case):
    return case.get("pnames") or [f"tracer{i}" for i in range(case["npass"])]


def const_fn(a):
    return lambda x, y, z: a.copy()


def domain(case):
    return [
        (case["lo"][i], case["lo"][i] + case["len"][i]) for i in range(3)
    ]


def spacing(case):
    return tuple(
        (b - a) / n for (a, b), n in zip(domain(case), case["n"])
    )


def make_bc(case):
    bc = case.get("bc")
    if bc is None:
        return None
    kw = {}
    for d in "xyz":
        kw[d] = tuple(bc[d])
        vals = bc.get(d + "_value")
        if vals is not None:
            kw[d + "_value"] = vals if callable(vals) else tuple(vals)
    return BoundaryCondition(**kw)


def build(case, u=None, bc="auto", **over):
    """EulerSolver for the problem, starting from the cell averages u"""
    if u is None:
        u = make_u(case)
    x, y, z = domain(case)
    kw = dict(
        nx=case["n"][0],
        ny=case["n"][1],
        nz=case["n"][2],
        px=case["p"][0],
        py=case["p"][1],
        pz=case["p"][2],
        x=x,
        y=y,
        z=z,
        CFL=case["CFL"],
        gamma=case["gamma"],
        riemann_solver=case["rs"],
        fixed_dt=case.get("fixed_dt"),
        bc=make_bc(case) if isinstance(bc, str) else bc,
        conservative_ic=True,
        fv_ic=True,
        progress_bar=False,
    )
    names = passive_names(case)
    kw["w0"] = ArrayIC(arr=u[:5])
    if names:
        kw["w0_passives"] = {nm: const_fn(u[5 + i]) for i, nm in enumerate(names)}
    kw.update(lim_kwargs(case.get("lim")))
    kw.update(over)
    return EulerSolver(**kw)


def lim_kwargs(lim):
    if lim is None:
        return dict(a_posteriori_slope_limiting=False)
    kw = dict(lim)
    if kw.get("NAD_vars") is not None:
        kw["NAD_vars"] = tuple(kw["NAD_vars"])
    if kw.get("PAD") is not None:
        kw["PAD"] = {
            k: (
                -np.inf if a is None else a,
                np.inf if b is None else b,
            )
            for k, (a, b) in kw["PAD"].items()
        }
    return dict(a_posteriori_slope_limiting=True, **kw)


def advance(s, case):
    """advance a solver by case["steps"] steps with case["integ"]"""
    getattr(s, case["integ"])(n=case["steps"])
    return s.am("u")


# ------------------------------------------------------------------ strategies


def pick(*xs):
    return st.sampled_from(list(xs))


SEED = st.integers(0, 2**31 - 1)


@st.composite
def limiting(draw, convex_ok=True, force=True, sed=None):
    lim = dict(
        slope_limiter=draw(pick("minmod", "moncen", None)),
        NAD=draw(pick(1e-2, 1e-5, 0.0, 0.1, 1.0)),
        NAD_mode=draw(pick("global", "local")),
        NAD_range=draw(pick("relative", "absolute")),
        SED=draw(st.booleans()) if sed is None else sed,
        convex=draw(st.booleans()) if convex_ok else False,
    )
    if draw(st.integers(0, 3)) == 0:
        lim["NAD_vars"] = draw(pick(["rho"], ["P"], ["rho", "P"], ["vx", "vy", "vz"], ["vy"]))
    if draw(st.integers(0, 5)) == 0:
        lim["SED_tolerance"] = draw(pick(1e-3, 1e-6, 1e-14, 0.0))
    k = draw(st.integers(0, 7))
    if k == 0:
        lim["PAD"] = {"rho": [0.9, 1.1], "P": [0.0, None]}
    elif k == 1:
        lim["PAD"] = {"P": [0.95, None], "vx": [-0.4, 0.5]}
    elif k == 2:
        lim["PAD"] = {"vz": [None, 0.12], "rho": [0.0, None]}
    elif k == 3:
        lim["PAD"] = {"vy": [-0.3, None], "P": [None, 1.05], "vx": [None, 0.31], "vz": [-0.28, 0.4]}
    elif k == 4:
        lim["PAD"] = {}
    if force and draw(st.integers(0, 7)) == 0:
        lim["force_trouble"] = True
    return lim


@st.composite
def problem(
    draw,
    dims=None,
    pmax=8,
    lim="any",
    bc="periodic",
    npass=None,
    nmax=(40, 12, 7),
    kinds=("rough", "smooth", "jumps", "mixed"),
    rss=tuple(RSS),
    amps=(0.02, 0.1, 0.3),
    aspect=True,
    nmin=1,
    convex_ok=True,
    force=True,
    sed=None,
    thin=True,
    big=True,
):
    nd = draw(pick(1, 1, 2, 2, 3)) if dims is None else None
    if dims is None:
        dims = "".join(sorted(draw(st.permutations("xyz"))[:nd]))
    elif not isinstance(dims, str):
        dims = draw(dims)
    nd = len(dims)
    pcap = min(pmax, 8 if nd < 3 else (4 if draw(st.integers(0, 9)) else 8))
    uniform_p = draw(st.booleans())
    pu = draw(st.integers(0, pcap))
    p = [0, 0, 0]
    for d in dims:
        i = "xyz".index(d)
        p[i] = pu if uniform_p else draw(st.integers(0, pcap))
    n = [1, 1, 1]
    bcs = {d: ["periodic", "periodic"] for d in "xyz"}
    for d in dims:
        i = "xyz".index(d)
        if bc == "periodic":
            pass
        elif bc == "walls":
            if draw(st.booleans()):
                bcs[d] = ["reflective", "reflective"]
        else:  # list of types
            kind = draw(st.integers(0, 2))
            if kind:
                bcs[d] = [draw(st.sampled_from(bc)), draw(st.sampled_from(bc))]
        mirrored = bool({"reflective", "outflow"} & set(bcs[d]))
        lo = max(nmin, min_cells(p, i) if mirrored else 0)
        if not thin:
            lo = max(lo, min_cells(p, i))
        hi = max(nmax[nd - 1], lo + 2)
        n[i] = draw(st.integers(lo, hi))
        if nd == 1 and big and draw(st.integers(0, 19)) == 0:
            n[i] = draw(pick(64, 101, 130, 257))
        if n[i] == 1 and p[i] == 0:
            n[i] = 2
    if nd > 1 and big and draw(st.integers(0, 24)) == 0:
        i = "xyz".index(draw(st.sampled_from(list(dims))))
        n[i] = draw(pick(33, 48, 65) if nd == 2 else pick(17, 33))
    if aspect and draw(st.booleans()):
        ln = [draw(pick(0.5, 1.0, 2.0, 3.7, 40.0)) for _ in range(3)]
        if nd > 1 and draw(st.integers(0, 3)) == 0:
            # cells which are nearly, but not exactly, cubes
            ln = [0.1 * m * draw(pick(1.0, 1.001, 0.995, 1.000001)) for m in n]
        lo3 = [draw(pick(0.0, -0.5, 1.25)) for _ in range(3)]
    else:
        ln, lo3 = [1.0] * 3, [0.0] * 3
    amp = draw(st.sampled_from(list(amps)))
    case = dict(
        n=n,
        p=p,
        lo=lo3,
        len=ln,
        gamma=draw(pick(5 / 3, 1.4, 1.1, 2.0, 3.0)),
        CFL=draw(pick(0.8, 0.5, 0.2, 0.05, 1.0)),
        rs=draw(st.sampled_from(list(rss))),
        npass=draw(pick(0, 0, 1, 2, 3, 6)) if npass is None else draw(npass),
        bc=bcs,
        field=dict(
            kind=draw(st.sampled_from(list(kinds))),
            seed=draw(SEED),
            amp=amp,
            vamp=amp * draw(pick(1.0, 3.0)),
            drift=[draw(pick(0.3, -0.3, 0.0, 1.7, -2.2)) for _ in range(3)],
        ),
    )
    use = draw(pick(True, True, False)) if lim == "any" else lim
    case["lim"] = (
        draw(limiting(convex_ok=convex_ok and nd < 3, force=force, sed=sed)) if use else None
    )
    if draw(st.integers(0, 3)) == 0:
        # variables which are exactly uniform, often exactly zero
        if case["lim"] is None:
            case["field"]["flat"] = [v for v in range(6) if draw(st.booleans())]
        else:
            case["field"]["flat"] = [1 + i for i in range(3) if not active(case)[i] and draw(st.booleans())]
        for v in case["field"]["flat"]:
            if 1 <= v <= 3 and (case["lim"] is not None or draw(st.booleans())):
                case["field"]["drift"][v - 1] = 0.0
    return case


def with_steps(strategy, steps=(1, 2, 3, 5), integ=tuple(INTEG)):
    return st.builds(
        lambda c, k, i: dict(c, steps=k, integ=i),
        strategy,
        st.sampled_from(list(steps)),
        st.sampled_from(list(integ)),
    )


def label(case):
    nd = sum(active(case))
    l = case.get("lim")
    kind = "unlimited" if l is None else ("convex" if l.get("convex") else "simple")
    pm = max(case["p"])
    return f"{nd}d p{'0' if pm == 0 else '1-3' if pm < 4 else '4-8'} {kind}"


LAYOUTS = ("C", "F", "strided", "reversed", "readonly", "moved")


def relayout(a, kind):
    """the same values in an array laid out differently in memory (a seed selects the layout)"""
    if not isinstance(kind, str):
        kind = LAYOUTS[int(kind) % len(LAYOUTS)]
    a = np.asarray(a)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "strided":
        b = np.empty(tuple(2 * n for n in a.shape), dtype=a.dtype)
        b = b[tuple(slice(None, None, 2) for _ in a.shape)]
        b[...] = a
        return b
    if kind == "reversed":
        f = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[f])[f]
    if kind == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if kind == "moved":
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, 0, -1)), -1, 0)
    return a.copy()
