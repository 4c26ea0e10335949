"""C26: the right-hand side and whole runs equal an independent reference implementation"""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import Reject, close, ensure, sub

RULE = (
    "random problems (dimension, per-axis degree, mesh, domain, gas, Riemann solver, boundary "
    "types incl. Dirichlet constants and functions of position and time, passive scalars, limiting "
    "options) with rough, smooth, discontinuous or spiky states; non-trivial if the reference "
    "time derivative is not zero; limited cases whose detection thresholds are met only to "
    "round-off are discarded"
)
ASSUMPTIONS = ["comparison tolerance 1e-9 of the largest flux difference scale"]

BCS = ["periodic2", "free", "outflow", "reflective", "dirichlet"]


def fix_periodic(case):
    for d in "xyz":
        b = case["bc"][d]
        if "periodic2" in b:
            case["bc"][d] = ["periodic", "periodic"]
    return case


@st.composite
def bc_problem(draw, **kw):
    case = draw(gen.problem(bc=BCS, **kw))
    fix_periodic(case)
    case["dseed"] = draw(gen.SEED)
    case["dkind"] = draw(gen.pick("const", "func", "mixed"))
    case["t0"] = draw(gen.pick(0.0, 0.7))
    if draw(st.integers(0, 3)) == 0:
        case["fixed_dt"] = draw(gen.pick(1e-3, 5e-3))
    if draw(st.integers(0, 5)) == 0:
        case["csq_floor"] = draw(gen.pick(0.5, 2.0, 1e-4))
    return case


def dirichlet_values(case):
    """Dirichlet data of each side for the reference and for fvhoe"""
    F = gen.FieldFn(dict(case, field=dict(case["field"], kind="smooth", seed=case["dseed"])))
    vals, bc = {}, {}
    for i, d in enumerate("xyz"):
        pair = []
        for j, pos in enumerate("lr"):
            if case["bc"][d][j] != "dirichlet":
                pair.append(None)
                continue
            c0 = gen.prim2cons(
                F(*[np.full((1, 1, 1), 0.1 + 0.3 * i + 0.1 * j)] * 3), case["gamma"]
            )[:, 0, 0, 0]
            isfn = case["dkind"] == "func" or (case["dkind"] == "mixed" and j == 0)
            if isfn:

                def fn(x, y, z, t, c0=c0, i=i, j=j):
                    s = (
                        1
                        + 0.05 * np.sin(2 * x + 1.3 * y - z + 0.4 * i)
                        + 0.03 * np.cos(3 * t + x + j)
                    )
                    return c0.reshape(-1, 1, 1, 1) * s[np.newaxis]

                vals[d + pos] = fn
                pair.append(fn)
            else:
                vals[d + pos] = c0
                pair.append(c0.copy())
        bc[d + "_value"] = pair
    return vals, bc


def setup(case):
    vals, bcv = dirichlet_values(case)
    case2 = dict(case, bc=dict(case["bc"], **bcv))
    over = {}
    if "csq_floor" in case:
        over["csq_floor"] = case["csq_floor"]
    s = gen.build(case2, **over)
    return s, vals


def rhs_scale(case, u):
    w = gen.cons2prim(u, case["gamma"])
    a = np.abs(w[1:4]).sum(axis=0).max() + np.sqrt(
        np.abs(case["gamma"] * w[4] / w[0]).max()
    )
    h = gen.spacing(case)
    hm = min(h[i] for i in ref.active_axes(case))
    per = np.abs(u).max(axis=(1, 2, 3))
    return (max(per) + 1.0) * (1 + a) ** 2 / hm * max(1.0, np.abs(w[5:]).max() if len(w) > 5 else 0)


@sub("C26", bc_problem(), quick=900, thorough=20000)
def rhs_matches(case):
    s, vals = setup(case)
    u = s.am("u").copy()
    floor = case.get("csq_floor", 1e-10)
    try:
        dt, k = ref.rhs(case, u, case["t0"], vals, csq_floor=floor)
    except ref.Ambiguous:
        raise Reject
    if not (np.all(np.isfinite(k)) and np.isfinite(dt)):
        raise Reject
    dt1, k1 = s.f(case["t0"], u)
    close(dt1, dt, rtol=1e-10, what="proposed step")
    close(k1, k, rtol=2e-11, scale=rhs_scale(case, u), what="time derivative")
    return dict(nontrivial=bool(np.abs(k).max() > 0), label=gen.label(case))


@sub(
    "C26",
    gen.with_steps(bc_problem(nmax=(24, 8, 5), pmax=4, amps=(0.02, 0.1)), steps=(1, 2, 3)),
    quick=300,
    thorough=6000,
)
def run_matches(case):
    s, vals = setup(case)
    u = s.am("u").copy()
    floor = case.get("csq_floor", 1e-10)
    f = lambda t, v: ref.rhs(case, v, t, vals, csq_floor=floor)
    t, v = 0.0, u
    try:
        for _ in range(case["steps"]):
            dt, v = ref.rk_step(f, t, v, case["integ"])
            t += dt
    except ref.Ambiguous:
        raise Reject
    if not np.all(np.isfinite(v)) or v[0].min() <= 0 or np.abs(v).max() > 1e3:
        raise Reject
    got = gen.advance(s, case)
    close(s.t, t, rtol=1e-8, what="time")
    close(got, v, rtol=1e-8, what="state after the run")
    return dict(nontrivial=bool(np.abs(v - u).max() > 1e-12), label=gen.label(case))


@sub(
    "C26",
    gen.with_steps(
        gen.problem(
            rss=("advection_upwind",),
            kinds=("smooth", "rough", "jumps"),
            amps=(0.02, 0.1),
            bc=["periodic2", "free", "outflow"],
        ),
        steps=(1, 2),
    ),
    quick=150,
    thorough=2000,
)
def advection_rhs_matches(case):
    fix_periodic(case)
    s = gen.build(case)
    u = s.am("u").copy()
    try:
        dt, k = ref.rhs(case, u, 0.0, {})
    except ref.Ambiguous:
        raise Reject
    dt1, k1 = s.f(0.0, u)
    close(dt1, dt, rtol=1e-10, what="proposed step")
    close(k1, k, rtol=2e-11, scale=rhs_scale(case, u), what="time derivative")
    return dict(label=gen.label(case))


@st.composite
def aged(draw):
    case = draw(bc_problem(nmax=(20, 6, 4), pmax=6, amps=(0.02, 0.1)))
    case["CFL"] = draw(gen.pick(0.3, 0.5))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        op = draw(gen.pick("n", "n", "T", "snap", "f", "set", "t"))
        ops.append(
            dict(
                n=["n", draw(st.sampled_from(gen.INTEG)), draw(gen.pick(1, 2, 5, 17))],
                T=["T", draw(st.sampled_from(gen.INTEG)), draw(gen.pick(0.4, 1.7, 3.0))],
                snap=["snap"],
                f=["f", draw(gen.pick(0.0, 0.3, 2.0)), draw(gen.SEED)],
                set=["set", draw(gen.SEED)],
                t=["t", draw(gen.pick(0.0, 0.45, 3.0))],
            )[op]
        )
    case["ops"] = ops
    case["state"] = draw(gen.pick("own", "new"))
    return case


@sub("C26", aged(), quick=350, thorough=8000)
def rhs_after_history(case):
    """whatever a solver did before, its right-hand side is that of the state and time it is given"""
    s, vals = setup(case)
    fresh = lambda seed: gen.make_u(dict(case, field=dict(case["field"], seed=seed)))
    dt0 = s.f(0.0, s.am("u"))[0]
    for op, *a in case["ops"]:
        if op == "n":
            getattr(s, a[0])(n=a[1])
        elif op == "T":
            getattr(s, a[0])(T=s.t + a[1] * dt0)
        elif op == "snap":
            s.snapshot()
        elif op == "f":
            s.f(a[0], fresh(a[1]))
        elif op == "set":
            s.am("u")[...] = fresh(a[0])
        else:
            s.t = a[0]
        u = s.am("u")
        if not np.all(np.isfinite(u)) or u[0].min() <= 0 or np.abs(u).max() > 50:
            s.am("u")[...] = fresh(case["field"]["seed"])
    u = s.am("u").copy() if case["state"] == "own" else fresh(case["dseed"])
    floor = case.get("csq_floor", 1e-10)
    ref.UNPHYSICAL[0] = False
    try:
        dt, k = ref.rhs(case, u, case["t0"], vals, csq_floor=floor)
    except ref.Ambiguous:
        raise Reject
    if not (np.all(np.isfinite(k)) and np.isfinite(dt)) or ref.UNPHYSICAL[0]:
        raise Reject
    dt1, k1 = s.f(case["t0"], u)
    close(dt1, dt, rtol=1e-10, what="proposed step")
    close(k1, k, rtol=2e-11, scale=rhs_scale(case, u), what="time derivative after a history")
    return dict(nontrivial=bool(np.abs(k).max() > 0), label=gen.label(case))


@st.composite
def resolved(draw):
    """well resolved waves, where the smooth-extremum exemption decides"""
    nd = draw(gen.pick(1, 2, 2, 3, 3))
    dims = "".join(sorted(draw(st.permutations("xyz"))[:nd]))
    case = draw(
        bc_problem(dims=dims, lim=True, kinds=("smooth",), sed=True, force=False, pmax=4, amps=(0.02, 0.1, 0.2), big=False)
    )
    lo, hi = {1: (24, 50), 2: (12, 20), 3: (8, 11)}[nd]
    for d in dims:
        case["n"]["xyz".index(d)] = draw(st.integers(lo, hi))
    case["field"]["kmax"] = 1
    case["lim"]["NAD"] = draw(gen.pick(0.0, 1e-5, 1e-3))
    if draw(st.booleans()):
        case["lim"].pop("PAD", None)
        case["lim"]["NAD_mode"] = "local"
    # exemption decided by a single axis: a jump along one, smooth along the others
    case["sharp"] = draw(gen.pick(None, None, *[d for d in dims]))
    return case


@sub("C26", resolved(), quick=120, thorough=3000)
def smooth_extrema_matter(case):
    s, vals = setup(case)
    w = gen.make_w(case)
    if case["sharp"] is not None:
        i = "xyz".index(case["sharp"])
        sh = [1, 1, 1]
        sh[i] = case["n"][i]
        saw = (np.arange(case["n"][i]) % 3 == 1).reshape(sh)
        w[0] *= 1 + 0.3 * saw
        w[4] *= 1 + 0.2 * saw
    u = gen.prim2cons(w, case["gamma"])
    floor = case.get("csq_floor", 1e-10)
    try:
        dt, k = ref.rhs(case, u, case["t0"], vals, csq_floor=floor)
        off = dict(case, lim=dict(case["lim"], SED=False))
        _, k0 = ref.rhs(off, u, case["t0"], vals, csq_floor=floor)
    except ref.Ambiguous:
        raise Reject
    if not (np.all(np.isfinite(k)) and np.isfinite(dt)):
        raise Reject
    dt1, k1 = s.f(case["t0"], u.copy())
    close(dt1, dt, rtol=1e-10, what="proposed step")
    close(k1, k, rtol=2e-11, scale=rhs_scale(case, u), what="time derivative")
    return dict(nontrivial=bool(np.abs(k - k0).max() > 1e-9), label=f"{sum(gen.active(case))}d")
