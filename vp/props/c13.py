"""C13: ghost cells are filled as the boundary type says"""

import itertools

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import Reject, close, ensure, raises, sub
from fvhoe.boundary_conditions import BoundaryCondition
from fvhoe.fv import fv_uniform_meshgen
from fvhoe.hydro import HydroState

RULE = (
    "random arrays (all shapes, 0-3 tracers), random boundary types per side and axis, random ghost "
    "widths incl. 0 and widths beyond the domain, Dirichlet constants and functions of position and "
    "time, random slab buffers; every ghost cell is compared with a per-axis reference fill; non-trivial if "
    "at least one ghost cell exists"
)
ASSUMPTIONS = ["copied values are compared exactly, values of user functions to 1e-12"]

TYPES = ["periodic", "free", "outflow", "reflective", "dirichlet"]


@st.composite
def fill(draw):
    n = [draw(st.integers(1, 7)) for _ in range(3)]
    if draw(st.integers(0, 24)) == 0:
        n[draw(st.integers(0, 2))] = draw(gen.pick(33, 70))
    gw = [draw(gen.pick(0, 1, 2, 3, 5, 9)) for _ in range(3)]
    bc = {}
    for i, d in enumerate("xyz"):
        opts = [t for t in TYPES if gw[i] <= n[i] or t not in ("outflow", "reflective")]
        bc[d] = [draw(st.sampled_from(opts)) for _ in "lr"]
        if draw(st.booleans()):
            bc[d][1] = bc[d][0]
    return dict(
        n=n,
        gw=gw,
        bc=bc,
        lo=[draw(gen.pick(0.0, -1.5, 0.25)) for _ in range(3)],
        len=[draw(gen.pick(1.0, 0.3, 4.0)) for _ in range(3)],
        npass=draw(st.integers(0, 3)),
        seed=draw(gen.SEED),
        buffer=draw(st.integers(0, 4)),
        single=draw(st.booleans()),
        t=draw(gen.pick(0.0, 0.3, 2.5)),
        fn=[draw(st.booleans()) for _ in range(6)],
        order=draw(gen.pick("C", "F", "view")),
    )


def boundary_fn(vec, k):
    def f(x, y, z, t):
        s = 1 + 0.3 * np.sin(2 * x - y + 3 * z + k) * np.cos(1.7 * t + x)
        return vec.reshape(-1, 1, 1, 1) * s[np.newaxis]

    return f


def slabs(case, extra=0):
    n = tuple(case["n"])
    thick = tuple(g + extra for g in case["gw"])
    dom = [(a, a + l) for a, l in zip(case["lo"], case["len"])]
    if thick == (0, 0, 0):
        thick = (1, 1, 1)
    _, sc = fv_uniform_meshgen(n, *dom, slab_thickness=thick)
    return sc


def make(case, values=True):
    rng = np.random.default_rng(case["seed"])
    nv = 5 + case["npass"]
    kw, ref_vals = {}, {}
    k = 0
    for i, d in enumerate("xyz"):
        kinds = list(case["bc"][d])
        vals = []
        for pos, kind in zip("lr", kinds):
            v = None
            if kind == "dirichlet":
                vec = rng.normal(size=nv)
                v = boundary_fn(vec, k) if case["fn"][k] else vec
                ref_vals[d + pos] = v
            vals.append(v)
            k += 1
        if case["single"] and kinds[0] == kinds[1] != "dirichlet":
            kw[d] = kinds[0]
        else:
            kw[d] = tuple(kinds)
            kw[d + "_value"] = tuple(vals)
    hs = HydroState(passive_scalars=tuple(f"q{j}" for j in range(case["npass"])))
    u = rng.normal(size=(nv,) + tuple(case["n"]))
    if case.get("order") == "F":
        u = np.asfortranarray(u)
    elif case.get("order") == "view":
        u = np.repeat(u, 2, axis=3)[:, :, :, ::2]
    return kw, hs, u, ref_vals


@sub("C13", fill(), quick=3500, thorough=60000)
def ghost_fill(case):
    kw, hs, u, vals = make(case)
    bc = BoundaryCondition(hydro_state=hs, slab_coords=slabs(case, case["buffer"]), **kw)
    keep = u.copy()
    gw = tuple(case["gw"])
    for t in (case["t"], case["t"] + 0.7):
        out = bc.apply(u, gw=gw, t=t)
        ensure(np.array_equal(u, keep), "the input was modified")
        want = ref.pad(case, keep, gw, t, vals)
        ensure(out.shape == want.shape, f"shape {out.shape}, expected {want.shape}")
        inner = (slice(None),) + tuple(slice(g, g + m) for g, m in zip(gw, case["n"]))
        ensure(np.array_equal(out[inner], keep), "the interior changed")
        close(out, want, rtol=1e-12, atol=0.0, scale=np.abs(want) + 1e-2, what=f"ghost cells at t={t}")
        if not any(case["fn"]):
            ensure(np.array_equal(out, want), "copied values changed")
        ensure(not np.shares_memory(out, u) or gw == (0, 0, 0), "the padded array aliases the input")
    return dict(nontrivial=any(gw), label="-".join(sorted({k for d in "xyz" for k in case["bc"][d]})))


@st.composite
def reuse(draw):
    a = draw(fill())
    i = draw(gen.pick(0, 1, 2))
    d = "xyz"[i]
    a["gw"] = [max(g, int(k == i)) for k, g in enumerate(a["gw"])]
    a["bc"][d][draw(gen.pick(0, 1))] = "dirichlet"
    if a["gw"][i] > a["n"][i]:
        a["bc"][d] = ["dirichlet" if k in ("outflow", "reflective") else k for k in a["bc"][d]]
    b = dict(draw(fill()), n=list(a["n"]), bc=a["bc"], gw=list(a["gw"]), npass=a["npass"], lo=list(a["lo"]), len=list(a["len"]))
    # a second mesh, sometimes one whose ghost cells begin at the same point
    h = a["len"][i] / a["n"][i]
    b["len"][i] *= 2
    b["lo"][i] += draw(gen.pick(0.0, (a["gw"][i] - 0.5) * h, -(a["n"][i] + 0.5) * h))
    ops = draw(
        st.lists(
            st.one_of(
                st.builds(lambda j, t, g: ["apply", j, t, g], gen.pick(0, 1), gen.pick(0.0, 0.3, 2.5), gen.pick(0, 0, 1)),
                st.builds(lambda j, q, f: ["value", j, q, f], gen.pick(0, 1), st.integers(0, 5), st.booleans()),
            ),
            min_size=3,
            max_size=9,
        )
    )
    return dict(meshes=[a, b], ops=ops)


@sub("C13", reuse(), quick=700, thorough=12000)
def one_object_many_uses(case):
    """boundaries applied again and again, with other states, times, widths and values in between"""
    rng = np.random.default_rng(case["meshes"][0]["seed"])
    objs = []
    for c in case["meshes"]:
        kw, hs, u, vals = make(c)
        bc = BoundaryCondition(hydro_state=hs, slab_coords=slabs(c, c["buffer"]), **kw)
        objs.append((c, bc, vals, u.shape))
    changed = applied = 0
    for op in case["ops"] + [["apply", 0, 0.3, 0], ["apply", 1, 0.3, 0]]:
        c, bc, vals, shape = objs[op[1]]
        if op[0] == "value":
            d, pos = "xyz"[op[2] // 2], "lr"[op[2] % 2]
            if d + pos not in vals:
                continue
            vec = rng.normal(size=shape[0])
            vals[d + pos] = boundary_fn(vec, 7) if op[3] else vec
            bc.reset_value(d, pos, vals[d + pos])
            changed += applied > 0
            continue
        gw = tuple(g - 1 if op[3] and g > 1 else g for g in c["gw"])
        u = rng.normal(size=shape)
        out = bc.apply(u, gw=gw, t=op[2])
        want = ref.pad(c, u, gw, op[2], vals)
        close(out, want, rtol=1e-12, atol=0.0, scale=np.abs(want) + 1e-2, what=f"ghost cells of object {op[1]} at t={op[2]}")
        applied += 1
    return dict(nontrivial=applied > 2, label="value replaced" if changed else "same values")


@st.composite
def mach(draw):
    case = draw(fill())
    n, gw = case["n"], case["gw"]
    gw[1] = min(gw[1] or 1, n[1])
    n[0] = draw(st.integers(4, 14))
    gw[0] = min(gw[0], n[0])
    case["bc"]["x"] = [draw(gen.pick("free", "outflow", "dirichlet")) for _ in "lr"]
    case["bc"]["y"] = ["special-case-double-mach-reflection-y=0", draw(gen.pick("free", "outflow", "dirichlet"))]
    case["len"][0] = draw(gen.pick(1.0, 2.0, 0.7))
    case["lo"][0] = draw(gen.pick(0.0, -0.5, 0.1))
    return case


@sub("C13", mach(), quick=800, thorough=10000)
def double_mach(case):
    kw, hs, u, vals = make(case)
    bc = BoundaryCondition(hydro_state=hs, slab_coords=slabs(case, case["buffer"]), **kw)
    out = bc.apply(u, gw=tuple(case["gw"]), t=case["t"])
    c1 = dict(case, bc=dict(case["bc"], y=["free", case["bc"]["y"][1]]))
    c2 = dict(case, bc=dict(case["bc"], y=["reflective", case["bc"]["y"][1]]))
    free = ref.pad(c1, u, case["gw"], case["t"], vals)
    refl = ref.pad(c2, u, case["gw"], case["t"], vals)
    x = ref.cell_coords(case, 0, np.arange(-case["gw"][0], case["n"][0] + case["gw"][0]))
    if np.any(np.abs(x - 1 / 6) < 1e-9):
        raise Reject
    want = np.where((x < 1 / 6).reshape(1, -1, 1, 1), free, refl)
    close(out, want, rtol=1e-12, scale=np.abs(want) + 1e-2, what="double Mach reflection ghost cells")
    return dict(nontrivial=bool((x < 1 / 6).any() and (x > 1 / 6).any()))


@st.composite
def bad(draw):
    case = draw(fill())
    case["what"] = draw(gen.pick("unknown", "thin", "buffer", "value", "tuple", "list", "valuelist"))
    case["side"] = draw(gen.pick(0, 1))
    case["ax"] = draw(gen.pick(0, 1, 2))
    case["name"] = draw(gen.pick("Periodic", "wall", "", "neumann", "reflect", "icc"))
    case["mirror"] = draw(gen.pick("outflow", "reflective"))
    case["junk"] = draw(gen.pick(None, 1.0, "free"))
    return case


@sub("C13", bad(), quick=1200, thorough=15000)
def impossible_requests(case):
    """rejected with an error, never filled with arbitrary data"""
    case = dict(case, gw=list(case["gw"]), bc={d: list(v) for d, v in case["bc"].items()})
    i, j = case["ax"], case["side"]
    d = "xyz"[i]
    case["gw"][i] = max(case["gw"][i], 2)
    for k, e in enumerate("xyz"):
        if case["gw"][k] > case["n"][k]:
            case["bc"][e] = [b if b not in ("outflow", "reflective") else "free" for b in case["bc"][e]]
    what = case["what"]
    gw = tuple(case["gw"])
    if what == "unknown":
        case["bc"][d][j] = case["name"]
    elif what == "thin":
        case["bc"][d][j] = case["mirror"]
        case["gw"][i] = case["n"][i] + 1 + case["seed"] % 3
        gw = tuple(case["gw"])
    elif what in ("buffer", "value"):
        case["bc"][d][j] = "dirichlet"
    kw, hs, u, _ = make(case)
    sc = slabs(case, 1)
    if what == "tuple":
        kw[d] = ("free", "free", "free")
        kw.pop(d + "_value", None)
    elif what == "list":
        kw[d] = ["free", "free"]
        kw.pop(d + "_value", None)
    elif what == "valuelist":
        kw[d] = ("dirichlet", "dirichlet")
        kw[d + "_value"] = [1.0, 2.0]
    elif what == "value":
        pair = list(kw[d + "_value"])
        pair[j] = case["junk"]
        kw[d + "_value"] = tuple(pair)
    elif what == "buffer":
        small = dict(case, gw=[max(0, g - (1 if k == i else 0)) for k, g in enumerate(case["gw"])])
        sc = slabs(small, 0)

    def go():
        bc = BoundaryCondition(hydro_state=hs, slab_coords=sc, **kw)
        bc.apply(u, gw=gw, t=0.0)

    raises(go, (ValueError,), what=f"{what} on side {j} of {d}")
    return dict(label=what)


# ------------------------------------------------------------------ solver wiring


@st.composite
def wired(draw):
    case = draw(
        gen.problem(
            bc=["free", "outflow", "reflective", "dirichlet", "ic", "periodic2"],
            nmax=(14, 7, 4),
            pmax=4,
            lim=False,
            kinds=("smooth",),
            amps=(0.1,),
        )
    )
    for d in "xyz":
        if "periodic2" in case["bc"][d]:
            case["bc"][d] = ["periodic", "periodic"]
    case["fn"] = [draw(st.booleans()) for _ in range(6)]
    case["gw"] = [draw(gen.pick(1, 2, 4)) if a else 0 for a in gen.active(case)]
    for i, d in enumerate("xyz"):
        case["gw"][i] = min(case["gw"][i], case["n"][i])
    case["t"] = draw(gen.pick(0.0, 0.4))
    case["cons"] = draw(st.booleans())
    case["integ"] = draw(st.sampled_from(gen.INTEG))
    return case


def pointwise(case):
    F = gen.FieldFn(case)

    def w(x, y, z):
        X = [(c - case["lo"][i]) / case["len"][i] for i, c in enumerate((x, y, z))]
        return F(*X)

    return w


def wired_solver(case, seed=5, times=None):
    rng = np.random.default_rng(case["field"]["seed"] + seed)
    w = pointwise(case)
    vals, bckw = {}, {}
    k = 0
    for d in "xyz":
        pair = []
        for pos, kind in zip("lr", case["bc"][d]):
            v = None
            if kind == "dirichlet":
                base = np.array([1, 0.2, -0.1, 0.3, 2.5] + [0.5] * case["npass"])
                vec = base * (1 + 0.1 * rng.uniform(-1, 1, size=base.shape))
                v = boundary_fn(vec, k) if case["fn"][k] else vec
                vals[d + pos] = v
                if times is not None and callable(v):

                    def v(x, y, z, t, f=v):
                        times.append(t)
                        return f(x, y, z, t)

            elif kind == "ic":
                vals[d + pos] = lambda x, y, z, t: gen.prim2cons(w(x, y, z), case["gamma"])
            pair.append(v)
            k += 1
        bckw[d] = tuple(case["bc"][d])
        bckw[d + "_value"] = tuple(pair)
    user = BoundaryCondition(**bckw)
    g = case["gamma"]
    if case["cons"]:
        fn = lambda x, y, z: gen.prim2cons(w(x, y, z), g)
    else:
        fn = w
    # a tracer enters as specified: per volume for conservative, per mass for primitive data
    s = gen.build(
        case,
        u=np.zeros((5 + case["npass"],) + tuple(case["n"])),
        bc=user,
        conservative_ic=case["cons"],
        fv_ic=False,
        w0=gen.FuncIC(fn=lambda x, y, z: fn(x, y, z)[:5]),
        w0_passives={
            nm: (lambda x, y, z, q=q: fn(x, y, z)[5 + q])
            for q, nm in enumerate(gen.passive_names(case))
        }
        or None,
    )
    return s, vals, user


@sub("C13", wired(), quick=500, thorough=8000)
def solver_boundaries(case):
    """the solver applies the requested conditions, with its own coordinates and variables"""
    s, vals, user = wired_solver(case)
    u = s.am("u").copy()
    out = s.bc.apply(u, gw=tuple(case["gw"]), t=case["t"])
    want = ref.pad(case, u, case["gw"], case["t"], vals)
    close(out, want, rtol=1e-11, scale=np.abs(want) + 1, what="ghost cells")
    kinds = {k for d in "xyz" for k in case["bc"][d]}
    return dict(nontrivial=any(case["gw"]), label="ic" if "ic" in kinds else "dirichlet" if "dirichlet" in kinds else "other")


@sub("C13", wired(), quick=200, thorough=3000)
def stage_times(case):
    """functions of time are evaluated at the time of each Runge-Kutta stage"""
    act = [i for i, a in enumerate(gen.active(case)) if a]
    d = "xyz"[act[-1]]
    case = dict(case, bc=dict(case["bc"]))
    case["bc"][d] = ["dirichlet", "dirichlet"]
    case["fn"] = [True] * 6
    times = []
    s, vals, user = wired_solver(case, times=times)
    times.clear()
    getattr(s, case["integ"])(n=3)
    if not np.all(np.isfinite(s.timestamps)):
        raise Reject
    c, A, b = ref.TABLEAU[case["integ"]]
    want = []
    for t0, t1 in zip(s.timestamps[:-1], s.timestamps[1:]):
        want += [t0 + ci * (t1 - t0) for ci in c]
    want.append(s.timestamps[-1])
    want = np.array(want)
    got = np.array(times)
    tol = 1e-12 * (1 + want.max())
    # every evaluation is at a stage time, every stage time is used, in order
    ensure(
        all(np.min(np.abs(want - t)) <= tol for t in got),
        lambda: f"boundary evaluated at {sorted(set(times))}, stages are at {sorted(set(want))}",
    )
    ensure(all(np.min(np.abs(got - t)) <= tol for t in want[:-1]), lambda: f"stage times {want} not used: {sorted(set(times))}")
    return dict(label=case["integ"])
