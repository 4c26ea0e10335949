"""C18: limiting changes only the faces of troubled cells"""

import numpy as np
from hypothesis import strategies as st

import common
import gen
import ref
from core import Reject, close, ensure, sub
from fvhoe.slope_limiting import broadcast_to_troubled_interfaces

RULE = (
    "random trouble patterns on meshes along any axes, periodic or not, simple and convex, compared with "
    "the documented distance weights; random solver states stepped with limiting on, off and forced, "
    "compared cell by cell; non-trivial if some but not all cells are troubled"
)
ASSUMPTIONS = ["round-off is 1e-10 of the state", "steps are single forward Euler steps of equal size"]


@st.composite
def pattern(draw):
    nd = draw(gen.pick(1, 1, 2, 2, 3))
    dims = "".join(sorted(draw(st.permutations("xyz"))[:nd]))
    return dict(
        dims=dims,
        n=[
            (draw(st.integers(2, {1: 20, 2: 9, 3: 5}[nd])) if draw(st.integers(0, 24)) else draw(gen.pick(33, 66)))
            if d in dims
            else 1
            for d in "xyz"
        ],
        per=[draw(st.booleans()) for _ in range(3)],
        convex=draw(st.booleans()) if nd < 3 else False,
        seed=draw(gen.SEED),
        density=draw(gen.pick(0.03, 0.1, 0.3, 0.9)),
        dtype=draw(gen.pick("int", "bool", "float")),
    )


@sub("C18", pattern(), quick=4000, thorough=60000)
def face_weights(case):
    rng = np.random.default_rng(case["seed"])
    n = tuple(case["n"])
    t = rng.uniform(size=n) < case["density"]
    if not t.any():
        t[tuple(rng.integers(0, m) for m in n)] = True
    arr = t.astype(dict(int=int, bool=bool, float=float)[case["dtype"]])
    keep = arr.copy()
    out = broadcast_to_troubled_interfaces(
        arr,
        dims=case["dims"],
        convex=case["convex"],
        periodic_x=case["per"][0],
        periodic_y=case["per"][1],
        periodic_z=case["per"][2],
    )
    ensure(np.array_equal(arr, keep), "the input was modified")
    act = ["xyz".index(d) for d in case["dims"]]
    want = ref.face_weights(t, act, case["convex"], case["per"])
    for i in range(3):
        sh = [1] + list(n)
        sh[1 + i] += 1
        ensure(list(out[i].shape) == sh, f"shape {out[i].shape} of axis {i}")
        if i in act:
            close(out[i][0], want[i], rtol=0, atol=1e-14, what=f"weights of the faces along axis {i}")
            if case["per"][i]:
                a, b = np.take(out[i], 0, axis=1 + i), np.take(out[i], -1, axis=1 + i)
                ensure(np.array_equal(a, b), "the copies of a periodic face differ")
        else:
            ensure(np.all(out[i] == 0), "weights along an inactive axis")
    return dict(nontrivial=bool(t.any() and not t.all()), label=f"{len(act)}d {'convex' if case['convex'] else 'simple'}")


@st.composite
def runs(draw, **kw):
    case = draw(
        gen.problem(
            bc=["periodic2", "free", "outflow", "reflective"],
            lim=True,
            force=False,
            amps=(0.02, 0.1, 0.3),
            nmax=(36, 10, 6),
            pmax=5,
            **kw,
        )
    )
    common.fix_periodic(case)
    h = min(case["len"][i] / case["n"][i] for i in range(3))
    case["fixed_dt"] = 0.05 * h
    return case


def one_step(case, u, lim):
    c = dict(case, lim=lim)
    s = gen.build(c, u)
    s.euler(n=1)
    v = s.am("u").copy()
    if not np.all(np.isfinite(v)):
        raise Reject
    return v, s


def dilate(t, act, per, reach):
    """cells within reach of a flagged one, along each axis alone or in any combination"""
    out = t.copy()
    for i in act:
        acc = out.copy()
        for k in range(1, reach + 1):
            for sgn in (-1, 1):
                r = np.roll(out, sgn * k, axis=i)
                if not per[i]:
                    idx = [slice(None)] * 3
                    m = min(k, out.shape[i])
                    idx[i] = slice(0, m) if sgn > 0 else slice(out.shape[i] - m, None)
                    r = r.copy()
                    r[tuple(idx)] = False
                acc |= r
        out = acc
    return out


@sub("C18", runs(), quick=700, thorough=12000)
def locality(case):
    """
    far from troubled cells the step equals the unlimited one, in troubled cells of the simple
    mode it equals the fully limited one, without trouble it is the unlimited one everywhere
    """
    u = gen.make_u(case)
    lim = case["lim"]
    a, s = one_step(case, u, lim)
    b, _ = one_step(case, u, None)
    c, sf = one_step(case, u, dict(lim, force_trouble=True))
    ensure(np.all(sf.snapshots[-1]["trouble"] == 1), "forced trouble is not logged everywhere")
    t = s.snapshots[-1]["trouble"]
    ensure(np.all((t == 0) | (t == 1)), "trouble of a single-stage step")
    t = t.astype(bool)
    act = ref.active_axes(case)
    per = [case["bc"][d] == ["periodic", "periodic"] for d in "xyz"]
    near = dilate(t, act, per, 3 if lim["convex"] else 1)
    sc = common.scale(b)
    free = ~near
    close(a[:, free], b[:, free], rtol=1e-11, scale=sc[:, :, 0, 0], what="cells away from trouble")
    if not lim["convex"]:
        close(a[:, t], c[:, t], rtol=1e-11, scale=sc[:, :, 0, 0], what="troubled cells")
    if not t.any():
        close(a, b, rtol=1e-12, scale=sc, what="step without trouble")
    if t.all():
        close(a, c, rtol=1e-12, scale=sc, what="step with trouble everywhere")
    return dict(nontrivial=bool(t.any() and free.any()), label=gen.label(case))


@sub("C18", runs(), quick=400, thorough=8000)
def blended_step(case):
    """the step equals blending high-order and limited fluxes with the face weights of the logged trouble"""
    u = gen.make_u(case)
    a, s = one_step(case, u, case["lim"])
    t = s.snapshots[-1]["trouble"].astype(bool)
    dt, F = ref.fluxes(case, u, case["p"], None, 0.0, {})
    o = ref.lim_options(case["lim"])
    _, Fl = ref.fluxes(case, u, [int(q > 0) for q in case["p"]], o["slope_limiter"], 0.0, {})
    per = [case["bc"][d] == ["periodic", "periodic"] for d in "xyz"]
    th = ref.face_weights(t, ref.active_axes(case), o["convex"], per)
    F = {d: (1 - th[d]) * F[d] + th[d] * Fl[d] for d in F}
    want = u + case["fixed_dt"] * ref.divergence(case, F)
    close(a, want, rtol=1e-10, scale=common.scale(want), what="blended step")
    return dict(nontrivial=bool(t.any() and not t.all()), label=gen.label(case))


@sub("C18", runs(), quick=300, thorough=6000)
def forced_is_second_order(case):
    """with trouble everywhere the degree (above 0) does not matter, nor do the detection settings"""
    rng = np.random.default_rng(case["field"]["seed"])
    # the ghost width grows with the degree: choose walls only where both fit
    p2 = [int(rng.integers(1, 6)) if q > 0 else 0 for q in case["p"]]
    if max(p2) == 0:
        raise Reject
    for i, d in enumerate("xyz"):
        if {"outflow", "reflective"} & set(case["bc"][d]) and case["n"][i] < gen.min_cells(p2, i):
            raise Reject
    u = gen.make_u(case)
    lim = dict(case["lim"], force_trouble=True)
    a, _ = one_step(case, u, lim)
    c2 = dict(case, p=p2)
    lim2 = dict(lim, NAD=0.5, SED=False, NAD_mode="local", NAD_range="relative", convex=False)
    b, _ = one_step(c2, u, lim2)
    close(a, b, rtol=1e-11, scale=common.scale(b), what=f"degrees {case['p']} and {p2}")
    return dict(nontrivial=p2 != case["p"], label=gen.label(case))
