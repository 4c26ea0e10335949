"""C03: polynomial exactness of interpolation, averaging, quadrature; mesh geometry"""

import itertools

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import close, ensure, raises, sub
from fvhoe import fv, stencils

RULE = (
    "random polynomials with coefficients in [-1, 1] of degree up to p along a random axis of "
    "arrays with 1 to 4 axes, all degrees 0-8 and positions; random per-axis degree triples for "
    "the 3D operators and the quadrature; random meshes and slabs; non-trivial if the degree of the "
    "polynomial is at least 1"
)
ASSUMPTIONS = ["round-off is 1e-12 of the largest value entering the stencil"]

COEF = st.floats(-1, 1).map(lambda x: round(x, 3))


def poly_val(c, x):
    return sum(a * x**k for k, a in enumerate(c))


def poly_avg(c, a, b):
    """average over [a, b] without cancellation: Gauss-Legendre exact to degree 19"""
    g, w = np.polynomial.legendre.leggauss(10)
    m, r = 0.5 * (a + b), 0.5 * (b - a)
    return sum(0.5 * wi * poly_val(c, m + r * gi) for gi, wi in zip(g, w))


@st.composite
def line(draw):
    p = draw(st.integers(0, 8))
    deg = draw(st.integers(0, p))
    c = [draw(COEF) for _ in range(deg + 1)]
    c[-1] = c[-1] or 1.0
    ndim = draw(st.integers(1, 4))
    return dict(
        p=p,
        coef=c,
        axis=draw(st.integers(0, ndim - 1)),
        other=[draw(st.integers(1, 3)) for _ in range(ndim - 1)],
        n=draw(st.integers(2 * ((p + 1) // 2) + 1, 2 * ((p + 1) // 2) + draw(gen.pick(*[9] * 12, 120)))),
        pos=draw(gen.pick("l", "c", "r")),
        seed=draw(gen.SEED),
        mono=draw(st.booleans()),
    )


def spread(vals, case):
    """place the 1D data along the axis, scaled differently in every other cell"""
    rng = np.random.default_rng(case["seed"])
    other = tuple(case["other"])
    amp = rng.uniform(-2, 2, size=other)
    a = amp[..., np.newaxis] * vals
    return gen.relayout(np.moveaxis(a, -1, case["axis"]), case["seed"]), amp


def cells(case):
    """cell centres in units where the data stays of order one"""
    n = case["n"]
    h = 2.0 / n
    return -1 + (np.arange(n) + 0.5) * h, h


@sub("C03", line(), quick=4000, thorough=60000)
def interpolation_exact(case):
    p, c = case["p"], case["coef"]
    x, h = cells(case)
    avg = poly_avg(c, x - h / 2, x + h / 2)
    u, amp = spread(avg, case)
    keep = u.copy()
    out = fv.conservative_interpolation(u, p=p, axis=case["axis"], pos=case["pos"])
    ensure(np.array_equal(u, keep), "input modified")
    r = (p + 1) // 2
    off = {"l": -0.5, "c": 0.0, "r": 0.5}[case["pos"]] * h
    xi = x[r : len(x) - r] if r else x
    want = np.moveaxis(amp[..., np.newaxis] * poly_val(c, xi + off), -1, case["axis"])
    close(out, want, rtol=1e-12, scale=np.abs(u).max() + 1e-30, what=f"p={p} {case['pos']}")
    return dict(nontrivial=len(c) > 1, label=f"p{p}{case['pos']}")


@sub("C03", line(), quick=2500, thorough=40000)
def averaging_exact(case):
    p, c = case["p"], case["coef"]
    x, h = cells(case)
    u, amp = spread(poly_val(c, x), case)
    keep = u.copy()
    out = fv.transverse_reconstruction(u, p=p, axis=case["axis"])
    ensure(np.array_equal(u, keep), "input modified")
    r = (p + 1) // 2
    xi = x[r : len(x) - r] if r else x
    want = np.moveaxis(
        amp[..., np.newaxis] * poly_avg(c, xi - h / 2, xi + h / 2), -1, case["axis"]
    )
    close(out, want, rtol=1e-12, scale=np.abs(u).max() + 1e-30, what=f"p={p}")
    return dict(nontrivial=len(c) > 1, label=f"p{p}")


@sub(
    "C03",
    st.builds(
        lambda p, pos, seed: dict(p=p, pos=pos, seed=seed),
        st.integers(0, 8),
        gen.pick("l", "c", "r"),
        gen.SEED,
    ),
    quick=300,
    thorough=3000,
)
def rough_data_stencils(case):
    """
    on arbitrary data: the right value is the left value of the mirrored data, the centre
    value does not change under mirroring, and even degrees are uniquely determined
    """
    p = case["p"]
    rng = np.random.default_rng(case["seed"])
    u = rng.normal(size=(2, 14))
    L = fv.conservative_interpolation(u, p=p, axis=1, pos="l")
    R = fv.conservative_interpolation(u[:, ::-1], p=p, axis=1, pos="r")[:, ::-1]
    close(L, R, rtol=1e-13, what="mirror of the left value")
    C = fv.conservative_interpolation(u, p=p, axis=1, pos="c")
    close(C, fv.conservative_interpolation(u[:, ::-1], p=p, axis=1, pos="c")[:, ::-1], rtol=1e-13, what="mirror of the centre value")
    A = fv.transverse_reconstruction(u, p=p, axis=1)
    close(A, fv.transverse_reconstruction(u[:, ::-1], p=p, axis=1)[:, ::-1], rtol=1e-13, what="mirror of the average")
    if p % 2 == 0:
        got = fv.conservative_interpolation(u, p=p, axis=1, pos=case["pos"])
        close(got, ref.sweep(u, ref.interp_weights(p, case["pos"]), 1), rtol=1e-12, what="interpolation")
        close(A, ref.sweep(u, ref.average_weights(p), 1), rtol=1e-12, what="averaging")
    # the ghost cells a sweep consumes are what the stencil size says
    r = stencils.get_stencil_size(p)
    ensure(u.shape[1] - A.shape[1] == 2 * r, "stencil size of the averaging")
    ensure(u.shape[1] - C.shape[1] == 2 * r, "stencil size of the interpolation")
    ensure(stencils.get_stencil_size(p, mode="total") == 2 * r + 1, "total stencil size")
    return dict(label=f"p{p}")


@st.composite
def box(draw, pmax=8):
    p = [draw(st.integers(0, pmax)) for _ in range(3)]
    deg = [draw(st.integers(0, q)) for q in p]
    coef = [[draw(COEF) for _ in range(d + 1)] for d in deg]
    for c in coef:
        c[-1] = c[-1] or 1.0
    return dict(
        p=p,
        coef=coef,
        n=[draw(st.integers(1, 3)) for _ in range(3)],
        lo=[draw(gen.pick(0.0, -1.0, 0.5)) for _ in range(3)],
        len=[draw(gen.pick(1.0, 0.5, 2.0)) for _ in range(3)],
        nv=draw(st.integers(1, 3)),
        seed=draw(gen.SEED),
    )


@sub("C03", box(), quick=600, thorough=8000)
def centres_and_averages_3d(case):
    p, coef = case["p"], case["coef"]
    r = [(q + 1) // 2 for q in p]
    rng = np.random.default_rng(case["seed"])
    amp = rng.uniform(0.5, 2, size=case["nv"])
    xs, pts, avs = [], [], []
    for i in range(3):
        n = case["n"][i] + 4 * r[i]
        h = 2.0 / n
        x = -1 + (np.arange(n) + 0.5) * h
        pts.append(poly_val(coef[i], x) * np.ones_like(x))
        avs.append(poly_avg(coef[i], x - h / 2, x + h / 2) * np.ones_like(x))

    def outer(a, cut):
        a = [v[c : len(v) - c] for v, c in zip(a, cut)]
        return amp.reshape(-1, 1, 1, 1) * np.einsum("i,j,k->ijk", *a)[np.newaxis]

    zero, two = [0, 0, 0], [2 * q for q in r]
    U = outer(avs, zero)
    C = fv.interpolate_cell_centers(U, p=tuple(p))
    sc = np.abs(U).max() + np.abs(outer(pts, zero)).max()
    close(C, outer(pts, r), rtol=1e-11, scale=sc, what="centres from averages")
    A = fv.interpolate_fv_averages(C, p=tuple(p))
    close(A, outer(avs, two), rtol=1e-11, scale=sc, what="averages from centres")
    return dict(nontrivial=any(len(c) > 1 for c in coef), label=f"pmax{max(p)}")


@sub("C03", box(), quick=700, thorough=8000)
def quadrature_exact(case):
    p, coef = case["p"], case["coef"]
    dom = [(a, a + l) for a, l in zip(case["lo"], case["len"])]
    n = tuple(case["n"])
    X, Y, Z = fv.fv_uniform_meshgen(n, *dom)
    h = tuple((b - a) / m for (a, b), m in zip(dom, n))
    rng = np.random.default_rng(case["seed"])
    amp = rng.uniform(0.5, 2, size=case["nv"])

    def f(x, y, z):
        v = poly_val(coef[0], x) * poly_val(coef[1], y) * poly_val(coef[2], z)
        return amp.reshape(-1, 1, 1, 1) * (v * np.ones_like(x))[np.newaxis]

    got = fv.fv_average(f, X, Y, Z, h=h, p=tuple(p))
    av = []
    for i in range(3):
        c = dom[i][0] + (np.arange(n[i]) + 0.5) * h[i]
        av.append(poly_avg(coef[i], c - h[i] / 2, c + h[i] / 2) * np.ones_like(c))
    want = amp.reshape(-1, 1, 1, 1) * np.einsum("i,j,k->ijk", *av)[np.newaxis]
    sc = 1.0 + np.abs(f(X, Y, Z)).max() + np.abs(want).max()
    close(got, want, rtol=1e-11, scale=sc, what="cell averages")
    return dict(nontrivial=any(len(c) > 1 for c in coef), label=f"pmax{max(p)}")


@st.composite
def mesh(draw):
    return dict(
        n=[draw(st.one_of(*[st.integers(1, 12)] * 12, gen.pick(40, 77))) for _ in range(3)],
        lo=[draw(st.floats(-10, 10)) for _ in range(3)],
        len=[draw(st.floats(0.01, 20)) for _ in range(3)],
        slab=[draw(st.integers(0, 6)) for _ in range(3)],
    )


@sub("C03", mesh(), quick=800, thorough=8000)
def mesh_geometry(case):
    n = case["n"]
    dom = [(a, a + l) for a, l in zip(case["lo"], case["len"])]
    h = [(b - a) / m for (a, b), m in zip(dom, n)]
    sc = max(abs(v) for ab in dom for v in ab) + max(h) * 10
    slab = tuple(case["slab"])

    def axis(i, idx):
        return dom[i][0] + (np.asarray(idx) + 0.5) * h[i]

    def expect(ranges):
        return np.meshgrid(*[axis(i, r) for i, r in enumerate(ranges)], indexing="ij")

    inner = expect([np.arange(m) for m in n])
    if slab == (0, 0, 0):
        got = fv.fv_uniform_meshgen(tuple(n), *dom)
    else:
        got, slabs = fv.fv_uniform_meshgen(tuple(n), *dom, slab_thickness=slab)
    for a, b in zip(got, inner):
        close(a, b, rtol=1e-13, scale=sc, what="mesh")
    if slab != (0, 0, 0):
        for (i, d), pos in itertools.product(enumerate("xyz"), "lr"):
            rng = []
            for j in range(3):
                if j == i:
                    rng.append(
                        np.arange(-slab[j], 0) if pos == "l" else np.arange(n[j], n[j] + slab[j])
                    )
                else:
                    rng.append(np.arange(-slab[j], n[j] + slab[j]))
            for a, b in zip(slabs[d + pos], expect(rng)):
                close(a, b, rtol=1e-12, scale=sc, what=f"slab {d}{pos}")
    return dict(nontrivial=slab != (0, 0, 0), label="slabs" if any(slab) else "plain")


@sub("C03", st.integers(9, 20).map(lambda p: dict(p=p)), quick=12, thorough=12)
def unsupported_degree(case):
    """degrees without a stencil are refused, never approximated"""
    u = np.arange(60.0).reshape(1, 60)
    raises(lambda: fv.conservative_interpolation(u, p=case["p"], axis=1, pos="c"), what="interpolation")
    raises(lambda: fv.transverse_reconstruction(u, p=case["p"], axis=1), what="averaging")
    return {}
