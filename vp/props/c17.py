"""C17: limited slopes never create new extrema"""

import numpy as np
from hypothesis import strategies as st

import gen
from core import close, ensure, raises, sub
from fvhoe.slope_limiting import MUSCL_interpolations, minmod, moncen

RULE = (
    "random integer-valued, smooth, monotone, constant and rough data of magnitudes 1e-12 to 1e6 (exact "
    "ties, plateaus and zero differences included), arrays of 1 to 4 axes, any axis; non-trivial if the "
    "data is not constant"
)
ASSUMPTIONS = ["differences are zero or larger than 1e-12 in magnitude", "round-off is 1e-14 of the data"]


@st.composite
def data(draw):
    ndim = draw(st.integers(1, 4))
    mag = draw(gen.pick(1.0, 1e-6, 1e6, 37.0, 1e-9, 1e-12))
    kinds = ["int", "mono", "linear", "const", "alt"]
    if mag >= 1e-6:
        kinds += ["rough", "smooth"]
    return dict(
        axis=draw(st.integers(0, ndim - 1)),
        other=[draw(st.integers(1, 3)) for _ in range(ndim - 1)],
        n=draw(st.one_of(*[st.integers(3, 12)] * 12, gen.pick(40, 70, 131))),
        kind=draw(gen.pick(*kinds)),
        seed=draw(gen.SEED),
        mag=mag,
        lim=draw(gen.pick("minmod", "moncen")),
    )


def build(case):
    rng = np.random.default_rng(case["seed"])
    sh = tuple(case["other"]) + (case["n"],)
    k = case["kind"]
    if k == "int":
        a = rng.integers(-3, 4, size=sh).astype(float)
    elif k == "rough":
        a = rng.normal(size=sh)
    elif k == "mono":
        a = np.cumsum(rng.integers(0, 4, size=sh), axis=-1) * rng.choice([-1.0, 1.0])
    elif k == "const":
        a = np.ones(sh) * rng.normal(size=sh[:-1] + (1,))
    elif k == "linear":
        a = rng.integers(-4, 5, size=sh[:-1] + (1,)) * np.arange(case["n"]) + 2.0
    elif k == "alt":
        a = (-1.0) ** np.arange(case["n"]) * np.ones(sh) + rng.integers(0, 2, size=sh)
    else:
        a = np.sin(np.arange(case["n"]) * 0.5 + rng.uniform(0, 6, size=sh[:-1] + (1,)))
    return gen.relayout(np.moveaxis(a * case["mag"], -1, case["axis"]), case["seed"])


def split(u, axis):
    a = np.moveaxis(u, axis, -1)
    return a[..., :-2], a[..., 1:-1], a[..., 2:]


def faces(u, case, lim="case"):
    keep = u.copy()
    L, R = MUSCL_interpolations(u, axis=case["axis"], limiter=case["lim"] if lim == "case" else lim)
    ensure(np.array_equal(u, keep), "the input was modified")
    want = list(u.shape)
    want[case["axis"]] -= 2
    ensure(list(L.shape) == want and list(R.shape) == want, f"shape {L.shape}")
    return np.moveaxis(L, case["axis"], -1), np.moveaxis(R, case["axis"], -1)


@sub("C17", data(), quick=6000, thorough=100000)
def no_new_extrema(case):
    u = build(case)
    a, b, c = split(u, case["axis"])
    L, R = faces(u, case)
    tol = 1e-14 * (np.abs(u).max() + 1e-300) * 4
    ensure(np.all(L >= np.minimum(a, b) - tol) and np.all(L <= np.maximum(a, b) + tol), "left face value outside its neighbours")
    ensure(np.all(R >= np.minimum(b, c) - tol) and np.all(R <= np.maximum(b, c) + tol), "right face value outside its neighbours")
    close(0.5 * (L + R), b, rtol=1e-14, scale=np.abs(u).max() + 1e-300, what="mean of the face values")
    ext = (b - a) * (c - b) <= 0
    close(np.where(ext, L, b), b, rtol=1e-14, scale=np.abs(u).max() + 1e-300, what="slope at an extremum")
    s = R - L
    dl, dr = b - a, c - b
    # the slope is never larger than the limiter allows, and not smaller than the smallest difference
    big = {"minmod": 1.0, "moncen": 2.0}[case["lim"]] * np.minimum(np.abs(dl), np.abs(dr))
    ensure(np.all(np.abs(s) <= big + tol), "slope larger than the limiter allows")
    mono = dl * dr > 0
    ensure(np.all(np.where(mono, np.abs(s) - np.minimum(np.abs(dl), np.abs(dr)), 0) >= -tol), "slope smaller than the smallest difference")
    ensure(np.all(np.where(mono, s * dl, 0) >= 0), "slope of the wrong sign")
    return dict(nontrivial=bool(np.ptp(u) > 0), label=f"{case['lim']} {case['kind']}")


@sub("C17", data(), quick=4000, thorough=60000)
def formula(case):
    """minmod: the smaller difference; moncen: min(2|dl|, 2|dr|, |central|); none: central"""
    u = build(case)
    a, b, c = split(u, case["axis"])
    dl, dr = b - a, c - b
    dc = 0.5 * (dl + dr)
    mono = dl * dr > 0
    m = np.minimum(np.abs(dl), np.abs(dr))
    want = dict(
        minmod=np.where(mono, np.sign(dl) * m, 0),
        moncen=np.where(mono, np.sign(dc) * np.minimum(2 * m, np.abs(dc)), 0),
    )
    want[None] = dc
    sc = np.abs(u).max() + 1e-300
    for lim, w in want.items():
        L, R = faces(u, case, lim)
        close(R, b + 0.5 * w, rtol=4e-15, scale=sc, what=f"{lim} right face")
        close(L, b - 0.5 * w, rtol=4e-15, scale=sc, what=f"{lim} left face")
    close(minmod(dl, dr), want["minmod"], rtol=4e-15, scale=sc, what="minmod")
    close(moncen(dl, dr), want["moncen"], rtol=4e-15, scale=sc, what="moncen")
    return dict(nontrivial=bool(np.ptp(u) > 0), label=case["kind"])


@sub("C17", data(), quick=3000, thorough=40000)
def symmetries(case):
    u = build(case)
    ax = case["axis"]
    sc = np.abs(u).max() + 1e-300
    L, R = faces(u, case)
    Lm, Rm = faces(np.flip(u, ax).copy(), case)
    close(np.flip(Rm, -1), L, rtol=4e-15, scale=sc, what="mirrored data")
    Ln, Rn = faces(-u, case)
    close(-Ln, L, rtol=4e-15, scale=sc, what="negated data, left")
    close(-Rn, R, rtol=4e-15, scale=sc, what="negated data, right")
    for f in (3.0, 2.0**-10):
        Ls, Rs = faces(f * u, case)
        close(Ls / f, L, rtol=1e-14, scale=sc, what="scaled data")
        close(Rs / f, R, rtol=1e-14, scale=sc, what="scaled data")
    Lo, Ro = faces(u + case["mag"], case)
    close(Lo - case["mag"], L, rtol=1e-13, scale=sc + case["mag"], what="shifted data")
    # limiting works cell by cell: each line alone gives the same
    if u.ndim > 1:
        lines = np.moveaxis(u, ax, -1).reshape(-1, u.shape[ax])
        one, _ = MUSCL_interpolations(lines[0], axis=0, limiter=case["lim"])
        close(one, L.reshape(-1, L.shape[-1])[0], rtol=1e-15, scale=sc, what="a single line")
    return dict(nontrivial=bool(np.ptp(u) > 0), label=case["lim"])


@sub("C17", data(), quick=1000, thorough=10000)
def linear_exact(case):
    case = dict(case, kind="linear")
    u = build(case)
    a, b, c = split(u, case["axis"])
    sc = np.abs(u).max() + 1e-300
    for lim in ("minmod", "moncen", None):
        L, R = faces(u, case, lim)
        close(L, 0.5 * (a + b), rtol=4e-15, scale=sc, what=f"{lim} on linear data")
        close(R, 0.5 * (b + c), rtol=4e-15, scale=sc, what=f"{lim} on linear data")
    return dict(nontrivial=bool(np.ptp(u) > 0))


@sub("C17", gen.pick("superbee", "Minmod", "", "none").map(lambda n: dict(n=n)), quick=8, thorough=8)
def unknown_limiter(case):
    raises(lambda: MUSCL_interpolations(np.arange(5.0), axis=0, limiter=case["n"]), what="unknown limiter")
    return {}
