"""C08: conversions, physical flux, sound speed"""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import close, ensure, sub
from fvhoe import hydro

RULE = (
    "random states over fifty decades of density and pressure (mostly twelve) with 0-4 passive scalars in arrays of "
    "random shape; non-trivial if the state is moving"
)
ASSUMPTIONS = ["round-off is 1e-12 of the terms entering each quantity"]


@st.composite
def arr(draw):
    return dict(
        shape=draw(st.one_of(*[st.lists(st.integers(1, 4), min_size=3, max_size=3)] * 15, gen.pick([150, 1, 1], [1, 67, 1], [1, 3, 70], [9, 11, 13]))),
        npass=draw(st.integers(0, 4)),
        seed=draw(gen.SEED),
        rexp=draw(st.one_of(st.floats(-6, 6), st.floats(-6, 6), st.floats(-25, 25))),
        pexp=draw(st.one_of(st.floats(-6, 6), st.floats(-6, 6), st.floats(-25, 25))),
        vmag=draw(gen.pick(0.0, 1e-3, 1.0, 50.0)),
        gamma=draw(st.floats(1.01, 3)),
        dim=draw(gen.pick("x", "y", "z")),
        pressure=draw(st.booleans()),
        floor=draw(gen.pick(1e-10, 1e-3, 1.0)),
        sign=draw(gen.pick(1, 1, -1)),
    )


def state(case):
    rng = np.random.default_rng(case["seed"])
    w = rng.uniform(-1, 1, size=(5 + case["npass"],) + tuple(case["shape"]))
    w[0] = 10 ** (case["rexp"] + w[0])
    w[1:4] *= case["vmag"]
    if case["seed"] % 4 == 0:
        w[1:4] *= rng.uniform(size=(3, 1, 1, 1)) < 0.5
    elif case["seed"] % 4 == 1:
        w[1:] *= np.where(np.arange(1, len(w)) == 4, 1.0, rng.uniform(size=len(w) - 1) < 0.7).reshape(-1, 1, 1, 1)
    w[4] = case["sign"] * 10 ** (case["pexp"] + w[4])
    w[5:] *= 10
    return w


def hstate(case):
    return hydro.HydroState(passive_scalars=tuple(f"s{i}" for i in range(case["npass"])))


@sub("C08", arr(), quick=3000, thorough=40000)
def conversions(case):
    hs, w, g = hstate(case), state(case), case["gamma"]
    keep = w.copy()
    u = hydro.compute_conservatives(hs, w, gamma=g)
    ensure(np.array_equal(w, keep), "primitive input modified")
    ensure(u is not w and u.shape == w.shape, "shape")
    ke = 0.5 * w[0] * (w[1] ** 2 + w[2] ** 2 + w[3] ** 2)
    es = ke + np.abs(w[4]) / (g - 1)
    close(u[0], w[0], rtol=1e-15, scale=w[0], what="density")
    for i in range(3):
        close(u[1 + i], w[0] * w[1 + i], rtol=1e-14, scale=np.abs(w[0] * w[1 + i]), atol=1e-300, what=f"momentum {i}")
    close(u[4], w[4] / (g - 1) + ke, rtol=1e-13, scale=es, what="energy")
    for k in range(case["npass"]):
        close(u[5 + k], w[0] * w[5 + k], rtol=1e-14, scale=np.abs(u[5 + k]), atol=1e-300, what=f"scalar {k}")
    keep_u = u.copy()
    w2 = hydro.compute_primitives(hs, u, gamma=g)
    ensure(np.array_equal(u, keep_u), "conservative input modified")
    sc = np.abs(w)
    sc[4] = es * (g - 1) + np.abs(w[4])
    close(w2, w, rtol=1e-12, scale=sc, atol=1e-300, what="round trip")
    u2 = hydro.compute_conservatives(hs, w2, gamma=g)
    su = np.abs(u)
    su[4] = es
    close(u2, u, rtol=1e-11, scale=su, atol=1e-300, what="second round trip")
    return dict(nontrivial=case["vmag"] > 0, label=f"{case['npass']} scalars")


@sub("C08", arr(), quick=3000, thorough=40000)
def primitives_from_arbitrary(case):
    """conversion of conservative states that do not come from a conversion"""
    hs, g = hstate(case), case["gamma"]
    u = state(case)
    keep = u.copy()
    w = hydro.compute_primitives(hs, u, gamma=g)
    ensure(np.array_equal(u, keep), "input modified")
    want = gen.cons2prim(u, g)
    sc = np.abs(want)
    sc[4] = (g - 1) * (np.abs(u[4]) + (u[1] ** 2 + u[2] ** 2 + u[3] ** 2) / u[0])
    close(w, want, rtol=1e-12, scale=sc, atol=1e-300, what="primitives")
    return dict(nontrivial=case["vmag"] > 0)


@sub("C08", arr(), quick=3000, thorough=40000)
def fluxes(case):
    hs, w, g = hstate(case), state(case), case["gamma"]
    d = "xyz".index(case["dim"])
    u = gen.prim2cons(w, g)
    keep_w, keep_u = w.copy(), u.copy()
    F = hydro.compute_fluxes(
        hs, w, u, gamma=g, dim=case["dim"], include_pressure=case["pressure"]
    )
    ensure(np.array_equal(w, keep_w) and np.array_equal(u, keep_u), "input modified")
    v = w[1 + d]
    P = w[4] if case["pressure"] else 0.0
    close(F[0], w[0] * v, rtol=1e-13, scale=np.abs(w[0] * v), atol=1e-300, what="mass flux")
    for i in range(3):
        want = w[0] * v * w[1 + i] + (P if i == d else 0.0)
        close(F[1 + i], want, rtol=1e-13, scale=np.abs(w[0] * v * w[1 + i]) + np.abs(w[4]), what=f"momentum {i} flux")
    close(F[4], v * (u[4] + P), rtol=1e-13, scale=np.abs(v) * (np.abs(u[4]) + np.abs(w[4])), atol=1e-300, what="energy flux")
    for k in range(case["npass"]):
        close(F[5 + k], v * w[0] * w[5 + k], rtol=1e-13, scale=np.abs(F[5 + k]), atol=1e-300, what=f"scalar {k} flux")
    c = hydro.compute_sound_speed(w, g, csq_floor=case["floor"])
    close(c, np.sqrt(np.maximum(g * w[4] / w[0], case["floor"])), rtol=1e-12, scale=c, what="sound speed")
    return dict(nontrivial=case["vmag"] > 0, label=case["dim"])


@sub("C08", st.tuples(arr(), st.sampled_from(gen.LAYOUTS), st.booleans()).map(
    lambda t: dict(t[0], layout=t[1], ints=t[2])), quick=1500, thorough=20000)
def array_kinds(case):
    """the result depends on the values only: not on how the array lies in memory, nor on
    whether whole numbers are stored as integers"""
    hs, g = hstate(case), case["gamma"]
    rng = np.random.default_rng(case["seed"])
    if case["ints"]:
        w = rng.integers(-5, 6, size=(5 + case["npass"],) + tuple(case["shape"]))
        w[0] = rng.integers(1, 9, size=w[0].shape)
        w[4] = rng.integers(1, 9, size=w[0].shape)
    else:
        w = state(case)
    wf = w.astype(float)
    a = gen.relayout(w, case["layout"])
    kw = dict(gamma=g, dim=case["dim"], include_pressure=case["pressure"])
    uf = gen.prim2cons(wf, g)
    es = 0.5 * wf[0] * (wf[1:4] ** 2).sum(axis=0) + np.abs(wf[4]) / (g - 1)
    u = hydro.compute_conservatives(hs, a, gamma=g)
    su = np.abs(uf)
    su[4] = es
    close(u, uf, rtol=1e-13, scale=su, atol=1e-300, what="conservatives")
    ensure(np.array_equal(a, w), "primitive input modified")
    wp = hydro.compute_primitives(hs, a, gamma=g)
    want = gen.cons2prim(wf, g)
    sc = np.abs(want)
    sc[4] = (g - 1) * (np.abs(wf[4]) + (wf[1:4] ** 2).sum(axis=0) / wf[0])
    close(wp, want, rtol=1e-12, scale=sc, atol=1e-300, what="primitives")
    ensure(np.array_equal(a, w), "conservative input modified")
    b = gen.relayout(uf, case["layout"])
    F = hydro.compute_fluxes(hs, a, b, **kw)
    d = "xyz".index(case["dim"])
    Fw = wf[1 + d] * uf
    sf = np.abs(Fw)
    if case["pressure"]:
        Fw[1 + d] += wf[4]
        Fw[4] += wf[1 + d] * wf[4]
    sf[4] = np.abs(wf[1 + d]) * (es + np.abs(wf[4]))
    sf[1 + d] += np.abs(wf[4])
    close(F, Fw, rtol=1e-13, scale=sf, atol=1e-300, what="fluxes")
    ensure(np.array_equal(a, w) and np.array_equal(b, uf), "flux input modified")
    c = hydro.compute_sound_speed(a, g, csq_floor=case["floor"])
    close(c, np.sqrt(np.maximum(g * wf[4] / wf[0], case["floor"])), rtol=1e-12, scale=c, what="sound speed")
    return dict(nontrivial=case["layout"] != "C" or case["ints"], label=("int " if case["ints"] else "float ") + case["layout"])
