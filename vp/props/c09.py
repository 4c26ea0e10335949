"""C09: Riemann solvers"""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import Reject, close, ensure, sub
from fvhoe.hydro import HydroState
from fvhoe.riemann_solvers import advection_upwind, hllc, llf

RULE = (
    "random pairs of states with density and pressure ratios up to 1e6, velocities from 0 to highly "
    "supersonic, 0-3 passive scalars, gamma in (1, 3], all axes and array shapes, the sound speed floor "
    "inactive or active; non-trivial if the two states differ"
)
ASSUMPTIONS = [
    "round-off is 1e-11 of the sum of the magnitudes of the terms entering the flux",
    "pairs whose wave speeds vanish to within round-off without being exactly zero are discarded where a "
    "side must be chosen",
]

SOLVERS = dict(hllc=hllc, llf=llf, advection_upwind=advection_upwind)
DIMS = "xyz"


@st.composite
def pair(draw, kinds=("any", "close", "strong", "super", "equal", "zero", "contact")):
    return dict(
        seed=draw(gen.SEED),
        kind=draw(st.sampled_from(list(kinds))),
        npass=draw(st.integers(0, 3)),
        gamma=draw(gen.pick(5 / 3, 1.4, 1.05, 3.0)),
        dim=draw(gen.pick("x", "y", "z")),
        shape=draw(gen.pick([1, 1, 1], [3, 2, 2], [7, 1, 1], [1, 4, 2], [1, 1, 9], [140, 1, 1], [2, 66, 1], [5, 7, 9])),
        floor=draw(gen.pick(1e-10, 1e-10, 1e-10, 0.3, 10.0)),
        rs=draw(gen.pick("hllc", "hllc", "llf", "llf", "advection_upwind")),
    )


def states(case):
    rng = np.random.default_rng(case["seed"])
    nv, sh = 5 + case["npass"], tuple(case["shape"])
    kind = case["kind"]

    def one(spread, vs):
        w = np.empty((nv,) + sh)
        w[0] = 10 ** rng.uniform(-spread, spread, size=sh)
        w[1:4] = vs * rng.normal(size=(3,) + sh)
        if case["seed"] % 4 == 0:
            w[1:4] *= rng.uniform(size=(3, 1, 1, 1)) < 0.5
        w[4] = 10 ** rng.uniform(-spread, spread, size=sh)
        w[5:] = rng.normal(size=(nv - 5,) + sh)
        return w

    i = "xyz".index(case["dim"])
    if kind == "strong":
        wl, wr = one(3, 3), one(3, 3)
    elif kind == "close":
        wl = one(1, 1)
        wr = wl * (1 + 1e-3 * rng.normal(size=wl.shape))
    elif kind == "equal":
        wl = one(2, 2)
        wr = wl.copy()
    elif kind == "super":
        wl, wr = one(0.5, 0.5), one(0.5, 0.5)
        sgn = np.where(rng.uniform(size=sh) < 0.5, -1.0, 1.0)
        c = np.sqrt(np.maximum(case["floor"], case["gamma"] * np.maximum(wl[4] / wl[0], wr[4] / wr[0])))
        wl[1 + i] = sgn * c * rng.uniform(1.2, 8, size=sh)
        wr[1 + i] = sgn * c * rng.uniform(1.2, 8, size=sh)
    elif kind == "zero":
        wl, wr = one(1, 1), one(1, 1)
        wl[1 + i] = wr[1 + i] = 0.0
        if rng.uniform() < 0.5:
            wr[4] = wl[4]
    elif kind == "contact":
        wl, wr = one(1.5, 1), one(1.5, 1)
        wr[1 + i], wr[4] = wl[1 + i], wl[4]
        if rng.uniform() < 0.3:
            wl[1 + i] = wr[1 + i] = 0.0
    else:
        wl, wr = one(1, 1), one(1, 1)
    return wl, wr


def solve(case, wl, wr, dim=None, rs=None):
    hs = HydroState(passive_scalars=tuple(f"s{k}" for k in range(case["npass"])))
    a, b = gen.relayout(wl, case["seed"]), gen.relayout(wr, case["seed"] // 6)
    out = SOLVERS[rs or case["rs"]](
        hs=hs,
        riemann_problem=(a, b),
        gamma=case["gamma"],
        dim=dim or case["dim"],
        csq_floor=case["floor"],
    )
    ensure(np.array_equal(a, wl) and np.array_equal(b, wr), "the states were modified")
    ensure(out.shape == wl.shape, f"shape {out.shape}")
    return out


def speeds(case, wl, wr):
    i = "xyz".index(case["dim"])
    g, fl = case["gamma"], case["floor"]
    c = np.maximum(ref.sound_speed(wl, g, fl), ref.sound_speed(wr, g, fl))
    vl, vr = wl[1 + i], wr[1 + i]
    return np.minimum(vl, vr) - c, np.maximum(vl, vr) + c, c


def fscale(case, wl, wr):
    """magnitude of the terms of the flux, per variable"""
    sl, sr, c = speeds(case, wl, wr)
    a = np.maximum(np.abs(sl), np.abs(sr))
    rho = wl[0] + wr[0]
    P = wl[4] + wr[4]
    vmax = np.maximum(np.abs(wl[1:4]).sum(axis=0), np.abs(wr[1:4]).sum(axis=0)) + a
    g1 = 1 / (case["gamma"] - 1)
    out = np.empty_like(wl)
    out[0] = rho * a
    out[1:4] = rho * vmax * a + P
    out[4] = (rho * vmax**2 + P * (1 + g1)) * a
    for k in range(5, len(wl)):
        out[k] = rho * a * (np.abs(wl[k]) + np.abs(wr[k]))
    # star states amplify by the density ratio at most
    ratio = np.maximum(wl[0] / wr[0], wr[0] / wl[0])
    return out * (1 + ratio) + 1e-300


def decided(case, wl, wr):
    """where the side chosen by the contact speed is determined beyond round-off"""
    i = "xyz".index(case["dim"])
    sl, sr, c = speeds(case, wl, wr)
    rl, rr = wl[0] * (wl[1 + i] - sl), wr[0] * (sr - wr[1 + i])
    num = rl * wl[1 + i] + rr * wr[1 + i] + wl[4] - wr[4]
    mag = np.abs(rl * wl[1 + i]) + np.abs(rr * wr[1 + i]) + wl[4] + wr[4]
    ok = (np.abs(num) > 1e-11 * mag) & (np.abs(sl) > 1e-11 * c) & (np.abs(sr) > 1e-11 * c)
    return ok


def distinct(case, wl, wr):
    return dict(nontrivial=not np.array_equal(wl, wr), label=f"{case['rs']} {case['kind']}")


@sub("C09", pair(), quick=4000, thorough=60000)
def formula(case):
    """the fluxes equal their published formulas"""
    wl, wr = states(case)
    i = "xyz".index(case["dim"])
    got = solve(case, wl, wr)
    if case["rs"] == "advection_upwind":
        want = ref.upwind(wl, wr, case["gamma"], i)
        ok = np.ones(wl.shape[1:], dtype=bool)
    elif case["rs"] == "llf":
        want = ref.llf(wl, wr, case["gamma"], i, case["floor"])
        ok = np.ones(wl.shape[1:], dtype=bool)
    else:
        want = ref.hllc(wl, wr, case["gamma"], i, case["floor"])
        ok = decided(case, wl, wr)
    sc = fscale(case, wl, wr)
    g, w = np.where(ok, got, 0), np.where(ok, want, 0)
    close(g, w, rtol=1e-11, scale=sc, what=f"{case['rs']} flux")
    return dict(nontrivial=bool(ok.any()), label=f"{case['rs']} {case['kind']}")


@sub("C09", pair(kinds=("equal",)), quick=1500, thorough=20000)
def consistent(case):
    wl, wr = states(case)
    i = "xyz".index(case["dim"])
    got = solve(case, wl, wr)
    if case["rs"] == "advection_upwind":
        want = gen.prim2cons(wl, case["gamma"]) * wl[1 + i]
    else:
        want = ref.euler_flux(wl, case["gamma"], i)
    close(got, want, rtol=1e-12, scale=fscale(case, wl, wr), what="flux of equal states")
    return dict(label=case["rs"])


@sub("C09", pair(kinds=("super",)), quick=1500, thorough=20000)
def supersonic_upwind(case):
    if case["rs"] == "llf":
        case = dict(case, rs="hllc")
    wl, wr = states(case)
    i = "xyz".index(case["dim"])
    sl, sr, _ = speeds(case, wl, wr)
    ensure(bool(np.all((sl > 0) | (sr < 0))), "generator")
    up = np.where(sl > 0, wl, wr)
    got = solve(case, wl, wr)
    if case["rs"] == "advection_upwind":
        want = gen.prim2cons(up, case["gamma"]) * up[1 + i]
    else:
        want = ref.euler_flux(up, case["gamma"], i)
    close(got, want, rtol=1e-12, scale=fscale(case, wl, wr), what="supersonic flux")
    return dict(label=case["rs"])


@sub("C09", pair(), quick=3000, thorough=40000)
def mirror(case):
    """exchanging the states and negating the normal velocity mirrors the flux"""
    wl, wr = states(case)
    i = "xyz".index(case["dim"])
    if case["rs"] == "advection_upwind":
        wr[1 + i] = wl[1 + i]  # documented assumption
    a = solve(case, wl, wr)
    ml, mr = wr.copy(), wl.copy()
    ml[1 + i] *= -1
    mr[1 + i] *= -1
    b = solve(case, ml, mr)
    b = -b
    b[1 + i] *= -1
    ok = decided(case, wl, wr) if case["rs"] == "hllc" else np.ones(wl.shape[1:], bool)
    close(np.where(ok, a, 0), np.where(ok, b, 0), rtol=1e-11, scale=fscale(case, wl, wr), what="mirrored flux")
    return distinct(case, wl, wr)


@sub("C09", pair(), quick=3000, thorough=40000)
def axis_exchange(case):
    """renaming the axes renames the momentum components of the flux"""
    wl, wr = states(case)
    i = "xyz".index(case["dim"])
    j = (i + 1 + case["seed"] % 2) % 3
    a = solve(case, wl, wr)

    def swap(w):
        w = w.copy()
        w[[1 + i, 1 + j]] = w[[1 + j, 1 + i]]
        return w

    b = swap(solve(case, swap(wl), swap(wr), dim="xyz"[j]))
    close(a, b, rtol=1e-12, scale=fscale(case, wl, wr), what="flux after exchanging axes")
    return distinct(case, wl, wr)


@sub("C09", pair(kinds=("contact",)), quick=1500, thorough=20000)
def contact(case):
    """an isolated contact is resolved exactly: the upwind state's flux, only pressure if at rest"""
    case = dict(case, rs="hllc")
    wl, wr = states(case)
    i = "xyz".index(case["dim"])
    v = wl[1 + i]
    got = solve(case, wl, wr)
    want = np.where(v > 0, ref.euler_flux(wl, case["gamma"], i), ref.euler_flux(wr, case["gamma"], i))
    rest = np.zeros_like(want)
    rest[1 + i] = wl[4]
    want = np.where(v == 0, rest, want)
    sl, sr, c = speeds(case, wl, wr)
    ok = (np.abs(v) > 1e-9 * c) | (v == 0)
    # at rest the contact speed is zero only to round-off, which scales the mass flux
    close(np.where(ok, got, 0), np.where(ok, want, 0), rtol=1e-11, scale=fscale(case, wl, wr), what="contact")
    return dict(label="rest" if np.all(v == 0) else "moving")


@sub("C09", pair(kinds=("any", "strong", "close")), quick=2000, thorough=30000)
def carried_with_mass(case):
    """
    tangential momentum and tracers are carried by the mass flux from its upwind side (hllc and advection)
    """
    if case["rs"] == "llf":
        case = dict(case, rs="hllc")
    wl, wr = states(case)
    i = "xyz".index(case["dim"])
    if case["rs"] == "advection_upwind":
        wr[1 + i] = wl[1 + i]
    f = solve(case, wl, wr)
    up = np.where(f[0] > 0, wl, wr)
    sc = fscale(case, wl, wr)
    for k in [1 + j for j in range(3) if j != i] + list(range(5, len(wl))):
        close(f[k], f[0] * up[k], rtol=1e-11, scale=sc[k], what=f"variable {k} carried with the mass")
    return distinct(case, wl, wr)


@sub("C09", pair(kinds=("any", "strong", "close", "zero")), quick=1500, thorough=20000)
def llf_dissipation(case):
    """flux minus mean physical flux = -(largest signal speed)/2 times the jump"""
    case = dict(case, rs="llf")
    wl, wr = states(case)
    i = "xyz".index(case["dim"])
    g = case["gamma"]
    f = solve(case, wl, wr)
    s = np.maximum(
        np.abs(wl[1 + i]) + ref.sound_speed(wl, g, case["floor"]),
        np.abs(wr[1 + i]) + ref.sound_speed(wr, g, case["floor"]),
    )
    d = f - 0.5 * (ref.euler_flux(wl, g, i) + ref.euler_flux(wr, g, i))
    jump = gen.prim2cons(wr, g) - gen.prim2cons(wl, g)
    close(d, -0.5 * s * jump, rtol=1e-11, scale=fscale(case, wl, wr), what="dissipation")
    return distinct(case, wl, wr)


@sub("C09", pair(kinds=("any", "strong", "close", "zero")), quick=1500, thorough=20000)
def hllc_consistent_with_hll(case):
    """
    integral consistency: the HLLC fan conserves, so its momentum flux exchange across the
    contact balances and the intermediate velocity lies between the outer wave speeds;
    checked through Rankine-Hugoniot relations of the sampled flux with respect to either side
    """
    case = dict(case, rs="hllc")
    wl, wr = states(case)
    i = "xyz".index(case["dim"])
    g = case["gamma"]
    sl, sr, c = speeds(case, wl, wr)
    f = solve(case, wl, wr)
    ok = decided(case, wl, wr) & (sl < 0) & (sr > 0)
    # star state implied by the side the contact moves away from
    left = f[0] > 0
    s = np.where(left, sl, sr)
    side = np.where(left, wl, wr)
    u, F = gen.prim2cons(side, g), ref.euler_flux(side, g, i)
    with np.errstate(all="ignore"):
        ustar = u + (f - F) / s
        # the flux must be the physical flux structure of that star state
        vs = ustar[1 + i] / ustar[0]
        ps = f[1 + i] - ustar[1 + i] * vs
        want = ustar * vs
        want[1 + i] += ps
        want[4] += ps * vs
    sc = fscale(case, wl, wr) * (1 + np.abs(np.maximum(-sl, sr) / np.minimum(-sl, sr)))
    fine = ok & np.isfinite(vs)
    close(np.where(fine, f, 0), np.where(fine, want, 0), rtol=1e-9, scale=np.where(fine, sc, 1.0), what="star state")
    return dict(nontrivial=bool(fine.any()), label=case["kind"])
