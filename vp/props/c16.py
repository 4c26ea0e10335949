"""C16: exactly the documented cells are flagged as troubled"""

import numpy as np
from hypothesis import strategies as st

import common
import gen
import ref
from core import Reject, close, ensure, raises, sub
from fvhoe.slope_limiting import detect_troubled_cells

RULE = (
    "random old and candidate states (smooth, noisy, spiky, discontinuous, signed) in 1-3 dimensions along "
    "any axes with all tolerance modes, monitored variables, physical bounds and the smooth-extremum "
    "exemption; flags and magnitudes are compared with a reference in every cell whose decision is "
    "determined beyond round-off; the trouble logged by the solver is compared likewise; non-trivial "
    "if both flagged and unflagged cells occur"
)
ASSUMPTIONS = [
    "decisions whose threshold is met to within 1e-9 are not compared",
    "the size of a violation of several variables is bounded by the largest excess over the monitored, "
    "not exempted variables from below and over all variables from above",
]

VARS = ["rho", "vx", "vy", "vz", "P"]


@st.composite
def detection(draw):
    nd = draw(gen.pick(1, 2, 3))
    dims = "".join(sorted(draw(st.permutations("xyz"))[:nd]))
    n = [draw(st.integers(1, {1: 24, 2: 8, 3: 4}[nd])) if d in dims else 1 for d in "xyz"]
    if draw(st.integers(0, 24)) == 0:
        n["xyz".index(dims[draw(st.integers(0, nd - 1))])] = draw(gen.pick(33, 66, 130))
    pad = None
    if draw(st.booleans()):
        pad = {}
        for v in draw(st.lists(st.sampled_from(VARS), min_size=1, max_size=3, unique=True)):
            lo = draw(gen.pick(None, 0.0, 0.6, -0.4, 0.95))
            hi = draw(gen.pick(None, 1.3, 0.5, 1.05))
            pad[v] = [lo, hi]
    return dict(
        dims=dims,
        n=n,
        seed=draw(gen.SEED),
        kind=draw(gen.pick("smooth", "noise", "spike", "jump", "flat", "quadratic", "same")),
        level=draw(gen.pick(1e-6, 1e-3, 0.02, 0.3)),
        NAD=draw(gen.pick(0.0, 1e-5, 1e-3, 1e-2, 0.3, 1.0)),
        mode=draw(gen.pick("global", "local")),
        range=draw(gen.pick("relative", "absolute")),
        vars=draw(
            st.one_of(
                st.none(),
                st.lists(st.sampled_from(VARS), min_size=1, max_size=3, unique=True),
            )
        ),
        single=draw(st.booleans()),
        PAD=pad,
        SED=draw(st.booleans()),
        eps=draw(gen.pick(1e-10, 1e-10, 1e-4, 1e-13, 5e-3, 0.1)),
        zero=draw(st.integers(0, 3)) == 0,
        # everything may be small or large, and bounds missed or met by very little
        unit=draw(gen.pick(1.0, 1.0, 1.0, 1e-10, 1e-6, 1e5)),
        graze=draw(gen.pick(None, None, None, 1e-15, 1e-12, 1e-8)),
    )


def fields(case):
    rng = np.random.default_rng(case["seed"])
    sh = tuple(m + 6 if d in case["dims"] else m for m, d in zip(case["n"], "xyz"))
    X = np.meshgrid(*[np.arange(m) for m in sh], indexing="ij")
    base = np.empty((5,) + sh)
    for v in range(5):
        k = rng.uniform(-0.5, 0.5, size=3)
        ph = rng.uniform(0, 6)
        s = sum(a * b for a, b in zip(k, X)) + ph
        if case["kind"] == "quadratic":
            base[v] = 1 + 0.01 * s**2
        elif case["kind"] == "flat":
            base[v] = 1 + 0.0 * s
        elif case["kind"] == "jump":
            base[v] = np.where(np.sin(s) > 0, 1.0, 0.4) + 0 * s
        else:
            base[v] = 1 + 0.4 * np.sin(s)
    w = base.copy()
    if case["kind"] == "noise":
        w += 0.2 * rng.uniform(-1, 1, size=w.shape)
    signed = rng.uniform(size=3) < 0.5
    for i in range(3):
        if signed[i]:
            w[1 + i] = w[1 + i] - rng.choice([1.0, 2.0, 0.7])
    c = w.copy()
    lev = case["level"]
    if case["kind"] == "spike":
        m = rng.uniform(size=w.shape) < 0.1
        c = c + m * lev * rng.uniform(-1, 1, size=w.shape)
    elif case["kind"] != "same":
        # move the candidate like a shifted profile plus noise
        sh1 = np.roll(w, 1, axis=1 + "xyz".index(case["dims"][0]))
        c = c + 0.3 * (sh1 - w) * rng.uniform(0, 1) + lev * rng.uniform(-1, 1, size=w.shape) * (
            rng.uniform(size=w.shape) < 0.4
        )
    if case["zero"]:
        w[3] = 0.0
        c[3] = 0.0
    unit = case.get("unit", 1.0)
    w, c = w * unit, c * unit
    if case.get("graze") is not None:
        for var, (a, b) in (bounds(case) or {}).items():
            for q, sgn in ((a, -1), (b, 1)):
                if np.isfinite(q):
                    m = rng.uniform(size=sh) < 0.15
                    by = rng.choice([-1, 0, 1, 1, 1], size=sh) * sgn * case["graze"] * unit
                    c[VARS.index(var)] = np.where(m, q + by, c[VARS.index(var)])
    return w, c


def bounds(case):
    if case["PAD"] is None:
        return None
    unit = case.get("unit", 1.0)
    return {
        k: (-np.inf if a is None else a * unit, np.inf if b is None else b * unit)
        for k, (a, b) in case["PAD"].items()
    }


@sub("C16", detection(), quick=5000, thorough=80000)
def flags_and_magnitudes(case):
    w, c = fields(case)
    w, c = gen.relayout(w, case["seed"]), gen.relayout(c, case["seed"] // 6)
    nv = case["vars"]
    if nv is not None:
        nv = nv[0] if case["single"] else tuple(nv)
    kw, kc = w.copy(), c.copy()
    got, nad, pad = detect_troubled_cells(
        u=w,
        u_candidate=c,
        dims=case["dims"],
        NAD_eps=case["NAD"],
        mode=case["mode"],
        range_type=case["range"],
        NAD_vars=nv,
        PAD_bounds=bounds(case),
        SED=case["SED"],
        SED_eps=case["eps"],
    )
    ensure(np.array_equal(w, kw) and np.array_equal(c, kc), "the inputs were modified")
    act = ["xyz".index(d) for d in case["dims"]]
    names = None if nv is None else ([nv] if isinstance(nv, str) else list(nv))
    det = ref.detect(
        w,
        c,
        act,
        NAD=case["NAD"],
        NAD_mode=case["mode"],
        NAD_range=case["range"],
        NAD_vars=names,
        PAD=bounds(case),
        SED=case["SED"],
        SED_tolerance=case["eps"],
        exact_bounds=True,
    )
    sure, maybe = det["sure"], det["maybe"]
    ensure(np.shape(got) == sure.shape, f"shape {np.shape(got)}, expected {sure.shape}")
    got = np.asarray(got)
    ensure(np.all((got == 0) | (got == 1)), "flags other than 0 and 1")
    g = got.astype(bool)
    bad = (sure & ~g) | (g & ~maybe)
    ensure(
        not bad.any(),
        lambda: f"cell {np.argwhere(bad)[0].tolist()} is "
        + ("flagged but should not be" if g[tuple(np.argwhere(bad)[0])] else "not flagged but should be"),
    )
    tol = 1e-9 * (np.abs(w).max() + np.abs(c).max())
    ensure(np.all(np.isfinite(nad)) and np.all(np.isfinite(pad)), "magnitudes are not finite")
    ensure(np.all(nad[~det["nad_maybe"]] == 0), "NAD magnitude without a violation")
    ensure(np.all(pad[~det["pad_maybe"]] == 0), "PAD magnitude without a violation")
    m = det["nad_sure"]
    ensure(np.all(nad >= -tol), "negative magnitude")
    ensure(np.all(nad[m] <= det["NAD_mag"][m] + tol), "NAD magnitude too large")
    ensure(np.all(nad[m] >= det["NAD_mag_flagged"][m] - tol), "NAD magnitude too small")
    m = det["pad_sure"]
    close(pad[m], det["PAD_mag"][m], rtol=0, atol=tol, what="PAD magnitude")
    return dict(
        nontrivial=bool(sure.any() and (~maybe).any()),
        label=f"{len(act)}d {case['mode']} {case['range']} {'SED' if case['SED'] else ''}",
    )


@sub("C16", detection(), quick=1500, thorough=20000)
def invariances(case):
    """
    flags do not change when old and candidate values are exchanged with their mirror image or when
    passive offsets are added in the relative modes; unflagged when nothing changed
    """
    if case["range"] != "relative":
        case = dict(case, range="relative")
    w, c = fields(case)
    kw = dict(
        dims=case["dims"],
        NAD_eps=case["NAD"],
        mode=case["mode"],
        range_type="relative",
        SED=case["SED"],
        SED_eps=case["eps"],
    )
    t0, _, _ = detect_troubled_cells(u=w, u_candidate=w.copy(), **kw)
    ensure(not np.any(t0), "an unchanged state is flagged")
    act = ["xyz".index(d) for d in case["dims"]]
    det = ref.detect(w, c, act, NAD=case["NAD"], NAD_mode=case["mode"], SED=case["SED"], SED_tolerance=case["eps"])
    det_ok = det["sure"] == det["maybe"]
    t1, _, _ = detect_troubled_cells(u=w, u_candidate=c, **kw)
    for i in act:
        t2, _, _ = detect_troubled_cells(u=np.flip(w, 1 + i), u_candidate=np.flip(c, 1 + i), **kw)
        t2 = np.flip(t2, i)
        ensure(np.all((t1 == t2) | ~det_ok), f"mirroring axis {i} changes the flags")
    t3, _, _ = detect_troubled_cells(u=-w, u_candidate=-c, **kw)
    ensure(np.all((t1 == t3) | ~det_ok), "changing the sign of all values changes the flags")
    return dict(nontrivial=bool(np.any(t1)), label=case["kind"])


@sub(
    "C16",
    st.builds(lambda k, w: dict(k=k, w=w), gen.pick("mode", "range", "var"), gen.pick("x", "Global", "", "rel")),
    quick=40,
    thorough=40,
)
def unknown_options(case):
    w = np.ones((5, 9, 1, 1))
    kw = dict(u=w, u_candidate=w.copy(), dims="x")
    if case["k"] == "mode":
        kw["mode"] = case["w"]
    elif case["k"] == "range":
        kw["range_type"] = case["w"]
    else:
        kw["NAD_vars"] = ("rho", case["w"])
    raises(lambda: detect_troubled_cells(**kw), what="unknown option")
    return {}


@st.composite
def runs(draw):
    case = draw(
        gen.problem(
            bc=["periodic2", "free", "outflow", "reflective"],
            lim=True,
            force=False,
            amps=(0.02, 0.1, 0.3),
            nmax=(30, 9, 5),
            pmax=5,
        )
    )
    return common.fix_periodic(case)


@sub("C16", runs(), quick=700, thorough=12000)
def solver_trouble(case):
    """the trouble a solver logs for a single-stage step"""
    u = gen.make_u(case)
    log = []
    common.trajectory(case, u, 1, "euler", log=log)
    trouble, det = log[0][0]
    s = gen.build(case, u)
    s.euler(n=1)
    snap = s.snapshots[-1]
    got = snap["trouble"]
    close(got, trouble.astype(float), rtol=0, atol=1e-12, what="logged trouble")
    nad, pad = snap["NAD violation magnitude"], snap["PAD violation magnitude"]
    tol = 1e-9
    ensure(np.all(np.abs(nad[~det["nad_maybe"]]) == 0), "NAD magnitude without a violation")
    m = det["nad_sure"]
    ensure(np.all(nad[m] <= det["NAD_mag"][m] + tol), "NAD magnitude too large")
    ensure(np.all(nad[m] >= det["NAD_mag_flagged"][m] - tol), "NAD magnitude too small")
    m = det["pad_sure"]
    close(pad[m], det["PAD_mag"][m], rtol=0, atol=tol, what="PAD magnitude")
    ensure(np.all(np.abs(pad[~det["pad_maybe"]]) == 0), "PAD magnitude without a violation")
    return dict(nontrivial=bool(trouble.any() and not trouble.all()), label=gen.label(case))
