"""C20: snapshots record the state at their time"""

import copy

import numpy as np
from hypothesis import strategies as st

import common
import gen
import ref
from core import Reject, close, ensure, sub

RULE = (
    "histories of up to 4 runs (step counts, final times with output times, logging every step, extra snapshots) "
    "of random problems with and without limiting, cell-average or centre mode, constant or time-dependent "
    "boundaries; every entry is compared with the state recorded when it was logged, converted independently, and with "
    "the stage means recomputed from the previous state; non-trivial if the state changed between entries"
)
ASSUMPTIONS = [
    "values are compared to 1e-9 of the state",
    "limited steps whose decisions are only determined to round-off are not compared (flags and magnitudes)",
]


@st.composite
def histories(draw, lim="any", amps=(0.02, 0.1, 0.3), kinds=("rough", "smooth", "jumps", "mixed"), every=False):
    case = draw(
        gen.problem(
            bc=common.SYM + ["dirichlet"],
            lim=lim,
            amps=amps,
            kinds=kinds,
            nmax=(24, 8, 5),
            pmax=5,
        )
    )
    common.fix_periodic(case)
    case["averages"] = draw(st.booleans())
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(gen.pick("n", "T", "T", "snap", "every"))
        if every:
            kind = "every"
        integ = draw(gen.pick("euler", "ssprk2", "ssprk3", "rk4", "run"))
        c = dict(kind=kind, integ=integ)
        if kind == "n":
            c["n"] = draw(st.integers(0, 3))
        elif kind in ("T", "every"):
            c["T"] = draw(gen.pick(0.4, 1.0, 2.3, 3.0))
            c["beats"] = draw(st.lists(gen.pick(0.2, 0.5, 0.7, 1.1, 2.0), max_size=3))
        calls.append(c)
    case["calls"] = calls
    case["tdep"] = draw(st.booleans())
    return case


def play(case):
    """run the history; returns the solver, the record made by the helper callback, and the callers' record"""
    u = gen.make_u(case)
    vals = common.dirichlet_values(case, u)
    rec = []

    def helper(*a, **k):
        ensure(len(a) == 1 and not k, "the helper is called with the solver alone")
        (s,) = a
        ensure(len(s.snapshots) == len(rec) + 1, "the helper is not called once per entry")
        e = s.snapshots[-1]
        rec.append(
            dict(
                entry=copy.deepcopy(e),
                u=s.am("u").copy(),
                t=s.t,
                steps=s.step_count,
                integ=getattr(s, "integrator", None),
            )
        )

    s = gen.build(
        case,
        u,
        bc=common.boundary(case, vals),
        snapshots_as_fv_averages=case["averages"],
        snapshot_helper_function=helper,
    )
    dt = s.f(0.0, u.copy())[0]
    if case["lim"] is not None:
        s = gen.build(
            case,
            u,
            bc=common.boundary(case, vals),
            snapshots_as_fv_averages=case["averages"],
            snapshot_helper_function=helper,
        )
    for c in case["calls"]:
        before = len(s.snapshots)
        if c["kind"] == "snap":
            s.snapshot()
            ensure(len(s.snapshots) == before + 1, "snapshot() logs one entry")
        elif c["kind"] == "n":
            getattr(s, c["integ"])(n=c["n"])
        else:
            T = s.t + c["T"] * dt
            getattr(s, c["integ"])(
                T=T,
                downbeats=[s.t + b * dt for b in c["beats"]],
                log_every_step=c["kind"] == "every",
            )
        if s.step_count > 40:
            break
    if not all(common.usable(r["u"]) for r in rec):
        raise Reject
    return s, rec, u, vals


def expected_axes(case):
    return [ref.cell_coords(case, i, np.arange(case["n"][i])) for i in range(3)]


@sub("C20", histories(), quick=700, thorough=12000)
def entries(case):
    """coordinates, time, converted state; isolation of earlier entries; one helper call per entry"""
    s, rec, u, vals = play(case)
    ensure(len(rec) == len(s.snapshots), f"{len(rec)} helper calls for {len(s.snapshots)} entries")
    ensure(list(s.snapshot_times) == [r["t"] for r in rec], "logged times differ from the times of the entries")
    axes = expected_axes(case)
    keys = {"x", "y", "z", "t", "w"}
    if case["lim"] is not None:
        keys |= {"trouble", "NAD violation magnitude", "PAD violation magnitude"}
    for k, (r, final) in enumerate(zip(rec, s.snapshots)):
        e = r["entry"]
        ensure(keys <= set(e), f"entry {k} lacks {keys - set(e)}")
        ensure(set(final) == set(e), f"entry {k} changed after it was logged")
        for key in e:
            ensure(
                np.array_equal(np.asarray(e[key]), np.asarray(final[key]), equal_nan=True),
                f"'{key}' of entry {k} changed after it was logged",
            )
        ensure(e["t"] == r["t"], f"entry {k} has time {e['t']!r}, the solver was at {r['t']!r}")
        for d, a in zip("xyz", axes):
            close(e[d], a, rtol=1e-13, scale=np.abs(a).max() + 1, what=f"{d} of entry {k}")
        want = ref.primitives(case, r["u"], case["p"], [0, 0, 0], r["t"], vals, averages=case["averages"])
        if not np.all(np.isfinite(want)) or np.abs(want).max() > 1e6:
            raise Reject
        sc = np.abs(want).max(axis=(1, 2, 3)).reshape(-1, 1, 1, 1) + 1
        close(e["w"], want, rtol=1e-9, scale=sc, what=f"state of entry {k}")
        if case["lim"] is not None:
            for key in keys - {"x", "y", "z", "t", "w"}:
                ensure(e[key].shape == tuple(case["n"]), f"'{key}' has shape {e[key].shape}")
                if r["steps"] == 0:
                    ensure(np.all(e[key] == 0), f"'{key}' before the first step")
    # the arrays of different entries are distinct
    for a in range(len(rec)):
        for b in range(a):
            for key in keys - {"x", "y", "z", "t"}:
                ensure(
                    not np.shares_memory(s.snapshots[a][key], s.snapshots[b][key]),
                    f"entries {b} and {a} share '{key}'",
                )
    moved = max(np.abs(r["u"] - u).max() for r in rec)
    return dict(nontrivial=bool(moved > 1e-9), label=f"{gen.label(case)} {'averages' if case['averages'] else 'centres'}")


@sub("C20", histories(lim=True, amps=(0.1, 0.3), every=True), quick=450, thorough=8000)
def stage_means(case):
    """the logged flags and magnitudes are the means over the stages of the last step"""
    s, rec, u, vals = play(case)
    compared = busy = 0
    for a, b in zip(rec[:-1], rec[1:]):
        if b["steps"] == a["steps"]:
            for key in ("trouble", "NAD violation magnitude", "PAD violation magnitude"):
                ensure(np.array_equal(a["entry"][key], b["entry"][key]), f"'{key}' changed without a step")
            continue
        ensure(b["steps"] == a["steps"] + 1, "logging every step skipped one")
        log = []
        f = lambda t, v: ref.rhs(case, v, t, vals, log)
        try:
            dt, v = ref.rk_step(f, a["t"], a["u"], b["integ"], dtmax=b["t"] - a["t"])
        except ref.Ambiguous:
            continue
        if not common.usable(v):
            raise Reject
        close(b["u"], v, rtol=1e-9, scale=common.scale(v), what="step")
        want = np.mean([x[0] for x in log], axis=0)
        close(b["entry"]["trouble"], want, rtol=0, atol=1e-12, what=f"mean trouble of a {b['integ']} step")
        lo = np.mean([np.where(d["nad_sure"], d["NAD_mag_flagged"], 0) for _, d in log], axis=0)
        hi = np.mean([np.where(d["nad_maybe"], d["NAD_mag"], 0) for _, d in log], axis=0)
        tol = 1e-8 * (1 + np.abs(gen.cons2prim(v, case["gamma"])).max())
        nad = b["entry"]["NAD violation magnitude"]
        ensure(np.all(nad >= lo - tol), "mean NAD magnitude too small")
        ensure(np.all(nad <= np.maximum(hi, 0) + tol), "mean NAD magnitude too large")
        pad = np.mean([np.where(d["pad_maybe"], np.maximum(d["PAD_mag"], 0), 0) for _, d in log], axis=0)
        close(b["entry"]["PAD violation magnitude"], pad, rtol=0, atol=tol, what="mean PAD magnitude")
        compared += 1
        busy += bool(want.any() and not want.all())
    return dict(nontrivial=busy > 0, label=f"{gen.label(case)}")


@sub("C20", histories(lim=True), quick=150, thorough=3000)
def resuming_is_seamless(case):
    """a run cut in two logs what the uncut run logs at the same times"""
    u = gen.make_u(case)
    vals = common.dirichlet_values(case, u)
    mk = lambda: gen.build(case, u, bc=common.boundary(case, vals), snapshots_as_fv_averages=case["averages"])
    a, b = mk(), mk()
    integ = case["calls"][0]["integ"]
    getattr(a, integ)(n=2)
    getattr(b, integ)(n=1)
    getattr(b, integ)(n=1)
    if not common.usable(a.am("u")):
        raise Reject
    ensure(len(a.snapshots) == 2 and len(b.snapshots) == 4, "entries of counted runs")
    for x, y in ((a.snapshots[0], b.snapshots[0]), (a.snapshots[1], b.snapshots[3]), (b.snapshots[1], b.snapshots[2])):
        for key in x:
            ensure(np.array_equal(np.asarray(x[key]), np.asarray(y[key]), equal_nan=True), f"'{key}' differs")
    return dict(nontrivial=bool(a.snapshots[1]["trouble"].any()), label=gen.label(case))


@st.composite
def long_histories(draw):
    case = draw(
        gen.problem(dims=st.sampled_from("xyz"), big=False, lim=True, amps=(0.1, 0.2), kinds=("smooth", "jumps", "mixed"), nmax=(14, 5, 4), pmax=4)
    )
    case["warm"] = draw(st.integers(20, 130))
    case["integ"] = draw(gen.pick("euler", "ssprk2", "ssprk3"))
    case["cut"] = draw(st.lists(gen.pick(0.3, 0.5, 0.9), max_size=2))
    return case


@sub("C20", long_histories(), quick=160, thorough=3000)
def after_many_steps(case):
    """flags and magnitudes of the last of many steps depend on that step alone"""
    u = gen.make_u(case)
    s = gen.build(case, u)
    go = getattr(s, case["integ"])
    for c in case["cut"]:
        go(n=int(c * case["warm"] / 2))
    go(n=case["warm"])
    if not common.usable(s.am("u")):
        raise Reject
    t, v = s.t, s.am("u").copy()
    go(n=1)
    log = []
    ref.UNPHYSICAL[0] = False
    try:
        dt, want = ref.rk_step(lambda tt, vv: ref.rhs(case, vv, tt, {}, log), t, v, case["integ"])
    except ref.Ambiguous:
        raise Reject
    if not common.usable(want) or ref.UNPHYSICAL[0]:
        raise Reject
    close(s.t, t + dt, rtol=1e-10, what="time")
    close(s.am("u"), want, rtol=1e-9, scale=common.scale(want), what="last step")
    mean = np.mean([x[0] for x in log], axis=0)
    close(s.snapshots[-1]["trouble"], mean, rtol=0, atol=1e-12, what="mean trouble of the last step")
    pad = np.mean([np.where(d["pad_maybe"], np.maximum(d["PAD_mag"], 0), 0) for _, d in log], axis=0)
    tol = 1e-8 * (1 + np.abs(gen.cons2prim(want, case["gamma"])).max())
    close(s.snapshots[-1]["PAD violation magnitude"], pad, rtol=0, atol=tol, what="mean PAD magnitude")
    return dict(nontrivial=bool(mean.any()), label=gen.label(case))
