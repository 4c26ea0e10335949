"""C06: the driver hits the requested times and logs exactly them"""

import numpy as np
from hypothesis import strategies as st

import gen
from core import Reject, Violation, close, ensure, sub
from fvhoe.ode import ODE
from fvhoe.solver import EulerSolver

RULE = (
    "histories of up to 4 integrate calls (final time or step count, exact or not, output times in "
    "any order, duplicated, past, future, equal to the end, a hair before or after each other or a step's end; lists, tuples, arrays, sets, generators; "
    "logging every step) on toy ODEs with varying proposed steps and on Euler solvers, compared with a "
    "model of the driver; non-trivial if at least one step was taken"
)
ASSUMPTIONS = [
    "output times that are not on the step lattice of the toy problem differ from it by more than round-off"
]


class Toy(ODE):
    """u' = -u with proposed step sizes depending on time; records every step"""

    def __init__(self, propose, limit=20000):
        super().__init__(np.array([1.0, -2.0]), progress_bar=False)
        self.propose, self.evals, self.limit = propose, 0, limit

    def f(self, t, u):
        self.evals += 1
        if self.evals > self.limit:
            raise Violation("the driver does not terminate")
        return self.propose(t), -u


def proposer(case):
    b, k = case["base"] * case["tscale"], case["tscale"]
    if case["lattice"]:
        return lambda t: b
    return lambda t: b * (1 + 0.4 * np.sin(5 * t / k + 1))


NEAR = [0] * 6 + [2.0**-17, -(2.0**-17), 2.0**-27, -(2.0**-27), 2.0**-31, 2.0**-12]
TIMES = st.lists(
    st.builds(lambda q, e: q + e, st.integers(-8, 48), st.sampled_from(NEAR)), max_size=6
)
MANY = st.builds(
    lambda seed, n: [float(q) for q in np.random.default_rng(seed).integers(-8, 480, size=n) / 8], gen.SEED, st.integers(20, 150)
)


@st.composite
def history(draw):
    lattice = draw(st.booleans())
    base = draw(gen.pick(0.25, 0.125, 0.5)) if lattice else draw(gen.pick(0.0371, 0.1113, 0.417))
    unit = draw(gen.pick(0.125, 0.0625)) if lattice else draw(gen.pick(0.0831, 0.1257))
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 3)) == 0:
            calls.append(dict(n=draw(st.one_of(*[st.integers(0, 5)] * 9, gen.pick(33, 130, 300))), T=draw(gen.pick(None, 3))))
        else:
            calls.append(
                dict(
                    T=draw(st.integers(-2, 30)) + draw(st.sampled_from(NEAR)),
                    exact=draw(gen.pick(True, True, True, False)),
                    downbeats=draw(st.one_of(*[st.none(), TIMES] * 7, MANY)),
                    container=draw(gen.pick("list", "tuple", "array", "set", "gen")),
                    every=draw(gen.pick(False, False, True)),
                )
            )
    return dict(
        lattice=lattice,
        base=base,
        unit=unit,
        integ=draw(st.sampled_from(gen.INTEG)),
        calls=calls,
        # units of time
        tscale=draw(gen.pick(1.0, 1.0, 1.0, 2.0**-50, 2.0**-30, 2.0**20, 2.0**40)),
    )


def contain(kind, xs):
    return dict(
        list=list, tuple=tuple, array=lambda v: np.array(v, dtype=float), set=set, gen=iter
    )[kind](xs)


def run_to(go, kind, xs, **kw):
    """run with output times in a container which belongs to the caller"""
    beats = None if xs is None else contain(kind, xs)
    go(downbeats=beats, **kw)
    if kind in ("list", "array") and beats is not None:
        ensure(list(beats) == list(xs), f"the given output times {list(xs)} were changed to {list(beats)}")


class Model:
    def __init__(self, propose):
        self.t, self.stamps, self.logs, self.propose = 0.0, [0.0], [], propose
        self.exact_stamps = {0: 0.0}  # index -> time that must be met exactly

    def step(self, target=None):
        dt = self.propose(self.t)
        if target is not None and target - self.t < dt:
            self.t = target
            self.exact_stamps[len(self.stamps)] = target
        else:
            self.t = self.t + dt
        self.stamps.append(self.t)

    def log(self):
        self.logs.append(self.t)

    def run_n(self, n):
        self.log()
        for _ in range(n):
            self.step()
        self.log()

    def run_T(self, T, exact, downbeats, every):
        self.log()
        want = sorted({q for q in downbeats if self.t < q < T} | {T}) if exact else []
        while self.t < T:
            target = next((q for q in want if q > self.t), None)
            self.step(target)
            if every or self.t >= T or (target is not None and self.t == target):
                self.log()


def apply_calls(case, s, model, unit):
    for c in case["calls"]:
        go = getattr(s, case["integ"])
        if "n" in c:
            model.run_n(c["n"])
            if c["T"] is None:
                go(n=c["n"])
            else:
                go(T=c["T"] * unit, n=c["n"])
        else:
            T = c["T"] * unit
            db = None if c["downbeats"] is None else [q * unit for q in c["downbeats"]]
            model.run_T(T, c["exact"], db or [], c["every"])
            run_to(go, c["container"], db, T=T, exact=c["exact"], log_every_step=c["every"])


def compare(s, m, k=1.0):
    ensure(
        len(s.timestamps) == len(m.stamps),
        lambda: f"{len(s.timestamps) - 1} steps were recorded, {len(m.stamps) - 1} expected: {s.timestamps}",
    )
    close(s.timestamps, m.stamps, rtol=1e-12, atol=1e-13 * k, what="time stamps")
    ensure(s.step_count == len(m.stamps) - 1, f"step count {s.step_count}")
    for i, q in m.exact_stamps.items():
        ensure(s.timestamps[i] == q, f"step {i} ends at {s.timestamps[i]!r}, not exactly at {q!r}")
    ensure(
        len(s.snapshot_times) == len(m.logs),
        lambda: f"snapshots at {s.snapshot_times}, expected at {m.logs}",
    )
    close(s.snapshot_times, m.logs, rtol=1e-12, atol=1e-13 * k, what="snapshot times")
    ensure(len(s.snapshots) == len(m.logs), "number of snapshots")
    ensure(s.t == s.timestamps[-1], "current time differs from the last time stamp")
    ts = np.array(s.timestamps)
    ensure(np.all(np.diff(ts) > 0), "time stamps do not increase")


@sub("C06", history(), quick=6000, thorough=80000)
def toy_history(case):
    prop = proposer(case)
    s, m = Toy(prop), Model(prop)
    apply_calls(case, s, m, case["unit"] * case["tscale"])
    compare(s, m, case["tscale"])
    return dict(nontrivial=len(m.stamps) > 1, label=f"{len(case['calls'])} calls")


@sub("C06", history(), quick=1500, thorough=20000)
def bounds_on_steps(case):
    """without the model: requested times are stamps, no step is longer than proposed"""
    prop = proposer(case)
    s = Toy(prop)
    unit = case["unit"] * case["tscale"]
    for c in case["calls"]:
        go, t0, k0 = getattr(s, case["integ"]), s.t, len(s.timestamps)
        if "n" in c:
            go(n=c["n"])
            ensure(len(s.timestamps) - k0 == c["n"], "number of steps")
            continue
        T = c["T"] * unit
        db = [q * unit for q in c["downbeats"] or []]
        run_to(go, c["container"], db, T=T, exact=c["exact"], log_every_step=c["every"])
        if T <= t0:
            ensure(s.t == t0, "a run into the past moved")
        elif c["exact"]:
            ensure(s.t == T, f"run to {T!r} ended at {s.t!r}")
            for q in db:
                if t0 < q <= T:
                    ensure(q in s.timestamps, f"output time {q!r} was stepped over")
                    ensure(q in s.snapshot_times, f"output time {q!r} was not logged")
        else:
            ensure(s.t >= T, f"run to {T!r} ended at {s.t!r}")
            ensure(s.timestamps[-2] < T, "steps beyond the final time")
    ts = np.array(s.timestamps)
    for a, b in zip(ts[:-1], ts[1:]):
        ensure(b - a <= prop(a) * (1 + 1e-12) + 1e-13 * case["tscale"], f"step from {a!r} to {b!r} exceeds the proposal")
    return dict(nontrivial=len(ts) > 1)


class Guarded(EulerSolver):
    budget = 4000

    def f(self, t, u):
        self.budget -= 1
        if self.budget < 0:
            raise Violation("the driver does not terminate")
        return super().f(t, u)


@st.composite
def euler_history(draw):
    case = draw(
        gen.problem(nmax=(16, 5, 3), pmax=4, amps=(0.02, 0.1), thin=True, npass=st.just(0))
    )
    case["CFL"] = max(case["CFL"], 0.2)
    h = draw(history())
    for c in h["calls"]:
        if "T" in c and "n" not in c:
            c["T"] = min(c["T"], 14)
    case["calls"] = h["calls"]
    case["integ"] = draw(st.sampled_from(gen.INTEG + ["run"]))
    case["fdt"] = draw(gen.pick(None, 0.01, 0.0073))
    return case


@sub("C06", euler_history(), quick=300, thorough=4000)
def euler_runs(case):
    """the Euler solver, its step proposals recorded at the first stage of every step"""
    import fvhoe.solver as mod

    unit = 0.0031
    proposals = []
    over = dict(fixed_dt=case["fdt"])

    class Rec(Guarded):
        first = True

        def f(self, t, u):
            out = super().f(t, u)
            if t == self.t:
                # the first evaluation at the current time is the first stage
                proposals.append((t, out[0]))
            return out

    old = gen.EulerSolver
    gen.EulerSolver = Rec
    try:
        s = gen.build(case, **over)
    finally:
        gen.EulerSolver = old
    seen = []
    s.snapshot_helper_function = lambda q: seen.append((q.t, len(q.snapshots)))
    for c in case["calls"]:
        go, t0 = getattr(s, case["integ"]), s.t
        k0, l0 = s.step_count, len(s.snapshots)
        if "n" in c:
            go(n=c["n"])
            if not np.all(np.isfinite(s.am("u"))):
                raise Reject
            ensure(s.step_count - k0 == c["n"], "number of steps")
            ensure(len(s.snapshots) - l0 == 2, "a run of n steps logs its start and end")
            continue
        T = c["T"] * unit
        db = [q * unit for q in c["downbeats"] or []]
        run_to(go, c["container"], db, T=T, exact=c["exact"], log_every_step=c["every"])
        if not np.all(np.isfinite(s.am("u"))):
            raise Reject
        times = s.snapshot_times[l0:]
        ensure(times[0] == t0, "no snapshot at the start")
        if T <= t0:
            ensure(s.t == t0 and len(times) == 1, "a run into the past moved or logged")
            continue
        ensure(times[-1] == s.t, "no snapshot at the end")
        ensure(s.t == T if c["exact"] else s.t >= T, f"run to {T!r} ended at {s.t!r}")
        if c["every"]:
            ensure(times[1:] == s.timestamps[k0 + 1 :], "not every step was logged")
        else:
            want = sorted({q for q in db if t0 < q < T} | {T}) if c["exact"] else [s.t]
            ensure(times[1:] == want, f"logged at {times[1:]}, requested {want}")
    ensure([q["t"] for q in s.snapshots] == s.snapshot_times, "times in the snapshots")
    ensure([q[0] for q in seen] == s.snapshot_times, "helper calls")
    ensure([q[1] for q in seen] == list(range(1, len(s.snapshots) + 1)), "helper is called after the entry")
    ts = s.timestamps
    ensure(s.t == ts[-1] and s.step_count == len(ts) - 1, "step count or time")
    ensure(np.all(np.diff(ts) > 0), "time stamps do not increase")
    prop = {}
    for t, dt in proposals:
        prop.setdefault(t, dt)
    for a, b in zip(ts[:-1], ts[1:]):
        ensure(a in prop, f"no evaluation at the start {a!r} of a step")
        ensure(b - a <= prop[a] * (1 + 1e-12) + 1e-15, f"step from {a!r} exceeds the proposal {prop[a]!r}")
    return dict(nontrivial=len(ts) > 1, label=gen.label(case))


@sub("C06", gen.problem(nmax=(14, 5, 3), amps=(0.02, 0.1)), quick=200, thorough=3000)
def run_matches_degree(case):
    """run uses the integrator matching the largest degree"""
    q = min(max(case["p"]), 3)
    a, b = gen.build(case), gen.build(case)
    a.run(n=2)
    getattr(b, gen.INTEG[q])(n=2)
    if not np.all(np.isfinite(b.am("u"))):
        raise Reject
    ensure(a.t == b.t, "times differ")
    close(a.am("u"), b.am("u"), rtol=1e-12, what="run against the named integrator")
    return dict(label=f"degree {max(case['p'])}")
