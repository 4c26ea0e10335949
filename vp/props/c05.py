"""C05: the time integrators"""

import math

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import close, ensure, sub
from fvhoe.ode import ODE

RULE = (
    "random right-hand sides (linear, nonlinear, time dependent, with step proposals depending on "
    "time and state) advanced several steps by a random sequence of integrators, compared step by step "
    "with the Butcher tableau; non-trivial if the right-hand side depends on time or the state"
)
ASSUMPTIONS = ["round-off is 1e-12 of the state"]


class Toy(ODE):
    def __init__(self, u0, fun):
        self.fun = fun
        self.calls = []
        super().__init__(u0, progress_bar=False)

    def f(self, t, u):
        self.calls.append(t)
        return self.fun(t, u)


@st.composite
def ode(draw):
    k = draw(st.integers(1, 4))
    return dict(
        k=k,
        seed=draw(gen.SEED),
        kind=draw(gen.pick("linear", "nonlinear", "time", "mixed")),
        law=draw(gen.pick("const", "time", "state")),
        dt=draw(gen.pick(0.1, 0.01, 0.3)),
        runs=[
            [draw(st.sampled_from(gen.INTEG)), draw(st.integers(1, 4))]
            for _ in range(draw(st.integers(1, 3)))
        ],
        shape=draw(gen.pick([1], [2, 3], [2, 1, 2, 1])),
        cut=draw(gen.pick(None, None, 0.37, 0.05)),
    )


def make(case):
    rng = np.random.default_rng(case["seed"])
    shape = tuple(case["shape"])
    u0 = rng.uniform(-1, 1, size=shape)
    a, b, c = rng.uniform(-1, 1, size=(3,) + shape)
    w = rng.uniform(1, 4)
    kind, law, dt0 = case["kind"], case["law"], case["dt"]

    def rate(t, u):
        if kind == "linear":
            return a * u
        if kind == "nonlinear":
            return a * np.sin(3 * u) + b * u[::-1]
        if kind == "time":
            return a * np.cos(w * t) + b * t**2
        return a * np.sin(u + w * t) + c * u * t

    def fun(t, u):
        if law == "const":
            dt = dt0
        elif law == "time":
            dt = dt0 * (1 + 0.5 * math.sin(9 * t))
        else:
            dt = dt0 / (1 + float(np.abs(u).max()))
        return dt, rate(t, u)

    return u0, fun


@sub("C05", ode(), quick=2500, thorough=40000)
def matches_tableau(case):
    u0, fun = make(case)
    s = Toy(u0.copy(), fun)
    t, v = 0.0, u0.copy()
    for integ, n in case["runs"]:
        if case["cut"] is None:
            for _ in range(n):
                dt, v = ref.rk_step(fun, t, v, integ)
                t += dt
            getattr(s, integ)(n=n)
        else:
            T = t + case["cut"]
            while t < T:
                dt, v = ref.rk_step(fun, t, v, integ, dtmax=T - t)
                t = T if dt == T - t else t + dt
            getattr(s, integ)(T=T)
        close(s.t, t, rtol=1e-12, atol=1e-13, what=f"time after {integ}")
        close(s.am("u"), v, rtol=1e-12, atol=1e-13, what=f"state after {integ}")
    return dict(label=f"{case['kind']} {case['law']}")


@sub(
    "C05",
    st.builds(
        lambda i, seed, q, n, dt: dict(integ=i, seed=seed, q=q, n=n, dt=dt),
        st.sampled_from(gen.INTEG),
        gen.SEED,
        st.integers(0, 3),
        st.integers(1, 5),
        gen.pick(0.25, 0.5, 0.1),
    ),
    quick=1200,
    thorough=12000,
)
def integrates_polynomials(case):
    """u' = polynomial in t of degree below the order is integrated exactly"""
    order = {"euler": 1, "ssprk2": 2, "ssprk3": 3, "rk4": 4}[case["integ"]]
    q = min(case["q"], order - 1)
    rng = np.random.default_rng(case["seed"])
    c = rng.uniform(-1, 1, size=q + 1)
    s = Toy(np.zeros(2), lambda t, u: (case["dt"], sum(a * t**k for k, a in enumerate(c)) * np.ones(2)))
    getattr(s, case["integ"])(n=case["n"])
    T = case["n"] * case["dt"]
    want = sum(a * T ** (k + 1) / (k + 1) for k, a in enumerate(c))
    close(s.am("u"), want * np.ones(2), rtol=1e-12, scale=1 + T**q, what=f"{case['integ']} degree {q}")
    return dict(nontrivial=q > 0, label=f"{case['integ']} {q}")


@sub(
    "C05",
    st.builds(
        lambda i, lam, n, dt: dict(integ=i, lam=lam, n=n, dt=dt),
        st.sampled_from(gen.INTEG),
        st.floats(-3, 3),
        st.integers(1, 5),
        gen.pick(0.25, 0.5, 0.1),
    ),
    quick=600,
    thorough=6000,
)
def stability_function(case):
    """u' = lam u is multiplied per step by the exponential series cut at the order"""
    order = {"euler": 1, "ssprk2": 2, "ssprk3": 3, "rk4": 4}[case["integ"]]
    z = case["lam"] * case["dt"]
    s = Toy(np.array([1.0, -2.0]), lambda t, u: (case["dt"], case["lam"] * u))
    getattr(s, case["integ"])(n=case["n"])
    R = sum(z**k / math.factorial(k) for k in range(order + 1)) ** case["n"]
    close(s.am("u"), R * np.array([1.0, -2.0]), rtol=1e-12, atol=1e-13, what=case["integ"])
    return dict(nontrivial=case["lam"] != 0, label=case["integ"])


@sub(
    "C05",
    st.builds(lambda i, seed: dict(integ=i, seed=seed), st.sampled_from(gen.INTEG), gen.SEED),
    quick=120,
    thorough=1500,
)
def observed_order(case):
    """error against a fine solution of a nonlinear, time-dependent problem"""
    order = {"euler": 1, "ssprk2": 2, "ssprk3": 3, "rk4": 4}[case["integ"]]
    rng = np.random.default_rng(case["seed"])
    a, w, b = rng.uniform(0.5, 1.5, size=3)
    rate = lambda t, u: a * np.sin(w * t + u) - b * u * np.cos(t)
    T = 1.0

    def run(n):
        s = Toy(np.array([0.3, -0.7]), lambda t, u: (T / n, rate(t, u)))
        getattr(s, case["integ"])(n=n)
        return s.am("u").copy()

    t, v = 0.0, np.array([0.3, -0.7])
    N = 400
    for _ in range(N):
        _, v = ref.rk_step(lambda tt, uu: (T / N, rate(tt, uu)), t, v, "rk4")
        t += T / N
    n0 = {1: 64, 2: 32, 3: 16, 4: 16}[order]
    e = [np.abs(run(n) - v).sum() for n in (n0, 2 * n0, 4 * n0)]
    if e[0] > 1e-9:
        o = math.log2(max(e[0], 1e-300) / max(e[2], 1e-16)) / 2
        ensure(o > order - 0.5 or e[2] < 1e-10, f"{case['integ']}: observed order {o:.2f}, errors {e}")
    return dict(label=case["integ"])


@st.composite
def edited(draw):
    case = draw(ode())
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        op = draw(gen.pick("run", "run", "t", "u", "uscale", "count", "rewind", "rewind"))
        ops.append(
            [op]
            + dict(
                run=[draw(st.sampled_from(gen.INTEG)), draw(st.integers(1, 3))],
                t=[draw(gen.pick(0.0, 0.25, -1.0, 3.0))],
                u=[draw(gen.SEED)],
                uscale=[draw(gen.pick(0.5, -1.0, 2.0))],
                count=[draw(st.integers(0, 3))],
                rewind=[draw(gen.SEED)],
            )[op]
        )
    case["ops"] = ops + [["run", draw(st.sampled_from(gen.INTEG)), draw(st.integers(1, 2))]]
    return case


@sub("C05", edited(), quick=700, thorough=12000)
def edited_between_runs(case):
    """time, state or step count set by hand between runs: a step depends on nothing else"""
    u0, fun = make(case)
    s = Toy(u0.copy(), fun)
    t, v = 0.0, u0.copy()
    for op, *a in case["ops"]:
        if op == "run":
            for _ in range(a[1]):
                dt, v = ref.rk_step(fun, t, v, a[0])
                t += dt
            getattr(s, a[0])(n=a[1])
        elif op == "t":
            t = a[0]
            s.t = t
        elif op == "u":
            v = np.random.default_rng(a[0]).uniform(-1, 1, size=v.shape)
            s.am("u")[...] = v
        elif op == "uscale":
            v = v * a[0]
            s.am("u")[...] = v
        elif op == "count":
            s.step_count = a[0]
        else:
            t, v = 0.0, np.random.default_rng(a[0]).uniform(-1, 1, size=v.shape)
            s.t, s.step_count, s.timestamps = 0.0, 0, [0.0]
            s.am("u")[...] = v
        close(s.t, t, rtol=1e-12, atol=1e-13, what=f"time after {op}")
        close(s.am("u"), v, rtol=1e-12, atol=1e-12, what=f"state after {op}")
    return dict(nontrivial=len({o[0] for o in case["ops"]}) > 1, label=case["kind"])
