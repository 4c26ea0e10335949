"""C11: permuting the axes permutes the solution"""

import itertools

import numpy as np
from hypothesis import strategies as st

import common
import gen
from core import Reject, close, ensure, sub

RULE = (
    "random problems (dimension, per-axis degree, domain, boundaries, gas, tracers, limiting) and a "
    "random permutation of the axes; solution and trouble of the permuted problem are compared with "
    "the permuted solution; non-trivial if the state changed and the permutation moves an active axis"
)
ASSUMPTIONS = [
    "round-off is 1e-9 of the largest value",
    "limited cases in which a detection threshold is met only to within 1e-9 are discarded",
    "Dirichlet constants on one axis are combined with types that do not negate momenta on the others, "
    "because the order in which corners are filled is documented",
]

BCS = ["periodic2", "free", "outflow", "reflective"]


def perm_name(nm, perm):
    """name of variable nm after new axis k takes the role of old axis perm[k]"""
    if nm in ("vx", "vy", "vz"):
        return "v" + "xyz"[perm.index("xyz".index(nm[1]))]
    return nm


def permute_u(u, perm):
    v = np.transpose(u, (0,) + tuple(1 + q for q in perm)).copy()
    w = v.copy()
    for k in range(3):
        w[1 + k] = v[1 + perm[k]]
    return w


def permute_case(case, perm):
    c = dict(case)
    for key in ("n", "p", "lo", "len"):
        c[key] = [case[key][q] for q in perm]
    bc = {}
    for k in range(3):
        old = "xyz"[perm[k]]
        bc["xyz"[k]] = list(case["bc"][old])
        val = case["bc"].get(old + "_value")
        if val is not None:
            bc["xyz"[k] + "_value"] = [
                None if v is None else permute_u(np.asarray(v).reshape(-1, 1, 1, 1), perm).ravel()
                for v in val
            ]
    c["bc"] = bc
    if case["lim"] is not None:
        l = dict(case["lim"])
        if l.get("NAD_vars"):
            l["NAD_vars"] = [perm_name(v, perm) for v in l["NAD_vars"]]
        if l.get("PAD"):
            l["PAD"] = {perm_name(k, perm): v for k, v in l["PAD"].items()}
        c["lim"] = l
    return c


@st.composite
def problem(draw, **kw):
    nd = draw(gen.pick(1, 2, 2, 3))
    dims = "".join(sorted(draw(st.permutations("xyz"))[:nd]))
    case = draw(
        gen.with_steps(
            gen.problem(dims=dims, bc=BCS, amps=(0.02, 0.1, 0.2), nmax=(30, 9, 5), **kw),
            steps=(1, 2, 3),
        )
    )
    common.fix_periodic(case)
    case["perm"] = list(draw(st.permutations([0, 1, 2])))
    case["dirichlet"] = draw(gen.pick(None, None, None, dims[0], dims[-1]))
    return case


def prepare(case):
    vals = None
    d = case["dirichlet"]
    if d is not None:
        case = dict(case, bc=dict(case["bc"]))
        for e in "xyz":
            if "reflective" in case["bc"][e]:
                case["bc"][e] = ["outflow", "outflow"]
        case["bc"][d] = ["dirichlet", "dirichlet"]
        w0 = np.array([1.05, 0.3, -0.25, 0.1, 0.95] + [0.4, 0.7, -0.2, 1.1, 0.0, 0.3][: case["npass"]])
        c0 = gen.prim2cons(w0.reshape(-1, 1, 1, 1), case["gamma"]).ravel()
        w1 = w0 * 0.97
        c1 = gen.prim2cons(w1.reshape(-1, 1, 1, 1), case["gamma"]).ravel()
        case["bc"][d + "_value"] = [c0, c1]
        vals = {d + "l": c0, d + "r": c1}
    return case, vals


def check(case):
    perm = case["perm"]
    case, vals = prepare(case)
    u = gen.make_u(case)
    common.steady_decisions(case, u, dirichlet=vals)
    s = gen.build(case, u)
    a = gen.advance(s, case)
    c2 = permute_case(case, perm)
    s2 = gen.build(c2, permute_u(u, perm))
    b = gen.advance(s2, c2)
    want = permute_u(a, perm)
    close(s2.t, s.t, rtol=1e-9, what="time")
    close(b, want, rtol=1e-9, scale=common.scale(want), what=f"solution after permuting the axes {perm}")
    w = permute_u(s.snapshots[-1]["w"], perm)
    close(s2.snapshots[-1]["w"], w, rtol=1e-8, scale=np.abs(w).max() + 1, what="logged primitives")
    if case["lim"] is not None:
        t1 = np.transpose(common.trouble_of(s), perm)
        close(common.trouble_of(s2), t1, rtol=0, atol=1e-12, what="logged trouble")
    act = gen.active(case)
    moved = any(perm[k] != k and act[k] for k in range(3))
    return dict(
        nontrivial=moved and bool(np.abs(a - u).max() > 1e-10), label=gen.label(case)
    )


@sub("C11", problem(lim=False), quick=400, thorough=8000)
def unlimited(case):
    return check(case)


@sub("C11", problem(lim=True, pmax=5), quick=700, thorough=15000)
def limited(case):
    return check(case)


@sub("C11", problem(rss=("advection_upwind",), lim=False), quick=100, thorough=1500)
def advection(case):
    return check(case)
