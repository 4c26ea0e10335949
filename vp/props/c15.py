"""C15: lower-dimensional flows embed exactly in higher dimensions"""

import numpy as np
from hypothesis import strategies as st

import common
import gen
from core import Reject, close, ensure, sub

RULE = (
    "random 1D and 2D problems repeated along one or two extra axes with random cells, degrees and "
    "boundaries, same fixed step; non-trivial if the state changed"
)
ASSUMPTIONS = [
    "round-off is 1e-9 of the largest value",
    "limited cases in which a detection threshold is met only to within 1e-9 are discarded",
    "a wall on an extra axis is only generated with zero velocity towards it",
]


@st.composite
def embedded(draw, **kw):
    nd = draw(gen.pick(1, 1, 2))
    order = draw(st.permutations("xyz"))
    dims = "".join(sorted(order[:nd]))
    extra = "".join(sorted(order[nd : draw(st.integers(nd + 1, 3))]))
    case = draw(
        gen.with_steps(
            gen.problem(
                dims=dims,
                bc=common.SYM,
                amps=(0.02, 0.1, 0.2),
                nmax=(24, 9, 5),
                convex_ok=nd + len(extra) < 3,
                **kw,
            ),
            steps=(1, 2, 3),
        )
    )
    common.fix_periodic(case)
    case["extra"] = extra
    case["ep"], case["en"], case["ebc"] = [], [], []
    for d in extra:
        i = "xyz".index(d)
        p = draw(st.integers(0, 4))
        kind = draw(gen.pick("periodic", "periodic", "free", "outflow", "reflective"))
        case["ep"].append(p)
        pm = max([p] + case["p"])
        c = (pm + 1) // 2
        need = max(max(c + 1, 2 * c), 3) + 2 * ((p + 1) // 2)
        lo = (1 if p else 2) if kind in ("periodic", "free") else need
        case["en"].append(draw(st.integers(lo, lo + 3)))
        case["ebc"].append([kind, kind])
        if kind == "reflective":
            case["field"]["drift"][i] = 0.0
            case["field"].setdefault("still", "")
            case["field"]["still"] += d
            if case["lim"] is not None:
                case["lim"]["SED"] = True
    # the ghost width is set by the largest degree of all axes
    pm = max(case["p"] + case["ep"])
    c = (pm + 1) // 2
    for d in dims:
        i = "xyz".index(d)
        if {"outflow", "reflective"} & set(case["bc"][d]):
            need = max(max(c + 1, 2 * c), 3) + 2 * ((case["p"][i] + 1) // 2)
            case["n"][i] = max(case["n"][i], need)
    for k, p in enumerate(case["ep"]):
        if {"outflow", "reflective"} & set(case["ebc"][k]):
            need = max(max(c + 1, 2 * c), 3) + 2 * ((p + 1) // 2)
            case["en"][k] = max(case["en"][k], need)
    # a step below the CFL limit of every embedding
    h = min([case["len"][i] / case["n"][i] for i in range(3)] + [case["len"]["xyz".index(d)] / n for d, n in zip(extra, case["en"])])
    case["fixed_dt"] = h * draw(gen.pick(0.02, 0.05))
    return case


def embed(case, u):
    c = dict(case, n=list(case["n"]), p=list(case["p"]), bc=dict(case["bc"]))
    v = u
    for d, n, p, kinds in zip(case["extra"], case["en"], case["ep"], case["ebc"]):
        i = "xyz".index(d)
        c["n"][i], c["p"][i], c["bc"][d] = n, p, kinds
        v = np.repeat(v, n, axis=i + 1)
    return c, v


def check(case):
    w = gen.make_w(case)
    for d in case["field"].get("still", ""):
        w[1 + "xyz".index(d)] = 0.0
    u = gen.prim2cons(w, case["gamma"])
    c2, u2 = embed(case, u)
    if u2.size > 80000:
        raise Reject
    common.steady_decisions(case, u)
    if case["lim"] is not None:
        common.steady_decisions(c2, u2)
    s = gen.build(case, u)
    a = gen.advance(s, case)
    s2 = gen.build(c2, u2)
    b = gen.advance(s2, c2)
    close(s2.t, s.t, rtol=1e-12, what="time")
    want = np.broadcast_to(a, b.shape)
    close(b, want, rtol=1e-9, scale=common.scale(a), what=f"flow embedded along {case['extra']}")
    if case["lim"] is not None:
        close(
            common.trouble_of(s2),
            np.broadcast_to(common.trouble_of(s), b.shape[1:]),
            rtol=0,
            atol=1e-12,
            what="trouble",
        )
    return dict(
        nontrivial=bool(np.abs(a - u).max() > 1e-10), label=gen.label(case) + " +" + str(len(case["extra"]))
    )


@sub("C15", embedded(lim=False), quick=400, thorough=8000)
def unlimited(case):
    return check(case)


@sub("C15", embedded(lim=True, pmax=5), quick=600, thorough=12000)
def limited(case):
    return check(case)
