"""C14: walls and periods equal the extended domain they stand for"""

import numpy as np
from hypothesis import strategies as st

import common
import gen
from core import Reject, close, ensure, sub
from props.c12 import mirror_u

RULE = (
    "random problems with a reflective wall on a random side compared with the doubled box holding the "
    "mirror image, and random periodic problems compared with a box holding 2-3 copies along random "
    "axes; non-trivial if the state changed"
)
ASSUMPTIONS = [
    "round-off is 1e-9 of the largest value",
    "limited cases in which a detection threshold is met only to within 1e-9 are discarded",
    "the global range of the wall-normal velocity differs between the half and the doubled box by "
    "definition, so limited wall cases use local ranges or do not monitor that velocity",
]


@st.composite
def walled(draw, **kw):
    nd = draw(gen.pick(1, 1, 2, 2, 3))
    dims = "".join(sorted(draw(st.permutations("xyz"))[:nd]))
    case = draw(
        gen.with_steps(
            gen.problem(
                dims=dims,
                bc=common.SYM,
                amps=(0.02, 0.1, 0.2),
                nmax=(24, 8, 4),
                thin=False,
                **kw,
            ),
            steps=(1, 2, 3),
        )
    )
    common.fix_periodic(case)
    d = draw(st.sampled_from(list(dims)))
    case["axis"] = i = "xyz".index(d)
    case["side"] = draw(gen.pick(0, 1))
    other = draw(gen.pick("free", "outflow", "reflective"))
    case["bc"][d] = ["reflective", other] if case["side"] == 0 else [other, "reflective"]
    l = case["lim"]
    if l is not None:
        local = l["NAD_mode"] == "local" and l["NAD_range"] == "relative"
        if not local:
            l["NAD_vars"] = draw(
                gen.pick(["rho"], ["P"], ["rho", "P"], [v for v in ("vx", "vy", "vz") if v != "v" + d])
            )
            if l["NAD_range"] == "absolute" and l["NAD_vars"][0][0] == "v":
                l["NAD_vars"] = ["rho", "P"]
        if l.get("PAD"):
            l["PAD"] = {k: v for k, v in l["PAD"].items() if k != "v" + d}
    return case


def double(case, u):
    i, side = case["axis"], case["side"]
    d = "xyz"[i]
    other = case["bc"][d][1 - side]
    c = dict(case, n=list(case["n"]), len=list(case["len"]), lo=list(case["lo"]), bc=dict(case["bc"]))
    c["n"][i] *= 2
    c["len"][i] *= 2
    m = mirror_u(u, i)
    if side == 0:
        c["lo"][i] -= case["len"][i]
        v = np.concatenate([m, u], axis=i + 1)
    else:
        v = np.concatenate([u, m], axis=i + 1)
    c["bc"][d] = [other, other]
    return c, v


def half(a, case, axis0):
    n = case["n"][case["axis"]]
    k = n if case["side"] == 0 else 0
    return np.take(a, np.arange(k, k + n), axis=axis0)


def check_wall(case):
    u = gen.make_u(case)
    c2, u2 = double(case, u)
    if u2.size > 60000:
        raise Reject
    common.steady_decisions(case, u)
    if case["lim"] is not None:
        common.steady_decisions(c2, u2)
    s = gen.build(case, u)
    a = gen.advance(s, case)
    s2 = gen.build(c2, u2)
    b = gen.advance(s2, c2)
    close(s2.t, s.t, rtol=1e-9, what="time")
    i = case["axis"]
    close(half(b, case, i + 1), a, rtol=1e-9, scale=common.scale(a), what="half of the doubled box")
    if case["lim"] is not None:
        close(
            half(common.trouble_of(s2), case, i), common.trouble_of(s), rtol=0, atol=1e-12, what="trouble"
        )
    return dict(nontrivial=bool(np.abs(a - u).max() > 1e-10), label=gen.label(case))


@sub("C14", walled(lim=False), quick=350, thorough=6000)
def wall_unlimited(case):
    return check_wall(case)


@sub("C14", walled(lim=True, pmax=5), quick=500, thorough=10000)
def wall_limited(case):
    return check_wall(case)


@st.composite
def tiled(draw, **kw):
    nd = draw(gen.pick(1, 1, 2, 2, 3))
    dims = "".join(sorted(draw(st.permutations("xyz"))[:nd]))
    case = draw(
        gen.with_steps(
            gen.problem(dims=dims, amps=(0.02, 0.1, 0.2), nmax=(20, 7, 4), **kw), steps=(1, 2, 3)
        )
    )
    case["copies"] = [draw(st.integers(1, 3 if nd < 3 else 2)) if d in dims else 1 for d in "xyz"]
    if case["copies"] == [1, 1, 1]:
        case["copies"]["xyz".index(dims[0])] = 2
    return case


def check_tiles(case):
    u = gen.make_u(case)
    common.steady_decisions(case, u)
    m = case["copies"]
    c2 = dict(
        case,
        n=[a * b for a, b in zip(case["n"], m)],
        len=[a * b for a, b in zip(case["len"], m)],
    )
    s = gen.build(case, u)
    a = gen.advance(s, case)
    s2 = gen.build(c2, np.tile(u, [1] + m))
    b = gen.advance(s2, c2)
    close(s2.t, s.t, rtol=1e-9, what="time")
    want = np.tile(a, [1] + m)
    close(b, want, rtol=1e-9, scale=common.scale(a), what=f"{m} copies")
    if case["lim"] is not None:
        close(
            common.trouble_of(s2), np.tile(common.trouble_of(s), m), rtol=0, atol=1e-12, what="trouble"
        )
    return dict(nontrivial=bool(np.abs(a - u).max() > 1e-10), label=gen.label(case))


@sub("C14", tiled(lim=False), quick=250, thorough=5000)
def tiles_unlimited(case):
    return check_tiles(case)


@sub("C14", tiled(lim=True, pmax=5), quick=450, thorough=9000)
def tiles_limited(case):
    return check_tiles(case)
