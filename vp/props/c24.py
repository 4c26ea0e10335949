"""C24: variable indexing and array bookkeeping match their model"""

import contextlib
import importlib.util
import os
import time

import numpy as np
from hypothesis import strategies as st

import gen
from core import REPO, close, ensure, raises, sub
from fvhoe.array_management import ArrayManager
from fvhoe.hydro import HydroState
from fvhoe.solver import EulerSolver

RULE = (
    "random histories of lookups on several layouts, of array-store operations and of timer operations, each compared "
    "step by step with a plain model; non-trivial if the history selects a proper subset of the array, respectively "
    "writes through a handle, respectively accumulates time"
)
ASSUMPTIONS = [
    "a bound of 0 in a cut means the cut is open at that end",
    "tuples of names contain single variables, not groups",
    "NumPy back end (CuPy is not available)",
]

BASE = dict(rho=0, vx=1, mx=1, vy=2, my=2, vz=3, mz=3, P=4, E=4)
GROUPS = dict(v=[1, 2, 3], m=[1, 2, 3], active_scalars=[0, 1, 2, 3, 4])
NAMES = ["tracer", "dye", "a", "b", "c", "X", "rho2", "vX", "p", "e", "passive", "0"]
RESERVED = sorted(BASE) + sorted(GROUPS) + ["passive_scalars"]
SHAPE = (9, 8, 7)


# ------------------------------------------------------------------ layouts

LAYOUT = st.builds(
    lambda names, nd: dict(op="new", names=names, ndim=nd),
    st.lists(st.sampled_from(NAMES), unique=True, max_size=6),
    gen.pick(4, 4, 4, 1, 2, 3),
)
BOUND = st.one_of(st.none(), st.integers(-9, 9))
CUT = st.tuples(BOUND, BOUND).map(list)


@st.composite
def lookup(draw):
    kind = draw(gen.pick("none", "name", "passive", "group", "tuple", "passives"))
    op = dict(op="get", slot=draw(st.integers(0, 2)))
    if kind == "name":
        op["var"] = draw(st.sampled_from(sorted(BASE)))
    elif kind == "group":
        op["var"] = draw(st.sampled_from(sorted(GROUPS)))
    elif kind == "passives":
        op["var"] = "passive_scalars"
    elif kind == "passive":
        op["var"] = draw(st.sampled_from(NAMES))
    elif kind == "tuple":
        op["var"] = draw(st.lists(st.sampled_from(sorted(BASE) + NAMES), min_size=1, max_size=5))
    op["named"] = {
        d: draw(CUT) for d in "xyz" if draw(st.integers(0, 3)) == 0
    }
    if draw(st.booleans()):
        op["axis"] = draw(st.integers(1, 3))
        op["cut"] = draw(CUT)
        op["named"].pop("xyz"[op["axis"] - 1], None)
        if draw(st.booleans()):
            op["step"] = draw(gen.pick(1, 2, 3))
    return op


BAD = st.builds(
    lambda slot, what, name: dict(op="bad", slot=slot, what=what, name=name),
    st.integers(0, 2),
    gen.pick("name", "case", "tuple", "type", "int cut", "long cut", "short cut", "list cut", "axis", "dup", "clash"),
    st.sampled_from(RESERVED),
)



@st.composite
def history(draw):
    """layouts are often permutations or parts of one another, and lookups favour their names"""
    names = draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=5))

    def related():
        l = dict(draw(LAYOUT))
        if draw(st.integers(0, 3)):
            l["names"] = draw(st.permutations(names))[: draw(gen.pick(6, 6, 2, 1))]
            l["ndim"] = draw(gen.pick(4, 4, 2))
        return l

    ops = [related() for _ in range(3)]
    for _ in range(draw(st.integers(4, 40))):
        k = draw(st.integers(0, 9))
        if k == 0:
            ops.append(draw(BAD))
        elif k == 1:
            ops.append(dict(related(), slot=draw(st.integers(0, 2))))
        elif k < 5:
            var = draw(st.one_of(st.sampled_from(names), st.lists(st.sampled_from(names + ["rho", "vy"]), min_size=1, max_size=3)))
            ops.append(dict(op="get", slot=draw(st.integers(0, 2)), var=var, named={}))
        else:
            ops.append(draw(lookup()))
    return dict(ops=ops)


HISTORY = history()


class Layout:
    def __init__(self, names, ndim):
        self.names, self.ndim = names, ndim
        self.hs = HydroState(passive_scalars=tuple(names), ndim=ndim)
        self.index = dict(BASE)
        for i, nm in enumerate(names):
            self.index[nm] = 5 + i
        self.groups = dict(GROUPS)
        if names:
            self.groups["passive_scalars"] = list(range(5, 5 + len(names)))
        self.nv = 5 + len(names)
        shape = ((self.nv,) + SHAPE)[:ndim]
        self.arr = np.arange(int(np.prod(shape))).reshape(shape)

    def expected(self, op):
        """selected elements, or None if the request must be rejected"""
        var = op.get("var")
        drop = False
        if var is None:
            rows = list(range(self.nv))
        elif isinstance(var, str):
            if var in self.index:
                rows, drop = [self.index[var]], True
            elif var in self.groups:
                rows = self.groups[var]
            else:
                return None
        else:
            if any(v not in self.index for v in var):
                return None
            rows = [self.index[v] for v in var]
        out = np.stack([self.arr[r] for r in rows]) if rows else self.arr[:0]
        cuts = {("xyz".index(d) + 1): (c, None) for d, c in op["named"].items()}
        if "cut" in op:
            cuts[op["axis"]] = (op["cut"], op.get("step"))
        for ax, ((a, b), step) in cuts.items():
            if ax >= self.ndim:
                return None
            m = out.shape[ax]
            lo = 0 if not a else max(m + a, 0) if a < 0 else min(a, m)
            hi = m if not b else max(m + b, 0) if b < 0 else min(b, m)
            keep = [i for i in range(lo, hi) if (i - lo) % (step or 1) == 0]
            out = np.take(out, keep, axis=ax)
        return out[0] if drop else out


def call(lay, op):
    kw = {d: tuple(c) for d, c in op["named"].items()}
    var = op.get("var")
    if isinstance(var, list):
        var = tuple(var)
    if "cut" in op:
        kw.update(axis=op["axis"], cut=tuple(op["cut"]))
        if "step" in op:
            kw["step"] = op["step"]
    return lay.hs(var, **kw) if var is not None else lay.hs(**kw)


def bad(lay, op):
    w, hs = op["what"], lay.hs
    if w == "name":
        return lambda: hs("nonsense")
    if w == "case":
        return lambda: hs("Rho")
    if w == "tuple":
        return lambda: hs(("rho", "nonsense"))
    if w == "type":
        return lambda: hs(3)
    if w == "int cut":
        return lambda: hs("rho", x=3) if lay.ndim > 1 else hs("rho", x=(1, 2))
    if w == "long cut":
        return lambda: hs("rho", x=(1, 2, 3))
    if w == "short cut":
        return lambda: hs("P", axis=1, cut=(1,))
    if w == "list cut":
        return lambda: hs("P", axis=1, cut=[1, 2])
    if w == "axis":
        return lambda: hs("P", axis=lay.ndim, cut=(1, 2))
    if w == "dup":
        return lambda: HydroState(passive_scalars=("q",) + tuple(lay.names) + ("q",))
    return lambda: HydroState(passive_scalars=tuple(lay.names) + (op["name"],))


@sub("C24", HISTORY, quick=2500, thorough=60000)
def lookups(case):
    slots, nontrivial = [], False
    for i, op in enumerate(case["ops"]):
        if op["op"] == "new":
            lay = Layout(op["names"], op["ndim"])
            ensure(lay.hs.nvars == lay.nv, f"op {i}: nvars {lay.hs.nvars}, not {lay.nv}")
            ensure(
                bool(lay.hs.includes_passives) == bool(op["names"]),
                f"op {i}: includes_passives is {lay.hs.includes_passives}",
            )
            if len(slots) < 3:
                slots.append(lay)
            else:
                slots[op["slot"]] = lay
            continue
        lay = slots[op["slot"]]
        if op["op"] == "bad":
            raises(bad(lay, op), (ValueError, TypeError, KeyError, IndexError), f"op {i}: {op}")
            continue
        want = lay.expected(op)
        if want is None:
            raises(lambda: call(lay, op), (ValueError, TypeError, KeyError, IndexError), f"op {i}: {op} on {lay.names}")
            continue
        got = lay.arr[call(lay, op)]
        ensure(
            got.shape == want.shape and np.array_equal(got, want),
            lambda: f"op {i}: {op} on passives {lay.names}, ndim {lay.ndim} selects {got.shape} elements "
            f"{np.ravel(got)[:6]}, not {want.shape} {np.ravel(want)[:6]}",
        )
        nontrivial |= want.size < lay.arr.size
    return dict(nontrivial=nontrivial)


NAME_LISTS = st.builds(
    lambda names, extra: dict(names=names, extra=extra),
    st.lists(st.sampled_from(NAMES), unique=True, max_size=3),
    st.sampled_from(RESERVED),
)


@sub("C24", NAME_LISTS, quick=120, thorough=2000)
def solver_layout(case):
    """the solver stores its scalars in the given order, by name, and rejects clashing names"""
    names = case["names"]

    def make(nm):
        return EulerSolver(
            w0=gen.FuncIC(fn=lambda x, y, z: np.stack([1 + 0 * x, x, y, z, 2 + 0 * x])),
            w0_passives={k: (lambda x, y, z, j=j: j + 1 + x) for j, k in enumerate(nm)},
            conservative_ic=True,
            nx=4,
            progress_bar=False,
        )

    s = make(names)
    u = s.am("u")
    ensure(u.shape[0] == 5 + len(names), f"{u.shape[0]} variables for {len(names)} scalars")
    x = (np.arange(4) + 0.5) / 4
    for j, k in enumerate(names):
        close(u[s.hydro_state(k)][:, 0, 0], j + 1 + x, what=f"scalar {k}")
        close(u[5 + j][:, 0, 0], j + 1 + x, what=f"scalar {k} at its place")
    raises(lambda: make(names + [case["extra"]]), what=f"scalar named {case['extra']}")
    return dict(nontrivial=bool(names))


# ------------------------------------------------------------------ array store

AN = gen.pick("u", "u", "u", "dudt", "dudt", "x", "a b", "")
STORE = st.lists(
    st.one_of(
        st.builds(lambda m, n, k, v: dict(op="add", m=m, name=n, k=k, v=v), st.integers(0, 1), AN, st.integers(0, 4), st.integers(0, 99)),
        st.builds(lambda m, n, w: dict(op="nonarray", m=m, name=n, what=w), st.integers(0, 1), AN, gen.pick("list", "float", "none", "tuple")),
        st.builds(lambda m, n: dict(op="remove", m=m, name=n), st.integers(0, 1), AN),
        st.builds(lambda m, n: dict(op="read", m=m, name=n), st.integers(0, 1), AN),
        st.builds(lambda m, n, v: dict(op="write", m=m, name=n, v=v), st.integers(0, 1), AN, st.integers(0, 99)),
        st.builds(lambda m, n, v: dict(op="oldwrite", m=m, name=n, v=v), st.integers(0, 1), AN, st.integers(0, 99)),
        st.builds(lambda m, n, v: dict(op="copy", m=m, name=n, v=v), st.integers(0, 1), AN, st.integers(0, 99)),
        st.builds(lambda m: dict(op="dict", m=m), st.integers(0, 1)),
        st.builds(lambda m: dict(op="cupy", m=m), st.integers(0, 1)),
    ),
    min_size=8,
    max_size=60,
).map(lambda ops: dict(ops=ops))

SHAPES = [(3,), (2, 3), (1,), (2, 1, 2), (0,)]


@sub("C24", STORE, quick=2500, thorough=60000)
def store(case):
    ams = [ArrayManager(), ArrayManager()]
    model = [{}, {}]
    handles = [{}, {}]
    copies = []
    wrote = False
    for i, op in enumerate(case["ops"]):
        am, mod, hd = ams[op["m"]], model[op["m"]], handles[op["m"]]
        k, name = op["op"], op.get("name")
        if k == "add":
            arr = np.full(SHAPES[op["k"]], float(op["v"]))
            if name in mod:
                raises(lambda: am.add(name, arr), (KeyError, ValueError), f"op {i}: adding {name!r} twice")
            else:
                am.add(name, arr)
                mod[name] = arr.copy()
                hd[name] = am(name)
        elif k == "nonarray":
            v = dict(list=[1.0], float=1.0, none=None, tuple=(1.0, 2.0))[op["what"]]
            raises(lambda: am.add(name, v), (TypeError, KeyError, ValueError), f"op {i}: adding a {op['what']}")
        elif k == "remove":
            if name in mod:
                am.remove(name)
                del mod[name]
                hd.pop(name)
            else:
                raises(lambda: am.remove(name), (KeyError,), f"op {i}: removing a missing array")
        elif k in ("read", "write", "copy") and name not in mod:
            raises(lambda: am(name), (KeyError,), f"op {i}: handle of a missing array")
            raises(lambda: am.get_numpy(name), (KeyError,), f"op {i}: copy of a missing array")
        elif k == "write":
            am(name)[...] = op["v"]
            mod[name][...] = op["v"]
            wrote = True
        elif k == "oldwrite":
            if name in mod:  # through a handle obtained when the array was added
                hd[name][...] = op["v"]
                mod[name][...] = op["v"]
                wrote = True
        elif k == "copy":
            c = am.get_numpy(name)
            ensure(isinstance(c, np.ndarray) and np.array_equal(c, mod[name]), f"op {i}: copy of {name!r} differs")
            copies.append((c, c.copy()))
            d = am.get_numpy(name)
            d[...] = op["v"] + 0.5
        elif k == "dict":
            d = am.to_dict()
            ensure(list(d["names"]) == list(mod), f"op {i}: names {d['names']}, not {list(mod)}")
            ensure(d["using_cupy"] is False, f"op {i}: using_cupy {d['using_cupy']}")
            for nm in mod:
                ensure(nm in repr(am), f"op {i}: {nm!r} missing from {am!r}")
        elif k == "cupy":
            am.disable_cupy()
        for j in range(2):
            for nm, want in model[j].items():
                ensure(
                    np.array_equal(ams[j](nm), want),
                    lambda: f"op {i} {op}: array {nm!r} holds {ams[j](nm)!r}, not {want!r}",
                )
        for c, want in copies:
            ensure(np.array_equal(c, want), f"op {i} {op}: an exported copy changed")
    return dict(nontrivial=wrote)


# ------------------------------------------------------------------ timer


class Clock:
    """stands in for the functions of the time module"""

    def __init__(self):
        self.now = 1000.0

    @contextlib.contextmanager
    def installed(self):
        names = ["time", "perf_counter", "monotonic", "process_time", "thread_time"]
        old = {n: getattr(time, n) for n in names}
        old.update({n + "_ns": getattr(time, n + "_ns") for n in names})
        for n in names:
            setattr(time, n, lambda: self.now)
            setattr(time, n + "_ns", lambda: int(round(self.now * 1e9)))
        try:
            yield
        finally:
            for n, f in old.items():
                setattr(time, n, f)

    def timer_class(self):
        """the timer module, loaded anew with this clock"""
        spec = importlib.util.spec_from_file_location("vp_timer", os.path.join(REPO, "fvhoe", "timer.py"))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        return mod.Timer


CN = gen.pick("TOTAL", "TOTAL", "TOTAL", "step", "step", "a", "a-very-long-category-name")
TIMER = st.builds(
    lambda cats, single, prec, ops: dict(cats=cats, single=single, prec=prec, ops=ops),
    st.lists(gen.pick("TOTAL", "step", "a", "b"), unique=True, min_size=1, max_size=4),
    st.booleans(),
    gen.pick(2, 0, 1, 4, None),
    st.lists(
        st.one_of(
            st.builds(lambda c: dict(op="start", cat=c), CN),
            st.builds(lambda c: dict(op="start", cat=c), CN),
            st.builds(lambda c: dict(op="stop", cat=c), CN),
            st.builds(lambda c: dict(op="stop", cat=c), CN),
            st.builds(lambda c: dict(op="add", cat=c), CN),
            st.builds(lambda d: dict(op="wait", d=d), gen.pick(0.0, 0.001, 0.125, 1.0, 7.5, 3600.0)),
            st.builds(lambda d: dict(op="wait", d=d), st.floats(0, 100).map(lambda v: round(v, 4))),
            st.just(dict(op="report")),
        ),
        min_size=8,
        max_size=50,
    ),
)


@sub("C24", TIMER, quick=2000, thorough=40000)
def timer(case):
    clock = Clock()
    with clock.installed():
        cats = case["cats"]
        single = case["single"] and len(cats) == 1
        kw = {} if case["prec"] is None else dict(precision=case["prec"])
        prec = 2 if case["prec"] is None else case["prec"]
        Timer = clock.timer_class()
        t = Timer(cats[0] if single else tuple(cats), **kw)
        total = {c: 0.0 for c in cats}
        since = {}
        for i, op in enumerate(case["ops"] + [dict(op="report")]):
            k, c = op["op"], op.get("cat")
            if k == "wait":
                clock.now += op["d"]
            elif k == "add":
                if c in total:
                    raises(lambda: t.add_cat(c), (ValueError, KeyError), f"op {i}: adding category {c!r} twice")
                else:
                    t.add_cat(c if i % 2 else [c])
                    total[c] = 0.0
            elif k == "start":
                if c not in total:
                    raises(lambda: t.start(c), (ValueError, KeyError), f"op {i}: starting unknown {c!r}")
                elif c in since:
                    raises(lambda: t.start(c), (RuntimeError,), f"op {i}: starting {c!r} twice")
                else:
                    t.start(c)
                    since[c] = clock.now
            elif k == "stop":
                if c not in total:
                    raises(lambda: t.stop(c), (ValueError, KeyError), f"op {i}: stopping unknown {c!r}")
                elif c not in since:
                    raises(lambda: t.stop(c), (RuntimeError,), f"op {i}: stopping {c!r} which is not running")
                else:
                    t.stop(c)
                    total[c] += clock.now - since.pop(c)
            elif k == "report":
                lines = [l.split() for l in t.report().splitlines()]
                out = t.to_dict()
                ensure(list(out) == list(total), f"op {i}: categories {list(out)}, not {list(total)}")
                for cat, v in total.items():
                    close(out[cat], v, rtol=0, atol=0.5 * 10.0**-prec + 1e-9 * (1 + v), what=f"op {i}: exported time of {cat!r}")
                    close(
                        out[cat] * 10.0**prec,
                        np.round(out[cat] * 10.0**prec),
                        rtol=1e-9,
                        atol=1e-6,
                        what=f"op {i}: decimals of {cat!r}",
                    )
                    row = [l for l in lines if l and l[0] == cat]
                    ensure(len(row) == 1, f"op {i}: {len(row)} report lines for {cat!r}")
                    close(float(row[0][-1]), v, rtol=0, atol=0.5 * 10.0**-prec + 1e-9 * (1 + v), what=f"op {i}: reported time of {cat!r}")
            ensure(list(t.cum_time) == list(total), f"op {i}: categories {list(t.cum_time)}")
            for cat, v in total.items():
                close(t.cum_time[cat], v, rtol=1e-9, atol=1e-6, scale=1 + v, what=f"op {i} {op}: time of {cat!r}")
    return dict(nontrivial=any(v > 0 for v in total.values()))
