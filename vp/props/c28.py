"""C28: solvers are deterministic and isolated from each other"""

import copy
import json
import os
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import common
import gen
import ref
from core import Reject, Violation, close, ensure, sub
from fvhoe.boundary_conditions import BoundaryCondition
from fvhoe.hydro import HydroState

RULE = (
    "random histories: up to four solvers of up to three random configurations, sharing their input objects, are built "
    "and advanced in random interleaved order (steps of any integrator, runs to a time, extra snapshots, extra "
    "right-hand-side evaluations, exported copies), and each is compared with the same solver run alone, in this or "
    "in a fresh process; non-trivial if at least two solvers advance"
)
ASSUMPTIONS = [
    "results of the same operations may differ by at most 1e-13 of the largest value",
    "an extra evaluation of the right-hand side counts as a stage in the logged trouble of the step, so trouble is "
    "compared only for histories without one",
]

BCS = ["periodic2", "free", "outflow", "reflective", "dirichlet"]


@st.composite
def config(draw):
    case = draw(gen.problem(bc=BCS, amps=(0.02, 0.1, 0.2), nmax=(20, 7, 4), pmax=8))
    common.fix_periodic(case)
    case["tdep"] = draw(st.booleans())
    case["fv"] = draw(st.booleans())
    return case


ACTIVE = st.one_of(
    st.builds(lambda i, n: ["step", i, n], st.sampled_from(gen.INTEG), st.integers(1, 2)),
    st.builds(
        lambda i, f, b, k: ["to", i, f, b, k],
        st.sampled_from(gen.INTEG),
        gen.pick(0.5, 1.5),
        st.lists(gen.pick(0.2, 0.4, 0.6, 0.9), max_size=3),
        gen.pick("array", "list", "tuple"),
    ),
)
PASSIVE = st.sampled_from([["f"], ["snap"], ["copy"], ["again"], ["report"]])


@st.composite
def near_twin(draw, case):
    """the same configuration but for one thing, for whatever is remembered by too short a description"""
    case = copy.deepcopy(case)
    what = draw(gen.pick("gamma", "CFL", "rs", "len", "lo", "seed", "lim", "tdep", "fv", "n"))
    if what == "gamma":
        case["gamma"] = 1.3
    elif what == "CFL":
        case["CFL"] = 0.3
    elif what == "rs":
        case["rs"] = "llf" if case["rs"] == "hllc" else "hllc"
    elif what in ("len", "lo"):
        i = draw(st.sampled_from([i for i, a in enumerate(gen.active(case)) if a]))
        case[what][i] = case[what][i] * 2 + (what == "lo")
    elif what == "seed":
        case["field"]["seed"] += 1
    elif what == "lim":
        case["lim"] = None
    elif what == "n":
        i = draw(st.sampled_from([i for i, a in enumerate(gen.active(case)) if a]))
        case["n"][i] += 1
    else:
        case[what] = not case[what]
    return case


@st.composite
def histories(draw, nconf=3, nsolv=4, passive=True):
    confs = draw(st.lists(config(), min_size=1, max_size=nconf))
    if draw(st.booleans()):
        confs.append(draw(near_twin(confs[0])))
    solvers = draw(
        st.lists(
            st.builds(
                lambda c, ops: dict(conf=c, ops=ops),
                st.integers(0, len(confs) - 1),
                st.lists(st.one_of(ACTIVE, ACTIVE, PASSIVE) if passive else ACTIVE, min_size=1, max_size=4),
            ),
            min_size=2,
            max_size=nsolv,
        )
    )
    return dict(
        confs=confs,
        solvers=solvers,
        order=draw(st.lists(st.integers(0, len(solvers) - 1), max_size=16)),
        lazy=draw(st.booleans()),
        alone_first=draw(st.booleans()),
    )


class Inputs:
    """the objects a user passes to solvers"""

    def __init__(self, case):
        self.case = case
        self.u = gen.make_u(case)
        self.vals = common.dirichlet_values(case, self.u)
        self.bc = common.boundary(case, self.vals)
        self.lim = gen.lim_kwargs(case.get("lim"))
        names = gen.passive_names(case)
        w = gen.make_w(case)
        self.w = w
        if case["fv"]:
            self.ic = gen.ArrayIC(arr=self.u[:5])
            self.passives = {nm: gen.const_fn(self.u[5 + i]) for i, nm in enumerate(names)}
        else:
            F = gen.FieldFn(dict(case, field=dict(case["field"], kind="smooth")))
            dom = gen.domain(case)

            def unit(x, y, z):
                return [(q - a) / (b - a) for q, (a, b) in zip((x, y, z), dom)]

            self.ic = gen.FuncIC(fn=lambda x, y, z: F(*unit(x, y, z))[:5])
            self.passives = {
                nm: (lambda x, y, z, i=i: F(*unit(x, y, z))[5 + i]) for i, nm in enumerate(names)
            }
        self.arrays = [self.u, self.w] + [v for v in self.vals.values() if isinstance(v, np.ndarray)]
        self.keep = [a.copy() for a in self.arrays]
        self.plain = self.describe()
        self.plain_copy = copy.deepcopy(self.plain)

    def describe(self):
        bc = self.bc
        return dict(
            lim=self.lim, bc=[bc.x, bc.y, bc.z], names=list(self.passives),
            values=[[None if v is None else id(v) for v in vv] for vv in (bc.x_value, bc.y_value, bc.z_value)],
        )

    def build(self):
        over = dict(self.lim, bc=self.bc, w0=self.ic, w0_passives=self.passives or None)
        if not self.case["fv"]:
            over.update(conservative_ic=False, fv_ic=False)
        return gen.build(self.case, self.u, **over)

    def unchanged(self):
        for a, b in zip(self.arrays, self.keep):
            ensure(np.array_equal(a, b), "an input array was modified")
        ensure(self.describe() == self.plain_copy, f"inputs were modified: {self.describe()} was {self.plain_copy}")
        ensure(self.lim == self.plain_copy["lim"], f"limiting options were modified: {self.lim}")


def act(s, op, state):
    k = op[0]
    if k == "step":
        getattr(s, op[1])(n=op[2])
    elif k == "to":
        dt, _ = state["probe"].f(s.t, s.am("u").copy())  # of another solver: only sets the scale
        T = s.t + dt * op[2]
        beats = [s.t + dt * op[2] * q for q in op[3]]
        given = dict(array=np.array, list=list, tuple=tuple)[op[4]](beats)
        getattr(s, op[1])(T, downbeats=given)
        ensure(list(given) == beats, f"the given output times {beats} were changed to {list(given)}")
    else:
        before, t = s.am("u").copy(), s.t
        if k == "f":
            for x in (s.am("u"), s.am.get_numpy("u")):
                keep = x.copy()
                dt, d = s.f(s.t, x)
                d = np.array(d)
                ensure(np.array_equal(x, keep), "evaluating the right-hand side modified its argument")
                dt2, d2 = s.f(s.t, x)
                ensure(dt2 == dt, f"evaluated again, the step is {dt2}, not {dt}")
                close(d2, d, rtol=1e-13, what="right-hand side evaluated again")
        elif k == "snap":
            state["extra"].append(len(s.snapshots))
            s.snapshot()
        elif k == "again":
            # a right-hand side elsewhere must not leak into this one
            v = s.am.get_numpy("u") * 1.01
            dt, d = s.f(s.t, s.am("u"))
            d = np.array(d)
            s.f(s.t + 1.0, v)
            dt2, d2 = s.f(s.t, s.am("u"))
            ensure(dt2 == dt, f"after another evaluation, the step is {dt2}, not {dt}")
            close(d2, d, rtol=1e-13, what="right-hand side after another evaluation")
        elif k == "copy":
            c = s.am.get_numpy("u")
            c[...] = -1.0
            for snap in s.snapshots[-1:]:
                np.array(snap["w"])[...] = 0.0
        elif k == "report":
            s.timer.report()
            s.timer.to_dict()
            s.to_dict() if hasattr(s, "to_dict") else None
        ensure(np.array_equal(s.am("u"), before) and s.t == t, f"operation {k} changed the state")


def final(s, extra):
    snaps = [x for i, x in enumerate(s.snapshots) if i not in extra]
    return dict(
        u=s.am("u").copy(),
        t=s.t,
        steps=s.step_count,
        stamps=np.array(s.timestamps, dtype=float),
        w=[np.array(x["w"]) for x in snaps],
        st=[x["t"] for x in snaps],
        trouble=[np.array(x["trouble"]) for x in snaps if "trouble" in x],
    )


def alone(inp, ops):
    """the history of one solver by itself, without the operations that change nothing"""
    s, probe = inp.build(), inp.build()
    state = dict(probe=probe, extra=[])
    for op in ops:
        if op[0] in ("step", "to"):
            act(s, op, state)
    return final(s, [])


def same(a, b, what, trouble):
    ensure(a["t"] == b["t"], f"{what}: time {a['t']}, not {b['t']}")
    ensure(a["steps"] == b["steps"], f"{what}: {a['steps']} steps, not {b['steps']}")
    close(a["stamps"], b["stamps"], rtol=0, what=f"{what}: time stamps")
    close(a["u"], b["u"], rtol=1e-13, scale=common.scale(b["u"]), what=f"{what}: state")
    ensure(a["st"] == b["st"], f"{what}: snapshots at {a['st']}, not {b['st']}")
    for i, (p, q) in enumerate(zip(a["w"], b["w"])):
        close(p, q, rtol=1e-12, what=f"{what}: snapshot {i}")
    if trouble:
        for i, (p, q) in enumerate(zip(a["trouble"], b["trouble"])):
            close(p, q, rtol=0, atol=1e-13, what=f"{what}: trouble {i}")


def together(case, inputs):
    """run the interleaved history; list of final states"""
    specs = case["solvers"]
    ss = [None] * len(specs)
    states = [None] * len(specs)
    todo = [list(q["ops"]) for q in specs]

    def make(j):
        if ss[j] is None:
            ss[j] = inputs[specs[j]["conf"]].build()
            states[j] = dict(probe=inputs[specs[j]["conf"]].build(), extra=[])

    if not case["lazy"]:
        for j in range(len(specs)):
            make(j)
    order = list(case["order"]) + [j for j, q in enumerate(specs) for _ in q["ops"]]
    for j in order:
        if todo[j]:
            make(j)
            act(ss[j], todo[j].pop(0), states[j])
            bystanders = [
                (k, ss[k].am("u")) for k in range(len(ss)) if k != j and ss[k] is not None
            ]
            for k, u in bystanders:
                ensure(
                    not np.shares_memory(u, ss[j].am("u")), f"solvers {j} and {k} share their state"
                )
    return [final(s, st_["extra"]) for s, st_ in zip(ss, states)]


def check_usable(results):
    for r in results:
        if not common.usable(r["u"]):
            raise Reject


@sub("C28", histories(), quick=160, thorough=4000)
def interleaved(case):
    inputs = [Inputs(c) for c in case["confs"]]
    fresh = [Inputs(c) for c in case["confs"]]
    specs = case["solvers"]
    if case["alone_first"]:
        ref = [alone(fresh[q["conf"]], q["ops"]) for q in specs]
        check_usable(ref)
        got = together(case, inputs)
    else:
        got = together(case, inputs)
        check_usable(got)
        ref = [alone(fresh[q["conf"]], q["ops"]) for q in specs]
        check_usable(ref)
    for j, (a, b) in enumerate(zip(got, ref)):
        evals = any(op[0] in ("f", "again") for op in specs[j]["ops"])
        same(a, b, f"solver {j}", trouble=not evals)
    for inp in inputs + fresh:
        inp.unchanged()
    busy = sum(any(o[0] in ("step", "to") for o in q["ops"]) for q in specs)
    return dict(nontrivial=busy >= 2, label=f"{len(specs)} solvers")


# ------------------------------------------------------------------ boundary objects


@st.composite
def boundaries(draw):
    def one():
        act = [draw(st.booleans()) for _ in range(3)]
        if not any(act):
            act[draw(st.integers(0, 2))] = True
        n = [draw(st.integers(4, 6)) if a else 1 for a in act]
        gw = [draw(st.integers(1, 2)) if a else 0 for a in act]
        kinds = {}
        for d, a in zip("xyz", act):
            k = ["function", "values", "free", "reflective", "outflow", "periodic"]
            two = [draw(st.sampled_from(k)) for _ in range(2)] if a else ["periodic"] * 2
            kinds[d] = ["periodic"] * 2 if "periodic" in two else two
        return dict(
            n=n, gw=gw, lo=[draw(gen.pick(0.0, -2.0, 5.0)) for _ in range(3)],
            len=[draw(gen.pick(1.0, 4.0)) for _ in range(3)], kinds=kinds, seed=draw(gen.SEED),
            store=draw(gen.pick("none", "none", "own")),
        )

    objs = [one() for _ in range(draw(st.integers(2, 4)))]
    if draw(st.booleans()):
        # another mesh whose ghost cells begin at the same point
        o = objs[-1]
        i = draw(st.sampled_from([i for i in range(3) if o["n"][i] > 1]))
        o["n"][i] = 4
        h = o["len"][i] / 4
        twin = copy.deepcopy(o)
        twin["seed"] += 1
        twin["len"][i] *= 2
        twin["lo"][i] += draw(gen.pick((o["gw"][i] - 0.5) * h, -4.5 * h, 0.0))
        side = draw(gen.pick(0, 1))
        for q in (o, twin):
            k = q["kinds"]["xyz"[i]]
            if "periodic" in k:
                k[:] = ["free", "free"]
            k[side] = "function"
        objs.append(twin)
    return dict(
        objs=objs,
        order=draw(st.lists(st.tuples(st.integers(0, len(objs) - 1), gen.pick(0.0, 0.5, 1.0)).map(list), min_size=2, max_size=8)),
        lazy=draw(st.booleans()),
    )


class BCObject:
    def __init__(self, o):
        from fvhoe.array_management import ArrayManager
        from fvhoe.fv import fv_uniform_meshgen

        self.o = o
        rng = np.random.default_rng(o["seed"])
        dom = {d: (a, a + b) for d, a, b in zip("xyz", o["lo"], o["len"])}
        _, slabs = fv_uniform_meshgen(
            tuple(o["n"]), **dom, slab_thickness=tuple(2 * g for g in o["gw"])
        )
        kw = {}
        self.vals = {}
        for d in "xyz":
            types, vals = [], []
            for k in o["kinds"][d]:
                types.append("dirichlet" if k in ("function", "values") else k)
                if k == "values":
                    vals.append(rng.uniform(1, 2, size=5))
                elif k == "function":
                    c = rng.uniform(1, 2, size=(5, 4))
                    vals.append(
                        lambda x, y, z, t, c=c: np.array([q[0] * x + q[1] * y + q[2] * z + q[3] * t for q in c])
                    )
                else:
                    vals.append(None)
            kw[d] = tuple(types)
            if any(v is not None for v in vals):
                kw[d + "_value"] = tuple(vals)
            self.vals.update({d + pos: v for pos, v in zip("lr", vals) if v is not None})
        if o["store"] == "own":
            kw["array_manager"] = ArrayManager()
        self.bc = BoundaryCondition(slab_coords=slabs, **kw)
        self.u = rng.normal(size=(5,) + tuple(o["n"]))

    def apply(self, t):
        keep = self.u.copy()
        out = np.array(self.bc.apply(self.u, gw=tuple(self.o["gw"]), t=t))
        ensure(np.array_equal(self.u, keep), "filling ghost cells modified the state")
        types = {d: ["dirichlet" if k in ("function", "values") else k for k in v] for d, v in self.o["kinds"].items()}
        want = ref.pad(dict(self.o, bc=types), self.u, self.o["gw"], t, self.vals)
        close(out, want, rtol=1e-12, scale=np.abs(want).max() + 1, what="ghost cells")
        return out


@sub("C28", boundaries(), quick=400, thorough=8000)
def boundary_objects(case):
    """boundary objects built and applied in turns act as each does alone"""
    want = {}
    for j, t in case["order"]:
        want[j, t] = BCObject(case["objs"][j]).apply(t)
    objs = [None if case["lazy"] else BCObject(o) for o in case["objs"]]
    for j, t in case["order"]:
        if objs[j] is None:
            objs[j] = BCObject(case["objs"][j])
        close(objs[j].apply(t), want[j, t], rtol=1e-14, what=f"ghost cells of boundary object {j}")
    return dict(nontrivial=len({j for j, _ in case["order"]}) > 1)


# ------------------------------------------------------------------ fresh process

# a process which has imported everything and run nothing; every request is answered by a fork of it
SERVER = """
import sys, os, json, pickle, traceback
sys.path.insert(0, {verif!r} + "/vp")
import core
core.bootstrap()
import importlib
import numpy as np
m = importlib.import_module("props.c28")
print("ready", flush=True)
for line in sys.stdin:
    path, j, out = json.loads(line)
    pid = os.fork()
    if pid == 0:
        try:
            os.dup2(2, 1)
            case = json.load(open(path))
            spec = case["solvers"][j]
            with core.poisoned_empty(), np.errstate(all="ignore"):
                r = m.alone(m.Inputs(case["confs"][spec["conf"]]), spec["ops"])
            pickle.dump(("ok", r), open(out, "wb"))
        except BaseException:
            pickle.dump(("error", traceback.format_exc()[-400:]), open(out, "wb"))
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    print("done", flush=True)
"""


class Fresh:
    servers = {}

    @classmethod
    def ask(cls, path, j, out):
        import pickle

        from core import VERIF

        p = cls.servers.get(os.getpid())
        try:
            if p is None or p.poll() is not None:
                p = subprocess.Popen(
                    [sys.executable, "-B", "-c", SERVER.format(verif=VERIF)],
                    stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                )
                cls.servers[os.getpid()] = p
                if p.stdout.readline().strip() != "ready":
                    raise RuntimeError("the reference process does not start")
            p.stdin.write(json.dumps([path, j, out]) + "\n")
            p.stdin.flush()
            if p.stdout.readline().strip() != "done":
                raise RuntimeError("the reference process ended")
        except BaseException:
            if p is not None:
                p.kill()
            cls.servers.pop(os.getpid(), None)
            raise
        with open(out, "rb") as f:
            return pickle.load(f)


@sub("C28", histories(nconf=2, nsolv=3, passive=False), quick=90, thorough=2500)
def fresh_process(case):
    inputs = [Inputs(c) for c in case["confs"]]
    got = together(case, inputs)
    check_usable(got)
    with tempfile.TemporaryDirectory(dir=os.environ.get("VP_TMP")) as d:
        path = os.path.join(d, "case.json")
        with open(path, "w") as f:
            json.dump(case, f)
        for j in range(len(got)):
            how, r = Fresh.ask(path, j, os.path.join(d, f"{j}.pkl"))
            if how != "ok":
                raise Violation(f"solver {j} fails in a fresh process: {r}")
            same(got[j], r, f"solver {j} in a fresh process", trouble=True)
    return dict(nontrivial=len(got) >= 2)


# ------------------------------------------------------------------ shared boundary objects


SHARED = st.builds(
    lambda a, b, seed: dict(a=a, b=b, seed=seed), config(), config(), gen.SEED
)


@sub("C28", SHARED, quick=120, thorough=3000)
def shared_boundary(case):
    """one boundary object serves solvers of different meshes and layouts"""
    a, b = case["a"], case["b"]
    kind = ["periodic", "free", "free"][case["seed"] % 3]
    bcs = {d: [kind, kind] for d in "xyz"}
    a, b = dict(a, bc=bcs), dict(b, bc=bcs)
    shared = BoundaryCondition(x=(kind,) * 2, y=(kind,) * 2, z=(kind,) * 2)

    def go(c, bc):
        s = gen.build(c, gen.make_u(c), bc=bc)
        return s

    sa, sb = go(a, shared), go(b, shared)
    sb.euler(n=1)
    sa.euler(n=2)
    sb.ssprk3(n=1)
    ra = go(a, BoundaryCondition(x=(kind,) * 2, y=(kind,) * 2, z=(kind,) * 2))
    ra.euler(n=2)
    rb = go(b, BoundaryCondition(x=(kind,) * 2, y=(kind,) * 2, z=(kind,) * 2))
    rb.euler(n=1)
    rb.ssprk3(n=1)
    for s, r, nm in ((sa, ra, "first"), (sb, rb, "second")):
        if not common.usable(r.am("u")):
            raise Reject
        same(final(s, []), final(r, []), f"{nm} solver sharing a boundary object", trouble=True)
    ensure((shared.x, shared.y, shared.z) == ((kind, kind),) * 3, "the boundary object was modified")
    return {}
