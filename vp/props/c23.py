"""C23: plots and samples show the requested data at the right place"""

import copy

import numpy as np
from hypothesis import strategies as st

import gen
from core import Reject, close, ensure, raises, sub
from fvhoe import visualization as vis

RULE = (
    "lists of 1-4 random snapshots on random meshes (any axes, offsets, 0-2 scalars, with or without trouble), given as list or "
    "through a solver; random slice requests; the plotted data is read back from the matplotlib artists and "
    "compared with a direct selection; non-trivial if the list holds at least two different snapshots or slices"
)
ASSUMPTIONS = ["requested times, coordinates and radii are not equidistant to two candidates"]

VARS = ["rho", "vx", "vy", "vz", "P", "v"]
ROW = dict(rho=0, vx=1, vy=2, vz=3, P=4)


def mpl():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    return plt


@st.composite
def lists(draw, free=1, trouble="any"):
    axes = draw(st.permutations("xyz"))[:free]
    n = [draw(st.integers(2, 6)) if d in axes else draw(gen.pick(1, 1, 2, 4)) for d in "xyz"]
    if draw(st.integers(0, 19)) == 0:
        n["xyz".index(axes[0])] = draw(gen.pick(33, 70))
    k = draw(st.integers(1, 4)) if draw(st.integers(0, 19)) else draw(st.integers(9, 40))
    unit = draw(gen.pick(1.0, 1.0, 1.0, 2.0**-14, 2.0**12))
    return dict(
        unit=unit,
        mag=draw(gen.pick(1.0, 1.0, 1.0, 1e-6, 1e5)),
        axes="".join(sorted(axes)),
        n=n,
        lo=[draw(gen.pick(0.0, -0.5, 1.25)) for _ in range(3)],
        len=[draw(gen.pick(1.0, 2.0, 0.4)) for _ in range(3)],
        times=draw(st.lists(st.integers(0, 50), min_size=k, max_size=k)),
        npass=draw(st.integers(0, 2)),
        seed=draw(gen.SEED),
        trouble=draw(st.booleans()) if trouble == "any" else trouble,
        solver=draw(st.booleans()),
        param=draw(st.sampled_from(VARS)),
        t=draw(st.one_of(st.none(), st.floats(-5, 55).map(lambda q: q * unit))),
        at=[draw(st.floats(-0.3, 1.3)) for _ in range(3)],
        tol=draw(gen.pick(0, 0, 0.3)),
        mode=draw(gen.pick("all", "NAD", "PAD", True)),
        positive=draw(st.booleans()),
        log=draw(gen.pick(None, (None, None), (0.05, 4.0))),
        pick_scalar=draw(st.booleans()),
        linear=draw(st.booleans()),
        direct=draw(st.booleans()),
    )


def snapshots(case):
    rng = np.random.default_rng(case["seed"])
    n = tuple(case["n"])
    nv = 5 + case["npass"]
    axes = [lo + (np.arange(m) + 0.5) * l / m for lo, l, m in zip(case["lo"], case["len"], n)]
    out = []
    for t in case["times"]:
        w = rng.normal(size=(nv,) + n)
        if case["positive"]:
            w = np.exp(w)
        w = w * case["mag"]
        s = dict(x=axes[0].copy(), y=axes[1].copy(), z=axes[2].copy(), t=float(t) * case["unit"], w=w)
        if case["trouble"]:
            nad = rng.uniform(size=n) * (rng.uniform(size=n) < 0.4)
            pad = rng.uniform(size=n) * (rng.uniform(size=n) < 0.2)
            frac = rng.integers(1, 5, size=n) / 4
            s["NAD violation magnitude"] = nad
            s["PAD violation magnitude"] = pad
            s["trouble"] = np.where((nad > 0) | (pad > 0), frac, 0.0)
        out.append(s)
    return out


def source(case, snaps):
    """a list, or a solver holding the list"""
    if not case["solver"]:
        return snaps
    c = dict(
        n=[4, 1, 1], p=[0, 0, 0], lo=[0.0] * 3, len=[1.0] * 3, gamma=1.4, CFL=0.5, rs="llf",
        npass=case["npass"], pnames=["dye", "Z"][: case["npass"]],
        bc={d: ["periodic"] * 2 for d in "xyz"}, lim=None,
        field=dict(kind="rough", seed=1, amp=0.1, vamp=0.1),
    )
    s = gen.build(c)
    s.snapshots = snaps
    return s


def nearest(values, v):
    """index of the unique nearest value, or None if it is not unique"""
    d = np.abs(np.asarray(values) - v)
    i = int(np.argmin(d))
    rest = np.delete(d, i)
    if len(rest) and np.min(rest) - d[i] <= 1e-9 * np.max(np.abs(values)):
        return None
    return i


def chosen(case, snaps, fixed):
    """index of the snapshot, indices of the fixed coordinates, and the request"""
    if case["t"] is None:
        k = len(snaps) - 1
    else:
        k = nearest([s["t"] for s in snaps], case["t"])
        if k is None:
            # among duplicates of one time any may be meant; otherwise a tie
            case = dict(case, t=None)
            k = len(snaps) - 1
    req, idx = dict(t=case["t"]), {}
    for d in fixed:
        i = "xyz".index(d)
        v = case["lo"][i] + case["at"][i] * case["len"][i]
        j = nearest(snaps[k][d], v)
        if j is None:
            j = 0
            v = float(snaps[k][d][0])
        req[d], idx[d] = v, j
    return k, idx, req


def param_of(case):
    if case["solver"] and case["npass"] and case["pick_scalar"]:
        return ["dye", "Z"][case["npass"] - 1]
    return case["param"]


def field_of(case, snap, param):
    w = snap["w"]
    if param == "v":
        return np.sqrt(w[1] ** 2 + w[2] ** 2 + w[3] ** 2)
    if param in ("dye", "Z"):
        return w[5 + ["dye", "Z"].index(param)]
    return w[ROW[param]]


def cut(a, idx):
    return a[tuple(idx.get(d, slice(None)) for d in "xyz")]


def unchanged(snaps, keep):
    ensure(len(snaps) == len(keep), "the list changed")
    for a, b in zip(snaps, keep):
        ensure(set(a) == set(b), "keys changed")
        for key in b:
            ensure(np.array_equal(np.asarray(a[key]), np.asarray(b[key])), f"plotting modified '{key}'")


def marked(case, snap):
    nad, pad = snap["NAD violation magnitude"], snap["PAD violation magnitude"]
    a, b = nad > case["tol"], pad > 0
    return {"all": a | b, True: a | b, "NAD": a, "PAD": b}[case["mode"]]


@sub("C23", lists(), quick=1200, thorough=20000)
def slice_1d(case):
    plt = mpl()
    snaps = snapshots(case)
    keep = copy.deepcopy(snaps)
    src = source(case, snaps)
    axis = case["axes"]
    k, idx, req = chosen(case, snaps, [d for d in "xyz" if d != axis])
    fig, ax = plt.subplots()
    try:
        call = src.plot_1d_slice if case["solver"] and case["direct"] else lambda *a, **q: vis.plot_1d_slice(src, *a, **q)
        param = param_of(case)
        line = call(ax, param=param, color="k", **req)[0]
        want = cut(field_of(case, keep[k], param), idx)
        ensure(np.array_equal(line.get_xdata(), keep[k][axis]), f"abscissa is not {axis}")
        close(line.get_ydata(), want, rtol=1e-14, what=f"{param} along {axis}")
        ensure(line.get_color() == "k", "plot options are passed on")
        if case["trouble"]:
            line = call(ax, param="trouble", trouble_mode=case["mode"], tol=case["tol"], **req)[0]
            ensure(
                np.array_equal(np.asarray(line.get_ydata()) > 0, cut(marked(case, keep[k]), idx)),
                f"trouble ({case['mode']}) along {axis}",
            )
        n, where = vis.get_indices_from_coordinates(snaps, **req)
        ensure(range(len(snaps))[n] == k, f"snapshot {n}, nearest is {k}")
        for d, w in zip("xyz", where):
            ensure(w == idx.get(d, slice(None)), f"index {w} along {d}")
        ensure(str(snaps[k]["t"]) in vis.xyzt_summary(snaps, n, *where), "summary")
        unchanged(snaps, keep)
        full = {d: 0.0 for d in "xyz"}
        raises(lambda: call(ax, param="rho", **full), (BaseException,), "no free coordinate")
        if not case["solver"]:
            raises(lambda: call(ax, param="no such variable", **req), (Exception,), "unknown variable")
    finally:
        plt.close(fig)
    return dict(nontrivial=len(snaps) > 1 or max(case["n"]) > 2, label=("solver" if case["solver"] else "list") + " 1d")


def shown(im):
    """the image as values over (horizontal, vertical), nan where masked"""
    a = im.get_array()
    a = np.ma.filled(np.ma.asarray(a).astype(float), np.nan)
    if a.ndim == 3 and a.shape[2] == 1:
        a = a[:, :, 0]
    if im.origin == "upper":
        a = a[::-1]
    return a.T


@sub("C23", lists(free=2), quick=1200, thorough=20000)
def slice_2d(case):
    plt = mpl()
    from matplotlib.colors import LogNorm

    snaps = snapshots(case)
    keep = copy.deepcopy(snaps)
    src = source(case, snaps)
    h, v = case["axes"]
    (f,) = set("xyz") - {h, v}
    k, idx, req = chosen(case, snaps, [f])
    fig, ax = plt.subplots()
    try:
        call = src.plot_2d_slice if case["solver"] and case["direct"] else lambda *a, **q: vis.plot_2d_slice(src, *a, **q)
        param = param_of(case)
        names = [param]
        if case["trouble"]:
            names += ["trouble", "NAD", "PAD"]
        for nm in names:
            im = call(ax, param=nm, **req)
            if nm == param:
                want = field_of(case, keep[k], nm)
            else:
                want = keep[k][{"trouble": "trouble", "NAD": "NAD violation magnitude", "PAD": "PAD violation magnitude"}[nm]]
            want = cut(want, idx)
            close(shown(im), want, rtol=1e-14, what=f"{nm} over ({h}, {v})")
            lim = [keep[k][h][0], keep[k][h][-1], keep[k][v][0], keep[k][v][-1]]
            close(np.array(im.get_extent()), np.array(lim), rtol=1e-14, what="extent")
        if case["trouble"]:
            want = cut(field_of(case, keep[k], param), idx)
            bad = cut(marked(case, keep[k]), idx)
            im = call(ax, param=param, overlay_trouble=case["mode"], tol=case["tol"], trouble_color="lime", cmap="viridis", **req)
            got = shown(im)
            ensure(np.array_equal(np.isnan(got), bad), f"overlay ({case['mode']}, {case['tol']}) marks other cells")
            close(got[~bad], want[~bad], rtol=1e-14, what="cells that are not marked")
            from matplotlib.colors import to_rgba

            ensure(np.allclose(im.get_cmap().get_bad(), to_rgba("lime")), "marked cells have another colour")
            for off in (None, False):
                im = call(ax, param=param, overlay_trouble=off, **req)
                ensure(not np.isnan(shown(im)).any(), "overlay although none was requested")
        if case["log"] is not None and case["positive"]:
            im = call(ax, param="rho", log=True, log_vmin=case["log"][0], log_vmax=case["log"][1], **req)
            ensure(isinstance(im.norm, LogNorm), "logarithmic colours")
            if case["log"][0] is not None:
                ensure((im.norm.vmin, im.norm.vmax) == tuple(case["log"]), "colour limits")
        unchanged(snaps, keep)
        raises(lambda: call(ax, param="rho", **{d: 0.0 for d in "xyz"}), (BaseException,), "no free coordinate")
    finally:
        plt.close(fig)
    return dict(nontrivial=len(snaps) > 1 or case["n"]["xyz".index(f)] > 1, label=("solver" if case["solver"] else "list") + f" {h}{v}")


@sub("C23", lists(free=2, trouble=False), quick=250, thorough=4000)
def contours(case):
    """contour lines of a field linear in the coordinates lie where the field has their value"""
    plt = mpl()
    rng = np.random.default_rng(case["seed"] + 5)
    snaps = snapshots(case)
    co = rng.uniform(0.5, 2, size=3) * rng.choice([-1, 1], size=3)
    for s in snaps:
        X = np.meshgrid(s["x"], s["y"], s["z"], indexing="ij")
        s["w"][0] = sum(c * q for c, q in zip(co, X)) + s["t"]
    keep = copy.deepcopy(snaps)
    src = source(case, snaps)
    h, v = case["axes"]
    (f,) = set("xyz") - {h, v}
    k, idx, req = chosen(case, snaps, [f])
    fig, ax = plt.subplots()
    try:
        data = cut(keep[k]["w"][0], idx)
        levels = 7 if case["positive"] else list(np.linspace(data.min(), data.max(), 6)[1:-1])
        out = vis.plot_2d_slice(src, ax, param="rho", contour=True, levels=levels, **req)
        want = np.linspace(data.min(), data.max(), 7) if case["positive"] else np.array(levels)
        close(np.asarray(out.levels), want, rtol=1e-13, what="levels")
        seen = 0
        const = co["xyz".index(f)] * keep[k][f][idx[f]] + keep[k]["t"]
        for lev, segs in zip(out.levels, out.allsegs):
            for sg in segs:
                if len(sg) == 0:
                    continue
                val = co["xyz".index(h)] * sg[:, 0] + co["xyz".index(v)] * sg[:, 1] + const
                close(val, np.full(len(sg), lev), rtol=1e-8, scale=np.abs(data).max() + 1, what="contour line")
                seen += 1
        ensure(seen >= 3, f"only {seen} contour lines")
        unchanged(snaps, keep)
    finally:
        plt.close(fig)
    return dict(nontrivial=True, label="contour")


@st.composite
def shells(draw):
    case = draw(lists(free=draw(st.integers(1, 3)), trouble=False))
    case["center"] = [draw(st.floats(-0.2, 1.2)) for _ in range(3)]
    case["k"] = draw(st.integers(1, 5)) if draw(st.integers(0, 9)) else draw(st.integers(12, 40))
    case["radii"] = draw(gen.pick("list", "array", "integer", "uneven"))
    return case


@sub("C23", shells(), quick=1500, thorough=20000)
def radial_average(case):
    snaps = snapshots(case)
    keep = copy.deepcopy(snaps)
    src = source(case, snaps)
    k, _, req = chosen(case, snaps, [])
    c = [lo + a * l for lo, a, l in zip(case["lo"], case["center"], case["len"])]
    rng = np.random.default_rng(case["seed"] + 9)
    if case["radii"] == "integer":
        radii = np.arange(case["k"] + 1)
    else:
        radii = np.linspace(0.0, 2.0, case["k"] + 1)
        if case["radii"] == "uneven":
            radii = np.sort(rng.uniform(0, 2.5, size=case["k"] + 1))
        if case["radii"] == "list":
            radii = radii.tolist()
    r_keep = copy.deepcopy(radii)
    param = param_of(case)
    R, V = [], []
    f = field_of(case, keep[k], param)
    for i in np.ndindex(*case["n"]):
        R.append(sum((keep[k][d][j] - q) ** 2 for d, j, q in zip("xyz", i, c)) ** 0.5)
        V.append(f[i])
    R, V = np.array(R), np.array(V)
    # a cell on a bin edge: avoided by shifting all edges
    if np.min(np.abs(R[:, None] - np.asarray(radii, dtype=float)[None])) < 1e-9:
        radii = np.asarray(radii, dtype=float) + 1.234e-3
        r_keep = radii.copy()
    got, r = vis.sample_circular_average(src, param=param, t=req["t"], center=tuple(c), radii=radii)
    ensure(len(got) == len(r) == case["k"], "one value per shell")
    filled = 0
    for j in range(case["k"]):
        m = (R > radii[j]) & (R < radii[j + 1])
        if not m.any():
            ensure(np.isnan(got[j]) and np.isnan(r[j]), "an empty shell has no average")
            continue
        filled += 1
        close(float(got[j]), V[m].mean(), rtol=1e-12, scale=np.abs(V).max(), what=f"average of shell {j}")
        close(float(r[j]), R[m].mean(), rtol=1e-12, scale=R.max(), what=f"radius of shell {j}")
    unchanged(snaps, keep)
    ensure(np.array_equal(radii, r_keep), "radii were modified")
    return dict(nontrivial=filled > 1, label=case["radii"])


PARTITION = st.builds(
    lambda n, seed, k: dict(n=n, seed=seed, k=k),
    st.tuples(st.integers(1, 7), st.integers(1, 5), st.integers(1, 4)).map(list),
    gen.SEED,
    st.integers(2, 6),
)


@sub("C23", PARTITION, quick=300, thorough=4000)
def shells_partition(case):
    """adjacent shells share no cell: one on the edge between two shells belongs to exactly one of them"""
    rng = np.random.default_rng(case["seed"])
    xyz = [rng.integers(-3, 4) + np.arange(float(m)) for m in case["n"]]
    c = [float(rng.choice(q)) for q in xyz]
    R = np.sqrt(sum(np.square(g - q) for g, q in zip(np.meshgrid(*xyz, indexing="ij"), c)))
    levels = np.unique(R)
    if len(levels) > case["k"] + 1 and rng.uniform() < 0.5:
        radii = np.sort(rng.choice(levels, size=case["k"] + 1, replace=False))
    else:
        radii = np.arange(case["k"] + 1.0)
    edge = (R > radii[0]) & (R < radii[-1])
    if not edge.any():
        raise Reject
    on = edge & np.isin(R, radii)
    pool = np.argwhere(on if on.any() else edge)
    hit = tuple(pool[rng.integers(len(pool))])
    w = np.zeros((5,) + R.shape)
    w[(0,) + hit] = 1.0
    snap = dict(x=xyz[0], y=xyz[1], z=xyz[2], t=0.0, w=w)
    got, _ = vis.sample_circular_average([snap], param="rho", center=tuple(c), radii=radii)
    got = np.nan_to_num(np.asarray(got, dtype=float))
    ensure(
        np.sum(got > 0) == 1,
        lambda: f"a cell at radius {R[hit]} is counted in {int(np.sum(got > 0))} of the shells between {radii.tolist()}",
    )
    j = int(np.argmax(got > 0))
    ensure(radii[j] <= R[hit] <= radii[j + 1], f"a cell at radius {R[hit]} is counted in shell {j}")
    return dict(nontrivial=bool(on.any()), label="edge" if on.any() else "inside")


@sub("C23", lists(free=2, trouble=True), quick=300, thorough=4000)
def overlay_map(case):
    """the overlay map itself, and its refusal of inconsistent records"""
    snap = snapshots(case)[0]
    keep = copy.deepcopy(snap)
    got = vis.plotting_trouble(snap, mode=case["mode"], tol=case["tol"])
    ensure(np.array_equal(got > 0, marked(case, keep)), "marked cells")
    unchanged([snap], [keep])
    bad = copy.deepcopy(keep)
    i = tuple(int(np.random.default_rng(case["seed"]).integers(0, m)) for m in case["n"])
    bad["trouble"][i] = 0.0 if bad["trouble"][i] > 0 else 1.0
    raises(lambda: vis.plotting_trouble(bad, mode=case["mode"], tol=case["tol"]), (ValueError,), "inconsistent record")
    raises(lambda: vis.plotting_trouble(snap, mode="nonsense", tol=0), (ValueError,), "unknown mode")
    raises(lambda: vis.get_snapshot_list(3), (ValueError,), "neither list nor solver")
    return dict(nontrivial=bool(marked(case, keep).any()), label=str(case["mode"]))


@st.composite
def figures(draw):
    nd = draw(st.integers(1, 3))
    case = draw(gen.problem(dims=draw(gen.pick(*[["x", "y", "z"], ["xy", "xz", "yz"], ["xyz"]][nd - 1])), pmax=2, nmax=(9, 5, 3), amps=(0.1,), lim=False))
    case["steps"], case["integ"] = draw(st.integers(1, 2)), "euler"
    case["first"] = draw(st.booleans())
    return case


@sub("C23", figures(), quick=60, thorough=600)
def field_figure(case):
    """the overview figure of a solver shows each named field once"""
    plt = mpl()
    s = gen.build(case)
    gen.advance(s, case)
    act = [d for d, on in zip("xyz", gen.active(case)) if on]
    kw = {d: case["lo"][i] for i, d in enumerate("xyz") if d not in act}
    kw["t"] = 0.0 if case["first"] else s.t
    e = s.snapshots[0 if case["first"] else -1]
    try:
        if len(act) == 3:
            raises(lambda: s.plot_fields(**kw), (NotImplementedError,), "three dimensions")
            return dict(nontrivial=False, label="3d")
        fig, axs = s.plot_fields(**kw)
        w = e["w"]
        idx = tuple(slice(None) if d in act else 0 for d in "xyz")
        if len(act) == 1:
            rows = [0, 4, 1 + "xyz".index(act[0])]
            ensure(np.size(axs) == 3, f"{np.size(axs)} panels for three fields")
            for ax, r in zip(axs, rows):
                (line,) = ax.get_lines()
                close(line.get_ydata(), w[r][idx], rtol=1e-14, what=f"variable {r}")
                close(line.get_xdata(), e[act[0]], rtol=1e-14, what="abscissa")
        else:
            sp = np.sqrt((w[1:4] ** 2).sum(axis=0))
            ensure(np.size(axs) == 6, f"{np.size(axs)} panels for six fields")
            for ax, want in zip(axs.ravel(), [w[0], w[4], sp, w[1], w[2], w[3]]):
                (im,) = ax.get_images()
                close(shown(im), want[idx], rtol=1e-13, what="panel")
    finally:
        plt.close("all")
    return dict(nontrivial=True, label=f"{len(act)}d figure")
