"""
independent reference implementation of the documented scheme

Written from the documentation and the literature; shares no code with fvhoe.
All stencil weights are derived here in rational arithmetic.
"""

from fractions import Fraction as Fr
from functools import lru_cache

import numpy as np

from gen import cons2prim, prim2cons

# ------------------------------------------------------------------ stencils


def _solve(A, b):
    """solve a small rational system"""
    n = len(b)
    M = [list(map(Fr, row)) + [Fr(v)] for row, v in zip(A, b)]
    for c in range(n):
        piv = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[piv] = M[piv], M[c]
        M[c] = [v / M[c][c] for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                M[r] = [a - M[r][c] * b_ for a, b_ in zip(M[r], M[c])]
    return [M[i][n] for i in range(n)]


def _cell_moment(j, k):
    """average of x^k over the cell [j-1/2, j+1/2]"""
    a, b = Fr(2 * j - 1, 2), Fr(2 * j + 1, 2)
    return (b ** (k + 1) - a ** (k + 1)) / (k + 1)


def _weights(cells, target, source):
    """
    weights w_j with sum_j w_j source(j, k) = target(k) for k < len(cells)
    """
    m = len(cells)
    A = [[source(j, k) for j in cells] for k in range(m)]
    return dict(zip(cells, _solve(A, [target(k) for k in range(m)])))


def _centred(p, target, source):
    """degree p stencil: p+1 centred cells, or the mean of the two nearly centred ones"""
    r = (p + 1) // 2
    if p % 2 == 0:
        w = _weights(list(range(-r, r + 1)), target, source)
    else:
        w1 = _weights(list(range(-r, r)), target, source)
        w2 = _weights(list(range(-r + 1, r + 1)), target, source)
        w = {j: (w1.get(j, Fr(0)) + w2.get(j, Fr(0))) / 2 for j in range(-r, r + 1)}
    return [w.get(j, Fr(0)) for j in range(-r, r + 1)]


@lru_cache(maxsize=None)
def interp_weights(p, pos):
    """cell averages -> point value at the left/centre/right of the cell"""
    x = {"l": Fr(-1, 2), "c": Fr(0), "r": Fr(1, 2)}[pos]
    w = _centred(p, lambda k: x**k if k else Fr(1), _cell_moment)
    return tuple(float(v) for v in w)


@lru_cache(maxsize=None)
def average_weights(p):
    """centre values -> average of the cell"""
    w = _centred(
        p,
        lambda k: _cell_moment(0, k),
        lambda j, k: Fr(j) ** k if k else Fr(1),
    )
    return tuple(float(v) for v in w)


def sweep(a, weights, axis):
    """valid correlation of a with weights along axis"""
    m = len(weights)
    n = a.shape[axis] - m + 1
    a = np.moveaxis(a, axis, -1)
    out = np.zeros(a.shape[:-1] + (n,))
    for j in range(m):
        out = out + weights[j] * a[..., j : j + n]
    return np.moveaxis(out, -1, axis)


# ------------------------------------------------------------------ ghosts


def pad_axis(u, g, axis, left, right, lval=None, rval=None):
    """
    pad axis (1, 2, 3) of u by g cells per side
    left/right: boundary type; lval/rval: slab values for dirichlet types
    """
    if g == 0:
        return u
    n = u.shape[axis]
    idx = np.arange(-g, n + g)

    def side(kind, cells, val, isleft):
        if kind == "periodic":
            return u.take(cells % n, axis=axis)
        if kind == "free":
            return u.take(np.full(len(cells), 0 if isleft else n - 1), axis=axis)
        if kind in ("outflow", "reflective"):
            src = -1 - cells if isleft else 2 * n - 1 - cells
            s = u.take(src, axis=axis).copy()
            if kind == "reflective":
                s[axis] = -s[axis]
            return s
        if kind in ("dirichlet", "ic"):
            return val
        raise AssertionError(kind)

    L = side(left, idx[:g], lval, True)
    R = side(right, idx[n + g :], rval, False)
    return np.concatenate([L, u, R], axis=axis)


def cell_coords(case, axis, idx):
    h = case["len"][axis] / case["n"][axis]
    return case["lo"][axis] + (np.asarray(idx) + 0.5) * h


def pad(case, u, gw, t=0.0, dirichlet=None):
    """
    ghost-padded u. dirichlet: {"xl": constants (nvars,) or f(x, y, z, t)}
    """
    out = u
    padded = [0, 0, 0]
    for i, d in enumerate("xyz"):
        if gw[i] == 0:
            continue
        kinds = case["bc"][d] if case.get("bc") else ["periodic", "periodic"]
        vals = []
        for pos, kind in zip("lr", kinds):
            if kind not in ("dirichlet", "ic"):
                vals.append(None)
                continue
            dv = dirichlet[d + pos]
            n = case["n"][i]
            rng = []
            for j in range(3):
                if j == i:
                    rng.append(
                        np.arange(-gw[i], 0) if pos == "l" else np.arange(n, n + gw[i])
                    )
                else:
                    rng.append(np.arange(-padded[j], case["n"][j] + padded[j]))
            C = np.meshgrid(
                *[cell_coords(case, j, rng[j]) for j in range(3)], indexing="ij"
            )
            if callable(dv):
                vals.append(dv(C[0], C[1], C[2], t))
            else:
                vals.append(
                    np.ones((1,) + C[0].shape) * np.asarray(dv).reshape(-1, 1, 1, 1)
                )
        out = pad_axis(out, gw[i], i + 1, kinds[0], kinds[1], vals[0], vals[1])
        padded[i] = gw[i]
    return out


# ------------------------------------------------------------------ physics


def sound_speed(w, gamma, floor=1e-10):
    return np.sqrt(np.maximum(gamma * w[4] / w[0], floor))


def euler_flux(w, gamma, d):
    """physical flux along axis d = 0, 1, 2"""
    u = prim2cons(w, gamma)
    f = u * w[1 + d]
    f[1 + d] = f[1 + d] + w[4]
    f[4] = f[4] + w[4] * w[1 + d]
    return f


def llf(wl, wr, gamma, d, floor=1e-10):
    a = np.maximum(
        np.abs(wl[1 + d]) + sound_speed(wl, gamma, floor),
        np.abs(wr[1 + d]) + sound_speed(wr, gamma, floor),
    )
    return 0.5 * (euler_flux(wl, gamma, d) + euler_flux(wr, gamma, d)) - 0.5 * a * (
        prim2cons(wr, gamma) - prim2cons(wl, gamma)
    )


def hllc(wl, wr, gamma, d, floor=1e-10):
    """HLLC in Toro's form F_K + S_K (U*_K - U_K) with Davis-type wave speeds"""
    c = np.maximum(sound_speed(wl, gamma, floor), sound_speed(wr, gamma, floor))
    vl, vr = wl[1 + d], wr[1 + d]
    sl = np.minimum(vl, vr) - c
    sr = np.maximum(vl, vr) + c
    ss = (wr[4] - wl[4] + wl[0] * vl * (sl - vl) - wr[0] * vr * (sr - vr)) / (
        wl[0] * (sl - vl) - wr[0] * (sr - vr)
    )

    def star(w, s):
        u = prim2cons(w, gamma)
        v = w[1 + d]
        fac = w[0] * (s - v) / (s - ss)
        us = np.empty_like(u)
        us[0] = fac
        for k in range(3):
            us[1 + k] = fac * (ss if k == d else w[1 + k])
        us[4] = fac * (u[4] / w[0] + (ss - v) * (ss + w[4] / (w[0] * (s - v))))
        us[5:] = fac * w[5:]
        return euler_flux(w, gamma, d) + s * (us - u)

    FL, FR = euler_flux(wl, gamma, d), euler_flux(wr, gamma, d)
    return np.where(
        sl >= 0,
        FL,
        np.where(ss >= 0, star(wl, sl), np.where(sr >= 0, star(wr, sr), FR)),
    )


def upwind(wl, wr, gamma, d, floor=None):
    v = wl[1 + d]
    fl = prim2cons(wl, gamma) * wl[1 + d]
    fr = prim2cons(wr, gamma) * wr[1 + d]
    return np.where(v > 0, fl, np.where(v < 0, fr, 0.0))


# set if hllc was given negative densities or pressures, where its waves need not be ordered
UNPHYSICAL = [False]

RIEMANN = dict(hllc=hllc, llf=llf, advection_upwind=upwind)

# ------------------------------------------------------------------ scheme


def active_axes(case):
    return [i for i in range(3) if not (case["n"][i] == 1 and case["p"][i] == 0)]


def primitives(case, u, p, gw, t, dirichlet, averages=True):
    """primitive variables with gw ghost cells, through the cell centres"""
    r = [(q + 1) // 2 for q in p]
    k = 2 if averages else 1
    U = pad(case, u, [gw[i] + k * r[i] for i in range(3)], t, dirichlet)
    for i in range(3):
        U = sweep(U, interp_weights(p[i], "c"), i + 1)
    W = cons2prim(U, case["gamma"])
    if averages:
        for i in range(3):
            W = sweep(W, average_weights(p[i]), i + 1)
    return W


def crop(a, lead, keep):
    """keep cells starting at lead[i], keep[i] of them, along axes 1..3"""
    sl = [slice(None)]
    for l, k in zip(lead, keep):
        sl.append(slice(l, l + k))
    return a[tuple(sl)]


def limited_slope(a, limiter, axis):
    """slopes of the interior cells along axis"""
    a = np.moveaxis(a, axis, -1)
    dl = a[..., 1:-1] - a[..., :-2]
    dr = a[..., 2:] - a[..., 1:-1]
    same = dl * dr > 0
    if limiter == "minmod":
        s = np.where(same, np.sign(dl) * np.minimum(np.abs(dl), np.abs(dr)), 0.0)
    elif limiter == "moncen":
        dc = 0.5 * (dl + dr)
        m = np.minimum(np.minimum(2 * np.abs(dl), 2 * np.abs(dr)), np.abs(dc))
        s = np.where(same, np.sign(dc) * m, 0.0)
    else:
        s = 0.5 * (dl + dr)
    return np.moveaxis(s, -1, axis)


def fluxes(case, u, p, limiter, t, dirichlet, csq_floor=1e-10):
    """dt and the face-averaged fluxes per active axis"""
    n, gamma = case["n"], case["gamma"]
    act = active_axes(case)
    r = [(q + 1) // 2 for q in p]
    pm = (max(p) + 1) // 2
    gmax = max(pm + 1, 2 * pm)
    # dt is taken over everything the solver looks at, ghost cells included
    G = [gmax if i in act else 0 for i in range(3)]
    W = primitives(case, u, p, G, t, dirichlet)
    h = [case["len"][i] / n[i] for i in range(3)]
    if case.get("fixed_dt") is not None:
        dt = case["fixed_dt"]
    else:
        s = np.abs(W[1:4]).sum(axis=0) + len(act) * sound_speed(W, gamma, csq_floor)
        dt = case["CFL"] * min(h) / s.max()
    out = {}
    for d in act:
        A = W
        for e in range(3):
            if e != d:
                A = sweep(A, interp_weights(p[e], "c"), e + 1)
        # A has gmax ghost cells along d and gmax - r[e] along e
        if limiter is not None and p[d] == 1:
            s = limited_slope(A, limiter, d + 1)
            mid = np.moveaxis(np.moveaxis(A, d + 1, -1)[..., 1:-1], -1, d + 1)
            left, right = mid - 0.5 * s, mid + 0.5 * s
        else:
            left = sweep(A, interp_weights(p[d], "l"), d + 1)
            right = sweep(A, interp_weights(p[d], "r"), d + 1)
        left, right = np.moveaxis(left, d + 1, -1), np.moveaxis(right, d + 1, -1)
        if case["rs"] == "hllc" and min(right[[0, 4]].min(), left[[0, 4]].min()) <= 0:
            UNPHYSICAL[0] = True
        f = RIEMANN[case["rs"]](right[..., :-1], left[..., 1:], gamma, d, csq_floor)
        f = np.moveaxis(f, -1, d + 1)
        for e in range(3):
            if e != d:
                f = sweep(f, average_weights(p[e]), e + 1)
        # faces: gmax - r[d] ghost cells -> first kept face is the left face of cell 0
        lead, keep = [0, 0, 0], [1, 1, 1]
        for e in range(3):
            if e == d:
                lead[e], keep[e] = gmax - r[e] - 1, n[e] + 1
            else:
                lead[e] = (gmax if e in act else 0) - 2 * r[e]
                keep[e] = n[e]
        out[d] = crop(f, lead, keep)
    return dt, out


def divergence(case, F):
    dudt = 0.0
    for d, f in F.items():
        h = case["len"][d] / case["n"][d]
        dudt = dudt - np.diff(f, axis=d + 1) / h
    return dudt


# ------------------------------------------------------------------ detection


class Ambiguous(Exception):
    """a threshold is met only to within round-off, the decision is not determined"""


def _shift(a, axis, k, g):
    """a restricted to the interior along axis (g ghost cells) shifted by k"""
    n = a.shape[axis]
    return np.moveaxis(np.moveaxis(a, axis, -1)[..., g + k : n - g + k], -1, axis)


def _inner(a, axes, g):
    for ax in axes:
        a = _shift(a, ax, 0, g)
    return a


def smooth_extremum(wc, dims, eps, rel=1e-9):
    """
    (sure, maybe): boolean arrays per variable and interior cell: the candidate is a smooth
    extremum (or monotone) there, i.e. along every active axis, in the cell and its two
    neighbours, the one-sided changes of the slope both amount to at least the
    centred change of the slope (relative to half of it) or that change is within eps
    """
    sure = maybe = True
    scale = np.max(np.abs(wc), axis=(1, 2, 3), keepdims=True) + 1e-300
    axes = [1 + i for i in dims]
    for ax in axes:
        b = wc
        for o in axes:
            if o != ax:
                b = _shift(b, o, 0, 3)
        b = np.moveaxis(b, ax, -1)
        tiny = rel * 1e-4 * np.moveaxis(scale, ax, -1)
        d = 0.5 * (b[..., 2:] - b[..., :-2])
        d2 = 0.5 * (d[..., 2:] - d[..., :-2])
        half = 0.5 * d2
        dl = d[..., 1:-1] - d[..., :-2]
        dr = d[..., 2:] - d[..., 1:-1]
        sgn = np.sign(half)

        def ok(margin_abs, margin_rel):
            flat = np.abs(half) <= eps + margin_abs
            big = (sgn * dl >= np.abs(half) * (1 + margin_rel) + margin_abs * np.sign(margin_rel)) & (
                sgn * dr >= np.abs(half) * (1 + margin_rel) + margin_abs * np.sign(margin_rel)
            )
            return flat | big

        hi = ok(tiny, -rel)
        flat_lo = np.abs(half) <= np.maximum(eps - tiny, 0)
        lo = (sgn * dl >= np.abs(half) * (1 + rel) + tiny) & (
            sgn * dr >= np.abs(half) * (1 + rel) + tiny
        ) & (np.abs(half) > tiny)
        lo = lo | (flat_lo & (eps > 0))

        def nb(q):
            q = q[..., :-2] & q[..., 1:-1] & q[..., 2:]
            return np.moveaxis(q, -1, ax)

        sure = nb(lo) & sure
        maybe = nb(hi) & maybe
    return sure, maybe


def detect(
    w,
    wc,
    dims,
    NAD=1e-2,
    NAD_mode="global",
    NAD_range="relative",
    NAD_vars=None,
    PAD=None,
    SED=True,
    SED_tolerance=1e-10,
    rel=1e-9,
    exact_bounds=False,
):
    """
    w, wc: five primitive variables with 3 ghost cells along each axis in dims (0, 1, 2)
    returns (sure, maybe, NAD magnitude candidates, PAD magnitude)
    """
    axes = [1 + i for i in dims]
    nbmax = nbmin = None
    import itertools

    for off in itertools.product((-1, 0, 1), repeat=len(axes)):
        b = w
        for ax, k in zip(axes, off):
            b = _shift(b, ax, k, 3)
        nbmax = b if nbmax is None else np.maximum(nbmax, b)
        nbmin = b if nbmin is None else np.minimum(nbmin, b)
    c = _inner(wc, axes, 3)
    gmax = w.max(axis=(1, 2, 3), keepdims=True)
    gmin = w.min(axis=(1, 2, 3), keepdims=True)
    if NAD_range == "relative":
        rng = (gmax - gmin) if NAD_mode == "global" else (nbmax - nbmin)
        lo, hi = nbmin - NAD * rng, nbmax + NAD * rng
        mag = -np.minimum(c - nbmin, nbmax - c)
    else:
        a, b = (gmin, gmax) if NAD_mode == "global" else (nbmin, nbmax)
        lo, hi = (1 - NAD) * a, (1 + NAD) * b
        mag = -np.minimum(c - lo, hi - c)
    scale = np.maximum(np.abs(gmax), np.abs(gmin)) + np.max(
        np.abs(wc), axis=(1, 2, 3), keepdims=True
    )
    tol = rel * scale
    sure = (c < lo - tol) | (c > hi + tol)
    maybe = (c < lo + tol) | (c > hi - tol)
    if SED:
        s_sure, s_maybe = smooth_extremum(wc, dims, SED_tolerance, rel)
        sure = sure & ~s_maybe
        maybe = maybe & ~s_sure
    names = dict(rho=0, vx=1, vy=2, vz=3, P=4)
    if NAD_vars is not None:
        keep = np.zeros((5, 1, 1, 1), dtype=bool)
        for v in NAD_vars:
            keep[names[v]] = True
        sure, maybe = sure & keep, maybe & keep
    nad_sure, nad_maybe = sure.any(axis=0), maybe.any(axis=0)
    NAD_mag = mag.max(axis=0)
    NAD_mag_flagged = np.where(sure, mag, -np.inf).max(axis=0)
    PAD_mag = np.zeros(c.shape[1:])
    pad_sure = np.zeros(c.shape[1:], dtype=bool)
    pad_maybe = np.zeros(c.shape[1:], dtype=bool)
    for var, (a, b) in (PAD or {}).items():
        v = c[names[var]]
        ptol = rel * (np.max(np.abs(v)) + 1e-300)
        if exact_bounds:
            # given values are compared with given bounds: only the rounding of the bound matters
            ptol = 1e-14 * min((abs(q) for q in (a, b) if np.isfinite(q)), default=0.0)
        PAD_mag = np.maximum(PAD_mag, np.maximum(a - v, v - b))
        pad_sure |= (v < a - ptol) | (v > b + ptol)
        pad_maybe |= (v < a + ptol) | (v > b - ptol)
    return dict(
        sure=nad_sure | pad_sure,
        maybe=nad_maybe | pad_maybe,
        nad_sure=nad_sure,
        nad_maybe=nad_maybe,
        pad_sure=pad_sure,
        pad_maybe=pad_maybe,
        NAD_mag=NAD_mag,
        NAD_mag_flagged=NAD_mag_flagged,
        PAD_mag=PAD_mag,
    )


def cell_weights(trouble, act, convex, periodic):
    """
    blending weight of every cell of the domain and of one ring of ghost cells
    around it: dict offset-indexable array with 1 ghost cell per active axis
    """
    import itertools

    n = trouble.shape
    T = trouble.astype(float)
    # ghost trouble: periodic image, else none. 3 rings are enough for reach 2 + 1
    g = [3 if i in act else 0 for i in range(3)]
    big = np.zeros([n[i] + 2 * g[i] for i in range(3)])
    rngs = []
    for i in range(3):
        idx = np.arange(-g[i], n[i] + g[i])
        rngs.append(idx)
    for I in itertools.product(*[range(len(r)) for r in rngs]):
        src = []
        ok = True
        for i in range(3):
            q = rngs[i][I[i]]
            if 0 <= q < n[i]:
                src.append(q)
            elif periodic[i] and i in act and -2 <= q < n[i] + 2:
                src.append(q % n[i])
            elif periodic[i] and i in act:
                src.append(q % n[i])
            else:
                ok = False
                break
        if ok:
            big[I] = T[tuple(src)]
    if not convex:
        return big, g
    theta = np.zeros_like(big)
    offs = itertools.product(*[(-2, -1, 0, 1, 2) if i in act else (0,) for i in range(3)])
    for off in offs:
        a = sorted(abs(o) for i, o in enumerate(off) if i in act)
        if max(a) == 0:
            w = 1.0
        elif max(a) == 2:
            w = 0.25
        elif sum(a) == 1:
            w = 0.75
        else:
            w = 0.5
        sh = np.zeros_like(big)
        src = tuple(
            slice(max(0, -o), big.shape[i] - max(0, o)) for i, o in enumerate(off)
        )
        dst = tuple(
            slice(max(0, o), big.shape[i] - max(0, -o)) for i, o in enumerate(off)
        )
        sh[dst] = big[src]
        theta = np.maximum(theta, w * sh)
    return theta, g


def face_weights(trouble, act, convex, periodic):
    """blending weight per face and active axis"""
    theta, g = cell_weights(trouble, act, convex, periodic)
    n = trouble.shape
    out = {}
    for d in act:
        sl = [slice(g[i], g[i] + n[i]) for i in range(3)]
        lsl, rsl = list(sl), list(sl)
        lsl[d] = slice(g[d] - 1, g[d] + n[d])
        rsl[d] = slice(g[d], g[d] + n[d] + 1)
        out[d] = np.maximum(theta[tuple(lsl)], theta[tuple(rsl)])
    return out


# ------------------------------------------------------------------ full operator


def lim_options(lim):
    from gen import lim_kwargs

    k = dict(lim_kwargs(lim))
    k.pop("a_posteriori_slope_limiting")
    o = dict(
        slope_limiter=k.get("slope_limiter", "minmod"),
        force=k.get("force_trouble", False),
        convex=k.get("convex", False),
        det=dict(
            NAD=k.get("NAD", 1e-2),
            NAD_mode=k.get("NAD_mode", "global"),
            NAD_range=k.get("NAD_range", "relative"),
            NAD_vars=k.get("NAD_vars"),
            PAD={"rho": (0.0, np.inf), "P": (0.0, np.inf)} if k.get("PAD") is None else k["PAD"],
            SED=k.get("SED", True),
            SED_tolerance=k.get("SED_tolerance", 1e-10),
        ),
    )
    return o


def rhs(case, u, t=0.0, dirichlet=None, log=None, csq_floor=1e-10):
    """(dt, du/dt) of the documented scheme; raises Ambiguous if it is not determined"""
    p = case["p"]
    dt, F = fluxes(case, u, p, None, t, dirichlet, csq_floor)
    if case.get("lim") is not None:
        o = lim_options(case["lim"])
        act = active_axes(case)
        us = u + dt * divergence(case, F)
        g = [3 if i in act else 0 for i in range(3)]
        w = primitives(case, u, p, g, t, dirichlet)[:5]
        ws = primitives(case, us, p, g, t, dirichlet)[:5]
        if not (np.all(np.isfinite(w)) and np.all(np.isfinite(ws))):
            raise Ambiguous
        det = detect(w, ws, act, **o["det"])
        if o["force"]:
            trouble = np.ones(det["sure"].shape, dtype=bool)
        else:
            if np.any(det["sure"] != det["maybe"]):
                raise Ambiguous
            trouble = det["sure"]
        if log is not None:
            log.append((trouble, det))
        if trouble.any():
            _, Fl = fluxes(
                case,
                u,
                [int(q > 0) for q in p],
                o["slope_limiter"],
                t,
                dirichlet,
                csq_floor,
            )
            per = [
                (case["bc"][d] if case.get("bc") else ["periodic"] * 2)
                == ["periodic", "periodic"]
                for d in "xyz"
            ]
            th = face_weights(trouble, act, o["convex"], per)
            F = {d: (1 - th[d]) * F[d] + th[d] * Fl[d] for d in F}
    return dt, divergence(case, F)


TABLEAU = {
    # c, A, b
    "euler": ([0], [[]], [1.0]),
    "ssprk2": ([0, 1], [[], [1.0]], [0.5, 0.5]),
    "ssprk3": ([0, 1, 0.5], [[], [1.0], [0.25, 0.25]], [1 / 6, 1 / 6, 2 / 3]),
    "rk4": (
        [0, 0.5, 0.5, 1],
        [[], [0.5], [0, 0.5], [0, 0, 1.0]],
        [1 / 6, 1 / 3, 1 / 3, 1 / 6],
    ),
}


def rk_step(f, t, u, integ, dtmax=None):
    """one step of the named scheme, f(t, u) -> dt, dudt; the first stage sets dt"""
    c, A, b = TABLEAU[integ]
    dt, k0 = f(t, u)
    if dtmax is not None and dtmax < dt:
        dt = dtmax
    ks = [k0]
    for i in range(1, len(c)):
        ui = u
        for a, k in zip(A[i], ks):
            if a:
                ui = ui + dt * a * k
        ks.append(f(t + c[i] * dt, ui)[1])
    un = u
    for bi, k in zip(b, ks):
        un = un + dt * bi * k
    return dt, un
