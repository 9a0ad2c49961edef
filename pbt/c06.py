"""C06: segment and obstruction tests agree with exact geometry."""

from fractions import Fraction as F

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import RIS, Vertex, Wall, segments_intersect

from . import gen, ref
from .core import Res, Sub, ensure
from .lib import J, f32

TOLS = [None, 0.0, 0.25, 0.5, 0.005, 1.0]  # None: the default, 0.005
PATCHES = [None, 0.0, 0.25, 1.0, -0.25, -0.5, 0.01]


def exact_verdict(p1, p2, p3, p4, tol):
    """True/False by rational arithmetic; also the parameters."""
    a = (p2[0] - p1[0], p2[1] - p1[1])
    b = (p4[0] - p3[0], p4[1] - p3[1])
    c = (p3[0] - p1[0], p3[1] - p1[1])
    den = a[0] * b[1] - a[1] * b[0]
    if den == 0:
        return False, None, den
    al = (c[0] * b[1] - c[1] * b[0]) / den
    be = (c[0] * a[1] - c[1] * a[0]) / den
    return all(-tol <= t <= 1 + tol for t in (al, be)), (al, be), den


def pow2(x):
    n, d = abs(x).numerator, x.denominator
    return n & (n - 1) == 0 and d & (d - 1) == 0


def dyadic(t, tol):
    """tol and 1 + tol are 32-bit floats, so comparisons with them are exact."""
    return ref.is_f32(float(tol), 1.0 + float(tol)) and F(float(tol)) == tol


def decide(p1, p2, p3, p4, tol):
    """Rational verdict, or None when 32-bit rounding may legitimately change it."""
    fr = [tuple(F(x) for x in p) for p in (p1, p2, p3, p4)]
    v, params, den = exact_verdict(*fr, tol)
    a, b = np.subtract(p2, p1), np.subtract(p4, p3)
    c = np.subtract(p3, p1)
    exact = ref.is_f32(a, b, c, *(x[i] * y[1 - i] for x, y in ((a, b), (c, a), (c, b)) for i in (0, 1)))
    if den == 0:
        return (False if exact else None), "parallel"
    edge = min(abs(t - x) for t in params for x in (-tol, 1 + tol))
    if edge == 0:
        # On a bound: judged where nothing at all is rounded
        if exact and pow2(den) and dyadic(None, tol):
            return v, "bound"
        return None, "bound-inexact"
    r = ref.segments_cross(p1, p2, p3, p4, float(tol), 2.0)
    if r is None and exact and pow2(den) and dyadic(None, tol):
        return v, "near-exact"
    return r, ("generic" if v else "apart")


# --- segments -------------------------------------------------------------------


@st.composite
def seg_case(draw):
    kind = draw(st.sampled_from(["free", "free", "cross", "cross", "bound", "bound", "collinear", "point"]))
    s = draw(gen.style("lattice", "lattice8", "fine", "wide", "tiny") if kind != "bound" else gen.style("lattice", "lattice8"))
    e, m = gen.STYLES[s]
    tol = draw(st.sampled_from(TOLS))
    if kind == "free":
        ps = [draw(gen.point(s)) for _ in range(4)]
    elif kind == "cross":
        # Two segments through a common point, at chosen parameters
        x = draw(gen.point(s))
        d1, d2 = draw(gen.point(s)), draw(gen.point(s))
        k = [draw(st.integers(-3, 9)) for _ in range(2)]
        # point = p + k/8 * 8 d  ->  p = x - k d
        ps = []
        for d, kk in zip((d1, d2), k):
            ps += [[x[0] - kk * d[0], x[1] - kk * d[1]], [x[0] + (8 - kk) * d[0], x[1] + (8 - kk) * d[1]]]
    elif kind == "bound":
        # Exactly on a bound of the parameter range, power-of-two determinant
        x = draw(gen.point(s))
        l1, l2 = draw(st.sampled_from([4, 8, 16])), draw(st.sampled_from([4, 8, 16]))
        t = {None: 0, 0.0: 0, 0.25: 1, 0.5: 2, 0.005: 0, 1.0: 4}[tol]  # in quarters
        def par():
            w = draw(st.sampled_from(["lo", "hi", "in", "lo-", "hi+"]))
            return {"lo": -t, "hi": 4 + t, "in": 2, "lo-": -t - 1, "hi+": 5 + t}[w]
        a1, a2 = par(), par()
        shear = draw(st.integers(-2, 2))
        u = [l1, 0]
        v = [shear * l2, l2]
        if draw(st.booleans()):
            u, v = u[::-1], v[::-1]
        sg = [draw(st.sampled_from([1, -1])) for _ in range(2)]
        u = [sg[0] * c for c in u]
        v = [sg[1] * c for c in v]
        ps = []
        for d, a in ((u, a1), (v, a2)):
            o = [x[0] - a * d[0] // 4, x[1] - a * d[1] // 4]
            ps += [o, [o[0] + d[0], o[1] + d[1]]]
    elif kind == "collinear":
        p, d = draw(gen.point(s)), draw(gen.point(s))
        off = draw(st.sampled_from([[0, 0], [0, 1], [1, 0]]))
        k = [draw(st.integers(-4, 4)) for _ in range(4)]
        ps = [[p[0] + kk * d[0] + (off[0] if j > 1 else 0), p[1] + kk * d[1] + (off[1] if j > 1 else 0)] for j, kk in enumerate(k)]
    else:
        p, q, r = (draw(gen.point(s)) for _ in range(3))
        j = draw(st.sampled_from(["first", "second", "both", "on"]))
        ps = {"first": [p, p, q, r], "second": [q, r, p, p], "both": [p, p, p, p], "on": [p, p, p, q]}[j]
    return {"e": e, "ps": ps, "tol": tol, "kind": kind, "arr": draw(st.booleans())}


def check_seg(c):
    P = [f32(p, c["e"]) for p in c["ps"]]
    tol = 0.005 if c["tol"] is None else c["tol"]
    # A tolerance given as an array is a 32-bit float, as it is once compared
    tolq = F(float(np.float32(tol)))
    want, why = decide(*(p.astype(np.float64) for p in P), tolq)
    kw = {}
    if c["tol"] is not None:
        kw["tol"] = jnp.asarray(tol, dtype=jnp.float32) if c["arr"] else tol
    if want is None:
        return Res(False, ("undecided",))
    a, b, d, f = (J(p) for p in P)
    n = 0
    for args in ((a, b, d, f), (d, f, a, b), (b, a, d, f), (a, b, f, d), (f, d, b, a)):
        got = np.asarray(segments_intersect(*args, approx=False, **kw))
        ensure(got.dtype == bool and got.shape == (), "exact mode must give one boolean, got %s", got.dtype)
        ensure(bool(got) == want, "segments_intersect(%s, %s) = %s, exact geometry says %s (%s)", args, kw, got, want, why)
        n += 1
    return Res(why != "apart", (c["kind"], why, f"hit={want}"), n)


# --- walls ----------------------------------------------------------------------


@st.composite
def wall_case(draw):
    kind = draw(st.sampled_from(["free", "free", "bound", "bound", "cross"]))
    s = draw(gen.style("lattice", "lattice8", "fine", "wide", "tiny") if kind != "bound" else gen.style("lattice8"))
    e, m = gen.STYLES[s]
    patch = draw(st.sampled_from(PATCHES))
    tol = draw(st.sampled_from([None, None, 0.0, 0.25]))
    cls = draw(st.sampled_from(["W", "W", "R"]))
    if kind == "bound":
        # Axis-aligned wall of length 16, leg of length 16 crossing near a patched end
        x = [draw(st.integers(-8, 8)) for _ in range(2)]
        p = {None: 0, 0.0: 0, 0.25: 4, 1.0: 16, -0.25: -4, -0.5: -8, 0.01: 0}[patch]
        t = {None: 0, 0.0: 0, 0.25: 4}[tol]
        # tolerance is relative to the lengthened wall
        L = 16 + 2 * p
        tl = (L * t) // 16
        where = draw(st.sampled_from([-p - tl, -p - tl - 1, -p - tl + 1, 16 + p + tl, 17 + p + tl, 15 + p + tl, 8]))
        lt = draw(st.sampled_from([-t, -t - 1, 16 + t, 17 + t, 8]))
        w = [[0, 0], [16, 0]]
        leg = [[where, -lt], [where, 16 - lt]]
        ps = [*w, *leg]
        if draw(st.booleans()):
            ps = [q[::-1] for q in ps]
        sx, sy = draw(st.sampled_from([1, -1])), draw(st.sampled_from([1, -1]))
        ps = [[sx * q[0] + x[0], sy * q[1] + x[1]] for q in ps]
        w, leg = ps[:2], ps[2:]
    else:
        w = draw(gen.segment(s))
        if kind == "cross":
            k = draw(st.integers(-6, 14))
            d = draw(gen.point(s))
            x = [8 * w[0][0] + k * (w[1][0] - w[0][0]), 8 * w[0][1] + k * (w[1][1] - w[0][1])]
            e += 3
            w = [[8 * v for v in q] for q in w]
            leg = [[x[0] - d[0], x[1] - d[1]], [x[0] + d[0], x[1] + d[1]]]
        else:
            leg = [draw(gen.point(s)), draw(gen.point(s))]
    return {"e": e, "w": w, "leg": leg, "patch": patch, "tol": tol, "cls": cls, "kind": kind, "arr": draw(st.booleans())}


def check_wall(c):
    W, L = f32(c["w"], c["e"]), f32(c["leg"], c["e"])
    patch = 0.0 if c["patch"] is None else float(np.float32(c["patch"]))
    tol = 0.005 if c["tol"] is None else c["tol"]
    w64, l64 = W.astype(np.float64), L.astype(np.float64)
    t = w64[1] - w64[0]
    e0, e1 = w64[0] - patch * t, w64[1] + patch * t
    tolq = F(float(np.float32(tol)))
    if ref.is_f32(e0, e1, patch * t):
        want, why = decide(e0, e1, l64[0], l64[1], tolq)
    else:
        want, why = ref.segments_cross(e0, e1, l64[0], l64[1], tol, 4.0), "rounded"
    if want is None:
        return Res(False, ("undecided",))
    kw = {}
    if c["patch"] is not None:
        kw["patch"] = jnp.asarray(c["patch"], dtype=jnp.float32) if c["arr"] else c["patch"]
    if c["tol"] is not None:
        kw["tol"] = c["tol"]
    mk = Wall if c["cls"] == "W" else RIS
    n = 0
    for ww in (W, W[::-1]):
        for ll in (L, L[::-1]):
            got = np.asarray(mk(xys=J(ww)).intersects_cartesian(J(ll), approx=False, **kw))
            ensure(got.dtype == bool and got.shape == (), "exact mode must give one boolean, got %s", got.dtype)
            ensure(bool(got) == want, "wall %s obstructs leg %s with %s: got %s, exact geometry says %s (%s)", ww.tolist(), ll.tolist(), kw, got, want, why)
            n += 1
    # A vertex never obstructs, wherever the leg passes
    for at in (W[0], L[0], L[1], 0.5 * (L[0] + L[1])):
        got = np.asarray(Vertex(xy=J(at)).intersects_cartesian(J(L), approx=False, **kw if "tol" not in kw else {}))
        ensure(got.dtype == bool and not got, "a vertex at %s obstructs %s", at, L)
        n += 1
    return Res(why != "apart", (c["kind"], why, f"hit={want}", f"patch={c['patch']}"), n)


SUBS = [
    Sub("segments", seg_case(), check_seg, 8000, 200000, "the lines cross near or within the ranges, or are parallel, collinear or degenerate"),
    Sub("wall", wall_case(), check_wall, 3200, 60000, "as for segments, for a wall with a patch"),
]
