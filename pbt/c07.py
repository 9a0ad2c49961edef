"""C07: wall geometry: parameters, normal, mirror image, vertices, sampling; ray and vertex basics."""

import jax
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import RIS, Ray, Vertex, Wall

from . import gen, ref
from .core import Res, Sub, ensure
from .lib import A, J, f32, key

EPS = ref.EPS
STYLES = ("lattice", "lattice8", "fine", "wide", "big", "unit", "tiny")


@st.composite
def params_case(draw):
    s = draw(gen.style(*STYLES))
    return {
        "e": gen.exp_of(s),
        "w": draw(gen.segment(s)),
        "cls": draw(st.sampled_from(["W", "W", "R"])),
        "s": draw(st.integers(-24, 32)),  # parameter in eighths
        "off": draw(st.integers(-8, 8)),  # orthogonal offset, in eighths of the length
        "p": draw(gen.point(s)),
    }


def mk(c):
    cls = Wall if c["cls"] == "W" else RIS
    xys = f32(c["w"], c["e"])
    return cls(xys=J(xys)), xys.astype(np.float64)


def check_params(c):
    w, xys = mk(c)
    o, t = xys[0], xys[1] - xys[0]
    L = np.hypot(*t)
    mag = np.abs(xys).max()
    n = 0
    cnt = w.parameters_count()
    ensure(int(cnt) == 1, "a wall has one parameter, got %s", cnt)

    # Map to coordinates: affine, 0 -> origin, 1 -> destination
    s = c["s"] / 8.0
    for v in (0.0, 1.0, s):
        got = A(w.parametric_to_cartesian(J([v])))
        ensure(got.shape == (2,), "shape %s", got.shape)
        err = 4 * EPS * (np.abs(o) + abs(v) * np.abs(t)) + 1e-30
        ensure(np.all(np.abs(got - (o + v * t)) <= err), "parameter %s of %s maps to %s, expected %s", v, xys.tolist(), got, o + v * t)
        n += 1

    # Inverse map, on the line, off the line (orthogonal projection) and anywhere
    nv = np.array([t[1], -t[0]])
    for p in (o + s * t, o + s * t + c["off"] / 8.0 * nv, A(f32(c["p"], c["e"])), xys[0], xys[1]):
        p32 = p.astype(np.float32)
        want = ref.param(xys, p32)
        got = A(w.cartesian_to_parametric(J(p32)))
        ensure(got.shape == (1,), "shape %s", got.shape)
        ensure(abs(got[0] - want) <= ref.param_err(xys, p32), "parameter of %s on %s is %s, expected %s", p32, xys.tolist(), got, want)
        n += 1

    # Round trip
    got = A(w.cartesian_to_parametric(w.parametric_to_cartesian(J([s]))))[0]
    ensure(abs(got - s) <= 16 * EPS * (1 + abs(s)) * (1 + mag / L), "round trip of %s gives %s on %s", s, got, xys.tolist())

    # Containment, bounds included
    one, zero = np.float32(1), np.float32(0)
    for v in (zero, one, np.nextafter(zero, -one), np.nextafter(one, np.float32(2)), np.nextafter(one, zero), np.float32(-1e-30), np.float32(s), np.float32(-s)):
        got = np.asarray(w.contains_parametric(J([v]), approx=False))
        if 0 < abs(v) < 1.2e-38:
            continue  # subnormal numbers may be flushed to zero
        ensure(got.dtype == bool and got.shape == (), "containment must be one boolean")
        ensure(bool(got) == (0.0 <= float(v) <= 1.0), "parameter %r: contained is %s", v, got)
        n += 1
    return Res(True, (f"style e={c['e']}", "inside" if 0 <= s <= 1 else "outside", c["cls"]), n)


@st.composite
def mirror_case(draw):
    s = draw(gen.style(*STYLES))
    return {
        "e": gen.exp_of(s),
        "w": draw(gen.segment(s)),
        "cls": draw(st.sampled_from(["W", "W", "R"])),
        "p": draw(gen.point(s)),
        "s": draw(st.integers(-16, 24)),
    }


def check_mirror(c):
    w, xys = mk(c)
    t = xys[1] - xys[0]
    L = np.hypot(*t)
    nr = A(w.normal())
    want = np.array([t[1], -t[0]]) / L
    ensure(nr.shape == (2,) and np.all(np.abs(nr - want) <= 8 * EPS), "normal of %s is %s, expected %s", xys.tolist(), nr, want)
    p = f32(c["p"], c["e"])
    p64 = p.astype(np.float64)
    mag = np.abs(xys).max() + np.abs(p64).max()
    tol = 32 * EPS * mag
    want = ref.image(xys, p64)
    got = A(w.image_of(J(p)))
    ensure(got.shape == (2,) and np.all(np.abs(got - want) <= tol), "mirror image of %s in %s is %s, expected %s", p, xys.tolist(), got, want)
    back = A(w.image_of(J(got)))
    ensure(np.all(np.abs(back - p64) <= 4 * tol), "mirroring %s twice in %s gives %s", p, xys.tolist(), back)
    d0, d1 = np.dot(p64 - xys[0], want_n(xys)), np.dot(got - xys[0], want_n(xys))
    ensure(abs(d0 + d1) <= 2 * tol, "distances %s and %s to the wall", d0, d1)
    # Points of the line are their own images
    q = (xys[0] + c["s"] / 8.0 * t).astype(np.float32)
    got = A(w.image_of(J(q)))
    q64 = q.astype(np.float64)
    ensure(np.all(np.abs(got - q64) <= 32 * EPS * (np.abs(xys).max() + np.abs(q64).max())), "%s is on the line of %s but its image is %s", q, xys.tolist(), got)
    # Reversing the wall flips the normal and keeps the images
    r = type(w)(xys=J(f32(c["w"][::-1], c["e"])))
    ensure(np.all(np.abs(A(r.normal()) + nr) <= 8 * EPS), "reversed normal %s vs %s", A(r.normal()), nr)
    ensure(np.all(np.abs(A(r.image_of(J(p))) - want) <= tol), "reversing the wall moved the image")
    return Res(abs(d0) > tol, ("off" if abs(d0) > tol else "on line", c["cls"]), 7)


def want_n(xys):
    return ref.normal(xys)


@st.composite
def basics_case(draw):
    s = draw(gen.style(*STYLES))
    return {
        "e": gen.exp_of(s),
        "w": draw(gen.segment(s)),
        "key": draw(gen.keys()),
        "v": draw(gen.point(s)),
        "p": draw(gen.point(s)),
    }


def check_basics(c):
    xys = f32(c["w"], c["e"])
    o, t = xys[0].astype(np.float64), (xys[1] - xys[0]).astype(np.float64)
    L, mag = np.hypot(*t), np.abs(xys).max()
    n = 0
    for cls in (Ray, Wall, RIS):
        r = cls(xys=J(xys))
        for name, want in (("origin", xys[0]), ("dest", xys[1]), ("t", xys[1] - xys[0])):
            got = np.asarray(getattr(r, name)())
            ensure(np.array_equal(got, want), "%s.%s() of %s is %s", cls.__name__, name, xys.tolist(), got)
            n += 1
    for cls in (Wall, RIS):
        w = cls(xys=J(xys))
        vs = w.get_vertices()
        ensure(len(vs) == 2 and all(isinstance(v, Vertex) for v in vs), "two vertices expected")
        ensure(np.array_equal(np.asarray(vs[0].xy), xys[0]) and np.array_equal(np.asarray(vs[1].xy), xys[1]), "vertices of %s are %s", xys.tolist(), vs)
        # Samples lie on the wall
        for k in jax.random.split(key(c["key"]), 3):
            q = A(w.sample(k))
            q2 = A(w.sample(k))
            ensure(np.array_equal(q, q2), "same key, different samples")
            s = float(np.dot(q - o, t) / (L * L))
            m = 16 * EPS * (1 + mag / L)
            off = abs(ref.cross(t, q - o)) / L
            ensure(-m <= s <= 1 + m and off <= m * L, "sample %s of wall %s is off it (parameter %s, distance %s)", q, xys.tolist(), s, off)
            n += 1
    # Vertices: a single position
    v32 = f32(c["v"], c["e"])
    v = Vertex(xy=J(v32))
    ensure(int(v.parameters_count()) == 0, "a vertex has no parameter")
    empty = J(np.zeros(0))
    for got in (v.parametric_to_cartesian(empty), v.sample(key(c["key"]))):
        ensure(np.array_equal(np.asarray(got), v32), "vertex at %s gave %s", v32, got)
    ensure(np.asarray(v.cartesian_to_parametric(J(f32(c["p"], c["e"])))).shape == (0,), "a vertex has no parameter")
    got = np.asarray(v.contains_parametric(empty, approx=False))
    ensure(got.dtype == bool and bool(got), "a vertex contains its point")
    return Res(True, (f"e={c['e']}",), n + 5)


@st.composite
def spread_case(draw):
    return {"key": draw(gen.keys()), "w": draw(gen.segment("lattice8")), "e": 3}


def check_spread(c):
    """Many keys: samples stay on the wall and reach all of it."""
    w = Wall(xys=J(f32(c["w"], c["e"])))
    xys = f32(c["w"], c["e"]).astype(np.float64)
    q = A(jax.vmap(w.sample)(jax.random.split(key(c["key"]), 256)))
    s = np.array([ref.param(xys, p) for p in q])
    ensure(s.min() >= -1e-5 and s.max() <= 1 + 1e-5, "samples off the wall: parameters %s to %s", s.min(), s.max())
    # Chance of a miss with uniform sampling: below 4 * 0.75**256 < 1e-31
    for lo in (0.0, 0.25, 0.5, 0.75):
        ensure(np.any((s >= lo) & (s <= lo + 0.25)), "no sample among 256 with parameter in [%s, %s]", lo, lo + 0.25)
    return Res(True, (), 260)


SUBS = [
    Sub("params", params_case(), check_params, 900, 30000, "every case: random wall, parameter, offset and point", weight=3),
    Sub("mirror", mirror_case(), check_mirror, 1500, 30000, "the point is off the wall's line", weight=2),
    Sub("basics", basics_case(), check_basics, 700, 12000, "every case", weight=3),
    Sub("spread", spread_case(), check_spread, 40, 400, "every case: 256 samples of one wall", shards=2, weight=5),
]
