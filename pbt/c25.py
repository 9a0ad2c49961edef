"""C25: rotating a ray is a rigid rotation about the given centre."""

import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import RIS, Point, Ray, Vertex, Wall

from . import gen, ref
from .core import Known, Res, Sub, ensure
from .lib import A, J, PHI, f32

EPS = ref.EPS


def rotate(xys, a, c):
    x = np.asarray(xys, dtype=np.float64) - c
    out = np.empty_like(x)
    out[:, 0] = x[:, 0] * np.cos(a) - x[:, 1] * np.sin(a)
    out[:, 1] = x[:, 0] * np.sin(a) + x[:, 1] * np.cos(a)
    return out + c


def recorded(xys, a, c):
    """What the recorded finding computes: the rotation matrix applied to the rows."""
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    return R @ (np.asarray(xys, dtype=np.float64) - c) + c


@st.composite
def case(draw, about_pi):
    s = draw(gen.style("lattice", "fine", "wide", "tiny"))
    return {
        "e": gen.exp_of(s),
        "w": draw(gen.segment(s)),
        "cls": draw(st.sampled_from(["ray", "W", "R"])),
        "phi": draw(gen.spread(-3000, 3000)),
        "a": draw(st.integers(-6, 6)) if about_pi else draw(gen.spread(-8000, 8000)),
        "pi": about_pi,
        "c": draw(gen.point(s)),
        "how": draw(st.sampled_from(["none", "point", "array", "vertex"])),
        "arr": draw(st.booleans()),
    }


def check(c):
    e = c["e"]
    xys = f32(c["w"], e)
    cls = {"ray": Ray, "W": Wall, "R": RIS}[c["cls"]]
    kw = {"phi": J(np.float32(c["phi"] / PHI))} if c["cls"] == "R" else {}
    r = cls(xys=J(xys), **kw)
    a = float(np.float32(c["a"] * np.pi)) if c["pi"] else c["a"] / PHI
    ctr = f32(c["c"], e)
    args = {"none": (), "point": (Point(xy=J(ctr)),), "array": (J(ctr),), "vertex": (Vertex(xy=J(ctr)),)}[c["how"]]
    c64 = np.zeros(2) if c["how"] == "none" else ctr.astype(np.float64)
    angle = J(np.float32(a)) if c["arr"] else a
    a = float(np.float32(a))
    got = r.rotate(angle, *args)
    ensure(type(got) is cls, "rotating a %s gives a %s", cls.__name__, type(got).__name__)
    ensure(np.array_equal(np.asarray(r.xys), xys), "rotation changed the original")
    if kw:
        ensure(np.array_equal(np.asarray(got.phi), np.asarray(r.phi)), "rotation changed the surface's angle: %s", got.phi)
    g = A(got.xys)
    ensure(g.shape == (2, 2), "shape %s", g.shape)
    x64 = xys.astype(np.float64)
    tol = 32 * EPS * (np.abs(x64).max() + np.abs(c64).max() + 1e-30) * (1 + abs(a))
    want = rotate(x64, a, c64)
    if np.all(np.abs(g - want) <= tol):
        n = 4
        d0, d1 = np.hypot(*(x64[1] - x64[0])), np.hypot(*(g[1] - g[0]))
        ensure(abs(d0 - d1) <= 4 * tol, "lengths %s, %s", d0, d1)
        # Composition with the opposite rotation
        back = A(got.rotate(-angle, *args).xys)
        ensure(np.all(np.abs(back - x64) <= 4 * tol) or np.all(np.abs(back - recorded(g, -a, c64)) <= 4 * tol), "rotating back gives %s, expected %s", back, x64)
        return Res(abs(np.sin(a)) > 1e-3 or abs(a) > 1, (c["how"], c["cls"]), n)
    if np.all(np.abs(g - recorded(x64, a, c64)) <= tol):
        raise Known("C25-rows", f"rotating {xys.tolist()} by {a} about {c64} gives {g.tolist()}, expected {want.tolist()}")
    ensure(False, "rotating %s by %s about %s (%s) gives %s, expected %s", xys.tolist(), a, c64, c["how"], g.tolist(), want.tolist())


SUBS = [
    Sub("half_turns", case(True), check, 1500, 20000, "non-zero angle, a multiple of half a turn"),
    Sub("angles", case(False), check, 1500, 20000, "any angle (meets the recorded finding)"),
]
