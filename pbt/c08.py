"""C08: interaction errors measure the departure from each object's law."""

import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import RIS, Vertex, Wall

from . import gen, ref
from .core import Res, Sub, ensure
from .lib import J, PHI, f32

STYLES = ("lattice8", "fine", "wide", "unit", "big", "tiny")
D = 24 * ref.EPS  # error of a difference of unit vectors


def close(got, want):
    """got, want are squared norms of vectors known to D."""
    return abs(got - want) <= 2 * np.sqrt(max(want, 0.0)) * D + D * D + 8 * ref.EPS * want


def ev(o, *pts):
    r = np.asarray(o.evaluate_cartesian(J(np.stack(pts))))
    ensure(r.shape == (), "one number expected, got shape %s", r.shape)
    v = float(r)
    ensure(np.isfinite(v) and v >= 0.0, "%s gives %s on %s", type(o).__name__, v, [p.tolist() for p in pts])
    ensure(v <= 4.0 + 1e-4, "%s gives %s > 4 on %s", type(o).__name__, v, [p.tolist() for p in pts])
    return v


@st.composite
def free_case(draw):
    s = draw(gen.style(*STYLES))
    return {
        "e": gen.exp_of(s),
        "w": draw(gen.segment(s)),
        "w2": draw(st.sampled_from(["reverse", "shift", "double", "quarter"])),
        "sh": draw(gen.point(s)),
        "ps": [draw(gen.point(s)) for _ in range(3)],
        "same": draw(st.sampled_from([None] * 12 + [[0, 1], [1, 2], [0, 2], [0, 1, 2]])),
        "phi": draw(gen.spread(-7000, 7000)),
    }


def check_free(c):
    e = c["e"]
    xys = f32(c["w"], e)
    ps = [f32(p, e) for p in c["ps"]]
    if c["same"]:
        for k in c["same"]:
            ps[k] = ps[c["same"][0]]
    a, b, d = ps
    coincident = np.array_equal(a, b) or np.array_equal(b, d)
    w = Wall(xys=J(xys))
    phi = np.float32(c["phi"] / PHI)
    r = RIS(xys=J(xys), phi=J(phi))
    v = Vertex(xy=J(b))
    for o, pts in ((w, (a, b, d)), (r, (a, b, d)), (v, (a, b, d)), (Vertex(xy=J(d)), (a, b, d))):
        got = ev(o, *pts)
        if isinstance(o, Vertex):
            ensure(got == 0.0, "vertex: %s", got)
    if coincident:
        return Res(True, ("coincident",), 4)
    got = ev(w, a, b, d)
    want = ref.wall_error(xys, (a, b, d))
    ensure(close(got, want), "wall %s, triplet %s: error %s, expected %s", xys.tolist(), [p.tolist() for p in ps], got, want)
    # Reversal
    rev = ev(w, d, b, a)
    ensure(close(rev, want), "reversed triplet: %s, expected %s", rev, want)
    # The wall's direction, position and length do not matter
    x = np.asarray(c["w"])
    if c["w2"] == "reverse":
        x2 = x[::-1]
    elif c["w2"] == "shift":
        x2 = x + np.asarray(c["sh"])
    elif c["w2"] == "double":
        x2 = np.stack([x[0], 2 * x[1] - x[0]])
    else:
        x2 = np.stack([4 * x[0] - 3 * x[1], x[1]])
    if ref.is_f32(x2 / 2.0**e):
        got2 = ev(Wall(xys=J(f32(x2.tolist(), e))), a, b, d)
        ensure(close(got2, want), "wall %s instead of %s: %s, expected %s", x2.tolist(), x.tolist(), got2, want)
    # Moving the ends along their legs
    i, o = np.asarray(c["ps"][1]) - np.asarray(c["ps"][0]), np.asarray(c["ps"][2]) - np.asarray(c["ps"][1])
    a2 = (np.asarray(c["ps"][1]) - 3 * i).tolist()
    d2 = (np.asarray(c["ps"][1]) + 5 * o).tolist()
    if not c["same"] and ref.is_f32(np.asarray(a2) / 2.0**e, np.asarray(d2) / 2.0**e):
        got3 = ev(w, f32(a2, e), b, f32(d2, e))
        ensure(close(got3, want), "moving the ends along the legs: %s, expected %s", got3, want)
    # Intelligent surface
    got = ev(r, a, b, d)
    want_r = ref.ris_error(xys, float(phi), (a, b, d))
    ensure(close(got, want_r), "surface %s phi=%s, triplet %s: error %s, expected %s", xys.tolist(), phi, [p.tolist() for p in ps], got, want_r)
    got = ev(r, f32(c["sh"], e), b, d)
    ensure(close(got, want_r), "the incoming point changed a surface's error: %s, expected %s", got, want_r)
    return Res(True, ("generic", "large" if want > 1 else "small"), 9)


@st.composite
def law_case(draw):
    """Triplets obeying the law exactly, in exact arithmetic."""
    s = draw(gen.style("lattice8", "fine", "wide", "tiny"))
    return {
        "e": gen.exp_of(s),
        "o": draw(gen.point(s)),
        "dir": draw(st.sampled_from([[1, 0], [0, 1], [1, 1], [1, -1], [-1, 0], [0, -1], [3, 4], [-4, 3], [5, 12]])),
        "k": [draw(st.integers(-6, 6).filter(bool)) for _ in range(2)],
        "n": draw(st.integers(-6, 6).filter(bool)),
        "t": draw(st.integers(-8, 8)),
        "m": draw(st.integers(1, 4)),
        "grow": draw(st.integers(1, 5)),
        "bend": draw(st.sampled_from([0, 0, 1, 2])),
    }


def check_law(c):
    e = c["e"]
    o, u = np.asarray(c["o"]), np.asarray(c["dir"])
    nv = np.array([-u[1], u[0]])
    w = np.stack([o + c["k"][0] * u, o + (c["k"][0] + c["k"][1]) * u])
    hit = o
    inc = c["t"] * u + c["n"] * nv  # from hit back to the source
    out = -c["t"] * u + c["n"] * nv  # mirrored about the normal
    src, dst = hit + inc, hit + c["grow"] * out
    if c["bend"] == 1:
        dst = hit + c["grow"] * inc  # straight back
    elif c["bend"] == 2:
        dst = hit - c["grow"] * inc  # straight through
    pts = [f32(p.tolist(), e) for p in (src, hit, dst)]
    wall = Wall(xys=J(f32(w.tolist(), e)))
    got = ev(wall, *pts)
    # Closed forms: specular 0; straight back 4 sin^2; through 4 cos^2
    L2 = float(inc @ inc)
    ct2 = float((inc @ nv) ** 2 / (L2 * (nv @ nv)))
    want = {0: 0.0, 1: 4 * (1 - ct2), 2: 4 * ct2}[c["bend"]]
    ensure(close(got, want), "wall %s, triplet %s: error %s, expected %s", w.tolist(), [p.tolist() for p in pts], got, want)
    # Surface: outgoing at its own angle gives zero, opposite angle the chord
    n = ref.normal(w)
    rr = ref.unit(dst - hit)
    ang = float(np.arctan2(ref.cross(-rr, n), np.dot(-rr, n)))
    off = c["m"] * 0.5
    for ph, want in ((ang, 0.0), (ang + off, 4 * np.sin(off / 2) ** 2)):
        r = RIS(xys=J(f32(w.tolist(), e)), phi=J(np.float32(ph)))
        got = ev(r, *pts)
        ensure(close(got, want), "surface at %s of the outgoing angle %s: error %s, expected %s", ph, ang, got, want)
    return Res(True, (f"bend={c['bend']}",), 3)


SUBS = [
    Sub("free", free_case(), check_free, 1600, 40000, "every case: random object, angle and triplet (a quarter with coincident points)", weight=2),
    Sub("law", law_case(), check_law, 1600, 40000, "every case: triplet constructed to obey the law, to go straight back or straight through"),
]
