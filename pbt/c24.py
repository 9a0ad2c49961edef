"""C24: path length, received power and vector normalisation follow their laws."""

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import ImagePath, Path, Point, normalize, path_length
from differt2d.utils import P0, received_power

from . import gen, ref
from .core import Res, Sub, ensure
from .lib import J, PHI, f32, objs, pt

EPS = ref.EPS


def len_err(xys):
    x = np.asarray(xys, dtype=np.float64)
    d = np.abs(np.diff(x, axis=0)).sum()
    return 8 * EPS * d + 4 * EPS * len(x) + 1e-30


@st.composite
def length_case(draw):
    s = draw(gen.style("lattice", "fine", "wide", "big", "lattice8", "tiny"))
    n = draw(st.one_of(st.integers(1, 7), st.sampled_from([9, 17, 33, 40])))
    ps = [draw(gen.point(s)) for _ in range(n)]
    for i in range(1, n):
        if draw(st.integers(0, 5)) == 0:
            ps[i] = ps[i - 1]
    return {"e": gen.exp_of(s), "ps": ps, "at": draw(st.integers(0, 5)), "num": draw(st.integers(0, 4))}


def check_length(c):
    e = c["e"]
    x = f32(c["ps"], e)
    want, err = ref.length(x), len_err(x)
    n = 0
    for got in (path_length(J(x)), Path(xys=J(x)).length(), ImagePath(xys=J(x)).length(), path_length(J(x[::-1]))):
        got = np.asarray(got)
        ensure(got.shape == () and np.isfinite(got), "length %s", got)
        ensure(abs(float(got) - want) <= err, "length of %s is %s, expected %s", x.tolist(), got, want)
        n += 1
    if len(x) > 1:
        # A point inserted on a leg
        i = c["at"] % (len(x) - 1)
        a, b = np.asarray(c["ps"][i]), np.asarray(c["ps"][i + 1])
        y = np.asarray(c["ps"]) * 4
        y = np.insert(y, i + 1, (4 - c["num"]) * a + c["num"] * b, axis=0)
        y = y / 2.0 ** (e + 2)
        if ref.is_f32(y):
            got = float(path_length(J(y)))
            ensure(abs(got - want) <= err + len_err(y), "inserting a point on a leg: %s, expected %s", got, want)
            n += 1
    return Res(want > 0, (f"points={len(x)}", "repeated" if len({tuple(p) for p in c["ps"]}) < len(x) else "distinct"), n)


OBJ_PATTERNS = ["", "W", "WW", "RV", "VWR", "WWWW"]


@st.composite
def power_case(draw):
    s = draw(gen.style("lattice", "fine", "wide", "tiny"))
    n = draw(st.integers(0, 4))
    ps = [draw(gen.point(s)) for _ in range(n + 2)]
    if draw(st.integers(0, 4)) == 0:
        ps = [ps[0]] * len(ps)
    pat = draw(st.sampled_from(OBJ_PATTERNS))
    os = []
    for k in pat:
        os.append(["V", draw(gen.point(s))] if k == "V" else ([k, draw(gen.segment(s))] + ([draw(gen.spread(-3000, 3000))] if k == "R" else [])))
    return {
        "e": gen.exp_of(s),
        "ps": ps,
        "objs": os,
        "tx": draw(gen.point(s)),
        "rx": draw(gen.point(s)),
        "r": draw(st.one_of(st.none(), st.integers(1, 64))),  # coefficient in 1/32
        "h": draw(st.one_of(st.none(), st.integers(1, 1 << 10))),  # height in 1/256
    }


def check_power(c):
    e = c["e"]
    x = f32(c["ps"], e)
    path = Path(xys=J(x))
    kw = {}
    r, h = 0.5, 0.1
    if c["r"] is not None:
        r = c["r"] / 32.0
        kw["r_coef"] = r
    if c["h"] is not None:
        h = c["h"] / 256.0
        kw["height"] = h
    got = np.asarray(received_power(pt(c["tx"], e), pt(c["rx"], e), path, objs(c["objs"], e), **kw))
    k = len(x) - 2
    d, derr = ref.length(x), len_err(x)
    want = r**k / (h * h + d * d)
    rel = 16 * EPS * (1 + k) + 2 * d * derr / (h * h + d * d)
    ensure(got.shape == () and abs(float(got) - want) <= rel * want, "power of %s with %s is %s, expected %s", x.tolist(), kw, got, want)
    n = 1
    if not kw:
        ensure(float(got) <= P0 * (1 + 1e-5), "power %s above the reference %s", got, P0)
        if k == 0 and d == 0:
            ensure(abs(float(got) - P0) <= 1e-4 * P0, "power at zero distance %s is not the reference %s", got, P0)
        n += 1
    # Whatever the nodes and objects
    got2 = float(received_power(pt(c["rx"], e), pt(c["tx"], e), path, [], **kw))
    ensure(abs(got2 - want) <= rel * want, "power depends on the nodes or objects: %s and %s", got, got2)
    if h and kw:
        # Given as arrays
        kwa = {a: jnp.asarray(b) for a, b in kw.items()}
        got3 = float(received_power(pt(c["tx"], e), pt(c["rx"], e), path, objs(c["objs"], e), **kwa))
        ensure(abs(got3 - want) <= rel * want, "power with array parameters %s, expected %s", got3, want)
        n += 1
    return Res(d > 0, (f"interactions={k}", "default" if not kw else "custom", "zero length" if d == 0 else "long"), n + 1)


@st.composite
def norm_case(draw):
    s = draw(gen.style("lattice", "fine", "wide", "big", "tiny"))
    return {"e": gen.exp_of(s), "v": draw(gen.point(s)), "k": draw(st.integers(-8, 8))}


def check_norm(c):
    v = f32(c["v"], c["e"])
    u, L = normalize(J(v))
    u, L = np.asarray(u, dtype=np.float64), np.asarray(L)
    ensure(u.shape == (2,) and L.shape == (), "shapes %s, %s", u.shape, L.shape)
    v64 = v.astype(np.float64)
    if not v64.any():
        ensure(np.array_equal(u, [0, 0]) and float(L) == 1.0, "null vector: %s, %s", u, L)
        return Res(True, ("null",), 2)
    want = np.hypot(*v64)
    ensure(abs(float(L) - want) <= 4 * EPS * want, "norm of %s is %s, expected %s", v, L, want)
    ensure(np.all(np.abs(u - v64 / want) <= 6 * EPS), "%s normalised is %s, expected %s", v, u, v64 / want)
    s = 2.0 ** c["k"]
    u2, L2 = normalize(J(s * v64))
    ensure(np.all(np.abs(np.asarray(u2) - v64 / want) <= 6 * EPS) and abs(float(L2) - s * want) <= 4 * EPS * s * want, "scaled by %s: %s, %s", s, u2, L2)
    return Res(True, ("vector",), 4)


SUBS = [
    Sub("length", length_case(), check_length, 1600, 30000, "positive length", weight=2),
    Sub("power", power_case(), check_power, 1600, 30000, "positive length", weight=2),
    Sub("normalize", norm_case(), check_norm, 2000, 30000, "every case"),
]
